// C library functions as the engine sees them (compiled to bitcode and linked with every harness).
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
size_t strlen(const char *s) { size_t n = 0; while (s[n]) ++n; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) ++n; return n; }
int memcmp(const void *a, const void *b, size_t n) {
  const unsigned char *x = a, *y = b;
  for (size_t i = 0; i < n; ++i) if (x[i] != y[i]) return (int)x[i] - (int)y[i];
  return 0;
}
int bcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
void *memchr(const void *a, int c, size_t n) { const unsigned char *x = a; for (size_t i = 0; i < n; ++i) if (x[i] == (unsigned char)c) return (void *)(x + i); return 0; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) ++a, ++b; return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { for (; n; --n, ++a, ++b) { if (*a != *b || !*a) return (int)(unsigned char)*a - (int)(unsigned char)*b; } return 0; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)); return r; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strchr(const char *s, int c) { for (;; ++s) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strrchr(const char *s, int c) { char *r = 0; for (;; ++s) { if (*s == (char)c) r = (char *)s; if (!*s) return r; } }
char *strstr(const char *h, const char *n) { size_t l = strlen(n); for (;; ++h) { if (!strncmp(h, n, l)) return (char *)h; if (!*h) return 0; } }
char *strncat(char *d, const char *s, size_t n) { char *r = d; d += strlen(d); while (n-- && *s) *d++ = *s++; *d = 0; return r; }
char *stpcpy(char *d, const char *s) { while ((*d = *s)) ++d, ++s; return d; }
void *mempcpy(void *d, const void *s, size_t n) { unsigned char *x = d; const unsigned char *y = s; while (n--) *x++ = *y++; return x; }
void *memrchr(const void *a, int c, size_t n) { const unsigned char *x = a; while (n--) if (x[n] == (unsigned char)c) return (void *)(x + n); return 0; }
size_t strspn(const char *s, const char *a) { size_t n = 0; while (s[n] && strchr(a, s[n])) ++n; return n; }
size_t strcspn(const char *s, const char *a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) ++n; return n; }
char *strpbrk(const char *s, const char *a) { s += strcspn(s, a); return *s ? (char *)s : 0; }
static int low(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int strcasecmp(const char *a, const char *b) { while (*a && low((unsigned char)*a) == low((unsigned char)*b)) ++a, ++b; return low((unsigned char)*a) - low((unsigned char)*b); }
int strncasecmp(const char *a, const char *b, size_t n) { for (; n; --n, ++a, ++b) { int d = low((unsigned char)*a) - low((unsigned char)*b); if (d || !*a) return d; } return 0; }
void *malloc(size_t);
void *memcpy(void *, const void *, size_t);
char *strdup(const char *s) { size_t n = strlen(s) + 1; return memcpy(malloc(n), s, n); }
char *strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *r = memcpy(malloc(n + 1), s, n); r[n] = 0; return r; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int isalpha(int c) { return islower(c) || isupper(c); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isprint(int c) { return c >= 32 && c < 127; }
int ispunct(int c) { return isprint(c) && c != ' ' && !isalnum(c); }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int abs(int v) { return v < 0 ? -v : v; }
long long llabs(long long v) { return v < 0 ? -v : v; }
long labs(long v) { return v < 0 ? -v : v; }

void sx_fail(const char *);
typedef struct { char *b; size_t cap, n; } Out;
static void put(Out *o, char c) { if (o->n + 1 < o->cap) o->b[o->n] = c; ++o->n; }
static void putnum(Out *o, uint64_t v, int neg, unsigned base, int upper, int width, int prec, int zero, int left, int plus) {
  char t[32]; int k = 0, nd = 0;
  for (uint64_t p = 1; v >= p; p *= base) { ++nd; if (nd >= 16 && (base == 16 || (base == 10 && nd == 20) || (base == 8 && nd == 22))) break; }
  while (k < nd) { unsigned d = (unsigned)(v % base); t[k++] = (char)('0' + d + (d > 9) * (upper ? 7 : 39)); v /= base; }
  if (k == 0 && prec != 0) t[k++] = '0';
  int digits = k > prec ? k : prec;
  int sign = neg || plus;
  if (zero && !left && prec < 0 && digits + sign < width) digits = width - sign;
  int pad = width - digits - sign;
  if (!left) for (int i = 0; i < pad; ++i) put(o, ' ');
  if (neg) put(o, '-'); else if (plus) put(o, '+');
  for (int i = k; i < digits; ++i) put(o, '0');
  while (k) put(o, t[--k]);
  if (left) for (int i = 0; i < pad; ++i) put(o, ' ');
}
int vsnprintf(char *buf, size_t cap, const char *f, va_list ap) {
  Out o = {buf, cap, 0};
  for (; *f; ++f) {
    if (*f != '%') { put(&o, *f); continue; }
    ++f;
    int left = 0, zero = 0, plus = 0, width = 0, prec = -1, lng = 0;
    for (;; ++f) { if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else break; }
    if (*f == '*') { width = va_arg(ap, int); if (width < 0) { left = 1; width = -width; } ++f; }
    else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
    if (*f == '.') { ++f; prec = 0; if (*f == '*') { prec = va_arg(ap, int); ++f; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
    while (*f == 'l' || *f == 'z') { ++lng; ++f; }
    switch (*f) {
    case '%': put(&o, '%'); break;
    case 'c': { int c = va_arg(ap, int); if (!left) for (int i = 1; i < width; ++i) put(&o, ' '); put(&o, (char)c); if (left) for (int i = 1; i < width; ++i) put(&o, ' '); break; }
    case 's': {
      const char *s = va_arg(ap, const char *); int n = 0;
      while ((prec < 0 || n < prec) && s[n]) ++n;
      if (!left) for (int i = n; i < width; ++i) put(&o, ' ');
      for (int i = 0; i < n; ++i) put(&o, s[i]);
      if (left) for (int i = n; i < width; ++i) put(&o, ' ');
      break;
    }
    case 'd': case 'i': { int64_t v = lng ? va_arg(ap, long) : va_arg(ap, int); putnum(&o, v < 0 ? 0 - (uint64_t)v : (uint64_t)v, v < 0, 10, 0, width, prec, zero, left, plus); break; }
    case 'u': { uint64_t v = lng ? va_arg(ap, unsigned long) : va_arg(ap, unsigned); putnum(&o, v, 0, 10, 0, width, prec, zero, left, 0); break; }
    case 'x': case 'X': { uint64_t v = lng ? va_arg(ap, unsigned long) : va_arg(ap, unsigned); putnum(&o, v, 0, 16, *f == 'X', width, prec, zero, left, 0); break; }
    case 'o': { uint64_t v = lng ? va_arg(ap, unsigned long) : va_arg(ap, unsigned); putnum(&o, v, 0, 8, 0, width, prec, zero, left, 0); break; }
    case 'f': case 'g': case 'e': { union { double d; uint64_t u; } x; x.d = va_arg(ap, double); put(&o, *f); for (int i = 0; i < 16; ++i) put(&o, (char)('a' + ((x.u >> (4 * i)) & 15))); if (*f == 'f') { int e = (int)(x.u >> 52 & 2047) - 1023, k = e > 33 ? (e * 1233 >> 12) - 9 : 0; for (int i = 0; i < k; ++i) put(&o, '#'); } break; } // injective stand-in for the decimal digits, about as long as they are
    default: sx_fail("unmodelled printf conversion");
    }
  }
  if (cap) buf[o.n < cap ? o.n : cap - 1] = 0;
  return (int)o.n;
}
int snprintf(char *buf, size_t cap, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(buf, cap, f, ap); va_end(ap); return r; }
int vsprintf(char *buf, const char *f, va_list ap) { return vsnprintf(buf, (size_t)1 << 40, f, ap); }
int sprintf(char *buf, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(buf, (size_t)1 << 40, f, ap); va_end(ap); return r; }
// dynamic_cast for single inheritance: walk the type information of the object's dynamic type up to the target.
void *_ZTVN10__cxxabiv117__class_type_infoE[8], *_ZTVN10__cxxabiv120__si_class_type_infoE[8], *_ZTVN10__cxxabiv121__vmi_class_type_infoE[8];
void abort(void);
void *__dynamic_cast(const void *p, const void *src, const void *dst, long off) {
  void **vt = *(void ***)p; const void **ti = (const void **)vt[-1];
  for (;;) {
    if ((const void *)ti == dst) return (char *)p + (long)vt[-2];
    if (ti[0] == (const void *)(_ZTVN10__cxxabiv120__si_class_type_infoE + 2)) ti = (const void **)ti[2];
    else if (ti[0] == (const void *)(_ZTVN10__cxxabiv117__class_type_infoE + 2)) return 0;
    else abort();
  }
}
