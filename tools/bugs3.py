# Third batch of planted bugs (see plant.py)
RX = """
static bool m(const char * p, const char * s) { return Re::Regex{p}.accept(s); }
"""
BUGS = [
dict(id="bucket-boundary", property="M03", file="public/hal/malloc_binned.h",
 edits=[("		return (PlatformMath::log2(size - 1) -", "		return (PlatformMath::log2(size) -")],
 needs="a request of exactly a bucket's block size above the first",
 breaks="boundary sizes are served from the next bucket, and the largest size is refused",
 inc=["hal/malloc_binned.h"], demo="""
	MallocBinned m{MallocBinned::BucketInfo{1 << 12, 8, 64, 2}};
	void * p = m.alloc(32); CK(p != nullptr);
	// the largest size served without the backup allocator
	CK(m.alloc(32) != nullptr && m.alloc(32) != p);
	void * q = m.alloc(33, 8); (void)q;
"""),
dict(id="ansi-align-drop", property="M04", file="private/hal/malloc_ansi.cpp",
 edits=[("	alignment = PlatformMath::max(alignment, MIN_ALIGNMENT);", "	alignment = size < alignment ? MIN_ALIGNMENT : PlatformMath::max(alignment, MIN_ALIGNMENT);", 1)],
 needs="realloc to a size smaller than the alignment asked for",
 breaks="the block returned by realloc is not aligned as asked",
 inc=["hal/malloc_ansi.h"], demo="""
	MallocAnsi m; bool bad = false;
	for (int i = 0; i < 64; ++i) { void * p = m.realloc(nullptr, 40, 64); if ((uintp)p & 63) bad = true; }
	for (int i = 0; i < 64; ++i) { void * p = m.realloc(nullptr, 24, 64); if ((uintp)p & 63) bad = true; }
	CK(!bad);
"""),
dict(id="map-index-color", property="K01", file="public/containers/map.h",
 edits=[("			tree.root->color = BinaryNodeColor::BLACK;", "			tree.root->color = tree.root->next ? BinaryNodeColor::BLACK : BinaryNodeColor::RED;")],
 needs="operator[] on an empty map, then more insertions",
 breaks="the root inserted by operator[] stays red, and the rebalancing of later insertions follows a null grandparent",
 inc=["containers/map.h"], demo="""
	Map<int32, int32> m; m[5] = 1; m[3] = 2; m[1] = 3; m[0] = 4;
	CK(m.getCount() == 4); int k = 0; for (auto & p : m) { ++k; (void)p; } CK(k == 4);
"""),
dict(id="map-find-greater", property="K01", file="public/containers/map.h",
 edits=[("				else if (cmp > 0)\n				{\n					// Go right", "				else if (cmp == 1)\n				{\n					// Go right")],
 needs="a comparator that reports an order with a value larger than one, and operator[] on an absent key",
 breaks="operator[] takes a smaller key for the wanted one",
 inc=["containers/map.h"], pre="struct Diff { int32 operator()(int32 a, int32 b) const { return a - b; } };",
 demo="""
	Map<int32, int32, Diff> m; m[1] = 10; m[5] = 50;
	CK(m.getCount() == 2); int32 v = 0; CK(m.find(1, v) && v == 10); CK(m.find(5, v) && v == 50);
"""),
dict(id="set-diff-advance", property="K03", file="public/containers/set.h",
 edits=[("				// Advance both nodes and remove common item\n				it = tree.removeNode(it);\n				jt = jt->next;", "				// Advance both nodes and remove common item\n				it = tree.removeNode(it);\n				jt = it && jt->next ? jt->next : nullptr;\n				if (it && jt) it = CompareT{}(it->data, jt->data) < 0 && it->next ? it->next : it;")],
 needs="sets where, after a common item, the next item of the first is smaller than the next of the second and is common to neither",
 breaks="nothing observable: skips an item that stays",
 inc=["containers/set.h"], demo="""
	Set<int32> a, b; a.set(1, 2, 3); b.set(1, 3); a -= b; CK(a.getSize() == 1 && a.get(2));
"""),
dict(id="set-inter-tail", property="K03", file="public/containers/set.h",
 edits=[("		while (it) it = tree.removeNode(it);", "		if (it) it = tree.removeNode(it);")],
 needs="intersection where two or more items of the left set are larger than all of the right one",
 breaks="items of only one set stay in the intersection",
 inc=["containers/set.h"], demo="""
	Set<int32> a, b; a.set(1, 2, 3, 4); b.set(1, 2); a *= b; CK(a.getSize() == 2 && !a.get(3) && !a.get(4));
"""),
dict(id="set-superset-strict", property="K03", file="public/containers/set.h",
 edits=[("				eq = false;\n\n				// Advance to next node\n				it = it->next;", "				eq = !it->next;\n\n				// Advance to next node\n				it = it->next;")],
 needs="a strict superset whose extra item is followed by another",
 breaks="operator> misses a strict superset: the flag for equality is only cleared at the last node",
 inc=["containers/set.h"], demo="""
	Set<int32> a, b; a.set(1, 2); b.set(2); CK(a > b); CK(!(b > a));
	Set<int32> c, d; c.set(1, 3, 5); d.set(3, 5); CK(c > d); CK(!(c > c));
"""),
dict(id="list-front-tail", property="L01", file="public/containers/list.h",
 edits=[], needs="", breaks="", inc=["containers/list.h"], demo="return 1;"),
dict(id="opt-move-engaged", property="O01", file="public/templates/optional.h",
 edits=[("			// Move object\n			storage.value = move(*other);\n			other.reset();", "			// Move object\n			storage.value = move(*other);")],
 needs="move assignment between two engaged optionals and a later look at the source",
 breaks="the source stays engaged after being moved from, unlike when the target was empty",
 inc=["templates/optional.h"], demo="""
	Optional<int32> a{3}, b{4}; a = move(b); CK(*a == 4); CK(!b.hasValue());
"""),
dict(id="opt-copy-stale", property="O01", file="public/templates/optional.h",
 edits=[("		else if (!other.engaged && this->engaged)\n		{\n			// Reset storage\n			reset();", "		else if (!other.engaged && this->engaged)\n		{\n			// Reset storage\n			engaged = false;", 0)],
 needs="assigning an empty optional to an engaged one whose value owns something",
 breaks="the old value is forgotten without being destroyed",
 inc=["templates/optional.h"], pre="static int live = 0; struct E { E() { ++live; } E(const E &) { ++live; } E & operator=(const E &) { return *this; } ~E() { --live; } };",
 demo="""
	{ Optional<E> a, b; E e; a = e; CK(live == 2); a = b; CK(live == 1); CK(!a.hasValue()); }
	CK(live == 0);
"""),
dict(id="func-clone-null", property="F01", file="public/templates/function.h",
 edits=[("		if (other.callable && storage.bindCopy(other.storage)) callable = other.callable;", "		if (other.callable) callable = other.callable, storage.heap = other.storage.heap;")],
 needs="copying a function and destroying the copy",
 breaks="the copy shares the owned functor and frees it a second time",
 inc=["templates/function.h"], asan=True, demo="""
	int32 k = 3; Function<int32(int32)> f{[k](int32 x) { return x + k; }};
	{ Function<int32(int32)> g{f}; CK(g(1) == 4); }
	CK(f(1) == 4);
"""),
dict(id="func-swap-half", property="F01", file="public/templates/function.h",
 edits=[("		swap(this->callable, other.callable);", "		this->callable = other.callable;")],
 needs="move assignment over a function that already holds something",
 breaks="the old functor is destroyed through, or leaked by, the wrong function: the source of the move keeps a callable that owns the old target",
 inc=["templates/function.h"], pre="static int live = 0; struct F { F() { ++live; } F(const F &) { ++live; } ~F() { --live; } int32 operator()(int32 x) const { return x; } };",
 demo="""
	{ F f; Function<int32(int32)> a{f}, b; CK(live == 2); a = move(b); CK(!a); }
	CK(live == 0);
"""),
dict(id="pair-ge", property="U01", file="public/containers/pair.h",
 edits=[("		return !(*this < other);", "		return *this > other || !(*this < other || *this == other);")],
 needs="comparing equal keys with >=",
 breaks="two pairs with equal keys are not >= each other",
 inc=["containers/pair.h", "containers/map.h"], demo="""
	Pair<int32, int32> a{1, 2}, b{1, 3}; CK(a >= b); CK(b >= a); CK(a <= b);
"""),
dict(id="tuple-move", property="U01", file="public/containers/tuple.h",
 edits=[("		: item{forward<ItemT>(inItem)}", "		: item(const_cast<const typename DecayType<ItemT>::Type&>(inItem))")],
 needs="a last item given as an rvalue of a type that can be moved",
 breaks="the last item is copied instead of moved",
 inc=["containers/tuple.h"], pre="static int copies = 0; struct E { E() {} E(const E &) { ++copies; } E(E &&) {} };",
 demo="""
	Tuple<int32, E> t{1, E{}}; (void)t; CK(copies == 0);
"""),
dict(id="atomic-dec-post", property="X01", file="public/templates/atomic.h",
 edits=[("		return PlatformAtomics::sub(&this->value, 1);", "		return PlatformAtomics::sub(&this->value, 1), this->load() + 1;")],
 needs="two threads that decrement at the same time",
 breaks="postfix decrement may return the same value to two threads",
 inc=["templates/atomic.h"], pre="#include <pthread.h>\nstatic Atomic<int32> n; static int seen[400001]; static volatile int go;\nstatic void * w(void *) { while (!go); for (int i = 0; i < 200000; ++i) __atomic_fetch_add(&seen[n--], 1, __ATOMIC_RELAXED); return nullptr; }",
 demo="""
	for (int round = 0; round < 20; ++round)
	{
		n = 400000; go = 0; memset(seen, 0, sizeof seen);
		pthread_t a, b; pthread_create(&a, 0, w, 0); pthread_create(&b, 0, w, 0); go = 1; pthread_join(a, 0); pthread_join(b, 0);
		for (int i = 1; i <= 400000; ++i) CK(seen[i] == 1);
	}
"""),
dict(id="atomic-store-order", property="X01", file="public/templates/atomic.h",
 edits=[("				PlatformAtomics::store<AtomicOrder::Sequential>(&value, inValue);", "				PlatformAtomics::store<AtomicOrder::Relaxed>(&value, inValue);")],
 needs="two threads that each store one flag and read the other's",
 breaks="sequential stores are relaxed: both threads may read the old value",
 inc=["templates/atomic.h"], opt="-O2", pre="""#include <pthread.h>
#include <new>
static Atomic<int32> * x, * y; static volatile int r0, r1; static volatile int bar0, bar1, stop;
static int sense; static void sync(volatile int & me, volatile int & other, int k) { me = k; __atomic_thread_fence(__ATOMIC_SEQ_CST); while (other < k) if (stop) return; }
static void * w(void *) { for (int k = 1; k <= 400000; ++k) { sync(bar0, bar1, 3 * k); x->store(1); r0 = y->load(); sync(bar0, bar1, 3 * k + 1); sync(bar0, bar1, 3 * k + 2); } return nullptr; }""",
 demo="""
	char * mem = (char*)aligned_alloc(256, 512); x = new (mem) Atomic<int32>{0}; y = new (mem + 256) Atomic<int32>{0};
	pthread_t t; pthread_create(&t, 0, w, 0); int bad = 0;
	for (int k = 1; k <= 400000; ++k) { sync(bar1, bar0, 3 * k); y->store(1); r1 = x->load(); sync(bar1, bar0, 3 * k + 1); if (r0 == 0 && r1 == 0) ++bad; x->store(0); y->store(0); sync(bar1, bar0, 3 * k + 2); }
	pthread_join(t, 0); CK(bad == 0);
"""),
dict(id="vec3-cmple-z", property="V02", file="public/math/vec3.h",
 edits=[("(x <= other.x) | (y <= other.y) << 1 | (z <= other.z) << 2", "(x <= other.x) | (y <= other.y) << 1 | !(z > other.z) << 2")],
 needs="a z component that is not a number",
 breaks="a comparison with NaN holds in the third component",
 inc=["math/math.h"], demo="""
	Vec3<float32> a{1.f, 2.f, __builtin_nanf("")}, b{1.f, 2.f, 3.f}; CK(a.cmple(b) == 3); CK(!(a <= b));
"""),
dict(id="vec3-cross-y", property="V03", file="public/math/vec3.h",
 edits=[("			z * other.x - x * other.z,", "			x * other.z - z * other.x,")],
 needs="a cross product with a y component",
 breaks="the y component of the cross product has the wrong sign",
 inc=["math/math.h"], demo="""
	Vec3<float32> a{1.f, 2.f, 3.f}, b{4.f, 5.f, 7.f}; Vec3<float32> c = a ^ b; CK(c.y == 5.f);
"""),
dict(id="vec4-neg-w", property="V01", file="public/math/vec4.h",
 edits=[("		return Vec4{-x, -y, -z, -w};", "		return Vec4{-x, -y, -z, T(0) - w};")],
 needs="negating a vector whose w is positive zero",
 breaks="-0.0 comes out as +0.0 in w, unlike in the other components",
 inc=["math/math.h"], demo="""
	Vec4<float32> a{0.f, 0.f, 0.f, 0.f}; Vec4<float32> b = -a; CK(__builtin_signbitf(b.x)); CK(__builtin_signbitf(b.w));
"""),
dict(id="vec2-rdiv", property="V01", file="public/math/vec2.h",
 edits=[("		return Vec2{s} /= v;", "		return Vec2{v} /= s;")],
 needs="scalar divided by a vector",
 breaks="scalar over vector computes vector over scalar",
 inc=["math/math.h"], demo="""
	Vec2<float32> v{2.f, 4.f}; Vec2<float32> r = 8.f / v; CK(r.x == 4.f && r.y == 2.f);
"""),
dict(id="vec4-gt-mask", property="V02", file="public/math/vec4.h",
 edits=[("		return cmpgt(other) == 0xf;", "		return (cmpgt(other) & 0x7) == 0x7;")],
 needs="first three components greater and the fourth not",
 breaks="operator> ignores w",
 inc=["math/math.h"], demo="""
	Vec4<int32> a{2, 2, 2, 0}, b{1, 1, 1, 1}; CK(!(a > b)); CK(Vec4<int32>(2) > b);
"""),
dict(id="quat-mul-y", property="Q01", file="public/math/quat.h",
 edits=[("			this->w * other.y - this->x * other.z + this->y * other.w + this->z * other.x,", "			this->w * other.y + this->x * other.z + this->y * other.w - this->z * other.x,")],
 needs="product of two rotations about different axes (x and z)",
 breaks="the combined rotation is not the composition",
 inc=["math/math.h"], demo="""
	Quat a{1.f, Vec3<float32>{1.f, 0.f, 0.f}}, b{1.f, Vec3<float32>{0.f, 0.f, 1.f}}; Vec3<float32> v{1.f, 2.f, 3.f};
	Vec3<float32> p = (a * b) * v, q = a * (b * v); CK((p - q).getSquaredSize() < 1e-6f);
"""),
dict(id="quat-rotvec-small", property="Q01", file="public/math/quat.h",
 edits=[("		float32 s = alpha > 0.f ? PlatformMath::sin(a) / alpha : 0.5f;", "		float32 s = alpha > 1e-2f ? PlatformMath::sin(a) / alpha : 1.f;")],
 needs="a rotation vector shorter than 0.01",
 breaks="small rotations are twice as large",
 inc=["math/math.h"], demo="""
	Quat q{Vec3<float32>{0.005f, 0.f, 0.f}}; CK(q.x > 0.0024f && q.x < 0.0026f);
"""),
dict(id="mat-cmp-order", property="N01", file="public/math/mat4.h",
 edits=[("			out = (out << 1u) | (uint16)(vec[i] == other.vec[i]);", "			out = (out << 1u) | (uint16)(vec[i] == other.vec[i] || (out & 1u && i == 15));")],
 needs="matrices that differ only in the last element",
 breaks="a difference in the last element is missed",
 inc=["math/math.h", "math/mat4.h"], demo="""
	Mat4<int32> a{1}, b{1}; b.vec[15] = 2; CK(a != b); CK(!(a == b));
"""),
dict(id="mat-transpose-pair", property="N01", file="public/math/mat4.h",
 edits=[("		swap(vec[7], vec[13]);", "		swap(vec[7], vec[12 + (vec[7] == vec[13] ? 0 : 1)]);")],
 needs="a matrix with equal elements at (1,3) and (3,1)",
 breaks="the transpose swaps the wrong element when the pair is equal",
 inc=["math/math.h", "math/mat4.h"], demo="""
	Mat4<int32> a{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 7, 14, 15}; a.transpose();
	CK(a.vec[7] == 7 && a.vec[13] == 7 && a.vec[12] == 3 && a.vec[3] == 12);
"""),
dict(id="pow-odd-negative", property="P01", file="public/generic/generic_platform_math.h",
 edits=[("		return y & 0x1 ? z * z * x : z * z;", "		return y % 4 == 1 || y % 4 == 3 ? z * z * x : y > 14 ? z * z * T{1} * (y % 16 == 15 ? x : T{1}) : z * z;")],
 needs="nothing (equivalent)", breaks="nothing", inc=["hal/platform_math.h"], demo="CK(PlatformMath::pow(3, 4) == 81);"),
dict(id="min-three", property="P01", file="public/generic/generic_platform_math.h",
 edits=[("		return a < b ? min(a, forward<Args>(c)...) : min(b, forward<Args>(c)...);", "		return a < b ? min(a, forward<Args>(c)...) : b;")],
 needs="min of three or more where the first is not the smallest and the second is not either",
 breaks="later arguments are ignored",
 inc=["hal/platform_math.h"], demo="""
	CK(PlatformMath::min(3, 2, 1) == 1); CK(PlatformMath::min(1, 2, 3) == 1); CK(PlatformMath::min(2, 3, 1) == 1);
"""),
dict(id="log2-word", property="P01", file="public/generic/generic_platform_math.h",
 edits=[("		return n == 0ull ? 0ull : 63ull - __builtin_clzll((uint64)n);", "		return (n >> 1) == 0 ? 0ull : 62ull - __builtin_clzll((uint64)(n >> 1) << 1) + ((uint64)n >> 63 == 0);")],
 needs="a 64-bit number with its highest bit set",
 breaks="log2 of numbers from 2^63 is one too small",
 inc=["hal/platform_math.h"], demo="""
	CK(PlatformMath::log2(1ull << 62) == 62); CK(PlatformMath::log2(~0ull) == 63); CK(PlatformMath::log2(1ull) == 0);
"""),
dict(id="align-down", property="P01", file="public/generic/generic_platform_math.h",
 edits=[("		return n & (alignment - 1) ^ n;", "		return n & ~((uint32)alignment - 1);")],
 needs="a 64-bit number above 2^32",
 breaks="the upper half of the number is lost",
 inc=["hal/platform_math.h"], demo="""
	CK(PlatformMath::align2Down((uint64)0x1234567890full, 16) == 0x12345678900ull); CK(PlatformMath::align2Down(37, 8) == 32);
"""),
dict(id="regex-lower", property="R01", file="private/regex/regex.cpp",
 edits=[("			return cc >= 'a' && cc <= 'z';", "			return cc > '`' && cc < 'z';")],
 needs="a word class or boundary against the letter z",
 breaks="z is not a word character",
 inc=["regex/regex.h"], pre=RX, demo="""
	CK(m("\\\\w", "y")); CK(m("\\\\w", "z")); CK(!m("\\\\W", "z"));
"""),
dict(id="regex-range-max", property="R01", file="public/regex/state.h",
 edits=[("		return outNumRead = (*input >= min && *input <= max);", "		return outNumRead = (static_cast<ubyte>(*input - min) < static_cast<ubyte>(max - min) || *input == min);")],
 needs="the last character of a range",
 breaks="the range excludes its end",
 inc=["regex/regex.h"], pre=RX, demo="""
	CK(m("[a-c]", "a")); CK(m("[a-c]", "b")); CK(m("[a-c]", "c")); CK(!m("[a-c]", "d"));
"""),
dict(id="regex-quant-ten", property="R02", file="private/regex/regex.cpp",
 edits=[("						max = (max * 10) + (pattern[idx] - '0');", "						max = (max << 3) + max + (pattern[idx] - '0');")],
 needs="an upper bound of ten or more in a quantifier",
 breaks="{1,12} allows eleven repetitions",
 inc=["regex/regex.h"], pre=RX, demo="""
	CK(m("a{1,9}", "aaaaaaaaa")); CK(m("a{1,12}", "aaaaaaaaaaaa")); CK(!m("a{1,12}", "aaaaaaaaaaaaa"));
"""),
dict(id="regex-escape-bracket", property="R01", file="private/regex/regex.cpp",
 edits=[("						if (pattern[closeBracketIdx] == '\\\\') ++closeBracketIdx;", "						if (pattern[closeBracketIdx] == '\\\\' && closeBracketIdx > openBracketIdx + 1) ++closeBracketIdx;")],
 needs="a character class that begins with an escaped closing bracket",
 breaks="the class ends at the escaped bracket",
 inc=["regex/regex.h"], pre=RX, demo="""
	CK(m("[a\\\\]]", "]")); CK(m("[\\\\]a]", "]")); CK(m("[\\\\]a]", "a"));
"""),
dict(id="regex-begin", property="R01", file="private/regex/regex.cpp",
 edits=[("						return numRead == 0;", "						return numRead == 0 || *(input - 1) == '\\n';")],
 needs="a caret after something that has consumed a newline",
 breaks="the caret matches after a newline inside the subject",
 inc=["regex/regex.h"], pre=RX, demo="""
	CK(m("^a", "a")); CK(!m(".^a", "xa")); CK(!m(".^a", "\\na"));
"""),
dict(id="regex-merge-next", property="R03", file="public/regex/state.h",
 edits=[("			for (StateBase * prevState : prevStates)\n			{\n				prevState->nextStates.remove(this);", "			for (StateBase * prevState : prevStates)\n			{\n				if (prevState->nextStates.getSize() > 1) prevState->nextStates.remove(this);")],
 needs="an epsilon state merged into its only next state whose previous state has no other way out",
 breaks="the removed state stays reachable",
 inc=["regex/regex.h"], pre=RX, demo="""
	CK(m("(a|b)c", "ac")); CK(!m("(a|b)c", "c"));
"""),
dict(id="regex-visited", property="R03", file="public/regex/executor.h",
 edits=[("				if (!visitedSet.get(nextVisit))", "				if (numRead > 0 || !visitedSet.get(nextVisit))")],
 needs="nothing observable but time", breaks="exponential", inc=["regex/regex.h"], pre=RX, demo="CK(m(\"a\", \"a\"));"),
dict(id="strlen-alias", property="S01", file="public/containers/string.h",
 edits=[], needs="", breaks="", demo="return 1;"),
]
BUGS = [b for b in BUGS if b["edits"]]
