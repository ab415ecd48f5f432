// An allocator that only takes back what it handed out.
#pragma once
#include "sx.h"
#include "hal/memory_base.h"
struct Own : public MallocBase {
  void *blk[40]; uint32_t n = 0, total = 0; bool gone = false;
  void *alloc(sizet size, sizet alignment) override { A(!gone, "an allocator is not used after its time"); void *p = gMalloc->alloc(size, alignment); if (n < 40) blk[n++] = p; ++total; return p; }
  void *realloc(void *p, sizet size, sizet alignment) override { drop(p); p = gMalloc->realloc(p, size, alignment); blk[n++] = p; return p; }
  void drop(void *p) { A(!gone, "an allocator is not used after its time"); uint32_t i = 0; while (i < n && blk[i] != p) ++i; A(i < n, "memory goes back to the allocator that supplied it"); if (i < n) blk[i] = blk[--n]; }
  void free(void *p) override { if (!p) return; drop(p); gMalloc->free(p); }
};
