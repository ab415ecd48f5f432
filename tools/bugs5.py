BUGS = [
dict(id="mem-copy-dst", property="M05", file="public/generic/generic_platform_memory.h",
 edits=[("		for (uint64 i = 0; i < n; ++i, ++dst, ++src)\n			// Non overlapping required\n			*dst = *src;", "		for (uint64 i = 0; i < n; i += 2, dst += 2, src += 2)\n			// Non overlapping required\n			dst[0] = src[0], dst[1] = src[1];")],
 needs="copying an odd number of non-trivial elements",
 breaks="one element more than asked for is overwritten",
 inc=["hal/platform_memory.h"], pre="struct E { int v; E(int x = 0) : v(x) {} E(const E & o) : v(o.v) {} E & operator=(const E & o) { v = o.v; return *this; } ~E() { v = -1; } };",
 demo="""
	E e[4] = {1, 2, 3, 4}, f[4] = {5, 6, 7, 8};
	Memory::copyElements(e, f, 3);
	CK(e[0].v == 5 && e[1].v == 6 && e[2].v == 7 && e[3].v == 4);
"""),
dict(id="string-append-buffer", property="S04", file="public/containers/string.h", asan=True,
 edits=[("		constexpr size_t maxlen = 1024;\n		CharT buff[maxlen] = {};", "		constexpr size_t maxlen = 64;\n		CharT buff[maxlen] = {};")],
 needs="appending a number whose text is longer than 63 characters",
 breaks="the text is cut and what follows the buffer is appended instead",
 inc=["containers/string.h"], demo="""
	String s = "x"; s += -1.0e100;
	CK(s.getLength() == 1 + 1 + 101 + 7);
	CK(s[109] == '0' && s[102] != '\\0');
"""),
dict(id="string-replace-skip", property="S02", file="public/containers/string.h",
 edits=[("			startPos += replacementLen;", "			startPos += PlatformMath::max(patternLen, replacementLen);")],
 needs="adjacent occurrences and a replacement shorter than the pattern",
 breaks="an occurrence right behind a replaced one is skipped",
 inc=["containers/string.h", "hal/platform_math.h"], demo="""
	String s = "ababab"; s.replaceAll("ab", "c");
	CK(s == "ccc");
"""),
dict(id="list-move-allocator", property="L02", file="public/containers/list.h",
 edits=[("		// Remove all\n		empty();\n\n		// Take from other\n		malloc = move(other.malloc);", "		// Take from other\n		malloc = move(other.malloc);\n\n		// Remove all\n		empty();")],
 needs="move assignment between lists that use different allocators",
 breaks="the old links are returned to the wrong allocator",
 inc=["hal/malloc_ansi.h", "containers/list.h"], pre="struct Al : MallocBase { int n = 0; void * alloc(sizet s, sizet) override { ++n; return ::malloc(s); } void * realloc(void * p, sizet s, sizet) override { return ::realloc(p, s); } void free(void * p) override { --n; ::free(p); } };",
 demo="""
	Al a, b;
	{ List<int32> l{&a}, m{&b}; l.pushBack(1); l.pushBack(2); m.pushBack(3); l = move(m); CK(l.getLength() == 1); CK(a.n == 0); CK(b.n == 1); }
	CK(a.n == 0 && b.n == 0);
"""),
dict(id="atomic-add-reread", property="X01", file="public/templates/atomic.h",
 edits=[("		return PlatformAtomics::add(&this->value, amount) + amount;", "		PlatformAtomics::add(&this->value, amount);\n		return this->load();")],
 needs="two threads adding at the same time",
 breaks="an addition reports a total that includes the other thread's addition",
 demo="""#include <cstdio>
#include <thread>
#include <vector>
#include <new>
#include "core_types.h"
#include "templates/atomic.h"
int main()
{
	for (int round = 0; round < 40; ++round)
	{
		Atomic<int32> a{0}; const int n = 20000; std::vector<char> seen(2 * n + 1); bool bad = false; std::vector<int> g[2];
		auto run = [&](int k) { for (int i = 0; i < n; ++i) g[k].push_back(a += 1); };
		std::thread t(run, 0), u(run, 1); t.join(); u.join();
		for (auto & v : g) for (int x : v) { if (seen[x]++) bad = true; }
		if (bad) { fprintf(stderr, "two additions returned the same total\\n"); return 1; }
	}
	return 0;
}
"""),
dict(id="func-align", property="F01", file="public/templates/function.h",
 edits=[("		heap = MallocAnsi{}.alloc(sizeof(OwnedT), alignof(OwnedT));", "		heap = MallocAnsi{}.alloc(sizeof(OwnedT));")],
 needs="a callable with an alignment above the default one",
 breaks="the captured state is not aligned for its type",
 inc=["hal/malloc_ansi.h", "templates/function.h"], pre="struct alignas(256) Big { int v[64]; bool operator()() const { return ((uintp)this & 255) == 0; } };",
 demo="""
	for (int i = 0; i < 20; ++i) { Big b{}; Function<bool()> f{b}; void * hole = ::malloc(24 * i + 8); CK(f()); }
"""),
dict(id="pooled-root-stale", property="M02", file="public/hal/malloc_pool.h",
 edits=[("			root->insert(node);\n			root = root->getRoot();", "			root->insert(node);\n			if (root->parent == node) root = node;")],
 needs="three pools, so that an insertion rotates the search tree",
 breaks="blocks of some pools are not found any more, freeing them does nothing",
 inc=["hal/malloc_pool.h"], demo="""
	MallocPooled m{1, 16, 16, 1}; void * p[6];
	for (auto & q : p) { q = m.alloc(16); CK(q); }
	for (auto & q : p) CK(m.hasBlock(q));
"""),
dict(id="pool-count-exhausted", property="M02", file="public/hal/malloc_pool.h",
 edits=[("		return head == nullptr;", "		return numFreeBlocks == 0;"), ("		*getBlockLink(block) = head;\n		head = block;\n	}\n	else\n		*getBlockLink(head = block) = nullptr;\n\n	++numFreeBlocks;", "		*getBlockLink(block) = head;\n		head = block;\n		++numFreeBlocks;\n	}\n	else\n		*getBlockLink(head = block) = nullptr;", None, "private/hal/malloc_pool.cpp")],
 needs="two sites: a block returned to an exhausted pool, and the pool asked for exhaustion",
 breaks="the pool with a free block counts as exhausted and the allocator grows instead of reusing it",
 inc=["hal/malloc_pool.h"], demo="""
	MallocPooled m{2, 16, 16, 1}; void * p = m.alloc(16), * q = m.alloc(16);
	CK(p && q); m.free(p); void * r = m.alloc(16);
	CK(r == p); CK(m.getNumPools() == 1); (void)q;
"""),
dict(id="icmp-at-backtick", property="S03", file="public/generic/generic_platform_strings.h",
 edits=[("(c1 >= 'A' && c1 <= 'Z'", "(c1 >= '@' && c1 <= 'Z'")],
 needs="comparing '@' with a backtick, ignoring case",
 breaks="two different strings compare equal",
 inc=["containers/string.h"], demo="""
	CK(String("A@").icmp("a`") != 0); CK(String("aB").icmp("Ab") == 0);
"""),
dict(id="tree-assign-next", property="C03", file="public/containers/tree.h", asan=True,
 edits=[("			destroySubtree(dstRoot->right);\n			dstRoot->right = nullptr;\n			dstRoot->next = nullptr;", "			destroySubtree(dstRoot->right);\n			dstRoot->right = nullptr;")],
 needs="assigning a smaller tree over one whose largest nodes go away",
 breaks="the last node still links to a destroyed one",
 inc=["containers/tree.h"], demo="""
	BinaryTree<int32, ThreeWayCompare> a, b; for (int i = 0; i < 7; ++i) a.insert(i);
	b.insert(1); a = b; int n = 0; for (int32 x : a) { ++n; CK(x == 1); if (n > 9) break; }
	CK(n == 1);
"""),
dict(id="sort-partition-end", property="A01", file="public/algorithm/sort.h",
 edits=[("if (cmp(*begin, *(++j)) > 0) swap(*begin, *j);\n			return;", "if (cmp(*begin, *(++j)) == 1) swap(*begin, *j);\n			return;")],
 needs="a comparator that reports the order with other numbers than 1 and -1",
 breaks="two elements are left in the wrong order",
 inc=["algorithm/sort.h"], demo="""
	int a[2] = {9, 3}; Sort::quicksort(a, a + 2, [](int x, int y) { return x - y; });
	CK(a[0] == 3 && a[1] == 9);
"""),
]
