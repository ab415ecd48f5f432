BUGS = [
dict(id="pool-stale-link", property="M01", file="private/hal/malloc_pool.cpp",
 edits=[("*getBlockLink(head = block) = nullptr;", "head = block;")],
 needs="the pool is exhausted, then a block other than the one acquired last is released first, then two acquisitions",
 breaks="the released block keeps its stale free-list link, so the pool hands out a block that is still in use",
 inc=["hal/malloc_pool.h"], demo="""
	MemoryPool pool{3, 32};
	void * a = pool.acquireBlock(), * b = pool.acquireBlock(), * c = pool.acquireBlock();
	CK(a && b && c && !pool.acquireBlock());
	pool.releaseBlock(a);
	CK(pool.acquireBlock() == a);
	CK(pool.acquireBlock() == nullptr);
"""),
dict(id="pooled-ignores-next", property="M02", file="private/hal/malloc_pool.cpp",
 edits=[("			head = head->next;", "			if (numPools > 2) head = head->next;")],
 needs="an allocator with exactly two pools whose first pool becomes full",
 breaks="a new pool is created although the second pool has free blocks",
 inc=["hal/malloc_pool.h"], demo="""
	MallocPooled m{2, 16, 8, 2};
	for (int i = 0; i < 4; ++i) CK(m.alloc(16, 8));
	CK(m.getNumPools() == 2);
"""),
dict(id="realloc-shrink-overflow", property="M04", file="private/hal/malloc_ansi.cpp", asan=True,
 edits=[("Memory::memcpy(out, orig, PlatformMath::min(size, usableSize));", "Memory::memcpy(out, orig, PlatformMath::max(size, usableSize) == size ? usableSize : size + ((usableSize - size) & 7));")],
 needs="shrinking a block by a number of bytes that is not a multiple of eight",
 breaks="reallocating to a smaller size copies more bytes than the new block has",
 inc=["hal/malloc_ansi.h"], demo="""
	MallocAnsi m; char * p = (char*)m.alloc(64, 8); memset(p, 7, 64);
	p = (char*)m.realloc(p, 27, 8);
	for (int i = 0; i < 27; ++i) CK(p[i] == 7);
	m.free(p);
"""),
dict(id="array-index-capacity", property="C01", file="public/containers/array.h", asan=True,
 edits=[("		resizeIfNecessary(idx + 1);\n", "		if (idx >= capacity) resizeIfNecessary(idx > capacity ? idx + 1 : idx);\n")],
 needs="indexed growth at exactly the current capacity",
 breaks="the array writes past its buffer",
 inc=["containers/array.h"], demo="""
	Array<int32> a; a.add(1); a.add(2); a.add(3); a.add(4);
	a(4) = 5;
	CK(a.getCount() == 5 && a[0] == 1 && a[3] == 4 && a[4] == 5);
"""),
dict(id="array-init-last", property="C02", file="public/containers/array.h", asan="leak",
 edits=[("		if (idx >= count)\n		{\n			if (isStored", "		if (idx + 1 >= count)\n		{\n			if (isStored")],
 needs="indexed growth with an initial value at the index of the last existing element",
 breaks="the existing last element is overwritten without being destroyed",
 inc=["containers/array.h"], pre="static int live = 0; struct E { int v; E(int x = 0) : v(x) { ++live; } E(const E & o) : v(o.v) { ++live; } E & operator=(const E & o) { v = o.v; return *this; } ~E() { --live; } };",
 demo="""
	{ Array<E> a; a.add(E{1}); a.add(E{2}); a(1, E{9}); CK(live == 2); CK(a[1].v == 2); }
	CK(live == 0);
"""),
dict(id="array-moved-count", property="C03", file="public/containers/array.h",
 edits=[("		other.capacity = other.count = 0;", "		other.capacity = 0;")],
 needs="move assignment of a non-empty array and a later look at the source",
 breaks="the moved-from array still reports its old number of elements over a null buffer",
 inc=["containers/array.h"], demo="""
	Array<int32> a, b; a.add(3); a.add(4); b.add(1);
	b = move(a);
	CK(b.getCount() == 2 && b[1] == 4);
	CK(a.getCount() == 0);
"""),
dict(id="list-remove-front-prev", property="L01", file="public/containers/list.h",
 edits=[("				(head = head->next)->prev = nullptr;", "				head = head->next;")],
 needs="removal of the first of several elements, then walking backwards past the new head",
 breaks="the new head still points back to the released link",
 inc=["containers/list.h"], demo="""
	List<int32> l; l.pushBack(1); l.pushBack(2); l.pushBack(3); l.removeFront();
	CK(l.getHead()->data == 2 && l.getHead()->prev == nullptr);
	int n = 0; for (auto * k = l.getTail(); k; k = k->prev) ++n; CK(n == 2);
"""),
dict(id="list-pop-leak", property="L02", file="public/containers/list.h",
 edits=[("			// Destroy link\n			destroyLink(link);", "			// Destroy link\n			if (head) destroyLink(link); else malloc.free(link);", 1)],
 needs="removing the only element of a list from the front, with an element type that owns something",
 breaks="the last element is deallocated without being destroyed",
 inc=["containers/list.h"], pre="static int live = 0; struct E { int v; E(int x = 0) : v(x) { ++live; } E(const E & o) : v(o.v) { ++live; } E & operator=(const E & o) { v = o.v; return *this; } ~E() { --live; } };",
 demo="""
	{ List<E> l; l.pushBack(E{1}); l.pushBack(E{2}); CK(live == 2); l.removeFront(); CK(live == 1); l.removeFront(); CK(live == 0); }
"""),
dict(id="tree-nephew-color", property="T01", file="public/containers/tree.h",
 edits=[("					sibling->color			= parent->color;", "					sibling->color			= BinaryNodeColor::BLACK;", 0)],
 needs="removing a black left child under a red parent whose black sibling has a red child",
 breaks="unequal black heights after a removal",
 inc=["containers/tree.h", "containers/set.h"], pre="""
struct Cmp { int32 operator()(int32 a, int32 b) const { return a < b ? -1 : a > b; } };
template<typename N> int bh(const N * n) { if (!n) return 1; int l = bh(n->left), r = bh(n->right); if (l < 0 || r < 0 || l != r) return -1; bool red = n->color == BinaryNodeColor::RED; if (red && ((n->left && n->left->color == BinaryNodeColor::RED) || (n->right && n->right->color == BinaryNodeColor::RED))) return -1; return l + !red; }""",
 demo="""
	unsigned seed = 1;
	for (int round = 0; round < 300; ++round)
	{
		BinaryTree<int32, Cmp> t; int n = 3 + round % 14;
		for (int i = 0; i < n; ++i) { seed = seed * 1103515245 + 12345; t.insertUnique((int32)(seed >> 16) % 20); }
		for (int i = 0; i < 20; ++i) { seed = seed * 1103515245 + 12345; t.remove((int32)(seed >> 16) % 20); CK(!t.getRoot() || t.getRoot()->color == BinaryNodeColor::BLACK); CK(bh(t.getRoot()) > 0); }
	}
"""),
dict(id="tree-first-duplicate", property="T02", file="public/containers/tree.h",
 edits=[("			it = it->prev;\n		} while (it && CompareT{}(key, it->data) == 0);", "			it = it->left;\n		} while (it && CompareT{}(key, it->data) == 0);")],
 needs="duplicates arranged so that a smaller key lies between two equal ones on the way down",
 breaks="the first of several equal elements is missed, so iterating a key range skips elements",
 inc=["containers/tree.h"], pre="struct P { int32 k, id; }; struct Cmp { int32 operator()(const P & a, const P & b) const { return a.k < b.k ? -1 : a.k > b.k; } };",
 demo="""
	unsigned seed = 7;
	for (int round = 0; round < 400; ++round)
	{
		BinaryTree<P, Cmp> t; int cnt[4] = {0};
		for (int i = 0; i < 10; ++i) { seed = seed * 1103515245 + 12345; int k = (seed >> 16) & 3; ++cnt[k]; t.insert(P{k, i}); }
		for (int k = 0; k < 4; ++k) { int n = 0; for (auto it = t.begin(P{k, 0}); it != t.end(P{k, 0}); ++it) { CK(it->k == k); ++n; } CK(n == cnt[k]); }
	}
"""),
]
