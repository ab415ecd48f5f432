OWN = "struct R { int * p; R(int v = 0) : p(new int(v)) {} R(const R & o) : p(o.p ? new int(*o.p) : nullptr) {} R(R && o) : p(o.p) { o.p = nullptr; } R & operator=(const R & o) { if (this != &o) { delete p; p = o.p ? new int(*o.p) : nullptr; } return *this; } R & operator=(R && o) { if (this != &o) { delete p; p = o.p; o.p = nullptr; } return *this; } ~R() { delete p; } bool operator<(const R & o) const { return *p < *o.p; } bool operator>(const R & o) const { return *p > *o.p; } };"
BUGS = [
dict(id="simd-store-aligned", property="V04", file="public/math/simd_float.h",
 edits=[("		_mm_storeu_ps(ptr, v);", "		_mm_store_ps(ptr, v);")],
 needs="an unmasked store to an address that is not a multiple of 16",
 breaks="the store faults", inc=["math/simd.h"], demo="""
	using V = Vector4<float32>;
	alignas(16) float32 in[4] = {1, 2, 3, 4}; alignas(16) float32 out[9] = {};
	volatile int at = 1;
	V::store(out + at, V::load(in));
	CK(out[1] == 1 && out[4] == 4 && out[0] == 0 && out[5] == 0);
"""),
dict(id="opt-rvalue-copied", property="O01", file="public/templates/optional.h",
 edits=[("			storage.value = move(inValue);", "			storage.value = inValue;")],
 needs="assigning an rvalue to an optional that already holds a value",
 breaks="the value is copied, its source keeps it", inc=["templates/optional.h"], pre=OWN, demo="""
	Optional<R> o{1}; R r{2}; int * p = r.p;
	o = move(r); CK(r.p == nullptr && o->p == p);
"""),
dict(id="array-rvalue-copied", property="C03", file="public/containers/array.h",
 edits=[("		return *(new (buffer + idx) T{forward<ItemT>(item)});", "		T & elem = *(new (buffer + idx) T{item});\n		return elem;")],
 needs="adding a single element as an rvalue", breaks="the element is copied, its source keeps it",
 inc=["hal/malloc_ansi.h", "containers/array.h"], pre=OWN, demo="""
	Array<R> a; R r{2}; int * p = r.p;
	a.add(move(r)); CK(r.p == nullptr && a[0].p == p);
"""),
dict(id="cv-const", property="U02", file="public/templates/types.h",
 edits=[("struct RemoveConstVolatile<const volatile T>	{ using Type = T; };", "struct RemoveConstVolatile<const volatile T>	{ using Type = typename RemoveConst<const volatile T>::Type; };")],
 needs="a type that is both constant and volatile", breaks="the type stays volatile",
 inc=["templates/types.h"], demo="""
	CK((IsSameType<RemoveConstVolatile<const volatile int>::Type, int>::value));
"""),
dict(id="set-any-all", property="K02", file="public/containers/set.h",
 edits=[("		return get(key) || (get(keys) || ... || false);", "		return get(key) || (sizeof...(keys) > 0 && (get(keys) && ... && true));")],
 needs="asking for any of three or more values of which a later one, but not every later one, is present",
 breaks="the answer is no", inc=["hal/malloc_ansi.h", "containers/set.h"], demo="""
	Set<int32> s; s.set(1, 2, 3);
	CK(s.any(7, 8, 3)); CK(s.any(7, 2, 9)); CK(!s.any(7, 8, 9)); CK(s.any(1));
"""),
dict(id="set-get-const", property="K02", file="public/containers/set.h",
 edits=[("		// Get node to fetch value\n		if (const NodeT * node = tree.findNode(key))\n		{\n			outValue = node->data;\n			return true;\n		}", "		// Get node to fetch value\n		if (const NodeT * node = tree.findNode(key))\n		{\n			outValue = T(key);\n			return true;\n		}")],
 needs="fetching from a constant set an item that equals the key without being identical to it",
 breaks="the key is handed out instead of the item", inc=["hal/malloc_ansi.h", "containers/set.h"],
 pre="struct I { int32 k, v; I(int32 a = 0, int32 b = 0) : k(a), v(b) {} bool operator<(const I & o) const { return k < o.k; } bool operator>(const I & o) const { return k > o.k; } };", demo="""
	Set<I> s; s.set(I{1, 10}, I{2, 20}); const Set<I> & c = s; I out;
	CK(c.get(I{2, 0}, out) && out.v == 20);
"""),
dict(id="set-strict-subset", property="K03", file="public/containers/set.h",
 edits=[("		return !it && (jt || !eq);", "		return !it && jt;")],
 needs="a strict subset that holds the greatest element of the superset",
 breaks="it is not reported as a strict subset", inc=["hal/malloc_ansi.h", "containers/set.h"], demo="""
	Set<int32> a, b; a.set(1, 3, 4); b.set(1, 2, 3, 4);
	CK(a < b); CK(!(b < a)); CK(!(a < a));
"""),
dict(id="func-assign-swap", property="F01", file="public/templates/function.h",
 edits=[("	FORCE_INLINE Function & operator=(const Function & other)\n	{\n		return *this = Function{other};", "	FORCE_INLINE Function & operator=(const Function & other)\n	{\n		if (this->callable == other.callable) return *this;\n		return *this = Function{other};")],
 needs="copy-assigning a function object of the same target type but with other captured state",
 breaks="the old state stays", inc=["hal/malloc_ansi.h", "templates/function.h"], demo="""
	auto mk = [](int32 k) { return [k](int32 x) { return x + k; }; };
	Function<int32(int32)> f(mk(1)), g(mk(5));
	f = g; CK(f(1) == 6 && g(1) == 6);
"""),
dict(id="atomic-ptr-pre", property="X01", file="public/templates/atomic.h",
 edits=[("		return PlatformAtomics::add(&this->value, amount) + amount;", "		PlatformAtomics::add(&this->value, amount);\n		return this->load();")],
 needs="another thread changes the atomic between an addition and the return of its result",
 breaks="the returned value is not that of this addition", opt="-O1",
 inc=["templates/atomic.h", "hal/platform_atomics.h"], pre="#include <thread>\n#include <vector>\nstatic Atomic<int32> a{0}; static std::vector<char> seen(4000001);\n#include <atomic>\nstatic std::atomic<int> twice{0};", demo="""
	auto run = [] { for (int i = 0; i < 1000000; ++i) { int v = (a += 1); if (__atomic_exchange_n(&seen[v], 1, __ATOMIC_SEQ_CST)) ++twice; } };
	std::thread t1(run), t2(run), t3(run), t4(run); t1.join(); t2.join(); t3.join(); t4.join();
	CK(twice == 0);
"""),
dict(id="pool-hasblock-end", property="M01", file="public/hal/malloc_pool.h",
 edits=[("PLACEHOLDER", "")], needs="", breaks="", demo="", skip=True),
dict(id="list-remove-only-tail", property="L01", file="public/containers/list.h",
 edits=[("		if (link == head) head = next;\n		if (link == tail) tail = prev;", "		if (link == head) head = next;\n		else if (link == tail) tail = prev;")],
 needs="removing the only element through its link", breaks="the tail dangles",
 inc=["hal/malloc_ansi.h", "containers/list.h"], asan=True, demo="""
	List<int32> l; l.pushBack(1); l.remove(l.getHead());
	CK(l.getHead() == nullptr && l.getTail() == nullptr);
	l.pushBack(2); CK(l.getHead() && l.getHead()->data == 2);
"""),
dict(id="tree-unique-equal-root", property="K02", file="public/containers/tree.h",
 edits=[("		if (root)\n		{\n			// Find node\n			NodeT * it = root, * parent = nullptr;\n			while (it)\n			{\n				parent = it;\n\n				int32 cmp = CompareT{}(it->data, data);\n				if (cmp > 0)\n				{\n					it = it->left;\n				}\n				else if (cmp < 0)\n				{\n					it = it->right;\n				}\n				else /* cmp == 0 */\n					// Return without inserting node\n					return it->data;", "		if (root)\n		{\n			// Find node\n			NodeT * it = root, * parent = nullptr;\n			while (it)\n			{\n				parent = it;\n\n				int32 cmp = CompareT{}(it->data, data);\n				if (cmp > 0)\n				{\n					it = it->left;\n				}\n				else if (cmp < 0)\n				{\n					it = it->right;\n				}\n				else /* cmp == 0 */\n					// Return without inserting node\n					return (it->data = forward<DataT>(data));")],
 needs="adding to a set an item that equals a stored one without being identical to it",
 breaks="the stored item is replaced", inc=["hal/malloc_ansi.h", "containers/set.h"],
 pre="struct I { int32 k, v; I(int32 a = 0, int32 b = 0) : k(a), v(b) {} bool operator<(const I & o) const { return k < o.k; } bool operator>(const I & o) const { return k > o.k; } };", demo="""
	Set<I> s; s.set(I{1, 10}); s.set(I{1, 11}); I out;
	CK(s.get(I{1, 0}, out) && out.v == 10);
"""),
]
BUGS = [b for b in BUGS if not b.get("skip")]
