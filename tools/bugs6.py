BUGS = [
dict(id="splice-memcpy-overlap", property="S01", file="public/containers/string.h", asan=True,
 edits=[("			Memory::memmov(*array + subPos + replLen, *array + subPos + subLen, len - (subPos + subLen));", "			Memory::memcpy(*array + subPos + replLen, *array + subPos + subLen, len - (subPos + subLen));")],
 needs="a splice that grows the text and whose tail is longer than the growth",
 breaks="overlapping memory is copied with a function that does not allow it",
 inc=["containers/string.h"], demo="""
	String s = "abcdefghijklmnopqrstuvwxyz"; s.splice(1, 1, "XYZ");
	CK(s == "aXYZcdefghijklmnopqrstuvwxyz");
"""),
dict(id="string-print-u64", property="S04", file="public/containers/string.h",
 edits=[("		return printFormat(\"%llu\", num);", "		return printFormat(\"%lld\", num);")],
 needs="printing an unsigned 64-bit number of 2^63 or more",
 breaks="the number is printed as negative",
 inc=["containers/string.h"], demo="""
	String s; s <<= (uint64)18446744073709551615ull;
	CK(s == "18446744073709551615");
"""),
dict(id="array-move-allocator", property="C03", file="public/containers/array.h",
 edits=[("		// Destroy first\n		destroy();\n		\n		malloc = move(other.malloc);\n		buffer = other.buffer;", "		// Destroy first\n		destroy();\n		\n		buffer = other.buffer;")],
 needs="move assignment between arrays that use different allocators",
 breaks="the buffer taken over is returned to the allocator of the target",
 inc=["hal/malloc_ansi.h", "containers/array.h"], pre="struct Al : MallocBase { int n = 0; void * alloc(sizet s, sizet) override { ++n; return ::malloc(s); } void * realloc(void * p, sizet s, sizet) override { return ::realloc(p, s); } void free(void * p) override { if (p) { --n; ::free(p); } } };",
 demo="""
	Al a, b;
	{ Array<int32> l{&a}, m{&b}; l.add(1); m.add(3); l = move(m); CK(l.getCount() == 1 && l[0] == 3); CK(a.n == 0); CK(b.n == 1); }
	CK(a.n == 0 && b.n == 0);
"""),
dict(id="tree-move-allocator", property="C03", file="public/containers/tree.h",
 edits=[("		// Destroy subtree\n		if (root) destroySubtree(root);\n\n		malloc = move(other.malloc);", "		malloc = move(other.malloc);\n\n		// Destroy subtree\n		if (root) destroySubtree(root);\n")],
 needs="move assignment between trees (or maps) that use different allocators",
 breaks="the old nodes are returned to the wrong allocator",
 inc=["hal/malloc_ansi.h", "containers/tree.h"], pre="struct Al : MallocBase { int n = 0; void * alloc(sizet s, sizet) override { ++n; return ::malloc(s); } void * realloc(void * p, sizet s, sizet) override { return ::realloc(p, s); } void free(void * p) override { if (p) { --n; ::free(p); } } };",
 demo="""
	Al a, b;
	{ BinaryTree<int32> l{&a}, m{&b}; l.insert(1); l.insert(2); m.insert(3); l = move(m); CK(l.getCount() == 1); CK(a.n == 0); CK(b.n == 1); }
	CK(a.n == 0 && b.n == 0);
"""),
dict(id="tree-clone-min", skip=True, property="C03", file="public/containers/tree.h",
 edits=[("			NodeT * prev = left->getMax();\n\n			(dstRoot->left = left)->parent = dstRoot;", "			NodeT * prev = left->right ? left->right : left;\n\n			(dstRoot->left = left)->parent = dstRoot;")],
 needs="assigning a tree of six or more nodes onto a non-empty one, so that a left subtree's greatest node lies two levels below it",
 breaks="the predecessor thread of the copied node skips a node",
 inc=["hal/malloc_ansi.h", "containers/tree.h"], demo="""
	for (int32 n = 1; n < 40; ++n)
	{
		BinaryTree<int32> a, b; b.insert(7); b.insert(9);
		for (int32 i = 0; i < n; ++i) a.insert((i * 17) % n);
		b = a;
		int32 k = 0; for (auto it = b.begin(); it != b.end(); ++it) ++k;
		CK(k == n);
		auto * x = b.getRoot(); while (x->right) x = x->right;
		for (k = 0; x; x = x->prev) ++k;
		CK(k == n);
	}
"""),
dict(id="set-union-skip", property="K03", file="public/containers/set.h",
 edits=[("				// Set item and advance to next node\n				set(jt->data);\n				jt = jt->next;", "				// Set items up to the current node\n				set(jt->data);\n				jt = jt->next;\n				if (jt && CompareT{}(it->data, jt->data) > 0) { if (it->prev && CompareT{}(it->prev->data, jt->data) > 0) it = it->prev; else set(jt->data), jt = jt->next; }")],
 needs="a union", breaks="placeholder", skip=True,
 inc=["containers/set.h"], demo=""),
dict(id="quat-axes-hand", property="Q01", file="public/math/quat.h",
 edits=[("		return v + (this->w * t) + (q ^ t);", "		const float32 n = this->x * this->x + this->y * this->y + this->z * this->z;\n		return v * (1.f - 2.f * n) + (this->w * t) + 2.f * (q & v) * q;", )],
 needs="nothing", breaks="placeholder", skip=True, inc=["math/quat.h"], demo=""),
dict(id="quat-getangle-half", property="Q01", file="public/math/quat.h",
 edits=[("		float32 a = PlatformMath::acos(this->w);", "		float32 a = PlatformMath::acos(PlatformMath::abs(this->w));")],
 needs="extracting angle and axis of a rotation by more than half a turn (negative real part)",
 breaks="the angle is that of the opposite rotation while the axis is not reversed",
 inc=["math/math.h", "math/quat.h"], pre="#include <cmath>", demo="""
	Quat q{4.5f, vec3{0.f, 0.f, 1.f}}; float32 a; vec3 v; q.getAngleAndAxis(a, v);
	Quat r{a, v}; vec3 x = q * vec3{1.f, 0.f, 0.f}, y = r * vec3{1.f, 0.f, 0.f};
	CK(fabsf(x.x - y.x) < 1e-3f && fabsf(x.y - y.y) < 1e-3f);
"""),
dict(id="tree-insert-uncle-right", property="T01", file="public/containers/tree.h", skip=True, edits=[("x", "y")], needs="", breaks="", demo=""),
dict(id="opt-assign-nodestroy", property="O01", file="public/templates/optional.h",
 edits=[("		else if (!other.engaged && this->engaged)\n		{\n			// Reset storage\n			reset();\n		}\n\n		return *this;", "		else if (!other.engaged && this->engaged)\n		{\n			// Nothing to copy\n			engaged = false;\n		}\n\n		return *this;", 0)],
 needs="assigning an empty optional to one that holds a value that owns something",
 breaks="the value is never destroyed",
 inc=["templates/optional.h"], pre="static int alive; struct R { R() { ++alive; } R(const R &) { ++alive; } R & operator=(const R &) { return *this; } ~R() { --alive; } };",
 demo="""
	{ Optional<R> a, b; a.emplace(); const Optional<R> & e = b; a = e; CK(!a.hasValue()); }
	CK(alive == 0);
"""),
dict(id="regex-clone-through", property="R01", file="public/regex/automaton.h",
 edits=[("					if (currState != endState)\n					{", "					if (currState != endState || currState == startState)\n					{")],
 needs="unlikely", breaks="placeholder", skip=True, inc=[], demo=""),
dict(id="regex-range-signed", property="R01", file="public/regex/state.h",
 edits=[("		return outNumRead = (*input >= min && *input <= max);", "		return outNumRead = ((uint32)(*input - min) <= (uint32)(max - min) || (uint8)(*input ^ min) == 0x80);")],
 needs="a subject byte that differs from the range's lower end in the top bit only",
 breaks="the range accepts a byte outside of it",
 inc=["containers/containers_types.h", "regex/regex.h"], demo="""
	Re::Regex r{"[a-c]"};
	CK(r.accept("a") && r.accept("c") && !r.accept("d"));
	char t[2] = {(char)('a' ^ 0x80), 0};
	CK(!r.accept(t));
"""),
dict(id="regex-epsilon-merge", property="R01", file="public/regex/state.h",
 edits=[("			for (StateBase * prevState : prevStates)\n			{\n				prevState->nextStates.remove(this);\n				prevState->addNextState(nextState);\n			}", "			for (StateBase * prevState : prevStates)\n			{\n				prevState->nextStates.remove(this);\n				if (prevState != nextState) prevState->addNextState(nextState);\n			}")],
 needs="an epsilon state whose removal makes a state its own successor (a repeated single item)",
 breaks="the loop of the repetition is lost",
 inc=["containers/containers_types.h", "regex/regex.h"], pre="#include <initializer_list>", demo="""
	for (const char * p : {"a+", "(a)+", "a*", "(a)*", "a{2,}", "((a)+)b?"})
	{
		Re::Regex r{p};
		CK(r.accept("aaaa"));
	}
"""),
dict(id="mem-memset-elements", property="M05", file="public/generic/generic_platform_memory.h", skip=True, edits=[("x", "y")], needs="", breaks="", demo=""),
dict(id="mem-move-forward", property="M05", file="public/generic/generic_platform_memory.h",
 edits=[("		if (LIKELY(dst < src))\n", "		if (LIKELY(dst < src || dst >= src + n - 1))\n")],
 needs="moving a block of non-trivial elements right by exactly one less than its length",
 breaks="the last element is overwritten with the first before it is moved",
 inc=["hal/platform_memory.h"], pre="struct E { int v; E(int x = 0) : v(x) {} E(const E & o) : v(o.v) {} E(E && o) : v(o.v) { o.v = -1; } E & operator=(const E & o) { v = o.v; return *this; } E & operator=(E && o) { v = o.v; o.v = -1; return *this; } ~E() { v = -1; } };",
 demo="""
	E e[6] = {1, 2, 3, 4, 5, 6};
	Memory::moveElements(e + 2, e, 3);
	CK(e[2].v == 1 && e[3].v == 2 && e[4].v == 3);
"""),
]
BUGS = [b for b in BUGS if not b.get("skip")]
