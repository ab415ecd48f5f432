# Fourth batch of planted bugs (see plant.py)
RX = "static bool m(const char * p, const char * s) { Re::Regex r{p}; return r.accept(s); }\n"
RI = ["containers/containers_types.h", "regex/regex.h"]
FI = ["hal/malloc_ansi.h", "templates/function.h"]
BUGS = [
dict(id="func-clone-null", property="F01", file="public/templates/function.h",
 edits=[("		heap = other.getOwnedObject()->clone();", "		heap = other.heap;")],
 needs="copying a function and destroying the copy",
 breaks="the copy shares the owned functor and frees it a second time",
 inc=FI, asan=True, demo="""
	int32 k = 3; Function<int32(int32)> f{[k](int32 x) { return x + k; }};
	{ Function<int32(int32)> g{f}; CK(g(1) == 4); }
	CK(f(1) == 4);
"""),
dict(id="func-swap-half", property="F01", file="public/templates/function.h",
 edits=[("		swap(this->callable, other.callable);", "		this->callable = other.callable;")],
 needs="move assignment from an empty function over one that holds something",
 breaks="the functor of the target is never destroyed",
 inc=FI, pre="static int live = 0; struct F { F() { ++live; } F(const F &) { ++live; } ~F() { --live; } int32 operator()(int32 x) const { return x; } };",
 demo="""
	{ F f; Function<int32(int32)> a{f}, b; CK(live == 2); a = move(b); CK(!a); }
	CK(live == 0);
"""),
dict(id="func-move-keep", property="F01", file="public/templates/function.h",
 edits=[("		other.callable = nullptr;\n", "\n")],
 needs="moving a function and destroying both", breaks="the source still believes it holds something",
 inc=FI, demo="""
	int32 k = 3; Function<int32(int32)> f{[k](int32 x) { return x + k; }}; Function<int32(int32)> g{move(f)}; CK(!f); CK(g(1) == 4);
"""),
dict(id="func-args-copy", property="F01", file="public/templates/function.h",
 edits=[("		return callable(storage.getAddress(), args...);\n	}\n\n	/**", "		return callable(storage.getAddress(), args...);\n	}\n\n	/**")],
 needs="x", breaks="x", inc=FI, demo=""),
dict(id="regex-space-vt", property="R01", file="private/regex/regex.cpp",
 edits=[("			return cc == ' ' || cc == '\\t' || cc == '\\r' || cc == '\\n' || cc == '\\v' || cc == '\\f';", "			return cc == ' ' || (cc >= '\\t' && cc < '\\r');")],
 needs="a carriage return against \\\\s",
 breaks="carriage return is no longer white space",
 inc=RI, pre=RX, demo="""
	CK(m("\\\\s", " ")); CK(m("\\\\s", "\\t")); CK(m("\\\\s", "\\f")); CK(m("\\\\s", "\\r")); CK(!m("\\\\S", "\\r"));
"""),
dict(id="regex-range-sign", property="R01", file="public/regex/state.h",
 edits=[("		return outNumRead = (*input >= min && *input <= max);", "		return outNumRead = (*input >= min && (*input | 1) <= (max | 1));")],
 needs="a range whose end is an even character, and the character after it",
 breaks="the character following the range is matched too",
 inc=RI, pre=RX, demo="""
	CK(m("[a-c]", "c")); CK(!m("[a-c]", "d")); CK(m("[a-d]", "d")); CK(!m("[a-d]", "e")); CK(!m("[0-8]", "9"));
"""),
dict(id="regex-nonword-edge", property="R02", file="private/regex/regex.cpp",
 edits=[("					return isWord(*input) && (numRead > 0 && isWord(*(input - 1)));", "					return isWord(*input) && isWord(*(input - 1));")],
 needs="\\\\B at the very beginning of a subject",
 breaks="the character before the subject is read",
 inc=RI, pre=RX, demo="""
	char b[8] = "xab"; CK(!m("\\\\Bab", b + 1)); CK(m("a\\\\Bb", "ab")); 
"""),
dict(id="regex-boundary-edge", property="R01", file="private/regex/regex.cpp",
 edits=[("					return isWord(*input) && (numRead == 0 || !isWord(*(input - 1))) || !isWord(*input) && (numRead > 0 && isWord(*(input - 1)));", "					return isWord(*input) && (numRead == 0 || !isWord(*(input - 1))) || !isWord(*input) && (numRead > 1 && isWord(*(input - 1)));")],
 needs="a word of one character at the start of the subject with a boundary after it",
 breaks="no word boundary after a one-character word at the start",
 inc=RI, pre=RX, demo="""
	CK(m("ab\\\\b", "ab")); CK(m("a\\\\b", "a")); CK(m("a\\\\b ", "a "));
"""),
dict(id="regex-any-newline", property="R01", file="public/regex/state.h",
 edits=[("		return outNumRead = (*input != AlphabetTraitsT::terminalSymbol);", "		return outNumRead = (*input > AlphabetTraitsT::terminalSymbol);")],
 needs="a wildcard against a character above 127",
 breaks="the wildcard does not match characters with the high bit set",
 inc=RI, pre=RX, demo="""
	CK(m(".", "x")); CK(m(".", "\\xe9"));
"""),
dict(id="regex-symbol-eof", property="R01", file="public/regex/executor.h",
 edits=[("			visitQueue.empty();\n", "\n")],
 needs="resetting an executor that was left half way",
 breaks="visits of the old subject are still in the queue after the reset",
 inc=RI + ["regex/executor.h"], demo="""
	Re::Regex r{"a|b"}; bool ok = false;
	auto e = r.getAutomaton().createExecutor("a"); e.step(ok); e.reset("zz"); ok = false; while (!e.step(ok)); CK(!ok);
"""),
dict(id="regex-exec-depth", property="R01", file="public/regex/executor.h",
 edits=[("			currVisit = VisitT{startState, input, 0};", "			currVisit = VisitT{startState, input, getNumRead()};")],
 needs="resetting an executor after it consumed something, with a pattern that asks for the start",
 breaks="after a reset the start of the subject is not its start",
 inc=RI + ["regex/executor.h"], demo="return 1;"),
dict(id="regex-destroy-accepted", property="R03", file="public/regex/automaton.h",
 edits=[("		destroyState(acceptedState);", "		if (acceptedState->getPrevStates().getCount() > 1) destroyState(acceptedState);")],
 needs="an expression whose accepted state has a single predecessor",
 breaks="the accepted state is never released",
 inc=RI, asan="leak", pre=RX, demo="""
	{ CK(m("ab", "ab")); CK(m("a", "a")); }
"""),
dict(id="regex-lambda-name", property="R03", file="public/regex/automaton.h",
 edits=[("			state->~StateT();\n", "			if (!state->template is<typename State::LambdaT>() || state->getNextStates().getCount() == 0) state->~StateT();\n")],
 needs="a pattern with a class escape or anchor", breaks="lambda states are deallocated without being destroyed",
 inc=RI, asan="leak", pre=RX, demo="""
	{ CK(m("\\\\d", "1")); }
"""),
dict(id="regex-merge-last", property="R01", file="public/regex/automaton.h",
 edits=[("				if (epsilon->getPrevStates().getCount() == 1 && epsilon->getNextStates().getCount() > 0)", "				if (epsilon->getPrevStates().getCount() <= 2 && epsilon->getPrevStates().getCount() + epsilon->getNextStates().getCount() == 4)")],
 needs="an epsilon state with two ways in and two out", breaks="one of the two ways in is lost", inc=RI, pre=RX, demo="""
	CK(m("(a|b)+", "a")); CK(m("(a|b)*c", "bac")); CK(m("(a|b)+", "ab")); CK(m("(a?b?)*", "abba")); CK(m("(a|b){2,3}", "aba")); CK(m("(a*b)*", "aabab")); CK(m("(a|b)?(c|d)?", "ad"));CK(m("(a|b)?(c|d)?", "d"));CK(m("(a|b)*(c|d)*", "badc"));
"""),
dict(id="vec2-cmple-y", property="V02", file="public/math/vec2.h",
 edits=[("		return (x >= other.x) | (y >= other.y) << 1;", "		return (x >= other.x) | (y > other.y || x == other.x && y == other.y) << 1;")],
 needs="equal y with different x", breaks="a componentwise >= becomes a lexicographic one in y",
 inc=["math/math.h"], demo="""
	Vec2<int32> a{2, 3}, b{1, 3}; CK(a.cmpge(b) == 3); CK(a >= b); CK(a.cmpge(a) == 3);
"""),
dict(id="vec3-alias-div", property="V01", file="public/math/vec3.h",
 edits=[("	FORCE_INLINE Vec3 & operator/=(T s)", "	FORCE_INLINE Vec3 & operator/=(const T & s)")],
 needs="dividing a vector by one of its own components in place",
 breaks="the divisor changes while the components are divided",
 inc=["math/math.h"], demo="""
	Vec3<int32> a{2, 4, 6}; a /= a.x; CK(a.x == 1 && a.y == 2 && a.z == 3);
"""),
dict(id="vec4-from3", property="V01", file="public/math/vec4.h",
 edits=[("		x *= other.x, y *= other.y, z *= other.z, w *= other.w;", "		x *= other.x, y *= other.y, z *= other.z, w *= &other == this ? T(1) : other.w;")],
 needs="multiplying a vector by itself in place", breaks="w is not squared",
 inc=["math/math.h"], demo="""
	Vec4<int32> a{2, 3, 4, 5}; a *= a; CK(a.x == 4 && a.w == 25);
"""),
dict(id="vec3-near-zero", property="V03", file="public/math/vec3.h",
 edits=[("	return getSquaredSize() < 4 * FLT_EPSILON;", "	return getSquaredSize() <= 4 * FLT_EPSILON;")],
 needs="a squared length of exactly four epsilons", breaks="the bound is no longer strict",
 inc=["math/math.h"], demo="""
	Vec3<float32> a{0.f, 0.f, 0.00069053395f}; bool found = false;
	for (float f = 0.0006905f; f < 0.000691f; f = __builtin_nextafterf(f, 1.f)) if (f * f == 4 * FLT_EPSILON) { found = true; CK(!(Vec3<float32>{f, 0.f, 0.f}.isNearlyZero())); }
	CK((Vec3<float32>{1e-4f, 0.f, 0.f}.isNearlyZero())); CK(found || true);
	Vec3<float32> b{0.00048828125f, 0.00048828125f, 0.f}; CK(b.getSquaredSize() == 4 * FLT_EPSILON); CK(!b.isNearlyZero());
"""),
dict(id="vec2-cross-sign", property="V03", file="public/math/vec2.h",
 edits=[("		return Vec3<T>{T(0), T(0), x * other.y - y * other.x};", "		return Vec3<T>{T(0), T(0), y * other.x - x * other.y};")],
 needs="the cross product of plane vectors", breaks="orientation is reversed",
 inc=["math/math.h"], demo="""
	CK(((Vec2<int32>{1, 0} ^ Vec2<int32>{0, 1}).z == 1));
"""),
dict(id="quat-axes-z", property="Q01", file="public/math/quat.h",
 edits=[("		const vec3 z = x ^ y;", "		const vec3 z = *this * Vec3<float32>::backward;")],
 needs="the third of the rotated axes", breaks="the z axis may point the other way",
 inc=["math/math.h"], demo="""
	Quat q; auto a = q.getAxes(); Vec3<float32> z = a[0] ^ a[1]; CK((z - a[2]).getSquaredSize() < 1e-6f);
"""),
dict(id="quat-conj-real", property="Q01", file="public/math/quat.h",
 edits=[("			this->w * other.w - this->x * other.x - this->y * other.y - this->z * other.z", "			this->w * other.w - (*this & other) + this->w * other.w")],
 needs="nothing", breaks="equivalent up to rounding", inc=["math/math.h"], demo="CK(1);"),
dict(id="quat-scaled-rot", property="Q01", file="public/math/quat.h",
 edits=[("		return v + (this->w * t) + (q ^ t);", "		return v + (this->w * t) + (q & t) * q;")],
 needs="any rotation with a component of the vector across the axis", breaks="rotations distort",
 inc=["math/math.h"], demo="""
	Quat q{1.f, Vec3<float32>{0.f, 0.f, 1.f}}; Vec3<float32> v = q * Vec3<float32>{1.f, 0.f, 0.f}; CK(v.getSquaredSize() > 0.99f && v.getSquaredSize() < 1.01f);
"""),
dict(id="bin-shared-bucket", property="M03", file="private/hal/malloc_binned.cpp",
 edits=[("		++i, numBlocks = bucketInfo.poolSize / (blockSize *= bucketInfo.allocUnitIncrement)", "		++i, numBlocks = bucketInfo.poolSize / (blockSize += blockSize * (bucketInfo.allocUnitIncrement >> 2) + blockSize * (bucketInfo.allocUnitIncrement == 2))")],
 needs="bucket sizes that grow by a factor other than two",
 breaks="blocks of the upper buckets are too small for their sizes",
 inc=["hal/malloc_binned.h"], asan=True, demo="""
	MallocBinned m{MallocBinned::BucketInfo{1 << 12, 8, 512, 4}}; void * a[4]; for (auto & p : a) { p = m.alloc(32); memset(p, 7, 32); }
	for (int i = 0; i < 4; ++i) for (int k = 0; k < 32; ++k) CK(((char*)a[i])[k] == 7);
	for (int i = 0; i < 3; ++i) for (int k = i + 1; k < 4; ++k) CK((uintp)a[i] + 32 <= (uintp)a[k] || (uintp)a[k] + 32 <= (uintp)a[i]);
"""),
dict(id="mem-move-overlap", property="M05", file="public/hal/platform_memory.h", edits=[], needs="", breaks="", demo=""),
dict(id="pooled-root-sibling", property="M02", file="public/hal/malloc_pool.h",
 edits=[("		if (node->remove() == root) root = root->left ? root->left : root->right;", "		if (node->remove() == root) root = root->right;")],
 needs="x", breaks="x", inc=["hal/malloc_pool.h"], demo="return 1;"),
dict(id="map-pop-copy", property="K01", file="public/containers/map.h",
 edits=[("		outVal = move(node->data.second);", "		outVal = tree.getNumNodes() > 1 ? node->data.second : tree.root->data.second;")],
 needs="nothing", breaks="equivalent", demo="return 1;"),
dict(id="map-range-end", property="K01", file="public/containers/map.h", edits=[], needs="", breaks="", demo=""),
dict(id="set-get-out", property="K02", file="public/containers/set.h",
 edits=[("		return get(key) || (get(keys) || ... || false);", "		return (get(keys) || ... || get(key)) && get(key) | sizeof...(keys) > 1;")],
 needs="any() of exactly two keys of which only the second is present", breaks="the second key is ignored",
 inc=["containers/set.h"], demo="""
	Set<int32> s; s.set(1, 2); CK(s.any(1)); CK(!s.any(5)); CK(s.any(1, 9)); CK(s.any(9, 1)); CK(s.any(8, 9, 1));
"""),
]
BUGS = [b for b in BUGS if b["edits"] and "return 1;" not in b["demo"] and b["demo"]]
