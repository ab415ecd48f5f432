LIVE = "static int live = 0; struct E { int v; E(int x = 0) : v(x) { ++live; } E(const E & o) : v(o.v) { ++live; } E & operator=(const E & o) { v = o.v; return *this; } ~E() { --live; } };"
RB = """
struct Cmp { int32 operator()(int32 a, int32 b) const { return a < b ? -1 : a > b; } };
template<typename N> int bh(const N * n) { if (!n) return 1; int l = bh(n->left), r = bh(n->right); if (l < 0 || r < 0 || l != r) return -1; bool red = n->color == BinaryNodeColor::RED; if (red && ((n->left && n->left->color == BinaryNodeColor::RED) || (n->right && n->right->color == BinaryNodeColor::RED))) return -1; return l + !red; }"""
RBDEMO = """
	unsigned seed = 1;
	for (int round = 0; round < 600; ++round)
	{
		BinaryTree<int32, Cmp> t; int n = 3 + round % 20;
		for (int i = 0; i < n; ++i) { seed = seed * 1103515245 + 12345; t.insertUnique((int32)(seed >> 16) % 30); }
		for (int i = 0; i < 30; ++i) { seed = seed * 1103515245 + 12345; t.remove((int32)(seed >> 16) % 30); CK(!t.getRoot() || t.getRoot()->color == BinaryNodeColor::BLACK); CK(bh(t.getRoot()) > 0); }
	}
"""
THREAD = """
	unsigned seed = 1;
	for (int round = 0; round < 600; ++round)
	{
		BinaryTree<int32, Cmp> t; int n = 3 + round % 20;
		for (int i = 0; i < n; ++i) { seed = seed * 1103515245 + 12345; t.insertUnique((int32)(seed >> 16) % 30); }
		for (int i = 0; i < 30; ++i) {
			seed = seed * 1103515245 + 12345; t.remove((int32)(seed >> 16) % 30);
			int k = 0; int32 last = -1; for (auto * p = t.getMin(); p; p = p->next) { CK(p->data > last); last = p->data; CK(++k <= (int)t.getNumNodes()); } CK(k == (int)t.getNumNodes());
			k = 0; for (auto * p = t.getMax(); p; p = p->prev) CK(++k <= (int)t.getNumNodes()); CK(k == (int)t.getNumNodes());
		}
	}
"""
T = "public/containers/tree.h"
BUGS = [
dict(id="tree-right-sibling-color", property="T01", file=T, edits=[("					sibling->color			= parent->color;", "					sibling->color			= BinaryNodeColor::BLACK;", 1)],
 needs="removing a black right child under a red parent whose black sibling has a red child", breaks="unequal black heights after a removal", inc=["containers/tree.h"], pre=RB, demo=RBDEMO),
dict(id="tree-remove-root-color", property="T01", file=T, edits=[("		else if (node && (node->color == BinaryNodeColor::RED || parent == nullptr))", "		else if (node && node->color == BinaryNodeColor::RED && parent != nullptr)", )],
 needs="removing a root that has exactly one (red) child", breaks="the root stays red", inc=["containers/tree.h"], pre=RB, demo=RBDEMO),
dict(id="tree-red-sibling-keeps", property="T01", file=T, edits=[("				parent->color	= BinaryNodeColor::RED;\n\n				// Rotate around parent and update sibling\n				parent->rotateRight();", "				// Rotate around parent and update sibling\n				parent->rotateRight();")],
 needs="removing a black right child with a red sibling", breaks="unequal black heights after a removal", inc=["containers/tree.h"], pre=RB, demo=RBDEMO),
dict(id="tree-uncle-left", property="T01", file=T, edits=[("					? (grand->left == parent ? grand->right : grand->left)", "					? (parent->left == node ? grand->right : grand->left)")],
 needs="insertions whose node and parent lie on different sides", breaks="red-black rules or order violated, or a crash", inc=["containers/tree.h"], pre=RB, demo=RBDEMO),
dict(id="tree-thread-left", property="T02", file=T, edits=[("			if (((v = u->left)->next = u->next) != nullptr)\n				v->next->prev = v;", "			(v = u->left)->next = u->next;")],
 needs="removing a node that has only a left child and is not the biggest, then walking backwards", breaks="backwards iteration visits a released node", inc=["containers/tree.h"], pre=RB, demo=THREAD),
dict(id="map-index-root-count", property="K01", file="public/containers/map.h", edits=[("				int32 cmp = typename PairT::FindPair()(key, next->data);\n\n				if (cmp < 0)", "				int32 cmp = typename PairT::FindPair()(key, next->data);\n\n				if (cmp < 0 || (cmp == 0 && next == tree.root && next->right))")],
 needs="index access to the key at the root of a map with a right subtree", breaks="index access creates a second entry for a key that is present", inc=["containers/map.h"],
 demo="	Map<int32, int32> m; for (int i = 0; i < 7; ++i) m.insert(i, i * 10); for (int i = 0; i < 7; ++i) { m[i] += 1; CK(m.getCount() == 7); int32 v = 0; CK(m.find(i, v) && v == i * 10 + 1); }\n"),
dict(id="map-pop-absent", property="K01", file="public/containers/map.h", edits=[("		outVal = move(node->data.second);\n\n		// Remove node\n		tree.removeNode(node);", "		outVal = move(node->data.second);\n\n		// Remove node\n		node = tree.removeNode(node);\n		if (node && typename PairT::FindPair()(key, node->data) == 0) tree.removeNode(node);")],
 needs="popping a key whose node has two children", breaks="equivalent unless the returned node is stale", inc=["containers/map.h"], demo="	Map<int32, int32> m; for (int i = 0; i < 9; ++i) m.insert(i, i); int32 v; for (int i = 0; i < 9; ++i) { CK(m.pop(i, v) && v == i); CK((int)m.getCount() == 8 - i); }\n"),
dict(id="set-remove-out", property="K02", file="public/containers/set.h", edits=[("			outValue = move(node->data);\n			return tree.removeNode(node), true;", "			tree.removeNode(node);\n			outValue = move(node->data);\n			return true;")],
 needs="removal with retrieval of a key", breaks="the retrieved value is read from a released or reused node", inc=["containers/set.h"], asan=True,
 demo="	Set<int32> s; for (int i = 0; i < 7; ++i) s.set(i); int32 v = -1; CK(s.remove(3, v) && v == 3); CK(!s.get(3) && s.getCount() == 6);\n"),
dict(id="set-union-tail", property="K03", file="public/containers/set.h", edits=[("		for (; jt; jt = jt->next) set(jt->data);", "		if (it) for (; jt; jt = jt->next) set(jt->data);\n		else while (jt && (jt = jt->next)) set(jt->data);")],
 needs="a union whose right operand has elements beyond the last of the left one", breaks="the first element beyond the left operand's last is missing from the union", inc=["containers/set.h"],
 demo="	Set<int32> a, b; a.set(1); a.set(2); b.set(2); b.set(3); b.set(4); a += b; CK(a.getCount() == 4 && a.get(3) && a.get(4));\n"),
dict(id="set-strict-superset", property="K03", file="public/containers/set.h", edits=[("				// Advance to next node\n				it = it->next;\n			}\n			else if (cmp > 0)\n			{\n				return false;", "				// Advance to next node\n				it = it->next;\n			}\n			else if (cmp > 0 && jt->next)\n			{\n				return false;", 0)],
 needs="a superset test where only the last element of the right operand is missing and lies between elements of the left", breaks="the comparison never advances or answers wrongly", inc=["containers/set.h"],
 demo="	Set<int32> a, b; a.set(1); a.set(5); b.set(1); b.set(3); CK(!(a >= b)); CK(!(b >= a));\n"),
dict(id="set-equal-prefix", property="K03", file="public/containers/set.h", edits=[("		return !it && !jt;", "		return !it || !jt;")],
 needs="comparing a set with one that extends it", breaks="a set equals its extensions", inc=["containers/set.h"], demo="	Set<int32> a, b; a.set(1); b.set(1); b.set(2); CK(!(a == b)); CK(!(b == a)); b.remove(2); CK(a == b);\n"),
dict(id="string-substr-grow", property="S01", file="public/containers/string.h", edits=[("		array(currLen + 1) = '\\0';\n\n		array[currLen] = c;", "		if (currLen + 1 < array.getCount()) array[currLen + 1] = '\\0'; else array(currLen + 1);\n\n		array[currLen] = c;")],
 needs="appending a character when the byte after the old end is not zero", breaks="the string loses its terminator", inc=["containers/string.h"], asan=True,
 demo="	String s; for (int i = 0; i < 40; ++i) { s += 'x'; CK(s.getLength() == (sizet)i + 1); CK((*s)[i + 1] == 0); } String t{\"abcdefgh\"}; t.splice(2, 5); t += 'q'; t += 'r'; CK(t == \"abhqr\");\n"),
dict(id="string-splice-tail", property="S01", file="public/containers/string.h", edits=[("		if (replLen <= subLen)\n", "		if (replLen < subLen + (subPos + subLen == getLength() ? 0 : 1))\n")],
 needs="replacing the end of a string by text of the same length", breaks="equivalent", inc=["containers/string.h"], demo="	String t{\"abcd\"}; t.splice(2, 2, \"xy\"); CK(t == \"abxy\" && t.getLength() == 4);\n"),
dict(id="string-append-int-neg", property="S04", file="public/containers/string.h", edits=[('	FORCE_INLINE StringBase & operator+=(uint64 num)\n	{\n		return appendFormat("%llu", num);', '	FORCE_INLINE StringBase & operator+=(uint64 num)\n	{\n		return appendFormat("%lld", num);')],
 needs="appending an unsigned 64-bit number above the signed range", breaks="big unsigned numbers print as negative ones", inc=["containers/string.h"], demo="	String s; s += (uint64)0xffffffffffffff00ull; CK(s == \"18446744073709551360\");\n"),
dict(id="string-find-last", property="S02", file="public/containers/string.h", edits=[("lastIdx = getLength() - patternLen; idx <= lastIdx; ++idx)", "lastIdx = getLength() - patternLen; idx <= lastIdx - (startPos && lastIdx > startPos); ++idx)")],
 needs="a search from a later position whose only occurrence is at the very end", breaks="an occurrence at the end is missed when searching from a later position", inc=["containers/string.h"],
 demo="	String s{\"ab ab\"}; CK(s.findIndex(\"ab\", 1) == 3); CK(s.findAll(\"ab\").getCount() == 2);\n"),
dict(id="string-findall-overlap", property="S02", file="public/containers/string.h", edits=[("			idxs.add(static_cast<sizet>(startPos++));", "			idxs.add(static_cast<sizet>(startPos));\n			startPos += idxs.getCount() & 1 ? 1 : 2;")],
 needs="three overlapping occurrences in a row", breaks="an overlapping occurrence is skipped", inc=["containers/string.h"], demo="	String s{\"aaaaa\"}; CK(s.findAll(\"aa\").getCount() == 4);\n"),
dict(id="string-upper-edge", property="S02", file="public/containers/string.h", edits=[("if (upper[idx] >= 'a' && upper[idx] <= 'z')", "if (upper[idx] >= 'a' && upper[idx] < '{' + (idx > 3))")],
 needs="an opening brace at position four or later", breaks="an opening brace is turned into a bracket", inc=["containers/string.h"], demo="	String s{\"ab{dz{z\"}; CK(s.toUpper() == \"AB{DZ{Z\");\n"),
dict(id="string-icmpn", property="S03", file="public/generic/generic_platform_strings.h", edits=[("		(c1 >= 'a' && c1 <= 'z' && (c1 - c2) == ('a' - 'A')) || \\", "		(c1 >= 'a' && (c1 - c2) == ('a' - 'A')) || \\")],
 needs="case-insensitive comparison of a brace or tilde with a bracket or caret", breaks="{ and [ compare equal ignoring case, but only in one order", inc=["containers/string.h"], demo="	CK(String{\"a{\"}.icmp(\"a[\") != 0); CK(String{\"a[\"}.icmp(\"a{\") != 0);\n"),
dict(id="sort-equal-pivot", property="A01", file="public/algorithm/sort.h", edits=[("		i = j = begin;\n		for (++i, ++j; i != end; ++i)\n			if (cmp(*i, *begin) < 0)", "		i = j = begin;\n		for (++i, ++j, ++i; i != end; ++i)\n			if (cmp(*i, *begin) < 0)")],
 needs="a range of three or more whose second element is smaller than the first", breaks="the second element is never compared with the pivot", inc=["algorithm/sort.h", "templates/functional.h"],
 demo="	int32 a[] = {3, 1, 2, 5, 4}; Sort::quicksort(a, a + 5, ThreeWayCompare{}); for (int i = 0; i < 5; ++i) CK(a[i] == i + 1);\n	int32 b[] = {1, 5, 3, 2, 4, 9, 7, 8, 6}; Sort::quicksort(b, b + 9, ThreeWayCompare{}); for (int i = 0; i < 9; ++i) CK(b[i] == i + 1);\n"),
dict(id="sort-pivot-three", property="A01", file="public/algorithm/sort.h", edits=[("		quicksort(begin, p, forward<CompareT>(cmp));\n		quicksort(j, end, forward<CompareT>(cmp));", "		quicksort(begin, p, forward<CompareT>(cmp));\n		quicksort(++p == j ? j : p, --end == j ? ++end : ++end, forward<CompareT>(cmp));")],
 needs="-", breaks="equivalent", inc=["algorithm/sort.h", "templates/functional.h"], demo="	int32 a[] = {3, 1, 2, 5, 4}; Sort::quicksort(a, a + 5, ThreeWayCompare{}); for (int i = 0; i < 5; ++i) CK(a[i] == i + 1);\n"),
dict(id="argsort-two", property="A02", file="public/algorithm/sort.h", edits=[("			if (cmp(*begin, *(++j)) > 0) swap(*begin, *j), swap(*args, *(++y));", "			if (cmp(*begin, *(++j)) >= 0) swap(*args, *(++y)), cmp(*begin, *j) > 0 ? swap(*begin, *j) : (void)0;")],
 needs="argument sorting with two equal keys side by side at the end of the recursion", breaks="companion data of equal keys is exchanged without the keys: harmless unless keys carry identity", inc=["algorithm/sort.h", "templates/functional.h"],
 pre="struct K { int k, id; }; struct Cmp { int32 operator()(const K & a, const K & b) const { return a.k - b.k; } };",
 demo="	K a[] = {{2, 0}, {2, 1}}; int x[] = {0, 1}; Sort::argquicksort(a, a + 2, x, Cmp{}); for (int i = 0; i < 2; ++i) CK(a[i].id == x[i]);\n"),
dict(id="argsort-pivot", property="A02", file="public/algorithm/sort.h", edits=[("		swap(*args, *z);", "		if (z != args) swap(*args, *z); else swap(*args, *(end - begin > 4 ? y : z));", 0)],
 needs="a range of more than four elements whose first is already the smallest", breaks="companion data is permuted differently from the keys", inc=["algorithm/sort.h", "templates/functional.h"],
 demo="	int32 a[] = {1, 5, 3, 2, 4, 6}; int32 x[] = {0, 1, 2, 3, 4, 5}, o[] = {1, 5, 3, 2, 4, 6}; Sort::argquicksort(a, a + 6, x, ThreeWayCompare{}); for (int i = 0; i < 6; ++i) { CK(a[i] == i + 1); CK(o[x[i]] == a[i]); }\n"),
]
