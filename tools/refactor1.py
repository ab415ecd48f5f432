# Behaviour-preserving rewrites of korin, used to see that the checks stay quiet:
#   python3 tools/refactor1.py DIR      (DIR: a scratch copy of /repo)
import sys, re
root = sys.argv[1] + '/src/korin/core/'
def norm(s): return re.sub(r'[ \t]+', ' ', s)
def edit(f, *pairs):
    p = root + f; s = open(p).read()
    for old, new in pairs:
        pat = r'(?:\s|//[^\n]*\n)*'.join(re.escape(t) for t in old.split())
        m = list(re.finditer(pat, s))
        if len(m) < 1: print('NOT FOUND', f, old[:70]); continue
        n = 0
        s = re.sub(pat, lambda _: new.strip('\n'), s)
        if len(m) > 1: print('note', len(m), 'x', f, old[:50])
    open(p, 'w').write(s)

T = 'public/containers/tree.h'
edit(T,
 ('return parent ? parent->getRoot() : this;', 'auto it = this; while (it->parent) it = it->parent; return it;'),
 ('return left ? left->getMin() : this;', 'auto it = this; while (it->left) it = it->left; return it;'),
 ('return right ? right->getMax() : this;', 'auto it = this; for (; it->right != nullptr; it = it->right); return it;'),
 ('return root ? 1 + getTreeSize(root->right) + getTreeSize(root->left) : 0;', 'if (!root) return 0; uint64 n = 1; n += getTreeSize(root->left); n += getTreeSize(root->right); return n;'),
 ('''const int32 cmp = CompareT{}(this->data, key);
		if (cmp > 0)
			return left ? left->find(key) : nullptr;
		else if (cmp < 0)
			return right ? right->find(key) : nullptr;
		else
			return this;''', '''const BinaryNode * it = this;
		while (it)
		{
			const int32 cmp = CompareT{}(it->data, key);
			if (cmp == 0) break;
			it = cmp < 0 ? it->right : it->left;
		}
		return it;'''),
 ('''do
		{
			jt = it;
			it = it->prev;
		} while (it && CompareT{}(key, it->data) == 0);''', '''jt = it;
		while ((it = jt->prev) != nullptr)
		{
			if (CompareT{}(it->data, key) != 0) break;
			jt = it;
		}'''),
 ('if ((left = node)) left->parent = this; return left;', 'left = node; if (node != nullptr) node->parent = this; return node;'),
 ('''if (prev != nullptr) prev->next = node;
		node->prev = prev;
		node->next = this;
		this->prev = node;''', '''BinaryNode * before = prev;
		prev = node; node->next = this; node->prev = before;
		if (before) before->next = node;'''),
 ('''root->left == this
				? root->setLeftChild(pivot)
				: root->setRightChild(pivot);''', '''if (root->right == this) root->setRightChild(pivot); else root->setLeftChild(pivot);'''),
 ('''// Case 0: I'm (g)root
		if (node->parent == nullptr)
			node->color = BinaryNodeColor::BLACK;
		// Case 1: parent is black
		else if (isBlack(node->parent))
			node->color = BinaryNodeColor::RED;
		else
		{'''.replace("// Case 0: I'm (g)root\n",'').replace('// Case 1: parent is black\n',''), '''if (!node->parent) { node->color = BinaryNodeColor::BLACK; return; }
		node->color = BinaryNodeColor::RED;
		if (isRed(node->parent))
		{'''),
 ('''parent->rotateLeft();
						grand->rotateRight();

						node->color = BinaryNodeColor::BLACK;
						grand->color = BinaryNodeColor::RED;''', '''node->color = BinaryNodeColor::BLACK;
						grand->color = BinaryNodeColor::RED;
						parent->rotateLeft();
						grand->rotateRight();'''),
 ('''if (cmp > 0)
		{
			if (left)
				return left->insert(node);
			else
			{
				setPrevNode(node);
				setLeftChild(node);
				repairInserted(node);

				return node;
			}
		}
		else
		{
			if (right)
				return right->insert(node);
			else
			{
				setNextNode(node);
				setRightChild(node);
				repairInserted(node);

				return node;
			}
		}''', '''BinaryNode * at = this;
		for (;;)
		{
			BinaryNode * below = cmp > 0 ? at->left : at->right;
			if (!below) break;
			at = below;
			cmp = CompareT{}(at->data, node->data);
		}
		if (cmp > 0) { at->setLeftChild(node); at->setPrevNode(node); }
		else { at->setRightChild(node); at->setNextNode(node); }
		repairInserted(node);
		return node;'''),
 ('''if (u->prev) u->prev->next = u->next;
			if (u->next) u->next->prev = u->prev;''', '''BinaryNode * before = u->prev, * after = u->next;
			if (after) after->prev = before;
			if (before) before->next = after;'''),
 ('''return (outValidNode = w), u;''', 'outValidNode = w; return u;'),
 ('''if (root->left) destroySubtree(root->left);
		if (root->right) destroySubtree(root->right);
		destroyNode(root);''', '''for (NodeT * at = root; at;)
		{
			NodeT * right = at->right;
			if (at->left) destroySubtree(at->left);
			destroyNode(at);
			at = right;
		}'''),
 ('''if (root)
		{
			// Insert node
			NodeT * node = createNode(forward<DataT>(data));
			root->insert(node);
			root = root->getRoot();

			++numNodes;

			return node->data;
		}
		else
		{
			root = createNode(forward<DataT>(data));
			root->color = BinaryNodeColor::BLACK;

			numNodes = 1;

			return root->data;
		}'''.replace('// Insert node\n',''), '''NodeT * node = createNode(forward<DataT>(data));
		if (!root) (root = node)->color = BinaryNodeColor::BLACK;
		else
		{
			root->insert(node);
			root = node->getRoot();
		}
		numNodes += 1;
		return node->data;'''),
 ('''NodeT * removed = nullptr;
		NodeT * valid = nullptr;
		if ((removed = node->remove(valid)) == root) root = root->left ? root->left : root->right;
		if (root) root = root->getRoot();

		--numNodes;

		destroyNode(removed);

		return valid;''', '''NodeT * valid = nullptr;
		NodeT * removed = node->remove(valid);
		if (removed == root) root = root->right ? root->right : root->left;
		while (root && root->parent) root = root->parent;
		destroyNode(removed);
		numNodes = numNodes - 1;
		return valid;'''),
 ('return it.node ? Iterator{removeNode(it.node)} : end();', 'if (it == end()) return end(); return Iterator{removeNode(it.node)};'),
)
A = 'public/containers/array.h'
edit(A,
 ('''if (inCapacity > capacity)
		{
			// Compute minimum capacity according to policy
			capacity = capacity ? capacity : 2;
			while (capacity < inCapacity) capacity *= 2;'''.replace('// Compute minimum capacity according to policy\n',''), '''if (inCapacity <= capacity) return false;
		{
			uint64 wanted = capacity == 0 ? 2 : capacity;
			for (; wanted < inCapacity; wanted <<= 1);
			capacity = wanted;'''),
 ('''for (uint64 i = count; i > idx; --i)
		{
			new (buffer + i - 1 + num) T{move(buffer[i - 1])};
			Memory::destroyElements(buffer + i - 1, buffer + i);
		}''', '''uint64 i = count;
		while (i-- > idx)
		{
			T & from = buffer[i];
			new (buffer + (i + num)) T{move(from)};
			Memory::destroyElements(&from, &from + 1);
		}'''),
 ('''if (num > 0)
		{
			Memory::moveElements(buffer + idx, buffer + idx + num, count - (idx + num));
			Memory::destroyElements(buffer + count - num, buffer + count);
			count -= num;
		}''', '''if (num == 0) return;
		const uint64 newCount = count - num;
		for (uint64 i = idx; i < newCount; ++i) buffer[i] = move(buffer[i + num]);
		Memory::destroyElements(buffer + newCount, buffer + count);
		count = newCount;'''),
 ('''resizeIfNecessary(count + 1);
		return insertNoResize(count++, forward<ItemT>(item));''', '''resizeIfNecessary(count + 1);
		T & out = insertNoResize(count, forward<ItemT>(item));
		++count;
		return out;'''),
 ('return &(**this) == &(*other);', 'return idx == other.idx && &array == &other.array;'),
 ('''count = PlatformMath::max(count, idx + 1);
		return buffer[idx];''', '''if (idx >= count) count = idx + 1;
		return *(buffer + idx);'''),
)
L = 'public/containers/list.h'
edit(L,
 ('''while (head)
		{
			LinkT * link = head;
			head = head->next;
			destroyLink(link);
		}
		head = tail = nullptr;
		length = 0;''', '''LinkT * it = head;
		head = tail = nullptr;
		length = 0;
		while (it)
		{
			LinkT * next = it->next;
			destroyLink(it);
			it = next;
		}'''),
 ('''if (!tail)
		{
			head = tail = link;
		}
		else
		{
			link->prev = tail;
			tail->next = link;
			tail = link;
		}
		++length;''', '''link->prev = tail;
		if (tail) tail->next = link; else head = link;
		tail = link;
		length += 1;'''),
 ('''if (prev) prev->next = next;
		if (next) next->prev = prev;
		if (link == head) head = next;
		if (link == tail) tail = prev;
		--length;
		destroyLink(link);''', '''(prev ? prev->next : head) = next;
		(next ? next->prev : tail) = prev;
		destroyLink(link);
		--length;'''),
 ('''LinkT * link = tail;
			if (tail == head)
			{
				head = tail = nullptr;
			}
			else
			{
				(tail = tail->prev)->next = nullptr;
			}
			--length;
			destroyLink(link);
			return true;''', '''remove(tail);
			return true;'''),
 ('''if (tail)
		{
			outData = move(head->data);
			return removeFront();
		}
		else return false;''', '''if (!head) return false;
		outData = move(head->data);
		return removeFront();'''),
)
M = 'public/containers/map.h'
edit(M,
 ('''tree.numNodes = 1;
			tree.root = tree.createNode(PairT{forward<KeyAnyT>(key), ValT{}});
			tree.root->color = BinaryNodeColor::BLACK;

			return tree.root->data.second;''', '''return tree.insert(PairT{forward<KeyAnyT>(key), ValT{}}).second;'''),
 ('''int32 cmp = typename PairT::FindPair()(key, next->data);''', '''const int32 cmp = CompareT{}(key, next->data.first);'''),
 ('''const auto * node = tree.findNode(key);
		if (node)
		{
			outVal = node->data.second;
			return true;
		}
		else return false;''', '''auto it = tree.find(key);
		if (it == tree.end()) return false;
		outVal = (*it).second;
		return true;'''),
 ('return tree.findNode(key) != nullptr;', 'return !(tree.find(key) == tree.end());'),
)
S = 'public/containers/set.h'
edit(S,
 ('return !it && !jt;', 'return it == nullptr && jt == nullptr;'),
 ('''if (CompareT{}(it->data, jt->data) != 0) return false;''', '''const int32 c = CompareT{}(it->data, jt->data); if (c < 0 || c > 0) return false;'''),
 ('return get(key) || (get(keys) || ... || false);', 'if (get(key)) return true; bool found = false; ((found = found || get(keys)), ...); return found;'),
 ('''for (; jt; jt = jt->next) set(jt->data);''', '''while (jt) { const NodeT * at = jt; jt = at->next; set(at->data); }'''),
 ('''return !it && (jt || !eq);''', '''return getSize() < other.getSize() && *this <= other;'''),
 ('''while (it) it = tree.removeNode(it);''', '''for (; it != nullptr; it = tree.removeNode(it));'''),
 ('return tree.removeNode(node), true;', 'tree.removeNode(node); return true;'),
)
X = 'public/containers/string.h'
edit(X,
 ('Memory::memcpy(*array, src, n); array[n] =', 'for (sizet i = 0; i < n; ++i) array[i] = src[i]; array[n] ='),
 ('''array(len) = '\\0';
		Memory::memcpy(*array, src, len);''', '''for (sizet i = 0; i < len; ++i) array.add(src[i]);
		array.add('\\0');'''),
 ('''if (Memory::memcmp(&array[idx], pattern, patternLen) == 0) return idx;''', '''sizet j = 0;
			while (j < patternLen && array[idx + j] == pattern[j]) ++j;
			if (j == patternLen) return static_cast<int64>(idx);'''),
 ('''if (lower[idx] >= 'A' && lower[idx] <= 'Z') lower[idx] += ('a' - 'A');''', '''const CharT c = lower[idx];
			lower[idx] = c >= 'A' && c <= 'Z' ? c + 32 : c;'''),
 ('''if (upper[idx] >= 'a' && upper[idx] <= 'z') upper[idx] -= ('a' - 'A');''', '''CharT & c = upper[idx];
			if (!(c < 'a' || 'z' < c)) c ^= 0x20;'''),
 ('''while ((startPos = findIndex(pattern, startPos)) != -1)
		{
			splice(startPos, patternLen, replacement);
			startPos += replacementLen;
		}
		return *this;''', '''for (startPos = findIndex(pattern, 0); startPos >= 0; startPos = findIndex(pattern, startPos + replacementLen))
			splice(startPos, patternLen, replacement);
		return *this;'''),
 ('''array(currLen + 1) = '\\0'; array[currLen] = c;''', '''array[currLen] = c; array.add('\\0');'''),
 ('''Memory::memmov(*array + subPos + replLen, *array + subPos + subLen, len - (subPos + subLen));''', '''for (sizet i = len; i-- > subPos + subLen;) array[i + replLen - subLen] = array[i];'''),
)
G = 'public/generic/generic_platform_strings.h'
edit(G,
 ("sizet len; for (len = 0; *str != '\\0'; ++str, ++len); return len;", "const char * it = str; while (*it) ++it; return it - str;"),
 ('''for (; *s1 == *s2; ++s1, ++s2)
			if (*s1 == '\\0') return 0;
		return (uint8)*s1 - (uint8)*s2;''', '''return ::strcmp(s1, s2);'''),
 ('''if (s1[n] != s2[n]) return (uint8)s1[n] - (uint8)s2[n];''', '''{ const int32 d = (int32)(uint8)s1[n] - (int32)(uint8)s2[n]; if (d) return d; }'''),
)
O = 'public/algorithm/sort.h'
edit(O,
 ('''for (; i != end; ++i)
			if (cmp(*i, pivot) < 0) swap(*i, *j), ++j;
		return j;''', '''while (i != end)
		{
			if (cmp(*i, pivot) < 0)
			{
				swap(*i, *j);
				++j;
			}
			++i;
		}
		return j;'''),
 ('''if (cmp(*begin, *(++j)) > 0) swap(*begin, *j); return;''', '''It second = begin; ++second;
			if (cmp(*second, *begin) < 0) swap(*second, *begin);
			return;'''),
 ('''for (++i, ++j; i != end; ++i)
			if (cmp(*i, *begin) < 0) swap(*i, *(p = j)), ++j;
		swap(*begin, *p);''', '''++i; ++j;
		while (i != end)
		{
			if (cmp(*i, *begin) < 0)
			{
				p = j;
				if (i != j) swap(*i, *p);
				++j;
			}
			++i;
		}
		if (p != begin) swap(*begin, *p);'''),
 ('''for (++i, ++j, ++x, ++y; i != end; ++i, ++x)
			if (cmp(*i, *begin) < 0) swap(*i, *(k = j)), swap(*x, *(z = y)), ++j, ++y;''', '''++i; ++j; ++x; ++y;
		for (; i != end; ++i, ++x)
		{
			if (!(cmp(*i, *begin) < 0)) continue;
			k = j; z = y;
			swap(*x, *z); swap(*i, *k);
			++y; ++j;
		}'''),
)
U = 'public/unix/unix_platform_atomics.h'
edit(U,
 ('return __sync_fetch_and_add(value, amount);', '''AtomicT old = __atomic_load_n(value, __ATOMIC_SEQ_CST);
		while (!__atomic_compare_exchange_n(value, &old, static_cast<AtomicT>(old + amount), false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST));
		return old;'''),
 ('return __sync_fetch_and_sub(value, amount);', 'return __atomic_sub_fetch(value, amount, __ATOMIC_SEQ_CST) + amount;'),
 ('return __sync_lock_test_and_set(value, other);', 'return __atomic_exchange_n(value, static_cast<AtomicT>(other), __ATOMIC_SEQ_CST);'),
)
edit('public/templates/optional.h',
 ('''if (engaged)
		{
			engaged = false;
			storage.value.~T();
		}''', '''if (!engaged) return;
		storage.value.~T();
		engaged = false;'''),
 ('''engaged = true;
		new (&storage.value) T{forward<ArgsT>(args)...};''', '''::new (static_cast<void*>(&storage.value)) T{forward<ArgsT>(args)...};
		engaged = true;'''),
 ('''else if (!other.engaged && this->engaged)
		{
			reset();
		}
		return *this;''', '''else reset();
		return *this;'''),
)
edit('public/templates/function.h',
 ('return *this = Function{other};', '''Function copy{other};
		swap(this->callable, copy.callable);
		swap(this->storage.heap, copy.storage.heap);
		return *this;'''),
 ('return invoke(*(FunctorT*)fn, forward<Args>(args)...);', 'FunctorT & f = *static_cast<FunctorT*>(fn); return f(forward<Args>(args)...);'),
 ('return !!this->callable;', 'return this->callable != nullptr;'),
)
edit('public/generic/generic_platform_math.h',
 ('''if (y == 0) return T{1};
		T z = pow(x, y >> 1);
		return y & 0x1 ? z * z * x : z * z;''', '''T out{1}, base{x};
		for (U e = y; e != 0; e >>= 1) { if (e & 1) out = out * base; base = base * base; }
		return out;'''),
 ('return a < b ? a : b;', 'if (b > a) return a; return b;'),
 ('return a > b ? a : b;', 'if (b < a) return a; return b;'),
 ('return n & (alignment - 1) ^ n;', 'return n & ~(alignment - 1);'),
 ('return (n | (alignment - 1)) + 1;', 'return (n & ~(alignment - 1)) + alignment;'),
 ('return n == 0ull ? 0ull : 63ull - __builtin_clzll((uint64)n);', 'if (n == 0) return 0; uint64 v = (uint64)n, i = 0; while (v >>= 1) ++i; return i;'),
 ('return v < T(0) ? -v : v;', 'if (v >= T(0)) return v; return -v;'),
)
edit('public/generic/generic_platform_memory.h',
 ('for (; begin != end; ++begin) new (begin) T{};', 'while (begin != end) { new (begin) T{}; ++begin; }'),
 ('''for (uint32 i = 0; i < n; ++i)
			new (dst + i) T{src[i]};''', '''for (const T * end = src + n; src != end; ++src, ++dst) new (dst) T{*src};'''),
 ('''for (uint64 i = 1; i <= n; ++i)
			{
				dst[n - i] = move(src[n - i]);
			}''', '''for (uint64 i = n; i > 0;) { --i; dst[i] = move(src[i]); }'''),
 ('return ::memcmp(mem0, mem1, size);', '''const uint8 * a = static_cast<const uint8*>(mem0), * b = static_cast<const uint8*>(mem1);
		for (; size; --size, ++a, ++b) if (*a != *b) return *a < *b ? -1 : 1;
		return 0;'''),
 ('for (; begin != end; ++begin) begin->~T();', 'while (begin != end) (begin++)->~T();'),
)
edit('private/hal/malloc_pool.cpp',
 ('''while ((uintp)head < (uintp)buffer + bufferSize)
	{
		link = getBlockLink(head);
		*link = head = (void*)((uintp)head + logicalBlockSize);
	}''', '''for (uint32 i = 0; i < numBlocks; ++i)
	{
		void * block = static_cast<char*>(buffer) + i * logicalBlockSize;
		link = getBlockLink(block);
		*link = static_cast<char*>(block) + logicalBlockSize;
	}'''),
 ('''void * out = head;
	head = getNextBlock(head);
	--numFreeBlocks;
	return out;''', '''--numFreeBlocks;
	void * const out = head;
	head = *getBlockLink(out);
	return out;'''),
 ('return size <= poolInfo.blockSize ? orig : nullptr;', 'if (size > poolInfo.blockSize) return nullptr; return orig;'),
 ('''Node * it = root;
	while (it)
	{
		if (it->data->hasBlock(orig))
			return true;
		else if (orig < it->data->buffer)
			it = it->left;
		else
			it = it->right;
	}
	return false;''', '''for (Node * it = root; it != nullptr; it = orig < it->data->buffer ? it->left : it->right)
	{
		if (it->data->hasBlock(orig)) return true;
	}
	return false;'''),
)
edit('private/hal/malloc_ansi.cpp',
 ('''if (LIKELY(usableSize))
			Memory::memcpy(out, orig, PlatformMath::min(size, usableSize));''', '''const sizet toCopy = usableSize < size ? usableSize : size;
		::memcpy(out, orig, toCopy);'''),
)
edit('private/hal/malloc_binned.cpp',
 ('''MallocPooled * bucket = buckets[i];
		if (bucket->hasBlock(orig))
		{
			bucket->free(orig);
			return;
		}''', '''if (!buckets[i]->hasBlock(orig)) continue;
		buckets[i]->free(orig);
		break;'''),
)
edit('private/hal/malloc_pool.cpp',
 ('''void ** link = nullptr;
	while ((uintp)head < (uintp)buffer + bufferSize)
	{
		link = getBlockLink(head);
		head = (void*)((uintp)head + logicalBlockSize);
		*link = head;
	}
	head = buffer;
	*link = nullptr;''', '''for (uint32 i = 0; i < numBlocks; ++i)
	{
		char * block = static_cast<char*>(buffer) + i * logicalBlockSize;
		*getBlockLink(block) = i + 1 < numBlocks ? block + logicalBlockSize : nullptr;
	}'''),
)
for v, n in (('public/math/vec3.h', 3), ('public/math/vec4.h', 4)):
    V = 'Vec%d' % n
    edit(v,
     ('return %s{-x, -y, -z%s};' % (V, ', -w' if n == 4 else ''), '%s out{*this}; for (int32 i = 0; i < %d; ++i) out[i] = -out[i]; return out;' % (V, n)),
     ('return %s{*this} += other;' % V, '%s out{*this}; out += other; return out;' % V),
     ('return %s{*this} -= s;' % V, 'return *this - %s{s};' % V),
     ('return v + s;', '%s out{s}; out += v; return out;' % V),
     ('return %s{s} -= v;' % V, '%s out; for (int32 i = 0; i < %d; ++i) out.array[i] = s - v.array[i]; return out;' % (V, n)),
     ('return x * x + y * y + z * z%s;' % (' + w * w' if n == 4 else ''), 'return *this & *this;'),
     ('return *this / getSize();', '%s out{*this}; out.normalize(); return out;' % V),
     ('return cmpne(other) == 0x%s;' % ('7' if n == 3 else 'f'), 'return x != other.x && y != other.y && z != other.z%s;' % (' && w != other.w' if n == 4 else '')),
     ('return (x < other.x) | (y < other.y) << 1 | (z < other.z) << 2%s;' % (' | (w < other.w) << 3' if n == 4 else ''), 'int32 m = 0; for (int32 i = 0; i < %d; ++i) if (array[i] < other.array[i]) m |= 1 << i; return m;' % n),
    )
edit('public/math/vec3.h',
 ('x /= s, y /= s, z /= s; return *this;', 'for (T & c : array) c = c / s; return *this;'),
 ('''return Vec3{
			y * other.z - z * other.y,
			z * other.x - x * other.z,
			x * other.y - y * other.x
		};''', '''const T cx = y * other.z - z * other.y, cy = z * other.x - x * other.z;
		return Vec3{cx, cy, x * other.y - y * other.x};'''),
)
edit('public/math/quat.h',
 ('return PlatformMath::acos(this->w) * 2.f;', 'return 2.f * PlatformMath::acos(this->w);'),
 ('''return *this * Vec3<float32>::down;''', '''return -getUp();'''),
 ('''const vec3 z = x ^ y;''', '''const vec3 z{x.y * y.z - x.z * y.y, x.z * y.x - x.x * y.z, x.x * y.y - x.y * y.x};'''),
 ('''this->x = v.x * s;
		this->y = v.y * s;
		this->z = v.z * s;
		this->w = PlatformMath::cos(a);''', '''this->w = PlatformMath::cos(a);
		for (int32 i = 0; i < 3; ++i) array[i] = v[i] * s;'''),
)
edit('public/math/mat4.h',
 ('''swap(vec[1], vec[4]);
		swap(vec[2], vec[8]);
		swap(vec[3], vec[12]);
		swap(vec[6], vec[9]);
		swap(vec[7], vec[13]);
		swap(vec[11], vec[14]);''', '''for (uint32 i = 0; i < 4; ++i)
			for (uint32 j = i + 1; j < 4; ++j)
				swap(mat[i][j], mat[j][i]);'''),
 ('''out = (out << 1u) | (uint16)(vec[i] == other.vec[i]);''', '''if (vec[i] == other.vec[i]) out |= 0x8000u >> i;'''),
 ('return mat[i][j];', 'return vec[4 * i + j];'),
)
edit('public/regex/state.h',
 ('return (outNumRead = 0, true);', 'outNumRead = 0; return true;'),
 ('return outNumRead = (*input == symbol);', 'if (input[0] != symbol) { outNumRead = 0; return false; } outNumRead = 1; return true;'),
 ('return outNumRead = (*input >= min && *input <= max);', 'const bool inside = !(*input < min) && !(max < *input); outNumRead = inside ? 1 : 0; return inside;'),
 ('''bool isAccepted = false;
		while (!executor.step(isAccepted) && !(isAccepted = executor.isAcceptedState()));''', '''bool isAccepted = false;
		for (;;)
		{
			if (executor.step(isAccepted)) break;
			if (executor.isAcceptedState()) { isAccepted = true; break; }
		}'''),
)
edit('public/regex/executor.h',
 ('''const int32 order = FindStateT{}(a.template get<0>(), b.template get<0>());
				return order ? order : ThreeWayCompare{}(a.template get<2>(), b.template get<2>());''', '''const int32 order = ThreeWayCompare{}(a.template get<2>(), b.template get<2>());
				if (order != 0) return order;
				return FindStateT{}(a.template get<0>(), b.template get<0>());'''),
 ('''if (!visitedSet.get(nextVisit))
				{
					visitedSet.set(nextVisit);
					visitQueue.pushBack(nextVisit);
				}''', '''if (visitedSet.get(nextVisit)) continue;
				visitQueue.pushBack(nextVisit);
				visitedSet.set(nextVisit);'''),
)
edit('public/regex/automaton.h',
 ('''bool isAccepted;
		while (!executor.step(isAccepted));
		return isAccepted;''', '''bool isAccepted = false;
		for (bool done = false; !done;) done = executor.step(isAccepted);
		return isAccepted;'''),
)
edit('public/containers/tuple.h', ('return inIdx + 1;', 'return inIdx + 1ull;'))
edit('public/templates/array.h', ('return static_cast<T*>(buffer);', 'return &buffer[0];'))
edit('public/containers/pair.h', ('return !(*this > other);', 'return FindPair{}(*this, other) <= 0;'), ('return FindPair{}(*this, other) > 0;', 'return other < *this;'))
edit('public/templates/functional.h', ('return static_cast<int32>(a > b) - static_cast<int32>(a < b);', 'return a < b ? -1 : a > b ? 1 : 0;'))
