# A second set of behaviour-preserving rewrites of korin, apart from those of refactor1.py:
#   python3 tools/refactor2.py DIR      (DIR: a scratch copy of /repo)
import sys, re
root = sys.argv[1] + '/src/korin/core/'
def edit(f, *pairs):
    p = root + f; s = open(p).read()
    for old, new in pairs:
        pat = r'(?:\s|//[^\n]*\n|/\*\*[^/]*\*/)*'.join(re.escape(t) for t in old.split())
        m = list(re.finditer(pat, s))
        if len(m) < 1: print('NOT FOUND', f, old[:70]); continue
        s = re.sub(pat, lambda _: new.strip('\n'), s)
        if len(m) > 1: print('note', len(m), 'x', f, old[:50])
    open(p, 'w').write(s)

# --- mathematics -------------------------------------------------------
edit('public/math/quat.h',
 ('''float32 a = PlatformMath::acos(this->w);
		float32 s = PlatformMath::sin(a);
		outAngle = a * 2.f;
		outAxis = s != 0.f ?''', '''outAngle = getAngle();
		const float32 s = PlatformMath::sqrt(1.f - this->w * this->w);
		outAxis = s != 0.f ?'''),
 ('''inAngle *= 0.5f;
		inAxis *= PlatformMath::sin(inAngle);
		this->x = inAxis.x;
		this->y = inAxis.y;
		this->z = inAxis.z;
		this->w = PlatformMath::cos(inAngle);''', '''const float32 half = inAngle / 2.f, s = PlatformMath::sin(half), c = PlatformMath::cos(half);
		x = s * inAxis.x; y = s * inAxis.y; z = s * inAxis.z; w = c;'''),
 ('''float32 alpha = v.getSize();
		float32 a = alpha * 0.5f;
		float32 s = alpha > 0.f ? PlatformMath::sin(a) / alpha : 0.5f;
		this->x = v.x * s;
		this->y = v.y * s;
		this->z = v.z * s;
		this->w = PlatformMath::cos(a);''', '''const float32 alpha = v.getSize();
		if (alpha > 0.f) *this = Quat{alpha, v / alpha};
		else { x = v.x * 0.5f; y = v.y * 0.5f; z = v.z * 0.5f; w = 1.f; }'''),
 ('''const Vec3<float32> t = 2.f * (q ^ v);
		return v + (this->w * t) + (q ^ t);''', '''const float32 s = this->w;
		return q * (2.f * (q & v)) + v * (s * s - (q & q)) + (q ^ v) * (2.f * s);'''),
 ('''const vec3 z = x ^ y;
		return {x, y, z};''', '''return {x, y, *this * Vec3<float32>::forward};'''),
 ('''return Quat{this->x, this->y, this->z, -this->w};''', '''Quat out{*this}; out.w = -out.w; return out;'''),
)
for V, n in (('vec2', 2), ('vec3', 3), ('vec4', 4)):
    c = 'xyzw'[:n]
    def lst(op): return ', '.join('%s %s other.%s' % (k, op, k) for k in c)
    for op in ('+=', '-=', '*=', '/='):
        edit('public/math/%s.h' % V, ('%s; return *this;' % lst(op), 'for (int32 i = 0; i < %d; ++i) array[i] = array[i] %s other.array[i]; return *this;' % (n, op[0])))
edit('public/math/vec3.h',
 ('return x * x + y * y + z * z;', 'return *this & *this;'),
 ('return cmpne(other) == 0x7;', 'return cmpeq(other) == 0;'),
 ('return getSquaredSize() < 4 * FLT_EPSILON;', 'return 4 * FLT_EPSILON > getSquaredSize();'),
 ('return *this /= getSize();', 'return *this = getNormal();'),
)
edit('public/math/vec4.h',
 ('return cmpne(other) == 0xf;', 'return cmpeq(other) == 0;'),
)
edit('public/math/mat4.h',
 ('return !operator==(other);', 'for (uint32 i = 0; i < 16; ++i) if (!(vec[i] == other.vec[i])) return true; return false;'),
 ('return cmp(other) == (uint16)0xffffu;', 'for (uint32 i = 0; i < 16; ++i) if (!(vec[i] == other.vec[i])) return false; return true;'),
 ('Memory::memcpy(vec, src, sizeof(vec));', 'for (uint32 i = 0; i < 16; ++i) vec[i] = src[i];'),
)
# --- sorting -----------------------------------------------------------
edit('public/algorithm/sort.h',
 ('''for (; i != end; ++i)
			if (cmp(*i, pivot) < 0) swap(*i, *j), ++j;
		return j;''', '''for (; i != end; ++i)
		{
			if (cmp(*i, pivot) >= 0) continue;
			if (i != j) swap(*i, *j);
			++j;
		}
		return j;'''),
)
# --- trees -------------------------------------------------------------
edit('public/containers/tree.h',
 ('''sibling->color = parent->color;
					parent->color = BinaryNodeColor::BLACK;
					sibling->right->color = BinaryNodeColor::BLACK;
					parent->rotateLeft();''', '''parent->rotateLeft();
					swapColors(sibling, parent);
					sibling->right->color = BinaryNodeColor::BLACK; parent->color = BinaryNodeColor::BLACK;'''),
 ('''sibling->color = parent->color;
					parent->color = BinaryNodeColor::BLACK;
					sibling->left->color = BinaryNodeColor::BLACK;
					parent->rotateRight();''', '''const BinaryNodeColor top = parent->color;
					parent->color = sibling->left->color = BinaryNodeColor::BLACK;
					sibling->color = top;
					parent->rotateRight();'''),
 ('''BinaryNode * insert(BinaryNode * node)''', '''static void swapColors(BinaryNode * a, BinaryNode * b)
	{
		const BinaryNodeColor c = a->color;
		a->color = b->color;
		b->color = c;
	}

	BinaryNode * insert(BinaryNode * node)'''),
 ('''swap((w = this)->data, (u = next)->data);''', '''u = w; w = this;
			swap(this->data, u->data);'''),
 ('''if (u->left != nullptr)
		{
			if (((v = u->left)->next = u->next) != nullptr)
				v->next->prev = v;
		}
		else if (u->right != nullptr)
		{
			if (((v = u->right)->prev = u->prev) != nullptr)
				v->prev->next = v;
		}
		else
		{
			if (u->prev) u->prev->next = u->next;
			if (u->next) u->next->prev = u->prev;
		}''', '''v = u->left ? u->left : u->right;
		if (u->prev) u->prev->next = u->next;
		if (u->next) u->next->prev = u->prev;'''),
 ('''NodeT * left = cloneSubtree(srcRoot->left);
			NodeT * prev = left->getMax();
			(dst->left = left)->parent = dst;
			(dst->prev = prev)->next = dst;''', '''dst->left = cloneSubtree(srcRoot->left);
			dst->left->parent = dst;
			dst->prev = dst->left;
			while (dst->prev->right) dst->prev = dst->prev->right;
			dst->prev->next = dst;'''),
 ('''if (!other.root)
		{
			empty();
		}
		else if (root)
		{
			cloneSubtree(root, other.root);
		}
		else
		{
			root = cloneSubtree(other.root);
		}
		numNodes = other.numNodes;''', '''if (this == &other) return *this;
		empty();
		if (other.root) root = cloneSubtree(other.root);
		numNodes = other.numNodes;'''),
 ('''NodeT * last = root->findMax(arg);
			return ConstIterator{last ? last->next : nullptr};''', '''const NodeT * last = root->findMax(arg);
			if (last == nullptr) return ConstIterator{nullptr};
			return ConstIterator{last->next};'''),
 ('''return root ? root->find(arg) : nullptr;''', '''for (auto * it = root; it; )
		{
			const int32 cmp = CompareT{}(it->data, arg);
			if (!cmp) return it;
			it = cmp < 0 ? it->right : it->left;
		}
		return nullptr;'''),
 ('''if (NodeT * node = findNode(value))
		{
			removeNode(node);
			return true;
		}
		return false;''', '''NodeT * node = findNode(value);
		return node ? (removeNode(node), true) : false;'''),
)
# --- lists -------------------------------------------------------------
edit('public/containers/list.h',
 ('''for (; it && jt; it = (tail = it)->next, jt = jt->next)
			{
				it->data = jt->data;
			}
			while (it)
			{
				LinkT * link = it;
				it = it->next;
				destroyLink(link);
				--length;
			}
			while (jt)
			{
				pushBack(jt->data);
				jt = jt->next;
			}
			if (tail) tail->next = nullptr;''', '''while (it && jt)
			{
				it->data = jt->data;
				it = it->next;
				jt = jt->next;
			}
			while (length > other.length) removeBack();
			for (; jt; jt = jt->next) pushBack(jt->data);'''),
 ('''if (!head)
		{
			head = tail = link;
		}
		else
		{
			link->next = head;
			head->prev = link;
			head = link;
		}
		++length;''', '''link->next = head;
		if (head == nullptr) tail = link; else head->prev = link;
		head = link;
		++length;'''),
 ('''if (tail)
		{
			outData = move(tail->data);
			return removeBack();
		}
		else return false;''', '''if (length == 0) return false;
		LinkT * last = tail;
		outData = move(last->data);
		remove(last);
		return true;'''),
)
# --- arrays ------------------------------------------------------------
edit('public/containers/array.h',
 ('''T & insertNoResize(uint64 idx, ItemT && item)''', '''T & insertNoResize(const uint64 idx, ItemT && item)'''),
)
# --- strings -----------------------------------------------------------
edit('public/containers/string.h',
 ('''array(currLen + len) = '\\0';
		Memory::memcpy(*array + currLen, bAliased ? *array + srcPos : src, len);
		return *this;''', '''array(currLen + len) = '\\0';
		const CharT * from = bAliased ? *array + srcPos : src;
		for (sizet i = 0; i < len; ++i) array[currLen + i] = from[i];
		return *this;'''),
 ('''if (replLen <= subLen)
		{
			array.removeAt(subPos, subLen - replLen);
			if (replLen > 0)
			{
				Memory::memcpy(*array + subPos, replSrc, replLen);
			}
		}''', '''if (!(replLen > subLen))
		{
			for (sizet i = 0; i < replLen; ++i) array[subPos + i] = replSrc[i];
			array.removeAt(subPos + replLen, subLen - replLen);
		}'''),
 ('''while ((startPos = findIndex(forward<PatternT>(pattern), startPos)) != -1)
		{
			idxs.add(static_cast<sizet>(startPos++));
		}''', '''for (;;)
		{
			startPos = findIndex(pattern, startPos);
			if (startPos < 0) break;
			idxs.add(static_cast<sizet>(startPos));
			startPos += 1;
		}'''),
 ('''StringBase upper{*this};
		for (sizet idx = 0, len = getLength(); idx < len; ++idx)
		{
			if (upper[idx] >= 'a' && upper[idx] <= 'z') upper[idx] -= ('a' - 'A');
		}
		return upper;''', '''StringBase upper{*this};
		for (CharT * c = *upper, * last = c + getLength(); c != last; ++c) *c = toUpperChar(*c);
		return upper;'''),
 ('''StringBase toLower() const''', '''static FORCE_INLINE CharT toUpperChar(CharT c)
	{
		return c < 'a' || c > 'z' ? c : c - ('a' - 'A');
	}

	StringBase toLower() const'''),
)
# --- platform strings --------------------------------------------------
# --- regular expressions -----------------------------------------------
edit('private/regex/regex.cpp',
 ('''return isWord(*input) && (numRead == 0 || !isWord(*(input - 1))) || !isWord(*input) && (numRead > 0 && isWord(*(input - 1)));''',
  '''const bool before = numRead > 0 ? isWord(input[-1]) : false;
					return isWord(*input) != before;'''),
 ('''while (isDigit(pattern[++idx]))
					{
						min = (min * 10) + (pattern[idx] - '0');
					}''', '''for (++idx; isDigit(pattern[idx]); ++idx) min = 10 * min + (pattern[idx] - '0');'''),
 ('''for (++closeBracketIdx; closeBracketIdx < patternLen && pattern[closeBracketIdx] != ']'; ++closeBracketIdx)
					{
						if (pattern[closeBracketIdx] == '\\\\') ++closeBracketIdx;
					}''', '''closeBracketIdx += 1;
					while (closeBracketIdx < patternLen)
					{
						if (pattern[closeBracketIdx] == ']') break;
						closeBracketIdx += pattern[closeBracketIdx] == '\\\\' ? 2 : 1;
					}'''),
 ('''if (idx != closeBracketIdx)
						{
							builder.pushBranch();
						}
						else break;''', '''if (idx == closeBracketIdx) break;
						builder.pushBranch();'''),
 ('''return outNumRead = !isDigit(*input);''', '''const bool matches = *input < '0' || *input > '9';
					outNumRead = matches ? 1 : 0;
					return matches;'''),
 ('''return cc == ' ' || cc == '\\t' || cc == '\\r' || cc == '\\n' || cc == '\\v' || cc == '\\f';''', '''return cc == ' ' || (cc >= '\\t' && cc <= '\\r');'''),
)
edit('public/regex/executor.h',
 ('''if (currState->enterState(currInput, numRead, currNumRead) && !(numRead > 0 && AlphabetTraitsT::isEOF(currInput)))
		{''', '''bool entered = currState->enterState(currInput, numRead, currNumRead);
		if (entered && numRead > 0) entered = !AlphabetTraitsT::isEOF(currInput);
		if (entered)
		{'''),
 ('''if (outIsAccepted = AlphabetTraitsT::isEOF(currVisit.template get<1>()) && isAcceptedState())
		{
			return outIsAccepted;
		}
		return false;''', '''outIsAccepted = isAcceptedState() && AlphabetTraitsT::isEOF(currVisit.template get<1>());
		return outIsAccepted;'''),
)
edit('public/regex/state.h',
 ('''return lambda(input, outNumRead, numRead);''', '''const bool out = lambda(input, outNumRead, numRead); return out;'''),
 ('''return outNumRead = (*input != AlphabetTraitsT::terminalSymbol);''', '''if (*input == AlphabetTraitsT::terminalSymbol) { outNumRead = 0; return false; }
		outNumRead = 1;
		return true;'''),
)
edit('public/regex/automaton.h',
 ('''if (minRepeats == 0)
			{
				startState->addNextState(epsilon);
			}''', '''if (!minRepeats) startState->addNextState(epsilon);'''),
 ('''StateT * epsilon = automaton.template pushState<typename State::EpsilonT>();
			currentState->addNextState(epsilon);
			currentState = epsilon;
			groupStart[currentGroup]->addNextState(epsilon);
			groupEnd[currentGroup] = epsilon;''', '''StateT * epsilon = automaton.template pushState<typename State::EpsilonT>();
			groupStart[currentGroup]->addNextState(epsilon);
			currentState->addNextState(epsilon);
			groupEnd[currentGroup] = currentState = epsilon;'''),
)
# --- allocators --------------------------------------------------------
edit('private/hal/malloc_binned.cpp',
 ('''for (uint32 i = 0; i < numBuckets; ++i)
	{
		MallocPooled * bucket = buckets[i];
		if (bucket->hasBlock(orig))
		{
			bucket->free(orig);
			return;
		}
	}''', '''uint32 i = 0;
	while (i < numBuckets && !buckets[i]->hasBlock(orig)) ++i;
	if (i < numBuckets) buckets[i]->free(orig);'''),
 ('''if (getBucketIdx(size) == i) return bucket->realloc(orig, size, alignment);
			void * out = alloc(size, alignment);
			if (out)
			{
				Memory::memcpy(out, orig, PlatformMath::min(size, bucket->poolInfo.blockSize));
				bucket->free(orig);
			}
			return out;''', '''const uint32 wanted = getBucketIdx(size);
			if (wanted == i) return bucket->realloc(orig, size, alignment);
			void * out = wanted < numBuckets ? buckets[wanted]->alloc(size, alignment) : nullptr;
			if (out == nullptr) return nullptr;
			const sizet n = size < bucket->poolInfo.blockSize ? size : bucket->poolInfo.blockSize;
			Memory::memcpy(out, orig, n);
			bucket->free(orig);
			return out;'''),
)
edit('private/hal/malloc_pool.cpp',
 ('''void * out = head;
	head = getNextBlock(head);
	--numFreeBlocks;
	return out;''', '''void * out = head;
	numFreeBlocks -= 1;
	head = getNextBlock(out);
	return out;'''),
 ('''if (link != head)
		{
			link->prev->next = link->next;
			link->next->prev = link->prev;
			link->next = head;
			link->prev = head->prev;
			link->next->prev = link;
			link->prev->next = link;
			head = link;
		}''', '''if (link == head) return;
		Link * before = link->prev, * after = link->next;
		before->next = after;
		after->prev = before;
		Link * last = head->prev;
		link->prev = last;
		link->next = head;
		last->next = link;
		head->prev = link;
		head = link;'''),
 ('''Node * next = root->getMin(), * prev = nullptr;
	while (next)
	{
		prev = next;
		next = next->next;
		MemoryPool * pool = prev->data;
		destroyPool(pool);
	}''', '''for (Node * it = root->getMin(); it != nullptr;)
	{
		MemoryPool * pool = it->data;
		it = it->next;
		destroyPool(pool);
	}'''),
)
