// Binary tree helpers: structural invariants, arbitrary valid red-black trees, and a sorted-list model.
#pragma once
#include "sx.h"
#include "elem.h"
#include "model.h"
#include "containers/tree.h"
struct Scaled { template<class U> int32_t operator()(const U &a, const U &b) const { return a < b ? -3 : a > b ? 5 : 0; } }; // not only 1 and -1
static int32_t nextVal() { return symi<int32_t>("v"); }
static uint32_t ix(const char *n, uint32_t k) { return sx_param("S", 0) ? sx_pick(n, k) : sx_choice(n, k); }
// Collects the nodes in order and checks links, colours and black height below node; returns the black height.
template<class N> static int walk(const N *node, const N **out, uint32_t &n, uint32_t cap) {
  if (!node) return 1;
  A(!node->left || node->left->parent == node, "parent links mirror child links"); A(!node->right || node->right->parent == node, "parent links mirror child links");
  bool red = node->color == BinaryNodeColor::RED;
  if (red) A((!node->left || node->left->color == BinaryNodeColor::BLACK) && (!node->right || node->right->color == BinaryNodeColor::BLACK), "a red node has no red child");
  int l = walk(node->left, out, n, cap);
  A(n < cap, "no more nodes than values"); if (n >= cap) return 0; out[n++] = node;
  int r = walk(node->right, out, n, cap);
  A(l == r, "equally many black nodes on every path down");
  return l + (red ? 0 : 1);
}
template<class N> static uint32_t checkTree(const N *root, const N **out, uint32_t cap) {
  uint32_t n = 0;
  if (!root) return 0;
  A(root->parent == nullptr, "the root has no parent"); A(root->color == BinaryNodeColor::BLACK, "the root is black");
  walk(root, out, n, cap);
  for (uint32_t i = 0; i < n; ++i) { A(out[i]->prev == (i ? out[i - 1] : nullptr), "previous links thread the nodes in order"); A(out[i]->next == (i + 1 < n ? out[i + 1] : nullptr), "next links thread the nodes in order"); }
  return n;
}
// An arbitrary red-black tree of n nodes over the given data, as any history could have left it.
template<class N> struct Gen {
  N **nodes;
  static bool fits(uint32_t n, uint32_t bh, bool redOk) { uint64_t lo = (1ull << bh) - 1, hi = (redOk ? 2 * (1ull << (2 * bh)) : (1ull << (2 * bh))) - 1; return n >= lo && n <= hi; }
  // bh black nodes on every path below (and including) this subtree's root
  N *gen(uint32_t from, uint32_t n, uint32_t bh, bool redOk) {
    if (n == 0) { sx_assume(bh == 0); return nullptr; }
    sx_assume(fits(n, bh, redOk));
    bool red = redOk && (bh == 0 || sx_choice("red", 2)); if (!red) sx_assume(bh > 0);
    uint32_t cb = red ? bh : bh - 1;
    uint32_t lo = 0, cnt = 0, opts[32];
    for (uint32_t l = 0; l < n; ++l) if (fits(l, cb, !red) && fits(n - 1 - l, cb, !red)) opts[cnt++] = l;
    (void)lo; sx_assume(cnt > 0); uint32_t l = opts[sx_choice("left", cnt)];
    N *x = nodes[from + l]; x->color = red ? BinaryNodeColor::RED : BinaryNodeColor::BLACK;
    x->left = gen(from, l, cb, !red); x->right = gen(from + l + 1, n - 1 - l, cb, !red);
    if (x->left) x->left->parent = x; if (x->right) x->right->parent = x;
    return x;
  }
  N *tree(uint32_t n) {
    for (uint32_t i = 0; i < n; ++i) { nodes[i]->prev = i ? nodes[i - 1] : nullptr; nodes[i]->next = i + 1 < n ? nodes[i + 1] : nullptr; }
    return gen(0, n, sx_choice("bh", 5), false);
  }
};
