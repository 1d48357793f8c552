// Model of the libstdc++ runtime functions behind std::map (plain binary search tree, no rebalancing):
// the contract is the in-order sequence, which is what the inlined container code relies on.
#pragma once
#include <map>
namespace std {
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw()
{
  if (x->_M_right != 0) { x = x->_M_right; while (x->_M_left != 0) x = x->_M_left; return x; }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw()
{
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left != 0) { x = x->_M_left; while (x->_M_right != 0) x = x->_M_right; return x; }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw()
{
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw()
{
  _Rb_tree_node_base* next = _Rb_tree_increment(z);
  _Rb_tree_node_base* prev = z == h._M_left ? 0 : _Rb_tree_decrement(z);
  _Rb_tree_node_base* r;
  if (z->_M_left == 0) r = z->_M_right;
  else if (z->_M_right == 0) r = z->_M_left;
  else {
    // hang the right subtree below the predecessor
    _Rb_tree_node_base* q = z->_M_left;
    while (q->_M_right) q = q->_M_right;
    q->_M_right = z->_M_right; z->_M_right->_M_parent = q;
    r = z->_M_left;
  }
  if (r) r->_M_parent = z->_M_parent;
  if (h._M_parent == z) h._M_parent = r;
  else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = r;
  else z->_M_parent->_M_right = r;
  if (h._M_left == z) h._M_left = next == &h ? &h : next;
  if (h._M_right == z) h._M_right = prev ? prev : &h;
  return z;
}
}
