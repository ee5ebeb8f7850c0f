// Definitions of the libstdc++ runtime functions that are only present as machine code,
// written for the analysis (never linked or run).  The red-black tree is modelled as an
// unbalanced search tree: shape and colour are unobservable through std::map's interface.
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <bits/stl_tree.h>
#include <list>
#include <string>

template class std::basic_string<char>;

namespace std {
namespace __detail {

void _List_node_base::_M_hook(_List_node_base *const position) noexcept
{
  this->_M_next = position;
  this->_M_prev = position->_M_prev;
  position->_M_prev->_M_next = this;
  position->_M_prev = this;
}

void _List_node_base::_M_unhook() noexcept
{
  _List_node_base *const next = this->_M_next;
  _List_node_base *const prev = this->_M_prev;
  prev->_M_next = next;
  next->_M_prev = prev;
}

void _List_node_base::_M_transfer(_List_node_base *const first, _List_node_base *const last) noexcept
{
  if (this != last) {
    last->_M_prev->_M_next = this;
    first->_M_prev->_M_next = last;
    this->_M_prev->_M_next = first;
    _List_node_base *const tmp = this->_M_prev;
    this->_M_prev = last->_M_prev;
    last->_M_prev = first->_M_prev;
    first->_M_prev = tmp;
  }
}

}

static _Rb_tree_node_base *increment(_Rb_tree_node_base *x)
{
  if (x->_M_right != 0) {
    x = x->_M_right;
    while (x->_M_left != 0)
      x = x->_M_left;
  } else {
    _Rb_tree_node_base *y = x->_M_parent;
    while (x == y->_M_right) {
      x = y;
      y = y->_M_parent;
    }
    if (x->_M_right != y)
      x = y;
  }
  return x;
}

static _Rb_tree_node_base *decrement(_Rb_tree_node_base *x)
{
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) {
    x = x->_M_right;
  } else if (x->_M_left != 0) {
    _Rb_tree_node_base *y = x->_M_left;
    while (y->_M_right != 0)
      y = y->_M_right;
    x = y;
  } else {
    _Rb_tree_node_base *y = x->_M_parent;
    while (x == y->_M_left) {
      x = y;
      y = y->_M_parent;
    }
    x = y;
  }
  return x;
}

_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() { return increment(x); }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw()
{
  return increment(const_cast<_Rb_tree_node_base *>(x));
}
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() { return decrement(x); }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw()
{
  return decrement(const_cast<_Rb_tree_node_base *>(x));
}

void _Rb_tree_insert_and_rebalance(const bool insert_left, _Rb_tree_node_base *x, _Rb_tree_node_base *p,
                                   _Rb_tree_node_base &header) throw()
{
  x->_M_parent = p;
  x->_M_left = 0;
  x->_M_right = 0;
  x->_M_color = _S_black; // header is the only red node: decrement(end()) relies on it
  if (insert_left) {
    p->_M_left = x;
    if (p == &header) {
      header._M_parent = x;
      header._M_right = x;
    } else if (p == header._M_left) {
      header._M_left = x;
    }
  } else {
    p->_M_right = x;
    if (p == header._M_right)
      header._M_right = x;
  }
}

_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &header) throw()
{
  _Rb_tree_node_base *repl;
  if (z == header._M_left)
    header._M_left = increment(z);
  if (z == header._M_right) {
    // predecessor
    if (z->_M_left != 0) {
      _Rb_tree_node_base *y = z->_M_left;
      while (y->_M_right != 0)
        y = y->_M_right;
      header._M_right = y;
    } else {
      header._M_right = z->_M_parent;
    }
  }
  if (z->_M_left == 0) {
    repl = z->_M_right;
  } else if (z->_M_right == 0) {
    repl = z->_M_left;
  } else {
    repl = z->_M_right;
    while (repl->_M_left != 0)
      repl = repl->_M_left;
    if (repl != z->_M_right) {
      repl->_M_parent->_M_left = repl->_M_right;
      if (repl->_M_right)
        repl->_M_right->_M_parent = repl->_M_parent;
      repl->_M_right = z->_M_right;
      z->_M_right->_M_parent = repl;
    }
    repl->_M_left = z->_M_left;
    z->_M_left->_M_parent = repl;
  }
  if (repl)
    repl->_M_parent = z->_M_parent;
  if (z->_M_parent == &header)
    header._M_parent = repl;
  else if (z->_M_parent->_M_left == z)
    z->_M_parent->_M_left = repl;
  else
    z->_M_parent->_M_right = repl;
  return z;
}

}
