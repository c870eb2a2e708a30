// Reference bodies for the out-of-line parts of the standard associative containers (they live in libstdc++.so, not in a
// header, so they are not in the analysed unit). Behaviourally equivalent to the library's: the tree is merely left
// unbalanced and the hash table never regrows.
#pragma once
#include <unordered_map>
#include <map>
#include <list>
namespace std {
namespace __detail {
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t, size_t, size_t) const { return {false, 0}; }
size_t _Prime_rehash_policy::_M_next_bkt(size_t) const { return 1; }
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
    if (this == l) return;
    l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f;
    _List_node_base* const t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
}
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) noexcept {
    x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_red;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
    h._M_parent->_M_color = _S_black;
}
static _Rb_tree_node_base* rb_next(_Rb_tree_node_base* x) {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    return x->_M_right != y ? y : x;
}
static _Rb_tree_node_base* rb_prev(_Rb_tree_node_base* x) {
    if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept { return rb_next(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept { return rb_next(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept { return rb_prev(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept { return rb_prev(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* z, _Rb_tree_node_base& h) noexcept {
    _Rb_tree_node_base* nl = h._M_left == z ? rb_next(z) : h._M_left;
    _Rb_tree_node_base* nr = h._M_right == z ? rb_prev(z) : h._M_right;
    _Rb_tree_node_base* r; // takes z's place
    if (!z->_M_left) r = z->_M_right;
    else if (!z->_M_right) r = z->_M_left;
    else {
        r = z->_M_right; while (r->_M_left) r = r->_M_left;
        if (r != z->_M_right) { r->_M_parent->_M_left = r->_M_right; if (r->_M_right) r->_M_right->_M_parent = r->_M_parent; r->_M_right = z->_M_right; z->_M_right->_M_parent = r; }
        r->_M_left = z->_M_left; z->_M_left->_M_parent = r;
    }
    _Rb_tree_node_base* p = z->_M_parent;
    if (r) r->_M_parent = p;
    if (p == &h) h._M_parent = r; else if (p->_M_left == z) p->_M_left = r; else p->_M_right = r;
    if (h._M_parent) { h._M_left = nl; h._M_right = nr; h._M_parent->_M_color = _S_black; } else { h._M_left = h._M_right = &h; }
    return z;
}
}
