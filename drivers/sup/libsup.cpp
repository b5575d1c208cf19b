// bodies of functions that libstdc++ keeps in its shared library: linked in only where the code under analysis calls them
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <chrono>
#include <cstdlib>
#include <list>
#include <set>
#include <string>
#include <unordered_map>

template class std::basic_string<char>;

namespace std {
namespace __detail {
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
    _List_node_base *xn = x._M_next, *xp = x._M_prev, *yn = y._M_next, *yp = y._M_prev;
    bool xe = xn == &x, ye = yn == &y;
    if (ye) x._M_next = x._M_prev = &x; else { x._M_next = yn; x._M_prev = yp; yn->_M_prev = yp->_M_next = &x; }
    if (xe) y._M_next = y._M_prev = &y; else { y._M_next = xn; y._M_prev = xp; xn->_M_prev = xp->_M_next = &y; }
}
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
    if (this == last) return;
    last->_M_prev->_M_next = this;
    first->_M_prev->_M_next = last;
    this->_M_prev->_M_next = first;
    _List_node_base* const tmp = this->_M_prev;
    this->_M_prev = last->_M_prev;
    last->_M_prev = first->_M_prev;
    first->_M_prev = tmp;
}
void _List_node_base::_M_reverse() noexcept {
    _List_node_base* t = this;
    do { _List_node_base* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this);
}
void _List_node_base::_M_hook(_List_node_base* const p) noexcept {
    _M_next = p;
    _M_prev = p->_M_prev;
    p->_M_prev->_M_next = this;
    p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept {
    _M_prev->_M_next = _M_next;
    _M_next->_M_prev = _M_prev;
}
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const {
    std::size_t b = 13;
    while (b < n) b = 2 * b + 3;
    _M_next_resize = b;
    return b;
}
std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t bkt, std::size_t elt, std::size_t ins) const {
    if (elt + ins > _M_next_resize) {
        std::size_t n = elt + ins > bkt * 2 ? elt + ins : bkt * 2;
        return {true, _M_next_bkt(n)};
    }
    return {false, 0};
}
}

// search trees, without the balancing
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
    if (x->_M_right) {
        x = x->_M_right;
        while (x->_M_left) x = x->_M_left;
        return x;
    }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    return x->_M_right != y ? y : x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) {
        x = x->_M_left;
        while (x->_M_right) x = x->_M_right;
        return x;
    }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
    x->_M_parent = p;
    x->_M_left = x->_M_right = 0;
    x->_M_color = _S_black;
    if (left) {
        p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; }
        else if (p == h._M_left) h._M_left = x;
    } else {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
    }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
    _Rb_tree_node_base* y = z;
    if (z->_M_left && z->_M_right) {
        // the successor takes z's place
        y = z->_M_right;
        while (y->_M_left) y = y->_M_left;
        if (y->_M_parent != z) {
            y->_M_parent->_M_left = y->_M_right;
            if (y->_M_right) y->_M_right->_M_parent = y->_M_parent;
            y->_M_right = z->_M_right;
            z->_M_right->_M_parent = y;
        }
        y->_M_left = z->_M_left;
        z->_M_left->_M_parent = y;
    } else {
        y = z->_M_left ? z->_M_left : z->_M_right;
    }
    if (h._M_parent == z) h._M_parent = y;
    else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y;
    else z->_M_parent->_M_right = y;
    if (y) y->_M_parent = z->_M_parent;
    if (h._M_left == z) {
        _Rb_tree_node_base* m = h._M_parent;
        if (m) while (m->_M_left) m = m->_M_left;
        h._M_left = m ? m : &h;
    }
    if (h._M_right == z) {
        _Rb_tree_node_base* m = h._M_parent;
        if (m) while (m->_M_right) m = m->_M_right;
        h._M_right = m ? m : &h;
    }
    return z;
}

size_t _Hash_bytes(const void* p, size_t n, size_t seed) {
    const unsigned char* b = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; ++i) seed = seed * 31 + b[i];
    return seed;
}


namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(::rand())); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration(::rand())); }
} }
}
