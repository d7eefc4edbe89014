// Library functions that libstdc++ keeps in its binary, restated so that they can be executed symbolically.
// (Lists: same semantics as libstdc++; search trees: same ordering semantics, without rebalancing.)
#include <list>
#include <map>
#include <set>
#include <string>
#include <unordered_map>

namespace std {
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const position) noexcept
{
    this->_M_next             = position;
    this->_M_prev             = position->_M_prev;
    position->_M_prev->_M_next = this;
    position->_M_prev         = this;
}
void _List_node_base::_M_unhook() noexcept
{
    _List_node_base* const n = this->_M_next;
    _List_node_base* const p = this->_M_prev;
    p->_M_next               = n;
    n->_M_prev               = p;
}
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept
{
    if(this != last) {
        last->_M_prev->_M_next  = this;
        first->_M_prev->_M_next = last;
        this->_M_prev->_M_next  = first;
        _List_node_base* const t = this->_M_prev;
        this->_M_prev            = last->_M_prev;
        last->_M_prev            = first->_M_prev;
        first->_M_prev           = t;
    }
}
void _List_node_base::_M_reverse() noexcept
{
    _List_node_base* t = this;
    do {
        _List_node_base* n = t->_M_next;
        t->_M_next         = t->_M_prev;
        t->_M_prev         = n;
        t                  = n;
    } while(t != this);
}
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept
{
    if(x._M_next != &x) {
        if(y._M_next != &y) {
            std::swap(x._M_next, y._M_next);
            std::swap(x._M_prev, y._M_prev);
            x._M_next->_M_prev = x._M_prev->_M_next = &x;
            y._M_next->_M_prev = y._M_prev->_M_next = &y;
        } else {
            y._M_next          = x._M_next;
            y._M_prev          = x._M_prev;
            y._M_next->_M_prev = y._M_prev->_M_next = &y;
            x._M_next = x._M_prev = &x;
        }
    } else if(y._M_next != &y) {
        x._M_next          = y._M_next;
        x._M_prev          = y._M_prev;
        x._M_next->_M_prev = x._M_prev->_M_next = &x;
        y._M_next = y._M_prev = &y;
    }
}
}  // namespace __detail

static _Rb_tree_node_base* rb_inc(_Rb_tree_node_base* x)
{
    if(x->_M_right) {
        x = x->_M_right;
        while(x->_M_left) x = x->_M_left;
    } else {
        _Rb_tree_node_base* y = x->_M_parent;
        while(x == y->_M_right) {
            x = y;
            y = y->_M_parent;
        }
        if(x->_M_right != y) x = y;
    }
    return x;
}
static _Rb_tree_node_base* rb_dec(_Rb_tree_node_base* x)
{
    if(x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x && (x->_M_parent->_M_color == _S_black)) {
        return x->_M_right;  // header: end() - 1
    }
    if(x->_M_left) {
        _Rb_tree_node_base* y = x->_M_left;
        while(y->_M_right) y = y->_M_right;
        return y;
    }
    _Rb_tree_node_base* y = x->_M_parent;
    while(x == y->_M_left) {
        x = y;
        y = y->_M_parent;
    }
    return y;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return rb_inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw()
{
    return rb_inc(const_cast<_Rb_tree_node_base*>(x));
}
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return rb_dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw()
{
    return rb_dec(const_cast<_Rb_tree_node_base*>(x));
}
// every tree node is coloured black, the header red
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p,
                                   _Rb_tree_node_base& header) throw()
{
    x->_M_parent = p;
    x->_M_left = x->_M_right = nullptr;
    x->_M_color              = _S_black;
    if(left) {
        p->_M_left = x;  // also makes leftmost = x when p is the header
        if(p == &header) {
            header._M_parent = x;
            header._M_right  = x;
        } else if(p == header._M_left)
            header._M_left = x;
    } else {
        p->_M_right = x;
        if(p == header._M_right) header._M_right = x;
    }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& header) throw()
{
    _Rb_tree_node_base *&root = header._M_parent, *&lm = header._M_left, *&rm = header._M_right;
    _Rb_tree_node_base *next = rb_inc(z), *prev = lm == z ? nullptr : rb_dec(z);
    if(lm == z) lm = next;
    if(rm == z) rm = prev ? prev : &header;
    auto replace = [&](_Rb_tree_node_base* a, _Rb_tree_node_base* b) {
        if(root == a)
            root = b;
        else if(a->_M_parent->_M_left == a)
            a->_M_parent->_M_left = b;
        else
            a->_M_parent->_M_right = b;
        if(b) b->_M_parent = a->_M_parent;
    };
    if(!z->_M_left)
        replace(z, z->_M_right);
    else if(!z->_M_right)
        replace(z, z->_M_left);
    else {
        _Rb_tree_node_base* y = z->_M_right;
        while(y->_M_left) y = y->_M_left;
        if(y->_M_parent != z) {
            replace(y, y->_M_right);
            y->_M_right            = z->_M_right;
            y->_M_right->_M_parent = y;
        }
        replace(z, y);
        y->_M_left            = z->_M_left;
        y->_M_left->_M_parent = y;
    }
    if(!root) lm = rm = &header;
    return z;
}

namespace __detail {
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const
{
    std::size_t b = 11;
    while(b < n) b = 2 * b + 1;
    _M_next_resize = b;
    return b;
}
std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t n_bkt, std::size_t n_elt, std::size_t n_ins) const
{
    if(n_elt + n_ins > n_bkt || n_bkt == 1) {
        std::size_t b = _M_next_bkt(2 * (n_elt + n_ins) + 1);
        return {true, b};
    }
    return {false, 0};
}
}  // namespace __detail
size_t _Hash_bytes(const void* p, size_t n, size_t seed)
{
    const unsigned char* c = static_cast<const unsigned char*>(p);
    size_t h               = seed ^ 14695981039346656037ull;
    for(size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ull;
    return h;
}
template class basic_string<char>;
}  // namespace std

// character classes of the "C" locale
extern "C" {
int isspace(int c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
int isblank(int c) { return (c == ' ') | (c == '\t'); }
int isdigit(int c) { return (c >= '0') & (c <= '9'); }
int isupper(int c) { return (c >= 'A') & (c <= 'Z'); }
int islower(int c) { return (c >= 'a') & (c <= 'z'); }
int isalpha(int c) { return ((c >= 'A') & (c <= 'Z')) | ((c >= 'a') & (c <= 'z')); }
int isalnum(int c) { return ((c >= 'A') & (c <= 'Z')) | ((c >= 'a') & (c <= 'z')) | ((c >= '0') & (c <= '9')); }
int isprint(int c) { return (c >= 32) & (c < 127); }
int isgraph(int c) { return (c > 32) & (c < 127); }
int iscntrl(int c) { return ((c >= 0) & (c < 32)) | (c == 127); }
}

// search in a text
extern "C" void* memchr(const void* p, int c, size_t n)
{
    const unsigned char* b = static_cast<const unsigned char*>(p);
    for(size_t i = 0; i < n; ++i)
        if(b[i] == static_cast<unsigned char>(c)) return const_cast<unsigned char*>(b + i);
    return nullptr;
}
// lengths and comparisons of texts, which may consist of symbolic characters
extern "C" __attribute__((no_builtin("strlen"))) size_t strlen(const char* s)
{
    size_t n = 0;
    while(s[n] != 0) ++n;
    return n;
}
extern "C" __attribute__((no_builtin("strcmp"))) int strcmp(const char* a, const char* b)
{
    size_t n = 0;
    while(a[n] != 0 && a[n] == b[n]) ++n;
    return int(static_cast<unsigned char>(a[n])) - int(static_cast<unsigned char>(b[n]));
}
