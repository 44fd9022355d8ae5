// Bitcode models of the pieces of libstdc++/libc that live in shared libraries.
// std::string is the real header implementation (instantiated here); the red-black-tree, hash-policy and
// list helpers below are re-implementations of the library's documented contract.
#include <string>
#include <map>
#include <unordered_map>
#include <list>
#include <cstring>
#include <cstdint>
#include <cstdlib>
#include <stdexcept>
#include <ios>
template class std::basic_string<char>;
namespace std {
template basic_string<char> operator+(const char*, const basic_string<char>&);
template basic_string<char> operator+(const basic_string<char>&, const basic_string<char>&);
template basic_string<char> operator+(const basic_string<char>&, const char*);
template bool operator==(const basic_string<char>&, const char*);
// ---- red-black tree: an ordinary unbalanced-insert tree would also satisfy the contract, but a degenerate
// shape changes nothing observable; colours are kept as the header's erase/copy code expects.
static inline void rotl(_Rb_tree_node_base* x, _Rb_tree_node_base*& root) {
    auto* y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent;
    if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y; y->_M_left = x; x->_M_parent = y; }
static inline void rotr(_Rb_tree_node_base* x, _Rb_tree_node_base*& root) {
    auto* y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent;
    if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y; y->_M_right = x; x->_M_parent = y; }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) noexcept {
    _Rb_tree_node_base*& root = h._M_parent;
    x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_red;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
    while (x != root && x->_M_parent->_M_color == _S_red) {
        auto* const g = x->_M_parent->_M_parent;
        if (x->_M_parent == g->_M_left) { auto* const u = g->_M_right;
            if (u && u->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; u->_M_color = _S_black; g->_M_color = _S_red; x = g; }
            else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotr(g, root); } }
        else { auto* const u = g->_M_left;
            if (u && u->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; u->_M_color = _S_black; g->_M_color = _S_red; x = g; }
            else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotl(g, root); } } }
    root->_M_color = _S_black;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
    else { auto* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
    else if (x->_M_left) { auto* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
    else { auto* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) noexcept {
    _Rb_tree_node_base*& root = h._M_parent; _Rb_tree_node_base*& lm = h._M_left; _Rb_tree_node_base*& rm = h._M_right;
    _Rb_tree_node_base* y = z; _Rb_tree_node_base* x = nullptr; _Rb_tree_node_base* xp = nullptr;
    if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
    if (y != z) {
        z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
        if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y;
        if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
        y->_M_parent = z->_M_parent; std::swap(y->_M_color, z->_M_color); y = z;
    } else {
        xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
        if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
        if (lm == z) { if (!z->_M_right) lm = z->_M_parent; else { auto* q = x; while (q->_M_left) q = q->_M_left; lm = q; } }
        if (rm == z) { if (!z->_M_left) rm = z->_M_parent; else { auto* q = x; while (q->_M_right) q = q->_M_right; rm = q; } }
    }
    if (y->_M_color != _S_red) {
        while (x != root && (!x || x->_M_color == _S_black))
            if (x == xp->_M_left) { auto* w = xp->_M_right;
                if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotl(xp, root); w = xp->_M_right; }
                if ((!w->_M_left || w->_M_left->_M_color == _S_black) && (!w->_M_right || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
                else { if (!w->_M_right || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotr(w, root); w = xp->_M_right; }
                    w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotl(xp, root); break; } }
            else { auto* w = xp->_M_left;
                if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotr(xp, root); w = xp->_M_left; }
                if ((!w->_M_right || w->_M_right->_M_color == _S_black) && (!w->_M_left || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
                else { if (!w->_M_left || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotl(w, root); w = xp->_M_left; }
                    w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotr(xp, root); break; } }
        if (x) x->_M_color = _S_black;
    }
    return y;
}
namespace __detail {
    // Same bucket counts as libstdc++ for small tables, so that iteration order agrees with the native build.
    static const unsigned long primes[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 103, 109, 113, 127, 137, 139, 149, 157, 167, 179, 193, 199, 211, 227, 241, 257, 277, 293, 313, 337, 359, 383, 409, 439, 467, 503, 541, 577, 619, 661, 709, 761, 823, 887, 953, 1031, 1109, 1193, 1289, 1381, 1493, 1613, 1741, 1879, 2029, 2179, 2357, 2549, 2753, 2971, 3209, 3469, 3739, 4027, 4349, 4703, 5087};
    size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
        static const unsigned char fast[] = {2, 2, 2, 3, 5, 5, 7, 7, 11, 11, 11, 11, 13, 13};
        if (n < sizeof(fast)) { if (n == 0) return 1; _M_next_resize = (size_t)__builtin_floor(fast[n] * (double)_M_max_load_factor); return fast[n]; }
        size_t r = 5087; for (auto p : primes) if (p >= n) { r = p; break; }
        _M_next_resize = (size_t)__builtin_floor(r * (double)_M_max_load_factor); return r; }
    std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
        if (ne + ni > _M_next_resize) {
            double mb = (ne + ni < 11 && !_M_next_resize ? 11 : ne + ni) / (double)_M_max_load_factor; 
            if (_M_next_resize) mb = (ne + ni) / (double)_M_max_load_factor;
            if (mb >= nb) { size_t a = (size_t)__builtin_floor(mb) + 1, b = nb * 2; return {true, _M_next_bkt(a > b ? a : b)}; }
            _M_next_resize = (size_t)__builtin_floor(nb * (double)_M_max_load_factor); return {false, 0};
        }
        return {false, 0}; }
    void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
    void _List_node_base::_M_unhook() noexcept { auto* n = _M_next; auto* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
    void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
        if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; auto* t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
    void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
        if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
            else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } }
        else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
    void _List_node_base::_M_reverse() noexcept { auto* t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
}
// any deterministic function of the bytes satisfies the contract (murmur as in libstdc++, so order agrees natively)
size_t _Hash_bytes(const void* ptr, size_t len, size_t seed) {
    const size_t mul = (((size_t)0xc6a4a793UL) << 32UL) + (size_t)0x5bd1e995UL; const char* const buf = (const char*)ptr;
    const size_t la = len & ~(size_t)7; const char* const end = buf + la; size_t hash = seed ^ (len * mul);
    auto mix = [](size_t v) { return v ^ (v >> 47); };
    for (const char* p = buf; p != end; p += 8) { size_t d; __builtin_memcpy(&d, p, 8); d = mix(d * mul) * mul; hash ^= d; hash *= mul; }
    if (len & 7) { size_t d = 0; size_t n = len & 7; n--; do d = (d << 8) + (unsigned char)end[n]; while (n-- > 0); hash ^= d; hash *= mul; }
    hash = mix(hash) * mul; hash = mix(hash); return hash; }
}
extern "C" {
size_t strlen(const char* s) { size_t n = 0; while (s[n]) ++n; return n; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { ++a; ++b; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { while (n && *a && *a == *b) { ++a; ++b; --n; } return n ? (unsigned char)*a - (unsigned char)*b : 0; }
int strcasecmp(const char* a, const char* b) { auto lo = [](unsigned char c) -> int { return c >= 'A' && c <= 'Z' ? c + 32 : c; }; while (*a && lo(*a) == lo(*b)) { ++a; ++b; } return lo(*a) - lo(*b); }
void* model_memchr(const void* p, int c, size_t n) __asm__("memchr");
void* model_memchr(const void* p, int c, size_t n) { auto* s = (const unsigned char*)p; for (size_t i = 0; i < n; ++i) if (s[i] == (unsigned char)c) return (void*)(s + i); return nullptr; }
char* model_strchr(const char* s, int c) __asm__("strchr");
char* model_strchr(const char* s, int c) { for (;; ++s) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
char* strcpy(char* d, const char* s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static int model_errno; int* __errno_location() { return &model_errno; }
long strtol(const char* s, char** e, int base) { const char* p = s; while (isspace(*p)) ++p; bool neg = false; if (*p == '-' || *p == '+') { neg = *p == '-'; ++p; }
    unsigned __int128 v = 0; bool any = false, ov = false; const unsigned __int128 lim = neg ? ((unsigned __int128)1 << 63) : (((unsigned __int128)1 << 63) - 1);
    while (isdigit(*p)) { any = true; v = v * 10 + (*p - '0'); if (v > lim) { v = lim; ov = true; } ++p; }
    if (e) *e = (char*)(any ? p : s); if (ov) model_errno = 34; return neg ? -(long)(uint64_t)v : (long)(uint64_t)v; }
long long strtoll(const char* s, char** e, int base) { return strtol(s, e, base); }
unsigned long strtoul(const char* s, char** e, int base) { const char* p = s; while (isspace(*p)) ++p; bool neg = false; if (*p == '-' || *p == '+') { neg = *p == '-'; ++p; }
    unsigned __int128 v = 0; bool any = false, ov = false; const unsigned __int128 lim = ~0ull; while (isdigit(*p)) { any = true; v = v * 10 + (*p - '0'); if (v > lim) { v = lim; ov = true; } ++p; }
    if (e) *e = (char*)(any ? p : s); if (ov) { model_errno = 34; return ~0ul; } return neg ? -(unsigned long)v : (unsigned long)v; }
unsigned long long strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
int atoi(const char* s) { return (int)strtol(s, nullptr, 10); }
long atol(const char* s) { return strtol(s, nullptr, 10); }
}
extern "C" double log2(double x) { return __builtin_elementwise_log2(x); }   // the intrinsic, which the engine knows
