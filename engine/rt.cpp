// Run-time library for symbolic execution: the parts of libc / libstdc++ / libsupc++ that live in binary libraries.
#include <cstddef>
#include <cstdint>
#include <cstdarg>
#include <cerrno>
#include <exception>
#include <functional>
#include <list>
#include <map>
#include <new>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <unordered_map>
#include <sys/stat.h>
#include <iostream>
#include <sstream>

typedef unsigned long ul;
extern "C" {
void* symex_alloc(ul, ul);
void symex_free(void*, ul);
void symex_unwind(void*);
void symex_exit_path();
void symex_violation(const char*);
int symex_is_symbolic(ul);
ul symex_concretize(ul);
void symex_strtod(const char*, ul*, double*);
ul symex_objsize(const void*);
void symex_on_exit(int) __attribute__((weak));
void* memcpy(void*, const void*, ul) noexcept;
void* memmove(void*, const void*, ul) noexcept;
void* memset(void*, int, ul) noexcept;
int memcmp(const void*, const void*, ul) noexcept;

// ------------------------------------------------------------------ memory
void* malloc(ul n) noexcept { return symex_alloc(n, 2); }
void free(void* p) noexcept { symex_free(p, 2); }
void* calloc(ul a, ul b) noexcept { void* p = symex_alloc(a * b, 2); memset(p, 0, a * b); return p; }
void* realloc(void* p, ul n) noexcept {
    void* q = symex_alloc(n, 2);
    if (p) { ul o = symex_objsize(p); memcpy(q, p, o < n ? o : n); symex_free(p, 2); }
    return q;
}
}
void* operator new(ul n) { return symex_alloc(n, 3); }
void* operator new[](ul n) { return symex_alloc(n, 4); }
void* operator new(ul n, const std::nothrow_t&) noexcept { return symex_alloc(n, 3); }
void* operator new[](ul n, const std::nothrow_t&) noexcept { return symex_alloc(n, 4); }
void operator delete(void* p) noexcept { symex_free(p, 3); }
void operator delete[](void* p) noexcept { symex_free(p, 4); }
void operator delete(void* p, ul n) noexcept {
    if (p && symex_objsize(p) != n) symex_violation("sized delete with a wrong size (object destroyed through the wrong type)");
    symex_free(p, 3);
}
void operator delete[](void* p, ul) noexcept { symex_free(p, 4); }
void operator delete(void* p, const std::nothrow_t&) noexcept { symex_free(p, 3); }

// ------------------------------------------------------------------ exceptions
struct ExcHdr { const std::type_info* ti; void (*dtor)(void*); long handlers; long inflight; ExcHdr* next; long pad[3]; };
static_assert(sizeof(ExcHdr) == 64, "header");
static ExcHdr* g_caught;
static int g_uncaught;
static ExcHdr* hdr(void* o) { return (ExcHdr*)((char*)o - 64); }
static void excFree(ExcHdr* h) { if (h->dtor) h->dtor((char*)h + 64); symex_free(h, 5); }
extern "C" {
void* __cxa_allocate_exception(ul n) noexcept { char* p = (char*)symex_alloc(n + 64, 5); memset(p, 0, 64); return p + 64; }
void __cxa_free_exception(void* o) noexcept { symex_free((char*)o - 64, 5); }
__attribute__((noinline)) void __cxa_throw(void* o, std::type_info* ti, void (*d)(void*)) {
    ExcHdr* h = hdr(o);
    h->ti = ti; h->dtor = d; h->inflight = 1; h->handlers = 0;
    ++g_uncaught;
    symex_unwind(o);
    __builtin_unreachable();
}
void* __cxa_get_exception_ptr(void* o) noexcept { return o; }
void* __cxa_begin_catch(void* o) noexcept {
    ExcHdr* h = hdr(o);
    if (h->inflight) { h->inflight = 0; --g_uncaught; }
    if (h->handlers == 0) { h->next = g_caught; g_caught = h; }
    ++h->handlers;
    return o;
}
void __cxa_end_catch() {
    ExcHdr* h = g_caught;
    if (!h) return;
    if (--h->handlers == 0) { g_caught = h->next; if (!h->inflight) excFree(h); }
}
__attribute__((noinline)) void __cxa_rethrow() {
    ExcHdr* h = g_caught;
    if (!h) symex_violation("rethrow without an exception (terminate)");
    h->inflight = 1;
    ++g_uncaught;
    symex_unwind((char*)h + 64);
    __builtin_unreachable();
}
void __cxa_call_unexpected(void*) { symex_violation("exception leaves a throw() function (terminate)"); __builtin_unreachable(); }
void __cxa_pure_virtual() { symex_violation("pure virtual call"); __builtin_unreachable(); }
void __cxa_deleted_virtual() { symex_violation("deleted virtual call"); __builtin_unreachable(); }
int __cxa_guard_acquire(long* g) noexcept { return !*(char*)g; }
void __cxa_guard_release(long* g) noexcept { *(char*)g = 1; }
void __cxa_guard_abort(long*) noexcept {}
int __cxa_atexit(void (*)(void*), void*, void*) noexcept { return 0; }
void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
void __cxa_bad_cast() { throw std::bad_cast(); }
void abort() noexcept { symex_violation("abort called"); __builtin_unreachable(); }
void __stack_chk_fail() { symex_violation("stack smashing"); }
void __assert_fail(const char* e, const char*, unsigned, const char*) noexcept { symex_violation(e); __builtin_unreachable(); }
void exit(int c) noexcept { if (symex_on_exit) symex_on_exit(c); else symex_violation("the process ends through exit()"); symex_exit_path(); __builtin_unreachable(); }
void _Exit(int c) noexcept { exit(c); }
void _exit(int c) { exit(c); }
char* getenv(const char*) noexcept { return 0; }
}
namespace std {
void terminate() noexcept { symex_violation("std::terminate called"); __builtin_unreachable(); }
bool uncaught_exception() noexcept { return g_uncaught > 0; }
int uncaught_exceptions() noexcept { return g_uncaught; }
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
type_info::~type_info() {}
static const char* cow(const char* s, ul n) { char* p = (char*)symex_alloc(n + 1, 2); memcpy(p, s, n); p[n] = 0; return p; }
static ul len0(const char* s) { ul n = 0; while (s[n]) ++n; return n; }
__cow_string::__cow_string() : _M_p(cow("", 0)) {}
__cow_string::__cow_string(const std::string& s) : _M_p(cow(s.data(), s.size())) {}
__cow_string::__cow_string(const char* s, size_t n) : _M_p(cow(s, n)) {}
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(cow(o._M_p, len0(o._M_p))) {}
__cow_string::~__cow_string() { symex_free((void*)_M_p, 2); }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { if (this != &o) { symex_free((void*)_M_p, 2); _M_p = cow(o._M_p, len0(o._M_p)); } return *this; }
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(cow(o._M_p, len0(o._M_p))) {}
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { return *this = (const __cow_string&)o; }
#define ERRCLASS(T, B)                                        \
    T::T(const string& s) : B(s) {}                           \
    T::T(const char* s) : B(s) {}                             \
    T::~T() noexcept {}
#define MSGCLASS(T)                                           \
    T::T(const string& s) : exception(), _M_msg(s) {}         \
    T::T(const char* s) : exception(), _M_msg(s, len0(s)) {}  \
    T::~T() noexcept {}                                       \
    const char* T::what() const noexcept { return _M_msg._M_p; } \
    T::T(const T& o) noexcept : exception(o), _M_msg(o._M_msg) {}          \
    T& T::operator=(const T& o) noexcept { _M_msg = o._M_msg; return *this; } \
    T::T(T&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
MSGCLASS(logic_error)
MSGCLASS(runtime_error)
ERRCLASS(domain_error, logic_error)
ERRCLASS(invalid_argument, logic_error)
ERRCLASS(length_error, logic_error)
ERRCLASS(out_of_range, logic_error)
ERRCLASS(range_error, runtime_error)
ERRCLASS(overflow_error, runtime_error)
ERRCLASS(underflow_error, runtime_error)
void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_underflow_error(const char* s) { throw underflow_error(s); }

// ------------------------------------------------------------------ red-black trees
typedef _Rb_tree_node_base* NP;
_Rb_tree_node_base* _Rb_tree_increment(NP x) noexcept {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
    else { NP y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
    return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept { return _Rb_tree_increment(const_cast<NP>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(NP x) noexcept {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
    else if (x->_M_left) { NP y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
    else { NP y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
    return x;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept { return _Rb_tree_decrement(const_cast<NP>(x)); }
static void rotL(NP x, NP& root) {
    NP y = x->_M_right;
    x->_M_right = y->_M_left;
    if (y->_M_left) y->_M_left->_M_parent = x;
    y->_M_parent = x->_M_parent;
    if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y;
    y->_M_left = x; x->_M_parent = y;
}
static void rotR(NP x, NP& root) {
    NP y = x->_M_left;
    x->_M_left = y->_M_right;
    if (y->_M_right) y->_M_right->_M_parent = x;
    y->_M_parent = x->_M_parent;
    if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y;
    y->_M_right = x; x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, NP x, NP p, _Rb_tree_node_base& h) noexcept {
    NP& root = h._M_parent;
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
    while (x != root && x->_M_parent->_M_color == _S_red) {
        NP g = x->_M_parent->_M_parent;
        if (x->_M_parent == g->_M_left) {
            NP u = g->_M_right;
            if (u && u->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; u->_M_color = _S_black; g->_M_color = _S_red; x = g; }
            else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotL(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotR(g, root); }
        }
        else {
            NP u = g->_M_left;
            if (u && u->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; u->_M_color = _S_black; g->_M_color = _S_red; x = g; }
            else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotR(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotL(g, root); }
        }
    }
    root->_M_color = _S_black;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(NP const z, _Rb_tree_node_base& h) noexcept {
    NP& root = h._M_parent; NP& leftmost = h._M_left; NP& rightmost = h._M_right;
    NP y = z, x = 0, xp = 0;
    if (!y->_M_left) x = y->_M_right;
    else if (!y->_M_right) x = y->_M_left;
    else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
    if (y != z) {
        z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
        if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
        else xp = y;
        if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
        y->_M_parent = z->_M_parent;
        std::swap(y->_M_color, z->_M_color);
        y = z;
    }
    else {
        xp = y->_M_parent;
        if (x) x->_M_parent = y->_M_parent;
        if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
        if (leftmost == z) { if (!z->_M_right) leftmost = z->_M_parent; else { NP m = x; while (m->_M_left) m = m->_M_left; leftmost = m; } }
        if (rightmost == z) { if (!z->_M_left) rightmost = z->_M_parent; else { NP m = x; while (m->_M_right) m = m->_M_right; rightmost = m; } }
    }
    if (y->_M_color != _S_red) {
        while (x != root && (!x || x->_M_color == _S_black)) {
            if (x == xp->_M_left) {
                NP w = xp->_M_right;
                if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotL(xp, root); w = xp->_M_right; }
                if ((!w->_M_left || w->_M_left->_M_color == _S_black) && (!w->_M_right || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
                else {
                    if (!w->_M_right || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotR(w, root); w = xp->_M_right; }
                    w->_M_color = xp->_M_color; xp->_M_color = _S_black;
                    if (w->_M_right) w->_M_right->_M_color = _S_black;
                    rotL(xp, root);
                    break;
                }
            }
            else {
                NP w = xp->_M_left;
                if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotR(xp, root); w = xp->_M_left; }
                if ((!w->_M_right || w->_M_right->_M_color == _S_black) && (!w->_M_left || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
                else {
                    if (!w->_M_left || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotL(w, root); w = xp->_M_left; }
                    w->_M_color = xp->_M_color; xp->_M_color = _S_black;
                    if (w->_M_left) w->_M_left->_M_color = _S_black;
                    rotR(xp, root);
                    break;
                }
            }
        }
        if (x) x->_M_color = _S_black;
    }
    return y;
}
// ------------------------------------------------------------------ lists
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base* f, _List_node_base* l) noexcept {
    if (this != l) {
        l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f;
        _List_node_base* t = this->_M_prev;
        this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
    }
}
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { _List_node_base* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
void _List_node_base::swap(_List_node_base& a, _List_node_base& b) noexcept {
    if (a._M_next != &a) {
        if (b._M_next != &b) { std::swap(a._M_next, b._M_next); std::swap(a._M_prev, b._M_prev); a._M_next->_M_prev = a._M_prev->_M_next = &a; b._M_next->_M_prev = b._M_prev->_M_next = &b; }
        else { b._M_next = a._M_next; b._M_prev = a._M_prev; b._M_next->_M_prev = b._M_prev->_M_next = &b; a._M_next = a._M_prev = &a; }
    }
    else if (b._M_next != &b) { a._M_next = b._M_next; a._M_prev = b._M_prev; a._M_next->_M_prev = a._M_prev->_M_next = &a; b._M_next = b._M_prev = &b; }
}
// hash tables
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
    static const unsigned short pr[] = {2, 3, 5, 7, 11, 13, 17, 23, 29, 37, 53, 79, 127, 199, 311, 479, 727, 1103, 1657, 2503, 3761, 5641, 8467, 12703};
    for (unsigned short p : pr) if (p >= n) { _M_next_resize = p; return p; }
    _M_next_resize = n | 1;
    return n | 1;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
    if (ne + ni > _M_next_resize || _M_next_resize == 0) { size_t want = ne + ni; if (want + 1 > nb) return {true, _M_next_bkt(want + 1 > nb * 2 ? want + 1 : nb * 2)}; _M_next_resize = nb; }
    return {false, 0};
}
} // namespace __detail
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { (void)p; return seed ^ symex_concretize(n) * 0x9e3779b97f4a7c15ul; }  // any deterministic hash will do: the containers still compare the keys
} // namespace std

namespace std {
static symex_outbuf g_b1(1), g_b2(2);
static istringstream g_in;
ostream cout(&g_b1), cerr(&g_b2), clog(&g_b2);
istream cin(0);
template<> basic_istream<char>& operator>>(basic_istream<char>& i, basic_string<char>& s) {
    basic_istream<char>::sentry ok(i);
    if (ok) {
        s.erase();
        streamsize w = i.width();
        size_t lim = w > 0 ? (size_t)w : s.max_size(), n = 0;
        int c = i.rdbuf()->sgetc();
        while (n < lim && c != -1 && !symex_space(c)) { s += (char)c; ++n; c = i.rdbuf()->snextc(); }
        ios_base::iostate e = 0;
        if (c == -1 && n < lim) e |= ios_base::eofbit;
        i.width(0);
        if (!n) e |= ios_base::failbit;
        if (e) i.setstate(e);
    }
    return i;
}
template<> basic_istream<char>& getline(basic_istream<char>& i, basic_string<char>& s, char d) {
    basic_istream<char>::sentry ok(i, true);
    bool any = false;
    ios_base::iostate e = 0;
    if (ok) {
        s.erase();
        int c = i.rdbuf()->sgetc(), dd = (unsigned char)d;
        while (c != -1 && c != dd) { s += (char)c; any = true; c = i.rdbuf()->snextc(); }
        if (c == -1) e |= ios_base::eofbit;
        else { any = true; i.rdbuf()->sbumpc(); }
    }
    if (!any) e |= ios_base::failbit;
    if (e) i.setstate(e);
    return i;
}
}
namespace std {
template class basic_string<char>;
template basic_string<char>::basic_string(const char*, const allocator<char>&);
template class allocator<char>;
template ostream& __ostream_insert(ostream&, const char*, streamsize);
template ostream& operator<<(ostream&, const string&);
}
