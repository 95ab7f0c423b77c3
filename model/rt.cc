// Engine-only definitions: program start-up and the parts of the C++ runtime
// library that exist only as machine code.
#include "vk.h"
#include <bits/functexcept.h>
#include <cerrno>
#include <cstdarg>
#include <cstring>
#include <exception>
#include <memory>
#include <functional>
#include <future>
#include <list>
#include <map>
#include <mutex>
#include <new>
#include <netinet/in.h>
#include <regex>
#include <set>
#include <stdexcept>
#include <string>
#include <system_error>
#include <thread>
#include <typeinfo>
#include <unordered_map>

extern "C" {
void vkm_boot(int);
void vk_start(void (*entry)(), void (**ctors)(), uint64_t n) {
    vkm_boot(1);
    for (uint64_t i = 0; i < n; ++i) ctors[i]();
    vkm_boot(0);
    entry();
    vk_exit();
}
char __libc_single_threaded = 0;
void *__dso_handle = nullptr;
static char envOne[] = "INHERITED=1"; static char *envStart[2] = {envOne, nullptr};
char **environ = envStart;
char **vkm_environ_ptr() { return environ; }
const struct in6_addr in6addr_any = {};
const struct in6_addr in6addr_loopback = {{{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1}}};
size_t strlen(const char *s) { size_t n = 0; while (s[n]) ++n; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) ++n; return n; }
int strcmp(const char *a, const char *b) { for (;; ++a, ++b) { if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1; if (!*a) return 0; } }
int strncmp(const char *a, const char *b, size_t n) { for (; n; ++a, ++b, --n) { if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1; if (!*a) return 0; } return 0; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
char *strcpy(char *d, const char *s) { size_t i = 0; for (; s[i]; ++i) d[i] = s[i]; d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) { size_t l = strlen(d), i = 0; for (; i < n && s[i]; ++i) d[l + i] = s[i]; d[l + i] = 0; return d; }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *r = (char *)malloc(n); memcpy(r, s, n); return r; }
char *strerror(int) { static char b[] = "error"; return b; }
long vkm_atol(const char *s) { long v = 0; bool neg = false; if (*s == '-') { neg = true; ++s; } while (*s >= '0' && *s <= '9') v = v * 10 + (*s++ - '0'); return neg ? -v : v; }
int vkm_atoi(const char *s) { return (int)vkm_atol(s); }
void vkrt_once_proxy();
struct rbn { int color; rbn *p, *l, *r; };
static rbn *mini(rbn *x) { while (x->l) x = x->l; return x; }
static rbn *maxi(rbn *x) { while (x->r) x = x->r; return x; }
static rbn *rbinc(rbn *x) { if (x->r) return mini(x->r); rbn *y = x->p; while (x == y->r) { x = y; y = y->p; } if (x->r != y) x = y; return x; }
static rbn *rbdec(rbn *x) { if (x->color == 0 && x->p->p == x) return x->r; if (x->l) return maxi(x->l); rbn *y = x->p; while (x == y->l) { x = y; y = y->p; } return y; }
}
void *vkrt_memchr(const void *p, int c, size_t n) { const unsigned char *q = (const unsigned char *)p; for (size_t i = 0; i < n; ++i) if (q[i] == (unsigned char)c) return (void *)(q + i); return nullptr; }
extern "C" void *vkm_memchr(const void *p, int c, size_t n) { return vkrt_memchr(p, c, n); }
extern "C" void *vkm_memrchr(const void *p, int c, size_t n) { const unsigned char *q = (const unsigned char *)p; for (size_t i = n; i > 0; --i) if (q[i - 1] == (unsigned char)c) return (void *)(q + i - 1); return nullptr; }
extern "C" char *vkm_strchr(const char *s, int c) { for (;; ++s) { if (*s == (char)c) return (char *)s; if (!*s) return nullptr; } }
extern "C" char *vkm_strrchr(const char *s, int c) { const char *r = nullptr; for (;; ++s) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
extern "C" char *vkm_strstr(const char *h, const char *n) { size_t l = strlen(n); for (;; ++h) { if (strncmp(h, n, l) == 0) return (char *)h; if (!*h) return nullptr; } }
extern "C" {
char *vkm_getenv(const char *n) { size_t l = strlen(n); for (char **e = environ; e && *e; ++e) if (strncmp(*e, n, l) == 0 && (*e)[l] == '=') return *e + l + 1; return nullptr; }
size_t vkm_strspn(const char *s, const char *a) { size_t n = 0; while (s[n] && vkm_strchr(a, s[n])) ++n; return n; }
size_t vkm_strcspn(const char *s, const char *a) { size_t n = 0; while (s[n] && !vkm_strchr(a, s[n])) ++n; return n; }
char *vkm_strpbrk(const char *s, const char *a) { s += vkm_strcspn(s, a); return *s ? (char *)s : nullptr; }
char *vkm_strtok_r(char *s, const char *d, char **save) { if (!s) s = *save; s += vkm_strspn(s, d); if (!*s) { *save = s; return nullptr; } char *e = s + vkm_strcspn(s, d); if (*e) *e++ = 0; *save = e; return s; }
static char *tokAt;
char *vkm_strtok(char *s, const char *d) { return vkm_strtok_r(s, d, &tokAt); }
char *vkm_stpcpy(char *d, const char *s) { strcpy(d, s); return d + strlen(d); }
void *vkm_memmem(const void *h, size_t hn, const void *n, size_t nn) { const char *p = (const char *)h; for (size_t i = 0; i + nn <= hn; ++i) if (memcmp(p + i, n, nn) == 0) return (void *)(p + i); return nullptr; }
void *vkm_rawmemchr(const void *p, int c) { const unsigned char *q = (const unsigned char *)p; while (*q != (unsigned char)c) ++q; return (void *)q; }
void *vkm_mempcpy(void *d, const void *s, size_t n) { return (char *)memcpy(d, s, n) + n; }
int vkm_isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); } int vkm_isdigit(int c) { return c >= '0' && c <= '9'; } int vkm_isupper(int c) { return c >= 'A' && c <= 'Z'; } int vkm_islower(int c) { return c >= 'a' && c <= 'z'; }
int vkm_isalpha(int c) { return vkm_isupper(c) || vkm_islower(c); } int vkm_isalnum(int c) { return vkm_isalpha(c) || vkm_isdigit(c); } int vkm_isprint(int c) { return c >= 32 && c < 127; } int vkm_isblank(int c) { return c == ' ' || c == '\t'; } int vkm_ispunct(int c) { return c > 32 && c < 127 && !vkm_isalnum(c); } int vkm_iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int vkm_isxdigit(int c) { return vkm_isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); } int vkm_tolower(int c) { return vkm_isupper(c) ? c + 32 : c; } int vkm_toupper(int c) { return vkm_islower(c) ? c - 32 : c; }
int vkm_strcasecmp(const char *a, const char *b) { for (;; ++a, ++b) { int x = vkm_tolower((unsigned char)*a), y = vkm_tolower((unsigned char)*b); if (x != y || !x) return x - y; } }
unsigned long vkm___isoc23_strtoul(const char *s, char **e, int base) {
    const char *o = s; while (vkm_isspace((unsigned char)*s)) ++s; bool neg = *s == '-'; if (neg || *s == '+') ++s;
    if ((base == 0 || base == 16) && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') && vkm_isxdigit((unsigned char)s[2])) { s += 2; base = 16; } else if (base == 0) base = *s == '0' ? 8 : 10;
    unsigned long v = 0; bool any = false; for (;; ++s) { int c = (unsigned char)*s, d = c >= '0' && c <= '9' ? c - '0' : vkm_isalpha(c) ? vkm_tolower(c) - 'a' + 10 : 99; if (d >= base) break; v = v * (unsigned long)base + (unsigned long)d; any = true; }
    if (e) *e = (char *)(any ? s : o); return neg ? 0UL - v : v;
}
long vkm___isoc23_strtol(const char *s, char **e, int b) { return (long)vkm___isoc23_strtoul(s, e, b); } long long vkm___isoc23_strtoll(const char *s, char **e, int b) { return (long long)vkm___isoc23_strtoul(s, e, b); } unsigned long long vkm___isoc23_strtoull(const char *s, char **e, int b) { return vkm___isoc23_strtoul(s, e, b); }
long vkm_strtol(const char *s, char **e, int b) { return (long)vkm___isoc23_strtoul(s, e, b); } long long vkm_strtoll(const char *s, char **e, int b) { return (long long)vkm___isoc23_strtoul(s, e, b); } unsigned long vkm_strtoul(const char *s, char **e, int b) { return vkm___isoc23_strtoul(s, e, b); } unsigned long long vkm_strtoull(const char *s, char **e, int b) { return vkm___isoc23_strtoul(s, e, b); }
wchar_t *vkm_wmemcpy(wchar_t *d, const wchar_t *s, size_t n) { return (wchar_t *)memcpy(d, s, n * sizeof(wchar_t)); }
}

namespace std {
void ios_base_library_init() {}
template class basic_string<char>;
// --- exceptions
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "bad_array_new_length"; }
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "bad_exception"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char *bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
__cow_string::__cow_string() : _M_p(strdup("")) {}
__cow_string::__cow_string(const std::string &s) : _M_p(strdup(s.c_str())) {}
__cow_string::__cow_string(const char *s, size_t) : _M_p(strdup(s)) {}
__cow_string::__cow_string(const __cow_string &o) _GLIBCXX_NOTHROW : _M_p(strdup(o._M_p)) {}
__cow_string &__cow_string::operator=(const __cow_string &o) _GLIBCXX_NOTHROW { _M_p = strdup(o._M_p); return *this; }
__cow_string::~__cow_string() {}
__cow_string::__cow_string(__cow_string &&o) noexcept : _M_p(o._M_p) {}
__cow_string &__cow_string::operator=(__cow_string &&o) noexcept { _M_p = o._M_p; return *this; }
#define EXC(N) \
    N::N(const std::string &s) : _M_msg(s) {} N::N(const char *s) : _M_msg(s, 0) {} N::N(const N &o) noexcept : exception(o), _M_msg(o._M_msg) {} \
    N &N::operator=(const N &o) noexcept { _M_msg = o._M_msg; return *this; } N::N(N &&o) noexcept : exception(o), _M_msg(o._M_msg) {} N &N::operator=(N &&o) noexcept { _M_msg = o._M_msg; return *this; } \
    N::~N() noexcept {} const char *N::what() const noexcept { return *reinterpret_cast<const char *const *>(&_M_msg); }
EXC(logic_error)
EXC(runtime_error)
#define DER(N, B) N::N(const std::string &s) : B(s) {} N::N(const char *s) : B(s) {} N::~N() noexcept {}
DER(domain_error, logic_error)
DER(invalid_argument, logic_error)
DER(length_error, logic_error)
DER(out_of_range, logic_error)
DER(range_error, runtime_error)
DER(overflow_error, runtime_error)
DER(underflow_error, runtime_error)
system_error::~system_error() noexcept {}
future_error::~future_error() noexcept {}
const char *future_error::what() const noexcept { return "future_error"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {}
const char *bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }
inline namespace _V2 {
error_category::~error_category() = default;
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition &c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code &c, int i) const noexcept { return *this == c.category() && c.value() == i; }
__cow_string error_category::_M_message(int) const { return __cow_string("error", 5); }
}
namespace {
struct cat1 : error_category { const char *name() const noexcept override { return "system"; } std::string message(int) const override { return "error"; } };
struct cat2 : error_category { const char *name() const noexcept override { return "future"; } std::string message(int) const override { return "error"; } };
struct cat3 : error_category { const char *name() const noexcept override { return "generic"; } std::string message(int) const override { return "error"; } };
}
inline namespace _V2 {
const error_category &system_category() noexcept { static cat1 c; return c; }
const error_category &generic_category() noexcept { static cat3 c; return c; }
}
const error_category &future_category() noexcept { static cat2 c; return c; }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_range_error(const char *s) { throw range_error(s); }
void __throw_overflow_error(const char *s) { throw overflow_error(s); }
void __throw_domain_error(const char *s) { throw domain_error(s); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_system_error(int i) { throw system_error(error_code(i, generic_category())); }
void __throw_future_error(int i) { throw future_error(make_error_code(future_errc(i))); }
// --- futures
__future_base::_Result_base::_Result_base() = default;
__future_base::_Result_base::~_Result_base() = default;
__thread void *__once_callable;
__thread void (*__once_call)();
extern "C" void __once_proxy() { __once_call(); }
namespace __exception_ptr {
exception_ptr::exception_ptr(void *p) noexcept : _M_exception_object(p) {}
void exception_ptr::_M_addref() noexcept {}
void exception_ptr::_M_release() noexcept {}
void *exception_ptr::_M_get() const noexcept { return _M_exception_object; }
}
extern "C" void vk_throw_obj(void *);
extern "C" { void __cxa_throw(void *, void *, void (*)(void *)) __attribute__((noreturn)); }
static struct { void *o, *ti; } prim[32]; static int nprim;
// --- containers
size_t _Hash_bytes(const void *ptr, size_t len, size_t seed) {   // murmur, as in the library
    static const size_t mul = (((size_t)0xc6a4a793UL) << 32UL) + (size_t)0x5bd1e995UL;
    const char *const buf = static_cast<const char *>(ptr);
    const size_t len_aligned = len & ~(size_t)0x7; const char *const end = buf + len_aligned; size_t hash = seed ^ (len * mul);
    for (const char *p = buf; p != end; p += 8) { size_t v; memcpy(&v, p, 8); size_t k = v * mul; k = (k ^ (k >> 47)) * mul; hash ^= k; hash *= mul; }
    if ((len & 0x7) != 0) { size_t v = 0; for (int n = (int)(len & 7) - 1; n >= 0; --n) v = (v << 8) + (unsigned char)end[n]; hash ^= v; hash *= mul; }
    hash = (hash ^ (hash >> 47)) * mul; hash = hash ^ (hash >> 47); return hash;
}
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
    size_t r = vk_next_bkt(n); if (n < 14) { if (n == 0) return 1; }
    _M_next_resize = (size_t)r; return r;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t n_bkt, size_t n_elt, size_t n_ins) const {
    if (n_elt + n_ins > _M_next_resize) {
        size_t min_bkts = n_elt + n_ins; size_t lo = _M_next_resize ? 0 : 11; if (min_bkts < lo) min_bkts = lo;
        if (min_bkts >= n_bkt) { size_t a = min_bkts + 1, b = n_bkt * 2; return {true, _M_next_bkt(a > b ? a : b)}; }
        _M_next_resize = n_bkt; return {false, 0};
    }
    return {false, 0};
}
void _List_node_base::_M_reverse() noexcept { _List_node_base *t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
void _List_node_base::_M_hook(_List_node_base *p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::_M_transfer(_List_node_base *f, _List_node_base *l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; _List_node_base *t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
    if (x._M_next != &x) {
        if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
        else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
    } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
}
// red-black trees are kept as plain binary search trees (balance is not observable)
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() { return (_Rb_tree_node_base *)rbinc((rbn *)x); }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return (const _Rb_tree_node_base *)rbinc((rbn *)x); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() { return (_Rb_tree_node_base *)rbdec((rbn *)x); }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return (const _Rb_tree_node_base *)rbdec((rbn *)x); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
    x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
    auto repl = [&](_Rb_tree_node_base *u, _Rb_tree_node_base *v) { if (h._M_parent == u) h._M_parent = v; else if (u->_M_parent->_M_left == u) u->_M_parent->_M_left = v; else u->_M_parent->_M_right = v; if (v) v->_M_parent = u->_M_parent; };
    if (h._M_left == z) h._M_left = z->_M_right ? _Rb_tree_node_base::_S_minimum(z->_M_right) : z->_M_parent;
    if (h._M_right == z) h._M_right = z->_M_left ? _Rb_tree_node_base::_S_maximum(z->_M_left) : z->_M_parent;
    if (!z->_M_left) repl(z, z->_M_right);
    else if (!z->_M_right) repl(z, z->_M_left);
    else {
        _Rb_tree_node_base *y = _Rb_tree_node_base::_S_minimum(z->_M_right);
        if (y->_M_parent != z) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
        repl(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; y->_M_color = z->_M_color;
    }
    return z;
}
// --- threads
thread::_State::~_State() = default;
}
extern "C" int vkm_pthread_create(unsigned long *, const void *, void *(*)(void *), void *);
extern "C" int vkm_pthread_join(unsigned long, void **);
extern "C" int vkm_pthread_detach(unsigned long);
struct StateLike { virtual ~StateLike(); virtual void run() = 0; };
static void *thr_entry(void *p) { StateLike *s = (StateLike *)p; s->run(); delete s; return nullptr; }
namespace std {
void thread::_M_start_thread(_State_ptr st, void (*)()) { unsigned long id; int r = vkm_pthread_create(&id, nullptr, thr_entry, st.get()); if (r) __throw_system_error(r); st.release(); *(unsigned long *)this = id; }
void thread::join() { int e = EINVAL; if (*(unsigned long *)this) e = vkm_pthread_join(*(unsigned long *)this, nullptr); if (e) __throw_system_error(e); *(unsigned long *)this = 0; }
void thread::detach() { int e = EINVAL; if (*(unsigned long *)this) e = vkm_pthread_detach(*(unsigned long *)this); if (e) __throw_system_error(e); *(unsigned long *)this = 0; }
}

namespace std { void vkrt_prim(void *o, void *ti) { if (nprim < 32) { prim[nprim].o = o; prim[nprim++].ti = ti; } }
void rethrow_exception(__exception_ptr::exception_ptr p) { void *o = *(void **)&p; for (int i = 0; i < nprim; ++i) if (prim[i].o == o) __cxa_throw(o, prim[i].ti, nullptr); vk_throw_obj(o); __builtin_unreachable(); }
nested_exception::~nested_exception() noexcept = default;
_Sp_locker::_Sp_locker(const void *p) noexcept { (void)p; vk_hb_acquire((uint64_t)&nprim); }
_Sp_locker::_Sp_locker(const void *p, const void *q) noexcept { (void)p; (void)q; vk_hb_acquire((uint64_t)&nprim); }
_Sp_locker::~_Sp_locker() { vk_hb_release((uint64_t)&nprim); } }
extern "C" void *vkm___cxa_init_primary_exception(void *o, void *ti, void (*)(void *)) noexcept { std::vkrt_prim(o, ti); return o; }
