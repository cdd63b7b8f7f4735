// Stand-ins, in IR, for out-of-line libc / libstdc++ pieces that have no IR of their own.
// Everything here is a stated part of the model (DESIGN.md, "Environment model").
#include <cstddef>
#include <cstdint>
#include <map>
#include <list>
#include <ios>
#include <sys/time.h>
#include <sys/stat.h>
#include <cerrno>
#include <unordered_map>
extern "C" {
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { while (n && *a && *a == *b) { a++; b++; n--; } return n ? (unsigned char)*a - (unsigned char)*b : 0; }
char* strcpy(char* d, const char* s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
int memcmp(const void* a, const void* b, size_t n) { const unsigned char *p = (const unsigned char*)a, *q = (const unsigned char*)b; for (size_t i = 0; i < n; i++) if (p[i] != q[i]) return p[i] < q[i] ? -1 : 1; return 0; }
int bcmp(const void* a, const void* b, size_t n) { const unsigned char *p = (const unsigned char*)a, *q = (const unsigned char*)b; unsigned char d = 0; for (size_t i = 0; i < n; i++) d |= (unsigned char)(p[i] ^ q[i]); return d != 0; }
void* memchr(const void* s, int c, size_t n) { const unsigned char* p = (const unsigned char*)s; for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void*)(p + i); return nullptr; }
__attribute__((weak)) int gettimeofday(struct timeval* tv, void*) { tv->tv_sec = 0; tv->tv_usec = 0; return 0; }
long clock(void) { return 0; }
static int the_errno = 0;
int* __errno_location(void) { return &the_errno; }
struct guard_t { char done; };
int __cxa_guard_acquire(char* g) { return *g ? 0 : 1; }
void __cxa_guard_release(char* g) { *g = 1; }
void __cxa_guard_abort(char* g) {}
}
namespace std {
// red-black tree: an unbalanced search tree satisfies the same interface
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) noexcept {
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
static _Rb_tree_node_base* inc(_Rb_tree_node_base* x) noexcept {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; return x;
}
static _Rb_tree_node_base* dec(_Rb_tree_node_base* x) noexcept {
  // header is told apart by being its grandparent while red in libstdc++; here the header keeps colour red and nodes are black
  if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept { return inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept { return inc(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept { return dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept { return dec(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) noexcept {
  typedef _Rb_tree_node_base* P; P nxt = inc(z);
  auto repl = [&](P old, P nw) { P p = old->_M_parent; if (h._M_parent == old) h._M_parent = nw; else if (p->_M_left == old) p->_M_left = nw; else p->_M_right = nw; if (nw) nw->_M_parent = p; };
  P lm = h._M_left == z ? nxt : h._M_left; P rm = h._M_right;
  if (rm == z) { if (z->_M_left) { rm = z->_M_left; while (rm->_M_right) rm = rm->_M_right; } else rm = z->_M_parent; }
  if (!z->_M_left) repl(z, z->_M_right); else if (!z->_M_right) repl(z, z->_M_left);
  else { P y = z->_M_right; while (y->_M_left) y = y->_M_left; if (y->_M_parent != z) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; } repl(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; }
  if (!h._M_parent) { h._M_left = &h; h._M_right = &h; } else { h._M_left = lm; h._M_right = rm; }
  return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* n = _M_next; _List_node_base* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
  if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; _List_node_base* t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  if (x._M_next != &x) { if (y._M_next != &y) { _List_node_base* t = x._M_next; x._M_next = y._M_next; y._M_next = t; t = x._M_prev; x._M_prev = y._M_prev; y._M_prev = t; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } }
  else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const { _M_next_resize = 1000000; return n < 2 ? 1 : n; }
std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t, std::size_t, std::size_t) const { return {false, 0}; }
}
size_t _Hash_bytes(const void*, size_t, size_t) { return 0; }   // one bucket: lookups compare keys
}
// locale with a single facet (an identity ctype<char>); formatted stream output is a no-op in the engine
#include <locale>
#include <ostream>
#include <new>
namespace {
struct Peek : std::ctype<char> { static void setup(std::ctype<char>* c) { Peek* p = static_cast<Peek*>(c); p->_M_widen_ok = 1; p->_M_narrow_ok = 1; for (int i = 0; i < 256; i++) { p->_M_widen[i] = (char)i; p->_M_narrow[i] = (char)i; } } };
struct FakeImpl { int refs; const void** facets; size_t nfacets; const void** caches; char** names; };
alignas(16) char ctypeBuf[sizeof(std::ctype<char>)];
const void* facets[2];
FakeImpl fimpl;
void* fakeImpl() { if (!fimpl.nfacets) { Peek::setup((std::ctype<char>*)ctypeBuf); facets[0] = ctypeBuf; fimpl.refs = 1; fimpl.facets = facets; fimpl.nfacets = 1; } return &fimpl; }
}
extern "C" void locale_ctor(void**) __asm__("_ZNSt6localeC1Ev");
extern "C" void locale_ctor(void** l) { *l = fakeImpl(); }
extern "C" void locale_cctor(void**, void**) __asm__("_ZNSt6localeC1ERKS_");
extern "C" void locale_cctor(void** l, void** o) { *l = *o; }
extern "C" void* locale_assign(void**, void**) __asm__("_ZNSt6localeaSERKS_");
extern "C" void* locale_assign(void** l, void** o) { *l = *o; return l; }
namespace std {
struct IosHack : ios_base { static void setup(ios_base& b) { b.flags(ios_base::skipws | ios_base::dec); b.precision(6); b.width(0); locale ios_base::*p = &IosHack::_M_ios_locale; *(void**)&(b.*p) = fakeImpl(); } };
size_t locale::id::_M_id() const throw() { return this == &std::ctype<char>::id ? 0 : 1; }
locale::id ctype<char>::id __attribute__((init_priority(150)));
template const ctype<char>& use_facet<ctype<char> >(const locale&);
template bool has_facet<ctype<char> >(const locale&);
}
alignas(16) char coutBuf[sizeof(std::ostream)] __asm__("_ZSt4cout");
alignas(16) char cerrBuf[sizeof(std::ostream)] __asm__("_ZSt4cerr");
alignas(16) char clogBuf[sizeof(std::ostream)] __asm__("_ZSt4clog");
static struct StdStreams { StdStreams() { new (coutBuf) std::ostream(nullptr); new (cerrBuf) std::ostream(nullptr); new (clogBuf) std::ostream(nullptr); } } stdStreams __attribute__((init_priority(200)));
extern "C" void ios_base_M_init(std::ios_base* b) __asm__("_ZNSt8ios_base7_M_initEv");
extern "C" void ios_base_M_init(std::ios_base* b) { std::IosHack::setup(*b); }
extern "C" void ios_base_ctor(std::ios_base*) __asm__("_ZNSt8ios_baseC2Ev");
extern "C" void ios_base_ctor(std::ios_base* b) { }
extern "C" void ios_base_dtor(std::ios_base*) __asm__("_ZNSt8ios_baseD2Ev");
extern "C" void ios_base_dtor(std::ios_base* b) { }
