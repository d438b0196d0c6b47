// Bodies of the libstdc++ templates that normally live in libstdc++.so, plus
// small models of the non-template parts (locale, number formatting, hash
// table policy, red-black trees).  Linked only into the symbolic image.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <ios>
#include <istream>
#include <new>
#include <ostream>
#include <sstream>
#include <streambuf>
#include <string>
#include <unordered_map>
#include <map>

namespace {
template <class T>
std::ostream &putInt(std::ostream &o, T v) {
  char b[24];
  int n = 0;
  bool neg = v < 0;
  typedef typename std::make_unsigned<T>::type U;
  U u = neg ? (U)(0 - (U)v) : (U)v;
  do {
    b[n++] = (char)('0' + u % 10);
    u /= 10;
  } while (u);
  if (neg) b[n++] = '-';
  char c[24];
  for (int i = 0; i < n; ++i) c[i] = b[n - 1 - i];
  o.write(c, n);
  return o;
}
std::ostream &putDbl(std::ostream &o, double v) {
  char b[64];
  int n = snprintf(b, sizeof b, "%.*g", (int)o.precision(), v);
  o.write(b, n);
  return o;
}
}  // namespace

namespace std {
// number formatting without locale facets
template <> template <> ostream &ostream::_M_insert(long v) { return putInt(*this, v); }
template <> template <> ostream &ostream::_M_insert(unsigned long v) { return putInt(*this, v); }
template <> template <> ostream &ostream::_M_insert(long long v) { return putInt(*this, v); }
template <> template <> ostream &ostream::_M_insert(unsigned long long v) { return putInt(*this, v); }
template <> template <> ostream &ostream::_M_insert(bool v) { return putInt(*this, (int)v); }
template <> template <> ostream &ostream::_M_insert(double v) { return putDbl(*this, v); }
template <> template <> ostream &ostream::_M_insert(long double v) { return putDbl(*this, (double)v); }
template <> template <> ostream &ostream::_M_insert(const void *v) { return putInt(*this, (unsigned long)v); }
template <> void basic_ios<char>::_M_cache_locale(const locale &) {
  _M_ctype = nullptr;
  _M_num_put = nullptr;
  _M_num_get = nullptr;
}
template <> char basic_ios<char>::widen(char c) const { return c; }
template <> char basic_ios<char>::narrow(char c, char) const { return c; }
template <> char basic_ios<char>::fill() const { return ' '; }
// enough of a ctype facet for the inlined widen(): an identity table
struct FakeCtype : ctype<char> {
  static const ctype<char> *get() {
    alignas(16) static char mem[sizeof(ctype<char>)];
    mem[__builtin_offsetof(FakeCtype, _M_widen_ok)] = 1;
    for (int i = 0; i < 256; ++i) mem[__builtin_offsetof(FakeCtype, _M_widen) + i] = (char)i;
    return reinterpret_cast<const ctype<char> *>(mem);
  }
};
template <> void basic_ios<char>::init(basic_streambuf<char> *sb) {
  _M_init();
  _M_ctype = FakeCtype::get();
  _M_num_put = nullptr;
  _M_num_get = nullptr;
  _M_fill = ' ';
  _M_fill_init = true;
  _M_tie = nullptr;
  _M_exception = ios_base::goodbit;
  _M_streambuf = sb;
  _M_streambuf_state = sb ? ios_base::goodbit : ios_base::badbit;
}
template <> void basic_ios<char>::clear(ios_base::iostate s) {
  _M_streambuf_state = _M_streambuf ? s : (s | ios_base::badbit);
}
// istream: whitespace skipping without ctype
template <> istream::sentry::sentry(istream &in, bool noskip) : _M_ok(false) {
  if (in.good()) {
    if (!noskip && (in.flags() & ios_base::skipws)) {
      for (;;) {
        int c = in.rdbuf()->sgetc();
        if (c == -1) { in.setstate(ios_base::eofbit); break; }
        if (c == ' ' || (c >= 9 && c <= 13)) in.rdbuf()->sbumpc();
        else break;
      }
    }
  }
  if (in.good()) _M_ok = true;
  else in.setstate(ios_base::failbit);
}
template <> istream &ws(istream &in) { return in; }
template <> istream &operator>>(istream &in, basic_string<char> &s) {
  istream::sentry ok(in, false);
  s.clear();
  if (ok) {
    for (;;) {
      int c = in.rdbuf()->sgetc();
      if (c == -1) { in.setstate(ios_base::eofbit); break; }
      if (c == ' ' || (c >= 9 && c <= 13)) break;
      s.push_back((char)c);
      in.rdbuf()->sbumpc();
    }
    if (s.empty()) in.setstate(ios_base::failbit);
  }
  return in;
}
template <class V>
static istream &getInt(istream &in, V &v) {
  istream::sentry ok(in, false);
  if (!ok) return in;
  bool neg = false, any = false;
  unsigned long long r = 0;
  int c = in.rdbuf()->sgetc();
  if (c == '-' || c == '+') { neg = c == '-'; in.rdbuf()->sbumpc(); }
  for (;;) {
    c = in.rdbuf()->sgetc();
    if (c == -1) { in.setstate(ios_base::eofbit); break; }
    if (c < '0' || c > '9') break;
    any = true;
    r = r * 10 + (c - '0');
    in.rdbuf()->sbumpc();
  }
  if (!any) { v = 0; in.setstate(ios_base::failbit); }
  else v = (V)(neg ? 0 - r : r);
  return in;
}
template <> istream &getline(istream &in, basic_string<char> &s, char d) {
  istream::sentry ok(in, true);
  s.clear();
  if (ok) {
    bool any = false;
    for (;;) {
      int c = in.rdbuf()->sgetc();
      if (c == -1) { in.setstate(any ? ios_base::eofbit : (ios_base::eofbit | ios_base::failbit)); break; }
      any = true;
      in.rdbuf()->sbumpc();
      if (c == (unsigned char)d) break;
      s.push_back((char)c);
    }
  }
  return in;
}
template <> template <> istream &istream::_M_extract(long &v) { return getInt(*this, v); }
template <> template <> istream &istream::_M_extract(unsigned long &v) { return getInt(*this, v); }
template <> template <> istream &istream::_M_extract(unsigned &v) { return getInt(*this, v); }
template <> template <> istream &istream::_M_extract(unsigned short &v) { return getInt(*this, v); }
template <> template <> istream &istream::_M_extract(long long &v) { return getInt(*this, v); }
template <> template <> istream &istream::_M_extract(unsigned long long &v) { return getInt(*this, v); }
template <> template <> istream &istream::_M_extract(bool &v) { return getInt(*this, v); }
template <> istream &istream::operator>>(int &v) { return getInt(*this, v); }
template <> istream &istream::operator>>(short &v) { return getInt(*this, v); }
}  // namespace std

template class std::basic_string<char>;
template class std::basic_streambuf<char>;
template class std::basic_stringbuf<char>;
template class std::basic_ios<char>;
template class std::basic_ostream<char>;
template class std::basic_istream<char>;
template class std::basic_iostream<char>;
template class std::basic_ostringstream<char>;
template class std::basic_istringstream<char>;
template class std::basic_stringstream<char>;
template std::ostream &std::__ostream_insert(std::ostream &, const char *, std::streamsize);
template std::ostream &std::operator<<(std::ostream &, const char *);
template std::ostream &std::operator<<(std::ostream &, char);
template std::ostream &std::operator<<(std::ostream &, const std::string &);
template std::ostream &std::endl(std::ostream &);
template std::ostream &std::flush(std::ostream &);
template std::istream &std::getline(std::istream &, std::string &);

#define ASM(x) __asm__(x)
extern "C" {
// ios_base: construction is a no-op except for the state words
void m_ios_init(std::ios_base *b) ASM("_ZNSt8ios_base7_M_initEv");
void m_ios_init(std::ios_base *b) {
  b->precision(6);
  b->width(0);
  b->flags(std::ios_base::skipws | std::ios_base::dec);
}

// hash table policy
std::size_t m_next_bkt(std::__detail::_Prime_rehash_policy *p, std::size_t n) ASM("_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm");
std::size_t m_next_bkt(std::__detail::_Prime_rehash_policy *p, std::size_t n) {
  static const std::size_t primes[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3739, 7517, 15173, 30727, 62233, 126271, 256279, 520241, 1056323};
  std::size_t r = 1056323;
  if (n == 0) return 1;
  for (std::size_t x : primes)
    if (x >= n) { r = x; break; }
  p->_M_next_resize = (std::size_t)((float)r * p->_M_max_load_factor);
  return r;
}
struct BP { bool a; std::size_t b; };
std::pair<bool, std::size_t> m_need_rehash(std::__detail::_Prime_rehash_policy *p, std::size_t nb, std::size_t ne, std::size_t ni) ASM("_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm");
std::pair<bool, std::size_t> m_need_rehash(std::__detail::_Prime_rehash_policy *p, std::size_t nb, std::size_t ne, std::size_t ni) {
  if (ne + ni > p->_M_next_resize) {
    std::size_t want = (std::size_t)((float)(ne + ni) / p->_M_max_load_factor) + 1;
    if (want > nb) {
      std::size_t t = want > nb * 2 ? want : nb * 2;
      return {true, m_next_bkt(p, t)};
    }
    p->_M_next_resize = (std::size_t)((float)nb * p->_M_max_load_factor);
  }
  return {false, 0};
}
std::size_t m_hash_bytes(const void *ptr, std::size_t n, std::size_t seed) ASM("_ZSt11_Hash_bytesPKvmm");
std::size_t m_hash_bytes(const void *ptr, std::size_t n, std::size_t seed) {
  const unsigned char *p = (const unsigned char *)ptr;
  std::size_t h = seed ^ 1469598103934665603ull;
  for (std::size_t i = 0; i < n; ++i) h = (h ^ p[i]) * 1099511628211ull;
  return h;
}
}

// cerr/cout/clog: streams without a buffer swallow everything
alignas(std::ostream) char s_cerr[sizeof(std::ostream)] ASM("_ZSt4cerr");
alignas(std::ostream) char s_cout[sizeof(std::ostream)] ASM("_ZSt4cout");
alignas(std::ostream) char s_clog[sizeof(std::ostream)] ASM("_ZSt4clog");
namespace {
__attribute__((init_priority(101))) struct InitStreams {
  InitStreams() {
    new (s_cerr) std::ostream(nullptr);
    new (s_cout) std::ostream(nullptr);
    new (s_clog) std::ostream(nullptr);
  }
} initStreams;
}  // namespace

// red-black trees (std::map / std::set)
namespace std {
static _Rb_tree_node_base *inc(_Rb_tree_node_base *x) {
  if (x->_M_right) {
    x = x->_M_right;
    while (x->_M_left) x = x->_M_left;
  } else {
    _Rb_tree_node_base *y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
  }
  return x;
}
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() { return inc(x); }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return inc(const_cast<_Rb_tree_node_base *>(x)); }
static _Rb_tree_node_base *dec(_Rb_tree_node_base *x) {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) {
    _Rb_tree_node_base *y = x->_M_left;
    while (y->_M_right) y = y->_M_right;
    return y;
  }
  _Rb_tree_node_base *y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() { return dec(x); }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return dec(const_cast<_Rb_tree_node_base *>(x)); }
// unbalanced insertion keeps the ordering contract, which is all clients see
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
  x->_M_parent = p;
  x->_M_left = x->_M_right = 0;
  x->_M_color = _S_black;
  if (p == &h || left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; h._M_color = _S_red; x->_M_parent = &h; h._M_left = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
}  // namespace std
