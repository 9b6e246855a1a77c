#ifndef VGSA_MODEL_HPP
#define VGSA_MODEL_HPP
// Bounded models of the standard containers, found before the real headers when a probe asks for them.  They implement the
// documented behaviour on inline storage of fixed capacity (overflow is an opaque effect), so that the analysis sees
// through them.  map/set look keys up by linear search with the given comparator and iterate in insertion order.
// Storage slots never move, so references stay valid as the standard demands; destructors of elements are not run.
#include <cstddef>
#include <iterator>
#include <utility>
#include <functional>
#include <memory>
#include <new>
#include <algorithm>
#include <stdexcept>
#include <ext/type_traits.h>
#ifndef VG_CAP
#define VG_CAP 6
#endif
#ifndef VG_MAPCAP
#define VG_MAPCAP 6
#endif
extern "C" { void eff_overflow(void const * container); void eff_out_of_range(void const * container); }
namespace vgm {
template <typename T, int CAP> struct slots
{
  union { char raw[sizeof(T) * CAP]; double align_d; void * align_p; long align_l; } u;
  T * at(long i) { return reinterpret_cast<T *>(u.raw) + i; } T const * at(long i) const { return reinterpret_cast<T const *>(u.raw) + i; }
};
template <typename T, typename Ref, typename Ptr> struct It
{
  typedef std::random_access_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef Ptr pointer; typedef Ref reference;
  Ptr p; It() : p(0) {} explicit It(Ptr q) : p(q) {} It(It const & o) : p(o.p) {} It & operator=(It const & o) { p = o.p; return *this; }
  template <typename R2, typename P2> It(It<T, R2, P2> const & o) : p(o.p) {}
  Ref operator*() const { return *p; } Ptr operator->() const { return p; }
  It & operator++() { ++p; return *this; } It operator++(int) { It t(*this); ++p; return t; }
  It & operator--() { --p; return *this; } It operator--(int) { It t(*this); --p; return t; }
  It & operator+=(difference_type n) { p += n; return *this; } It & operator-=(difference_type n) { p -= n; return *this; }
  It operator+(difference_type n) const { return It(p + n); } It operator-(difference_type n) const { return It(p - n); }
  Ref operator[](difference_type n) const { return p[n]; }
};
template <typename T, typename R, typename P, typename R2, typename P2> std::ptrdiff_t operator-(It<T, R, P> const & a, It<T, R2, P2> const & b) { return a.p - b.p; }
template <typename T, typename R, typename P, typename R2, typename P2> bool operator==(It<T, R, P> const & a, It<T, R2, P2> const & b) { return a.p == b.p; }
template <typename T, typename R, typename P, typename R2, typename P2> bool operator!=(It<T, R, P> const & a, It<T, R2, P2> const & b) { return a.p != b.p; }
template <typename T, typename R, typename P, typename R2, typename P2> bool operator<(It<T, R, P> const & a, It<T, R2, P2> const & b) { return a.p < b.p; }
template <typename T, typename R, typename P, typename R2, typename P2> bool operator>(It<T, R, P> const & a, It<T, R2, P2> const & b) { return b.p < a.p; }
template <typename T, typename R, typename P, typename R2, typename P2> bool operator<=(It<T, R, P> const & a, It<T, R2, P2> const & b) { return a.p <= b.p; }
template <typename T, typename R, typename P, typename R2, typename P2> bool operator>=(It<T, R, P> const & a, It<T, R2, P2> const & b) { return a.p >= b.p; }
template <typename T, typename R, typename P> It<T, R, P> operator+(std::ptrdiff_t n, It<T, R, P> const & a) { return a + n; }
}
namespace std { // sorting a bounded sequence: exchanges of neighbours
template <typename T, typename R, typename P> void sort(vgm::It<T, R, P> a, vgm::It<T, R, P> b) { long n = b - a; for (long i = 0; i < VG_CAP; ++i) if (i + 1 < n) for (long j = 0; j + 1 < VG_CAP; ++j) if (j + 1 < n - i) if (a[j + 1] < a[j]) { T t(a[j]); a[j] = a[j + 1]; a[j + 1] = t; } }
template <typename T, typename R, typename P, typename C> void sort(vgm::It<T, R, P> a, vgm::It<T, R, P> b, C c) { long n = b - a; for (long i = 0; i < VG_CAP; ++i) if (i + 1 < n) for (long j = 0; j + 1 < VG_CAP; ++j) if (j + 1 < n - i) if (c(a[j + 1], a[j])) { T t(a[j]); a[j] = a[j + 1]; a[j + 1] = t; } }
}
namespace vgm {
// vector, deque, list
template <typename T, int CAP = VG_CAP> struct seq
{
  typedef T value_type; typedef T & reference; typedef T const & const_reference; typedef T * pointer; typedef T const * const_pointer;
  typedef std::size_t size_type; typedef std::ptrdiff_t difference_type;
  typedef It<T, T &, T *> iterator; typedef It<T, T const &, T const *> const_iterator;
  typedef std::reverse_iterator<iterator> reverse_iterator; typedef std::reverse_iterator<const_iterator> const_reverse_iterator;
  long n; slots<T, CAP> s;
  seq() : n(0) {}
  explicit seq(size_type k, T const & v = T()) : n(0) { resize(k, v); }
  template <typename I> seq(I a, I b, typename I::iterator_category * = 0) : n(0) { for (; a != b; ++a) push_back(*a); }
  seq(seq const & o) : n(o.n) { for (long i = 0; i < CAP; ++i) if (i < n) new (s.at(i)) T(*o.s.at(i)); }
  seq & operator=(seq const & o) { n = o.n; for (long i = 0; i < CAP; ++i) if (i < n) new (s.at(i)) T(*o.s.at(i)); return *this; }
  iterator begin() { return iterator(s.at(0)); } iterator end() { return iterator(s.at(n)); }
  const_iterator begin() const { return const_iterator(s.at(0)); } const_iterator end() const { return const_iterator(s.at(n)); }
  reverse_iterator rbegin() { return reverse_iterator(end()); } reverse_iterator rend() { return reverse_iterator(begin()); }
  const_reverse_iterator rbegin() const { return const_reverse_iterator(end()); } const_reverse_iterator rend() const { return const_reverse_iterator(begin()); }
  size_type size() const { return n; } bool empty() const { return n == 0; } size_type capacity() const { return CAP; } size_type max_size() const { return CAP; } void reserve(size_type) {}
  T & operator[](size_type i) { return *s.at(i); } T const & operator[](size_type i) const { return *s.at(i); }
  T & at(size_type i) { if (i >= (size_type)n) throw std::out_of_range("at"); return *s.at(i); } T const & at(size_type i) const { if (i >= (size_type)n) throw std::out_of_range("at"); return *s.at(i); }
  T & front() { return *s.at(0); } T const & front() const { return *s.at(0); } T & back() { return *s.at(n - 1); } T const & back() const { return *s.at(n - 1); }
  void push_back(T const & v) { if (n >= CAP) eff_overflow(this); else { new (s.at(n)) T(v); ++n; } }
  void push_front(T const & v) { insert(begin(), v); }
  void pop_back() { --n; } void pop_front() { erase(begin()); }
  void clear() { n = 0; }
  void resize(size_type k, T const & v = T()) { if (k > CAP) eff_overflow(this); else { for (size_type i = 0; i < CAP; ++i) if (i >= (size_type)n && i < k) new (s.at(i)) T(v); n = k; } }
  void assign(size_type k, T const & v) { n = 0; resize(k, v); }
  template <typename I> void assign(I a, I b, typename I::iterator_category * = 0) { n = 0; for (; a != b; ++a) push_back(*a); }
  template <typename I> void insert(iterator p, I a, I b, typename I::iterator_category * = 0) { for (; a != b; ++a) { p = insert(p, *a); ++p; } }
  iterator erase(iterator p) { long k = p.p - s.at(0); for (long i = 0; i + 1 < CAP; ++i) if (i >= k && i + 1 < n) *s.at(i) = *s.at(i + 1); --n; return p; }
  iterator erase(const_iterator p) { return erase(iterator(s.at(p.p - s.at(0)))); }
  iterator erase(iterator a, iterator b) { long k = b.p - a.p, f = a.p - s.at(0); for (long i = 0; i < CAP; ++i) if (i >= f && i + k < n) *s.at(i) = *s.at(i + k); n -= k; return a; }
  iterator insert(iterator p, T const & v) { if (n >= CAP) eff_overflow(this); else { T c(v); long k = p.p - s.at(0); new (s.at(n)) T(c); for (long i = CAP - 1; i > 0; --i) if (i > k && i <= n) *s.at(i) = *s.at(i - 1); *s.at(k) = c; ++n; } return p; }
  void swap(seq & o) { seq t(o); o = *this; *this = t; }
};
template <typename T, int C> bool operator==(seq<T, C> const & a, seq<T, C> const & b) { if (a.n != b.n) return false; for (long i = 0; i < C; ++i) if (i < a.n && !(*a.s.at(i) == *b.s.at(i))) return false; return true; }
// map, set: stable slots with an occupancy flag
template <typename E, int CAP> struct table
{
  slots<E, CAP> s; bool used[CAP]; long n; int lo; // new entries go to slots >= lo
  table() : n(0), lo(0) { for (int i = 0; i < CAP; ++i) used[i] = false; }
  table(table const & o) : n(o.n), lo(o.lo) { for (int i = 0; i < CAP; ++i) { used[i] = o.used[i]; if (used[i]) new (s.at(i)) E(*o.s.at(i)); } copy(o); }
  table & operator=(table const & o) { if (this != &o) { n = o.n; lo = o.lo; for (int i = 0; i < CAP; ++i) { used[i] = o.used[i]; if (used[i]) new (s.at(i)) E(*o.s.at(i)); } copy(o); } return *this; }
#ifdef VG_SORTED
  void copy(table const & o) { for (int k = 0; k < CAP; ++k) if (k < n) ord[k] = o.ord[k]; }
#else
  void copy(table const &) {}
#endif
#ifdef VG_SORTED // iteration in the order of the keys (costs more; without it the order of iteration is the order of insertion)
  int ord[CAP];
  long next(long i) const { if (i == 0) return n ? ord[0] : CAP; for (int k = 0; k < CAP; ++k) if (k < n && ord[k] == i - 1) return k + 1 < n ? ord[k + 1] : CAP; return CAP; }
  long prev(long i) const { if (i == CAP - 1) return ord[n - 1]; for (int k = 1; k < CAP; ++k) if (k < n && ord[k] == i + 1) return ord[k - 1]; return 0; }
  void drop(long i) { int k = 0; while (k < n && ord[k] != i) ++k; for (; k + 1 < n; ++k) ord[k] = ord[k + 1]; used[i] = false; --n; }
#else
  long next(long i) const { for (; i < CAP && !used[i]; ++i) {} return i; }
  long prev(long i) const { for (; i > 0 && !used[i]; --i) {} return i; }
  void drop(long i) { used[i] = false; --n; }
#endif
  long put(E const & e) { for (int i = 0; i < CAP; ++i) if (i >= lo && !used[i]) { new (s.at(i)) E(e); used[i] = true; ++n; return i; } eff_overflow(this); return CAP; }
};
template <typename E, typename Tab, typename Ref, typename Ptr> struct TIt
{
  typedef std::bidirectional_iterator_tag iterator_category; typedef E value_type; typedef std::ptrdiff_t difference_type; typedef Ptr pointer; typedef Ref reference;
  Tab * t; long i; TIt() : t(0), i(0) {} TIt(Tab * a, long k) : t(a), i(k) {}
  template <typename T2, typename R2, typename P2> TIt(TIt<E, T2, R2, P2> const & o) : t(o.t), i(o.i) {}
  Ref operator*() const { return *t->s.at(i); } Ptr operator->() const { return t->s.at(i); }
  TIt & operator++() { i = t->next(i + 1); return *this; } TIt operator++(int) { TIt c(*this); ++*this; return c; }
  TIt & operator--() { i = t->prev(i - 1); return *this; } TIt operator--(int) { TIt c(*this); --*this; return c; }
};
template <typename E, typename T, typename R, typename P, typename T2, typename R2, typename P2> bool operator==(TIt<E, T, R, P> const & a, TIt<E, T2, R2, P2> const & b) { return a.i == b.i; }
template <typename E, typename T, typename R, typename P, typename T2, typename R2, typename P2> bool operator!=(TIt<E, T, R, P> const & a, TIt<E, T2, R2, P2> const & b) { return a.i != b.i; }
template <typename K, typename E, typename Cmp, bool MAP, int CAP = VG_MAPCAP> struct assoc
{
  typedef K key_type; typedef E value_type; typedef E & reference; typedef E const & const_reference; typedef E * pointer; typedef E const * const_pointer; typedef Cmp key_compare;
  typedef std::size_t size_type; typedef std::ptrdiff_t difference_type; typedef table<E, CAP> Tab;
  typedef typename __gnu_cxx::__conditional_type<MAP, TIt<E, Tab, E &, E *>, TIt<E, Tab const, E const &, E const *> >::__type iterator; typedef TIt<E, Tab const, E const &, E const *> const_iterator;
  typedef std::reverse_iterator<iterator> reverse_iterator; typedef std::reverse_iterator<const_iterator> const_reverse_iterator;
  Tab t; mutable Cmp cmp;
  assoc() {} assoc(Cmp const & c) : cmp(c) {}
  template <typename A, typename B> static K const & key(std::pair<A, B> const & e, std::pair<A, B> const *) { return e.first; }
  static K const & key(E const & e) { return key_(e, sel<MAP>()); }
  template <bool B> struct sel {};
  static K const & key_(E const & e, sel<true>) { return first(e); } static K const & key_(E const & e, sel<false>) { return self(e); }
  template <typename P> static K const & first(P const & e) { return e.first; } template <typename P> static K const & self(P const & e) { return reinterpret_cast<K const &>(e); }
  long look(K const & k) const { for (long i = 0; i < CAP; ++i) if (t.used[i] && !cmp(key(*t.s.at(i)), k) && !cmp(k, key(*t.s.at(i)))) return i; return CAP; }
  iterator begin() { return iterator(&t, t.next(0)); } iterator end() { return iterator(&t, CAP); }
  const_iterator begin() const { return const_iterator(&t, t.next(0)); } const_iterator end() const { return const_iterator(&t, CAP); }
  reverse_iterator rbegin() { return reverse_iterator(end()); } reverse_iterator rend() { return reverse_iterator(begin()); }
  const_reverse_iterator rbegin() const { return const_reverse_iterator(end()); } const_reverse_iterator rend() const { return const_reverse_iterator(begin()); }
  size_type size() const { return t.n; } bool empty() const { return t.n == 0; }
  void clear() { for (int i = 0; i < CAP; ++i) t.used[i] = false; t.n = 0; }
  iterator find(K const & k) { return iterator(&t, look(k)); } const_iterator find(K const & k) const { return const_iterator(&t, look(k)); }
  size_type count(K const & k) const { return look(k) != CAP; }
  std::pair<iterator, bool> insert(E const & e) { long i = look(key(e)); if (i != CAP) return std::pair<iterator, bool>(iterator(&t, i), false); return std::pair<iterator, bool>(iterator(&t, put(e)), true); }
#ifdef VG_SORTED
  long put(E const & e) { long i = t.put(e); if (i == CAP) return i; int k = t.n - 1; while (k > 0 && cmp(key(e), key(*t.s.at(t.ord[k - 1])))) { t.ord[k] = t.ord[k - 1]; --k; } t.ord[k] = i; return i; }
#else
  long put(E const & e) { return t.put(e); }
#endif
  iterator insert(iterator, E const & e) { return insert(e).first; }
  template <typename I> void insert(I a, I b) { for (; a != b; ++a) insert(*a); }
  void erase(iterator p) { t.drop(p.i); }
  void erase(iterator a, iterator b) { while (a != b) erase(a++); }
  long bound(K const & k, bool up) const { long b = CAP; for (long i = 0; i < CAP; ++i) if (t.used[i] && (up ? cmp(k, key(*t.s.at(i))) : !cmp(key(*t.s.at(i)), k)) && (b == CAP || cmp(key(*t.s.at(i)), key(*t.s.at(b))))) b = i; return b; }
  iterator lower_bound(K const & k) { return iterator(&t, bound(k, false)); } const_iterator lower_bound(K const & k) const { return const_iterator(&t, bound(k, false)); }
  iterator upper_bound(K const & k) { return iterator(&t, bound(k, true)); } const_iterator upper_bound(K const & k) const { return const_iterator(&t, bound(k, true)); }
  key_compare key_comp() const { return cmp; } static size_type max_size() { return CAP; }
  size_type erase(K const & k) { long i = look(k); if (i == CAP) return 0; t.drop(i); return 1; }
  void swap(assoc & o) { assoc x(o); o = *this; *this = x; }
};
}
#endif
