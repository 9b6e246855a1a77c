#ifndef VGSA_FROZEN_HPP
#define VGSA_FROZEN_HPP
// Fixed-length containers plugged into the library through its own container tags, so that mesh-level algorithms can be
// analysed at a known number of elements with unknown contents.  Reading operations are exact; operations that would
// change the length are recorded as effects.
#include <cstddef>
#include <iterator>
#include "viennagrid/config/default_configs.hpp"
#include "viennagrid/mesh/mesh.hpp"
#include "viennagrid/mesh/element_creation.hpp"
#include "viennagrid/mesh/segmentation.hpp"
extern "C" {
  void eff_push(void const * container, void const * value);
  void eff_clear(void const * container);
  void eff_resize(void const * container, unsigned long n);
  void eff_erase(void const * container, void const * at);
}
template <typename T, typename Ref, typename Ptr> struct FzIt
{
  typedef std::random_access_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef Ptr pointer; typedef Ref reference;
  Ptr p; FzIt() : p(0) {} explicit FzIt(Ptr q) : p(q) {}
  template <typename R2, typename P2> FzIt(FzIt<T, R2, P2> const & o) : p(o.p) {}
  Ref operator*() const { return *p; } Ptr operator->() const { return p; }
  FzIt & operator++() { ++p; return *this; } FzIt operator++(int) { FzIt t(*this); ++p; return t; }
  FzIt & operator--() { --p; return *this; } FzIt operator--(int) { FzIt t(*this); --p; return t; }
  FzIt & operator+=(difference_type n) { p += n; return *this; } FzIt & operator-=(difference_type n) { p -= n; return *this; }
  FzIt operator+(difference_type n) const { return FzIt(p + n); } FzIt operator-(difference_type n) const { return FzIt(p - n); }
  Ref operator[](difference_type n) const { return p[n]; }
};
template <typename T, typename R, typename P, typename R2, typename P2> std::ptrdiff_t operator-(FzIt<T, R, P> const & a, FzIt<T, R2, P2> const & b) { return a.p - b.p; }
template <typename T, typename R, typename P, typename R2, typename P2> bool operator==(FzIt<T, R, P> const & a, FzIt<T, R2, P2> const & b) { return a.p == b.p; }
template <typename T, typename R, typename P, typename R2, typename P2> bool operator!=(FzIt<T, R, P> const & a, FzIt<T, R2, P2> const & b) { return a.p != b.p; }
template <typename T, typename R, typename P, typename R2, typename P2> bool operator<(FzIt<T, R, P> const & a, FzIt<T, R2, P2> const & b) { return a.p < b.p; }
template <typename T, int N> struct Fz
{
  typedef T value_type; typedef T & reference; typedef T const & const_reference; typedef T * pointer; typedef T const * const_pointer;
  typedef std::size_t size_type; typedef std::ptrdiff_t difference_type;
  typedef FzIt<T, T &, T *> iterator; typedef FzIt<T, T const &, T const *> const_iterator;
  typedef std::reverse_iterator<iterator> reverse_iterator; typedef std::reverse_iterator<const_iterator> const_reverse_iterator;
  static const int length = N;
  union { char raw[sizeof(T) * (N > 0 ? N : 1)]; double align_d; void * align_p; long align_l; } u;
  T * data() { return reinterpret_cast<T *>(u.raw); } T const * data() const { return reinterpret_cast<T const *>(u.raw); }
  iterator begin() { return iterator(data()); } iterator end() { return iterator(data() + N); }
  const_iterator begin() const { return const_iterator(data()); } const_iterator end() const { return const_iterator(data() + N); }
  reverse_iterator rbegin() { return reverse_iterator(end()); } reverse_iterator rend() { return reverse_iterator(begin()); }
  const_reverse_iterator rbegin() const { return const_reverse_iterator(end()); } const_reverse_iterator rend() const { return const_reverse_iterator(begin()); }
  size_type size() const { return N; } bool empty() const { return N == 0; }
  T & operator[](size_type i) { return data()[i]; } T const & operator[](size_type i) const { return data()[i]; }
  T & front() { return data()[0]; } T const & front() const { return data()[0]; } T & back() { return data()[N - 1]; } T const & back() const { return data()[N - 1]; }
  void push_back(T const & v) { push(v, &v); }
  template <typename P> void push(P * v, void const *) { eff_push(this, v); }
  template <typename P> void push(P const * v, void const *) { eff_push(this, v); }
  template <typename Q> void push(Q const &, void const * a) { eff_push(this, a); }
  void clear() { eff_clear(this); }
  void resize(size_type n) { eff_resize(this, n); }
  iterator erase(iterator p) { eff_erase(this, p.p); return p; }
  iterator erase(const_iterator p) { eff_erase(this, p.p); return iterator(const_cast<T *>(p.p)); }
};
template <int N> struct fz_tag {};
// Growable container with a fixed capacity.  Its length is an ordinary number, so that it folds when the code under
// analysis determines it; contents are unknown unless written.
extern "C" void eff_overflow(void const * container);
template <typename T, int CAP> struct Gr
{
  typedef T value_type; typedef T & reference; typedef T const & const_reference; typedef T * pointer; typedef T const * const_pointer;
  typedef std::size_t size_type; typedef std::ptrdiff_t difference_type;
  typedef FzIt<T, T &, T *> iterator; typedef FzIt<T, T const &, T const *> const_iterator;
  typedef std::reverse_iterator<iterator> reverse_iterator; typedef std::reverse_iterator<const_iterator> const_reverse_iterator;
  long n; T d[CAP];
  Gr() : n(0) {}
  Gr(size_type k, T const & v = T()) : n(0) { resize(k, v); }
  T * data() { return d; } T const * data() const { return d; }
  iterator begin() { return iterator(d); } iterator end() { return iterator(d + n); }
  const_iterator begin() const { return const_iterator(d); } const_iterator end() const { return const_iterator(d + n); }
  reverse_iterator rbegin() { return reverse_iterator(end()); } reverse_iterator rend() { return reverse_iterator(begin()); }
  const_reverse_iterator rbegin() const { return const_reverse_iterator(end()); } const_reverse_iterator rend() const { return const_reverse_iterator(begin()); }
  size_type size() const { return n; } bool empty() const { return n == 0; } size_type capacity() const { return CAP; } void reserve(size_type) {}
  T & operator[](size_type i) { return d[i]; } T const & operator[](size_type i) const { return d[i]; }
  T & at(size_type i) { return d[i]; } T const & at(size_type i) const { return d[i]; }
  T & front() { return d[0]; } T const & front() const { return d[0]; } T & back() { return d[n - 1]; } T const & back() const { return d[n - 1]; }
  void push_back(T const & v) { if (n >= CAP) eff_overflow(this); else { d[n] = v; ++n; } }
  void pop_back() { --n; }
  void clear() { n = 0; }
  void resize(size_type k, T const & v = T()) { if (k > CAP) eff_overflow(this); else { for (size_type i = 0; i < CAP; ++i) if (i >= (size_type)n && i < k) d[i] = v; n = k; } }
  void assign(size_type k, T const & v) { n = 0; resize(k, v); }
  iterator erase(iterator p) { long k = p.p - d; for (long i = 0; i + 1 < CAP; ++i) if (i >= k && i + 1 < n) d[i] = d[i + 1]; --n; return p; }
  iterator erase(const_iterator p) { return erase(iterator(d + (p.p - d))); }
  iterator erase(iterator a, iterator b) { long k = b.p - a.p; for (long i = 0; i < CAP; ++i) if (i >= a.p - d && i + k < n) d[i] = d[i + k]; n -= k; return a; }
  iterator insert(iterator p, T const & v) { if (n >= CAP) eff_overflow(this); else { long k = p.p - d; for (long i = CAP - 1; i > 0; --i) if (i > k && i <= n) d[i] = d[i - 1]; d[k] = v; ++n; } return p; }
  void swap(Gr & o) { Gr t(o); o = *this; *this = t; }
};
template <int CAP> struct gr_tag {};
namespace viennagrid { namespace result_of {
  template <typename T, int N> struct container<T, fz_tag<N> > { typedef Fz<T, N> type; };
  template <typename E, typename V, int N> struct accessor_container<E, V, fz_tag<N> > { typedef Fz<V, N> type; };
  template <typename T, int N> struct unpack< Fz<T, N> > { typedef base_id_unpack type; };
  template <typename T, int N> struct unpack< const Fz<T, N> > { typedef base_id_unpack type; };
  template <typename T, int N, typename A, typename U> struct accessor< Fz<T, N>, A, U > { typedef dense_container_accessor<Fz<T, N>, A, U> type; };
  template <typename T, int N, typename A, typename U> struct accessor< const Fz<T, N>, A, U > { typedef dense_container_accessor<const Fz<T, N>, A, U> type; };
  template <typename T, int N, typename A, typename U> struct field< Fz<T, N>, A, U > { typedef dense_container_field<Fz<T, N>, A, U> type; };
  template <typename T, int N, typename A, typename U> struct field< const Fz<T, N>, A, U > { typedef dense_container_field<const Fz<T, N>, A, U> type; };
  template <typename T, int N> struct container<T, gr_tag<N> > { typedef Gr<T, N> type; };
  template <typename E, typename V, int N> struct accessor_container<E, V, gr_tag<N> > { typedef Gr<V, N> type; };
  template <typename T, int N> struct unpack< Gr<T, N> > { typedef base_id_unpack type; };
  template <typename T, int N> struct unpack< const Gr<T, N> > { typedef base_id_unpack type; };
  template <typename T, int N, typename A, typename U> struct accessor< Gr<T, N>, A, U > { typedef dense_container_accessor<Gr<T, N>, A, U> type; };
  template <typename T, int N, typename A, typename U> struct accessor< const Gr<T, N>, A, U > { typedef dense_container_accessor<const Gr<T, N>, A, U> type; };
  template <typename T, int N, typename A, typename U> struct field< Gr<T, N>, A, U > { typedef dense_container_field<Gr<T, N>, A, U> type; };
  template <typename T, int N, typename A, typename U> struct field< const Gr<T, N>, A, U > { typedef dense_container_field<const Gr<T, N>, A, U> type; };
} }
namespace fz {
using namespace viennagrid;
template <int N, bool G> struct tag_ { typedef fz_tag<N> type; }; template <int N> struct tag_<N, true> { typedef gr_tag<N> type; };
// number of elements of each topological dimension: vertices, lines, faces, solids
template <int NV, int NL, int NF, int NC, int NB, bool G = false> struct Counts
{
  static const bool growable = G; // appendix containers
  static const int bound = NB; // handles per coboundary / neighbour view
  template <int D, int Y> struct at; template <int Y> struct at<0, Y> { static const int n = NV; }; template <int Y> struct at<1, Y> { static const int n = NL; };
  template <int Y> struct at<2, Y> { static const int n = NF; }; template <int Y> struct at<3, Y> { static const int n = NC; };
};
template <typename C, typename Host, typename B> struct bmap_
{ // map boundary tag -> fz_tag<count> / view tag
  static const int nb = C::template at<B::dim, 0>::n;
  typedef viennagrid::typelist<static_pair<B, typename tag_<nb, C::growable>::type>, typename bmap_<C, Host, typename B::facet_tag>::cont> cont;
  typedef viennagrid::typelist<static_pair<B, typename tag_<C::bound, C::growable>::type>, typename bmap_<C, Host, typename B::facet_tag>::view> view;
  static const int nh = C::template at<Host::dim, 0>::n;
  typedef viennagrid::typelist<static_pair<B, typename tag_<nh, C::growable>::type>, typename bmap_<C, Host, typename B::facet_tag>::ncont> ncont;
};
template <typename C, typename Host> struct bmap_<C, Host, null_type> { typedef null_type cont; typedef null_type view; typedef null_type ncont; };
template <typename C, typename E, typename PointT> struct elem_
{
  static const int n = C::template at<E::dim, 0>::n;
  typedef typename make_typemap<
    config::element_id_tag, smart_id_tag<int>,
    config::element_container_tag, handled_container_tag<fz_tag<n>, pointer_handle_tag>,
    config::element_boundary_storage_layout_tag, typename config::result_of::storage_layout_config<E, typename E::facet_tag>::type,
    config::element_appendix_type_tag, typename detail::IF<E::dim == 0, PointT, null_type>::type,
    config::coboundary_container_tag, typename bmap_<C, E, typename E::facet_tag>::cont,
    config::coboundary_view_container_tag, typename bmap_<C, E, typename E::facet_tag>::view,
    config::neighbor_container_tag, typename bmap_<C, E, typename E::facet_tag>::ncont,
    config::neighbor_view_container_tag, typename bmap_<C, E, typename E::facet_tag>::view,
    config::boundary_information_container_tag, typename tag_<n, C::growable>::type
  >::type type;
};
template <typename C, typename E, typename PointT> struct topo_ { typedef typelist<static_pair<E, typename elem_<C, E, PointT>::type>, typename topo_<C, typename E::facet_tag, PointT>::type> type; };
template <typename C, typename PointT> struct topo_<C, null_type, PointT> { typedef null_type type; };
template <typename CellTag, typename PointT, typename C> struct wrapped { typedef typename topo_<C, CellTag, PointT>::type type; };
template <typename CellTag, typename PointT, int NV, int NL, int NF, int NC, int NB = 2> struct M { typedef viennagrid::mesh<wrapped<CellTag, PointT, Counts<NV, NL, NF, NC, NB> > > type; };
template <typename CellTag, typename PointT, int NV, int NL, int NF, int NC, int NB = 2> struct W { typedef viennagrid::mesh<wrapped<CellTag, PointT, Counts<NV, NL, NF, NC, NB, true> > > type; };
template <typename E, typename MeshT> E * arr(MeshT & m) { return viennagrid::get<E>(m.element_collection()).data(); }
}
#endif
