#include "conn.hpp"
// o[i * (NT + 1)] = number of neighbours of element i, o[i * (NT + 1) + 1 + e] = how often element e is among them
template <typename MeshT, typename S, typename T, int NS, int NT, int NK, bool C> struct Q
{
  typedef typename El<MeshT, S>::type ES; typedef typename El<MeshT, T>::type ET; typedef Wire<MeshT, S, T, NS, NT, NK> Wi; typedef Conn<NS, NT, NK> Co;
  template <typename MM, typename R> static void query(MM & m, long * o)
  {
    ET * t = fz::arr<ET>(const_cast<MeshT &>(m));
    for (int i = 0; i < NT; ++i)
    {
      R r(m, &t[i]); long c[NT] = {0};
      for (typename viennagrid::result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it) for (int k = 0; k < NT; ++k) c[k] += (&*it == &t[k]);
      o[i * (NT + 1)] = r.size(); for (int k = 0; k < NT; ++k) o[i * (NT + 1) + 1 + k] = c[k];
    }
  }
  static void lib(double const * x, long mcc, long d, long d2, bool stale, long * o)
  {
    MeshT m; if (!Wi::go(m, x) || d == 0 || d2 == 0) return;
    m.change_counter_ = mcc;
    typename viennagrid::detail::result_of::lookup<typename viennagrid::detail::result_of::lookup<typename MeshT::appendix_type, neighbor_collection_tag>::type, static_pair<T, S> >::type & w = viennagrid::detail::neighbor_collection<T, S>(m);
    w.change_counter = mcc + d; viennagrid::detail::coboundary_collection<S, T>(m).change_counter = mcc + d2;
    if (stale) { w.container.n = NT; for (int i = 0; i < NT; ++i) { w.container.d[i].handle_container.n = 1; w.container.d[i].handle_container.d[0] = fz::arr<ET>(m) + (NT - 1); } }
    if (C) query<MeshT const, typename viennagrid::result_of::const_neighbor_range<MeshT, T, S>::type>(m, o);
    else query<MeshT, typename viennagrid::result_of::neighbor_range<MeshT, T, S>::type>(m, o);
    o[NT * (NT + 1)] = w.change_counter;
  }
  static void ref(double const * x, long mcc, long d, long d2, long * o)
  {
    if (!Co::ok(x) || d == 0 || d2 == 0) return;
    for (int i = 0; i < NT; ++i)
    {
      long n = 0; for (int e = 0; e < NT; ++e) { long c = 0; for (int s = 0; s < NS; ++s) if (e != i && Co::has(x, i, s) && Co::has(x, e, s)) c = 1; o[i * (NT + 1) + 1 + e] = c; n += c; }
      o[i * (NT + 1)] = n;
    }
    o[NT * (NT + 1)] = mcc;
  }
};
// the same on a view that holds the elements of tag T with y[e] > 0
template <typename MeshT, typename S, typename T, int NS, int NT, int NK> struct QV
{
  typedef typename ViewOf<MeshT>::type ViewT; typedef typename El<MeshT, S>::type ES; typedef typename El<MeshT, T>::type ET; typedef Conn<NS, NT, NK> Co;
  static void lib(double const * x, double const * y, long mcc, long d, long d2, bool stale, long * o)
  {
    MeshT m; if (!Wire<MeshT, S, T, NS, NT, NK>::go(m, x) || d == 0 || d2 == 0) return;
    ViewT v = viennagrid::make_view(m); Fill<MeshT, ViewT, S>::all(m, v); for (int e = 0; e < NT; ++e) if (y[e] > 0) Fill<MeshT, ViewT, T>::add(m, v, e);
    m.change_counter_ = mcc + d; v.change_counter_ = mcc;
    typename viennagrid::detail::result_of::lookup<typename viennagrid::detail::result_of::lookup<typename ViewT::appendix_type, neighbor_collection_tag>::type, static_pair<T, S> >::type & w = viennagrid::detail::neighbor_collection<T, S>(v);
    w.change_counter = mcc + d; viennagrid::detail::coboundary_collection<S, T>(v).change_counter = mcc + d2; viennagrid::detail::neighbor_collection<T, S>(m).change_counter = mcc + d; viennagrid::detail::coboundary_collection<S, T>(m).change_counter = mcc + d;
    if (stale) { w.container.n = NT; for (int i = 0; i < NT; ++i) { w.container.d[i].handle_container.n = 1; w.container.d[i].handle_container.d[0] = fz::arr<ET>(m) + (NT - 1); } }
    ET * t = fz::arr<ET>(m); typedef typename viennagrid::result_of::neighbor_range<ViewT, T, S>::type R;
    for (int i = 0; i < NT; ++i) if (y[i] > 0)
    {
      R r(v, &t[i]); long c[NT] = {0};
      for (typename viennagrid::result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it) for (int k = 0; k < NT; ++k) c[k] += (&*it == &t[k]);
      o[i * (NT + 1)] = r.size(); for (int k = 0; k < NT; ++k) o[i * (NT + 1) + 1 + k] = c[k];
    }
  }
  static void ref(double const * x, double const * y, long mcc, long d, long d2, long * o)
  {
    if (!Co::ok(x) || d == 0 || d2 == 0) return;
    for (int i = 0; i < NT; ++i) if (y[i] > 0)
    {
      long n = 0; for (int e = 0; e < NT; ++e) { long c = 0; for (int s = 0; s < NS; ++s) if (e != i && y[e] > 0 && Co::has(x, i, s) && Co::has(x, e, s)) c = 1; o[i * (NT + 1) + 1 + e] = c; n += c; }
      o[i * (NT + 1)] = n;
    }
  }
};
typedef fz::W<line_tag, C1, 4, 3, 1, 1, 6>::type Lin;
typedef fz::W<triangle_tag, C2, 5, 5, 2, 1, 6>::type Tri;
typedef fz::W<quadrilateral_tag, C2, 6, 6, 2, 1, 6>::type Qua;
typedef fz::W<tetrahedron_tag, C3, 6, 6, 6, 2, 6>::type Tet;
#define NB_(N, C, ST, M, S, T, NS, NT, NK) X void P_##N(double const * x, long mcc, long d, long d2, long * o) { Q<M, S, T, NS, NT, NK, C>::lib(x, mcc, d, d2, ST, o); } X void R_##N(double const * x, long mcc, long d, long d2, long * o) { Q<M, S, T, NS, NT, NK, C>::ref(x, mcc, d, d2, o); }
#define NB(N, ...) NB_(N, false, false, __VA_ARGS__) NB_(N##_stale, false, true, __VA_ARGS__) NB_(N##_const, true, true, __VA_ARGS__)
//@ neighbours | neighbor_elements (viennagrid/mesh/neighbor_iteration.hpp)
NB(nb_line_v, Lin, vertex_tag, line_tag, 4, 3, 2)
NB(nb_tri_v, Tri, vertex_tag, triangle_tag, 5, 2, 3)
NB(nb_tri_line, Tri, line_tag, triangle_tag, 5, 2, 3)
NB(nb_qua_line, Qua, line_tag, quadrilateral_tag, 6, 2, 4)
NB(nb_tet_v, Tet, vertex_tag, tetrahedron_tag, 6, 2, 4)
NB(nb_tet_tri, Tet, triangle_tag, tetrahedron_tag, 6, 2, 4)
//@ neighbours in a view | neighbor_elements of a segment (viennagrid/mesh/neighbor_iteration.hpp)
#define NV_(N, ST, ...) X void P_##N(double const * x, double const * y, long mcc, long d, long d2, long * o) { QV<__VA_ARGS__>::lib(x, y, mcc, d, d2, ST, o); } X void R_##N(double const * x, double const * y, long mcc, long d, long d2, long * o) { QV<__VA_ARGS__>::ref(x, y, mcc, d, d2, o); }
#define NVW(N, ...) NV_(N, false, __VA_ARGS__) NV_(N##_stale, true, __VA_ARGS__)
NVW(nbv_tri_line, Tri, line_tag, triangle_tag, 5, 2, 3)
NVW(nbv_tri_v, Tri, vertex_tag, triangle_tag, 5, 2, 3)
