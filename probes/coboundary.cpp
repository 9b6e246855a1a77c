#include "conn.hpp"
// o[i * (NT + 1)] = size of the coboundary range of element i, o[i * (NT + 1) + 1 + e] = how often it holds element e
template <typename MeshT, typename S, typename T, int NS, int NT, int NK, bool C> struct Q
{
  typedef typename El<MeshT, S>::type ES; typedef typename El<MeshT, T>::type ET; typedef Wire<MeshT, S, T, NS, NT, NK> Wi;
  template <typename MM, typename R> static void query(MM & m, long * o)
  {
    ES * s = fz::arr<ES>(const_cast<MeshT &>(m)); ET * t = fz::arr<ET>(const_cast<MeshT &>(m));
    for (int i = 0; i < NS; ++i)
    {
      R r(m, &s[i]); long c[NT] = {0};
      for (typename viennagrid::result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it) for (int k = 0; k < NT; ++k) c[k] += (&*it == &t[k]);
      o[i * (NT + 1)] = r.size(); for (int k = 0; k < NT; ++k) o[i * (NT + 1) + 1 + k] = c[k];
    }
  }
  // mesh counter differs from the cache's: the answer is recomputed; stale: the cache holds old entries
  static void lib(double const * x, long mcc, long d, bool stale, long * o)
  {
    MeshT m; if (!Wi::go(m, x) || d == 0) return;
    m.change_counter_ = mcc;
    typename viennagrid::detail::result_of::lookup<typename viennagrid::detail::result_of::lookup<typename MeshT::appendix_type, coboundary_collection_tag>::type, static_pair<S, T> >::type & w = viennagrid::detail::coboundary_collection<S, T>(m);
    w.change_counter = mcc + d;
    if (stale) { w.container.n = NS; for (int i = 0; i < NS; ++i) { w.container.d[i].handle_container.n = 1; w.container.d[i].handle_container.d[0] = fz::arr<ET>(m) + (NT - 1); } }
    if (C) query<MeshT const, typename viennagrid::result_of::const_coboundary_range<MeshT, S, T>::type>(m, o);
    else query<MeshT, typename viennagrid::result_of::coboundary_range<MeshT, S, T>::type>(m, o);
    o[NS * (NT + 1)] = w.change_counter;
  }
  static void ref(double const * x, long mcc, long d, long * o)
  {
    bool ok = d != 0 && Conn<NS, NT, NK>::ok(x);
    if (!ok) return;
    for (int i = 0; i < NS; ++i)
    {
      long n = 0; for (int e = 0; e < NT; ++e) { long c = Conn<NS, NT, NK>::times(x, e, i); o[i * (NT + 1) + 1 + e] = c; n += c; }
      o[i * (NT + 1)] = n;
    }
    o[NS * (NT + 1)] = mcc;
  }
};
// the same on a view that holds the elements of tag T with y[e] > 0 (the mesh's own cache is up to date and empty)
template <typename MeshT, typename S, typename T, int NS, int NT, int NK, bool C> struct QV
{
  typedef typename ViewOf<MeshT>::type ViewT; typedef typename El<MeshT, S>::type ES; typedef typename El<MeshT, T>::type ET; typedef Conn<NS, NT, NK> Co;
  template <typename VV, typename R> static void query(VV & v, ES * s, ET * t, long * o)
  {
    for (int i = 0; i < NS; ++i)
    {
      R r(v, &s[i]); long c[NT] = {0};
      for (typename viennagrid::result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it) for (int k = 0; k < NT; ++k) c[k] += (&*it == &t[k]);
      o[i * (NT + 1)] = r.size(); for (int k = 0; k < NT; ++k) o[i * (NT + 1) + 1 + k] = c[k];
    }
  }
  static void lib(double const * x, double const * y, long mcc, long d, bool stale, long * o)
  {
    MeshT m; if (!Wire<MeshT, S, T, NS, NT, NK>::go(m, x) || d == 0) return;
    ViewT v = viennagrid::make_view(m); Fill<MeshT, ViewT, S>::all(m, v); for (int e = 0; e < NT; ++e) if (y[e] > 0) Fill<MeshT, ViewT, T>::add(m, v, e);
    m.change_counter_ = mcc + d; v.change_counter_ = mcc;
    typename viennagrid::detail::result_of::lookup<typename viennagrid::detail::result_of::lookup<typename ViewT::appendix_type, coboundary_collection_tag>::type, static_pair<S, T> >::type & w = viennagrid::detail::coboundary_collection<S, T>(v);
    w.change_counter = mcc + d; viennagrid::detail::coboundary_collection<S, T>(m).change_counter = mcc;
    if (stale) { w.container.n = NS; for (int i = 0; i < NS; ++i) { w.container.d[i].handle_container.n = 1; w.container.d[i].handle_container.d[0] = fz::arr<ET>(m) + (NT - 1); } }
    if (C) query<ViewT const, typename viennagrid::result_of::const_coboundary_range<ViewT, S, T>::type>(v, fz::arr<ES>(m), fz::arr<ET>(m), o);
    else query<ViewT, typename viennagrid::result_of::coboundary_range<ViewT, S, T>::type>(v, fz::arr<ES>(m), fz::arr<ET>(m), o);
    o[NS * (NT + 1)] = w.change_counter;
  }
  static void ref(double const * x, double const * y, long mcc, long d, long * o)
  {
    if (!Co::ok(x) || d == 0) return;
    for (int i = 0; i < NS; ++i) { long n = 0; for (int e = 0; e < NT; ++e) { long c = y[e] > 0 ? Co::times(x, e, i) : 0; o[i * (NT + 1) + 1 + e] = c; n += c; } o[i * (NT + 1)] = n; }
    o[NS * (NT + 1)] = mcc;
  }
};
// a cache that is up to date is used as it is: it holds element b for every element, and nothing for element 0
template <typename MeshT, typename S, typename T, int NS, int NT, int NK> struct QF
{
  typedef typename El<MeshT, S>::type ES; typedef typename El<MeshT, T>::type ET;
  static void lib(double const * x, long mcc, long * o)
  {
    MeshT m; Wire<MeshT, S, T, NS, NT, NK>::go(m, x); m.change_counter_ = mcc;
    typename viennagrid::detail::result_of::lookup<typename viennagrid::detail::result_of::lookup<typename MeshT::appendix_type, coboundary_collection_tag>::type, static_pair<S, T> >::type & w = viennagrid::detail::coboundary_collection<S, T>(m);
    w.change_counter = mcc; w.container.n = NS; for (int i = 0; i < NS; ++i) { w.container.d[i].handle_container.n = i > 0; w.container.d[i].handle_container.d[0] = fz::arr<ET>(m) + (NT - 1); w.container.d[i].set_base_container(viennagrid::get<ET>(m.element_collection())); }
    for (int i = 0; i < NS; ++i)
    {
      typedef typename viennagrid::result_of::coboundary_range<MeshT, S, T>::type R; R r(m, fz::arr<ES>(m) + i); o[2 * i] = r.size(); o[2 * i + 1] = i > 0 ? &*r.begin() - fz::arr<ET>(m) : -1;
    }
    o[2 * NS] = w.change_counter;
  }
  static void ref(double const *, long mcc, long * o) { for (int i = 0; i < NS; ++i) { o[2 * i] = i > 0; o[2 * i + 1] = i > 0 ? NT - 1 : -1; } o[2 * NS] = mcc; }
};
typedef fz::W<line_tag, C1, 3, 3, 1, 1, 8>::type Lin;
typedef fz::W<triangle_tag, C2, 3, 3, 2, 1, 8>::type Tri;
typedef fz::W<quadrilateral_tag, C2, 3, 3, 2, 1, 8>::type Qua;
typedef fz::W<tetrahedron_tag, C3, 3, 3, 3, 2, 12>::type Tet;
typedef fz::W<tetrahedron_tag, C3, 3, 3, 2, 1, 12>::type Tet1;
typedef fz::W<hexahedron_tag, C3, 3, 3, 2, 1, 12>::type Hex2;
typedef fz::W<hexahedron_tag, C3, 3, 3, 3, 1, 12>::type Hex;
#define CB_(N, C, ST, M, S, T, NS, NT, NK) X void P_##N(double const * x, long mcc, long d, long * o) { Q<M, S, T, NS, NT, NK, C>::lib(x, mcc, d, ST, o); } X void R_##N(double const * x, long mcc, long d, long * o) { Q<M, S, T, NS, NT, NK, C>::ref(x, mcc, d, o); }
#define CB(N, ...) CB_(N, false, false, __VA_ARGS__) CB_(N##_stale, false, true, __VA_ARGS__) CB_(N##_const, true, true, __VA_ARGS__)
//@ coboundary | coboundary_elements (viennagrid/mesh/coboundary_iteration.hpp)
CB(cb_lin_v_line, Lin, vertex_tag, line_tag, 3, 3, 2)
CB(cb_tri_v_line, Tri, vertex_tag, line_tag, 3, 3, 2)
CB(cb_tri_v_tri, Tri, vertex_tag, triangle_tag, 3, 2, 3)
CB(cb_tri_line_tri, Tri, line_tag, triangle_tag, 3, 2, 3)
CB(cb_qua_v_qua, Qua, vertex_tag, quadrilateral_tag, 3, 2, 4)
CB(cb_qua_line_qua, Qua, line_tag, quadrilateral_tag, 3, 2, 4)
CB(cb_tet_v_line, Tet, vertex_tag, line_tag, 3, 3, 2)
CB(cb_tet_v_tri, Tet1, vertex_tag, triangle_tag, 3, 2, 3)
CB(cb_tet_line_tri, Tet1, line_tag, triangle_tag, 3, 2, 3)
CB(cb_tet_v_tet, Tet, vertex_tag, tetrahedron_tag, 3, 2, 4)
CB(cb_tet_tri_tet, Tet, triangle_tag, tetrahedron_tag, 3, 2, 4)
CB(cb_tet_line_tet, Tet1, line_tag, tetrahedron_tag, 3, 1, 6)
CB(cb_hex_v_hex, Hex, vertex_tag, hexahedron_tag, 3, 1, 8)
CB(cb_hex_line_quad, Hex2, line_tag, quadrilateral_tag, 3, 2, 4)
CB(cb_hex_quad_hex, Hex, quadrilateral_tag, hexahedron_tag, 3, 1, 6)
//@ coboundary in a view | coboundary_elements of a segment (viennagrid/mesh/coboundary_iteration.hpp)
#define CV_(N, C, ST, ...) X void P_##N(double const * x, double const * y, long mcc, long d, long * o) { QV<__VA_ARGS__, C>::lib(x, y, mcc, d, ST, o); } X void R_##N(double const * x, double const * y, long mcc, long d, long * o) { QV<__VA_ARGS__, C>::ref(x, y, mcc, d, o); }
#define CV(N, ...) CV_(N, false, false, __VA_ARGS__) CV_(N##_stale, false, true, __VA_ARGS__) CV_(N##_const, true, true, __VA_ARGS__)
CV(cbv_tri_v_tri, Tri, vertex_tag, triangle_tag, 3, 2, 3)
CV(cbv_tri_line_tri, Tri, line_tag, triangle_tag, 3, 2, 3)
CV(cbv_tet_tri_tet, Tet, triangle_tag, tetrahedron_tag, 3, 2, 4)
//@ coboundary up to date | coboundary_elements (viennagrid/mesh/coboundary_iteration.hpp)
#define CF(N, ...) X void P_##N(double const * x, long mcc, long * o) { QF<__VA_ARGS__>::lib(x, mcc, o); } X void R_##N(double const * x, long mcc, long * o) { QF<__VA_ARGS__>::ref(x, mcc, o); }
CF(cbf_tri_v_tri, Tri, vertex_tag, triangle_tag, 3, 2, 3)
CF(cbf_tet_tri_tet, Tet, triangle_tag, tetrahedron_tag, 3, 2, 4)
