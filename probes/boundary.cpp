#include "conn.hpp"
template <typename MeshT, typename Tag> struct BI { typedef typename viennagrid::detail::result_of::lookup<typename viennagrid::detail::result_of::lookup<typename MeshT::appendix_type, boundary_information_collection_tag>::type, Tag>::type type; };
// o[i] = is facet i on the boundary (belongs to exactly one cell)
template <typename MeshT, typename S, typename T, int NS, int NT, int NK> struct Q
{
  typedef typename El<MeshT, S>::type ES; typedef typename El<MeshT, T>::type ET; typedef Wire<MeshT, S, T, NS, NT, NK> Wi; typedef Conn<NS, NT, NK> Co;
  static bool manifold(double const * x) { bool r = true; if (NT > 2) for (int i = 0; i < NS; ++i) { long n = 0; for (int e = 0; e < NT; ++e) n += Co::times(x, e, i); if (n > 2) r = false; } return r; }
  static void lib(double const * x, long mcc, long d, bool stale, long * o)
  {
    MeshT m; if (!Wi::go(m, x) || d == 0 || !manifold(x)) return;
    m.change_counter_ = mcc;
    typename BI<MeshT, S>::type & w = viennagrid::detail::boundary_information_collection<S>(m);
    w.change_counter = mcc + d;
    if (stale) { w.container.n = NS; for (int i = 0; i < NS; ++i) w.container.d[i] = true; }
    for (int i = 0; i < NS; ++i) o[i] = is_boundary(m, fz::arr<ES>(m)[i]);
    o[NS] = w.change_counter;
  }
  static void ref(double const * x, long mcc, long d, long * o)
  {
    if (!Co::ok(x) || d == 0 || !manifold(x)) return;
    for (int i = 0; i < NS; ++i) { long n = 0; for (int e = 0; e < NT; ++e) n += Co::times(x, e, i); o[i] = n == 1; }
    o[NS] = mcc;
  }
};
// the same on a view that holds the cells with y[e] > 0
template <typename MeshT, typename S, typename T, int NS, int NT, int NK> struct QV
{
  typedef typename El<MeshT, S>::type ES; typedef Wire<MeshT, S, T, NS, NT, NK> Wi; typedef Conn<NS, NT, NK> Co; typedef typename ViewOf<MeshT>::type ViewT;
  static void lib(double const * x, double const * y, long mcc, long d, bool stale, long * o)
  {
    MeshT m; if (!Wi::go(m, x) || d == 0) return;
    ViewT v = viennagrid::make_view(m); Fill<MeshT, ViewT, S>::all(m, v); for (int e = 0; e < NT; ++e) if (y[e] > 0) Fill<MeshT, ViewT, T>::add(m, v, e);
    m.change_counter_ = mcc + d; v.change_counter_ = mcc;
    typename BI<ViewT, S>::type & w = viennagrid::detail::boundary_information_collection<S>(v);
    w.change_counter = mcc + d; viennagrid::detail::boundary_information_collection<S>(m).change_counter = mcc;
    if (stale) { w.container.n = NS; for (int i = 0; i < NS; ++i) w.container.d[i] = true; }
    for (int i = 0; i < NS; ++i) o[i] = is_boundary(v, fz::arr<ES>(m)[i]);
    o[NS] = w.change_counter;
  }
  static void ref(double const * x, double const * y, long mcc, long d, long * o)
  {
    if (!Co::ok(x) || d == 0) return;
    for (int i = 0; i < NS; ++i) { long n = 0; for (int e = 0; e < NT; ++e) if (y[e] > 0) n += Co::times(x, e, i); o[i] = n == 1; }
    o[NS] = mcc;
  }
};
// a cache that is up to date is used as it is
template <typename MeshT, typename S, typename T, int NS, int NT, int NK> struct QF
{
  typedef typename El<MeshT, S>::type ES;
  static void lib(double const * x, bool const * y, long mcc, long * o)
  {
    MeshT m; Wire<MeshT, S, T, NS, NT, NK>::go(m, x); m.change_counter_ = mcc;
    typename BI<MeshT, S>::type & w = viennagrid::detail::boundary_information_collection<S>(m);
    w.change_counter = mcc; w.container.n = NS; for (int i = 0; i < NS; ++i) w.container.d[i] = y[i];
    for (int i = 0; i < NS; ++i) o[i] = is_boundary(m, fz::arr<ES>(m)[i]);
    o[NS] = w.change_counter;
  }
  static void ref(double const *, bool const * y, long mcc, long * o) { for (int i = 0; i < NS; ++i) o[i] = y[i]; o[NS] = mcc; }
};
// elements of tag S below the facets: o[i] = lies on a boundary facet.  Two cells; the first has facets 0..NK-1, the second shares one of
// facets 0..2 and has facets of its own; the handles of facets 0..2 are unknown, those of the others point to the last element.
template <typename MeshT, typename S, typename F, typename T, int NS, int NK, int NFK> struct Low
{
  typedef typename El<MeshT, S>::type ES; typedef typename El<MeshT, F>::type EF; typedef typename El<MeshT, T>::type ET; static const int NF = 2 * NK - 1;
  static void lib(double const * x, double sh, long mcc, long d, bool stale, long * o)
  {
    if (d == 0) return;
    MeshT m; ES * s = fz::arr<ES>(m); EF * f = fz::arr<EF>(m); ET * t = fz::arr<ET>(m);
    Init<MeshT, T>::go(m);
    for (int k = 0; k < NK; ++k) { t[0].container(viennagrid::dimension_tag<F::dim>()).set_handle(f + k, k); t[1].container(viennagrid::dimension_tag<F::dim>()).set_handle(k == 0 ? pick3(f, sh) : f + (NK + k - 1), k); }
    for (int i = 0; i < NF; ++i) for (int k = 0; k < NFK; ++k) f[i].container(viennagrid::dimension_tag<S::dim>()).set_handle(i < 3 ? pick3(s, x[i * NFK + k]) : s + (NS - 1), k);
    m.change_counter_ = mcc;
    typename BI<MeshT, S>::type & w = viennagrid::detail::boundary_information_collection<S>(m);
    w.change_counter = mcc + d; viennagrid::detail::boundary_information_collection<F>(m).change_counter = mcc + d;
    if (stale) { w.container.n = NS; for (int i = 0; i < NS; ++i) w.container.d[i] = true; }
    for (int i = 0; i < NS; ++i) o[i] = is_boundary(m, s[i]);
    o[NS] = w.change_counter;
  }
  static void ref(double const * x, double sh, long mcc, long d, long * o)
  {
    if (d == 0) return;
    for (int i = 0; i < NS; ++i) { long b = 0; for (int g = 0; g < NF; ++g) { bool bf = pick3i(sh) != g, on = false; for (int k = 0; k < NFK; ++k) if ((g < 3 ? pick3i(x[g * NFK + k]) : NS - 1) == i) on = true; if (bf && on) b = 1; } o[i] = b; }
    o[NS] = mcc;
  }
};
typedef fz::W<line_tag, C1, 4, 3, 1, 1, 6>::type Lin;
typedef fz::W<triangle_tag, C2, 4, 5, 2, 1, 6>::type Tri;
typedef fz::W<quadrilateral_tag, C2, 4, 7, 2, 1, 6>::type Qua;
typedef fz::W<tetrahedron_tag, C3, 4, 4, 7, 2, 6>::type Tet;
#define BF_(N, ST, ...) X void P_##N(double const * x, long mcc, long d, long * o) { Q<__VA_ARGS__>::lib(x, mcc, d, ST, o); } X void R_##N(double const * x, long mcc, long d, long * o) { Q<__VA_ARGS__>::ref(x, mcc, d, o); }
#define BF(N, ...) BF_(N, false, __VA_ARGS__) BF_(N##_stale, true, __VA_ARGS__)
#define BL_(N, ST, ...) X void P_##N(double const * x, double sh, long mcc, long d, long * o) { Low<__VA_ARGS__>::lib(x, sh, mcc, d, ST, o); } X void R_##N(double const * x, double sh, long mcc, long d, long * o) { Low<__VA_ARGS__>::ref(x, sh, mcc, d, o); }
#define BL(N, ...) BL_(N, false, __VA_ARGS__) BL_(N##_stale, true, __VA_ARGS__)
//@ facets | is_boundary, detail::detect_boundary (viennagrid/algorithm/boundary.hpp)
BF(bnd_line, Lin, vertex_tag, line_tag, 4, 3, 2)
BF(bnd_tri, Tri, line_tag, triangle_tag, 5, 2, 3)
BF(bnd_quad, Qua, line_tag, quadrilateral_tag, 7, 2, 4)
BF(bnd_tet, Tet, triangle_tag, tetrahedron_tag, 7, 2, 4)
//@ below facets | is_boundary, detail::transfer_boundary_information (viennagrid/algorithm/boundary.hpp)
BL(bnd_tri_v, Tri, vertex_tag, line_tag, triangle_tag, 4, 3, 2)
BL(bnd_quad_v, Qua, vertex_tag, line_tag, quadrilateral_tag, 4, 4, 2)
BL(bnd_tet_v, Tet, vertex_tag, triangle_tag, tetrahedron_tag, 4, 4, 3)
BL(bnd_tet_line, Tet, line_tag, triangle_tag, tetrahedron_tag, 4, 4, 3)
//@ views | is_boundary of a segment (viennagrid/algorithm/boundary.hpp)
#define BV_(N, ST, ...) X void P_##N(double const * x, double const * y, long mcc, long d, long * o) { QV<__VA_ARGS__>::lib(x, y, mcc, d, ST, o); } X void R_##N(double const * x, double const * y, long mcc, long d, long * o) { QV<__VA_ARGS__>::ref(x, y, mcc, d, o); }
#define BV(N, ...) BV_(N, false, __VA_ARGS__) BV_(N##_stale, true, __VA_ARGS__)
BV(bndv_tri, Tri, line_tag, triangle_tag, 5, 2, 3)
BV(bndv_tet, Tet, triangle_tag, tetrahedron_tag, 7, 2, 4)
//@ up to date cache | is_boundary (viennagrid/algorithm/boundary.hpp)
#define BC(N, ...) X void P_##N(double const * x, bool const * y, long mcc, long * o) { QF<__VA_ARGS__>::lib(x, y, mcc, o); } X void R_##N(double const * x, bool const * y, long mcc, long * o) { QF<__VA_ARGS__>::ref(x, y, mcc, o); }
BC(bndc_tri, Tri, line_tag, triangle_tag, 5, 2, 3)
BC(bndc_tet, Tet, triangle_tag, tetrahedron_tag, 7, 2, 4)
