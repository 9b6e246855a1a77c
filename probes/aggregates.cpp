#define private public
#define protected public
#include "pt.hpp"
#include "frozen.hpp"
#include "viennagrid/algorithm/volume.hpp"
#include "viennagrid/algorithm/centroid.hpp"
#include "viennagrid/algorithm/surface.hpp"
#include "viennagrid/algorithm/boundary.hpp"
#include "viennagrid/algorithm/geometry.hpp"
#include "viennagrid/algorithm/geometric_transform.hpp"
#include <limits>
using namespace viennagrid;
extern "C" double pure_coord(void const * vertex, int k);
template <typename Cell, typename P, int NV, int NL, int NF, int NC, int NH> struct K
{
  typedef typename fz::M<Cell, P, NV, NL, NF, NC>::type Mesh;
  typedef typename result_of::element<Mesh, Cell>::type E;
  typedef typename result_of::element<Mesh, vertex_tag>::type VT;
  typedef typename result_of::element<Mesh, typename Cell::facet_tag>::type F;
  // a segment: views with NH handles of each kind
  typedef typename result_of::mesh_view_from_typelist<Mesh, typename viennagrid::detail::result_of::key_typelist<typename result_of::element_collection<Mesh>::type::typemap>::type,
    typename make_typemap<default_tag, fz_tag<NH> >::type>::type View;
  typedef typename result_of::segmentation<Mesh, View>::type Segmentation;
  typedef typename Segmentation::segment_handle_type Seg;
  static Mesh & m(void * p) { return *static_cast<Mesh *>(p); }
  static Seg & s(void * p) { return *static_cast<Seg *>(p); }
  static E & c(void * p, int i) { return fz::arr<E>(m(p))[i]; }
  static VT & v(void * p, int i) { return fz::arr<VT>(m(p))[i]; }
  static E & sc(void * p, int i) { return *viennagrid::get<E>(s(p).segment_->view.element_container_collection).handle_container[i]; }
  static VT & sv(void * p, int i) { return *viennagrid::get<VT>(s(p).segment_->view.element_container_collection).handle_container[i]; }
  static V at(VT & q) { V r; for (int i = 0; i < P::dim; ++i) r.x[i] = q.appendix()[i]; return r; }
  static V ac(VT & q) { V r; for (int i = 0; i < P::dim; ++i) r.x[i] = pure_coord(&q, i); return r; }
  static V pt(E & e, int i) { return at(*e.container(dimension_tag<0>()).handle_at(i)); }
  static V pa(E & e, int i) { return ac(*e.container(dimension_tag<0>()).handle_at(i)); }
  struct Acc { typedef P value_type; typedef VT access_type; P operator()(VT const & v) const { P r; for (int i = 0; i < P::dim; ++i) r[i] = pure_coord(&v, i); return r; } };
  // accessor with its own storage: coordinates of vertex n live at base + n*dim
};
typedef K<triangle_tag, C2, 4, 5, 2, 0, 2> T2; typedef K<triangle_tag, C3, 3, 5, 3, 0, 1> T3; typedef K<quadrilateral_tag, C2, 6, 7, 2, 0, 2> Q2; typedef K<tetrahedron_tag, C3, 5, 9, 7, 2, 2> S3; typedef K<line_tag, C2, 3, 2, 0, 0, 2> L2; typedef K<hexahedron_tag, C3, 3, 4, 5, 1, 1> H3;
static V third(V a) { return V(a[0] / 3, a[1] / 3, a[2] / 3); }
static double vol(line_tag, V const * p) { return len(p[1] - p[0]); }
static double vol(triangle_tag, V const * p) { return len(cross(p[1] - p[0], p[2] - p[0])) / 2; }
static double vol(tetrahedron_tag, V const * p) { return std::fabs(dot(p[1] - p[0], cross(p[2] - p[0], p[3] - p[0])) / 6); }
static V cen(line_tag, V const * p) { return 0.5 * (p[0] + p[1]); }
static V cen(triangle_tag, V const * p) { return third(p[0] + p[1] + p[2]); }
static V cen(tetrahedron_tag, V const * p) { return 0.25 * (p[0] + p[1] + p[2] + p[3]); }
template <typename k, typename C> static void load(typename k::E & e, V * p) { for (int i = 0; i < boundary_elements<C, vertex_tag>::num; ++i) p[i] = k::pt(e, i); }
template <typename k, typename C> static void loada(typename k::E & e, V * p) { for (int i = 0; i < boundary_elements<C, vertex_tag>::num; ++i) p[i] = k::pa(e, i); }
//@ volume of a mesh and of a segment | viennagrid/algorithm/volume.hpp volume_mesh
#define VOL(n, k, C, N, NS) \
 X double P_vol_mesh_##n(void * m) { return volume(k::m(m)); } X double R_vol_mesh_##n(void * m) { double s = 0; for (int i = 0; i < N; ++i) { V p[8]; load<k, C>(k::c(m, i), p); s += vol(C(), p); } return s; } \
 X double P_vol_seg_##n(void * m) { return volume(k::s(m)); } X double R_vol_seg_##n(void * m) { double s = 0; for (int i = 0; i < NS; ++i) { V p[8]; load<k, C>(k::sc(m, i), p); s += vol(C(), p); } return s; }
VOL(tri, T2, triangle_tag, 2, 2)
VOL(tri3, T3, triangle_tag, 3, 1)
VOL(tet, S3, tetrahedron_tag, 2, 2)
VOL(line, L2, line_tag, 2, 2)
//@ centroid of a mesh and of a segment | viennagrid/algorithm/centroid.hpp centroid_mesh
#define CEN(n, k, C, N, NS, D) \
 X void P_cen_mesh_##n(void * m, Out o) { put(o, centroid(k::m(m), k::Acc())); } X void R_cen_mesh_##n(void * m, Out o) { V s; double w = 0; for (int i = 0; i < N; ++i) { V p[8]; loada<k, C>(k::c(m, i), p); double v = vol(C(), p); s = s + v * cen(C(), p); w += v; } putv<D>(o, V(s[0] / w, s[1] / w, s[2] / w)); } \
 X void P_cen_meshp_##n(void * m, Out o) { put(o, centroid(k::m(m), default_point_accessor(k::m(m)))); } X void R_cen_meshp_##n(void * m, Out o) { V s; double w = 0; for (int i = 0; i < N; ++i) { V p[8]; load<k, C>(k::c(m, i), p); double v = vol(C(), p); s = s + v * cen(C(), p); w += v; } putv<D>(o, V(s[0] / w, s[1] / w, s[2] / w)); } \
 X void P_cen_seg_##n(void * m, Out o) { put(o, centroid(k::s(m), k::Acc())); } X void R_cen_seg_##n(void * m, Out o) { V s; double w = 0; for (int i = 0; i < NS; ++i) { V p[8]; loada<k, C>(k::sc(m, i), p); double v = vol(C(), p); s = s + v * cen(C(), p); w += v; } putv<D>(o, V(s[0] / w, s[1] / w, s[2] / w)); }
CEN(tri, T2, triangle_tag, 2, 2, 2)
CEN(tri3, T3, triangle_tag, 3, 1, 3)
CEN(tet, S3, tetrahedron_tag, 2, 2, 3)
CEN(line, L2, line_tag, 2, 2, 2)
//@ bounding box and mesh size | viennagrid/algorithm/geometry.hpp bounding_box
static const double BIG = std::numeric_limits<double>::max();
static double mn(double a, double b) { return a < b ? a : b; } static double mx(double a, double b) { return a > b ? a : b; }
#define BB(n, k, N, NS, D) \
 X void P_bb_mesh_##n(void * m, Out a, Out b) { std::pair<C##D, C##D> r = bounding_box(k::m(m)); put(a, r.first); put(b, r.second); } \
 X void R_bb_mesh_##n(void * m, Out a, Out b) { for (int d = 0; d < D; ++d) { double l = BIG, h = -BIG; for (int i = 0; i < N; ++i) { l = mn(l, k::at(k::v(m, i))[d]); h = mx(h, k::at(k::v(m, i))[d]); } a[d] = l; b[d] = h; } } \
 X void P_bb_seg_##n(void * m, Out a, Out b) { std::pair<C##D, C##D> r = bounding_box(k::s(m)); put(a, r.first); put(b, r.second); } \
 X void R_bb_seg_##n(void * m, Out a, Out b) { for (int d = 0; d < D; ++d) { double l = BIG, h = -BIG; for (int i = 0; i < NS; ++i) { l = mn(l, k::at(k::sv(m, i))[d]); h = mx(h, k::at(k::sv(m, i))[d]); } a[d] = l; b[d] = h; } } \
 X double P_size_mesh_##n(void * m) { return mesh_size(k::m(m)); } \
 X double R_size_mesh_##n(void * m) { V e; for (int d = 0; d < D; ++d) { double l = BIG, h = -BIG; for (int i = 0; i < N; ++i) { l = mn(l, k::at(k::v(m, i))[d]); h = mx(h, k::at(k::v(m, i))[d]); } e.x[d] = h - l; } return len(e); }
BB(tri, L2, 3, 2, 2)
BB(tri3, T3, 3, 1, 3)
#define BBI(n, N) \
 X void P_bb_it##n(In x, Out a, Out b) { C2 p[N]; for (int i = 0; i < N; ++i) { p[i][0] = x[2 * i]; p[i][1] = x[2 * i + 1]; } std::pair<C2, C2> r = bounding_box(p + 0, p + N); put(a, r.first); put(b, r.second); } \
 X void R_bb_it##n(In x, Out a, Out b) { double q[2 * N]; for (int i = 0; i < 2 * N; ++i) q[i] = x[i]; for (int d = 0; d < 2; ++d) { double l = BIG, h = -BIG; for (int i = 0; i < N; ++i) { l = mn(l, q[2 * i + d]); h = mx(h, q[2 * i + d]); } a[d] = l; b[d] = h; } }
BBI(1, 1)
BBI(3, 3)
//@ geometric transformations | viennagrid/algorithm/geometric_transform.hpp geometric_transform
struct Fun { void const * tag; C2 operator()(C2 const & p) const { C2 r; r[0] = p[0] * p[1]; r[1] = p[0] - 2 * p[1]; return r; } };
struct FunD { template <typename P> P operator()(P const & p) const { P r; for (int i = 0; i < P::dim; ++i) r[i] = p[(i + 1) % P::dim] * p[0] + i; return r; } };
#define GT(n, k, N, D) \
 X void P_gt_##n(void * m) { geometric_transform(k::m(m), FunD()); } X void R_gt_##n(void * m) { for (int i = 0; i < N; ++i) { C##D & p = k::v(m, i).appendix(); C##D q = p; for (int d = 0; d < D; ++d) p[d] = q[(d + 1) % D] * q[0] + d; } } \
 X void P_sc_##n(void * m, double f) { scale(k::m(m), f); } X void R_sc_##n(void * m, double f) { for (int i = 0; i < N; ++i) { C##D & p = k::v(m, i).appendix(); for (int d = 0; d < D; ++d) p[d] = f * p[d]; } } \
 X void P_scc_##n(void * m, double f, In c) { scale(k::m(m), f, c##D(c)); } X void R_scc_##n(void * m, double f, In c) { V z = v##D(c); for (int i = 0; i < N; ++i) { C##D & p = k::v(m, i).appendix(); for (int d = 0; d < D; ++d) p[d] = f * (p[d] - z[d]) + z[d]; } } \
 X void P_af_##n(void * m, In a, In t) { double A[D * D]; for (int i = 0; i < D * D; ++i) A[i] = a[i]; affine_transform(k::m(m), A, c##D(t)); } \
 X void R_af_##n(void * m, In a, In t) { double A[D * D]; for (int i = 0; i < D * D; ++i) A[i] = a[i]; V T = v##D(t); for (int i = 0; i < N; ++i) { C##D & p = k::v(m, i).appendix(); C##D q = p; for (int d = 0; d < D; ++d) { double s = T[d]; for (int e = 0; e < D; ++e) s += A[d * D + e] * q[e]; p[d] = s; } } }
GT(l2, L2, 3, 2)
GT(t2, T2, 4, 2)
GT(t3, T3, 3, 3)
//@ orthogonalisation | viennagrid/algorithm/geometry.hpp orthogonalize_vector
X void P_orth1(In a, In b, Out o) { C3 q[1]; q[0] = c3(a); put(o, orthogonalize_vector(q + 0, q + 1, c3(b))); }
X void R_orth1(In a, In b, Out o) { V A = v3(a), B = v3(b); double s = dot(B, A) / dot(A, A); putv<3>(o, B - s * A); }
X void P_orth2(In a, In b, In c, Out o) { C3 q[2]; q[0] = c3(a); q[1] = c3(b); put(o, orthogonalize_vector(q + 0, q + 2, c3(c))); }
X void R_orth2(In a, In b, In c, Out o) { V A = v3(a), B = v3(b), W = v3(c); double s = dot(W, A) / dot(A, A); W = W - s * A; s = dot(W, B) / dot(B, B); putv<3>(o, W - s * B); }
