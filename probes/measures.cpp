#include "pt.hpp"
#include "frozen.hpp"
#include "viennagrid/algorithm/volume.hpp"
#include "viennagrid/algorithm/centroid.hpp"
#include "viennagrid/algorithm/circumcenter.hpp"
#include "viennagrid/algorithm/surface.hpp"
#include "viennagrid/algorithm/geometry.hpp"
#include <stdexcept>
using namespace viennagrid;
extern "C" double pure_coord(void const * vertex, int k);
// one cell whose vertex (and facet) handles are arbitrary
template <typename Cell, typename P> struct K
{
  typedef typename fz::M<Cell, P, 8, 12, 6, 1>::type Mesh;
  typedef typename result_of::element<Mesh, Cell>::type E;
  typedef typename result_of::element<Mesh, vertex_tag>::type VT;
  typedef typename result_of::element<Mesh, typename Cell::facet_tag>::type F;
  static E & e(void * p) { return *static_cast<E *>(p); }
  // library-independent access
  static VT * v(void * p, int i) { return e(p).container(dimension_tag<0>()).handle_at(i); }
  static VT * fv(F * f, int i) { return f->container(dimension_tag<0>()).handle_at(i); }
  static F * f(void * p, int i) { return e(p).container(dimension_tag<Cell::dim - 1>()).handle_at(i); }
  static V at(VT * q) { V r; for (int i = 0; i < P::dim; ++i) r.x[i] = q->appendix()[i]; return r; }
  static V pt(void * p, int i) { return at(v(p, i)); }
  static V ac(VT * q) { V r; for (int i = 0; i < P::dim; ++i) r.x[i] = pure_coord(q, i); return r; }
  static V pa(void * p, int i) { return ac(v(p, i)); }
};
// point accessor unrelated to the stored points
template <typename Cell, typename P> struct Acc
{
  typedef P value_type; typedef typename K<Cell, P>::VT access_type;
  P operator()(access_type const & v) const { P r; for (int i = 0; i < P::dim; ++i) r[i] = pure_coord(&v, i); return r; }
};
static double tri(V a, V b, V c) { return len(cross(b - a, c - a)) / 2; }
static double tet(V a, V b, V c, V d) { return std::fabs(dot(b - a, cross(c - a, d - a)) / 6); }
#define L(f) K<line_tag, f>
#define FN(name, C, P, lib, D, ref) \
 X void P_##name(void * e, Out o) { put(o, lib(K<C, P>::e(e))); } X void R_##name(void * e, Out o) { typedef K<C, P> k; V p[8]; for (int i = 0; i < boundary_elements<C, vertex_tag>::num; ++i) p[i] = k::pt(e, i); putv<D>(o, ref); } \
 X void P_##name##_acc(void * e, Out o) { put(o, lib(Acc<C, P>(), K<C, P>::e(e))); } X void R_##name##_acc(void * e, Out o) { typedef K<C, P> k; V p[8]; for (int i = 0; i < boundary_elements<C, vertex_tag>::num; ++i) p[i] = k::pa(e, i); putv<D>(o, ref); }
#define FNS(name, C, P, lib, ref) \
 X double P_##name(void * e) { return lib(K<C, P>::e(e)); } X double R_##name(void * e) { typedef K<C, P> k; V p[8]; for (int i = 0; i < boundary_elements<C, vertex_tag>::num; ++i) p[i] = k::pt(e, i); return ref; } \
 X double P_##name##_acc(void * e) { return lib(Acc<C, P>(), K<C, P>::e(e)); } X double R_##name##_acc(void * e) { typedef K<C, P> k; V p[8]; for (int i = 0; i < boundary_elements<C, vertex_tag>::num; ++i) p[i] = k::pa(e, i); return ref; }
#define ALT(name, C, P, ref) \
 X double R_##name(void * e) { typedef K<C, P> k; V p[8]; for (int i = 0; i < boundary_elements<C, vertex_tag>::num; ++i) p[i] = k::pt(e, i); return ref; }
#define ALTA(name, C, P, ref) \
 X double R_##name(void * e) { typedef K<C, P> k; V p[8]; for (int i = 0; i < boundary_elements<C, vertex_tag>::num; ++i) p[i] = k::pa(e, i); return ref; }
//@ volume of lines and triangles | viennagrid/algorithm/volume.hpp volume_impl
FNS(vol_line1, line_tag, C1, volume, len(p[1] - p[0]))
FNS(vol_line2, line_tag, C2, volume, len(p[1] - p[0]))
FNS(vol_line3, line_tag, C3, volume, len(p[1] - p[0]))
FNS(vol_tri2, triangle_tag, C2, volume, tri(p[0], p[1], p[2]))
FNS(vol_tri3, triangle_tag, C3, volume, tri(p[0], p[1], p[2]))
//@ volume of quadrilaterals | viennagrid/algorithm/volume.hpp volume_impl(quadrilateral_tag)
#define Q1 tri(p[0], p[1], p[3]) + tri(p[0], p[3], p[2])
#define Q2 tri(p[0], p[1], p[2]) + tri(p[1], p[3], p[2])
FNS(vol_quad2, quadrilateral_tag, C2, volume, Q1)
FNS(vol_quad3, quadrilateral_tag, C3, volume, Q1)
ALT(vol_quad2__alt, quadrilateral_tag, C2, Q2)
ALTA(vol_quad2_acc__alt, quadrilateral_tag, C2, Q2)
ALT(vol_quad3__alt, quadrilateral_tag, C3, Q2)
ALTA(vol_quad3_acc__alt, quadrilateral_tag, C3, Q2)
//@ volume of tetrahedra | viennagrid/algorithm/volume.hpp volume_impl(tetrahedron_tag)
FNS(vol_tet, tetrahedron_tag, C3, volume, tet(p[0], p[1], p[2], p[3]))
//@ volume of hexahedra | viennagrid/algorithm/volume.hpp volume_impl(hexahedron_tag)
FNS(vol_hex, hexahedron_tag, C3, volume, tet(p[0], p[1], p[2], p[4]) + tet(p[4], p[1], p[2], p[6]) + tet(p[4], p[1], p[6], p[5]) + tet(p[1], p[3], p[2], p[6]) + tet(p[1], p[3], p[6], p[5]) + tet(p[5], p[3], p[6], p[7]))
//@ volume of a vertex | viennagrid/algorithm/volume.hpp volume_impl(vertex_tag)
X double P_vol_vertex(void * e) { return volume(*static_cast<K<triangle_tag, C2>::VT *>(e)); } X double R_vol_vertex(void *) { return 1; }
//@ centroids | viennagrid/algorithm/centroid.hpp centroid
#define MEAN2 0.5 * (p[0] + p[1])
#define MEAN3 (1.0 / 3) * (p[0] + p[1] + p[2])
#define MEAN4 0.25 * (p[0] + p[1] + p[2] + p[3])
#define MEAN8 0.125 * (p[0] + p[1] + p[2] + p[3] + p[4] + p[5] + p[6] + p[7])
#define THIRD(x) V((x)[0] / 3, (x)[1] / 3, (x)[2] / 3)
FN(cen_line2, line_tag, C2, centroid, 2, MEAN2)
FN(cen_line3, line_tag, C3, centroid, 3, MEAN2)
FN(cen_tri2, triangle_tag, C2, centroid, 2, THIRD(p[0] + p[1] + p[2]))
FN(cen_tri3, triangle_tag, C3, centroid, 3, THIRD(p[0] + p[1] + p[2]))
FN(cen_quad2, quadrilateral_tag, C2, centroid, 2, MEAN4)
FN(cen_quad3, quadrilateral_tag, C3, centroid, 3, MEAN4)
FN(cen_tet, tetrahedron_tag, C3, centroid, 3, MEAN4)
FN(cen_hex, hexahedron_tag, C3, centroid, 3, MEAN8)
//@ circumcenters of lines and hypercubes | viennagrid/algorithm/circumcenter.hpp circumcenter
FN(cc_line1, line_tag, C1, circumcenter, 1, MEAN2)
FN(cc_line2, line_tag, C2, circumcenter, 2, MEAN2)
FN(cc_line3, line_tag, C3, circumcenter, 3, MEAN2)
FN(cc_quad2, quadrilateral_tag, C2, circumcenter, 2, MEAN4)
FN(cc_quad3, quadrilateral_tag, C3, circumcenter, 3, MEAN4)
FN(cc_hex, hexahedron_tag, C3, circumcenter, 3, MEAN8)
// circumcenter of a,b,c in the plane spanned by them (barycentric weights)
static V circ2(V a, V b, V c) { double d = 2 * cross(b - a, c - a)[2]; V B = b - a, C = c - a; double bb = dot(B, B), ccc = dot(C, C); return V(a[0] + (C[1] * bb - B[1] * ccc) / d, a[1] + (B[0] * ccc - C[0] * bb) / d); }
static V circ3(V a, V b, V c)
{
  V B = b - a, C = c - a, n = cross(B, C); double d = 2 * dot(n, n); V w = dot(B, B) * cross(C, n) + dot(C, C) * cross(n, B);
  return V(a[0] + w[0] / d, a[1] + w[1] / d, a[2] + w[2] / d);
}
static V circ4(V o, V a, V b, V c)
{
  V A = a - o, B = b - o, C = c - o, n = cross(B, C); double d = dot(A, n);
  if (std::fabs(d) < 1e-10 * len(n)) throw std::runtime_error("near singularity");
  V w = dot(C, C) * cross(A, B) + dot(B, B) * cross(C, A) + dot(A, A) * n;
  return V(o[0] + w[0] / (2 * d), o[1] + w[1] / (2 * d), o[2] + w[2] / (2 * d));
}
//@ circumcenters of triangles | viennagrid/algorithm/circumcenter.hpp circumcenter(triangle_tag)
FN(cc_tri2, triangle_tag, C2, circumcenter, 2, circ2(p[0], p[1], p[2]))
FN(cc_tri3, triangle_tag, C3, circumcenter, 3, circ3(p[0], p[1], p[2]))
//@ circumcenters of tetrahedra | viennagrid/algorithm/circumcenter.hpp circumcenter(tetrahedron_tag)
FN(cc_tet, tetrahedron_tag, C3, circumcenter, 3, circ4(p[0], p[1], p[2], p[3]))
//@ normal vectors | viennagrid/algorithm/geometry.hpp normal_vector_impl
FN(normal_line, line_tag, C2, normal_vector, 2, V(p[0][1] - p[1][1], p[1][0] - p[0][0]))
FN(normal_tri, triangle_tag, C3, normal_vector, 3, cross(p[1] - p[0], p[2] - p[0]))
FN(normal_quad, quadrilateral_tag, C3, normal_vector, 3, cross(p[1] - p[0], p[2] - p[0]))
//@ surface of elements | viennagrid/algorithm/surface.hpp surface
#define SURF(name, C, P, NFAC, expr) \
 X double P_##name(void * e) { return surface(K<C, P>::e(e)); } X double R_##name(void * e) { typedef K<C, P> k; double s = 0; for (int j = 0; j < NFAC; ++j) { k::F * f = k::f(e, j); V p[4]; for (int i = 0; i < boundary_elements<C::facet_tag, vertex_tag>::num; ++i) p[i] = k::at(k::fv(f, i)); s += expr; } return s; } \
 X double P_##name##_acc(void * e) { return surface(Acc<C, P>(), K<C, P>::e(e)); } X double R_##name##_acc(void * e) { typedef K<C, P> k; double s = 0; for (int j = 0; j < NFAC; ++j) { k::F * f = k::f(e, j); V p[4]; for (int i = 0; i < boundary_elements<C::facet_tag, vertex_tag>::num; ++i) p[i] = k::ac(k::fv(f, i)); s += expr; } return s; }
#define SALT(name, C, P, NFAC, expr) \
 X double R_##name##__alt(void * e) { typedef K<C, P> k; double s = 0; for (int j = 0; j < NFAC; ++j) { k::F * f = k::f(e, j); V p[4]; for (int i = 0; i < boundary_elements<C::facet_tag, vertex_tag>::num; ++i) p[i] = k::at(k::fv(f, i)); s += expr; } return s; } \
 X double R_##name##_acc__alt(void * e) { typedef K<C, P> k; double s = 0; for (int j = 0; j < NFAC; ++j) { k::F * f = k::f(e, j); V p[4]; for (int i = 0; i < boundary_elements<C::facet_tag, vertex_tag>::num; ++i) p[i] = k::ac(k::fv(f, i)); s += expr; } return s; }
SURF(surf_tri2, triangle_tag, C2, 3, len(p[1] - p[0]))
SURF(surf_tri3, triangle_tag, C3, 3, len(p[1] - p[0]))
SURF(surf_quad2, quadrilateral_tag, C2, 4, len(p[1] - p[0]))
SURF(surf_tet, tetrahedron_tag, C3, 4, tri(p[0], p[1], p[2]))
SURF(surf_hex, hexahedron_tag, C3, 6, Q1)
SALT(surf_hex, hexahedron_tag, C3, 6, Q2)
