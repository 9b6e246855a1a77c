#define private public
#define protected public
#include "pt.hpp"
#include "frozen.hpp"
#include "viennagrid/algorithm/closest_points.hpp"
#include "viennagrid/algorithm/distance.hpp"
#include "viennagrid/algorithm/inclusion.hpp"
#include <limits>
using namespace viennagrid;
extern "C" double pure_coord(void const * vertex, int k);
template <typename Cell, typename P, int NH = 2> struct K
{
  typedef typename fz::M<Cell, P, 8, NH + 1, NH + 1, NH + 1>::type Mesh;
  typedef typename result_of::element<Mesh, Cell>::type E;
  typedef typename result_of::element<Mesh, vertex_tag>::type VT;
  typedef typename result_of::element<Mesh, line_tag>::type LT;
  typedef typename result_of::element<Mesh, typename Cell::facet_tag>::type F;
  typedef typename result_of::mesh_view_from_typelist<Mesh, typename viennagrid::detail::result_of::key_typelist<typename result_of::element_collection<Mesh>::type::typemap>::type,
    typename make_typemap<default_tag, fz_tag<NH> >::type>::type View;
  typedef typename result_of::segmentation<Mesh, View>::type Segmentation; typedef typename Segmentation::segment_handle_type Seg;
  static Mesh & m(void * p) { return *static_cast<Mesh *>(p); } static Seg & s(void * p) { return *static_cast<Seg *>(p); } static E & e(void * p) { return *static_cast<E *>(p); }
  template <typename T> static T & mel(void * p, int i) { return fz::arr<T>(m(p))[i]; }
  template <typename T> static T & sel(void * p, int i) { return *viennagrid::get<T>(s(p).segment_->view.element_container_collection).handle_container[i]; }
  template <typename T> static V at(T & x, int i) { VT * q = x.container(dimension_tag<0>()).handle_at(i); V r; for (int k = 0; k < P::dim; ++k) r.x[k] = q->appendix()[k]; return r; }
  template <typename T> static V ac(T & x, int i) { VT * q = x.container(dimension_tag<0>()).handle_at(i); V r; for (int k = 0; k < P::dim; ++k) r.x[k] = pure_coord(q, k); return r; }
  struct Acc { typedef P value_type; typedef VT access_type; P operator()(VT const & v) const { P r; for (int i = 0; i < P::dim; ++i) r[i] = pure_coord(&v, i); return r; } };
};
template <typename P> static V toV(P const & p) { V r; for (int i = 0; i < P::dim; ++i) r.x[i] = p[i]; return r; }
template <typename P> static P mk(V const & v) { P r; for (int i = 0; i < P::dim; ++i) r[i] = v[i]; return r; }
static inline bool same(V const & a, V const & b) { return a[0] == b[0] && a[1] == b[1] && a[2] == b[2]; }
static V on_line(V p, V a, V b) { double t = dot(p - a, b - a) / dot(b - a, b - a); return a + (t < 0 ? 0.0 : t > 1 ? 1.0 : t) * (b - a); }
// admissible pairs: the answer is one of them, and none is shorter
struct Ps
{
  V a[6], b[6]; int n; Ps() : n(0) {} void add(V x, V y) { a[n] = x; b[n] = y; ++n; }
  bool is(V x, V y) const { bool is = false, le = true; double d = len(x - y); for (int i = 0; i < n; ++i) { if ((same(x, a[i]) && same(y, b[i])) || (same(x, b[i]) && same(y, a[i]))) is = true; if (len(a[i] - b[i]) < d) le = false; } return is && le; }
  bool is(double d) const { bool is = false, le = true; for (int i = 0; i < n; ++i) { if (len(a[i] - b[i]) == d) is = true; if (len(a[i] - b[i]) < d) le = false; } return is && le; }
  template <typename A, typename B> bool is(std::pair<A, B> const & r) const { return is(toV(r.first), toV(r.second)); }
};
// nested queries of the library, used through their own contract: same unknown function as the library's own calls
template <typename P> std::pair<P, P> ref_closest_points_point_triangle(P const &, P const &, P const &, P const &);
template <typename P> std::pair<P, P> ref_closest_points_point_tetrahedron(P const &, P const &, P const &, P const &, P const &);
template <typename P> std::pair<P, P> ref_closest_points_line_line(P const &, P const &, P const &, P const &);
template <typename P> static V otr(V p, V a, V b, V c) { return toV(ref_closest_points_point_triangle(mk<P>(p), mk<P>(a), mk<P>(b), mk<P>(c)).second); }
template <typename P> static V ote(V p, V a, V b, V c, V d) { return toV(ref_closest_points_point_tetrahedron(mk<P>(p), mk<P>(a), mk<P>(b), mk<P>(c), mk<P>(d)).second); }
template <typename R> static bool rline(R const & r, V p, V a, V b) { Ps s; s.add(p, on_line(p, a, b)); return s.is(r); }
template <typename P, typename R> static bool rlines(R const & r, V a, V b, V c, V d)
{
  V u = b - a, w = d - c, e = a - c; double uu = dot(u, u), uw = dot(u, w), ww = dot(w, w), den = uu * ww - uw * uw;
  double s = (uw * dot(w, e) - ww * dot(u, e)) / den, t = (uu * dot(w, e) - uw * dot(u, e)) / den; Ps c1, c2;
  c1.add(a, on_line(a, c, d)); c1.add(b, on_line(b, c, d)); c1.add(c, on_line(c, a, b)); c1.add(d, on_line(d, a, b)); c2.add(a + s * u, c + t * w);
  bool k1 = c1.is(r), k2 = c2.is(r);
  return den < 1e-6 * uu * ww || s < 0 || s > 1 || t < 0 || t > 1 ? k1 : k2;
}
template <typename P, typename R> static bool rtri(R const & r, V p, V a, V b, V c)
{
  V u = b - a, w = c - a, e = p - a; double uu = dot(u, u), uw = dot(u, w), ww = dot(w, w), den = uu * ww - uw * uw, s = (ww * dot(e, u) - uw * dot(e, w)) / den, t = (uu * dot(e, w) - uw * dot(e, u)) / den;
  V q = a + s * u + t * w; Ps c1, c2; c1.add(p, on_line(q, a, b)); c1.add(p, on_line(q, a, c)); c1.add(p, on_line(q, b, c)); c2.add(p, q);
  bool k1 = c1.is(r), k2 = c2.is(r);
  return s < 0 || t < 0 || s + t > 1 ? k1 : k2;
}
template <typename R> static bool rtet(R const & r, V p, V a, V b, V c, V d)
{
  V u = b - a, v = c - a, w = d - a, e = p - a; double D = dot(u, cross(v, w)), i = dot(e, cross(v, w)) / D, j = dot(u, cross(e, w)) / D, k = dot(u, cross(v, e)) / D;
  Ps c1, c2; c1.add(p, otr<C3>(p, a, b, c)); c1.add(p, otr<C3>(p, a, b, d)); c1.add(p, otr<C3>(p, a, c, d)); c1.add(p, otr<C3>(p, b, c, d)); c2.add(p, p);
  bool k1 = c1.is(r), k2 = c2.is(r);
  return i < 0 || j < 0 || k < 0 || i + j + k > 1 ? k1 : k2;
}
template <typename P, typename R> static bool rquad(R const & r, V p, V a, V b, V c, V d) { Ps x, y; x.add(p, otr<P>(p, a, b, c)); x.add(p, otr<P>(p, b, d, c)); y.add(p, otr<P>(p, a, b, d)); y.add(p, otr<P>(p, a, d, c)); return x.is(r) || y.is(r); }
template <typename R> static bool rhex(R const & r, V p, V const * v)
{
  Ps x; x.add(p, ote<C3>(p, v[0], v[1], v[3], v[7])); x.add(p, ote<C3>(p, v[0], v[1], v[7], v[5])); x.add(p, ote<C3>(p, v[0], v[2], v[6], v[7])); x.add(p, ote<C3>(p, v[0], v[3], v[2], v[7])); x.add(p, ote<C3>(p, v[0], v[5], v[7], v[4])); x.add(p, ote<C3>(p, v[0], v[6], v[4], v[7]));
  return x.is(r);
}
#define YES(name, args) X bool R_##name args { return true; }
#define PP(name, P) X double P_##name(In a, In b) { return distance(mk<P>(v3(a)), mk<P>(v3(b))); } X double R_##name(In a, In b) { return len(toV(mk<P>(v3(a))) - toV(mk<P>(v3(b)))); }
// ELT(name, Cell, P, D, checker): element against point through every public overload
#define ELT(name, C, P, D, CHK) \
 X bool P_##name##_c(void * e, In q) { typedef K<C, P> k; V p = v##D(q); C##_at(k::ac); return CHK(closest_points(k::Acc(), mk<P>(p), k::e(e))); } YES(name##_c, (void * e, In q)) \
 X bool P_##name##_cs(void * e, In q) { typedef K<C, P> k; V p = v##D(q); C##_at(k::ac); return CHK(closest_points(k::Acc(), k::e(e), mk<P>(p))); } YES(name##_cs, (void * e, In q)) \
 X bool P_##name##_da(void * e, In q) { typedef K<C, P> k; V p = v##D(q); C##_at(k::ac); return CHK(distance(k::Acc(), mk<P>(p), k::e(e))); } YES(name##_da, (void * e, In q)) \
 X bool P_##name##_das(void * e, In q) { typedef K<C, P> k; V p = v##D(q); C##_at(k::ac); return CHK(distance(k::Acc(), k::e(e), mk<P>(p))); } YES(name##_das, (void * e, In q)) \
 X bool P_##name##_d(void * e, In q) { typedef K<C, P> k; V p = v##D(q); C##_at(k::at); return CHK(distance(mk<P>(p), k::e(e))); } YES(name##_d, (void * e, In q)) \
 X bool P_##name##_ds(void * e, In q) { typedef K<C, P> k; V p = v##D(q); C##_at(k::at); return CHK(distance(k::e(e), mk<P>(p))); } YES(name##_ds, (void * e, In q))
#define line_tag_at(f) V a = f(k::e(e), 0), b = f(k::e(e), 1)
#define triangle_tag_at(f) V a = f(k::e(e), 0), b = f(k::e(e), 1), c = f(k::e(e), 2)
#define quadrilateral_tag_at(f) V a = f(k::e(e), 0), b = f(k::e(e), 1), c = f(k::e(e), 2), d = f(k::e(e), 3)
#define tetrahedron_tag_at(f) quadrilateral_tag_at(f)
#define hexahedron_tag_at(f) V h[8]; for (int i = 0; i < 8; ++i) h[i] = f(k::e(e), i)
template <typename A> static bool hit(Ps const & t, std::pair<A, A> const & r) { V x = toV(r.first), y = toV(r.second); return (same(x, t.a[0]) && same(y, t.b[0])) || (same(y, t.a[0]) && same(x, t.b[0])); }
static bool hit(Ps const & t, double d) { return len(t.a[0] - t.b[0]) == d; }
template <typename A> static double dd(std::pair<A, A> const & r) { return len(toV(r.first) - toV(r.second)); }
static double dd(double d) { return d; }
//@ point to point | distance, closest_points (viennagrid/algorithm/distance.hpp)
PP(pp1, C1)
PP(pp2, C2)
PP(pp3, C3)
X void P_ppc(void * m, In a, In b, Out o) { std::pair<C3, C3> r = closest_points(K<tetrahedron_tag, C3>::Acc(), c3(a), c3(b)); put(o, r.first); put(o + 3, r.second); } X void R_ppc(void * m, In a, In b, Out o) { putv<3>(o, v3(a)); putv<3>(o + 3, v3(b)); }
X double P_pv(void * v, In a) { return distance(c3(a), *static_cast<K<tetrahedron_tag, C3>::VT *>(v)); } X double R_pv(void * v, In a) { V q; for (int i = 0; i < 3; ++i) q.x[i] = static_cast<K<tetrahedron_tag, C3>::VT *>(v)->appendix()[i]; return len(v3(a) - q); }
X double P_vp(void * v, In a) { return distance(*static_cast<K<tetrahedron_tag, C3>::VT *>(v), c3(a)); } X double R_vp(void * v, In a) { V q; for (int i = 0; i < 3; ++i) q.x[i] = static_cast<K<tetrahedron_tag, C3>::VT *>(v)->appendix()[i]; return len(v3(a) - q); }
X double P_pva(void * v, In a) { return distance(K<tetrahedron_tag, C3>::Acc(), c3(a), *static_cast<K<tetrahedron_tag, C3>::VT *>(v)); } X double R_pva(void * v, In a) { V q; for (int i = 0; i < 3; ++i) q.x[i] = pure_coord(v, i); return len(v3(a) - q); }
X double P_vpa(void * v, In a) { return distance(K<tetrahedron_tag, C3>::Acc(), *static_cast<K<tetrahedron_tag, C3>::VT *>(v), c3(a)); } X double R_vpa(void * v, In a) { V q; for (int i = 0; i < 3; ++i) q.x[i] = pure_coord(v, i); return len(v3(a) - q); }
//@ point to line | closest_points_point_line (viennagrid/algorithm/closest_points.hpp)
#define LN(name, P, D) X bool P_##name(In p, In a, In b) { return rline(detail::closest_points_point_line(mk<P>(v##D(p)), mk<P>(v##D(a)), mk<P>(v##D(b))), v##D(p), v##D(a), v##D(b)); } YES(name, (In p, In a, In b))
LN(line1, C1, 1)
LN(line2, C2, 2)
LN(line3, C3, 3)
#define CHK_L(r) rline(r, p, a, b)
ELT(eline1, line_tag, C1, 1, CHK_L)
ELT(eline2, line_tag, C2, 2, CHK_L)
ELT(eline3, line_tag, C3, 3, CHK_L)
X bool P_vline(void * e, void * v) { typedef K<line_tag, C3> k; V p; for (int i = 0; i < 3; ++i) p.x[i] = pure_coord(v, i); line_tag_at(k::ac); return CHK_L(closest_points(k::Acc(), *static_cast<k::VT *>(v), k::e(e))); } YES(vline, (void * e, void * v))
//@ line to line | closest_points_line_line (viennagrid/algorithm/closest_points.hpp)
#define LL(name, P, D) X bool P_##name(In a, In b, In c, In d) { return rlines<P>(detail::closest_points_line_line(mk<P>(v##D(a)), mk<P>(v##D(b)), mk<P>(v##D(c)), mk<P>(v##D(d))), v##D(a), v##D(b), v##D(c), v##D(d)); } YES(name, (In a, In b, In c, In d)) \
 X bool P_##name##_e(void * e, void * f) { typedef K<line_tag, P> k; return rlines<P>(closest_points(k::Acc(), k::e(e), k::e(f)), k::ac(k::e(e), 0), k::ac(k::e(e), 1), k::ac(k::e(f), 0), k::ac(k::e(f), 1)); } YES(name##_e, (void * e, void * f)) \
 X bool P_##name##_d(void * e, void * f) { typedef K<line_tag, P> k; return rlines<P>(distance(k::e(e), k::e(f)), k::at(k::e(e), 0), k::at(k::e(e), 1), k::at(k::e(f), 0), k::at(k::e(f), 1)); } YES(name##_d, (void * e, void * f))
LL(lines2, C2, 2)
LL(lines3, C3, 3)
//@ point to triangle | closest_points_point_triangle (viennagrid/algorithm/closest_points.hpp)
#define TR(name, P, D) X bool P_##name(In p, In a, In b, In c) { return rtri<P>(detail::closest_points_point_triangle(mk<P>(v##D(p)), mk<P>(v##D(a)), mk<P>(v##D(b)), mk<P>(v##D(c))), v##D(p), v##D(a), v##D(b), v##D(c)); } YES(name, (In p, In a, In b, In c))
TR(tri2, C2, 2)
TR(tri3, C3, 3)
#define CHK_T2(r) rtri<C2>(r, p, a, b, c)
#define CHK_T3(r) rtri<C3>(r, p, a, b, c)
ELT(etri2, triangle_tag, C2, 2, CHK_T2)
ELT(etri3, triangle_tag, C3, 3, CHK_T3)
//@ point to tetrahedron | closest_points_point_tetrahedron (viennagrid/algorithm/closest_points.hpp)
X bool P_tet(In p, In a, In b, In c, In d) { return rtet(detail::closest_points_point_tetrahedron(c3(p), c3(a), c3(b), c3(c), c3(d)), v3(p), v3(a), v3(b), v3(c), v3(d)); } YES(tet, (In p, In a, In b, In c, In d))
#define CHK_S(r) rtet(r, p, a, b, c, d)
ELT(etet, tetrahedron_tag, C3, 3, CHK_S)
//@ quadrilateral | closest_points_impl(quadrilateral) (viennagrid/algorithm/closest_points.hpp)
#define CHK_Q2(r) rquad<C2>(r, p, a, b, c, d)
#define CHK_Q3(r) rquad<C3>(r, p, a, b, c, d)
ELT(equad2, quadrilateral_tag, C2, 2, CHK_Q2)
ELT(equad3, quadrilateral_tag, C3, 3, CHK_Q3)
//@ hexahedron | closest_points_impl(hexahedron) (viennagrid/algorithm/closest_points.hpp)
#define CHK_H(r) rhex(r, p, h)
ELT(ehex, hexahedron_tag, C3, 3, CHK_H)
//@ mesh boundary | closest_points_on_boundary, boundary_distance (viennagrid/algorithm/closest_points.hpp)
// minimum over exactly the boundary facets
template <typename k, typename P, typename Host, typename R> static bool rbnd(R const & r, Host & host, V p, typename k::F ** f, int n, bool acc)
{
  Ps s; bool some = false;
  V x, y; bool ok = true, is = false;
  for (int i = 0; i < n; ++i) { V a = acc ? k::ac(*f[i], 0) : k::at(*f[i], 0), b = acc ? k::ac(*f[i], 1) : k::at(*f[i], 1); V q = on_line(p, a, b); Ps t; t.add(p, q); if (is_boundary(host, *f[i])) { some = true; if (hit(t, r)) is = true; if (len(p - q) < dd(r)) ok = false; } }
  return !some || (is && ok);
}
#define BND(name, C, P, D, NH) \
 X bool P_##name##_mc(void * m, In q) { typedef K<C, P, NH> k; V p = v##D(q); k::F * f[NH + 1]; for (int i = 0; i < NH + 1; ++i) f[i] = &k::mel<k::F>(m, i); return rbnd<k, P>(closest_points_on_boundary(k::Acc(), mk<P>(p), k::m(m)), k::m(m), p, f, NH + 1, true); } YES(name##_mc, (void * m, In q)) \
 X bool P_##name##_mcs(void * m, In q) { typedef K<C, P, NH> k; V p = v##D(q); k::F * f[NH + 1]; for (int i = 0; i < NH + 1; ++i) f[i] = &k::mel<k::F>(m, i); return rbnd<k, P>(closest_points_on_boundary(k::Acc(), k::m(m), mk<P>(p)), k::m(m), p, f, NH + 1, true); } YES(name##_mcs, (void * m, In q)) \
 X bool P_##name##_md(void * m, In q) { typedef K<C, P, NH> k; V p = v##D(q); k::F * f[NH + 1]; for (int i = 0; i < NH + 1; ++i) f[i] = &k::mel<k::F>(m, i); return rbnd<k, P>(boundary_distance(mk<P>(p), k::m(m)), k::m(m), p, f, NH + 1, false); } YES(name##_md, (void * m, In q)) \
 X bool P_##name##_mds(void * m, In q) { typedef K<C, P, NH> k; V p = v##D(q); k::F * f[NH + 1]; for (int i = 0; i < NH + 1; ++i) f[i] = &k::mel<k::F>(m, i); return rbnd<k, P>(boundary_distance(k::m(m), mk<P>(p)), k::m(m), p, f, NH + 1, false); } YES(name##_mds, (void * m, In q)) \
 X bool P_##name##_sc(void * m, In q) { typedef K<C, P, NH> k; V p = v##D(q); k::F * f[NH]; for (int i = 0; i < NH; ++i) f[i] = &k::sel<k::F>(m, i); return rbnd<k, P>(closest_points_on_boundary(k::Acc(), mk<P>(p), k::s(m)), k::s(m), p, f, NH, true); } YES(name##_sc, (void * m, In q)) \
 X bool P_##name##_sd(void * m, In q) { typedef K<C, P, NH> k; V p = v##D(q); k::F * f[NH]; for (int i = 0; i < NH; ++i) f[i] = &k::sel<k::F>(m, i); return rbnd<k, P>(boundary_distance(mk<P>(p), k::s(m)), k::s(m), p, f, NH, false); } YES(name##_sd, (void * m, In q))
BND(bnd2, triangle_tag, C2, 2, 2)
//@ inclusion | is_inside (viennagrid/algorithm/inclusion.hpp)
// barycentric coordinates within the tolerance
#define INS(name, C, P, D, REF) \
 X bool P_##name(void * e, In q, double eps) { typedef K<C, P> k; return is_inside(k::e(e), mk<P>(v##D(q)), eps); } X bool R_##name(void * e, In q, double eps) { typedef K<C, P> k; V p = v##D(q); C##_at(k::at); return REF; } \
 X bool P_##name##_a(void * e, In q, double eps) { typedef K<C, P> k; return is_inside(k::Acc(), k::e(e), mk<P>(v##D(q)), eps); } X bool R_##name##_a(void * e, In q, double eps) { typedef K<C, P> k; V p = v##D(q); C##_at(k::ac); return REF; }
static bool intri(V p, V a, V b, V c, double eps) { V u = b - a, w = c - a, e = p - a; double uu = dot(u, u), uw = dot(u, w), ww = dot(w, w), den = uu * ww - uw * uw, s = (ww * dot(e, u) - uw * dot(e, w)) / den, t = (uu * dot(e, w) - uw * dot(e, u)) / den; return s >= -eps && t >= -eps && s + t <= 1 + 2 * eps; }
static double vt(V a, V b, V c, V d) { return std::fabs(dot(b - a, cross(c - a, d - a)) / 6); }
static bool intet(V p, V a, V b, V c, V d, double eps) { double v = vt(a, b, c, d), A = vt(p, b, c, d) / v, B = vt(a, p, c, d) / v, C = vt(a, b, p, d) / v, D = vt(a, b, c, p) / v; return A >= -eps && B >= -eps && C >= -eps && D >= -eps && A + B + C + D <= 1 + 2 * eps; }
INS(in_tri2, triangle_tag, C2, 2, intri(p, a, b, c, std::fabs(eps)))
INS(in_tri3, triangle_tag, C3, 3, intri(p, a, b, c, std::fabs(eps)))
INS(in_tet, tetrahedron_tag, C3, 3, intet(p, a, b, c, d, std::fabs(eps)))
X bool P_in_def(void * e, In q) { return is_inside(K<triangle_tag, C2>::e(e), c2(q)); } X bool R_in_def(void * e, In q) { typedef K<triangle_tag, C2> k; V p = v2(q); triangle_tag_at(k::at); return intri(p, a, b, c, 10 * std::numeric_limits<double>::epsilon()); }
//@ line to segment | distance(line, segment) (viennagrid/algorithm/distance.hpp)
template <typename k, typename Q> static bool rseg(double d, typename k::LT & l, typename k::LT ** f, int n) { bool is = false, ok = true; for (int i = 0; i < n; ++i) { double x = distance(l, *f[i]); if (x == d) is = true; if (x < d) ok = false; } return is && ok; }
X bool P_lseg(void * m, void * l) { typedef K<triangle_tag, C2, 3> k; k::LT * f[3]; for (int i = 0; i < 3; ++i) f[i] = &k::sel<k::LT>(m, i); k::LT & x = *static_cast<k::LT *>(l); return rseg<k, int>(distance(x, k::s(m)), x, f, 3); } YES(lseg, (void * m, void * l))
X bool P_segl(void * m, void * l) { typedef K<triangle_tag, C2, 3> k; k::LT * f[3]; for (int i = 0; i < 3; ++i) f[i] = &k::sel<k::LT>(m, i); k::LT & x = *static_cast<k::LT *>(l); return rseg<k, int>(distance(k::s(m), x), x, f, 3); } YES(segl, (void * m, void * l))
//@ segment to segment | closest_points_on_boundary_generic (viennagrid/algorithm/closest_points.hpp)
template <typename k, typename P, typename R> static bool rss(R const & r, void * m, void * n)
{
  bool some = false, is = false, ok = true;
  for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j)
  {
    typename k::F & a = k::template sel<typename k::F>(m, i), & b = k::template sel<typename k::F>(n, j);
    std::pair<P, P> q = ref_closest_points_line_line(mk<P>(k::ac(a, 0)), mk<P>(k::ac(a, 1)), mk<P>(k::ac(b, 0)), mk<P>(k::ac(b, 1))); Ps t; t.add(toV(q.first), toV(q.second));
    if (is_boundary(k::s(m), a) && is_boundary(k::s(n), b)) { some = true; if (hit(t, r)) is = true; if (len(t.a[0] - t.b[0]) < dd(r)) ok = false; }
  }
  return !some || (is && ok);
}
X bool P_ss_c(void * m, void * n) { typedef K<triangle_tag, C2> k; return rss<k, C2>(closest_points_on_boundary(k::Acc(), k::s(m), k::s(n)), m, n); } YES(ss_c, (void * m, void * n))
X bool P_ss_d(void * m, void * n) { typedef K<triangle_tag, C2> k; return rss<k, C2>(boundary_distance(k::Acc(), k::s(m), k::s(n)), m, n); } YES(ss_d, (void * m, void * n))
