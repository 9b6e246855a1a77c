// Voronoi quantities: every edge gets the measure of its dual interface, every vertex and edge that of its dual box, each the
// sum of the contributions of exactly its cells, which are recorded cell by cell.  Coordinates are unknown.
#define VG_CAP 14
#define VG_MAPCAP 14
#include "seg.hpp"
#undef string
#undef stringstream
#include "viennagrid/algorithm/voronoi.hpp"
#include "pt.hpp"
// totals and contributions of one element type, NE elements, NC cells
template <typename E, int N> struct Tot { typedef double value_type; double * p; double & operator()(E const & e) const { return p[e.id().get()]; } };
template <typename E, typename H, int N> struct Con { typedef std::vector<std::pair<H, double> > value_type; value_type * p; value_type & operator()(E const & e) const { return p[e.id().get()]; } };
// out: interface area of every edge, box of every vertex, box of every edge; then the same per cell
template <typename MeshT, typename CT, int NV, int NE, int NC> struct Vor
{
  typedef typename viennagrid::result_of::vertex<MeshT>::type VT; typedef typename viennagrid::result_of::line<MeshT>::type ET; typedef typename viennagrid::result_of::const_handle<MeshT, CT>::type H; typedef std::vector<std::pair<H, double> > C;
  double ia[NE], vb[NV], eb[NE]; C cia[NE], cvb[NV], ceb[NE]; H h[NC];
  static double sum(C & c, H h) { double s = 0; for (typename C::iterator it = c.begin(); it != c.end(); ++it) if (it->first == h) s += it->second; return s; }
  Vor(MeshT const & m)
  {
    for (int i = 0; i < NE; ++i) ia[i] = eb[i] = 0; for (int i = 0; i < NV; ++i) vb[i] = 0;
    Tot<ET, NE> a = { ia }, b = { eb }; Tot<VT, NV> v = { vb }; Con<ET, H, NE> ca = { cia }, cb = { ceb }; Con<VT, H, NV> cv = { cvb };
    viennagrid::apply_voronoi<CT>(m, a, ca, v, cv, b, cb);
    typedef typename viennagrid::result_of::const_element_range<MeshT, CT>::type R; R r(m); typename viennagrid::result_of::iterator<R>::type it = r.begin(); for (int k = 0; k < NC; ++k, ++it) h[k] = it.handle();
  }
  void put(double * o) { for (int i = 0; i < NE; ++i) *o++ = ia[i]; for (int i = 0; i < NV; ++i) *o++ = vb[i]; for (int i = 0; i < NE; ++i) *o++ = eb[i];
    for (int k = 0; k < NC; ++k) { for (int i = 0; i < NE; ++i) *o++ = sum(cia[i], h[k]); for (int i = 0; i < NV; ++i) *o++ = sum(cvb[i], h[k]); for (int i = 0; i < NE; ++i) *o++ = sum(ceb[i], h[k]); } }
};
template <int NV, int NE, int NC> struct Ref
{
  double ia[NC][NE], vb[NC][NV], eb[NC][NE]; Ref() { for (int k = 0; k < NC; ++k) { for (int i = 0; i < NE; ++i) ia[k][i] = eb[k][i] = 0; for (int i = 0; i < NV; ++i) vb[k][i] = 0; } }
  void put(double * o) { for (int t = 0; t < 3; ++t) for (int i = 0; i < (t == 1 ? NV : NE); ++i) { double s = 0; for (int k = 0; k < NC; ++k) s += t == 0 ? ia[k][i] : t == 1 ? vb[k][i] : eb[k][i]; *o++ = s; }
    for (int k = 0; k < NC; ++k) for (int t = 0; t < 3; ++t) for (int i = 0; i < (t == 1 ? NV : NE); ++i) *o++ = t == 0 ? ia[k][i] : t == 1 ? vb[k][i] : eb[k][i]; }
  void edge(int k, int e, double a) { ia[k][e] += a; } void box(int k, int e, int v, double x) { vb[k][v] += x; eb[k][e] += x; }
};
static double ar2(V a, V b, V c) { return std::fabs((b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])) / 2; }
template <typename MeshT, typename CT> void cell(MeshT & m, typename viennagrid::result_of::vertex_handle<MeshT>::type const * v, int const * i, int n) { typename viennagrid::result_of::vertex_handle<MeshT>::type h[8]; for (int k = 0; k < n; ++k) h[k] = v[i[k]]; viennagrid::make_element<CT>(m, h, h + n); }
static V at2(double const * x, int i) { return V(x[2 * i], x[2 * i + 1], 0); }
static V at3(double const * x, int i) { return V(x[3 * i], x[3 * i + 1], x[3 * i + 2]); }
static V circ(V a, V b, V c) { double d = 2 * ((b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])), u = dot(b - a, b - a), w = dot(c - a, c - a); V r = a; r.x[0] += ((c[1] - a[1]) * u - (b[1] - a[1]) * w) / d; r.x[1] += ((b[0] - a[0]) * w - (c[0] - a[0]) * u) / d; return r; }
// barycentric coordinates of the circumcenter
static bool inside(V a, V b, V c) { V p = circ(a, b, c); double d = (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]), s = ((c[1] - a[1]) * (p[0] - a[0]) - (c[0] - a[0]) * (p[1] - a[1])) / d, t = ((b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0])) / d; return !(s < 0) && !(t < 0) && !(s + t > 1.0); }
static int const tc[2][3] = { { 0, 1, 2 }, { 1, 3, 2 } }, te[2][3] = { { 0, 1, 2 }, { 3, 2, 4 } }, ta[5] = { 0, 0, 1, 1, 3 }, tb[5] = { 1, 2, 2, 3, 2 };
// what must hold between totals and contributions whatever the shape: zero everywhere
template <typename R> static void gap(R & r, int nv, int ne, int nc, double * o)
{
  for (int i = 0; i < ne; ++i) { double s = r.ia[i], t = r.eb[i]; for (int k = 0; k < nc; ++k) { s -= R::sum(r.cia[i], r.h[k]); t -= R::sum(r.ceb[i], r.h[k]); } *o++ = s; *o++ = t; }
  for (int i = 0; i < nv; ++i) { double s = r.vb[i]; for (int k = 0; k < nc; ++k) s -= R::sum(r.cvb[i], r.h[k]); *o++ = s; }
  double s = 0; for (int i = 0; i < nv; ++i) s += r.vb[i]; for (int i = 0; i < ne; ++i) s -= r.eb[i]; *o++ = s;
}
static void zero(double * o, int n) { for (int i = 0; i < n; ++i) o[i] = 0; }
static V circ3(V a, V b, V c) { V u = b - a, v = c - a, n = cross(u, v); double k = 1 / (2 * dot(n, n)); return a + (k * dot(u, u)) * cross(v, n) + (k * dot(v, v)) * cross(n, u); }
static V circ4(V a, V b, V c, V d) { V u = b - a, v = c - a, w = d - a; double k = 1 / (2 * dot(u, cross(v, w))); return a + (k * dot(u, u)) * cross(v, w) + (k * dot(v, v)) * cross(w, u) + (k * dot(w, w)) * cross(u, v); }
//@ lines | apply_voronoi on lines (viennagrid/algorithm/voronoi.hpp)
template <typename MeshT> static void vline(double const * x, double * o) { MeshT m; typename viennagrid::result_of::vertex_handle<MeshT>::type v[3]; for (int i = 0; i < 3; ++i) v[i] = viennagrid::make_vertex(m, typename viennagrid::result_of::point<MeshT>::type(x[i])); int c[2][2] = { { 0, 1 }, { 2, 1 } }; for (int k = 0; k < 2; ++k) cell<MeshT, line_tag>(m, v, c[k], 2); Vor<MeshT, line_tag, 3, 2, 2> r(m); r.put(o); }
X void P_v_line(double const * x, double * o) { vline<viennagrid::line_1d_mesh>(x, o); }
X void R_v_line(double const * x, double * o) { Ref<3, 2, 2> r; int c[2][2] = { { 0, 1 }, { 2, 1 } }; for (int k = 0; k < 2; ++k) { double l = std::fabs(x[c[k][0]] - x[c[k][1]]); r.edge(k, k, 1); for (int i = 0; i < 2; ++i) r.box(k, k, c[k][i], l / 2); } r.put(o); }
//@ triangles | apply_voronoi on triangles that contain their circumcenter (viennagrid/algorithm/voronoi.hpp)
X void P_v_tri(double const * x, double * o) { for (int k = 0; k < 2; ++k) if (!inside(at2(x, tc[k][0]), at2(x, tc[k][1]), at2(x, tc[k][2]))) return; typedef viennagrid::triangular_2d_mesh M; M m; viennagrid::result_of::vertex_handle<M>::type v[4]; for (int i = 0; i < 4; ++i) v[i] = viennagrid::make_vertex(m, C2(x[2 * i], x[2 * i + 1])); for (int k = 0; k < 2; ++k) cell<M, triangle_tag>(m, v, tc[k], 3); Vor<M, triangle_tag, 4, 5, 2> r(m); r.put(o); }
X void R_v_tri(double const * x, double * o) { for (int k = 0; k < 2; ++k) if (!inside(at2(x, tc[k][0]), at2(x, tc[k][1]), at2(x, tc[k][2]))) return; Ref<4, 5, 2> r; for (int k = 0; k < 2; ++k) { V p = circ(at2(x, tc[k][0]), at2(x, tc[k][1]), at2(x, tc[k][2])); for (int j = 0; j < 3; ++j) { int e = te[k][j]; V q = 0.5 * (at2(x, ta[e]) + at2(x, tb[e])); r.edge(k, e, len(p - q)); r.box(k, e, ta[e], ar2(p, q, at2(x, ta[e]))); r.box(k, e, tb[e], ar2(p, q, at2(x, tb[e]))); } } r.put(o); }
//@ quadrilaterals | apply_voronoi on quadrilaterals (viennagrid/algorithm/voronoi.hpp)
static int const qc[2][4] = { { 0, 1, 2, 3 }, { 1, 4, 3, 5 } }, qe[2][4] = { { 0, 1, 2, 3 }, { 4, 2, 5, 6 } }, qa[7] = { 0, 0, 1, 2, 1, 4, 3 }, qb[7] = { 1, 2, 3, 3, 4, 5, 5 };
X void P_v_quad(double const * x, double * o) { typedef viennagrid::quadrilateral_2d_mesh M; M m; viennagrid::result_of::vertex_handle<M>::type v[6]; for (int i = 0; i < 6; ++i) v[i] = viennagrid::make_vertex(m, C2(x[2 * i], x[2 * i + 1])); for (int k = 0; k < 2; ++k) cell<M, quadrilateral_tag>(m, v, qc[k], 4); Vor<M, quadrilateral_tag, 6, 7, 2> r(m); r.put(o); }
X void R_v_quad(double const * x, double * o) { Ref<6, 7, 2> r; for (int k = 0; k < 2; ++k) { V p = 0.25 * (at2(x, qc[k][0]) + at2(x, qc[k][1]) + at2(x, qc[k][2]) + at2(x, qc[k][3])); for (int j = 0; j < 4; ++j) { int e = qe[k][j]; V q = 0.5 * (at2(x, qa[e]) + at2(x, qb[e])); r.edge(k, e, len(p - q)); r.box(k, e, qa[e], ar2(p, q, at2(x, qa[e]))); r.box(k, e, qb[e], ar2(p, q, at2(x, qb[e]))); } } r.put(o); }
//@ obtuse triangles | apply_voronoi on a triangle whose circumcenter lies beyond the edge it shares with its neighbour (viennagrid/algorithm/voronoi.hpp)
// which edge the circumcenter of a b c lies beyond; 3: none
static int side(V a, V b, V c) { V p = circ(a, b, c); double d = (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]), s = ((c[1] - a[1]) * (p[0] - a[0]) - (c[0] - a[0]) * (p[1] - a[1])) / d, t = ((b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0])) / d; return t < 0 ? 0 : s < 0 ? 1 : s + t > 1.0 ? 2 : 3; }
static V isect(V a, V b, V c, V d) { double u = (a[0] - c[0]) * (c[1] - d[1]) - (a[1] - c[1]) * (c[0] - d[0]), w = (a[0] - b[0]) * (c[1] - d[1]) - (a[1] - b[1]) * (c[0] - d[0]); return a + (u / w) * (b - a); }
static int const of[3][3] = { { 1, 2, 0 }, { 2, 0, 1 }, { 0, 1, 2 } };     // the corners of the obtuse triangle; it shares the edge 1 2, the first, second or third of its edges
template <int W> static bool shape(double const * x) { return side(at2(x, of[W][0]), at2(x, of[W][1]), at2(x, of[W][2])) == W && side(at2(x, 1), at2(x, 3), at2(x, 2)) == 3; }
template <int W> static void obtuse(double const * x, double * o)
{
  if (!shape<W>(x)) return; typedef viennagrid::triangular_2d_mesh M; M m; viennagrid::result_of::vertex_handle<M>::type v[4]; for (int i = 0; i < 4; ++i) v[i] = viennagrid::make_vertex(m, C2(x[2 * i], x[2 * i + 1])); cell<M, triangle_tag>(m, v, of[W], 3); cell<M, triangle_tag>(m, v, tc[1], 3);
  typedef Vor<M, triangle_tag, 4, 5, 2> VR; VR r(m); viennagrid::result_of::line_range<M>::type l(m);
  for (int e = 0; e < 5; ++e) { int k = 5; for (int j = 0; j < 5; ++j) { int p = (int)viennagrid::vertices(l[e])[0].id().get(), q = (int)viennagrid::vertices(l[e])[1].id().get(); if ((p == ta[j] && q == tb[j]) || (q == ta[j] && p == tb[j])) k = j; } o[k] = r.ia[e]; o[6 + k] = r.eb[e]; for (int c = 0; c < 2; ++c) { o[12 + 6 * c + k] = VR::sum(r.cia[e], r.h[c]); o[24 + 6 * c + k] = VR::sum(r.ceb[e], r.h[c]); } }
  for (int i = 0; i < 4; ++i) { o[36 + i] = r.vb[i]; for (int c = 0; c < 2; ++c) o[40 + 4 * c + i] = VR::sum(r.cvb[i], r.h[c]); }
}
template <int W> static void obtuse0(double const * x, double * o)
{
  if (!shape<W>(x)) return; Ref<4, 5, 2> r; V p[4]; for (int i = 0; i < 4; ++i) p[i] = at2(x, i); V c = circ(p[0], p[1], p[2]), n = isect(p[0], c, p[1], p[2]), c1 = circ(p[1], p[3], p[2]);
  for (int e = 0; e < 2; ++e) { V m = 0.5 * (p[ta[e]] + p[tb[e]]), q = isect(m, c, p[1], p[2]); r.edge(0, e, len(m - q)); r.edge(1, e, len(c - q)); for (int i = 0; i < 2; ++i) { int v = i ? tb[e] : ta[e]; r.box(0, e, v, ar2(m, q, p[v])); if (v) r.box(1, e, v, ar2(c, q, p[v])); else { r.box(0, e, v, ar2(n, q, p[v])); r.box(1, e, v, ar2(c, q, n)); } } }
  V m = 0.5 * (p[1] + p[2]); r.edge(1, 2, -len(m - c)); r.box(1, 2, 1, -ar2(m, c, p[1])); r.box(1, 2, 2, -ar2(m, c, p[2]));
  for (int e = 2; e < 5; ++e) { V m = 0.5 * (p[ta[e]] + p[tb[e]]); r.edge(1, e, len(m - c1)); r.box(1, e, ta[e], ar2(m, c1, p[ta[e]])); r.box(1, e, tb[e], ar2(m, c1, p[tb[e]])); }
  for (int e = 0; e < 5; ++e) { o[e] = r.ia[0][e] + r.ia[1][e]; o[6 + e] = r.eb[0][e] + r.eb[1][e]; for (int k = 0; k < 2; ++k) { o[12 + 6 * k + e] = r.ia[k][e]; o[24 + 6 * k + e] = r.eb[k][e]; } } for (int i = 0; i < 4; ++i) { o[36 + i] = r.vb[0][i] + r.vb[1][i]; o[40 + i] = r.vb[0][i]; o[44 + i] = r.vb[1][i]; }
}
X void P_v_obt0(double const * x, double * o) { obtuse<0>(x, o); } X void R_v_obt0(double const * x, double * o) { obtuse0<0>(x, o); }
X void P_v_obt1(double const * x, double * o) { obtuse<1>(x, o); } X void R_v_obt1(double const * x, double * o) { obtuse0<1>(x, o); }
X void P_v_obt2(double const * x, double * o) { obtuse<2>(x, o); } X void R_v_obt2(double const * x, double * o) { obtuse0<2>(x, o); }
//@ hexahedra | apply_voronoi on hexahedra (viennagrid/algorithm/voronoi.hpp)
static int const ha[12] = { 0, 0, 0, 1, 1, 2, 2, 3, 4, 4, 5, 6 }, hb[12] = { 1, 2, 4, 3, 5, 3, 6, 7, 5, 6, 7, 7 }, hf[6][4] = { { 0, 1, 2, 3 }, { 0, 1, 4, 5 }, { 0, 2, 4, 6 }, { 1, 3, 5, 7 }, { 2, 3, 6, 7 }, { 4, 5, 6, 7 } };
static bool hon(int f, int v) { for (int i = 0; i < 4; ++i) if (hf[f][i] == v) return true; return false; }
X void P_v_hex(double const * x, double * o) { typedef viennagrid::hexahedral_3d_mesh M; M m; viennagrid::result_of::vertex_handle<M>::type v[8]; for (int i = 0; i < 8; ++i) v[i] = viennagrid::make_vertex(m, C3(x[3 * i], x[3 * i + 1], x[3 * i + 2])); viennagrid::make_element<hexahedron_tag>(m, v, v + 8); Vor<M, hexahedron_tag, 8, 12, 1> r(m);
  typedef viennagrid::result_of::line<M>::type ET; viennagrid::result_of::line_range<M>::type l(m); for (int e = 0; e < 12; ++e) { int k = 12; for (int j = 0; j < 12; ++j) { int p = (int)viennagrid::vertices(l[e])[0].id().get(), q = (int)viennagrid::vertices(l[e])[1].id().get(); if ((p == ha[j] && q == hb[j]) || (q == ha[j] && p == hb[j])) k = j; } o[k] = r.ia[e]; o[13 + k] = r.eb[e]; } for (int i = 0; i < 8; ++i) o[26 + i] = r.vb[i]; gap(r, 8, 12, 1, o + 34); }
X void R_v_hex(double const * x, double * o) { double ia[12], eb[12], vb[8]; zero(ia, 12); zero(eb, 12); zero(vb, 8); V c(0, 0, 0); for (int i = 0; i < 8; ++i) c = c + at3(x, i); c = 0.125 * c;
  for (int f = 0; f < 6; ++f) { V g = 0.25 * (at3(x, hf[f][0]) + at3(x, hf[f][1]) + at3(x, hf[f][2]) + at3(x, hf[f][3])); for (int e = 0; e < 12; ++e) if (hon(f, ha[e]) && hon(f, hb[e])) { V q = 0.5 * (at3(x, ha[e]) + at3(x, hb[e])); ia[e] += len(cross(g - c, q - c)) / 2; for (int t = 0; t < 2; ++t) { int i = t ? hb[e] : ha[e]; double w = std::fabs(dot(at3(x, i) - c, cross(g - c, q - c))) / 6; vb[i] += w; eb[e] += w; } } }
  for (int e = 0; e < 12; ++e) { o[e] = ia[e]; o[13 + e] = eb[e]; } for (int i = 0; i < 8; ++i) o[26 + i] = vb[i]; zero(o + 34, 33); }
//@ tetrahedra | apply_voronoi on tetrahedra (viennagrid/algorithm/voronoi.hpp)
static int const sa[6] = { 0, 0, 0, 1, 1, 2 }, sb[6] = { 1, 2, 3, 2, 3, 3 };
// the four corners of the interface of edge e in a lone tetrahedron: circumcenter, edge midpoint and the two facet circumcenters; no side may be degenerate
static bool corners(double const * x, int e, V * g, double & s) { V a = at3(x, sa[e]), b = at3(x, sb[e]), z(0, 0, 0); int n = 2; g[0] = circ4(at3(x, 0), at3(x, 1), at3(x, 2), at3(x, 3)); g[1] = 0.5 * (a + b); for (int i = 0; i < 4; ++i) if (i != sa[e] && i != sb[e]) g[n++] = circ3(a, b, at3(x, i)); z = 0.25 * (g[0] + g[1] + g[2] + g[3]); s = 0; bool ok = true; for (int i = 0; i < 2; ++i) for (int j = 2; j < 4; ++j) { double t = len(cross(g[i] - z, g[j] - z)) / 2; s += t; if (!(t > 0)) ok = false; } return ok; }
static bool proper(double const * x) { V a = at3(x, 1) - at3(x, 0), b = at3(x, 2) - at3(x, 0), c = at3(x, 3) - at3(x, 0), n = cross(b, c); if (std::fabs(dot(a, n)) < 1e-10 * len(n)) return false; for (int e = 0; e < 6; ++e) { V g[4]; double s; if (!corners(x, e, g, s)) return false; } return true; }
X void P_v_tet(double const * x, double * o) { if (!proper(x)) return; typedef viennagrid::tetrahedral_3d_mesh M; M m; viennagrid::result_of::vertex_handle<M>::type v[4]; for (int i = 0; i < 4; ++i) v[i] = viennagrid::make_vertex(m, C3(x[3 * i], x[3 * i + 1], x[3 * i + 2])); viennagrid::make_element<tetrahedron_tag>(m, v, v + 4); Vor<M, tetrahedron_tag, 4, 6, 1> r(m);
  viennagrid::result_of::line_range<M>::type l(m); for (int e = 0; e < 6; ++e) { int k = 6; for (int j = 0; j < 6; ++j) { int p = (int)viennagrid::vertices(l[e])[0].id().get(), q = (int)viennagrid::vertices(l[e])[1].id().get(); if ((p == sa[j] && q == sb[j]) || (q == sa[j] && p == sb[j])) k = j; } o[k] = r.ia[e]; o[7 + k] = r.eb[e]; } for (int i = 0; i < 4; ++i) o[14 + i] = r.vb[i]; gap(r, 4, 6, 1, o + 18); }
X void R_v_tet(double const * x, double * o) { if (!proper(x)) return; double vb[4]; zero(vb, 4); for (int e = 0; e < 6; ++e) { V g[4]; double s, l = len(at3(x, sb[e]) - at3(x, sa[e])); corners(x, e, g, s); o[e] = s; o[7 + e] = s * l / 3; vb[sa[e]] += s * l / 6; vb[sb[e]] += s * l / 6; }
  for (int i = 0; i < 4; ++i) o[14 + i] = vb[i]; zero(o + 18, 17); }
//@ two tetrahedra | apply_voronoi on tetrahedra that share a facet (viennagrid/algorithm/voronoi.hpp)
static int const uc[2][4] = { { 0, 1, 2, 3 }, { 4, 2, 1, 3 } }, ua[9] = { 0, 0, 0, 1, 1, 2, 1, 2, 3 }, ub[9] = { 1, 2, 3, 2, 3, 3, 4, 4, 4 }, uf[7][3] = { { 0, 1, 2 }, { 0, 1, 3 }, { 0, 2, 3 }, { 1, 2, 3 }, { 1, 2, 4 }, { 1, 3, 4 }, { 2, 3, 4 } }, uk[7] = { 0, 0, 0, 2, 1, 1, 1 };
static bool uon(int f, int v) { return uf[f][0] == v || uf[f][1] == v || uf[f][2] == v; }
static bool flat(double const * x) { for (int k = 0; k < 2; ++k) { V a = at3(x, uc[k][1]) - at3(x, uc[k][0]), b = at3(x, uc[k][2]) - at3(x, uc[k][0]), c = at3(x, uc[k][3]) - at3(x, uc[k][0]), n = cross(b, c); if (std::fabs(dot(a, n)) < 1e-10 * len(n)) return true; } return false; }
X void P_v_tets(double const * x, double * o) { if (flat(x)) return; typedef viennagrid::tetrahedral_3d_mesh M; M m; viennagrid::result_of::vertex_handle<M>::type v[5]; for (int i = 0; i < 5; ++i) v[i] = viennagrid::make_vertex(m, C3(x[3 * i], x[3 * i + 1], x[3 * i + 2])); for (int k = 0; k < 2; ++k) cell<M, tetrahedron_tag>(m, v, uc[k], 4); typedef Vor<M, tetrahedron_tag, 5, 9, 2> VR; VR r(m);
  viennagrid::result_of::line_range<M>::type l(m); for (int e = 0; e < 9; ++e) { int k = 9; for (int j = 0; j < 9; ++j) { int p = (int)viennagrid::vertices(l[e])[0].id().get(), q = (int)viennagrid::vertices(l[e])[1].id().get(); if ((p == ua[j] && q == ub[j]) || (q == ua[j] && p == ub[j])) k = j; } o[k] = r.ia[e]; o[10 + k] = r.eb[e]; for (int c = 0; c < 2; ++c) { o[20 + 10 * c + k] = VR::sum(r.cia[e], r.h[c]); o[40 + 10 * c + k] = VR::sum(r.ceb[e], r.h[c]); } } for (int i = 0; i < 5; ++i) { o[60 + i] = r.vb[i]; for (int c = 0; c < 2; ++c) o[65 + 5 * c + i] = VR::sum(r.cvb[i], r.h[c]); } }
X void R_v_tets(double const * x, double * o) { if (flat(x)) return; double vb[3][5]; for (int c = 0; c < 3; ++c) zero(vb[c], 5); V cc[2]; for (int k = 0; k < 2; ++k) cc[k] = circ4(at3(x, uc[k][0]), at3(x, uc[k][1]), at3(x, uc[k][2]), at3(x, uc[k][3]));
  for (int e = 0; e < 9; ++e) { V a = at3(x, ua[e]), b = at3(x, ub[e]), p[8], q[8], z(0, 0, 0); int w[8], n = 0; double s[2] = { 0, 0 }, l = len(b - a);
    for (int f = 0; f < 7; ++f) if (uon(f, ua[e]) && uon(f, ub[e])) { V fc = circ3(at3(x, uf[f][0]), at3(x, uf[f][1]), at3(x, uf[f][2])); if (uk[f] == 2) { V g = 0.5 * (cc[0] + cc[1]); for (int k = 0; k < 2; ++k) { p[n] = cc[k]; q[n] = g; w[n++] = k; } } else { p[n] = cc[uk[f]]; q[n] = fc; w[n++] = uk[f]; p[n] = 0.5 * (a + b); q[n] = fc; w[n++] = uk[f]; } }
    for (int i = 0; i < n; ++i) z = z + 0.5 * (p[i] + q[i]); z = (1.0 / n) * z; for (int i = 0; i < n; ++i) s[w[i]] += len(cross(p[i] - z, q[i] - z)) / 2;
    o[e] = s[0] + s[1]; o[10 + e] = (s[0] + s[1]) * l / 3; for (int k = 0; k < 2; ++k) { o[20 + 10 * k + e] = s[k]; o[40 + 10 * k + e] = s[k] * l / 3; vb[k][ua[e]] += s[k] * l / 6; vb[k][ub[e]] += s[k] * l / 6; } }
  for (int i = 0; i < 5; ++i) { o[60 + i] = vb[0][i] + vb[1][i]; o[65 + i] = vb[0][i]; o[70 + i] = vb[1][i]; } }
