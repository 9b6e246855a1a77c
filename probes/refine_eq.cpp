#ifndef VG_CAP
#define VG_CAP 20
#define VG_MAPCAP 20
#endif
#include "seg.hpp"
#define private public
#define protected public
#include "viennagrid/algorithm/refine.hpp"
#undef private
#undef protected
#undef string
#undef stringstream
typedef viennagrid::triangular_2d_mesh Tri;
typedef El<Tri, triangle_tag>::type TE; typedef El<Tri, line_tag>::type LE; typedef El<Tri, vertex_tag>::type VE;
typedef viennagrid::result_of::handle<Tri, vertex_tag>::type VH; typedef viennagrid::result_of::handle<Tri, triangle_tag>::type TH; typedef viennagrid::result_of::handle<Tri, line_tag>::type LH;
struct Two { Tri m; VH v[4]; TH a, b; Two(double const * x) { for (int i = 0; i < 4; ++i) v[i] = make_vertex(m, C2(x[2 * i], x[2 * i + 1])); a = make_triangle(m, v[0], v[1], v[2]); b = make_triangle(m, v[1], v[2], v[3]); } };
inline int no(int a, int b) { if (a > b) { int t = a; a = b; b = t; } return a == 0 ? b - 1 : (a == 1 ? (b == 2 ? 2 : 3) : 4); }
template <typename L> int no(L const & l) { return no(viennagrid::vertices(l)[0].id().get(), viennagrid::vertices(l)[1].id().get()); }
static const int ends[5][2] = { { 0, 1 }, { 0, 2 }, { 1, 2 }, { 1, 3 }, { 2, 3 } };
struct Copy { VH v[4]; Tri * out; Copy(Tri & o) : out(&o) { for (int i = 0; i < 4; ++i) v[i] = VH(); } VH operator()(VE const & x) { VH & h = v[x.id().get()]; if (h == VH()) h = make_vertex(*out, point(x)); return h; } };
struct Mids { VH v[5]; Mids() { for (int i = 0; i < 5; ++i) v[i] = VH(); } VH & operator()(LE const & l) { return v[no(l)]; } VH operator()(LE const & l) const { return v[no(l)]; } };
template <int MASK> struct Flag { bool operator()(LE const & l) const { return (MASK >> no(l)) & 1; } };
struct Flags { bool * f; Flags(bool * g) : f(g) {} bool & operator()(LE const & l) const { return f[no(l)]; } };
struct CFlags { bool * f; CFlags(bool * g) : f(g) {} bool & operator()(TE const & t) const { return f[t.id().get()]; } };
//@ new vertices | viennagrid::refine, detail::refine_impl (viennagrid/algorithm/refine.hpp)
// one vertex per flagged edge, at its middle; the corners keep their points; the refined mesh is unchanged
template <int MASK> struct Mid
{
  static void p(double const * x, double * c, long * o) { Two w(x); Tri n; Copy k(n); Mids d; refine<triangle_tag>(w.m, n, default_point_accessor(w.m), k, Flag<MASK>(), d);
    o[0] = viennagrid::vertices(n).size(); o[1] = viennagrid::vertices(w.m).size(); o[2] = viennagrid::lines(w.m).size(); o[3] = viennagrid::triangles(w.m).size();
    for (int i = 0; i < 5; ++i) if ((MASK >> i) & 1) { o[4 + i] = d.v[i] != VH(); c[2 * i] = point(*d.v[i])[0]; c[2 * i + 1] = point(*d.v[i])[1]; } else o[4 + i] = d.v[i] == VH();
    for (int i = 0; i < 4; ++i) { c[10 + 2 * i] = point(*k.v[i])[0]; c[11 + 2 * i] = point(*k.v[i])[1]; c[18 + 2 * i] = point(*w.v[i])[0]; c[19 + 2 * i] = point(*w.v[i])[1]; } }
  static void r(double const * x, double * c, long * o) { o[0] = 4; for (int i = 0; i < 5; ++i) o[0] += (MASK >> i) & 1; o[1] = 4; o[2] = 5; o[3] = 2; for (int i = 0; i < 5; ++i) { o[4 + i] = 1; if ((MASK >> i) & 1) { c[2 * i] = (x[2 * ends[i][0]] + x[2 * ends[i][1]]) / 2; c[2 * i + 1] = (x[2 * ends[i][0] + 1] + x[2 * ends[i][1] + 1]) / 2; } }
    for (int i = 0; i < 8; ++i) { c[10 + i] = x[i]; c[18 + i] = x[i]; } }
};
X void P_mid_24(double const * x, double * c, long * o) { Mid<024>::p(x, c, o); }
X void R_mid_24(double const * x, double * c, long * o) { Mid<024>::r(x, c, o); }
X void P_mid_37(double const * x, double * c, long * o) { Mid<037>::p(x, c, o); }
X void R_mid_37(double const * x, double * c, long * o) { Mid<037>::r(x, c, o); }
// points are taken from the accessor that was passed
struct Acc { double const * y; C2 operator()(VE const & v) const { return C2(y[2 * v.id().get()], y[2 * v.id().get() + 1]); } typedef C2 value_type; };
X void P_mid_accessor(double const * x, double const * y, double * c) { Two w(x); Tri n; Copy k(n); Mids d; Acc a = { y }; viennagrid::detail::refine_impl<triangle_tag>(w.m, n, a, k, Flag<1>(), d); c[0] = point(*d.v[0])[0]; c[1] = point(*d.v[0])[1]; }
X void R_mid_accessor(double const * x, double const * y, double * c) { c[0] = (y[0] + y[2]) / 2; c[1] = (y[1] + y[3]) / 2; }
//@ marking | mark_all_edge_refinement, cell_refinement_to_edge_refinement (viennagrid/algorithm/refine.hpp)
X void P_mark_all(double const * x, double const * y, long * o) { Two w(x); bool f[5]; for (int i = 0; i < 5; ++i) f[i] = y[i] > 0; mark_all_edge_refinement(w.m, Flags(f)); for (int i = 0; i < 5; ++i) o[i] = f[i]; }
X void R_mark_all(double const * x, double const * y, long * o) { for (int i = 0; i < 5; ++i) o[i] = 1; }
X void P_mark_cells(double const * x, double const * y, long * o) { Two w(x); bool f[5], g[2]; for (int i = 0; i < 5; ++i) f[i] = y[i] > 0; for (int i = 0; i < 2; ++i) g[i] = y[5 + i] > 0; cell_refinement_to_edge_refinement<triangle_tag>(w.m, CFlags(g), Flags(f)); for (int i = 0; i < 5; ++i) o[i] = f[i]; }
X void R_mark_cells(double const * x, double const * y, long * o) { for (int i = 0; i < 5; ++i) o[i] = y[i] > 0 || (i < 3 && y[5] > 0) || (i > 1 && y[6] > 0); }
//@ longer edge | viennagrid::detail::stable_line_is_longer (viennagrid/algorithm/detail/refine_tet.hpp)
typedef fz::M<tetrahedron_tag, C3, 4, 6, 4, 1>::type Tet; typedef El<Tet, vertex_tag>::type VT;
X long P_longer(double const * x, int const * id) { Tet m; VT * v = fz::arr<VT>(m); for (int i = 0; i < 4; ++i) { v[i].id(VT::id_type(id[i])); for (int k = 0; k < 3; ++k) v[i].appendix()[k] = x[3 * i + k]; } return viennagrid::detail::stable_line_is_longer(m, v, v + 1, v + 2, v + 3); }
X long R_longer(double const * x, int const * id) { double l = norm_2(c3(x) - c3(x + 3)), m = norm_2(c3(x + 6) - c3(x + 9)); int a = id[0] < id[1] ? id[0] : id[1], b = id[0] < id[1] ? id[1] : id[0], c = id[2] < id[3] ? id[2] : id[3], d = id[2] < id[3] ? id[3] : id[2]; return l > m || (l == m && (a > c || (a == c && b > d))); }
//@ hyperplane | mark_edges_for_hyperplane_refine (viennagrid/algorithm/refine.hpp)
typedef viennagrid::line_2d_mesh Ln; typedef El<Ln, line_tag>::type L1; typedef viennagrid::result_of::handle<Ln, vertex_tag>::type HL;
struct F1 { bool * f; bool & operator()(L1 const &) { return *f; } }; struct H1 { HL * h; HL & operator()(L1 const &) { return *h; } };
// the edge is split exactly if its ends are strictly on different sides of the plane, at the point of the plane
X void P_plane(double const * x, double const * y, long * o, double * c) { Ln m, n; make_line(m, make_vertex(m, C2(x[0], x[1])), make_vertex(m, C2(x[2], x[3]))); bool f = y[4] > 0; HL h = HL(); F1 F = { &f }; H1 H = { &h };
  mark_edges_for_hyperplane_refine(m, n, C2(y[0], y[1]), C2(y[2], y[3]), F, H, 1e-6); o[0] = f; o[1] = viennagrid::vertices(n).size(); if (f) { c[0] = point(*h)[0]; c[1] = point(*h)[1]; } else c[0] = c[1] = 0; }
X void R_plane(double const * x, double const * y, long * o, double * c) { double d0 = y[2] * (x[0] - y[0]) + y[3] * (x[1] - y[1]), d1 = y[2] * (x[2] - y[0]) + y[3] * (x[3] - y[1]), t = 1e-6 * norm_2(C2(x[2], x[3]) - C2(x[0], x[1])); if (t < 1e-6) t = 1e-6; bool s = (d0 < -t && d1 > t) || (d1 < -t && d0 > t); o[0] = o[1] = s;
  for (int k = 0; k < 2; ++k) c[k] = s ? x[2 + k] - d1 / (d1 - d0) * (x[2 + k] - x[k]) : 0; }
//@ longest edge | ensure_longest_edge_refinement (viennagrid/algorithm/refine.hpp)
// a cell with a flagged edge has its longest edge flagged; nothing else is flagged
template <int MASK> struct Lo
{
  static void len(double const * x, double * l) { for (int i = 0; i < 3; ++i) l[i] = norm_2(C2(x[2 * ends[i][0]], x[2 * ends[i][0] + 1]) - C2(x[2 * ends[i][1]], x[2 * ends[i][1] + 1])); }
  static void p(double const * x, long * o) { double l[3]; len(x, l); if (!(l[0] > 0 && l[1] > 0 && l[2] > 0)) return; Tri m; VH v[3]; for (int i = 0; i < 3; ++i) v[i] = make_vertex(m, C2(x[2 * i], x[2 * i + 1])); make_triangle(m, v[0], v[1], v[2]); bool f[5]; for (int i = 0; i < 3; ++i) f[i] = (MASK >> i) & 1; ensure_longest_edge_refinement<triangle_tag>(m, Flags(f)); for (int i = 0; i < 3; ++i) o[i] = f[i]; }
  static void r(double const * x, long * o) { double l[3]; len(x, l); if (!(l[0] > 0 && l[1] > 0 && l[2] > 0)) return; for (int i = 0; i < 3; ++i) o[i] = ((MASK >> i) & 1) || (MASK && l[i] > l[(i + 1) % 3] && l[i] > l[(i + 2) % 3]); }
};
X void P_longest_0(double const * x, long * o) { Lo<0>::p(x, o); }
X void R_longest_0(double const * x, long * o) { Lo<0>::r(x, o); }
X void P_longest_1(double const * x, long * o) { Lo<1>::p(x, o); }
X void R_longest_1(double const * x, long * o) { Lo<1>::r(x, o); }
X void P_longest_4(double const * x, long * o) { Lo<4>::p(x, o); }
X void R_longest_4(double const * x, long * o) { Lo<4>::r(x, o); }
X void P_longest_7(double const * x, long * o) { Lo<7>::p(x, o); }
X void R_longest_7(double const * x, long * o) { Lo<7>::r(x, o); }
