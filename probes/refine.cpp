#ifndef VG_CAP
#define VG_CAP 20
#define VG_MAPCAP 20
#endif
#include "seg.hpp"
#define private public
#define protected public
#include "viennagrid/algorithm/refine.hpp"
#undef private
#undef protected
#undef string
#undef stringstream
typedef viennagrid::triangular_2d_mesh Tri;
typedef El<Tri, triangle_tag>::type TE; typedef El<Tri, line_tag>::type LE; typedef El<Tri, vertex_tag>::type VE;
typedef viennagrid::result_of::handle<Tri, vertex_tag>::type VH; typedef viennagrid::result_of::handle<Tri, triangle_tag>::type TH; typedef viennagrid::result_of::handle<Tri, line_tag>::type LH;
// two triangles 0 1 2 and 1 2 3, edges 01 02 12 13 23
struct Two { Tri m; VH v[4]; TH a, b; Two(double const * x) { for (int i = 0; i < 4; ++i) v[i] = make_vertex(m, C2(x[2 * i], x[2 * i + 1])); a = make_triangle(m, v[0], v[1], v[2]); b = make_triangle(m, v[1], v[2], v[3]); } };
inline int no(int a, int b) { if (a > b) { int t = a; a = b; b = t; } return a == 0 ? b - 1 : (a == 1 ? (b == 2 ? 2 : 3) : 4); }
template <typename L> int no(L const & l) { return no(viennagrid::vertices(l)[0].id().get(), viennagrid::vertices(l)[1].id().get()); }
static const int ends[5][2] = { { 0, 1 }, { 0, 2 }, { 1, 2 }, { 1, 3 }, { 2, 3 } };
struct Copy { VH v[4]; Tri * out; Copy(Tri & o) : out(&o) { for (int i = 0; i < 4; ++i) v[i] = VH(); } VH operator()(VE const & x) { VH & h = v[x.id().get()]; if (h == VH()) h = make_vertex(*out, point(x)); return h; } };
struct Mids { VH v[5]; Mids() { for (int i = 0; i < 5; ++i) v[i] = VH(); } VH & operator()(LE const & l) { return v[no(l)]; } VH operator()(LE const & l) const { return v[no(l)]; } };
template <int MASK> struct Flag { bool operator()(LE const & l) const { return (MASK >> no(l)) & 1; } };
struct Flags { bool f[5]; bool & operator()(LE const & l) { return f[no(l)]; } bool operator()(LE const & l) const { return f[no(l)]; } };
// label of a vertex of the new mesh: the copied vertex or the midpoint of an edge
inline long label(Copy const & c, Mids const & d, VE const & v) { long r = -1; for (int i = 0; i < 4; ++i) if (c.v[i] == &v) r = i; for (int i = 0; i < 5; ++i) if (d.v[i] == &v) r = 4 + i; return r; }
inline void cells(Tri & n, Copy const & c, Mids const & d, long * o) { o[0] = viennagrid::triangles(n).size(); for (int i = 0; i < 8; ++i) if (i < o[0]) for (int k = 0; k < 3; ++k) o[1 + 4 * i + k] = label(c, d, viennagrid::vertices(viennagrid::triangles(n)[i])[k]); }
//@ refine | viennagrid::refine, detail::refine_impl, simple_refine (viennagrid/algorithm/refine.hpp)
template <int MASK> void two(double const * x, long * o) { Two w(x); Tri n; Copy c(n); Mids d; refine<triangle_tag>(w.m, n, default_point_accessor(w.m), c, Flag<MASK>(), d); cells(n, c, d, o); }
#define T1(n) X void P_two_##n(double const * x, long * o) { two<n>(x, o); }
T1(000) T1(001) T1(004) T1(006) T1(014) T1(023) T1(031) T1(037)
//@ refine with segments | viennagrid::refine, detail::refine_impl, simple_refine with segmentations (viennagrid/algorithm/refine.hpp)
typedef SegT<Tri>::type Seg; enum { sz = sizeof(Seg) }; typedef SegT<Tri>::handle SH;
template <int MASK> void segs(double const * x, long * o)
{
  Two w(x); Seg s(w.m); SH s0 = s.make_segment(), s1 = s.make_segment(); add(s0, w.a); add(s0, w.b); add(s1, w.b);
  Tri n; Seg t(n); Copy c(n); Mids d; refine<triangle_tag>(w.m, s, n, t, default_point_accessor(w.m), c, Flag<MASK>(), d); cells(n, c, d, o);
  for (int i = 0; i < 8; ++i) if (i < o[0]) o[4 + 4 * i] = is_in_segment(t.get_segment(0), viennagrid::triangles(n)[i]) + 2 * is_in_segment(t.get_segment(1), viennagrid::triangles(n)[i]);
}
#define S1(n) X void P_seg_##n(double const * x, long * o) { segs<n>(x, o); }
S1(000) S1(004) S1(014)
//@ wrappers | viennagrid::refine, element_refine, cell_refine, refine_uniformly, cell_refine_uniformly, hyperplane_refine (viennagrid/algorithm/refine.hpp)
static const double K[8] = { 0, 0, 8, 0, 0, 8, 8, 8 };
inline void named(Tri & n, long * o) { o[0] = viennagrid::triangles(n).size(); for (int i = 0; i < 8; ++i) if (i < o[0]) for (int k = 0; k < 3; ++k) { C2 p = point(viennagrid::vertices(viennagrid::triangles(n)[i])[k]); long r = -1;
  for (int j = 0; j < 4; ++j) if (p[0] == K[2 * j] && p[1] == K[2 * j + 1]) r = j; for (int j = 0; j < 5; ++j) if (p[0] == (K[2 * ends[j][0]] + K[2 * ends[j][1]]) / 2 && p[1] == (K[2 * ends[j][0] + 1] + K[2 * ends[j][1] + 1]) / 2) r = 4 + j; o[1 + 4 * i + k] = r; } }
template <int MASK> void setf(Two & w, std::deque<bool> & f) { f.resize(viennagrid::lines(w.m).size()); for (int i = 0; i < 5; ++i) f[viennagrid::lines(w.m)[i].id().get()] = (MASK >> no(viennagrid::lines(w.m)[i])) & 1; }
template <int MASK> void setc(Two & w, std::deque<bool> & f) { f.resize(2); f[0] = MASK & 1; f[1] = (MASK >> 1) & 1; }
X void P_two_006_flags(long * o) { Two w(K); Tri n; std::deque<bool> f; setf<006>(w, f); refine<triangle_tag>(w.m, n, viennagrid::make_accessor<LE>(f)); named(n, o); }
X void P_two_007_element(long * o) { Two w(K); Tri n; std::deque<bool> f; setc<1>(w, f); element_refine<triangle_tag>(w.m, n, viennagrid::make_accessor<TE>(f)); named(n, o); }
X void P_two_034_cell(long * o) { Two w(K); Tri n; std::deque<bool> f; setc<2>(w, f); cell_refine(w.m, n, viennagrid::make_accessor<TE>(f)); named(n, o); }
X void P_two_037_uniform(long * o) { Two w(K); Tri n; refine_uniformly<triangle_tag>(w.m, n); named(n, o); }
X void P_two_037_cells(long * o) { Two w(K); Tri n; cell_refine_uniformly(w.m, n); named(n, o); }
X void P_two_025_plane(long * o) { Two w(K); Tri n; hyperplane_refine(w.m, n, C2(4, 1), C2(2, 0), 1e-6); named(n, o); }
X void P_two_004_plane(long * o) { Two w(K); Tri n; hyperplane_refine(w.m, n, C2(0, 0), C2(1, -1), 1e-6); named(n, o); }
