#define VG_CAP 8
#define VG_MAPCAP 12
#include "seg.hpp"
#undef string
#undef stringstream
template <typename E> long vid(E const & e, int k) { return (long)viennagrid::vertices(e)[k].id().get(); }
inline bool same2(long a, long b, long c, long d) { return (a == c && b == d) || (a == d && b == c); }
template <typename E> bool is2(E const & e, long a, long b) { return same2(vid(e, 0), vid(e, 1), a, b); }
template <typename E> bool in(E const & e, int n, long a) { bool f = false; for (int k = 0; k < n; ++k) f = f || vid(e, k) == a; return f; }
template <typename E> bool is3(E const & e, long a, long b, long c) { return in(e, 3, a) && in(e, 3, b) && in(e, 3, c); }
template <typename E> bool is4(E const & e, long a, long b, long c, long d) { return in(e, 4, a) && in(e, 4, b) && in(e, 4, c) && in(e, 4, d); }
template <typename MeshT, typename Tag, int N> struct Mk { MeshT m; typedef typename viennagrid::result_of::handle<MeshT, vertex_tag>::type H; H v[N]; Mk() { for (int i = 0; i < N; ++i) v[i] = make_vertex(m); } typedef typename viennagrid::result_of::handle<MeshT, Tag>::type C; };
typedef viennagrid::tetrahedral_3d_mesh Tet; typedef Mk<Tet, tetrahedron_tag, 5> MTet; typedef viennagrid::thin_tetrahedral_3d_mesh ThinTet; typedef viennagrid::quadrilateral_2d_mesh Quad; typedef viennagrid::hexahedral_3d_mesh Hex; typedef viennagrid::thin_triangular_2d_mesh ThinTri;
//@ tetrahedra | viennagrid::make_tetrahedron (viennagrid/mesh/element_creation.hpp), element::insert_callback (viennagrid/element/element.hpp)
// the second tetrahedron has 1, 2, 3 in any order as its first three vertices, then 0 or 4
struct TT : public MTet { C a, b; TT(double const * x) { a = make_tetrahedron(m, v[0], v[1], v[2], v[3]); b = make_tetrahedron(m, pick3(&*v[1], x[0]), pick3(&*v[1], x[1]), pick3(&*v[1], x[2]), x[3] < 0 ? v[0] : v[4]); } };
inline bool okt(double const * x) { return pick3i(x[0]) != pick3i(x[1]) && pick3i(x[0]) != pick3i(x[2]) && pick3i(x[1]) != pick3i(x[2]); }
inline long tv(double const * x, int k) { return k < 3 ? 1 + pick3i(x[k]) : (x[3] < 0 ? 0 : 4); }
X void P_tet_counts(double const * x, long * o) { if (!okt(x)) return; TT w(x); o[0] = viennagrid::vertices(w.m).size(); o[1] = viennagrid::lines(w.m).size(); o[2] = viennagrid::triangles(w.m).size(); o[3] = viennagrid::tetrahedra(w.m).size(); for (int k = 0; k < 4; ++k) o[4 + k] = vid(*w.b, k); o[8] = (*w.a).id().get(); o[9] = (*w.b).id().get(); }
X void R_tet_counts(double const * x, long * o) { if (!okt(x)) return; o[0] = 5; o[1] = x[3] < 0 ? 6 : 9; o[2] = x[3] < 0 ? 4 : 7; o[3] = 2; for (int k = 0; k < 4; ++k) o[4 + k] = tv(x, k); o[8] = 0; o[9] = 1; }
static const int EA[6] = { 0, 0, 0, 1, 1, 2 }, EB[6] = { 1, 2, 3, 2, 3, 3 }, FA[4] = { 0, 0, 0, 1 }, FB[4] = { 1, 1, 2, 2 }, FC[4] = { 2, 3, 3, 3 };
X void P_tet_boundary(double const * x, long * o) { if (!okt(x)) return; TT w(x); for (int k = 0; k < 6; ++k) o[k] = is2(viennagrid::lines(*w.b)[k], tv(x, EA[k]), tv(x, EB[k])); for (int k = 0; k < 4; ++k) { o[6 + k] = is3(viennagrid::triangles(*w.b)[k], tv(x, FA[k]), tv(x, FB[k]), tv(x, FC[k]));
  // the lines of a face are lines of the cell
  long n = 0; for (int j = 0; j < 3; ++j) for (int i = 0; i < 6; ++i) n += &viennagrid::lines(viennagrid::triangles(*w.b)[k])[j] == &viennagrid::lines(*w.b)[i]; o[10 + k] = n; }
  // the common face and edges
  long n = 0; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) n += &viennagrid::triangles(*w.a)[i] == &viennagrid::triangles(*w.b)[j]; o[14] = n; n = 0; for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) n += &viennagrid::lines(*w.a)[i] == &viennagrid::lines(*w.b)[j]; o[15] = n; }
X void R_tet_boundary(double const * x, long * o) { if (!okt(x)) return; for (int k = 0; k < 10; ++k) o[k] = 1; for (int k = 0; k < 4; ++k) o[10 + k] = 3; o[14] = x[3] < 0 ? 4 : 1; o[15] = x[3] < 0 ? 6 : 3; }
X void P_tet_thin(double const * x, long * o) { if (!okt(x)) return; Mk<ThinTet, tetrahedron_tag, 5> w; Mk<ThinTet, tetrahedron_tag, 5>::C b = make_tetrahedron(w.m, pick3(&*w.v[1], x[0]), pick3(&*w.v[1], x[1]), pick3(&*w.v[1], x[2]), x[3] < 0 ? w.v[0] : w.v[4]); o[0] = viennagrid::tetrahedra(w.m).size(); for (int k = 0; k < 4; ++k) o[1 + k] = vid(*b, k); }
X void R_tet_thin(double const * x, long * o) { if (!okt(x)) return; o[0] = 1; for (int k = 0; k < 4; ++k) o[1 + k] = tv(x, k); }
//@ quadrilaterals | viennagrid::make_quadrilateral (viennagrid/mesh/element_creation.hpp)
// the second quadrilateral uses vertex p of 1, 2, 3 and vertex q of 2, 3, 4 and the new vertices 5, 6
X void P_quad(double const * x, long * o) { Mk<Quad, quadrilateral_tag, 7> w; if (pick3i(x[0]) == 1 + pick3i(x[1])) return; Mk<Quad, quadrilateral_tag, 7>::C a = make_quadrilateral(w.m, w.v[0], w.v[1], w.v[2], w.v[3]), b = make_quadrilateral(w.m, w.v[5], w.v[6], pick3(&*w.v[1], x[0]), pick3(&*w.v[2], x[1]));
  o[0] = viennagrid::quadrilaterals(w.m).size(); o[1] = viennagrid::lines(w.m).size(); o[2] = is2(viennagrid::lines(*b)[0], 5, 6); long p = 1 + pick3i(x[0]), q = 2 + pick3i(x[1]); for (int k = 0; k < 4; ++k) o[3 + k] = vid(*b, k); long n = 0; for (int i = 0; i < 4; ++i) { n += is2(viennagrid::lines(*b)[i], 5, 6) + 10 * is2(viennagrid::lines(*b)[i], 5, p) + 100 * is2(viennagrid::lines(*b)[i], p, q) + 1000 * is2(viennagrid::lines(*b)[i], q, 6); } o[7] = n; }
X void R_quad(double const * x, long * o) { if (pick3i(x[0]) == 1 + pick3i(x[1])) return; long p = 1 + pick3i(x[0]), q = 2 + pick3i(x[1]); o[0] = 2; o[1] = 8 - (same2(p, q, 1, 3) || same2(p, q, 2, 3)); o[2] = 1; o[3] = 5; o[4] = 6; o[5] = p; o[6] = q; o[7] = 1111; }
//@ hexahedra | viennagrid::make_hexahedron (viennagrid/mesh/element_creation.hpp)
X void P_hex(long * o) { Mk<Hex, hexahedron_tag, 8> w; Mk<Hex, hexahedron_tag, 8>::C a = make_hexahedron(w.m, w.v[0], w.v[1], w.v[2], w.v[3], w.v[4], w.v[5], w.v[6], w.v[7]); o[0] = viennagrid::hexahedra(w.m).size(); o[1] = viennagrid::quadrilaterals(w.m).size(); o[2] = viennagrid::lines(w.m).size(); o[3] = viennagrid::vertices(w.m).size(); for (int k = 0; k < 8; ++k) o[4 + k] = vid(*a, k);
  // every edge joins neighbouring corners; opposite corners of every face are not joined
  for (int e = 0; e < 12; ++e) { long n = 0; for (int f = 0; f < 6; ++f) for (int k = 0; k < 4; ++k) n += &viennagrid::lines(viennagrid::quadrilaterals(*a)[f])[k] == &viennagrid::lines(*a)[e]; o[12 + e] = n; } }
X void R_hex(long * o) { o[0] = 1; o[1] = 6; o[2] = 12; o[3] = 8; for (int k = 0; k < 8; ++k) o[4 + k] = k; for (int e = 0; e < 12; ++e) o[12 + e] = 2; }
//@ lines and thin meshes | viennagrid::make_line, make_triangle (viennagrid/mesh/element_creation.hpp)
typedef viennagrid::line_1d_mesh Lin1;
X void P_line_mesh(double const * x, long * o) { Mk<Lin1, line_tag, 4> w; Mk<Lin1, line_tag, 4>::C a = make_line(w.m, pick3(&*w.v[0], x[0]), w.v[3]), b = make_line(w.m, w.v[3], pick3(&*w.v[0], x[0])); o[0] = viennagrid::lines(w.m).size(); o[1] = vid(*a, 0); o[2] = vid(*a, 1); o[3] = vid(*b, 0); o[4] = vid(*b, 1); o[5] = (*a).id().get(); o[6] = (*b).id().get(); }
X void R_line_mesh(double const * x, long * o) { o[0] = 2; o[1] = o[4] = pick3i(x[0]); o[2] = o[3] = 3; o[5] = 0; o[6] = 1; }
X void P_thin_tri(double const * x, long * o) { Mk<ThinTri, triangle_tag, 5> w; Mk<ThinTri, triangle_tag, 5>::C a = make_triangle(w.m, pick3(&*w.v[0], x[0]), w.v[3], w.v[4]), b = make_triangle(w.m, w.v[4], w.v[3], pick3(&*w.v[0], x[0])); o[0] = viennagrid::triangles(w.m).size(); for (int k = 0; k < 3; ++k) { o[1 + k] = vid(*a, k); o[4 + k] = vid(*b, k); } o[7] = (*a).id().get(); o[8] = (*b).id().get(); }
X void R_thin_tri(double const * x, long * o) { o[0] = 2; o[1] = o[6] = pick3i(x[0]); o[2] = o[5] = 3; o[3] = o[4] = 4; o[7] = 0; o[8] = 1; }
