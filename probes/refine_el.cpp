#include "conn.hpp"
#define private public
#define protected public
#include "viennagrid/algorithm/refine.hpp"
#undef private
#undef protected
using namespace viennagrid;
inline int edge(int a, int b) { if (a > b) { int t = a; a = b; b = t; } return a == 0 ? b - 1 : (a == 1 ? b + 1 : 5); } // 01 02 03 12 13 23
inline int edge3(int a, int b) { return a + b - 1; } // 01 02 12
template <int N> struct Ed { static int at(int a, int b) { return N == 3 ? edge3(a, b) : edge(a, b); } };
// a list of elements given by their vertex handles
template <typename H> struct Row { H h[4]; long n; void resize(std::size_t k) { n = k; } H & operator[](std::size_t i) { return h[i]; } H * begin() { return h; } H * end() { return h + n; } };
template <typename H> struct Rows { Row<H> r[10]; long n; Rows() : n(0) {} std::size_t size() const { return n; } void resize(std::size_t k) { n = k; } Row<H> & back() { return r[n - 1]; } };
template <typename VE> struct Copy { VE * v; VE * operator()(VE const & x) const { return v + x.id().get(); } };
template <typename VE, int N, int MASK> struct Flag { template <typename E> bool operator()(E const & e) const { return (MASK >> Ed<N>::at(viennagrid::vertices(e)[0].id().get(), viennagrid::vertices(e)[1].id().get())) & 1; } };
template <typename VE, int N> struct Mid { VE * v; template <typename E> VE * operator()(E const & e) const { return v + N + Ed<N>::at(viennagrid::vertices(e)[0].id().get(), viennagrid::vertices(e)[1].id().get()); } };
// which of two edges counts as longer, for edges of equal length by their vertex IDs
template <typename VE> bool longer(VE const * v, long const * id, int a, int b, int c, int d) { double l = norm_2(point(v[a]) - point(v[b])), m = norm_2(point(v[c]) - point(v[d])); if (l > m) return true; if (l < m) return false; long a0 = id[a] < id[b] ? id[a] : id[b], a1 = id[a] < id[b] ? id[b] : id[a], c0 = id[c] < id[d] ? id[c] : id[d], c1 = id[c] < id[d] ? id[d] : id[c]; return a0 != c0 ? a0 > c0 : a1 > c1; }
typedef fz::M<tetrahedron_tag, C3, 4, 6, 4, 1>::type Tet;
typedef El<Tet, tetrahedron_tag>::type TE; typedef El<Tet, vertex_tag>::type VE; typedef El<Tet, line_tag>::type LE; typedef viennagrid::result_of::handle<Tet, vertex_tag>::type VH;
// o: number of new elements, for each its four vertices (0..3: corners, 4..9: midpoints of edges 01 02 03 12 13 23); q: for each face with two split edges, which of them counts as longer
template <int MASK> void tet(double const * x, long * o, long * q)
{
  Tet m; Init<Tet, tetrahedron_tag>::go(m); TE & t = *fz::arr<TE>(m); VE * c = fz::arr<VE>(m); LE * l = fz::arr<LE>(m);
  static const int le[6][2] = { { 0, 1 }, { 0, 2 }, { 0, 3 }, { 1, 2 }, { 1, 3 }, { 2, 3 } };
  for (int i = 0; i < 4; ++i) t.container(viennagrid::dimension_tag<0>()).set_handle(c + i, i);
  for (int i = 0; i < 6; ++i) { t.container(viennagrid::dimension_tag<1>()).set_handle(l + i, i); for (int k = 0; k < 2; ++k) l[i].container(viennagrid::dimension_tag<0>()).set_handle(c + le[i][k], k); }
  VE v[10]; for (int i = 0; i < 10; ++i) { v[i].id(VE::id_type(i)); for (int k = 0; k < 3; ++k) v[i].appendix()[k] = x[3 * i + k]; }
  long id[4] = { 0, 1, 2, 3 };
  Copy<VE> cp = { v }; Mid<VE, 4> md = { v }; Rows<VE *> r; viennagrid::detail::element_refinement<tetrahedron_tag>::apply(t, m, r, cp, Flag<VE, 4, MASK>(), md);
  o[0] = r.n; for (int i = 0; i < 10; ++i) if (i < r.n) for (int k = 0; k < 4; ++k) o[1 + 4 * i + k] = r.r[i].h[k] - v;
  static const int f[4][3] = { { 0, 1, 2 }, { 0, 1, 3 }, { 0, 2, 3 }, { 1, 2, 3 } };
  for (int i = 0; i < 4; ++i) for (int k = 0; k < 3; ++k) { int a = f[i][k], b = f[i][(k + 1) % 3], d = f[i][(k + 2) % 3]; q[3 * i + k] = 0; if (((MASK >> edge(a, b)) & 1) && ((MASK >> edge(a, d)) & 1) && !((MASK >> edge(b, d)) & 1)) q[3 * i + k] = longer(v, id, a, b, a, d) ? 1 : 2; }
}
#define T1(n) X void P_tet_##n(double const * x, long * o, long * q) { tet<n>(x, o, q); }
#define T4(n,a,b,c,d) T1(n##a) T1(n##b) T1(n##c) T1(n##d)
//@ tetrahedron_00a | viennagrid::detail::element_refinement<tetrahedron_tag> (viennagrid/algorithm/detail/refine_tet.hpp)
T4(00,0,1,2,3)
//@ tetrahedron_00b | viennagrid::detail::element_refinement<tetrahedron_tag> (viennagrid/algorithm/detail/refine_tet.hpp)
T4(00,4,5,6,7)
//@ tetrahedron_01a | viennagrid::detail::element_refinement<tetrahedron_tag> (viennagrid/algorithm/detail/refine_tet.hpp)
T4(01,0,1,2,3)
//@ tetrahedron_01b | viennagrid::detail::element_refinement<tetrahedron_tag> (viennagrid/algorithm/detail/refine_tet.hpp)
T4(01,4,5,6,7)
//@ tetrahedron_02a | viennagrid::detail::element_refinement<tetrahedron_tag> (viennagrid/algorithm/detail/refine_tet.hpp)
T4(02,0,1,2,3)
//@ tetrahedron_02b | viennagrid::detail::element_refinement<tetrahedron_tag> (viennagrid/algorithm/detail/refine_tet.hpp)
T4(02,4,5,6,7)
//@ tetrahedron_03a | viennagrid::detail::element_refinement<tetrahedron_tag> (viennagrid/algorithm/detail/refine_tet.hpp)
T4(03,0,1,2,3)
//@ tetrahedron_03b | viennagrid::detail::element_refinement<tetrahedron_tag> (viennagrid/algorithm/detail/refine_tet.hpp)
T4(03,4,5,6,7)
//@ tetrahedron_04a | viennagrid::detail::element_refinement<tetrahedron_tag> (viennagrid/algorithm/detail/refine_tet.hpp)
T4(04,0,1,2,3)
//@ tetrahedron_04b | viennagrid::detail::element_refinement<tetrahedron_tag> (viennagrid/algorithm/detail/refine_tet.hpp)
T4(04,4,5,6,7)
//@ tetrahedron_05a | viennagrid::detail::element_refinement<tetrahedron_tag> (viennagrid/algorithm/detail/refine_tet.hpp)
T4(05,0,1,2,3)
//@ tetrahedron_05b | viennagrid::detail::element_refinement<tetrahedron_tag> (viennagrid/algorithm/detail/refine_tet.hpp)
T4(05,4,5,6,7)
//@ tetrahedron_06a | viennagrid::detail::element_refinement<tetrahedron_tag> (viennagrid/algorithm/detail/refine_tet.hpp)
T4(06,0,1,2,3)
//@ tetrahedron_06b | viennagrid::detail::element_refinement<tetrahedron_tag> (viennagrid/algorithm/detail/refine_tet.hpp)
T4(06,4,5,6,7)
//@ tetrahedron_07a | viennagrid::detail::element_refinement<tetrahedron_tag> (viennagrid/algorithm/detail/refine_tet.hpp)
T4(07,0,1,2,3)
//@ tetrahedron_07b | viennagrid::detail::element_refinement<tetrahedron_tag> (viennagrid/algorithm/detail/refine_tet.hpp)
T4(07,4,5,6,7)
//@ triangle | viennagrid::detail::element_refinement<triangle_tag> (viennagrid/algorithm/detail/refine_tri.hpp)
typedef fz::M<triangle_tag, C3, 3, 3, 1, 0>::type Tri; typedef El<Tri, triangle_tag>::type FE; typedef El<Tri, vertex_tag>::type VF; typedef El<Tri, line_tag>::type LF;
template <int MASK> void tri(double const * x, long * o)
{
  Tri m; Init<Tri, triangle_tag>::go(m); FE & t = *fz::arr<FE>(m); VF * c = fz::arr<VF>(m); LF * l = fz::arr<LF>(m);
  static const int le[3][2] = { { 0, 1 }, { 0, 2 }, { 1, 2 } };
  for (int i = 0; i < 3; ++i) t.container(viennagrid::dimension_tag<0>()).set_handle(c + i, i);
  for (int i = 0; i < 3; ++i) { t.container(viennagrid::dimension_tag<1>()).set_handle(l + i, i); for (int k = 0; k < 2; ++k) l[i].container(viennagrid::dimension_tag<0>()).set_handle(c + le[i][k], k); }
  VF v[6]; for (int i = 0; i < 6; ++i) { v[i].id(VF::id_type(i)); for (int k = 0; k < 3; ++k) v[i].appendix()[k] = x[3 * i + k]; }
  Copy<VF> cp = { v }; Mid<VF, 3> md = { v }; Rows<VF *> r; viennagrid::detail::element_refinement<triangle_tag>::apply(t, m, r, cp, Flag<VF, 3, MASK>(), md);
  o[0] = r.n; for (int i = 0; i < 10; ++i) if (i < r.n) for (int k = 0; k < 3; ++k) o[1 + 4 * i + k] = r.r[i].h[k] - v;
}
#define F1(n) X void P_tri_##n(double const * x, long * o) { tri<n>(x, o); }
F1(00) F1(01) F1(02) F1(03) F1(04) F1(05) F1(06) F1(07)
