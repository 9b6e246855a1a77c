// Extraction: the hull mesh holds exactly the boundary, one seed per connected part, filtered views exactly what the filter accepts.
#define VG_CAP 14
#define VG_MAPCAP 14
#include "seg.hpp"
#undef string
#undef stringstream
#include "viennagrid/algorithm/extract_boundary.hpp"
#include "viennagrid/algorithm/extract_seed_points.hpp"
#include "viennagrid/element/element_view.hpp"
#include "pt.hpp"
typedef viennagrid::triangular_2d_mesh M; typedef viennagrid::line_2d_mesh HM; typedef viennagrid::result_of::segmentation<M>::type S; typedef viennagrid::result_of::segmentation<HM>::type HS;
typedef viennagrid::tetrahedral_3d_mesh TM; typedef viennagrid::triangular_3d_mesh TH;
typedef viennagrid::result_of::vertex_handle<M>::type VH;
template <typename MeshT> static void mk(MeshT & m, typename viennagrid::result_of::vertex_handle<MeshT>::type * v, double const * x, int n) { for (int i = 0; i < n; ++i) v[i] = viennagrid::make_vertex(m, C2(x[2 * i], x[2 * i + 1])); }
template <typename G> static void tri(G & g, VH const * v, int const * c) { viennagrid::make_triangle(g, v[c[0]], v[c[1]], v[c[2]]); }
// corner coordinates of the k-th element
template <typename E> static double * pts(E const & e, int n, int d, double * o) { for (int i = 0; i < n; ++i) for (int k = 0; k < d; ++k) *o++ = viennagrid::point(viennagrid::vertices(e)[i])[k]; return o; }
static double * ref(double const * x, int const * c, int n, int d, double * o) { for (int i = 0; i < n; ++i) for (int k = 0; k < d; ++k) *o++ = x[d * c[i] + k]; return o; }
static int const tc[2][3] = { { 0, 1, 2 }, { 1, 3, 2 } };
// W 0: a strip whose cells are not stored in order, 1: two parts that touch in a vertex, 2: three parts, one of them of two cells that are not stored together
static int const sc[3][4][3] = { { { 0, 1, 2 }, { 2, 3, 4 }, { 1, 2, 3 }, { 3, 4, 5 } }, { { 0, 1, 2 }, { 2, 3, 4 }, { 3, 4, 5 }, { 0, 1, 6 } }, { { 0, 1, 2 }, { 2, 3, 4 }, { 4, 5, 6 }, { 3, 4, 7 } } };
//@ boundary | extract_boundary(mesh, hull) (viennagrid/algorithm/extract_boundary.hpp)
X void P_x_mesh(double const * x, double * o) { M m; VH v[4]; mk(m, v, x, 4); for (int k = 0; k < 2; ++k) tri(m, v, tc[k]); HM h; viennagrid::result_of::vertex_handle<HM>::type w[2]; mk(h, w, x + 4, 2); viennagrid::make_line(h, w[0], w[1]);
  viennagrid::extract_boundary(m, h); viennagrid::result_of::line_range<HM>::type l(h); *o++ = l.size(); *o++ = viennagrid::vertices(h).size(); for (int k = 0; k < 4; ++k) if (k < (int)l.size()) o = pts(l[k], 2, 2, o); *o++ = viennagrid::lines(m).size(); }
X void R_x_mesh(double const * x, double * o) { static int const e[4][2] = { { 0, 1 }, { 0, 2 }, { 1, 3 }, { 3, 2 } }; *o++ = 4; *o++ = 4; for (int k = 0; k < 4; ++k) o = ref(x, e[k], 2, 2, o); *o++ = 5; }
X void P_x_tets(double const * x, double * o) { TM m; viennagrid::result_of::vertex_handle<TM>::type v[5]; for (int i = 0; i < 5; ++i) v[i] = viennagrid::make_vertex(m, C3(x[3 * i], x[3 * i + 1], x[3 * i + 2])); viennagrid::make_tetrahedron(m, v[0], v[1], v[2], v[3]); viennagrid::make_tetrahedron(m, v[1], v[2], v[3], v[4]); TH h; viennagrid::extract_boundary(m, h);
  viennagrid::result_of::triangle_range<TH>::type l(h); *o++ = l.size(); *o++ = viennagrid::vertices(h).size(); *o++ = viennagrid::lines(h).size(); for (int k = 0; k < 6; ++k) if (k < (int)l.size()) o = pts(l[k], 3, 3, o); }
X void R_x_tets(double const * x, double * o) { static int const f[6][3] = { { 0, 1, 2 }, { 0, 1, 3 }, { 0, 2, 3 }, { 1, 2, 4 }, { 1, 3, 4 }, { 2, 3, 4 } }; *o++ = 6; *o++ = 5; *o++ = 9; for (int k = 0; k < 6; ++k) o = ref(x, f[k], 3, 3, o); }
//@ segment boundaries | extract_boundary(mesh, segmentation, hull, hull segmentation) (viennagrid/algorithm/extract_boundary.hpp)
template <int N> static void segs(double const * x, double * o)
{
  M m; S s(m); VH v[4]; mk(m, v, x, 4); if (N) { viennagrid::result_of::segment_handle<S>::type a = s.get_make_segment(1), b = s.get_make_segment(3); tri(a, v, tc[0]); tri(b, v, tc[1]); } else for (int k = 0; k < 2; ++k) tri(m, v, tc[k]);
  HM h; HS g(h); viennagrid::result_of::vertex_handle<HM>::type w[2]; mk(h, w, x + 4, 2); viennagrid::result_of::segment_handle<HS>::type u = g.get_make_segment(7); viennagrid::make_line(u, w[0], w[1]);
  viennagrid::extract_boundary(m, s, h, g); viennagrid::result_of::line_range<HM>::type l(h); *o++ = l.size(); *o++ = viennagrid::vertices(h).size(); *o++ = g.size();
  if (N) for (int t = 1; t <= 3; t += 2) { viennagrid::result_of::line_range<viennagrid::result_of::segment_handle<HS>::type>::type r(g(t)); *o++ = r.size(); *o++ = viennagrid::vertices(g(t)).size(); for (int k = 0; k < 5; ++k) *o++ = k < (int)l.size() ? viennagrid::is_in_segment(g(t), l[k]) : false; }
  for (int k = 0; k < (N ? 5 : 4); ++k) if (k < (int)l.size()) o = pts(l[k], 2, 2, o);
}
X void P_x_segs(double const * x, double * o) { segs<2>(x, o); }
// segments are visited by ascending number
X void R_x_segs(double const * x, double * o) { static int const e[5][2] = { { 0, 1 }, { 0, 2 }, { 1, 2 }, { 1, 3 }, { 3, 2 } }; static int const in[2][5] = { { 1, 1, 1, 0, 0 }, { 0, 0, 1, 1, 1 } }; *o++ = 5; *o++ = 4; *o++ = 2; for (int t = 0; t < 2; ++t) { *o++ = 3; *o++ = 3; for (int k = 0; k < 5; ++k) *o++ = in[t][k]; } for (int k = 0; k < 5; ++k) o = ref(x, e[k], 2, 2, o); }
X void P_x_nosegs(double const * x, double * o) { segs<0>(x, o); }
X void R_x_nosegs(double const * x, double * o) { static int const e[4][2] = { { 0, 1 }, { 0, 2 }, { 1, 3 }, { 3, 2 } }; *o++ = 4; *o++ = 4; *o++ = 0; for (int k = 0; k < 4; ++k) o = ref(x, e[k], 2, 2, o); }
//@ seeds | extract_seed_points (viennagrid/algorithm/extract_seed_points.hpp)
template <int W> static void seeds(double const * x, double * o) { M m; VH v[8]; mk(m, v, x, 8); for (int k = 0; k < 4; ++k) tri(m, v, sc[W][k]); std::vector<C2> p; viennagrid::extract_seed_points(m, p); *o++ = p.size(); for (std::size_t i = 0; i < p.size(); ++i) { *o++ = p[i][0]; *o++ = p[i][1]; } }
template <int W> static void seeds0(double const * x, double * o) { static int const n[3] = { 1, 2, 3 }; *o++ = n[W]; for (int i = 0; i < n[W]; ++i) for (int d = 0; d < 2; ++d) { double s = 0; for (int k = 0; k < 3; ++k) s += x[2 * sc[W][i][k] + d]; *o++ = s / 3; } }
X void P_seed0(double const * x, double * o) { seeds<0>(x, o); } X void R_seed0(double const * x, double * o) { seeds0<0>(x, o); }
X void P_seed1(double const * x, double * o) { seeds<1>(x, o); } X void R_seed1(double const * x, double * o) { seeds0<1>(x, o); }
X void P_seed2(double const * x, double * o) { seeds<2>(x, o); } X void R_seed2(double const * x, double * o) { seeds0<2>(x, o); }
//@ segment seeds | extract_seed_points with a segmentation (viennagrid/algorithm/extract_seed_points.hpp)
// the first segment holds the two ends of a strip, the second what joins them
X void P_seed_seg(double const * x, double * o) { M m; S s(m); VH v[6]; mk(m, v, x, 6); viennagrid::result_of::segment_handle<S>::type a = s.get_make_segment(2), b = s.get_make_segment(5); tri(a, v, sc[0][0]); tri(a, v, sc[0][1]); tri(b, v, sc[0][2]); tri(a, v, sc[0][3]); std::vector<std::pair<C2, int> > p; viennagrid::extract_seed_points(m, s, p); *o++ = p.size(); for (std::size_t i = 0; i < p.size(); ++i) { *o++ = p[i].first[0]; *o++ = p[i].first[1]; *o++ = p[i].second; } }
X void R_seed_seg(double const * x, double * o) { *o++ = 3; for (int i = 0; i < 3; ++i) { for (int d = 0; d < 2; ++d) { double s = 0; for (int k = 0; k < 3; ++k) s += x[2 * sc[0][i][k] + d]; *o++ = s / 3; } *o++ = i < 2 ? 2 : 5; } }
X void P_seed_noseg(double const * x, double * o) { M m; S s(m); VH v[6]; mk(m, v, x, 6); for (int k = 0; k < 4; ++k) tri(m, v, sc[0][k]); std::vector<std::pair<C2, int> > p; viennagrid::extract_seed_points(m, s, p); *o++ = p.size(); for (std::size_t i = 0; i < p.size(); ++i) { *o++ = p[i].first[0]; *o++ = p[i].first[1]; *o++ = p[i].second; } }
X void R_seed_noseg(double const * x, double * o) { *o++ = 1; for (int d = 0; d < 2; ++d) *o++ = (x[d] + x[2 + d] + x[4 + d]) / 3; *o++ = 0; }
//@ views | element_view with a filter (viennagrid/element/element_view.hpp)
struct Flag { int const * f; template <typename E> bool operator()(E const & e) const { return f[e.id().get()] > 0; } };
template <typename R> static void ids(R const & r, double * o) { *o++ = r.size(); for (typename R::const_iterator it = r.begin(); it != r.end(); ++it) *o++ = (*it).id().get(); }
static void ids0(int const * f, int n, double * o) { int c = 0; double * z = o + 1; for (int i = 0; i < n; ++i) if (f[i] > 0) { *z++ = i; ++c; } *o = c; }
X void P_v_mut(int const * f, double const * x, double * o) { M m; VH v[4]; mk(m, v, x, 4); for (int k = 0; k < 2; ++k) tri(m, v, tc[k]); Flag g = { f }; viennagrid::result_of::element_view<M, line_tag>::type w = viennagrid::element_view<line_tag>(m, g); ids(w, o); }
X void R_v_mut(int const * f, double const * x, double * o) { ids0(f, 5, o); }
X void P_v_vert(int const * f, double const * x, double * o) { M m; VH v[4]; mk(m, v, x, 4); for (int k = 0; k < 2; ++k) tri(m, v, tc[k]); Flag g = { f }; viennagrid::result_of::element_view<M, vertex_tag>::type w = viennagrid::element_view<vertex_tag>(m, g); ids(w, o); }
X void R_v_vert(int const * f, double const * x, double * o) { ids0(f, 4, o); }
X void P_v_seg(int const * f, double const * x, double * o) { M m; S s(m); VH v[4]; mk(m, v, x, 4); viennagrid::result_of::segment_handle<S>::type a = s.make_segment(), b = s.make_segment(); tri(a, v, tc[0]); tri(b, v, tc[1]); Flag g = { f }; typedef viennagrid::result_of::segment_handle<S>::type G; viennagrid::result_of::element_view<G, vertex_tag>::type w = viennagrid::element_view<vertex_tag>(b, g); ids(w, o); }
X void R_v_seg(int const * f, double const * x, double * o) { int h[4] = { 0, f[1], f[2], f[3] }; static int const q[3] = { 1, 3, 2 }; int c = 0; double * z = o + 1; for (int i = 0; i < 3; ++i) if (h[q[i]] > 0) { *z++ = q[i]; ++c; } *o = c; }
