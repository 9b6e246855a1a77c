#ifndef VG_CAP
#define VG_CAP 6
#endif
#ifndef VG_MAPCAP
#define VG_MAPCAP 6
#endif
#include "seg.hpp"
#include "viennagrid/mesh/segmented_mesh.hpp"
#undef string
#undef stringstream
typedef viennagrid::triangular_2d_mesh Tri;
typedef El<Tri, triangle_tag>::type TE; typedef El<Tri, line_tag>::type LE; typedef El<Tri, vertex_tag>::type VE;
typedef viennagrid::result_of::handle<Tri, vertex_tag>::type VH; typedef viennagrid::result_of::handle<Tri, triangle_tag>::type TH; typedef viennagrid::result_of::handle<Tri, line_tag>::type LH;
// two triangles: the first has the vertices 0, 1, 2, the second any three distinct ones of four
typedef Conn<4, 1, 3> Pick;
template <typename MeshT> struct Two { MeshT m; typedef typename viennagrid::result_of::handle<MeshT, vertex_tag>::type H; H v[4]; typename viennagrid::result_of::handle<MeshT, triangle_tag>::type a, b;
  Two(double const * x) { for (int i = 0; i < 4; ++i) v[i] = make_vertex(m, C2(x[3 + 2 * i], x[4 + 2 * i])); a = make_triangle(m, v[0], v[1], v[2]); b = make_triangle(m, pick(x, 0), pick(x, 1), pick(x, 2)); }
  H pick(double const * x, int k) { return pick3(&*v[0] + Pick::off(k), x[k]); } };
inline int e0(int k) { return k == 2 ? 1 : 0; } inline int e1(int k) { return k == 0 ? 1 : 2; }
inline bool same2(long a, long b, long c, long d) { return (a == c && b == d) || (a == d && b == c); }
inline bool shared(double const * x, int k, int j) { return same2(Pick::at(x, 0, e0(k)), Pick::at(x, 0, e1(k)), e0(j), e1(j)); }
inline bool old(double const * x, int k) { return shared(x, k, 0) || shared(x, k, 1) || shared(x, k, 2); }
template <typename E> long vid(E const & e, int k) { return (long)viennagrid::vertices(e)[k].id().get(); }
#define OKX if (!Pick::ok(x)) return;
// position of an element in the range of a mesh, or -1
template <typename Tag, typename MeshT, typename E> long pos(MeshT & m, E const * e) { typedef typename viennagrid::result_of::element_range<MeshT, Tag>::type R; R r(m); long p = -1, i = 0; for (typename viennagrid::result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it, ++i) if (&*it == e) p = i; return p; }
// everything a user sees of the copy n of the mesh w: one number per fact
template <typename MeshT> void see(MeshT & n, long * o, double * c)
{
  o[0] = viennagrid::vertices(n).size(); o[1] = viennagrid::lines(n).size(); o[2] = viennagrid::triangles(n).size();
  for (int t = 0; t < 2; ++t) for (int k = 0; k < 3; ++k) { typename viennagrid::result_of::element<MeshT, triangle_tag>::type & T = viennagrid::triangles(n)[t]; o[3 + 3 * t + k] = vid(T, k); o[9 + 3 * t + k] = pos<vertex_tag>(n, &viennagrid::vertices(T)[k]);
    typename viennagrid::result_of::element<MeshT, line_tag>::type & L = viennagrid::lines(T)[k]; o[15 + 3 * t + k] = same2(vid(L, 0), vid(L, 1), vid(T, e0(k)), vid(T, e1(k))); o[21 + 3 * t + k] = pos<line_tag>(n, &L) >= 0; o[27 + 3 * t + k] = pos<vertex_tag>(n, &viennagrid::vertices(L)[0]) >= 0 && pos<vertex_tag>(n, &viennagrid::vertices(L)[1]) >= 0; }
  o[33] = viennagrid::triangles(n)[0].id().get(); o[34] = viennagrid::triangles(n)[1].id().get();
  for (int i = 0; i < 4; ++i) { o[35 + i] = viennagrid::vertices(n)[i].id().get(); c[2 * i] = point(viennagrid::vertices(n)[i])[0]; c[2 * i + 1] = point(viennagrid::vertices(n)[i])[1]; }
}
inline long nlines(double const * x) { long n = 3; for (int k = 0; k < 3; ++k) n += !old(x, k); return n; }
inline void seen(double const * x, long * o, double * c) { o[0] = 4; o[1] = nlines(x); o[2] = 2; for (int k = 0; k < 3; ++k) { o[3 + k] = o[9 + k] = k; o[6 + k] = o[12 + k] = Pick::at(x, 0, k); } for (int k = 15; k < 33; ++k) o[k] = 1; o[33] = 0; o[34] = 1; for (int i = 0; i < 4; ++i) o[35 + i] = i; for (int i = 0; i < 8; ++i) c[i] = x[3 + i]; }
inline bool inb(double const * x, int i) { return Pick::at(x, 0, 0) == i || Pick::at(x, 0, 1) == i || Pick::at(x, 0, 2) == i; }
//@ copy construction | mesh::mesh(mesh const &), operator=, detail::fix_handles (viennagrid/mesh/mesh.hpp)
X void P_copy_construct(double const * x, long * o, double * c) { OKX Two<Tri> w(x); Tri n(w.m); see(n, o, c); }
X void R_copy_construct(double const * x, long * o, double * c) { OKX seen(x, o, c); }
X void P_copy_source(double const * x, long * o, double * c) { OKX Two<Tri> w(x); Tri n(w.m); make_line(n, &viennagrid::vertices(n)[0], &viennagrid::vertices(n)[3]); make_vertex(n); point(viennagrid::vertices(n)[0])[0] = 7; see(w.m, o, c); }
X void R_copy_source(double const * x, long * o, double * c) { OKX seen(x, o, c); }
X void P_copy_assign(double const * x, long * o, double * c) { OKX Two<Tri> w(x); Tri n; VH a = make_vertex(n), b = make_vertex(n); make_line(n, a, b); n = w.m; see(n, o, c); }
X void R_copy_assign(double const * x, long * o, double * c) { OKX seen(x, o, c); }
X void P_self_assign(double const * x, long * o, double * c) { OKX Two<Tri> w(x); Tri & n = w.m; n = w.m; see(w.m, o, c); }
X void R_self_assign(double const * x, long * o, double * c) { OKX seen(x, o, c); }
//@ after copying | mesh::mesh(mesh const &), operator=, clear (viennagrid/mesh/mesh.hpp)
// elements made in the copy get unused IDs and share the copied edges
template <typename MeshT> void grow(MeshT & n, double const * x, long * o) { typename viennagrid::result_of::handle<MeshT, triangle_tag>::type t = make_triangle(n, &viennagrid::vertices(n)[Pick::at(x, 0, 0)], &viennagrid::vertices(n)[Pick::at(x, 0, 1)], &viennagrid::vertices(n)[Pick::at(x, 0, 2)]); o[0] = viennagrid::lines(n).size(); o[1] = (*t).id().get(); o[2] = viennagrid::triangles(n).size(); for (int k = 0; k < 3; ++k) o[3 + k] = &viennagrid::lines(*t)[k] == &viennagrid::lines(viennagrid::triangles(n)[1])[k]; o[6] = (*make_vertex(n)).id().get(); o[7] = viennagrid::vertices(n).size(); }
X void P_grow_constructed(double const * x, long * o) { OKX Two<Tri> w(x); Tri n(w.m); grow(n, x, o); o[8] = viennagrid::triangles(w.m).size(); }
X void R_grow_constructed(double const * x, long * o) { OKX o[0] = nlines(x); o[1] = 2; o[2] = 3; o[3] = o[4] = o[5] = 1; o[6] = 4; o[7] = 5; o[8] = 2; }
X void P_grow_assigned(double const * x, long * o) { OKX Two<Tri> w(x); Tri n; n = w.m; grow(n, x, o); o[8] = viennagrid::triangles(w.m).size(); }
X void R_grow_assigned(double const * x, long * o) { OKX o[0] = nlines(x); o[1] = 2; o[2] = 3; o[3] = o[4] = o[5] = 1; o[6] = 4; o[7] = 5; o[8] = 2; }
// a cleared mesh is empty, usable, and starts with fresh IDs
X void P_clear(double const * x, long * o) { OKX Two<Tri> w(x); w.m.clear(); o[0] = viennagrid::vertices(w.m).size(); o[1] = viennagrid::lines(w.m).size(); o[2] = viennagrid::triangles(w.m).size(); VH v[3]; for (int i = 0; i < 3; ++i) v[i] = make_vertex(w.m); TH t = make_triangle(w.m, v[0], v[1], v[2]); o[3] = viennagrid::vertices(w.m).size(); o[4] = viennagrid::lines(w.m).size(); o[5] = viennagrid::triangles(w.m).size(); for (int k = 0; k < 3; ++k) { o[6 + k] = &viennagrid::vertices(*t)[k] == &*v[k]; o[9 + k] = same2(vid(viennagrid::lines(*t)[k], 0), vid(viennagrid::lines(*t)[k], 1), vid(*t, e0(k)), vid(*t, e1(k))); } }
X void R_clear(double const * x, long * o) { OKX o[0] = o[1] = o[2] = 0; o[3] = o[4] = 3; o[5] = 1; for (int i = 6; i < 12; ++i) o[i] = 1; }
// boundary and coboundary information detected before the copy is not taken for that of the copy
template <typename MeshT> long cob(MeshT & n, int v) { typedef typename viennagrid::result_of::coboundary_range<MeshT, vertex_tag, triangle_tag>::type R; typedef typename viennagrid::result_of::element<MeshT, vertex_tag>::type VT; VT & vv = viennagrid::vertices(n)[v]; R r(n, viennagrid::handle(n, vv)); long p = 0; for (typename viennagrid::result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it) { for (int t = 0; t < 2; ++t) p += (&*it == &viennagrid::triangles(n)[t]) * (t ? 10 : 1); p += 100; } return p; }
X void P_coboundary_constructed(double const * x, long * o) { OKX Two<Tri> w(x); o[0] = cob(w.m, 0); Tri n(w.m); for (int i = 0; i < 4; ++i) o[1 + i] = cob(n, i); }
X void R_coboundary_constructed(double const * x, long * o) { OKX for (int i = 0; i < 4; ++i) o[1 + i] = (i < 3) * 101 + inb(x, i) * 110; o[0] = o[1]; }
X void P_coboundary_assigned(double const * x, long * o) { OKX Two<Tri> w(x); o[0] = cob(w.m, 0); Tri n; n = w.m; for (int i = 0; i < 4; ++i) o[1 + i] = cob(n, i); }
X void R_coboundary_assigned(double const * x, long * o) { OKX for (int i = 0; i < 4; ++i) o[1 + i] = (i < 3) * 101 + inb(x, i) * 110; o[0] = o[1]; }
//@ filtered copy | viennagrid::copy, vertex_copy_map (viennagrid/mesh/mesh_operations.hpp)
struct Keep { bool a, b; Keep(bool p, bool q) : a(p), b(q) {} template <typename E> bool operator()(E const & e) const { return e.id().get() == 0 ? a : b; } };
// the copy has exactly the accepted cells, each with its own vertices in order, and each used vertex once
template <typename MeshT> void cells(MeshT & n, long * o, double * c, int base) { o[base] = viennagrid::triangles(n).size(); o[base + 1] = viennagrid::vertices(n).size(); o[base + 2] = viennagrid::lines(n).size(); }
X void P_filtered_counts(double const * x, long * o) { OKX Two<Tri> w(x); Tri n; make_vertex(n); viennagrid::copy(w.m, n, Keep(x[11] > 0, x[12] > 0)); o[0] = viennagrid::triangles(n).size(); o[1] = viennagrid::vertices(n).size(); o[2] = viennagrid::lines(n).size(); }
X void R_filtered_counts(double const * x, long * o) { OKX bool a = x[11] > 0, b = x[12] > 0; o[0] = a + b; o[1] = a && b ? (inb(x, 3) ? 4 : 3) : (a || b ? 3 : 0); o[2] = a && b ? nlines(x) : (a || b ? 3 : 0); }
X void P_filtered_cells(double const * x, double * c) { OKX if (x[11] == 0 || x[12] == 0) return; Two<Tri> w(x); Tri n; viennagrid::copy(w.m, n, Keep(x[11] > 0, x[12] > 0)); long k = viennagrid::triangles(n).size(); for (int t = 0; t < 2; ++t) for (int j = 0; j < 3; ++j) if (t < k) { c[6 * t + 2 * j] = point(viennagrid::vertices(viennagrid::triangles(n)[t])[j])[0]; c[6 * t + 2 * j + 1] = point(viennagrid::vertices(viennagrid::triangles(n)[t])[j])[1]; } }
X void R_filtered_cells(double const * x, double * c) { OKX if (x[11] == 0 || x[12] == 0) return; bool a = x[11] > 0, b = x[12] > 0; int t = 0; if (a) { for (int j = 0; j < 3; ++j) { c[2 * j] = x[3 + 2 * j]; c[2 * j + 1] = x[4 + 2 * j]; } t = 1; } if (b) for (int j = 0; j < 3; ++j) { long i = Pick::at(x, 0, j); c[6 * t + 2 * j] = x[3 + 2 * i]; c[6 * t + 2 * j + 1] = x[4 + 2 * i]; } }
//@ element copy | viennagrid::copy_elements, copy_elements_by_handle (viennagrid/mesh/element_creation.hpp)
X void P_copy_elements(double const * x, long * o, double * c) { OKX Two<Tri> w(x); Tri n; typedef viennagrid::result_of::triangle_range<Tri>::type R; R r(w.m); copy_elements(r.begin(), r.end(), n); o[0] = viennagrid::triangles(n).size(); o[1] = viennagrid::vertices(n).size(); o[2] = viennagrid::lines(n).size(); for (int t = 0; t < 2; ++t) for (int j = 0; j < 3; ++j) { c[6 * t + 2 * j] = point(viennagrid::vertices(viennagrid::triangles(n)[t])[j])[0]; c[6 * t + 2 * j + 1] = point(viennagrid::vertices(viennagrid::triangles(n)[t])[j])[1]; } }
X void R_copy_elements(double const * x, long * o, double * c) { OKX o[0] = 2; o[1] = inb(x, 3) ? 4 : 3; o[2] = nlines(x); for (int j = 0; j < 3; ++j) { c[2 * j] = x[3 + 2 * j]; c[2 * j + 1] = x[4 + 2 * j]; long i = Pick::at(x, 0, j); c[6 + 2 * j] = x[3 + 2 * i]; c[6 + 2 * j + 1] = x[4 + 2 * i]; } }
X void P_copy_by_handle(double const * x, long * o, double * c) { OKX Two<Tri> w(x); Tri n; TH h[2] = { w.a, w.b }; typedef std::vector<TH> HV; HV hv; hv.push_back(w.a); hv.push_back(w.b); copy_elements_by_handle(w.m, hv.begin(), hv.end(), n); o[0] = viennagrid::triangles(n).size(); o[1] = viennagrid::vertices(n).size(); o[2] = viennagrid::lines(n).size(); for (int t = 0; t < 2; ++t) for (int j = 0; j < 3; ++j) { c[6 * t + 2 * j] = point(viennagrid::vertices(viennagrid::triangles(n)[t])[j])[0]; c[6 * t + 2 * j + 1] = point(viennagrid::vertices(viennagrid::triangles(n)[t])[j])[1]; } }
X void R_copy_by_handle(double const * x, long * o, double * c) { OKX o[0] = 2; o[1] = inb(x, 3) ? 4 : 3; o[2] = nlines(x); for (int j = 0; j < 3; ++j) { c[2 * j] = x[3 + 2 * j]; c[2 * j + 1] = x[4 + 2 * j]; long i = Pick::at(x, 0, j); c[6 + 2 * j] = x[3 + 2 * i]; c[6 + 2 * j + 1] = x[4 + 2 * i]; } }
//@ segmented meshes | segmented_mesh::operator= (viennagrid/mesh/segmented_mesh.hpp), viennagrid::copy (viennagrid/mesh/mesh_operations.hpp)
enum { sz_ = sizeof(SegT<Tri>::type) };
typedef viennagrid::segmented_mesh<Tri, SegT<Tri>::type> SM;
// cell t is in segment s iff y[2 * s + t] > 0
template <typename S> void fillsm(S & w, double const * x) { VH v[4]; for (int i = 0; i < 4; ++i) v[i] = make_vertex(w.mesh, C2(x[3 + 2 * i], x[4 + 2 * i])); TH a = make_triangle(w.mesh, v[0], v[1], v[2]), b = make_triangle(w.mesh, pick3(&*v[0] + Pick::off(0), x[0]), pick3(&*v[0] + Pick::off(1), x[1]), pick3(&*v[0] + Pick::off(2), x[2]));
  SegT<Tri>::handle h0(w.segmentation.make_segment()), h1(w.segmentation.make_segment()); if (x[11] > 0) add(h0, *a); if (x[12] > 0) add(h0, *b); if (x[13] > 0) add(h1, *a); if (x[14] > 0) add(h1, *b); }
template <typename S> void seesm(S & n, long * o) { o[0] = viennagrid::triangles(n.mesh).size(); o[1] = viennagrid::lines(n.mesh).size(); o[2] = viennagrid::vertices(n.mesh).size(); for (int s = 0; s < 2; ++s) for (int t = 0; t < 2; ++t) o[3 + 2 * s + t] = is_in_segment(n.segmentation.get_make_segment(s), viennagrid::triangles(n.mesh)[t]); for (int s = 0; s < 2; ++s) o[7 + s] = viennagrid::triangles(n.segmentation.get_make_segment(s)).size(); }
inline void seensm(double const * x, long * o) { o[0] = 2; o[1] = nlines(x); o[2] = inb(x, 3) ? 4 : 3; for (int k = 0; k < 4; ++k) o[3 + k] = x[11 + k] > 0; o[7] = o[3] + o[4]; o[8] = o[5] + o[6]; }
X void P_segmented_assign(double const * x, long * o) { OKX SM w; fillsm(w, x); SM n; n = w; seesm(n, o); }
X void R_segmented_assign(double const * x, long * o) { OKX seensm(x, o); }
X void P_segmented_construct(double const * x, long * o) { OKX SM w; fillsm(w, x); SM n(w); seesm(n, o); }
X void R_segmented_construct(double const * x, long * o) { OKX seensm(x, o); }
// a filtered copy into a destination that already has cells and segments: nothing of the old contents survives
X void P_segmented_copy_again(double const * x, long * o) { OKX SM w; fillsm(w, x); SM n; { VH v[3]; for (int i = 0; i < 3; ++i) v[i] = make_vertex(n.mesh); TH a = make_triangle(n.mesh, v[0], v[1], v[2]); n.segmentation.make_segment(); SegT<Tri>::handle h(n.segmentation[7]); add(h, *a); }
  viennagrid::copy(w.mesh, w.segmentation, n.mesh, n.segmentation, viennagrid::true_functor()); seesm(n, o); o[9] = viennagrid::triangles(n.segmentation[7]).size(); o[10] = viennagrid::triangles(n.segmentation).size(); }
X void R_segmented_copy_again(double const * x, long * o) { OKX seensm(x, o); o[9] = 0; o[10] = (x[11] > 0 || x[13] > 0) + (x[12] > 0 || x[14] > 0); }
