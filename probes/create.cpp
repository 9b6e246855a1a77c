#ifndef VG_CAP
#define VG_CAP 6
#endif
#ifndef VG_MAPCAP
#define VG_MAPCAP 6
#endif
#include "seg.hpp"
#undef string
#undef stringstream
typedef viennagrid::triangular_2d_mesh Tri;
typedef El<Tri, triangle_tag>::type TE; typedef El<Tri, line_tag>::type LE; typedef El<Tri, vertex_tag>::type VE;
typedef viennagrid::result_of::handle<Tri, vertex_tag>::type VH; typedef viennagrid::result_of::handle<Tri, triangle_tag>::type TH; typedef viennagrid::result_of::handle<Tri, line_tag>::type LH;
// two triangles: the first has the vertices 0, 1, 2, the second any three distinct ones of four
typedef Conn<4, 1, 3> Pick;
template <typename MeshT> struct Two { MeshT m; typedef typename viennagrid::result_of::handle<MeshT, vertex_tag>::type H; H v[4]; typename viennagrid::result_of::handle<MeshT, triangle_tag>::type a, b;
  Two(double const * x) { for (int i = 0; i < 4; ++i) v[i] = make_vertex(m); a = make_triangle(m, v[0], v[1], v[2]); b = make_triangle(m, pick(x, 0), pick(x, 1), pick(x, 2)); }
  H pick(double const * x, int k) { return pick3(&*v[0] + Pick::off(k), x[k]); } };
inline int e0(int k) { return k == 2 ? 1 : 0; } inline int e1(int k) { return k == 0 ? 1 : 2; }
inline bool same2(long a, long b, long c, long d) { return (a == c && b == d) || (a == d && b == c); }
inline bool shared(double const * x, int k, int j) { return same2(Pick::at(x, 0, e0(k)), Pick::at(x, 0, e1(k)), e0(j), e1(j)); }
inline bool old(double const * x, int k) { return shared(x, k, 0) || shared(x, k, 1) || shared(x, k, 2); }
template <typename E> long vid(E const & e, int k) { return (long)viennagrid::vertices(e)[k].id().get(); }
#define OKX if (!Pick::ok(x)) return;
//@ two triangles | viennagrid::make_triangle (viennagrid/mesh/element_creation.hpp)
X void P_counts(double const * x, long * o) { OKX Two<Tri> w(x); o[0] = viennagrid::vertices(w.m).size(); o[1] = viennagrid::lines(w.m).size(); o[2] = viennagrid::triangles(w.m).size(); o[3] = viennagrid::cells(w.m).size(); }
X void R_counts(double const * x, long * o) { OKX o[0] = 4; o[2] = o[3] = 2; long n = 3; for (int k = 0; k < 3; ++k) n += !old(x, k); o[1] = n; }
X void P_vertices(double const * x, long * o) { OKX Two<Tri> w(x); for (int k = 0; k < 3; ++k) { o[k] = vid(*w.b, k); o[3 + k] = vid(*w.a, k); o[6 + k] = &viennagrid::vertices(*w.b)[k] == &*w.pick(x, k); } o[9] = (*w.a).id().get(); o[10] = (*w.b).id().get(); for (int i = 0; i < 4; ++i) o[11 + i] = (*w.v[i]).id().get(); }
X void R_vertices(double const * x, long * o) { OKX for (int k = 0; k < 3; ++k) { o[k] = Pick::at(x, 0, k); o[3 + k] = k; o[6 + k] = 1; } o[9] = 0; o[10] = 1; for (int i = 0; i < 4; ++i) o[11 + i] = i; }
X void P_edges(double const * x, long * o) { OKX Two<Tri> w(x); for (int k = 0; k < 3; ++k) { LE & l = viennagrid::lines(*w.b)[k]; o[k] = same2(vid(l, 0), vid(l, 1), Pick::at(x, 0, e0(k)), Pick::at(x, 0, e1(k))); LE & q = viennagrid::lines(*w.a)[k]; o[3 + k] = same2(vid(q, 0), vid(q, 1), e0(k), e1(k));
  for (int j = 0; j < 3; ++j) o[6 + 3 * k + j] = &viennagrid::lines(*w.a)[j] == &l; } }
X void R_edges(double const * x, long * o) { OKX for (int k = 0; k < 3; ++k) { o[k] = 1; o[3 + k] = 1; for (int j = 0; j < 3; ++j) o[6 + 3 * k + j] = shared(x, k, j); } }
// line IDs: those of the first triangle are 0, 1, 2 in some order; a new line gets an ID that no other line has
X void P_line_ids(double const * x, long * o) { OKX Two<Tri> w(x); for (int k = 0; k < 3; ++k) for (int j = 0; j < 3; ++j) { o[3 * k + j] = viennagrid::lines(*w.b)[k].id() == viennagrid::lines(*w.a)[j].id(); o[9 + 3 * k + j] = viennagrid::lines(*w.a)[k].id() == viennagrid::lines(*w.a)[j].id(); o[18 + 3 * k + j] = viennagrid::lines(*w.b)[k].id() == viennagrid::lines(*w.b)[j].id(); } }
X void R_line_ids(double const * x, long * o) { OKX for (int k = 0; k < 3; ++k) for (int j = 0; j < 3; ++j) { o[3 * k + j] = shared(x, k, j); o[9 + 3 * k + j] = k == j; o[18 + 3 * k + j] = k == j; } }
// every element of a range knows its ID, IDs are 0 .. n - 1
X void P_dense(double const * x, long * o) { OKX Two<Tri> w(x); typedef viennagrid::result_of::line_range<Tri>::type R; R r(w.m); long n = 0, s = 0, p = 0; for (viennagrid::result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it) { ++n; s += 1L << (*it).id().get(); } p = (1L << n) - 1; o[0] = s == p; }
X void R_dense(double const * x, long * o) { OKX o[0] = 1; }
X void P_changed(double const * x, long * o) { OKX Two<Tri> w(x); Tri::change_counter_type c = w.m.change_counter_; make_vertex(w.m); o[0] = w.m.is_obsolete(c); c = w.m.change_counter_; make_triangle(w.m, w.pick(x, 0), w.pick(x, 1), w.v[3]); o[1] = w.m.is_obsolete(c); }
X void R_changed(double const * x, long * o) { OKX o[0] = o[1] = 1; }
//@ lines | viennagrid::make_line, make_edge (viennagrid/mesh/element_creation.hpp)
// creating a line which the triangle already has returns it
X void P_make_line(double const * x, long * o) { OKX Tri m; VH v[4]; for (int i = 0; i < 4; ++i) v[i] = make_vertex(m); TH a = make_triangle(m, v[0], v[1], v[2]); VH p = pick3(&*v[0], x[0]), q = pick3(&*v[1], x[2]); LH l = make_line(m, p, q);
  o[0] = viennagrid::lines(m).size(); for (int j = 0; j < 3; ++j) o[1 + j] = &viennagrid::lines(*a)[j] == &*l; o[4] = same2(vid(*l, 0), vid(*l, 1), (*p).id().get(), (*q).id().get()); LH e = make_edge(m, q, p); o[5] = &*e == &*l; o[6] = viennagrid::lines(m).size(); }
X void R_make_line(double const * x, long * o) { OKX long p = pick3i(x[0]), q = 1 + pick3i(x[2]); bool f = false; for (int j = 0; j < 3; ++j) f = f || same2(p, q, e0(j), e1(j)); for (int j = 0; j < 3; ++j) o[1 + j] = same2(p, q, e0(j), e1(j)); o[0] = o[6] = f ? 3 : 4; o[4] = 1; o[5] = 1; }
// line first, triangle later
X void P_line_first(double const * x, long * o) { OKX Tri m; VH v[4]; for (int i = 0; i < 4; ++i) v[i] = make_vertex(m); LH l = make_line(m, pick3(&*v[0], x[0]), pick3(&*v[1], x[2])); TH a = make_triangle(m, v[0], v[1], v[2]);
  o[0] = viennagrid::lines(m).size(); for (int j = 0; j < 3; ++j) o[1 + j] = &viennagrid::lines(*a)[j] == &*l; }
X void R_line_first(double const * x, long * o) { OKX long p = pick3i(x[0]), q = 1 + pick3i(x[2]); bool f = false; for (int j = 0; j < 3; ++j) f = f || same2(p, q, e0(j), e1(j)); for (int j = 0; j < 3; ++j) o[1 + j] = same2(p, q, e0(j), e1(j)); o[0] = f ? 3 : 4; }
//@ explicit ids | viennagrid::make_vertex_with_id, make_element_with_id (viennagrid/mesh/element_creation.hpp), continuous_id_generator (viennagrid/storage/id_generator.hpp)
typedef VE::id_type VI; typedef TE::id_type TI;
X void P_vertex_id(int i, int j, double const * p, long * o, double * c) { if (i < 0 || j < 0 || i == j) return; if (i > 1000000 || j > 1000000) return; Tri m; Tri::change_counter_type cc = m.change_counter_; C2 q(p[0], p[1]), r(p[2], p[3]); VH a = make_vertex_with_id(m, VI(i), q), b = make_vertex_with_id(m, VI(j), r), d = make_vertex(m, q);
  o[0] = (*a).id().get(); o[1] = (*b).id().get(); o[2] = (*d).id().get() != i && (*d).id().get() != j; o[3] = viennagrid::vertices(m).size(); o[4] = m.is_obsolete(cc); c[0] = point(m, a)[0]; c[1] = point(m, a)[1]; c[2] = point(m, b)[0]; c[3] = point(m, b)[1]; c[4] = point(m, d)[0]; c[5] = point(m, d)[1]; }
X void R_vertex_id(int i, int j, double const * p, long * o, double * c) { if (i < 0 || j < 0 || i == j) return; if (i > 1000000 || j > 1000000) return; o[0] = i; o[1] = j; o[2] = 1; o[3] = 3; o[4] = 1; c[0] = c[4] = p[0]; c[1] = c[5] = p[1]; c[2] = p[2]; c[3] = p[3]; }
X void P_cell_id(int i, long * o) { if (i < 0 || i > 1000000) return; Tri m; VH v[4]; for (int k = 0; k < 4; ++k) v[k] = make_vertex(m); TH a = make_element_with_id<triangle_tag>(m, v, v + 3, TI(i)), b = make_triangle(m, v[1], v[2], v[3]), c = make_cell_with_id(m, v + 1, v + 4, TI(i + 5)), d = make_cell(m, v + 1, v + 4);
  o[0] = (*a).id().get(); o[1] = (*b).id().get() != i; o[2] = (*c).id().get(); o[3] = (*d).id().get() != (*c).id().get() && (*d).id().get() != (*b).id().get() && (*d).id().get() != (*a).id().get(); o[4] = viennagrid::lines(m).size(); o[5] = viennagrid::triangles(m).size(); for (int k = 0; k < 3; ++k) { o[6 + k] = vid(*a, k); o[9 + k] = vid(*b, k); o[12 + k] = vid(*c, k); o[15 + k] = vid(*d, k); } }
X void R_cell_id(int i, long * o) { if (i < 0 || i > 1000000) return; o[0] = i; o[1] = 1; o[2] = i + 5; o[3] = 1; o[4] = 5; o[5] = 4; for (int k = 0; k < 3; ++k) { o[6 + k] = k; o[9 + k] = o[12 + k] = o[15 + k] = k + 1; } }
//@ unique vertices | viennagrid::make_unique_vertex (viennagrid/mesh/element_creation.hpp)
// the answer lies within the tolerance of the point if an existing vertex does, and is a new vertex at the point otherwise
X void P_unique(double const * p, double const * q, double t, long * o, double * c) { Tri m; VH v[2]; for (int i = 0; i < 2; ++i) v[i] = make_vertex(m, C2(p[2 * i], p[2 * i + 1])); VH u = make_unique_vertex(m, C2(q[0], q[1]), t); 
  o[0] = viennagrid::vertices(m).size(); o[1] = &*u == &*v[0]; o[2] = &*u == &*v[1]; if (o[0] > 2) { c[0] = point(m, u)[0]; c[1] = point(m, u)[1]; } }
inline bool near(double const * p, double const * q, double t) { return t > 0 && norm_2(C2(q[0], q[1]) - C2(p[0], p[1])) < t; }
X void R_unique(double const * p, double const * q, double t, long * o, double * c) { bool a = near(p, q, t), b = near(p + 2, q, t); o[0] = a || b ? 2 : 3; o[1] = a; o[2] = !a && b; if (!a && !b) { c[0] = q[0]; c[1] = q[1]; } }
X void R_unique__last(double const * p, double const * q, double t, long * o, double * c) { bool a = near(p, q, t), b = near(p + 2, q, t); o[0] = a || b ? 2 : 3; o[1] = a && !b; o[2] = b; if (!a && !b) { c[0] = q[0]; c[1] = q[1]; } }
//@ in segments | viennagrid::make_triangle(segment, ...) (viennagrid/mesh/element_creation.hpp), recursive_inserter (viennagrid/storage/inserter.hpp)
// the first triangle is made in segment 0, the second in segment 1: each segment holds its cell and all of the cell's boundary, and the mesh holds everything once
struct SW { Tri m; SegT<Tri>::type s; VH v[4]; TH a, b; SegT<Tri>::handle h0, h1;
  SW(double const * x) : s(m), h0(s.make_segment()), h1(s.make_segment()) { for (int i = 0; i < 4; ++i) v[i] = make_vertex(m); a = make_triangle(h0, v[0], v[1], v[2]); b = make_triangle(h1, pick(x, 0), pick(x, 1), pick(x, 2)); }
  VH pick(double const * x, int k) { return pick3(&*v[0] + Pick::off(k), x[k]); } };
X void P_seg_counts(double const * x, long * o) { OKX SW w(x); o[0] = viennagrid::vertices(w.m).size(); o[1] = viennagrid::lines(w.m).size(); o[2] = viennagrid::triangles(w.m).size(); o[3] = viennagrid::triangles(w.h0).size(); o[4] = viennagrid::lines(w.h0).size(); o[5] = viennagrid::vertices(w.h0).size(); o[6] = viennagrid::triangles(w.h1).size(); o[7] = viennagrid::lines(w.h1).size(); o[8] = viennagrid::vertices(w.h1).size(); }
X void R_seg_counts(double const * x, long * o) { OKX o[0] = 4; o[2] = 2; long n = 3; for (int k = 0; k < 3; ++k) n += !old(x, k); o[1] = n; o[3] = o[6] = 1; o[4] = o[5] = o[7] = o[8] = 3; }
inline bool inb(double const * x, int i) { return Pick::at(x, 0, 0) == i || Pick::at(x, 0, 1) == i || Pick::at(x, 0, 2) == i; }
X void P_seg_members(double const * x, long * o) { OKX SW w(x); for (int i = 0; i < 4; ++i) { o[2 * i] = is_in_segment(w.h0, *w.v[i]); o[2 * i + 1] = is_in_segment(w.h1, *w.v[i]); } for (int k = 0; k < 3; ++k) { o[8 + 2 * k] = is_in_segment(w.h0, viennagrid::lines(*w.b)[k]); o[9 + 2 * k] = is_in_segment(w.h1, viennagrid::lines(*w.b)[k]); } o[14] = is_in_segment(w.h0, *w.a); o[15] = is_in_segment(w.h1, *w.a); o[16] = is_in_segment(w.h0, *w.b); o[17] = is_in_segment(w.h1, *w.b); o[18] = &viennagrid::triangles(w.h1)[0] == &*w.b; }
X void R_seg_members(double const * x, long * o) { OKX for (int i = 0; i < 4; ++i) { o[2 * i] = i < 3; o[2 * i + 1] = inb(x, i); } for (int k = 0; k < 3; ++k) { o[8 + 2 * k] = old(x, k); o[9 + 2 * k] = 1; } o[14] = o[17] = 1; o[15] = o[16] = 0; o[18] = 1; }
X void P_seg_vertex(double const * p, long * o, double * c) { Tri m; SegT<Tri>::type s(m); SegT<Tri>::handle h0(s.make_segment()), h1(s.make_segment()); VH a = make_vertex(h1, C2(p[0], p[1])), b = make_vertex(m, C2(p[2], p[3])); o[0] = viennagrid::vertices(m).size(); o[1] = viennagrid::vertices(h0).size(); o[2] = viennagrid::vertices(h1).size(); o[3] = is_in_segment(h1, *a); o[4] = is_in_segment(h0, *a); o[5] = is_in_segment(h1, *b); o[6] = (*a).id() == (*b).id(); c[0] = point(m, a)[0]; c[1] = point(m, a)[1]; c[2] = point(m, b)[0]; c[3] = point(m, b)[1]; }
X void R_seg_vertex(double const * p, long * o, double * c) { o[0] = 2; o[1] = 0; o[2] = 1; o[3] = 1; o[4] = o[5] = o[6] = 0; for (int i = 0; i < 4; ++i) c[i] = p[i]; }
