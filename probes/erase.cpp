#define VG_CAP 6
#define VG_MAPCAP 6
#include "seg.hpp"
#undef string
#undef stringstream
typedef viennagrid::triangular_2d_mesh Tri;
typedef El<Tri, triangle_tag>::type TE; typedef El<Tri, line_tag>::type LE; typedef El<Tri, vertex_tag>::type VE;
typedef viennagrid::result_of::handle<Tri, vertex_tag>::type VH; typedef viennagrid::result_of::handle<Tri, triangle_tag>::type TH; typedef viennagrid::result_of::handle<Tri, line_tag>::type LH;
template <typename E> long vid(E const & e, int k) { return (long)viennagrid::vertices(e)[k].id().get(); }
inline int e0(int k) { return k == 2 ? 1 : 0; } inline int e1(int k) { return k == 0 ? 1 : 2; }
inline bool same2(long a, long b, long c, long d) { return (a == c && b == d) || (a == d && b == c); }
// two triangles 0 1 2 and 1 3 2; vertex i lies at (x[2 i], x[2 i + 1])
struct Two { Tri m; VH v[4]; TH a, b; Two(double const * x) { for (int i = 0; i < 4; ++i) v[i] = make_vertex(m, C2(x[2 * i], x[2 * i + 1])); a = make_triangle(m, v[0], v[1], v[2]); b = make_triangle(m, v[1], v[3], v[2]); } };
// what a user sees: for every vertex ID whether it is there, once, and at which point; every line by its vertex IDs; every triangle by its vertex IDs, edges inside the mesh
template <typename MeshT> void see(MeshT & m, long * o, double * c)
{
  typedef typename viennagrid::result_of::vertex_range<MeshT>::type RV; typedef typename viennagrid::result_of::line_range<MeshT>::type RL; typedef typename viennagrid::result_of::triangle_range<MeshT>::type RT;
  long nv[4] = { 0, 0, 0, 0 }; RV rv(m); for (typename viennagrid::result_of::iterator<RV>::type it = rv.begin(); it != rv.end(); ++it) for (int i = 0; i < 4; ++i) if ((*it).id().get() == i) { ++nv[i]; c[2 * i] = point(*it)[0]; c[2 * i + 1] = point(*it)[1]; }
  for (int i = 0; i < 4; ++i) o[i] = nv[i];
  static const int a[5] = { 0, 0, 1, 1, 3 }, b[5] = { 1, 2, 2, 3, 2 }; long nl[5] = { 0, 0, 0, 0, 0 }; RL rl(m); long n = 0; for (typename viennagrid::result_of::iterator<RL>::type it = rl.begin(); it != rl.end(); ++it, ++n) for (int k = 0; k < 5; ++k) nl[k] += same2(vid(*it, 0), vid(*it, 1), a[k], b[k]);
  for (int k = 0; k < 5; ++k) o[4 + k] = nl[k]; o[9] = n;
  long nt[2] = { 0, 0 }, ok = 0; n = 0; RT rt(m); for (typename viennagrid::result_of::iterator<RT>::type it = rt.begin(); it != rt.end(); ++it, ++n) { nt[0] += (*it).id().get() == 0 && vid(*it, 0) == 0 && vid(*it, 1) == 1 && vid(*it, 2) == 2; nt[1] += (*it).id().get() == 1 && vid(*it, 0) == 1 && vid(*it, 1) == 3 && vid(*it, 2) == 2;
    for (int k = 0; k < 3; ++k) ok += same2(vid(viennagrid::lines(*it)[k], 0), vid(viennagrid::lines(*it)[k], 1), vid(*it, e0(k)), vid(*it, e1(k))); }
  o[10] = nt[0]; o[11] = nt[1]; o[12] = n; o[13] = ok == 3 * n;
}
// the expected view when triangles ta, tb, the lines in l and the vertices in v remain
inline void seen(bool ta, bool tb, bool const * l, bool const * v, double const * x, long * o, double * c) { for (int i = 0; i < 4; ++i) { o[i] = v[i]; if (v[i]) { c[2 * i] = x[2 * i]; c[2 * i + 1] = x[2 * i + 1]; } } long n = 0; for (int k = 0; k < 5; ++k) { o[4 + k] = l[k]; n += l[k]; } o[9] = n; o[10] = ta; o[11] = tb; o[12] = ta + tb; o[13] = 1; }
//@ cells | viennagrid::erase_element (viennagrid/mesh/element_deletion.hpp)
X void P_cell(double const * x, double y, long * o, double * c) { Two w(x); erase_element(w.m, y < 0 ? w.a : w.b); see(w.m, o, c); }
X void R_cell(double const * x, double y, long * o, double * c) { bool l[5] = { 1, 1, 1, 1, 1 }, v[4] = { 1, 1, 1, 1 }; seen(!(y < 0), y < 0, l, v, x, o, c); }
//@ lines | viennagrid::erase_element (viennagrid/mesh/element_deletion.hpp)
inline bool *set5(bool * l, int k) { for (int i = 0; i < 5; ++i) l[i] = i != k; return l; }
X void P_shared_line(double const * x, long * o, double * c) { Two w(x); erase_element(w.m, &viennagrid::lines(*w.a)[2]); see(w.m, o, c); }
X void R_shared_line(double const * x, long * o, double * c) { bool l[5], v[4] = { 1, 1, 1, 1 }; seen(0, 0, set5(l, 2), v, x, o, c); }
X void P_line(double const * x, double y, long * o, double * c) { Two w(x); erase_element(w.m, &viennagrid::lines(*w.a)[y < 0 ? 0 : 1]); see(w.m, o, c); }
X void R_line(double const * x, double y, long * o, double * c) { bool l[5], v[4] = { 1, 1, 1, 1 }; seen(0, 1, set5(l, y < 0 ? 0 : 1), v, x, o, c); }
//@ vertices | viennagrid::erase_element (viennagrid/mesh/element_deletion.hpp)
X void P_vertex(double const * x, double y, long * o, double * c) { Two w(x); erase_element(w.m, y < 0 ? w.v[0] : (y > 0 ? w.v[3] : w.v[1])); see(w.m, o, c); }
X void R_vertex(double const * x, double y, long * o, double * c) { int k = y < 0 ? 0 : (y > 0 ? 3 : 1); bool v[4], l[5] = { k != 0 && k != 1, k != 0, k != 1, k != 1 && k != 3, k != 3 }; for (int i = 0; i < 4; ++i) v[i] = i != k; seen(k == 3, k == 0, l, v, x, o, c); }
//@ afterwards | viennagrid::erase_elements, mark_erase_elements (viennagrid/mesh/element_deletion.hpp)
// elements made afterwards share the remaining edges and get unused IDs; derived information is detected again
X void P_recreate(double const * x, double y, long * o) { Two w(x); erase_element(w.m, y < 0 ? w.v[0] : (y > 0 ? w.v[3] : w.v[1])); long n = viennagrid::lines(w.m).size(); typedef viennagrid::result_of::vertex_range<Tri>::type R; R r(w.m); VH v[3]; for (int i = 0; i < 3; ++i) v[i] = r.handle_at(i); TH t = make_triangle(w.m, v[0], v[1], v[2]); o[0] = n; o[1] = viennagrid::lines(w.m).size(); o[2] = (*t).id().get(); for (int k = 0; k < 3; ++k) o[3 + k] = same2(vid(viennagrid::lines(*t)[k], 0), vid(viennagrid::lines(*t)[k], 1), vid(*t, e0(k)), vid(*t, e1(k))); o[6] = (*make_vertex(w.m)).id().get(); for (int k = 0; k < 3; ++k) for (int j = 0; j < 3; ++j) o[7 + 3 * k + j] = viennagrid::lines(*t)[k].id() == viennagrid::lines(*t)[j].id(); }
X void R_recreate(double const * x, double y, long * o) { int k = y < 0 ? 0 : (y > 0 ? 3 : 1); o[0] = k == 1 ? 2 : 3; o[1] = 3; o[2] = 2; o[3] = o[4] = o[5] = 1; o[6] = 4; for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) o[7 + 3 * a + b] = a == b; }
X void P_remake_line(double const * x, double y, long * o) { Two w(x); erase_element(w.m, &viennagrid::lines(*w.a)[y < 0 ? 0 : 1]); long n = viennagrid::lines(w.m).size(); LH l = make_line(w.m, w.v[3], w.v[2]), q = make_line(w.m, w.v[1], w.v[2]); o[0] = n; o[1] = viennagrid::lines(w.m).size(); o[2] = same2(vid(*l, 0), vid(*l, 1), 2, 3); o[3] = same2(vid(*q, 0), vid(*q, 1), 1, 2); LH z = y < 0 ? make_line(w.m, w.v[0], w.v[1]) : make_line(w.m, w.v[0], w.v[2]); o[4] = viennagrid::lines(w.m).size(); o[5] = (*z).id().get(); o[6] = vid(*z, 0); }
X void R_remake_line(double const * x, double y, long * o) { o[0] = o[1] = 4; o[2] = o[3] = 1; o[4] = 5; o[5] = 5; o[6] = 0; }
X void P_changed(double const * x, double y, long * o) { Two w(x); Tri::change_counter_type k = w.m.change_counter_; erase_element(w.m, y < 0 ? w.a : w.b); o[0] = w.m.is_obsolete(k); }
X void R_changed(double const *, double, long * o) { o[0] = 1; }
typedef viennagrid::result_of::mesh_view<Tri>::type View;
// any set of the two triangles and the vertex 0, marked together
X void P_marked(double const * x, double a, double b, double v, long * o, double * c) { Two w(x); View e = viennagrid::make_view(w.m); if (a < 0) mark_erase_elements(w.m, e, w.a); if (b < 0) mark_erase_elements(w.m, e, w.b); if (v < 0) mark_erase_elements(w.m, e, w.v[0]); erase_elements(w.m, e); see(w.m, o, c); }
X void R_marked(double const * x, double a, double b, double v, long * o, double * c) { bool l[5] = { !(v < 0), !(v < 0), 1, 1, 1 }, u[4] = { !(v < 0), 1, 1, 1 }; seen(!(a < 0) && !(v < 0), !(b < 0), l, u, x, o, c); }
// erasing from a view leaves the mesh as it is
X void P_from_view(double const * x, double a, double v, long * o, double * c, long * q) { Two w(x); View f = viennagrid::make_view(w.m); viennagrid::elements<TE>(f).insert_handle(w.a); viennagrid::elements<TE>(f).insert_handle(w.b); for (int i = 0; i < 4; ++i) viennagrid::elements<VE>(f).insert_handle(w.v[i]); Tri::change_counter_type k = f.change_counter_;
  View e = viennagrid::make_view(w.m); if (a < 0) viennagrid::elements<TE>(e).insert_handle(w.a); if (v < 0) viennagrid::elements<VE>(e).insert_handle(w.v[2]); erase_elements(f, e); see(w.m, o, c); q[0] = viennagrid::triangles(f).size(); q[1] = viennagrid::vertices(f).size(); q[2] = f.is_obsolete(k); typedef viennagrid::result_of::vertex_range<View>::type R; R r(f); long n = 0; for (viennagrid::result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it) n += 1L << (3 * (*it).id().get()); q[3] = n; }
X void R_from_view(double const * x, double a, double v, long * o, double * c, long * q) { bool l[5] = { 1, 1, 1, 1, 1 }, u[4] = { 1, 1, 1, 1 }; seen(1, 1, l, u, x, o, c); q[0] = 2 - (a < 0); q[1] = 4 - (v < 0); q[2] = 1; q[3] = 1 + 8 + 512 + (v < 0 ? 0 : 64); }
