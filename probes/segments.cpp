#include "seg.hpp"
typedef fz::W<line_tag, C1, 3, 2, 1, 1, 6>::type Lin;
// contents of two segments as seen by the user: per element of tag A six numbers
template <typename MeshT, typename A, int NA> struct Op
{
  typedef typename SegT<MeshT>::type S; typedef typename SegT<MeshT>::handle H; typedef typename El<MeshT, A>::type EA;
  // the segment IDs listed for an element: multiplicity of 0 plus 4 times multiplicity of 1
  static long ids(S const & s, EA const & e) { typedef typename viennagrid::result_of::segment_id_range<S, EA>::type R; R r = segment_ids(s, e); long n = 0; for (typename R::const_iterator it = r.begin(); it != r.end(); ++it) n += *it == 0 ? 1 : (*it == 1 ? 4 : 100); return n; }
  static void out(MeshT & m, S & s, H & h0, H & h1, long * o)
  {
    for (int i = 0; i < NA; ++i)
    {
      o[6 * i] = St<MeshT, A>::times(m, h0, i); o[6 * i + 1] = St<MeshT, A>::times(m, h1, i); o[6 * i + 2] = St<MeshT, A>::times(m, s, i);
      o[6 * i + 3] = is_in_segment(h0, fz::arr<EA>(m)[i]); o[6 * i + 4] = is_in_segment(h1, fz::arr<EA>(m)[i]); o[6 * i + 5] = ids(s, fz::arr<EA>(m)[i]);
    }
  }
  static void ref(bool const * b, long * o) { for (int i = 0; i < NA; ++i) { o[6 * i] = o[6 * i + 3] = b[i]; o[6 * i + 1] = o[6 * i + 4] = b[NA + i]; o[6 * i + 2] = b[i] || b[NA + i]; o[6 * i + 5] = (long)b[i] + 4 * (long)b[NA + i]; } }
};
template <int N> struct Bits { bool v[N]; Bits(double const * b) { for (int i = 0; i < N; ++i) v[i] = b[i] > 0; } };
// two lines 0-1 and 1-2 with unknown membership bc (cells), bv (vertices)
struct LC { static bool has(int e, int i) { return i == e || i == e + 1; } };
typedef El<Lin, line_tag>::type LE; typedef El<Lin, vertex_tag>::type VE;
struct AddCell { template <typename S, typename H> static void go(S &, H & h, LE * c, VE *) { add(h, c[1]); } };
struct AddCellH { template <typename S, typename H> static void go(S &, H & h, LE * c, VE *) { add(h, c + 1); } };
struct AddCellId { template <typename S, typename H> static void go(S & s, H &, LE * c, VE *) { add(s, 0, c[1]); } };
struct AddCellHId { template <typename S, typename H> static void go(S & s, H &, LE * c, VE *) { add(s, 0, c + 1); } };
struct Ids { int v; typedef std::forward_iterator_tag iterator_category; Ids(int i) : v(i) {} int operator*() const { return v; } Ids & operator++() { ++v; return *this; } bool operator!=(Ids const & o) const { return v != o.v; } };
struct AddCellBoth { template <typename S, typename H> static void go(S & s, H &, LE * c, VE *) { add(s, Ids(0), Ids(2), c[1]); } };
struct AddCellBothH { template <typename S, typename H> static void go(S & s, H &, LE * c, VE *) { add(s, Ids(0), Ids(2), c + 1); } };
struct AddVertex { template <typename S, typename H> static void go(S &, H & h, LE *, VE * v) { add(h, v[2]); } };
struct UncheckedAdd { template <typename S, typename H> static void go(S &, H & h, LE * c, VE *) { unchecked_add(h, c[1]); } };
struct UncheckedAddH { template <typename S, typename H> static void go(S &, H & h, LE * c, VE *) { unchecked_add(h, c + 1); } };
struct EraseCell { template <typename S, typename H> static void go(S &, H & h, LE * c, VE *) { erase(h, c[1]); } };
struct EraseVertex { template <typename S, typename H> static void go(S &, H & h, LE *, VE * v) { erase(h, v[2]); } };
struct ClearSeg { template <typename S, typename H> static void go(S &, H & h, LE *, VE *) { clear(h); } };
template <typename O> void lin(double const * bc, double const * bv, long c0, long c1, bool ch0, bool ch1, long * oc, long * ov, long * cc)
{
  Lin m; SegT<Lin>::type s(m); make2(s, m); Init<Lin, line_tag>::go(m); for (int e = 0; e < 2; ++e) for (int k = 0; k < 2; ++k) fz::arr<LE>(m)[e].container(viennagrid::dimension_tag<0>()).set_handle(fz::arr<VE>(m) + e + k, k);
  SegT<Lin>::handle h0(s.segments[0]), h1(s.segments[1]); s.segment_id_map.insert(std::make_pair(0, h0)); s.segment_id_map.insert(std::make_pair(1, h1)); s.highest_id = 1;
  St<Lin, line_tag>::set(m, s, bc, 2); St<Lin, vertex_tag>::set(m, s, bv, 3); h0.view().change_counter_ = c0; h1.view().change_counter_ = c1;
  O::go(s, h0, fz::arr<LE>(m), fz::arr<VE>(m));
  Op<Lin, line_tag, 2>::out(m, s, h0, h1, oc); Op<Lin, vertex_tag, 3>::out(m, s, h0, h1, ov);
  // a segment whose contents changed has a new change counter
  cc[0] = !ch0 || h0.view().change_counter_ != c0; cc[1] = !ch1 || h1.view().change_counter_ != c1;
}
// a segment holds the vertices of its cells
inline bool closed(bool * c, bool * v) { for (int k = 0; k < 2; ++k) for (int e = 0; e < 2; ++e) for (int i = 0; i < 3; ++i) if (c[2 * k + e] && LC::has(e, i) && !v[3 * k + i]) return false; return true; }
struct RAdd { static const int k = 1; static bool pre(bool *, bool *) { return true; } static void go(bool * c, bool * v) { c[1] = true; for (int i = 0; i < 3; ++i) v[i] = v[i] || LC::has(1, i); } };
struct RAddBoth { static const int k = 1; static bool pre(bool *, bool *) { return true; } static void go(bool * c, bool * v) { c[1] = true; c[3] = true; for (int i = 0; i < 3; ++i) { v[i] = v[i] || LC::has(1, i); v[3 + i] = v[3 + i] || LC::has(1, i); } } };
struct RUnchecked { static bool pre(bool * c, bool * v) { if (c[1]) return false; for (int i = 0; i < 3; ++i) if (v[i] && LC::has(1, i)) return false; return true; } static void go(bool * c, bool * v) { RAdd::go(c, v); } };
struct RAddV { static bool pre(bool *, bool *) { return true; } static void go(bool *, bool * v) { v[2] = true; } };
struct REraseC { static bool pre(bool *, bool *) { return true; } static void go(bool * c, bool *) { c[1] = false; } };
struct REraseV { static bool pre(bool *, bool *) { return true; } static void go(bool * c, bool * v) { for (int e = 0; e < 2; ++e) if (LC::has(e, 2)) c[e] = false; v[2] = false; } };
struct RClear { static bool pre(bool *, bool *) { return true; } static void go(bool * c, bool * v) { for (int i = 0; i < 2; ++i) c[i] = false; for (int i = 0; i < 3; ++i) v[i] = false; } };
template <typename R> struct New { Bits<4> c; Bits<6> v; bool ok, ch0, ch1; New(double const * bc, double const * bv) : c(bc), v(bv) { ok = closed(c.v, v.v) && R::pre(c.v, v.v); R::go(c.v, v.v); ch0 = ch1 = false;
  for (int i = 0; i < 2; ++i) { ch0 = ch0 || c.v[i] != (bc[i] > 0); ch1 = ch1 || c.v[2 + i] != (bc[2 + i] > 0); } for (int i = 0; i < 3; ++i) { ch0 = ch0 || v.v[i] != (bv[i] > 0); ch1 = ch1 || v.v[3 + i] != (bv[3 + i] > 0); } } };
#define SO(N, O, R) X void P_##N(double const * bc, double const * bv, long c0, long c1, long * oc, long * ov, long * cc) { New<R> n(bc, bv); if (!n.ok || c0 <= 0 || c1 <= 0) return; lin<O>(bc, bv, c0, c1, n.ch0, n.ch1, oc, ov, cc); } \
  X void R_##N(double const * bc, double const * bv, long c0, long c1, long * oc, long * ov, long * cc) { New<R> n(bc, bv); if (!n.ok || c0 <= 0 || c1 <= 0) return; Op<Lin, line_tag, 2>::ref(n.c.v, oc); Op<Lin, vertex_tag, 3>::ref(n.v.v, ov); cc[0] = 1; cc[1] = 1; }
// queries on the state with unknown membership; flags of earlier queries are stale after every change of a segment
typedef SegT<Lin>::type LS; typedef SegT<Lin>::handle LH;
struct World { Lin m; SegT<Lin>::type s; World() : s(m) { make2(s, m); Init<Lin, line_tag>::go(m); for (int e = 0; e < 2; ++e) for (int k = 0; k < 2; ++k) fz::arr<LE>(m)[e].container(viennagrid::dimension_tag<0>()).set_handle(fz::arr<VE>(m) + e + k, k);
  for (int k = 0; k < 2; ++k) { SegT<Lin>::handle h(s.segments[k]); s.segment_id_map.insert(std::make_pair(k, h)); } s.highest_id = 1; }
  void set(double const * bc, double const * bv) { St<Lin, line_tag>::set(m, s, bc, 2); St<Lin, vertex_tag>::set(m, s, bv, 3); } };
// the state given by the cells alone: a segment holds its cells and their vertices
struct ByCells { double bc[4], bv[6]; bool c[4]; ByCells(double const * x, bool disjoint) { for (int i = 0; i < 4; ++i) { c[i] = x[i] > 0; if (disjoint && i >= 2 && c[i - 2]) c[i] = false; bc[i] = c[i] ? 1 : -1; } for (int k = 0; k < 2; ++k) for (int i = 0; i < 3; ++i) { bool in = false; for (int e = 0; e < 2; ++e) if (LC::has(e, i) && c[2 * k + e]) in = true; bv[3 * k + i] = in ? 1 : -1; } }
  bool bnd(int k, int i) const { int n = 0; for (int e = 0; e < 2; ++e) n += LC::has(e, i) && c[2 * k + e]; return n == 1; } bool in(int k, int i) const { return bv[3 * k + i] > 0; } };
#define CH(W_, A, B) SegT<Lin>::handle h0(W_.s.segments[0]), h1(W_.s.segments[1]); h0.view().change_counter_ = A; h1.view().change_counter_ = B;
//@ add | viennagrid::add(segment, element) (viennagrid/mesh/segmentation.hpp)
SO(add_cell, AddCell, RAdd)
SO(add_cell_handle, AddCellH, RAdd)
SO(add_cell_by_id, AddCellId, RAdd)
SO(add_cell_handle_by_id, AddCellHId, RAdd)
SO(add_cell_both, AddCellBoth, RAddBoth)
SO(add_cell_handle_both, AddCellBothH, RAddBoth)
SO(add_vertex, AddVertex, RAddV)
SO(unchecked_add, UncheckedAdd, RUnchecked)
SO(unchecked_add_handle, UncheckedAddH, RUnchecked)
//@ erase | viennagrid::erase(segment, element), clear(segment) (viennagrid/mesh/segmentation.hpp)
SO(erase_cell, EraseCell, REraseC)
SO(erase_vertex, EraseVertex, REraseV)
SO(clear_segment, ClearSeg, RClear)
//@ interface | viennagrid::is_interface(segment, segment, element), is_boundary(segment, element) (viennagrid/algorithm/interface.hpp)
X void P_interface(double const * x, long a, long b, long * o) { if (a <= 0 || b <= 0) return; ByCells n(x, true); World w; w.set(n.bc, n.bv); CH(w, a, b) for (int i = 0; i < 3; ++i) o[i] = is_interface(h0, h1, fz::arr<VE>(w.m)[i]); }
X void R_interface(double const * x, long a, long b, long * o) { if (a <= 0 || b <= 0) return; ByCells n(x, true); for (int i = 0; i < 3; ++i) o[i] = n.bnd(0, i) && n.in(1, i); }
X void P_interface_sym(double const * x, long a, long b, long * o) { if (a <= 0 || b <= 0) return; ByCells n(x, true); World w; w.set(n.bc, n.bv); CH(w, a, b) for (int i = 0; i < 3; ++i) o[i] = is_interface(h1, h0, fz::arr<VE>(w.m)[i]); }
X void R_interface_sym(double const * x, long a, long b, long * o) { R_interface(x, a, b, o); }
X void P_segment_boundary(double const * x, long a, long b, long * o) { if (a <= 0 || b <= 0) return; ByCells n(x, false); World w; w.set(n.bc, n.bv); CH(w, a, b) for (int i = 0; i < 3; ++i) { o[i] = n.in(0, i) && is_boundary(h0, fz::arr<VE>(w.m)[i]); o[3 + i] = n.in(1, i) && is_boundary(h1, fz::arr<VE>(w.m)[i]); } }
X void R_segment_boundary(double const * x, long a, long b, long * o) { if (a <= 0 || b <= 0) return; ByCells n(x, false); for (int i = 0; i < 3; ++i) { o[i] = n.bnd(0, i); o[3 + i] = n.bnd(1, i); } }
// query, change one segment, query again
template <int K> struct Again { static void go(double const * x, long a, long b, long * o) { if (a <= 0 || b <= 0) return; ByCells n(x, true); World w; w.set(n.bc, n.bv); CH(w, a, b) is_interface(h0, h1, fz::arr<VE>(w.m)[1]); add(K == 0 ? h0 : h1, fz::arr<LE>(w.m)[1]); for (int i = 0; i < 3; ++i) o[i] = is_interface(h0, h1, fz::arr<VE>(w.m)[i]); }
  static void ref(double const * x, long a, long b, long * o) { if (a <= 0 || b <= 0) return; double y[4]; ByCells n(x, true); for (int i = 0; i < 4; ++i) y[i] = n.bc[i]; if (n.c[2 * (1 - K) + 1]) return; y[2 * K + 1] = 1; ByCells r(y, true); for (int i = 0; i < 3; ++i) o[i] = r.bnd(0, i) && r.in(1, i); } };
X void P_interface_after_add0(double const * x, long a, long b, long * o) { ByCells n(x, true); if (n.c[3]) return; Again<0>::go(x, a, b, o); }
X void R_interface_after_add0(double const * x, long a, long b, long * o) { Again<0>::ref(x, a, b, o); }
X void P_interface_after_add1(double const * x, long a, long b, long * o) { ByCells n(x, true); if (n.c[1]) return; Again<1>::go(x, a, b, o); }
X void R_interface_after_add1(double const * x, long a, long b, long * o) { Again<1>::ref(x, a, b, o); }
X void P_interface_after_erase(double const * x, long a, long b, long * o) { if (a <= 0 || b <= 0) return; ByCells n(x, true); if (!n.c[1]) return; World w; w.set(n.bc, n.bv); CH(w, a, b) is_interface(h0, h1, fz::arr<VE>(w.m)[1]); erase(h0, fz::arr<LE>(w.m)[1]); for (int i = 0; i < 2; ++i) o[i] = is_interface(h0, h1, fz::arr<VE>(w.m)[i]); }
X void R_interface_after_erase(double const * x, long a, long b, long * o) { if (a <= 0 || b <= 0) return; ByCells n(x, true); if (!n.c[1]) return; double y[4]; for (int i = 0; i < 4; ++i) y[i] = n.bc[i]; y[1] = -1; ByCells r(y, true); for (int i = 0; i < 2; ++i) o[i] = r.bnd(0, i) && r.in(1, i); }
X void P_boundary_after_add(double const * x, long a, long b, long * o) { if (a <= 0 || b <= 0) return; ByCells n(x, false); World w; w.set(n.bc, n.bv); CH(w, a, b) if (n.in(0, 1)) is_boundary(h0, fz::arr<VE>(w.m)[1]); add(h0, fz::arr<LE>(w.m)[1]); for (int i = 1; i < 3; ++i) o[i] = is_boundary(h0, fz::arr<VE>(w.m)[i]); }
X void R_boundary_after_add(double const * x, long a, long b, long * o) { if (a <= 0 || b <= 0) return; ByCells n(x, false); o[1] = !n.c[0]; o[2] = 1; }
//@ triangle | viennagrid::add(segment, element), erase(segment, element) (viennagrid/mesh/segmentation.hpp)
// one triangle 0 1 2 with edges 01 02 12: a segment receives the edges and vertices of a cell added to it, and erasing an element erases the elements it bounds
typedef fz::W<triangle_tag, C2, 3, 3, 1, 1, 7>::type Tri; typedef El<Tri, triangle_tag>::type TE; typedef El<Tri, line_tag>::type TL; typedef El<Tri, vertex_tag>::type TV;
struct TC { static int v(int l, int k) { return l == 0 ? k : (l == 1 ? 2 * k : 1 + k); } static bool has(int l, int i) { return v(l, 0) == i || v(l, 1) == i; } };
template <typename O> void tri(double const * bc, double const * bl_, double const * bv_, long c0, long c1, long * oc, long * ol, long * ov)
{
  double bl[6], bv[6]; for (int i = 0; i < 3; ++i) { bl[i] = bl_[i]; bv[i] = bv_[i]; bl[3 + i] = bv[3 + i] = bc[1]; } // the other segment holds the whole triangle or nothing
  Tri m; SegT<Tri>::type s(m); make2(s, m); Init<Tri, triangle_tag>::go(m);
  for (int i = 0; i < 3; ++i) { fz::arr<TE>(m)[0].container(viennagrid::dimension_tag<0>()).set_handle(fz::arr<TV>(m) + i, i); fz::arr<TE>(m)[0].container(viennagrid::dimension_tag<1>()).set_handle(fz::arr<TL>(m) + i, i); for (int k = 0; k < 2; ++k) fz::arr<TL>(m)[i].container(viennagrid::dimension_tag<0>()).set_handle(fz::arr<TV>(m) + TC::v(i, k), k); }
  SegT<Tri>::handle h0(s.segments[0]), h1(s.segments[1]); s.segment_id_map.insert(std::make_pair(0, h0)); s.segment_id_map.insert(std::make_pair(1, h1)); s.highest_id = 1;
  St<Tri, triangle_tag>::set(m, s, bc, 1); St<Tri, line_tag>::set(m, s, bl, 3); St<Tri, vertex_tag>::set(m, s, bv, 3); h0.view().change_counter_ = c0; h1.view().change_counter_ = c1;
  O::go(s, h0, fz::arr<TE>(m), fz::arr<TL>(m), fz::arr<TV>(m));
  Op<Tri, triangle_tag, 1>::out(m, s, h0, h1, oc); Op<Tri, line_tag, 3>::out(m, s, h0, h1, ol); Op<Tri, vertex_tag, 3>::out(m, s, h0, h1, ov);
}
struct TAdd { template <typename S, typename H> static void go(S &, H & h, TE * c, TL *, TV *) { add(h, c[0]); } static void ref(bool * c, bool * l, bool * v) { c[0] = true; for (int i = 0; i < 3; ++i) l[i] = v[i] = true; } };
struct TAddL { template <typename S, typename H> static void go(S &, H & h, TE *, TL * l, TV *) { add(h, l[1]); } static void ref(bool *, bool * l, bool * v) { l[1] = true; for (int i = 0; i < 3; ++i) v[i] = v[i] || TC::has(1, i); } };
struct TEraC { template <typename S, typename H> static void go(S &, H & h, TE * c, TL *, TV *) { erase(h, c[0]); } static void ref(bool * c, bool *, bool *) { c[0] = false; } };
struct TEraL { template <typename S, typename H> static void go(S &, H & h, TE *, TL * l, TV *) { erase(h, l[1]); } static void ref(bool * c, bool * l, bool *) { c[0] = false; l[1] = false; } };
struct TEraV { template <typename S, typename H> static void go(S &, H & h, TE *, TL *, TV * v) { erase(h, v[1]); } static void ref(bool * c, bool * l, bool * v) { c[0] = false; for (int i = 0; i < 3; ++i) if (TC::has(i, 1)) l[i] = false; v[1] = false; } };
// states in which a segment holds the boundary elements of its elements; FREE: any state
struct TN { Bits<2> c; Bits<6> l, v; TN(double const * bc, double const * bl, double const * bv) : c(bc), l(bl), v(bv) { for (int i = 3; i < 6; ++i) l.v[i] = v.v[i] = bc[1] > 0; }
  bool ok() const { for (int k = 0; k < 2; ++k) for (int i = 0; i < 3; ++i) { if (c.v[k] && !l.v[3 * k + i]) return false; for (int q = 0; q < 3; ++q) if (l.v[3 * k + i] && TC::has(i, q) && !v.v[3 * k + q]) return false; } return true; } };
#define TO(N, O) X void P_##N(double const * bc, double const * bl, double const * bv, long c0, long c1, long * oc, long * ol, long * ov) { TN n(bc, bl, bv); if (!n.ok() || c0 <= 0 || c1 <= 0) return; tri<O>(bc, bl, bv, c0, c1, oc, ol, ov); } \
  X void R_##N(double const * bc, double const * bl, double const * bv, long c0, long c1, long * oc, long * ol, long * ov) { TN n(bc, bl, bv); if (!n.ok() || c0 <= 0 || c1 <= 0) return; O::ref(n.c.v, n.l.v, n.v.v); Op<Tri, triangle_tag, 1>::ref(n.c.v, oc); Op<Tri, line_tag, 3>::ref(n.l.v, ol); Op<Tri, vertex_tag, 3>::ref(n.v.v, ov); }
TO(tri_add_cell, TAdd)
TO(tri_add_edge, TAddL)
TO(tri_erase_cell, TEraC)
TO(tri_erase_edge, TEraL)
TO(tri_erase_vertex, TEraV)
//@ copy | copy_segmentation, same segments (viennagrid/mesh/segmentation.hpp)
X void P_copy(double const * x, long * o) { ByCells n(x, false); World w, d; w.set(n.bc, n.bv); copy_segmentation(w.m, w.s, d.m, d.s); LH g0(d.s.segments[0]), g1(d.s.segments[1]); Op<Lin, line_tag, 2>::out(d.m, d.s, g0, g1, o); Op<Lin, vertex_tag, 3>::out(d.m, d.s, g0, g1, o + 12); }
X void R_copy(double const * x, long * o) { ByCells n(x, false); bool v[6]; for (int i = 0; i < 6; ++i) v[i] = n.bv[i] > 0; Op<Lin, line_tag, 2>::ref(n.c, o); Op<Lin, vertex_tag, 3>::ref(v, o + 12); }
//@ bookkeeping | segmentation::make_segment, get_make_segment, operator[], segment_present, clear (viennagrid/mesh/segmentation.hpp)
X void P_new_ids(int a, int b, long * o) { Lin m; LS s(m); o[0] = s.get_make_segment(a).id(); o[1] = s.get_make_segment(b).id(); o[2] = s.make_segment().id(); o[3] = s.size(); o[4] = s.segment_present(a) && s.segment_present(b); }
X void R_new_ids(int a, int b, long * o) { o[0] = a; o[1] = b; int h = -1; if (h < a) h = a; if (h < b) h = b; o[2] = h + 1; o[3] = a == b ? 2 : 3; o[4] = 1; }
X void P_present(int a, int x, long * o) { if (a < 0) return; Lin m; LS s(m); o[0] = s.segment_present(x); s[a]; o[1] = s.segment_present(x); o[2] = s.find(x) != s.end(); o[3] = s.empty(); s.clear(); o[4] = s.segment_present(x); o[5] = s.size(); o[6] = s.empty(); o[7] = s.make_segment().id(); }
X void R_present(int a, int x, long * o) { if (a < 0) return; o[0] = 0; o[1] = x == a; o[2] = x == a; o[3] = 0; o[4] = 0; o[5] = 0; o[6] = 1; o[7] = 0; }
X void P_same(int a, long * o) { if (a < 0) return; Lin m; LS s(m); LH & h = s(a); o[0] = &s.get_make_segment(a) == &h; o[1] = &s[a] == &h; o[2] = &s.get_segment(a) == &h; LS const & c = s; o[3] = &c.get_segment(a) == &h; o[4] = &c.at(a) == &h; o[5] = &c[a] == &h; o[6] = &c(a) == &h; }
X void R_same(int a, long * o) { if (a < 0) return; for (int i = 0; i < 7; ++i) o[i] = 1; }
X void P_at(int a, int x) { Lin m; LS s(m); s(a); LS const & c = s; c.at(x); }
X void R_at(int a, int x) { if (x != a) throw viennagrid::segment_id_not_found_exception(x); }
