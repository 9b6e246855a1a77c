// Quantity transfer between elements of different dimension on meshes with unknown connectivity, unknown source values and
// unknown filters.  The averager is an arbitrary symmetric function of the values: a sum of opaque terms plus an opaque
// function of their number.
#include <map>
#include <vector>
#include <deque>
#include <list>
#include <set>
#include "conn.hpp"
#include "viennagrid/algorithm/quantity_transfer.hpp"
extern "C" double pure_term(double), pure_count(long);
struct Avg { template <typename C> double operator()(C const & c) const { double s = 0; for (typename C::const_iterator it = c.begin(); it != c.end(); ++it) s += pure_term(*it); return s + pure_count(c.size()); } };
template <typename E> struct Src { typedef double value_type; double const * v; double operator()(E const & e) const { return v[e.id().get()]; } };
template <typename E> struct Flt { double const * b; bool operator()(E const & e) const { return b[e.id().get()] > 0; } };
template <typename E, int N> struct Dst { long n[N]; double v[N]; Dst() { for (int i = 0; i < N; ++i) { n[i] = 0; v[i] = 0; } } void operator()(E const & e, double x) { for (int i = 0; i < N; ++i) if (e.id().get() == i) { ++n[i]; v[i] = x; } } };
// NT elements of tag T with NK boundary elements of tag S out of NS each; UP: from S to T
template <typename MeshT, typename S, typename T, int NS, int NT, int NK, bool UP, bool VIEW> struct Q
{
  typedef Conn<NS, NT, NK> Co; typedef typename ViewOf<MeshT>::type ViewT;
  typedef typename __gnu_cxx::__conditional_type<UP, S, T>::__type A; typedef typename __gnu_cxx::__conditional_type<UP, T, S>::__type B;
  typedef typename El<MeshT, A>::type EA; typedef typename El<MeshT, B>::type EB;
  static const int NA = UP ? NS : NT, NB = UP ? NT : NS;
  static bool inc(double const * x, int a, int b) { return UP ? Co::has(x, b, a) : Co::has(x, a, b); }
  static bool in(double const * y, bool cell, int i) { return !VIEW || !cell || y[i] > 0; }
  static long count(double const * x, double const * y, double const * fs, int b) { long n = 0; for (int a = 0; a < NA; ++a) n += inc(x, a, b) && fs[a] > 0 && in(y, !UP, a); return n; }
  template <typename W> static void run(W & w, double const * v, double const * fs, double const * fd, Dst<EB, NB> & d) { Src<EA> s = { v }; Flt<EA> f = { fs }; Flt<EB> g = { fd }; viennagrid::quantity_transfer<A, B>(w, s, d, Avg(), f, g); }
  // destinations without any accepted source are left open
  static void lib(double const * x, double const * y, double const * v, double const * fs, double const * fd, long * n, double * o)
  {
    MeshT m; if (!Wire<MeshT, S, T, NS, NT, NK>::go(m, x)) return;
    Dst<EB, NB> d;
    if (VIEW) { ViewT w = viennagrid::make_view(m); Fill<MeshT, ViewT, S>::all(m, w); for (int e = 0; e < NT; ++e) if (y[e] > 0) Fill<MeshT, ViewT, T>::add(m, w, e); run(w, v, fs, fd, d); }
    else run(m, v, fs, fd, d);
    for (int b = 0; b < NB; ++b) { bool c = count(x, y, fs, b) > 0; n[b] = c ? d.n[b] : 0; o[b] = c ? d.v[b] : 0; }
  }
  static void ref(double const * x, double const * y, double const * v, double const * fs, double const * fd, long * n, double * o)
  {
    if (!Co::ok(x)) return;
    for (int b = 0; b < NB; ++b)
    {
      long c = count(x, y, fs, b); double s = 0; bool go = c > 0 && fd[b] > 0 && in(y, UP, b);
      for (int a = 0; a < NA; ++a) if (inc(x, a, b) && fs[a] > 0 && in(y, !UP, a)) s += pure_term(v[a]);
      n[b] = go; o[b] = go ? s + pure_count(c) : 0;
    }
  }
};
#define QT(N, Z) X void P_##N(double const * x, double const * y, double const * v, double const * fs, double const * fd, long * n, double * o) { Z::lib(x, y, v, fs, fd, n, o); } X void R_##N(double const * x, double const * y, double const * v, double const * fs, double const * fd, long * n, double * o) { Z::ref(x, y, v, fs, fd, n, o); }
typedef fz::W<line_tag, C1, 3, 2, 1, 1, 6>::type Lin; typedef fz::W<triangle_tag, C2, 3, 2, 1, 1, 6>::type Tri2; typedef fz::W<triangle_tag, C2, 3, 3, 1, 1, 6>::type Tri1;
//@ lines | quantity_transfer between vertices and lines (viennagrid/algorithm/quantity_transfer.hpp)
typedef Q<Lin, vertex_tag, line_tag, 3, 2, 2, true, false> L1; QT(line_up, L1)
typedef Q<Lin, vertex_tag, line_tag, 3, 2, 2, false, false> L2; QT(line_down, L2)
typedef Q<Lin, vertex_tag, line_tag, 3, 2, 2, true, true> L3; QT(line_up_view, L3)
typedef Q<Lin, vertex_tag, line_tag, 3, 2, 2, false, true> L4; QT(line_down_view, L4)
//@ triangles | quantity_transfer between vertices, edges and triangles (viennagrid/algorithm/quantity_transfer.hpp)
typedef Q<Tri1, vertex_tag, triangle_tag, 3, 1, 3, true, false> T1; QT(tri_up, T1)
typedef Q<Tri1, vertex_tag, triangle_tag, 3, 1, 3, false, false> T2; QT(tri_down, T2)
typedef Q<Tri1, line_tag, triangle_tag, 3, 1, 3, true, false> T3; QT(edge_tri_up, T3)
typedef Q<Tri1, line_tag, triangle_tag, 3, 1, 3, false, false> T4; QT(edge_tri_down, T4)
typedef Q<Tri2, vertex_tag, line_tag, 3, 2, 2, true, false> T5; QT(edge_up, T5)
typedef Q<Tri2, vertex_tag, line_tag, 3, 2, 2, false, false> T6; QT(edge_down, T6)
