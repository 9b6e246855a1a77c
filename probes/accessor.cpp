// Accessors and fields on containers in an unknown state: the element has any of the IDs 0, 1, 2, the container any size up to
// three (dense) or any subset of the entries 0, 1, 2 (map), and all stored values are unknown.
#include <map>
#include <vector>
#include <deque>
#include <list>
#include <set>
#include <stdexcept>
#include "conn.hpp"
#include "viennagrid/accessor.hpp"
typedef fz::W<triangle_tag, C2, 1, 1, 1, 1>::type ME; typedef El<ME, vertex_tag>::type VX; typedef El<ME, line_tag>::type LX; typedef El<ME, triangle_tag>::type TX;
inline long id3(double x) { return x < 0 ? 0 : (x > 0 ? 2 : 1); }
template <typename C> struct Dense
{
  static long size(double const * b) { return b[0] < 0 ? 0 : (b[0] > 0 ? 3 : (b[1] < 0 ? 1 : 2)); }
  static bool has(double const * b, long i) { return i < size(b); }
  static void fill(C & c, double const * b, double const * v) { c.n = size(b); for (int i = 0; i < 3; ++i) *c.s.at(i) = v[i]; }
  // contents: size, then for each position whether it is there and its value
  static void out(C & c, double * o) { o[0] = c.size(); for (int i = 0; i < 3; ++i) { o[1 + 2 * i] = i < (int)c.size(); o[2 + 2 * i] = i < (int)c.size() ? c[i] : -7; } }
  static void ref(double const * b, double const * v, long grow, double * o) { long n = size(b); if (grow > n) n = grow; o[0] = n; for (int i = 0; i < 3; ++i) { o[1 + 2 * i] = i < n; o[2 + 2 * i] = i < size(b) ? v[i] : (i < n ? 0 : -7); } }
  static long grow(long i) { return i + 1; }
};
template <typename C> struct Sparse
{
  typedef typename C::key_type K; typedef typename C::value_type E;
  static bool has(double const * b, long i) { return i == 0 ? b[0] > 0 : (i == 1 ? b[1] > 0 : b[2] > 0); }
  static void fill(C & c, double const * b, double const * v) { long n = 0; for (int i = 0; i < 3; ++i) { new (c.t.s.at(i)) E(K(i), v[i]); c.t.used[i] = b[i] > 0; n += b[i] > 0; } c.t.n = n; c.t.lo = 3; }
  static void out(C & c, double * o) { o[0] = c.size(); for (int i = 0; i < 3; ++i) { typename C::iterator it = c.find(K(i)); o[1 + 2 * i] = it != c.end(); o[2 + 2 * i] = it != c.end() ? it->second : -7; } }
  static void ref(double const * b, double const * v, long grow, double * o) { long n = 0; for (int i = 0; i < 3; ++i) { bool h = b[i] > 0 || grow == i + 1; n += h; o[1 + 2 * i] = h; o[2 + 2 * i] = b[i] > 0 ? v[i] : (h ? 0 : -7); } o[0] = n; }
  static long grow(long i) { return i + 1; }
};
inline double sel(double const * v, long i) { return i == 0 ? v[0] : (i == 1 ? v[1] : v[2]); }
template <typename C, typename S, typename A> struct Q
{
  typedef typename A::access_type E;
  static void init(E & e, double x) { e.id(typename E::id_type(id3(x))); }
#define HEAD ME m_; E & e = fz::arr<E>(m_)[0]; init(e, x); C c; S::fill(c, b, v); A a(c); A const & ca = a; (void)ca;
  static void find(double x, double const * b, double const * v, double * r, double * o) { HEAD typename A::pointer p = a.find(e); r[0] = p != 0; r[1] = p ? *p : -1; S::out(c, o); }
  static void cfind(double x, double const * b, double const * v, double * r, double * o) { HEAD typename A::const_pointer p = ca.find(e); r[0] = p != 0; r[1] = p ? *p : -1; S::out(c, o); }
  static void rfind(double x, double const * b, double const * v, double * r, double * o) { long i = id3(x); bool h = S::has(b, i); r[0] = h; r[1] = h ? sel(v, i) : -1; S::ref(b, v, 0, o); }
  static void at(double x, double const * b, double const * v, double * r, double * o) { HEAD r[0] = a.at(e); S::out(c, o); }
  static void cat(double x, double const * b, double const * v, double * r, double * o) { HEAD r[0] = ca.at(e); S::out(c, o); }
  static void rat(double x, double const * b, double const * v, double * r, double * o) { long i = id3(x); if (!S::has(b, i)) throw std::out_of_range("at"); r[0] = sel(v, i); S::ref(b, v, 0, o); }
  // read access: creates a default entry where there is none
  static void get(double x, double const * b, double const * v, double * r, double * o) { HEAD r[0] = a(e); S::out(c, o); }
  static void rget(double x, double const * b, double const * v, double * r, double * o) { long i = id3(x); r[0] = S::has(b, i) ? sel(v, i) : 0; S::ref(b, v, S::grow(i), o); }
  // write access: exactly the entry of this element changes
  static void set(double x, double const * b, double const * v, double w, double * r, double * o) { HEAD a(e) = w; S::out(c, o); r[0] = a(e); r[1] = a.at(e); }
  static void rset(double x, double const * b, double const * v, double w, double * r, double * o) { long i = id3(x); S::ref(b, v, S::grow(i), o); if (i == 0) o[2] = w; else if (i == 1) o[4] = w; else o[6] = w; r[0] = w; r[1] = w; }
  // const access where the entry exists
  static void cget(double x, double const * b, double const * v, double * r, double * o) { if (!S::has(b, id3(x))) return; HEAD r[0] = ca(e); S::out(c, o); }
  static void rcget(double x, double const * b, double const * v, double * r, double * o) { if (!S::has(b, id3(x))) return; r[0] = sel(v, id3(x)); S::ref(b, v, 0, o); }
};
// fields: const access without an entry gives the default value
template <typename C, typename S, typename F> struct D
{
  typedef typename F::access_type E;
  static void get(double x, double const * b, double const * v, double d, double * r, double * o) { ME m_; E & e = fz::arr<E>(m_)[0]; e.id(typename E::id_type(id3(x))); C c; S::fill(c, b, v); F f(c, d); F const & cf = f; r[0] = cf(e); F g(c); F const & cg = g; r[1] = cg(e); S::out(c, o); }
  static void ref(double x, double const * b, double const * v, double d, double * r, double * o) { long i = id3(x); bool h = S::has(b, i); r[0] = h ? sel(v, i) : d; r[1] = h ? sel(v, i) : 0; S::ref(b, v, 0, o); }
};
template <typename C> struct Cst { static C const & of(C const & c) { return c; } };
#define ARG double x, double const * b, double const * v
#define OB(N, Z, P, R) X void P_##N##_##P(ARG, double * r, double * o) { Z::P(x, b, v, r, o); } X void R_##N##_##P(ARG, double * r, double * o) { Z::R(x, b, v, r, o); }
#define MUT(N, Z) OB(N, Z, find, rfind) OB(N, Z, cfind, rfind) OB(N, Z, at, rat) OB(N, Z, cat, rat) OB(N, Z, get, rget) OB(N, Z, cget, rcget) \
  X void P_##N##_set(ARG, double w, double * r, double * o) { Z::set(x, b, v, w, r, o); } X void R_##N##_set(ARG, double w, double * r, double * o) { Z::rset(x, b, v, w, r, o); }
#define CON(N, Z) OB(N, Z, cfind, rfind) OB(N, Z, cat, rat) OB(N, Z, cget, rcget)
#define DEF(N, Z) X void P_##N##_default(ARG, double d, double * r, double * o) { Z::get(x, b, v, d, r, o); } X void R_##N##_default(ARG, double d, double * r, double * o) { Z::ref(x, b, v, d, r, o); }
#define TYPES(N, CONT, S, EL) typedef CONT C_##N; typedef Q<C_##N, S<C_##N>, result_of::accessor<C_##N, EL>::type> QA_##N; typedef Q<C_##N, S<C_##N>, result_of::accessor<C_##N const, EL>::type> QC_##N; \
  typedef Q<C_##N, S<C_##N>, result_of::field<C_##N, EL>::type> QF_##N; typedef Q<C_##N, S<C_##N>, result_of::field<C_##N const, EL>::type> QG_##N; typedef D<C_##N, S<C_##N>, result_of::field<C_##N, EL>::type> DF_##N; typedef D<C_##N, S<C_##N>, result_of::field<C_##N const, EL>::type> DG_##N;
typedef std::vector<double> VC; typedef std::map<result_of::id<VX>::type, double> VM;
typedef result_of::accessor<VC, VX>::type A1; typedef result_of::accessor<VC const, VX>::type A2; typedef result_of::field<VC, VX>::type A3; typedef result_of::field<VC const, VX>::type A4;
typedef result_of::accessor<VM, VX>::type A5; typedef result_of::accessor<VM const, VX>::type A6; typedef result_of::field<VM, VX>::type A7; typedef result_of::field<VM const, VX>::type A8;
#define DYN(N, A, W, C, S) X void P_dyn_##N(ARG, double w, double * r, double * o) { VX e; e.id(VX::id_type(id3(x))); C c; S<C>::fill(c, b, v); W<A> q = W<A>(A(c)); double * p = q.W<A>::find(e); r[0] = p != 0; r[1] = p ? *p : -1; q.W<A>::operator()(e) = w; r[2] = q.W<A>::at(e); W<A> const & cq = q; r[3] = cq.W<A>::operator()(e); r[4] = cq.W<A>::at(e); r[5] = *cq.W<A>::find(e); S<C>::out(c, o); } \
  X void R_dyn_##N(ARG, double w, double * r, double * o) { long i = id3(x); bool h = S<C>::has(b, i); r[0] = h; r[1] = h ? sel(v, i) : -1; r[2] = r[3] = r[4] = r[5] = w; S<C>::ref(b, v, i + 1, o); if (i == 0) o[2] = w; else if (i == 1) o[4] = w; else o[6] = w; } \
  X void P_dynat_##N(ARG, double * r) { VX e; e.id(VX::id_type(id3(x))); C c; S<C>::fill(c, b, v); W<A> q = W<A>(A(c)); r[0] = q.W<A>::at(e); } X void R_dynat_##N(ARG, double * r) { if (!S<C>::has(b, id3(x))) throw std::out_of_range(""); r[0] = sel(v, id3(x)); }
//@ vector accessor | dense_container_accessor (viennagrid/accessor.hpp)
TYPES(vec, std::vector<double>, Dense, VX)
MUT(vec_acc, QA_vec)
CON(vec_cacc, QC_vec)
//@ vector field | dense_container_field (viennagrid/accessor.hpp)
TYPES(vec2, std::vector<double>, Dense, TX)
MUT(vec_fld, QF_vec2)
CON(vec_cfld, QG_vec2)
DEF(vec_fld, DF_vec2)
DEF(vec_cfld, DG_vec2)
//@ deque accessor and field | dense_container_accessor, dense_container_field (viennagrid/accessor.hpp)
TYPES(deq, std::deque<double>, Dense, LX)
MUT(deq_acc, QA_deq)
MUT(deq_fld, QF_deq)
CON(deq_cacc, QC_deq)
CON(deq_cfld, QG_deq)
DEF(deq_fld, DF_deq)
DEF(deq_cfld, DG_deq)
//@ map accessor | std_map_accessor (viennagrid/accessor.hpp)
typedef std::map<result_of::id<VX>::type, double> MapV;
TYPES(map, MapV, Sparse, VX)
MUT(map_acc, QA_map)
CON(map_cacc, QC_map)
//@ map field | std_map_field (viennagrid/accessor.hpp)
typedef std::map<result_of::id<TX>::type, double> MapT;
TYPES(map2, MapT, Sparse, TX)
MUT(map_fld, QF_map2)
CON(map_cfld, QG_map2)
DEF(map_fld, DF_map2)
DEF(map_cfld, DG_map2)
//@ validity | is_valid (viennagrid/accessor.hpp)
#define VALID(N, A, C) X void P_valid_##N(A * z, long * o) { A & a = *new (z) A; C c; A b(c); o[0] = a.is_valid(); o[1] = b.is_valid(); a = b; o[2] = a.is_valid(); } X void R_valid_##N(A *, long * o) { o[0] = 0; o[1] = 1; o[2] = 1; }
VALID(vec_acc, A1, VC) VALID(vec_cacc, A2, VC) VALID(vec_fld, A3, VC) VALID(vec_cfld, A4, VC) VALID(map_acc, A5, VM) VALID(map_cacc, A6, VM) VALID(map_fld, A7, VM) VALID(map_cfld, A8, VM)
//@ made | make_accessor, make_field, appendix_accessor, default_point_accessor (viennagrid/accessor.hpp)
X void P_make(double x, double w, double * o) { VX v; v.id(VX::id_type(id3(x))); VC c; make_accessor<VX>(c)(v) = w; o[0] = make_field<VX>(c)(v); VC const & d = c; o[1] = make_accessor<VX>(d)(v); o[2] = make_field<VX>(d)(v); VM m; make_accessor<VX>(m)(v) = w; o[3] = make_field<VX>(m)(v); VM const & n = m; o[4] = make_accessor<VX>(n)(v); o[5] = make_field<VX>(n)(v); o[6] = c.size(); o[7] = m.size(); }
X void R_make(double x, double w, double * o) { for (int i = 0; i < 6; ++i) o[i] = w; o[6] = id3(x) + 1; o[7] = 1; }
X void P_point_accessor(double const * p, double w, double * o) { ME m; VX & v = fz::arr<VX>(m)[0]; v.appendix()[0] = p[0]; v.appendix()[1] = p[1]; o[0] = default_point_accessor(m)(v)[0]; o[1] = default_point_accessor(m)(v)[1]; o[2] = point(m, v)[1]; o[3] = point(v)[0]; default_point_accessor(m)(v)[1] = w; o[4] = point(v)[1]; o[5] = point(v)[0]; o[6] = default_point_accessor(m).find(v) == &v.appendix(); o[7] = &default_point_accessor(m).at(v) == &point(v); }
X void R_point_accessor(double const * p, double w, double * o) { o[0] = p[0]; o[1] = p[1]; o[2] = p[1]; o[3] = p[0]; o[4] = w; o[5] = p[0]; o[6] = 1; o[7] = 1; }
//@ dynamic | dynamic_field_wrapper (viennagrid/accessor.hpp)
DYN(vec_fld, A3, dynamic_field_wrapper, VC, Dense)
DYN(map_fld, A7, dynamic_field_wrapper, VM, Sparse)
//@ dynamic accessor | dynamic_accessor_wrapper (viennagrid/accessor.hpp)
DYN(vec_acc, A1, dynamic_accessor_wrapper, VC, Dense)
DYN(map_acc, A5, dynamic_accessor_wrapper, VM, Sparse)
