#include "pt.hpp"
using namespace viennagrid;
//@ construction | viennagrid/point.hpp spatial_point constructors, point_filler
X void P_ctor1(double x, Out o) { put(o, C1(x)); } X void R_ctor1(double x, Out o) { o[0] = x; }
X void P_ctor2(double x, double y, Out o) { put(o, C2(x, y)); } X void R_ctor2(double x, double y, Out o) { o[0] = x; o[1] = y; }
X void P_ctor2a(double x, Out o) { put(o, C2(x)); } X void R_ctor2a(double x, Out o) { o[0] = x; o[1] = 0; }
X void P_ctor3(double x, double y, double z, Out o) { put(o, C3(x, y, z)); } X void R_ctor3(double x, double y, double z, Out o) { o[0] = x; o[1] = y; o[2] = z; }
X void P_ctor3a(double x, double y, Out o) { put(o, C3(x, y)); } X void R_ctor3a(double x, double y, Out o) { o[0] = x; o[1] = y; o[2] = 0; }
X void P_ctor3d(Out o) { put(o, C3()); } X void R_ctor3d(Out o) { o[0] = 0; o[1] = 0; o[2] = 0; }
X void P_ctor2d(Out o) { put(o, C2()); } X void R_ctor2d(Out o) { o[0] = 0; o[1] = 0; }
X void P_ctor1d(Out o) { put(o, C1()); } X void R_ctor1d(Out o) { o[0] = 0; }
X void P_ctor5(double x, double y, double z, Out o) { put(o, spatial_point<double, cartesian_cs<5> >(x, y, z)); } X void R_ctor5(double x, double y, double z, Out o) { o[0] = x; o[1] = y; o[2] = z; o[3] = 0; o[4] = 0; }
X void P_ctorpo(double x, double y, Out o) { put(o, PO(x, y)); } X void R_ctorpo(double x, double y, Out o) { o[0] = x; o[1] = y; }
X void P_ctorsp(double x, double y, double z, Out o) { put(o, SP(x, y, z)); } X void R_ctorsp(double x, double y, double z, Out o) { o[0] = x; o[1] = y; o[2] = z; }
X void P_ctorcy(double x, double y, double z, Out o) { put(o, CY(x, y, z)); } X void R_ctorcy(double x, double y, double z, Out o) { o[0] = x; o[1] = y; o[2] = z; }
X void P_copy(In a, Out o) { C3 p = c3(a); C3 q(p); C3 r; r = q; p[0] = 7; put(o, r); } X void R_copy(In a, Out o) { putv<3>(o, v3(a)); }
X unsigned long P_size(In a) { return 100 * dynamic_size(c1(a)) + 10 * dynamic_size(c2(a)) + dynamic_size(c3(a)) + 1000 * dynamic_size(sp(a)) + 10000 * dynamic_size(po(a)); } X unsigned long R_size(In) { return 23123; }
//@ conversions | viennagrid/point.hpp coordinate_converter
#define CONV(n, T, mk, ref, D) X void P_conv_##n(In a, Out o) { T q(mk(a)); put(o, q); } X void R_conv_##n(In a, Out o) { putv<D>(o, ref); } \
  X void P_asgn_##n(In a, Out o) { T q; q = mk(a); put(o, q); } X void R_asgn_##n(In a, Out o) { putv<D>(o, ref); }
CONV(c2po, PO, c2, c_po(v2(a)), 2)
CONV(po2c, C2, po, po_c(a), 2)
CONV(c3sp, SP, c3, c_sp(v3(a)), 3)
CONV(sp2c, C3, sp, sp_c(a), 3)
CONV(c3cy, CY, c3, c_cy(v3(a)), 3)
CONV(cy2c, C3, cy, cy_c(a), 3)
static V sp_cy(In a) { return V(a[0] * std::sin(a[1]), a[2], a[0] * std::cos(a[1])); }
static V cy_sp(In a) { double r = std::sqrt(a[0] * a[0] + a[2] * a[2]); return V(r, r > 0 ? std::acos(a[2] / r) : 0, a[1]); }
CONV(sp2cy, CY, sp, sp_cy(a), 3)
CONV(cy2sp, SP, cy, cy_sp(a), 3)
//@ to_cartesian | viennagrid/point.hpp to_cartesian
#define TOC(n, mk, ref, D) X void P_toc_##n(In a, Out o) { put(o, to_cartesian(mk(a))); } X void R_toc_##n(In a, Out o) { putv<D>(o, ref); }
TOC(c1, c1, v1(a), 1)
TOC(c2, c2, v2(a), 2)
TOC(c3, c3, v3(a), 3)
TOC(po, po, po_c(a), 2)
TOC(sp, sp, sp_c(a), 3)
TOC(cy, cy, cy_c(a), 3)
static inline V id(V v) { return v; }
#define ARITH(n, mk, toc, back, D) \
X void P_add_##n(In a, In b, Out o) { put(o, mk(a) + mk(b)); } X void R_add_##n(In a, In b, Out o) { putv<D>(o, back(toc(a) + toc(b))); } \
X void P_sub_##n(In a, In b, Out o) { put(o, mk(a) - mk(b)); } X void R_sub_##n(In a, In b, Out o) { putv<D>(o, back(toc(a) - toc(b))); } \
X void P_iadd_##n(In a, In b, Out o) { put(o, mk(a) += mk(b)); } X void R_iadd_##n(In a, In b, Out o) { putv<D>(o, back(toc(a) + toc(b))); } \
X void P_isub_##n(In a, In b, Out o) { put(o, mk(a) -= mk(b)); } X void R_isub_##n(In a, In b, Out o) { putv<D>(o, back(toc(a) - toc(b))); } \
X void P_selfadd_##n(In a, Out o) { put(o, selfadd(mk(a))); } X void R_selfadd_##n(In a, Out o) { putv<D>(o, back(toc(a) + toc(a))); } \
X void P_selfsub_##n(In a, Out o) { put(o, selfsub(mk(a))); } X void R_selfsub_##n(In a, Out o) { putv<D>(o, back(toc(a) - toc(a))); } \
X void P_neg_##n(In a, Out o) { put(o, -mk(a)); } X void R_neg_##n(In a, Out o) { putv<D>(o, back(nul##n(a) - toc(a))); }
template <typename P> static P selfadd(P p) { p += p; return p; }
template <typename P> static P selfsub(P p) { p -= p; return p; }
static inline V nulc1(In) { return V(); }
static inline V nulc2(In) { return V(); }
static inline V nulc3(In) { return V(); }
static inline V nulpo(In) { return V(); }
static inline V nulsp(In) { return V(); }
static inline V nulcy(In) { return V(); }
//@ arithmetic | viennagrid/point.hpp cartesian_cs / cs_base add, subtract, inplace_add, inplace_subtract
ARITH(c1, c1, v1, id, 1)
ARITH(c2, c2, v2, id, 2)
ARITH(c3, c3, v3, id, 3)
ARITH(po, po, po_c, c_po, 2)
ARITH(sp, sp, sp_c, c_sp, 3)
ARITH(cy, cy, cy_c, c_cy, 3)
#define SCALE(n, mk, f, g, D) \
X void P_mul_##n(In a, double s, Out o) { put(o, mk(a) * s); } X void R_mul_##n(In a, double s, Out o) { V q = f; putv<D>(o, q); } \
X void P_lmul_##n(In a, double s, Out o) { put(o, s * mk(a)); } X void R_lmul_##n(In a, double s, Out o) { V q = f; putv<D>(o, q); } \
X void P_imul_##n(In a, double s, Out o) { put(o, mk(a) *= s); } X void R_imul_##n(In a, double s, Out o) { V q = f; putv<D>(o, q); } \
X void P_div_##n(In a, double s, Out o) { put(o, mk(a) / s); } X void R_div_##n(In a, double s, Out o) { V q = g; putv<D>(o, q); } \
X void P_idiv_##n(In a, double s, Out o) { put(o, mk(a) /= s); } X void R_idiv_##n(In a, double s, Out o) { V q = g; putv<D>(o, q); }
//@ scaling | viennagrid/point.hpp inplace_stretch, operator*, operator/
SCALE(c1, c1, s * v1(a), 1 / s * v1(a), 1)
SCALE(c2, c2, s * v2(a), 1 / s * v2(a), 2)
SCALE(c3, c3, s * v3(a), 1 / s * v3(a), 3)
SCALE(po, po, V(a[0] * s, a[1]), V(a[0] / s, a[1]), 2)
SCALE(sp, sp, V(a[0] * s, a[1], a[2]), V(a[0] / s, a[1], a[2]), 3)
SCALE(cy, cy, c_cy(s * cy_c(a)), c_cy(1 / s * cy_c(a)), 3)
//@ minmax | viennagrid/point.hpp min, max
X void P_min3(In a, In b, Out o) { put(o, viennagrid::min(c3(a), c3(b))); } X void R_min3(In a, In b, Out o) { for (int i = 0; i < 3; ++i) o[i] = a[i] < b[i] ? a[i] : b[i]; }
X void P_max3(In a, In b, Out o) { put(o, viennagrid::max(c3(a), c3(b))); } X void R_max3(In a, In b, Out o) { for (int i = 0; i < 3; ++i) o[i] = a[i] < b[i] ? b[i] : a[i]; }
X void P_min2(In a, In b, Out o) { put(o, viennagrid::min(c2(a), c2(b))); } X void R_min2(In a, In b, Out o) { for (int i = 0; i < 2; ++i) o[i] = a[i] < b[i] ? a[i] : b[i]; }
X void P_max2(In a, In b, Out o) { put(o, viennagrid::max(c2(a), c2(b))); } X void R_max2(In a, In b, Out o) { for (int i = 0; i < 2; ++i) o[i] = a[i] < b[i] ? b[i] : a[i]; }
X void P_max1(In a, In b, Out o) { put(o, viennagrid::max(c1(a), c1(b))); } X void R_max1(In a, In b, Out o) { o[0] = a[0] < b[0] ? b[0] : a[0]; }
//@ ordering | viennagrid/point.hpp point_less
X bool P_less1(In a, In b) { return point_less()(c1(a), c1(b)); } X bool R_less1(In a, In b) { return a[0] < b[0]; }
X bool P_less2(In a, In b) { return point_less()(c2(a), c2(b)); } X bool R_less2(In a, In b) { return a[0] < b[0] || (a[0] == b[0] && a[1] < b[1]); }
X bool P_less3(In a, In b) { return point_less()(c3(a), c3(b)); } X bool R_less3(In a, In b) { return a[0] < b[0] || (a[0] == b[0] && (a[1] < b[1] || (a[1] == b[1] && a[2] < b[2]))); }
