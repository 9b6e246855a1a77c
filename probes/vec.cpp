#include "pt.hpp"
#include "viennagrid/algorithm/norm.hpp"
#include "viennagrid/algorithm/inner_prod.hpp"
#include "viennagrid/algorithm/cross_prod.hpp"
#include "viennagrid/algorithm/spanned_volume.hpp"
#include "viennagrid/algorithm/angle.hpp"
#include "viennagrid/algorithm/geometry.hpp"
using namespace viennagrid;
#define NORMS(n, mk, rv) \
X double P_norm1_##n(In a) { return norm_1(mk(a)); } X double R_norm1_##n(In a) { V v = rv; return std::fabs(v[0]) + std::fabs(v[1]) + std::fabs(v[2]); } \
X double P_norm2_##n(In a) { return norm_2(mk(a)); } X double R_norm2_##n(In a) { return len(rv); } \
X double P_norm_##n(In a) { return norm(mk(a)); } X double R_norm_##n(In a) { return len(rv); } \
X double P_normt1_##n(In a) { return norm(mk(a), one_norm_tag()); } X double R_normt1_##n(In a) { V v = rv; return std::fabs(v[0]) + std::fabs(v[1]) + std::fabs(v[2]); } \
X double P_normt2_##n(In a) { return norm(mk(a), two_norm_tag()); } X double R_normt2_##n(In a) { return len(rv); } \
X double P_normti_##n(In a) { return norm(mk(a), inf_norm_tag()); } X double R_normti_##n(In a) { V v = rv; return std::max(std::fabs(v[0]), std::max(std::fabs(v[1]), std::fabs(v[2]))); } \
X double P_norminf_##n(In a) { return norm_inf(mk(a)); } X double R_norminf_##n(In a) { V v = rv; return std::max(std::fabs(v[0]), std::max(std::fabs(v[1]), std::fabs(v[2]))); }
//@ norms cartesian | viennagrid/algorithm/norm.hpp norm_1, norm_2, norm_inf, norm
NORMS(c1, c1, v1(a))
NORMS(c2, c2, v2(a))
NORMS(c3, c3, v3(a))
//@ norms curvilinear | viennagrid/algorithm/norm.hpp norm_impl (non-cartesian)
NORMS(po, po, po_c(a))
NORMS(sp, sp, sp_c(a))
NORMS(cy, cy, cy_c(a))
#define INNER(n, mk, rv) X double P_inner_##n(In a, In b) { return inner_prod(mk(a), mk(b)); } X double R_inner_##n(In a, In b) { return dot(rv(a), rv(b)); }
//@ inner products | viennagrid/algorithm/inner_prod.hpp inner_prod
INNER(c1, c1, v1)
INNER(c2, c2, v2)
INNER(c3, c3, v3)
INNER(po, po, po_c)
INNER(sp, sp, sp_c)
INNER(cy, cy, cy_c)
//@ inner products of mixed systems | viennagrid/algorithm/inner_prod.hpp inner_prod
X double P_inner_mix1(In a, In b) { return inner_prod(c3(a), sp(b)); } X double R_inner_mix1(In a, In b) { return dot(v3(a), sp_c(b)); }
X double P_inner_mix2(In a, In b) { return inner_prod(cy(a), c3(b)); } X double R_inner_mix2(In a, In b) { return dot(cy_c(a), v3(b)); }
X double P_inner_mix3(In a, In b) { return inner_prod(po(a), c2(b)); } X double R_inner_mix3(In a, In b) { return dot(po_c(a), v2(b)); }
//@ cross products | viennagrid/algorithm/cross_prod.hpp cross_prod
X void P_cross_c3(In a, In b, Out o) { put(o, cross_prod(c3(a), c3(b))); } X void R_cross_c3(In a, In b, Out o) { putv<3>(o, cross(v3(a), v3(b))); }
X void P_cross_c2(In a, In b, Out o) { put(o, cross_prod(c2(a), c2(b))); } X void R_cross_c2(In a, In b, Out o) { putv<2>(o, V()); }
X void P_cross_c1(In a, In b, Out o) { put(o, cross_prod(c1(a), c1(b))); } X void R_cross_c1(In a, In b, Out o) { putv<1>(o, V()); }
X void P_cross_sp(In a, In b, Out o) { put(o, cross_prod(sp(a), sp(b))); } X void R_cross_sp(In a, In b, Out o) { putv<3>(o, c_sp(cross(sp_c(a), sp_c(b)))); }
X void P_cross_cy(In a, In b, Out o) { put(o, cross_prod(cy(a), cy(b))); } X void R_cross_cy(In a, In b, Out o) { putv<3>(o, c_cy(cross(cy_c(a), cy_c(b)))); }
X void P_cross_mix(In a, In b, Out o) { put(o, cross_prod(c3(a), cy(b))); } X void R_cross_mix(In a, In b, Out o) { putv<3>(o, cross(v3(a), cy_c(b))); }
static double sv3(V a, V b, V c) { return len(cross(b - a, c - a)) / 2; }
static double sv4(V a, V b, V c, V d) { return dot(b - a, cross(c - a, d - a)) / 6; }
static double sv3s2(V a, V b, V c) { return cross(b - a, c - a)[2] / 2; }
//@ signed spanned volumes | viennagrid/algorithm/spanned_volume.hpp signed_spanned_volume
X double P_ssv2_c1(In a, In b) { return signed_spanned_volume(c1(a), c1(b)); } X double R_ssv2_c1(In a, In b) { return b[0] - a[0]; }
X double P_ssv3_c2(In a, In b, In c) { return signed_spanned_volume(c2(a), c2(b), c2(c)); } X double R_ssv3_c2(In a, In b, In c) { return sv3s2(v2(a), v2(b), v2(c)); }
X double P_ssv4_c3(In a, In b, In c, In d) { return signed_spanned_volume(c3(a), c3(b), c3(c), c3(d)); } X double R_ssv4_c3(In a, In b, In c, In d) { return sv4(v3(a), v3(b), v3(c), v3(d)); }
X double P_ssv4_cy(In a, In b, In c, In d) { return signed_spanned_volume(cy(a), cy(b), cy(c), cy(d)); } X double R_ssv4_cy(In a, In b, In c, In d) { return sv4(cy_c(a), cy_c(b), cy_c(c), cy_c(d)); }
X double P_ssv3_po(In a, In b, In c) { return signed_spanned_volume(po(a), po(b), po(c)); } X double R_ssv3_po(In a, In b, In c) { return sv3s2(po_c(a), po_c(b), po_c(c)); }
#define SV(n, mk, rv) \
X double P_sv2_##n(In a, In b) { return spanned_volume(mk(a), mk(b)); } X double R_sv2_##n(In a, In b) { return len(rv(b) - rv(a)); }
#define SV3(n, mk, rv) \
X double P_sv3_##n(In a, In b, In c) { return spanned_volume(mk(a), mk(b), mk(c)); } X double R_sv3_##n(In a, In b, In c) { return sv3(rv(a), rv(b), rv(c)); }
#define SV4(n, mk, rv) \
X double P_sv4_##n(In a, In b, In c, In d) { return spanned_volume(mk(a), mk(b), mk(c), mk(d)); } X double R_sv4_##n(In a, In b, In c, In d) { return std::fabs(sv4(rv(a), rv(b), rv(c), rv(d))); }
//@ spanned volumes, two points | viennagrid/algorithm/spanned_volume.hpp spanned_volume
SV(c1, c1, v1)
SV(c2, c2, v2)
SV(c3, c3, v3)
SV(po, po, po_c)
SV(sp, sp, sp_c)
SV(cy, cy, cy_c)
//@ spanned volumes, three points | viennagrid/algorithm/spanned_volume.hpp spanned_volume
SV3(c2, c2, v2)
SV3(c3, c3, v3)
SV3(po, po, po_c)
SV3(sp, sp, sp_c)
SV3(cy, cy, cy_c)
//@ spanned volumes, four points | viennagrid/algorithm/spanned_volume.hpp spanned_volume
SV4(c3, c3, v3)
SV4(sp, sp, sp_c)
SV4(cy, cy, cy_c)
//@ determinants | viennagrid/algorithm/geometry.hpp determinant
X double P_det1(In a) { return determinant(c1(a)); } X double R_det1(In a) { return a[0]; }
X double P_det2(In a, In b) { return determinant(c2(a), c2(b)); } X double R_det2(In a, In b) { return a[0] * b[1] - a[1] * b[0]; }
X double P_det3(In a, In b, In c) { return determinant(c3(a), c3(b), c3(c)); } X double R_det3(In a, In b, In c) { return dot(v3(a), cross(v3(b), v3(c))); }
static double ang(V a, V b) { double n = dot(a, b), d = len(a) * len(b); if (n > d) return 0; if (n < -d) return std::acos(-1.0); return std::acos(n / d); }
static double sang(V a, V b, V c) { double al = len(a), bl = len(b), cl = len(c); return std::fabs(2 * std::atan2(dot(a, cross(b, c)), al * bl * cl + dot(a, b) * cl + dot(a, c) * bl + dot(b, c) * al)); }
//@ angles | viennagrid/algorithm/angle.hpp angle, solid_angle, dihedral_angle
X double P_angle2(In a, In b) { return angle(c2(a), c2(b)); } X double R_angle2(In a, In b) { return ang(v2(a), v2(b)); }
X double P_angle3(In a, In b) { return angle(c3(a), c3(b)); } X double R_angle3(In a, In b) { return ang(v3(a), v3(b)); }
X double P_angle2o(In a, In b, In c) { return angle(c2(a), c2(b), c2(c)); } X double R_angle2o(In a, In b, In c) { return ang(v2(a) - v2(c), v2(b) - v2(c)); }
X double P_angle3o(In a, In b, In c) { return angle(c3(a), c3(b), c3(c)); } X double R_angle3o(In a, In b, In c) { return ang(v3(a) - v3(c), v3(b) - v3(c)); }
X double P_solid(In a, In b, In c) { return solid_angle(c3(a), c3(b), c3(c)); } X double R_solid(In a, In b, In c) { return sang(v3(a), v3(b), v3(c)); }
X double P_solido(In a, In b, In c, In d) { return solid_angle(c3(a), c3(b), c3(c), c3(d)); } X double R_solido(In a, In b, In c, In d) { return sang(v3(a) - v3(d), v3(b) - v3(d), v3(c) - v3(d)); }
X double P_dihedral(In a, In b, In c, In d, In e, In f) { return dihedral_angle(c3(a), c3(b), c3(c), c3(d), c3(e), c3(f)); }
X double R_dihedral(In a, In b, In c, In d, In e, In f) { return ang(cross(v3(b) - v3(a), v3(c) - v3(a)), cross(v3(e) - v3(d), v3(f) - v3(d))); }
