#ifndef VGSA_PT_HPP
#define VGSA_PT_HPP
#include <cmath>
#include <cstddef>
#include "viennagrid/forwards.hpp"
#include "viennagrid/point.hpp"
typedef viennagrid::spatial_point<double, viennagrid::cartesian_cs<1> > C1;
typedef viennagrid::spatial_point<double, viennagrid::cartesian_cs<2> > C2;
typedef viennagrid::spatial_point<double, viennagrid::cartesian_cs<3> > C3;
typedef viennagrid::spatial_point<double, viennagrid::polar_cs> PO;
typedef viennagrid::spatial_point<double, viennagrid::spherical_cs> SP;
typedef viennagrid::spatial_point<double, viennagrid::cylindrical_cs> CY;
typedef const double * In;
typedef double * Out;
// building / storing points coordinate by coordinate
static inline C1 c1(In a) { C1 p; p[0] = a[0]; return p; }
static inline C2 c2(In a) { C2 p; p[0] = a[0]; p[1] = a[1]; return p; }
static inline C3 c3(In a) { C3 p; p[0] = a[0]; p[1] = a[1]; p[2] = a[2]; return p; }
static inline PO po(In a) { PO p; p[0] = a[0]; p[1] = a[1]; return p; }
static inline SP sp(In a) { SP p; p[0] = a[0]; p[1] = a[1]; p[2] = a[2]; return p; }
static inline CY cy(In a) { CY p; p[0] = a[0]; p[1] = a[1]; p[2] = a[2]; return p; }
template <typename P> static inline void put(Out o, P const & p) { for (int i = 0; i < P::dim; ++i) o[i] = p[i]; }
// reference vectors, independent of the library
struct V { double x[3]; V(double a = 0, double b = 0, double c = 0) { x[0] = a; x[1] = b; x[2] = c; } double operator[](int i) const { return x[i]; } };
static inline V v1(In a) { return V(a[0]); }
static inline V v2(In a) { return V(a[0], a[1]); }
static inline V v3(In a) { return V(a[0], a[1], a[2]); }
static inline V operator-(V const & a, V const & b) { return V(a[0] - b[0], a[1] - b[1], a[2] - b[2]); }
static inline V operator+(V const & a, V const & b) { return V(a[0] + b[0], a[1] + b[1], a[2] + b[2]); }
static inline V operator*(double s, V const & a) { return V(s * a[0], s * a[1], s * a[2]); }
static inline double dot(V const & a, V const & b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static inline V cross(V const & a, V const & b) { return V(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]); }
static inline double len(V const & a) { return std::sqrt(dot(a, a)); }
template <int D> static inline void putv(Out o, V const & p) { for (int i = 0; i < D; ++i) o[i] = p[i]; }
// reference conversions (physics convention: r, inclination, azimuth)
static inline V po_c(In a) { return V(a[0] * std::cos(a[1]), a[0] * std::sin(a[1])); }
static inline V sp_c(In a) { return V(a[0] * std::sin(a[1]) * std::cos(a[2]), a[0] * std::sin(a[1]) * std::sin(a[2]), a[0] * std::cos(a[1])); }
static inline V cy_c(In a) { return V(a[0] * std::cos(a[1]), a[0] * std::sin(a[1]), a[2]); }
static inline V c_po(V c) { return V(std::sqrt(c[0] * c[0] + c[1] * c[1]), std::atan2(c[1], c[0])); }
static inline V c_sp(V c) { double r = len(c); return V(r, r > 0 ? std::acos(c[2] / r) : 0, std::atan2(c[1], c[0])); }
static inline V c_cy(V c) { return V(std::sqrt(c[0] * c[0] + c[1] * c[1]), std::atan2(c[1], c[0]), c[2]); }
#define X extern "C"
#endif
