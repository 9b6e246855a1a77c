#define VG_CAP 8
#define VG_MAPCAP 8
#define VG_IO
#include "seg.hpp"
#define private public
#define protected public
#include "viennagrid/io/netgen_reader.hpp"
#undef private
#undef protected
#undef string
#undef stringstream
#undef ifstream
#undef ofstream
#undef ostream
template <typename M> struct Run
{
  typedef typename SegT<M>::type Seg; enum { sz = sizeof(Seg) };
  typedef typename viennagrid::result_of::cell_tag<M>::type CellTag; typedef typename viennagrid::result_of::point<M>::type P;
  static const int dim = viennagrid::result_of::static_size<P>::value;
  // n vertices, k cells: the mesh and the segments as they come out
  static void run(int n, int k, double * c, long * o)
  {
    M m; Seg s(m); std::vgstring_ f(7L);
    viennagrid::io::netgen_reader()(m, s, f); o[0] = viennagrid::vertices(m).size(); o[1] = viennagrid::elements<CellTag>(m).size(); o[2] = s.size();
    for (int i = 0; i < n; ++i) for (int j = 0; j < dim; ++j) c[dim * i + j] = point(viennagrid::vertices(m)[i])[j];
    o += 3; for (int e = 0; e < k; ++e) for (int i = 0; i < (int)viennagrid::boundary_elements<CellTag, viennagrid::vertex_tag>::num; ++i) *o++ = viennagrid::vertices(viennagrid::elements<CellTag>(m)[e])[i].id().get();
    for (int e = 0; e < k; ++e) for (int g = 0; g < 2; ++g) *o++ = viennagrid::is_in_segment(s[g + 1], viennagrid::elements<CellTag>(m)[e]);
  }
};
template <typename M> struct Parse { typedef typename SegT<M>::type Seg; enum { sz = sizeof(Seg) }; static void run() { M m; Seg s(m); std::vgstring_ f(7L); viennagrid::io::netgen_reader()(m, s, f); } };
inline void token(int at, long v) { vg_file_int[at] = v; vg_file_bad[at] = 0; }
inline void good(int n) { for (int i = 0; i < n; ++i) vg_file_bad[i] = 0; vg_file_open = 1; }
//@ triangles | io::netgen_reader::operator() on a two-dimensional mesh (viennagrid/io/netgen_reader.hpp)
typedef Run<viennagrid::triangular_2d_mesh> RunT;
// 4 vertices and two triangles: 4 x y x y x y x y 2 1 1 2 3 2 2 4 3
X long P_read_tri(double * c, long * o) { good(18); token(0, 4); token(9, 2); token(10, 1); token(11, 1); token(12, 2); token(13, 3); token(14, 2); token(15, 2); token(16, 4); token(17, 3); RunT::run(4, 2, c, o); return 0; }
X long R_read_tri(double * c, long * o) { good(18); token(0, 4); token(9, 2); token(10, 1); token(11, 1); token(12, 2); token(13, 3); token(14, 2); token(15, 2); token(16, 4); token(17, 3); o[0] = 4; o[1] = 2; o[2] = 2; for (int i = 0; i < 8; ++i) c[i] = vg_file_num[1 + i]; long v[] = { 0, 1, 2, 1, 3, 2, 1, 0, 0, 1 }; for (int i = 0; i < 10; ++i) o[3 + i] = v[i]; return 0; }
//@ bad | io::netgen_reader::operator() on a file that ends early or cannot be opened (viennagrid/io/netgen_reader.hpp)
typedef Run<viennagrid::triangular_2d_mesh> RunB;
X long P_read_bad(double * c, long * o) { vg_file_int[0] = 3; vg_file_int[7] = 1; vg_file_int[8] = 1; vg_file_int[9] = 2; vg_file_int[10] = 3; vg_file_int[11] = 1; RunB::run(3, 1, c, o); return 0; }
X long R_read_bad(double * c, long * o)
{
  if (!(vg_file_open > 0)) throw viennagrid::io::cannot_open_file_exception("");
  for (int i = 0; i < 12; ++i) if (vg_file_bad[i] > 0) throw viennagrid::io::bad_file_format_exception("");
  vg_file_int[0] = 3; vg_file_int[7] = 1; vg_file_int[8] = 1; vg_file_int[9] = 2; vg_file_int[10] = 3; vg_file_int[11] = 1;
  for (int i = 0; i < 6; ++i) c[i] = vg_file_num[1 + i]; o[0] = 3; o[1] = 1; o[2] = 1; o[3] = 1; o[4] = 2; o[5] = 0; o[6] = 1; o[7] = 0; return 0;
}
//@ reject | io::netgen_reader::operator() on a vertex index that is not one of the file's, a token that cannot be read (viennagrid/io/netgen_reader.hpp)
typedef Parse<viennagrid::triangular_2d_mesh> RunI;
inline void file12() { good(12); token(0, 3); token(7, 1); token(8, 1); token(9, 1); token(10, 2); token(11, 3); }
#define INDEX(name, at, v) X long P_reject_index_##name() { file12(); token(at, v); RunI::run(); return 0; } X long R_reject_index_##name() { throw viennagrid::io::bad_file_format_exception(""); }
INDEX(zero, 9, 0) INDEX(zero_last, 11, 0) INDEX(over, 10, 4) INDEX(over_last, 11, 4) INDEX(far, 11, 1000000) INDEX(negative, 9, -1) INDEX(no_vertices, 0, 0) INDEX(negative_vertices, 0, -1)
#define BADTOK(k) X long P_reject_bad_##k() { file12(); vg_file_bad[k] = 1; RunI::run(); return 0; } X long R_reject_bad_##k() { throw viennagrid::io::bad_file_format_exception(""); }
BADTOK(0) BADTOK(1) BADTOK(2) BADTOK(3) BADTOK(4) BADTOK(5) BADTOK(6) BADTOK(7) BADTOK(8) BADTOK(9) BADTOK(10) BADTOK(11)
X long P_reject_none() { file12(); RunI::run(); return 0; } X long R_reject_none() { return 0; }
X long P_reject_open() { file12(); vg_file_open = 0; RunI::run(); return 0; } X long R_reject_open() { throw viennagrid::io::cannot_open_file_exception(""); }
//@ tetrahedra | io::netgen_reader::operator() on a three-dimensional mesh (viennagrid/io/netgen_reader.hpp)
typedef Run<viennagrid::tetrahedral_3d_mesh> RunQ;
X long P_read_tet(double * c, long * o) { good(19); token(0, 4); token(13, 1); token(14, 1); token(15, 3); token(16, 1); token(17, 2); token(18, 4); RunQ::run(4, 1, c, o); return 0; }
X long R_read_tet(double * c, long * o) { good(19); token(0, 4); token(13, 1); token(14, 1); token(15, 3); token(16, 1); token(17, 2); token(18, 4); o[0] = 4; o[1] = 1; o[2] = 1; for (int i = 0; i < 12; ++i) c[i] = vg_file_num[1 + i]; long v[] = { 2, 0, 1, 3, 1, 0 }; for (int i = 0; i < 6; ++i) o[3 + i] = v[i]; return 0; }
