#ifndef VG_CAP
#define VG_CAP 10
#endif
#ifndef VG_MAPCAP
#define VG_MAPCAP 12
#endif
#define VG_IO
#define VG_SORTED
#include "seg.hpp"
#define private public
#define protected public
#include "viennagrid/io/vtk_reader.hpp"
#undef private
#undef protected
#undef string
#undef stringstream
#undef ifstream
#undef ofstream
#undef ostream
namespace vg = viennagrid;
template <typename M> struct R_ { typedef typename SegT<M>::type Seg; enum { sz = sizeof(Seg) }; typedef vg::io::vtk_reader<M> type; };
template <typename T, typename C> void fill(C & c, T const * a, int n) { for (int i = 0; i < n; ++i) c.push_back(a[i]); }
template <typename M> void points(typename R_<M>::type & r, double const * c, int n) { typedef typename vg::result_of::point<M>::type P; for (int i = 0; i < n; ++i) { P p; for (int j = 0; j < (int)vg::result_of::static_size<P>::value; ++j) p[j] = c[i * vg::result_of::static_size<P>::value + j]; r.global_points_2[i] = p; } }
template <typename M> long * show(M & m, double * o, long * k, int n, int nc)
{
  typedef typename vg::result_of::cell_tag<M>::type CellTag; typedef typename vg::result_of::point<M>::type P;
  *k++ = vg::vertices(m).size(); *k++ = vg::elements<CellTag>(m).size(); for (int i = 0; i < n; ++i) for (int j = 0; j < (int)vg::result_of::static_size<P>::value; ++j) *o++ = vg::point(vg::vertices(m)[i])[j];
  for (int e = 0; e < nc; ++e) for (int i = 0; i < (int)vg::boundary_elements<CellTag, vg::vertex_tag>::num; ++i) *k++ = vg::vertices(vg::elements<CellTag>(m)[e])[i].id().get(); return k;
}
inline void same(double * o, double const * c, int n) { for (int i = 0; i < n; ++i) o[i] = c[i]; }
inline void put(long * k, int const * v, int n) { for (int i = 0; i < n; ++i) k[i] = v[i]; }
//@ triangles | io::vtk_reader::setupVertices, setupCells on triangles in two segments (viennagrid/io/vtk_reader.hpp)
typedef vg::triangular_2d_mesh Tri; enum { n1 = R_<Tri>::sz };
struct TR
{
  Tri m; R_<Tri>::Seg s; R_<Tri>::type r; 
  // two pieces: piece 1 holds global points 0,1,2 and one triangle, piece 4 holds points 2,1,3,4 and two triangles
  TR(double const * c) : s(m)
  {
    points<Tri>(r, c, 5); std::size_t l1[] = { 0, 1, 2 }, l4[] = { 2, 1, 3, 4 }, v1[] = { 0, 1, 2 }, v4[] = { 0, 1, 2, 3, 0, 2 }, of[] = { 3, 6 };
    fill(r.local_to_global_map[1], l1, 3); fill(r.local_to_global_map[4], l4, 4); fill(r.local_cell_vertices[1], v1, 3); fill(r.local_cell_vertices[4], v4, 6); fill(r.local_cell_offsets[1], of, 1); fill(r.local_cell_offsets[4], of, 2); r.local_cell_num[1] = 1; r.local_cell_num[4] = 2;
  }
  void cells() { r.setupVertices(m); s.get_make_segment(1); s.get_make_segment(4); r.setupCells(m, s, 1); r.setupCells(m, s, 4); }
};
X long P_vtkr_tri(double const * c, double * o, long * k) { TR t(c); t.cells(); k = show(t.m, o, k, 5, 3); *k++ = t.s.size(); for (int g = 1; g <= 4; g += 3) { for (int e = 0; e < 3; ++e) *k++ = vg::is_in_segment(t.s[g], vg::triangles(t.m)[e]); for (int i = 0; i < 5; ++i) *k++ = vg::is_in_segment(t.s[g], vg::vertices(t.m)[i]); *k++ = vg::triangles(t.s[g]).size(); *k++ = vg::vertices(t.s[g]).size(); } return 0; }
X long R_vtkr_tri(double const * c, double * o, long * k) { same(o, c, 10); int v[] = { 5, 3, 0, 1, 2, 2, 1, 3, 4, 2, 3, 2, 1, 0, 0, 1, 1, 1, 0, 0, 1, 3, 0, 1, 1, 0, 1, 1, 1, 1, 2, 4 }; put(k, v, 32); return 0; }
//@ cells | io::vtk_reader::setupCells on quadrilaterals, tetrahedra, hexahedra, lines (viennagrid/io/vtk_reader.hpp, vtk_common.hpp)
enum { n2 = R_<vg::quadrilateral_2d_mesh>::sz, n3 = R_<vg::tetrahedral_3d_mesh>::sz, n4 = R_<vg::hexahedral_3d_mesh>::sz };
template <typename M> void one(double const * c, double * o, long * k, int n, std::size_t const * v, int per, int nc)
{
  M m; typename R_<M>::Seg s(m); typename R_<M>::type r; points<M>(r, c, n); for (int i = 0; i < n; ++i) r.local_to_global_map[0].push_back(i); for (int i = 0; i < nc * per; ++i) r.local_cell_vertices[0].push_back(v[i]); for (int i = 1; i <= nc; ++i) r.local_cell_offsets[0].push_back(i * per); r.local_cell_num[0] = nc;
  r.setupVertices(m); s.get_make_segment(0); r.setupCells(m, s, 0); show(m, o, k, n, nc);
}
X long P_vtkr_quad(double const * c, double * o, long * k) { std::size_t v[] = { 0, 1, 3, 2, 2, 3, 5, 4 }; one<vg::quadrilateral_2d_mesh>(c, o, k, 6, v, 4, 2); return 0; }
X long R_vtkr_quad(double const * c, double * o, long * k) { same(o, c, 12); int v[] = { 6, 2, 0, 1, 2, 3, 2, 3, 4, 5 }; put(k, v, 10); return 0; }
X long P_vtkr_tet(double const * c, double * o, long * k) { std::size_t v[] = { 3, 0, 2, 1 }; one<vg::tetrahedral_3d_mesh>(c, o, k, 4, v, 4, 1); return 0; }
X long R_vtkr_tet(double const * c, double * o, long * k) { same(o, c, 12); int v[] = { 4, 1, 3, 0, 2, 1 }; put(k, v, 6); return 0; }
//@ hexahedra | io::vtk_reader::setupCells on hexahedra (viennagrid/io/vtk_reader.hpp, vtk_common.hpp)
enum { n6 = R_<vg::hexahedral_3d_mesh>::sz };
X long P_vtkr_hex(double const * c, double * o, long * k)
{
  typedef vg::hexahedral_3d_mesh M; M m; R_<M>::Seg s(m); R_<M>::type r; points<M>(r, c, 8); for (int i = 0; i < 8; ++i) r.local_to_global_map[0].push_back(i); std::size_t v[] = { 0, 1, 3, 2, 4, 5, 7, 6 }; for (int i = 0; i < 8; ++i) r.local_cell_vertices[0].push_back(v[i]); r.local_cell_offsets[0].push_back(8); r.local_cell_num[0] = 1;
  r.setupVertices(m); s.get_make_segment(0); r.setupCells(m, s, 0); show(m, o, k, 8, 1); return 0;
}
X long R_vtkr_hex(double const * c, double * o, long * k) { same(o, c, 24); int v[] = { 8, 1, 0, 1, 2, 3, 4, 5, 6, 7 }; put(k, v, 10); return 0; }
//@ shared | io::vtk_reader::setupCells: a cell that two pieces contain is one cell in two segments (viennagrid/io/vtk_reader.hpp)
typedef vg::triangular_2d_mesh TriS; enum { n5 = R_<TriS>::sz };
X long P_vtkr_shared(double const * c, double * o, long * k)
{
  TriS m; R_<TriS>::Seg s(m); R_<TriS>::type r; points<TriS>(r, c, 4); std::size_t l1[] = { 0, 1, 2 }, l2[] = { 2, 0, 1, 3 }, v1[] = { 0, 1, 2 }, v2[] = { 3, 0, 2, 1, 2, 0 }, of[] = { 3, 6 };
  fill(r.local_to_global_map[0], l1, 3); fill(r.local_to_global_map[1], l2, 4); fill(r.local_cell_vertices[0], v1, 3); fill(r.local_cell_vertices[1], v2, 6); fill(r.local_cell_offsets[0], of, 1); fill(r.local_cell_offsets[1], of, 2); r.local_cell_num[0] = 1; r.local_cell_num[1] = 2;
  r.setupVertices(m); s.get_make_segment(0); s.get_make_segment(1); r.setupCells(m, s, 0); r.setupCells(m, s, 1); k = show(m, o, k, 4, 2);
  for (int g = 0; g < 2; ++g) for (int e = 0; e < 2; ++e) *k++ = vg::is_in_segment(s[g], vg::triangles(m)[e]); return 0;
}
X long R_vtkr_shared(double const * c, double * o, long * k) { same(o, c, 8); int v[] = { 4, 2, 0, 1, 2, 3, 2, 1, 1, 0, 1, 1 }; put(k, v, 12); return 0; }
//@ points | io::vtk_reader::readNodeCoordinates: equal points of different pieces become one (viennagrid/io/vtk_reader.hpp)
typedef vg::triangular_2d_mesh TriP; enum { n7 = R_<TriP>::sz };
X long P_vtkr_points(double * o, long * k) { vg_file_open = 1; for (int i = 0; i < 9; ++i) vg_file_bad[i] = 0; R_<TriP>::type r; r.readNodeCoordinates(2, 3, 0); r.readNodeCoordinates(1, 3, 1); k[0] = r.local_to_global_map[0].size(); k[1] = r.local_to_global_map[1].size(); k[2] = r.local_to_global_map[0][0]; k[3] = r.local_to_global_map[0][1]; k[4] = r.local_to_global_map[1][0]; long n = k[5] = r.global_points_2.size();
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 2; ++j) if (i < n) o[2 * i + j] = r.global_points_2[i][j]; return 0; }
X long R_vtkr_points(double * o, long * k)
{
  vg_file_open = 1; for (int i = 0; i < 9; ++i) vg_file_bad[i] = 0; double const * p = vg_file_num; bool e01 = p[0] == p[3] && p[1] == p[4], e02 = p[0] == p[6] && p[1] == p[7], e12 = p[3] == p[6] && p[4] == p[7];
  k[0] = 2; k[1] = 1; k[2] = 0; k[3] = e01 ? 0 : 1; long n = e01 ? 1 : 2; k[4] = e02 ? 0 : e12 ? k[3] : n; k[5] = n + (!e02 && !e12);
  o[0] = p[0]; o[1] = p[1]; if (!e01) { o[2] = p[3]; o[3] = p[4]; } if (!e02 && !e12) { o[2 * n] = p[6]; o[2 * n + 1] = p[7]; } return 0;
}
//@ data | io::vtk_reader::setupData: quantities go to the vertices and cells they belong to (viennagrid/io/vtk_reader.hpp)
typedef vg::triangular_2d_mesh TriD; enum { n8 = R_<TriD>::sz }; typedef vg::result_of::vertex<TriD>::type Ver; typedef vg::result_of::cell<TriD>::type Cel;
struct TD
{
  TriD m; R_<TriD>::Seg s; R_<TriD>::type r;
  TD() : s(m)
  {
    double c[10] = { 0 }; points<TriD>(r, c, 5); std::size_t l1[] = { 1, 2, 0 }, l4[] = { 2, 1, 4, 3 }, v1[] = { 0, 1, 2 }, v4[] = { 0, 1, 2, 3, 0, 2 }, of[] = { 3, 6 };
    fill(r.local_to_global_map[1], l1, 3); fill(r.local_to_global_map[4], l4, 4); fill(r.local_cell_vertices[1], v1, 3); fill(r.local_cell_vertices[4], v4, 6); fill(r.local_cell_offsets[1], of, 1); fill(r.local_cell_offsets[4], of, 2); r.local_cell_num[1] = 1; r.local_cell_num[4] = 2;
    r.setupVertices(m); s.get_make_segment(1); s.get_make_segment(4); r.setupCells(m, s, 1); r.setupCells(m, s, 4);
  }
  template <typename C> static void arr(C & c, long nm, double const * d, int n) { std::deque<double> q; for (int i = 0; i < n; ++i) q.push_back(d[i]); c.push_back(std::make_pair(std::vgstring_(nm), q)); }
};
X long P_vtkr_vs(double const * d, double * o) { TD t; TD::arr(t.r.local_scalar_vertex_data[4], 5, d, 4); t.r.setupData(t.m, t.s, 4); for (int i = 1; i < 5; ++i) o[i] = t.r.vertex_scalar_field(std::vgstring_(5L), 4)(vg::vertices(t.m)[i]); return 0; }
X long R_vtkr_vs(double const * d, double * o) { o[2] = d[0]; o[1] = d[1]; o[4] = d[2]; o[3] = d[3]; return 0; }
X long P_vtkr_cs(double const * d, double * o) { TD t; TD::arr(t.r.local_scalar_cell_data[1], 5, d, 1); TD::arr(t.r.local_scalar_cell_data[4], 5, d + 1, 2); t.r.setupData(t.m, t.s, 1); t.r.setupData(t.m, t.s, 4); o[0] = t.r.cell_scalar_field(std::vgstring_(5L), 1)(vg::triangles(t.m)[0]); o[1] = t.r.cell_scalar_field(std::vgstring_(5L), 4)(vg::triangles(t.m)[1]); o[2] = t.r.cell_scalar_field(std::vgstring_(5L), 4)(vg::triangles(t.m)[2]); return 0; }
X long R_vtkr_cs(double const * d, double * o) { o[0] = d[0]; o[1] = d[1]; o[2] = d[2]; return 0; }
X long P_vtkr_vv(double const * d, double * o) { TD t; TD::arr(t.r.local_vector_vertex_data[1], 5, d, 9); t.r.setupData(t.m, t.s, 1); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) o[3 * i + j] = t.r.vertex_vector_field(std::vgstring_(5L), 1)(vg::vertices(t.m)[i])[j]; return 0; }
static void perm(double * o, double const * d) { for (int j = 0; j < 3; ++j) { o[3 + j] = d[j]; o[6 + j] = d[3 + j]; o[j] = d[6 + j]; } }
X long R_vtkr_vv(double const * d, double * o) { perm(o, d); return 0; }
X long P_vtkr_cv(double const * d, double * o) { TD t; TD::arr(t.r.local_vector_cell_data[4], 5, d, 6); t.r.setupData(t.m, t.s, 4); for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) o[3 * i + j] = t.r.cell_vector_field(std::vgstring_(5L), 4)(vg::triangles(t.m)[1 + i])[j]; return 0; }
X long R_vtkr_cv(double const * d, double * o) { same(o, d, 6); return 0; }
X long P_vtkr_reg_vs(double const * d, double * o) { TD t; std::vector<double> a(5), b(5); t.r.register_vertex_scalar(vg::make_accessor<Ver>(a), std::vgstring_(5L)); t.r.register_vertex_scalar(4, vg::make_accessor<Ver>(b), std::vgstring_(6L)); TD::arr(t.r.local_scalar_vertex_data[4], 5, d, 4); TD::arr(t.r.local_scalar_vertex_data[4], 6, d + 4, 4); t.r.setupData(t.m, t.s, 4); for (int i = 1; i < 5; ++i) { o[i] = a[i]; o[5 + i] = b[i]; } return 0; }
X long R_vtkr_reg_vs(double const * d, double * o) { for (int k = 0; k < 2; ++k, d += 4, o += 5) { o[2] = d[0]; o[1] = d[1]; o[4] = d[2]; o[3] = d[3]; } return 0; }
X long P_vtkr_reg_cs(double const * d, double * o) { TD t; std::vector<double> a(3), b(3); t.r.register_cell_scalar(vg::make_accessor<Cel>(a), std::vgstring_(5L)); t.r.register_cell_scalar(t.s[4], vg::make_accessor<Cel>(b), std::vgstring_(6L)); TD::arr(t.r.local_scalar_cell_data[4], 5, d, 2); TD::arr(t.r.local_scalar_cell_data[4], 6, d + 2, 2); t.r.setupData(t.m, t.s, 4); for (int i = 1; i < 3; ++i) { o[i] = a[i]; o[3 + i] = b[i]; } return 0; }
X long R_vtkr_reg_cs(double const * d, double * o) { for (int k = 0; k < 2; ++k, d += 2, o += 3) { o[1] = d[0]; o[2] = d[1]; } return 0; }
X long P_vtkr_reg_vv(double const * d, double * o) { TD t; std::vector<std::vector<double> > a(5), b(5); t.r.register_vertex_vector(vg::make_accessor<Ver>(a), std::vgstring_(5L)); t.r.register_vertex_vector(1, vg::make_accessor<Ver>(b), std::vgstring_(6L)); TD::arr(t.r.local_vector_vertex_data[1], 5, d, 9); TD::arr(t.r.local_vector_vertex_data[1], 6, d + 9, 9); t.r.setupData(t.m, t.s, 1); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { o[3 * i + j] = a[i][j]; o[9 + 3 * i + j] = b[i][j]; } return 0; }
X long R_vtkr_reg_vv(double const * d, double * o) { perm(o, d); perm(o + 9, d + 9); return 0; }
X long P_vtkr_reg_cv(double const * d, double * o) { TD t; std::vector<std::vector<double> > a(3), b(3); t.r.register_cell_vector(vg::make_accessor<Cel>(a), std::vgstring_(5L)); t.r.register_cell_vector(4, vg::make_accessor<Cel>(b), std::vgstring_(6L)); TD::arr(t.r.local_vector_cell_data[4], 5, d, 6); TD::arr(t.r.local_vector_cell_data[4], 6, d + 6, 6); t.r.setupData(t.m, t.s, 4); for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) { o[3 * i + j] = a[1 + i][j]; o[6 + 3 * i + j] = b[1 + i][j]; } return 0; }
X long R_vtkr_reg_cv(double const * d, double * o) { same(o, d, 12); return 0; }
