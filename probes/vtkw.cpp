#define VG_CAP 10
#define VG_MAPCAP 16
#define VG_IO
#define VG_SORTED
#include "seg.hpp"
#define private public
#define protected public
#include "viennagrid/io/vtk_writer.hpp"
#undef private
#undef protected
#undef string
#undef stringstream
#undef ifstream
#undef ofstream
#undef ostream
namespace vg = viennagrid;
// the reference: the text of a .vtu file for given points, cells and data
struct Vtu
{
  std::vgof_ w; Vtu(long f) : w((char const *)f) {}
  static long name(long f) { std::vgstream_ s; s << std::vgstring_(f) << ".vtu"; return s.v; }
  static long name(long f, long k) { std::vgstream_ s; s << std::vgstring_(f) << "_" << k << ".vtu"; return s.v; }
  void head(int np, int nc) { w << "<?xml version=\"1.0\"?>" << "<VTKFile type=\"UnstructuredGrid\" version=\"0.1\" byte_order=\"LittleEndian\">" << "<UnstructuredGrid>" << "<Piece NumberOfPoints=\"" << np << "\" NumberOfCells=\"" << nc << "\">"; }
  void points(double const * c, int const * which, int n, int dim) { w << "<Points><DataArray type=\"Float32\" NumberOfComponents=\"3\" format=\"ascii\">"; for (int i = 0; i < n; ++i) { for (int j = 0; j < dim; ++j) w << c[dim * which[i] + j]; for (int j = dim; j < 3; ++j) w << 0; } w << "</DataArray></Points>"; }
  void cells(int const * conn, int n, int per, int type)
  {
    w << "<Cells><DataArray type=\"Int32\" Name=\"connectivity\" format=\"ascii\">"; for (int i = 0; i < n * per; ++i) w << conn[i];
    w << "</DataArray><DataArray type=\"Int32\" Name=\"offsets\" format=\"ascii\">"; for (int i = 1; i <= n; ++i) w << i * per;
    w << "</DataArray><DataArray type=\"UInt8\" Name=\"types\" format=\"ascii\">"; for (int i = 0; i < n; ++i) w << type; w << "</DataArray></Cells>";
  }
  void data(long nm, int comp) { w << "<DataArray type=\"" << std::vgstring_("Float32") << "\" Name=\"" << std::vgstring_(nm) << "\" NumberOfComponents=\"" << comp << "\" format=\"ascii\">"; }
  void scalar(long nm, double const * d, int const * which, int n) { data(nm, 1); for (int i = 0; i < n; ++i) w << d[which[i]]; w << "</DataArray>"; }
  void foot() { w << "</Piece></UnstructuredGrid></VTKFile>"; }
};
template <typename M> typename vg::result_of::vertex_handle<M>::type vert(M & m, double const * c, int i) { typedef typename vg::result_of::point<M>::type P; P p; for (int j = 0; j < (int)vg::result_of::static_size<P>::value; ++j) p[j] = c[i * vg::result_of::static_size<P>::value + j]; return vg::make_vertex(m, p); }
template <typename M> struct W_ { typedef typename SegT<M>::type Seg; enum { sz = sizeof(Seg) }; typedef vg::io::vtk_writer<M> type; };
//@ triangles | io::vtk_writer::operator() on triangles (viennagrid/io/vtk_writer.hpp)
typedef vg::triangular_2d_mesh Tri; enum { n1 = W_<Tri>::sz };
X long P_vtk_tri(double const * c) { vg_file_open = 1; Tri m; vg::result_of::vertex_handle<Tri>::type v[5]; for (int i = 0; i < 5; ++i) v[i] = vert(m, c, i); vg::make_triangle(m, v[3], v[0], v[2]); vg::make_triangle(m, v[3], v[2], v[4]); W_<Tri>::type w; w(m, std::vgstring_(7L)); return 0; }
X long R_vtk_tri(double const * c) { vg_file_open = 1; Vtu w(Vtu::name(7)); int p[] = { 0, 2, 3, 4 }, k[] = { 2, 0, 1, 2, 1, 3 }; w.head(4, 2); w.points(c, p, 4, 2); w.cells(k, 2, 3, 5); w.foot(); return 0; }
//@ quadrilaterals | io::vtk_writer::operator() on quadrilaterals (viennagrid/io/vtk_writer.hpp, vtk_common.hpp)
typedef vg::quadrilateral_2d_mesh Qua; enum { n2 = W_<Qua>::sz };
X long P_vtk_quad(double const * c) { vg_file_open = 1; Qua m; vg::result_of::vertex_handle<Qua>::type v[6]; for (int i = 0; i < 6; ++i) v[i] = vert(m, c, i); vg::make_quadrilateral(m, v[0], v[1], v[2], v[3]); vg::make_quadrilateral(m, v[2], v[3], v[4], v[5]); W_<Qua>::type w; w(m, std::vgstring_(7L)); return 0; }
X long R_vtk_quad(double const * c) { vg_file_open = 1; Vtu w(Vtu::name(7)); int p[] = { 0, 1, 2, 3, 4, 5 }, k[] = { 0, 1, 3, 2, 2, 3, 5, 4 }; w.head(6, 2); w.points(c, p, 6, 2); w.cells(k, 2, 4, 9); w.foot(); return 0; }
//@ tetrahedra | io::vtk_writer::operator() on tetrahedra (viennagrid/io/vtk_writer.hpp)
typedef vg::tetrahedral_3d_mesh Tet; enum { n3 = W_<Tet>::sz };
X long P_vtk_tet(double const * c) { vg_file_open = 1; Tet m; vg::result_of::vertex_handle<Tet>::type v[5]; for (int i = 0; i < 5; ++i) v[i] = vert(m, c, i); vg::make_tetrahedron(m, v[4], v[1], v[2], v[3]); W_<Tet>::type w; w(m, std::vgstring_(7L)); return 0; }
X long R_vtk_tet(double const * c) { vg_file_open = 1; Vtu w(Vtu::name(7)); int p[] = { 1, 2, 3, 4 }, k[] = { 3, 0, 1, 2 }; w.head(4, 1); w.points(c, p, 4, 3); w.cells(k, 1, 4, 10); w.foot(); return 0; }
//@ hexahedra | io::vtk_writer::operator() on hexahedra (viennagrid/io/vtk_writer.hpp, vtk_common.hpp)
typedef vg::hexahedral_3d_mesh Hex; enum { n4 = W_<Hex>::sz };
X long P_vtk_hex(double const * c) { vg_file_open = 1; Hex m; vg::result_of::vertex_handle<Hex>::type v[8]; for (int i = 0; i < 8; ++i) v[i] = vert(m, c, i); vg::make_hexahedron(m, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]); W_<Hex>::type w; w(m, std::vgstring_(7L)); return 0; }
X long R_vtk_hex(double const * c) { vg_file_open = 1; Vtu w(Vtu::name(7)); int p[] = { 0, 1, 2, 3, 4, 5, 6, 7 }, k[] = { 0, 1, 3, 2, 4, 5, 7, 6 }; w.head(8, 1); w.points(c, p, 8, 3); w.cells(k, 1, 8, 12); w.foot(); return 0; }
//@ lines | io::vtk_writer::operator() on lines in one and two dimensions (viennagrid/io/vtk_writer.hpp)
template <typename M> long line(double const * c) { vg_file_open = 1; M m; typename vg::result_of::vertex_handle<M>::type v[3]; for (int i = 0; i < 3; ++i) v[i] = vert(m, c, i); vg::make_line(m, v[0], v[1]); vg::make_line(m, v[2], v[1]); typename W_<M>::type w; w(m, std::vgstring_(7L)); return 0; }
inline long line_(double const * c, int dim) { vg_file_open = 1; Vtu w(Vtu::name(7)); int p[] = { 0, 1, 2 }, k[] = { 0, 1, 2, 1 }; w.head(3, 2); w.points(c, p, 3, dim); w.cells(k, 2, 2, 3); w.foot(); return 0; }
enum { n5 = W_<vg::line_1d_mesh>::sz, n6 = W_<vg::line_2d_mesh>::sz };
X long P_vtk_line1(double const * c) { return line<vg::line_1d_mesh>(c); } X long R_vtk_line1(double const * c) { return line_(c, 1); }
X long P_vtk_line2(double const * c) { return line<vg::line_2d_mesh>(c); } X long R_vtk_line2(double const * c) { return line_(c, 2); }
//@ open | io::vtk_writer::operator(): a file that cannot be opened (viennagrid/io/vtk_writer.hpp)
typedef vg::triangular_2d_mesh TriO; enum { n7 = W_<TriO>::sz };
X long P_vtk_open(double const * c) { TriO m; vg::result_of::vertex_handle<TriO>::type v[3]; for (int i = 0; i < 3; ++i) v[i] = vert(m, c, i); vg::make_triangle(m, v[0], v[1], v[2]); vg_file_open = 0; W_<TriO>::type w; w(m, std::vgstring_(7L)); return 0; }
X long R_vtk_open(double const * c) { vg_file_open = 0; throw vg::io::cannot_open_file_exception(""); }
//@ data | io::vtk_writer: quantities on vertices and cells (viennagrid/io/vtk_writer.hpp, accessor.hpp)
typedef vg::triangular_2d_mesh TriD; enum { n8 = W_<TriD>::sz };
typedef vg::result_of::vertex<TriD>::type Ver; typedef vg::result_of::cell<TriD>::type Cel;
struct D_
{
  TriD m; vg::result_of::vertex_handle<TriD>::type v[5]; std::vector<double> a, b, s, t; std::vector<std::vector<double> > x, y;
  D_(double const * c, double const * d)
  {
    vg_file_open = 1; for (int i = 0; i < 5; ++i) v[i] = vert(m, c, i); vg::make_triangle(m, v[3], v[0], v[2]); vg::make_triangle(m, v[3], v[2], v[4]);
    for (int i = 0; i < 5; ++i) { a.push_back(d[i]); b.push_back(d[5 + i]); } for (int i = 0; i < 2; ++i) { s.push_back(d[10 + i]); t.push_back(d[12 + i]); }
    for (int i = 0; i < 5; ++i) { std::vector<double> z; for (int j = 0; j < 3; ++j) z.push_back(d[14 + 3 * i + j]); x.push_back(z); } for (int i = 0; i < 2; ++i) { std::vector<double> z; for (int j = 0; j < 3; ++j) z.push_back(d[29 + 3 * i + j]); y.push_back(z); }
  }
};
struct DR { Vtu w; DR(double const * c) : w(Vtu::name(7)) { vg_file_open = 1; int p[] = { 0, 2, 3, 4 }; w.w.ok = true; w.head(4, 2); w.points(c, p, 4, 2); } void cells() { int k[] = { 2, 0, 1, 2, 1, 3 }; w.cells(k, 2, 3, 5); }
  void on_v(long nm, double const * d) { int p[] = { 0, 2, 3, 4 }; w.scalar(nm, d, p, 4); } void on_c(long nm, double const * d) { int p[] = { 0, 1 }; w.scalar(nm, d, p, 2); }
  void vec(long nm, double const * d, int const * p, int n) { w.data(nm, 3); for (int i = 0; i < n; ++i) for (int j = 0; j < 3; ++j) w.w << d[3 * p[i] + j]; w.w << "</DataArray>"; } };
X long P_vtk_data_v(double const * c, double const * d) { D_ q(c, d); W_<TriD>::type w; w.add_scalar_data_on_vertices(vg::make_accessor<Ver>(q.a), std::vgstring_(5L)); w.add_scalar_data_on_vertices(vg::make_accessor<Ver>(q.b), std::vgstring_(4L)); w(q.m, std::vgstring_(7L)); return 0; }
X long R_vtk_data_v(double const * c, double const * d) { DR r(c); r.w.w << "<PointData>"; r.on_v(4, d + 5); r.on_v(5, d); r.w.w << "</PointData>"; r.cells(); r.w.foot(); return 0; }
X long P_vtk_data_c(double const * c, double const * d) { D_ q(c, d); W_<TriD>::type w; vg::io::add_scalar_data_on_cells(w, vg::make_accessor<Cel>(q.s), std::vgstring_(5L)); w.add_scalar_data_on_cells(vg::make_field<Cel>(q.t), std::vgstring_(6L)); w(q.m, std::vgstring_(7L)); return 0; }
X long R_vtk_data_c(double const * c, double const * d) { DR r(c); r.cells(); r.w.w << "<CellData>"; r.on_c(5, d + 10); r.on_c(6, d + 12); r.w.w << "</CellData>"; r.w.foot(); return 0; }
X long P_vtk_data_vec(double const * c, double const * d) { D_ q(c, d); W_<TriD>::type w; vg::io::add_vector_data_on_cells(w, vg::make_accessor<Cel>(q.y), std::vgstring_(5L)); vg::io::add_vector_data_on_vertices(w, vg::make_accessor<Ver>(q.x), std::vgstring_(6L)); w(q.m, std::vgstring_(7L)); return 0; }
X long R_vtk_data_vec(double const * c, double const * d) { int p[] = { 0, 2, 3, 4 }, e[] = { 0, 1 }; DR r(c); r.w.w << "<PointData>"; r.vec(6, d + 14, p, 4); r.w.w << "</PointData>"; r.cells(); r.w.w << "<CellData>"; r.vec(5, d + 29, e, 2); r.w.w << "</CellData>"; r.w.foot(); return 0; }
X long P_vtk_data_mixed(double const * c, double const * d) { D_ q(c, d); W_<TriD>::type w; vg::io::add_scalar_data_on_vertices(w, vg::make_accessor<Ver>(q.a), std::vgstring_(5L)); w.add_vector_data_on_vertices(vg::make_accessor<Ver>(q.x), std::vgstring_(4L)); w.add_scalar_data_on_cells(vg::make_accessor<Cel>(q.s), std::vgstring_(5L)); w.add_vector_data_on_cells(vg::make_accessor<Cel>(q.y), std::vgstring_(6L)); w(q.m, std::vgstring_(7L)); return 0; }
X long R_vtk_data_mixed(double const * c, double const * d) { int p[] = { 0, 2, 3, 4 }, e[] = { 0, 1 }; DR r(c); r.w.w << "<PointData>"; r.on_v(5, d); r.vec(4, d + 14, p, 4); r.w.w << "</PointData>"; r.cells(); r.w.w << "<CellData>"; r.on_c(5, d + 10); r.vec(6, d + 29, e, 2); r.w.w << "</CellData>"; r.w.foot(); return 0; }
X long P_vtk_data_replace(double const * c, double const * d) { D_ q(c, d); W_<TriD>::type w; w.add_scalar_data_on_vertices(vg::make_accessor<Ver>(q.a), std::vgstring_(5L)); w.add_scalar_data_on_vertices(vg::make_accessor<Ver>(q.b), std::vgstring_(5L)); w(q.m, std::vgstring_(7L)); return 0; }
X long R_vtk_data_replace(double const * c, double const * d) { DR r(c); r.w.w << "<PointData>"; r.on_v(5, d + 5); r.w.w << "</PointData>"; r.cells(); r.w.foot(); return 0; }
X long P_vtk_data_again(double const * c, double const * d) { D_ q(c, d); W_<TriD>::type w; w.add_scalar_data_on_vertices(vg::make_accessor<Ver>(q.a), std::vgstring_(5L)); w.add_scalar_data_on_cells(vg::make_accessor<Cel>(q.s), std::vgstring_(5L)); w(q.m, std::vgstring_(7L)); w(q.m, std::vgstring_(7L)); return 0; }
X long R_vtk_data_again(double const * c, double const * d) { { DR r(c); r.w.w << "<PointData>"; r.on_v(5, d); r.w.w << "</PointData>"; r.cells(); r.w.w << "<CellData>"; r.on_c(5, d + 10); r.w.w << "</CellData>"; r.w.foot(); } { DR r(c); r.cells(); r.w.foot(); } return 0; }
//@ segments | io::vtk_writer::operator() on a segmented mesh (viennagrid/io/vtk_writer.hpp)
typedef vg::triangular_2d_mesh TriS; enum { n9 = W_<TriS>::sz }; typedef SegT<TriS>::type SegS; typedef vg::result_of::vertex<TriS>::type VerS; typedef vg::result_of::cell<TriS>::type CelS;
inline void pvd(long f, long a, long b) { std::vgstream_ s; s << std::vgstring_(f) << "_main.pvd"; std::vgof_ w((char const *)s.v); w << "<?xml version=\"1.0\"?><VTKFile type=\"Collection\" version=\"0.1\" byte_order=\"LittleEndian\" compressor=\"vtkZLibDataCompressor\"><Collection>";
  for (int k = 0; k < 2; ++k) { long i = k ? b : a; w << "<DataSet part=\"" << i << "\" file=\"" << std::vgstring_(f) << "_" << i << ".vtu\" name=\"Segment_" << i << "\"/>"; } w << "</Collection></VTKFile>"; }
struct S_
{
  TriS m; SegS s; vg::result_of::vertex_handle<TriS>::type v[5]; std::vector<double> a, b, t;
  S_(double const * c, double const * d, int i1, int i2) : s(m)
  {
    vg_file_open = 1; for (int i = 0; i < 5; ++i) v[i] = vert(m, c, i);
    vg::make_triangle(s[i1], v[0], v[1], v[2]); vg::make_triangle(s[i2], v[2], v[4], v[3]); vg::make_triangle(s[i2], v[1], v[2], v[3]);
    for (int i = 0; i < 5; ++i) { a.push_back(d[i]); b.push_back(d[5 + i]); } for (int i = 0; i < 3; ++i) t.push_back(d[10 + i]);
  }
};
struct SR { Vtu w; int g; int n; int p[4]; SR(double const * c, int g_, long id) : w(Vtu::name(7, id)), g(g_), n(g_ ? 4 : 3) { w.w.ok = true; for (int i = 0; i < 4; ++i) p[i] = i + g; w.head(n, g + 1); w.points(c, p, n, 2); }
  void cells() { int k0[] = { 0, 1, 2 }, k1[] = { 1, 3, 2, 0, 1, 2 }; w.cells(g ? k1 : k0, g + 1, 3, 5); } void on_v(long nm, double const * d) { w.scalar(nm, d, p, n); } void on_c(long nm, double const * d) { int e[] = { 0, 1, 2 }; w.scalar(nm, d, e + g, g + 1); } };
X long P_vtk_seg(double const * c, double const * d) { S_ q(c, d, 2, 5); W_<TriS>::type w; w(q.m, q.s, std::vgstring_(7L)); return 0; }
X long R_vtk_seg(double const * c, double const *) { vg_file_open = 1; pvd(7, 2, 5); { SR r(c, 0, 2); r.cells(); r.w.foot(); } { SR r(c, 1, 5); r.cells(); r.w.foot(); } return 0; }
X long P_vtk_seg_data(double const * c, double const * d) { S_ q(c, d, 2, 5); W_<TriS>::type w; w.add_scalar_data_on_vertices(vg::make_accessor<VerS>(q.a), std::vgstring_(5L)); w.add_scalar_data_on_cells(vg::make_accessor<CelS>(q.t), std::vgstring_(5L)); w(q.m, q.s, std::vgstring_(7L)); return 0; }
X long R_vtk_seg_data(double const * c, double const * d) { vg_file_open = 1; pvd(7, 2, 5); for (int g = 0; g < 2; ++g) { SR r(c, g, g ? 5 : 2); r.w.w << "<PointData>"; r.on_v(5, d); r.w.w << "</PointData>"; r.cells(); r.w.w << "<CellData>"; r.on_c(5, d + 10); r.w.w << "</CellData>"; r.w.foot(); } return 0; }
X long P_vtk_seg_own(double const * c, double const * d) { S_ q(c, d, 2, 5); W_<TriS>::type w; w.add_scalar_data_on_vertices(q.s[2], vg::make_accessor<VerS>(q.a), std::vgstring_(5L)); vg::io::add_scalar_data_on_vertices(w, q.s[5], vg::make_accessor<VerS>(q.b), std::vgstring_(5L)); w.add_scalar_data_on_cells(q.s[5], vg::make_accessor<CelS>(q.t), std::vgstring_(3L)); w(q.m, q.s, std::vgstring_(7L)); return 0; }
X long R_vtk_seg_own(double const * c, double const * d) { vg_file_open = 1; pvd(7, 2, 5); { SR r(c, 0, 2); r.w.w << "<PointData>"; r.on_v(5, d); r.w.w << "</PointData>"; r.cells(); r.w.foot(); } { SR r(c, 1, 5); r.w.w << "<PointData>"; r.on_v(5, d + 5); r.w.w << "</PointData>"; r.cells(); r.w.w << "<CellData>"; r.on_c(3, d + 10); r.w.w << "</CellData>"; r.w.foot(); } return 0; }
X long P_vtk_seg_open(double const * c, double const * d) { S_ q(c, d, 2, 5); W_<TriS>::type w; vg_file_open = 0; w(q.m, q.s, std::vgstring_(7L)); return 0; }
X long R_vtk_seg_open(double const *, double const *) { vg_file_open = 0; throw vg::io::cannot_open_file_exception(""); }
X long P_vtk_seg_again(double const * c, double const * d) { S_ q(c, d, 2, 5); W_<TriS>::type w; w.add_scalar_data_on_vertices(q.s[2], vg::make_accessor<VerS>(q.a), std::vgstring_(5L)); w.add_scalar_data_on_cells(5, vg::make_accessor<CelS>(q.t), std::vgstring_(3L)); w(q.m, q.s, std::vgstring_(7L)); w(q.m, q.s, std::vgstring_(7L)); return 0; }
X long R_vtk_seg_again(double const * c, double const * d) { vg_file_open = 1; pvd(7, 2, 5); { SR r(c, 0, 2); r.w.w << "<PointData>"; r.on_v(5, d); r.w.w << "</PointData>"; r.cells(); r.w.foot(); } { SR r(c, 1, 5); r.cells(); r.w.w << "<CellData>"; r.on_c(3, d + 10); r.w.w << "</CellData>"; r.w.foot(); } pvd(7, 2, 5); { SR r(c, 0, 2); r.cells(); r.w.foot(); } { SR r(c, 1, 5); r.cells(); r.w.foot(); } return 0; }
//@ ids | io::vtk_writer::operator() on vertices with arbitrary IDs (viennagrid/io/vtk_writer.hpp)
typedef vg::triangular_2d_mesh TriI; enum { n10 = W_<TriI>::sz }; typedef vg::result_of::vertex<TriI>::type VerI; typedef vg::result_of::cell<TriI>::type CelI;
inline vg::result_of::vertex_handle<TriI>::type idv(TriI & m, int id, double const * c) { vg::result_of::point<TriI>::type p; p[0] = c[0]; p[1] = c[1]; return vg::make_vertex_with_id(m, VerI::id_type(id), p); }
X long P_vtk_ids(double const * c, double const * d)
{
  vg_file_open = 1; TriI m; vg::result_of::vertex_handle<TriI>::type v[3]; v[0] = idv(m, 7, c); v[1] = idv(m, 4, c + 2); v[2] = idv(m, 6, c + 4); vg::make_triangle(m, v[0], v[1], v[2]); W_<TriI>::type w;
  std::vector<double> a; for (int i = 0; i < 8; ++i) a.push_back(d[i]); w.add_scalar_data_on_vertices(vg::make_accessor<VerI>(a), std::vgstring_(5L)); w(m, std::vgstring_(7L)); return 0;
}
X long R_vtk_ids(double const * c, double const * d) { vg_file_open = 1; Vtu w(Vtu::name(7)); int p[] = { 1, 2, 0 }, k[] = { 2, 0, 1 }, e[] = { 4, 6, 7 }; w.head(3, 1); w.points(c, p, 3, 2); w.w << "<PointData>"; w.scalar(5, d, e, 3); w.w << "</PointData>"; w.cells(k, 1, 3, 5); w.foot(); return 0; }
//@ segvec | io::vtk_writer: vector quantities of segments (viennagrid/io/vtk_writer.hpp)
typedef vg::triangular_2d_mesh TriV; enum { n11 = W_<TriV>::sz }; typedef SegT<TriV>::type SegV; typedef vg::result_of::vertex<TriV>::type VerV; typedef vg::result_of::cell<TriV>::type CelV;
inline void vecs(std::vector<std::vector<double> > & x, double const * d, int n) { for (int i = 0; i < n; ++i) { std::vector<double> z; for (int j = 0; j < 3; ++j) z.push_back(d[3 * i + j]); x.push_back(z); } }
inline void vec(Vtu & w, long nm, double const * d, int const * p, int n) { w.data(nm, 3); for (int i = 0; i < n; ++i) for (int j = 0; j < 3; ++j) w.w << d[3 * p[i] + j]; w.w << "</DataArray>"; }
inline void pvdv(long f, long a, long b) { std::vgstream_ s; s << std::vgstring_(f) << "_main.pvd"; std::vgof_ w((char const *)s.v); w << "<?xml version=\"1.0\"?><VTKFile type=\"Collection\" version=\"0.1\" byte_order=\"LittleEndian\" compressor=\"vtkZLibDataCompressor\"><Collection>";
  for (int k = 0; k < 2; ++k) { long i = k ? b : a; w << "<DataSet part=\"" << i << "\" file=\"" << std::vgstring_(f) << "_" << i << ".vtu\" name=\"Segment_" << i << "\"/>"; } w << "</Collection></VTKFile>"; }
X long P_vtk_segvec(double const * c, double const * d)
{
  vg_file_open = 1; TriV m; SegV s(m); vg::result_of::vertex_handle<TriV>::type v[4]; for (int i = 0; i < 4; ++i) v[i] = vert(m, c, i); vg::make_triangle(s[1], v[0], v[1], v[2]); vg::make_triangle(s[2], v[2], v[1], v[3]); std::vector<std::vector<double> > x, y, z; vecs(x, d, 4); vecs(y, d + 12, 4); vecs(z, d + 24, 2);
  W_<TriV>::type w; w.add_vector_data_on_vertices(s[1], vg::make_accessor<VerV>(x), std::vgstring_(5L)); vg::io::add_vector_data_on_vertices(w, s[2], vg::make_accessor<VerV>(y), std::vgstring_(6L)); vg::io::add_vector_data_on_cells(w, s[2], vg::make_accessor<CelV>(z), std::vgstring_(5L)); w(m, s, std::vgstring_(7L)); return 0;
}
X long R_vtk_segvec(double const * c, double const * d)
{
  vg_file_open = 1; pvdv(7, 1, 2); int p1[] = { 0, 1, 2 }, k1[] = { 0, 1, 2 }, p2[] = { 1, 2, 3 }, k2[] = { 1, 0, 2 }, e2[] = { 1 };
  { Vtu w(Vtu::name(7, 1)); w.w.ok = true; w.head(3, 1); w.points(c, p1, 3, 2); w.w << "<PointData>"; vec(w, 5, d, p1, 3); w.w << "</PointData>"; w.cells(k1, 1, 3, 5); w.foot(); }
  { Vtu w(Vtu::name(7, 2)); w.w.ok = true; w.head(3, 1); w.points(c, p2, 3, 2); w.w << "<PointData>"; vec(w, 6, d + 12, p2, 3); w.w << "</PointData>"; w.cells(k2, 1, 3, 5); w.w << "<CellData>"; vec(w, 5, d + 24, e2, 1); w.w << "</CellData>"; w.foot(); } return 0;
}
