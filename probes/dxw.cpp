#define VG_CAP 10
#define VG_MAPCAP 16
#define VG_IO
#define VG_SORTED
#include "seg.hpp"
#define private public
#define protected public
#include "viennagrid/io/opendx_writer.hpp"
#include "viennagrid/io/vmesh_writer.hpp"
#include "viennagrid/io/mphtxt_writer.hpp"
#undef private
#undef protected
#undef string
#undef stringstream
#undef ifstream
#undef ofstream
#undef ostream
namespace vg = viennagrid;
template <typename M> typename vg::result_of::vertex_handle<M>::type vert(M & m, double const * c, int i) { typedef typename vg::result_of::point<M>::type P; P p; for (int j = 0; j < (int)vg::result_of::static_size<P>::value; ++j) p[j] = c[i * vg::result_of::static_size<P>::value + j]; return vg::make_vertex(m, p); }
//@ opendx | io::opendx_writer::operator() (viennagrid/io/opendx_writer.hpp)
typedef vg::triangular_2d_mesh TriX; typedef vg::tetrahedral_3d_mesh TetX; typedef vg::result_of::vertex<TriX>::type VerX; typedef vg::result_of::cell<TriX>::type CelX;
struct Dx
{
  std::vgof_ w; Dx(long f) : w((char const *)f) {}
  void points(double const * c, int n, int dim) { w << "object \"points\" class array type float rank 1 shape " << dim << " items " << n << " data follows"; for (int i = 0; i < n * dim; ++i) w << c[i]; }
  void cells(int const * k, int n, int dim) { w << "object \"grid_Line_One\" class array type int rank 1 shape " << dim + 1 << " items " << n << " data follows"; for (int i = 0; i < n * (dim + 1); ++i) w << k[i]; w << std::vgstring_(dim == 2 ? "attribute \"element type\" string \"triangles\" " : "attribute \"element type\" string \"tetrahedra\" ") << "attribute \"ref\" string \"positions\" "; }
  void data(double const * d, int n, char const * dep) { w << "object \"VisData\" class array items " << n << " data follows"; for (int i = 0; i < n; ++i) w << vg::io::DXfixer(d[i]); w << "attribute \"dep\" string \"" << dep << "\""; }
  void foot() { w << "object \"AttPotential\" class field component \"data\" \"VisData\" component \"positions\" \"points\" component \"connections\" \"grid_Line_One\""; }
};
struct X_
{
  TriX m; vg::result_of::vertex_handle<TriX>::type v[4]; std::vector<double> a, t;
  X_(double const * c, double const * d) { vg_file_open = 1; for (int i = 0; i < 4; ++i) v[i] = vert(m, c, i); vg::make_triangle(m, v[0], v[1], v[2]); vg::make_triangle(m, v[3], v[2], v[1]); for (int i = 0; i < 4; ++i) a.push_back(d[i]); for (int i = 0; i < 2; ++i) t.push_back(d[4 + i]); }
};
inline void dxhead(Dx & w, double const * c) { vg_file_open = 1; w.w.ok = true; int k[] = { 0, 1, 2, 3, 2, 1 }; w.points(c, 4, 2); w.cells(k, 2, 2); }
X long P_dx(double const * c, double const * d) { X_ q(c, d); vg::io::opendx_writer<TriX> w; w(q.m, std::vgstring_(7L)); return 0; }
X long R_dx(double const * c, double const *) { Dx w(7); dxhead(w, c); w.foot(); return 0; }
X long P_dx_vertex(double const * c, double const * d) { X_ q(c, d); vg::io::opendx_writer<TriX> w; w.add_scalar_data_on_vertices(vg::make_accessor<VerX>(q.a), std::vgstring_(5L)); w(q.m, std::vgstring_(7L)); return 0; }
X long R_dx_vertex(double const * c, double const * d) { Dx w(7); dxhead(w, c); w.data(d, 4, "positions"); w.foot(); return 0; }
X long P_dx_cell(double const * c, double const * d) { X_ q(c, d); vg::io::opendx_writer<TriX> w; vg::io::add_scalar_data_on_cells(w, vg::make_accessor<CelX>(q.t), std::vgstring_(5L)); w(q.m, std::vgstring_(7L)); return 0; }
X long R_dx_cell(double const * c, double const * d) { Dx w(7); dxhead(w, c); w.data(d + 4, 2, "connections"); w.foot(); return 0; }
X long P_dx_open(double const * c, double const * d) { X_ q(c, d); vg::io::opendx_writer<TriX> w; vg_file_open = 0; w(q.m, std::vgstring_(7L)); return 0; }
X long R_dx_open(double const *, double const *) { vg_file_open = 0; throw vg::io::cannot_open_file_exception(""); }
//@ opendx_ids | io::opendx_writer::operator() on vertices with arbitrary IDs (viennagrid/io/opendx_writer.hpp)
typedef vg::triangular_2d_mesh TriJ; typedef vg::result_of::vertex<TriJ>::type VerJ;
inline vg::result_of::vertex_handle<TriJ>::type idv(TriJ & m, int id, double const * c) { vg::result_of::point<TriJ>::type p; p[0] = c[0]; p[1] = c[1]; return vg::make_vertex_with_id(m, VerJ::id_type(id), p); }
X long P_dx_ids(double const * c) { vg_file_open = 1; TriJ m; vg::result_of::vertex_handle<TriJ>::type v[3]; v[0] = idv(m, 7, c); v[1] = idv(m, 4, c + 2); v[2] = idv(m, 6, c + 4); vg::make_triangle(m, v[0], v[2], v[1]); vg::io::opendx_writer<TriJ> w; w(m, std::vgstring_(7L)); return 0; }
X long R_dx_ids(double const * c)
{
  vg_file_open = 1; std::vgof_ w((char const *)7L); w << "object \"points\" class array type float rank 1 shape " << 2 << " items " << 3 << " data follows"; for (int i = 0; i < 6; ++i) w << c[i];
  w << "object \"grid_Line_One\" class array type int rank 1 shape " << 3 << " items " << 1 << " data follows" << 0 << 2 << 1 << std::vgstring_("attribute \"element type\" string \"triangles\" ") << "attribute \"ref\" string \"positions\"";
  w << "object \"AttPotential\" class field component \"data\" \"VisData\" component \"positions\" \"points\" component \"connections\" \"grid_Line_One\""; return 0;
}
//@ vmesh | io::vmesh_writer::operator() (viennagrid/io/vmesh_writer.hpp)
typedef vg::triangular_2d_mesh TriV; typedef SegT<TriV>::type SegV; enum { nv = sizeof(SegV) };
X long P_vmesh(double const * c) { vg_file_open = 1; TriV m; SegV s(m); vg::result_of::vertex_handle<TriV>::type v[5]; for (int i = 0; i < 5; ++i) v[i] = vert(m, c, i); vg::make_triangle(s[2], v[0], v[1], v[2]); vg::make_triangle(s[5], v[2], v[4], v[3]); vg::make_triangle(s[5], v[1], v[2], v[3]);
  vg::io::vmesh_writer<TriV> w; w(m, s, std::vgstring_(6L), std::vgstring_(7L)); return 0; }
X long R_vmesh(double const *)
{
  vg_file_open = 1; std::vgstream_ f; f << std::vgstring_(7L) << ".vmesh"; std::vgof_ w((char const *)f.v);
  w << "<mesh>" << "<file>" << std::vgstring_(6L) << "</file>" << "<geomdim>" << 2 << "</geomdim>" << "<celltype>" << vg::triangle_tag::name() << "</celltype>" << "<vertices>" << 5 << "</vertices>" << "<cells>" << 3 << "</cells>" << "<segments>" << 2 << "</segments>" << "<segmentation>";
  for (int k = 0; k < 2; ++k) w << "<segment>" << "<id>" << (k ? 5 : 2) << "</id>" << "<name>" << "</name>" << "<vertices>" << (k ? 4 : 3) << "</vertices>" << "<cells>" << (k ? 2 : 1) << "</cells>" << "</segment>";
  w << "</segmentation>" << "</mesh>"; return 0;
}
//@ mphtxt | io::mphtxt_writer::operator() (viennagrid/io/mphtxt_writer.hpp)
typedef vg::tetrahedral_3d_mesh TetM; typedef SegT<TetM>::type SegM; enum { nm = sizeof(SegM) };
inline void mp_(double const * c, int s1, int s2) { vg_file_open = 1; TetM m; SegM s(m); vg::result_of::vertex_handle<TetM>::type v[5]; for (int i = 0; i < 5; ++i) v[i] = vert(m, c, i); vg::make_tetrahedron(s[s1], v[0], v[1], v[2], v[3]); vg::make_tetrahedron(s[s2], v[1], v[2], v[3], v[4]); vg::io::mphtxt_writer w; w(m, s, std::vgstring_(7L)); }
inline void mpr_(double const * c, int const * tri, int nt, int const * contact, int const * up, int const * down, int s1, int s2)
{
  std::vgstream_ f; f << std::vgstring_(7L) << ".mphtxt"; vg_file_open = 1; std::vgof_ w((char const *)f.v);
  w << "# Created by ViennaGrid mphtxt writer # Major & minor version 0 1 1 # number of tags # Tags 15 viennagrid_mesh 1 # number of types # Types 3 obj # --------- Object 0 ---------- 0 0 1 4 Mesh # class 2 # version" << 3 << "# sdim" << 5 << "# number of mesh points 0 # lowest mesh point index # Mesh point coordinates";
  for (int i = 0; i < 15; ++i) w << c[i]; w << "2 # number of element types 3 tri 3 # nodes per element" << nt << "# number of triangles"; int const T[] = { 0, 1, 2, 0, 1, 3, 0, 2, 3, 1, 2, 3, 1, 2, 4, 1, 3, 4, 2, 3, 4 };
  for (int i = 0; i < nt; ++i) for (int j = 0; j < 3; ++j) w << T[3 * tri[i] + j]; w << "3 0" << nt << "# number of triangles"; for (int i = 0; i < nt; ++i) w << contact[i]; w << nt << "# number of triangles"; for (int i = 0; i < nt; ++i) w << up[i] << down[i];
  w << "3 tet 4 # nodes per element" << 2 << "# number of tetrahedron" << 0 << 1 << 2 << 3 << 1 << 2 << 3 << 4 << "4 0" << 2 << "# number of tetrahedron" << s1 + 1 << s2 + 1 << "0";
}
double const CO[] = { 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 1, 1, 1, 0 };
// outward orientation of the faces: 012 points up (inwards), 013 outwards (-y), 023 inwards (+x), 123 outwards; second cell: 123 inwards, 124 outwards, 134 inwards, 234 outwards
X long P_mphtxt_two() { mp_(CO, 0, 1); return 0; }
X long R_mphtxt_two() { int t[] = { 0, 1, 2, 3, 4, 5, 6 }, k[] = { 0, 1, 2, 3, 4, 5, 6 }, up[] = { 0, 1, 0, 1, 2, 0, 2 }, dn[] = { 1, 0, 1, 2, 0, 2, 0 }; mpr_(CO, t, 7, k, up, dn, 0, 1); return 0; }
X long P_mphtxt_one() { mp_(CO, 3, 3); return 0; }
X long R_mphtxt_one() { int t[] = { 0, 1, 2, 4, 5, 6 }, k[] = { 0, 1, 2, 0, 3, 4 }, up[] = { 0, 4, 0, 4, 0, 4 }, dn[] = { 4, 0, 4, 0, 4, 0 }; mpr_(CO, t, 6, k, up, dn, 3, 3); return 0; }
