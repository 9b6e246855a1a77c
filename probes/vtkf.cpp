#define VG_CAP 10
#define VG_MAPCAP 8
#define VG_IO
#define VG_SORTED
#include "seg.hpp"
#include <cstdlib>
// a token is a word (its hash) or a number: number k stands for the unknown value vg_file_num[k] (as real number) and for k (as integer)
inline int vg_atoi(char const * s) { return (int)((long)s - (1L << 30)); }
inline double vg_atof(char const * s) { return vg_file_num[(long)s - (1L << 30)]; }
#define atoi vg_atoi
#define atof vg_atof
#define private public
#define protected public
#include "viennagrid/io/xml_tag.hpp"
// what a file holds at its k-th token, if that is a tag: name and attributes (the text scanner of xml_tag::parse is not analysed)
struct vg_tag { long n, a[2], v[2]; }; extern vg_tag vg_tags[64];
namespace viennagrid { namespace io {
template <> template <> void xml_tag<bool>::parse<std::vgif_>(std::vgif_ & r)
{
  clear(); long k = r.pos++; name_ = std::vgstring_(vg_tags[k].n);
  for (int i = 0; i < 2; ++i) if (vg_tags[k].a[i]) attributes_.push_back(std::make_pair(std::vgstring_(vg_tags[k].a[i]), std::vgstring_(vg_tags[k].v[i])));
}
} }
#include "viennagrid/io/vtk_reader.hpp"
#undef private
#undef protected
#undef atoi
#undef atof
#undef string
#undef stringstream
#undef ifstream
#undef ofstream
#undef ostream
namespace vg = viennagrid;
template <typename M> struct R_ { typedef typename SegT<M>::type Seg; enum { sz = sizeof(Seg) }; typedef vg::io::vtk_reader<M> type; };
// writes the content of a file
struct File
{
  int k; File() : k(0) { vg_file_open = 1; }
  void tok(long v) { vg_tags[k].n = 0; vg_tags[k].a[0] = vg_tags[k].a[1] = 0; vg_file_bad[k] = 0; vg_file_int[k] = v; ++k; }
  void word(char const * s) { tok(std::vg_text(0, s)); } void num(long v) { tok((1L << 30) + v); }
  void tag(char const * s, char const * a = 0, long v = 0, char const * b = 0, long w = 0) { tok(0); --k; vg_tags[k].n = std::vg_text(0, s); if (a) { vg_tags[k].a[0] = std::vg_text(0, a); vg_tags[k].v[0] = v; } if (b) { vg_tags[k].a[1] = std::vg_text(0, b); vg_tags[k].v[1] = w; } ++k; }
  static long n(long v) { return (1L << 30) + v; } static long t(char const * s) { return std::vg_text(0, s); }
  int real() { tok(0); return k - 1; }      // a number read with >>: vg_file_num[position]
  void head(int np, int nc) { tag("?xml"); tag("vtkfile"); tag("unstructuredgrid"); tag("piece", "numberofpoints", n(np), "numberofcells", n(nc)); tag("points"); tag("dataarray", "numberofcomponents", n(3)); }
  int points(int np) { int at = k; for (int i = 0; i < 3 * np; ++i) real(); tag("/dataarray"); tag("/points"); return at; }
  void list(char const * nm, int const * v, int c) { tag("dataarray", "name", t(nm)); for (int i = 0; i < c; ++i) num(v[i]); word("</DataArray>"); }
  void foot() { tag("/piece"); tag("/unstructuredgrid"); tag("/vtkfile"); }
};
template <typename M> long * show(M & m, double * o, long * k, int n, int nc)
{
  typedef typename vg::result_of::cell_tag<M>::type CellTag; typedef typename vg::result_of::point<M>::type P;
  *k++ = vg::vertices(m).size(); *k++ = vg::elements<CellTag>(m).size(); for (int i = 0; i < n; ++i) for (int j = 0; j < (int)vg::result_of::static_size<P>::value; ++j) *o++ = vg::point(vg::vertices(m)[i])[j];
  for (int e = 0; e < nc; ++e) for (int i = 0; i < (int)vg::boundary_elements<CellTag, vg::vertex_tag>::num; ++i) *k++ = vg::vertices(vg::elements<CellTag>(m)[e])[i].id().get(); return k;
}
inline void put(long * k, int const * v, int n) { for (int i = 0; i < n; ++i) k[i] = v[i]; }

inline void same(double * o, double const * c, int n) { for (int i = 0; i < n; ++i) o[i] = c[i]; }
// n points at file position p: first coordinates 1, 2, ... (so that they are distinct), the others unknown
inline void distinct(int p, int n, int const * x = 0) { for (int i = 0; i < n; ++i) vg_file_num[p + 3 * i] = x ? x[i] : i + 1; }
inline void xy(double * o, int p, int i, int x) { o[0] = x; o[1] = vg_file_num[p + 3 * i + 1]; }
//@ vtu | io::vtk_reader::operator() on a .vtu file (viennagrid/io/vtk_reader.hpp)
typedef vg::triangular_2d_mesh Tri; enum { n1 = R_<Tri>::sz, n1b = R_<vg::tetrahedral_3d_mesh>::sz };
inline int file_tri(int first) { File f; f.head(4, 2); int p = f.points(4); f.tag("cells"); int c[] = { 2, 0, 1, 3, 2, 1 }, o[] = { 3, 6 }, t[] = { 5, 5 }; if (first) f.list("types", t, 2); f.list("connectivity", c, 6); f.list("offsets", o, 2); if (!first) f.list("types", t, 2); f.tag("/cells"); f.foot(); distinct(p, 4); return p; }
inline void tri(double * o, long * k, int first) { file_tri(first); Tri m; R_<Tri>::Seg s(m); R_<Tri>::type r; r(m, s, std::vgstring_("vtu")); k = show(m, o, k, 4, 2); *k++ = s.size(); *k++ = vg::triangles(s[0]).size(); *k++ = vg::vertices(s[0]).size(); }
inline void tri_(double * o, long * k, int first) { int p = file_tri(first); for (int i = 0; i < 4; ++i) xy(o + 2 * i, p, i, i + 1); int v[] = { 4, 2, 2, 0, 1, 3, 2, 1, 1, 2, 4 }; put(k, v, 11); }
X long P_vtkf_tri(double * o, long * k) { tri(o, k, 0); return 0; } X long R_vtkf_tri(double * o, long * k) { tri_(o, k, 0); return 0; }
X long P_vtkf_tri_order(double * o, long * k) { tri(o, k, 1); return 0; } X long R_vtkf_tri_order(double * o, long * k) { tri_(o, k, 1); return 0; }
X long P_vtkf_tri_mesh(double * o, long * k) { file_tri(0); Tri m; R_<Tri>::type r; r(m, std::vgstring_("vtu")); show(m, o, k, 4, 2); return 0; }
X long R_vtkf_tri_mesh(double * o, long * k) { int p = file_tri(0); for (int i = 0; i < 4; ++i) xy(o + 2 * i, p, i, i + 1); int v[] = { 4, 2, 2, 0, 1, 3, 2, 1 }; put(k, v, 8); return 0; }
inline int file_tet() { File f; f.head(4, 1); int p = f.points(4); f.tag("cells"); int c[] = { 2, 0, 1, 3 }, o[] = { 4 }, t[] = { 10 }; f.list("connectivity", c, 4); f.list("offsets", o, 1); f.list("types", t, 1); f.tag("/cells"); f.foot(); distinct(p, 4); return p; }
X long P_vtkf_tet(double * o, long * k) { typedef vg::tetrahedral_3d_mesh M; file_tet(); M m; R_<M>::Seg s(m); R_<M>::type r; r(m, s, std::vgstring_("vtu")); show(m, o, k, 4, 1); return 0; }
X long R_vtkf_tet(double * o, long * k) { int p = file_tet(); for (int i = 0; i < 4; ++i) { xy(o + 3 * i, p, i, i + 1); o[3 * i + 2] = vg_file_num[p + 3 * i + 2]; } int v[] = { 4, 1, 2, 0, 1, 3 }; put(k, v, 6); return 0; }
//@ again | io::vtk_reader::operator(): a reader used for a second file (viennagrid/io/vtk_reader.hpp)
typedef vg::triangular_2d_mesh TriA; enum { n2 = R_<TriA>::sz };
inline int file_one(int x0) { File f; f.head(3, 1); int p = f.points(3); f.tag("cells"); int c[] = { 2, 0, 1 }, o[] = { 3 }, t[] = { 5 }; f.list("connectivity", c, 3); f.list("offsets", o, 1); f.list("types", t, 1); f.tag("/cells"); f.foot(); int x[] = { x0, x0 + 1, x0 + 2 }; distinct(p, 3, x); return p; }
X long P_vtkf_again(double * o, long * k) { R_<TriA>::type r; { file_one(1); TriA m; R_<TriA>::Seg s(m); r(m, s, std::vgstring_("vtu")); } file_one(2); r.reader.pos = 0; TriA m; R_<TriA>::Seg s(m); r(m, s, std::vgstring_("vtu")); k = show(m, o, k, 3, 1); *k++ = s.size(); return 0; }
X long R_vtkf_again(double * o, long * k) { int p = file_one(2); for (int i = 0; i < 3; ++i) xy(o + 2 * i, p, i, i + 2); int v[] = { 3, 1, 2, 0, 1, 1 }; put(k, v, 6); return 0; }
// ... a first file with data, a second one with more cells and without
inline int file_two(int data) { File f; f.head(4, data ? 1 : 2); int p = f.points(4); if (data) { f.tag("pointdata"); f.tag("dataarray", "name", 5); for (int i = 0; i < 4; ++i) f.num(60 + i); f.word("</dataarray>"); f.tag("/pointdata"); } f.tag("cells"); int c[] = { 2, 0, 1, 3, 2, 1 }, c1[] = { 3, 2, 0 }, o[] = { 3, 6 }, t[] = { 5, 5 }; f.list("connectivity", data ? c1 : c, data ? 3 : 6); f.list("offsets", o, data ? 1 : 2); f.list("types", t, data ? 1 : 2); f.tag("/cells");
  if (data) { f.tag("celldata"); f.tag("dataarray", "name", 6); f.num(60); f.word("</dataarray>"); f.tag("/celldata"); } f.foot(); distinct(p, 4); return p; }
X long P_vtkf_again_more(double * o, long * k) { R_<TriA>::type r; { file_two(1); TriA m; R_<TriA>::Seg s(m); r(m, s, std::vgstring_("vtu")); } file_two(0); r.reader.pos = 0; TriA m; R_<TriA>::Seg s(m); r(m, s, std::vgstring_("vtu")); k = show(m, o, k, 4, 2); *k++ = s.size(); *k++ = r.scalar_vertex_data_names(0).size(); *k++ = r.scalar_cell_data_names(0).size(); return 0; }
X long R_vtkf_again_more(double * o, long * k) { file_two(1); int p = file_two(0); for (int i = 0; i < 4; ++i) xy(o + 2 * i, p, i, i + 1); int v[] = { 4, 2, 2, 0, 1, 3, 2, 1, 1, 0, 0 }; put(k, v, 11); return 0; }
//@ data | io::vtk_reader::readPointCellData, readData and what becomes of it (viennagrid/io/vtk_reader.hpp)
typedef vg::triangular_2d_mesh TriD; enum { n3 = R_<TriD>::sz }; typedef vg::result_of::vertex<TriD>::type Ver; typedef vg::result_of::cell<TriD>::type Cel;
inline void arr(File & f, long nm, int comp, int at, int c) { if (comp) f.tag("dataarray", "name", nm, "numberofcomponents", File::n(comp)); else f.tag("dataarray", "name", nm); for (int i = 0; i < c; ++i) f.num(at + i); f.word("</dataarray>"); }
// values 40.. : point scalar 5 (40-42), point vector 6 (43-51), cell scalar 5 (52), cell vector 8 (53-55)
inline void file_data(int what) { File f; f.head(3, 1); int p = f.points(3); if (what < 2) { f.tag("pointdata"); if (what == 0) arr(f, 5, 1, 40, 3); else arr(f, 6, 3, 43, 9); f.tag("/pointdata"); } f.tag("cells"); int c[] = { 2, 0, 1 }, o[] = { 3 }, t[] = { 5 }; f.list("connectivity", c, 3); f.list("offsets", o, 1); f.list("types", t, 1); f.tag("/cells");
  if (what >= 2) { f.tag("celldata"); if (what == 2) arr(f, 5, 1, 52, 1); else if (what == 3) arr(f, 8, 3, 53, 3); else if (what == 5) { arr(f, 8, 3, 53, 3); arr(f, 5, 0, 52, 1); } else { arr(f, 5, 0, 52, 1); arr(f, 6, 0, 53, 1); } f.tag("/celldata"); } f.foot(); distinct(p, 3); }
struct FD { TriD m; R_<TriD>::Seg s; R_<TriD>::type r; FD(int what) : s(m) { file_data(what); } void go() { r(m, s, std::vgstring_("vtu")); } };
X long P_vtkf_vs(double * o, long * k) { FD d(0); std::vector<double> a(3); d.r.register_vertex_scalar(vg::make_accessor<Ver>(a), std::vgstring_(5L)); d.go(); for (int i = 0; i < 3; ++i) o[i] = a[i]; k[0] = d.r.scalar_vertex_data_names(0).size(); k[1] = d.r.vector_vertex_data_names(0).size(); k[2] = d.r.scalar_cell_data_names(0).size(); k[3] = d.r.vector_cell_data_names(0).size(); k[4] = d.r.scalar_vertex_data_names(0)[0].id; return 0; }
X long R_vtkf_vs(double * o, long * k) { file_data(0); same(o, vg_file_num + 40, 3); int v[] = { 1, 0, 0, 0, 5 }; put(k, v, 5); return 0; }
X long P_vtkf_vv(double * o, long * k) { FD d(1); std::vector<std::vector<double> > a(3); d.r.register_vertex_vector(vg::make_accessor<Ver>(a), std::vgstring_(6L)); d.go(); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) o[3 * i + j] = a[i][j]; k[0] = d.r.scalar_vertex_data_names(0).size(); k[1] = d.r.vector_vertex_data_names(0).size(); k[2] = d.r.vector_vertex_data_names(0)[0].id; return 0; }
X long R_vtkf_vv(double * o, long * k) { file_data(1); same(o, vg_file_num + 43, 9); int v[] = { 0, 1, 6 }; put(k, v, 3); return 0; }
X long P_vtkf_cs(double * o, long * k) { FD d(2); d.go(); o[0] = d.r.cell_scalar_field(std::vgstring_(5L), d.s[0])(vg::cells(d.m)[0]); k[0] = d.r.scalar_vertex_data_names(0).size(); k[1] = d.r.scalar_cell_data_names(0).size(); k[2] = d.r.vector_cell_data_names(0).size(); k[3] = d.r.scalar_cell_data_names(0)[0].id; return 0; }
X long R_vtkf_cs(double * o, long * k) { file_data(2); same(o, vg_file_num + 52, 1); int v[] = { 0, 1, 0, 5 }; put(k, v, 4); return 0; }
X long P_vtkf_cv(double * o, long * k) { FD d(3); d.go(); for (int j = 0; j < 3; ++j) o[j] = d.r.cell_vector_field(std::vgstring_(8L), d.s[0])(vg::cells(d.m)[0])[j]; k[0] = d.r.vector_vertex_data_names(0).size(); k[1] = d.r.scalar_cell_data_names(0).size(); k[2] = d.r.vector_cell_data_names(0).size(); return 0; }
X long R_vtkf_cv(double * o, long * k) { file_data(3); same(o, vg_file_num + 53, 3); int v[] = { 0, 0, 1 }; put(k, v, 3); return 0; }
X long P_vtkf_cs2(double * o, long * k) { FD d(4); d.go(); o[0] = d.r.cell_scalar_field(std::vgstring_(5L), d.s[0])(vg::cells(d.m)[0]); o[1] = d.r.cell_scalar_field(std::vgstring_(6L), d.s[0])(vg::cells(d.m)[0]); return 0; }
X long R_vtkf_cs2(double * o, long * k) { file_data(4); same(o, vg_file_num + 52, 2); return 0; }
// a data array that does not give its number of components is a scalar, whatever comes before it
X long P_vtkf_cvs(double * o, long * k) { FD d(5); d.go(); k[0] = d.r.scalar_cell_data_names(0).size(); k[1] = d.r.vector_cell_data_names(0).size(); if (k[0] == 1) o[0] = d.r.cell_scalar_field(std::vgstring_(5L), d.s[0])(vg::cells(d.m)[0]); return 0; }
X long R_vtkf_cvs(double * o, long * k) { file_data(5); same(o, vg_file_num + 52, 1); k[0] = k[1] = 1; return 0; }
//@ pvd | io::vtk_reader::operator() on a .pvd file with two pieces (viennagrid/io/vtk_reader.hpp)
typedef vg::triangular_2d_mesh TriP; enum { n4 = R_<TriP>::sz };
inline void piece(File & f, int * at, int g) { f.head(3, 1); *at = f.points(3); f.tag("cells"); int c[] = { 0, 1, 2 }, o[] = { 3 }, t[] = { 5 }; f.list("connectivity", c, 3); f.list("offsets", o, 1); f.list("types", t, 1); f.tag("/cells"); f.foot(); }
inline void file_pvd(int * p, int a, int b) { File f; f.tag("?xml"); f.tag("vtkfile", "type", File::t("collection")); f.tag("collection"); f.tag("dataset", "part", File::n(a), "file", 3); f.tag("dataset", "part", File::n(b), "file", 4); f.tag("/collection"); f.tag("/vtkfile"); piece(f, p, 0); piece(f, p + 1, 1); int x0[] = { 1, 2, 3 }, x1[] = { 4, 5, 6 }; distinct(p[0], 3, x0); distinct(p[1], 3, x1); }
template <int a, int b> void pvd(double * o, long * k) { int p[2]; file_pvd(p, a, b); TriP m; R_<TriP>::Seg s(m); R_<TriP>::type r; r(m, s, std::vgstring_("pvd")); k = show(m, o, k, 6, 2); *k++ = s.size(); for (int e = 0; e < 2; ++e) { *k++ = vg::is_in_segment(s[1], vg::triangles(m)[e]); *k++ = vg::is_in_segment(s[4], vg::triangles(m)[e]); } }
X long P_vtkf_pvd(double * o, long * k) { pvd<1, 4>(o, k); return 0; }
X long R_vtkf_pvd(double * o, long * k) { int p[2]; file_pvd(p, 1, 4); for (int i = 0; i < 6; ++i) xy(o + 2 * i, p[i / 3], i % 3, i + 1); int v[] = { 6, 2, 0, 1, 2, 3, 4, 5, 2, 1, 0, 0, 1 }; put(k, v, 13); return 0; }
//@ reject | io::vtk_reader::operator(): what cannot be read (viennagrid/io/vtk_reader.hpp)
typedef vg::triangular_2d_mesh TriX; enum { n5 = R_<TriX>::sz };
inline void xrun(char const * ext) { TriX m; R_<TriX>::Seg s(m); R_<TriX>::type r; r(m, s, std::vgstring_(ext)); }
X long P_vtkf_extension() { vg_file_open = 1; xrun("vtk"); return 0; } X long R_vtkf_extension() { throw vg::io::bad_file_format_exception(""); }
X long P_vtkf_open_pvd() { vg_file_open = 0; xrun("pvd"); return 0; } X long R_vtkf_open_pvd() { vg_file_open = 0; throw vg::io::cannot_open_file_exception(""); }
#define PVD(name, t0, t1, v1, t2) X long P_vtkf_pvd_##name() { File f; f.tag(t0); f.tag(t1, "type", File::t(v1)); f.tag(t2); f.tag("/collection"); f.tag("/vtkfile"); xrun("pvd"); return 0; } X long R_vtkf_pvd_##name() { vg_file_open = 1; throw vg::io::bad_file_format_exception(""); }
PVD(no_xml, "html", "vtkfile", "collection", "collection") PVD(no_vtk, "?xml", "vtk", "collection", "collection") PVD(no_type, "?xml", "vtkfile", "unstructuredgrid", "collection") PVD(no_collection, "?xml", "vtkfile", "collection", "piece")
