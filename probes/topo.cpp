#include "viennagrid/config/default_configs.hpp"
#include "viennagrid/mesh/mesh.hpp"
#include "viennagrid/mesh/element_creation.hpp"
using namespace viennagrid;
#define X extern "C"
template <typename T> struct nverts { static const int value = boundary_elements<T, vertex_tag>::num; };
// Inserter stand-in: every boundary element handed over is kept in a slot, its vertices stored in the order given
// by a constant permutation (as if the mesh already held it in that orientation), or as handed over if 'fresh'.
template <typename CollT, typename LineT, typename FaceT>
struct Ins
{
  CollT & coll; LineT * lines; FaceT * faces; int nl, nf, perm; bool fresh;
  Ins(CollT & c, LineT * l, FaceT * f, int p, bool fr) : coll(c), lines(l), faces(f), nl(0), nf(0), perm(p), fresh(fr) {}
  typedef CollT physical_container_collection_type;
  CollT & get_physical_container_collection() { return coll; }
  template <typename E> E * keep(E * slot, E const & e0)
  {
    E & e = const_cast<E &>(e0);
    const int N = nverts<typename E::tag>::value;
    int p[N]; for (int i = 0; i < N; ++i) p[i] = i;
    int q = perm;
    if (!fresh) for (int i = 0; i < N; ++i) { int k = i + q % (N - i); q /= (N - i); int t = p[i]; p[i] = p[k]; p[k] = t; }
    for (int i = 0; i < N; ++i) slot->container(dimension_tag<0>()).set_handle(e.container(dimension_tag<0>()).handle_at(p[i]), i);
    return slot;
  }
  std::pair<LineT *, bool> add(LineT const & e, LineT *) { return std::make_pair(keep(lines + nl++, e), fresh); }
  template <typename F> std::pair<F *, bool> add(F const & e, F *) { return std::make_pair(keep(faces + nf++, e), fresh); }
  template <bool a, bool b, typename E> std::pair<E *, bool> insert(E const & e) { return add(e, (E *)0); }
  template <typename E> std::pair<E *, bool> operator()(E const & e) { return add(e, (E *)0); }
};
template <typename MeshT, typename CellTag, typename FaceTag, typename QueryTag, int PERM, bool FRESH>
struct Probe
{
  typedef typename result_of::element<MeshT, CellTag>::type Cell;
  typedef typename result_of::element<MeshT, line_tag>::type Line;
  typedef typename result_of::element<MeshT, FaceTag>::type FaceT;
  typedef typename result_of::element<MeshT, QueryTag>::type Q;
  typedef typename result_of::element<MeshT, vertex_tag>::type Vtx;
  typedef typename MeshT::element_collection_type Coll;
  static const int NV = nverts<CellTag>::value, NQ = nverts<QueryTag>::value;
  static void run(void * vs, void * ls, void * fs, void * cs, void ** out, unsigned long * n)
  {
    Vtx * v = static_cast<Vtx *>(vs);
    Cell cell(*static_cast<Coll *>(cs));
    for (int i = 0; i < NV; ++i) cell.set_vertex(v + i, i);
    Ins<Coll, Line, FaceT> ins(*static_cast<Coll *>(cs), static_cast<Line *>(ls), static_cast<FaceT *>(fs), PERM, FRESH);
    cell.insert_callback(ins, true);
    typedef typename result_of::element_range<Cell, QueryTag>::type Range;
    Range r = elements<QueryTag>(cell);
    const int num = boundary_elements<CellTag, QueryTag>::num;
    n[0] = r.size();
    n[1] = QueryTag::dim == 1 ? ins.nl : ins.nf;
    Cell const & cc = cell;
    for (int k = 0; k < num; ++k)
    {
      Q * h = r.handle_at(k);
      for (int j = 0; j < NQ; ++j) out[2 * (k * NQ + j)] = local_vertex(cell, h, j);
      for (int j = 0; j < NQ; ++j) out[2 * (k * NQ + j) + 1] = const_cast<Vtx *>(local_vertex(cc, h, j));
    }
  }
};
template <typename MeshT, int K, int NQ> static void ref(const int (*t)[NQ], void * vs, void ** out, unsigned long * n)
{
  typedef typename result_of::element<MeshT, vertex_tag>::type Vtx;
  Vtx * v = static_cast<Vtx *>(vs);
  n[0] = K; n[1] = K;
  for (int k = 0; k < K; ++k) for (int j = 0; j < NQ; ++j) out[2 * (k * NQ + j)] = out[2 * (k * NQ + j) + 1] = v + t[k][j];
}
static const int tri_e[3][2] = {{0,1},{0,2},{1,2}};
static const int tet_e[6][2] = {{0,1},{0,2},{0,3},{1,2},{1,3},{2,3}};
static const int tet_f[4][3] = {{0,1,2},{0,1,3},{0,2,3},{1,2,3}};
static const int quad_e[4][2] = {{0,1},{0,2},{1,3},{2,3}};
static const int hex_e[12][2] = {{0,1},{0,2},{0,4},{1,3},{1,5},{2,3},{2,6},{3,7},{4,5},{4,6},{5,7},{6,7}};
static const int hex_f[6][4] = {{0,1,2,3},{0,1,4,5},{0,2,4,6},{1,3,5,7},{2,3,6,7},{4,5,6,7}};
#define ARGS void * v, void * l, void * f, void * c, void ** o, unsigned long * n
#define T1(name, M, C, F, Q, tab, K, NQ, perm, fresh) \
 X void P_##name##_##perm##_##fresh(ARGS) { Probe<M, C, F, Q, perm, fresh>::run(v, l, f, c, o, n); } X void R_##name##_##perm##_##fresh(ARGS) { ref<M, K, NQ>(tab, v, o, n); }
#define LINES(name, M, C, F, tab, K) T1(name, M, C, F, line_tag, tab, K, 2, 0, 1) T1(name, M, C, F, line_tag, tab, K, 2, 0, 0) T1(name, M, C, F, line_tag, tab, K, 2, 1, 0)
//@ triangle edges | viennagrid/topology/simplex.hpp boundary_element_generator<simplex_tag<n>, simplex_tag<1>>; element/element.hpp set_boundary_element
LINES(tri2_edges, triangular_2d_mesh, triangle_tag, line_tag, tri_e, 3)
LINES(tri3_edges, triangular_3d_mesh, triangle_tag, line_tag, tri_e, 3)
//@ tetrahedron edges | viennagrid/topology/simplex.hpp boundary_element_generator<simplex_tag<n>, simplex_tag<1>>
LINES(tet_edges, tetrahedral_3d_mesh, tetrahedron_tag, triangle_tag, tet_e, 6)
//@ tetrahedron faces | viennagrid/topology/simplex.hpp boundary_element_generator<simplex_tag<n>, simplex_tag<2>>
#define TF(perm, fresh) T1(tet_faces, tetrahedral_3d_mesh, tetrahedron_tag, triangle_tag, triangle_tag, tet_f, 4, 3, perm, fresh)
TF(0,1) TF(0,0) TF(1,0) TF(2,0) TF(3,0) TF(4,0) TF(5,0)
//@ quadrilateral edges | viennagrid/topology/quadrilateral.hpp boundary_element_generator<hypercube_tag<2>, simplex_tag<1>>
LINES(quad2_edges, quadrilateral_2d_mesh, quadrilateral_tag, line_tag, quad_e, 4)
LINES(quad3_edges, quadrilateral_3d_mesh, quadrilateral_tag, line_tag, quad_e, 4)
//@ hexahedron edges | viennagrid/topology/hexahedron.hpp boundary_element_generator<hypercube_tag<3>, simplex_tag<1>>
LINES(hex_edges, hexahedral_3d_mesh, hexahedron_tag, quadrilateral_tag, hex_e, 12)
//@ hexahedron faces | viennagrid/topology/hexahedron.hpp boundary_element_generator<hypercube_tag<3>, hypercube_tag<2>>
#define HF(perm, fresh) T1(hex_faces, hexahedral_3d_mesh, hexahedron_tag, quadrilateral_tag, quadrilateral_tag, hex_f, 6, 4, perm, fresh)
HF(0,1) HF(0,0) HF(1,0) HF(2,0) HF(3,0) HF(4,0) HF(5,0) HF(6,0) HF(7,0) HF(8,0) HF(9,0) HF(10,0) HF(11,0) HF(12,0) HF(13,0) HF(14,0) HF(15,0) HF(16,0) HF(17,0) HF(18,0) HF(19,0) HF(20,0) HF(21,0) HF(22,0) HF(23,0)
