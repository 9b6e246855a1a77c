#ifndef VGSA_CONN_HPP
#define VGSA_CONN_HPP
// Small meshes with unknown connectivity: element ids are their positions, each handle is any of three elements,
// chosen by the sign of an unknown number (a three way choice that no optimiser pass turns into arithmetic).
#define private public
#define protected public
#include "pt.hpp"
#include "frozen.hpp"
#include "viennagrid/mesh/coboundary_iteration.hpp"
#include "viennagrid/mesh/neighbor_iteration.hpp"
#include "viennagrid/algorithm/boundary.hpp"
#undef private
#undef protected
using namespace viennagrid;
template <typename E> inline E * pick3(E * a, double x) { return x < 0 ? a : (x > 0 ? a + 2 : a + 1); }
inline long pick3i(double x) { return x < 0 ? 0 : (x > 0 ? 2 : 1); }
template <typename MeshT, typename Tag> struct El { typedef typename viennagrid::result_of::element<MeshT, Tag>::type type; };
// ids and some handles for every element, so that nothing is left uninitialised
template <typename MeshT, typename Tag, typename B> struct InitB { static void go(MeshT & m) { typedef typename El<MeshT, Tag>::type E; typedef typename El<MeshT, B>::type EB; int n = viennagrid::get<E>(m.element_collection()).size();
  for (int i = 0; i < n; ++i) for (int k = 0; k < boundary_elements<Tag, B>::num; ++k) fz::arr<E>(m)[i].container(viennagrid::dimension_tag<B::dim>()).set_handle(fz::arr<EB>(m), k); InitB<MeshT, Tag, typename B::facet_tag>::go(m); } };
template <typename MeshT, typename Tag> struct InitB<MeshT, Tag, null_type> { static void go(MeshT &) {} };
template <typename MeshT, typename Tag> struct Init { static void go(MeshT & m) { typedef typename El<MeshT, Tag>::type E; int n = viennagrid::get<E>(m.element_collection()).size(); for (int i = 0; i < n; ++i) fz::arr<E>(m)[i].id(typename E::id_type(i)); InitB<MeshT, Tag, typename Tag::facet_tag>::go(m); Init<MeshT, typename Tag::facet_tag>::go(m); } };
template <typename MeshT> struct Init<MeshT, null_type> { static void go(MeshT &) {} };
// NT elements of tag T with NK boundary elements of tag S each; x[e * NK + k] chooses boundary element k of element e out of
// three consecutive elements, so that the choices together reach all NS elements
template <int NS, int NT, int NK> struct Conn
{
  static long off(int k) { return (NS - 3) * k / (NK > 1 ? NK - 1 : 1); }
  static long at(double const * x, int e, int k) { return off(k) + pick3i(x[e * NK + k]); }
  // the boundary elements of one element are distinct (as far as there are enough of them)
  static bool ok(double const * x) { bool r = true; for (int e = 0; e < NT; ++e) for (int a = 0; a < NK; ++a) for (int b = 0; b < a; ++b) if (NK <= NS && at(x, e, a) == at(x, e, b)) r = false; return r; }
  static bool has(double const * x, int e, int i) { bool r = false; for (int k = 0; k < NK; ++k) if (at(x, e, k) == i) r = true; return r; }
  static long times(double const * x, int e, int i) { long r = 0; for (int k = 0; k < NK; ++k) r += at(x, e, k) == i; return r; }
};
template <typename MeshT, typename S, typename T, int NS, int NT, int NK> struct Wire
{
  typedef typename El<MeshT, S>::type ES; typedef typename El<MeshT, T>::type ET;
  static bool go(MeshT & m, double const * x)
  {
    Init<MeshT, typename viennagrid::result_of::cell_tag<MeshT>::type>::go(m);
    ES * s = fz::arr<ES>(m); ET * t = fz::arr<ET>(m);
    for (int e = 0; e < NT; ++e) for (int k = 0; k < NK; ++k) t[e].container(viennagrid::dimension_tag<S::dim>()).set_handle(pick3(s + Conn<NS, NT, NK>::off(k), x[e * NK + k]), k);
    return Conn<NS, NT, NK>::ok(x);
  }
};
// a view of the mesh: all elements below the cells, and the cells chosen by the sign of y
template <typename MeshT> struct ViewOf
{
  typedef typename result_of::mesh_view_from_typelist<MeshT, typename viennagrid::detail::result_of::key_typelist<typename result_of::element_collection<MeshT>::type::typemap>::type, typename make_typemap<default_tag, gr_tag<8> >::type>::type type;
};
template <typename MeshT, typename ViewT, typename Tag> struct Fill
{
  typedef typename El<MeshT, Tag>::type E;
  static void all(MeshT & m, ViewT & v) { int n = viennagrid::get<E>(m.element_collection()).size(); for (int i = 0; i < n; ++i) add(m, v, i); Fill<MeshT, ViewT, typename Tag::facet_tag>::all(m, v); }
  static void add(MeshT & m, ViewT & v, int i) { viennagrid::get<E>(v.element_collection()).handle_container.push_back(fz::arr<E>(m) + i); }
};
template <typename MeshT, typename ViewT> struct Fill<MeshT, ViewT, null_type> { static void all(MeshT &, ViewT &) {} };
#endif
