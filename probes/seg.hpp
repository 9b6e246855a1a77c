#ifndef VGSA_SEG_HPP
#define VGSA_SEG_HPP
#ifndef VG_MAPCAP
#define VG_MAPCAP 8
#endif
// Segmentations of small meshes in an unknown state: for every element and segment an unknown bit tells whether the element
// belongs to the segment.  Strings are modelled by numbers.  To be compiled with the container models.
#include <string>
#include <sstream>
#include <iostream>
#include <fstream>
#include <cstring>
#include <cmath>
#include <limits>
#include <map>
#include <set>
#include <vector>
#include <deque>
#include <list>
#include <algorithm>
#include <stdexcept>
namespace std {
#ifdef VG_IO
#include "strings.hpp"
#else
struct vgstring_ { long id; vgstring_() : id(-1) {} vgstring_(char const *) : id(-2) {} explicit vgstring_(long i) : id(i) {}
};
inline bool operator<(vgstring_ const & a, vgstring_ const & b) { return a.id < b.id; } inline bool operator==(vgstring_ const & a, vgstring_ const & b) { return a.id == b.id; } inline bool operator!=(vgstring_ const & a, vgstring_ const & b) { return a.id != b.id; }
struct vgstream_ { long v; vgstream_() : v(-1) {} struct R { long id; char const * c_str() const { return 0; } operator vgstring_() const { return vgstring_(id); } }; R str() const { R r = { v }; return r; } };
inline vgstream_ & operator<<(vgstream_ & s, int i) { s.v = i; return s; } inline vgstream_ & operator<<(vgstream_ & s, long i) { s.v = i; return s; } inline vgstream_ & operator<<(vgstream_ & s, unsigned i) { s.v = i; return s; } inline vgstream_ & operator<<(vgstream_ & s, unsigned long i) { s.v = i; return s; } inline vgstream_ & operator<<(vgstream_ & s, double) { return s; }
inline vgstream_ & operator<<(vgstream_ & s, char const *) { return s; } inline vgstream_ & operator<<(vgstream_ & s, vgstring_ const & x) { s.v = x.id; return s; }
inline ostream & operator<<(ostream & s, vgstring_ const &) { return s; }
#endif
#ifdef VG_IO
#include "stream.hpp"
#endif
}
#define string vgstring_
#ifdef VG_IO
#define ifstream vgif_
#define ofstream vgof_
#define ostream vgos_
#endif
#define stringstream vgstream_
#include "conn.hpp"
#define private public
#define protected public
#include "viennagrid/mesh/segmentation.hpp"
#include "viennagrid/mesh/mesh_operations.hpp"
#include "viennagrid/mesh/element_deletion.hpp"
#include "viennagrid/algorithm/interface.hpp"
#undef private
#undef protected
template <typename MeshT> struct SegT { typedef typename viennagrid::result_of::segmentation<MeshT>::type type; typedef typename viennagrid::result_of::segment_handle<type>::type handle; };
// state: element i of the tag is in segment k iff b[k * N + i] > 0
template <typename MeshT, typename Tag> struct St
{
  typedef typename SegT<MeshT>::type S; typedef typename El<MeshT, Tag>::type E;
  template <typename V> static void fill(MeshT & m, V & v, double const * b, int n) { typename viennagrid::result_of::container_of<typename V::element_collection_type, E>::type & w = viennagrid::get<E>(v.element_collection());
    long c = 0; for (int i = 0; i < n; ++i) { *w.handle_container.t.s.at(i) = fz::arr<E>(m) + i; w.handle_container.t.used[i] = b[i] > 0; c += b[i] > 0; } w.handle_container.t.n = c; w.handle_container.t.lo = n; }
  static void set(MeshT & m, S & s, double const * b, int n)
  {
    double u[16]; fill(m, s.segments[0].view, b, n); fill(m, s.segments[1].view, b + n, n);
    for (int i = 0; i < n; ++i) u[i] = (b[i] > 0 || b[n + i] > 0) ? 1 : -1;
    fill(m, s.all_elements_, u, n);
    typename viennagrid::result_of::container_of<typename viennagrid::detail::result_of::lookup<typename S::appendix_type, viennagrid::detail::element_segment_mapping_tag>::type, E>::type & mp = viennagrid::get<E>(viennagrid::get<viennagrid::detail::element_segment_mapping_tag>(s.appendix()));
    mp.resize(n);
    for (int i = 0; i < n; ++i) { long c = 0; mp[i].element_segment_mapping_container.s.at(0)->segment_id = b[i] > 0 ? 0 : 1; mp[i].element_segment_mapping_container.s.at(1)->segment_id = 1; mp[i].element_segment_mapping_container.n = (b[i] > 0) + (b[n + i] > 0); }
  }
  // how often element i is listed
  template <typename V> static long times(MeshT & m, V & v, int i) { typedef typename viennagrid::result_of::element_range<V, Tag>::type R; R r(v); long c = 0; for (typename viennagrid::result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it) c += &*it == fz::arr<E>(m) + i; return c; }
};
template <typename MeshT> void make2(typename SegT<MeshT>::type & s, MeshT & m) { s.segments.push_back(typename SegT<MeshT>::type::segment(&s, m, 0)); s.segments.push_back(typename SegT<MeshT>::type::segment(&s, m, 1)); }
#endif
