#define VG_CAP 5
#define VG_MAPCAP 5
#define private public
#define protected public
#include "pt.hpp"
#include "viennagrid/config/default_configs.hpp"
#include "viennagrid/mesh/element_creation.hpp"
#include "viennagrid/storage/static_array.hpp"
#undef private
#undef protected
using namespace viennagrid;
// an element with an ID and a value
struct Item { typedef viennagrid::detail::smart_id<Item, long> id_type; typedef viennagrid::detail::smart_id<Item const, long> const_id_type; id_type i; double v; Item() : v(0) {} Item(long k, double w) : i(k), v(w) {} id_type id() const { return i; } };
template <typename Tag, typename H> struct Cont { typedef typename viennagrid::result_of::container<Item, handled_container_tag<Tag, H> >::type type; };
template <typename C> void fill(C & c, double const * x) { for (int k = 0; k < 3; ++k) c.insert(Item(10 + k, x[k])); }
// every way to move an iterator through three elements
template <typename I> void moves(I b, I e, double * o)
{
  I i = b; o[0] = (*i).v; I j = i++; o[1] = (*j).v; o[2] = (*i).v; I k = ++i; o[3] = (*k).v; o[4] = (*i).v; I l = i--; o[5] = (*l).v; o[6] = (*i).v; I m = --i; o[7] = (*m).v; o[8] = (*i).v; I const q = j; o[9] = (*q).v;
  int n = 0; for (I t = b; t != e && n < 4; ++t, ++n) o[10 + n] = (*t).v; o[14] = n; n = 0; for (I t = b; !(t == e) && n < 4; t++) ++n; o[15] = n; I z = e; --z; o[16] = (*z).v; ++z; o[17] = z == e;
}
inline void moves_(double const * x, double * o) { o[0] = x[0]; o[1] = x[0]; o[2] = x[1]; o[3] = o[4] = x[2]; o[5] = x[2]; o[6] = x[1]; o[7] = o[8] = x[0]; o[9] = x[0]; for (int k = 0; k < 3; ++k) o[10 + k] = x[k]; o[14] = o[15] = 3; o[16] = x[2]; o[17] = 1; }
// element access of a range, container or view
template <typename C> void access(C & c, double * o) { o[0] = c.front().v; o[1] = c.back().v; o[2] = c.size(); o[3] = c.empty(); for (int k = 0; k < 3; ++k) o[4 + k] = c[k].v; }
inline void access_(double const * x, double * o) { o[0] = x[0]; o[1] = x[2]; o[2] = 3; o[3] = 0; for (int k = 0; k < 3; ++k) o[4 + k] = x[k]; }
// handles of a container or view
template <typename C, typename I> void handles(C & c, I b, double * o) { for (int k = 0; k < 3; ++k, ++b) { o[k] = viennagrid::detail::dereference_handle(c, c.handle_at(k)).v; o[3 + k] = viennagrid::detail::dereference_handle(c, b.handle()).v; o[6 + k] = c.handle_at(k) == b.handle(); } o[9] = c.handle_at(0) == c.handle_at(2); }
inline void handles_(double const * x, double * o) { for (int k = 0; k < 3; ++k) { o[k] = x[k]; o[3 + k] = x[k]; o[6 + k] = 1; } o[9] = 0; }
#define WALK(name, ...) \
X void P_##name##_moves(double const * x, double * o) { typedef __VA_ARGS__ C; C c; fill(c, x); moves<typename C::iterator>(c.begin(), c.end(), o); } X void R_##name##_moves(double const * x, double * o) { moves_(x, o); } \
X void P_##name##_cmoves(double const * x, double * o) { typedef __VA_ARGS__ C; C c; fill(c, x); C const & d = c; moves<typename C::const_iterator>(d.begin(), d.end(), o); } X void R_##name##_cmoves(double const * x, double * o) { moves_(x, o); } \
X void P_##name##_tocst(double const * x, double * o) { typedef __VA_ARGS__ C; C c; fill(c, x); moves<typename C::const_iterator>(typename C::const_iterator(c.begin()), typename C::const_iterator(c.end()), o); } X void R_##name##_tocst(double const * x, double * o) { moves_(x, o); } \
X void P_##name##_range(double const * x, double * o, double * r, double * s, double * t) { typedef __VA_ARGS__ C; C c; fill(c, x); viennagrid::detail::container_range_wrapper<C> w(c); viennagrid::detail::container_range_wrapper<C> const & u = w; access(w, o); access(u, r); viennagrid::detail::container_range_wrapper<C const> q(c), & qq = q; access(q, s); access(qq, t); } X void R_##name##_range(double const * x, double * o, double * r, double * s, double * t) { access_(x, o); access_(x, r); access_(x, s); access_(x, t); } \
X void P_##name##_rmoves(double const * x, double * o, double * r) { typedef __VA_ARGS__ C; C c; fill(c, x); typedef viennagrid::detail::container_range_wrapper<C> W; W w(c); moves<typename W::iterator>(w.begin(), w.end(), o); W const & u = w; moves<typename W::const_iterator>(u.begin(), u.end(), r); } X void R_##name##_rmoves(double const * x, double * o, double * r) { moves_(x, o); moves_(x, r); } \
X void P_##name##_crange(double const * x, double * o, double * r) { typedef __VA_ARGS__ C; C c; fill(c, x); typedef viennagrid::detail::container_range_wrapper<C const> W; W w(c); moves<typename W::iterator>(w.begin(), w.end(), o); W const & u = w; moves<typename W::const_iterator>(u.begin(), u.end(), r); } X void R_##name##_crange(double const * x, double * o, double * r) { moves_(x, o); moves_(x, r); }
// finding by ID: the element with that ID, or the end
#define FIND(name, ...) \
X void P_##name##_find(double const * x, long k, double * o) { typedef __VA_ARGS__ C; C c; fill(c, x); C const & d = c; viennagrid::detail::container_range_wrapper<C> w(c); viennagrid::detail::container_range_wrapper<C> const & u = w; viennagrid::detail::container_range_wrapper<C const> q(c); \
  typename C::iterator i = viennagrid::detail::find(c, Item::id_type(k)); typename C::const_iterator j = viennagrid::detail::find(d, Item::id_type(k)); typename C::iterator a = w.find(Item::id_type(k)); typename C::const_iterator b = u.find(Item::id_type(k)), e = q.find(Item::id_type(k)); \
  o[0] = i == c.end() ? -1 : (*i).v; o[1] = j == d.end() ? -1 : (*j).v; o[2] = a == c.end() ? -1 : (*a).v; o[3] = b == d.end() ? -1 : (*b).v; o[4] = e == d.end() ? -1 : (*e).v; } \
X void R_##name##_find(double const * x, long k, double * o) { for (int i = 0; i < 5; ++i) o[i] = k == 10 ? x[0] : (k == 11 ? x[1] : (k == 12 ? x[2] : -1)); }
#define HANDLES(name, ...) \
X void P_##name##_handles(double const * x, double * o) { typedef __VA_ARGS__ C; C c; fill(c, x); handles(c, c.begin(), o); } X void R_##name##_handles(double const * x, double * o) { handles_(x, o); } \
X void P_##name##_chandles(double const * x, double * o) { typedef __VA_ARGS__ C; C c; fill(c, x); C const & d = c; handles(d, d.begin(), o); } X void R_##name##_chandles(double const * x, double * o) { handles_(x, o); } \
X void P_##name##_rhandles(double const * x, double * o, double * r) { typedef __VA_ARGS__ C; C c; fill(c, x); viennagrid::detail::container_range_wrapper<C> w(c); viennagrid::detail::container_range_wrapper<C const> q(c); for (int k = 0; k < 3; ++k) { o[k] = viennagrid::detail::dereference_handle(c, w.handle_at(k)).v; r[k] = viennagrid::detail::dereference_handle((C const &)c, q.handle_at(k)).v; } } X void R_##name##_rhandles(double const * x, double * o, double * r) { for (int k = 0; k < 3; ++k) o[k] = r[k] = x[k]; }
// inserting returns a handle of the new element; a handle of an element dereferences to it
#define INSERT(name, ...) \
X void P_##name##_insert(double const * x, double y, double * o) { typedef __VA_ARGS__ C; C c; fill(c, x); typename C::return_type r = c.insert(Item(20, y)); o[0] = r.second; o[1] = viennagrid::detail::dereference_handle(c, r.first).v; o[2] = c.size(); o[3] = &viennagrid::detail::dereference_handle(c, c.handle(c.back())) == &c.back(); o[4] = &viennagrid::detail::dereference_handle(c, c.handle(c.front())) == &c.front(); o[5] = c.back().v; o[6] = &c.dereference_handle(c.handle(*++c.begin())) == &*++c.begin(); } \
X void R_##name##_insert(double const * x, double y, double * o) { o[0] = 1; o[1] = y; o[2] = 4; o[3] = o[4] = o[6] = 1; o[5] = y; }
typedef Cont<std_vector_tag, pointer_handle_tag>::type VP; typedef Cont<std_vector_tag, id_handle_tag>::type VI; typedef Cont<std_deque_tag, pointer_handle_tag>::type DP; typedef Cont<std_deque_tag, iterator_handle_tag>::type DI; typedef Cont<std_list_tag, pointer_handle_tag>::type LP; typedef Cont<std_list_tag, id_handle_tag>::type LI; typedef Cont<std_list_tag, iterator_handle_tag>::type LT; typedef Cont<std_vector_tag, no_handle_tag>::type VN;
// a view of three elements of the container, in the order in which they were inserted
template <typename C, typename Tag> struct Vw : viennagrid::view<C, Tag> { C base; };
template <typename C, typename Tag> void fill(Vw<C, Tag> & w, double const * x) { for (int k = 0; k < 5; ++k) w.base.insert(Item(k == 0 ? 7 : (k == 4 ? 30 : 9 + k), k > 0 && k < 4 ? x[k - 1] : 99.0)); w.set_base_container(w.base); for (int k = 0; k < 3; ++k) w.insert_handle(w.base.handle_at(1 + k)); }
//@ vector | viennagrid::detail::iterator, container (viennagrid/storage/container.hpp)
WALK(vp, VP)
FIND(vp, VP)
HANDLES(vp, VP)
INSERT(vp, VP)
//@ vector_id | viennagrid::detail::iterator, container (viennagrid/storage/container.hpp)
WALK(vi, VI)
FIND(vi, VI)
HANDLES(vi, VI)
INSERT(vi, VI)
//@ vector_plain | viennagrid::detail::iterator, container (viennagrid/storage/container.hpp)
WALK(vn, VN)
FIND(vn, VN)
//@ deque | viennagrid::detail::iterator, container (viennagrid/storage/container.hpp)
WALK(dp, DP)
FIND(dp, DP)
HANDLES(dp, DP)
INSERT(dp, DP)
//@ deque_it | viennagrid::detail::iterator, container (viennagrid/storage/container.hpp)
WALK(di, DI)
FIND(di, DI)
HANDLES(di, DI)
INSERT(di, DI)
//@ list | viennagrid::detail::iterator, container (viennagrid/storage/container.hpp)
WALK(lp, LP)
FIND(lp, LP)
HANDLES(lp, LP)
INSERT(lp, LP)
//@ list_id | viennagrid::detail::iterator, container (viennagrid/storage/container.hpp)
WALK(li, LI)
FIND(li, LI)
HANDLES(li, LI)
INSERT(li, LI)
//@ list_it | viennagrid::detail::iterator, container (viennagrid/storage/container.hpp)
WALK(lt, LT)
FIND(lt, LT)
HANDLES(lt, LT)
INSERT(lt, LT)
//@ view | viennagrid::view (viennagrid/storage/view.hpp)
typedef Vw<VP, std_vector_tag> WV;
WALK(wv, WV)
FIND(wv, WV)
//@ view_deque | viennagrid::view (viennagrid/storage/view.hpp)
typedef Vw<VP, std_deque_tag> WD;
WALK(wd, WD)
FIND(wd, WD)
//@ view_id | viennagrid::view (viennagrid/storage/view.hpp)
typedef Vw<VI, std_vector_tag> WI;
WALK(wi, WI)
FIND(wi, WI)
//@ view_it | viennagrid::view (viennagrid/storage/view.hpp)
typedef Vw<DI, std_vector_tag> WT;
WALK(wt, WT)
FIND(wt, WT)
//@ view_set | viennagrid::view<C, std_set_tag> (viennagrid/storage/view.hpp)
typedef Vw<VP, std_set_tag<id_compare_tag> > WS;
X void P_ws_moves(double const * x, double * o, double * r) { WS c; fill(c, x); moves<WS::iterator>(c.begin(), c.end(), o); WS const & d = c; moves<WS::const_iterator>(d.begin(), d.end(), r); }
X void R_ws_moves(double const * x, double * o, double * r) { moves_(x, o); moves_(x, r); }
X void P_ws_access(double const * x, double * o) { WS c; fill(c, x); WS const & d = c; for (int k = 0; k < 3; ++k) { o[k] = c[k].v; o[3 + k] = d[k].v; o[6 + k] = (*c.handle_at(k)).v; } o[9] = c.size(); }
X void R_ws_access(double const * x, double * o) { for (int k = 0; k < 3; ++k) o[k] = o[3 + k] = o[6 + k] = x[k]; o[9] = 3; }
X void P_ws_find(double const * x, double y, double * o) { WS c; fill(c, x); WS const & d = c; Item * h = y < 0 ? c.base.handle_at(2) : c.base.handle_at(4); WS::iterator i = c.find(*h); o[0] = i == c.end() ? -1 : (*i).v; WS::const_iterator j = d.find(*h); o[1] = j == d.end() ? -1 : (*j).v; }
X void R_ws_find(double const * x, double y, double * o) { o[0] = o[1] = y < 0 ? x[1] : -1; }
// inserting a handle twice keeps one; erasing removes exactly that one
X void P_ws_change(double const * x, double y, double * o) { WS c; fill(c, x); Item * h = y < 0 ? c.base.handle_at(1) : (y > 0 ? c.base.handle_at(3) : c.base.handle_at(4)); c.insert_unique_handle(h); o[0] = c.size(); c.insert_handle(h); o[1] = c.size(); c.erase_handle(h); o[2] = c.size(); long m = 0; for (WS::iterator it = c.begin(); it != c.end(); ++it) m += (*it).id().get() == 10 ? 1 : ((*it).id().get() == 11 ? 10 : ((*it).id().get() == 12 ? 100 : 1000)); o[3] = m; c.erase_handle(h); o[4] = c.size(); o[5] = c.base.size(); }
X void R_ws_change(double const * x, double y, double * o) { bool in = y < 0 || y > 0; o[0] = o[1] = in ? 3 : 4; o[2] = o[4] = in ? 2 : 3; o[3] = y < 0 ? 110 : (y > 0 ? 11 : 111); o[5] = 5; }
//@ view_change | viennagrid::view::insert_handle, insert_unique_handle, erase_handle, set_handle (viennagrid/storage/view.hpp)
template <typename C> void change(double const * x, double y, double * o) { C c; fill(c, x); typename C::handle_type h = y < 0 ? c.base.handle_at(1) : (y > 0 ? c.base.handle_at(3) : c.base.handle_at(4)); c.insert_unique_handle(h); o[0] = c.size(); for (int k = 0; k < 3; ++k) o[1 + k] = c[k].v; c.erase_handle(h); o[4] = c.size(); o[5] = c[0].v; o[6] = c[1].v; c.insert_handle(h); o[7] = c.size(); o[8] = c.back().v; c.insert_handle(h); o[9] = c.size(); c.erase_handle(h); o[10] = c.size(); o[11] = c.back().v; o[12] = c.base.size(); c.clear(); o[13] = c.size(); o[14] = c.empty(); o[15] = c.begin() == c.end(); }
inline void change_(double const * x, double y, double * o) { bool in = y < 0 || y > 0; o[0] = in ? 3 : 4; for (int k = 0; k < 3; ++k) o[1 + k] = x[k]; o[4] = in ? 2 : 3; o[5] = y < 0 ? x[1] : x[0]; o[6] = y < 0 ? x[2] : x[1]; o[7] = in ? 3 : 4; double z = y < 0 ? x[0] : (y > 0 ? x[2] : 99.0); o[8] = z; o[9] = in ? 4 : 5; o[10] = in ? 3 : 4; o[11] = z; o[12] = 5; o[13] = 0; o[14] = 1; o[15] = 1; }
X void P_change_vector(double const * x, double y, double * o) { change<Vw<VP, std_vector_tag> >(x, y, o); }
X void R_change_vector(double const * x, double y, double * o) { change_(x, y, o); }
X void P_change_deque(double const * x, double y, double * o) { change<Vw<DP, std_deque_tag> >(x, y, o); }
X void R_change_deque(double const * x, double y, double * o) { change_(x, y, o); }
X void P_change_id(double const * x, double y, double * o) { change<Vw<LI, std_deque_tag> >(x, y, o); }
X void R_change_id(double const * x, double y, double * o) { change_(x, y, o); }
X void P_change_it(double const * x, double y, double * o) { change<Vw<LT, std_vector_tag> >(x, y, o); }
X void R_change_it(double const * x, double y, double * o) { change_(x, y, o); }
// set_handle replaces the handle at that place and keeps the others, growing the view if necessary
X void P_set_handle(double const * x, double y, double * o) { typedef Vw<VP, std_vector_tag> C; C c; fill(c, x); Item * h = y < 0 ? c.base.handle_at(0) : c.base.handle_at(4); c.set_handle(h, y < 0 ? 1 : 2); o[0] = c.size(); for (int k = 0; k < 3; ++k) o[1 + k] = c[k].id().get(); c.set_handle(h, 3); o[4] = c.size(); for (int k = 0; k < 4; ++k) o[5 + k] = c[k].id().get(); viennagrid::detail::container_range_wrapper<viennagrid::view<VP, std_vector_tag> > w(c); w.set_handle_at(c.base.handle_at(1), 2); o[9] = c[2].id().get(); o[10] = c.size(); }
X void R_set_handle(double const * x, double y, double * o) { long h = y < 0 ? 7 : 30; o[0] = 3; o[1] = 10; o[2] = y < 0 ? h : 11; o[3] = y < 0 ? 12 : h; o[4] = 4; for (int k = 0; k < 3; ++k) o[5 + k] = o[1 + k]; o[8] = h; o[9] = 10; o[10] = 4; }
// a view of a view refers to the same elements
X void P_view_of_view(double const * x, double * o) { typedef Vw<VP, std_vector_tag> C; C c; fill(c, x); viennagrid::view<VP, std_deque_tag> d; d.set_base_container((viennagrid::view<VP, std_vector_tag> &)c); for (C::iterator it = c.begin(); it != c.end(); ++it) d.insert_handle(it.handle()); o[0] = d.size(); for (int k = 0; k < 3; ++k) { o[1 + k] = d[k].v; o[4 + k] = &d[k] == c.base.handle_at(1 + k); } o[7] = &*d.begin() == &c[0]; }
X void R_view_of_view(double const * x, double * o) { o[0] = 3; for (int k = 0; k < 3; ++k) { o[1 + k] = x[k]; o[4 + k] = 1; } o[7] = 1; }
// writing through a view changes the element itself
X void P_write(double const * x, double y, double * o) { typedef Vw<VI, std_vector_tag> C; C c; fill(c, x); c[1].v = y; (*c.begin()).v = 2 * y; c.begin()->v += 1; for (int k = 0; k < 5; ++k) o[k] = c.base[k].v; }
X void R_write(double const * x, double y, double * o) { o[0] = o[4] = 99.0; o[1] = 2 * y + 1; o[2] = y; o[3] = x[2]; }
struct Neg { bool operator()(Item const & i) const { return i.v < 0; } };
// a view of the elements with a property
X void P_handle_if(double const * x, double * o) { VP c; fill(c, x); viennagrid::view<VP, std_vector_tag> d; d.set_base_container(c); viennagrid::detail::handle_if(c, d, Neg()); o[0] = d.size(); long m = 0; for (viennagrid::view<VP, std_vector_tag>::iterator it = d.begin(); it != d.end(); ++it) m += (*it).id().get() == 10 ? 1 : ((*it).id().get() == 11 ? 10 : 100); o[1] = m; viennagrid::view<VP, std_vector_tag> e; e.set_base_container(c); viennagrid::detail::handle(c, e); o[2] = e.size(); for (int k = 0; k < 3; ++k) o[3 + k] = e[k].v; }
X void R_handle_if(double const * x, double * o) { o[0] = (x[0] < 0) + (x[1] < 0) + (x[2] < 0); o[1] = (x[0] < 0 ? 1 : 0) + (x[1] < 0 ? 10 : 0) + (x[2] < 0 ? 100 : 0); o[2] = 3; for (int k = 0; k < 3; ++k) o[3 + k] = x[k]; }
//@ static_array | viennagrid::static_array (viennagrid/storage/static_array.hpp)
typedef viennagrid::static_array<double, 4> SA;
template <typename I> void arith(I b, I e, double * o) { I i = b; o[0] = *i++; o[1] = *i; o[2] = *++i; o[3] = *i--; o[4] = *i; o[5] = *--i; o[6] = *(i += 3); o[7] = *(i -= 2); o[8] = *(i + 1); o[9] = *(i - 1); o[10] = i[2]; o[11] = (long)(e - b); o[12] = (long)(i - b); o[13] = b < e; o[14] = e < b; o[15] = b <= b; o[16] = b > i; o[17] = i >= b; o[18] = b == i; o[19] = b != i; o[20] = i - b == 1; int n = 0; for (i = b; i != e; ++i) o[21 + n++] = *i; o[25] = n; }
inline void arith_(double const * x, double * o) { o[0] = x[0]; o[1] = x[1]; o[2] = x[2]; o[3] = x[2]; o[4] = x[1]; o[5] = x[0]; o[6] = x[3]; o[7] = x[1]; o[8] = x[2]; o[9] = x[0]; o[10] = x[3]; o[11] = 4; o[12] = 1; o[13] = 1; o[14] = 0; o[15] = 1; o[16] = 0; o[17] = 1; o[18] = 0; o[19] = 1; o[20] = 1; for (int n = 0; n < 4; ++n) o[21 + n] = x[n]; o[25] = 4; }
X void P_sa_iter(double const * x, double * o) { SA a; for (int k = 0; k < 4; ++k) a[k] = x[k]; arith<SA::iterator>(a.begin(), a.end(), o); }
X void R_sa_iter(double const * x, double * o) { arith_(x, o); }
X void P_sa_citer(double const * x, double * o) { SA a; for (int k = 0; k < 4; ++k) a[k] = x[k]; SA const & c = a; arith<SA::const_iterator>(c.begin(), c.end(), o); }
X void R_sa_citer(double const * x, double * o) { arith_(x, o); }
X void P_sa_cbegin(double const * x, double * o) { SA a; for (int k = 0; k < 4; ++k) a[k] = x[k]; SA const & c = a; arith<SA::const_iterator>(c.cbegin(), c.cend(), o); }
X void R_sa_cbegin(double const * x, double * o) { arith_(x, o); }
X void P_sa_access(double const * x, double * o) { SA a; SA const & c = a; for (int k = 0; k < 4; ++k) o[k] = a[k]; for (int k = 0; k < 4; ++k) a[k] = x[k]; for (int k = 0; k < 4; ++k) { o[4 + k] = c[k]; o[8 + k] = a.at(k); o[12 + k] = c.at(k); } o[16] = a.front(); o[17] = c.front(); o[18] = a.back(); o[19] = c.back(); o[20] = a.size(); o[21] = a.empty(); int n = 0; for (SA::reverse_iterator i = a.rbegin(); i != a.rend(); ++i) o[22 + n++] = *i; for (SA::const_reverse_iterator i = c.rbegin(); i != c.rend(); ++i) o[22 + n++] = *i; o[30] = n; }
X void R_sa_access(double const * x, double * o) { for (int k = 0; k < 4; ++k) { o[k] = 0; o[4 + k] = o[8 + k] = o[12 + k] = x[k]; } o[16] = o[17] = x[0]; o[18] = o[19] = x[3]; o[20] = 4; o[21] = 0; for (int k = 0; k < 4; ++k) o[22 + k] = o[26 + k] = x[3 - k]; o[30] = 8; }
X void P_sa_mixed(double const * x, double * o) { SA a; for (int k = 0; k < 4; ++k) a[k] = x[k]; SA const & c = a; SA::iterator i = a.begin() + 1; SA::const_iterator j = c.begin(), q = i, z; z = i; o[0] = q == j; o[1] = q != j; o[2] = j < i; o[3] = i > j; o[4] = (long)(i - j); o[5] = *q; o[6] = q == i; o[7] = *z; o[8] = j <= i; o[9] = i <= j; o[10] = j >= i; o[11] = i >= j; o[12] = i < j; o[13] = j > i; o[14] = j == i; o[15] = j != i; o[16] = (long)(q - j); o[17] = (long)(z - i); }
X void R_sa_mixed(double const * x, double * o) { o[0] = 0; o[1] = 1; o[2] = 1; o[3] = 1; o[4] = 1; o[5] = x[1]; o[6] = 1; o[7] = x[1]; o[8] = 1; o[9] = 0; o[10] = 0; o[11] = 1; o[12] = 0; o[13] = 0; o[14] = 0; o[15] = 1; o[16] = 1; o[17] = 0; }
X void P_sa_change(double const * x, double y, double * o) { SA a, b; for (int k = 0; k < 4; ++k) a[k] = x[k]; for (int k = 0; k < 4; ++k) b[k] = y + k; b = a; for (int k = 0; k < 4; ++k) o[k] = b[k]; a.swap(b); b.assign(y); for (int k = 0; k < 4; ++k) { o[4 + k] = a[k]; o[8 + k] = b[k]; } *(a.begin() + 2) = y; for (int k = 0; k < 4; ++k) o[12 + k] = a[k]; }
X void R_sa_change(double const * x, double y, double * o) { for (int k = 0; k < 4; ++k) { o[k] = o[4 + k] = x[k]; o[8 + k] = y; o[12 + k] = k == 2 ? y : x[k]; } }
//@ ids | viennagrid::detail::smart_id (viennagrid/storage/id.hpp)
typedef viennagrid::detail::smart_id<Item, long> ID; typedef viennagrid::detail::smart_id<Item const, long> CID;
template <typename A, typename B> void cmps(A a, B b, long * o) { o[0] = a == b; o[1] = a != b; o[2] = a <= b; o[3] = a > b; o[4] = a >= b; }
inline void cmps_(long a, long b, long * o) { o[0] = a == b; o[1] = a != b; o[2] = a <= b; o[3] = a > b; o[4] = a >= b; }
X void P_id_compare(long a, long b, long * o, long * p, long * q, long * r, long * s) { cmps(ID(a), ID(b), o); cmps(ID(a), CID(b), p); cmps(CID(a), ID(b), q); cmps(CID(a), CID(b), r); s[0] = ID(a).operator<(ID(b)); s[1] = CID(a).operator<(CID(b)); s[2] = viennagrid::detail::operator<(ID(a), ID(b)); s[3] = viennagrid::detail::operator<(CID(a), CID(b)); s[4] = viennagrid::detail::operator<(ID(a), CID(b)); s[5] = viennagrid::detail::operator<(CID(a), ID(b)); }
X void R_id_compare(long a, long b, long * o, long * p, long * q, long * r, long * s) { cmps_(a, b, o); cmps_(a, b, p); cmps_(a, b, q); cmps_(a, b, r); for (int k = 0; k < 6; ++k) s[k] = a < b; }
X void P_id_values(long a, long * o) { ID i(a); CID c(i), d; ID e; o[0] = i.get(); o[1] = c.get(); o[2] = e == d; o[3] = (i++).get(); o[4] = i.get(); o[5] = (++i).get(); o[6] = (c++).get(); o[7] = (++c).get(); i.set(7); o[8] = i.get(); o[9] = e.get(); }
X void R_id_values(long a, long * o) { o[0] = a; o[1] = a; o[2] = 1; o[3] = a; o[4] = a + 1; o[5] = a + 2; o[6] = a; o[7] = a + 2; o[8] = 7; o[9] = -1; }
//@ mesh_ranges | viennagrid::elements, vertices, lines, cells (viennagrid/mesh/mesh.hpp, viennagrid/storage/range.hpp, hidden_key_map.hpp)
typedef viennagrid::triangular_2d_mesh Tri;
typedef viennagrid::result_of::handle<Tri, vertex_tag>::type VH; typedef viennagrid::result_of::handle<Tri, triangle_tag>::type TH;
struct Two { Tri m; VH v[4]; Two() { for (int i = 0; i < 4; ++i) v[i] = make_vertex(m, C2(i, 0)); make_triangle(m, v[0], v[1], v[2]); make_triangle(m, v[1], v[3], v[2]); } };
// all moves through a range, elements told apart by ID: visits[id] counts visits in both directions
template <typename R, typename I> void visits(R & r, int n, long * o) { for (int i = 0; i < n; ++i) o[i] = 0; int k = 0; for (I it = r.begin(); it != r.end() && k < n + 1; ++it, ++k) for (int i = 0; i < n; ++i) o[i] += (*it).id().get() == i; o[n] = k; o[n + 1] = (long)r.size(); k = 0; for (I it = r.begin(); it != r.end() && k < n + 1; ) { I old = it++; I nxt = old; ++nxt; o[n + 2 + k] = nxt == it; ++k; } o[2 * n + 2] = k; for (int i = 0; i < n; ++i) { o[2 * n + 3 + i] = (r.handle_at(i) == &r[i]); } o[3 * n + 3] = r.empty(); }
inline void visits_(int n, long * o) { for (int i = 0; i < n; ++i) o[i] = 1; o[n] = o[n + 1] = n; for (int k = 0; k < n; ++k) o[n + 2 + k] = 1; o[2 * n + 2] = n; for (int k = 0; k < n; ++k) o[2 * n + 3 + k] = 1; o[3 * n + 3] = 0; }
X void P_vertex_range(long * o, long * p) { Two w; typedef viennagrid::result_of::vertex_range<Tri>::type R; R r(w.m); visits<R, viennagrid::result_of::iterator<R>::type>(r, 4, o); Tri const & c = w.m; typedef viennagrid::result_of::const_vertex_range<Tri>::type Q; Q q(c); visits<Q, viennagrid::result_of::iterator<Q>::type>(q, 4, p); }
X void R_vertex_range(long * o, long * p) { visits_(4, o); visits_(4, p); }
X void P_line_range(long * o, long * p) { Two w; typedef viennagrid::result_of::line_range<Tri>::type R; R r(w.m); visits<R, viennagrid::result_of::iterator<R>::type>(r, 5, o); Tri const & c = w.m; typedef viennagrid::result_of::const_line_range<Tri>::type Q; Q q(c); visits<Q, viennagrid::result_of::iterator<Q>::type>(q, 5, p); }
X void R_line_range(long * o, long * p) { visits_(5, o); visits_(5, p); }
X void P_cell_range(long * o, long * p) { Two w; typedef viennagrid::result_of::cell_range<Tri>::type R; R r(w.m); visits<R, viennagrid::result_of::iterator<R>::type>(r, 2, o); Tri const & c = w.m; typedef viennagrid::result_of::const_cell_range<Tri>::type Q; Q q(c); visits<Q, viennagrid::result_of::iterator<Q>::type>(q, 2, p); }
X void R_cell_range(long * o, long * p) { visits_(2, o); visits_(2, p); }
// the boundary range of an element lists its own boundary elements, in order
X void P_element_range(long * o) { Two w; typedef viennagrid::result_of::cell_range<Tri>::type R; R r(w.m); typedef viennagrid::result_of::element<Tri, triangle_tag>::type TE; TE & t = r[1]; TE const & ct = t; int n = 0; typedef viennagrid::result_of::vertex_range<TE>::type B; B b(t); for (viennagrid::result_of::iterator<B>::type it = b.begin(); it != b.end(); ++it) o[n++] = (*it).id().get(); typedef viennagrid::result_of::const_vertex_range<TE>::type Q; Q q(ct); for (viennagrid::result_of::iterator<Q>::type it = q.begin(); it != q.end(); it++) o[n++] = (*it).id().get(); for (int k = 0; k < 3; ++k) { o[n++] = b[k].id().get(); o[n++] = q[k].id().get(); o[n++] = b.handle_at(k) == w.v[k == 0 ? 1 : (k == 1 ? 3 : 2)]; } o[n++] = b.size(); o[n++] = viennagrid::lines(t).size(); o[n++] = viennagrid::lines(ct).size(); o[n++] = b.front().id().get(); o[n++] = b.back().id().get(); o[n++] = n; }
X void R_element_range(long * o) { int n = 0; long v[3] = { 1, 3, 2 }; for (int r = 0; r < 2; ++r) for (int k = 0; k < 3; ++k) o[n++] = v[k]; for (int k = 0; k < 3; ++k) { o[n++] = v[k]; o[n++] = v[k]; o[n++] = 1; } o[n++] = 3; o[n++] = 3; o[n++] = 3; o[n++] = 1; o[n++] = 2; o[n++] = n; }
X void P_find_by_id(long k, long * o) { Two w; Tri const & c = w.m; typedef viennagrid::result_of::vertex_range<Tri>::type R; R r(w.m); typedef viennagrid::result_of::element<Tri, vertex_tag>::type VE; viennagrid::result_of::iterator<R>::type i = viennagrid::find(w.m, VE::id_type(k)); o[0] = i == r.end() ? -1 : (*i).id().get(); typedef viennagrid::result_of::const_vertex_range<Tri>::type Q; Q q(c); viennagrid::result_of::iterator<Q>::type j = viennagrid::find(c, VE::id_type(k)); o[1] = j == q.end() ? -1 : (*j).id().get();
  typedef viennagrid::result_of::element<Tri, line_tag>::type LE; typedef viennagrid::result_of::line_range<Tri>::type L; L l(w.m); viennagrid::result_of::iterator<L>::type z = viennagrid::find(w.m, LE::id_type(k)); o[2] = z == l.end() ? -1 : (*z).id().get(); }
X void R_find_by_id(long k, long * o) { o[0] = o[1] = k >= 0 && k < 4 ? k : -1; o[2] = k >= 0 && k < 5 ? k : -1; }
X void P_find_by_handle(double y, long * o) { Two w; VH h = y < 0 ? w.v[1] : (y > 0 ? w.v[3] : w.v[0]); typedef viennagrid::result_of::vertex_range<Tri>::type R; R r(w.m); viennagrid::result_of::iterator<R>::type i = viennagrid::find_by_handle(w.m, h); o[0] = i == r.end() ? -1 : (*i).id().get(); }
X void R_find_by_handle(double y, long * o) { o[0] = y < 0 ? 1 : (y > 0 ? 3 : 0); }
