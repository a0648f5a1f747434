// KIND: bounded
// BOUND: all histories of up to 4 add/erase/clear steps on any element of any kind of meshes of two triangles, two quadrilaterals, two tetrahedra and of three lines, with up to three segments
// TIME: 150
// P24: membership of elements in segments: is_in_segment, the segment's ranges, segment_ids and the ranges of the segmentation always tell the same, right story.
#include "history.hpp"
#include "viennagrid/mesh/element_deletion.hpp"
typedef std::set<vset_t> members_t;
static int NSEG = 2; static const int MAXSEG = 3;
template <typename M> struct world : TM<M>
{
  typedef typename viennagrid::result_of::segmentation<M>::type segmentation_type; typedef typename viennagrid::result_of::segment_handle<segmentation_type>::type segment_type;
  segmentation_type segs; members_t in[MAXSEG]; int id[MAXSEG];
  world() : segs(this->mesh) { for (int k = 0; k < NSEG; ++k) id[k] = segs.make_segment().id(); }
  segment_type & seg(int k) { return segs[id[k]]; }
};
template <typename M> struct check_members
{
  world<M> & w; check_members(world<M> & x) : w(x) {}
  template <typename Tag> void on()
  {
    typedef typename world<M>::segmentation_type SG; SG const & csegs = w.segs;
    typedef typename viennagrid::result_of::element_range<M, Tag>::type R; typedef typename viennagrid::result_of::iterator<R>::type I; R r(w.mesh); mset_t all;
    for (I i = r.begin(); i != r.end(); ++i)
    {
      vset_t s = w.set(*i); std::multiset<int> want; for (int k = 0; k < NSEG; ++k) { bool m = w.in[k].count(s) > 0; if (m) want.insert(w.id[k]); ensures_true("is_in_segment", viennagrid::is_in_segment(w.seg(k), *i) == m); }
      typedef typename viennagrid::result_of::element<M, Tag>::type E; typedef typename viennagrid::result_of::segment_id_range<SG, E>::type IR; typedef typename IR::iterator II;
      IR ir = viennagrid::segment_ids(csegs, *i); std::multiset<int> got; for (II x = ir.begin(); x != ir.end(); ++x) got.insert(*x);
      ensures_true("segment_ids", got == want && ir.size() == want.size() && ir.empty() == want.empty()); if (!want.empty()) all.insert(s);
    }
    for (int k = 0; k < NSEG; ++k)
    {
      typedef typename world<M>::segment_type S; typedef typename viennagrid::result_of::element_range<S, Tag>::type SR; SR sr(w.seg(k)); mset_t want; for (members_t::iterator e = w.in[k].begin(); e != w.in[k].end(); ++e) if (dim_of(*e) == (int)Tag::dim) want.insert(*e);
      ensures_true("segment_range", collect(w, sr) == want && sr.size() == want.size());
      S const & cs = w.seg(k); typedef typename viennagrid::result_of::const_element_range<S, Tag>::type CR; CR cr(cs); ensures_true("segment_range_const", collect(w, cr) == want);
    }
    typedef typename viennagrid::result_of::element_range<SG, Tag>::type AR; AR ar(w.segs); ensures_true("segmentation_range_is_the_union", collect(w, ar) == all && ar.size() == all.size());
  }
  int dim_of(vset_t const & s) const { int n = (int)s.size(); typedef typename TM<M>::cell_tag CT; if (viennagrid::result_of::element_tag<CT>::type::dim >= 0 && is_cube(CT())) return n == 1 ? 0 : n == 2 ? 1 : n == 4 ? 2 : 3; return n - 1; }
  static bool is_cube(viennagrid::quadrilateral_tag) { return true; } static bool is_cube(viennagrid::hexahedron_tag) { return true; } template <typename T> static bool is_cube(T) { return false; }
  void all() { kinds<typename TM<M>::cell_tag>::each(*this); on<typename TM<M>::cell_tag>(); }
};
template <typename M> struct stepper
{
  world<M> & w; int seg, dim, form; bool erase; stepper(world<M> & x, int s, int d, bool e, int f) : w(x), seg(s), dim(d), form(f), erase(e) {}
  template <typename Tag> void on()
  {
    if (Tag::dim != dim) return;
    typedef typename viennagrid::result_of::element_range<M, Tag>::type R; typedef typename viennagrid::result_of::iterator<R>::type I; R r(w.mesh); I i = r.begin(); std::advance(i, choose("element", (int)r.size()));
    vset_t s = w.set(*i); members_t universe; collect_all c(w, universe); kinds<typename TM<M>::cell_tag>::each(c); c.template on<typename TM<M>::cell_tag>();
    if (erase) { viennagrid::erase(w.seg(seg), *i); for (members_t::iterator e = w.in[seg].begin(); e != w.in[seg].end();) if (subset_of(s, *e)) w.in[seg].erase(e++); else ++e; }
    else
    {
      if (form == 0) viennagrid::add(w.seg(seg), *i); else if (form == 1) viennagrid::add(w.seg(seg), i.handle()); else viennagrid::add(w.segs, w.id[seg], *i);
      for (members_t::iterator e = universe.begin(); e != universe.end(); ++e) if (subset_of(*e, s)) w.in[seg].insert(*e);
    }
  }
  struct collect_all { world<M> & w; members_t & u; collect_all(world<M> & x, members_t & y) : w(x), u(y) {}
    template <typename Tag> void on() { typedef typename viennagrid::result_of::element_range<M, Tag>::type R; typedef typename viennagrid::result_of::iterator<R>::type I; R r(w.mesh); for (I i = r.begin(); i != r.end(); ++i) u.insert(w.set(*i)); } };
  void run() { kinds<typename TM<M>::cell_tag>::each(*this); on<typename TM<M>::cell_tag>(); }
};
template <typename M> void membership(int nv, std::vector<tuple_t> const & cells, int steps)
{
  world<M> w; w.add_vertices(nv); for (std::size_t i = 0; i < cells.size(); ++i) w.add_cell(cells[i]);
  int top = (int)TM<M>::cell_tag::dim, n = 1 + choose("steps", steps); check_members<M> chk(w);
  // start from a non-empty state: the cells distributed over the segments
  int start = choose("start", 4); for (std::size_t i = 0; i < cells.size(); ++i) for (int k = 0; k < NSEG; ++k) if ((start >> k) & 1 ? true : (start == 3 && i == 0)) { stepper<M> s(w, k, top, false, 0); viennagrid::add(w.seg(k), viennagrid::dereference_handle(w.mesh, w.c[i])); members_t u; typename stepper<M>::collect_all ca(w, u); kinds<typename TM<M>::cell_tag>::each(ca); ca.template on<typename TM<M>::cell_tag>(); vset_t cs = mkset(cells[i]); for (members_t::iterator e = u.begin(); e != u.end(); ++e) if (subset_of(*e, cs)) w.in[k].insert(*e); }
  chk.all();
  for (int k = 0; k < n; ++k)
  {
    int op = choose("op", k == 0 ? 7 : 3), seg = choose("segment", NSEG);
    if (op == 2) { viennagrid::clear(w.seg(seg)); w.in[seg].clear(); }
    else if (op >= 3) { if (op == 3) { stepper<M> s(w, seg, choose("kind", top + 1), false, 1); s.run(); } else if (op == 4) { stepper<M> s(w, seg, choose("kind", top + 1), false, 2); s.run(); } else break; }
    else { stepper<M> s(w, seg, choose("kind", top + 1), op == 1, 0); s.run(); }
    chk.all();
  }
  cover("end");
}
static std::vector<tuple_t> fixed(int n, int k, int const * t) { std::vector<tuple_t> c; for (int i = 0; i < n; ++i) c.push_back(tuple_t(t + i * k, t + (i + 1) * k)); return c; }
#define FUNS "add; erase; clear; is_in_segment; segment_ids; all_elements; mark_referencing_elements; non_recursive_erase_functor"
CONTRACT(membership_lines, FUNS) { static const int t[] = { 0,1, 2,1, 2,3 }; membership<viennagrid::line_2d_mesh>(4, fixed(3, 2, t), 3); }
CONTRACT(membership_triangles, FUNS) { static const int t[] = { 0,1,2, 3,2,1 }; membership<viennagrid::triangular_2d_mesh>(4, fixed(2, 3, t), 3); }
CONTRACT(membership_surface_triangles, FUNS) { static const int t[] = { 0,1,2, 3,2,1, 2,1,4 }; membership<viennagrid::triangular_3d_mesh>(5, fixed(3, 3, t), 2); }
CONTRACT(membership_quadrilaterals, FUNS) { static const int t[] = { 0,1,2,3, 2,3,4,5 }; membership<viennagrid::quadrilateral_2d_mesh>(6, fixed(2, 4, t), 2); }
CONTRACT(membership_tetrahedra, FUNS) { static const int t[] = { 0,1,2,3, 4,3,2,1 }; membership<viennagrid::tetrahedral_3d_mesh>(5, fixed(2, 4, t), 2); }
CONTRACT(membership_hexahedra, FUNS) { static const int t[] = { 0,1,2,3,4,5,6,7, 4,5,6,7,8,9,10,11 }; membership<viennagrid::hexahedral_3d_mesh>(12, fixed(2, 8, t), 1); }

// three segments, every distribution of one cell over them, then up to two erasures, additions or clearings
template <typename M> void three_segments(int nv, std::vector<tuple_t> const & cells)
{
  NSEG = 3; world<M> w; w.add_vertices(nv); for (std::size_t i = 0; i < cells.size(); ++i) w.add_cell(cells[i]);
  check_members<M> chk(w); members_t u; typename stepper<M>::collect_all ca(w, u); kinds<typename TM<M>::cell_tag>::each(ca); ca.template on<typename TM<M>::cell_tag>();
  for (std::size_t i = 0; i < cells.size(); ++i) { int in = i == 0 ? 1 + choose("in", 7) : 7; for (int k = 0; k < 3; ++k) if (in & (1 << k)) { viennagrid::add(w.seg(k), viennagrid::dereference_handle(w.mesh, w.c[i])); vset_t cs = mkset(cells[i]); for (members_t::iterator e = u.begin(); e != u.end(); ++e) if (subset_of(*e, cs)) w.in[k].insert(*e); } }
  chk.all(); int n = 1 + choose("steps", 2), top = (int)TM<M>::cell_tag::dim;
  for (int k = 0; k < n; ++k)
  {
    int op = choose("op", 3), seg = choose("segment", 3);
    if (op == 2) { viennagrid::clear(w.seg(seg)); w.in[seg].clear(); } else { stepper<M> s(w, seg, choose("kind", top + 1), op == 1, 0); s.run(); }
    chk.all();
  }
  cover("end"); NSEG = 2;
}
CONTRACT(three_segments_lines, FUNS) { static const int t[] = { 0,1, 2,1 }; three_segments<viennagrid::line_2d_mesh>(3, fixed(2, 2, t)); }
CONTRACT(three_segments_triangles, FUNS) { static const int t[] = { 0,1,2, 3,2,1 }; three_segments<viennagrid::triangular_2d_mesh>(4, fixed(2, 3, t)); }
CONTRACT(three_segments_tetrahedra, FUNS) { static const int t[] = { 0,1,2,3 }; three_segments<viennagrid::tetrahedral_3d_mesh>(4, fixed(1, 4, t)); }

// creating cells directly in a segment
template <typename M> void create_in_segment(int nv, std::vector<tuple_t> const & cells)
{
  world<M> w; w.add_vertices(nv); check_members<M> chk(w);
  for (std::size_t i = 0; i < cells.size(); ++i)
  {
    int k = choose("segment", NSEG + 1); std::vector<typename TM<M>::vertex_handle> h; for (std::size_t j = 0; j < cells[i].size(); ++j) h.push_back(w.v[cells[i][j]]);
    if (k == NSEG) w.add_cell(cells[i]);
    else { w.c.push_back(viennagrid::make_element<typename TM<M>::cell_type>(w.seg(k), h.begin(), h.end())); w.cells.push_back(cells[i]); members_t u; typename stepper<M>::collect_all ca(w, u); kinds<typename TM<M>::cell_tag>::each(ca); ca.template on<typename TM<M>::cell_tag>(); vset_t cs = mkset(cells[i]); for (members_t::iterator e = u.begin(); e != u.end(); ++e) if (subset_of(*e, cs)) w.in[k].insert(*e); }
    chk.all();
  }
  cover("end");
}
CONTRACT(create_in_segment_triangles, "make_element(segment); push_element; recursive_inserter") { static const int t[] = { 0,1,2, 3,2,1, 2,3,4 }; create_in_segment<viennagrid::triangular_2d_mesh>(5, fixed(3, 3, t)); }
CONTRACT(create_in_segment_tetrahedra, "make_element(segment); push_element; recursive_inserter") { static const int t[] = { 0,1,2,3, 4,3,2,1, 1,2,4,5 }; create_in_segment<viennagrid::tetrahedral_3d_mesh>(6, fixed(3, 4, t)); }
