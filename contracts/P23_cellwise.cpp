// KIND: bounded
// BOUND: meshes of up to 3 lines on 4 vertices, 3 triangles on 5, 4 surface triangles on 4, 3 tetrahedra on 5 or 6 vertices, rows of 3 quadrilaterals or hexahedra; every selection of cells, every assignment of the cells to two segments, destinations empty or not, tolerances none, below and above the distance to an existing vertex
// TIME: 150
// P23: copying selected cells, whole segmented meshes, elements into other meshes, and extracting hulls creates exactly the requested elements at the same positions.
#include "history.hpp"
#include "viennagrid/mesh/segmented_mesh.hpp"
#include "viennagrid/algorithm/extract_boundary.hpp"
template <typename P> bool same_point(P const & a, P const & b) { bool ok = true; for (std::size_t k = 0; k < a.size(); ++k) ok = ok && a[k] == b[k]; return ok; }
// vertices of another mesh, recognised by their position; -1 and `ok` false if a position is unknown or occurs twice
template <typename M, typename D> struct labels
{
  std::map<long, int> of; bool ok;
  labels(TM<M> const & t, D & d) : ok(true)
  {
    typedef typename viennagrid::result_of::vertex_range<D>::type R; typedef typename viennagrid::result_of::iterator<R>::type I; R r(d); std::set<int> used;
    for (I i = r.begin(); i != r.end(); ++i) { int l = -1; for (std::size_t k = 0; k < t.v.size(); ++k) if (same_point(viennagrid::point(*i), TM<M>::place((int)k))) l = (int)k; of[i->id().get()] = l; ok = ok && l >= 0 && used.insert(l).second; }
  }
  template <typename E> tuple_t tuple(E const & e) { typedef typename viennagrid::result_of::const_vertex_range<E>::type R; typedef typename viennagrid::result_of::iterator<R>::type I; R r(e); tuple_t t; for (I i = r.begin(); i != r.end(); ++i) t.push_back(of.count(i->id().get()) ? of[i->id().get()] : -1); return t; }
};
template <typename Tag> struct kind_tag {};
// all elements of the destination are those of the selected cells
template <typename M, typename D> struct same_structure
{
  TM<M> const & t; D & d; labels<M, D> & l; std::vector<int> const & sel; same_structure(TM<M> const & a, D & b, labels<M, D> & c, std::vector<int> const & s) : t(a), d(b), l(c), sel(s) {}
  template <typename Tag> void on() { go(Tag()); }
  void go(viennagrid::vertex_tag) { std::set<vset_t> w = t.template model<viennagrid::vertex_tag>(&sel); std::set<vset_t> g; for (std::map<long, int>::iterator i = l.of.begin(); i != l.of.end(); ++i) { vset_t s; s.insert(i->second); g.insert(s); } ensures_true("exactly_the_vertices_of_the_copied_cells", l.ok && w == g && w.size() == l.of.size()); }
  template <typename Tag> void go(Tag)
  {
    typedef typename viennagrid::result_of::element_range<D, Tag>::type R; typedef typename viennagrid::result_of::iterator<R>::type I; R r(d); mset_t g; for (I i = r.begin(); i != r.end(); ++i) g.insert(mkset(l.tuple(*i)));
    ensures_true("exactly_the_boundary_elements_of_the_copied_cells", g == as_multi(t.template model<Tag>(&sel)));
  }
};
template <typename M, typename D> void check_cells(TM<M> const & t, D & d, std::vector<int> const & sel)
{
  labels<M, D> l(t, d); same_structure<M, D> s(t, d, l, sel); kinds<typename TM<M>::cell_tag>::each(s);
  typedef typename viennagrid::result_of::cell_range<D>::type R; typedef typename viennagrid::result_of::iterator<R>::type I; R r(d); std::vector<tuple_t> g, w; for (I i = r.begin(); i != r.end(); ++i) g.push_back(l.tuple(*i)); for (std::size_t i = 0; i < sel.size(); ++i) w.push_back(t.cells[sel[i]]);
  ensures_true("exactly_the_selected_cells_in_order", g == w);
}
template <typename M> void source_unchanged(TM<M> & t)
{
  labels<M, M> l(t, t.mesh); typedef typename viennagrid::result_of::cell_range<M>::type R; typedef typename viennagrid::result_of::iterator<R>::type I; R r(t.mesh); std::vector<tuple_t> g; for (I i = r.begin(); i != r.end(); ++i) g.push_back(l.tuple(*i));
  ensures_true("source_unchanged", l.ok && l.of.size() == t.v.size() && g == t.cells);
}
struct by_mask { int mask; by_mask(int m) : mask(m) {} template <typename C> bool operator()(C const & c) const { return (mask >> c.id().get()) & 1; } };
template <typename SG> std::set<long> cell_ids(SG & s) { typedef typename viennagrid::result_of::cell_range<SG>::type R; typedef typename viennagrid::result_of::iterator<R>::type I; R r(s); std::set<long> o; for (I i = r.begin(); i != r.end(); ++i) o.insert(i->id().get()); ensures_true("no_cell_twice", o.size() == r.size()); return o; }
template <typename M, typename SGS> void check_segments(SEG<M> & t, SGS & dst, std::vector<int> const & sel)
{
  for (int k = 0; k < 2; ++k)
  {
    std::set<long> want; for (std::size_t i = 0; i < sel.size(); ++i) if (std::count(t.sel[k].begin(), t.sel[k].end(), sel[i])) want.insert((long)i);
    typename SGS::iterator f = dst.find((int)t.s[k]->id()); if (f == dst.end()) { ensures_true("segment_copied", want.empty()); continue; }
    ensures_true("segment_has_exactly_the_copied_cells", cell_ids(*f) == want);
  }
  ensures_true("no_further_segments", dst.size() <= 2);
}
template <typename F> void cellwise()
{
  typedef typename F::mesh M; SEG<M> t; int nv; std::vector<tuple_t> cells = F::cells(nv); t.add_vertices(nv); int segs = choose("segments", 2);
  for (std::size_t i = 0; i < cells.size(); ++i) { t.add_cell(cells[i]); if (segs) t.put((int)i, choose("segment", 4)); }
  typedef typename viennagrid::result_of::segmentation<M>::type SGS; int how = choose("how", 7); std::vector<int> sel, all; for (std::size_t i = 0; i < cells.size(); ++i) all.push_back((int)i);
  int mask = how == 2 || how == 3 ? (1 << (int)cells.size()) - 1 : choose("mask", 1 << (int)cells.size()); for (std::size_t i = 0; i < cells.size(); ++i) if (mask & (1 << i)) sel.push_back((int)i);
  TM<M> other; if (how != 2 && choose("destination_not_empty", 2)) { other.add_vertices(nv); other.add_cell(cells.back()); }
  if (how == 0) { viennagrid::copy(t.mesh, other.mesh, by_mask(mask)); check_cells(t, other.mesh, sel); }
  else if (how == 1)
  { SGS dst(other.mesh); if (other.c.size()) viennagrid::add(dst.get_make_segment(5), viennagrid::dereference_handle(other.mesh, other.c[0])); viennagrid::copy(t.mesh, t.segs, other.mesh, dst, by_mask(mask)); check_cells(t, other.mesh, sel); check_segments(t, dst, sel); }
  else if (how == 2 || how == 3)
  {
    typedef viennagrid::segmented_mesh<M, SGS> SM; SM src; viennagrid::copy(t.mesh, t.segs, src.mesh, src.segmentation, by_mask(mask));
    if (how == 2) { SM cp(src); check_cells(t, cp.mesh, all); check_segments(t, cp.segmentation, all); check_cells(t, src.mesh, all); check_segments(t, src.segmentation, all); cp.clear(); check_cells(t, src.mesh, all); check_segments(t, src.segmentation, all); std::vector<int> none; check_cells(t, cp.mesh, none); ensures_true("cleared", cp.segmentation.size() == 0); }
    else { SM cp; if (other.c.size()) { viennagrid::copy(other.mesh, cp.mesh, by_mask(-1)); viennagrid::add(cp.segmentation.get_make_segment(7), viennagrid::cells(cp.mesh)[0]); } cp = src; SM & self = cp; cp = self; check_cells(t, cp.mesh, all); check_segments(t, cp.segmentation, all); check_cells(t, src.mesh, all); check_segments(t, src.segmentation, all); }
  }
  else if (how == 4)
  { M dst; viennagrid::vertex_copy_map<M, M> vm(dst); for (std::size_t i = 0; i < sel.size(); ++i) { typename TM<M>::cell_handle h = vm.copy_element(viennagrid::dereference_handle(t.mesh, t.c[sel[i]])); labels<M, M> l(t, dst); ensures_true("returned_handle_is_the_copy", l.tuple(viennagrid::dereference_handle(dst, h)) == cells[sel[i]]); } check_cells(t, dst, sel); }
  else if (how == 5)
  { M dst; std::vector<typename TM<M>::cell_handle> hs; for (std::size_t i = 0; i < sel.size(); ++i) hs.push_back(t.c[sel[i]]); real tol = choose("tolerance", 2) ? real(0.0) : real(1) / real(1000);
    viennagrid::copy_elements_by_handle(t.mesh, hs.begin(), hs.end(), dst, tol); check_cells(t, dst, sel); }
  else
  { M dst; real tol = real(1) / real(1000); for (std::size_t i = 0; i < sel.size(); ++i) { typename TM<M>::cell_handle h = viennagrid::copy_element(viennagrid::dereference_handle(t.mesh, t.c[sel[i]]), dst, tol); labels<M, M> l(t, dst); ensures_true("returned_handle_is_the_copy", l.tuple(viennagrid::dereference_handle(dst, h)) == cells[sel[i]]); } check_cells(t, dst, sel); }
  source_unchanged(t); cover("end");
}
FOR_INCIDENCE_FAMILIES(cellwise, "copy(mesh); copy(mesh, segmentation); vertex_copy_map; segmented_mesh; copy_elements_by_handle; copy_element; make_unique_vertex")
// ranges of elements of any kind
template <typename F, typename Tag> void ranges(TM<typename F::mesh> & t)
{
  typedef typename F::mesh M; typedef typename viennagrid::result_of::element_range<M, Tag>::type R; typedef typename viennagrid::result_of::iterator<R>::type I; R r(t.mesh); M dst; int form = choose("tolerance", 3); I e = r.begin(), b = r.begin(); int from = choose("from", 2), n = (int)r.size(); for (int i = 0; i < from && b != r.end(); ++i) ++b;
  if (form == 0) viennagrid::copy_elements(b, r.end(), dst); else viennagrid::copy_elements(b, r.end(), dst, form == 1 ? real(0.0) : real(1) / real(1000));
  labels<M, M> l(t, dst); mset_t want, got; std::set<int> wv, gv; for (I i = b; i != r.end(); ++i) { vset_t s = t.set(*i); want.insert(s); wv.insert(s.begin(), s.end()); }
  R dr(dst); for (I i = dr.begin(); i != dr.end(); ++i) got.insert(mkset(l.tuple(*i))); for (std::map<long, int>::iterator i = l.of.begin(); i != l.of.end(); ++i) gv.insert(i->second);
  ensures_true("exactly_the_elements_of_the_range", want == got); ensures_true("exactly_their_vertices", l.ok && wv == gv && gv.size() == l.of.size());
}
template <typename F> struct range_kinds { TM<typename F::mesh> & t; int dim; range_kinds(TM<typename F::mesh> & x, int d) : t(x), dim(d) {} template <typename Tag> void on() { if ((int)Tag::dim == dim) go(Tag()); } void go(viennagrid::vertex_tag) {} template <typename Tag> void go(Tag) { ranges<F, Tag>(t); } };
template <typename F> void element_ranges()
{
  typedef typename F::mesh M; TM<M> t; int nv; std::vector<tuple_t> cells = F::cells(nv); t.add_vertices(nv); for (std::size_t i = 0; i < cells.size(); ++i) t.add_cell(cells[i]);
  int dim = 1 + choose("kind", (int)TM<M>::cell_tag::dim); range_kinds<F> k(t, dim); kinds<typename TM<M>::cell_tag>::each(k); k.template on<typename TM<M>::cell_tag>(); source_unchanged(t); cover("end");
}
FOR_INCIDENCE_FAMILIES(element_ranges, "copy_elements; copy_elements_impl; make_unique_vertex")
// hulls
template <typename M> struct hull_of; 
template <> struct hull_of<viennagrid::triangular_2d_mesh> { typedef viennagrid::line_2d_mesh type; };
template <> struct hull_of<viennagrid::quadrilateral_2d_mesh> { typedef viennagrid::line_2d_mesh type; };
template <> struct hull_of<viennagrid::triangular_3d_mesh> { typedef viennagrid::line_3d_mesh type; };
template <> struct hull_of<viennagrid::tetrahedral_3d_mesh> { typedef viennagrid::triangular_3d_mesh type; };
template <> struct hull_of<viennagrid::hexahedral_3d_mesh> { typedef viennagrid::quadrilateral_3d_mesh type; };
template <typename M> mset_t model_hull(TM<M> & t, std::vector<int> const * sel)
{
  typedef typename TM<M>::facet_tag FT; std::map<vset_t, int> n; for (std::size_t i = 0; i < t.cells.size(); ++i) if (!sel || std::count(sel->begin(), sel->end(), (int)i)) { std::vector<tuple_t> b = ref_elements<typename TM<M>::cell_tag, FT>(t.cells[i]); for (std::size_t j = 0; j < b.size(); ++j) ++n[mkset(b[j])]; }
  mset_t o; for (std::map<vset_t, int>::iterator i = n.begin(); i != n.end(); ++i) { requires_(i->second <= 2); if (i->second == 1) o.insert(i->first); } return o;
}
template <typename M, typename H, typename R> mset_t hull_elements(labels<M, H> & l, R & r) { mset_t o; typedef typename viennagrid::result_of::iterator<R>::type I; for (I i = r.begin(); i != r.end(); ++i) o.insert(mkset(l.tuple(*i))); return o; }
template <typename F> void hull()
{
  typedef typename F::mesh M; typedef typename hull_of<M>::type H; typedef typename TM<M>::facet_tag FT; SEG<M> t; int nv; std::vector<tuple_t> cells = F::cells(nv); t.add_vertices(nv); int how = choose("how", 3);
  for (std::size_t i = 0; i < cells.size(); ++i) { t.add_cell(cells[i]); if (how == 1) t.put((int)i, choose("segment", 4)); }
  H h; typedef typename viennagrid::result_of::segmentation<H>::type HS; HS hs(h); if (choose("destination_not_empty", 2)) { typename viennagrid::result_of::point<H>::type p; for (std::size_t k = 0; k < p.size(); ++k) p[k] = real(50); viennagrid::make_vertex(h, p); hs.get_make_segment(9); }
  typedef typename viennagrid::result_of::cell_range<H>::type R; mset_t want = model_hull(t, 0), u;
  if (how == 0) { viennagrid::extract_boundary(t.mesh, h); labels<M, H> l(t, h); R r(h); ensures_true("hull_is_the_boundary", hull_elements<M, H>(l, r) == want); u = want; }
  else if (how == 2) { typename SEG<M>::segmentation_type none(t.mesh); viennagrid::extract_boundary(t.mesh, none, h, hs); labels<M, H> l(t, h); R r(h); ensures_true("hull_without_segments_is_the_boundary", hull_elements<M, H>(l, r) == want && hs.size() == 0); u = want; }
  else
  {
    viennagrid::extract_boundary(t.mesh, t.segs, h, hs); labels<M, H> l(t, h);
    for (int k = 0; k < 2; ++k)
    {
      mset_t w = model_hull(t, &t.sel[k]); for (mset_t::iterator i = w.begin(); i != w.end(); ++i) if (!u.count(*i)) u.insert(*i);
      typename HS::iterator f = hs.find((int)t.s[k]->id()); ensures_true("hull_segment_exists", f != hs.end()); if (f == hs.end()) continue;
      typedef typename viennagrid::result_of::segment_handle<HS>::type SH; typedef typename viennagrid::result_of::cell_range<SH>::type SR; SR sr(*f); ensures_true("hull_segment_is_the_boundary_of_the_segment", hull_elements<M, H>(l, sr) == w);
    }
    R r(h); ensures_true("each_hull_element_once", hull_elements<M, H>(l, r) == u && hs.size() == 2);
  }
  { labels<M, H> l(t, h); std::set<int> wv, gv; for (mset_t::iterator i = u.begin(); i != u.end(); ++i) wv.insert(i->begin(), i->end()); for (std::map<long, int>::iterator i = l.of.begin(); i != l.of.end(); ++i) gv.insert(i->second); ensures_true("hull_has_exactly_the_vertices_of_its_elements", l.ok && wv == gv && gv.size() == l.of.size()); }
  source_unchanged(t); cover("end");
}
#define HF "extract_boundary; vertex_copy_map; segmentation::operator()"
CONTRACT(hull_triangles, HF) { hull<inc_tri>(); }
CONTRACT(hull_surface_triangles, HF) { hull<inc_tri3>(); }
CONTRACT(hull_tetrahedra, HF) { hull<inc_tet>(); }
CONTRACT(hull_quadrilaterals, HF) { hull<inc_quad>(); }
CONTRACT(hull_hexahedra, HF) { hull<inc_hex>(); }
// uniqueness of vertices: an existing vertex closer than the tolerance is used, otherwise a new one is made
CONTRACT(unique_vertex, "make_unique_vertex")
{
  typedef viennagrid::triangular_2d_mesh M; typedef viennagrid::result_of::vertex_handle<M>::type VH; M m; P2 a(real(1), real(2)), b(real(5), real(2)); VH va = viennagrid::make_vertex(m, a), vb = viennagrid::make_vertex(m, b);
  P2 q(real(choose("x", 8)), real(choose("y", 5))); real da = (q[0] - a[0]) * (q[0] - a[0]) + (q[1] - a[1]) * (q[1] - a[1]), db = (q[0] - b[0]) * (q[0] - b[0]) + (q[1] - b[1]) * (q[1] - b[1]); real tol = real(choose("tolerance", 7) - 1) / real(2) + real(1) / real(16); int n = (int)viennagrid::vertices(m).size();
  VH r = viennagrid::make_unique_vertex(m, q, tol); bool near_a = tol > real(0) && da < tol * tol, near_b = tol > real(0) && db < tol * tol; int nn = (int)viennagrid::vertices(m).size();
  P2 pr = viennagrid::point(m, r);
  if (!near_a && !near_b) { ensures_true("new_vertex_where_none_is_near", nn == n + 1 && r != va && r != vb && same_point(pr, q)); }
  else ensures_true("near_vertex_is_used", nn == n && ((near_a && r == va) || (near_b && r == vb)));
  ensures_true("others_unchanged", same_point(viennagrid::point(m, va), a) && same_point(viennagrid::point(m, vb), b)); cover("end");
}
