// KIND: bounded
// BOUND: meshes of up to two triangles on 4 vertices (plane, space) and up to two tetrahedra on 5 vertices; every set of marked edges or cells, every assignment to two segments; hyperplanes through a grid of positions in 12 directions
// TIME: 200
// P28: the refinement drivers: new vertices at the midpoints of exactly the marked edges, children tile their parent and inherit its segments, unmarked cells are copied, the input is left alone.
#include "history.hpp"
#include "viennagrid/algorithm/refine.hpp"
#include "viennagrid/algorithm/volume.hpp"
typedef std::vector<double> pos; typedef std::map<pos, int> names_t;
struct r_tri { typedef viennagrid::triangular_2d_mesh mesh; static std::vector<tuple_t> cells(int & nv) { nv = 4; return choose_simplices(4, 3, 1 + choose("cells", 2), 2); } };
struct r_tri3 { typedef viennagrid::triangular_3d_mesh mesh; static std::vector<tuple_t> cells(int & nv) { nv = 5; std::vector<tuple_t> c = choose_simplices(4, 3, 2, 1); tuple_t t; t.push_back(4); t.push_back(1); t.push_back(0); c.push_back(t); return c; } };
struct r_tet { typedef viennagrid::tetrahedral_3d_mesh mesh; static std::vector<tuple_t> cells(int & nv) { nv = 5; int n = 1 + choose("cells", 2); return choose_simplices(5, 4, n, n == 1 ? 4 : 1); } };
template <typename P> pos at(P const & p) { pos o; for (std::size_t i = 0; i < p.size(); ++i) o.push_back(p[i]); return o; }
static pos mid(pos a, pos const & b) { for (std::size_t i = 0; i < a.size(); ++i) a[i] = (a[i] + b[i]) / 2; return a; }
static double ref_volume(std::vector<pos> const & t)     // of a triangle or tetrahedron, from its points
{
  std::vector<pos> e; for (std::size_t k = 1; k < t.size(); ++k) { pos d = t[k]; for (std::size_t i = 0; i < d.size(); ++i) d[i] -= t[0][i]; e.push_back(d); }
  if (e.size() == 2) { double aa = 0, bb = 0, ab = 0; for (std::size_t i = 0; i < e[0].size(); ++i) { aa += e[0][i] * e[0][i]; bb += e[1][i] * e[1][i]; ab += e[0][i] * e[1][i]; } return std::sqrt(std::max(0.0, aa * bb - ab * ab)) / 2; }
  return std::fabs(e[0][0]*(e[1][1]*e[2][2]-e[1][2]*e[2][1]) - e[0][1]*(e[1][0]*e[2][2]-e[1][2]*e[2][0]) + e[0][2]*(e[1][0]*e[2][1]-e[1][1]*e[2][0])) / 6;
}
template <typename M> struct edges_of
{
  std::vector<vset_t> e; edges_of(TM<M> & m) { typedef typename viennagrid::result_of::line_range<M>::type R; typedef typename viennagrid::result_of::iterator<R>::type I; R r(m.mesh); for (I i = r.begin(); i != r.end(); ++i) e.push_back(m.set(*i)); }
};
// checks the output against the marked edges (cut[edge] = position of the new vertex)
template <typename M> void check_refined(SEG<M> & m, M & out, std::map<vset_t, pos> const & cut, typename SEG<M>::segmentation_type * osegs, bool midpoints)
{
  typedef typename viennagrid::result_of::vertex_range<M>::type VR; typedef typename viennagrid::result_of::iterator<VR>::type VI; typedef typename viennagrid::result_of::cell_range<M>::type CR; typedef typename viennagrid::result_of::iterator<CR>::type CI;
  std::map<int, pos> where; std::map<int, vset_t> support; names_t names; vset_t used; for (std::size_t c = 0; c < m.cells.size(); ++c) used.insert(m.cells[c].begin(), m.cells[c].end());
  for (vset_t::iterator i = used.begin(); i != used.end(); ++i) { where[*i] = at(TM<M>::place(*i)); support[*i].insert(*i); names[where[*i]] = *i; }
  int next = 100; for (std::map<vset_t, pos>::const_iterator e = cut.begin(); e != cut.end(); ++e, ++next) { where[next] = e->second; support[next] = e->first; names[e->second] = next; }
  VR vr(out); std::multiset<pos> got, want; for (VI i = vr.begin(); i != vr.end(); ++i) got.insert(at(viennagrid::point(*i))); for (std::map<int, pos>::iterator i = where.begin(); i != where.end(); ++i) want.insert(i->second);
  ensures_true("vertices_are_the_old_ones_and_one_per_marked_edge", got == want); if (got != want) return;
  std::map<int, double> volume; std::map<int, int> count; std::map<vset_t, std::map<int, int> > faces; CR cr(out); bool known = true, unsplit = false, flat = false;
  for (CI c = cr.begin(); c != cr.end(); ++c)
  {
    vset_t t, sup; std::vector<pos> pts; for (std::size_t k = 0; k < viennagrid::vertices(*c).size(); ++k) { int n = names[at(viennagrid::point(viennagrid::vertices(*c)[k]))]; t.insert(n); sup.insert(support[n].begin(), support[n].end()); pts.push_back(where[n]); }
    int parent = -1; for (std::size_t p = 0; p < m.cells.size(); ++p) if (subset_of(sup, mkset(m.cells[p]))) parent = (int)p;
    if (parent < 0) { known = false; break; }
    double vol = ref_volume(pts); if (vol <= 1e-12) flat = true; volume[parent] += vol; ++count[parent]; for (std::map<vset_t, pos>::const_iterator e = cut.begin(); e != cut.end(); ++e) if (subset_of(e->first, t)) unsplit = true;
    for (vset_t::iterator x = t.begin(); x != t.end(); ++x) { vset_t f(t); f.erase(*x); ++faces[f][parent]; }
    if (osegs) for (int k = 0; k < 2; ++k)
    {
      bool want_in = std::count(m.sel[k].begin(), m.sel[k].end(), parent) > 0; int id = m.s[k]->id();
      ensures_true("children_inherit_the_segments", osegs->segment_present(id) ? viennagrid::is_in_segment(osegs->get_segment(id), *c) == want_in : !want_in);
    }
  }
  ensures_true("children_lie_in_the_cells", known); if (!known) return; ensures_true("marked_edges_are_split", !unsplit); ensures_true("no_flat_child", !flat);
  for (std::size_t p = 0; p < m.cells.size(); ++p)
  {
    std::vector<pos> pts; for (std::size_t k = 0; k < m.cells[p].size(); ++k) pts.push_back(where[m.cells[p][k]]); double want_vol = ref_volume(pts); int marked = 0; for (std::map<vset_t, pos>::const_iterator e = cut.begin(); e != cut.end(); ++e) if (subset_of(e->first, mkset(m.cells[p]))) ++marked;
    ensures_true("volume_preserved", std::fabs(volume[(int)p] - want_vol) <= 1e-9 * (1 + want_vol)); if (!marked) ensures_true("unmarked_cells_are_copied", count[(int)p] == 1);
    if (midpoints && m.cells[p].size() == 3) ensures_true("number_of_children", count[(int)p] == marked + 1);
  }
  // a face of a child lies inside a parent (two uses) or on a face of it (one use per adjacent parent)
  for (std::map<vset_t, std::map<int, int> >::iterator f = faces.begin(); f != faces.end(); ++f)
  {
    vset_t sup; for (vset_t::const_iterator x = f->first.begin(); x != f->first.end(); ++x) sup.insert(support[*x].begin(), support[*x].end()); std::size_t parents = 0; for (std::size_t p = 0; p < m.cells.size(); ++p) if (subset_of(sup, mkset(m.cells[p]))) ++parents;
    bool inside = sup.size() == m.cells[0].size(); int uses = 0; for (std::map<int, int>::iterator u = f->second.begin(); u != f->second.end(); ++u) uses += u->second;
    ensures_true("conforming", inside ? uses == 2 : uses == (int)parents);
  }
  if (osegs) for (int k = 0; k < 2; ++k) { int id = m.s[k]->id(), want_n = 0; for (std::size_t i = 0; i < m.sel[k].size(); ++i) want_n += count[m.sel[k][i]]; int n = osegs->segment_present(id) ? (int)viennagrid::cells(osegs->get_segment(id)).size() : 0; ensures_true("segment_sizes", n == want_n); }
}
template <typename M> void unchanged(SEG<M> & m, std::size_t nv, std::vector<vset_t> const & e)
{ edges_of<M> x(m); ensures_true("input_unchanged", viennagrid::vertices(m.mesh).size() == nv && viennagrid::cells(m.mesh).size() == m.cells.size() && x.e == e); for (int k = 0; k < 2; ++k) ensures_true("input_segments_unchanged", viennagrid::cells(*m.s[k]).size() == m.sel[k].size()); }
template <typename F> void build(SEG<typename F::mesh> & m, int & nv, bool segs)
{ std::vector<tuple_t> cells = F::cells(nv); m.add_vertices(nv); for (std::size_t i = 0; i < cells.size(); ++i) { m.add_cell(cells[i]); if (segs) m.put((int)i, i == 0 ? choose("segment", 4) : choose("segment", 3) + (i == 1 ? 1 : 0)); } }
// how: 0 marked edges, 1 marked cells, 2 uniform
template <typename F> void driver(int how)
{
  typedef typename F::mesh M; typedef typename TM<M>::cell_tag CT; typedef typename viennagrid::result_of::line<M>::type E; typedef typename TM<M>::cell_type C;
  SEG<M> m; int nv; bool segs = choose("segments", 2); build<F>(m, nv, segs); edges_of<M> ed(m); int ne = (int)ed.e.size(); std::set<vset_t> marked; M out; typename SEG<M>::segmentation_type osegs(out);
  typedef typename viennagrid::result_of::line_range<M>::type LR; typedef typename viennagrid::result_of::iterator<LR>::type LI; typedef typename viennagrid::result_of::cell_range<M>::type CR; typedef typename viennagrid::result_of::iterator<CR>::type CI;
  if (how == 0)
  {
    int mask = choose("marked", 1 << ne); std::deque<bool> flag(ne, false); typename viennagrid::result_of::accessor<std::deque<bool>, E>::type acc(flag); LR lr(m.mesh); int k = 0; for (LI l = lr.begin(); l != lr.end(); ++l, ++k) if ((mask >> k) & 1) { acc(*l) = true; marked.insert(ed.e[k]); }
    if (segs) viennagrid::refine<CT>(m.mesh, m.segs, out, osegs, acc); else viennagrid::refine<CT>(m.mesh, out, acc);
  }
  else if (how == 1)
  {
    int mask = choose("marked", 1 << m.cells.size()); std::vector<bool> flag(m.cells.size(), false); typename viennagrid::result_of::accessor<std::vector<bool>, C>::type acc(flag); CR cr(m.mesh); int k = 0; for (CI c = cr.begin(); c != cr.end(); ++c, ++k) if ((mask >> k) & 1) { flag[k] = true; vset_t s = m.set(*c); for (int e = 0; e < ne; ++e) if (subset_of(ed.e[e], s)) marked.insert(ed.e[e]); }
    if (segs) { if (choose("tag", 2)) viennagrid::element_refine<CT>(m.mesh, m.segs, out, osegs, acc); else viennagrid::cell_refine(m.mesh, m.segs, out, osegs, acc); } else { if (choose("tag", 2)) viennagrid::element_refine<CT>(m.mesh, out, acc); else viennagrid::cell_refine(m.mesh, out, acc); }
  }
  else
  {
    marked.insert(ed.e.begin(), ed.e.end());
    if (segs) { if (choose("tag", 2)) viennagrid::refine_uniformly<CT>(m.mesh, m.segs, out, osegs); else viennagrid::cell_refine_uniformly(m.mesh, m.segs, out, osegs); } else { if (choose("tag", 2)) viennagrid::refine_uniformly<CT>(m.mesh, out); else viennagrid::cell_refine_uniformly(m.mesh, out); }
  }
  std::map<vset_t, pos> cut; for (std::set<vset_t>::iterator e = marked.begin(); e != marked.end(); ++e) cut[*e] = mid(at(TM<M>::place(*e->begin())), at(TM<M>::place(*e->rbegin())));
  check_refined(m, out, cut, segs ? &osegs : 0, true); unchanged(m, nv, ed.e);
  if (how == 2) { double v = 0, w = 0; typedef typename viennagrid::result_of::cell_range<M>::type R; R r(out); for (std::size_t i = 0; i < r.size(); ++i) v += viennagrid::volume(r[i]); R q(m.mesh); for (std::size_t i = 0; i < q.size(); ++i) w += viennagrid::volume(q[i]); ensures_true("uniform_count", r.size() == q.size() * (m.cells[0].size() == 3 ? 4 : 8)); ensures_true("total_volume", std::fabs(v - w) <= 1e-9 * (1 + w)); }
  cover("end");
}
#define FUNS "refine; refine_impl; simple_refine; element_refine; cell_refine; cell_refinement_to_edge_refinement; refine_uniformly; cell_refine_uniformly; mark_all_edge_refinement; vertex_copy_map"
CONTRACT(edges_triangles, FUNS) { driver<r_tri>(0); }
CONTRACT(edges_surface_triangles, FUNS) { driver<r_tri3>(0); }
CONTRACT(edges_tetrahedra, FUNS) { driver<r_tet>(0); }
CONTRACT(cells_triangles, FUNS) { driver<r_tri>(1); }
CONTRACT(cells_surface_triangles, FUNS) { driver<r_tri3>(1); }
CONTRACT(cells_tetrahedra, FUNS) { driver<r_tet>(1); }
CONTRACT(uniform_triangles, FUNS) { driver<r_tri>(2); }
CONTRACT(uniform_surface_triangles, FUNS) { driver<r_tri3>(2); }
CONTRACT(uniform_tetrahedra, FUNS) { driver<r_tet>(2); }

// marking the longest edge of every cell that has a marked one: the least set closed under this rule
template <typename F> void longest()
{
  typedef typename F::mesh M; typedef typename TM<M>::cell_tag CT; typedef typename viennagrid::result_of::line<M>::type E; SEG<M> m; int nv; build<F>(m, nv, false); edges_of<M> ed(m); int ne = (int)ed.e.size();
  std::deque<bool> flag(ne, false); typename viennagrid::result_of::accessor<std::deque<bool>, E>::type acc(flag); typedef typename viennagrid::result_of::line_range<M>::type LR; typedef typename viennagrid::result_of::iterator<LR>::type LI;
  std::set<vset_t> marked; int mask = choose("marked", 1 << ne); LR lr(m.mesh); int k = 0; for (LI l = lr.begin(); l != lr.end(); ++l, ++k) if ((mask >> k) & 1) { acc(*l) = true; marked.insert(ed.e[k]); }
  for (bool more = true; more;)
  {
    more = false;
    for (std::size_t c = 0; c < m.cells.size(); ++c)
    {
      bool any = false, tie = false; double best = -1; vset_t arg; vset_t s = mkset(m.cells[c]);
      for (int e = 0; e < ne; ++e) if (subset_of(ed.e[e], s)) { any = any || marked.count(ed.e[e]); pos a = at(TM<M>::place(*ed.e[e].begin())), b = at(TM<M>::place(*ed.e[e].rbegin())); double d = 0; for (std::size_t i = 0; i < a.size(); ++i) d += (a[i] - b[i]) * (a[i] - b[i]); if (d == best) tie = true; if (d > best) { best = d; arg = ed.e[e]; tie = false; } }
      if (any) { requires_(!tie); if (marked.insert(arg).second) more = true; }
    }
  }
  viennagrid::ensure_longest_edge_refinement<CT>(m.mesh, acc); std::set<vset_t> got; k = 0; for (LI l = lr.begin(); l != lr.end(); ++l, ++k) if (acc(*l)) got.insert(ed.e[k]);
  ensures_true("least_closed_set", got == marked); cover("end");
}
CONTRACT(longest_edge_triangles, "ensure_longest_edge_refinement") { longest<r_tri>(); }
CONTRACT(longest_edge_surface_triangles, "ensure_longest_edge_refinement") { longest<r_tri3>(); }
CONTRACT(longest_edge_tetrahedra, "ensure_longest_edge_refinement") { longest<r_tet>(); }

// cutting along a hyperplane: afterwards no cell lies on both sides
template <typename F> void hyperplane()
{
  typedef typename F::mesh M; typedef typename TM<M>::point_type P; SEG<M> m; int nv; bool segs = choose("segments", 2); build<F>(m, nv, segs); edges_of<M> ed(m); std::size_t dim = P().size();
  static const int dirs[12][3] = { {1,0,0}, {0,1,0}, {-1,0,0}, {1,1,0}, {1,-1,0}, {2,1,0}, {-1,2,0}, {3,-2,0}, {0,0,1}, {1,1,1}, {1,-1,2}, {-2,1,1} };
  int d = choose("direction", dim == 2 ? 8 : 12), o = choose("offset", 8); P n, q; for (std::size_t i = 0; i < dim; ++i) { n[i] = dirs[d][i]; q[i] = 0; }
  std::size_t ax = 0; while (n[ax] == 0) ++ax; q[ax] = o < 7 ? o * 3.25 + 0.375 : 0; if (o == 7) q = TM<M>::place(m.cells[0][0]);               // also exactly through a vertex
  M out; typename SEG<M>::segmentation_type osegs(out); double tol = 1e-9; if (segs) viennagrid::hyperplane_refine(m.mesh, m.segs, out, osegs, q, n, tol); else viennagrid::hyperplane_refine(m.mesh, out, q, n, tol);
  typedef typename viennagrid::result_of::line_range<M>::type LR; std::map<vset_t, pos> cut; bool close = false;
  for (std::size_t e = 0; e < ed.e.size(); ++e)
  {
    P a = TM<M>::place(*ed.e[e].begin()), b = TM<M>::place(*ed.e[e].rbegin()); double da = 0, db = 0, len = 0; for (std::size_t i = 0; i < dim; ++i) { da += n[i] * (a[i] - q[i]); db += n[i] * (b[i] - q[i]); len += std::fabs(a[i] - b[i]); }
    if ((da != 0 && std::fabs(da) < 1e-5 * (1 + len)) || (db != 0 && std::fabs(db) < 1e-5 * (1 + len))) close = true; if ((da < 0 && db > 0) || (da > 0 && db < 0)) { pos c; for (std::size_t i = 0; i < dim; ++i) c.push_back((a[i] * db - b[i] * da) / (db - da)); cut[ed.e[e]] = c; }
  }
  requires_(!close);
  // identify the computed cut points with the exact ones
  typedef typename viennagrid::result_of::vertex_range<M>::type VR; VR vr(out); bool found = true; for (std::map<vset_t, pos>::iterator e = cut.begin(); e != cut.end(); ++e) { bool ok = false; for (std::size_t i = 0; i < vr.size() && !ok; ++i) { pos p = at(viennagrid::point(vr[i])); double dd = 0; for (std::size_t k = 0; k < dim; ++k) dd = std::max(dd, std::fabs(p[k] - e->second[k])); if (dd < 1e-9) { e->second = p; ok = true; } } found = found && ok; }
  ensures_true("new_vertices_on_the_plane", found); if (!found) return;
  check_refined(m, out, cut, segs ? &osegs : 0, false); unchanged(m, nv, ed.e);
  typedef typename viennagrid::result_of::cell_range<M>::type CR; CR cr(out); for (std::size_t c = 0; c < cr.size(); ++c) { bool neg = false, plus = false; for (std::size_t k = 0; k < m.cells[0].size(); ++k) { P p = viennagrid::point(viennagrid::vertices(cr[c])[k]); double v = 0; for (std::size_t i = 0; i < dim; ++i) v += n[i] * (p[i] - q[i]); if (v < -1e-7) neg = true; if (v > 1e-7) plus = true; } ensures_true("no_cell_on_both_sides", !(neg && plus)); }
  cover("end");
}
CONTRACT(hyperplane_triangles, "hyperplane_refine; mark_edges_for_hyperplane_refine") { hyperplane<r_tri>(); }
CONTRACT(hyperplane_surface_triangles, "hyperplane_refine; mark_edges_for_hyperplane_refine") { hyperplane<r_tri3>(); }
CONTRACT(hyperplane_tetrahedra, "hyperplane_refine; mark_edges_for_hyperplane_refine") { hyperplane<r_tet>(); }
