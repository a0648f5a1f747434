// KIND: bounded
// BOUND: meshes of up to 4 lines on 6 vertices, 4 triangles on 6 vertices, 3 tetrahedra on 6, rows of 3 quadrilaterals or hexahedra with any of the cells left out; every assignment of up to 4 cells to two segments; neighbor information cached before or not
// TIME: 150
// P25: one seed point per connected part (through facets) of the mesh or of every segment, inside that part, labelled with the segment.
#include "history.hpp"
#include "viennagrid/algorithm/extract_seed_points.hpp"
static int root(std::vector<int> & p, int i) { while (p[i] != i) i = p[i]; return i; }
// model: connected parts of the selected cells, two cells being connected if they share a facet
template <typename M> std::vector<int> parts(TM<M> & m, std::vector<int> const & sel)
{
  typedef typename TM<M>::facet_tag FT; typedef typename TM<M>::cell_tag CT; std::vector<int> p; for (std::size_t i = 0; i < sel.size(); ++i) p.push_back((int)i);
  std::vector<std::set<vset_t> > f; for (std::size_t i = 0; i < sel.size(); ++i) { std::vector<tuple_t> b = ref_elements<CT, FT>(m.cells[sel[i]]); std::set<vset_t> s; for (std::size_t j = 0; j < b.size(); ++j) s.insert(mkset(b[j])); f.push_back(s); }
  for (std::size_t i = 0; i < sel.size(); ++i) for (std::size_t j = 0; j < i; ++j) { bool common = false; for (std::set<vset_t>::iterator x = f[i].begin(); x != f[i].end(); ++x) common = common || f[j].count(*x); if (common) p[root(p, (int)i)] = root(p, (int)j); }
  for (std::size_t i = 0; i < sel.size(); ++i) p[i] = root(p, (int)i); return p;
}
template <typename M, typename P> int cell_at(TM<M> & m, std::vector<int> const & sel, P const & q)
{ int at = -1, n = 0; for (std::size_t i = 0; i < sel.size(); ++i) { P c = viennagrid::centroid(viennagrid::dereference_handle(m.mesh, m.c[sel[i]])); bool eq = true; for (std::size_t d = 0; d < q.size(); ++d) eq = eq && q[d] == c[d]; if (eq) { at = (int)i; ++n; } } requires_(n <= 1); return at; }
template <typename M, typename PV> void check_seeds(TM<M> & m, std::vector<int> const & sel, PV const & seeds)
{
  std::vector<int> p = parts(m, sel); std::set<int> want(p.begin(), p.end()), got; bool inside = true, once = true; for (std::size_t i = 0; i < seeds.size(); ++i) { int c = cell_at(m, sel, seeds[i]); inside = inside && c >= 0; if (c >= 0) once = once && got.insert(p[c]).second; }
  ensures_true("every_seed_is_inside_a_cell", inside); ensures_true("no_part_has_two_seeds", once); ensures_true("every_part_has_a_seed", got == want && seeds.size() == want.size());
}
template <typename F> void seeds()
{
  typedef typename F::mesh M; SEG<M> m; int nv; std::vector<tuple_t> cells = F::cells(nv); m.add_vertices(nv); int segs = choose("segments", 2), keep = F::skip ? choose("keep", 1 << (int)cells.size()) : -1; typedef typename TM<M>::point_type P; std::vector<int> all;
  for (std::size_t i = 0; i < cells.size(); ++i) if (keep & (1 << i)) { m.add_cell(cells[i]); int k = (int)m.c.size() - 1; all.push_back(k); if (segs) m.put(k, choose("segment", 4)); }
  if (!all.empty() && choose("cached", 2)) { typedef typename viennagrid::result_of::neighbor_range<M, typename TM<M>::cell_tag, typename TM<M>::facet_tag>::type NR; NR r(m.mesh, m.c[0]); }
  std::vector<P> s; viennagrid::extract_seed_points(m.mesh, s); check_seeds(m, all, s);
  if (segs)
  {
    std::vector<std::pair<P, int> > ls; viennagrid::extract_seed_points(m.mesh, m.segs, ls); std::size_t n = 0;
    for (int k = 0; k < 2; ++k) { std::vector<P> mine; for (std::size_t i = 0; i < ls.size(); ++i) if (ls[i].second == (int)m.s[k]->id()) mine.push_back(ls[i].first); n += mine.size(); check_seeds(m, m.sel[k], mine); std::vector<P> direct; viennagrid::extract_seed_points(*m.s[k], direct); check_seeds(m, m.sel[k], direct); }
    ensures_true("no_other_labels", n == ls.size());
  }
  else { typename SEG<M>::segmentation_type none(m.mesh); std::vector<std::pair<P, int> > ls; viennagrid::extract_seed_points(m.mesh, none, ls); std::vector<P> u; bool zero = true; for (std::size_t i = 0; i < ls.size(); ++i) { u.push_back(ls[i].first); zero = zero && ls[i].second == 0; } ensures_true("without_segments_the_label_is_0", zero); check_seeds(m, all, u); }
  cover("end");
}
struct sd_line { typedef viennagrid::line_2d_mesh mesh; static const bool skip = false; static std::vector<tuple_t> cells(int & nv) { nv = 5; return choose_simplices(5, 2, 1 + choose("cells", 3), 1); } };
struct sd_tri { typedef viennagrid::triangular_2d_mesh mesh; static const bool skip = false; static std::vector<tuple_t> cells(int & nv) { nv = 6; return choose_simplices(6, 3, 1 + choose("cells", 3), 1); } };
struct sd_tet { typedef viennagrid::tetrahedral_3d_mesh mesh; static const bool skip = false; static std::vector<tuple_t> cells(int & nv) { nv = 6; return choose_simplices(6, 4, 1 + choose("cells", 3), 1); } };
struct sd_fan { typedef viennagrid::triangular_2d_mesh mesh; static const bool skip = true; static std::vector<tuple_t> cells(int & nv) { nv = 8; static const int o[][6] = { {0,1,2,3,4,5}, {5,4,3,2,1,0}, {3,1,5,0,4,2}, {0,2,4,5,3,1} }; int k = choose("order", 4); std::vector<tuple_t> c; for (int i = 0; i < 6; ++i) { tuple_t t; t.push_back(0); t.push_back(1 + o[k][i]); t.push_back(1 + (o[k][i] + 1) % 7); c.push_back(t); } return c; } };
struct sd_quad { typedef viennagrid::quadrilateral_2d_mesh mesh; static const bool skip = true; static std::vector<tuple_t> cells(int & nv) { int n = 1 + choose("cells", 4); nv = box_vertices(2, n); return choose_boxes(2, n, 1); } };
struct sd_hex { typedef viennagrid::hexahedral_3d_mesh mesh; static const bool skip = true; static std::vector<tuple_t> cells(int & nv) { int n = 1 + choose("cells", 3); nv = box_vertices(3, n); return choose_boxes(3, n, 1); } };
#define SF "extract_seed_points(mesh); extract_seed_points(segment); extract_seed_points(mesh, segmentation); neighbor_mark"
CONTRACT(seeds_lines, SF) { seeds<sd_line>(); }
CONTRACT(seeds_triangles, SF) { seeds<sd_tri>(); }
CONTRACT(seeds_fan, SF) { seeds<sd_fan>(); }
CONTRACT(seeds_tetrahedra, SF) { seeds<sd_tet>(); }
CONTRACT(seeds_quadrilaterals, SF) { seeds<sd_quad>(); }
CONTRACT(seeds_hexahedra, SF) { seeds<sd_hex>(); }
