// Histories over real meshes: cells are added one by one (to the mesh and to up to two segments), with cached queries in between.
#ifndef VERIF_HISTORY_HPP
#define VERIF_HISTORY_HPP
#include "topo.hpp"
// one vertex order per cell: what matters here is incidence, not orientation (P13/P14 cover the orders)
struct inc_line { typedef viennagrid::line_2d_mesh mesh; static std::vector<tuple_t> cells(int & nv) { nv = 4; return choose_simplices(4, 2, 1 + choose("cells", 3), 1); } };
struct inc_tri  { typedef viennagrid::triangular_2d_mesh mesh; static std::vector<tuple_t> cells(int & nv) { nv = 5; return choose_simplices(5, 3, 1 + choose("cells", 3), 1); } };
struct inc_tri3 { typedef viennagrid::triangular_3d_mesh mesh; static std::vector<tuple_t> cells(int & nv) { nv = 4; return choose_simplices(4, 3, 1 + choose("cells", 4), 1); } };
struct inc_tet  { typedef viennagrid::tetrahedral_3d_mesh mesh; static std::vector<tuple_t> cells(int & nv) { int n = 1 + choose("cells", 3); nv = n == 3 ? 5 : 6; return choose_simplices(nv, 4, n, 1); } };
struct inc_quad { typedef viennagrid::quadrilateral_2d_mesh mesh; static std::vector<tuple_t> cells(int & nv) { int n = 1 + choose("cells", 3); nv = box_vertices(2, n); return choose_boxes(2, n, 2); } };
struct inc_hex  { typedef viennagrid::hexahedral_3d_mesh mesh; static std::vector<tuple_t> cells(int & nv) { int n = 1 + choose("cells", 3); nv = box_vertices(3, n); return choose_boxes(3, n, 2); } };
#define FOR_INCIDENCE_FAMILIES(NAME, FUNCTIONS) \
  CONTRACT(NAME##_lines, FUNCTIONS) { NAME<inc_line>(); } \
  CONTRACT(NAME##_triangles, FUNCTIONS) { NAME<inc_tri>(); } \
  CONTRACT(NAME##_surface_triangles, FUNCTIONS) { NAME<inc_tri3>(); } \
  CONTRACT(NAME##_tetrahedra, FUNCTIONS) { NAME<inc_tet>(); } \
  CONTRACT(NAME##_quadrilaterals, FUNCTIONS) { NAME<inc_quad>(); } \
  CONTRACT(NAME##_hexahedra, FUNCTIONS) { NAME<inc_hex>(); }
// a mesh with a segmentation of two segments; sel[s] lists the cells of segment s
template <typename M> struct SEG : TM<M>
{
  typedef typename viennagrid::result_of::segmentation<M>::type segmentation_type; typedef typename viennagrid::result_of::segment_handle<segmentation_type>::type segment_type;
  segmentation_type segs; std::vector<int> sel[2]; segment_type * s[2];
  std::vector<int> left[2];   // cells erased from the segment: their boundary elements stay in it
  SEG(SEG const & o, int) : TM<M>(o, typename TM<M>::copied()), segs(this->mesh) { s[0] = &segs.make_segment(); s[1] = &segs.make_segment(); }
  void erase_cell(int k, std::size_t j) { int cell = sel[k][j]; viennagrid::erase(*s[k], viennagrid::dereference_handle(this->mesh, this->c[cell])); sel[k].erase(sel[k].begin() + j); left[k].push_back(cell); }
  template <typename Tag> std::set<vset_t> in_segment(int k) const
  { std::set<vset_t> o = this->template model<Tag>(&sel[k]); if (int(Tag::dim) != int(TM<M>::cell_tag::dim)) { std::set<vset_t> l = this->template model<Tag>(&left[k]); o.insert(l.begin(), l.end()); } return o; }
  SEG() : segs(this->mesh) { s[0] = &segs.make_segment(); s[1] = &segs.make_segment(); }
  void put(int cell, int which) { for (int k = 0; k < 2; ++k) if (which & (1 << k)) { viennagrid::add(*s[k], viennagrid::dereference_handle(this->mesh, this->c[cell])); sel[k].push_back(cell); } }
};
// runs f over all histories: f(m, k) checks the state after step k; `queries` decides after which steps it is called (always after the last)
template <typename F, typename Check> void histories(Check & chk)
{
  SEG<typename F::mesh> m; int nv; std::vector<tuple_t> cells = F::cells(nv); m.add_vertices(nv);
  int n = (int)cells.size(), q = choose("queries", 1 << (n - 1)), segs = choose("segments", 2);
  for (int i = 0; i < n; ++i)
  {
    m.add_cell(cells[i]); if (segs) m.put(i, choose("segment", 4));
    if (i == n - 1 || (q & (1 << i))) chk(m);
  }
  // the state is now cached everywhere; what follows must not see it any more
  if (q == 0 && segs) { int k = choose("erase", 3) - 1; if (k >= 0) { requires_(!m.sel[k].empty()); m.erase_cell(k, choose("which", 2) ? 0 : m.sel[k].size() - 1); chk(m); } }
  if (q == 0 && !segs)
  {
    int then = choose("copy", 3);
    if (then == 1) { SEG<typename F::mesh> d(m, 0); chk(d); chk(m); }
    if (then == 2) { SEG<typename F::mesh> d; d.add_vertices(nv); d.add_cell(cells.back()); chk(d); d.check_owner = true; d.mesh = m.mesh; d.cells = m.cells; d.by_id = m.by_id; chk(d); chk(m); }
  }
  cover("end");
}
#endif
