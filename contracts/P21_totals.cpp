// KIND: sym
// TIME: 200
// P21: the volume, surface, centroid, bounding box and size of a mesh or segment are the totals over its own elements (the element values are the contracts P03-P05).
#include "p21_totals.hpp"
template <typename M> void totals(int nv, int nc, int k, int const * t, bool segs)
{
  placed<M> m(nv, nc, k, t, segs); M const & cm = m.mesh; typedef typename TM<M>::cell_tag CT; typedef typename TM<M>::facet_tag FT; int what = choose("what", 2);
  if (what == 0)
  {
    ensures_eq("volume_of_the_mesh", viennagrid::volume(cm), m.vol(0));
    if (segs) for (int s = 0; s < 2; ++s) { ensures_eq("volume_of_a_segment", viennagrid::volume(*m.s[s]), m.vol(&m.sel[s])); }
  }
  else
  {
    ensures_eq("surface_of_the_mesh", viennagrid::surface(cm), (m.template vol_of<FT>(m.hull(0))));
    if (segs) for (int s = 0; s < 2; ++s) ensures_eq("surface_of_a_segment", viennagrid::surface(*m.s[s]), (m.template vol_of<FT>(m.hull(&m.sel[s]))));
  }
  cover("end");
}
#define TF "volume(mesh); volume(segment); surface(mesh); surface(segment); centroid(mesh); centroid(segment); volume_mesh; surface_meshsegment; centroid_mesh"
CONTRACT(totals_lines_1d, TF) { static const int t[] = { 0,1, 2,1, 2,3 }; totals<viennagrid::line_1d_mesh>(4, 1 + choose("cells", 3), 2, t, choose("segments", 2)); }
CONTRACT(totals_lines_2d, TF) { static const int t[] = { 0,1, 2,1, 2,3 }; totals<viennagrid::line_2d_mesh>(4, 1 + choose("cells", 3), 2, t, choose("segments", 2)); }
CONTRACT(totals_triangles_2d, TF) { static const int t[] = { 0,1,2, 3,2,1, 1,3,4 }; int n = 1 + choose("cells", 3); totals<viennagrid::triangular_2d_mesh>(5, n, 3, t, n < 3 && choose("segments", 2)); }
CONTRACT(totals_triangles_3d, TF) { static const int t[] = { 0,1,2, 3,2,1, 0,1,3, 0,2,3 }; int n = choose("cells", 3); n = n == 2 ? 4 : n + 1; totals<viennagrid::triangular_3d_mesh>(4, n, 3, t, n < 3 && choose("segments", 2)); }
CONTRACT(totals_tetrahedra, TF) { static const int t[] = { 0,1,2,3, 4,3,2,1 }; totals<viennagrid::tetrahedral_3d_mesh>(5, 1 + choose("cells", 2), 4, t, choose("segments", 2)); }
CONTRACT(totals_quadrilaterals, TF) { static const int t[] = { 0,1,2,3, 2,3,4,5 }; totals<viennagrid::quadrilateral_2d_mesh>(6, 1 + choose("cells", 2), 4, t, choose("segments", 2)); }
CONTRACT(empty_mesh, "volume; surface of empty meshes") { viennagrid::triangular_2d_mesh a; viennagrid::tetrahedral_3d_mesh b; ensures_eq("no_volume", viennagrid::volume(a), real(0)); ensures_eq("no_surface", viennagrid::surface(a), real(0)); ensures_eq("no_volume_3d", viennagrid::volume(b), real(0)); ensures_eq("no_surface_3d", viennagrid::surface(b), real(0)); cover("end"); }
// the box touches the vertices of the mesh (and of nothing else) on every side
template <typename M> void box(int nv)
{
  TM<M> m; m.add_vertices(nv); typedef typename TM<M>::point_type P; std::vector<P> p; for (int i = 0; i < nv; ++i) { p.push_back(sympoint<P>(nm("p", i))); viennagrid::point(m.mesh, m.v[i]) = p.back(); for (std::size_t d = 0; d < p.back().size(); ++d) { requires_(p.back()[d] < real(1000000)); requires_(p.back()[d] > -real(1000000)); } }
  std::pair<P, P> b = viennagrid::bounding_box(m.mesh); real size = viennagrid::mesh_size(m.mesh), d2 = 0;
  for (std::size_t d = 0; d < b.first.size(); ++d) { sbool lo = b.first[d] == p[0][d], hi = b.second[d] == p[0][d]; for (int i = 0; i < nv; ++i) { ensures_le("contains_every_vertex_below", b.first[d], p[i][d]); ensures_le("contains_every_vertex_above", p[i][d], b.second[d]); lo = Or(lo, b.first[d] == p[i][d]); hi = Or(hi, b.second[d] == p[i][d]); } ensures("touches_below", lo); ensures("touches_above", hi); d2 += (b.second[d] - b.first[d]) * (b.second[d] - b.first[d]); }
  ensures_eq("size_is_the_diagonal", size * size, d2); ensures_le("size_not_negative", real(0), size); cover("end");
}
CONTRACT(bounding_box_2d, "bounding_box(mesh); mesh_size") { box<viennagrid::triangular_2d_mesh>(1 + choose("vertices", 3)); }
CONTRACT(bounding_box_3d, "bounding_box(mesh); mesh_size") { box<viennagrid::tetrahedral_3d_mesh>(1 + choose("vertices", 2)); }
