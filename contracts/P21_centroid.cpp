// KIND: bounded
// BOUND: meshes of 1 to 3 lines, 1 to 4 triangles, 1 or 2 tetrahedra or quadrilaterals with all assignments to two segments; 24 pseudo-random placements each
// TIME: 60
// PER_LEAF: 24
// P21: the centroid of a mesh or segment is the volume-weighted mean of the centroids of its cells (in doubles: the code initialises a point from an integer literal, which the symbolic scalar cannot follow).
#include "p21_totals.hpp"
template <typename M> void centroids(int nv, int nc, int k, int const * t, bool segs)
{
  placed<M> m(nv, nc, k, t, segs); M const & cm = m.mesh;
    for (int s = -1; s < (segs ? 2 : 0); ++s)
    {
      std::vector<int> const * sel = s < 0 ? 0 : &m.sel[s]; if (sel && sel->empty()) continue; real v = m.vol(sel); requires_(v > real(0)); typedef typename TM<M>::point_type P; P w; for (std::size_t d = 0; d < w.size(); ++d) w[d] = 0;
      for (std::size_t i = 0; i < m.c.size(); ++i) if (!sel || std::count(sel->begin(), sel->end(), (int)i)) { typename TM<M>::cell_type const & c = viennagrid::dereference_handle(m.mesh, m.c[i]); w = addp(w, mulp(viennagrid::centroid(c), viennagrid::volume(c))); }
      P g = s < 0 ? viennagrid::centroid(cm) : viennagrid::centroid(*m.s[s]); for (std::size_t d = 0; d < w.size(); ++d) ensures_eq("centroid_is_the_weighted_mean", g[d] * v, w[d]);

    }
  cover("end");
}
#define TF "centroid(mesh); centroid(segment); centroid_mesh"
CONTRACT(centroids_lines_1d, TF) { static const int t[] = { 0,1, 2,1, 2,3 }; centroids<viennagrid::line_1d_mesh>(4, 1 + choose("cells", 3), 2, t, choose("segments", 2)); }
CONTRACT(centroids_lines_2d, TF) { static const int t[] = { 0,1, 2,1, 2,3 }; centroids<viennagrid::line_2d_mesh>(4, 1 + choose("cells", 3), 2, t, choose("segments", 2)); }
CONTRACT(centroids_triangles_2d, TF) { static const int t[] = { 0,1,2, 3,2,1, 1,3,4 }; int n = 1 + choose("cells", 3); centroids<viennagrid::triangular_2d_mesh>(5, n, 3, t, n < 3 && choose("segments", 2)); }
CONTRACT(centroids_triangles_3d, TF) { static const int t[] = { 0,1,2, 3,2,1, 0,1,3, 0,2,3 }; int n = choose("cells", 3); n = n == 2 ? 4 : n + 1; centroids<viennagrid::triangular_3d_mesh>(4, n, 3, t, n < 3 && choose("segments", 2)); }
CONTRACT(centroids_tetrahedra, TF) { static const int t[] = { 0,1,2,3, 4,3,2,1 }; centroids<viennagrid::tetrahedral_3d_mesh>(5, 1 + choose("cells", 2), 4, t, choose("segments", 2)); }
CONTRACT(centroids_quadrilaterals, TF) { static const int t[] = { 0,1,2,3, 2,3,4,5 }; centroids<viennagrid::quadrilateral_2d_mesh>(6, 1 + choose("cells", 2), 4, t, choose("segments", 2)); }
