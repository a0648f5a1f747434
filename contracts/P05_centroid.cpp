// P05: centroid of every element kind -- for every coordinate assignment.
#include "onecell.hpp"
#include "viennagrid/algorithm/centroid.hpp"

template <typename MeshT, int n> void simplex()
{
  typedef typename viennagrid::result_of::point<MeshT>::type P;
  std::vector<P> p = sympoints<P>(n); one_cell<MeshT> m(p);
  P c = viennagrid::centroid(m.cell());
  P s = p[0]; for (int i = 1; i < n; ++i) s = addp(s, p[i]);
  ensures_point_eq("barycenter", mulp(c, real(n)), s);
  ensures_point_eq("explicit_accessor", viennagrid::centroid(viennagrid::default_point_accessor(m.mesh), m.cell()), c);
  cover("end");
}
CONTRACT(centroid_line, "viennagrid::centroid(line)") { switch (choose("dim",3)) { case 0: simplex<viennagrid::line_1d_mesh,2>(); break; case 1: simplex<viennagrid::line_2d_mesh,2>(); break; default: simplex<viennagrid::line_3d_mesh,2>(); } }
CONTRACT(centroid_triangle, "viennagrid::centroid(triangle)") { if (choose("dim",2)) simplex<viennagrid::triangular_2d_mesh,3>(); else simplex<viennagrid::triangular_3d_mesh,3>(); }
CONTRACT(centroid_tetrahedron, "viennagrid::centroid(tetrahedron)") { simplex<viennagrid::tetrahedral_3d_mesh,4>(); }
template <typename MeshT, int d> void box()
{
  typedef typename viennagrid::result_of::point<MeshT>::type P;
  P p0 = sympoint<P>("p0"); P e[3]; e[0] = sympoint<P>("u"); e[1] = sympoint<P>("v"); if (d == 3) e[2] = sympoint<P>("w");
  std::vector<P> p; P mid = p0;
  for (int k = 0; k < d; ++k) mid = addp(mid, mulp(e[k], real(1)/real(2)));
  for (int i = 0; i < (1 << d); ++i) { P q = p0; for (int k = 0; k < d; ++k) if (i & (1 << k)) q = addp(q, e[k]); p.push_back(q); }
  one_cell<MeshT> m(p);
  ensures_point_eq("center", viennagrid::centroid(m.cell()), mid);
  cover("end");
}
CONTRACT(centroid_quadrilateral, "viennagrid::centroid(quadrilateral) on parallelograms") { if (choose("dim",2)) box<viennagrid::quadrilateral_2d_mesh,2>(); else box<viennagrid::quadrilateral_3d_mesh,2>(); }
CONTRACT(centroid_hexahedron, "viennagrid::centroid(hexahedron) on parallelepipeds") { box<viennagrid::hexahedral_3d_mesh,3>(); }
CONTRACT(centroid_vertex, "viennagrid::centroid(vertex)")
{ std::vector<P3> p = sympoints<P3>(2); one_cell<viennagrid::line_3d_mesh> m(p); ensures_point_eq("location", viennagrid::centroid(viennagrid::dereference_handle(m.mesh, m.v[1])), p[1]); cover("end"); }
