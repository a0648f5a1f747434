// P04: surface(element) is the sum of the measures of the documented facets -- for every coordinate assignment.
#include "onecell.hpp"
#include "viennagrid/algorithm/volume.hpp"
#include "viennagrid/algorithm/surface.hpp"

template <typename P> real len(P const & a, P const & b) { return sqrt(dotp(sub(a,b), sub(a,b))); }
static real area(P3 const & a, P3 const & b, P3 const & c) { P3 x = crossv(sub(b,a), sub(c,a)); return sqrt(dotp(x,x)) / real(2); }

template <typename MeshT, typename P> void tri()
{
  std::vector<P> p = sympoints<P>(3); one_cell<MeshT> m(p);
  ensures_eq("perimeter", viennagrid::surface(m.cell()), len(p[0],p[1]) + len(p[0],p[2]) + len(p[1],p[2]));
  ensures_eq("explicit_accessor", viennagrid::surface(viennagrid::default_point_accessor(m.mesh), m.cell()), viennagrid::surface(m.cell()));
  cover("end");
}
template <typename MeshT, typename P> void quad()
{
  std::vector<P> p = sympoints<P>(4); one_cell<MeshT> m(p);
  ensures_eq("perimeter", viennagrid::surface(m.cell()), len(p[0],p[1]) + len(p[0],p[2]) + len(p[1],p[3]) + len(p[2],p[3]));
  cover("end");
}
CONTRACT(surface_triangle_2d, "viennagrid::surface(triangle)") { tri<viennagrid::triangular_2d_mesh, P2>(); }
CONTRACT(surface_triangle_3d, "viennagrid::surface(triangle)") { tri<viennagrid::triangular_3d_mesh, P3>(); }
CONTRACT(surface_quad_2d, "viennagrid::surface(quadrilateral)") { quad<viennagrid::quadrilateral_2d_mesh, P2>(); }
CONTRACT(surface_quad_3d, "viennagrid::surface(quadrilateral)") { quad<viennagrid::quadrilateral_3d_mesh, P3>(); }
CONTRACT(surface_line, "viennagrid::surface(line)")
{ std::vector<P2> p = sympoints<P2>(2); one_cell<viennagrid::line_2d_mesh> m(p); ensures_eq("two_vertices", viennagrid::surface(m.cell()), 2); cover("end"); }
CONTRACT(surface_tetrahedron, "viennagrid::surface(tetrahedron)")
{
  std::vector<P3> p = sympoints<P3>(4); one_cell<viennagrid::tetrahedral_3d_mesh> m(p);
  ensures_eq("four_faces", viennagrid::surface(m.cell()), area(p[0],p[1],p[2]) + area(p[0],p[1],p[3]) + area(p[0],p[2],p[3]) + area(p[1],p[2],p[3]));
  cover("end");
}
CONTRACT(surface_hexahedron, "viennagrid::surface(hexahedron)")
{
  P3 p0 = sympoint<P3>("p0"), u = sympoint<P3>("u"), v = sympoint<P3>("v"), w = sympoint<P3>("w");
  std::vector<P3> p;
  for (int i = 0; i < 8; ++i) { P3 q = p0; if (i & 1) q = addp(q, u); if (i & 2) q = addp(q, v); if (i & 4) q = addp(q, w); p.push_back(q); }
  one_cell<viennagrid::hexahedral_3d_mesh> m(p);
  P3 a = crossv(u,v), b = crossv(u,w), c = crossv(v,w);
  ensures_eq("parallelepiped_faces", viennagrid::surface(m.cell()), real(2) * (sqrt(dotp(a,a)) + sqrt(dotp(b,b)) + sqrt(dotp(c,c))));
  cover("end");
}
