// P06: the circumcenter is equidistant from all vertices and lies in the affine hull -- for every non-degenerate element.
#include "onecell.hpp"
#include "viennagrid/algorithm/circumcenter.hpp"

template <typename P> real d2(P const & a, P const & b) { return dotp(sub(a,b), sub(a,b)); }
template <typename MeshT> void line()
{
  typedef typename viennagrid::result_of::point<MeshT>::type P;
  std::vector<P> p = sympoints<P>(2); one_cell<MeshT> m(p); P c = viennagrid::circumcenter(m.cell());
  ensures_point_eq("midpoint", mulp(c, real(2)), addp(p[0], p[1]));
  cover("end");
}
CONTRACT(circumcenter_line, "viennagrid::circumcenter(line)") { switch (choose("dim",3)) { case 0: line<viennagrid::line_1d_mesh>(); break; case 1: line<viennagrid::line_2d_mesh>(); break; default: line<viennagrid::line_3d_mesh>(); } }
CONTRACT(circumcenter_triangle_2d, "viennagrid::circumcenter(triangle) in 2d")
{
  P2 o = sympoint<P2>("o"), a = sympoint<P2>("a"), b = sympoint<P2>("b");
  requires_(det2(a, b) != 0);
  std::vector<P2> p; p.push_back(o); p.push_back(addp(o,a)); p.push_back(addp(o,b));
  one_cell<viennagrid::triangular_2d_mesh> m(p);
  P2 c = viennagrid::circumcenter(m.cell());
  ensures_eq("equidistant_01", d2(c,p[0]), d2(c,p[1])); ensures_eq("equidistant_02", d2(c,p[0]), d2(c,p[2]));
  ensures_point_eq("explicit_accessor", viennagrid::circumcenter(viennagrid::default_point_accessor(m.mesh), m.cell()), c);
  cover("end");
}
CONTRACT(circumcenter_triangle_3d, "viennagrid::circumcenter(triangle) in 3d")
{
  P3 o = sympoint<P3>("o"), a = sympoint<P3>("a"), b = sympoint<P3>("b");
  P3 n = crossv(a, b); requires_(dotp(n, n) > 0);
  std::vector<P3> p; p.push_back(o); p.push_back(addp(o,a)); p.push_back(addp(o,b));
  one_cell<viennagrid::triangular_3d_mesh> m(p);
  P3 c = viennagrid::circumcenter(m.cell());
  P3 r = sub(c, o);
  ensures_eq("in_plane", dotp(r, n), 0);
  ensures_eq("equidistant_01", real(2) * dotp(r, a), dotp(a, a));
  ensures_eq("equidistant_02", real(2) * dotp(r, b), dotp(b, b));
  cover("end");
}
CONTRACT(circumcenter_tetrahedron, "viennagrid::circumcenter(tetrahedron)")
{
  P3 o = sympoint<P3>("o"), a = sympoint<P3>("a"), b = sympoint<P3>("b"), e = sympoint<P3>("e");
  real v = det3(a, b, e); requires_(v != 0);
  std::vector<P3> p; p.push_back(o); p.push_back(addp(o,a)); p.push_back(addp(o,b)); p.push_back(addp(o,e));
  one_cell<viennagrid::tetrahedral_3d_mesh> m(p);
  P3 n = crossv(b, e);
  try
  {
    P3 c = viennagrid::circumcenter(m.cell());
    P3 r = sub(c, o);
    ensures_eq("equidistant_01", real(2) * dotp(r, a), dotp(a, a));
    ensures_eq("equidistant_02", real(2) * dotp(r, b), dotp(b, b));
    ensures_eq("equidistant_03", real(2) * dotp(r, e), dotp(e, e));
    cover("computed");
  }
  catch (std::runtime_error &)
  {
    // refusing is allowed only for numerically degenerate tetrahedra
    ensures_le("throws_only_when_near_singular", v * v, real(1e-16) * dotp(n, n));
    cover("refused");
  }
}
template <typename MeshT, int d> void box()
{
  typedef typename viennagrid::result_of::point<MeshT>::type P;
  P p0 = sympoint<P>("p0"); P e[3]; e[0] = sympoint<P>("u"); e[1] = sympoint<P>("v"); if (d == 3) e[2] = sympoint<P>("w");
  std::vector<P> p; P mid = p0;
  for (int k = 0; k < d; ++k) mid = addp(mid, mulp(e[k], real(1)/real(2)));
  for (int i = 0; i < (1 << d); ++i) { P q = p0; for (int k = 0; k < d; ++k) if (i & (1 << k)) q = addp(q, e[k]); p.push_back(q); }
  one_cell<MeshT> m(p);
  ensures_point_eq("center_of_box", viennagrid::circumcenter(m.cell()), mid);   // equidistant whenever the box is rectangular
  cover("end");
}
CONTRACT(circumcenter_quadrilateral, "viennagrid::circumcenter(quadrilateral) on rectangles") { if (choose("dim",2)) box<viennagrid::quadrilateral_2d_mesh,2>(); else box<viennagrid::quadrilateral_3d_mesh,2>(); }
CONTRACT(circumcenter_hexahedron, "viennagrid::circumcenter(hexahedron) on cuboids") { box<viennagrid::hexahedral_3d_mesh,3>(); }
