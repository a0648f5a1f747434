// P08: is_inside decides exactly the barycentric criterion -- for every non-degenerate simplex and every point.
#include "onecell.hpp"
#include "viennagrid/algorithm/inclusion.hpp"

template <typename MeshT> void triangle()
{
  typedef typename viennagrid::result_of::point<MeshT>::type P;
  P o = sympoint<P>("o"), a = sympoint<P>("a"), b = sympoint<P>("b"); real u = input("u"), v = input("v");
  requires_(dotp(a,a)*dotp(b,b) - dotp(a,b)*dotp(a,b) > 0);
  std::vector<P> p; p.push_back(o); p.push_back(addp(o,a)); p.push_back(addp(o,b));
  P q = addp(o, addp(mulp(a,u), mulp(b,v)));
  one_cell<MeshT> m(p);
  int tol = choose("tolerance", 3);
  if (tol == 0)
  {
    bool in = viennagrid::is_inside(m.cell(), q, real(0));
    ensures("exact", Iff(sbool(in), And(u >= 0, v >= 0, u + v <= 1)));
    ensures_true("explicit_accessor", in == viennagrid::is_inside(viennagrid::default_point_accessor(m.mesh), m.cell(), q, real(0)));
    if (in) cover("inside"); else cover("outside");
  }
  else
  {
    // default tolerance, or any tolerance e >= 0: inside points are accepted, points more than 2e outside are rejected
    real t = 1e-12; bool in;
    if (tol == 1) in = viennagrid::is_inside(m.cell(), q);
    else { real e = input("e"); requires_(e >= 0); in = viennagrid::is_inside(m.cell(), q, e); t = real(2) * e; }
    ensures("inside_points_accepted", Implies(And(u >= 0, v >= 0, u + v <= 1), sbool(in)));
    ensures("outside_points_rejected", Implies(Or(u < -t, v < -t, u + v > real(1) + t), sbool(!in)));
    cover("default");
  }
}
CONTRACT(inside_triangle_2d, "viennagrid::is_inside(triangle) in 2d") { triangle<viennagrid::triangular_2d_mesh>(); }
CONTRACT(inside_triangle_3d, "viennagrid::is_inside(triangle) in 3d, points of its plane") { triangle<viennagrid::triangular_3d_mesh>(); }
CONTRACT(inside_tetrahedron, "viennagrid::is_inside(tetrahedron)")
{
  P3 o = sympoint<P3>("o"), a = sympoint<P3>("a"), b = sympoint<P3>("b"), c = sympoint<P3>("c"); real u = input("u"), v = input("v"), w = input("w");
  requires_(det3(a, b, c) != 0);
  std::vector<P3> p; p.push_back(o); p.push_back(addp(o,a)); p.push_back(addp(o,b)); p.push_back(addp(o,c));
  P3 q = addp(o, addp(mulp(a,u), addp(mulp(b,v), mulp(c,w))));
  one_cell<viennagrid::tetrahedral_3d_mesh> m(p);
  int tol = choose("tolerance", 3);
  if (tol == 0)
  {
    bool in = viennagrid::is_inside(m.cell(), q, real(0));
    ensures("exact", Iff(sbool(in), And(And(u >= 0, v >= 0), And(w >= 0, u + v + w <= 1))));
    if (in) cover("inside"); else cover("outside");
  }
  else
  {
    // default tolerance, or any tolerance e >= 0: inside points are accepted, points more than 2e outside are rejected
    real t = 1e-12; bool in;
    if (tol == 1) in = viennagrid::is_inside(m.cell(), q);
    else { real e = input("e"); requires_(e >= 0); in = viennagrid::is_inside(m.cell(), q, e); t = real(2) * e; }
    ensures("inside_points_accepted", Implies(And(And(u >= 0, v >= 0), And(w >= 0, u + v + w <= 1)), sbool(in)));
    ensures("outside_points_rejected", Implies(Or(Or(u < -t, v < -t), Or(w < -t, u + v + w > real(1) + t)), sbool(!in)));
    cover("default");
  }
}
