// TIME: 300
// VC_TIMEOUT: 4000
// SMT_TIMEOUT: 20
// FRAGILE: yes
// P07 (proof part): a point and a tetrahedron, checked against the contract of closest_points_point_triangle.
#define STUB_TRIANGLE
#include "p07_stubs.hpp"
CONTRACT(point_tetrahedron, "closest_points(point, tetrahedron); closest_points_point_tetrahedron; point_pair_with_shortest_distance")
{
  calls.clear(); typedef viennagrid::tetrahedral_3d_mesh M; P3 o = P3(), a = sympoint<P3>("a"), b = sympoint<P3>("b"), c = sympoint<P3>("c"); real u = input("u"), v = input("v"), w = input("w"), D = det3(a, b, c);
  real aa = dotp(a, a), bb = dotp(b, b), cc = dotp(c, c); requires_(D != 0); requires_(D * D * D * D > real(1e-12) * aa * bb * cc);   // not "very thin" in the sense of the code
  P3 p = addp(mulp(a, u), addp(mulp(b, v), mulp(c, w)));
  std::vector<P3> x; x.push_back(o); x.push_back(a); x.push_back(b); x.push_back(c); one_cell<M> m(x);
  std::pair<P3, P3> r = viennagrid::closest_points(viennagrid::default_point_accessor(m.mesh), p, m.cell());
  ensures_point_eq("first_is_the_point", r.first, p); P3 q = r.second; real d = viennagrid::norm_2(r.first - r.second);
  bool inside = And(And(u >= 0, v >= 0), And(w >= 0, u + v + w <= 1));
  if (inside) { ensures_point_eq("inside_point_is_its_own_closest", q, p); cover("inside"); }
  else
  {
    static const int f[4][3] = { { 0,1,2 }, { 0,1,3 }, { 0,2,3 }, { 1,2,3 } };
    for (int k = 0; k < 4; ++k)
    {
      std::vector<P3> face; for (int j = 0; j < 3; ++j) face.push_back(x[f[k][j]]); int i = call_for(face);
      if (i >= 0)
      {
        P3 h = p, e = p; for (int j = 0; j < 3; ++j) { h[j] = calls[i].p[j]; e[j] = calls[i].q[j]; }
        ensures_point_eq("face_asked_for_the_point", h, p); ensures_le("closest_is_a_face_distance", d, viennagrid::norm_2(p - e));
      }
      else ensures_le("closest_is_a_face_distance", d, viennagrid::distance(p, viennagrid::triangles(m.cell())[k]));
    }
    cover("outside");
  }
}
