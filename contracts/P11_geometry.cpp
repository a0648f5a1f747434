// P11: bounding boxes, normals, determinants and orthogonalisation -- for every input.
#include "onecell.hpp"
#include "viennagrid/algorithm/geometry.hpp"
#include "viennagrid/algorithm/volume.hpp"

CONTRACT(determinant, "viennagrid::determinant (1,2,3 columns)")
{
  P1 x = sympoint<P1>("x"); ensures_eq("det1", viennagrid::determinant(x), x[0]);
  P2 a = sympoint<P2>("a"), b = sympoint<P2>("b"); ensures_eq("det2", viennagrid::determinant(a,b), det2(a,b));
  P3 u = sympoint<P3>("u"), v = sympoint<P3>("v"), w = sympoint<P3>("w"); ensures_eq("det3", viennagrid::determinant(u,v,w), det3(u,v,w));
  cover("end");
}
CONTRACT(normal_line, "viennagrid::normal_vector(line) in 2d")
{
  std::vector<P2> p = sympoints<P2>(2); one_cell<viennagrid::line_2d_mesh> m(p);
  P2 n = viennagrid::normal_vector(m.cell()), d = sub(p[1], p[0]);
  ensures_eq("orthogonal", dotp(n, d), 0); ensures_eq("length", dotp(n,n), dotp(d,d)); ensures_eq("left_side", det2(d, n), dotp(d, d));
  cover("end");
}
CONTRACT(normal_triangle, "viennagrid::normal_vector(triangle) in 3d")
{
  std::vector<P3> p = sympoints<P3>(3); one_cell<viennagrid::triangular_3d_mesh> m(p);
  P3 n = viennagrid::normal_vector(m.cell()), a = sub(p[1],p[0]), b = sub(p[2],p[0]);
  ensures_eq("orthogonal", dotp(n, a), 0); ensures_eq("orthogonal", dotp(n, b), 0);
  ensures_eq("length_is_twice_area", dotp(n,n), gram2(p[0],p[1],p[2])); ensures_eq("right_handed", det3(a, b, n), dotp(n,n));
  cover("end");
}
CONTRACT(normal_quadrilateral, "viennagrid::normal_vector(quadrilateral) in 3d")
{
  P3 p0 = sympoint<P3>("p0"), u = sympoint<P3>("u"), w = sympoint<P3>("w"); real s = input("s"), t = input("t");
  std::vector<P3> p; p.push_back(p0); p.push_back(addp(p0,u)); p.push_back(addp(p0,w)); p.push_back(addp(p0, addp(mulp(u,s), mulp(w,t))));
  one_cell<viennagrid::quadrilateral_3d_mesh> m(p);
  P3 n = viennagrid::normal_vector(m.cell());
  for (int i = 1; i < 4; ++i) ensures_eq("orthogonal", dotp(n, sub(p[i], p[0])), 0);
  ensures_eq("right_handed", det3(u, w, n), dotp(n, n));
  P3 x = crossv(u, w); ensures("nonzero_when_nondegenerate", Implies(dotp(x,x) > 0, dotp(n,n) > 0));
  cover("end");
}
template <typename P> void bbox()
{
  int n = 1 + choose("n", 3); std::vector<P> p = sympoints<P>(n);
  for (int i = 0; i < n; ++i) for (std::size_t k = 0; k < p[i].size(); ++k) requires_(And(p[i][k] <= real(1e300), p[i][k] >= real(-1e300)));
  std::pair<P,P> b = viennagrid::bounding_box(p.begin(), p.end());
  for (std::size_t k = 0; k < b.first.size(); ++k)
  {
    sbool lo = sbool(false), hi = sbool(false);
    for (int i = 0; i < n; ++i) { ensures("contains", And(b.first[k] <= p[i][k], p[i][k] <= b.second[k])); lo = Or(lo, b.first[k] == p[i][k]); hi = Or(hi, b.second[k] == p[i][k]); }
    ensures("tight_lower", lo); ensures("tight_upper", hi);
  }
  cover("end");
}
CONTRACT(bounding_box_points_1d, "viennagrid::bounding_box(iterators), 1..3 points in 1d") { bbox<P1>(); }
CONTRACT(bounding_box_points_2d, "viennagrid::bounding_box(iterators), 1..3 points in 2d") { bbox<P2>(); }
CONTRACT(bounding_box_mesh, "viennagrid::bounding_box(mesh); viennagrid::mesh_size")
{
  std::vector<P2> p = sympoints<P2>(3);
  for (int i = 0; i < 3; ++i) for (int k = 0; k < 2; ++k) requires_(And(p[i][k] <= real(1e300), p[i][k] >= real(-1e300)));
  one_cell<viennagrid::triangular_2d_mesh> m(p);
  std::pair<P2,P2> b = viennagrid::bounding_box(m.mesh);
  for (int k = 0; k < 2; ++k)
  {
    sbool lo = sbool(false), hi = sbool(false);
    for (int i = 0; i < 3; ++i) { ensures("contains", And(b.first[k] <= p[i][k], p[i][k] <= b.second[k])); lo = Or(lo, b.first[k] == p[i][k]); hi = Or(hi, b.second[k] == p[i][k]); }
    ensures("tight_lower", lo); ensures("tight_upper", hi);
  }
  real s = viennagrid::mesh_size(m.mesh);
  ensures_eq("mesh_size_is_diagonal", s*s, dotp(sub(b.second,b.first), sub(b.second,b.first))); ensures("mesh_size_nonneg", s >= 0);
  cover("end");
}
// Gram-Schmidt: with tolerance eps -> the independent prefix is pairwise orthogonal, spans the same space, count = rank
CONTRACT(orthogonalize_vector, "viennagrid::orthogonalize_vector")
{
  P3 a = sympoint<P3>("a"), v = sympoint<P3>("v"); requires_(dotp(a,a) > 0);
  P3 w = viennagrid::orthogonalize_vector(&a, &a + 1, v);
  ensures_eq("orthogonal", dotp(w, a), 0);
  P3 d = sub(v, w); P3 x = crossv(d, a); ensures_point_eq("differs_by_multiple", x, P3());
  cover("end");
}
CONTRACT(orthogonalize_pair, "viennagrid::orthogonalize (two vectors in 2d)")
{
  P2 v[2]; v[0] = sympoint<P2>("a"); v[1] = sympoint<P2>("b"); P2 a = v[0], b = v[1];
  real e = input("e"); requires_(e > 0);
  requires_(dotp(a,a) > 0); 
  std::size_t n = viennagrid::orthogonalize(v, v + 2, e);
  real na = (a[0] < 0 ? -a[0] : a[0]) + (a[1] < 0 ? -a[1] : a[1]);
  if (n == 2) { ensures_eq("orthogonal", dotp(v[0], v[1]), 0); ensures_eq("area_preserved", det2(v[0], v[1]), det2(a, b)); ensures_point_eq("first_kept", v[0], a); cover("independent"); }
  else
  {
    ensures_true("count", n == 0 || n == 1);
    real n0 = (v[0][0] < 0 ? -v[0][0] : v[0][0]) + (v[0][1] < 0 ? -v[0][1] : v[0][1]);
    real n1 = (v[1][0] < 0 ? -v[1][0] : v[1][0]) + (v[1][1] < 0 ? -v[1][1] : v[1][1]);
    if (n == 1) { ensures("dependent_vector_moved_to_end", And(n1 < e, n0 >= e)); cover("dependent"); }
    if (n == 0) ensures("both_small", And(n0 < e, n1 < e));
  }
  (void)na;
}
// three vectors: the step contract (orthogonalize_vector against an orthogonal pair) is what the loop of orthogonalize() relies on
CONTRACT(orthogonalize_vector_pair, "viennagrid::orthogonalize_vector (against an orthogonal pair)")
{
  P3 a[2]; a[0] = sympoint<P3>("a"); a[1] = sympoint<P3>("b"); P3 v = sympoint<P3>("v");
  requires_(dotp(a[0],a[0]) > 0); requires_(dotp(a[1],a[1]) > 0); requires_(a[0][0] != 0);
  a[1][0] = -(a[0][1]*a[1][1] + a[0][2]*a[1][2]) / a[0][0];          // a[1] orthogonal to a[0] (a0.x != 0 w.l.o.g.)
  requires_(dotp(a[1],a[1]) > 0);
  P3 w = viennagrid::orthogonalize_vector(a, a + 2, v);
  ensures_eq("orthogonal_first", dotp(w, a[0]), 0); ensures_eq("orthogonal_second", dotp(w, a[1]), 0);
  ensures_eq("differs_by_span", det3(sub(v, w), a[0], a[1]), 0);
  cover("end");
}
