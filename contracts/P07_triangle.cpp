// TIME: 420
// VC_TIMEOUT: 4000
// SMT_TIMEOUT: 20
// FRAGILE: yes
// P07 (proof part): a point and a triangle, checked against the contract of closest_points_point_line.
#include "p07_stubs.hpp"
P2 off_plane(P2 const &, P2 const &) { return P2(0, 0); }
P3 off_plane(P3 const & a, P3 const & b) { return mulp(crossv(a, b), input("height")); }
template <typename M> void point_triangle()
{
  calls.clear(); typedef typename viennagrid::result_of::point<M>::type P; P o = P(), a = sympoint<P>("a"), b = sympoint<P>("b"); real s0 = input("s"), t0 = input("t");
  real aa = dotp(a, a), ab = dotp(a, b), bb = dotp(b, b), den = aa * bb - ab * ab;
  requires_(den > 0); requires_(den >= real(1e-6) * aa * bb);
  P p = addp(addp(mulp(a, s0), mulp(b, t0)), off_plane(a, b));      // any point: coordinates in the plane and the height above it
  real s = s0 * den, t = t0 * den;
  std::vector<P> v; v.push_back(o); v.push_back(a); v.push_back(b); one_cell<M> m(v);
  std::pair<P, P> r = viennagrid::closest_points(viennagrid::default_point_accessor(m.mesh), p, m.cell());
  ensures_point_eq("first_is_the_point", r.first, p); P q = r.second, e = sub(p, q); real x = viennagrid::norm_2(r.first - r.second);
  real qa = dotp(q, a), qb = dotp(q, b), qs = bb * qa - ab * qb, qt = aa * qb - ab * qa;
  bool inside = And(And(s0 >= 0, t0 >= 0), s0 + t0 <= 1);
  if (inside) { ensures_eq("closest_is_the_projection", dotp(e, a), 0); ensures_eq("closest_is_the_projection", dotp(e, b), 0); cover("projection"); }
  else
  {
    // p' = projection onto the plane: the point of an edge closest to p' is the one closest to p (Pythagoras)
    for (int k = 0; k < 3; ++k)
    {
      std::vector<P> c; c.push_back(v[k == 2 ? 1 : 0]); c.push_back(v[k == 0 ? 1 : 2]); int i = call_for(c);
      if (i >= 0)
      {
        P h = p, f = p; for (std::size_t j = 0; j < p.size(); ++j) { h[j] = calls[i].p[j]; f[j] = calls[i].q[j]; }
        ensures_eq("edge_asked_for_the_projection", dotp(sub(p, h), a), 0); ensures_eq("edge_asked_for_the_projection", dotp(sub(p, h), b), 0); 
        for (std::size_t j = 0; j < p.size(); ++j) ensures_eq("edge_asked_for_a_point_of_the_plane", h[j] * den, (bb * dotp(h, a) - ab * dotp(h, b)) * a[j] + (aa * dotp(h, b) - ab * dotp(h, a)) * b[j]);
        ensures_le("closest_is_an_edge_distance", x, viennagrid::norm_2(p - f));
      }
      else ensures_le("closest_is_an_edge_distance", x, viennagrid::distance(p, viennagrid::lines(m.cell())[k]));   // not asked (or the concrete build): the real distance
    }
    cover("edge");
  }
  if (inside) { for (std::size_t i = 0; i < q.size(); ++i) ensures_eq("second_on_the_triangle", q[i] * den, s * a[i] + t * b[i]); }   // 0 <= s, t, s + t <= den
  else
  {
    ensures_le("second_on_the_triangle", 0, qs); ensures_le("second_on_the_triangle", 0, qt); ensures_le("second_on_the_triangle", qs + qt, den);
    for (std::size_t i = 0; i < q.size(); ++i) ensures_eq("second_in_the_plane", q[i] * den, qs * a[i] + qt * b[i]);
  }
}
#define PT "closest_points(point, triangle); closest_points_point_triangle; point_pair_with_shortest_distance"
CONTRACT(point_triangle_2d, PT) { point_triangle<viennagrid::triangular_2d_mesh>(); }
CONTRACT(point_triangle_3d, PT) { point_triangle<viennagrid::triangular_3d_mesh>(); }
