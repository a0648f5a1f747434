// TIME: 240
// VC_TIMEOUT: 3000
// SMT_TIMEOUT: 15
// P07 (proof part): closest points satisfy the optimality conditions, for all coordinates. "closest" is decided by the variational
// inequality of the projection onto a convex set: q is the point of K closest to p iff q in K and <p-q, x-q> <= 0 for the corners x of K.
#include "onecell.hpp"
#include "viennagrid/algorithm/closest_points.hpp"
#include "viennagrid/algorithm/distance.hpp"
template <typename M> struct lines
{
  typedef typename viennagrid::result_of::point<M>::type P; typedef typename viennagrid::result_of::cell<M>::type C;
  M mesh; typedef typename viennagrid::result_of::cell_handle<M>::type H;
  C & make(P const & a, P const & b) { typename viennagrid::result_of::vertex_handle<M>::type x = viennagrid::make_vertex(mesh, a), y = viennagrid::make_vertex(mesh, b); return viennagrid::dereference_handle(mesh, viennagrid::make_line(mesh, x, y)); }
};
template <typename P> void on_segment(char const * name, P const & q, P const & a, P const & b)
{
  P d = sub(b, a); real t = dotp(sub(q, a), d), l = dotp(d, d);
  ensures(name, And(t >= 0, t <= l)); for (std::size_t i = 0; i < q.size(); ++i) ensures_eq(name, (q[i] - a[i]) * l, t * d[i]);
}
template <typename M> void point_line()
{
  lines<M> m; typedef typename lines<M>::P P; P a = P(), d = sympoint<P>("d"), p = sympoint<P>("p"), o = sympoint<P>("o"); requires_(dotp(d, d) > 0); a = o; P b = addp(o, d); p = addp(o, p);
  typename lines<M>::C & l = m.make(a, b);
  std::pair<P, P> r = viennagrid::closest_points(viennagrid::default_point_accessor(m.mesh), p, l);
  ensures_point_eq("first_is_the_point", r.first, p); on_segment("second_on_the_line", r.second, a, b);
  P pq = sub(p, r.second); ensures_le("closest", dotp(pq, sub(a, r.second)), 0); ensures_le("closest", dotp(pq, sub(b, r.second)), 0);
  real x = viennagrid::distance(p, l); ensures_eq("distance", x * x, dotp(pq, pq)); ensures_le("distance_not_negative", 0, x);
  ensures_eq("symmetric", viennagrid::distance(l, p), x); cover("end");
}
CONTRACT(point_line_1d, "closest_points(point, line); closest_points_point_line; distance(point, line)") { point_line<viennagrid::line_1d_mesh>(); }
CONTRACT(point_line_2d, "closest_points(point, line); closest_points_point_line; distance(point, line)") { point_line<viennagrid::line_2d_mesh>(); }
CONTRACT(point_line_3d, "closest_points(point, line); closest_points_point_line; distance(point, line)") { point_line<viennagrid::line_3d_mesh>(); }
