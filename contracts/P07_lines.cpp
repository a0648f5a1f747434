// TIME: 200
// VC_TIMEOUT: 4000
// SMT_TIMEOUT: 20
// FRAGILE: yes
// P07 (proof part): two lines and a point and a triangle, checked against the contract of closest_points_point_line.
#include "p07_stubs.hpp"
template <typename M> struct lines
{
  typedef typename viennagrid::result_of::point<M>::type P; typedef typename viennagrid::result_of::cell<M>::type C; M mesh;
  C & make(P const & a, P const & b) { typename viennagrid::result_of::vertex_handle<M>::type x = viennagrid::make_vertex(mesh, a), y = viennagrid::make_vertex(mesh, b); return viennagrid::dereference_handle(mesh, viennagrid::make_line(mesh, x, y)); }
};
template <typename P> void on_segment(char const * name, P const & q, P const & a, P const & b)
{
  P d = sub(b, a); real t = dotp(sub(q, a), d), l = dotp(d, d);
  ensures_le(name, 0, t); ensures_le(name, t, l); for (std::size_t i = 0; i < q.size(); ++i) ensures_eq(name, (q[i] - a[i]) * l, t * d[i]);
}
// distance of p to the line a-b: what the callee returned for it, or (if the code did not ask it) the real distance to a line element
template <typename M> real to_line(lines<M> & m, typename lines<M>::P const & p, typename lines<M>::P const & a, typename lines<M>::P const & b)
{
  typedef typename lines<M>::P P;
  for (std::size_t i = 0; i < calls.size(); ++i)
  {
    bool eq = true; for (std::size_t k = 0; k < p.size(); ++k) if (!same(calls[i].p[k], p[k]) || !same(calls[i].corners[k], a[k]) || !same(calls[i].corners[p.size() + k], b[k])) eq = false;
    if (eq) { P q = p; for (std::size_t k = 0; k < p.size(); ++k) q[k] = calls[i].q[k]; return viennagrid::norm_2(p - q); }
  }
  return viennagrid::distance(p, m.make(a, b));
}
template <typename M> void line_line(bool parallel)
{
  calls.clear(); lines<M> m; typedef typename lines<M>::P P; P v = sympoint<P>("v"), w = P(), o = P(), a = sympoint<P>("a"); real vv = dotp(v, v); requires_(vv > 0);
  if (parallel) { real k = input("k"); requires_(k != 0); w = mulp(v, k); } else w = sympoint<P>("w");
  real vw = dotp(v, w), ww = dotp(w, w), den = vv * ww - vw * vw;
  if (!parallel) { requires_(ww > 0); requires_(den > 0); requires_(den >= real(1e-6) * vv * ww); }
  P v1 = v, w0 = a, w1 = addp(a, w);
  typename lines<M>::C & V = m.make(o, v1); typename lines<M>::C & W = m.make(w0, w1);
  std::pair<P, P> r = viennagrid::closest_points(viennagrid::default_point_accessor(m.mesh), V, W);
  P e = sub(r.first, r.second); real x = viennagrid::norm_2(r.first - r.second);
  P c = sub(o, w0); real vc = dotp(v, c), wc = dotp(w, c), s = vw * wc - ww * vc, t = vv * wc - vw * vc;
  bool inside = false; if (!parallel) inside = And(And(s >= 0, s <= den), And(t >= 0, t <= den));
  if (inside) { ensures_eq("closest_is_mutual_perpendicular", dotp(e, v), 0); ensures_eq("closest_is_mutual_perpendicular", dotp(e, w), 0); cover("perpendicular"); }
  else
  {
    char const * n = parallel ? "closest_of_parallel_lines" : "closest_is_an_endpoint_distance";
    ensures_le(n, x, to_line(m, w0, o, v1)); ensures_le(n, x, to_line(m, w1, o, v1)); ensures_le(n, x, to_line(m, o, w0, w1)); ensures_le(n, x, to_line(m, v1, w0, w1)); cover("endpoint");
  }
  if (inside) for (std::size_t i = 0; i < v.size(); ++i) { ensures_eq("first_on_first_line", (r.first[i] - o[i]) * den, s * v[i]); ensures_eq("second_on_second_line", (r.second[i] - w0[i]) * den, t * w[i]); }   // 0 <= s, t <= den
  else { on_segment("first_on_first_line", r.first, o, v1); on_segment("second_on_second_line", r.second, w0, w1); }
}
#define LL "closest_points(line, line); closest_points_line_line; point_pair_with_shortest_distance"
CONTRACT(line_line_2d, LL) { line_line<viennagrid::line_2d_mesh>(false); }
CONTRACT(line_line_3d, LL) { line_line<viennagrid::line_3d_mesh>(false); }
CONTRACT(parallel_lines_2d, LL) { line_line<viennagrid::line_2d_mesh>(true); }
CONTRACT(parallel_lines_3d, LL) { line_line<viennagrid::line_3d_mesh>(true); }
