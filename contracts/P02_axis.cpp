// KIND: bounded
// BOUND: the points with coordinates in {-2,-1,0,1,2} (including the axes and the origin, which the proof excludes), all pairs and triples of coordinate systems, arithmetic in every system with every pair of such points
// TIME: 60
// P02 on the coordinate axes and at the origin: conversions between any two systems preserve the location there, too.
#include "common.hpp"
#include "viennagrid/algorithm/inner_prod.hpp"
#include "viennagrid/algorithm/norm.hpp"
typedef viennagrid::spatial_point<real, viennagrid::polar_cs> PP;
typedef viennagrid::spatial_point<real, viennagrid::spherical_cs> PS;
typedef viennagrid::spatial_point<real, viennagrid::cylindrical_cs> PC;
template <typename P> P grid() { P p; for (std::size_t i = 0; i < p.size(); ++i) p[i] = real(choose("coordinate", 5) - 2); return p; }
template <typename P> bool close(P const & a, P const & b) { for (std::size_t i = 0; i < a.size(); ++i) if (!(std::fabs(a[i] - b[i]) < 1e-9)) return false; return true; }
template <typename C, typename A, typename B> void chain()
{
  C p = grid<C>(); A a(p); ensures_true("there", close(viennagrid::to_cartesian(a), p)); C back(a); ensures_true("and_back", close(back, p));
  B b(a); ensures_true("on_to_the_next", close(viennagrid::to_cartesian(b), p)); A again; again = b; ensures_true("assignment", close(viennagrid::to_cartesian(again), p)); cover("end");
}
template <typename C, typename A> void arithmetic()
{
  C p = grid<C>(), q = grid<C>(); A a(p), b(q);
  ensures_true("sum", close(viennagrid::to_cartesian(a + b), p + q)); ensures_true("difference", close(viennagrid::to_cartesian(a - b), p - q)); a += b; ensures_true("sum_in_place", close(viennagrid::to_cartesian(a), p + q));
  a -= b; ensures_true("difference_in_place", close(viennagrid::to_cartesian(a), p)); ensures_true("inner_product", std::fabs(viennagrid::inner_prod(a, b) - viennagrid::inner_prod(p, q)) < 1e-9); ensures_true("norm", std::fabs(viennagrid::norm(a) - viennagrid::norm(p)) < 1e-9); cover("end");
}
#define CONV "coordinate_converter; spatial_point::operator="
CONTRACT(polar, CONV) { chain<P2, PP, PP>(); }
CONTRACT(spherical, CONV) { chain<P3, PS, PC>(); }
CONTRACT(cylindrical, CONV) { chain<P3, PC, PS>(); }
CONTRACT(polar_arithmetic, "operator+; operator-; inner_prod; norm") { arithmetic<P2, PP>(); }
CONTRACT(spherical_arithmetic, "operator+; operator-; inner_prod; norm") { arithmetic<P3, PS>(); }
CONTRACT(cylindrical_arithmetic, "operator+; operator-; inner_prod; norm") { arithmetic<P3, PC>(); }
