// Shared vocabulary of the contract harnesses. Only the public API of the library is used where it exists.
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include "../engine/vsym.hpp"
#include "viennagrid/forwards.hpp"
#include "viennagrid/config/default_configs.hpp"
#include "viennagrid/point.hpp"
#include "viennagrid/mesh/element_creation.hpp"
#include "viennagrid/mesh/mesh_operations.hpp"

using vsym::real; using vsym::sbool; using vsym::And; using vsym::Or; using vsym::Not; using vsym::Implies; using vsym::Iff;
using vsym::requires_; using vsym::ensures; using vsym::ensures_eq; using vsym::ensures_le; using vsym::ensures_true; using vsym::lemma_;
using vsym::cover; using vsym::choose; using vsym::input;

typedef viennagrid::spatial_point<real, viennagrid::cartesian_cs<1> > P1;
typedef viennagrid::spatial_point<real, viennagrid::cartesian_cs<2> > P2;
typedef viennagrid::spatial_point<real, viennagrid::cartesian_cs<3> > P3;

inline std::string nm(std::string const & a, long i) { std::ostringstream os; os << a << i; return os.str(); }

// a point whose coordinates are unconstrained inputs
template <typename P> P sympoint(std::string const & name)
{
  static const char * ax[] = { "x", "y", "z", "w", "u", "v" };
  P p;
  for (std::size_t i = 0; i < p.size(); ++i) p[i] = input((name + ax[i]).c_str());
  return p;
}
// specification-side vector algebra, written on plain arrays (independent of the library's operators)
template <typename P> real dotp(P const & a, P const & b) { real r = 0; for (std::size_t i = 0; i < a.size(); ++i) r += a[i] * b[i]; return r; }
template <typename P> P sub(P const & a, P const & b) { P r; for (std::size_t i = 0; i < a.size(); ++i) r[i] = a[i] - b[i]; return r; }
template <typename P> P addp(P const & a, P const & b) { P r; for (std::size_t i = 0; i < a.size(); ++i) r[i] = a[i] + b[i]; return r; }
template <typename P> P mulp(P const & a, real const & f) { P r; for (std::size_t i = 0; i < a.size(); ++i) r[i] = a[i] * f; return r; }
template <typename P> void ensures_point_eq(char const * name, P const & a, P const & b)
{ for (std::size_t i = 0; i < a.size(); ++i) ensures_eq(name, a[i], b[i]); }
inline real det3(P3 const & a, P3 const & b, P3 const & c)
{ return a[0]*(b[1]*c[2]-b[2]*c[1]) - a[1]*(b[0]*c[2]-b[2]*c[0]) + a[2]*(b[0]*c[1]-b[1]*c[0]); }
inline real det2(P2 const & a, P2 const & b) { return a[0]*b[1]-a[1]*b[0]; }
#endif
