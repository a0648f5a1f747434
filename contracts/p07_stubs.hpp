#ifndef VERIF_P07_STUBS
#define VERIF_P07_STUBS
// P07 (proof part, modular): callers are checked against the contracts of their callees. The real functions call closest_points_point_line,
// closest_points_point_triangle and closest_points_point_tetrahedron by unqualified name, so in the symbolic build argument-dependent lookup selects
// the contract stubs below (namespace vsym): a stub returns an arbitrary point satisfying the callee's postcondition. The callee contracts themselves
// are proved in P07_closest.cpp and here.
#include "onecell.hpp"
#include <vector>
struct call_record { int kind; std::vector<real> p; std::vector<real> corners; std::vector<real> q; };
static std::vector<call_record> calls;
#ifndef VSYM_CONCRETE
namespace vsym
{
  template <int d> struct SPd { typedef viennagrid::spatial_point<real, viennagrid::cartesian_cs<d> > type; };
  template <typename P> void put(std::vector<real> & v, P const & p) { for (std::size_t i = 0; i < p.size(); ++i) v.push_back(p[i]); }
  template <int d> std::pair<viennagrid::spatial_point<real, viennagrid::cartesian_cs<d> >, viennagrid::spatial_point<real, viennagrid::cartesian_cs<d> > >
  stub(int kind, viennagrid::spatial_point<real, viennagrid::cartesian_cs<d> > const & p, viennagrid::spatial_point<real, viennagrid::cartesian_cs<d> > const * c)
  {
    typedef viennagrid::spatial_point<real, viennagrid::cartesian_cs<d> > P; call_record r; r.kind = kind; put(r.p, p); P q = c[0]; real sum = 0; put(r.corners, c[0]);
    for (int i = 1; i <= kind; ++i)
    {
      real t = input(nm(nm("stub", (long)calls.size()) + "_", i).c_str()); requires_(t >= 0); sum += t; put(r.corners, c[i]);
      for (std::size_t k = 0; k < q.size(); ++k) q[k] += t * (c[i][k] - c[0][k]);
    }
    requires_(sum <= 1); put(r.q, q); calls.push_back(r); return std::make_pair(p, q);
  }
  template <int d> std::pair<viennagrid::spatial_point<real, viennagrid::cartesian_cs<d> >, viennagrid::spatial_point<real, viennagrid::cartesian_cs<d> > >
  closest_points_point_line(viennagrid::spatial_point<real, viennagrid::cartesian_cs<d> > const & p, viennagrid::spatial_point<real, viennagrid::cartesian_cs<d> > const & a, viennagrid::spatial_point<real, viennagrid::cartesian_cs<d> > const & b)
  { typename SPd<d>::type c[] = { a, b }; return stub<d>(1, p, c); }
#ifdef STUB_TRIANGLE
  template <int d> std::pair<viennagrid::spatial_point<real, viennagrid::cartesian_cs<d> >, viennagrid::spatial_point<real, viennagrid::cartesian_cs<d> > >
  closest_points_point_triangle(viennagrid::spatial_point<real, viennagrid::cartesian_cs<d> > const & p, viennagrid::spatial_point<real, viennagrid::cartesian_cs<d> > const & a, viennagrid::spatial_point<real, viennagrid::cartesian_cs<d> > const & b, viennagrid::spatial_point<real, viennagrid::cartesian_cs<d> > const & e)
  { typename SPd<d>::type c[] = { a, b, e }; return stub<d>(2, p, c); }
#endif
#ifdef STUB_TETRAHEDRON
  template <int d> std::pair<viennagrid::spatial_point<real, viennagrid::cartesian_cs<d> >, viennagrid::spatial_point<real, viennagrid::cartesian_cs<d> > >
  closest_points_point_tetrahedron(viennagrid::spatial_point<real, viennagrid::cartesian_cs<d> > const & p, viennagrid::spatial_point<real, viennagrid::cartesian_cs<d> > const & a, viennagrid::spatial_point<real, viennagrid::cartesian_cs<d> > const & b, viennagrid::spatial_point<real, viennagrid::cartesian_cs<d> > const & e, viennagrid::spatial_point<real, viennagrid::cartesian_cs<d> > const & f)
  { typename SPd<d>::type c[] = { a, b, e, f }; return stub<d>(3, p, c); }
#endif
}
#endif
#include "viennagrid/algorithm/closest_points.hpp"
#include "viennagrid/algorithm/distance.hpp"
#ifdef VSYM_CONCRETE
static bool same(real const & a, real const & b) { return a == b; }
#else
static bool same(real const & a, real const & b) { return a.id == b.id; }
#endif
// the recorded call for exactly these corners (in any order); -1 if the code did not ask the callee
template <typename P> int call_for(std::vector<P> const & corners)
{
  for (std::size_t i = 0; i < calls.size(); ++i)
  {
    if (calls[i].kind + 1 != (int)corners.size()) continue; std::size_t d = corners[0].size(), hit = 0;
    for (std::size_t c = 0; c < corners.size(); ++c) for (std::size_t k = 0; k < corners.size(); ++k) { bool eq = true; for (std::size_t j = 0; j < d; ++j) if (!same(calls[i].corners[k * d + j], corners[c][j])) eq = false; if (eq) { ++hit; break; } }
    if (hit == corners.size()) return (int)i;
  }
  return -1;
}
#endif
