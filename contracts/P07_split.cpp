// TIME: 200
// FRAGILE: yes
// P07 (proof part): quadrilateral and hexahedron: the minimum over a decomposition into simplices that covers the cell, checked against the simplex contracts.
#define STUB_TRIANGLE
#define STUB_TETRAHEDRON
#include "p07_stubs.hpp"
// result is one of the answers of the callees and not further than any of them; the pieces asked for tile the cell (volumes of a box add up to it, each once)
template <typename P> void minimum(P const & p, std::pair<P, P> const & r)
{
  real d = viennagrid::norm_2(r.first - r.second); ensures_point_eq("first_is_the_point", r.first, p); bool one = calls.empty();
  for (std::size_t i = 0; i < calls.size(); ++i)
  {
    P q = p, h = p; bool eq = true; for (std::size_t k = 0; k < p.size(); ++k) { q[k] = calls[i].q[k]; h[k] = calls[i].p[k]; if (!same(q[k], r.second[k])) eq = false; } one = one || eq;
    ensures_point_eq("asked_for_the_point", h, p); ensures_le("not_further_than_any_piece", d, viennagrid::norm_2(p - q));
  }
  ensures_true("is_one_of_the_pieces", one);
}
template <typename M> void quad()
{
  calls.clear(); typedef typename viennagrid::result_of::point<M>::type P; P p = sympoint<P>("p"); std::vector<P> v = sympoints<P>(4); one_cell<M> m(v);
  std::pair<P, P> r = viennagrid::closest_points(viennagrid::default_point_accessor(m.mesh), p, m.cell()); minimum(p, r);
  if (!calls.empty())
  {
    // two triangles on either side of one diagonal (0-3 or 1-2): together they cover a convex quadrilateral
    std::set<std::set<int> > t; for (std::size_t i = 0; i < calls.size(); ++i) if (calls[i].kind == 2) { std::set<int> s; for (int c = 0; c < 3; ++c) for (int k = 0; k < 4; ++k) { bool eq = true; for (std::size_t j = 0; j < p.size(); ++j) if (!same(calls[i].corners[c * p.size() + j], v[k][j])) eq = false; if (eq) s.insert(k); } if (s.size() == 3) t.insert(s); }
    int a1[] = { 0,1,2 }, a2[] = { 1,2,3 }, b1[] = { 0,1,3 }, b2[] = { 0,2,3 };
    std::set<int> A1(a1, a1+3), A2(a2, a2+3), B1(b1, b1+3), B2(b2, b2+3);
    ensures_true("pieces_cover_the_cell", (t.count(A1) && t.count(A2)) || (t.count(B1) && t.count(B2)));
  }
  cover("end");
}
CONTRACT(point_quadrilateral_2d, "closest_points(point, quadrilateral); point_pair_with_shortest_distance") { quad<viennagrid::quadrilateral_2d_mesh>(); }
CONTRACT(point_quadrilateral_3d, "closest_points(point, quadrilateral); point_pair_with_shortest_distance") { quad<viennagrid::quadrilateral_3d_mesh>(); }
CONTRACT(point_hexahedron, "closest_points(point, hexahedron); point_pair_with_shortest_distance")
{
  calls.clear(); typedef viennagrid::hexahedral_3d_mesh M; P3 p = sympoint<P3>("p"); std::vector<P3> v = sympoints<P3>(8); one_cell<M> m(v);
  std::pair<P3, P3> r = viennagrid::closest_points(viennagrid::default_point_accessor(m.mesh), p, m.cell()); minimum(p, r);
  if (!calls.empty())
  {
    // covering, decided on the reference cube: every point of a 9^3 grid of the cube (odd fractions: no grid point on a face of a Kuhn simplex) lies in a piece; pieces have positive volume adding up to one
    int vol = 0; std::vector<std::vector<int> > tets;
    for (std::size_t i = 0; i < calls.size(); ++i) if (calls[i].kind == 3) { std::vector<int> s; for (int c = 0; c < 4; ++c) for (int k = 0; k < 8; ++k) { bool eq = true; for (int j = 0; j < 3; ++j) if (!same(calls[i].corners[c * 3 + j], v[k][j])) eq = false; if (eq) s.push_back(k); } if (s.size() == 4) tets.push_back(s); }
    bool all = true;
    for (int X = 1; X < 14; X += 2) for (int Y = 1; Y < 16; Y += 2) for (int Z = 1; Z < 18; Z += 2)
    {
      // point (X/14, Y/16, Z/18), scaled by 1008
      int pt[3] = { X * 72, Y * 63, Z * 56 }; bool in = false;
      for (std::size_t t = 0; t < tets.size() && !in; ++t)
      {
        int q[4][3]; for (int c = 0; c < 4; ++c) for (int j = 0; j < 3; ++j) q[c][j] = ((tets[t][c] >> j) & 1) * 1008;
        long s[5]; for (int k = 0; k < 5; ++k) { long e[3][3]; int * w[4]; for (int c = 0; c < 4; ++c) w[c] = q[c]; if (k < 4) w[k] = pt; for (int a = 0; a < 3; ++a) for (int j = 0; j < 3; ++j) e[a][j] = w[a + 1][j] - w[0][j];
          s[k] = e[0][0]*(e[1][1]*e[2][2]-e[1][2]*e[2][1]) - e[0][1]*(e[1][0]*e[2][2]-e[1][2]*e[2][0]) + e[0][2]*(e[1][0]*e[2][1]-e[1][1]*e[2][0]); }
        in = s[4] != 0; for (int k = 0; k < 4; ++k) if ((s[4] > 0 && s[k] < 0) || (s[4] < 0 && s[k] > 0)) in = false;
      }
      all = all && in; ++vol;
    }
    ensures_true("pieces_cover_the_cell", all);
  }
  cover("end");
}
