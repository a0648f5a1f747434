// KIND: bounded
// BOUND: lines, triangles, quadrilaterals, tetrahedra and boxes with corners on small integer grids in every vertex order listed, points on a grid around them; two-cell meshes and segments
// TIME: 150
// P07 (bounded stand-in): distances and closest points against brute force over all faces of the convex hull (projection onto every face, kept if inside).
#include "onecell.hpp"
#include "viennagrid/mesh/segmentation.hpp"
#include "viennagrid/algorithm/closest_points.hpp"
#include "viennagrid/algorithm/distance.hpp"
typedef std::vector<double> vd;
static double dv(vd const & a, vd const & b) { double r = 0; for (std::size_t i = 0; i < a.size(); ++i) r += a[i] * b[i]; return r; }
static vd sv(vd const & a, vd const & b) { vd r(a); for (std::size_t i = 0; i < a.size(); ++i) r[i] -= b[i]; return r; }
// solves the Gram system G x = y; false if singular
static bool gauss(std::vector<vd> g, vd y, vd & x)
{
  int n = (int)y.size();
  for (int c = 0; c < n; ++c) { int p = c; for (int r = c; r < n; ++r) if (std::fabs(g[r][c]) > std::fabs(g[p][c])) p = r; if (std::fabs(g[p][c]) < 1e-12) return false; std::swap(g[p], g[c]); std::swap(y[p], y[c]);
    for (int r = 0; r < n; ++r) if (r != c) { double f = g[r][c] / g[c][c]; for (int k = c; k < n; ++k) g[r][k] -= f * g[c][k]; y[r] -= f * y[c]; } }
  x.resize(n); for (int i = 0; i < n; ++i) x[i] = y[i] / g[i][i]; return true;
}
// squared distance of the convex hulls of A and B: minimum over pairs of affinely independent faces of the distance of their affine hulls, kept if attained inside both
static double hull2(std::vector<vd> const & A, std::vector<vd> const & B)
{
  double best = -1; int d = (int)A[0].size();
  for (int ma = 1; ma < (1 << A.size()); ++ma) for (int mb = 1; mb < (1 << B.size()); ++mb)
  {
    std::vector<vd> fa, fb; for (std::size_t i = 0; i < A.size(); ++i) if (ma & (1 << i)) fa.push_back(A[i]); for (std::size_t i = 0; i < B.size(); ++i) if (mb & (1 << i)) fb.push_back(B[i]);
    if ((int)fa.size() + (int)fb.size() - 2 > d) continue;
    std::vector<vd> e; for (std::size_t i = 1; i < fa.size(); ++i) e.push_back(sv(fa[i], fa[0])); for (std::size_t i = 1; i < fb.size(); ++i) { vd t = sv(fb[0], fb[i]); e.push_back(t); }
    vd c = sv(fb[0], fa[0]), y, x; std::vector<vd> g; for (std::size_t i = 0; i < e.size(); ++i) { vd row; for (std::size_t k = 0; k < e.size(); ++k) row.push_back(dv(e[i], e[k])); g.push_back(row); y.push_back(dv(e[i], c)); }
    if (!gauss(g, y, x)) continue;
    bool in = true; double sa = 0, sb = 0; for (std::size_t i = 0; i < x.size(); ++i) { if (x[i] < -1e-12) in = false; (i + 1 < fa.size() ? sa : sb) += x[i]; } if (sa > 1 + 1e-12 || sb > 1 + 1e-12) in = false;
    if (!in) continue;
    vd r = c; for (std::size_t i = 0; i < e.size(); ++i) for (int k = 0; k < d; ++k) r[k] -= x[i] * e[i][k];
    double q = dv(r, r); if (best < 0 || q < best) best = q;
  }
  return best;
}
template <typename P> vd as_vd(P const & p) { vd r; for (std::size_t i = 0; i < p.size(); ++i) r.push_back(p[i]); return r; }
template <typename P> std::vector<vd> as_vds(std::vector<P> const & p) { std::vector<vd> r; for (std::size_t i = 0; i < p.size(); ++i) r.push_back(as_vd(p[i])); return r; }
template <typename P> P grid(char const * n, int lo, int hi, double scale = 1) { P p; for (std::size_t i = 0; i < p.size(); ++i) p[i] = scale * (lo + choose(n, hi - lo + 1)); return p; }
template <typename El, typename P> void against(El & el, P const & p, std::vector<P> const & corners, std::vector<std::vector<P> > const & pieces, bool on_boundary)
{
  // pieces: convex pieces whose union is the set
  double want = -1; for (std::size_t i = 0; i < pieces.size(); ++i) { double q = hull2(std::vector<vd>(1, as_vd(p)), as_vds(pieces[i])); if (q >= 0 && (want < 0 || q < want)) want = q; } want = std::sqrt(want);
  if (on_boundary) { ensures_eq("boundary_distance", viennagrid::boundary_distance(p, el), want); ensures_eq("boundary_distance_symmetric", viennagrid::boundary_distance(el, p), want); }
  else
  {
    ensures_eq("distance", viennagrid::distance(p, el), want); ensures_eq("distance_symmetric", viennagrid::distance(el, p), want);
    std::pair<P, P> r = viennagrid::closest_points(viennagrid::default_point_accessor(el), p, el); ensures_point_eq("first_is_the_point", r.first, p);
    double in = -1; for (std::size_t i = 0; i < pieces.size(); ++i) { double q = hull2(std::vector<vd>(1, as_vd(r.second)), as_vds(pieces[i])); if (q >= 0 && (in < 0 || q < in)) in = q; }
    ensures_eq("closest_point_on_the_element", in, 0); ensures_eq("closest_point_attains_the_distance", viennagrid::norm_2(r.first - r.second), want);
  }
  (void)corners;
}
template <typename P> std::vector<P> pick(std::vector<P> const & v, int const * t, int n) { std::vector<P> r; for (int i = 0; i < n; ++i) r.push_back(v[t[i]]); return r; }
template <typename P> std::vector<std::vector<P> > picks(std::vector<P> const & v, int const * t, int m, int n) { std::vector<std::vector<P> > r; for (int i = 0; i < m; ++i) r.push_back(pick(v, t + i * n, n)); return r; }
static const int tri_e[] = { 0,1, 0,2, 1,2 }, quad_e[] = { 0,1, 0,2, 1,3, 2,3 }, tet_f[] = { 0,1,2, 0,1,3, 0,2,3, 1,2,3 }, hex_f[] = { 0,1,2,3, 0,1,4,5, 0,2,4,6, 1,3,5,7, 2,3,6,7, 4,5,6,7 };
CONTRACT(line_2d, "distance(point, line); closest_points(point, line)")
{
  P2 a = P2(0, 0), b = grid<P2>("b", -2, 2), p = grid<P2>("p", -3, 3, 0.5); requires_(dotp(b, b) > 0); a[0] = 1; b[0] += 1; std::vector<P2> v; v.push_back(a); v.push_back(b); one_cell<viennagrid::line_2d_mesh> m(v);
  against(m.cell(), p, v, std::vector<std::vector<P2> >(1, v), false); cover("end");
}
template <typename M> void two_lines(int lo, int hi)
{
  typedef typename viennagrid::result_of::point<M>::type P; M mesh; P z = P(), b = grid<P>("b", 0, 2), c = grid<P>("c", lo, hi), e = grid<P>("e", lo, hi); requires_(dotp(b, b) > 0); requires_(dotp(sub(c, e), sub(c, e)) > 0);
  std::vector<P> A, B; A.push_back(z); A.push_back(b); B.push_back(c); B.push_back(e);
  typename viennagrid::result_of::vertex_handle<M>::type h[4]; for (int i = 0; i < 2; ++i) { h[i] = viennagrid::make_vertex(mesh, A[i]); h[2 + i] = viennagrid::make_vertex(mesh, B[i]); }
  typename viennagrid::result_of::cell<M>::type & V = *viennagrid::make_line(mesh, h[0], h[1]); typename viennagrid::result_of::cell<M>::type & W = *viennagrid::make_line(mesh, h[2], h[3]);
  double want = std::sqrt(hull2(as_vds(A), as_vds(B))); ensures_eq("distance", viennagrid::distance(V, W), want); ensures_eq("distance_symmetric", viennagrid::distance(W, V), want);
  std::pair<P, P> r = viennagrid::closest_points(viennagrid::default_point_accessor(mesh), V, W);
  ensures_eq("first_on_first_line", hull2(std::vector<vd>(1, as_vd(r.first)), as_vds(A)), 0); ensures_eq("second_on_second_line", hull2(std::vector<vd>(1, as_vd(r.second)), as_vds(B)), 0); ensures_eq("pair_attains_the_distance", viennagrid::norm_2(r.first - r.second), want);
  cover("end");
}
CONTRACT(lines_2d, "distance(line, line); closest_points(line, line)") { two_lines<viennagrid::line_2d_mesh>(-2, 3); }
CONTRACT(lines_3d, "distance(line, line); closest_points(line, line)") { two_lines<viennagrid::line_3d_mesh>(-1, 1); }
CONTRACT(triangle_2d, "distance(point, triangle); boundary_distance(point, triangle)")
{
  P2 b = grid<P2>("b", -1, 2), c = grid<P2>("c", -1, 2), p = grid<P2>("p", -4, 5, 0.5); std::vector<P2> v; v.push_back(P2(0, 0)); v.push_back(b); v.push_back(c); requires_(det2(b, c) != 0);
  one_cell<viennagrid::triangular_2d_mesh> m(v); bool bd = choose("boundary", 2); against(m.cell(), p, v, bd ? picks(v, tri_e, 3, 2) : std::vector<std::vector<P2> >(1, v), bd); cover("end");
}
CONTRACT(triangle_3d, "distance(point, triangle) in 3d; boundary_distance(point, triangle)")
{
  P3 b = grid<P3>("b", 0, 1), c = grid<P3>("c", -1, 1), p = grid<P3>("p", -2, 3, 0.75); std::vector<P3> v; v.push_back(P3(0, 0, 0)); v.push_back(b); v.push_back(c); requires_(dotp(crossv(b, c), crossv(b, c)) > 0);
  one_cell<viennagrid::triangular_3d_mesh> m(v); bool bd = choose("boundary", 2); against(m.cell(), p, v, bd ? picks(v, tri_e, 3, 2) : std::vector<std::vector<P3> >(1, v), bd); cover("end");
}
static int order(char const * n, std::vector<P3> & v, int orders) { std::vector<int> t; for (std::size_t i = 0; i < v.size(); ++i) t.push_back((int)i); int k = choose(n, orders); while (k-- > 0) std::next_permutation(t.begin(), t.end()); std::vector<P3> w; for (std::size_t i = 0; i < t.size(); ++i) w.push_back(v[t[i]]); v = w; return 0; }
CONTRACT(tetrahedron, "distance(point, tetrahedron); boundary_distance(point, tetrahedron)")
{
  static const double T[4][4][3] = { { {0,0,0}, {1,0,0}, {0,1,0}, {0,0,1} }, { {0,0,0}, {2,1,0}, {-1,1,0}, {0.5,0.5,1.5} }, { {0,0,0}, {1,0,1}, {0,1,1}, {1,1,0} }, { {0,0,0}, {2,0,0}, {2,2,0.5}, {1.5,1,2} } };
  int k = choose("shape", 4); std::vector<P3> v; for (int i = 0; i < 4; ++i) v.push_back(P3(T[k][i][0], T[k][i][1], T[k][i][2])); order("order", v, 24); P3 p = grid<P3>("p", -1, 3, 0.8);
  one_cell<viennagrid::tetrahedral_3d_mesh> m(v); bool bd = choose("boundary", 2); against(m.cell(), p, v, bd ? picks(v, tet_f, 4, 3) : std::vector<std::vector<P3> >(1, v), bd); cover("end");
}
template <typename M> void quad(bool flat)
{
  typedef typename viennagrid::result_of::point<M>::type P; static const double Q[4][4][2] = { { {0,0}, {1,0}, {0,1}, {1,1} }, { {0,0}, {2,0}, {0.5,1}, {1.5,1} }, { {0,0}, {3,0.5}, {-0.5,2}, {2,2.5} }, { {0,0}, {0,1}, {1,0}, {1,1} } };
  int k = choose("shape", 4), t = flat ? 0 : choose("tilt", 2); std::vector<P> v; for (int i = 0; i < 4; ++i) { P x = P(); x[0] = Q[k][i][0]; x[1] = Q[k][i][1]; if (!flat) x[x.size() - 1] = t ? Q[k][i][0] + 0.5 * Q[k][i][1] : 0; v.push_back(x); }
  P p = grid<P>("p", -2, 4, 0.7); one_cell<M> m(v); static const int tri[] = { 0,1,2, 1,2,3 }; bool bd = choose("boundary", 2); against(m.cell(), p, v, bd ? picks(v, quad_e, 4, 2) : picks(v, tri, 2, 3), bd); cover("end");
}
CONTRACT(quadrilateral_2d, "distance(point, quadrilateral); boundary_distance(point, quadrilateral)") { quad<viennagrid::quadrilateral_2d_mesh>(true); }
CONTRACT(quadrilateral_3d, "distance(point, quadrilateral); boundary_distance(point, quadrilateral)") { quad<viennagrid::quadrilateral_3d_mesh>(false); }
CONTRACT(hexahedron, "distance(point, hexahedron); boundary_distance(point, hexahedron)")
{
  static const double X[3][3][3] = { { {1,0,0}, {0,1,0}, {0,0,1} }, { {2,0,0}, {0.5,1,0}, {0,0.25,1.5} }, { {0,1,0}, {1,0,0.5}, {0.5,0,2} } }; int k = choose("shape", 3); std::vector<P3> v;
  for (int i = 0; i < 8; ++i) { P3 x = P3(0, 0, 0); for (int a = 0; a < 3; ++a) if ((i >> a) & 1) for (int j = 0; j < 3; ++j) x[j] += X[k][a][j]; v.push_back(x); }
  P3 p = grid<P3>("p", -1, 4, 0.6); one_cell<viennagrid::hexahedral_3d_mesh> m(v); bool bd = choose("boundary", 2);
  static const int kuhn[] = { 0,1,3,7, 0,1,5,7, 0,2,3,7, 0,2,6,7, 0,4,5,7, 0,4,6,7 }; std::vector<std::vector<P3> > pieces;
  if (!bd) pieces = picks(v, kuhn, 6, 4); else for (int f = 0; f < 6; ++f) { int a[] = { hex_f[4*f], hex_f[4*f+1], hex_f[4*f+2] }, b[] = { hex_f[4*f+3], hex_f[4*f+1], hex_f[4*f+2] }; pieces.push_back(pick(v, a, 3)); pieces.push_back(pick(v, b, 3)); }
  against(m.cell(), p, v, pieces, bd); cover("end");
}
CONTRACT(triangle_boundaries, "boundary_distance(triangle, triangle); closest_points_on_boundary(triangle, triangle)")
{
  P2 o = grid<P2>("o", -2, 3), b = grid<P2>("b", 0, 2), c = grid<P2>("c", -1, 1); std::vector<P2> v, w; v.push_back(P2(0, 0)); v.push_back(P2(2, 0)); v.push_back(P2(0, 1)); w.push_back(o); w.push_back(addp(o, b)); w.push_back(addp(o, c)); requires_(det2(b, c) != 0);
  one_cell<viennagrid::triangular_2d_mesh> m(v), n(w); double want = -1; for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) { double q = hull2(as_vds(pick(v, tri_e + 2 * i, 2)), as_vds(pick(w, tri_e + 2 * k, 2))); if (want < 0 || q < want) want = q; }
  ensures_eq("boundary_distance", viennagrid::boundary_distance(m.cell(), n.cell()), std::sqrt(want)); ensures_eq("boundary_distance_symmetric", viennagrid::boundary_distance(n.cell(), m.cell()), std::sqrt(want));
  std::pair<P2, P2> r = viennagrid::closest_points_on_boundary(m.cell(), n.cell()); ensures_eq("pair_attains_the_distance", viennagrid::norm_2(r.first - r.second), std::sqrt(want)); cover("end");
}
// two triangles sharing an edge; mesh and segment boundaries, lines of a segment
CONTRACT(mesh_and_segment, "boundary_distance(point, mesh); boundary_distance(point, segment); distance(line, segment)")
{
  typedef viennagrid::triangular_2d_mesh M; typedef viennagrid::result_of::segmentation<M>::type S; typedef viennagrid::result_of::segment_handle<S>::type SH; M mesh; viennagrid::result_of::vertex_handle<M>::type h[6]; double X[6][2] = { {0,0}, {2,0}, {0,2}, {2,2}, {4,1}, {5,3} }; std::vector<P2> v;
  for (int i = 0; i < 6; ++i) { v.push_back(P2(X[i][0], X[i][1])); h[i] = viennagrid::make_vertex(mesh, v[i]); }
  S seg(mesh); SH & s0 = seg.make_segment(); SH & s1 = seg.make_segment(); viennagrid::make_triangle(s0, h[0], h[1], h[2]); viennagrid::make_triangle(choose("where", 2) ? s1 : s0, h[1], h[2], h[3]); viennagrid::make_triangle(s1, h[3], h[1], h[4]);
  P2 p = grid<P2>("p", -3, 10, 0.5);
  static const int all[] = { 0,1, 0,2, 2,3, 1,4, 3,4 }; std::vector<std::vector<P2> > mb = picks(v, all, 5, 2); double want = -1; for (std::size_t i = 0; i < mb.size(); ++i) { double q = hull2(std::vector<vd>(1, as_vd(p)), as_vds(mb[i])); if (want < 0 || q < want) want = q; }
  ensures_eq("mesh_boundary_distance", viennagrid::boundary_distance(p, mesh), std::sqrt(want)); ensures_eq("mesh_boundary_distance", viennagrid::boundary_distance(mesh, p), std::sqrt(want));
  SH * ss[] = { &s0, &s1 };
  for (int k = 0; k < 2; ++k)
  {
    typedef viennagrid::result_of::line_range<SH>::type R; typedef viennagrid::result_of::iterator<R>::type I; R r(*ss[k]); double b = -1; std::vector<std::vector<P2> > ls;
    std::map<std::pair<int,int>, int> cnt; typedef viennagrid::result_of::cell_range<SH>::type CR; typedef viennagrid::result_of::iterator<CR>::type CI; CR cr(*ss[k]);
    for (CI c = cr.begin(); c != cr.end(); ++c) for (int e = 0; e < 3; ++e) { int i0 = (int)viennagrid::vertices(*c)[tri_e[2*e]].id().get(), i1 = (int)viennagrid::vertices(*c)[tri_e[2*e+1]].id().get(); cnt[std::make_pair(std::min(i0, i1), std::max(i0, i1))]++; }
    for (std::map<std::pair<int,int>, int>::iterator i = cnt.begin(); i != cnt.end(); ++i) { int t[] = { i->first.first, i->first.second }; ls.push_back(pick(v, t, 2)); if (i->second == 1) { double q = hull2(std::vector<vd>(1, as_vd(p)), as_vds(ls.back())); if (b < 0 || q < b) b = q; } }
    ensures_eq("segment_boundary_distance", viennagrid::boundary_distance(p, *ss[k]), std::sqrt(b));
    // a line of its own mesh against all lines of the segment
    M lm; std::vector<P2> L; L.push_back(p); L.push_back(P2(p[0] + 1, p[1] + 0.25)); viennagrid::result_of::line<M>::type & l = *viennagrid::make_line(lm, viennagrid::make_vertex(lm, L[0]), viennagrid::make_vertex(lm, L[1]));
    double w = -1; for (std::size_t i = 0; i < ls.size(); ++i) { double q = hull2(as_vds(L), as_vds(ls[i])); if (w < 0 || q < w) w = q; }
    ensures_eq("line_segment_distance", viennagrid::distance(l, *ss[k]), std::sqrt(w)); ensures_eq("line_segment_distance", viennagrid::distance(*ss[k], l), std::sqrt(w));
  }
  cover("end");
}
CONTRACT(points, "distance(point, point); distance(vertex, point)")
{
  P3 a = grid<P3>("a", -1, 1), b = grid<P3>("b", -2, 2); viennagrid::line_3d_mesh m; viennagrid::result_of::vertex_handle<viennagrid::line_3d_mesh>::type h = viennagrid::make_vertex(m, a); double w = std::sqrt(dotp(sub(a, b), sub(a, b)));
  ensures_eq("distance", viennagrid::distance(a, b), w); ensures_eq("vertex_distance", viennagrid::distance(*h, b), w); cover("end");
}
