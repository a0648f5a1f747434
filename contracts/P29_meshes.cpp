// KIND: bounded
// BOUND: 600 pseudo-random Delaunay triangulations of 4 to 9 points (circumcenters in the cell or its neighbor, or the longest edge on the hull), 300 well-centered tetrahedra and 24 stretched body-centered lattices of 48 tetrahedra
// TIME: 150
// P29: Voronoi quantities of whole meshes against the Voronoi diagram computed by clipping.
#include "p29_run.hpp"
struct lcg { unsigned long s; lcg(int k) : s((unsigned long)k * 2654435761ul + 12345) { for (int i = 0; i < 5; ++i) next(); } unsigned next() { s = (s * 6364136223846793005ul + 1442695040888963407ul); return (unsigned)(s >> 33); } real unit() { return real(next() % 1000003) / 1000003.0; } int upto(int n) { return (int)(next() % (unsigned)n); } };
struct pt { double x, y; pt(double a = 0, double b = 0) : x(a), y(b) {} };
static double cr(pt a, pt b, pt c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); }
static double dist2(pt a, pt b) { return (a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y); }
static pt center(pt a, pt b, pt c) { double d = 2 * cr(a, b, c), bx = b.x - a.x, by = b.y - a.y, cx = c.x - a.x, cy = c.y - a.y, B = bx * bx + by * by, C = cx * cx + cy * cy; return pt(a.x + (cy * B - by * C) / d, a.y + (bx * C - cx * B) / d); }
static double inside(pt a, pt b, pt c, pt p) { double s = cr(a, b, c); return std::min(cr(a, b, p) / s, std::min(cr(b, c, p) / s, cr(c, a, p) / s)); }   // smallest barycentric coordinate
static std::vector<pt> clip(std::vector<pt> const & p, pt v, pt w)     // the part closer to v than to w
{
  std::vector<pt> o; for (std::size_t i = 0; i < p.size(); ++i) { pt a = p[i], b = p[(i + 1) % p.size()]; double fa = dist2(a, w) - dist2(a, v), fb = dist2(b, w) - dist2(b, v); if (fa >= 0) o.push_back(a); if ((fa < 0) != (fb < 0)) { double s = fa / (fa - fb); o.push_back(pt(a.x + s * (b.x - a.x), a.y + s * (b.y - a.y))); } }
  return o;
}
static double area(std::vector<pt> const & p) { double s = 0; for (std::size_t i = 2; i < p.size(); ++i) s += cr(p[0], p[i - 1], p[i]); return std::fabs(s) / 2; }
static bool close_(double a, double b) { return std::fabs(a - b) <= 1e-7; }
static bool inside_edge(pt x, pt y, pt z, pt a, pt b) { return dist2(a, b) >= std::max(dist2(x, y), std::max(dist2(y, z), dist2(x, z))) - 1e-14; }   // ab is the longest edge of xyz
CONTRACT(delaunay_triangulations, "apply_voronoi(triangles)")
{
  typedef viennagrid::triangular_2d_mesh M; int n = 4 + choose("points", 6); lcg g(1000 * n + choose("seed", 100)); std::vector<pt> p; double sx = 0.5 + g.unit(), ang = 6.283 * g.unit();
  for (int i = 0; i < n; ++i) { double x = sx * g.unit(), y = g.unit(); p.push_back(pt(std::cos(ang) * x - std::sin(ang) * y, std::sin(ang) * x + std::cos(ang) * y)); }
  std::vector<tuple_t> tri; std::vector<tuple_t> sub3 = subsets(n, 3); double margin = 1; std::map<vset_t, std::vector<int> > on;
  for (std::size_t k = 0; k < sub3.size(); ++k) { tuple_t t = sub3[k]; double s = std::fabs(cr(p[t[0]], p[t[1]], p[t[2]])); margin = std::min(margin, s / 5); if (s < 1e-4) continue; pt c = center(p[t[0]], p[t[1]], p[t[2]]); double r = dist2(c, p[t[0]]), e = 1e9; for (int i = 0; i < n; ++i) if (i != t[0] && i != t[1] && i != t[2]) e = std::min(e, dist2(c, p[i]) - r); if (e > 0) { if (e < 1e-3 * r) margin = 0; for (int a = 0; a < 3; ++a) on[vs(t[a], t[(a + 1) % 3])].push_back((int)tri.size()); tri.push_back(t); } }
  requires_(margin > 1e-3);
  for (std::size_t k = 0; k < tri.size(); ++k)
  {
    tuple_t t = tri[k]; pt c = center(p[t[0]], p[t[1]], p[t[2]]); double in = inside(p[t[0]], p[t[1]], p[t[2]], c); requires_(std::fabs(in) > 1e-3); if (in > 0) continue;
    int far = 0; double best = -1; for (int a = 0; a < 3; ++a) { double l = dist2(p[t[a]], p[t[(a + 1) % 3]]); if (l > best) { best = l; far = a; } } std::vector<int> & nb = on[vs(t[far], t[(far + 1) % 3])];
    if (nb.size() == 2) { tuple_t u = tri[nb[0] == (int)k ? nb[1] : nb[0]]; requires_(inside(p[u[0]], p[u[1]], p[u[2]], c) > 1e-3); }
  }
  // insertion order and local orders vary
  for (std::size_t k = tri.size(); k > 1; --k) std::swap(tri[k - 1], tri[g.upto((int)k)]);
  TM<M> m; for (int i = 0; i < n; ++i) put(m, viennagrid::result_of::point<M>::type(p[i].x, p[i].y));
  for (std::size_t k = 0; k < tri.size(); ++k) { nth_permutation(tri[k], g.upto(6)); m.add_cell(tri[k]); }
  voronoi_run<M> r(m); r.sums_agree();
  for (int v = 0; v < n; ++v)
  {
    double total = 0; for (std::size_t k = 0; k < tri.size(); ++k) { std::vector<pt> q; for (int i = 0; i < 3; ++i) q.push_back(p[tri[k][i]]); for (int w = 0; w < n; ++w) if (w != v) q = clip(q, p[v], p[w]); double a = area(q); total += a; ensures_true("vertex_box_in_each_cell", close_(r.vbox[vs(v)].of((int)k), a)); }
    ensures_true("vertex_box", close_(r.vbox[vs(v)].total, total));
  }
  for (voronoi_run<M>::items::iterator e = r.interface.begin(); e != r.interface.end(); ++e)
  {
    int a = *e->first.begin(), b = *e->first.rbegin(); pt mid((p[a].x + p[b].x) / 2, (p[a].y + p[b].y) / 2), dir(-(p[b].y - p[a].y), p[b].x - p[a].x); double len = std::sqrt(dist2(p[a], p[b])), total = 0;
    for (std::size_t k = 0; k < tri.size(); ++k)
    {
      double lo = -1e6, hi = 1e6; pt far(mid.x + dir.x, mid.y + dir.y); std::vector<std::pair<double, double> > f;   // values of the constraints at mid and mid+dir, >= 0 wanted
      for (int w = 0; w < n; ++w) if (w != a && w != b) f.push_back(std::make_pair(dist2(mid, p[w]) - dist2(mid, p[a]), dist2(far, p[w]) - dist2(far, p[a])));
      double s = cr(p[tri[k][0]], p[tri[k][1]], p[tri[k][2]]) > 0 ? 1 : -1; for (int i = 0; i < 3; ++i) { pt x = p[tri[k][i]], y = p[tri[k][(i + 1) % 3]]; f.push_back(std::make_pair(s * cr(x, y, mid), s * cr(x, y, far))); }
      for (std::size_t i = 0; i < f.size(); ++i) { double slope = f[i].second - f[i].first; if (std::fabs(slope) < 1e-14) { if (f[i].first < -1e-12) hi = lo; } else if (slope > 0) lo = std::max(lo, -f[i].first / slope); else hi = std::min(hi, -f[i].first / slope); }
      double l = hi > lo ? (hi - lo) * len : 0; total += l; ensures_true("interface_in_each_cell", close_(e->second.of((int)k), l));
    }
    ensures_true("interface", close_(e->second.total, total)); bool cut = false; for (std::size_t k = 0; k < tri.size(); ++k) if (subset_of(e->first, mkset(tri[k]))) { pt x = p[tri[k][0]], y = p[tri[k][1]], z = p[tri[k][2]]; if (inside(x, y, z, center(x, y, z)) < 0) for (int i = 0; i < 3; ++i) { vset_t l = vs(tri[k][i], tri[k][(i + 1) % 3]); if (on[l].size() == 1 && inside_edge(x, y, z, p[tri[k][i]], p[tri[k][(i + 1) % 3]])) cut = true; } }
    if (!cut) ensures_true("edge_box_is_half_of_length_times_interface", close_(r.ebox[e->first].total, total * len / 2));
  }
  cover("end");
}

// ---- three dimensions ---------------------------------------------------------------------------------------------------
struct q3 { double c[3]; q3(double x = 0, double y = 0, double z = 0) { c[0] = x; c[1] = y; c[2] = z; } };
static q3 operator-(q3 a, q3 const & b) { for (int i = 0; i < 3; ++i) a.c[i] -= b.c[i]; return a; }
static q3 operator+(q3 a, q3 const & b) { for (int i = 0; i < 3; ++i) a.c[i] += b.c[i]; return a; }
static q3 operator*(double f, q3 a) { for (int i = 0; i < 3; ++i) a.c[i] *= f; return a; }
static double dt(q3 const & a, q3 const & b) { return a.c[0]*b.c[0] + a.c[1]*b.c[1] + a.c[2]*b.c[2]; }
static q3 cx(q3 const & a, q3 const & b) { return q3(a.c[1]*b.c[2]-a.c[2]*b.c[1], a.c[2]*b.c[0]-a.c[0]*b.c[2], a.c[0]*b.c[1]-a.c[1]*b.c[0]); }
static q3 center4(q3 a, q3 b, q3 c, q3 d) { q3 u = b - a, v = c - a, w = d - a; double D = 2 * dt(u, cx(v, w)); return a + (1 / D) * (dt(u, u) * cx(v, w) + dt(v, v) * cx(w, u) + dt(w, w) * cx(u, v)); }
static q3 center3(q3 a, q3 b, q3 c) { q3 u = b - a, v = c - a, n = cx(u, v); return a + (1 / (2 * dt(n, n))) * (dt(u, u) * cx(v, n) + dt(v, v) * cx(n, u)); }
static double in4(std::vector<q3> const & t, q3 p) { double V = dt(t[1] - t[0], cx(t[2] - t[0], t[3] - t[0])), m = 1e9; for (int i = 0; i < 4; ++i) { std::vector<q3> u(t); u[i] = p; m = std::min(m, dt(u[1] - u[0], cx(u[2] - u[0], u[3] - u[0])) / V); } return m; }
static double in3(q3 a, q3 b, q3 c, q3 p) { q3 n = cx(b - a, c - a); double A = dt(n, n); return std::min(dt(cx(b - a, p - a), n) / A, std::min(dt(cx(c - b, p - b), n) / A, dt(cx(a - c, p - c), n) / A)); }
static bool less_pt(pt const & a, pt const & b) { return a.x < b.x || (a.x == b.x && a.y < b.y); }
static double hull_area(std::vector<pt> p)
{
  std::sort(p.begin(), p.end(), less_pt); std::vector<pt> h; for (int pass = 0; pass < 2; ++pass) { std::size_t base = h.size(); for (std::size_t i = 0; i < p.size(); ++i) { while (h.size() >= base + 2 && cr(h[h.size() - 2], h.back(), p[i]) <= 0) h.pop_back(); h.push_back(p[i]); } h.pop_back(); std::reverse(p.begin(), p.end()); }
  return area(h);
}
typedef viennagrid::tetrahedral_3d_mesh TMesh;
// convex: the mesh has no reflex boundary edge; otherwise only the inner edges are compared
static void check_tets(std::vector<q3> const & p, std::vector<tuple_t> const & tets, bool convex)
{
  TM<TMesh> m; for (std::size_t i = 0; i < p.size(); ++i) put(m, viennagrid::result_of::point<TMesh>::type(p[i].c[0], p[i].c[1], p[i].c[2])); for (std::size_t k = 0; k < tets.size(); ++k) m.add_cell(tets[k]);
  std::map<vset_t, int> faces; double volume = 0; for (std::size_t k = 0; k < tets.size(); ++k) { for (int i = 0; i < 4; ++i) { vset_t f = mkset(tets[k]); f.erase(tets[k][i]); ++faces[f]; } volume += std::fabs(dt(p[tets[k][1]] - p[tets[k][0]], cx(p[tets[k][2]] - p[tets[k][0]], p[tets[k][3]] - p[tets[k][0]]))) / 6; }
  voronoi_run<TMesh> r(m); r.sums_agree(); double sum = 0; std::map<int, double> box;
  for (voronoi_run<TMesh>::items::iterator e = r.interface.begin(); e != r.interface.end(); ++e)
  {
    int a = *e->first.begin(), b = *e->first.rbegin(); q3 mid = 0.5 * (p[a] + p[b]), d = p[b] - p[a]; double len = std::sqrt(dt(d, d)); q3 h = std::fabs(d.c[0]) < 0.5 * len ? q3(1, 0, 0) : q3(0, 1, 0), u = cx(d, h), v; u = (1 / std::sqrt(dt(u, u))) * u; v = (1 / len) * cx(d, u);
    bool inner = true; std::vector<q3> c; for (std::size_t k = 0; k < tets.size(); ++k) if (subset_of(e->first, mkset(tets[k]))) c.push_back(center4(p[tets[k][0]], p[tets[k][1]], p[tets[k][2]], p[tets[k][3]]));
    for (std::map<vset_t, int>::iterator f = faces.begin(); f != faces.end(); ++f) if (f->second == 1 && subset_of(e->first, f->first)) { std::vector<int> t(f->first.begin(), f->first.end()); c.push_back(center3(p[t[0]], p[t[1]], p[t[2]])); c.push_back(mid); inner = false; }
    std::vector<pt> w; for (std::size_t i = 0; i < c.size(); ++i) { q3 x = c[i] - mid; requires_(std::fabs(dt(x, d)) < 1e-9); w.push_back(pt(dt(x, u), dt(x, v))); } double A = e->second.total; if (convex || inner) { A = hull_area(w); ensures_true("interface", close_(e->second.total, A)); cover(inner ? "inner_edge" : "boundary_edge"); }
    ensures_true("edge_box_is_two_cones", close_(r.ebox[e->first].total, A * len / 3)); box[a] += A * len / 6; box[b] += A * len / 6; sum += A * len / 3;
  }
  for (std::map<int, double>::iterator b = box.begin(); b != box.end(); ++b) ensures_true("vertex_box", close_(r.vbox[vs(b->first)].total, b->second));
  if (convex) ensures_true("the_boxes_fill_the_mesh", close_(r.all(r.vbox), volume)); cover("end");
}
CONTRACT(single_tetrahedra, "apply_voronoi(tetrahedra)")
{
  lcg g(77 + choose("seed", 300)); std::vector<q3> p; double a = 0.7 + 0.3 * g.unit(), b = 0.7 + 0.3 * g.unit(), c = 0.7 + 0.3 * g.unit(), j = 0.15; q3 off(g.unit(), -g.unit(), 3 * g.unit());
  p.push_back(q3(0, 0, 0)); p.push_back(q3(a, b, 0)); p.push_back(q3(a, 0, c)); p.push_back(q3(0, b, c)); for (int i = 0; i < 4; ++i) p[i] = p[i] + off + q3(j * g.unit(), j * g.unit(), j * g.unit());
  requires_(in4(p, center4(p[0], p[1], p[2], p[3])) > 1e-3); for (int i = 0; i < 4; ++i) requires_(in3(p[i], p[(i + 1) % 4], p[(i + 2) % 4], center3(p[i], p[(i + 1) % 4], p[(i + 2) % 4])) > 1e-3);
  tuple_t t = tup(0, 1, 2, 3); nth_permutation(t, g.upto(24)); check_tets(p, std::vector<tuple_t>(1, t), true);
}
CONTRACT(body_centered_lattice, "apply_voronoi(tetrahedra)")
{
  lcg g(5 + choose("seed", 24)); double s[3]; for (int i = 0; i < 3; ++i) s[i] = 0.95 + 0.1 * g.unit(); std::vector<q3> p; std::vector<tuple_t> t;
  for (int z = 0; z < 3; ++z) for (int y = 0; y < 3; ++y) for (int x = 0; x < 3; ++x) p.push_back(q3(s[0] * x, s[1] * y, s[2] * z)); for (int z = 0; z < 2; ++z) for (int y = 0; y < 2; ++y) for (int x = 0; x < 2; ++x) p.push_back(q3(s[0] * (x + 0.5), s[1] * (y + 0.5), s[2] * (z + 0.5)));
  for (int ax = 0; ax < 3; ++ax) for (int k = 0; k < 4; ++k)
  {
    int d1 = (ax + 1) % 3, d2 = (ax + 2) % 3, o[3] = { 0, 0, 0 }; o[d1] = k & 1; o[d2] = k >> 1; int c1 = 27 + o[0] + 2 * o[1] + 4 * o[2], e[3] = { o[0], o[1], o[2] }; e[ax] = 1; int c2 = 27 + e[0] + 2 * e[1] + 4 * e[2]; int corner[4];
    for (int q = 0; q < 4; ++q) { int f[3]; f[ax] = 1; f[d1] = o[d1] + ((q ^ (q >> 1)) & 1); f[d2] = o[d2] + (q >> 1); corner[q] = f[0] + 3 * f[1] + 9 * f[2]; }
    for (int q = 0; q < 4; ++q) { tuple_t x = tup(c1, c2, corner[q], corner[(q + 1) % 4]); nth_permutation(x, g.upto(24)); t.push_back(x); }
  }
  for (std::size_t k = 0; k < t.size(); ++k) { std::vector<q3> v; for (int i = 0; i < 4; ++i) v.push_back(p[t[k][i]]); requires_(in4(v, center4(v[0], v[1], v[2], v[3])) > 1e-4); for (int i = 0; i < 4; ++i) requires_(in3(v[i], v[(i + 1) % 4], v[(i + 2) % 4], center3(v[i], v[(i + 1) % 4], v[(i + 2) % 4])) > 1e-4); }
  for (std::size_t k = t.size(); k > 1; --k) std::swap(t[k - 1], t[g.upto((int)k)]); check_tets(p, t, false);
}
