// KIND: sym
// TIME: 420
// P29: Voronoi quantities: totals are the sums of the per-cell contributions; the boxes are the parts of the mesh closest to each vertex. For all coordinates.
#include "p29_triangle.hpp"
template <typename M> void two_lines()
{
  typedef typename TM<M>::point_type P; TM<M> m; for (int i = 0; i < 3; ++i) put(m, sympoint<P>(nm("p", i)));
  int o = choose("order", 4); m.add_cell(o & 1 ? tup(0, 1) : tup(1, 0)); m.add_cell(o & 2 ? tup(1, 2) : tup(2, 1));
  voronoi_run<M> r(m); r.sums_agree();
  P a = viennagrid::point(*m.v[0]), b = viennagrid::point(*m.v[1]), c = viennagrid::point(*m.v[2]); P d = sub(b, a), e = sub(c, b); using vsym::sqrt; real l0 = sqrt(dotp(d, d)), l1 = sqrt(dotp(e, e));
  ensures_eq("end_box", r.vbox[vs(0)].total, l0 / 2); ensures_eq("inner_box", r.vbox[vs(1)].total, (l0 + l1) / 2); ensures_eq("end_box_2", r.vbox[vs(2)].total, l1 / 2);
  ensures_eq("inner_from_first", r.vbox[vs(1)].of(0), l0 / 2); ensures_eq("inner_from_second", r.vbox[vs(1)].of(1), l1 / 2);
  ensures_eq("edge_box", r.ebox[vs(0, 1)].total, l0); ensures_eq("edge_box_2", r.ebox[vs(1, 2)].total, l1); ensures_eq("interface_is_one_point", r.interface[vs(0, 1)].total, real(1)); ensures_eq("interface_is_one_point_2", r.interface[vs(1, 2)].total, real(1));
  cover("end");
}
CONTRACT(lines, FUNS) { switch (choose("dim", 3)) { case 0: two_lines<viennagrid::line_1d_mesh>(); break; case 1: two_lines<viennagrid::line_2d_mesh>(); break; default: two_lines<viennagrid::line_3d_mesh>(); } }
// two rectangles sharing a side, in any position of the plane and with any edge lengths
CONTRACT(rectangles, FUNS)
{
  typedef viennagrid::quadrilateral_2d_mesh M; TM<M> m; P2 o = sympoint<P2>("o"), d = sympoint<P2>("d"); real s = input("s"), t = input("t"), u = input("u"); requires_(dotp(d, d) > 0); requires_(s > 0); requires_(t > 0); requires_(u > 0);
  P2 n; n[0] = -d[1]; n[1] = d[0]; real w = choose("side", 2) ? real(1) : real(-1);
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 2; ++j) { P2 p = addp(o, addp(mulp(d, i == 0 ? real(0) : i == 1 ? s : s + u), mulp(n, j == 0 ? real(0) : t * w))); put(m, p); }
  std::vector<tuple_t> cells = choose_boxes(2, 2, 8); for (int i = 0; i < 2; ++i) m.add_cell(cells[i]);
  voronoi_run<M> r(m); r.sums_agree(); using vsym::sqrt; real D = dotp(d, d), L = sqrt(D);
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 2; ++j)
  {
    int v = 2 * i + j; ensures_eq("vertex_box", r.vbox[vs(v)].total * 4, D * t * (i == 0 ? s : i == 1 ? s + u : u)); ensures_eq("vertex_box_in_first", r.vbox[vs(v)].of(0) * 4, i == 2 ? real(0) : D * t * s); ensures_eq("vertex_box_in_second", r.vbox[vs(v)].of(1) * 4, i == 0 ? real(0) : D * t * u);
    if (i < 2) { real len = i == 0 ? s : u; ensures_eq("interface_along", r.interface[vs(v, v + 2)].total * 2, L * t); ensures_eq("edge_box_along", r.ebox[vs(v, v + 2)].total * 4, D * t * len); }
    if (j == 0) { real w2 = i == 0 ? s : i == 1 ? s + u : u; ensures_eq("interface_across", r.interface[vs(v, v + 1)].total * 2, L * w2); ensures_eq("edge_box_across", r.ebox[vs(v, v + 1)].total * 4, D * t * w2); ensures_eq("interface_across_in_first", r.interface[vs(v, v + 1)].of(0) * 2, i == 2 ? real(0) : L * s); }
  }
  cover("end");
}
// two boxes sharing a face, axis-parallel, any position, size and direction of the axes
CONTRACT(boxes, FUNS)
{
  typedef viennagrid::hexahedral_3d_mesh M; TM<M> m; P3 o = sympoint<P3>("o"); real s = input("s"), u = input("u"), t = input("t"), w = input("w"); requires_(s > 0); requires_(u > 0); requires_(t > 0); requires_(w > 0); real sg = choose("mirrored", 2) ? real(-1) : real(1);
  for (int i = 0; i < 3; ++i) for (int k = 0; k < 2; ++k) for (int j = 0; j < 2; ++j) { P3 p; p[0] = o[0] + sg * (i == 0 ? real(0) : i == 1 ? s : s + u); p[1] = o[1] + real(j) * t; p[2] = o[2] + real(k) * w; put(m, p); }
  std::vector<tuple_t> cells = choose_boxes(3, 2, 6); for (int i = 0; i < 2; ++i) m.add_cell(cells[i]);
  voronoi_run<M> r(m); r.sums_agree();
  for (int i = 0; i < 3; ++i) for (int k = 0; k < 2; ++k) for (int j = 0; j < 2; ++j)
  {
    int v = 4 * i + 2 * k + j; real A = i == 0 ? s : i == 1 ? s + u : u;
    ensures_eq("vertex_box", r.vbox[vs(v)].total * 8, A * t * w); ensures_eq("vertex_box_in_first", r.vbox[vs(v)].of(0) * 8, i == 2 ? real(0) : s * t * w); ensures_eq("vertex_box_in_second", r.vbox[vs(v)].of(1) * 8, i == 0 ? real(0) : u * t * w);
    if (i < 2) { ensures_eq("interface_along", r.interface[vs(v, v + 4)].total * 4, t * w); ensures_eq("edge_box_along", r.ebox[vs(v, v + 4)].total * 12, t * w * (i == 0 ? s : u)); }
    if (j == 0) { ensures_eq("interface_across", r.interface[vs(v, v + 1)].total * 4, A * w); ensures_eq("interface_across_in_first", r.interface[vs(v, v + 1)].of(0) * 4, i == 2 ? real(0) : s * w); ensures_eq("edge_box_across", r.ebox[vs(v, v + 1)].total * 12, A * t * w); }
    if (k == 0) { ensures_eq("interface_up", r.interface[vs(v, v + 2)].total * 4, A * t); ensures_eq("edge_box_up", r.ebox[vs(v, v + 2)].total * 12, A * t * w); }
  }
  cover("end");
}
CONTRACT(triangle_acute, FUNS) { triangle_case(false, choose("order", 6), choose("side", 2)); }
OB(4, 0) OB(4, 1) OB(0, 0) OB(1, 1) PAIR(0) PAIR(3)
