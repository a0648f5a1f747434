// the triangle cases of P29
#ifndef P29_TRIANGLE_HPP
#define P29_TRIANGLE_HPP
#include "p29_run.hpp"
#define FUNS "apply_voronoi; detail::write_voronoi_info; detail::line_intersection; detail::point_to_local_coordinates; detail::voronoi_unique_quantity_update"
// one triangle: A, B = A + D, C = A + t D + h D' with D' = D turned by 90 degrees; every triangle has this form
static void triangle_case(bool obtuse, int order, int side)
{
  typedef viennagrid::triangular_2d_mesh M; TM<M> m; P2 A = sympoint<P2>("A"), d = sympoint<P2>("d"); real t = input("t"), h = input("h"); requires_(dotp(d, d) > 0); if (side) requires_(h > 0); else requires_(h < 0);
  P2 n; n[0] = -d[1]; n[1] = d[0]; put(m, A); put(m, addp(A, d)); put(m, addp(A, addp(mulp(d, t), mulp(n, h))));
  tuple_t o = tup(0, 1, 2); nth_permutation(o, order); real D = dotp(d, d); real ah = h > 0 ? h : -h;
  // angle at C: obtuse iff (A-C).(B-C) < 0, i.e. h^2 < t(1-t); in that case AB is the longest edge
  if (obtuse) { requires_(h * h < t * (real(1) - t)); lemma_("t_positive", t > 0); lemma_("t_below_one", real(1) - t > 0); lemma_("la", t * t + h * h < t); lemma_("lb", (real(1) - t) * (real(1) - t) + h * h < real(1) - t); } else { requires_(h * h >= t * (real(1) - t)); requires_(t >= 0); requires_(t <= real(1)); }
  m.add_cell(o); voronoi_run<M> r(m); r.sums_agree(); using vsym::sqrt; real L = sqrt(D);
  ensures_eq("the_boxes_fill_the_triangle", r.vbox[vs(0)].total + r.vbox[vs(1)].total + r.vbox[vs(2)].total, D * ah / 2);
  real la = t * t + h * h, lb = (real(1) - t) * (real(1) - t) + h * h, k = (h * h - t * (real(1) - t)) / (ah * 2);   // squared lengths of AC and BC over D; signed distance circumcenter - midpoint AB over L
  if (!obtuse)
  {
    ensures_eq("interface_AB", r.interface[vs(0, 1)].total, L * k); ensures_eq("edge_box_AB", r.ebox[vs(0, 1)].total * 2, D * k);
    // box of A: |AB|^2 cot(C)/8 + |AC|^2 cot(B)/8
    real cotA = t / ah, cotB = (real(1) - t) / ah, cotC = (h * h - t * (real(1) - t)) / ah;
    ensures_eq("box_of_A", r.vbox[vs(0)].total * 8, D * (cotC + la * cotB)); ensures_eq("box_of_B", r.vbox[vs(1)].total * 8, D * (cotC + lb * cotA)); ensures_eq("box_of_C", r.vbox[vs(2)].total * 8, D * (la * cotB + lb * cotA));
    ensures_eq("edge_box_AC", r.ebox[vs(0, 2)].total * 4, D * la * cotB); ensures_eq("edge_box_BC", r.ebox[vs(1, 2)].total * 4, D * lb * cotA);
    ensures_eq("interface_AC_squared", r.interface[vs(0, 2)].total * r.interface[vs(0, 2)].total * 4, D * la * cotB * cotB); ensures_le("interface_AC_sign", 0, r.interface[vs(0, 2)].total);
    ensures_eq("interface_BC_squared", r.interface[vs(1, 2)].total * r.interface[vs(1, 2)].total * 4, D * lb * cotA * cotA); ensures_le("interface_BC_sign", 0, r.interface[vs(1, 2)].total);
  }
  else
  {
    // the bisector of AC leaves the triangle through AB at distance L*la/(2t) from A; the part of A is the right triangle below it
    real xa = la / (t * 2), xb = lb / ((real(1) - t) * 2);
    ensures_eq("box_of_A", r.vbox[vs(0)].total * 4, D * ah * xa); ensures_eq("box_of_B", r.vbox[vs(1)].total * 4, D * ah * xb);
    ensures_eq("nothing_across_AB", r.interface[vs(0, 1)].total, 0); ensures_eq("no_box_on_AB", r.ebox[vs(0, 1)].total, 0);
    // length of the bisector inside the triangle: tan(A) |AC| / 2
    ensures_eq("interface_AC_squared", r.interface[vs(0, 2)].total * r.interface[vs(0, 2)].total * 4 * t * t, D * la * h * h); ensures_le("interface_AC_sign", 0, r.interface[vs(0, 2)].total);
    ensures_eq("interface_BC_squared", r.interface[vs(1, 2)].total * r.interface[vs(1, 2)].total * 4 * (real(1) - t) * (real(1) - t), D * lb * h * h); ensures_le("interface_BC_sign", 0, r.interface[vs(1, 2)].total);
  }
  cover("end");
}
// two triangles ABC (obtuse at C) and ABE sharing the longest edge of the first: the part of the circumcenter beyond AB is accounted to the neighbor,
// the totals are those of the Voronoi diagram (cotangent formulas with signs). All shapes, sizes and positions, in the frame in which AB is parallel to an axis (other frames: P29_meshes.cpp).
static void pair_case(int order)
{
  typedef viennagrid::triangular_2d_mesh M; TM<M> m; P2 A = sympoint<P2>("A"), d; d[0] = input("l"); d[1] = 0; real t = input("t"), h = input("h"), s = input("s"), g = input("g"); requires_(d[0] > 0); requires_(h > 0); requires_(g > 0);
  real one(1); real sd = choose("side", 2) ? one : real(-1);
  requires_(h * h < t * (one - t)); lemma_("t_positive", t > 0); lemma_("t_below_one", one - t > 0);
  requires_(s > 0); requires_(s < one); requires_(g * g > s * (one - s));
  P2 n; n[0] = -d[1] * sd; n[1] = d[0] * sd; put(m, A); put(m, addp(A, d)); put(m, addp(A, addp(mulp(d, t), mulp(n, h)))); put(m, addp(A, addp(mulp(d, s), mulp(n, -g))));
  tuple_t o = tup(0, 1, 2); nth_permutation(o, order); if (order & 1) { m.add_cell(o); m.add_cell(tup(0, 1, 3)); } else { m.add_cell(tup(1, 3, 0)); m.add_cell(o); }
  voronoi_run<M> r(m); r.sums_agree(); using vsym::sqrt; real D = dotp(d, d), L = sqrt(D);
  real la = t * t + h * h, lb = (one - t) * (one - t) + h * h, ea = s * s + g * g, eb = (one - s) * (one - s) + g * g;
  real cA = t / h, cB = (one - t) / h, cC = (h * h - t * (one - t)) / h, dA = s / g, dB = (one - s) / g, dE = (g * g - s * (one - s)) / g;
  ensures_eq("interface_AB", r.interface[vs(0, 1)].total * 2, L * (cC + dE)); ensures_eq("edge_box_AB", r.ebox[vs(0, 1)].total * 4, D * (cC + dE));
  ensures_eq("box_of_A", r.vbox[vs(0)].total * 8, D * (cC + la * cB + dE + ea * dB)); ensures_eq("box_of_B", r.vbox[vs(1)].total * 8, D * (cC + lb * cA + dE + eb * dA));
  ensures_eq("box_of_C", r.vbox[vs(2)].total * 8, D * (la * cB + lb * cA)); ensures_eq("box_of_E", r.vbox[vs(3)].total * 8, D * (ea * dB + eb * dA));
  ensures_eq("edge_box_AC", r.ebox[vs(0, 2)].total * 4, D * la * cB); ensures_eq("edge_box_BC", r.ebox[vs(1, 2)].total * 4, D * lb * cA);
  real iac = r.interface[vs(0, 2)].total; ensures_eq("interface_AC_squared", iac * iac * 4, D * la * cB * cB); ensures_le("interface_AC_sign", 0, iac);
  cover("end");
}
#define OB(K, S) CONTRACT(triangle_obtuse_at_the_boundary_##K##_##S, FUNS) { triangle_case(true, K, S); }
#define PAIR(K) CONTRACT(obtuse_with_neighbor_##K, FUNS) { pair_case(K); }
#endif
