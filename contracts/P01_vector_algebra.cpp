// P01: vector-space laws of spatial points, inner product, cross product, norms -- for every input.
#include "common.hpp"
#include "viennagrid/algorithm/inner_prod.hpp"
#include "viennagrid/algorithm/cross_prod.hpp"
#include "viennagrid/algorithm/norm.hpp"

template <typename P> void algebra()
{
  P a = sympoint<P>("a"), b = sympoint<P>("b");
  P const a0 = a, b0 = b;
  real s = input("s"), t = input("t");
  P sum = a + b, dif = a - b, neg = -a, str = a * s;
  for (std::size_t i = 0; i < a.size(); ++i)
  {
    ensures_eq("add", sum[i], a0[i] + b0[i]);
    ensures_eq("subtract", dif[i], a0[i] - b0[i]);
    ensures_eq("negate", neg[i], real(0) - a0[i]);
    ensures_eq("scale", str[i], a0[i] * s);
    ensures_eq("operands_unchanged", a[i], a0[i]);
    ensures_eq("operands_unchanged", b[i], b0[i]);
  }
  P strl = s * a;
  ensures_point_eq("scale_commutes", strl, str);
  P c = a; P & rc = (c += b); ensures_point_eq("inplace_add", c, sum); ensures_true("inplace_returns_self", &rc == &c);
  P d = a; P & rd = (d -= b); ensures_point_eq("inplace_subtract", d, dif); ensures_true("inplace_returns_self", &rd == &d);
  P e = a; P & re = (e *= s); ensures_point_eq("inplace_scale", e, str); ensures_true("inplace_returns_self", &re == &e);
  // self-aliasing
  P f = a; f += f; ensures_point_eq("inplace_add_alias", f, a * real(2));
  P g = a; g -= g; ensures_point_eq("inplace_sub_alias", g, P());
  requires_(t != 0);
  P h = a / t; P k = a; k /= t;
  ensures_point_eq("divide", k, h);
  ensures_point_eq("divide_inverse_of_scale", h * t, a);
  P zero;
  for (std::size_t i = 0; i < zero.size(); ++i) ensures_eq("default_point_is_origin", zero[i], 0);
  cover("end");
}
CONTRACT(point_algebra_1d, "viennagrid::spatial_point<.,cartesian_cs<1>>::operators; cartesian_cs<1>::add/inplace_add/subtract/inplace_subtract/inplace_stretch") { algebra<P1>(); }
CONTRACT(point_algebra_2d, "viennagrid::spatial_point<.,cartesian_cs<2>>::operators; cartesian_cs<2>::*") { algebra<P2>(); }
CONTRACT(point_algebra_3d, "viennagrid::spatial_point<.,cartesian_cs<3>>::operators; cartesian_cs<3>::*") { algebra<P3>(); }

template <typename P> void products()
{
  P a = sympoint<P>("a"), b = sympoint<P>("b"), c = sympoint<P>("c");
  real s = input("s");
  ensures_eq("inner_prod_definition", viennagrid::inner_prod(a, b), dotp(a, b));
  ensures_eq("inner_prod_symmetric", viennagrid::inner_prod(a, b), viennagrid::inner_prod(b, a));
  ensures_eq("inner_prod_linear", viennagrid::inner_prod(a * s + c, b), s * viennagrid::inner_prod(a, b) + viennagrid::inner_prod(c, b));
  real n2 = viennagrid::norm_2(a);
  ensures_eq("norm2_squared", n2 * n2, dotp(a, a));
  ensures("norm2_nonnegative", n2 >= 0);
  ensures_eq("norm_default_is_norm2", viennagrid::norm(a), n2);
  cover("end");
}
CONTRACT(products_1d, "viennagrid::inner_prod; viennagrid::norm(.,two_tag)") { products<P1>(); }
CONTRACT(products_2d, "viennagrid::inner_prod; viennagrid::norm(.,two_tag)") { products<P2>(); }
CONTRACT(products_3d, "viennagrid::inner_prod; viennagrid::norm(.,two_tag)") { products<P3>(); }

template <typename P> void norms()
{
  P a = sympoint<P>("a");
  real n1 = viennagrid::norm_1(a), ni = viennagrid::norm_inf(a), n2 = viennagrid::norm_2(a);
  real s = 0; real m = 0;
  for (std::size_t i = 0; i < a.size(); ++i) { real v = a[i] < 0 ? -a[i] : a[i]; s += v; if (v > m) m = v; }
  ensures_eq("norm1_is_sum_of_abs", n1, s);
  ensures_eq("norm_inf_is_max_of_abs", ni, m);
  ensures_eq("norm_tags", viennagrid::norm(a, viennagrid::one_norm_tag()), n1);
  ensures_eq("norm_tags", viennagrid::norm(a, viennagrid::inf_norm_tag()), ni);
  ensures_eq("norm_tags", viennagrid::norm(a, viennagrid::two_norm_tag()), n2);
  ensures_le("norm_inf_le_norm2", ni * ni, n2 * n2);
  ensures_le("norm2_le_norm1", n2 * n2, n1 * n1);
  cover("end");
}
CONTRACT(norms_1d, "viennagrid::norm(.,one_tag|inf_tag|two_tag)") { norms<P1>(); }
CONTRACT(norms_2d, "viennagrid::norm(.,one_tag|inf_tag|two_tag)") { norms<P2>(); }
CONTRACT(norms_3d, "viennagrid::norm(.,one_tag|inf_tag|two_tag)") { norms<P3>(); }

CONTRACT(cross_product, "viennagrid::cross_prod")
{
  P3 a = sympoint<P3>("a"), b = sympoint<P3>("b"), c = sympoint<P3>("c");
  real s = input("s");
  P3 x = viennagrid::cross_prod(a, b);
  ensures_eq("orthogonal_to_first", dotp(x, a), 0);
  ensures_eq("orthogonal_to_second", dotp(x, b), 0);
  ensures_eq("lagrange_identity", dotp(x, x), dotp(a, a) * dotp(b, b) - dotp(a, b) * dotp(a, b));
  ensures_eq("right_handed_triple_product", dotp(x, c), det3(a, b, c));
  P3 y = viennagrid::cross_prod(b, a);
  ensures_point_eq("antisymmetric", mulp(y, real(-1)), x);
  ensures_point_eq("bilinear", viennagrid::cross_prod(a * s + c, b), addp(mulp(x, s), viennagrid::cross_prod(c, b)));
  cover("end");
}
template <typename P> void minmax()
{
  P a = sympoint<P>("a"), b = sympoint<P>("b");
  P lo = viennagrid::min(a, b), hi = viennagrid::max(a, b);
  for (std::size_t i = 0; i < a.size(); ++i)
  {
    ensures("min_le_both", And(lo[i] <= a[i], lo[i] <= b[i]));
    ensures("max_ge_both", And(hi[i] >= a[i], hi[i] >= b[i]));
    ensures_eq("min_plus_max", lo[i] + hi[i], a[i] + b[i]);
  }
  cover("end");
}
CONTRACT(minmax_2d, "viennagrid::min; viennagrid::max") { minmax<P2>(); }
CONTRACT(minmax_3d, "viennagrid::min; viennagrid::max") { minmax<P3>(); }
