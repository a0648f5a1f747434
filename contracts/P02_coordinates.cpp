// P02: coordinate systems are interchangeable: conversions preserve the location, arithmetic/inner product/norm in a
// SMT_TIMEOUT: 15
// curvilinear system equals the same operation on the Cartesian images -- for every input.
#include "common.hpp"
#include "viennagrid/algorithm/inner_prod.hpp"
#include "viennagrid/algorithm/cross_prod.hpp"
#include "viennagrid/algorithm/norm.hpp"

typedef viennagrid::spatial_point<real, viennagrid::polar_cs> PP;
typedef viennagrid::spatial_point<real, viennagrid::spherical_cs> PS;
typedef viennagrid::spatial_point<real, viennagrid::cylindrical_cs> PC;

// the textbook meaning of the coordinates (documented as (r,phi), (r,theta,phi), (rho,phi,z))
static P2 cart(PP const & p) { P2 r; r[0] = p[0] * cos(p[1]); r[1] = p[0] * sin(p[1]); return r; }
static P3 cart(PS const & p) { P3 r; r[0] = p[0] * sin(p[1]) * cos(p[2]); r[1] = p[0] * sin(p[1]) * sin(p[2]); r[2] = p[0] * cos(p[1]); return r; }
static P3 cart(PC const & p) { P3 r; r[0] = p[0] * cos(p[1]); r[1] = p[0] * sin(p[1]); r[2] = p[2]; return r; }
static P2 cart(P2 const & p) { return p; }
static P3 cart(P3 const & p) { return p; }

// precondition under which the representation of a Cartesian point is unique enough for atan2/acos (off the axis)
static void off_axis(P2 const & p) { requires_(p[0]*p[0] + p[1]*p[1] > 0); }
static void off_axis(P3 const & p) { requires_(p[0]*p[0] + p[1]*p[1] > 0); }

template <typename Q> void to_cart()
{
  Q q = sympoint<Q>("q");
  ensures_point_eq("to_cartesian_function", viennagrid::to_cartesian(q), cart(q));
  cover("end");
}
CONTRACT(polar_to_cartesian, "viennagrid::to_cartesian; coordinate_converter<polar_cs,cartesian_cs<2>>") { to_cart<PP>(); PP q = sympoint<PP>("q"); P2 c(q); ensures_point_eq("ctor", c, cart(q)); c = P2(); c = q; ensures_point_eq("assign", c, cart(q)); }
CONTRACT(spherical_to_cartesian, "viennagrid::to_cartesian; coordinate_converter<spherical_cs,cartesian_cs<3>>") { to_cart<PS>(); PS q = sympoint<PS>("q"); P3 c(q); ensures_point_eq("ctor", c, cart(q)); c = P3(); c = q; ensures_point_eq("assign", c, cart(q)); }
CONTRACT(cylindrical_to_cartesian, "viennagrid::to_cartesian; coordinate_converter<cylindrical_cs,cartesian_cs<3>>") { to_cart<PC>(); PC q = sympoint<PC>("q"); P3 c(q); ensures_point_eq("ctor", c, cart(q)); c = P3(); c = q; ensures_point_eq("assign", c, cart(q)); }

CONTRACT(cartesian_to_polar, "coordinate_converter<cartesian_cs<2>,polar_cs>")
{ P2 c = sympoint<P2>("c"); off_axis(c); PP q(c); ensures_point_eq("same_location", cart(q), c); ensures("radius_nonnegative", q[0] >= 0); PP r; r = c; ensures_point_eq("assign_same", r, q); cover("end"); }
CONTRACT(cartesian_to_spherical, "coordinate_converter<cartesian_cs<3>,spherical_cs>")
{ P3 c = sympoint<P3>("c"); off_axis(c); PS q(c); ensures_point_eq("same_location", cart(q), c); ensures("radius_nonnegative", q[0] >= 0); PS r; r = c; ensures_point_eq("assign_same", r, q); cover("end"); }
CONTRACT(cartesian_to_cylindrical, "coordinate_converter<cartesian_cs<3>,cylindrical_cs>")
{ P3 c = sympoint<P3>("c"); off_axis(c); PC q(c); ensures_point_eq("same_location", cart(q), c); ensures("radius_nonnegative", q[0] >= 0); PC r; r = c; ensures_point_eq("assign_same", r, q); cover("end"); }
CONTRACT(spherical_to_cylindrical, "coordinate_converter<spherical_cs,cylindrical_cs>")
{ PS s = sympoint<PS>("s"); PC q(s); ensures_point_eq("same_location", cart(q), cart(s)); cover("end"); }
CONTRACT(cylindrical_to_spherical, "coordinate_converter<cylindrical_cs,spherical_cs>")
{ PC s = sympoint<PC>("s"); requires_(s[0] > 0); PS q(s); ensures_point_eq("same_location", cart(q), cart(s)); ensures("radius_nonnegative", q[0] >= 0); cover("end"); }

// on the z axis / at the origin: the location is still preserved (concrete corner inputs, exact)
CONTRACT(axis_points, "coordinate_converter<cartesian_cs<3>,spherical_cs|cylindrical_cs> on the axis")
{
  P3 c; c[2] = input("z"); requires_(c[2] > 0);
  PS s(c); ensures_eq("spherical_r", s[0], c[2]); ensures_eq("spherical_z", s[0] * cos(s[1]), c[2]);
  PC y(c); ensures_eq("cylindrical_rho", y[0], 0); ensures_eq("cylindrical_z", y[2], c[2]);
  P3 o; PS so(o); PC co(o); ensures_eq("origin_spherical", so[0], 0); ensures_eq("origin_cylindrical", co[0], 0); ensures_eq("origin_cylindrical_z", co[2], 0);
  ensures_eq("origin_theta", so[1], 0);
  PC cz; cz[2] = input("z"); PS sz(cz); ensures_eq("cyl_axis_r", sz[0], cz[2]); ensures_eq("cyl_axis_z", sz[0] * cos(sz[1]), cz[2]);
  cover("end");
}

template <typename Q, typename P> void arithmetic()
{
  Q a = sympoint<Q>("a"), b = sympoint<Q>("b"); real f = input("f");
  P ca = cart(a), cb = cart(b);
  int op = choose("op", 6);
  if (op == 0) { off_axis(addp(ca, cb)); ensures_point_eq("add", cart(a + b), addp(ca, cb)); }
  if (op == 1) { off_axis(sub(ca, cb)); ensures_point_eq("subtract", cart(a - b), sub(ca, cb)); }
  if (op == 2) { off_axis(addp(ca, cb)); Q c = a; c += b; ensures_point_eq("inplace_add", cart(c), addp(ca, cb)); }
  if (op == 3) { off_axis(sub(ca, cb)); Q c = a; c -= b; ensures_point_eq("inplace_subtract", cart(c), sub(ca, cb)); }
  if (op == 4) { off_axis(mulp(ca, f)); ensures_point_eq("scale", cart(a * f), mulp(ca, f)); Q c = a; c *= f; ensures_point_eq("inplace_scale", cart(c), mulp(ca, f)); ensures_point_eq("scale_left", cart(f * a), mulp(ca, f)); }
  if (op == 5) { requires_(f != 0); off_axis(ca); ensures_point_eq("divide", mulp(cart(a / f), f), ca); Q c = a; c /= f; ensures_point_eq("inplace_divide", mulp(cart(c), f), ca); }
  cover("end");
}
CONTRACT(arithmetic_polar, "cs_base<polar_cs>::add/subtract/inplace_add/inplace_subtract; polar_cs::inplace_stretch") { arithmetic<PP, P2>(); }
CONTRACT(arithmetic_spherical, "cs_base<spherical_cs>::*; spherical_cs::inplace_stretch") { arithmetic<PS, P3>(); }
CONTRACT(arithmetic_cylindrical, "cs_base<cylindrical_cs>::*; cylindrical_cs::inplace_stretch") { arithmetic<PC, P3>(); }

template <typename Q1, typename Q2> void inner()
{
  Q1 a = sympoint<Q1>("a"); Q2 b = sympoint<Q2>("b");
  ensures_eq("inner_prod", viennagrid::inner_prod(a, b), dotp(cart(a), cart(b)));
  real n = viennagrid::norm_2(a); ensures_eq("norm2", n * n, dotp(cart(a), cart(a))); ensures("norm2_nonneg", n >= 0);
  cover("end");
}
CONTRACT(inner_mixed, "viennagrid::inner_prod over mixed coordinate systems; viennagrid::norm_2")
{
  switch (choose("pair", 9))
  {
    case 0: inner<PP, PP>(); break;
    case 1: inner<PP, P2>(); break;
    case 2: inner<P2, PP>(); break;
    case 3: inner<PS, PS>(); break;
    case 4: inner<PS, P3>(); break;
    case 5: inner<P3, PC>(); break;
    case 6: inner<PC, PC>(); break;
    case 7: inner<PS, PC>(); break;
    case 8: inner<PC, PS>(); break;
  }
}
template <typename Q1, typename Q2> void crossp()
{
  Q1 a = sympoint<Q1>("a"); Q2 b = sympoint<Q2>("b");
  P3 ca = cart(a), cb = cart(b); P3 x;
  x[0] = ca[1]*cb[2]-ca[2]*cb[1]; x[1] = ca[2]*cb[0]-ca[0]*cb[2]; x[2] = ca[0]*cb[1]-ca[1]*cb[0];
  off_axis(x);
  ensures_point_eq("cross_prod", cart(viennagrid::cross_prod(a, b)), x);
  cover("end");
}
CONTRACT(cross_mixed, "viennagrid::cross_prod over mixed coordinate systems")
{
  switch (choose("pair", 5))
  {
    case 0: crossp<PS, PS>(); break;
    case 1: crossp<PC, PC>(); break;
    case 2: crossp<P3, PS>(); break;
    case 3: crossp<PC, P3>(); break;
    case 4: crossp<PS, PC>(); break;
  }
}
