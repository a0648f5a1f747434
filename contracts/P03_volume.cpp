// SMT_TIMEOUT: 20
// P03: volume of simplices spanned by points and of every element kind -- for every coordinate assignment.
#include "onecell.hpp"
#include "viennagrid/algorithm/spanned_volume.hpp"
#include "viennagrid/algorithm/volume.hpp"

typedef viennagrid::spatial_point<real, viennagrid::polar_cs> PP;
typedef viennagrid::spatial_point<real, viennagrid::cylindrical_cs> PC;

CONTRACT(spanned_1, "viennagrid::spanned_volume(p,q); viennagrid::signed_spanned_volume(p,q)")
{
  switch (choose("dim", 3))
  {
    case 0: { P1 a = sympoint<P1>("a"), b = sympoint<P1>("b"); real v = viennagrid::spanned_volume(a, b); ensures_eq("length2", v*v, dotp(sub(a,b), sub(a,b))); ensures("nonneg", v >= 0); ensures_eq("signed", viennagrid::signed_spanned_volume(a, b), b[0] - a[0]); break; }
    case 1: { P2 a = sympoint<P2>("a"), b = sympoint<P2>("b"); real v = viennagrid::spanned_volume(a, b); ensures_eq("length2", v*v, dotp(sub(a,b), sub(a,b))); ensures("nonneg", v >= 0); break; }
    case 2: { P3 a = sympoint<P3>("a"), b = sympoint<P3>("b"); real v = viennagrid::spanned_volume(a, b); ensures_eq("length2", v*v, dotp(sub(a,b), sub(a,b))); ensures("nonneg", v >= 0); break; }
  }
  cover("end");
}
CONTRACT(spanned_2d_triangle, "viennagrid::spanned_volume(p,q,r) in 2d; viennagrid::signed_spanned_volume")
{
  P2 a = sympoint<P2>("a"), b = sympoint<P2>("b"), c = sympoint<P2>("c"), t = sympoint<P2>("t");
  real s = viennagrid::signed_spanned_volume(a, b, c), v = viennagrid::spanned_volume(a, b, c);
  ensures_eq("signed_is_half_det", s, det2(sub(b,a), sub(c,a)) / real(2));
  ensures_eq("volume_squared", v * v, s * s);
  ensures("nonneg", v >= 0);
  ensures_eq("swap_flips_sign", viennagrid::signed_spanned_volume(b, a, c), -s);
  ensures_eq("rotation_keeps_sign", viennagrid::signed_spanned_volume(b, c, a), s);
  ensures_eq("translation_invariant", viennagrid::signed_spanned_volume(addp(a,t), addp(b,t), addp(c,t)), s);
  ensures_eq("additive", viennagrid::signed_spanned_volume(a, b, t) + viennagrid::signed_spanned_volume(b, c, t) + viennagrid::signed_spanned_volume(c, a, t), s);
  cover("end");
}
CONTRACT(spanned_3d_triangle, "viennagrid::spanned_volume(p,q,r) in 3d")
{
  P3 a = sympoint<P3>("a"), b = sympoint<P3>("b"), c = sympoint<P3>("c");
  real v = viennagrid::spanned_volume(a, b, c);
  ensures_eq("four_area2_is_gram", real(4) * v * v, gram2(a, b, c));
  ensures("nonneg", v >= 0);
  ensures_eq("order_invariant", viennagrid::spanned_volume(b, a, c), v);
  ensures_eq("order_invariant2", viennagrid::spanned_volume(c, a, b), v);
  cover("end");
}
CONTRACT(spanned_3d_tetrahedron, "viennagrid::spanned_volume(p,q,r,s) in 3d; viennagrid::signed_spanned_volume")
{
  P3 a = sympoint<P3>("a"), b = sympoint<P3>("b"), c = sympoint<P3>("c"), d = sympoint<P3>("d"), t = sympoint<P3>("t");
  real s = viennagrid::signed_spanned_volume(a, b, c, d), v = viennagrid::spanned_volume(a, b, c, d);
  ensures_eq("signed_is_sixth_det", real(6) * s, det3(sub(b,a), sub(c,a), sub(d,a)));
  ensures_eq("volume_squared", v * v, s * s);
  ensures("nonneg", v >= 0);
  ensures_eq("swap_flips_sign", viennagrid::signed_spanned_volume(b, a, c, d), -s);
  ensures_eq("swap_flips_sign2", viennagrid::signed_spanned_volume(a, b, d, c), -s);
  ensures_eq("translation_invariant", viennagrid::signed_spanned_volume(addp(a,t), addp(b,t), addp(c,t), addp(d,t)), s);
  ensures_eq("additive", viennagrid::signed_spanned_volume(t, b, c, d) + viennagrid::signed_spanned_volume(a, t, c, d) + viennagrid::signed_spanned_volume(a, b, t, d) + viennagrid::signed_spanned_volume(a, b, c, t), s);
  cover("end");
}
CONTRACT(spanned_mixed, "viennagrid::spanned_volume with curvilinear points")
{
  if (choose("kind", 2) == 0)
  {
    PP a = sympoint<PP>("a"), b = sympoint<PP>("b"), c = sympoint<PP>("c");
    ensures_eq("polar_triangle", viennagrid::signed_spanned_volume(a, b, c), viennagrid::signed_spanned_volume(viennagrid::to_cartesian(a), viennagrid::to_cartesian(b), viennagrid::to_cartesian(c)));
    ensures_eq("polar_line", viennagrid::signed_spanned_volume(a, b), viennagrid::signed_spanned_volume(viennagrid::to_cartesian(a), viennagrid::to_cartesian(b)));
  }
  else
  {
    PC a = sympoint<PC>("a"), b = sympoint<PC>("b"), c = sympoint<PC>("c"), d = sympoint<PC>("d");
    ensures_eq("cyl_tet", viennagrid::signed_spanned_volume(a, b, c, d), viennagrid::signed_spanned_volume(viennagrid::to_cartesian(a), viennagrid::to_cartesian(b), viennagrid::to_cartesian(c), viennagrid::to_cartesian(d)));
  }
  cover("end");
}

// ---- elements ------------------------------------------------------------------------------------------
CONTRACT(volume_vertex_line, "viennagrid::volume(vertex|line)")
{
  { std::vector<P2> p = sympoints<P2>(2); one_cell<viennagrid::line_2d_mesh> m(p); real v = viennagrid::volume(m.cell()); ensures_eq("line2d", v*v, dotp(sub(p[0],p[1]), sub(p[0],p[1]))); ensures("line2d_nonneg", v >= 0);
    ensures_eq("vertex_is_one", viennagrid::volume(viennagrid::dereference_handle(m.mesh, m.v[0])), 1); }
  { std::vector<P3> p = sympoints<P3>(2); one_cell<viennagrid::line_3d_mesh> m(p); real v = viennagrid::volume(m.cell()); ensures_eq("line3d", v*v, dotp(sub(p[0],p[1]), sub(p[0],p[1]))); ensures("line3d_nonneg", v >= 0); }
  { std::vector<P1> p = sympoints<P1>(2); one_cell<viennagrid::line_1d_mesh> m(p); real v = viennagrid::volume(m.cell()); ensures_eq("line1d", v*v, dotp(sub(p[0],p[1]), sub(p[0],p[1]))); ensures("line1d_nonneg", v >= 0); }
  cover("end");
}
CONTRACT(volume_triangle, "viennagrid::volume(triangle)")
{
  { std::vector<P2> p = sympoints<P2>(3); one_cell<viennagrid::triangular_2d_mesh> m(p); real v = viennagrid::volume(m.cell()); real d = det2(sub(p[1],p[0]), sub(p[2],p[0])); ensures_eq("tri2d", real(4)*v*v, d*d); ensures("tri2d_nonneg", v >= 0);
    ensures_eq("explicit_accessor", viennagrid::volume(viennagrid::default_point_accessor(m.mesh), m.cell()), v); }
  { std::vector<P3> p = sympoints<P3>(3); one_cell<viennagrid::triangular_3d_mesh> m(p); real v = viennagrid::volume(m.cell()); ensures_eq("tri3d", real(4)*v*v, gram2(p[0],p[1],p[2])); ensures("tri3d_nonneg", v >= 0); }
  cover("end");
}
CONTRACT(volume_tetrahedron, "viennagrid::volume(tetrahedron)")
{
  std::vector<P3> p = sympoints<P3>(4); one_cell<viennagrid::tetrahedral_3d_mesh> m(p); real v = viennagrid::volume(m.cell());
  real d = det3(sub(p[1],p[0]), sub(p[2],p[0]), sub(p[3],p[0]));
  ensures_eq("tet", real(36)*v*v, d*d); ensures("tet_nonneg", v >= 0);
  cover("end");
}
// convex quadrilateral in the documented tensor (VTK_PIXEL) order: boundary cycle 0,1,3,2
static void convex_cycle(P2 const & a, P2 const & b, P2 const & c, P2 const & d)
{
  requires_(det2(sub(b,a), sub(c,a)) > 0); requires_(det2(sub(c,b), sub(d,b)) > 0);
  requires_(det2(sub(d,c), sub(a,c)) > 0); requires_(det2(sub(a,d), sub(b,d)) > 0);
}
CONTRACT(volume_quadrilateral_2d, "viennagrid::volume(quadrilateral) in 2d")
{
  std::vector<P2> p = sympoints<P2>(4);
  if (choose("orientation", 2) == 0) convex_cycle(p[0], p[1], p[3], p[2]); else convex_cycle(p[2], p[3], p[1], p[0]);
  one_cell<viennagrid::quadrilateral_2d_mesh> m(p); real v = viennagrid::volume(m.cell());
  real d = det2(sub(p[3],p[0]), sub(p[2],p[1]));      // cross product of the diagonals = +-2 area
  ensures_eq("quad2d", real(4)*v*v, d*d); ensures("quad2d_nonneg", v >= 0);
  cover("end");
}
CONTRACT(volume_quadrilateral_3d, "viennagrid::volume(quadrilateral) in 3d")
{
  // planar convex quadrilateral: p3 = p0 + s u + t w, u = p1-p0, w = p2-p0, convex iff s,t > 0 and s+t > 1
  P3 p0 = sympoint<P3>("p0"), u = sympoint<P3>("u"), w = sympoint<P3>("w"); real s = input("s"), t = input("t");
  requires_(s > 0); requires_(t > 0); requires_(s + t > 1);
  std::vector<P3> p; p.push_back(p0); p.push_back(addp(p0,u)); p.push_back(addp(p0,w)); p.push_back(addp(p0, addp(mulp(u,s), mulp(w,t))));
  one_cell<viennagrid::quadrilateral_3d_mesh> m(p); real v = viennagrid::volume(m.cell());
  real g = dotp(u,u)*dotp(w,w) - dotp(u,w)*dotp(u,w);
  ensures_eq("quad3d", real(4)*v*v, g*(s+t)*(s+t)); ensures("quad3d_nonneg", v >= 0);   // area = |u x w| (s+t)/2
  cover("end");
}
CONTRACT(volume_hexahedron_affine, "viennagrid::volume(hexahedron) on parallelepipeds")
{
  P3 p0 = sympoint<P3>("p0"), u = sympoint<P3>("u"), v = sympoint<P3>("v"), w = sympoint<P3>("w");
  std::vector<P3> p;
  for (int i = 0; i < 8; ++i) { P3 q = p0; if (i & 1) q = addp(q, u); if (i & 2) q = addp(q, v); if (i & 4) q = addp(q, w); p.push_back(q); }
  one_cell<viennagrid::hexahedral_3d_mesh> m(p); real vol = viennagrid::volume(m.cell());
  real d = det3(u, v, w);
  ensures_eq("parallelepiped", vol*vol, d*d); ensures("hex_nonneg", vol >= 0);
  cover("end");
}
// general planar-faced hexahedra: prisms over a convex quadrilateral (three prism axes), oblique extrusion, scaled top (frustum)
CONTRACT(volume_hexahedron_frustum, "viennagrid::volume(hexahedron) on frusta of convex quadrilaterals")
{
  // in the affine frame (e1,e2,e3) the base is (0,0),(1,0),(0,1),(s,t); top = base scaled by k (about the origin) and shifted by e3
  // the affine image is applied afterwards by volume_affine_covariance's argument: determinants scale by |det| -- here e1,e2,e3 are symbolic diagonal
  real s = input("s"), t = input("t"), k = input("k"), h = input("h"), lx = input("lx"), ly = input("ly");
  requires_(s > 0); requires_(t > 0); requires_(s + t > 1); requires_(k > 0); requires_(h > 0); requires_(lx > 0); requires_(ly > 0);
  int axis = choose("prism_axis", 3);
  std::vector<P3> p(8);
  for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) for (int top = 0; top < 2; ++top)
  {
    P3 q;
    real x = a && b ? s : real(a), y = a && b ? t : real(b);
    if (top) { x = x * k; y = y * k; }
    q[0] = x * lx; q[1] = y * ly; q[2] = top ? h : real(0);
    int bits[3]; bits[(axis + 1) % 3] = a; bits[(axis + 2) % 3] = b; bits[axis] = top;
    p[bits[0] + 2 * bits[1] + 4 * bits[2]] = q;
  }
  one_cell<viennagrid::hexahedral_3d_mesh> m(p); real vol = viennagrid::volume(m.cell());
  real area = (s + t) / real(2) * lx * ly;
  ensures_eq("frustum", vol, area * h * (real(1) + k + k*k) / real(3));
  cover("end");
}
CONTRACT(volume_polygon, "viennagrid::volume(polygon) in 2d, 3..6 vertices")
{
  int n = 3 + choose("n", 4);
  std::vector<P2> p = sympoints<P2>(n);
  one_cell<viennagrid::polygonal_2d_mesh> m(p); real v = viennagrid::volume(m.cell());
  real s = 0; for (int i = 0; i < n; ++i) s += det2(p[i], p[(i+1)%n]);    // shoelace
  ensures_eq("shoelace", real(4)*v*v, s*s); ensures("polygon_nonneg", v >= 0);
  cover("end");
}
