// P09: angles, dihedral angles and solid angles -- for every non-degenerate input.
#include "common.hpp"
#include "viennagrid/algorithm/angle.hpp"
#include "viennagrid/algorithm/inner_prod.hpp"
#include "viennagrid/algorithm/cross_prod.hpp"
#include "viennagrid/algorithm/norm.hpp"

static P3 crossv(P3 const & a, P3 const & b) { P3 x; x[0]=a[1]*b[2]-a[2]*b[1]; x[1]=a[2]*b[0]-a[0]*b[2]; x[2]=a[0]*b[1]-a[1]*b[0]; return x; }
static real perp2(P2 const & a, P2 const & b) { real d = det2(a,b); return d*d; }
static real perp2(P3 const & a, P3 const & b) { P3 x = crossv(a,b); return dotp(x,x); }

// Cauchy-Schwarz for the pair (Lagrange identity), proved and then used as a lemma
template <typename P> void cauchy(P const & a, P const & b)
{
  real la = sqrt(dotp(a,a)), lb = sqrt(dotp(b,b)), ab = dotp(a,b);
  lemma_("lagrange", la*la*lb*lb - ab*ab >= perp2(a,b));
  lemma_("nonneg", And(la >= 0, lb >= 0, la*lb >= 0));
}
template <typename P> void angle2()
{
  P a = sympoint<P>("a"), b = sympoint<P>("b");
  requires_(dotp(a,a) > 0); requires_(dotp(b,b) > 0);
  if (vsym::symbolic())
  {
    // la*lb >= |ab| from (la lb)^2 >= ab^2
    real la = sqrt(dotp(a,a)), lb = sqrt(dotp(b,b)), ab = dotp(a,b);
    real X = vsym::generalize("X", la*lb), Y = vsym::generalize("Y", ab); requires_(X == la*lb); requires_(Y == ab);
    lemma_("lagrange", X*X - Y*Y == perp2(a,b));
    lemma_("perp_nonneg", perp2(a,b) >= 0);
    requires_(X >= 0);                               // product of roots
    lemma_("cauchy_schwarz_upper", ab <= la*lb); lemma_("cauchy_schwarz_lower", ab >= -(la*lb));
  }
  real w = viennagrid::angle(a, b);
  ensures_eq("cosine_law", cos(w) * sqrt(dotp(a,a)) * sqrt(dotp(b,b)), dotp(a,b));
  ensures("range", w >= 0);
  cover("end");
}
CONTRACT(angle_2d, "viennagrid::angle(v,w) in 2d") { angle2<P2>(); }
CONTRACT(angle_3d, "viennagrid::angle(v,w) in 3d") { angle2<P3>(); }
template <typename P> void angle_origin()
{
  P a = sympoint<P>("a"), b = sympoint<P>("b"), o = sympoint<P>("o");
  requires_(dotp(sub(a,o),sub(a,o)) > 0); requires_(dotp(sub(b,o),sub(b,o)) > 0);
  ensures_eq("angle_at_origin", cos(viennagrid::angle(a, b, o)), cos(viennagrid::angle(sub(a,o), sub(b,o))));
  cover("end");
}
CONTRACT(angle_origin_2d, "viennagrid::angle(p,q,origin)") { angle_origin<P2>(); }
CONTRACT(angle_origin_3d, "viennagrid::angle(p,q,origin)") { angle_origin<P3>(); }
CONTRACT(dihedral, "viennagrid::dihedral_angle")
{
  P3 p0 = sympoint<P3>("p"), p1 = sympoint<P3>("q"), p2 = sympoint<P3>("r"), q0 = sympoint<P3>("s"), q1 = sympoint<P3>("t"), q2 = sympoint<P3>("u");
  P3 n = crossv(sub(p1,p0), sub(p2,p0)), k = crossv(sub(q1,q0), sub(q2,q0));
  requires_(dotp(n,n) > 0); requires_(dotp(k,k) > 0);
  ensures_eq("angle_of_normals", viennagrid::dihedral_angle(p0,p1,p2,q0,q1,q2), viennagrid::angle(n, k));
  cover("end");
}
CONTRACT(solid_angle, "viennagrid::solid_angle")
{
  P3 a = sympoint<P3>("a"), b = sympoint<P3>("b"), c = sympoint<P3>("c"), o = sympoint<P3>("o");
  requires_(det3(a,b,c) != 0);
  real w = viennagrid::solid_angle(a, b, c);
  real al = sqrt(dotp(a,a)), bl = sqrt(dotp(b,b)), cl = sqrt(dotp(c,c));
  // van Oosterom-Strackee: tan(w/2) = |det| / (abc + (a.b)c + (a.c)b + (b.c)a)
  real den = al*bl*cl + dotp(a,b)*cl + dotp(a,c)*bl + dotp(b,c)*al, det = det3(a,b,c);
  real s = sin(w / real(2)), k = cos(w / real(2));
  ensures_eq("tangent_half_angle_squared", s*s*den*den, k*k*det*det);
  ensures_eq("tangent_half_angle", s*den, k*(det < 0 ? -det : det));
  ensures_eq("origin_form", viennagrid::solid_angle(addp(a,o), addp(b,o), addp(c,o), o), w);
  cover("end");
}
