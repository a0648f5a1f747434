// KIND: ghost
// TIME: 60
// P30: accessors and fields over every container size, every element id and every content.
#include "ghost_containers.hpp"
#include "viennagrid/accessor.hpp"
template <typename A> real * opt(real * p) { return p; }
// dense: i is the id, n the size; j any other element of the container
template <typename C> C & make(C & c) { return c; }
struct dense_state { real n, i, j; dense_state() : n(input("n")), i(input("i")), j(input("j")) { requires_(n >= 0); requires_(i >= 0); requires_(j >= 0); requires_(i != j); requires_(Or(i <= n - real(1), i >= n)); requires_(Or(j <= n - real(1), j >= n)); } };
template <typename A, typename E> bool at_throws(A & a, E const & e, real const * & p) { try { p = &a.at(e); return false; } catch (std::out_of_range &) { return true; } }
template <typename A> void dense_read(A & acc, gdense & c, dense_state const & s)
{
  gelement x(s.i); bool there = s.i < s.n; real const * p = acc.find(x); real * want = there ? &c.slot(gint(s.i)) : 0;
  ensures_true("find_is_null_exactly_for_missing_data", (p == 0) == !there); ensures_true("find_returns_the_entry_of_the_element", !there || p == want);
  p = 0; bool thrown = at_throws(acc, x, p); ensures_true("at_throws_exactly_for_missing_data", thrown == !there); ensures_true("at_returns_the_entry_of_the_element", thrown || p == want);
  ensures_true("reading_does_not_grow_the_container", c.resizes == 0);
  ensures_true("is_valid", acc.is_valid());
}
template <typename A> void dense_write(A & acc, gdense & c, dense_state const & s)
{
  gelement x(s.i), y(s.j); bool had_y = s.j < s.n; real old_y = had_y ? real(c.slot(gint(s.j))) : real(0); bool there = s.i < s.n; real old_x = there ? real(c.slot(gint(s.i))) : real(0);
  real & r = acc(x); ensures_true("access_returns_the_entry_of_the_element", &r == &c.slot(gint(s.i))); ensures_eq("present_data_is_kept", r, old_x);
  ensures_eq("size", c.n, there ? s.n : s.i + real(1));
  real v = input("v"); acc(x) = v; ensures_eq("written_value_is_read_back", acc(x), v); ensures_true("find_after_write", acc.find(x) == &c.slot(gint(s.i))); ensures_eq("at_after_write", acc.at(x), v);
  if (had_y) { ensures_eq("other_elements_are_not_touched", *acc.find(y), old_y); ensures_eq("other_elements_are_not_touched_2", acc(y), old_y); }
}
#define D "dense_container_accessor; dense_container_field: find, at, operator(), is_valid"
typedef viennagrid::dense_container_accessor<gdense, gelement> DA; typedef viennagrid::dense_container_accessor<gdense const, gelement> DCA; typedef viennagrid::dense_container_field<gdense, gelement> DF; typedef viennagrid::dense_container_field<gdense const, gelement> DCF;
CONTRACT(dense_accessor_read, D) { dense_state s; gdense c(s.n); DA a(c); if (choose("const", 2)) { DA const & b = a; dense_read(b, c, s); if (s.i < s.n) ensures_true("const_access", &b(gelement(s.i)) == &c.slot(gint(s.i))); } else dense_read(a, c, s); ensures_true("default_is_invalid", !DA().is_valid()); cover("end"); }
CONTRACT(dense_accessor_write, D) { dense_state s; gdense c(s.n); DA a(c); dense_write(a, c, s); cover("end"); }
CONTRACT(dense_const_accessor, D) { dense_state s; gdense c(s.n); gdense const & cc = c; DCA a(cc); dense_read(a, c, s); if (s.i < s.n) ensures_true("const_access", &a(gelement(s.i)) == &c.slot(gint(s.i))); ensures_true("default_is_invalid", !DCA().is_valid()); cover("end"); }
template <typename F> void field_default(F const & f, gdense & c, dense_state const & s, real const & dflt) { gelement x(s.i); if (s.i < s.n) ensures_eq("stored_value", f(x), c.slot(gint(s.i))); else ensures_eq("default_for_missing_data", f(x), dflt); ensures_true("reading_does_not_grow_the_container", c.resizes == 0); }
CONTRACT(dense_field_read, D) { dense_state s; gdense c(s.n); real d = input("default"); int k = choose("ctor", 2); DF f = k ? DF(c, d) : DF(c); dense_read(f, c, s); field_default(f, c, s, k ? d : real(0)); ensures_true("default_is_invalid", !DF().is_valid()); cover("end"); }
CONTRACT(dense_field_write, D) { dense_state s; gdense c(s.n); DF f(c, input("default")); dense_write(f, c, s); cover("end"); }
CONTRACT(dense_const_field, D) { dense_state s; gdense c(s.n); gdense const & cc = c; real d = input("default"); int k = choose("ctor", 2); DCF f = k ? DCF(cc, d) : DCF(cc); dense_read(f, c, s); field_default(f, c, s, k ? d : real(0)); ensures_true("default_is_invalid", !DCF().is_valid()); cover("end"); }
// associative
struct map_state { real i, j; map_state() : i(input("i")), j(input("j")) { requires_(i != j); } };
template <typename A> void map_read(A & acc, gmap & c, map_state const & s)
{
  gelement x(s.i); gmap::entry * want = c.lookup(x.id()); real const * p = acc.find(x); ensures_true("find_is_null_exactly_for_missing_data", (p == 0) == (want == 0)); ensures_true("find_returns_the_entry_of_the_element", !want || p == &want->second);
  p = 0; bool thrown = at_throws(acc, x, p); ensures_true("at_throws_exactly_for_missing_data", thrown == (want == 0)); ensures_true("at_returns_the_entry_of_the_element", thrown || p == &want->second); ensures_true("reading_creates_nothing", c.created == 0); ensures_true("is_valid", acc.is_valid());
}
template <typename A> void map_write(A & acc, gmap & c, map_state const & s)
{
  gelement x(s.i), y(s.j); gmap::entry * ex = c.lookup(x.id()), * ey = c.lookup(y.id()); real ox = ex ? real(ex->second) : real(0), oy = ey ? real(ey->second) : real(0);
  real & r = acc(x); ensures_true("access_returns_the_entry_of_the_element", c.lookup(x.id()) && &r == &c.lookup(x.id())->second); ensures_eq("present_data_is_kept", r, ox); ensures_true("at_most_one_entry_created", c.created == (ex ? 0 : 1));
  real v = input("v"); acc(x) = v; ensures_eq("written_value_is_read_back", acc(x), v); ensures_eq("at_after_write", acc.at(x), v); ensures_true("find_after_write", acc.find(x) == &r);
  ensures_true("other_elements_are_not_created", (acc.find(y) != 0) == (ey != 0)); if (ey) ensures_eq("other_elements_are_not_touched", *acc.find(y), oy);
}
typedef viennagrid::std_map_accessor<gmap, gelement> MA; typedef viennagrid::std_map_accessor<gmap const, gelement> MCA; typedef viennagrid::std_map_field<gmap, gelement> MF; typedef viennagrid::std_map_field<gmap const, gelement> MCF;
#define MM "std_map_accessor; std_map_field: find, at, operator(), is_valid"
CONTRACT(map_accessor_read, MM) { map_state s; gmap c; MA a(c); if (choose("const", 2)) { MA const & b = a; map_read(b, c, s); gmap::entry * e = c.lookup(gid(s.i)); if (e) ensures_true("const_access", &b(gelement(s.i)) == &e->second); } else map_read(a, c, s); ensures_true("default_is_invalid", !MA().is_valid()); cover("end"); }
CONTRACT(map_accessor_write, MM) { map_state s; gmap c; MA a(c); map_write(a, c, s); cover("end"); }
CONTRACT(map_const_accessor, MM) { map_state s; gmap c; gmap const & cc = c; MCA a(cc); map_read(a, c, s); gmap::entry * e = c.lookup(gid(s.i)); if (e) ensures_true("const_access", &a(gelement(s.i)) == &e->second); ensures_true("default_is_invalid", !MCA().is_valid()); cover("end"); }
template <typename F> void map_default(F const & f, gmap & c, map_state const & s, real const & d) { gelement x(s.i); gmap::entry * e = c.lookup(x.id()); if (e) ensures_eq("stored_value", f(x), e->second); else ensures_eq("default_for_missing_data", f(x), d); ensures_true("reading_creates_nothing", c.created == 0); }
CONTRACT(map_field_read, MM) { map_state s; gmap c; real d = input("default"); int k = choose("ctor", 2); MF f = k ? MF(c, d) : MF(c); map_read(f, c, s); map_default(f, c, s, k ? d : real(0)); ensures_true("default_is_invalid", !MF().is_valid()); cover("end"); }
CONTRACT(map_field_write, MM) { map_state s; gmap c; MF f(c, input("default")); map_write(f, c, s); cover("end"); }
CONTRACT(map_const_field, MM) { map_state s; gmap c; gmap const & cc = c; real d = input("default"); int k = choose("ctor", 2); MCF f = k ? MCF(cc, d) : MCF(cc); map_read(f, c, s); map_default(f, c, s, k ? d : real(0)); ensures_true("default_is_invalid", !MCF().is_valid()); cover("end"); }
// the run-time polymorphic wrappers forward to the wrapped accessor
CONTRACT(dynamic_wrappers, "dynamic_accessor_wrapper; dynamic_field_wrapper")
{
  dense_state s; gdense c(s.n); DA a(c); gelement x(s.i); real d = input("default"); viennagrid::dynamic_accessor_wrapper<DA> w(a); viennagrid::base_dynamic_accessor<real, gelement> & b = w; viennagrid::base_dynamic_accessor<real, gelement> const & cb = w;
  viennagrid::dynamic_field_wrapper<DF> fw(DF(c, d)); viennagrid::base_dynamic_field<real, gelement> & f = fw; viennagrid::base_dynamic_field<real, gelement> const & cf = fw;
  viennagrid::dynamic_accessor_wrapper<DCA const> cw(DCA((gdense const &)c)); viennagrid::base_dynamic_accessor<real const, gelement> const & cc = cw; viennagrid::dynamic_field_wrapper<DCF const> cfw(DCF((gdense const &)c, d)); viennagrid::base_dynamic_field<real const, gelement> const & ccf = cfw;
  bool there = s.i < s.n; real * want = there ? &c.slot(gint(s.i)) : 0; real const * p;
  ensures_true("find", b.find(x) == want && cb.find(x) == want && f.find(x) == want && cf.find(x) == want && cc.find(x) == want && ccf.find(x) == want);
  ensures_true("at", at_throws(b, x, p) == !there && at_throws(cb, x, p) == !there && at_throws(f, x, p) == !there && at_throws(cf, x, p) == !there && at_throws(cc, x, p) == !there && at_throws(ccf, x, p) == !there);
  ensures_eq("field_value", cf(x), there ? *want : d); ensures_eq("const_field_value", ccf(x), there ? *want : d); if (there) { ensures_true("value", &cb(x) == want && &cc(x) == want); }
  ensures_true("write_access", &(choose("which", 2) ? b(x) : f(x)) == &c.slot(gint(s.i))); cover("end");
}
