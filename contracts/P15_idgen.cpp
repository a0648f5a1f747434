// KIND: sym
// FRAGILE: yes
// TIME: 120
// P15 (proof part): class invariant of the id generator, established by construction and preserved by every operation from an arbitrary state:
// "the next generated id is larger than every id issued or registered so far". By induction over the history ids are unique.
#include "symid.hpp"
typedef viennagrid::mesh< symid_config<viennagrid::config::triangular_2d> > M;
typedef viennagrid::result_of::vertex<M>::type V; typedef V::id_type id_type;
typedef viennagrid::make_typemap<V, viennagrid::smart_id_tag<real> >::type config;
typedef viennagrid::result_of::continuous_id_generator<config>::type gen;
// an arbitrary reachable state: m is the largest id issued so far (ghost), -1 if none
static gen arbitrary(real & m)
{
  gen g; viennagrid::detail::tag<V> t;
  if (choose("fresh", 2)) { m = -1; return g; }
  m = input("issued"); requires_(m >= 0); g.set_max_id(id_type(m));
  return g;
}
CONTRACT(generate, "continuous_id_generator_layer::operator()")
{
  real m; gen g = arbitrary(m); viennagrid::detail::tag<V> t;
  real a = g(t).get(), b = g(t).get();
  ensures("new_id_is_larger_than_all_issued", a > m); ensures("ids_differ", b > a); ensures("max_id_is_next", g.max_id(t).get() > b); cover("end");
}
CONTRACT(register_id, "continuous_id_generator_layer::set_max_id")
{
  real m; gen g = arbitrary(m); viennagrid::detail::tag<V> t;
  real x = input("explicit_id"); requires_(x >= 0); requires_(x != m);
  g.set_max_id(id_type(x)); real a = g(t).get();
  ensures("larger_than_registered", a > x); ensures("larger_than_issued", a > m); cover("end");
}
CONTRACT(interleaved, "continuous_id_generator_layer::set_max_id; operator()")
{ // registered ids may equal the next one the generator would give
  real m; gen g = arbitrary(m); viennagrid::detail::tag<V> t; real a = g(t).get();
  real x = input("explicit_id"); requires_(x > a); g.set_max_id(id_type(x)); real b = g(t).get(); real c = g(t).get();
  ensures("fresh_1", And(b > a, b != x)); ensures("fresh_2", And(c != x, c > b)); cover("end");
}
CONTRACT(mesh_level, "make_vertex; make_vertex_with_id; physical_insert_id_dispatcher")
{
  M mesh; typedef viennagrid::result_of::point<M>::type P; real x = input("id"); requires_(x >= 0);
  viennagrid::result_of::vertex_handle<M>::type a = viennagrid::make_vertex_with_id(mesh, id_type(x), P());
  viennagrid::result_of::vertex_handle<M>::type b = viennagrid::make_vertex(mesh), c = viennagrid::make_vertex(mesh);
  ensures_eq("id_kept", (*a).id().get(), x);
  ensures("fresh", And((*b).id().get() != x, (*c).id().get() != x, (*b).id().get() != (*c).id().get())); cover("end");
}
