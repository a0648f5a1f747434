// KIND: bounded
// BOUND: std::vector, std::deque and std::map containers with 0 to 3 entries, all sequences of 3 operations on 4 vertices or 4 cells of a mesh
// TIME: 60
// P30: accessors and fields over the standard containers, on the elements of a real mesh; made by make_accessor and make_field.
#include "topo.hpp"
#include "viennagrid/accessor.hpp"
typedef viennagrid::triangular_2d_mesh M; typedef viennagrid::result_of::vertex<M>::type V; typedef viennagrid::result_of::cell<M>::type T;
struct mesh4 { TM<M> m; mesh4() { m.add_vertices(6); for (int i = 0; i < 4; ++i) { tuple_t t; t.push_back(i); t.push_back(i + 1); t.push_back(i + 2); m.add_cell(t); } } V & get(int i, V *) { return *m.v[i]; } T & get(int i, T *) { return *m.c[i]; } };
template <typename X> int & slot(std::vector<int> & c, X & x) { return c[x.id().get()]; } template <typename X> bool has(std::vector<int> & c, X & x) { return (int)c.size() > x.id().get(); }
template <typename X> int & slot(std::deque<int> & c, X & x) { return c[x.id().get()]; } template <typename X> bool has(std::deque<int> & c, X & x) { return (int)c.size() > x.id().get(); }
template <typename K, typename X> int & slot(std::map<K, int> & c, X & x) { return c.find(x.id())->second; } template <typename K, typename X> bool has(std::map<K, int> & c, X & x) { return c.count(x.id()) > 0; }
template <typename X> void init(std::vector<int> & c, mesh4 &, int n, X *) { for (int i = 0; i < n; ++i) c.push_back(100 + i); }
template <typename X> void init(std::deque<int> & c, mesh4 &, int n, X *) { for (int i = 0; i < n; ++i) c.push_back(100 + i); }
template <typename K, typename X> void init(std::map<K, int> & c, mesh4 & m, int n, X *) { for (int i = 0; i < n; ++i) c[m.get(3 - i, (X *)0).id()] = 100 + i; }
typedef std::map<int, int> model_t;
template <typename C, typename X> model_t model_of(C & c, mesh4 & m, X *) { model_t o; for (int i = 0; i < 4; ++i) if (has(c, m.get(i, (X *)0))) o[i] = slot(c, m.get(i, (X *)0)); return o; }
template <typename A, typename X> void reads(A & a, model_t const & md, X & x, int i, bool field)
{
  bool there = md.count(i) > 0; int const * p = a.find(x); ensures_true("find_is_null_exactly_for_missing_data", (p != 0) == there); if (p && there) ensures_true("find_value", *p == md.find(i)->second);
  int v = 0; bool thrown = false; try { v = a.at(x); } catch (std::out_of_range &) { thrown = true; } ensures_true("at_throws_exactly_for_missing_data", thrown == !there); ensures_true("at_value", thrown || v == md.find(i)->second);
}
template <typename C, typename X> void run(bool dense)
{
  mesh4 m; C c; init(c, m, choose("entries", 4), (X *)0); C const & cc = c; int dflt = choose("default", 2) ? 77 : 0; bool field = choose("field", 2) == 1;
  typename viennagrid::result_of::accessor<C, X>::type acc = viennagrid::make_accessor<X>(c); typename viennagrid::result_of::accessor<const C, X>::type cacc = viennagrid::make_accessor<X>(cc);
  typename viennagrid::result_of::field<C, X>::type f = dflt ? typename viennagrid::result_of::field<C, X>::type(c, dflt) : viennagrid::make_field<X>(c); typename viennagrid::result_of::field<const C, X>::type cf = dflt ? typename viennagrid::result_of::field<const C, X>::type(cc, dflt) : viennagrid::make_field<X>(cc);
  ensures_true("is_valid", acc.is_valid() && cacc.is_valid() && f.is_valid() && cf.is_valid() && !typename viennagrid::result_of::accessor<C, X>::type().is_valid() && !typename viennagrid::result_of::field<C, X>::type().is_valid() && !typename viennagrid::result_of::accessor<const C, X>::type().is_valid() && !typename viennagrid::result_of::field<const C, X>::type().is_valid());
  model_t md = model_of(c, m, (X *)0);
  for (int step = 0; step < 3; ++step)
  {
    int i = choose("element", 4); X & x = m.get(i, (X *)0);
    switch (choose("op", 3))
    {
      case 0: { int v = 10 + step; if (field) f(x) = v; else acc(x) = v; if (dense) for (int k = 0; k < i; ++k) if (!md.count(k)) md[k] = 0; md[i] = v; break; }
      case 1: { int got = field ? f(x) : acc(x); if (dense) for (int k = 0; k < i; ++k) if (!md.count(k)) md[k] = 0; if (!md.count(i)) md[i] = 0; ensures_true("value_or_new", got == md[i]); break; }
      default:
        reads(acc, md, x, i, false); reads(cacc, md, x, i, false); reads(f, md, x, i, true); reads(cf, md, x, i, true); typename viennagrid::result_of::field<C, X>::type const & kf = f; typename viennagrid::result_of::accessor<C, X>::type const & ka = acc; reads(kf, md, x, i, true); reads(ka, md, x, i, false);
        ensures_true("field_default", kf(x) == (md.count(i) ? md[i] : dflt) && cf(x) == (md.count(i) ? md[i] : dflt)); if (md.count(i)) ensures_true("const_value", ka(x) == md[i] && cacc(x) == md[i]);
    }
    ensures_true("content", model_of(c, m, (X *)0) == md);
  }
  cover("end");
}
#define FUNS "make_accessor; make_field; accessor_container; dense_container_accessor; std_map_accessor; dense_container_field; std_map_field; id_unpack; base_id_unpack"
template <typename X, typename Tag> struct cont { typedef typename viennagrid::result_of::accessor_container<X, int, Tag>::type type; };
CONTRACT(vector_on_vertices, FUNS) { run<cont<V, viennagrid::std_vector_tag>::type, V>(true); }
CONTRACT(vector_on_cells, FUNS) { run<cont<T, viennagrid::std_vector_tag>::type, T>(true); }
CONTRACT(deque_on_cells, FUNS) { run<cont<T, viennagrid::std_deque_tag>::type, T>(true); }
CONTRACT(map_on_vertices, FUNS) { run<cont<V, viennagrid::std_map_tag>::type, V>(false); }
CONTRACT(map_on_cells, FUNS) { run<cont<T, viennagrid::std_map_tag>::type, T>(false); }
CONTRACT(large_ids, FUNS) { M m; std::vector<V *> v; for (int i = 0; i < 70000; ++i) viennagrid::make_vertex(m, viennagrid::result_of::point<M>::type(i, 0)); std::vector<int> c; viennagrid::result_of::accessor<std::vector<int>, V>::type a(c); for (int i = 69999; i >= 0; i -= 13) a(viennagrid::vertices(m)[i]) = i; bool ok = true; for (int i = 69999; i >= 0; i -= 13) ok = ok && a(viennagrid::vertices(m)[i]) == i; ensures_true("separate_entries", ok); cover("end"); }
CONTRACT(points, "appendix_accessor; default_point_accessor; point(); set_point()")
{
  mesh4 m; viennagrid::result_of::default_point_accessor<M>::type a = viennagrid::default_point_accessor(m.m.mesh); viennagrid::result_of::default_point_accessor<M>::type const & ca = a; int i = choose("element", 4), j = choose("other", 4); requires_(i != j); typedef viennagrid::result_of::point<M>::type P; P before = viennagrid::point(*m.m.v[j]);
  P q(3, 4); a(*m.m.v[i]) = q; V const & cv = *m.m.v[i]; ensures_true("is_valid", a.is_valid()); ensures_true("same_entry", a.find(*m.m.v[i]) == &viennagrid::point(m.m.mesh, m.m.v[i]) && &ca(cv) == &viennagrid::point(cv) && &a.at(*m.m.v[i]) == &a(*m.m.v[i]) && ca.find(cv) == &ca.at(cv)); ensures_true("value", viennagrid::point(*m.m.v[i])[0] == 3 && viennagrid::point(*m.m.v[i])[1] == 4); ensures_true("others", viennagrid::point(*m.m.v[j])[0] == before[0] && viennagrid::point(*m.m.v[j])[1] == before[1]); cover("end");
}
