// KIND: bounded
// BOUND: meshes of up to 3 lines on 4 vertices, 3 triangles on 5, 3 tetrahedra on 5 or 6 vertices, rows of 3 quadrilaterals or hexahedra; one or two erased elements of any kind (together or one after the other), caches filled or not, then one erased or new cell created
// TIME: 150
// P22: erasing removes exactly the marked elements and those containing them; everything else keeps id, vertices, position and identity.
#include "history.hpp"
#include "viennagrid/mesh/element_deletion.hpp"
// the state of a mesh: per dimension the elements present with their ids
typedef std::map<vset_t, int> kind_state; typedef std::map<int, kind_state> state_t;
template <typename M> struct observe_kind
{
  TM<M> & m; state_t & st; bool ok; observe_kind(TM<M> & mm, state_t & s) : m(mm), st(s), ok(true) {}
  template <typename Tag> void on()
  {
    typedef typename viennagrid::result_of::element_range<M, Tag>::type R; typedef typename viennagrid::result_of::iterator<R>::type I; R r(m.mesh); st[(int)Tag::dim]; std::set<int> ids;
    for (I i = r.begin(); i != r.end(); ++i)
    {
      ok = ok && st[(int)Tag::dim].insert(std::make_pair(m.set(*i), (int)(*i).id().get())).second && ids.insert((int)(*i).id().get()).second;
      ok = ok && viennagrid::find(m.mesh, (*i).id()) != r.end() && &*viennagrid::find(m.mesh, (*i).id()) == &*i;
    }
    ok = ok && r.size() == st[(int)Tag::dim].size();
  }
};
template <typename M> state_t observe(TM<M> & m, char const * what)
{ state_t st; observe_kind<M> o(m, st); kinds<typename TM<M>::cell_tag>::each(o); o.template on<typename TM<M>::cell_tag>(); ensures_true(what, o.ok); return st; }
// every cell refers to existing boundary elements, the right ones, at the right positions
template <typename M> struct consistent_kind
{
  TM<M> & m; std::map<int, tuple_t> const & tup; consistent_kind(TM<M> & mm, std::map<int, tuple_t> const & t) : m(mm), tup(t) {}
  template <typename Tag> void on()
  {
    typedef typename TM<M>::cell_type C; typedef typename viennagrid::result_of::cell_range<M>::type CR; typedef typename viennagrid::result_of::iterator<CR>::type CI;
    typedef typename viennagrid::result_of::element_range<C, Tag>::type BR; typedef typename viennagrid::result_of::iterator<BR>::type BI;
    typedef typename viennagrid::result_of::element_range<M, Tag>::type R; typedef typename viennagrid::result_of::iterator<R>::type I; R r(m.mesh);
    std::set<void const *> objects; for (I i = r.begin(); i != r.end(); ++i) objects.insert(&*i);
    CR cr(m.mesh);
    for (CI c = cr.begin(); c != cr.end(); ++c)
    {
      std::map<int, tuple_t>::const_iterator t = tup.find((int)c->id().get()); ensures_true("cell_known", t != tup.end()); if (t == tup.end()) continue;
      BR br(*c); std::vector<tuple_t> ref = ref_elements<typename TM<M>::cell_tag, Tag>(t->second); std::size_t k = 0;
      for (BI b = br.begin(); b != br.end(); ++b, ++k)
      {
        ensures_true("refers_to_existing_element", objects.count(&*b) == 1); if (!objects.count(&*b)) continue;
        ensures_true("boundary_element_kept", k < ref.size() && m.set(*b) == mkset(ref[k]));
      }
      ensures_true("boundary_count", k == ref.size());
    }
  }
};
template <typename M> void consistent(TM<M> & m, std::map<int, tuple_t> const & tup)
{
  consistent_kind<M> c(m, tup); kinds<typename TM<M>::cell_tag>::each(c);
  typedef typename viennagrid::result_of::vertex_range<M>::type R; typedef typename viennagrid::result_of::iterator<R>::type I; R r(m.mesh);
  for (I i = r.begin(); i != r.end(); ++i) { typename TM<M>::point_type p = TM<M>::place(m.index_of(i->id())), q = viennagrid::point(*i); bool eq = true; for (std::size_t k = 0; k < p.size(); ++k) eq = eq && p[k] == q[k]; ensures_true("position_kept", eq); }
}
template <typename M> struct eraser
{
  typedef typename viennagrid::result_of::mesh_view<M>::type view_type;
  TM<M> & m; int dim; int index; bool mark; view_type & view; std::vector<vset_t> & gone;
  eraser(TM<M> & mm, int d, int i, bool k, view_type & v, std::vector<vset_t> & g) : m(mm), dim(d), index(i), mark(k), view(v), gone(g) {}
  template <typename Tag> void on()
  {
    if (Tag::dim != dim) return;
    typedef typename viennagrid::result_of::element_range<M, Tag>::type R; typedef typename viennagrid::result_of::iterator<R>::type I; R r(m.mesh); I i = r.begin(); std::advance(i, index);
    gone.push_back(m.set(*i)); if (mark) viennagrid::mark_erase_elements(m.mesh, view, i.handle()); else viennagrid::erase_element(m.mesh, i.handle());
  }
  void run() { kinds<typename TM<M>::cell_tag>::each(*this); on<typename TM<M>::cell_tag>(); }
};
template <typename M> void apply_model(state_t & st, std::vector<vset_t> const & gone)
{ for (state_t::iterator k = st.begin(); k != st.end(); ++k) for (kind_state::iterator e = k->second.begin(); e != k->second.end();) { bool dead = false; for (std::size_t g = 0; g < gone.size(); ++g) if (subset_of(gone[g], e->first)) dead = true; if (dead) k->second.erase(e++); else ++e; } }
template <typename M> struct boundary_after
{
  TM<M> & m; state_t & st; typedef typename TM<M>::cell_tag CT; typedef typename TM<M>::facet_tag FT; boundary_after(TM<M> & mm, state_t & s) : m(mm), st(s) {}
  template <typename Tag> void on()
  {
    typedef typename viennagrid::result_of::element_range<M, Tag>::type R; typedef typename viennagrid::result_of::iterator<R>::type I; R r(m.mesh);
    typedef typename viennagrid::result_of::coboundary_range<M, Tag, CT>::type CR;
    for (I i = r.begin(); i != r.end(); ++i)
    {
      vset_t s = m.set(*i); mset_t want; kind_state & cs = st[(int)CT::dim]; for (kind_state::iterator c = cs.begin(); c != cs.end(); ++c) if (subset_of(s, c->first)) want.insert(c->first);
      CR co(m.mesh, i.handle()); ensures_true("coboundary_after_erase", collect(m, co) == want);
      if (Tag::dim == FT::dim && want.size() <= 2) ensures_true("boundary_after_erase", viennagrid::is_boundary(m.mesh, *i) == (want.size() == 1));
    }
  }
};
template <typename M> void check_all(TM<M> & m, state_t & want, std::map<int, tuple_t> const & tup, char const * what)
{
  state_t got = observe(m, "unique_and_findable"); ensures_true(what, got == want); consistent(m, tup);
  boundary_after<M> b(m, want); kinds<typename TM<M>::cell_tag>::each(b);
}
template <typename F> void erase_()
{
  typedef typename F::mesh M; TM<M> m; int nv; std::vector<tuple_t> cells = F::cells(nv); m.add_vertices(nv); for (std::size_t i = 0; i < cells.size(); ++i) m.add_cell(cells[i]);
  std::map<int, tuple_t> tup; for (std::size_t i = 0; i < cells.size(); ++i) tup[(int)viennagrid::dereference_handle(m.mesh, m.c[i]).id().get()] = cells[i];
  state_t st = observe(m, "before"); if (choose("warm", 2)) { boundary_after<M> b(m, st); kinds<typename TM<M>::cell_tag>::each(b); }
  int top = (int)TM<M>::cell_tag::dim, mode = choose("mode", 3);                       // 0: one element, 1: two marked together, 2: two after one another
  typename eraser<M>::view_type view = viennagrid::make_view(m.mesh); std::vector<vset_t> gone;
  int d = choose("kind", top + 1), i = choose("element", (int)st[d].size());
  eraser<M>(m, d, i, mode == 1, view, gone).run();
  if (mode == 2) { apply_model<M>(st, gone); check_all(m, st, tup, "exactly_the_rest_remains"); }
  if (mode)
  {
    int d2 = choose("kind2", top + 1); requires_(!st[d2].empty()); int n = (int)st[d2].size(), i2 = n <= 3 ? choose("element2", n) : (choose("element2", 3) * (n - 1)) / 2;
    if (d2 == d && mode == 1) requires_(i2 != i); eraser<M>(m, d2, i2, mode == 1, view, gone).run();
  }
  if (mode == 1) viennagrid::erase_elements(m.mesh, view);
  apply_model<M>(st, gone); check_all(m, st, tup, "exactly_the_rest_remains");
  // insert one of the original cells again (if its vertices survive): existing parts are reused
  std::map<int, int> vid; for (kind_state::iterator v = st[0].begin(); v != st[0].end(); ++v) vid[*v->first.begin()] = v->second;
  for (std::size_t c = 0; c < cells.size(); ++c)
  {
    bool can = !st[top].count(mkset(cells[c])); for (std::size_t k = 0; k < cells[c].size(); ++k) can = can && vid.count(cells[c][k]); if (!can) continue;
    std::vector<typename TM<M>::vertex_handle> h; typedef typename viennagrid::result_of::vertex<M>::type V;
    for (std::size_t k = 0; k < cells[c].size(); ++k) h.push_back(viennagrid::find(m.mesh, typename V::id_type(vid[cells[c][k]])).handle());
    typename TM<M>::cell_handle nh = viennagrid::make_element<typename TM<M>::cell_type>(m.mesh, h.begin(), h.end()); int nid = (int)viennagrid::dereference_handle(m.mesh, nh).id().get();
    ensures_true("fresh_id", !tup.count(nid)); tup[nid] = cells[c];
    state_t after = observe(m, "unique_after_reinsertion"); bool kept = true; for (state_t::iterator k = st.begin(); k != st.end(); ++k) for (kind_state::iterator e = k->second.begin(); e != k->second.end(); ++e) kept = kept && after[k->first].count(e->first) && after[k->first][e->first] == e->second;
    ensures_true("existing_elements_reused", kept); consistent(m, tup); st = after; break;
  }
  cover("end");
}
CONTRACT(erase_lines, "erase_element; erase_elements; mark_erase_elements; erase_functor; switch_handle") { erase_<inc_line>(); }
CONTRACT(erase_triangles, "erase_element; erase_elements; mark_erase_elements; erase_functor; switch_handle") { erase_<inc_tri>(); }
CONTRACT(erase_tetrahedra, "erase_element; erase_elements; mark_erase_elements; erase_functor; switch_handle") { erase_<inc_tet>(); }
CONTRACT(erase_quadrilaterals, "erase_element; erase_elements; mark_erase_elements; erase_functor; switch_handle") { erase_<inc_quad>(); }
CONTRACT(erase_hexahedra, "erase_element; erase_elements; mark_erase_elements; erase_functor; switch_handle") { erase_<inc_hex>(); }
