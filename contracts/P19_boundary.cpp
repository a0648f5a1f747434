// KIND: bounded
// BOUND: the histories of P17 restricted to meshes in which a facet has at most two cells
// TIME: 300
// P19: a facet is on the boundary of a mesh or segment exactly when one of its cells belongs to it; lower elements exactly when they lie on such a facet.
#include "history.hpp"
template <typename M> struct boundary_of
{
  SEG<M> & m; typedef typename TM<M>::cell_tag CT; typedef typename TM<M>::facet_tag FT; boundary_of(SEG<M> & mm) : m(mm) {}
  std::set<vset_t> bnd; std::set<vset_t> cells;
  void facets(std::vector<int> const * sel)
  {
    std::set<vset_t> f = m.template model<FT>(sel); cells = m.template model<CT>(sel); bnd.clear();
    for (std::set<vset_t>::iterator i = f.begin(); i != f.end(); ++i) { int n = 0; for (std::set<vset_t>::iterator c = cells.begin(); c != cells.end(); ++c) if (subset_of(*i, *c)) ++n; requires_(n <= 2); if (n == 1) bnd.insert(*i); }
  }
  template <typename Tag, typename Host> void compare(Host & host, std::set<vset_t> const & el)
  {
    typedef typename viennagrid::result_of::const_element_range<Host, Tag>::type R; typedef typename viennagrid::result_of::iterator<R>::type I; R r(host);
    for (I i = r.begin(); i != r.end(); ++i)
    {
      vset_t s = m.set(*i); if (!el.count(s)) continue; bool want = false;
      for (std::set<vset_t>::iterator b = bnd.begin(); b != bnd.end(); ++b) if (subset_of(s, *b)) want = true;
      ensures_true(Tag::dim == FT::dim ? "facet_on_boundary_iff_one_cell" : "element_on_boundary_iff_on_boundary_facet", viennagrid::is_boundary(host, *i) == want);
    }
  }
  template <typename Tag> void on()
  {
    facets(0); compare<Tag>(m.mesh, m.template model<Tag>());
    for (int k = 0; k < 2; ++k) { facets(&m.sel[k]); compare<Tag>(*m.s[k], m.template in_segment<Tag>(k)); }
  }
};
struct check_boundary { int rev; template <typename M> void operator()(SEG<M> & m) { boundary_of<M> c(m); if (rev) { c.template on<typename TM<M>::facet_tag>(); } kinds<typename TM<M>::cell_tag>::each(c); } };
template <typename F> void boundary() { check_boundary c; c.rev = choose("facets_first", 2); histories<F>(c); }
FOR_INCIDENCE_FAMILIES(boundary, "is_boundary; detect_boundary; transfer_boundary_information; boundary_setter_functor")

// element-element form: exactly the boundary elements of the host are on its boundary
template <typename M> struct host_boundary_of
{
  TM<M> & m; host_boundary_of(TM<M> & mm) : m(mm) {}
  template <typename Tag> void on()
  {
    typedef typename viennagrid::result_of::element_range<M, Tag>::type R; typedef typename viennagrid::result_of::iterator<R>::type I; R r(m.mesh);
    for (std::size_t c = 0; c < m.c.size(); ++c)
    {
      std::vector<tuple_t> b = ref_elements<typename TM<M>::cell_tag, Tag>(m.cells[c]); std::set<vset_t> s; for (std::size_t i = 0; i < b.size(); ++i) s.insert(mkset(b[i]));
      for (I i = r.begin(); i != r.end(); ++i) ensures_true("host_boundary", viennagrid::is_boundary(viennagrid::dereference_handle(m.mesh, m.c[c]), *i) == (s.count(m.set(*i)) > 0));
    }
  }
};
template <typename F> void host_boundary()
{
  TM<typename F::mesh> m; int nv; std::vector<tuple_t> cells = F::cells(nv); m.add_vertices(nv); for (std::size_t i = 0; i < cells.size(); ++i) m.add_cell(cells[i]);
  host_boundary_of<typename F::mesh> h(m); kinds<typename TM<typename F::mesh>::cell_tag>::each(h); cover("end");
}
FOR_INCIDENCE_FAMILIES(host_boundary, "is_boundary(element, element)")
