// KIND: bounded
// BOUND: the histories of P17 (up to 3 or 4 cells, queries in between, two segments), neighbors of cells and of facets over every connector kind
// TIME: 300
// P18: neighbors of an element are exactly the other elements of its kind that share a connector element with it, once each, never stale.
#include "history.hpp"
template <typename M> struct neighbors_of
{
  SEG<M> & m; typedef typename TM<M>::cell_tag CT; neighbors_of(SEG<M> & mm) : m(mm) {}
  template <typename Tag, typename Con, typename Host> void compare(Host & host, std::set<vset_t> const & el, std::set<vset_t> const & con)
  {
    Host const & chost = host;
    typedef typename viennagrid::result_of::element_range<Host, Tag>::type R; typedef typename viennagrid::result_of::iterator<R>::type I; R r(host);
    typedef typename viennagrid::result_of::neighbor_range<Host, Tag, Con>::type NR; typedef typename viennagrid::result_of::const_neighbor_range<Host, Tag, Con>::type CNR;
    for (I i = r.begin(); i != r.end(); ++i)
    {
      vset_t s = m.set(*i); if (!el.count(s)) continue; mset_t want;
      for (std::set<vset_t>::const_iterator k = el.begin(); k != el.end(); ++k) if (*k != s)
      { bool share = false; for (std::set<vset_t>::const_iterator c = con.begin(); c != con.end(); ++c) if (subset_of(*c, s) && subset_of(*c, *k)) share = true; if (share) want.insert(*k); }
      NR a(host, i.handle()); ensures_true("neighbors", collect(m, a) == want);
      CNR b(chost, i.handle()); ensures_true("neighbors_const", collect(m, b) == want);
      NR c = viennagrid::neighbor_elements<Tag, Con>(host, i.handle()); ensures_true("neighbor_elements", collect(m, c) == want);
    }
  }
  template <typename Tag, typename Con> void pair()
  {
    compare<Tag, Con>(m.mesh, m.template model<Tag>(), m.template model<Con>());
    for (int k = 0; k < 2; ++k) compare<Tag, Con>(*m.s[k], m.template in_segment<Tag>(k), m.template in_segment<Con>(k));
  }
  void all(viennagrid::line_tag) { pair<CT, viennagrid::vertex_tag>(); }
  void all(viennagrid::triangle_tag) { pair<CT, viennagrid::vertex_tag>(); pair<CT, viennagrid::line_tag>(); pair<viennagrid::line_tag, viennagrid::vertex_tag>(); }
  void all(viennagrid::quadrilateral_tag) { all(viennagrid::triangle_tag()); }
  void all(viennagrid::tetrahedron_tag) { all(viennagrid::triangle_tag()); pair<CT, viennagrid::triangle_tag>(); pair<viennagrid::triangle_tag, viennagrid::line_tag>(); }
  void all(viennagrid::hexahedron_tag) { all(viennagrid::triangle_tag()); pair<CT, viennagrid::quadrilateral_tag>(); pair<viennagrid::quadrilateral_tag, viennagrid::line_tag>(); }
};
struct check_neighbors { template <typename M> void operator()(SEG<M> & m) { neighbors_of<M> c(m); c.all(typename TM<M>::cell_tag()); } };
template <typename F> void neighbors() { check_neighbors c; histories<F>(c); }
FOR_INCIDENCE_FAMILIES(neighbors, "neighbor_elements; create_neighbor_information; neighbor_range; is_obsolete")
