// KIND: bounded
// BOUND: all histories building a mesh of up to 3 lines on 4 vertices, 3 triangles on 5, 4 surface triangles on 4, 3 tetrahedra on 5 or 6 vertices, rows of 3 quadrilaterals or hexahedra, with queries after every subset of the steps and every assignment of the cells to two segments, then one erasure from a segment, a copy or an assignment of the mesh
// TIME: 300
// P17: the coboundary of an element is the set of elements of the requested kind that contain it, never stale.
#include "history.hpp"
template <typename M> struct coboundary_of
{
  SEG<M> & m; typedef typename TM<M>::cell_tag CT; coboundary_of(SEG<M> & mm) : m(mm) {}
  template <typename Tag, typename Co, typename Host> void compare(Host & host, std::set<vset_t> const & elements, std::set<vset_t> const & co)
  {
    Host const & chost = host;
    typedef typename viennagrid::result_of::element_range<Host, Tag>::type R; typedef typename viennagrid::result_of::iterator<R>::type I; R r(host);
    typedef typename viennagrid::result_of::coboundary_range<Host, Tag, Co>::type CR; typedef typename viennagrid::result_of::const_coboundary_range<Host, Tag, Co>::type CCR;
    std::size_t seen = 0;
    for (I i = r.begin(); i != r.end(); ++i)
    {
      vset_t s = m.set(*i); if (!elements.count(s)) continue; ++seen; mset_t want; for (std::set<vset_t>::const_iterator k = co.begin(); k != co.end(); ++k) if (subset_of(s, *k)) want.insert(*k);
      CR a(host, i.handle()); ensures_true("coboundary", collect(m, a) == want);
      CCR b(chost, i.handle()); ensures_true("coboundary_const", collect(m, b) == want); ensures_true("size", b.size() == want.size());
      CR c = viennagrid::coboundary_elements<Tag, Co>(host, i.handle()); ensures_true("coboundary_elements", collect(m, c) == want);
    }
    ensures_true("all_elements_present", seen == elements.size());
  }
  template <typename Tag, typename Co> void pair()
  {
    compare<Tag, Co>(m.mesh, m.template model<Tag>(), m.template model<Co>());
    for (int k = 0; k < 2; ++k) compare<Tag, Co>(*m.s[k], m.template in_segment<Tag>(k), m.template in_segment<Co>(k));
  }
  void all(viennagrid::line_tag) { pair<viennagrid::vertex_tag, CT>(); }
  void all(viennagrid::triangle_tag) { pair<viennagrid::vertex_tag, CT>(); pair<viennagrid::line_tag, CT>(); pair<viennagrid::vertex_tag, viennagrid::line_tag>(); }
  void all(viennagrid::quadrilateral_tag) { all(viennagrid::triangle_tag()); }
  void all(viennagrid::tetrahedron_tag) { all(viennagrid::triangle_tag()); pair<viennagrid::triangle_tag, CT>(); pair<viennagrid::line_tag, viennagrid::triangle_tag>(); pair<viennagrid::vertex_tag, viennagrid::triangle_tag>(); }
  void all(viennagrid::hexahedron_tag) { all(viennagrid::triangle_tag()); pair<viennagrid::quadrilateral_tag, CT>(); pair<viennagrid::line_tag, viennagrid::quadrilateral_tag>(); pair<viennagrid::vertex_tag, viennagrid::quadrilateral_tag>(); }
};
struct check_coboundary { template <typename M> void operator()(SEG<M> & m) { coboundary_of<M> c(m); c.all(typename TM<M>::cell_tag()); } };
template <typename F> void coboundary() { check_coboundary c; histories<F>(c); }
FOR_INCIDENCE_FAMILIES(coboundary, "coboundary_elements; create_coboundary_information; coboundary_range; is_obsolete; increment_change_counter")
