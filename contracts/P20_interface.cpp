// KIND: bounded
// BOUND: the histories of P17 with every assignment of the cells to two segments (each cell in at most one), facets with at most two cells
// TIME: 150
// P20: a facet is on the interface of two segments exactly when it has a cell in each; lower elements exactly when they lie on such a facet; symmetric, never stale.
#include "history.hpp"
#include "viennagrid/algorithm/interface.hpp"
template <typename M> struct interface_of
{
  SEG<M> & m; typedef typename TM<M>::cell_tag CT; typedef typename TM<M>::facet_tag FT; interface_of(SEG<M> & mm) : m(mm) {}
  template <typename Tag> void on()
  {
    std::set<vset_t> f0 = m.template model<FT>(&m.sel[0]), f1 = m.template model<FT>(&m.sel[1]), all = m.template model<FT>(), c = m.template model<CT>(), inter;
    for (std::set<vset_t>::iterator i = all.begin(); i != all.end(); ++i) { int n = 0; for (std::set<vset_t>::iterator k = c.begin(); k != c.end(); ++k) if (subset_of(*i, *k)) ++n; requires_(n <= 2); if (f0.count(*i) && f1.count(*i)) inter.insert(*i); }
    for (int k = 0; k < 2; ++k)
    {
      typedef typename SEG<M>::segment_type S; typedef typename viennagrid::result_of::const_element_range<S, Tag>::type R; typedef typename viennagrid::result_of::iterator<R>::type I; R r(*m.s[k]);
      for (I i = r.begin(); i != r.end(); ++i)
      {
        vset_t s = m.set(*i); bool want = false; for (std::set<vset_t>::iterator b = inter.begin(); b != inter.end(); ++b) if (subset_of(s, *b)) want = true;
        ensures_true(Tag::dim == FT::dim ? "facet_on_interface_iff_cell_in_each" : "element_on_interface_iff_on_interface_facet", viennagrid::is_interface(*m.s[0], *m.s[1], *i) == want);
        ensures_true("symmetric", viennagrid::is_interface(*m.s[1], *m.s[0], *i) == want);
      }
    }
  }
};
struct check_interface { template <typename M> void operator()(SEG<M> & m) { interface_of<M> c(m); kinds<typename TM<M>::cell_tag>::each(c); } };
template <typename F> void interface_()
{
  check_interface chk; SEG<typename F::mesh> m; int nv; std::vector<tuple_t> cells = F::cells(nv); m.add_vertices(nv); int n = (int)cells.size(), q = choose("queries", 1 << (n - 1));
  for (int i = 0; i < n; ++i) { m.add_cell(cells[i]); m.put(i, choose("segment", 3)); if (i == n - 1 || (q & (1 << i))) chk(m); }
  cover("end");
}
FOR_INCIDENCE_FAMILIES(interface_, "is_interface; detect_interface; transfer_interface_information; interface_setter_functor")

// erasing a facet (and with it its cells) from a segment: what is no longer in both segments is no longer on the interface
template <typename M> struct after_erase
{
  SEG<M> & m; std::set<vset_t> possible, certain; after_erase(SEG<M> & mm) : m(mm) {} typedef typename TM<M>::cell_tag CT; typedef typename TM<M>::facet_tag FT;
  template <typename Tag> void on()
  {
    for (int k = 0; k < 2; ++k)
    {
      typedef typename SEG<M>::segment_type S; typedef typename viennagrid::result_of::const_element_range<S, Tag>::type R; typedef typename viennagrid::result_of::iterator<R>::type I; R r(*m.s[k]);
      for (I i = r.begin(); i != r.end(); ++i)
      {
        vset_t s = m.set(*i); bool p = false, c = false; std::set<vset_t>::iterator b;
        for (b = possible.begin(); b != possible.end(); ++b) if (subset_of(s, *b)) p = true; for (b = certain.begin(); b != certain.end(); ++b) if (subset_of(s, *b)) c = true;
        bool a = viennagrid::is_interface(*m.s[0], *m.s[1], *i), z = viennagrid::is_interface(*m.s[1], *m.s[0], *i);
        ensures_true("not_on_interface_after_erase", p || !(a || z)); ensures_true("still_on_interface_after_erase", !c || (a && z));
      }
    }
  }
};
template <typename F> void interface_erase()
{
  typedef typename F::mesh M; typedef SEG<M> W; typedef typename W::facet_tag FT; typedef typename W::segment_type S;
  check_interface chk; W m; int nv; std::vector<tuple_t> cells = F::cells(nv); m.add_vertices(nv); int n = (int)cells.size(), q = choose("query", 2);
  for (int i = 0; i < n; ++i) { m.add_cell(cells[i]); m.put(i, choose("segment", 3)); }
  if (q) chk(m);
  int k = choose("from", 2); std::set<vset_t> in[2]; for (int j = 0; j < 2; ++j) in[j] = m.template model<FT>(&m.sel[j]);
  std::set<vset_t> both; for (std::set<vset_t>::iterator i = in[0].begin(); i != in[0].end(); ++i) if (in[1].count(*i)) both.insert(*i);
  requires_(!both.empty()); std::set<vset_t>::iterator f = both.begin(); std::advance(f, choose("facet", (int)both.size())); vset_t gone = *f;
  { typedef typename viennagrid::result_of::element_range<S, FT>::type R; typedef typename viennagrid::result_of::iterator<R>::type I; R r(*m.s[k]); for (I i = r.begin(); i != r.end(); ++i) if (m.set(*i) == gone) { viennagrid::erase(*m.s[k], *i); break; } }
  in[k].erase(gone); std::vector<int> keep; for (std::size_t j = 0; j < m.sel[k].size(); ++j) if (!subset_of(gone, mkset(m.cells[m.sel[k][j]]))) keep.push_back(m.sel[k][j]); m.sel[k] = keep;
  after_erase<M> a(m); for (std::set<vset_t>::iterator i = in[0].begin(); i != in[0].end(); ++i) if (in[1].count(*i)) a.possible.insert(*i);
  std::set<vset_t> f0 = m.template model<FT>(&m.sel[0]), f1 = m.template model<FT>(&m.sel[1]); for (std::set<vset_t>::iterator i = f0.begin(); i != f0.end(); ++i) if (f1.count(*i)) a.certain.insert(*i);
  kinds<typename W::cell_tag>::each(a); cover("end");
}
FOR_INCIDENCE_FAMILIES(interface_erase, "is_interface; detect_interface; erase(segment, facet)")
