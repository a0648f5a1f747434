// KIND: bounded
// BOUND: the meshes of P17 (up to 3 cells) and segments of them, every pair of element kinds of different dimension, filters by every residue class mod 2 of the vertex sums or none
// TIME: 100
// P31: quantity transfer hands the averager exactly the values of the accepted source elements adjacent to each accepted destination element, and stores its result there.
#include "history.hpp"
#include "viennagrid/algorithm/quantity_transfer.hpp"
typedef std::multiset<int> bag;
template <typename M> struct code { TM<M> & m; code(TM<M> & x) : m(x) {} template <typename E> int operator()(E const & e) const { vset_t s = m.set(e); int r = 0; for (vset_t::iterator i = s.begin(); i != s.end(); ++i) r |= 1 << *i; return r; } };
template <typename M> struct source { typedef int value_type; TM<M> & m; source(TM<M> & x) : m(x) {} template <typename E> int operator()(E const & e) const { return code<M>(m)(e); } };
struct averager { std::vector<bag> & calls; averager(std::vector<bag> & c) : calls(c) {} template <typename C> int operator()(C const & c) const { calls.push_back(bag(c.begin(), c.end())); return (int)calls.size() - 1; } };
template <typename M> struct setter { TM<M> & m; std::map<int, std::vector<int> > got; setter(TM<M> & x) : m(x) {} template <typename E> void operator()(E const & e, int v) { got[code<M>(m)(e)].push_back(v); } };
inline bool accept(int code, int f) { if (f == 2) return true; int s = 0; for (int i = 0; i < 30; ++i) if ((code >> i) & 1) s += i; return s % 2 == f; }
template <typename M> struct filter { TM<M> & m; int f; filter(TM<M> & x, int k) : m(x), f(k) {} template <typename E> bool operator()(E const & e) const { return accept(code<M>(m)(e), f); } };
inline int code_of(vset_t const & s) { int r = 0; for (vset_t::const_iterator i = s.begin(); i != s.end(); ++i) r |= 1 << *i; return r; }
template <typename Src, typename Dst, typename M, typename Where> void transfer(SEG<M> & m, Where & where, std::vector<int> const * sel)
{
  int fs = choose("source_filter", 3), fd = choose("destination_filter", 3); std::vector<bag> calls; averager av(calls); setter<M> set(m); source<M> src(m); filter<M> a(m, fs), b(m, fd);
  viennagrid::quantity_transfer<Src, Dst>(where, src, set, av, a, b);
  std::set<vset_t> S = m.template model<Src>(sel), D = m.template model<Dst>(sel); std::map<int, bag> want;
  for (std::set<vset_t>::iterator d = D.begin(); d != D.end(); ++d) if (accept(code_of(*d), fd)) for (std::set<vset_t>::iterator s = S.begin(); s != S.end(); ++s) if (accept(code_of(*s), fs) && (subset_of(*s, *d) || subset_of(*d, *s))) want[code_of(*d)].insert(code_of(*s));
  for (std::map<int, bag>::iterator w = want.begin(); w != want.end(); ++w)
  {
    std::vector<int> & g = set.got[w->first]; ensures_true("each_destination_is_set_once", g.size() == 1); if (g.empty()) continue;
    ensures_true("averaged_over_the_adjacent_sources", g[0] >= 0 && g[0] < (int)calls.size() && calls[g[0]] == w->second);
  }
  for (std::map<int, std::vector<int> >::iterator g = set.got.begin(); g != set.got.end(); ++g) if (!want.count(g->first)) ensures_true("nothing_else_is_set_from_sources", g->second.size() == 1 && accept(g->first, fd) && calls[g->second[0]].empty());
}
template <typename M, typename Where> void pairs(SEG<M> & m, Where & w, std::vector<int> const * sel, viennagrid::line_tag) { if (choose("pair", 2)) transfer<viennagrid::line_tag, viennagrid::vertex_tag>(m, w, sel); else transfer<viennagrid::vertex_tag, viennagrid::line_tag>(m, w, sel); }
template <typename C, typename M, typename Where> void pairs2(SEG<M> & m, Where & w, std::vector<int> const * sel)
{
  switch (choose("pair", 6)) { case 0: transfer<C, viennagrid::vertex_tag>(m, w, sel); break; case 1: transfer<C, viennagrid::line_tag>(m, w, sel); break; case 2: transfer<viennagrid::line_tag, viennagrid::vertex_tag>(m, w, sel); break; case 3: transfer<viennagrid::vertex_tag, C>(m, w, sel); break; case 4: transfer<viennagrid::line_tag, C>(m, w, sel); break; default: transfer<viennagrid::vertex_tag, viennagrid::line_tag>(m, w, sel); }
}
template <typename C, typename F, typename M, typename Where> void pairs3(SEG<M> & m, Where & w, std::vector<int> const * sel) { switch (choose("facets", 3)) { case 0: transfer<C, F>(m, w, sel); break; case 1: transfer<F, C>(m, w, sel); break; default: pairs2<C>(m, w, sel); } }
template <typename M, typename Where> void pairs(SEG<M> & m, Where & w, std::vector<int> const * sel, viennagrid::triangle_tag) { pairs2<viennagrid::triangle_tag>(m, w, sel); }
template <typename M, typename Where> void pairs(SEG<M> & m, Where & w, std::vector<int> const * sel, viennagrid::quadrilateral_tag) { pairs2<viennagrid::quadrilateral_tag>(m, w, sel); }
template <typename M, typename Where> void pairs(SEG<M> & m, Where & w, std::vector<int> const * sel, viennagrid::tetrahedron_tag) { pairs3<viennagrid::tetrahedron_tag, viennagrid::triangle_tag>(m, w, sel); }
template <typename M, typename Where> void pairs(SEG<M> & m, Where & w, std::vector<int> const * sel, viennagrid::hexahedron_tag) { pairs3<viennagrid::hexahedron_tag, viennagrid::quadrilateral_tag>(m, w, sel); }
template <typename F> void quantities()
{
  SEG<typename F::mesh> m; int nv; std::vector<tuple_t> cells = F::cells(nv); requires_(cells.size() <= 2 || nv <= 5 || cells[0].size() > 4); m.add_vertices(nv); for (std::size_t i = 0; i < cells.size(); ++i) { m.add_cell(cells[i]); if (i % 2 == 0) m.put((int)i, 1); else m.put((int)i, 2); }
  typedef typename TM<typename F::mesh>::cell_tag CT; if (choose("segment", 2)) pairs(m, *m.s[0], &m.sel[0], CT()); else pairs(m, m.mesh, 0, CT()); cover("end");
}
FOR_INCIDENCE_FAMILIES(quantities, "quantity_transfer; detail::quantity_transfer (boundary, coboundary); quantity_transfer_dispatcher")
