// runs apply_voronoi on a mesh and collects totals and per-cell contributions
#ifndef P29_RUN_HPP
#define P29_RUN_HPP
#include "topo.hpp"
#include "viennagrid/algorithm/voronoi.hpp"
template <typename M> struct voronoi_run
{
  typedef typename viennagrid::result_of::cell_tag<M>::type CT;
  typedef typename viennagrid::result_of::const_handle<M, CT>::type CH;
  typedef typename viennagrid::result_of::voronoi_cell_contribution<CH>::type contrib;
  typedef typename viennagrid::result_of::line<M>::type L; typedef typename viennagrid::result_of::vertex<M>::type V;
  typedef typename viennagrid::result_of::const_element_range<M, viennagrid::line_tag>::type LR; typedef typename viennagrid::result_of::iterator<LR>::type LI;
  typedef typename viennagrid::result_of::const_element_range<M, viennagrid::vertex_tag>::type VR; typedef typename viennagrid::result_of::iterator<VR>::type VI;
  typedef typename viennagrid::result_of::const_element_range<M, CT>::type CR; typedef typename viennagrid::result_of::iterator<CR>::type CI;
  struct item { real total; std::map<int, real> by; item() : total(0) {} real sum() const { real s = 0; for (std::map<int, real>::const_iterator i = by.begin(); i != by.end(); ++i) s += i->second; return s; } real of(int c) const { std::map<int, real>::const_iterator i = by.find(c); return i == by.end() ? real(0) : i->second; } };
  typedef std::map<vset_t, item> items;
  items interface, vbox, ebox;      // keyed by the vertices of the element
  bool known;
  voronoi_run(TM<M> & m) : known(true)
  {
    std::deque<real> i, v, e; std::deque<contrib> ic, vc, ec;
    typename viennagrid::result_of::accessor<std::deque<real>, L>::type ai(i), ae(e); typename viennagrid::result_of::accessor<std::deque<real>, V>::type av(v);
    typename viennagrid::result_of::accessor<std::deque<contrib>, L>::type aic(ic), aec(ec); typename viennagrid::result_of::accessor<std::deque<contrib>, V>::type avc(vc);
    M const & mesh = m.mesh; LR lr(mesh); VR vr(mesh);
    for (LI l = lr.begin(); l != lr.end(); ++l) { ai(*l) = 0; ae(*l) = 0; aic(*l) = contrib(); aec(*l) = contrib(); }
    for (VI x = vr.begin(); x != vr.end(); ++x) { av(*x) = 0; avc(*x) = contrib(); }
    viennagrid::apply_voronoi<CT>(mesh, ai, aic, av, avc, ae, aec);
    for (LI l = lr.begin(); l != lr.end(); ++l) { vset_t k = m.set(*l); interface[k].total = ai(*l); collect_(m, interface[k], aic(*l)); ebox[k].total = ae(*l); collect_(m, ebox[k], aec(*l)); }
    for (VI x = vr.begin(); x != vr.end(); ++x) { vset_t k = m.set(*x); vbox[k].total = av(*x); collect_(m, vbox[k], avc(*x)); }
  }
  void collect_(TM<M> & m, item & t, contrib const & c)
  {
    M const & mesh = m.mesh; CR cr(mesh);
    for (std::size_t i = 0; i < c.size(); ++i) { int k = 0, at = -1; for (CI x = cr.begin(); x != cr.end(); ++x, ++k) if (x.handle() == c[i].first) at = k; if (at < 0) { known = false; continue; } if (!t.by.count(at)) t.by[at] = 0; t.by[at] += c[i].second; }
  }
  void sums_agree() const { ensures_true("contributions_name_cells_of_the_mesh", known); agree("interface_total", interface); agree("vertex_box_total", vbox); agree("edge_box_total", ebox); ensures_eq("edge_boxes_add_up_to_vertex_boxes", all(ebox), all(vbox)); }
  static void agree(char const * n, items const & x) { for (typename items::const_iterator i = x.begin(); i != x.end(); ++i) ensures_eq(n, i->second.total, i->second.sum()); }
  static real all(items const & x) { real s = 0; for (typename items::const_iterator i = x.begin(); i != x.end(); ++i) s += i->second.total; return s; }
};
inline vset_t vs(int a) { vset_t s; s.insert(a); return s; }
inline vset_t vs(int a, int b) { vset_t s; s.insert(a); s.insert(b); return s; }
template <typename M> void put(TM<M> & m, typename TM<M>::point_type const & p) { int i = (int)m.v.size(); m.v.push_back(viennagrid::make_vertex(m.mesh, p)); m.by_id[(int)viennagrid::dereference_handle(m.mesh, m.v.back()).id().get()] = i; }
inline tuple_t tup(int a, int b) { tuple_t t; t.push_back(a); t.push_back(b); return t; }
inline tuple_t tup(int a, int b, int c) { tuple_t t = tup(a, b); t.push_back(c); return t; }
inline tuple_t tup(int a, int b, int c, int d) { tuple_t t = tup(a, b, c); t.push_back(d); return t; }
#endif
