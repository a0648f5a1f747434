// KIND: bounded
// BOUND: meshes of up to 3 lines on 4 vertices, 3 triangles on 5, 4 surface triangles on 4, 3 tetrahedra on 5 or 6 vertices, rows of 3 quadrilaterals or hexahedra; caches of source and destination filled or not; one insertion and one moved vertex in either mesh after the copy
// TIME: 150
// P23: a copied or assigned mesh has the same elements with the same ids and positions, refers only to its own elements, and the two live independently afterwards.
#include "history.hpp"
#include "viennagrid/mesh/segmented_mesh.hpp"
typedef std::vector<long> row_t; typedef std::map<row_t, row_t> image_t; typedef std::map<int, std::vector<real> > points_t;
// everything observable about the structure of a mesh, in terms of ids; `own` is false if something refers outside the mesh
template <typename M> struct observer
{
  typedef typename viennagrid::result_of::cell_tag<M>::type cell_tag;
  M & m; image_t img; points_t pts; bool own; std::map<int, std::map<long, void const *> > obj;
  observer(M & x) : m(x), own(true) { collector c(*this); kinds<cell_tag>::each(c); c.template on<cell_tag>(); hosts h(*this); kinds<cell_tag>::each(h); h.template on<cell_tag>(); positions(); }
  struct collector { observer & o; collector(observer & x) : o(x) {}
    template <typename Tag> void on()
    {
      typedef typename viennagrid::result_of::element_range<M, Tag>::type R; typedef typename viennagrid::result_of::iterator<R>::type I; R r(o.m); row_t key(1, (long)Tag::dim), order;
      for (I i = r.begin(); i != r.end(); ++i) { order.push_back((*i).id().get()); o.own = o.own && o.obj[(int)Tag::dim].insert(std::make_pair((long)(*i).id().get(), (void const *)&*i)).second; }
      o.img[key] = order; o.own = o.own && r.size() == order.size();
      for (I i = r.begin(); i != r.end(); ++i) { o.own = o.own && viennagrid::find(o.m, (*i).id()) != r.end() && &*viennagrid::find(o.m, (*i).id()) == &*i && &viennagrid::dereference_handle(o.m, i.handle()) == &*i; }
    } };
  template <typename Host> struct bnd { observer & o; Host & h; bnd(observer & x, Host & y) : o(x), h(y) {}
    template <typename Tag> void on()
    {
      typedef typename viennagrid::result_of::element_range<Host, Tag>::type R; typedef typename viennagrid::result_of::iterator<R>::type I; R r(h); row_t key, val; key.push_back((long)Host::tag::dim); key.push_back(h.id().get()); key.push_back((long)Tag::dim);
      for (I i = r.begin(); i != r.end(); ++i) { val.push_back((*i).id().get()); std::map<long, void const *>::iterator f = o.obj[(int)Tag::dim].find((*i).id().get()); o.own = o.own && f != o.obj[(int)Tag::dim].end() && f->second == (void const *)&*i; }
      o.img[key] = val;
    } };
  struct hosts { observer & o; hosts(observer & x) : o(x) {}
    template <typename Tag> void on() { go(Tag()); }
    void go(viennagrid::vertex_tag) {}
    template <typename Tag> void go(Tag)
    {
      typedef typename viennagrid::result_of::element_range<M, Tag>::type R; typedef typename viennagrid::result_of::iterator<R>::type I; typedef typename viennagrid::result_of::element<M, Tag>::type E; R r(o.m);
      for (I i = r.begin(); i != r.end(); ++i) { bnd<E> b(o, *i); kinds<Tag>::each(b); local(*i, typename viennagrid::result_of::facet_tag<Tag>::type()); }
    }
    template <typename E> void local(E &, viennagrid::vertex_tag) {}
    template <typename E, typename F> void local(E & e, F)
    {
      typedef typename viennagrid::result_of::element_range<E, F>::type R; typedef typename viennagrid::result_of::iterator<R>::type I; R r(e); row_t key(3, -1), val; key[0] = E::tag::dim; key[1] = e.id().get();
      for (I i = r.begin(); i != r.end(); ++i) for (std::size_t k = 0; k < viennagrid::vertices(*i).size(); ++k) val.push_back(viennagrid::dereference_handle(o.m, viennagrid::local_vertex(e, i.handle(), k)).id().get());
      o.img[key] = val;
    } };
  void positions()
  {
    typedef typename viennagrid::result_of::vertex_range<M>::type R; typedef typename viennagrid::result_of::iterator<R>::type I; R r(m);
    for (I i = r.begin(); i != r.end(); ++i) { std::vector<real> & p = pts[(int)i->id().get()]; for (std::size_t k = 0; k < viennagrid::point(*i).size(); ++k) p.push_back(viennagrid::point(*i)[k]); }
  }
};
inline bool same_points(points_t const & a, points_t const & b)
{
  bool ok = a.size() == b.size();
  for (points_t::const_iterator i = a.begin(), j = b.begin(); ok && i != a.end(); ++i, ++j) { ok = i->first == j->first && i->second.size() == j->second.size(); for (std::size_t k = 0; ok && k < i->second.size(); ++k) ok = i->second[k] == j->second[k]; }
  return ok;
}
// coboundaries, neighbors and boundary flags agree with the cells listed in the image, and refer to elements of the mesh itself
template <typename M> struct queries
{
  typedef observer<M> O; typedef typename O::cell_tag cell_tag; M & m; O & o; queries(M & x, O & y) : m(x), o(y) {}
  template <typename Tag> void on()
  {
    typedef typename viennagrid::result_of::element_range<M, Tag>::type R; typedef typename viennagrid::result_of::iterator<R>::type I; R r(m);
    for (I i = r.begin(); i != r.end(); ++i)
    {
      std::multiset<long> want, got; typedef typename viennagrid::result_of::coboundary_range<M, Tag, cell_tag>::type CR; typedef typename viennagrid::result_of::iterator<CR>::type CI; CR cr(m, i.handle()); bool own = true; long id = (*i).id().get();
      for (CI c = cr.begin(); c != cr.end(); ++c) { got.insert(c->id().get()); std::map<long, void const *>::iterator f = o.obj[(int)cell_tag::dim].find(c->id().get()); own = own && f != o.obj[(int)cell_tag::dim].end() && f->second == (void const *)&*c; }
      std::map<long, int> facet_uses; bool bnd = false;
      for (image_t::iterator k = o.img.begin(); k != o.img.end(); ++k)
      {
        if (k->first.size() != 3 || k->first[0] != (long)cell_tag::dim) continue;
        if (k->first[2] == (long)Tag::dim && std::count(k->second.begin(), k->second.end(), id)) want.insert(k->first[1]);
        if (k->first[2] == (long)cell_tag::dim - 1) for (std::size_t j = 0; j < k->second.size(); ++j) ++facet_uses[k->second[j]];
      }
      for (std::map<long, int>::iterator f = facet_uses.begin(); f != facet_uses.end(); ++f) if (f->second == 1)
      {
        if ((long)Tag::dim == (long)cell_tag::dim - 1) bnd = bnd || f->first == id;
        else { row_t key; key.push_back((long)cell_tag::dim - 1); key.push_back(f->first); key.push_back((long)Tag::dim); row_t & v = o.img[key]; bnd = bnd || std::count(v.begin(), v.end(), id) > 0; }
      }
      ensures_true("coboundary", want == got); ensures_true("coboundary_refers_to_own_elements", own);
      bool manifold = true; for (std::map<long, int>::iterator f = facet_uses.begin(); f != facet_uses.end(); ++f) manifold = manifold && f->second <= 2;
      if (manifold) ensures_true("is_boundary", viennagrid::is_boundary(m, *i) == bnd);
    }
  }
  void all() { kinds<cell_tag>::each(*this); }
};
template <typename M> void warm(M & m)
{
  typedef typename viennagrid::result_of::vertex_range<M>::type R; typedef typename viennagrid::result_of::iterator<R>::type I; typedef typename viennagrid::result_of::cell_tag<M>::type CT; R r(m);
  for (I i = r.begin(); i != r.end(); ++i) { typename viennagrid::result_of::coboundary_range<M, viennagrid::vertex_tag, CT>::type c(m, i.handle()); viennagrid::is_boundary(m, *i); }
}
// adds a cell made of a new vertex and existing ones (simplices), or a whole new cell (cubes), then a duplicate of an existing one through its vertices
template <typename M, typename Tag> void grow(M & m, Tag)
{
  typedef typename viennagrid::result_of::vertex_handle<M>::type VH; typedef typename viennagrid::result_of::vertex_range<M>::type R; typedef typename viennagrid::result_of::iterator<R>::type I; typedef typename viennagrid::result_of::cell<M>::type C;
  std::vector<VH> h; R r(m); std::size_t n = viennagrid::boundary_elements<Tag, viennagrid::vertex_tag>::num;
  typename viennagrid::result_of::point<M>::type p; for (std::size_t k = 0; k < p.size(); ++k) p[k] = real(100 + (int)k);
  bool simplex = n == (std::size_t)Tag::dim + 1;
  if (simplex) for (I i = r.begin(); i != r.end() && h.size() + 1 < n; ++i) h.push_back(i.handle());
  while (h.size() < n) { p[0] += real(1); h.push_back(viennagrid::make_vertex(m, p)); }
  viennagrid::make_element<C>(m, h.begin(), h.end());
}
template <typename M> void move_first(M & m) { typedef typename viennagrid::result_of::vertex_range<M>::type R; R r(m); viennagrid::point(*r.begin())[0] += real(7); }
// obligations after `b` was made a copy of `a` (image before the copy: oa)
template <typename M> void independent(M & a, M & b, observer<M> & before)
{
  typedef typename viennagrid::result_of::cell_tag<M>::type CT;
  { observer<M> oa(a), ob(b);
    ensures_true("source_unchanged", oa.own && oa.img == before.img && same_points(oa.pts, before.pts) && oa.obj == before.obj);
    ensures_true("copy_refers_to_its_own_elements", ob.own);
    ensures_true("same_elements_ids_and_orientations", ob.img == before.img); ensures_true("same_positions", same_points(ob.pts, before.pts));
    bool disjoint = true; for (int d = 0; d <= (int)CT::dim; ++d) for (std::map<long, void const *>::iterator i = oa.obj[d].begin(); i != oa.obj[d].end(); ++i) for (std::map<long, void const *>::iterator j = ob.obj[d].begin(); j != ob.obj[d].end(); ++j) disjoint = disjoint && i->second != j->second;
    ensures_true("no_shared_elements", disjoint);
    queries<M> qa(a, oa), qb(b, ob); if (choose("order_of_queries", 2)) { qa.all(); qb.all(); } else { qb.all(); qa.all(); } }
  int first = choose("changed_first", 2);
  for (int step = 0; step < 2; ++step)
  {
    int which = (step + first) % 2; M & x = which ? a : b; M & y = which ? b : a;
    observer<M> ox(x), oy(y); grow(x, CT()); move_first(x);
    observer<M> nx(x), ny(y);
    ensures_true("other_mesh_unchanged", ny.own && ny.img == oy.img && same_points(ny.pts, oy.pts));
    bool kept = nx.own && nx.pts.size() > ox.pts.size(); for (image_t::iterator i = ox.img.begin(); i != ox.img.end(); ++i) if (i->first.size() == 3) kept = kept && nx.img[i->first] == i->second; else { row_t v = nx.img[i->first], u = i->second; std::sort(v.begin(), v.end()); std::sort(u.begin(), u.end()); kept = kept && std::includes(v.begin(), v.end(), u.begin(), u.end()); }
    ensures_true("growing_the_mesh_keeps_the_rest", kept);
    queries<M> qx(x, nx), qy(y, ny); qx.all(); qy.all();
  }
}
template <typename F> void mesh_copy()
{
  typedef typename F::mesh M; TM<M> t; int nv; std::vector<tuple_t> cells = F::cells(nv); t.add_vertices(nv); for (std::size_t i = 0; i < cells.size(); ++i) t.add_cell(cells[i]);
  int how = choose("how", 4); if (choose("source_caches", 2)) warm(t.mesh);
  if (how == 0) { M copy(t.mesh); observer<M> before(t.mesh); independent(t.mesh, copy, before); }
  else if (how == 1) { M copy; observer<M> before(t.mesh); copy = t.mesh; independent(t.mesh, copy, before); }
  else if (how == 2)
  { TM<M> d; d.add_vertices(nv + 1); tuple_t x = cells[0]; std::reverse(x.begin(), x.end()); if (viennagrid::boundary_elements<typename TM<M>::cell_tag, viennagrid::vertex_tag>::num == (int)TM<M>::cell_tag::dim + 1) x[0] = nv; d.add_cell(x); if (choose("destination_caches", 2)) warm(d.mesh);
    observer<M> before(t.mesh); d.mesh = t.mesh; independent(t.mesh, d.mesh, before); }
  else { M copy(t.mesh), empty; warm(copy); copy.clear(); observer<M> oe(empty), oc(copy); ensures_true("cleared_mesh_is_empty", oc.own && oc.img == oe.img && oc.pts.empty()); queries<M> q(copy, oc); q.all(); observer<M> before(t.mesh); copy = t.mesh; M & self = copy; copy = self; independent(t.mesh, copy, before); }
  cover("end");
}
FOR_INCIDENCE_FAMILIES(mesh_copy, "mesh copy constructor; mesh::operator=; mesh::clear; fix_handles; fix_handle_helper; inserter::set_mesh_info")
