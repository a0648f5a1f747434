// KIND: bounded
// BOUND: all histories of up to 5 creation steps (vertex, vertex with explicit id 0..6, triangle, triangle with explicit id 0..3) on a triangular mesh
// TIME: 100
// P15: ids are unique per element kind; handle, id and find() lead to the same element, which never moves.
#include "topo.hpp"
template <typename M> struct history
{
  typedef typename viennagrid::result_of::vertex<M>::type V; typedef typename viennagrid::result_of::vertex_handle<M>::type VH; typedef typename viennagrid::result_of::point<M>::type P;
  typedef typename viennagrid::result_of::cell<M>::type C; typedef typename viennagrid::result_of::cell_handle<M>::type CH;
  M mesh; std::vector<VH> v; std::vector<int> vid; std::vector<P> pts; std::vector<CH> c; std::vector<int> cid; std::vector<V const *> va; std::vector<C const *> ca;
  void vertex(VH h, P const & p) { v.push_back(h); V & x = viennagrid::dereference_handle(mesh, h); va.push_back(&x); vid.push_back((int)x.id().get()); pts.push_back(p); }
  void cell(CH h) { c.push_back(h); C & x = viennagrid::dereference_handle(mesh, h); ca.push_back(&x); cid.push_back((int)x.id().get()); }
  void check()
  {
    M const & cm = mesh;
    std::set<int> s(vid.begin(), vid.end()); ensures_true("vertex_ids_unique", s.size() == vid.size());
    std::set<int> t(cid.begin(), cid.end()); ensures_true("cell_ids_unique", t.size() == cid.size());
    for (std::size_t i = 0; i < v.size(); ++i)
    {
      V & x = viennagrid::dereference_handle(mesh, v[i]);
      ensures_true("handle_still_resolves", &x == va[i] && (int)x.id().get() == vid[i]);
      ensures_true("point_kept", viennagrid::point(mesh, v[i])[0] == pts[i][0] && viennagrid::point(mesh, v[i])[1] == pts[i][1]);
      ensures_true("find_by_id", viennagrid::find(mesh, x.id()) != viennagrid::vertices(mesh).end() && &*viennagrid::find(mesh, x.id()) == va[i]);
      ensures_true("find_by_id_const", &*viennagrid::find(cm, x.id()) == va[i]);
      ensures_true("handle_of_element", viennagrid::handle(mesh, x) == v[i]);
    }
    for (std::size_t i = 0; i < c.size(); ++i)
    {
      C & x = viennagrid::dereference_handle(mesh, c[i]);
      ensures_true("cell_handle_still_resolves", &x == ca[i] && (int)x.id().get() == cid[i]);
      ensures_true("find_cell_by_id", &*viennagrid::find(mesh, x.id()) == ca[i]);
    }
    ensures_true("vertex_count", viennagrid::vertices(mesh).size() == v.size()); ensures_true("cell_count", viennagrid::cells(mesh).size() == c.size());
    // line ids
    typedef typename viennagrid::result_of::line_range<M>::type LR; typedef typename viennagrid::result_of::iterator<LR>::type LI; LR lr(mesh); std::set<int> ls; std::size_t n = 0;
    for (LI l = lr.begin(); l != lr.end(); ++l, ++n) { ls.insert((int)(*l).id().get()); ensures_true("find_line_by_id", &*viennagrid::find(mesh, (*l).id()) == &*l); }
    ensures_true("line_ids_unique", ls.size() == n);
    ensures_true("absent_id_not_found", viennagrid::find(mesh, typename V::id_type(97)) == viennagrid::vertices(mesh).end());
  }
};
template <typename M> void run(int steps)
{
  history<M> h; typedef typename history<M>::P P; int n = 1 + choose("steps", steps);
  for (int k = 0; k < n; ++k)
  {
    P p; p[0] = k * 1.25; p[1] = (k * k * 7) % 5;
    switch (choose("op", 4))
    {
      case 0: h.vertex(viennagrid::make_vertex(h.mesh, p), p); break;
      case 1: { int id = choose("id", 6); requires_(std::find(h.vid.begin(), h.vid.end(), id) == h.vid.end()); h.vertex(viennagrid::make_vertex_with_id(h.mesh, typename history<M>::V::id_type(id), p), p);
                ensures_true("requested_id", h.vid.back() == id); break; }
      default:
      {
        requires_(h.v.size() >= 3); int w = choose("with_id", 2); typename history<M>::VH t[3] = { h.v[h.v.size() - 1], h.v[0], h.v[1] };
        if (!w) h.cell(viennagrid::make_element<viennagrid::triangle_tag>(h.mesh, t, t + 3));
        else { int id = choose("cid", 3); requires_(std::find(h.cid.begin(), h.cid.end(), id) == h.cid.end()); h.cell(viennagrid::make_element_with_id<viennagrid::triangle_tag>(h.mesh, t, t + 3, typename history<M>::C::id_type(id))); ensures_true("requested_cell_id", h.cid.back() == id); }
      }
    }
    h.check();
  }
  cover("end");
}
CONTRACT(histories_triangular_2d, "make_vertex; make_vertex_with_id; make_element; make_element_with_id; continuous_id_generator; find; dereference_handle; handle") { run<viennagrid::triangular_2d_mesh>(5); }
CONTRACT(histories_triangular_3d, "make_vertex; make_vertex_with_id; continuous_id_generator") { run<viennagrid::triangular_3d_mesh>(4); }
