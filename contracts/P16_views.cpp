// KIND: bounded
// BOUND: meshes of three cells (lines, triangles, tetrahedra, quadrilaterals, hexahedra); views of vertices, edges, facets and cells; every history of up to 4 insertions, unique insertions and removals over three elements of one kind; views stored as set, vector, deque and list; every subset of the cells as filter or segment
// TIME: 150
// P16: a view contains exactly the elements put into it, in insertion order (or by id for set views), refers to the elements of the mesh itself, and every way of reaching an element agrees.
#include "history.hpp"
#include "viennagrid/element/element_view.hpp"
typedef std::vector<int> ids_t;
template <typename R> ids_t ids_of(R & r) { ids_t o; for (typename viennagrid::result_of::iterator<R>::type i = r.begin(); i != r.end(); ++i) o.push_back((int)i->id().get()); return o; }
// everything observable of a range or view, compared with the ids expected and with the elements of the mesh
template <typename R, typename M> void same_elements(const char * what, R & r, M & mesh, ids_t const & want)
{
  typedef typename R::value_type E; typedef typename viennagrid::result_of::iterator<R>::type I; std::string w(what);
  bool ok = r.size() == want.size() && r.empty() == want.empty() && (std::size_t)std::distance(r.begin(), r.end()) == want.size(); ensures_true((w + "_size").c_str(), ok); if (!ok) return;
  std::size_t k = 0; bool fwd = true, same = true, post = true, idx = true, hnd = true, back = true;
  for (I i = r.begin(); i != r.end(); ++i, ++k)
  {
    fwd = fwd && (int)i->id().get() == want[k]; E & own = *viennagrid::find(mesh, typename E::id_type(want[k])); same = same && &*i == &own && &viennagrid::dereference_handle(mesh, i.handle()) == &own && i.operator->() == &own;
    idx = idx && &r[k] == &own; hnd = hnd && &viennagrid::dereference_handle(mesh, r.handle_at(k)) == &own;
  }
  fwd = fwd && k == want.size(); k = 0; for (I i = r.begin(); i != r.end(); ++k) { I j = i; I p = i++; post = post && p == j && (int)p->id().get() == want[k]; }
  if (!want.empty()) { I i = r.end(); for (k = want.size(); k-- > 0; ) { --i; back = back && (int)(*i).id().get() == want[k]; } back = back && i == r.begin(); i = r.end(); for (k = want.size(); k-- > 0; ) { I j = i; I p = i--; back = back && p == j && (int)i->id().get() == want[k]; } }
  ensures_true((w + "_order").c_str(), fwd); ensures_true((w + "_the_elements_of_the_mesh").c_str(), same); ensures_true((w + "_postfix_increment").c_str(), post); ensures_true((w + "_backward").c_str(), back); ensures_true((w + "_index").c_str(), idx); ensures_true((w + "_handle_at").c_str(), hnd);
}
template <typename R, typename M> void same_const(const char * what, R const & r, M & mesh, ids_t const & want)
{
  typedef typename R::value_type E; typedef typename R::const_iterator I; bool ok = r.size() == want.size() && r.empty() == want.empty(); std::size_t k = 0;
  for (I i = r.begin(); ok && i != r.end(); ++i, ++k) { E const & own = *viennagrid::find(mesh, typename E::id_type(want[k])); ok = &*i == &own && &viennagrid::dereference_handle((M const &)mesh, i.handle()) == &own && &r[k] == &own && &*r.handle_at(k) == &own; }
  ensures_true((std::string(what) + "_read-only_access").c_str(), ok && k == want.size());
}
// looking up every element of the mesh in a mesh, view or segment
template <typename Tag, typename S, typename M> void lookups(const char * what, S & s, M & mesh, ids_t const & want)
{
  typedef typename viennagrid::result_of::element_range<M, Tag>::type MR; typedef typename viennagrid::result_of::iterator<MR>::type MI; typedef typename viennagrid::result_of::element_range<S, Tag>::type R; typedef typename viennagrid::result_of::const_element_range<S, Tag>::type CR;
  MR all(mesh); R r(s); S const & cs = s; CR cr(cs); bool ok = true, cok = true;
  for (MI i = all.begin(); i != all.end(); ++i)
  {
    bool in = std::find(want.begin(), want.end(), (int)i->id().get()) != want.end();
    ok = ok && (viennagrid::find(s, i->id()) != r.end()) == in && (!in || &*viennagrid::find(s, i->id()) == &*i);
    ok = ok && (viennagrid::find(s, *i) != r.end()) == in && (!in || &*viennagrid::find(s, *i) == &*i);
    ok = ok && (viennagrid::find_by_handle(s, i.handle()) != r.end()) == in && (!in || &*viennagrid::find_by_handle(s, i.handle()) == &*i);
    cok = cok && (viennagrid::find(cs, i->id()) != cr.end()) == in && (!in || &*viennagrid::find(cs, i->id()) == &*i) && (viennagrid::find(cs, *i) != cr.end()) == in && (!in || &*viennagrid::find(cs, *i) == &*i);
  }
  ensures_true((std::string(what) + "_find").c_str(), ok); ensures_true((std::string(what) + "_find_read-only").c_str(), cok);
  ensures_true((std::string(what) + "_find_of_an_id_nobody_has").c_str(), viennagrid::find(s, typename viennagrid::result_of::element<M, Tag>::type::id_type(1000)) == r.end());
}
struct in_set { ids_t s; template <typename E> bool operator()(E const & e) const { return std::find(s.begin(), s.end(), (int)e.id().get()) != s.end(); } };
struct r3_line { typedef viennagrid::line_2d_mesh mesh; }; struct r3_tri { typedef viennagrid::triangular_2d_mesh mesh; }; struct r3_tet { typedef viennagrid::tetrahedral_3d_mesh mesh; }; struct r3_quad { typedef viennagrid::quadrilateral_2d_mesh mesh; }; struct r3_hex { typedef viennagrid::hexahedral_3d_mesh mesh; };
template <typename F> void three(SEG<typename F::mesh> & m, std::vector<tuple_t> & cells)
{
  typedef typename TM<typename F::mesh>::cell_tag T; int k = viennagrid::boundary_elements<T, viennagrid::vertex_tag>::num; bool box = k == 8 || (k == 4 && (int)T::dim == 2);
  if (box) { cells = choose_boxes((int)T::dim, 3, 1); m.add_vertices(box_vertices((int)T::dim, 3)); } else { for (int i = 0; i < 3; ++i) { tuple_t t; for (int j = 0; j < k; ++j) t.push_back(i + j); cells.push_back(t); } m.add_vertices(k + 2); }
  for (int i = 0; i < 3; ++i) m.add_cell(cells[i]);
}
inline ids_t sorted(ids_t v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; }
template <typename V, typename H> void step(V & v, std::vector<H> const & h, ids_t const & id, ids_t & want, bool set)
{
  int op = choose("operation", 3), e = choose("element", 3); bool has = std::find(want.begin(), want.end(), id[e]) != want.end();
  if (op == 0) { v.insert_handle(h[e]); if (!set || !has) want.push_back(id[e]); } else if (op == 1) { v.insert_unique_handle(h[e]); if (!has) want.push_back(id[e]); } else { v.erase_handle(h[e]); if (has) want.erase(std::find(want.begin(), want.end(), id[e])); }
  if (set) want = sorted(want);
}
// three elements of a kind: first, one in the middle, last
template <typename Tag, typename M, typename H> void pick(M & mesh, std::vector<H> & h, ids_t & id)
{
  typedef typename viennagrid::result_of::element_range<M, Tag>::type R; R r(mesh); std::size_t p[3] = { r.size() - 1, 0, r.size() / 2 };
  for (int i = 0; i < 3; ++i) { h.push_back(r.handle_at(p[i])); id.push_back((int)r[p[i]].id().get()); }
}
template <typename F, typename Tag, typename CTag> void one_view(int steps)
{
  typedef typename F::mesh M; SEG<M> m; std::vector<tuple_t> cells; three<F>(m, cells); typedef typename viennagrid::result_of::handle<M, Tag>::type H; std::vector<H> h; ids_t id, want; pick<Tag>(m.mesh, h, id);
  typedef typename viennagrid::result_of::element_view<M, Tag, CTag>::type V; typedef typename viennagrid::result_of::element<M, Tag>::type E; V v; v.set_base_container(viennagrid::get<E>(viennagrid::detail::element_collection(m.mesh)));
  for (int i = 0; i < steps; ++i) step(v, h, id, want, false);
  same_elements("view", v, m.mesh, want); same_const("view", v, m.mesh, want);
  if (!want.empty()) ensures_true("view_front_and_back", (int)v.front().id().get() == want.front() && (int)v.back().id().get() == want.back());
  { typedef typename viennagrid::result_of::element_range<M, Tag>::type R; R all(m.mesh); bool ok = true; V const & cv = v; for (typename viennagrid::result_of::iterator<R>::type i = all.begin(); i != all.end(); ++i) { bool in = std::find(want.begin(), want.end(), (int)i->id().get()) != want.end(); ok = ok && (v.find(*i) != v.end()) == in && (cv.find(*i) != cv.end()) == in && (!in || (&*v.find(*i) == &*i && &*cv.find(*i) == &*i)); } ensures_true("view_find", ok); }
  V copy(v), assigned; assigned = v; ids_t want2 = want; step(copy, h, id, want2, false); same_elements("copy_of_a_view", copy, m.mesh, want2); same_elements("view_whose_copy_changed", v, m.mesh, want); same_elements("assigned_view", assigned, m.mesh, want);
  typename viennagrid::result_of::view<V, viennagrid::std_deque_tag>::type vv; vv.set_base_container(v); vv.insert_handle(h[0]); ids_t w0(1, id[0]); same_elements("view_of_a_view", vv, m.mesh, w0);
  v.clear(); same_elements("cleared_view", v, m.mesh, ids_t());
  cover("end");
}
#define STORED "view (view.hpp), view::iterator, view::const_iterator, insert_handle, insert_unique_handle, erase_handle, handle_at, find, element_view (element_view.hpp), set_base_container"
CONTRACT(deque_view_of_triangles, STORED) { one_view<r3_tri, viennagrid::triangle_tag, viennagrid::std_deque_tag>(4); }
CONTRACT(deque_view_of_edges, STORED) { one_view<r3_tet, viennagrid::line_tag, viennagrid::std_deque_tag>(4); }
CONTRACT(vector_view_of_vertices, STORED) { one_view<r3_quad, viennagrid::vertex_tag, viennagrid::std_vector_tag>(4); }
CONTRACT(vector_view_of_facets, STORED) { one_view<r3_tet, viennagrid::triangle_tag, viennagrid::std_vector_tag>(4); }
CONTRACT(list_view_of_edges, STORED) { one_view<r3_hex, viennagrid::line_tag, viennagrid::std_list_tag>(4); }
CONTRACT(list_view_of_lines, STORED) { one_view<r3_line, viennagrid::line_tag, viennagrid::std_list_tag>(4); }
template <typename F, typename Tag> void mesh_view_of(int steps)
{
  typedef typename F::mesh M; SEG<M> m; std::vector<tuple_t> cells; three<F>(m, cells); typedef typename viennagrid::result_of::handle<M, Tag>::type H; std::vector<H> h; ids_t id, want; pick<Tag>(m.mesh, h, id);
  typedef typename viennagrid::result_of::mesh_view<M>::type V; V v = viennagrid::make_view(m.mesh); typedef typename viennagrid::result_of::element_range<V, Tag>::type R; typedef typename viennagrid::result_of::const_element_range<V, Tag>::type CR;
  for (int i = 0; i < steps; ++i) { R r(v); step(r, h, id, want, true); }
  if (choose("add", 2)) { viennagrid::add_single_handle(v, h[1]); want.push_back(id[1]); want = sorted(want); }
  { R r(v); same_elements("mesh_view", r, m.mesh, want); CR cr((V const &)v); same_const("mesh_view", cr, m.mesh, want); lookups<Tag>("mesh_view", v, m.mesh, want); }
  { V c(v); R r(c); same_elements("copied_mesh_view", r, m.mesh, want); ids_t w2 = want; step(r, h, id, w2, true); R r2(c), r0(v); same_elements("copied_and_changed_mesh_view", r2, m.mesh, w2); same_elements("mesh_view_whose_copy_changed", r0, m.mesh, want); lookups<Tag>("copied_mesh_view", c, m.mesh, w2); }
  { V c = viennagrid::make_view(m.mesh); c = v; R r(c); same_elements("assigned_mesh_view", r, m.mesh, want); }
  { typedef typename viennagrid::result_of::mesh_view<V>::type VV; VV w = viennagrid::make_view(v); typedef typename viennagrid::result_of::element_range<VV, Tag>::type WR; { WR r(w); same_elements("fresh_view_of_a_view", r, m.mesh, ids_t()); } viennagrid::handle_mesh(v, w); WR r(w); same_elements("view_of_a_view", r, m.mesh, want); }
  v.clear(); R r(v); same_elements("cleared_mesh_view", r, m.mesh, ids_t());
  cover("end");
}
#define MESHVIEW "mesh_view, make_view (mesh.hpp), view<std_set_tag> (view.hpp), handle_mesh, add_single_handle, find, find_by_handle, container_range_wrapper (range.hpp)"
CONTRACT(mesh_view_lines, MESHVIEW) { mesh_view_of<r3_line, viennagrid::line_tag>(4); }
CONTRACT(mesh_view_triangles, MESHVIEW) { mesh_view_of<r3_tri, viennagrid::triangle_tag>(4); }
CONTRACT(mesh_view_edges, MESHVIEW) { mesh_view_of<r3_tri, viennagrid::line_tag>(4); }
CONTRACT(mesh_view_vertices, MESHVIEW) { mesh_view_of<r3_tet, viennagrid::vertex_tag>(4); }
CONTRACT(mesh_view_facets, MESHVIEW) { mesh_view_of<r3_tet, viennagrid::triangle_tag>(4); }
CONTRACT(mesh_view_quadrilaterals, MESHVIEW) { mesh_view_of<r3_quad, viennagrid::quadrilateral_tag>(4); }
CONTRACT(mesh_view_hexahedra, MESHVIEW) { mesh_view_of<r3_hex, viennagrid::hexahedron_tag>(4); }
// the mesh itself, its segments and filtered views of them
template <typename F> struct whole
{
  typedef typename F::mesh M; SEG<M> & m; std::vector<tuple_t> & cells; whole(SEG<M> & x, std::vector<tuple_t> & y) : m(x), cells(y) {}
  template <typename Tag> void on()
  {
    typedef typename viennagrid::result_of::element_range<M, Tag>::type R; typedef typename viennagrid::result_of::const_element_range<M, Tag>::type CR; R r(m.mesh); CR cr((M const &)m.mesh); ids_t all = ids_of(r), up(all); std::sort(up.begin(), up.end()); bool up_ok = true; for (std::size_t i = 0; i < up.size(); ++i) up_ok = up_ok && up[i] == (int)i;
    ensures_true("every_element_once", up_ok); same_elements("mesh", r, m.mesh, all); same_const("mesh", cr, m.mesh, all); lookups<Tag>("mesh", m.mesh, m.mesh, all);
    in_set f; for (std::size_t i = 0; i < all.size(); ++i) if ((all[i] * 7 + (int)Tag::dim + salt) % 3 != 0) f.s.push_back(all[i]);
    typename viennagrid::result_of::element_view<M, Tag>::type v = viennagrid::element_view<Tag>(m.mesh, f), e = viennagrid::element_view<Tag>(m.mesh); same_elements("filtered_view", v, m.mesh, f.s); same_elements("empty_view", e, m.mesh, ids_t());
    typedef typename SEG<M>::segment_type S;
    for (int s = 0; s < 2; ++s)
    {
      ids_t want; for (std::size_t i = 0; i < all.size(); ++i) { tuple_t t = vertices_of(*viennagrid::find(m.mesh, typename viennagrid::result_of::element<M, Tag>::type::id_type(all[i])), Tag()); bool in = false; for (std::size_t c = 0; c < m.sel[s].size(); ++c) { bool sub = true; for (std::size_t k = 0; k < t.size(); ++k) sub = sub && std::find(cells[m.sel[s][c]].begin(), cells[m.sel[s][c]].end(), t[k]) != cells[m.sel[s][c]].end(); in = in || sub; } if (in) want.push_back(all[i]); } std::sort(want.begin(), want.end());
      typedef typename viennagrid::result_of::element_range<S, Tag>::type SR; typedef typename viennagrid::result_of::const_element_range<S, Tag>::type CSR; SR sr(*m.s[s]); CSR csr(*(S const *)m.s[s]); same_elements("segment", sr, m.mesh, want); same_const("segment", csr, m.mesh, want); lookups<Tag>("segment", *m.s[s], m.mesh, want);
    }
  }
  template <typename E> tuple_t vertices_of(E & e, viennagrid::vertex_tag) { return tuple_t(1, (int)e.id().get()); }
  template <typename E, typename T> tuple_t vertices_of(E & e, T) { tuple_t t; for (std::size_t k = 0; k < viennagrid::vertices(e).size(); ++k) t.push_back((int)viennagrid::vertices(e)[k].id().get()); return t; }
  int salt;
};
template <typename F> void whole_mesh()
{
  typedef typename F::mesh M; SEG<M> m; std::vector<tuple_t> cells; three<F>(m, cells); for (int i = 0; i < 3; ++i) m.put(i, choose("segment", 4));
  whole<F> w(m, cells); w.salt = choose("filter", 3); kinds<typename TM<M>::cell_tag>::each(w); w.template on<typename TM<M>::cell_tag>(); cover("end");
}
#define WHOLE "container_range_wrapper (range.hpp), elements, find, find_by_handle (mesh.hpp, segmentation.hpp), element_view, container::iterator (container.hpp)"
CONTRACT(ranges_lines, WHOLE) { whole_mesh<r3_line>(); }
CONTRACT(ranges_triangles, WHOLE) { whole_mesh<r3_tri>(); }
CONTRACT(ranges_tetrahedra, WHOLE) { whole_mesh<r3_tet>(); }
CONTRACT(ranges_quadrilaterals, WHOLE) { whole_mesh<r3_quad>(); }
CONTRACT(ranges_hexahedra, WHOLE) { whole_mesh<r3_hex>(); }
