// P12: every element kind numbers its boundary elements as documented (doc/manual/orientations.tex) -- complete: the
// construction is independent of coordinates, and every relative order of the vertex ids is enumerated (up to 4 vertices; 64 orders for hexahedra).
#include "topo.hpp"

template <typename Tag, typename M> void boundary_kind(TM<M> & m, tuple_t const & cell)
{
  typedef typename TM<M>::cell_type C; typedef typename TM<M>::cell_tag CT;
  C & c = viennagrid::dereference_handle(m.mesh, m.c[0]);
  std::vector<tuple_t> ref = ref_elements<CT, Tag>(cell);
  typedef typename viennagrid::result_of::element_range<C, Tag>::type R; typedef typename viennagrid::result_of::iterator<R>::type I;
  R r(c);
  ensures_true("count", r.size() == ref.size());
  std::size_t k = 0;
  for (I i = r.begin(); i != r.end(); ++i, ++k) { ensures_true("numbering", k < ref.size() && m.tuple(*i) == ref[k]); }
  ensures_true("range_length", k == ref.size());
  for (k = 0; k < ref.size(); ++k) ensures_true("index_access", m.tuple(r[k]) == ref[k]);
  typedef typename viennagrid::result_of::const_element_range<C, Tag>::type CR; typedef typename viennagrid::result_of::const_iterator<CR>::type CI;
  C const & cc = c; CR cr(cc); k = 0;
  for (CI i = cr.begin(); i != cr.end(); ++i, ++k) ensures_true("const_numbering", k < ref.size() && m.tuple(*i) == ref[k]);
  // the boundary elements are elements of the mesh, and nothing else is
  std::set<vset_t> all; for (k = 0; k < ref.size(); ++k) all.insert(mkset(ref[k]));
  typedef typename viennagrid::result_of::element_range<M, Tag>::type MR; MR mr(m.mesh);
  ensures_true("mesh_holds_exactly_these", collect(m, mr) == as_multi(all));
  ensures_true("constant", (std::size_t)viennagrid::boundary_elements<CT, Tag>::num == ref.size());
}
template <typename M> tuple_t one(TM<M> & m, int n)
{
  m.add_vertices(n); tuple_t t; for (int i = 0; i < n; ++i) t.push_back(i);
  if (n <= 4) nth_permutation(t, choose("order", factorial(n)));
  else { int k = choose("order", 64); if (k >= 48) { nth_permutation(t, (k - 47) * 2357 + 11); } else { for (int i = 0; i < n; ++i) t[i] = (i * (2 * (k % 4) + 1) + k / 4) % n; std::set<int> s(t.begin(), t.end()); requires_((int)s.size() == n); } }
  m.add_cell(t);
  typename TM<M>::cell_type & c = viennagrid::dereference_handle(m.mesh, m.c[0]);
  ensures_true("vertex_order_kept", m.tuple(c) == t);
  return t;
}
CONTRACT(reference_line, "viennagrid::make_element; boundary_element_generator<line>") { TM<viennagrid::line_2d_mesh> m; tuple_t t = one(m, 2); boundary_kind<viennagrid::vertex_tag>(m, t); cover("end"); }
CONTRACT(reference_triangle, "viennagrid::make_element; boundary_element_generator<triangle>") { TM<viennagrid::triangular_2d_mesh> m; tuple_t t = one(m, 3); boundary_kind<viennagrid::vertex_tag>(m, t); boundary_kind<viennagrid::line_tag>(m, t); cover("end"); }
CONTRACT(reference_quadrilateral, "viennagrid::make_element; boundary_element_generator<quadrilateral>") { TM<viennagrid::quadrilateral_2d_mesh> m; tuple_t t = one(m, 4); boundary_kind<viennagrid::vertex_tag>(m, t); boundary_kind<viennagrid::line_tag>(m, t); cover("end"); }
CONTRACT(reference_tetrahedron, "viennagrid::make_element; boundary_element_generator<tetrahedron>")
{ TM<viennagrid::tetrahedral_3d_mesh> m; tuple_t t = one(m, 4); boundary_kind<viennagrid::vertex_tag>(m, t); boundary_kind<viennagrid::line_tag>(m, t); boundary_kind<viennagrid::triangle_tag>(m, t); cover("end"); }
CONTRACT(reference_hexahedron, "viennagrid::make_element; boundary_element_generator<hexahedron>")
{ TM<viennagrid::hexahedral_3d_mesh> m; tuple_t t = one(m, 8); boundary_kind<viennagrid::vertex_tag>(m, t); boundary_kind<viennagrid::line_tag>(m, t); boundary_kind<viennagrid::quadrilateral_tag>(m, t); cover("end"); }
// the faces of a hexahedron and of a tetrahedron carry their own edges, shared with the cell
template <typename M, typename FaceTag> void face_edges(int n)
{
  TM<M> m; tuple_t t = one(m, n); typedef typename TM<M>::cell_type C;
  C & c = viennagrid::dereference_handle(m.mesh, m.c[0]);
  typedef typename viennagrid::result_of::element_range<C, FaceTag>::type FR; typedef typename viennagrid::result_of::iterator<FR>::type FI;
  typedef typename viennagrid::result_of::element<M, FaceTag>::type F;
  typedef typename viennagrid::result_of::element_range<F, viennagrid::line_tag>::type ER; typedef typename viennagrid::result_of::iterator<ER>::type EI;
  typedef typename viennagrid::result_of::element_range<C, viennagrid::line_tag>::type CR; typedef typename viennagrid::result_of::iterator<CR>::type CI;
  FR fr(c); CR ce(c); std::set<void const *> mine; for (CI i = ce.begin(); i != ce.end(); ++i) mine.insert(&*i);
  for (FI f = fr.begin(); f != fr.end(); ++f)
  {
    std::vector<tuple_t> ref = ref_elements<FaceTag, viennagrid::line_tag>(m.tuple(*f)); std::size_t k = 0; ER er(*f);
    for (EI e = er.begin(); e != er.end(); ++e, ++k) { ensures_true("face_edges", k < ref.size() && m.set(*e) == mkset(ref[k])); ensures_true("face_edges_shared_with_cell", mine.count(&*e) == 1); }
    ensures_true("face_edge_count", k == ref.size());
  }
  cover("end");
}
CONTRACT(faces_of_tetrahedron, "boundary_element_generator<tetrahedron, triangle>") { face_edges<viennagrid::tetrahedral_3d_mesh, viennagrid::triangle_tag>(4); }
CONTRACT(faces_of_hexahedron, "boundary_element_generator<hexahedron, quadrilateral>") { face_edges<viennagrid::hexahedral_3d_mesh, viennagrid::quadrilateral_tag>(8); }
CONTRACT(reference_polygon, "boundary_element_generator<polygon>")
{
  TM<viennagrid::polygonal_2d_mesh> m; int n = 3 + choose("n", 5); m.add_vertices(n);
  std::vector<viennagrid::result_of::vertex_handle<viennagrid::polygonal_2d_mesh>::type> h; tuple_t t;
  int shift = choose("shift", n), rev = choose("reverse", 2);
  for (int i = 0; i < n; ++i) { int k = (shift + (rev ? n - i : i)) % n; t.push_back(k); h.push_back(m.v[k]); }
  viennagrid::result_of::cell_handle<viennagrid::polygonal_2d_mesh>::type c = viennagrid::make_element<viennagrid::polygon_tag>(m.mesh, h.begin(), h.end());
  ensures_true("vertex_order_kept", m.tuple(viennagrid::dereference_handle(m.mesh, c)) == t);
  typedef viennagrid::result_of::cell<viennagrid::polygonal_2d_mesh>::type C;
  viennagrid::result_of::element_range<C, viennagrid::line_tag>::type er(viennagrid::dereference_handle(m.mesh, c));
  mset_t want; for (int i = 0; i < n; ++i) { vset_t s; s.insert(t[i]); s.insert(t[(i+1)%n]); want.insert(s); }
  ensures_true("edges_are_the_closed_cycle", collect(m, er) == want);
  cover("end");
}
