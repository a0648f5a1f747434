// KIND: bounded
// BOUND: all meshes of up to 3 lines on 4 vertices, 3 triangles on 5, 3 tetrahedra on 6 vertices (several vertex orders each), rows of 3 quadrilaterals and 2 hexahedra in every cell symmetry
// TIME: 100
// P13: an element is identified by its vertices: one object per vertex set in the mesh, shared by all its hosts.
#include "topo.hpp"
template <typename F> struct identity_of
{
  typedef typename F::mesh M; TM<M> & m; identity_of(TM<M> & mm) : m(mm) {}
  template <typename Tag> void on()
  {
    typedef typename viennagrid::result_of::element_range<M, Tag>::type R; R r(m.mesh);
    mset_t want = as_multi(m.template model<Tag>());
    if (Tag::dim == 0) { want.clear(); for (std::size_t i = 0; i < m.v.size(); ++i) { vset_t s; s.insert((int)i); want.insert(s); } }
    ensures_true("one_element_per_vertex_set", collect(m, r) == want);
    ensures_true("size", r.size() == want.size());
    // all cells refer to the same object
    typedef typename viennagrid::result_of::cell_range<M>::type CR; typedef typename viennagrid::result_of::iterator<CR>::type CI;
    typedef typename TM<M>::cell_type C; typedef typename viennagrid::result_of::element_range<C, Tag>::type BR; typedef typename viennagrid::result_of::iterator<BR>::type BI;
    typedef typename viennagrid::result_of::iterator<R>::type I;
    std::map<vset_t, void const *> where; for (I i = r.begin(); i != r.end(); ++i) where[m.set(*i)] = &*i;
    CR cr(m.mesh); std::size_t nc = 0;
    for (CI c = cr.begin(); c != cr.end(); ++c, ++nc)
    {
      ensures_true("cell_keeps_its_vertices", m.tuple(*c) == m.cells[nc]);
      BR br(*c); std::vector<tuple_t> ref = ref_elements<typename TM<M>::cell_tag, Tag>(m.cells[nc]); std::size_t k = 0;
      for (BI b = br.begin(); b != br.end(); ++b, ++k) { ensures_true("boundary_element_vertices", k < ref.size() && m.set(*b) == mkset(ref[k])); ensures_true("shared_object", where.count(m.set(*b)) && where[m.set(*b)] == &*b); }
      ensures_true("boundary_count", k == ref.size());
    }
    ensures_true("cell_count", nc == m.cells.size());
  }
};
template <typename F> void identity()
{
  TM<typename F::mesh> m; int nv; std::vector<tuple_t> cells = F::cells(nv); m.add_vertices(nv);
  for (std::size_t i = 0; i < cells.size(); ++i) m.add_cell(cells[i]);
  identity_of<F> f(m); kinds<typename TM<typename F::mesh>::cell_tag>::each(f); cover("end");
}
FOR_FAMILIES(identity, "mesh element insertion; hidden_key_map; element_key; physical_inserter")

// creating the same boundary element again, with any vertex order, returns the existing one
CONTRACT(recreate_edge, "make_line; hidden_key_map::insert")
{
  TM<viennagrid::triangular_2d_mesh> m; int nv; std::vector<tuple_t> cells = fam_tri3::cells(nv); m.add_vertices(nv);
  for (std::size_t i = 0; i < cells.size(); ++i) m.add_cell(cells[i]);
  std::size_t n0 = viennagrid::lines(m.mesh).size();
  int a = choose("a", nv), b = choose("b", nv); requires_(a != b);
  vset_t s; s.insert(a); s.insert(b); bool had = m.model<viennagrid::line_tag>().count(s);
  viennagrid::result_of::line_handle<viennagrid::triangular_2d_mesh>::type h = viennagrid::make_line(m.mesh, m.v[a], m.v[b]);
  ensures_true("right_vertices", m.set(viennagrid::dereference_handle(m.mesh, h)) == s);
  ensures_true("count", viennagrid::lines(m.mesh).size() == n0 + (had ? 0 : 1));
  viennagrid::result_of::line_handle<viennagrid::triangular_2d_mesh>::type h2 = viennagrid::make_line(m.mesh, m.v[b], m.v[a]);
  ensures_true("same_handle", h == h2);
  ensures_true("count_again", viennagrid::lines(m.mesh).size() == n0 + (had ? 0 : 1));
  cover("end");
}
CONTRACT(recreate_triangle, "make_triangle; hidden_key_map::insert")
{
  TM<viennagrid::tetrahedral_3d_mesh> m; m.add_vertices(6); std::vector<tuple_t> cells = choose_simplices(6, 4, 1, 24); m.add_cell(cells[0]);
  tuple_t t = subsets(6, 3)[choose("face", 20)]; nth_permutation(t, choose("order", 6)); bool had = m.model<viennagrid::triangle_tag>().count(mkset(t));
  std::size_t n0 = viennagrid::triangles(m.mesh).size();
  viennagrid::result_of::triangle_handle<viennagrid::tetrahedral_3d_mesh>::type h = viennagrid::make_triangle(m.mesh, m.v[t[0]], m.v[t[1]], m.v[t[2]]);
  viennagrid::result_of::triangle_handle<viennagrid::tetrahedral_3d_mesh>::type h2 = viennagrid::make_triangle(m.mesh, m.v[t[1]], m.v[t[0]], m.v[t[2]]);
  ensures_true("right_vertices", m.set(viennagrid::dereference_handle(m.mesh, h)) == mkset(t));
  ensures_true("same_handle", h == h2); ensures_true("count", viennagrid::triangles(m.mesh).size() == n0 + (had ? 0 : 1));
  cover("end");
}
