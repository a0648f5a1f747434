// KIND: sym
// TIME: 200
// FRAGILE: yes
// P14 (proof part): the real mesh code with symbolic vertex ids: for all pairwise different ids and every order the shared element may have been created in.
#include "symid.hpp"
template <typename Tag, typename M> void check_cell(SM<M> & m, typename viennagrid::result_of::cell_handle<M>::type h, tuple_t const & t)
{
  typedef typename viennagrid::result_of::cell<M>::type C; typedef typename C::tag CT; typedef typename viennagrid::result_of::element_range<C, Tag>::type BR; typedef typename viennagrid::result_of::iterator<BR>::type BI;
  C & cell = *h; C const & ccell = cell; std::vector<tuple_t> ref = ref_elements<CT, Tag>(t); BR br(cell); std::size_t k = 0;
  for (BI b = br.begin(); b != br.end(); ++b, ++k) for (std::size_t i = 0; i < ref[k].size(); ++i)
  {
    ensures_true("local_vertex", m.find(&*viennagrid::local_vertex(cell, b.handle(), i)) == ref[k][i]);
    ensures_true("local_vertex_const", m.find(&*viennagrid::local_vertex(ccell, b.handle(), i)) == ref[k][i]);
  }
  ensures_true("count", k == ref.size());
}
static tuple_t iota(int a, int b) { tuple_t t; for (int i = a; i < b; ++i) t.push_back(i); return t; }
// without loss of generality the first cell is (0,1,...): the ids are symbolic
CONTRACT(edge_orientation, "boundary_element_layer::set_boundary_element; global_to_local_orientation; local_vertex; make_triangle")
{
  SM<tri_mesh> m(4); tuple_t t = iota(0, 3), u = iota(1, 4); nth_permutation(u, choose("order", 6));
  typedef viennagrid::result_of::cell_handle<tri_mesh>::type C;
  C a = viennagrid::make_triangle(m.mesh, m.v[0], m.v[1], m.v[2]), b = viennagrid::make_triangle(m.mesh, m.v[u[0]], m.v[u[1]], m.v[u[2]]);
  check_cell<viennagrid::line_tag>(m, a, t); check_cell<viennagrid::line_tag>(m, b, u); cover("end");
}
CONTRACT(face_orientation, "boundary_element_layer::set_boundary_element; global_to_local_orientation; local_vertex; make_tetrahedron")
{
  SM<tet_mesh> m(4); tuple_t f = subsets(4, 3)[choose("face", 4)], t = iota(0, 4); nth_permutation(f, choose("order", 6));
  viennagrid::make_triangle(m.mesh, m.v[f[0]], m.v[f[1]], m.v[f[2]]);       // the shared face and its edges exist already, in any order
  viennagrid::result_of::cell_handle<tet_mesh>::type a = viennagrid::make_tetrahedron(m.mesh, m.v[0], m.v[1], m.v[2], m.v[3]);
  check_cell<viennagrid::line_tag>(m, a, t); check_cell<viennagrid::triangle_tag>(m, a, t); cover("end");
}
CONTRACT(quadrilateral_orientation, "boundary_element_layer::set_boundary_element; global_to_local_orientation; local_vertex; make_quadrilateral")
{
  SM<quad_mesh> m(4); tuple_t f = subsets(4, 2)[choose("edge", 6)], t = iota(0, 4); nth_permutation(f, choose("order", 2));
  viennagrid::make_line(m.mesh, m.v[f[0]], m.v[f[1]]);
  viennagrid::result_of::cell_handle<quad_mesh>::type a = viennagrid::make_quadrilateral(m.mesh, m.v[0], m.v[1], m.v[2], m.v[3]);
  check_cell<viennagrid::line_tag>(m, a, t); cover("end");
}
