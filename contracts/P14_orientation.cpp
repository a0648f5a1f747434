// KIND: bounded
// BOUND: all meshes of up to 3 lines on 4 vertices, 3 triangles on 5, 3 tetrahedra on 6 vertices (several vertex orders each), rows of 3 quadrilaterals and 2 hexahedra in every cell symmetry
// TIME: 100
// P14: the vertices of a shared boundary element, seen from each host cell, come in that cell's reference order.
#include "topo.hpp"
template <typename F> struct orientation_of
{
  typedef typename F::mesh M; TM<M> & m; orientation_of(TM<M> & mm) : m(mm) {}
  template <typename Tag> void on() { go<Tag>(viennagrid::detail::tag<Tag>()); }
  template <typename Tag> void go(viennagrid::detail::tag<viennagrid::vertex_tag>) {}
  template <typename Tag, typename T> void go(viennagrid::detail::tag<T>)
  {
    typedef typename TM<M>::cell_type C; typedef typename viennagrid::result_of::element_range<C, Tag>::type BR; typedef typename viennagrid::result_of::iterator<BR>::type BI;
    for (std::size_t c = 0; c < m.c.size(); ++c)
    {
      C & cell = viennagrid::dereference_handle(m.mesh, m.c[c]); C const & ccell = cell; BR br(cell); std::size_t k = 0;
      std::vector<tuple_t> ref = ref_elements<typename TM<M>::cell_tag, Tag>(m.cells[c]);
      for (BI b = br.begin(); b != br.end(); ++b, ++k) for (std::size_t i = 0; i < ref[k].size(); ++i)
      {
        ensures_true("local_vertex", m.index_of(viennagrid::dereference_handle(m.mesh, viennagrid::local_vertex(cell, b.handle(), i)).id()) == ref[k][i]);
        ensures_true("local_vertex_const", m.index_of(viennagrid::local_vertex(ccell, b.handle(), i)->id()) == ref[k][i]);
      }
    }
  }
};
template <typename F> void orientation()
{
  TM<typename F::mesh> m; int nv; std::vector<tuple_t> cells = F::cells(nv); m.add_vertices(nv);
  for (std::size_t i = 0; i < cells.size(); ++i) m.add_cell(cells[i]);
  orientation_of<F> f(m); kinds<typename TM<typename F::mesh>::cell_tag>::each(f); cover("end");
}
CONTRACT(orientation_triangles, "boundary_element_layer::set_boundary_element; global_to_local_orientation; local_vertex") { orientation<fam_tri>(); }
CONTRACT(orientation_surface_triangles, "local_vertex") { orientation<fam_tri3>(); }
CONTRACT(orientation_tetrahedra, "local_vertex") { orientation<fam_tet>(); }
CONTRACT(orientation_quadrilaterals, "local_vertex") { orientation<fam_quad>(); }
CONTRACT(orientation_hexahedra, "local_vertex") { orientation<fam_hex>(); }
