// one-cell meshes of every element kind with unconstrained vertex coordinates
#ifndef VERIF_ONECELL_HPP
#define VERIF_ONECELL_HPP
#include "common.hpp"
#include "viennagrid/mesh/mesh.hpp"

template <typename MeshT> struct one_cell
{
  typedef typename viennagrid::result_of::point<MeshT>::type point_type;
  typedef typename viennagrid::result_of::cell<MeshT>::type cell_type;
  typedef typename viennagrid::result_of::vertex_handle<MeshT>::type vertex_handle;
  typedef typename viennagrid::result_of::cell_handle<MeshT>::type cell_handle;
  MeshT mesh; std::vector<vertex_handle> v; cell_handle c;
  one_cell(std::vector<point_type> const & pts)
  {
    for (std::size_t i = 0; i < pts.size(); ++i) v.push_back(viennagrid::make_vertex(mesh, pts[i]));
    c = viennagrid::make_element<cell_type>(mesh, v.begin(), v.end());
  }
  cell_type & cell() { return viennagrid::dereference_handle(mesh, c); }
};
template <typename P> std::vector<P> sympoints(int n) { std::vector<P> r; for (int i = 0; i < n; ++i) r.push_back(sympoint<P>(nm("p", i))); return r; }

inline P3 crossv(P3 const & a, P3 const & b) { P3 x; x[0]=a[1]*b[2]-a[2]*b[1]; x[1]=a[2]*b[0]-a[0]*b[2]; x[2]=a[0]*b[1]-a[1]*b[0]; return x; }
// squared measure of the simplex spanned (Gram determinant), times (k!)^2
template <typename P> real gram2(P const & a, P const & b, P const & c)
{ P u = sub(b, a), v = sub(c, a); return dotp(u,u)*dotp(v,v) - dotp(u,v)*dotp(u,v); }
#endif
