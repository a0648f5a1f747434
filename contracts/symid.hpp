// A mesh configuration of the library's own making in which the vertex ids are symbolic: the real element creation code runs for all ids.
#ifndef VERIF_SYMID_HPP
#define VERIF_SYMID_HPP
#include "topo.hpp"
template <typename Base> struct symid_config
{
  typedef typename Base::type base;
  typedef typename viennagrid::detail::result_of::lookup<base, viennagrid::vertex_tag>::type vconf;
  typedef typename viennagrid::detail::result_of::insert_or_modify<vconf, viennagrid::static_pair<viennagrid::config::element_id_tag, viennagrid::smart_id_tag<real> > >::type vconf2;
  typedef typename viennagrid::detail::result_of::insert_or_modify<base, viennagrid::static_pair<viennagrid::vertex_tag, vconf2> >::type type;
};
template <typename M> struct SM
{
  M mesh; typedef typename viennagrid::result_of::vertex_handle<M>::type vh; typedef typename viennagrid::result_of::vertex<M>::type V; typedef typename V::id_type id_type;
  typedef typename viennagrid::result_of::point<M>::type P;
  std::vector<vh> v;
  std::vector<real> ids;
  SM(int n) { char nm[16]; for (int i = 0; i < n; ++i) { sprintf(nm, "id%d", i); real x = input(nm); for (std::size_t j = 0; j < ids.size(); ++j) requires_(x != ids[j]); requires_(x > 0); ids.push_back(x); }
    for (int i = 0; i < n; ++i) v.push_back(viennagrid::make_vertex_with_id(mesh, id_type(ids[i]), P())); }
  int find(void const * p) const { for (std::size_t i = 0; i < v.size(); ++i) if ((void const *)&*v[i] == p) return (int)i; return -1; }
  template <typename El> vset_t set(El const & e) const { vset_t s; for (std::size_t i = 0; i < viennagrid::vertices(e).size(); ++i) s.insert(find(&viennagrid::vertices(e)[i])); return s; }
};
template <typename Tag, typename M> mset_t all(SM<M> & m)
{ typedef typename viennagrid::result_of::element_range<M, Tag>::type R; typedef typename viennagrid::result_of::iterator<R>::type I; R r(m.mesh); mset_t o; for (I i = r.begin(); i != r.end(); ++i) o.insert(m.set(*i)); return o; }
typedef viennagrid::mesh< symid_config<viennagrid::config::triangular_2d> > tri_mesh;
typedef viennagrid::mesh< symid_config<viennagrid::config::tetrahedral_3d> > tet_mesh;

typedef viennagrid::mesh< symid_config<viennagrid::config::quadrilateral_2d> > quad_mesh;
typedef viennagrid::mesh< symid_config<viennagrid::config::hexahedral_3d> > hex_mesh;
#endif
