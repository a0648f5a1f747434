// Totals of meshes and segments (P21): mesh structures with unconstrained vertex positions.
#ifndef VERIF_P21_HPP
#define VERIF_P21_HPP
#include "history.hpp"
#include "viennagrid/algorithm/volume.hpp"
#include "viennagrid/algorithm/surface.hpp"
#include "viennagrid/algorithm/centroid.hpp"
#include "viennagrid/algorithm/geometry.hpp"
template <typename M> struct placed : SEG<M>
{
  placed(int nv, int nc, int k, int const * t, bool segs)
  {
    this->add_vertices(nv); for (int i = 0; i < nv; ++i) viennagrid::point(this->mesh, this->v[i]) = sympoint<typename TM<M>::point_type>(nm("p", i));
    for (int i = 0; i < nc; ++i) { this->add_cell(tuple_t(t + i * k, t + (i + 1) * k)); if (segs) this->put(i, choose("segment", 4)); }
  }
  // model: total measure and first moment of the selected cells, from the cell contracts
  real vol(std::vector<int> const * sel) const { real s = 0; for (std::size_t i = 0; i < this->c.size(); ++i) if (!sel || std::count(sel->begin(), sel->end(), (int)i)) s += viennagrid::volume(viennagrid::dereference_handle(this->mesh, this->c[i])); return s; }
  template <typename Tag> real vol_of(std::set<vset_t> const & which) const
  { typedef typename viennagrid::result_of::const_element_range<M, Tag>::type R; typedef typename viennagrid::result_of::iterator<R>::type I; R r(this->mesh); real s = 0; for (I i = r.begin(); i != r.end(); ++i) if (which.count(this->set(*i))) s += viennagrid::volume(*i); return s; }
  std::set<vset_t> hull(std::vector<int> const * sel) const
  {
    typedef typename TM<M>::facet_tag FT; std::map<vset_t, int> n; for (std::size_t i = 0; i < this->cells.size(); ++i) if (!sel || std::count(sel->begin(), sel->end(), (int)i)) { std::vector<tuple_t> b = ref_elements<typename TM<M>::cell_tag, FT>(this->cells[i]); for (std::size_t j = 0; j < b.size(); ++j) ++n[mkset(b[j])]; }
    std::set<vset_t> o; for (std::map<vset_t, int>::iterator i = n.begin(); i != n.end(); ++i) if (i->second == 1) o.insert(i->first); return o;
  }
};
#endif
