// Reference model for topology: a mesh is a list of vertex-index tuples. Everything is computed by brute force from the
// documented reference numbering (doc/manual/orientations.tex), independent of the library's own tables.
#ifndef VERIF_TOPO_HPP
#define VERIF_TOPO_HPP
#include "common.hpp"
#include "viennagrid/mesh/mesh.hpp"
#include "viennagrid/mesh/segmentation.hpp"
#include "viennagrid/mesh/coboundary_iteration.hpp"
#include "viennagrid/mesh/neighbor_iteration.hpp"
#include "viennagrid/algorithm/boundary.hpp"

typedef std::set<int> vset_t;
typedef std::vector<int> tuple_t;

// documented local numbering of the boundary elements
struct ref_table { int n; int k; const int * t; };
template <typename CellTag, typename BndTag> struct reference;
#define REF(CELL, BND, N, K, ...) \
  template <> struct reference<viennagrid::CELL, viennagrid::BND> { static ref_table get() { static const int t[] = { __VA_ARGS__ }; ref_table r = { N, K, t }; return r; } };
REF(line_tag, vertex_tag, 2, 1, 0, 1)
REF(triangle_tag, vertex_tag, 3, 1, 0, 1, 2)
REF(triangle_tag, line_tag, 3, 2, 0,1, 0,2, 1,2)
REF(quadrilateral_tag, vertex_tag, 4, 1, 0, 1, 2, 3)
REF(quadrilateral_tag, line_tag, 4, 2, 0,1, 0,2, 1,3, 2,3)
REF(tetrahedron_tag, vertex_tag, 4, 1, 0, 1, 2, 3)
REF(tetrahedron_tag, line_tag, 6, 2, 0,1, 0,2, 0,3, 1,2, 1,3, 2,3)
REF(tetrahedron_tag, triangle_tag, 4, 3, 0,1,2, 0,1,3, 0,2,3, 1,2,3)
REF(hexahedron_tag, vertex_tag, 8, 1, 0,1,2,3,4,5,6,7)
REF(hexahedron_tag, line_tag, 12, 2, 0,1, 0,2, 0,4, 1,3, 1,5, 2,3, 2,6, 3,7, 4,5, 4,6, 5,7, 6,7)
REF(hexahedron_tag, quadrilateral_tag, 6, 4, 0,1,2,3, 0,1,4,5, 0,2,4,6, 1,3,5,7, 2,3,6,7, 4,5,6,7)

inline vset_t mkset(tuple_t const & t) { return vset_t(t.begin(), t.end()); }
// vertex sets of the boundary elements of kind BndTag of a cell given by its vertex tuple
template <typename CellTag, typename BndTag> std::vector<tuple_t> ref_elements(tuple_t const & cell)
{
  ref_table r = reference<CellTag, BndTag>::get(); std::vector<tuple_t> o;
  for (int i = 0; i < r.n; ++i) { tuple_t t; for (int j = 0; j < r.k; ++j) t.push_back(cell[r.t[i * r.k + j]]); o.push_back(t); }
  return o;
}

inline void nth_permutation(std::vector<int> & v, int k) { std::sort(v.begin(), v.end()); while (k-- > 0) std::next_permutation(v.begin(), v.end()); }
inline std::vector<tuple_t> subsets(int n, int k)
{
  std::vector<tuple_t> o;
  for (int m = 0; m < (1 << n); ++m) { tuple_t t; for (int i = 0; i < n; ++i) if (m & (1 << i)) t.push_back(i); if ((int)t.size() == k) o.push_back(t); }
  return o;
}
inline int factorial(int n) { int r = 1; for (int i = 2; i <= n; ++i) r *= i; return r; }

// ---- families of small meshes, enumerated exhaustively through choose() -----------------------------------------------
// simplices: `nc` cells out of all vertex subsets of nv vertices, each given in one of `perms` vertex orders
inline std::vector<tuple_t> choose_simplices(int nv, int k, int nc, int perms)
{
  std::vector<tuple_t> s = subsets(nv, k), cells; std::set<vset_t> used;
  for (int c = 0; c < nc; ++c)
  {
    tuple_t t = s[choose("subset", (int)s.size())];
    requires_(used.insert(mkset(t)).second);
    int np = factorial(k), p = choose("order", std::min(perms, np));
    if (perms < np) p = p == 0 ? 0 : (p * (np - 1)) / (perms - 1);    // spread over the permutations; always contains the reversal
    nth_permutation(t, p); cells.push_back(t);
  }
  return cells;
}
// hypercubes: a row of nc cells along the first axis, each given in one of `sym` orders (relabelling of axes and directions)
inline std::vector<tuple_t> choose_boxes(int dim, int nc, int sym)
{
  std::vector<tuple_t> cells;
  int cross = 1 << (dim - 1);
  for (int c = 0; c < nc; ++c)
  {
    int nsym = (1 << dim) * factorial(dim), k = choose("symmetry", std::min(sym, nsym));
    if (sym < nsym) k = k == 0 ? 0 : (k * (nsym - 1)) / (sym - 1);
    int flip = k % (1 << dim); std::vector<int> ax; for (int i = 0; i < dim; ++i) ax.push_back(i); nth_permutation(ax, k / (1 << dim));
    tuple_t t;
    for (int i = 0; i < (1 << dim); ++i)
    {
      int pos[3] = { 0, 0, 0 };
      for (int a = 0; a < dim; ++a) pos[ax[a]] = ((i >> a) & 1) ^ ((flip >> a) & 1);
      t.push_back((c + pos[0]) * cross + pos[1] + (dim == 3 ? 2 * pos[2] : 0));
    }
    cells.push_back(t);
  }
  return cells;
}
inline int box_vertices(int dim, int nc) { return (nc + 1) * (1 << (dim - 1)); }

// ---- a real mesh together with its model --------------------------------------------------------------------------------
template <typename MeshT> struct TM
{
  typedef MeshT mesh_type;
  typedef typename viennagrid::result_of::point<MeshT>::type point_type;
  typedef typename viennagrid::result_of::cell<MeshT>::type cell_type;
  typedef typename viennagrid::result_of::cell_tag<MeshT>::type cell_tag;
  typedef typename viennagrid::result_of::facet_tag<cell_tag>::type facet_tag;
  typedef typename viennagrid::result_of::vertex_handle<MeshT>::type vertex_handle;
  typedef typename viennagrid::result_of::cell_handle<MeshT>::type cell_handle;
  struct copied {}; bool check_owner; TM() : check_owner(false) {} TM(TM const & o, copied) : check_owner(true), mesh(o.mesh), cells(o.cells), by_id(o.by_id) {}   // the copy shares the model; no handles
  MeshT mesh; std::vector<vertex_handle> v; std::vector<cell_handle> c; std::vector<tuple_t> cells; std::map<int,int> by_id;
  void add_vertices(int n) { for (int i = 0; i < n; ++i) add_vertex(); }
  static point_type place(int i) { point_type p; for (std::size_t k = 0; k < p.size(); ++k) p[k] = real(((i + 1) * (int)(3 + 4 * k) * (i + 2)) % 23) + real(i) / real(8); return p; }
  void add_vertex()
  {
    int i = (int)v.size();
    v.push_back(viennagrid::make_vertex(mesh, place(i)));
    by_id[(int)viennagrid::dereference_handle(mesh, v.back()).id().get()] = i;
  }
  cell_handle add_cell(tuple_t const & t)
  {
    std::vector<vertex_handle> h; for (std::size_t i = 0; i < t.size(); ++i) h.push_back(v[t[i]]);
    cell_handle r = viennagrid::make_element<cell_type>(mesh, h.begin(), h.end());
    c.push_back(r); cells.push_back(t); return r;
  }
  template <typename IdT> int index_of(IdT const & id) const { std::map<int,int>::const_iterator it = by_id.find((int)id.get()); return it == by_id.end() ? -1 : it->second; }
  template <typename El> tuple_t tuple(El const & e) const { return tuple_impl(e, typename El::tag()); }
  template <typename El> tuple_t tuple_impl(El const & e, viennagrid::vertex_tag) const { return tuple_t(1, index_of(e.id())); }
  template <typename El, typename Tag> tuple_t tuple_impl(El const & e, Tag) const
  {
    typedef typename viennagrid::result_of::const_element_range<El, viennagrid::vertex_tag>::type R; typedef typename viennagrid::result_of::iterator<R>::type I;
    R r(e); tuple_t t; for (I i = r.begin(); i != r.end(); ++i) t.push_back(index_of(i->id())); return t;
  }
  template <typename El> vset_t set(El const & e) const { return mkset(tuple(e)); }
  // model: all elements of kind Tag of the cells selected
  template <typename Tag> std::set<vset_t> model(std::vector<int> const * sel = 0) const { return model_impl(sel, Tag(), (cell_tag *)0); }
  template <typename Tag> std::set<vset_t> model_impl(std::vector<int> const * sel, Tag, cell_tag *) const
  {
    std::set<vset_t> s;
    for (std::size_t i = 0; i < cells.size(); ++i) if (!sel || std::find(sel->begin(), sel->end(), (int)i) != sel->end())
    { std::vector<tuple_t> b = ref_elements<cell_tag, Tag>(cells[i]); for (std::size_t j = 0; j < b.size(); ++j) s.insert(mkset(b[j])); }
    return s;
  }
  std::set<vset_t> model_impl(std::vector<int> const * sel, cell_tag, cell_tag *) const
  { std::set<vset_t> s; for (std::size_t i = 0; i < cells.size(); ++i) if (!sel || std::find(sel->begin(), sel->end(), (int)i) != sel->end()) s.insert(mkset(cells[i])); return s; }
};
inline bool subset_of(vset_t const & a, vset_t const & b) { return std::includes(b.begin(), b.end(), a.begin(), a.end()); }
typedef std::multiset<vset_t> mset_t;
inline mset_t as_multi(std::set<vset_t> const & s) { return mset_t(s.begin(), s.end()); }
// is this object an element stored in the mesh of m (and not, say, its twin in another mesh)?
template <typename M, typename El> bool owned(TM<M> const & m, El const & e)
{ typedef typename viennagrid::result_of::const_element_range<M, typename El::tag>::type R; typedef typename viennagrid::result_of::iterator<R>::type I; R r(m.mesh); for (I i = r.begin(); i != r.end(); ++i) if (&*i == &e) return true; return false; }
template <typename M, typename R> mset_t collect(TM<M> const & m, R & r)
{ mset_t o; typedef typename viennagrid::result_of::iterator<R>::type I; for (I i = r.begin(); i != r.end(); ++i) o.insert(!m.check_owner || owned(m, *i) ? m.set(*i) : vset_t()); return o; }

// ---- the mesh families used by the bounded stand-ins ------------------------------------------------------------------
struct fam_line   { typedef viennagrid::line_2d_mesh mesh; static std::vector<tuple_t> cells(int & nv) { nv = 4; return choose_simplices(4, 2, 1 + choose("cells", 3), 2); } };
struct fam_tri    { typedef viennagrid::triangular_2d_mesh mesh; static std::vector<tuple_t> cells(int & nv) { nv = 5; int n = 1 + choose("cells", 3); return choose_simplices(5, 3, n, n < 3 ? 6 : 2); } };
struct fam_tri3   { typedef viennagrid::triangular_3d_mesh mesh; static std::vector<tuple_t> cells(int & nv) { nv = 5; int n = 1 + choose("cells", 3); return choose_simplices(5, 3, n, n < 3 ? 2 : 1); } };
struct fam_tet    { typedef viennagrid::tetrahedral_3d_mesh mesh; static std::vector<tuple_t> cells(int & nv) { nv = 6; int n = 1 + choose("cells", 3); return choose_simplices(6, 4, n, n == 1 ? 24 : n == 2 ? 6 : 1); } };
struct fam_quad   { typedef viennagrid::quadrilateral_2d_mesh mesh; static std::vector<tuple_t> cells(int & nv) { int n = 1 + choose("cells", 3); nv = box_vertices(2, n); return choose_boxes(2, n, 8); } };
struct fam_hex    { typedef viennagrid::hexahedral_3d_mesh mesh; static std::vector<tuple_t> cells(int & nv) { int n = 1 + choose("cells", 2); nv = box_vertices(3, n); return choose_boxes(3, n, 48); } };
#define FOR_FAMILIES(NAME, FUNCTIONS) \
  CONTRACT(NAME##_lines, FUNCTIONS) { NAME<fam_line>(); } \
  CONTRACT(NAME##_triangles, FUNCTIONS) { NAME<fam_tri>(); } \
  CONTRACT(NAME##_surface_triangles, FUNCTIONS) { NAME<fam_tri3>(); } \
  CONTRACT(NAME##_tetrahedra, FUNCTIONS) { NAME<fam_tet>(); } \
  CONTRACT(NAME##_quadrilaterals, FUNCTIONS) { NAME<fam_quad>(); } \
  CONTRACT(NAME##_hexahedra, FUNCTIONS) { NAME<fam_hex>(); }
// calls f.template operator()<Tag>() for every element kind of dimension between 0 and that of the cell
template <typename CellTag> struct kinds;
template <> struct kinds<viennagrid::line_tag> { template <typename F> static void each(F & f) { f.template on<viennagrid::vertex_tag>(); } };
template <> struct kinds<viennagrid::triangle_tag> { template <typename F> static void each(F & f) { f.template on<viennagrid::vertex_tag>(); f.template on<viennagrid::line_tag>(); } };
template <> struct kinds<viennagrid::quadrilateral_tag> { template <typename F> static void each(F & f) { f.template on<viennagrid::vertex_tag>(); f.template on<viennagrid::line_tag>(); } };
template <> struct kinds<viennagrid::tetrahedron_tag> { template <typename F> static void each(F & f) { f.template on<viennagrid::vertex_tag>(); f.template on<viennagrid::line_tag>(); f.template on<viennagrid::triangle_tag>(); } };
template <> struct kinds<viennagrid::hexahedron_tag> { template <typename F> static void each(F & f) { f.template on<viennagrid::vertex_tag>(); f.template on<viennagrid::line_tag>(); f.template on<viennagrid::quadrilateral_tag>(); } };
#endif
