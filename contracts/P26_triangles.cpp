// KIND: sym
// TIME: 200
// P26: refining a triangle (in the plane and in space). Any local vertex order, any set of marked edges, neighbors across all three edges, all coordinates:
// the children tile the cell exactly, marked edges are split at their new vertex and only there, neighbors agree on the shared edges. Same chain argument as P27.
#include "topo.hpp"
#include "viennagrid/algorithm/refine.hpp"
struct bary { int b[4]; bary() { for (int i = 0; i < 4; ++i) b[i] = 0; } };
static long det3i(int const m[3][3]) { return m[0][0]*(m[1][1]*m[2][2]-m[1][2]*m[2][1]) - m[0][1]*(m[1][0]*m[2][2]-m[1][2]*m[2][0]) + m[0][2]*(m[1][0]*m[2][1]-m[1][1]*m[2][0]); }
template <typename M> void refine_cell()
{
  typedef typename viennagrid::result_of::line<M>::type E; typedef typename viennagrid::result_of::vertex_handle<M>::type VH; typedef typename viennagrid::result_of::point<M>::type P;
  typedef typename viennagrid::result_of::cell_range<M>::type CR; typedef typename viennagrid::result_of::iterator<CR>::type CI; typedef typename viennagrid::result_of::line_range<M>::type LR; typedef typename viennagrid::result_of::iterator<LR>::type LI;
  M in, out; std::vector<VH> v; static const char * nm[] = { "a", "b", "c", "d" };
  for (int i = 0; i < 4; ++i) v.push_back(viennagrid::make_vertex(in, sympoint<P>(nm[i])));
  int perm = choose("local_order", 6), perm_n = choose("neighbor_order", 6), mask = choose("marked", 64);
  std::vector<int> o; for (int i = 0; i < 3; ++i) o.push_back(i); nth_permutation(o, perm); std::vector<tuple_t> cells(1, o);
  for (int f = 0; f < 3; ++f) { tuple_t t; for (int i = 0; i < 3; ++i) if (i != f) t.push_back(i); t.push_back(3); nth_permutation(t, perm_n); cells.push_back(t); }
  for (std::size_t c = 0; c < cells.size(); ++c) viennagrid::make_triangle(in, v[cells[c][0]], v[cells[c][1]], v[cells[c][2]]);
  static const int ed[6][2] = { {0,1}, {0,2}, {1,2}, {0,3}, {1,3}, {2,3} };
  std::set<vset_t> marked; for (int i = 0; i < 6; ++i) if ((mask >> i) & 1) { vset_t s; s.insert(ed[i][0]); s.insert(ed[i][1]); marked.insert(s); }
  viennagrid::vertex_copy_map<M, M> copies(out); std::map<void const *, int> name; std::map<int, bary> at;
  for (int i = 0; i < 4; ++i) { void const * q = &*copies(*v[i]); name[q] = i; at[i].b[i] = 2; }
  std::deque<bool> flag; std::deque<VH> mid; typename viennagrid::result_of::accessor<std::deque<bool>, E>::type flags(flag); typename viennagrid::result_of::accessor<std::deque<VH>, E>::type mids(mid);
  LR lr(in); int next = 4;
  for (LI l = lr.begin(); l != lr.end(); ++l)
  {
    std::vector<int> e; for (int k = 0; k < 2; ++k) for (int i = 0; i < 4; ++i) if (&viennagrid::vertices(*l)[k] == &*v[i]) e.push_back(i);
    bool m = e.size() == 2 && marked.count(mkset(e)); flags(*l) = m; mids(*l) = VH();
    if (m) { P a = viennagrid::point(*v[e[0]]), b = viennagrid::point(*v[e[1]]), c; for (std::size_t k = 0; k < c.size(); ++k) c[k] = (a[k] + b[k]) / 2; VH h = viennagrid::make_vertex(out, c); mids(*l) = h; at[next].b[e[0]] = 1; at[next].b[e[1]] = 1; name[&*h] = next; ++next; }
  }
  viennagrid::simple_refine<viennagrid::triangle_tag>(in, out, copies, flags, mids);
  ensures_true("no_further_vertices", (int)viennagrid::vertices(out).size() == next);
  std::map<int, long> volume; std::map<int, int> count; std::map<int, std::map<vset_t, int> > chain; std::map<vset_t, std::map<int, int> > uses; bool known = true, unsplit = false, degenerate = false;
  CR cr(out);
  for (CI c = cr.begin(); c != cr.end() && known; ++c)
  {
    std::vector<int> t; for (int k = 0; k < 3; ++k) { void const * q = &viennagrid::vertices(*c)[k]; if (!name.count(q)) { known = false; break; } t.push_back(name[q]); }
    if (!known) break;
    int parent = -1; for (std::size_t p = 0; p < cells.size(); ++p) { bool in_p = true; for (int k = 0; k < 3; ++k) for (int i = 0; i < 4; ++i) if (at[t[k]].b[i] && !mkset(cells[p]).count(i)) in_p = false; if (in_p) parent = (int)p; }
    if (parent < 0) { known = false; break; }
    int m[3][3]; for (int k = 0; k < 3; ++k) { int j = 0; for (int i = 0; i < 4; ++i) if (mkset(cells[parent]).count(i)) m[k][j++] = at[t[k]].b[i]; }
    long d = det3i(m); if (d == 0) { degenerate = true; continue; }
    if (d < 0) { std::swap(t[0], t[1]); d = -d; }
    volume[parent] += d; ++count[parent];
    for (std::set<vset_t>::iterator e = marked.begin(); e != marked.end(); ++e) if (subset_of(*e, mkset(t))) unsplit = true;
    for (int k = 0; k < 3; ++k) { int a = t[(k + 1) % 3], b = t[(k + 2) % 3]; vset_t f; f.insert(a); f.insert(b); chain[parent][f] += a < b ? 1 : -1; ++uses[f][parent]; }
  }
  ensures_true("children_lie_in_the_cells", known); if (!known) return;
  ensures_true("no_degenerate_child", !degenerate); ensures_true("marked_edges_are_split", !unsplit);
  for (std::size_t p = 0; p < cells.size(); ++p)
  {
    ensures_true("areas_add_up", volume[(int)p] == 8);
    int nm_ = 0; for (std::set<vset_t>::iterator e = marked.begin(); e != marked.end(); ++e) if (subset_of(*e, mkset(cells[p]))) ++nm_; ensures_true("number_of_children", count[(int)p] == nm_ + 1);
    for (std::map<vset_t, int>::iterator f = chain[(int)p].begin(); f != chain[(int)p].end(); ++f)
    {
      vset_t support; for (vset_t::iterator x = f->first.begin(); x != f->first.end(); ++x) for (int i = 0; i < 4; ++i) if (at[*x].b[i]) support.insert(i); bool on_edge = support.size() == 2;
      ensures_true("interior_edges_cancel", on_edge ? (f->second == 1 || f->second == -1) && uses[f->first][(int)p] == 1 : f->second == 0 && uses[f->first][(int)p] == 2);
      ensures_true("neighbors_agree_on_the_shared_edge", !on_edge || uses[f->first].size() == 2);
    }
  }
  cover("end");
}
#define FUNS "simple_refine; element_refinement<triangle_tag>::apply; vertex_copy_map::operator()"
CONTRACT(plane, FUNS) { refine_cell<viennagrid::triangular_2d_mesh>(); }
CONTRACT(space, FUNS) { refine_cell<viennagrid::triangular_3d_mesh>(); }
