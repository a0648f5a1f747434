// KIND: sym
// TIME: 400
// P27: refining a tetrahedron. A cell with vertices in any local order and any set of edges marked, with neighbors across all four faces, for all coordinates:
// the children tile the cell exactly, no marked edge is left unsplit, nothing but the marked edges is split, and the subdivisions of a shared face agree.
// Exact tiling is the chain argument: children positively oriented in barycentric coordinates, oriented interior faces cancel, volumes add up to that of the cell.
#include "topo.hpp"
#include "viennagrid/algorithm/refine.hpp"
typedef viennagrid::tetrahedral_3d_mesh M; typedef viennagrid::result_of::vertex<M>::type V; typedef viennagrid::result_of::line<M>::type E; typedef viennagrid::result_of::vertex_handle<M>::type VH; typedef viennagrid::result_of::point<M>::type P;
typedef viennagrid::result_of::cell_range<M>::type CR; typedef viennagrid::result_of::iterator<CR>::type CI; typedef viennagrid::result_of::line_range<M>::type LR; typedef viennagrid::result_of::iterator<LR>::type LI;
// twice the barycentric coordinates with respect to the five vertices of the input mesh (index 4 is the common apex of the neighbors)
struct bary { int b[5]; bary() { for (int i = 0; i < 5; ++i) b[i] = 0; } };
static long det4(int const m[4][4])
{
  long r = 0; std::vector<int> p; for (int i = 0; i < 4; ++i) p.push_back(i);
  do { long t = 1; int inv = 0; for (int i = 0; i < 4; ++i) { t *= m[i][p[i]]; for (int j = i + 1; j < 4; ++j) if (p[i] > p[j]) ++inv; } r += inv & 1 ? -t : t; } while (std::next_permutation(p.begin(), p.end()));
  return r;
}
static void refine_cell(int marked_edges, int part = 0, int parts = 1)
{
  M in, out; std::vector<VH> v; static const char * nm[] = { "a", "b", "c", "d" };
  for (int i = 0; i < 4; ++i) v.push_back(viennagrid::make_vertex(in, sympoint<P>(nm[i])));
  v.push_back(viennagrid::make_vertex(in, P(7, 8, 9)));
  int perm = part * (24 / parts) + choose("local_order", 24 / parts), mask = choose("marked", 64), bits = 0; for (int i = 0; i < 6; ++i) bits += (mask >> i) & 1; requires_(bits == marked_edges);
  std::vector<int> o; for (int i = 0; i < 4; ++i) o.push_back(i); nth_permutation(o, perm); std::vector<tuple_t> cells(1, o);
  for (int f = 0; f < 4; ++f) { tuple_t t; for (int i = 0; i < 4; ++i) if (i != f) t.push_back(i); t.push_back(4); cells.push_back(t); }
  for (std::size_t c = 0; c < cells.size(); ++c) viennagrid::make_tetrahedron(in, v[cells[c][0]], v[cells[c][1]], v[cells[c][2]], v[cells[c][3]]);
  static const int ed[6][2] = { {0,1}, {0,2}, {0,3}, {1,2}, {1,3}, {2,3} };
  std::set<vset_t> marked; for (int i = 0; i < 6; ++i) if ((mask >> i) & 1) { vset_t s; s.insert(o[ed[i][0]]); s.insert(o[ed[i][1]]); marked.insert(s); }
  // the vertices of the output mesh: copies in the order of the ids, one new vertex per marked edge
  viennagrid::vertex_copy_map<M, M> copies(out); std::map<void const *, bary> where; std::map<void const *, int> name; std::map<int, bary> at;
  for (int i = 0; i < 5; ++i) { void const * q = &*copies(*v[i]); where[q].b[i] = 2; name[q] = i; at[i] = where[q]; }
  std::deque<bool> flag; std::deque<VH> mid; viennagrid::result_of::accessor<std::deque<bool>, E>::type flags(flag); viennagrid::result_of::accessor<std::deque<VH>, E>::type mids(mid);
  LR lr(in); int next = 5;
  for (LI l = lr.begin(); l != lr.end(); ++l)
  {
    std::vector<int> e; for (int k = 0; k < 2; ++k) for (int i = 0; i < 5; ++i) if (&viennagrid::vertices(*l)[k] == &*v[i]) e.push_back(i);
    bool m = e.size() == 2 && marked.count(mkset(e)); flags(*l) = m; mids(*l) = VH();
    if (m) { P a = viennagrid::point(*v[e[0]]), b = viennagrid::point(*v[e[1]]), c; for (int k = 0; k < 3; ++k) c[k] = (a[k] + b[k]) / 2; VH h = viennagrid::make_vertex(out, c); mids(*l) = h; where[&*h].b[e[0]] = 1; where[&*h].b[e[1]] = 1; name[&*h] = next; at[next] = where[&*h]; ++next; }
  }
  ensures_true("as_many_new_vertices_as_marked_edges", next == 5 + marked_edges);
  viennagrid::simple_refine<viennagrid::tetrahedron_tag>(in, out, copies, flags, mids);
  ensures_true("no_further_vertices", (int)viennagrid::vertices(out).size() == next);
  // children
  std::map<int, long> volume; std::map<int, std::map<vset_t, int> > chain; std::map<vset_t, std::map<int, int> > uses; bool known = true, unsplit = false, degenerate = false;
  CR cr(out);
  for (CI c = cr.begin(); c != cr.end(); ++c)
  {
    std::vector<int> t; for (int k = 0; k < 4; ++k) { void const * q = &viennagrid::vertices(*c)[k]; if (!name.count(q)) { known = false; break; } t.push_back(name[q]); }
    if (!known) break;
    // the cell it belongs to: the one whose barycentric coordinates carry it
    int parent = -1; for (std::size_t p = 0; p < cells.size(); ++p) { bool in_p = true; for (int k = 0; k < 4; ++k) for (int i = 0; i < 5; ++i) if (at[t[k]].b[i] && !mkset(cells[p]).count(i)) in_p = false; if (in_p) parent = (int)p; }
    if (parent < 0) { known = false; break; }
    int m[4][4]; for (int k = 0; k < 4; ++k) { int j = 0; for (int i = 0; i < 5; ++i) if (mkset(cells[parent]).count(i)) m[k][j++] = at[t[k]].b[i]; }
    long d = det4(m); if (d == 0) { degenerate = true; continue; }
    if (d < 0) { std::swap(t[0], t[1]); d = -d; }
    volume[parent] += d;
    for (std::set<vset_t>::iterator e = marked.begin(); e != marked.end(); ++e) if (subset_of(*e, mkset(t))) unsplit = true;
    for (int k = 0; k < 4; ++k)
    {
      std::vector<int> f; for (int i = 0; i < 4; ++i) if (i != k) f.push_back(t[i]);
      int s = k & 1 ? -1 : 1; for (int i = 0; i < 3; ++i) for (int j = i + 1; j < 3; ++j) if (f[i] > f[j]) s = -s;
      chain[parent][mkset(f)] += s; ++uses[mkset(f)][parent];
    }
  }
  ensures_true("children_lie_in_the_cells", known); if (!known) return;
  ensures_true("no_degenerate_child", !degenerate); ensures_true("marked_edges_are_split", !unsplit);
  for (std::size_t p = 0; p < cells.size(); ++p)
  {
    ensures_true("volumes_add_up", volume[(int)p] == 16);
    for (std::map<vset_t, int>::iterator f = chain[(int)p].begin(); f != chain[(int)p].end(); ++f)
    {
      bool on_face = false; vset_t support; for (vset_t::iterator x = f->first.begin(); x != f->first.end(); ++x) for (int i = 0; i < 5; ++i) if (at[*x].b[i]) support.insert(i); on_face = support.size() == 3;
      ensures_true("interior_faces_cancel", on_face ? (f->second == 1 || f->second == -1) && uses[f->first][(int)p] == 1 : f->second == 0 && uses[f->first][(int)p] == 2);
      // conformity: faces on a shared face belong to exactly two cells
      ensures_true("neighbors_agree_on_the_shared_face", !on_face || uses[f->first].size() == 2);
    }
  }
  cover("end");
}
#define FUNS "simple_refine; element_refinement<tetrahedron_tag>::apply; stable_line_is_longer; vertex_copy_map::operator()"
CONTRACT(no_edge, FUNS) { refine_cell(0); }
CONTRACT(one_edge, FUNS) { refine_cell(1); }
CONTRACT(two_edges, FUNS) { refine_cell(2); }
CONTRACT(three_edges, FUNS) { refine_cell(3); }
CONTRACT(four_edges_0, FUNS) { refine_cell(4, 0, 6); }
CONTRACT(four_edges_1, FUNS) { refine_cell(4, 1, 6); }
CONTRACT(four_edges_2, FUNS) { refine_cell(4, 2, 6); }
CONTRACT(four_edges_3, FUNS) { refine_cell(4, 3, 6); }
CONTRACT(four_edges_4, FUNS) { refine_cell(4, 4, 6); }
CONTRACT(four_edges_5, FUNS) { refine_cell(4, 5, 6); }
CONTRACT(five_edges, FUNS) { refine_cell(5); }
CONTRACT(six_edges, FUNS) { refine_cell(6); }
