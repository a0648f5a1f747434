// KIND: bounded
// BOUND: one cell per creation function, every vertex order (hexahedron: 24 of them), 0..3 unrelated vertices before; created in a mesh and through a segment; PLCs of up to 4 lines, 2 loose vertices, 2 hole points
// TIME: 60
// P12: every named creation function hands the vertices on in the order given
#include "topo.hpp"
#include "viennagrid/topology/plc.hpp"
template <typename M> struct built { TM<M> m; tuple_t t; typedef typename TM<M>::vertex_handle VH; int off;
  built(int n, int orders) { off = choose("before", 3); m.add_vertices(n + off); t = iota(n); if (orders) nth_permutation(t, orders == 1 ? choose("order", fact(n)) : choose("order", orders) * 1681 % fact(n)); for (std::size_t i = 0; i < t.size(); ++i) t[i] += off; }
  static int fact(int n) { int r = 1; for (int i = 2; i <= n; ++i) r *= i; return r; }
  static tuple_t iota(int n) { tuple_t r; for (int i = 0; i < n; ++i) r.push_back(i); return r; }
  VH v(int i) { return m.v[t[i]]; }
  template <typename H> void check(H h, std::size_t cells) { ensures_true("vertices_in_the_order_given", m.tuple(viennagrid::dereference_handle(m.mesh, h)) == t); ensures_true("exactly_one_cell", viennagrid::cells(m.mesh).size() == cells); ensures_true("no_extra_vertices", viennagrid::vertices(m.mesh).size() == m.v.size()); } };
CONTRACT(named_line, "make_line; make_edge") { built<viennagrid::line_2d_mesh> b(2, 1); int f = choose("function", 2); b.check(f ? viennagrid::make_line(b.m.mesh, b.v(0), b.v(1)) : viennagrid::make_edge(b.m.mesh, b.v(0), b.v(1)), 1); cover("end"); }
CONTRACT(named_triangle, "make_triangle") { built<viennagrid::triangular_3d_mesh> b(3, 1); b.check(viennagrid::make_triangle(b.m.mesh, b.v(0), b.v(1), b.v(2)), 1); cover("end"); }
CONTRACT(named_quadrilateral, "make_quadrilateral") { built<viennagrid::quadrilateral_2d_mesh> b(4, 1); b.check(viennagrid::make_quadrilateral(b.m.mesh, b.v(0), b.v(1), b.v(2), b.v(3)), 1); cover("end"); }
CONTRACT(named_tetrahedron, "make_tetrahedron") { built<viennagrid::tetrahedral_3d_mesh> b(4, 1); b.check(viennagrid::make_tetrahedron(b.m.mesh, b.v(0), b.v(1), b.v(2), b.v(3)), 1); cover("end"); }
CONTRACT(named_hexahedron, "make_hexahedron") { built<viennagrid::hexahedral_3d_mesh> b(8, 24); b.check(viennagrid::make_hexahedron(b.m.mesh, b.v(0), b.v(1), b.v(2), b.v(3), b.v(4), b.v(5), b.v(6), b.v(7)), 1); cover("end"); }
template <typename M> void cell_functions(int n, int orders)
{
  built<M> b(n, orders); typedef typename viennagrid::result_of::segmentation<M>::type SN; SN sn(b.m.mesh); typename viennagrid::result_of::segment_handle<SN>::type seg = sn.make_segment();
  typedef typename viennagrid::result_of::cell<M>::type C; typedef typename C::id_type ID; typedef typename C::tag TAG; typename TM<M>::cell_handle h;
  std::vector<typename TM<M>::vertex_handle> v; for (int i = 0; i < n; ++i) v.push_back(b.v(i));
  int f = choose("function", 8); ID id(5);
  switch (f) {
    case 0: h = viennagrid::make_cell(b.m.mesh, v.begin(), v.end()); break;
    case 1: h = viennagrid::make_cell(seg, v.begin(), v.end()); break;
    case 2: h = viennagrid::make_cell_with_id(b.m.mesh, v.begin(), v.end(), id); break;
    case 3: h = viennagrid::make_cell_with_id(seg, v.begin(), v.end(), id); break;
    case 4: h = viennagrid::make_element<TAG>(seg, v.begin(), v.end()); break;
    case 5: h = viennagrid::make_element_with_id<TAG>(b.m.mesh, v.begin(), v.end(), id); break;
    case 6: h = viennagrid::make_element_with_id<TAG>(seg, v.begin(), v.end(), id); break;
    default: h = viennagrid::make_element<C>(b.m.mesh, v.begin(), v.end());
  }
  b.check(h, 1); bool in_seg = f == 1 || f == 3 || f == 4 || f == 6, with_id = f == 2 || f == 3 || f == 5 || f == 6;
  ensures_true("in_the_segment_iff_created_there", viennagrid::cells(seg).size() == (in_seg ? 1u : 0u));
  if (in_seg) ensures_true("the_same_cell", &viennagrid::cells(seg)[0] == &viennagrid::dereference_handle(b.m.mesh, h));
  if (with_id) ensures_true("given_id", viennagrid::dereference_handle(b.m.mesh, h).id() == id);
  cover("end");
}
CONTRACT(cell_functions_line, "make_cell; make_cell_with_id; make_element; make_element_with_id") { cell_functions<viennagrid::line_2d_mesh>(2, 1); }
CONTRACT(cell_functions_triangle, "make_cell; make_cell_with_id; make_element; make_element_with_id") { cell_functions<viennagrid::triangular_2d_mesh>(3, 1); }
CONTRACT(cell_functions_quadrilateral, "make_cell; make_cell_with_id; make_element; make_element_with_id") { cell_functions<viennagrid::quadrilateral_3d_mesh>(4, 1); }
CONTRACT(cell_functions_tetrahedron, "make_cell; make_cell_with_id; make_element; make_element_with_id") { cell_functions<viennagrid::tetrahedral_3d_mesh>(4, 1); }
CONTRACT(cell_functions_hexahedron, "make_cell; make_cell_with_id; make_element; make_element_with_id") { cell_functions<viennagrid::hexahedral_3d_mesh>(8, 12); }
// piecewise linear complexes: exactly the lines, the vertices of the lines and the loose vertices, and the hole points in order
CONTRACT(plc, "make_plc; element<plc_tag>")
{
  typedef viennagrid::plc_3d_mesh M; typedef viennagrid::result_of::point<M>::type P; M mesh; typedef viennagrid::result_of::vertex_handle<M>::type VH; typedef viennagrid::result_of::line_handle<M>::type LH;
  std::vector<VH> v; for (int i = 0; i < 7; ++i) v.push_back(viennagrid::make_vertex(mesh, P(i, i * i % 5, i * 3 % 7)));
  int nl = 1 + choose("lines", 4), loose = choose("loose", 3), holes = choose("holes", 3), form = choose("form", 3); requires_((form == 0) || (holes == 0 && (form == 1 || loose == 0)));
  std::vector<LH> l; mset_t lines; vset_t vs;
  for (int i = 0; i < nl; ++i) { int a = i, b = (i + 1) % (nl < 3 ? 5 : nl); l.push_back(viennagrid::make_line(mesh, v[a], v[b])); vset_t s; s.insert(a); s.insert(b); lines.insert(s); vs.insert(a); vs.insert(b); }
  int repeat = choose("repeat", 2); if (repeat) l.push_back(l[0]);
  std::vector<VH> lv; for (int i = 0; i < loose; ++i) { lv.push_back(v[5 + i]); vs.insert(5 + i); }
  std::vector<P> hp; for (int i = 0; i < holes; ++i) hp.push_back(P(i + 1, 2 * i, -i));
  viennagrid::result_of::plc_handle<M>::type h = form == 0 ? viennagrid::make_plc(mesh, l.begin(), l.end(), lv.begin(), lv.end(), hp.begin(), hp.end()) : form == 1 ? viennagrid::make_plc(mesh, l.begin(), l.end(), lv.begin(), lv.end()) : viennagrid::make_plc(mesh, l.begin(), l.end());
  typedef viennagrid::result_of::element<M, viennagrid::plc_tag>::type PLC; PLC & p = viennagrid::dereference_handle(mesh, h);
  typedef viennagrid::result_of::element_range<PLC, viennagrid::line_tag>::type LR; typedef viennagrid::result_of::iterator<LR>::type LI; typedef viennagrid::result_of::element_range<PLC, viennagrid::vertex_tag>::type VR; typedef viennagrid::result_of::iterator<VR>::type VI;
  mset_t got; LR lr(p); for (LI i = lr.begin(); i != lr.end(); ++i) { vset_t s; s.insert((int)viennagrid::vertices(*i)[0].id().get()); s.insert((int)viennagrid::vertices(*i)[1].id().get()); got.insert(s); }
  ensures_true("lines", got == lines);
  vset_t gv; VR vr(p); for (VI i = vr.begin(); i != vr.end(); ++i) gv.insert((int)i->id().get());
  vset_t lo; for (int i = 0; i < loose; ++i) lo.insert(5 + i);
  ensures_true("loose_vertices", std::includes(gv.begin(), gv.end(), lo.begin(), lo.end()) && std::includes(vs.begin(), vs.end(), gv.begin(), gv.end()));
  ensures_true("hole_points", p.appendix().size() == hp.size()); for (std::size_t i = 0; i < hp.size() && i < p.appendix().size(); ++i) for (int k = 0; k < 3; ++k) ensures_true("hole_point", p.appendix()[i][k] == hp[i][k]);
  ensures_true("one_plc", viennagrid::plcs(mesh).size() == 1);
  cover("end");
}
