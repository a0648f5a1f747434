// KIND: sym
// TIME: 200
// FRAGILE: yes
// P13 (proof part): the real mesh code with symbolic vertex ids: for all pairwise different ids, in any order relation to each other.
#include "symid.hpp"
CONTRACT(two_edges, "make_line; element_key; hidden_key_map::insert")
{
  int n = 2 + choose("distinct", 3); SM<tri_mesh> m(n);      // two edges with 0, 1 or 2 common vertices
  int a = choose("swap", 2), b = choose("swap2", 2), c0 = n == 2 ? 0 : n == 3 ? choose("common", 2) : 2, c1 = n == 2 ? 1 : n == 3 ? 2 : 3;
  typedef viennagrid::result_of::line_handle<tri_mesh>::type H;
  H e = viennagrid::make_line(m.mesh, m.v[a], m.v[1 - a]), f = b ? viennagrid::make_line(m.mesh, m.v[c1], m.v[c0]) : viennagrid::make_line(m.mesh, m.v[c0], m.v[c1]);
  ensures_true("same_element_iff_same_vertices", (e == f) == (n == 2));
  ensures_true("one_element_per_vertex_set", viennagrid::lines(m.mesh).size() == (n == 2 ? 1u : 2u));
  vset_t s; s.insert(c0); s.insert(c1); ensures_true("vertices", m.set(*f) == s);
  cover("end");
}
CONTRACT(two_triangle_cells, "make_element; boundary_element_generator<triangle>; element_key; hidden_key_map::insert")
{
  SM<tri_mesh> m(4); tuple_t t; t.push_back(0); t.push_back(1); t.push_back(2); tuple_t u; u.push_back(1); u.push_back(2); u.push_back(3);
  nth_permutation(t, choose("order", 6)); nth_permutation(u, choose("order2", 6));
  typedef viennagrid::result_of::cell_handle<tri_mesh>::type C;
  C a = viennagrid::make_triangle(m.mesh, m.v[t[0]], m.v[t[1]], m.v[t[2]]), b = viennagrid::make_triangle(m.mesh, m.v[u[0]], m.v[u[1]], m.v[u[2]]);
  std::set<vset_t> want; std::vector<tuple_t> e = ref_elements<viennagrid::triangle_tag, viennagrid::line_tag>(t), f = ref_elements<viennagrid::triangle_tag, viennagrid::line_tag>(u); e.insert(e.end(), f.begin(), f.end());
  for (std::size_t i = 0; i < e.size(); ++i) want.insert(mkset(e[i]));
  ensures_true("one_edge_per_vertex_set", all<viennagrid::line_tag>(m) == as_multi(want));
  int shared = 0; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (&viennagrid::lines(*a)[i] == &viennagrid::lines(*b)[j]) { ++shared; ensures_true("common_edge", m.set(viennagrid::lines(*a)[i]) == mkset(ref_elements<viennagrid::triangle_tag, viennagrid::line_tag>(u)[j])); }
  ensures_true("shared_once", shared == 1); cover("end");
}
CONTRACT(two_tetrahedra, "make_element; boundary_element_generator<tetrahedron>; element_key; hidden_key_map::insert")
{
  SM<tet_mesh> m(5); int u[4] = { 1, 2, 3, 4 }; int k = choose("rotate", 4); std::rotate(u, u + k, u + 4);
  viennagrid::make_tetrahedron(m.mesh, m.v[0], m.v[1], m.v[2], m.v[3]); viennagrid::make_tetrahedron(m.mesh, m.v[u[0]], m.v[u[1]], m.v[u[2]], m.v[u[3]]);
  std::set<vset_t> tri, lin; tuple_t t, w; for (int i = 0; i < 4; ++i) { t.push_back(i); w.push_back(u[i]); }
  for (int r = 0; r < 2; ++r) { std::vector<tuple_t> x = ref_elements<viennagrid::tetrahedron_tag, viennagrid::triangle_tag>(r ? w : t), y = ref_elements<viennagrid::tetrahedron_tag, viennagrid::line_tag>(r ? w : t);
    for (std::size_t i = 0; i < x.size(); ++i) tri.insert(mkset(x[i])); for (std::size_t i = 0; i < y.size(); ++i) lin.insert(mkset(y[i])); }
  ensures_true("one_face_per_vertex_set", all<viennagrid::triangle_tag>(m) == as_multi(tri));
  ensures_true("one_edge_per_vertex_set", all<viennagrid::line_tag>(m) == as_multi(lin));
  cover("end");
}
static int pos(std::vector<tuple_t> const & s, int a, int b, int c) { tuple_t t; t.push_back(a); t.push_back(b); t.push_back(c); return (int)(std::find(s.begin(), s.end(), t) - s.begin()); }
// the key order is a strict weak order and equivalence is equality of the vertices: three edges / faces with arbitrary common vertices
CONTRACT(key_order, "element_key::operator<")
{
  int n = 3; SM<tet_mesh> m(6); typedef viennagrid::result_of::triangle<tet_mesh>::type T; typedef viennagrid::result_of::triangle_handle<tet_mesh>::type H;
  std::vector<tuple_t> s = subsets(6, n); int i0 = 0, i1 = choose("common", 4); i1 = i1 == 0 ? 0 : i1 == 1 ? pos(s, 1, 2, 3) : i1 == 2 ? pos(s, 2, 3, 4) : pos(s, 3, 4, 5);   // ids are symbolic: 3, 2, 1 or 0 common vertices
  H a = viennagrid::make_triangle(m.mesh, m.v[s[i0][0]], m.v[s[i0][1]], m.v[s[i0][2]]), b = viennagrid::make_triangle(m.mesh, m.v[s[i1][2]], m.v[s[i1][0]], m.v[s[i1][1]]);
  viennagrid::element_key<T> ka(*a), kb(*b); bool lt = ka < kb, gt = kb < ka;
  ensures_true("asymmetric", !(lt && gt)); ensures_true("equivalent_iff_same_vertices", (!lt && !gt) == (i0 == i1)); cover("end");
}
// the order of keys is the lexicographic order of the id sequences, shorter first, for every length up to that of a hexahedron and beyond
CONTRACT(key_lexicographic, "element_key::operator<")
{
  typedef viennagrid::result_of::cell<quad_mesh>::type Q; typedef viennagrid::result_of::vertex<quad_mesh>::type::id_type id_type;
  int n = choose("size", 10), extra = choose("longer", 2); std::vector<id_type> a, b; char nm[16];
  for (int i = 0; i < n; ++i) { sprintf(nm, "a%d", i); a.push_back(id_type(input(nm))); sprintf(nm, "b%d", i); b.push_back(id_type(input(nm))); }
  if (extra) { b.push_back(id_type(input("b_last"))); }
  viennagrid::element_key<Q> ka(a), kb(b); bool lt = ka < kb, gt = kb < ka, less = extra != 0, greater = false;
  for (int i = 0; i < n && !extra; ++i) { if (a[i].get() < b[i].get()) { less = true; break; } if (b[i].get() < a[i].get()) { greater = true; break; } }
  ensures_true("less_iff_lexicographically_less", lt == less); ensures_true("greater_iff_lexicographically_greater", gt == greater); cover("end");
}
// two quadrilaterals with 1 to 4 common vertices: the same element exactly if all four are common
CONTRACT(two_quadrilaterals, "make_quadrilateral; element_key; hidden_key_map::insert")
{
  int common = 3 + choose("common", 2), n = 8 - common; SM<hex_mesh> m(n); std::vector<int> u; for (int i = 0; i < 4; ++i) u.push_back(n - 4 + i);
  std::rotate(u.begin(), u.begin() + choose("rotate", 4), u.end()); if (choose("reverse", 2)) std::reverse(u.begin(), u.end());
  viennagrid::make_quadrilateral(m.mesh, m.v[0], m.v[1], m.v[2], m.v[3]); viennagrid::make_quadrilateral(m.mesh, m.v[u[0]], m.v[u[1]], m.v[u[2]], m.v[u[3]]);
  ensures_true("one_element_per_vertex_set", viennagrid::quadrilaterals(m.mesh).size() == (common == 4 ? 1u : 2u)); cover("end");
}
