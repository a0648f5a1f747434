// KIND: bounded
// BOUND: meshes of up to 2 lines on 4 vertices, 2 triangles on 5, 2 tetrahedra on 5 vertices (several vertex orders), rows of 3 quadrilaterals or hexahedra in every reference orientation; every assignment of cells to none, one or two segments; scalar and vector data on vertices and cells, for the mesh or per segment; read into registered fields or the reader's own; netgen files of the same meshes
// TIME: 150
// P32: a written file describes exactly the mesh (checked by an independent parser against the VTK format), and reading it back yields the same mesh, segments and data.
#include "history.hpp"
#include "viennagrid/io/vtk_writer.hpp"
#include "viennagrid/io/vtk_reader.hpp"
#include "viennagrid/io/netgen_reader.hpp"
#include <unistd.h>
#include <stdlib.h>
#include <fstream>
#include <sstream>
typedef std::vector<double> row_t;
// files live in a scratch directory of this process, removed at exit
struct scratch_dir
{
  std::string path; scratch_dir() { char const * e = getenv("VSYM_SCRATCH"); std::string t = std::string(e ? e : "/tmp") + "/verif_io_XXXXXX"; std::vector<char> b(t.begin(), t.end()); b.push_back(0); char * d = mkdtemp(&b[0]); path = d ? d : "."; }
  void forget(std::string const & n) { unlink((path + "/" + n).c_str()); }
  ~scratch_dir() { if (path != ".") rmdir(path.c_str()); }
};
inline scratch_dir & scratch() { static scratch_dir s; return s; }
// ---- independent reading of the file: <DataArray> by name (points: "") in order, plus the numbers of the piece ---------------
struct vtu { bool good; int points, cells; std::map<std::string, row_t> point_data, cell_data; std::map<std::string, int> pcomp, ccomp; row_t xyz, conn, offs, types; };
inline std::string attr(std::string const & tag, std::string const & name) { std::size_t p = tag.find(" " + name + "=\""); if (p == std::string::npos) return ""; p += name.size() + 3; return tag.substr(p, tag.find('"', p) - p); }
inline vtu parse_vtu(std::string const & f)
{
  vtu r; r.good = false; r.points = r.cells = -1; std::ifstream in(f.c_str()); std::stringstream ss; ss << in.rdbuf(); std::string s = ss.str(); if (!in) return r; std::string where; std::size_t p = 0;
  while ((p = s.find('<', p)) != std::string::npos)
  {
    std::size_t e = s.find('>', p); if (e == std::string::npos) return r; std::string tag = s.substr(p + 1, e - p - 1), name = tag.substr(0, tag.find(' ')); p = e + 1;
    if (name == "Piece") { r.points = atoi(attr(tag, "NumberOfPoints").c_str()); r.cells = atoi(attr(tag, "NumberOfCells").c_str()); }
    else if (name == "DataArray")
    {
      std::size_t q = s.find('<', p); std::stringstream d(s.substr(p, q - p)); row_t v; double x; while (d >> x) v.push_back(x); std::string n = attr(tag, "Name");
      if (where == "Points") r.xyz = v; else if (where == "PointData") { r.point_data[n] = v; r.pcomp[n] = atoi(attr(tag, "NumberOfComponents").c_str()); } else if (where == "CellData") { r.cell_data[n] = v; r.ccomp[n] = atoi(attr(tag, "NumberOfComponents").c_str()); }
      else if (where == "Cells") { if (n == "connectivity") r.conn = v; else if (n == "offsets") r.offs = v; else if (n == "types") r.types = v; }
    }
    else if (name != "/DataArray") where = name;
    if (name == "/VTKFile") r.good = true;
  }
  return r;
}
// VTK numbers quadrilaterals and hexahedra around their faces
template <typename T> struct vtk_cell { static tuple_t order(tuple_t const & t) { return t; } };
template <> struct vtk_cell<viennagrid::quadrilateral_tag> { static tuple_t order(tuple_t t) { std::swap(t[2], t[3]); return t; } };
template <> struct vtk_cell<viennagrid::hexahedron_tag> { static tuple_t order(tuple_t t) { std::swap(t[2], t[3]); std::swap(t[6], t[7]); return t; } };
inline int vtk_type(viennagrid::line_tag) { return 3; } inline int vtk_type(viennagrid::triangle_tag) { return 5; } inline int vtk_type(viennagrid::quadrilateral_tag) { return 9; } inline int vtk_type(viennagrid::tetrahedron_tag) { return 10; } inline int vtk_type(viennagrid::hexahedron_tag) { return 12; }
inline bool close(double a, double b) { return std::fabs(a - b) <= 1e-12 * std::max(1.0, std::fabs(b)); }
// the values stored for element i of kind k (0 vertex, 1 cell) by quantity q; segment data differs per segment
inline double value(int k, int i, int q, int seg) { return (1 + i) * (k ? 1.25 : -0.375) + 100 * q + (seg + 1) * 1024 + (i % 2 ? 1e-3 : 0); }
inline row_t vvalue(int k, int i, int q, int seg) { row_t v; for (int c = 0; c < 3; ++c) v.push_back(value(k, i, q, seg) + 0.5 * c * (c + 1)); return v; }
template <typename M> struct io_case : SEG<M>
{
  typedef SEG<M> base; typedef typename base::cell_tag cell_tag; typedef typename base::cell_type cell_type; typedef typename viennagrid::result_of::vertex<M>::type vertex_type; typedef typename base::point_type point_type;
  std::vector<point_type> pos; std::vector<int> all;
  void place_all(int mode) { for (std::size_t i = 0; i < this->v.size(); ++i) { point_type & p = viennagrid::point(this->mesh, this->v[i]); for (std::size_t k = 0; k < p.size(); ++k) p[k] = mode == 0 ? p[k] : mode == 1 ? p[k] / 3.0 - 2.0 : p[k] * 1.0e-5; pos.push_back(p); } }
  // the vertices of the cells listed, by id
  std::vector<int> used(std::vector<int> const & sel) const { std::set<int> s; for (std::size_t c = 0; c < sel.size(); ++c) s.insert(this->cells[sel[c]].begin(), this->cells[sel[c]].end()); return std::vector<int>(s.begin(), s.end()); }
};
// fields for the quantities, indexed by id
template <typename M> struct io_data
{
  typedef typename io_case<M>::vertex_type V; typedef typename io_case<M>::cell_type C; std::deque<double> vs, cs; std::deque<row_t> vv, cv;
  typedef typename viennagrid::result_of::field<std::deque<double>, V>::type VS; typedef typename viennagrid::result_of::field<std::deque<row_t>, V>::type VV; typedef typename viennagrid::result_of::field<std::deque<double>, C>::type CS; typedef typename viennagrid::result_of::field<std::deque<row_t>, C>::type CV;
  VS fvs() { return viennagrid::make_field<V>(vs); } VV fvv() { return viennagrid::make_field<V>(vv); } CS fcs() { return viennagrid::make_field<C>(cs); } CV fcv() { return viennagrid::make_field<C>(cv); }
  void fill(int nv, int nc, int q, int seg) { for (int i = 0; i < nv; ++i) { vs.push_back(value(0, i, q, seg)); vv.push_back(vvalue(0, i, q + 1, seg)); } for (int i = 0; i < nc; ++i) { cs.push_back(value(1, i, q + 2, seg)); cv.push_back(vvalue(1, i, q + 3, seg)); } }
};
inline bool same_row(row_t const & a, row_t const & b, double tol) { bool ok = a.size() == b.size(); for (std::size_t i = 0; ok && i < a.size(); ++i) ok = std::fabs(a[i] - b[i]) <= tol * std::max(1.0, std::fabs(b[i])); return ok; }
// one .vtu file against the cells it must contain
template <typename M> void check_file(io_case<M> const & m, vtu const & f, std::vector<int> const & sel, int gdata, int sdata, int seg)
{
  typedef typename io_case<M>::cell_tag T; std::vector<int> u = m.used(sel); const std::size_t dim = m.pos.empty() ? 0 : m.pos[0].size();
  ensures_true("file_complete", f.good); ensures_true("file_counts", f.points == (int)u.size() && f.cells == (int)sel.size());
  row_t xyz, conn, offs, types; std::map<int, int> at; for (std::size_t i = 0; i < u.size(); ++i) { at[u[i]] = (int)i; for (std::size_t k = 0; k < 3; ++k) xyz.push_back(k < dim ? m.pos[u[i]][k] : 0.0); }
  for (std::size_t c = 0; c < sel.size(); ++c) { tuple_t t = vtk_cell<T>::order(m.cells[sel[c]]); for (std::size_t k = 0; k < t.size(); ++k) conn.push_back(at[t[k]]); offs.push_back((double)conn.size()); types.push_back(vtk_type(T())); }
  ensures_true("file_points", same_row(f.xyz, xyz, 1e-13)); ensures_true("file_connectivity", f.conn == conn); ensures_true("file_offsets", f.offs == offs); ensures_true("file_cell_types", f.types == types);
  std::map<std::string, row_t> pd, cd; std::map<std::string, int> pc, cc;
  for (int g = 0; g < 2; ++g) if (g ? sdata : gdata)
  {
    std::string n = g ? "s_" : "g_"; int q = g ? 4 : 0, sg = g ? seg : -1; row_t a, b, c, d;
    for (std::size_t i = 0; i < u.size(); ++i) { a.push_back(value(0, u[i], q, sg)); row_t v = vvalue(0, u[i], q + 1, sg); b.insert(b.end(), v.begin(), v.end()); } for (std::size_t i = 0; i < sel.size(); ++i) { c.push_back(value(1, sel[i], q + 2, sg)); row_t v = vvalue(1, sel[i], q + 3, sg); d.insert(d.end(), v.begin(), v.end()); }
    pd[n + "scalar"] = a; pd[n + "vector"] = b; cd[n + "scalar"] = c; cd[n + "vector"] = d; pc[n + "scalar"] = cc[n + "scalar"] = 1; pc[n + "vector"] = cc[n + "vector"] = 3;
  }
  bool ok = f.pcomp == pc && f.ccomp == cc; ensures_true("file_quantities", ok); if (!ok) return;
  for (std::map<std::string, row_t>::iterator i = pd.begin(); i != pd.end(); ++i) ensures_true("file_point_data", same_row(f.point_data.find(i->first)->second, i->second, 1e-13));
  for (std::map<std::string, row_t>::iterator i = cd.begin(); i != cd.end(); ++i) ensures_true("file_cell_data", same_row(f.cell_data.find(i->first)->second, i->second, 1e-13));
}
template <typename P> bool same_point(P const & a, P const & b) { bool ok = true; for (std::size_t k = 0; k < a.size(); ++k) ok = ok && close(a[k], b[k]); return ok; }
// the mesh read, in terms of the vertices written: their positions identify them
template <typename M> struct io_result
{
  typedef typename viennagrid::result_of::segmentation<M>::type S; M mesh; S segs; std::map<int, int> vertex, cell; bool ok; io_result() : segs(mesh), ok(true) {}
  void identify(io_case<M> const & m)
  {
    typedef typename viennagrid::result_of::vertex_range<M>::type VR; typedef typename viennagrid::result_of::cell_range<M>::type CR; VR vr(mesh); CR cr(mesh); std::set<int> seen;
    for (typename viennagrid::result_of::iterator<VR>::type i = vr.begin(); i != vr.end(); ++i) { int f = -1; for (std::size_t k = 0; k < m.pos.size(); ++k) if (same_point(viennagrid::point(*i), m.pos[k])) { ok = ok && f < 0; f = (int)k; } ok = ok && f >= 0 && seen.insert(f).second; vertex[(int)i->id().get()] = f; }
    seen.clear(); for (typename viennagrid::result_of::iterator<CR>::type i = cr.begin(); i != cr.end(); ++i) { tuple_t t; for (std::size_t k = 0; k < viennagrid::vertices(*i).size(); ++k) t.push_back(vertex[(int)viennagrid::vertices(*i)[k].id().get()]); int f = -1; for (std::size_t k = 0; k < m.cells.size(); ++k) if (t == m.cells[k]) f = (int)k; ok = ok && f >= 0 && seen.insert(f).second; cell[(int)i->id().get()] = f; }
  }
  static std::set<int> image(std::map<int, int> const & m) { std::set<int> s; for (std::map<int, int>::const_iterator i = m.begin(); i != m.end(); ++i) s.insert(i->second); return s; }
};
template <typename M, typename R, typename FS, typename FV> bool same_data(R & r, std::map<int, int> & idx, int k, int q, int seg, FS fs, FV fv)
{ bool ok = true; for (typename viennagrid::result_of::iterator<R>::type i = r.begin(); i != r.end(); ++i) { int e = idx[(int)i->id().get()]; ok = ok && close(fs(*i), value(k, e, q, seg)) && same_row(fv(*i), vvalue(k, e, q + 1, seg), 1e-12); } return ok; }
template <typename F> void roundtrip()
{
  typedef typename F::mesh M; typedef io_case<M> C; typedef io_result<M> Res; typedef typename Res::S S; C m; int nv; std::vector<tuple_t> cells = F::cells(nv); std::vector<int> all;
  int nseg = choose("segments", 3);   // 0: mesh alone; 1: a segmentation with one segment; 2: two segments
  m.add_vertices(nv); m.place_all(nseg ? nseg : choose("positions", 3));
  for (std::size_t i = 0; i < cells.size(); ++i) { m.add_cell(cells[i]); all.push_back((int)i); if (nseg == 2) m.put((int)i, choose("segment", 4)); }
  S one(m.mesh); if (nseg == 1) { typename viennagrid::result_of::segment_handle<S>::type s = one.make_segment(); for (std::size_t i = 0; i < cells.size(); ++i) viennagrid::add(s, viennagrid::dereference_handle(m.mesh, m.c[i])); }
  int gdata = choose("data", 2), sdata = nseg == 2 ? choose("segment_data", 2) : 0; io_data<M> g, d[2]; g.fill(nv, (int)cells.size(), 0, -1); for (int s = 0; s < 2; ++s) d[s].fill(nv, (int)cells.size(), 4, s);
  viennagrid::io::vtk_writer<M> w; if (gdata) { viennagrid::io::add_scalar_data_on_vertices(w, g.fvs(), "g_scalar"); viennagrid::io::add_vector_data_on_vertices(w, g.fvv(), "g_vector"); viennagrid::io::add_scalar_data_on_cells(w, g.fcs(), "g_scalar"); viennagrid::io::add_vector_data_on_cells(w, g.fcv(), "g_vector"); }
  if (sdata) for (int s = 0; s < 2; ++s) { viennagrid::io::add_scalar_data_on_vertices(w, *m.s[s], d[s].fvs(), "s_scalar"); viennagrid::io::add_vector_data_on_vertices(w, *m.s[s], d[s].fvv(), "s_vector"); viennagrid::io::add_scalar_data_on_cells(w, *m.s[s], d[s].fcs(), "s_scalar"); viennagrid::io::add_vector_data_on_cells(w, *m.s[s], d[s].fcv(), "s_vector"); }
  std::string dir = scratch().path + "/", file; if (nseg == 0) w(m.mesh, dir + "f"); else if (nseg == 1) w(m.mesh, one, dir + "f"); else w(m.mesh, m.segs, dir + "f");
  std::vector<std::vector<int> > part; std::vector<std::string> names; if (nseg == 2) { file = "f_main.pvd"; part.push_back(m.sel[0]); part.push_back(m.sel[1]); names.push_back("f_0.vtu"); names.push_back("f_1.vtu"); } else { file = "f.vtu"; part.push_back(all); names.push_back(file); }
  for (std::size_t p = 0; p < part.size(); ++p) check_file(m, parse_vtu(dir + names[p]), part[p], gdata, sdata, (int)p);
  // read back
  Res r; io_data<M> rg, rd[2]; viennagrid::io::vtk_reader<M> rd_; int reg = (gdata || sdata) ? choose("registered", 2) : 0, again = choose("reader_used_before", 2);
  if (again) { Res tmp; rd_(tmp.mesh, tmp.segs, dir + file); }
  if (reg && gdata) { viennagrid::io::add_scalar_data_on_vertices(rd_, rg.fvs(), "g_scalar"); viennagrid::io::add_vector_data_on_vertices(rd_, rg.fvv(), "g_vector"); viennagrid::io::add_scalar_data_on_cells(rd_, rg.fcs(), "g_scalar"); viennagrid::io::add_vector_data_on_cells(rd_, rg.fcv(), "g_vector"); }
  if (reg && sdata) for (int s = 0; s < 2; ++s) { rd_.register_vertex_scalar(s, rd[s].fvs(), "s_scalar"); rd_.register_vertex_vector(s, rd[s].fvv(), "s_vector"); rd_.register_cell_scalar(s, rd[s].fcs(), "s_scalar"); rd_.register_cell_vector(s, rd[s].fcv(), "s_vector"); }
  rd_(r.mesh, r.segs, dir + file); r.identify(m); std::set<int> wantv, wantc; for (std::size_t p = 0; p < part.size(); ++p) { std::vector<int> u = m.used(part[p]); wantv.insert(u.begin(), u.end()); wantc.insert(part[p].begin(), part[p].end()); }
  ensures_true("read_vertices_and_cells_are_those_written", r.ok); ensures_true("read_all_vertices", Res::image(r.vertex) == wantv); ensures_true("read_all_cells", Res::image(r.cell) == wantc); ensures_true("read_segments", r.segs.size() == part.size());
  if (!r.ok || r.segs.size() != part.size()) return;
  for (std::size_t p = 0; p < part.size(); ++p)
  {
    typename viennagrid::result_of::segment_handle<S>::type & s = r.segs[(int)p]; typedef typename viennagrid::result_of::segment_handle<S>::type SH; typedef typename viennagrid::result_of::cell_range<SH>::type CR; typedef typename viennagrid::result_of::vertex_range<SH>::type VR; CR cr(s); VR vr(s); std::set<int> c, v;
    for (typename viennagrid::result_of::iterator<CR>::type i = cr.begin(); i != cr.end(); ++i) c.insert(r.cell[(int)i->id().get()]); for (typename viennagrid::result_of::iterator<VR>::type i = vr.begin(); i != vr.end(); ++i) v.insert(r.vertex[(int)i->id().get()]);
    std::vector<int> u = m.used(part[p]); ensures_true("read_segment_cells", c == std::set<int>(part[p].begin(), part[p].end()) && cr.size() == part[p].size()); ensures_true("read_segment_vertices", v == std::set<int>(u.begin(), u.end()) && vr.size() == u.size());
    for (int k = 0; k < 2; ++k) if (k ? sdata : gdata)
    {
      std::string n = k ? "s_" : "g_"; int q = k ? 4 : 0, sg = k ? (int)p : -1; io_data<M> & x = k ? rd[p] : rg; bool ok;
      if (part[p].empty()) continue;
      if (reg) ok = same_data<M>(vr, r.vertex, 0, q, sg, x.fvs(), x.fvv()) && same_data<M>(cr, r.cell, 1, q + 2, sg, x.fcs(), x.fcv());
      else ok = same_data<M>(vr, r.vertex, 0, q, sg, rd_.vertex_scalar_field(n + "scalar", s), rd_.vertex_vector_field(n + "vector", s)) && same_data<M>(cr, r.cell, 1, q + 2, sg, rd_.cell_scalar_field(n + "scalar", s), rd_.cell_vector_field(n + "vector", s));
      ensures_true("read_data", ok);
    }
    std::size_t nd = (gdata ? 1 : 0) + (sdata ? 1 : 0); ensures_true("read_names", rd_.scalar_vertex_data_names((int)p).size() == nd && rd_.vector_vertex_data_names((int)p).size() == nd && rd_.scalar_cell_data_names((int)p).size() == nd && rd_.vector_cell_data_names((int)p).size() == nd);
  }
  for (std::size_t p = 0; p < names.size(); ++p) scratch().forget(names[p]); scratch().forget("f_main.pvd"); cover("end");
}
struct io_line { typedef viennagrid::line_2d_mesh mesh; static std::vector<tuple_t> cells(int & nv) { nv = 4; return choose_simplices(4, 2, 1 + choose("cells", 2), 2); } };
struct io_tri { typedef viennagrid::triangular_2d_mesh mesh; static std::vector<tuple_t> cells(int & nv) { nv = 5; int n = 1 + choose("cells", 2); return choose_simplices(5, 3, n, n == 1 ? 6 : 2); } };
struct io_tri3 { typedef viennagrid::triangular_3d_mesh mesh; static std::vector<tuple_t> cells(int & nv) { nv = 4; return choose_simplices(4, 3, 1 + choose("cells", 3), 1); } };
struct io_tet { typedef viennagrid::tetrahedral_3d_mesh mesh; static std::vector<tuple_t> cells(int & nv) { nv = 5; int n = 1 + choose("cells", 2); return choose_simplices(5, 4, n, n == 1 ? 24 : 3); } };
struct io_quad { typedef viennagrid::quadrilateral_2d_mesh mesh; static std::vector<tuple_t> cells(int & nv) { int n = 1 + choose("cells", 3); nv = box_vertices(2, n); return choose_boxes(2, n, n == 1 ? 8 : 2); } };
struct io_hex { typedef viennagrid::hexahedral_3d_mesh mesh; static std::vector<tuple_t> cells(int & nv) { int n = 1 + choose("cells", 3); nv = box_vertices(3, n); return choose_boxes(3, n, n == 1 ? 48 : 2); } };
#define IO_FUNCTIONS "vtk_writer (vtk_writer.hpp), vtk_reader (vtk_reader.hpp), vtk_to_viennagrid_orientations, viennagrid_to_vtk_orientations (vtk_common.hpp), xml_tag (xml_tag.hpp), PointWriter (helper.hpp), point_less (point.hpp)"
CONTRACT(vtk_lines, IO_FUNCTIONS) { roundtrip<io_line>(); }
CONTRACT(vtk_triangles, IO_FUNCTIONS) { roundtrip<io_tri>(); }
CONTRACT(vtk_surface_triangles, IO_FUNCTIONS) { roundtrip<io_tri3>(); }
CONTRACT(vtk_tetrahedra, IO_FUNCTIONS) { roundtrip<io_tet>(); }
CONTRACT(vtk_quadrilaterals, IO_FUNCTIONS) { roundtrip<io_quad>(); }
CONTRACT(vtk_hexahedra, IO_FUNCTIONS) { roundtrip<io_hex>(); }
template <typename F> void netgen()
{
  typedef typename F::mesh M; typedef io_case<M> C; typedef io_result<M> Res; typedef typename Res::S S; C m; int nv; std::vector<tuple_t> cells = F::cells(nv); m.add_vertices(nv); m.place_all(choose("positions", 3)); std::map<int, std::set<int> > seg; std::set<int> all, allv; std::vector<int> label;
  for (int i = 0; i < nv; ++i) allv.insert(i); for (std::size_t i = 0; i < cells.size(); ++i) { m.add_cell(cells[i]); int l = 1 + 2 * choose("segment", 2); label.push_back(l); seg[l].insert((int)i); all.insert((int)i); }
  std::string f = scratch().path + "/n.mesh"; { std::ofstream o(f.c_str()); o.precision(17); o << nv << "\n"; for (int i = 0; i < nv; ++i) { for (std::size_t k = 0; k < m.pos[i].size(); ++k) o << " " << m.pos[i][k]; o << "\n"; } o << cells.size() << "\n"; for (std::size_t i = 0; i < cells.size(); ++i) { o << label[i]; for (std::size_t k = 0; k < cells[i].size(); ++k) o << " " << cells[i][k] + 1; o << "\n"; } }
  Res r; viennagrid::io::netgen_reader rd; int plain = choose("without_segments", 2); if (plain) rd(r.mesh, f); else rd(r.mesh, r.segs, f); r.identify(m);
  ensures_true("read_vertices_and_cells_are_those_written", r.ok); ensures_true("read_all_vertices", Res::image(r.vertex) == allv); ensures_true("read_all_cells", Res::image(r.cell) == all); bool ids = true; for (std::map<int, int>::iterator i = r.vertex.begin(); i != r.vertex.end(); ++i) ids = ids && i->first == i->second; for (std::map<int, int>::iterator i = r.cell.begin(); i != r.cell.end(); ++i) ids = ids && i->first == i->second; ensures_true("ids_follow_the_file", ids);
  if (!plain && r.ok)
  {
    ensures_true("read_segments", r.segs.size() == seg.size());
    for (std::map<int, std::set<int> >::iterator p = seg.begin(); p != seg.end(); ++p) { ensures_true("segment_id_of_the_file", r.segs.segment_present(p->first)); if (!r.segs.segment_present(p->first)) return; typedef typename viennagrid::result_of::segment_handle<S>::type SH; typedef typename viennagrid::result_of::cell_range<SH>::type CR; CR cr(r.segs[p->first]); std::set<int> c; for (typename viennagrid::result_of::iterator<CR>::type i = cr.begin(); i != cr.end(); ++i) c.insert(r.cell[(int)i->id().get()]); ensures_true("read_segment_cells", c == p->second && cr.size() == c.size()); }
  }
  scratch().forget("n.mesh"); cover("end");
}
CONTRACT(netgen_triangles, "netgen_reader::operator() (netgen_reader.hpp)") { netgen<io_tri>(); }
CONTRACT(netgen_tetrahedra, "netgen_reader::operator() (netgen_reader.hpp)") { netgen<io_tet>(); }
CONTRACT(netgen_lines, "netgen_reader::operator() (netgen_reader.hpp)") { netgen<io_line>(); }
