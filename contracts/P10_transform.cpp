// P10: scale and affine_transform move every vertex exactly once, to the documented image -- for every input.
#include "onecell.hpp"
#include "viennagrid/algorithm/geometric_transform.hpp"

template <typename MeshT, int n> void transforms()
{
  typedef typename viennagrid::result_of::point<MeshT>::type P;
  int op = choose("op", 3);
  std::vector<P> p = sympoints<P>(n); one_cell<MeshT> m(p);
  P c = sympoint<P>("c"); real f = input("f");
  std::size_t d = p[0].size();
  real mat[9]; for (std::size_t i = 0; i < d*d; ++i) mat[i] = input(nm("m", i).c_str());
  if (op == 0) viennagrid::scale(m.mesh, f);
  if (op == 1) viennagrid::scale(m.mesh, f, c);
  if (op == 2) viennagrid::affine_transform(m.mesh, mat, c);
  for (int i = 0; i < n; ++i)
  {
    P r = viennagrid::point(m.mesh, m.v[i]);
    P e;
    if (op == 0) e = mulp(p[i], f);
    if (op == 1) e = addp(mulp(sub(p[i], c), f), c);
    if (op == 2) for (std::size_t a = 0; a < d; ++a) { e[a] = c[a]; for (std::size_t b = 0; b < d; ++b) e[a] += mat[a*d+b] * p[i][b]; }
    ensures_point_eq(op == 0 ? "scale_origin" : op == 1 ? "scale_center" : "affine", r, e);
  }
  cover("end");
}
CONTRACT(transform_1d, "viennagrid::scale; viennagrid::affine_transform; viennagrid::geometric_transform") { transforms<viennagrid::line_1d_mesh, 2>(); }
CONTRACT(transform_2d, "viennagrid::scale; viennagrid::affine_transform; viennagrid::geometric_transform") { transforms<viennagrid::triangular_2d_mesh, 3>(); }
CONTRACT(transform_3d, "viennagrid::scale; viennagrid::affine_transform; viennagrid::geometric_transform") { transforms<viennagrid::tetrahedral_3d_mesh, 4>(); }
