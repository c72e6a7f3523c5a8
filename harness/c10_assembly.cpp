// C10: sparse assembly through the triplet handler and through the in-place handler.
#include "common.hpp"
#include "Matrixhandler.hpp"
using namespace Aux;
using Eigen::MatrixXd;
typedef Eigen::SparseMatrix<double> Sp;
struct Op { int r, c; double v; };
static void compare(Sp const &m, MatrixXd const &e, std::string what) {
  MatrixXd d = MatrixXd(m);
  sx_assert(d.rows() == e.rows() && d.cols() == e.cols(), what + ": size");
  for (Eigen::Index i = 0; i < e.rows(); ++i)
    for (Eigen::Index j = 0; j < e.cols(); ++j) sx_eq(d(i, j), e(i, j), what);
}
template <int T> static void run(int rows, int cols, std::vector<Op> const &first, std::vector<Op> const &second, std::vector<Op> const &third) {
  // rows x cols is the size of the stored matrix; a transposed handler takes (row, column) of its transpose
  Sp m(rows, cols);
  auto expect = [&](std::vector<Op> const &ops) {
    MatrixXd e = MatrixXd::Zero(rows, cols);
    for (auto const &o : ops) if (T) e(o.c, o.r) += o.v; else e(o.r, o.c) += o.v;
    return e;
  };
  {
    Triplethandler<T> h(m);
    Matrixhandler &b = h;
    for (auto const &o : first) b.add_to_coefficient(o.r, o.c, o.v);
    b.set_matrix();
  }
  compare(m, expect(first), "triplets");
  auto nz = m.nonZeros();
  {
    Coeffrefhandler<T> h(m);
    compare(m, MatrixXd::Zero(rows, cols), "cleared on construction");
    Matrixhandler &b = h;
    for (auto const &o : second) b.add_to_coefficient(o.r, o.c, o.v);
    b.set_matrix();
  }
  compare(m, expect(second), "in place");
  bool subset = true;
  for (auto const &o : second) {
    bool found = false;
    for (auto const &q : first) found = found || (q.r == o.r && q.c == o.c);
    subset = subset && found;
  }
  if (subset) { sx_assert(m.nonZeros() == nz, "the pattern is kept"); sx_reach("pattern kept"); }
  else sx_reach("pattern grows");
  // a third assembly over whatever pattern there is, now from an empty matrix in place
  {
    Coeffrefhandler<T> h(m);
    for (auto const &o : third) h.add_to_coefficient(o.r, o.c, o.v);
    h.set_matrix();
  }
  compare(m, expect(third), "in place again");
  Sp t(rows, cols);
  {
    Triplethandler<T> h(t);
    for (auto const &o : third) h.add_to_coefficient(o.r, o.c, o.v);
    h.set_matrix();
    // the handler forgets its entries
    h.set_matrix();
  }
  compare(t, MatrixXd::Zero(rows, cols), "entries are forgotten after the matrix is set");
  Sp s(rows, cols);
  {
    Coeffrefhandler<T> h(s);
    for (auto const &o : third) h.add_to_coefficient(o.r, o.c, o.v);
  }
  compare(s, expect(third), "in place from an empty matrix");
}
static std::vector<Op> ops(std::string name, int n, int rows, int cols, bool tr) {
  std::vector<Op> o;
  for (int i = 0; i < n; ++i) {
    int pos = sx_int(S(name + "at", i), 0, rows * cols - 1);
    int r = pos / cols, c = pos % cols;
    o.push_back({tr ? c : r, tr ? r : c, sx_double(S(name + "v", i), -100, 100)});
  }
  return o;
}
void harness() {
  int a = sx_param("first", 3), b = sx_param("second", 2);
  bool tr = sx_bool("transposed"), wide = sx_bool("wide");
  int rows = 2, cols = wide ? 3 : 2;
  auto f = ops("f", a, rows, cols, tr), s = ops("s", b, rows, cols, tr);
  std::vector<Op> t = s;
  t.push_back(f[0]);
  t.back().v = sx_double("t", -100, 100);
  if (tr) run<Transposed>(rows, cols, f, s, t); else run<Regular>(rows, cols, f, s, t);
  sx_reach(tr ? "transposed" : "regular");
}
