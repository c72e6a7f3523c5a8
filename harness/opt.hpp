// A controlled problem with known trajectory for the checks of the optimizer.
#pragma once
#include "ControlStateCache.hpp"
#include "Exception.hpp"
#include "ImplicitOptimizer.hpp"
#include "InterpolatingVector.hpp"
#include "toy.hpp"
#include <memory>
using Aux::InterpolatingVector;
using Eigen::Index;
// value of a piecewise linear function with the points t and the values v (one column per point)
inline VectorXd interpolate(VectorXd const &t, MatrixXd const &v, double x) {
  Index last = t.size() - 1;
  if (x >= t[last]) return v.col(last);
  for (Index i = last - 1; i >= 0; --i)
    if (x >= t[i]) {
      double w = (x - t[i]) / (t[i + 1] - t[i]);
      VectorXd r(v.rows());
      for (Index k = 0; k < v.rows(); ++k) r[k] = v(k, i) + (v(k, i + 1) - v(k, i)) * w;
      return r;
    }
  return v.col(0);
}
inline VectorXd list(std::vector<double> v) { return Eigen::Map<VectorXd>(v.data(), (Index)v.size()); }
// Equations  A_i n + B_i l + C_i u + k l_0 u_0 e_0 + d_i = 0  for step i (A_i upper triangular), cost, penalty and constraints with
// mixed terms, so that all derivatives depend on time, states and controls.
struct Setup {
  Index N, ns, nc, nk;
  VectorXd ts, tu, tc;
  std::vector<MatrixXd> A, B, C, G, H;
  std::vector<VectorXd> d, f, h, p;
  VectorXd x0;
  double mixed = 0.5;
  int calls = 0;
  Setup(VectorXd states, VectorXd control_times, VectorXd constraint_times, Index _ns, Index _nc, Index _nk) :
      N(states.size() - 1), ns(_ns), nc(_nc), nk(_nk), ts(states), tu(control_times), tc(constraint_times) {
    double seed = 0; // distinct concrete coefficients; harnesses replace some by symbolic ones
    auto next = [&] { seed += 1; return ((int)(seed * 7) % 23 - 11.0 + (((int)seed * 7) % 23 == 11 ? 0.5 : 0)) / 4; };
    auto mat = [&](Index r, Index c) { MatrixXd m(r, c); for (Index i = 0; i < r; ++i) for (Index j = 0; j < c; ++j) m(i, j) = next(); return m; };
    for (Index i = 0; i <= N; ++i) {
      MatrixXd a = mat(ns, ns);
      for (Index r = 0; r < ns; ++r) { for (Index c = 0; c < r; ++c) a(r, c) = 0; a(r, r) = 1 + (double)((3 * i + r) % 5) / 2; }
      A.push_back(a); B.push_back(mat(ns, ns)); C.push_back(mat(ns, nc)); G.push_back(mat(nk, ns)); H.push_back(mat(nk, nc));
      d.push_back(mat(ns, 1).col(0)); f.push_back(mat(ns, 1).col(0)); h.push_back(mat(nc, 1).col(0)); p.push_back(mat(ns, 1).col(0));
    }
    x0 = mat(ns, 1).col(0);
  }
  Index step(double t) const {
    for (Index i = 0; i <= N; ++i) if (sx_is_concrete(t - ts[i]) && t - ts[i] == 0) return i;
    sx_fail("evaluated at a time that is no state time");
    return 0;
  }
  VectorXd next(Index i, VectorXd const &l, VectorXd const &u) const {
    VectorXd x(ns);
    for (Index r = ns - 1; r >= 0; --r) {
      double v = d[i][r];
      for (Index c = 0; c < ns; ++c) v += B[i](r, c) * l[c];
      for (Index c = 0; c < nc; ++c) v += C[i](r, c) * u[c];
      if (r == 0) v += mixed * l[0] * u[0];
      for (Index c = r + 1; c < ns; ++c) v += A[i](r, c) * x[c];
      x[r] = -v / A[i](r, r);
    }
    return x;
  }
  double cost(Index i, VectorXd const &s, VectorXd const &u) const {
    double v = 0;
    for (Index k = 0; k < ns; ++k) v += f[i][k] * s[k] * s[k];
    for (Index k = 0; k < nc; ++k) v += h[i][k] * u[k] * (s[0] + 1);
    return v;
  }
  double penalty(Index i, VectorXd const &s, VectorXd const &u) const {
    double v = 0;
    for (Index k = 0; k < ns; ++k) v += p[i][k] * s[k];
    return v + 2 * u[nc - 1] * u[nc - 1] * s[ns - 1];
  }
  VectorXd constraint(Index i, VectorXd const &s, VectorXd const &u) const {
    VectorXd v(nk);
    for (Index k = 0; k < nk; ++k) {
      v[k] = 0;
      for (Index c = 0; c < ns; ++c) v[k] += G[i](k, c) * s[c];
      for (Index c = 0; c < nc; ++c) v[k] += H[i](k, c) * u[c] * (k == 0 ? s[0] : 1);
    }
    return v;
  }
  // the trajectory for the controls, one column per control time
  std::vector<VectorXd> trajectory(MatrixXd const &u) const {
    std::vector<VectorXd> x{x0};
    for (Index i = 1; i <= N; ++i) x.push_back(next(i, x.back(), interpolate(tu, u, ts[i])));
    return x;
  }
  // trapezoidal rule on the part of the trajectory that can be influenced
  template <class F> double integral(MatrixXd const &u, F value) const {
    auto x = trajectory(u);
    double sum = 0;
    for (Index i = 1; i <= N; ++i) {
      double v = value(i, x[(size_t)i], interpolate(tu, u, ts[i]));
      sum += 0.5 * (ts[i] - ts[i - 1]) * v;
      if (i < N) sum += 0.5 * (ts[i + 1] - ts[i]) * v;
    }
    return sum;
  }
  double total_cost(MatrixXd const &u) const { return integral(u, [&](Index i, VectorXd const &s, VectorXd const &c) { return cost(i, s, c); }); }
  double total_penalty(MatrixXd const &u) const { return integral(u, [&](Index i, VectorXd const &s, VectorXd const &c) { return penalty(i, s, c); }); }
  double objective(MatrixXd const &u) const { return total_cost(u) + total_penalty(u); }
  VectorXd constraints(MatrixXd const &u) const {
    auto x = trajectory(u);
    VectorXd r(nk * tc.size());
    for (Index i = 0; i < tc.size(); ++i) {
      Index s = step(tc[i]);
      r.segment(nk * i, nk) = constraint(s, x[(size_t)s], interpolate(tu, u, tc[i]));
    }
    return r;
  }
  std::unique_ptr<Toy> problem() const {
    auto t = std::make_unique<Toy>(ns, nc, nk);
    Setup const &S = *this; // outlives the problem
    t->e = [&S](Eigen::Ref<VectorXd> y, double, double nt, In l, In n, In u) {
      Index i = S.step(nt);
      for (Index r = 0; r < S.ns; ++r) {
        y[r] = S.d[i][r];
        for (Index c = 0; c < S.ns; ++c) y[r] += S.A[i](r, c) * n[c] + S.B[i](r, c) * l[c];
        for (Index c = 0; c < S.nc; ++c) y[r] += S.C[i](r, c) * u[c];
        if (r == 0) y[r] += S.mixed * l[0] * u[0];
      }
    };
    t->en = [&S](Aux::Matrixhandler &m, double, double nt, In, In, In) {
      Index i = S.step(nt);
      for (Index r = 0; r < S.ns; ++r) for (Index c = r; c < S.ns; ++c) m.add_to_coefficient(r, c, S.A[i](r, c));
    };
    t->el = [&S](Aux::Matrixhandler &m, double, double nt, In, In, In u) {
      Index i = S.step(nt);
      for (Index r = 0; r < S.ns; ++r) for (Index c = 0; c < S.ns; ++c) m.add_to_coefficient(r, c, S.B[i](r, c) + (r == 0 && c == 0 ? S.mixed * u[0] : 0));
    };
    t->ec = [&S](Aux::Matrixhandler &m, double, double nt, In l, In, In) {
      Index i = S.step(nt);
      for (Index r = 0; r < S.ns; ++r) for (Index c = 0; c < S.nc; ++c) m.add_to_coefficient(r, c, S.C[i](r, c) + (r == 0 && c == 0 ? S.mixed * l[0] : 0));
    };
    t->f = [&S](double time, In s, In u) { return S.cost(S.step(time), s, u); };
    t->p = [&S](double time, In s, In u) { return S.penalty(S.step(time), s, u); };
    t->fs = [&S](Aux::Matrixhandler &m, double time, In s, In u) {
      Index i = S.step(time);
      for (Index k = 0; k < S.ns; ++k) m.add_to_coefficient(0, k, 2 * S.f[i][k] * s[k]);
      for (Index k = 0; k < S.nc; ++k) m.add_to_coefficient(0, 0, S.h[i][k] * u[k]);
    };
    t->fc = [&S](Aux::Matrixhandler &m, double time, In s, In) {
      Index i = S.step(time);
      for (Index k = 0; k < S.nc; ++k) m.add_to_coefficient(0, k, S.h[i][k] * (s[0] + 1));
    };
    t->ps = [&S](Aux::Matrixhandler &m, double time, In, In u) {
      Index i = S.step(time);
      for (Index k = 0; k < S.ns; ++k) m.add_to_coefficient(0, k, S.p[i][k]);
      m.add_to_coefficient(0, S.ns - 1, 2 * u[S.nc - 1] * u[S.nc - 1]);
    };
    t->pc = [&S](Aux::Matrixhandler &m, double, In s, In u) { m.add_to_coefficient(0, S.nc - 1, 4 * u[S.nc - 1] * s[S.ns - 1]); };
    t->g = [&S](Eigen::Ref<VectorXd> v, double time, In s, In u) { v = S.constraint(S.step(time), s, u); };
    t->gs = [&S](Aux::Matrixhandler &m, double time, In, In u) {
      Index i = S.step(time);
      for (Index k = 0; k < S.nk; ++k) for (Index c = 0; c < S.ns; ++c) m.add_to_coefficient(k, c, S.G[i](k, c));
      for (Index c = 0; c < S.nc && S.nk; ++c) m.add_to_coefficient(0, 0, S.H[i](0, c) * u[c]);
    };
    t->gc = [&S](Aux::Matrixhandler &m, double time, In s, In) {
      Index i = S.step(time);
      for (Index k = 0; k < S.nk; ++k) for (Index c = 0; c < S.nc; ++c) m.add_to_coefficient(k, c, S.H[i](k, c) * (k == 0 ? s[0] : 1));
    };
    return t;
  }
  // the simulation: exact solution of the equations
  struct Recursion final : Optimization::StateCache {
    Setup &S;
    InterpolatingVector states;
    Recursion(Setup &s) : S(s) {}
    bool refresh_cache(Model::Controlcomponent &, Aux::InterpolatingVector_Base const &controls, Eigen::Ref<VectorXd const> const &times,
                       Eigen::Ref<VectorXd const> const &initial) override {
      ++S.calls;
      sx_assert(times == S.ts && initial.size() == S.ns, "times and states given to the simulation");
      states = InterpolatingVector(times, S.ns);
      VectorXd x = initial;
      states.mut_timestep(0) = x;
      MatrixXd u(S.nc, S.tu.size());
      for (Index j = 0; j < S.tu.size(); ++j) u.col(j) = controls.vector_at_index(j);
      for (Index i = 1; i <= S.N; ++i) { x = S.next(i, x, interpolate(S.tu, u, S.ts[i])); states.mut_timestep(i) = x; }
      return true;
    }
    Aux::InterpolatingVector_Base const &get_cached_states() override { return states; }
  };
  std::unique_ptr<Optimization::ImplicitOptimizer> optimizer(std::unique_ptr<Optimization::StateCache> cache = nullptr) {
    if (!cache) cache = std::make_unique<Recursion>(*this);
    InterpolatingVector c(tu, nc), k(tc, nk);
    c.setZero(); k.setZero();
    return std::make_unique<Optimization::ImplicitOptimizer>(problem(), std::move(cache), ts, tu, tc, x0, c, c, c, k, k);
  }
  // symbolic controls, named u<control time>_<entry>
  MatrixXd controls(std::string name = "u") const {
    MatrixXd u(nc, tu.size());
    for (Index j = 0; j < tu.size(); ++j) for (Index k = 0; k < nc; ++k) u(k, j) = sx_double(S(name, j, k), -10, 10);
    return u;
  }
};
inline VectorXd flat(MatrixXd const &u) { return Eigen::Map<VectorXd const>(u.data(), u.size()); }
// grids for states from 0 to 4
inline VectorXd state_grid() { return list({0, 1, 3, 4}); }
inline int control_grids() { return 8; }
inline VectorXd control_grid(int i) {
  switch (i) {
  case 0: return list({0, 4});
  case 1: return list({0, 1, 3, 4});
  case 2: return list({0, 3, 4});
  case 3: return list({-0.5, 0.5, 2.5, 6.5});
  case 4: return list({0, 2, 4});
  case 5: return list({0, 0.5, 1.5, 2.5, 3.5, 4});
  case 6: return list({-3, -1, 7, 8});
  default: return list({0, 1, 4 - 5e-11});
  }
}
// any non-empty subset of the state times after the first
inline VectorXd constraint_grid(VectorXd const &ts) {
  std::vector<double> t;
  for (Index i = 1; i < ts.size(); ++i) if (sx_bool(S("constrained", i))) t.push_back(ts[i]);
  sx_assume(!t.empty());
  return list(t);
}
