// C08: interpolating vectors against plain lists of points and values.
#include "common.hpp"
#include "InterpolatingVector.hpp"
#include <memory>
using namespace Aux;
using Eigen::VectorXd;
using nlohmann::json;
typedef std::vector<double> V;
static double const EPS = 1e-10;
static VectorXd E(V const &v) { VectorXd r((Eigen::Index)v.size()); for (size_t i = 0; i < v.size(); ++i) r[(Eigen::Index)i] = v[i]; return r; }
static V values(std::string name, size_t n) { V v; for (size_t i = 0; i < n; ++i) v.push_back(sx_double(S(name, (long)i), -100, 100)); return v; }
static V grid(std::string name, size_t n) {
  V v = values(name, n);
  for (size_t i = 1; i < n; ++i) sx_assume(v[i] > v[i - 1] + 0.001);
  return v;
}
// one vector of every kind over the same points and values
struct Holder {
  V store;
  std::unique_ptr<InterpolatingVector_Base> v;
  ConstMappedInterpolatingVector const *c = nullptr;
};
static Holder make(int kind, V const &pts, int len, V const &vals) {
  Holder h;
  h.store = vals;
  auto n = (Eigen::Index)vals.size();
  bool e = sx_bool("eigenpoints");
  if (kind == 0) {
    h.v = e ? std::make_unique<InterpolatingVector>(E(pts), len) : std::make_unique<InterpolatingVector>(pts, len);
    h.v->set_values_in_bulk(E(vals));
  } else if (kind == 1)
    h.v = e ? std::make_unique<MappedInterpolatingVector>(E(pts), len, h.store.data(), n) : std::make_unique<MappedInterpolatingVector>(pts, len, h.store.data(), n);
  else
    h.v = e ? std::make_unique<ConstMappedInterpolatingVector>(E(pts), len, h.store.data(), n) : std::make_unique<ConstMappedInterpolatingVector>(pts, len, h.store.data(), n);
  return h;
}
static void same(InterpolatingVector_Base const &v, V const &pts, int len, V const &vals, std::string what) {
  sx_assert(v.size() == (Eigen::Index)pts.size(), what + ": number of points");
  sx_assert(v.get_inner_length() == len, what + ": inner length");
  sx_assert(v.get_total_number_of_values() == (Eigen::Index)vals.size(), what + ": number of values");
  auto all = v.get_allvalues();
  auto ip = v.get_interpolation_points();
  for (size_t i = 0; i < pts.size(); ++i) {
    auto I = (Eigen::Index)i;
    sx_eq(ip[I], pts[i], what + ": point"); sx_eq(v.interpolation_point_at_index(I), pts[i], what + ": point at index");
    auto w = v.vector_at_index(I);
    for (int k = 0; k < len; ++k) { sx_eq(all[I * len + k], vals[i * len + k], what + ": all values"); sx_eq(w[k], vals[i * len + k], what + ": vector at index"); }
  }
}
static void evaluation(int maxn) {
  int n = sx_int("n", 1, maxn), len = sx_int("len", 1, 2), kind = sx_int("kind", 0, 2);
  V pts = grid("x", n), vals = values("v", n * len);
  Holder h = make(kind, pts, len, vals);
  double t = sx_double("t", -110, 110);
  // keep away from the rounding of the documented tolerance itself
  sx_assume(!(t > pts.back() + 0.9 * EPS && t < pts.back() + 1.1 * EPS) && !(t < pts.front() - 0.9 * EPS && t > pts.front() - 1.1 * EPS));
  VectorXd r;
  bool thrown = throws([&] { r = (*h.v)(t); });
  if (t > pts.back() + EPS || t < pts.front() - EPS) { sx_assert(thrown, "outside of the points"); sx_reach("outside"); return; }
  sx_assert(!thrown, "inside of the points");
  sx_assert(r.size() == len, "length of the value");
  for (int k = 0; k < len; ++k) {
    double e = vals[k];
    if (t >= pts.back()) e = vals[(n - 1) * len + k];
    else
      for (int i = n - 2; i >= 0; --i)
        if (t >= pts[i]) { e = vals[i * len + k] + (vals[(i + 1) * len + k] - vals[i * len + k]) * ((t - pts[i]) / (pts[i + 1] - pts[i])); break; }
    sx_eq(r[k], e, "interpolated value");
  }
  if (t > pts.front() && t < pts.back()) sx_reach("between");
}
static void construction(int maxn) {
  int n = sx_int("n", 1, maxn), len = sx_int("len", 1, 2), kind = sx_int("kind", 0, 2), off = sx_int("off", -1, 1);
  V pts = values("x", n), vals = values("v", n * len + 1);
  bool sorted = true;
  for (int i = 1; i < n; ++i) sorted = sorted && pts[i] >= pts[i - 1];
  bool wrong = kind != 0 && off != 0;
  auto m = (Eigen::Index)(n * len + off);
  std::unique_ptr<InterpolatingVector_Base> v;
  bool thrown = throws([&] {
    if (kind == 0) v = std::make_unique<InterpolatingVector>(pts, len);
    else if (kind == 1) v = std::make_unique<MappedInterpolatingVector>(pts, len, vals.data(), m);
    else v = std::make_unique<ConstMappedInterpolatingVector>(pts, len, vals.data(), m);
  });
  sx_assert(thrown == (!sorted || wrong), sorted ? "construction with the wrong number of values" : "unsorted points are rejected");
  sx_reach(thrown ? "rejected" : "accepted");
  if (thrown) return;
  if (kind == 0) {
    VectorXd w = E(V(vals.begin(), vals.begin() + n * len + off));
    bool t2 = throws([&] { v->set_values_in_bulk(w); });
    sx_assert(t2 == (off != 0), "bulk values of the wrong size are rejected");
    if (t2) return;
  }
  vals.pop_back();
  same(*v, pts, len, vals, "constructed");
  sx_assert(throws([&] { v->vector_at_index(-1); }) && throws([&] { v->vector_at_index(n); }), "read outside of the indices");
  if (kind < 2) sx_assert(throws([&] { v->mut_timestep(-1); }) && throws([&] { v->mut_timestep(n); }), "write outside of the indices");
  else sx_assert(throws([&] { v->mut_timestep(0); }) && throws([&] { v->setZero(); }), "constant vectors cannot be written");
}
// a history of operations on two owning vectors and one mapped vector
static void history(int ops) {
  int len = sx_int("len", 1, 2);
  V pa = grid("a", 2), pb = sx_bool("sameb") ? pa : grid("b", 3);
  V va = values("va", 2 * len), vb = values("vb", pb.size() * len), store = values("vm", 2 * len);
  InterpolatingVector a(pa, len), b(pb, len);
  a.set_values_in_bulk(E(va));
  b.set_values_in_bulk(E(vb));
  MappedInterpolatingVector m(pa, len, store.data(), (Eigen::Index)store.size());
  V pm = pa, vm = store;
  for (int o = 0; o < ops; ++o) {
    int op = sx_int(S("op", o), 0, 9);
    std::string w = S("w", o);
    if (op == 0) { int i = sx_int(S("i", o), 0, 1); V x = values(w, len); a.mut_timestep(i) = E(x); std::copy(x.begin(), x.end(), va.begin() + i * len); }
    else if (op == 1) { V x = values(w, vb.size()); b.set_values_in_bulk(E(x)); vb = x; }
    else if (op == 2) { a.setZero(); va.assign(va.size(), 0); }
    else if (op == 3) { a = b; pa = pb; va = vb; }
    else if (op == 4) { InterpolatingVector_Base const &r = m; b = r; pb = pm; vb = vm; }
    else if (op == 5) {
      bool t = throws([&] { m = a; }), eq = pa.size() == pm.size();
      for (size_t i = 0; eq && i < pa.size(); ++i) eq = pa[i] == pm[i];
      sx_assert(t == !eq, "assignment to a mapped vector needs the same points");
      if (!t) vm = va;
    } else if (op == 6) { InterpolatingVector c(a); c.mut_timestep(0) = E(values(w, len)); same(a, pa, len, va, "copied from"); }
    else if (op == 7) { InterpolatingVector c(a); InterpolatingVector d(std::move(c)); b = std::move(d); pb = pa; vb = va; }
    else if (op == 8) {
      double x = sx_double(w + "x", -200, 200);
      auto at = sx_bool(w + "first") ? 0 : (Eigen::Index)pa.size() - 1;
      if (at) sx_assume(x > pa[at - 1] + 0.001);
      else sx_assume(x < pa[1] - 0.001);
      V y = values(w, len);
      a.push_to_index(at, x, E(y));
      pa[at] = x;
      std::copy(y.begin(), y.end(), va.begin() + at * len);
    } else {
      // aliasing views: writes through the mapped vector are seen by a constant view of the same storage
      V x = values(w, len);
      m.mut_timestep(1) = E(x);
      std::copy(x.begin(), x.end(), vm.begin() + len);
      ConstMappedInterpolatingVector const c(pm, len, store.data(), (Eigen::Index)store.size());
      same(c, pm, len, vm, "view");
    }
  }
  same(a, pa, len, va, "a"); same(b, pb, len, vb, "b"); same(m, pm, len, vm, "m");
  bool eq = pa.size() == pb.size();
  for (size_t i = 0; eq && i < pa.size(); ++i) eq = pa[i] == pb[i];
  sx_assert(have_same_structure(a, b) == eq, "same structure");
  for (size_t i = 0; eq && i < va.size(); ++i) eq = va[i] == vb[i];
  sx_assert((a == b) == eq && (a != b) == !eq, "equality");
  sx_reach(eq ? "equal" : "unequal");
}
static void fromjson(int maxn) {
  int n = sx_int("n", 1, maxn), len = sx_int("len", 1, 2);
  bool time = sx_bool("time");
  V pts = values("x", n), vals = values("v", n * len);
  json d = json::array();
  for (int i = 0; i < n; ++i) d.push_back({{time ? "time" : "x", pts[i]}, {"values", V(vals.begin() + i * len, vals.begin() + (i + 1) * len)}});
  bool sorted = true;
  for (int i = 1; i < n; ++i) sorted = sorted && pts[i] >= pts[i - 1];
  InterpolatingVector v;
  bool thrown = throws([&] { v = InterpolatingVector::construct_from_json({{"id", "a"}, {"data", d}}, json::object()); });
  sx_assert(thrown == !sorted, "unsorted points in JSON are rejected");
  if (!thrown) { same(v, pts, len, vals, "json"); sx_reach("json"); }
}
static void regrid(int maxn) {
  int n = sx_int("n", 2, maxn), len = sx_int("len", 1, 2), m = sx_int("m", 1, maxn);
  V pts = grid("x", n), vals = values("v", n * len), q = grid("q", m);
  sx_assume(q.front() >= pts.front() && q.back() <= pts.back());
  Holder h = make(sx_int("kind", 0, 2), pts, len, vals);
  InterpolatingVector r = InterpolatingVector::construct_and_interpolate_from(E(q), len, *h.v);
  V e;
  for (int j = 0; j < m; ++j)
    for (int k = 0; k < len; ++k) {
      double y = vals[(n - 1) * len + k];
      if (q[j] < pts.back())
        for (int i = n - 2; i >= 0; --i)
          if (q[j] >= pts[i]) { double l = (q[j] - pts[i]) / (pts[i + 1] - pts[i]); y = (1 - l) * vals[i * len + k] + l * vals[(i + 1) * len + k]; break; }
      e.push_back(y);
    }
  same(r, q, len, e, "regridded");
  sx_reach("regrid");
}
static void reset() {
  int len = sx_int("len", 1, 2), off = sx_int("off", -1, 1);
  V pts = grid("x", 2), a = values("a", 2 * len), b = values("b", 2 * len + 1);
  ConstMappedInterpolatingVector c(pts, len, a.data(), (Eigen::Index)a.size());
  bool thrown = throws([&] { c.reset_values(b.data(), 2 * len + off); });
  sx_assert(thrown == (off != 0), "reset with the wrong size is rejected");
  b.pop_back();
  InterpolatingVector_Base const &r = c;
  same(r, pts, len, thrown ? a : b, "reset");
  sx_reach("reset");
}
// assignment between every pair of kinds and shapes: taken over completely, or refused without any change
static void assignment() {
  int dk = sx_int("to", 0, 3), sk = sx_int("from", 0, 4);
  int shape = sx_int("shape", 0, 3); // of the source; the target has two points with two values each
  V pd = grid("a", 2), ps = shape == 0 ? pd : shape == 1 ? grid("b", 4) : shape == 2 ? grid("b", 2) : pd;
  int ls = shape == 1 || shape == 3 ? 1 : 2;
  V vd = values("vd", 4), vs = values("vs", ps.size() * ls), sd = vd, ss = vs;
  InterpolatingVector di(pd, 2), si(ps, ls);
  di.set_values_in_bulk(E(vd)); si.set_values_in_bulk(E(vs));
  MappedInterpolatingVector dm(pd, 2, sd.data(), 4), sm(ps, ls, ss.data(), (Eigen::Index)ss.size());
  ConstMappedInterpolatingVector sc(ps, ls, ss.data(), (Eigen::Index)ss.size());
  InterpolatingVector_Base const *base[3] = {&si, &sm, &sc};
  bool equal = ls == 2 && ps.size() == 2 && ps[0] == pd[0] && ps[1] == pd[1];
  bool t = throws([&] {
    if (dk == 0) { if (sk == 3) di = si; else di = *base[sk % 3]; }
    else if (dk == 1) { if (sk == 4) dm = sm; else dm = *base[sk % 3]; }
    else if (dk == 2) static_cast<InterpolatingVector_Base &>(di) = *base[sk % 3];
    else static_cast<InterpolatingVector_Base &>(dm) = *base[sk % 3];
  });
  sx_assert(t == (dk != 0 && !equal), "an assignment of another structure is refused, except to an owning vector");
  InterpolatingVector_Base const &d = dk == 0 || dk == 2 ? static_cast<InterpolatingVector_Base const &>(di) : dm;
  if (t) { same(d, pd, 2, vd, "refused"); sx_reach("refused"); }
  else { same(d, ps, ls, vs, "assigned"); sx_reach("assigned"); }
  same(*base[sk % 3], ps, ls, vs, "source");
}
void harness() {
  int maxn = sx_param("points", 3);
  switch (sx_int("part", 0, 6)) {
    case 0: evaluation(maxn); break;
    case 1: construction(maxn); break;
    case 2: history(sx_param("ops", 2)); break;
    case 3: fromjson(maxn); break;
    case 4: regrid(maxn); break;
    case 5: assignment(); break;
    default: reset();
  }
  sx_reach("end");
}
