// Symbolic runtime: expression DAG, canonical rational functions, path exploration by fork(), Z3 back end.
#include "poly.hpp"
#include <z3++.h>
#include <malloc.h>
#include <atomic>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <execinfo.h>
#include <fcntl.h>
#include <random>
#include <set>
#include <signal.h>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <tuple>
#include "../include/sx.hpp"
#include <sys/syscall.h>
// a harness may define write() itself (fault injection), instrumented: the runtime must not go through it, least of all
// between a call and the entry of its callee, where the shadows of the arguments are on their way
#define write(fd, p, n) ((ssize_t)syscall(SYS_write, fd, p, n))

#define API extern "C" __attribute__((visibility("default")))
typedef uint32_t u32;
typedef uint64_t u64;
typedef long double ld;

// ------------------------------------------------------------------ shared interface with the pass
API u32 __sx_args[64];
API void *__sx_argmark;
API u32 __sx_ret[64];
API void *__sx_retmark;
API void *__sx_bv[64];
u32 __sx_args[64];
void *__sx_argmark;
u32 __sx_ret[64];
void *__sx_retmark;
void *__sx_bv[64];

// ------------------------------------------------------------------ shared state of all paths
struct Shared {
  std::atomic<long> tokens, paths, pruned, branches, forks, queries, q_sat, q_unsat, q_unknown, solver_us, a_total, a_identity, a_solver, a_interval,
      a_concrete, violations, inconclusive, witnesses, reach, crashes, timeouts, maxnodes, deadpaths, live;
  std::atomic<int> stop;
};
static Shared *S;
static int logfd = -1;
static double deadline;
static std::string outdir = ".", hname;
static int maxviol = 3, maxwit = 6;
static unsigned q_timeout_ms = 8000, q_timeout2_ms = 60000;
static bool verbose = false;
static pid_t rootpid;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static std::string esc(std::string const &s) {
  std::string r;
  for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) { r += ' '; } else r += c; }
  return r;
}
static void logline(std::string const &s) {
  std::string t = s + "\n";
  ssize_t r = write(logfd, t.data(), t.size());
  (void)r;
}

// ------------------------------------------------------------------ expressions
enum Op : uint8_t { CONST, VAR, ADD, SUB, MUL, DIV, NEG, FN };
enum Fn : uint8_t { F_NONE, F_SIN, F_COS, F_EXP, F_LOG, F_ROOT };
struct Node { Op op; uint8_t fn = 0; u32 a = 0, b = 0; mpq_class val; double cval = 0; u32 var = 0; double lo = -INFINITY, hi = INFINITY; std::shared_ptr<RatFn> rf; };
static std::deque<Node> nodes(1);
static std::map<std::tuple<int, int, u32, u32>, u32> cons;
static std::map<mpq_class, u32> consts;

enum Kind { INPUT, ATOM };
struct Var { Kind kind; std::string name; double lo, hi; u32 node = 0; bool bounded = true; Fn fn = F_NONE; RatFn arg; int q = 0; int ruleq = 0; u32 partner = 0; bool choice = false; std::vector<std::pair<u32, double>> squares; };
static std::vector<Var> vars;
static std::map<std::string, u32> inputs;

static double dn(double x) { return std::nextafter(x, -INFINITY); }
static double up(double x) { return std::nextafter(x, INFINITY); }

static mpq_class simplest_in(mpq_class lo, mpq_class hi) { // simplest rational in [lo,hi], 0<lo<=hi
  mpz_class f = lo.get_num() / lo.get_den();
  mpq_class fq(f);
  if (fq == lo) return fq;
  if (fq + 1 <= hi) return fq + 1;
  mpq_class r = simplest_in(1 / (hi - fq), 1 / (lo - fq));
  return fq + 1 / r;
}
static mpq_class snap(double x) {
  mpq_class q(x);
  if (q.get_den() == 1) return q;
  if (x < 0) return -snap(-x);
  if (x < 1e-300) return q;
  mpq_class lo = (q + mpq_class(dn(x))) / 2, hi = (q + mpq_class(up(x))) / 2;
  return simplest_in(lo, hi);
}
// constants that are not short rationals (results of roots, logarithms, ...) are identified when they agree to 1e-13
static std::map<double, mpq_class> ugly;
static mpq_class snapm(double x) {
  mpq_class q = snap(x);
  if (q.get_den() < 1000000) return q;
  auto it = ugly.lower_bound(x - 1e-13 * std::fabs(x));
  if (it != ugly.end() && it->first <= x + 1e-13 * std::fabs(x)) return it->second;
  ugly[x] = q;
  return q;
}
static u32 mkconst(mpq_class const &v) {
  auto it = consts.find(v);
  if (it != consts.end()) return it->second;
  Node n; n.op = CONST; n.val = v; n.val.canonicalize();
  n.cval = v.get_d();
  bool exact = mpq_class(n.cval) == v;
  n.lo = exact ? n.cval : dn(n.cval); n.hi = exact ? n.cval : up(n.cval);
  nodes.push_back(n);
  u32 id = nodes.size() - 1;
  consts[v] = id;
  return id;
}
static u32 fromdouble(double x) {
  static std::unordered_map<u64, u32> cache;
  u64 b; memcpy(&b, &x, 8);
  auto it = cache.find(b);
  if (it != cache.end()) return it->second;
  u32 id = mkconst(snapm(x));
  cache[b] = id;
  return id;
}
static u32 mkvar(u32 v) {
  Node n; n.op = VAR; n.var = v; n.lo = vars[v].lo; n.hi = vars[v].hi;
  nodes.push_back(n);
  vars[v].node = nodes.size() - 1;
  return nodes.size() - 1;
}
static void ival(Node &n) {
  Node const &A = nodes[n.a]; double al = A.lo, ah = A.hi, bl = 0, bh = 0;
  if (n.b) { bl = nodes[n.b].lo; bh = nodes[n.b].hi; }
  double lo = -INFINITY, hi = INFINITY;
  switch (n.op) {
  case ADD: lo = dn(al + bl); hi = up(ah + bh); break;
  case SUB: lo = dn(al - bh); hi = up(ah - bl); break;
  case NEG: lo = -ah; hi = -al; break;
  case MUL: {
    double c[4] = {al * bl, al * bh, ah * bl, ah * bh};
    bool nan = false; for (double x : c) nan |= std::isnan(x);
    if (!nan) { lo = dn(*std::min_element(c, c + 4)); hi = up(*std::max_element(c, c + 4)); }
    if (n.a == n.b && lo < 0) lo = 0;
    break; }
  case DIV:
    if (bl > 0 || bh < 0) {
      double c[4] = {al / bl, al / bh, ah / bl, ah / bh};
      bool nan = false; for (double x : c) nan |= std::isnan(x);
      if (!nan) { lo = dn(*std::min_element(c, c + 4)); hi = up(*std::max_element(c, c + 4)); }
    }
    break;
  case FN:
    switch (n.fn) {
    case F_SIN: case F_COS: lo = -1; hi = 1; break;
    case F_EXP: lo = std::exp(al) * (1 - 1e-14); hi = std::exp(ah) * (1 + 1e-14); if (lo < 0) lo = 0; break;
    case F_LOG: lo = al > 0 ? std::log(al) : -INFINITY; hi = ah > 0 ? std::log(ah) : INFINITY; lo -= 1e-14 * (1 + std::fabs(lo)); hi += 1e-14 * (1 + std::fabs(hi)); if (std::isnan(lo)) lo = -INFINITY; if (std::isnan(hi)) hi = INFINITY; break;
    case F_ROOT: { double q = nodes[n.b].cval; lo = al > 0 ? std::pow(al, 1 / q) * (1 - 1e-14) : 0; hi = ah > 0 ? std::pow(ah, 1 / q) * (1 + 1e-14) : 0; break; }
    }
    break;
  default: break;
  }
  if (std::isnan(lo)) lo = -INFINITY;
  if (std::isnan(hi)) hi = INFINITY;
  n.lo = lo; n.hi = hi;
}
static u32 mkraw(Op op, uint8_t fn, u32 a, u32 b) {
  if ((op == ADD || op == MUL) && a > b) std::swap(a, b);
  auto key = std::make_tuple((int)op, (int)fn, a, b);
  auto it = cons.find(key);
  if (it != cons.end()) return it->second;
  Node n; n.op = op; n.fn = fn; n.a = a; n.b = b;
  ival(n);
  nodes.push_back(n);
  if (nodes.size() > 3000000) throw Blowup("too many nodes");
  u32 id = nodes.size() - 1;
  cons[key] = id;
  return id;
}
static bool isc(u32 n) { return nodes[n].op == CONST; }
static mpq_class const &cv(u32 n) { return nodes[n].val; }
static u32 mkneg(u32 a) {
  if (isc(a)) return mkconst(-cv(a));
  if (nodes[a].op == NEG) return nodes[a].a;
  return mkraw(NEG, 0, a, 0);
}
static u32 mkadd(u32 a, u32 b) {
  if (isc(a) && isc(b)) return mkconst(cv(a) + cv(b));
  if (isc(a) && cv(a) == 0) return b;
  if (isc(b) && cv(b) == 0) return a;
  return mkraw(ADD, 0, a, b);
}
static u32 mksub(u32 a, u32 b) {
  if (isc(a) && isc(b)) return mkconst(cv(a) - cv(b));
  if (isc(b) && cv(b) == 0) return a;
  if (a == b) return mkconst(0);
  if (isc(a) && cv(a) == 0) return mkneg(b);
  return mkraw(SUB, 0, a, b);
}
static u32 mkmul(u32 a, u32 b) {
  if (isc(a) && isc(b)) return mkconst(cv(a) * cv(b));
  if (isc(b)) std::swap(a, b);
  if (isc(a)) { if (cv(a) == 0) return a; if (cv(a) == 1) return b; if (cv(a) == -1) return mkneg(b); }
  return mkraw(MUL, 0, a, b);
}
static u32 mkdiv(u32 a, u32 b) {
  if (isc(b) && cv(b) != 0) { if (isc(a)) return mkconst(cv(a) / cv(b)); return mkmul(mkconst(1 / cv(b)), a); }
  if (isc(a) && cv(a) == 0) return a;
  if (a == b) return mkconst(1);
  return mkraw(DIV, 0, a, b);
}
static u32 mkpowi(u32 a, int n);
static u32 mkfn(Fn f, u32 a, u32 b = 0) {
  if (f == F_EXP && nodes[a].op == MUL) { // exp(c*log(x)) = x^c
    u32 l = nodes[a].a, r = nodes[a].b;
    if (isc(r)) std::swap(l, r);
    if (isc(l) && nodes[r].op == FN && nodes[r].fn == F_LOG && cv(l).get_den() <= 50 && abs(cv(l).get_num()) <= 200) {
      u32 x = nodes[r].a;
      int q = cv(l).get_den().get_si(), p = cv(l).get_num().get_si();
      return mkpowi(q == 1 ? x : mkfn(F_ROOT, x, mkconst(q)), p);
    }
  }
  if (f == F_EXP && nodes[a].op == FN && nodes[a].fn == F_LOG) return nodes[a].a;
  if (f == F_LOG && nodes[a].op == FN && nodes[a].fn == F_EXP) return nodes[a].a;
  if (isc(a)) {
    double x = nodes[a].cval;
    switch (f) {
    case F_SIN: return fromdouble(std::sin(x));
    case F_COS: return fromdouble(std::cos(x));
    case F_EXP: return fromdouble(std::exp(x));
    case F_LOG: if (x > 0) return fromdouble(std::log(x)); break;
    case F_ROOT: if (x >= 0) { // exact if possible
        double q = nodes[b].cval; mpq_class r = snap(std::pow(x, 1 / q)); return mkconst(r); }
      break;
    default: break;
    }
  }
  return mkraw(FN, f, a, b);
}
static u32 mkpowi(u32 a, int n) {
  if (n == 0) return mkconst(1);
  if (n < 0) return mkdiv(mkconst(1), mkpowi(a, -n));
  u32 r = a;
  for (int i = 1; i < n; ++i) r = mkmul(r, a);
  return r;
}

// ------------------------------------------------------------------ polynomials of nodes
enum { N = 1, Z = 2, P = 4 };
struct PInfo { Poly p; std::vector<u32> vs; int mask = N | Z | P; bool linear = true; int deg = 0; };
static std::vector<PInfo> polys;
static std::map<Poly, u32> polyids;

static void pival(Poly const &p, double &lo, double &hi) {
  ld l = 0, h = 0;
  for (auto &t : p) {
    double c = t.second.get_d();
    ld ml = 1, mh = 1;
    for (auto &ve : t.first) {
      ld a = vars[ve.first].lo, b = vars[ve.first].hi;
      ld x, y;
      int e = ve.second;
      ld pa = powl(a, e), pb = powl(b, e);
      if (e % 2 == 0) { if (a <= 0 && b >= 0) { x = 0; y = std::max(pa, pb); } else { x = std::min(pa, pb); y = std::max(pa, pb); } }
      else { x = pa; y = pb; }
      auto mm = [](ld u, ld v) { ld r = u * v; return std::isnan(r) ? (ld)0 : r; };
      ld q[4] = {mm(ml, x), mm(ml, y), mm(mh, x), mm(mh, y)};
      ml = *std::min_element(q, q + 4); mh = *std::max_element(q, q + 4);
    }
    ld u = c * ml, v = c * mh;
    if (std::isnan(u)) u = 0;
    if (std::isnan(v)) v = 0;
    if (u > v) std::swap(u, v);
    l += u - fabsl(u) * 1e-15L; h += v + fabsl(v) * 1e-15L;
  }
  if (std::isnan(l)) l = -INFINITY;
  if (std::isnan(h)) h = INFINITY;
  lo = dn((double)l); hi = up((double)h);
  // exact: constant zero poly
  if (p.empty()) lo = hi = 0;
}
static u32 polyid(Poly const &p0, mpq_class &lc) {
  lc = p0.begin()->second;
  Poly p = p0;
  if (lc != 1) for (auto &t : p) t.second /= lc;
  auto it = polyids.find(p);
  if (it != polyids.end()) return it->second;
  PInfo I; I.p = p;
  std::set<u32> vs;
  for (auto &t : p) { int d = 0; for (auto &ve : t.first) { vs.insert(ve.first); d += ve.second; } I.deg = std::max(I.deg, d); }
  I.linear = I.deg <= 1;
  I.vs.assign(vs.begin(), vs.end());
  double lo, hi; pival(p, lo, hi);
  if (lo > 0) I.mask = P; else if (hi < 0) I.mask = N; else if (lo >= 0) I.mask = Z | P; else if (hi <= 0) I.mask = Z | N;
  polys.push_back(I);
  u32 id = polys.size() - 1;
  polyids[p] = id;
  return id;
}

static RatFn rconst(mpq_class const &c) { RatFn r; r.num = pconst(c); return r; }
static void rreduce(RatFn &r);
static void rcancel(RatFn &r) {
  if (r.num.empty()) { r.den.clear(); return; }
  for (auto it = r.den.begin(); it != r.den.end();) {
    Poly const &f = polys[it->first].p;
    if (f.size() == 1) { // variable power
      u32 v = f.begin()->first[0].first;
      int m = it->second;
      for (auto &t : r.num) { int e = 0; for (auto &ve : t.first) if (ve.first == v) e = ve.second; m = std::min(m, e); if (!m) break; }
      if (m) {
        Poly np;
        for (auto &t : r.num) { Mono k; for (auto &ve : t.first) if (ve.first != v) k.push_back(ve); else if (ve.second > m) k.push_back({v, ve.second - m}); np[k] = t.second; }
        r.num.swap(np);
        it->second -= m;
      }
    } else if (r.num.size() >= 1 && r.num.size() <= 3000) {
      Poly q;
      while (it->second > 0 && pdivexact(r.num, f, q)) { r.num = q; --it->second; }
    }
    if (it->second == 0) it = r.den.erase(it); else ++it;
  }
}
static RatFn rmul(RatFn const &a, RatFn const &b) {
  RatFn r; r.num = pmul(a.num, b.num); r.den = a.den;
  for (auto &d : b.den) r.den[d.first] += d.second;
  rreduce(r); rcancel(r);
  return r;
}
static RatFn radd(RatFn const &a, RatFn const &b, int sgn = 1) {
  RatFn r;
  Poly x = a.num, y = b.num;
  r.den = a.den;
  for (auto &d : b.den) { int &e = r.den[d.first]; e = std::max(e, d.second); }
  for (auto &d : r.den) {
    int ea = 0, eb = 0;
    auto ia = a.den.find(d.first); if (ia != a.den.end()) ea = ia->second;
    auto ib = b.den.find(d.first); if (ib != b.den.end()) eb = ib->second;
    if (d.second > ea) x = pmul(x, ppow(polys[d.first].p, d.second - ea));
    if (d.second > eb) y = pmul(y, ppow(polys[d.first].p, d.second - eb));
  }
  r.num = padd(x, y, sgn);
  rreduce(r); rcancel(r);
  return r;
}
// factor a numerator into interned factors
static void factorize(Poly p, std::map<u32, int> &f, mpq_class &c) {
  c = 1;
  if (p.empty()) throw Blowup("division by zero polynomial");
  // monomial content
  std::map<u32, int> cont;
  bool first = true;
  for (auto &t : p) {
    std::map<u32, int> m;
    for (auto &ve : t.first) m[ve.first] = ve.second;
    if (first) { cont = m; first = false; }
    else for (auto it = cont.begin(); it != cont.end();) { auto j = m.find(it->first); if (j == m.end()) it = cont.erase(it); else { it->second = std::min(it->second, j->second); ++it; } }
  }
  if (!cont.empty()) {
    Mono cm(cont.begin(), cont.end());
    Poly q; Mono k;
    for (auto &t : p) { mdiv(t.first, cm, k); q[k] = t.second; }
    p.swap(q);
    mpq_class lc;
    for (auto &ce : cont) f[polyid(pvar(ce.first), lc)] += ce.second;
  }
  if (pisconst(p)) { c = pconstval(p); return; }
  // trial division by known factors
  if (p.size() <= 400) {
    size_t cnt = polys.size();
    for (u32 i = 0; i < cnt && i < 400; ++i) {
      if (polys[i].p.size() < 2 || polys[i].p.size() > p.size() * 2 || polys[i].p.size() > 60) continue;
      if (pisconst(p)) break;
      Poly q;
      while (!pisconst(p) && pdivexact(p, polys[i].p, q)) { f[i]++; p = q; }
    }
  }
  if (pisconst(p)) { c = pconstval(p); return; }
  mpq_class lc;
  u32 id = polyid(p, lc);
  f[id]++;
  c = lc;
}
static RatFn rinv(RatFn const &a) {
  RatFn r; mpq_class c;
  factorize(a.num, r.den, c);
  r.num = pconst(1 / c);
  for (auto &d : a.den) r.num = pmul(r.num, ppow(polys[d.first].p, d.second));
  rreduce(r); rcancel(r);
  return r;
}
static RatFn rdiv(RatFn const &a, RatFn const &b) { return rmul(a, rinv(b)); }
static RatFn rneg(RatFn a) { for (auto &t : a.num) t.second = -t.second; return a; }

static void rreduce(RatFn &r) {
  for (int guard = 0; guard < 200; ++guard) {
    u32 v = ~0u; int q = 0;
    for (auto &t : r.num) { for (auto &ve : t.first) if (vars[ve.first].ruleq && ve.second >= vars[ve.first].ruleq) { v = ve.first; q = vars[v].ruleq; break; } if (v != ~0u) break; }
    if (v == ~0u) {
      // denominators R^e, e >= q
      bool ch = false;
      for (auto it = r.den.begin(); it != r.den.end(); ++it) {
        Poly const &f = polys[it->first].p;
        if (f.size() != 1) continue;
        u32 w = f.begin()->first[0].first;
        if (vars[w].fn == F_ROOT && vars[w].ruleq && it->second >= vars[w].ruleq) {
          it->second -= vars[w].ruleq;
          RatFn inv = rinv(vars[w].arg);
          if (it->second == 0) r.den.erase(it);
          RatFn t = r;
          // t * inv without recursion problems
          r.num = pmul(t.num, inv.num);
          for (auto &d : inv.den) r.den[d.first] += d.second;
          ch = true;
          break;
        }
      }
      if (!ch) return;
      continue;
    }
    // split by power of v
    std::map<int, Poly> parts; // multiplicity of rule -> poly
    for (auto &t : r.num) {
      Mono m; int e = 0;
      for (auto &ve : t.first) if (ve.first == v) e = ve.second; else m.push_back(ve);
      int k = e / q, rem = e % q;
      if (rem) { m.push_back({v, rem}); std::sort(m.begin(), m.end()); }
      Poly &pp = parts[k];
      auto it = pp.emplace(m, 0).first;
      it->second += t.second;
      if (it->second == 0) pp.erase(it);
    }
    RatFn arg;
    if (vars[v].fn == F_SIN) { Poly c2 = pmul(pvar(vars[v].partner), pvar(vars[v].partner)); arg.num = padd(pconst(1), c2, -1); }
    else arg = vars[v].arg;
    // common denominator arg.den^K
    int K = parts.rbegin()->first;
    Poly ad = pconst(1);
    for (auto &d : arg.den) ad = pmul(ad, ppow(polys[d.first].p, d.second));
    Poly sum;
    for (auto &pk : parts) sum = padd(sum, pmul(pk.second, pmul(ppow(arg.num, pk.first), ppow(ad, K - pk.first))));
    r.num = sum;
    for (auto &d : arg.den) r.den[d.first] += d.second * K;
    if (r.num.empty()) { r.den.clear(); return; }
  }
}

static bool rzero(RatFn const &a) { return a.num.empty(); }
static void rival(RatFn const &a, double &lo, double &hi) { pival(a.num, lo, hi); if (!a.den.empty()) { lo = -INFINITY; hi = INFINITY; } }

// equal up to rounding of the constants in it
static bool nearly(RatFn const &a, RatFn const &b) {
  if (a.den != b.den || a.num.size() != b.num.size()) return false;
  for (auto i = a.num.begin(), j = b.num.begin(); i != a.num.end(); ++i, ++j) {
    if (i->first != j->first) return false;
    double x = i->second.get_d(), y = j->second.get_d();
    if (std::fabs(x - y) > 1e-11 * (std::fabs(x) + std::fabs(y))) return false;
  }
  return true;
}
// atoms, shared by all occurrences of the same function of the same argument
static u32 atom(Fn f, RatFn const &arg, int q, double lo, double hi) {
  for (u32 i = 0; i < vars.size(); ++i)
    if (vars[i].kind == ATOM && vars[i].fn == f && vars[i].q == q) {
      RatFn d = radd(vars[i].arg, arg, -1);
      if (rzero(d) || nearly(vars[i].arg, arg)) { if (lo > vars[i].lo) vars[i].lo = lo; if (hi < vars[i].hi) vars[i].hi = hi; return i; }
    }
  Var v; v.kind = ATOM; v.fn = f; v.arg = arg; v.q = q; v.lo = lo; v.hi = hi; v.bounded = true;
  static const char *nm[] = {"", "sin", "cos", "exp", "log", "root"};
  v.name = std::string(nm[f]) + "#" + std::to_string(vars.size());
  if (f == F_ROOT) v.ruleq = q;
  vars.push_back(v);
  return vars.size() - 1;
}
static void sincos(RatFn const &arg, RatFn &s, RatFn &c);
static void sincos_mono(RatFn const &m, RatFn &s, RatFn &c) {
  u32 sv = atom(F_SIN, m, 0, -1, 1), cvv = atom(F_COS, m, 0, -1, 1);
  vars[sv].ruleq = 2; vars[sv].partner = cvv; vars[cvv].partner = sv;
  s.num = pvar(sv); s.den.clear(); c.num = pvar(cvv); c.den.clear();
}
static void sincos(RatFn const &arg, RatFn &s, RatFn &c) {
  bool expand = arg.den.empty() && arg.num.size() <= 4;
  if (expand) for (auto &t : arg.num) { if (t.first.empty()) continue; if (t.second.get_den() != 1 || abs(t.second) > 3) expand = false; }
  if (!expand) {
    RatFn a = arg; int sg = 1;
    if (!a.num.empty() && a.num.begin()->second < 0) { a = rneg(a); sg = -1; }
    sincos_mono(a, s, c);
    if (sg < 0) s = rneg(s);
    return;
  }
  s = rconst(0); c = rconst(1);
  for (auto &t : arg.num) {
    if (t.first.empty()) {
      double x = t.second.get_d();
      RatFn s1 = rconst(snap(std::sin(x))), c1 = rconst(snap(std::cos(x)));
      RatFn ns = radd(rmul(s, c1), rmul(c, s1)), nc = radd(rmul(c, c1), rmul(s, s1), -1);
      s = ns; c = nc;
      continue;
    }
    RatFn m; m.num[t.first] = 1;
    RatFn s1, c1; sincos_mono(m, s1, c1);
    int k = (int)t.second.get_d();
    if (k < 0) { s1 = rneg(s1); k = -k; }
    for (int i = 0; i < k; ++i) {
      RatFn ns = radd(rmul(s, c1), rmul(c, s1)), nc = radd(rmul(c, c1), rmul(s, s1), -1);
      s = ns; c = nc;
    }
  }
}
// the terms x if n is a sum of squares x*x: their numerators, with the leading coefficients (0 if there is a denominator)
static std::vector<std::pair<u32, double>> squares(u32 n) {
  std::vector<std::pair<u32, double>> out;
  std::vector<u32> st{n};
  while (!st.empty()) {
    u32 k = st.back(); st.pop_back();
    Node const &x = nodes[k];
    if (x.op == ADD) { st.push_back(x.a); st.push_back(x.b); continue; }
    if (x.op == CONST && x.cval == 0) continue;
    if (x.op != MUL || x.a != x.b || !nodes[x.a].rf) return {};
    Poly const &p = nodes[x.a].rf->num;
    if (p.empty()) continue;
    if (pisconst(p)) return {};
    mpq_class lc;
    u32 id = polyid(p, lc);
    out.push_back({id, nodes[x.a].rf->den.empty() ? lc.get_d() : 0});
  }
  return out;
}
// the range of the norm with these terms
static void normrange(std::vector<std::pair<u32, double>> const &terms, double &lo, double &hi) {
  double l = 0, h = 0;
  for (auto &t : terms) {
    double a = 0, b = INFINITY;
    if (t.second != 0) {
      pival(polys[t.first].p, a, b);
      a *= std::abs(t.second); b *= std::abs(t.second);
      double big = std::max(std::abs(a), std::abs(b));
      a = a > 0 ? a : b < 0 ? -b : 0; b = big;
    }
    l += a * a; h += b * b;
  }
  l = std::sqrt(l) * (1 - 1e-9); h = std::sqrt(h) * (1 + 1e-9);
  if (l > lo) lo = l;
  if (h < hi) hi = h;
}
static RatFn const &canon(u32 n0) {
  // iterative post-order
  std::vector<u32> st{n0};
  while (!st.empty()) {
    u32 n = st.back();
    if (nodes[n].rf) { st.pop_back(); continue; }
    u32 a = nodes[n].a, b = nodes[n].b;
    if (a && !nodes[a].rf) { st.push_back(a); continue; }
    if (b && !nodes[b].rf) { st.push_back(b); continue; }
    RatFn r;
    switch (nodes[n].op) {
    case CONST: r = rconst(nodes[n].val); break;
    case VAR: r.num = pvar(nodes[n].var); break;
    case ADD: r = radd(*nodes[a].rf, *nodes[b].rf); break;
    case SUB: r = radd(*nodes[a].rf, *nodes[b].rf, -1); break;
    case MUL: r = rmul(*nodes[a].rf, *nodes[b].rf); break;
    case DIV: r = rdiv(*nodes[a].rf, *nodes[b].rf); break;
    case NEG: r = rneg(*nodes[a].rf); break;
    case FN: {
      RatFn const &A = *nodes[a].rf;
      if (A.den.empty() && pisconst(A.num)) { // folded the way the program folds it
        mpq_class c = A.num.empty() ? mpq_class(0) : pconstval(A.num);
        double x = c.get_d(), v = NAN;
        switch (nodes[n].fn) {
        case F_SIN: v = std::sin(x); break;
        case F_COS: v = std::cos(x); break;
        case F_EXP: v = std::exp(x); break;
        case F_LOG: v = std::log(x); break;
        case F_ROOT: v = std::pow(x, 1 / nodes[b].cval); break;
        }
        if (std::isfinite(v)) { nodes[n].rf = std::make_shared<RatFn>(rconst(snapm(v))); st.pop_back(); continue; }
      }
      switch (nodes[n].fn) {
      case F_SIN: case F_COS: { RatFn s, c; sincos(A, s, c); r = nodes[n].fn == F_SIN ? s : c; break; }
      case F_EXP: {
        if (!A.num.empty() && A.num.begin()->second < 0) { u32 v = atom(F_EXP, rneg(A), 0, nodes[n].hi > 0 ? 1 / nodes[n].hi * (1 - 1e-14) : 0, nodes[n].lo > 0 ? 1 / nodes[n].lo * (1 + 1e-14) : INFINITY); RatFn t; t.num = pvar(v); r = rinv(t); }
        else r.num = pvar(atom(F_EXP, A, 0, nodes[n].lo, nodes[n].hi));
        break; }
      case F_LOG: r.num = pvar(atom(F_LOG, A, 0, nodes[n].lo, nodes[n].hi)); break;
      case F_ROOT: {
        u32 v = atom(F_ROOT, A, (int)nodes[b].cval, nodes[n].lo, nodes[n].hi);
        r.num = pvar(v);
        if (nodes[b].cval == 2 && vars[v].squares.empty()) {
          vars[v].squares = squares(a);
          if (!vars[v].squares.empty()) normrange(vars[v].squares, vars[v].lo, vars[v].hi);
        }
        break; }
      }
      break; }
    }
    nodes[n].rf = std::make_shared<RatFn>(std::move(r));
    st.pop_back();
  }
  return *nodes[n0].rf;
}

// ------------------------------------------------------------------ solver
struct Con { u32 poly; int mask; };
static std::vector<Con> pc;
struct Dec { u32 node; int mask; };
static std::vector<Dec> pcn; // the same in terms of nodes (for evaluation)
static z3::context *ctx;
static int g_unknown_pc = 0;

static z3::expr z3rat(z3::context &c, mpq_class const &q) { return c.real_val(q.get_str().c_str()); }
static std::string vname(u32 v) { return "v" + std::to_string(v); }
static z3::expr z3poly(z3::context &c, Poly const &p) {
  z3::expr_vector sum(c);
  for (auto &t : p) {
    z3::expr_vector fs(c);
    if (t.second != 1 || t.first.empty()) fs.push_back(z3rat(c, t.second));
    for (auto &ve : t.first) { z3::expr x = c.real_const(vname(ve.first).c_str()); for (int i = 0; i < ve.second; ++i) fs.push_back(x); }
    if (fs.size() == 1) sum.push_back(fs[0]);
    else { std::vector<Z3_ast> a; for (unsigned i = 0; i < fs.size(); ++i) a.push_back(fs[i]); sum.push_back(z3::to_expr(c, Z3_mk_mul(c, a.size(), a.data()))); }
  }
  if (sum.size() == 0) return c.real_val(0);
  if (sum.size() == 1) return sum[0];
  std::vector<Z3_ast> a; for (unsigned i = 0; i < sum.size(); ++i) a.push_back(sum[i]);
  return z3::to_expr(c, Z3_mk_add(c, a.size(), a.data()));
}
static z3::expr z3con(z3::context &c, Con const &k) {
  z3::expr e = z3poly(c, polys[k.poly].p), z = c.real_val(0);
  switch (k.mask) {
  case N: return e < z;
  case Z: return e == z;
  case P: return e > z;
  case N | Z: return e <= z;
  case Z | P: return e >= z;
  case N | P: return e != z;
  case 0: return c.bool_val(false);
  default: return c.bool_val(true);
  }
}
static void argvars(RatFn const &a, std::set<u32> &o) { for (auto &t : a.num) for (auto &ve : t.first) o.insert(ve.first); for (auto &d : a.den) for (u32 v : polys[d.first].vs) o.insert(v); }
// axioms of an atom, as polynomial constraints
static void axioms(u32 v, std::vector<Con> &out) {
  Var const V = vars[v];
  if (V.kind != ATOM) return;
  mpq_class lc;
  if (V.fn == F_SIN || V.fn == F_COS) {
    u32 s = V.fn == F_SIN ? v : V.partner, c = V.fn == F_SIN ? V.partner : v;
    Poly p = padd(padd(pmul(pvar(s), pvar(s)), pmul(pvar(c), pvar(c))), pconst(1), -1);
    out.push_back({polyid(p, lc), Z});
  } else if (V.fn == F_ROOT && V.q <= 4) {
    Poly ad = pconst(1);
    for (auto &d : V.arg.den) ad = pmul(ad, ppow(polys[d.first].p, d.second));
    Poly p = padd(pmul(ppow(pvar(v), V.q), ad), V.arg.num, -1);
    if (!p.empty()) out.push_back({polyid(p, lc), Z});
    out.push_back({polyid(pvar(v), lc), Z | P});
  } else if (V.fn == F_ROOT) {
    out.push_back({polyid(pvar(v), lc), Z | P});
  } else if (V.fn == F_EXP) {
    out.push_back({polyid(pvar(v), lc), P});
  }
}
enum Res { UNSAT, SAT, UNKNOWN };
using Model = std::map<u32, double>;
static double z3num(z3::expr const &v) {
  if (v.is_numeral()) { std::string s = v.get_decimal_string(25); if (!s.empty() && s.back() == '?') s.pop_back(); return strtod(s.c_str(), nullptr); }
  if (v.is_algebraic()) { std::string s = v.get_decimal_string(25); if (!s.empty() && s.back() == '?') s.pop_back(); return strtod(s.c_str(), nullptr); }
  return 0;
}
static Res solve(std::vector<Con> const &cs, std::set<u32> const &vs, Model *m, unsigned timeout) {
  double t0 = now();
  S->queries++;
  bool lin = true;
  for (auto &c : cs) lin &= polys[c.poly].linear;
  Res r = UNKNOWN;
  try {
    z3::context c;
    z3::solver s = lin ? z3::solver(c, "QF_LRA") : z3::solver(c, "QF_NRA");
    z3::params p(c); p.set("timeout", timeout); s.set(p);
    for (u32 v : vs) {
      z3::expr x = c.real_const(vname(v).c_str());
      if (std::isfinite(vars[v].lo)) s.add(x >= z3rat(c, mpq_class(vars[v].lo)));
      if (std::isfinite(vars[v].hi)) s.add(x <= z3rat(c, mpq_class(vars[v].hi)));
    }
    for (auto &k : cs) {
      s.add(z3con(c, k));
      // no entry is larger than its norm
      if (k.mask & P || polys[k.poly].vs.size() != 1 || !polys[k.poly].linear) continue;
      u32 v = polys[k.poly].vs[0];
      if (vars[v].squares.empty()) continue;
      Poly m = padd(polys[k.poly].p, pvar(v), -1);
      if (!m.empty() && !pisconst(m)) continue;
      mpq_class most = m.empty() ? mpq_class(0) : mpq_class(-m.begin()->second);
      for (auto &q : vars[v].squares)
        if (most == 0) s.add(z3con(c, {q.first, Z}));
        else if (q.second != 0) {
          z3::expr e = z3poly(c, polys[q.first].p), b = z3rat(c, most / mpq_class(std::abs(q.second)) * mpq_class(1000001, 1000000));
          s.add(e <= b && e >= -b);
        }
    }
    z3::check_result cr = s.check();
    r = cr == z3::sat ? SAT : cr == z3::unsat ? UNSAT : UNKNOWN;
    if (r == SAT && m) {
      z3::model mm = s.get_model();
      for (u32 v : vs) { z3::expr e = mm.eval(c.real_const(vname(v).c_str()), true); (*m)[v] = z3num(e); }
    }
  } catch (z3::exception &e) { r = UNKNOWN; if (verbose) fprintf(stderr, "z3: %s\n", e.msg()); }
  double dt = now() - t0;
  S->solver_us += (long)(dt * 1e6);
  if (r == SAT) S->q_sat++; else if (r == UNSAT) S->q_unsat++; else S->q_unknown++;
  if (dt > 2 && verbose) fprintf(stderr, "[%d] slow query %.1fs r=%d cons=%zu vars=%zu\n", getpid(), dt, r, cs.size(), vs.size());
  return r;
}
// cone of influence of a set of variables
static void cone(std::set<u32> vs, std::vector<Con> &cs, std::set<u32> &out, std::vector<Con> const &base) {
  std::vector<char> used(pc.size(), 0);
  std::set<u32> done;
  std::set<std::pair<u32, int>> have;
  for (auto &b : base) have.insert({b.poly, b.mask});
  auto push = [&](Con const &c) { if (have.insert({c.poly, c.mask}).second) cs.push_back(c); for (u32 v : polys[c.poly].vs) vs.insert(v); };
  cs = base;
  bool ch = true;
  while (ch) {
    ch = false;
    std::vector<u32> todo;
    for (u32 v : vs) if (!done.count(v)) todo.push_back(v);
    for (u32 v : todo) {
      done.insert(v); ch = true;
      std::vector<Con> ax; axioms(v, ax);
      for (auto &a : ax) push(a);
      if (vars[v].kind == ATOM && vars[v].fn == F_ROOT) argvars(vars[v].arg, vs);
    }
    for (size_t i = 0; i < pc.size(); ++i) {
      if (used[i]) continue;
      bool hit = false;
      for (u32 v : polys[pc[i].poly].vs) if (vs.count(v)) { hit = true; break; }
      if (hit) { used[i] = 1; push(pc[i]); ch = true; }
    }
  }
  out = vs;
}
static Res query(std::vector<Con> const &extra, Model *m = nullptr, bool deep = false) {
  std::set<u32> vs, all;
  for (auto &e : extra) { if (e.mask == 0) return UNSAT; for (u32 v : polys[e.poly].vs) vs.insert(v); }
  std::vector<Con> cs;
  cone(vs, cs, all, extra);
  Res r = solve(cs, all, m, q_timeout_ms);
  if (r == UNKNOWN && deep) r = solve(cs, all, m, q_timeout2_ms);
  return r;
}
// model of the whole path condition plus extra: solve the independent components one by one
static Res fullmodel(std::vector<Con> const &extra, Model &m) {
  std::set<u32> rest;
  for (u32 v = 0; v < vars.size(); ++v) if (vars[v].kind == INPUT) rest.insert(v);
  std::set<u32> vs, all;
  std::vector<Con> cs;
  if (!extra.empty()) {
    for (auto &e : extra) for (u32 v : polys[e.poly].vs) vs.insert(v);
    cone(vs, cs, all, extra);
    Res r = solve(cs, all, &m, q_timeout_ms);
    if (r != SAT) return r;
    for (u32 v : all) rest.erase(v);
  }
  while (!rest.empty()) {
    u32 v = *rest.begin();
    std::set<u32> a2; std::vector<Con> c2;
    cone({v}, c2, a2, {});
    if (c2.empty()) { double lo = vars[v].lo, hi = vars[v].hi; m[v] = std::isfinite(lo) && std::isfinite(hi) ? lo + (hi - lo) * (0.3 + 0.4 * ((v * 2654435761u) % 1000) / 1000.0) : std::isfinite(lo) ? lo + 1 : std::isfinite(hi) ? hi - 1 : 0.7 + v % 7; rest.erase(v); continue; }
    Res r = solve(c2, a2, &m, q_timeout_ms);
    if (r != SAT) return r;
    for (u32 w : a2) rest.erase(w);
    rest.erase(v);
  }
  return SAT;
}

// ------------------------------------------------------------------ evaluation with concrete inputs
// in plain double, operation by operation, as the native program computes it
static inline double evalop(Node const &x, double a, double b, Model const &m) {
  switch (x.op) {
  case CONST: return x.cval;
  case VAR: { auto it = m.find(x.var); return it == m.end() ? 0 : it->second; }
  case ADD: return a + b;
  case SUB: return a - b;
  case MUL: return a * b;
  case DIV: return a / b;
  case NEG: return -a;
  case FN: switch (x.fn) { case F_SIN: return std::sin(a); case F_COS: return std::cos(a); case F_EXP: return std::exp(a); case F_LOG: return std::log(a); case F_ROOT: return b == 2 ? std::sqrt(a) : b == 3 ? std::cbrt(a) : std::pow(a, 1 / b); } break;
  }
  return 0;
}
static void evalnode(u32 n0, Model const &m, std::vector<double> &val, std::vector<char> &have) {
  if (val.size() < nodes.size()) { val.resize(nodes.size()); have.resize(nodes.size()); }
  std::vector<u32> st{n0};
  while (!st.empty()) {
    u32 n = st.back();
    if (have[n]) { st.pop_back(); continue; }
    Node const &x = nodes[n];
    if (x.a && !have[x.a]) { st.push_back(x.a); continue; }
    if (x.b && !have[x.b]) { st.push_back(x.b); continue; }
    val[n] = evalop(x, x.a ? val[x.a] : 0, x.b ? val[x.b] : 0, m); have[n] = 1;
    st.pop_back();
  }
}
static bool signok(double v, int mask) { if (std::isnan(v)) return false; return v < 0 ? mask & N : v > 0 ? mask & P : mask & Z; }
struct Eval {
  std::vector<double> val; std::vector<char> have; Model const &m;
  Eval(Model const &m_) : m(m_) {}
  ld operator()(u32 n) { evalnode(n, m, val, have); return val[n]; }
};
static bool pcholds(Eval &E) {
  for (auto &d : pcn) if (!signok((double)E(d.node), d.mask)) return false;
  return true;
}
// Equalities on the path (a branch taken for a sum that is exactly zero, say) hold for the solver's rational model but seldom
// for its rounding.  Repair solves each of them for one input in double arithmetic, down to the last bit.
struct Repair {
  struct Eq { u32 node; std::vector<u32> dag, ins; };
  std::vector<Eq> eqs;
  std::vector<double> val;
  Repair() {
    std::set<u32> seen;
    for (auto &d : pcn) {
      if (d.mask != Z || !seen.insert(d.node).second) continue;
      Eq e; e.node = d.node;
      std::set<u32> in; std::vector<u32> st{d.node};
      while (!st.empty()) {
        u32 n = st.back(); st.pop_back();
        if (!in.insert(n).second) continue;
        Node const &x = nodes[n];
        if (x.op == VAR && vars[x.var].kind == INPUT && !vars[x.var].choice) e.ins.push_back(x.var);
        if (x.a) st.push_back(x.a);
        if (x.b) st.push_back(x.b);
      }
      e.dag.assign(in.begin(), in.end());
      eqs.push_back(std::move(e));
    }
  }
  double f(Eq const &e, Model const &m) {
    if (val.size() < nodes.size()) val.resize(nodes.size());
    for (u32 n : e.dag) { Node const &x = nodes[n]; val[n] = evalop(x, x.a ? val[x.a] : 0, x.b ? val[x.b] : 0, m); }
    return val[e.node];
  }
  bool solve(Eq const &e, Model &m, u32 v) {
    double lo = vars[v].lo, hi = vars[v].hi, keep = m[v];
    auto at = [&](double x) { m[v] = x; return f(e, m); };
    double x = keep, fx = at(x);
    if (fx == 0) return true;
    double h = std::max(std::fabs(x), 1.0) * 1e-6;
    for (int i = 0; i < 40; ++i) {
      double y = x + h > hi ? x - h : x + h, fy = at(y);
      if (fy == 0) return y >= lo && y <= hi;
      double s = (fy - fx) / (y - x);
      if (!(std::fabs(s) > 0) || !std::isfinite(s)) break;
      double nx = x - fx / s;
      if (!(nx >= lo && nx <= hi)) break;
      double fn = at(nx);
      if (fn == 0) return true;
      if (std::fabs(fn) >= std::fabs(fx)) { // as close as the slope tells: try the neighbours
        for (int dir = 0; dir < 2; ++dir) {
          double z = x;
          for (int k = 0; k < 16; ++k) {
            z = std::nextafter(z, dir ? INFINITY : -INFINITY);
            if (z < lo || z > hi) break;
            if (at(z) == 0) return true;
          }
        }
        break;
      }
      x = nx; fx = fn; h = std::max(std::fabs(x) * 1e-9, std::min(h, std::fabs(fx / s)) + 1e-300);
    }
    m[v] = keep;
    return false;
  }
  bool operator()(Model &m) {
    std::set<u32> locked;
    bool all = true;
    for (size_t i = 0; i < eqs.size(); ++i) {
      Eq &e = eqs[i];
      if (f(e, m) == 0) continue;
      std::vector<u32> order;
      for (int pass = 0; pass < 2; ++pass)
        for (u32 v : e.ins) {
          bool used = false;
          for (size_t j = 0; j < i && !used; ++j) used = std::find(eqs[j].ins.begin(), eqs[j].ins.end(), v) != eqs[j].ins.end();
          if (used == (pass == 1)) order.push_back(v);
        }
      bool ok = false;
      for (u32 v : order) if (!locked.count(v) && solve(e, m, v)) { locked.insert(v); ok = true; break; }
      all &= ok;
    }
    return all;
  }
};

// ------------------------------------------------------------------ paths
static std::vector<pid_t> kids;
static bool holdtoken = false;
static std::vector<std::pair<std::string, std::string>> choices_log;
struct Obs { std::string label; u32 a, b; double ca, cb; bool two; };
static std::vector<Obs> observations;
static std::string current_label = "start";
static bool ended = false;
static bool incomplete_path = false;

static void waitkids() { for (pid_t k : kids) { int st; while (waitpid(k, &st, 0) < 0 && errno == EINTR) {} } kids.clear(); }
[[noreturn]] static void endpath(int code) {
  ended = true;
  long n = nodes.size(), o = S->maxnodes;
  while (n > o && !S->maxnodes.compare_exchange_weak(o, n)) {}
  if (holdtoken) { S->tokens++; holdtoken = false; }
  waitkids();
  _exit(code);
}
static void inconclusive(std::string const &what) {
  S->inconclusive++;
  incomplete_path = true;
  logline("{\"kind\":\"inconclusive\",\"what\":\"" + esc(what) + "\",\"at\":\"" + esc(current_label) + "\"}");
}
// a working directory of its own for every path (sx_private_dir): copied before the process forks
static std::string privdir;
static int privcount = 0;
static void runcmd(std::vector<std::string> a) {
  pid_t p = vfork();
  if (p == 0) { std::vector<char *> v; for (auto &x : a) v.push_back(&x[0]); v.push_back(nullptr); execvp(v[0], v.data()); _exit(127); }
  int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (p < 0 || st) inconclusive("private directory: " + a[0] + " failed");
}
static std::string newprivdir() { return privdir + "/p" + std::to_string(getpid()) + "-" + std::to_string(privcount++); }
// files open below the directory left behind are opened again in the copy, at the same position
static off_t positions[64]; // before the fork: the parent goes on with the same offsets
static void rememberpositions() { for (int fd = 3; fd < 64; ++fd) positions[fd] = lseek(fd, 0, SEEK_CUR); }
static void moveto(std::string const &copy) {
  char b[4096];
  std::string old = getcwd(b, sizeof b) ? b : "?";
  if (chdir(copy.c_str())) { inconclusive("private directory lost"); return; }
  for (int fd = 3; fd < 64; ++fd) {
    ssize_t n = readlink(("/proc/self/fd/" + std::to_string(fd)).c_str(), b, sizeof b - 1);
    if (n <= 0) continue;
    b[n] = 0;
    std::string at = b;
    if (at.compare(0, old.size() + 1, old + "/")) continue;
    int fl = fcntl(fd, F_GETFL), df = fcntl(fd, F_GETFD);
    off_t pos = positions[fd];
    int nf = (int)syscall(SYS_openat, AT_FDCWD, (copy + at.substr(old.size())).c_str(), fl & (O_ACCMODE | O_APPEND | O_DIRECTORY | O_NONBLOCK), 0);
    if (nf < 0) { inconclusive("open file lost: " + at); continue; }
    if (pos >= 0) lseek(nf, pos, SEEK_SET);
    dup2(nf, fd); syscall(SYS_close, nf); fcntl(fd, F_SETFD, df);
  }
}
// returns true in the child
static bool dofork() {
  std::string copy;
  if (S->stop || now() > deadline) { if (now() > deadline) { S->timeouts++; } endpath(3); }
  S->forks++;
  bool par = false;
  long t = S->tokens;
  while (t > 0) if (S->tokens.compare_exchange_weak(t, t - 1)) { par = true; break; }
  if (!privdir.empty()) { copy = newprivdir(); runcmd({"cp", "-a", ".", copy}); rememberpositions(); }
  pid_t p = fork();
  if (p < 0) {
    if (par) S->tokens++;
    inconclusive("fork failed"); endpath(3);
  }
  if (p == 0) {
    kids.clear(); holdtoken = par;
    if (!copy.empty()) moveto(copy);
    return true;
  }
  if (par) {
    kids.push_back(p);
    // reap finished ones
    for (size_t i = 0; i < kids.size();) { int st; if (waitpid(kids[i], &st, WNOHANG) > 0) { kids[i] = kids.back(); kids.pop_back(); } else ++i; }
  } else { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} }
  return false;
}
static void know(u32 poly, int mask) {
  int old = polys[poly].mask;
  polys[poly].mask &= mask;
  if (polys[poly].mask != old) pc.push_back({poly, polys[poly].mask});
}
static std::string show(Poly const &p, size_t most = 400) {
  std::ostringstream o;
  for (auto &t : p) {
    o << (t.second < 0 ? " " : " +") << t.second.get_d();
    for (auto &ve : t.first) { o << "*" << (vars[ve.first].name.empty() ? "v" + std::to_string(ve.first) : vars[ve.first].name); if (ve.second != 1) o << "^" << ve.second; }
    if ((size_t)o.tellp() > most) { o << " ..."; break; }
  }
  return o.str();
}
static std::map<std::string, int> forkstat;
// decide a polynomial sign
static bool decidePoly(u32 id, int T) {
  int m = polys[id].mask;
  if (!(m & ~T)) return true;
  if (!(m & T)) return false;
  if (now() > deadline) { S->timeouts++; endpath(3); }
  S->branches++;
  Res rt = query({{id, m & T}});
  if (rt == UNSAT) { know(id, m & ~T); return false; }
  Res rf = query({{id, m & ~T}});
  if (rf == UNSAT) { know(id, m & T); return true; }
  if (rt == UNKNOWN || rf == UNKNOWN) {
    g_unknown_pc++;
    if (verbose && getenv("SX_FORKS")) fprintf(stderr, "[%d] unknown %d %d: %s\n", getpid(), rt, rf, show(polys[id].p).c_str());
    if (verbose && getenv("SX_FORKS")) for (u32 v : polys[id].vs) for (auto &q : vars[v].squares) fprintf(stderr, "   %s: %g %s\n", vname(v).c_str(), q.second, show(polys[q.first].p).c_str());
  }
  bool child = dofork();
  // the parent takes the true side last so that the child explores the other one
  bool res = !child;
  know(id, res ? m & T : m & ~T);
  return res;
}
// sign of factor f (non-zero assumed)
static int factorSign(u32 f) {
  if (polys[f].mask & Z) { know(f, N | P); }
  int m = polys[f].mask;
  if (m == P) return 1;
  if (m == N) return -1;
  return decidePoly(f, P) ? 1 : -1;
}
// reduce node d to (sign, polynomial); returns false if constant with sign in *cs
static bool signpoly(u32 d, int &s, u32 &id, int &cs) {
  RatFn const r = canon(d);
  s = 1;
  if (r.num.empty()) { cs = 0; return false; }
  for (auto &f : r.den) if (f.second % 2) s *= factorSign(f.first);
  Poly p = r.num;
  // strip variables of known non-zero sign
  std::map<u32, int> cont; bool first = true;
  for (auto &t : p) {
    std::map<u32, int> mm; for (auto &ve : t.first) mm[ve.first] = ve.second;
    if (first) { cont = mm; first = false; }
    else for (auto it = cont.begin(); it != cont.end();) { auto j = mm.find(it->first); if (j == mm.end()) it = cont.erase(it); else { it->second = std::min(it->second, j->second); ++it; } }
    if (cont.empty()) break;
  }
  Mono strip;
  for (auto &ce : cont) {
    mpq_class lc; u32 vi = polyid(pvar(ce.first), lc);
    int m = polys[vi].mask;
    if (m == P) strip.push_back(ce);
    else if (m == N) { strip.push_back(ce); if (ce.second % 2) s = -s; }
    else if (ce.second >= 3) { strip.push_back({ce.first, ce.second % 2 ? ce.second - 1 : ce.second - 2}); }
  }
  if (!strip.empty()) { Poly q; Mono k; for (auto &t : p) { mdiv(t.first, strip, k); q[k] = t.second; } p.swap(q); }
  if (pisconst(p)) { cs = sgn(pconstval(p)) * s; return false; }
  mpq_class lc;
  id = polyid(p, lc);
  if (lc < 0) s = -s;
  return true;
}
static int flip(int m) { return (m & N ? P : 0) | (m & Z) | (m & P ? N : 0); }
static bool decide(u32 d, int T, const char *loc) {
  Node const &n = nodes[d];
  int poss = N | Z | P;
  if (n.op == CONST) { int s = sgn(n.val); return T & (s < 0 ? N : s > 0 ? P : Z); }
  if (n.lo > 0) poss = P; else if (n.hi < 0) poss = N; else if (n.lo >= 0) poss = Z | P; else if (n.hi <= 0) poss = N | Z;
  if (!(poss & ~T)) return true;
  if (!(poss & T)) return false;
  int s, cs; u32 id;
  bool r;
  size_t before = pc.size();
  if (!signpoly(d, s, id, cs)) r = T & (cs < 0 ? N : cs > 0 ? P : Z);
  else {
    if (poss != (N | Z | P)) know(id, s > 0 ? poss : flip(poss));
    long f0 = S->forks;
    r = decidePoly(id, s > 0 ? T : flip(T));
    if (verbose && S->forks != f0 && getenv("SX_FORKS")) { forkstat[loc]++; fprintf(stderr, "[%d] fork %s\n", getpid(), loc); if (getenv("SX_FORKS")[0] == '2') fprintf(stderr, "  %s\n", show(polys[id].p).c_str()); }
  }
  (void)before;
  pcn.push_back({d, r ? T : (N | Z | P) & ~T});
  return r;
}

static std::set<std::string> assumed;
static void assume_nonzero(u32 n, const char *loc) {
  if (nodes[n].op == CONST) return;
  if (nodes[n].lo > 0 || nodes[n].hi < 0) return;
  RatFn const r = canon(n);
  if (r.num.empty()) return;
  std::map<u32, int> f; mpq_class c;
  factorize(r.num, f, c);
  for (auto &k : f) {
    if (!(polys[k.first].mask & Z)) continue;
    S->branches++;
    Res q = query({{k.first, Z}});
    if (q == UNSAT) { know(k.first, N | P); continue; }
    know(k.first, N | P);
    if (assumed.insert(loc).second) logline(std::string("{\"kind\":\"assume\",\"what\":\"denominator is not zero\",\"loc\":\"") + esc(loc) + "\"}");
  }
  pcn.push_back({n, N | P});
}

// ------------------------------------------------------------------ witnesses and violations
static std::string num(double x) { char b[64]; snprintf(b, sizeof b, "%.17g", x); return b; }
static std::string writewitness(Model const &m, std::string const &kind, std::string const &label, std::vector<Obs> const *obs) {
  static std::atomic<int> *dummy = nullptr; (void)dummy;
  std::string fn = outdir + "/" + kind + "-" + std::to_string(getpid()) + "-" + std::to_string(observations.size()) + ".txt";
  FILE *f = fopen(fn.c_str(), "w");
  if (!f) return "";
  fprintf(f, "harness %s\nlabel %s\n", hname.c_str(), label.c_str());
  for (u32 v = 0; v < vars.size(); ++v)
    if (vars[v].kind == INPUT) { auto it = m.find(v); fprintf(f, "var %s %s\n", vars[v].name.c_str(), num(it == m.end() ? 0 : it->second).c_str()); }
  for (auto &c : choices_log) fprintf(f, "choice %s %s\n", c.first.c_str(), c.second.c_str());
  if (obs) {
    Eval E(m);
    for (auto &o : *obs) {
      ld a = o.a ? E(o.a) : (ld)o.ca, b = o.b ? E(o.b) : (ld)o.cb;
      if (o.two) fprintf(f, "obs2 %s %s %s\n", num((double)a).c_str(), num((double)b).c_str(), o.label.c_str());
      else fprintf(f, "obs1 %s %s\n", num((double)a).c_str(), o.label.c_str());
    }
  }
  fclose(f);
  return fn;
}
static double tol_rel = 1e-7, tol_abs = 1e-10;
// search near a solver model for a point on this path with a clearly visible violation (the verdict itself is the solver's)
static double viol_amount(Eval &E, u32 a, u32 b, double ca, double cb, int mode) {
  ld x = a ? E(a) : (ld)ca, y = b ? E(b) : (ld)cb;
  if (std::isnan(x) || std::isnan(y)) return -1;
  ld d = mode == 0 ? fabsl(x - y) : x - y; // 0: eq, 1: le, 2: lt
  return (double)((mode == 0 && d > 0 ? d - 2 * (ld)tol_abs : d) / (1e-9L + fabsl(x) + fabsl(y)));
}
static bool improve(Model &m, u32 a, u32 b, double ca, double cb, int mode, double want) {
  std::mt19937_64 rng(12345);
  double best = -1;
  Repair repair;
  if (!repair.eqs.empty()) { Eval E(m); if (!pcholds(E)) repair(m); }
  Model bm = m;
  { Eval E(m); if (pcholds(E)) best = viol_amount(E, a, b, ca, cb, mode); }
  if (best > want) return true;
  std::vector<u32> in;
  for (u32 v = 0; v < vars.size(); ++v) if (vars[v].kind == INPUT && !vars[v].choice) in.push_back(v);
  if (in.empty()) return best > want;
  double t0 = now();
  Model base = m;
  for (int it = 0; it < 20000 && now() - t0 < 5; ++it) {
    Model t = (it % 3 && best >= 0) ? bm : base;
    double scale = std::pow(10.0, -(double)(it % 7));
    for (u32 v : in) {
      if (it % 2 && (rng() & 3)) continue;
      double u = std::uniform_real_distribution<double>(-1, 1)(rng);
      double lo = vars[v].lo, hi = vars[v].hi;
      double w = std::isfinite(lo) && std::isfinite(hi) ? (hi - lo) : 10;
      double x = t[v] + u * w * scale;
      if (x < lo) x = lo; if (x > hi) x = hi;
      t[v] = x;
    }
    if (!repair.eqs.empty() && !repair(t)) continue;
    Eval E(t);
    if (!pcholds(E)) continue;
    double am = viol_amount(E, a, b, ca, cb, mode);
    if (am > best) { best = am; bm = t; if (best > 1e-2) break; }
  }
  m = bm;
  return best > want;
}
static void report_violation(Model const &m, std::string const &label, std::string const &detail, bool confirmed) {
  long k = ++S->violations;
  std::string f = writewitness(m, "viol", label, &observations);
  logline("{\"kind\":\"violation\",\"label\":\"" + esc(label) + "\",\"file\":\"" + esc(f) + "\",\"detail\":\"" + esc(detail) + "\",\"eval_confirmed\":" + (confirmed ? "true" : "false") + "}");
  if (k >= maxviol) S->stop = 1;
}
// mode 0: a==b, 1: a<=b, 2: a<b
static double magnitude(RatFn const &r) {
  double lo, hi; pival(r.num, lo, hi);
  double m = std::max(std::fabs(lo), std::fabs(hi));
  for (auto &d : r.den) {
    pival(polys[d.first].p, lo, hi);
    double w = lo > 0 ? lo : hi < 0 ? -hi : 0;
    if (w == 0) return INFINITY;
    for (int i = 0; i < d.second; ++i) m /= w;
  }
  return std::isnan(m) ? INFINITY : m * (1 + 1e-12);
}
// Concrete constants (1/3, say) carry rounding errors, which the code under test and the specification need not share.  The
// difference r of a and b is such noise if its coefficients are negligible against those of a or b over a common denominator.
static bool noise(RatFn const &r, u32 a, u32 b) {
  auto expand = [](std::map<u32, int> const &den) { Poly p = pconst(1); for (auto &f : den) p = pmul(p, ppow(polys[f.first].p, f.second)); return p; };
  auto size = [](Poly const &p) {
    double s = 0;
    for (auto &t : p) {
      double v = std::fabs(t.second.get_d());
      for (auto &m : t.first) v *= std::pow(std::max(std::fabs((double)vars[m.first].lo), std::fabs((double)vars[m.first].hi)), m.second);
      s += v;
    }
    return s;
  };
  try {
    Poly dr = expand(r.den);
    for (u32 w : {a, b}) {
      RatFn const &R = canon(w);
      Poly x = pmul(r.num, expand(R.den)), y = pmul(R.num, dr);
      bool each = !y.empty();
      for (auto &t : x) {
        auto it = y.find(t.first);
        if (it == y.end() || abs(t.second) > abs(it->second) * mpq_class(1e-11)) { each = false; break; }
      }
      if (each) return true;
      double sx = size(x), sy = size(y);
      if (std::isfinite(sy) && sx <= 1e-13 * sy) return true;
    }
  } catch (Blowup &) {}
  return false;
}
static void check_rel(u32 a, u32 b, double ca, double cb, int mode, std::string const &label) {
  current_label = label;
  S->a_total++;
  observations.push_back({label, a, b, ca, cb, true});
  if (!a && !b) {
    S->a_concrete++;
    double d = mode == 0 ? std::fabs(ca - cb) : ca - cb;
    bool bad = std::isnan(d) ? !(ca == cb) : (mode == 2 ? d >= 0 : d > tol_abs + tol_rel * (std::fabs(ca) + std::fabs(cb)));
    if (bad) {
      Model m; Res r = fullmodel({}, m);
      if (r == UNSAT) { S->deadpaths++; endpath(4); }
      if (r == UNKNOWN) { inconclusive("path feasibility unknown at a concrete failure"); endpath(3); }
      { Eval E(m); if (!pcholds(E)) improve(m, 0, 0, 1, 0, 0, 0.5); }
      report_violation(m, label, "concrete values " + num(ca) + " and " + num(cb), true);
      endpath(1);
    }
    return;
  }
  if ((!a && !std::isfinite(ca)) || (!b && !std::isfinite(cb))) {
    // comparison of a finite symbolic value with a non-finite concrete one
    bool ok = mode != 0 && ((!b && cb == INFINITY) || (!a && ca == -INFINITY));
    S->a_concrete++;
    if (!ok) {
      Model m; Res r = fullmodel({}, m);
      if (r == UNSAT) { S->deadpaths++; endpath(4); }
      if (r == UNKNOWN) { inconclusive("path feasibility unknown"); endpath(3); }
      report_violation(m, label, "non-finite value " + num(a ? cb : ca), true);
      endpath(1);
    }
    return;
  }
  u32 na = a ? a : fromdouble(ca), nb = b ? b : fromdouble(cb);
  u32 d = mksub(na, nb);
  RatFn r;
  try { r = canon(d); } catch (Blowup &e) { inconclusive(std::string("normal form too large: ") + e.what()); return; }
  if (r.num.empty() && mode != 2) { S->a_identity++; S->queries++; S->q_unsat++; return; }
  if (mode != 0) {
    int s, cs; u32 id;
    if (!signpoly(d, s, id, cs)) { if (cs < 0 || (cs == 0 && mode == 1)) { S->a_identity++; return; } }
    else {
      int badmask = mode == 1 ? P : P | Z;
      if (nodes[d].hi < 0 || (mode == 1 && nodes[d].hi <= 0)) { S->a_interval++; return; }
      if (s < 0) badmask = flip(badmask);
      if (!(polys[id].mask & badmask)) { S->a_interval++; return; }
      Model m;
      Res q = query({{id, polys[id].mask & badmask}}, nullptr, true);
      if (q == UNSAT) { S->a_solver++; return; }
    }
  } else {
    int s, cs; u32 id;
    if (noise(r, na, nb)) { S->a_identity++; S->queries++; S->q_unsat++; return; }
    if (signpoly(d, s, id, cs)) {
      Res q = query({{id, polys[id].mask & (N | P)}}, nullptr, true);
      if (q == UNSAT) { S->a_solver++; return; }
    }
    // difference negligible for all values in the bounds?
    double mag = std::max(std::fabs(nodes[d].lo), std::fabs(nodes[d].hi));
    if (mag <= tol_abs) { S->a_interval++; return; }
    if (magnitude(r) <= tol_abs) { S->a_interval++; return; }
    for (u32 w : {na, nb}) {
      try { RatFn const &R = canon(w); if (!R.num.empty() && magnitude(rdiv(r, R)) <= tol_rel) { S->a_interval++; return; } } catch (Blowup &) {}
    }
  }
  // the solver found (or could not exclude) a violation: look for one that is visible in double arithmetic
  double want = mode == 2 ? -1e-300 : 10 * tol_rel;
  Model m;
  std::vector<Con> extra;
  {
    // margin query: d > t (or d < -t)
    int s, cs; u32 id;
    mpq_class t(mode == 2 ? 0.0 : tol_abs * 10 + 1e-6 * std::min(1.0, std::max(std::fabs(nodes[na].lo), std::fabs(nodes[na].hi))));
    Res r1 = UNKNOWN;
    bool ok = false;
    for (int side = 0; side < (mode == 0 ? 2 : 1) && !ok; ++side) {
      u32 dd = side == 0 ? mksub(d, mkconst(t)) : mksub(mkneg(d), mkconst(t));
      Model mm;
      if (signpoly(dd, s, id, cs)) { extra = {{id, s > 0 ? P : N}}; if (mode == 2) extra[0].mask |= Z; r1 = fullmodel(extra, mm); }
      else r1 = (cs > 0 || (mode == 2 && cs == 0)) ? fullmodel({}, mm) : UNSAT;
      if (r1 == SAT) { m = mm; ok = true; }
    }
    if (!ok) {
      // no violation larger than the margin
      if (signpoly(d, s, id, cs)) { extra = {{id, mode == 0 ? N | P : s > 0 ? P : N}}; r1 = fullmodel(extra, m); }
    }
  }
  bool conf = improve(m, na, nb, 0, 0, mode, want);
  if (conf) {
    Eval E(m);
    report_violation(m, label, "values " + num((double)E(na)) + " and " + num((double)E(nb)), true);
    endpath(1);
  }
  // difference below the tolerance everywhere?
  if (mode == 0) {
    // |d|^2 > (abs + rel*|a|)^2, split by sign of a
    u32 t2 = mkadd(mkconst(mpq_class(tol_abs * tol_abs)), mkmul(mkconst(mpq_class(tol_rel * tol_rel)), mkadd(mkmul(na, na), mkmul(nb, nb))));
    u32 g = mksub(mkmul(d, d), t2);
    int s, cs; u32 id;
    bool open = true;
    if (!signpoly(g, s, id, cs)) open = cs > 0;
    else { Res q = query({{id, s > 0 ? P : N}}, nullptr, true); open = q != UNSAT; }
    if (!open) { S->a_solver++; return; }
  }
  if (mode == 1) {
    u32 t = mkconst(mpq_class(tol_abs * 10));
    u32 g = mksub(d, t);
    int s, cs; u32 id;
    bool open = true;
    if (!signpoly(g, s, id, cs)) open = cs > 0;
    else { Res q = query({{id, s > 0 ? P : N}}, nullptr, true); open = q != UNSAT; }
    if (!open) { S->a_solver++; return; }
  }
  Model m2; Res fr = fullmodel({}, m2);
  if (fr == UNSAT) { S->deadpaths++; endpath(4); }
  inconclusive("equality/inequality neither proved nor refuted visibly: " + label);
}

// ------------------------------------------------------------------ shadow memory
struct Page { u32 id[512]; u64 bits[512]; };
static std::unordered_map<u64, Page *> pages;
static u64 lastkey = ~0ull; static Page *lastpage = nullptr;
static uint8_t bloom[1 << 16];
static inline Page *page(u64 a) {
  u64 k = a >> 12;
  if (k == lastkey) return lastpage;
  if (!bloom[(k ^ (k >> 16)) & 0xffff]) return nullptr;
  auto it = pages.find(k);
  Page *p = it == pages.end() ? nullptr : it->second;
  if (p) { lastkey = k; lastpage = p; }
  return p;
}
static Page *mkpage(u64 a) {
  if (Page *p = page(a)) return p;
  u64 k = a >> 12;
  Page *p = (Page *)calloc(1, sizeof(Page));
  pages[k] = p; bloom[(k ^ (k >> 16)) & 0xffff] = 1;
  lastkey = k; lastpage = p;
  return p;
}
API u32 __sx_load(void *p, u64 bits) {
  Page *g = page((u64)p);
  if (!g) return 0;
  u32 i = ((u64)p >> 3) & 511;
  u32 id = g->id[i];
  if (!id) return 0;
  if (g->bits[i] != bits || ((u64)p & 7)) { return 0; }
  return id;
}
API void __sx_store(void *p, u64 bits, u32 id) {
  if (!id) { Page *g = page((u64)p); if (g) g->id[((u64)p >> 3) & 511] = 0; return; }
  if ((u64)p & 7) { inconclusive("unaligned symbolic store"); return; }
  Page *g = mkpage((u64)p);
  u32 i = ((u64)p >> 3) & 511;
  g->id[i] = id; g->bits[i] = bits;
}
API void __sx_clear(void *p) { Page *g = page((u64)p); if (g) g->id[((u64)p >> 3) & 511] = 0; }
API void __sx_memset(void *p, u64 n) {
  if (!p || !n) return;
  u64 a = (u64)p & ~7ull, e = (u64)p + n;
  while (a < e) {
    Page *g = page(a);
    u64 pe = std::min((a | 4095) + 1, e);
    if (g) for (u64 x = a; x < pe; x += 8) g->id[(x >> 3) & 511] = 0;
    a = (a | 4095) + 1;
  }
}
API void __sx_memcpy(void *d, void *s, u64 n) {
  if (n < 8 || d == s) return;
  u64 S0 = (u64)s, D0 = (u64)d;
  if ((S0 ^ D0) & 7) { // misaligned copies only matter for symbolic sources
    return;
  }
  // quick check
  bool any = false;
  for (u64 a = S0 & ~4095ull; a < S0 + n; a += 4096) if (page(a)) { any = true; break; }
  if (!any) for (u64 a = D0 & ~4095ull; a < D0 + n; a += 4096) if (page(a)) { any = true; break; }
  if (!any) return;
  u64 off = (8 - (S0 & 7)) & 7;
  std::vector<std::pair<u32, u64>> tmp;
  for (u64 o = off; o + 8 <= n; o += 8) { Page *g = page(S0 + o); u32 i = ((S0 + o) >> 3) & 511; tmp.push_back(g ? std::make_pair(g->id[i], g->bits[i]) : std::make_pair(0u, (u64)0)); }
  size_t k = 0;
  for (u64 o = off; o + 8 <= n; o += 8, ++k) {
    if (tmp[k].first) { Page *g = mkpage(D0 + o); u32 i = ((D0 + o) >> 3) & 511; g->id[i] = tmp[k].first; g->bits[i] = tmp[k].second; }
    else if (Page *g = page(D0 + o)) g->id[((D0 + o) >> 3) & 511] = 0;
  }
}
API void *__sx_realloc(void *p, u64 n) {
  size_t old = 0;
  std::vector<std::pair<u32, u64>> tmp;
  if (p) { old = std::min<size_t>(::malloc_usable_size(p), n); for (u64 o = 0; o + 8 <= old; o += 8) { Page *g = page((u64)p + o); u32 i = (((u64)p + o) >> 3) & 511; tmp.push_back(g ? std::make_pair(g->id[i], g->bits[i]) : std::make_pair(0u, (u64)0)); } }
  void *r = realloc(p, n);
  if (r) { __sx_memset(r, n); for (size_t k = 0; k < tmp.size(); ++k) if (tmp[k].first) { Page *g = mkpage((u64)r + 8 * k); u32 i = (((u64)r + 8 * k) >> 3) & 511; g->id[i] = tmp[k].first; g->bits[i] = tmp[k].second; } }
  return r;
}
API void __sx_byval(void *dst, void *orig, u64 n) { if (orig) __sx_memcpy(dst, orig, n); else __sx_memset(dst, n); }

// ------------------------------------------------------------------ operations called by instrumented code
static std::set<std::string> lostset;
static int quiet_lost = 0;
API void __sx_lost(const char *what, u32 s, const char *loc) {
  if (!s || isc(s)) return;
  std::string k = std::string(what) + "@" + loc;
  if (quiet_lost || !lostset.insert(k).second) return;
  logline(std::string("{\"kind\":\"lost\",\"what\":\"") + esc(what) + "\",\"loc\":\"" + esc(loc) + "\"}");
}
static u32 lift(double v, u32 s) { return s ? s : fromdouble(v); }
API u32 __sx_bin(u32 op, double a, u32 sa, double b, u32 sb, const char *loc) {
  if (!(sa | sb)) return 0;
  if ((!sa && !std::isfinite(a)) || (!sb && !std::isfinite(b))) {
    if ((!sa && std::isnan(a)) || (!sb && std::isnan(b))) return 0; // result is NaN
    if (op == 1 || op == 2) return 0;                                // +-inf
    if (op == 4 && !sb) return mkconst(0);                           // x / inf
    __sx_lost("infinity times symbolic value", sa | sb, loc);
    return 0;
  }
  try {
    u32 x = lift(a, sa), y = lift(b, sb);
    switch (op) {
    case 1: return mkadd(x, y);
    case 2: return mksub(x, y);
    case 3: return mkmul(x, y);
    case 4:
      if (isc(y) && cv(y) == 0) { __sx_lost("division by constant zero", x, loc); return 0; }
      assume_nonzero(y, loc);
      return mkdiv(x, y);
    default: __sx_lost("frem", x, loc); return 0;
    }
  } catch (Blowup &e) { inconclusive(std::string("blow-up: ") + e.what()); endpath(3); }
}
API u32 __sx_neg(u32 a) { return a ? mkneg(a) : 0; }
API u32 __sx_fma(double a, u32 sa, double b, u32 sb, double c, u32 sc, const char *loc) {
  u32 m = __sx_bin(3, a, sa, b, sb, loc);
  return __sx_bin(1, a * b, m, c, sc, loc);
}
API bool __sx_fcmp(u32 pred, double a, u32 sa, double b, u32 sb, bool orig, const char *loc) {
  if (!(sa | sb)) return orig;
  if (pred & 32) { // "not zero" where both answers lead to the same: no case distinction
    u32 p = sa ? sa : sb;
    return !(isc(p) && cv(p) == 0);
  }
  bool unordered = pred & 8;
  int T = (pred & 1 ? Z : 0) | (pred & 2 ? P : 0) | (pred & 4 ? N : 0); // LLVM: 1=eq 2=gt 4=lt 8=uno
  if ((!sa && std::isnan(a)) || (!sb && std::isnan(b))) return unordered;
  if (T == 0) return false;
  if (T == 7) return true;
  if (!sa && std::isinf(a)) return T & (a > 0 ? P : N);
  if (!sb && std::isinf(b)) return T & (b > 0 ? N : P);
  try {
    u32 d = mksub(lift(a, sa), lift(b, sb));
    return decide(d, T, loc);
  } catch (Blowup &e) { inconclusive(std::string("blow-up: ") + e.what()); endpath(3); }
}
// integer k with k <= x < k+1
static long floorOf(u32 n, double guess, const char *loc) {
  double lo = nodes[n].lo, hi = nodes[n].hi;
  if (isc(n)) { mpz_class q; mpz_fdiv_q(q.get_mpz_t(), cv(n).get_num().get_mpz_t(), cv(n).get_den().get_mpz_t()); return q.get_si(); }
  if (!std::isfinite(guess)) guess = std::isfinite(lo) ? lo : 0;
  if (guess < lo) guess = lo;
  if (guess > hi) guess = hi;
  long k = (long)std::floor(guess);
  for (int i = 0; i < 200; ++i) {
    if (!decide(mksub(n, mkconst(k)), Z | P, loc)) { --k; 
      // going down: now x < k+1 known
      while (!decide(mksub(n, mkconst(k)), Z | P, loc)) { --k; if (++i > 200) { inconclusive("integer conversion out of range"); endpath(3); } }
      return k; }
    if (decide(mksub(n, mkconst(k + 1)), N, loc)) return k;
    ++k;
  }
  inconclusive("integer conversion out of range"); endpath(3);
}
static long ceilOf(u32 n, double guess, const char *loc) { return -floorOf(mkneg(n), -guess, loc); }
static long truncOf(u32 n, double g, const char *loc) {
  if (nodes[n].lo >= 0 || (nodes[n].hi >= 0 && decide(n, Z | P, loc))) return floorOf(n, g, loc);
  return ceilOf(n, g, loc);
}
API u64 __sx_fptoint(double a, u32 s, u32 uns, u64 orig, const char *loc) {
  if (!s) return orig;
  (void)uns;
  return (u64)truncOf(s, a, loc);
}
static u32 mkpow(u32 a, u32 b, const char *loc) {
  if (isc(b)) {
    mpq_class e = cv(b);
    if (e.get_den() == 1 && abs(e) <= 12) { int n = (int)e.get_d(); if (n < 0) assume_nonzero(a, loc); return mkpowi(a, n); }
    if (e.get_den() <= 50 && abs(e.get_num()) <= 200) {
      int q = e.get_den().get_si(), p = e.get_num().get_si();
      if (p < 0) assume_nonzero(a, loc);
      u32 r = mkfn(F_ROOT, a, mkconst(q));
      return mkpowi(r, p);
    }
  }
  if (isc(a) && cv(a) > 0) return mkfn(F_EXP, mkmul(b, fromdouble(std::log(nodes[a].cval))));
  return mkfn(F_EXP, mkmul(b, mkfn(F_LOG, a)));
}
static void domain_nonneg(u32 n, bool strict, const char *loc) {
  if (nodes[n].lo > 0 || (!strict && nodes[n].lo >= 0)) return;
  int s, cs; u32 id;
  if (!signpoly(n, s, id, cs)) return;
  int good = strict ? P : P | Z;
  if (s < 0) good = flip(good);
  if (!(polys[id].mask & ~good)) return;
  S->branches++;
  if (query({{id, polys[id].mask & ~good}}) == UNSAT) { know(id, good); return; }
  know(id, good);
  if (assumed.insert(loc).second) logline(std::string("{\"kind\":\"assume\",\"what\":\"argument of sqrt/log/pow in its domain\",\"loc\":\"") + esc(loc) + "\"}");
  pcn.push_back({n, strict ? P : Z | P});
}
enum MathOp { M_FABS = 1, M_SQRT, M_FLOOR, M_CEIL, M_TRUNC, M_ROUND, M_RINT, M_SIN, M_COS, M_EXP, M_LOG, M_LOG10, M_TAN, M_EXP2, M_LOG2, M_POW = 50, M_MAX, M_MIN, M_COPYSIGN, M_FMOD, M_POWI, M_ATAN2 };
API u32 __sx_math1(u32 op, double a, u32 s, const char *loc) {
  if (!s) return 0;
  try {
    switch (op) {
    case M_FABS: return decide(s, Z | P, loc) ? s : mkneg(s);
    case M_SQRT: domain_nonneg(s, false, loc); return mkfn(F_ROOT, s, mkconst(2));
    case M_FLOOR: return mkconst(floorOf(s, a, loc));
    case M_CEIL: return mkconst(ceilOf(s, a, loc));
    case M_TRUNC: return mkconst(truncOf(s, a, loc));
    case M_ROUND: { bool pos = decide(s, Z | P, loc); mpq_class h(1, 2); return mkconst(pos ? floorOf(mkadd(s, mkconst(h)), a + .5, loc) : ceilOf(mksub(s, mkconst(h)), a - .5, loc)); }
    case M_RINT: return mkconst(floorOf(mkadd(s, mkconst(mpq_class(1, 2))), a + .5, loc));
    case M_SIN: return mkfn(F_SIN, s);
    case M_COS: return mkfn(F_COS, s);
    case M_TAN: return mkdiv(mkfn(F_SIN, s), mkfn(F_COS, s));
    case M_EXP: return mkfn(F_EXP, s);
    case M_EXP2: return mkfn(F_EXP, mkmul(s, fromdouble(std::log(2.0))));
    case M_LOG: domain_nonneg(s, true, loc); return mkfn(F_LOG, s);
    case M_LOG10: domain_nonneg(s, true, loc); return mkdiv(mkfn(F_LOG, s), fromdouble(std::log(10.0)));
    case M_LOG2: domain_nonneg(s, true, loc); return mkdiv(mkfn(F_LOG, s), fromdouble(std::log(2.0)));
    }
  } catch (Blowup &e) { inconclusive(std::string("blow-up: ") + e.what()); endpath(3); }
  __sx_lost("math function", s, loc);
  return 0;
}
API u32 __sx_math2(u32 op, double a, u32 sa, double b, u32 sb, const char *loc) {
  if (!(sa | sb)) return 0;
  if ((!sa && std::isnan(a)) || (!sb && std::isnan(b))) {
    if (op == M_MAX || op == M_MIN) return sa | sb;
    return 0;
  }
  try {
    if (op == M_MAX || op == M_MIN) {
      if (!sa && std::isinf(a)) return (a > 0) == (op == M_MAX) ? 0 : sb;
      if (!sb && std::isinf(b)) return (b > 0) == (op == M_MAX) ? 0 : sa;
    }
    u32 x = lift(a, sa), y = lift(b, sb);
    switch (op) {
    case M_POW: if (!(isc(y) && cv(y).get_den() == 1)) domain_nonneg(x, false, loc); return mkpow(x, y, loc);
    case M_POWI: return mkpow(x, y, loc);
    case M_MAX: return decide(mksub(x, y), Z | P, loc) ? x : y;
    case M_MIN: return decide(mksub(x, y), N | Z, loc) ? x : y;
    case M_COPYSIGN: { u32 ab = decide(x, Z | P, loc) ? x : mkneg(x); return decide(y, Z | P, loc) ? ab : mkneg(ab); }
    case M_FMOD: { u32 q = mkdiv(x, y); long k = truncOf(q, a / b, loc); return mksub(x, mkmul(mkconst(k), y)); }
    }
  } catch (Blowup &e) { inconclusive(std::string("blow-up: ") + e.what()); endpath(3); }
  __sx_lost("math function", sa | sb, loc);
  return 0;
}
API bool __sx_fpclass(u32 test, double a, u32 s, bool orig) {
  if (!s) return orig;
  (void)a;
  // finite real: bits 3 (neg normal) .. 8 (pos normal) of the class test; distinguish sign and zero
  int neg = (test >> 3) & 1, pos = (test >> 8) & 1, zero = ((test >> 5) & 1) || ((test >> 6) & 1);
  if (neg && pos && zero) return true;
  if (!neg && !pos && !zero) return false;
  return decide(s, (neg ? N : 0) | (pos ? P : 0) | (zero ? Z : 0), "fpclass");
}
static std::set<std::string> entered;
static int funcfd = -1;
API void __sx_enter(uint8_t *flag, const char *name) {
  if (*flag) return;
  *flag = 1;
  if (funcfd >= 0) { std::string s = std::string(name) + "\n"; ssize_t r = write(funcfd, s.data(), s.size()); (void)r; }
}

// ------------------------------------------------------------------ differentiation on the DAG
static std::map<std::pair<u32, u32>, u32> dcache;
static u32 diff(u32 n0, u32 var) {
  std::vector<u32> st{n0};
  while (!st.empty()) {
    u32 n = st.back();
    if (dcache.count({n, var})) { st.pop_back(); continue; }
    Node const x = nodes[n];
    bool unary = x.op == NEG || x.op == FN;
    if (x.a && !dcache.count({x.a, var})) { st.push_back(x.a); continue; }
    if (!unary && x.b && !dcache.count({x.b, var})) { st.push_back(x.b); continue; }
    u32 da = x.a ? dcache[{x.a, var}] : 0, db = !unary && x.b ? dcache[{x.b, var}] : 0, r = 0;
    switch (x.op) {
    case CONST: r = mkconst(0); break;
    case VAR: r = mkconst(x.var == var ? 1 : 0); break;
    case ADD: r = mkadd(da, db); break;
    case SUB: r = mksub(da, db); break;
    case NEG: r = mkneg(da); break;
    case MUL: r = mkadd(mkmul(da, x.b), mkmul(x.a, db)); break;
    case DIV: r = mkdiv(mksub(da, mkmul(n, db)), x.b); break;
    case FN:
      if (isc(da) && cv(da) == 0) { r = da; break; }
      switch (x.fn) {
      case F_SIN: r = mkmul(mkfn(F_COS, x.a), da); break;
      case F_COS: r = mkneg(mkmul(mkfn(F_SIN, x.a), da)); break;
      case F_EXP: r = mkmul(n, da); break;
      case F_LOG: r = mkdiv(da, x.a); break;
      case F_ROOT: r = mkdiv(mkmul(n, da), mkmul(x.b, x.a)); break;
      }
    }
    dcache[{n, var}] = r;
    st.pop_back();
  }
  return dcache[{n0, var}];
}
static u32 subst(u32 n0, u32 var, u32 by, std::map<u32, u32> &memo) {
  auto it = memo.find(n0);
  if (it != memo.end()) return it->second;
  Node const x = nodes[n0];
  u32 a = x.a ? subst(x.a, var, by, memo) : 0, b = x.b ? subst(x.b, var, by, memo) : 0, r = n0;
  switch (x.op) {
  case CONST: break;
  case VAR: if (x.var == var) r = by; break;
  case ADD: r = mkadd(a, b); break;
  case SUB: r = mksub(a, b); break;
  case MUL: r = mkmul(a, b); break;
  case DIV: r = mkdiv(a, b); break;
  case NEG: r = mkneg(a); break;
  case FN: r = mkfn((Fn)x.fn, a, b); break;
  }
  return memo[n0] = r;
}

// ------------------------------------------------------------------ harness API
static u32 argsh(void *fn, int k) { return __sx_argmark == fn ? __sx_args[k] : 0; }
static double give(void *fn, u32 id, double v) { __sx_ret[0] = id; __sx_retmark = fn; return v; }
static std::mt19937_64 crng(99);
static u32 newinput(std::string name, double lo, double hi) {
  if (inputs.count(name)) { fprintf(stderr, "duplicate input %s\n", name.c_str()); inconclusive("duplicate input name " + name); endpath(3); }
  Var v; v.kind = INPUT; v.name = name; v.lo = lo; v.hi = hi;
  vars.push_back(v);
  inputs[name] = vars.size() - 1;
  return vars.size() - 1;
}
API double sx_double(const char *name, double lo, double hi) {
  u32 v = newinput(name, lo, hi);
  u32 id = mkvar(v);
  double c = lo + (hi - lo) * std::uniform_real_distribution<double>(0.1, 0.9)(crng);
  return give((void *)(double (*)(const char *, double, double)) & sx_double, id, c);
}
API double sx_real(const char *name) {
  u32 v = newinput(name, -INFINITY, INFINITY);
  u32 id = mkvar(v);
  return give((void *)&sx_real, id, std::uniform_real_distribution<double>(-10, 10)(crng));
}
API int sx_int(const char *name, int lo, int hi) {
  u32 v = newinput(name, lo, hi);
  vars[v].choice = true;
  u32 id = mkvar(v);
  int k = lo;
  for (; k < hi; ++k) {
    S->branches++;
    if (dofork()) continue; // child: larger values
    break;
  }
  mpq_class lc;
  Poly p = padd(pvar(v), pconst(k), -1);
  vars[v].lo = vars[v].hi = k; nodes[id].lo = nodes[id].hi = k;
  know(polyid(p, lc), Z);
  pcn.push_back({mksub(id, mkconst(k)), Z});
  return k;
}
API bool sx_bool(const char *name) { return sx_int(name, 0, 1); }
API void sx_assume(bool c) { if (!c) { S->pruned++; endpath(2); } }
API void sx_eq(double a, double b, const char *l) { u32 x = argsh((void *)(void (*)(double, double, const char *)) & sx_eq, 0), y = argsh((void *)(void (*)(double, double, const char *)) & sx_eq, 1); check_rel(x, y, a, b, 0, l); }
API void sx_le(double a, double b, const char *l) { u32 x = argsh((void *)(void (*)(double, double, const char *)) & sx_le, 0), y = argsh((void *)(void (*)(double, double, const char *)) & sx_le, 1); check_rel(x, y, a, b, 1, l); }
API void sx_lt(double a, double b, const char *l) { u32 x = argsh((void *)&sx_lt, 0), y = argsh((void *)&sx_lt, 1); check_rel(x, y, a, b, 2, l); }
static void failure(std::string const &label, std::string const &detail) {
  current_label = label;
  Model m; Res r = fullmodel({}, m);
  if (r == UNSAT) { S->deadpaths++; endpath(4); }
  if (r == UNKNOWN) { inconclusive("path feasibility unknown at failure: " + label); endpath(3); }
  bool ok; { Eval E(m); ok = pcholds(E); }
  if (!ok) ok = improve(m, 0, 0, 1, 0, 0, 0.5);
  report_violation(m, label, detail, ok);
  endpath(1);
}
API void sx_assert(bool c, const char *l) {
  S->a_total++;
  current_label = l;
  if (c) { S->a_solver++; return; }
  failure(l, "condition is false");
}
API void sx_fail(const char *l) { S->a_total++; failure(l, "reached"); }
API double sx_d(double y, const char *x) {
  u32 s = argsh((void *)(double (*)(double, const char *)) & sx_d, 0);
  auto it = inputs.find(x);
  if (it == inputs.end()) { inconclusive(std::string("sx_d: no input ") + x); endpath(3); }
  u32 r = s ? diff(s, it->second) : mkconst(0);
  return give((void *)(double (*)(double, const char *)) & sx_d, r, 0.123);
}
API double sx_limit(double y, const char *x, double x0) {
  u32 s = argsh((void *)&sx_limit, 0), sx0 = argsh((void *)&sx_limit, 1);
  auto it = inputs.find(x);
  if (it == inputs.end()) { inconclusive(std::string("sx_limit: no input ") + x); endpath(3); }
  std::map<u32, u32> memo;
  u32 r = s ? subst(s, it->second, lift(x0, sx0), memo) : 0;
  return give((void *)&sx_limit, r, y);
}
API int sx_symbolic(void) { return 1; }
API void sx_reach(const char *l) {
  S->reach++;
  logline(std::string("{\"kind\":\"reach\",\"label\":\"") + esc(l) + "\"}");
}
API void sx_observe(const char *n, double v) { u32 s = argsh((void *)&sx_observe, 0); observations.push_back({n, s, 0, v, 0, false}); }
static std::set<std::string> notes;
API void sx_private_dir() {
  char b[4096];
  privdir = getcwd(b, sizeof b) ? b : ".";
  std::string d = newprivdir();
  runcmd({"mkdir", d});
  if (chdir(d.c_str())) inconclusive("private directory lost");
}
API void sx_note(const char *t) { if (notes.insert(t).second) logline(std::string("{\"kind\":\"note\",\"text\":\"") + esc(t) + "\"}"); }
API void sx_tolerance(double r, double a) { tol_rel = r; tol_abs = a; }
API int sx_is_concrete(double v) { (void)v; u32 s = argsh((void *)&sx_is_concrete, 0); return !s || isc(s); }
API unsigned sx_identity(double v) { (void)v; u32 s = argsh((void *)&sx_identity, 0); return s && !isc(s) ? s : 0; } // equal identities: equal values
API int sx_param(const char *n, int d) {
  std::string k = std::string("SXP_") + n;
  const char *e = getenv(k.c_str());
  int v = e ? atoi(e) : d;
  sx_note((std::string("parameter ") + n + " = " + std::to_string(v)).c_str());
  return v;
}
API void sx_quiet_lost(int on) { quiet_lost = on; }

// ------------------------------------------------------------------ driver
static void crash(int sig) {
  signal(sig, SIG_DFL);
  if (getenv("SX_BACKTRACE")) { void *b[40]; int n = backtrace(b, 40); backtrace_symbols_fd(b, n, 2); }
  if (ended) _exit(5);
  S->crashes++;
  failure(std::string("crash after ") + current_label, std::string("signal ") + std::to_string(sig));
  _exit(5);
}
static void pathdone() {
  S->paths++;
  if (g_unknown_pc) {
    Model m; Res r = fullmodel({}, m);
    if (r == UNSAT) { S->deadpaths++; endpath(4); }
  }
  long w = ++S->witnesses;
  if (w <= maxwit) {
    Model m; Res r = fullmodel({}, m);
    bool ok = false;
    if (r == SAT) { Eval E(m); ok = pcholds(E); if (!ok) ok = improve(m, 0, 0, 1, 0, 0, 0.5); }
    if (ok) { std::string f = writewitness(m, "wit", "witness", &observations); logline("{\"kind\":\"witness\",\"file\":\"" + esc(f) + "\"}"); }
    else { S->witnesses--; logline(std::string("{\"kind\":\"nowitness\",\"r\":") + std::to_string((int)r) + "}"); }
  } else S->witnesses--;
  endpath(0);
}
API void __sx_uncaught(const char *what) { failure("uncaught exception", what); }
API int __sx_main(int argc, char **argv, void (*h)()) {
  double budget = 300; int par = 8;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "-o") outdir = nx(); else if (a == "-t") budget = atof(nx().c_str()); else if (a == "-j") par = atoi(nx().c_str());
    else if (a == "-n") hname = nx(); else if (a == "-v") verbose = true; else if (a == "-w") maxwit = atoi(nx().c_str());
    else if (a == "-q") q_timeout_ms = atoi(nx().c_str()); else if (a == "-Q") q_timeout2_ms = atoi(nx().c_str());
  }
  rootpid = getpid();
  deadline = now() + budget;
  S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  new (S) Shared();
  S->tokens = par - 1;
  logfd = open((outdir + "/log.jsonl").c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND | O_CLOEXEC, 0644);
  funcfd = open((outdir + "/functions.txt").c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND | O_CLOEXEC, 0644);
  if (!verbose) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); }
  double t0 = now();
  pid_t p = fork();
  if (p == 0) {
    for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGILL, SIGBUS}) signal(s, crash);
    h();
    pathdone();
  }
  int st = 0;
  waitpid(p, &st, 0);
  if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) == 5)) S->inconclusive++;
  std::ostringstream o;
  o << "{\"kind\":\"summary\",\"paths\":" << S->paths << ",\"pruned\":" << S->pruned << ",\"branches\":" << S->branches << ",\"forks\":" << S->forks
    << ",\"queries\":" << S->queries << ",\"q_sat\":" << S->q_sat << ",\"q_unsat\":" << S->q_unsat << ",\"q_unknown\":" << S->q_unknown
    << ",\"solver_s\":" << S->solver_us / 1e6 << ",\"asserts\":" << S->a_total << ",\"a_identity\":" << S->a_identity << ",\"a_solver\":" << S->a_solver
    << ",\"a_interval\":" << S->a_interval << ",\"a_concrete\":" << S->a_concrete << ",\"violations\":" << S->violations << ",\"inconclusive\":" << S->inconclusive
    << ",\"witnesses\":" << S->witnesses << ",\"reach\":" << S->reach << ",\"crashes\":" << S->crashes << ",\"timeouts\":" << S->timeouts << ",\"deadpaths\":" << S->deadpaths
    << ",\"maxnodes\":" << S->maxnodes << ",\"stop\":" << S->stop << ",\"wall_s\":" << now() - t0 << "}";
  logline(o.str());
  fprintf(stderr, "%s\n", o.str().c_str());
  return 0;
}
