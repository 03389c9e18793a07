// Contract-harness vocabulary.  One harness text, two readings:
//  SYM  (default): vint/vreal are symbolic, every statement is for all sizes / all data; obligations are proved.
//  CONC (-DCONC) : vint=int, vreal=double, compiled against the untouched /repo headers and the real Blitz++;
//                  sizes and data are drawn at random, obligations are evaluated.  Used to replay / search for a failing
//                  input after a failed obligation, and as the labelled bounded stand-in when SYM cannot handle a change.
#pragma once
#include <array>
#include <vector>
#include <string>
#include <functional>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <random>
#include <sstream>
#include <iostream>
#include <map>
#include <ctime>
#ifndef UNITNAME
#define UNITNAME "unit"
#endif
#ifndef CONC
#include "sym.hpp"
#include <blitz/array.h>
#else
#include <blitz/tv2fastiter.h>
#include <blitz/array.h>
using vint = int; using vreal = double;
#endif

namespace H
{
  enum Sign { any, nonneg, pos };
  template <int N> using ix = std::array<vint, N>;
  template <class A> inline auto at(A &a, const ix<1> &i) -> decltype(a(i[0])) { return a(i[0]); }
  template <class A> inline auto at(A &a, const ix<2> &i) -> decltype(a(i[0], i[1])) { return a(i[0], i[1]); }
  template <class A> inline auto at(A &a, const ix<3> &i) -> decltype(a(i[0], i[1], i[2])) { return a(i[0], i[1], i[2]); }
  template <int N> inline ix<N> sh(ix<N> i, int d, vint by) { i[d] = i[d] + by; return i; }

#ifndef CONC
  // ------------------------------------------------------------------ symbolic reading
  inline vint size(const std::string &n, int min, int = 6) { vint v = sym::fresh_int(n); sym::assume(sym::ge0(v - vint(min))); return v; }
  inline vint integer(const std::string &n, int, int) { return sym::fresh_int(n); }
  inline vreal scalar(const std::string &n, Sign s = any) { if (s == nonneg) sym::declare_nonneg(n); if (s == pos) sym::declare_pos(n); return sym::named_real(n); }
  template <class A> inline void fill(A a, const std::string &n, Sign s = any, double = 1)
  {
    if (s == nonneg) sym::declare_nonneg(n); if (s == pos) sym::declare_pos(n);
    std::vector<sym::Param> ps; std::vector<vint> vi; auto &v = a.v;
    for (int d = 0; d < A::rank_; ++d)
    {
      int sd = 0; for (size_t q = 0; q < v.vd.size(); ++q) if (v.vd[q] == d) sd = q;
      int p = sym::fresh_sym(std::string(1, "ijk"[d])); ps.push_back({p, v.lb[d] + v.off[sd], v.ub[d] + v.off[sd]}); vi.push_back(sym::sym_lin(p) - v.off[sd]);
    }
    sym::fill_base(v.st, ps, v.sidx(vi), vi, n);
  }
  inline bool conc() { return false; }
  inline void forget_sums(int k = 1) { sym::forget_sums(k); }
  // forget everything about the contents; what the contract says about them is assumed at the instances that are used
  template <class A> inline void generalise(A a) { sym::generalise(a.v.st); }
  using Bool = vbool;
  // everything stored in the array is proved equal to q, at an arbitrary index of each region written, and known from then on
  template <class A> inline void known(const std::string &l, A a, const vreal &q) { sym::simplify_to(a.v.st, q, l); }
  inline double rnd(double, double) { return 0; }
  template <int N, class F> inline void forall_(const ix<N> &lo, const ix<N> &hi, F f)
  {
    ix<N> c; for (int d = 0; d < N; ++d) { if (!sym::decide(sym::ge0(hi[d] - lo[d]))) return; c[d] = sym::fresh_int(std::string(1, "ijk"[d])); sym::assume(sym::ge0(c[d] - lo[d])); sym::assume(sym::ge0(hi[d] - c[d])); }
    f(c);
  }
  // one arbitrary element of the box; what f assumes or decides is local to it
  template <int N, class F> inline void forall(const ix<N> &lo, const ix<N> &hi, F f) { sym::scope([&] { forall_<N>(lo, hi, f); }); }
  inline void eq(const std::string &l, const vreal &a, const vreal &b, double = 1e-7) { sym::ob_eq(l, a, b); }
  inline void le(const std::string &l, const vreal &a, const vreal &b, double = 1e-7) { sym::ob_le(l, a, b); }
  inline void holds(const std::string &l, const vbool &b) { sym::ob_true(l, b); }
  inline void ieq(const std::string &l, const vint &a, const vint &b) { sym::ob_int(l, sym::eq0(a - b)); }
  inline void ile(const std::string &l, const vint &a, const vint &b) { sym::ob_int(l, sym::ge0(b - a)); }
  inline void yes(const std::string &l, bool b) { if (b) sym::ob_int(l, sym::ge0(vint(0))); else sym::ob_fail(l, "false on this path"); }
  template <int N, class F> inline void telescopes(const std::string &l, const ix<N> &lo, const ix<N> &hi, F f)
  {
    forall_<N>(lo, hi, [&](const ix<N> &c) { sym::ob_telescopes(l, f(c), std::vector<vint>(c.begin(), c.end()), std::vector<vint>(lo.begin(), lo.end()), std::vector<vint>(hi.begin(), hi.end())); });
  }
  inline void assume(const vbool &b) { sym::assume_real(b); }
  inline void iassume_le(const vint &a, const vint &b) { sym::assume(sym::ge0(b - a)); }
  inline void lemma(const std::string &l, const vbool &b) { sym::hint(b, l); }
  inline void cover(const std::string &l) { sym::ob_cover(l); }
  inline void fn(const std::string &f) { sym::count_checked(f); }
  [[noreturn]] inline void reject() { sym::path_end(); }
#define UNIT(name) static void harness_(); static void harness_c() { harness_(); H::cover("end"); } int main() { return sym::run_all(harness_c, UNITNAME); } static void harness_()
#else
  // ------------------------------------------------------------------ concrete reading
  struct Reject {};
  struct State { std::mt19937_64 g; long fails = 0, checks = 0, rejects = 0; std::string log, first; std::map<std::string, vreal> sc; double scale = 1; bool verbose = false; int mode = 0; unsigned long long trialseed = 0; };
  inline State &S() { static State s; return s; }
  inline bool conc() { return true; }
  inline void forget_sums(int = 1) {}
  template <class A> inline void generalise(A) {}
  using Bool = bool;
  template <class A> inline void known(const std::string &, A, const vreal &) {}
  inline double rnd(double a, double b) { return std::uniform_real_distribution<double>(a, b)(S().g); }
  inline int rint(int a, int b) { return std::uniform_int_distribution<int>(a, b)(S().g); }
  inline vint size(const std::string &n, int min, int spread = 6) { int v = rint(min, min + spread); S().log += n + "=" + std::to_string(v) + " "; return v; }
  inline vint integer(const std::string &n, int lo, int hi) { int v = rint(lo, hi); S().log += n + "=" + std::to_string(v) + " "; return v; }
  inline double value(Sign s, double mag)
  {
    double v; int m = S().mode;
    switch (m)
    {
      case 0: v = rnd(0.1, 1); break;                                    // smooth-ish
      case 1: v = rint(0, 3) ? 0.2 : 1; break;                           // plateaus
      case 2: v = rint(0, 2) ? 0 : rnd(0.1, 1); break;                   // zeros
      default: v = rnd(0, 1); break;
    }
    if (s == pos && v <= 0) v = 0.3; if (s == any && rint(0, 1)) v = -v;
    return v * mag;
  }
  inline vreal scalar(const std::string &n, Sign s = any) { auto it = S().sc.find(n); if (it != S().sc.end()) return it->second; double v = value(s, 1); if (v == 0) v = s == any ? 0.0 : (s == pos ? 0.5 : 0.0); S().sc[n] = v; std::ostringstream o; o << n << "=" << v << " "; S().log += o.str(); return v; }
  template <class A> inline void fill(A a, const std::string &n, Sign s = any, double mag = 1)   // same name => same contents within one trial
  {
    auto keep = S().g; S().g.seed(S().trialseed * 7919ull + std::hash<std::string>()(n)); for (int q = 0; q < 3; ++q) S().g();
    for (auto it = a.begin(); it != a.end(); ++it) *it = value(s, mag);
    S().g = keep;
  }
  template <int N, class F> inline void forall(const ix<N> &lo, const ix<N> &hi, F f)
  {
    ix<N> c = lo; for (int d = 0; d < N; ++d) if (hi[d] < lo[d]) return;
    for (;;) { f(c); int d = N - 1; while (d >= 0 && ++c[d] > hi[d]) { c[d] = lo[d]; --d; } if (d < 0) return; }
  }
  inline void bad(const std::string &l, const std::string &why) { ++S().fails; if (S().first.empty()) S().first = l + ": " + why + " [" + S().log + "]"; if (S().verbose) std::fprintf(stderr, "FAIL %s: %s [%s]\n", l.c_str(), why.c_str(), S().log.c_str()); }
  inline std::string num(double a) { char b[64]; std::snprintf(b, 64, "%.17g", a); return b; }
  inline void eq(const std::string &l, double a, double b, double tol = 1e-7) { ++S().checks; double m = std::max(S().scale, std::max(std::fabs(a), std::fabs(b))); if (!(std::fabs(a - b) <= tol * m)) bad(l, num(a) + " != " + num(b)); }
  inline void le(const std::string &l, double a, double b, double tol = 1e-7) { ++S().checks; double m = std::max(S().scale, std::max(std::fabs(a), std::fabs(b))); if (!(a - b <= tol * m)) bad(l, num(a) + " > " + num(b)); }
  inline void holds(const std::string &l, bool b) { ++S().checks; if (!b) bad(l, "false"); }
  inline void yes(const std::string &l, bool b) { holds(l, b); }
  inline void ieq(const std::string &l, int a, int b) { ++S().checks; if (a != b) bad(l, std::to_string(a) + " != " + std::to_string(b)); }
  inline void ile(const std::string &l, int a, int b) { ++S().checks; if (a > b) bad(l, std::to_string(a) + " > " + std::to_string(b)); }
  template <int N, class F> inline void telescopes(const std::string &l, const ix<N> &lo, const ix<N> &hi, F f) { double s = 0, m = 0; forall<N>(lo, hi, [&](const ix<N> &c) { double x = f(c); s += x; m += std::fabs(x); }); ++S().checks; if (!(std::fabs(s) <= 1e-7 * std::max(1., m))) bad(l, "sum = " + num(s)); }
  inline void assume(bool b) { if (!b) throw Reject(); }
  inline void iassume_le(int a, int b) { if (a > b) throw Reject(); }
  inline void lemma(const std::string &l, bool b) { holds(l, b); }
  inline void cover(const std::string &) {}
  inline void fn(const std::string &) {}
  inline int conc_main(void (*h)(), const char *name, int argc, char **argv)
  {
    long trials = argc > 1 ? std::atol(argv[1]) : 300; long only = argc > 2 ? std::atol(argv[2]) : -1; unsigned seed = std::getenv("VERIF_SEED") ? std::atoi(std::getenv("VERIF_SEED")) : 1;
    double tmax = std::getenv("CONC_TMAX") ? std::atof(std::getenv("CONC_TMAX")) : 60; auto t0 = std::time(nullptr); long done = 0;
    if (only >= 0) S().verbose = true;
    for (long t = only >= 0 ? only : 0; t < (only >= 0 ? only + 1 : trials); ++t)
    {
      S().g.seed(S().trialseed = seed * 1000003ull + t); S().log.clear(); S().sc.clear(); S().mode = t % 4;
      try { h(); } catch (Reject &) { ++S().rejects; if (!S().fails) continue; }
      catch (std::exception &e) { bad("no-unexpected-exception", e.what()); }
      ++done;
      if (S().fails) { std::printf("CONC-FAIL unit=%s seed=%u trial=%ld %s\n", name, seed, t, S().first.c_str()); return 1; }
      if (std::time(nullptr) - t0 > tmax) break;
    }
    std::printf("CONC-OK unit=%s trials=%ld checks=%ld rejected=%ld\n", name, done, S().checks, S().rejects); return 0;
  }
  [[noreturn]] inline void reject() { throw Reject(); }
#define UNIT(name) static void harness_(); int main(int c, char **v) { return H::conc_main(harness_, UNITNAME, c, v); } static void harness_()
#endif
  // conclusion from hypotheses about a few terms: the rule is proved once over arbitrary reals, its hypotheses at the actual terms
  struct Rule { std::vector<Bool> hyp; std::vector<std::pair<vreal, vreal>> eqs, concl; };
  inline void by(const std::string &l, const std::vector<vreal> &t, std::function<Rule(const std::vector<vreal> &)> f)
  {
    Rule r = f(t); int k = 0;
#ifndef CONC
    for (auto &e : r.eqs) eq(l + " =" + std::to_string(k++), e.first, e.second);
    k = 0; for (auto &h : r.hyp) holds(l + " hypothesis " + std::to_string(k++), h);
    sym::scope([&] { sym::clear_lemmas(); std::vector<vreal> x; for (size_t q = 0; q < t.size(); ++q) x.push_back(sym::named_real("rule" + std::to_string(q))); Rule g = f(x); for (auto &h : g.hyp) assume(h); for (auto &e : g.eqs) assume(e.first == e.second); int k = 0; for (auto &c : g.concl) le(l + " rule " + std::to_string(k++), c.first, c.second); });
    for (auto &c : r.concl) assume(c.first <= c.second);
#else
    for (auto &c : r.concl) le(l + "." + std::to_string(k++), c.first, c.second);
#endif
  }
  // a fact proved at every index of a box, later used at instances
  template <int N> struct Fact
  {
    std::string l; ix<N> lo, hi; std::function<std::vector<std::pair<vreal, vreal>>(const ix<N> &)> le_;   // list of a <= b
    Fact(const ix<N> &lo, const ix<N> &hi, decltype(le_) f) : l("fact"), lo(lo), hi(hi), le_(f) {}   // established by the caller at every index of the box
    Fact(const std::string &l, const ix<N> &lo, const ix<N> &hi, decltype(le_) f) : l(l), lo(lo), hi(hi), le_(f) { forall<N>(lo, hi, [&](const ix<N> &c) { int k = 0; for (auto &p : le_(c)) le(l + "." + std::to_string(k++), p.first, p.second); }); }
    void use(const ix<N> &c) const { for (int d = 0; d < N; ++d) { ile(l + " instance", lo[d], c[d]); ile(l + " instance", c[d], hi[d]); } 
#ifndef CONC
      for (auto &p : le_(c)) assume(p.first <= p.second);
#endif
    }
  };
  // run the solver; a rejected (exception about a divergent initial field) run is outside the contract
  template <class R> inline void advance(R &run, int n)
  {
    try { run.advance(n); }
    catch (std::exception &e) { if (std::strstr(e.what(), "initial advector field is divergent")) reject(); throw; }
  }
} // namespace H
