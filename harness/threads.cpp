// contract of a solver thread: between two barriers it stores exactly what the single thread stores, in its own part of the domain, and
// reads nothing another thread changes meanwhile.  Parts are arbitrary (contract of slab), so the number of threads is arbitrary.
#include "H.hpp"
#ifndef TH
#define TH 5
#endif
#ifndef ANYSLAB
#define ANYSLAB 1
#endif
#if !defined(CONC) && ANYSLAB
static std::vector<vint> cuts;
#define slab slab_
#include <libmpdata++/formulae/domain_decomposition.hpp>
#undef slab
namespace libmpdataxx { namespace domain_decomposition {
  // any split into consecutive non-empty parts
  static rng_t slab(const rng_t &span, const vint &rank = 0, const vint &size = 1) { if (size == 1) return span; return rng_t(span.first() + cuts[int(rank)], span.first() + cuts[int(rank) + 1] - 1); }
} }
#endif
#include "setup.hpp"
#include "teams.hpp"
#ifndef NEQ
#define NEQ 1
#endif
#ifndef DELAY
#define DELAY 0
#endif
#ifndef FREQ
#define FREQ 0
#endif
#ifndef VARDT
#define VARDT 0
#endif
struct ct_params_t : ct_params_default_t { using real_t = vreal; enum { n_dims = ND }; enum { n_eqns = NEQ }; enum { opts = OPTS }; enum { delayed_step = DELAY }; enum { var_dt = VARDT }; };
#ifdef CONC
#include <atomic>
static std::atomic<int> wrong{0};
#define look(e) { if (this->mem->advectee(e).dataFirst() != this->mem->psi[e][this->n[e]](this->mem->advectee(e).domain()).dataFirst()) ++wrong; }
#else
#define look(e) looked = true;
#endif
static bool looked;   // user code ran in this phase: it may look at the shared time level
struct slv_t : solvers::mpdata<ct_params_t>
{
  using parent_t = solvers::mpdata<ct_params_t>; using parent_t::parent_t;
  void hook_ante_loop(const typename parent_t::advance_arg_t nt) override { looked = true; parent_t::hook_ante_loop(nt); }
  void hook_ante_step() override { look(0) parent_t::hook_ante_step(); }
  void hook_ante_delayed_step() override { looked = true; parent_t::hook_ante_delayed_step(); }
  void hook_post_step() override { look(NEQ - 1) parent_t::hook_post_step(); }
  bool calc_gc() override { look(0) return parent_t::calc_gc(); }
};
using arr_t = typename slv_t::arr_t;
using run_t = typename threads_of<slv_t, ND, bcond::BC>::type;
constexpr int DD = ND < 3 ? 0 : 1;
static typename slv_t::rt_params_t *pp; 
#define P_ (*pp)
#ifndef CONC
template <class M> static std::map<std::string, sym::Storage *> arrays(M &m)
{
  std::map<std::string, sym::Storage *> r;
  auto vec = [&](const std::string &n, auto &v) { for (int k = 0; k < int(v.size()); ++k) r[n + "." + std::to_string(k)] = v[k].v.st; };
  for (int e = 0; e < NEQ; ++e) vec("psi" + std::to_string(e), m.psi[e]);
  vec("GC", m.GC); vec("ndt_GC", m.ndt_GC); vec("ndtt_GC", m.ndtt_GC); vec("vab_relax", m.vab_relax); vec("khn_tmp", m.khn_tmp);
  if (m.G) r["G"] = m.G->v.st; if (m.vab_coeff) r["vab_coeff"] = m.vab_coeff->v.st;
  for (auto &t : m.tmp) { std::string f = t.first; f = f.substr(f.rfind('/') + 1); for (int i = 0; i < int(t.second.size()); ++i) vec(f + "." + std::to_string(i), t.second[i]); }
  if (m.sumtmp) r["sumtmp"] = m.sumtmp->v.st; r["xtmtmp"] = m.xtmtmp->v.st;
  return r;
}
struct Trace { std::vector<sym::Phase> ph; std::vector<vint> n, n1; std::vector<bool> looked; bool thrown = false; };
static Trace trace(run_t &run, int rank, const Trace *one)
{
  auto &mem = *run.mem; auto as = arrays(mem); std::vector<sym::Storage *> sts; for (auto &a : as) sts.push_back(a.second); Trace t;
  auto begin = [&] {
    size_t p = t.ph.size(); t.ph.emplace_back();
    if (one && p < one->n.size()) { if (rank == 0) H::ieq("time level seen by all threads", mem.n, one->n[p]); mem.n = one->n[p]; } t.n.push_back(mem.n); looked = false;
    for (auto &a : as) sym::refill(a.second, a.first + "@" + std::to_string(p), a.first == "xtmtmp"); t.ph.back().a0 = sym::access_count();
  };
  auto end = [&] { sym::phase_end(t.ph.back(), sts); t.n1.push_back(mem.n); t.looked.push_back(looked); };
  boost::barrier::on_wait = [&](boost::barrier &b) { if (!boost::thread::running) return; end(); begin(); };
  boost::thread::selected = rank; boost::thread::started = 0; mem.n = 0; begin();
  try { run.advance(NT); } catch (std::runtime_error &e) { if (!std::strstr(e.what(), "divergent")) throw; t.thrown = true; boost::thread::running = false; }
  end(); boost::barrier::on_wait = nullptr;
  if (!t.thrown) H::ieq("one thread started per subdomain", boost::thread::started, run.algos.size());
  return t;
}
static void unit()
{
  sym::resolve_conditions(true); cuts.clear(); cuts.push_back(0); for (int k = 1; k < TH; ++k) cuts.push_back(sym::fresh_int("cut" + std::to_string(k))); cuts.push_back(P_.grid_size[DD]);
  for (int k = 0; k < TH; ++k) H::iassume_le(cuts[k] + 1, cuts[k + 1]);
  setenv("OMP_NUM_THREADS", "1", 1); run_t one(P_);
  setenv("OMP_NUM_THREADS", std::to_string(TH).c_str(), 1); run_t many(P_);
  H::ieq("as many subdomains as threads", many.algos.size(), TH); H::ieq("threads known to the shared memory", many.mem->size, TH);
  using mem_t = std::remove_reference_t<decltype(*many.mem)>;
  Trace a = trace(one, 0, nullptr); std::vector<Trace> b; for (int k = 0; k < TH; ++k) b.push_back(trace(many, k, &a));
  for (int k = 0; k < TH; ++k) { H::ieq("every thread passes the same barriers", int(b[k].ph.size()), int(a.ph.size())); H::yes("same exceptions", a.thrown == b[k].thrown); if (b[k].ph.size() != a.ph.size()) H::reject(); }
  auto as = arrays(*one.mem), ap = arrays(*many.mem); std::vector<sym::Shared> sh; for (auto &x : as) { H::yes("same arrays", ap.count(x.first)); sh.push_back({x.first, x.second, ap[x.first], x.first != "xtmtmp", x.first.find(".hpp.") != std::string::npos}); }
  std::vector<std::array<vint, 2>> own; for (int k = 0; k < TH; ++k) { auto r = many.algos[k].ijk[DD]; vint f = r.first(), l = r.last(); if (k == 0) f = f - 20; if (k == TH - 1) l = l + 20; own.push_back({f, l}); }
  std::vector<std::pair<int, int>> pairs = TH >= 5 ? std::vector<std::pair<int, int>>{{0, 1}, {0, 2}, {0, TH - 1}, {1, 2}, {1, 3}, {2, TH - 1}, {TH - 2, TH - 1}} : std::vector<std::pair<int, int>>{}; if (TH < 5) for (int k = 0; k < TH; ++k) for (int l = 0; l < k; ++l) pairs.push_back({l, k});
  for (auto &x : b) for (size_t p = 0; p < a.ph.size(); ++p) if (x.looked[p]) H::ieq("no user code runs while the shared time level changes", a.n1[p], a.n[p]);
  for (size_t p = 0; p < a.ph.size(); ++p) { std::vector<sym::Phase> t; for (auto &x : b) t.push_back(x.ph[p]); sym::compare_phase("phase " + std::to_string(p), sh, a.ph[p], t, own, DD, pairs); }
  for (int k = 0; k < TH; ++k) sym::check_undefined("", sh, b[k].ph);
}
#else
// the real driver, and a driver whose threads take turns in resting after each barrier
thread_local int tid = 0; static int lazy = -1;
#include <thread>
template <class P_t> struct slow_t : P_t
{
  struct mem_t : P_t::mem_t { boost::barrier b; mem_t(const std::array<int, ND> &g, int n) : P_t::mem_t(g, n), b(n) {} void barrier() { b.wait(); if (tid == lazy) std::this_thread::sleep_for(std::chrono::microseconds(400)); } };
  void solve(typename P_t::advance_arg_t nt) { std::vector<std::thread> t; for (int i = 0; i < int(this->algos.size()); ++i) t.emplace_back([this, i, nt] { tid = i; this->algos[i].solve(nt); }); for (auto &x : t) x.join(); }
  slow_t(const typename slv_t::rt_params_t &p, int n) : P_t(p, new mem_t(p.grid_size, n), n) {}
};
template <class S, int N, bcond::bcond_e B> struct slow_of;
template <class S, bcond::bcond_e B> struct slow_of<S, 1, B> { using type = slow_t<concurr::detail::concurr_common<S, B, B, bcond::null, bcond::null, bcond::null, bcond::null>>; };
template <class S, bcond::bcond_e B> struct slow_of<S, 2, B> { using type = slow_t<concurr::detail::concurr_common<S, B, B, B, B, bcond::null, bcond::null>>; };
template <class S, bcond::bcond_e B> struct slow_of<S, 3, B> { using type = slow_t<concurr::detail::concurr_common<S, B, B, B, B, B, B>>; };
template <class M> static void compare(M &many)
{
  typename serial_of<slv_t, ND, bcond::BC>::type one(P_);
  for (int part = 0; part < 2; ++part)
  {
    if (!part)
    {
      for (int e = 0; e < NEQ; ++e) { H::fill(one.advectee(e), "psi" + std::to_string(e), H::pos); many.advectee(e) = one.advectee(e); }
      for (int d = 0; d < ND; ++d) { auto C = one.advector(d); if (ND > 1) { double v = H::rnd(-.25, .25); C = v; } else H::fill(C, "C", H::any, .3); many.advector(d) = C; }
      if (opts::isset(OPTS, opts::nug)) { if (ND > 1) one.g_factor() = 1.3; else H::fill(one.g_factor(), "G", H::pos); many.g_factor() = one.g_factor(); }
    }
    one.advance(NT); many.advance(NT); H::ieq("user code that saw another time level", wrong, 0);
    for (int e = 0; e < NEQ; ++e) { auto a = one.advectee(e), b = many.advectee(e); H::ix<ND> lo, hi; for (int d = 0; d < ND; ++d) { lo[d] = 0; hi[d] = P_.grid_size[d] - 1; } H::forall<ND>(lo, hi, [&](const H::ix<ND> &c) { H::eq("result with threads", H::at(b, c), H::at(a, c)); }); }
  }
}
static void unit()
{
  const int n = std::min(H::rint(2, 4), int(P_.grid_size[DD])); setenv("OMP_NUM_THREADS", std::to_string(n).c_str(), 1); wrong = 0;
  if (H::rint(0, 3)) { lazy = H::rint(0, n - 1); typename slow_of<slv_t, ND, bcond::BC>::type many(P_, n); compare(many); } else { run_t many(P_); compare(many); }
}
#endif
UNIT("threads")
{
  typename slv_t::rt_params_t prm; pp = &prm; P_.n_iters = NIT; P_.dt = 1; for (int d = 0; d < ND; ++d) P_.grid_size[d] = H::size(dimname[d], NMIN <= TH && d == DD ? TH + 1 : NMIN);
  unit();
  H::fn("concurr::boost_thread, concurr_common::init, bcond::shared, solver_common::extend_range, solver threads of solvers::mpdata (solve, advop, xchng_*)");
}
