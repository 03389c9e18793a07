// contract of the time loop (solver_common::solve): number of steps, time, order of the stages, time-step stash, adaptive step,
// Courant number / divergence statistics, scaling of the Courant numbers.  The loop is checked by its invariant: one step from an arbitrary
// state (step number, time, time level) that satisfies it re-establishes it, and leaving the loop implies the postcondition.
#ifndef NDEBUG
#define NDEBUG      // the destructor asserts that hooks were called, also when a trial was rejected
#endif
#include "setup.hpp"
#ifndef NEQ
#define NEQ 1
#endif
#ifndef DELAY
#define DELAY 0
#endif
#ifndef VARDT
#define VARDT 0
#endif
#ifndef ORD
#define ORD 1
#endif
#ifndef VARGC
#define VARGC VARDT
#endif
#ifndef INIT        // 1: what precedes the first step; 0: the loop itself
#define INIT 0
#endif
#ifndef SCALE
#define SCALE 0
#endif
using namespace libmpdataxx::arakawa_c; using libmpdataxx::arakawa_c::h;
static int side, done; static const void *gc; static std::function<void()> on_vctr, after;
namespace libmpdataxx { namespace bcond {
  template <typename real_t, int halo, drctn_e dir, int n_dims, int dim>
  class bcond<real_t, halo, custom, dir, n_dims, dim> : public bcond<real_t, halo, BC, dir, n_dims, dim>
  {
    using parent_t = bcond<real_t, halo, BC, dir, n_dims, dim>; using arr_t = blitz::Array<real_t, n_dims>;
    void before(const void *a) { if (dim == 0 && on_vctr && a == gc && side++ % 2 == 0) on_vctr(); }
    void behind(const void *a) { if (dim == n_dims - 1 && after && a == gc && ++done % 2 == 0) after(); }
    public:
    bcond(const rng_t &i, const std::array<vint, n_dims> &g, bool = false, vint = 0, vint = 1) : parent_t(i, g, false, 0, 1) {}
    void fill_halos_vctr_alng(arrvec_t<blitz::Array<real_t, 1>> &a, const bool ad = false) { if constexpr (n_dims == 1) { before(&a); parent_t::fill_halos_vctr_alng(a, ad); behind(&a); } }
    void fill_halos_vctr_alng(arrvec_t<blitz::Array<real_t, 2>> &a, const rng_t &j, const bool ad = false) { if constexpr (n_dims == 2) { before(&a); parent_t::fill_halos_vctr_alng(a, j, ad); behind(&a); } }
    void fill_halos_vctr_alng(arrvec_t<blitz::Array<real_t, 3>> &a, const rng_t &j, const rng_t &k, const bool ad = false) { if constexpr (n_dims == 3) { before(&a); parent_t::fill_halos_vctr_alng(a, j, k, ad); behind(&a); } }
  };
} }
struct ct_params_t : ct_params_default_t
{
  using real_t = vreal; enum { n_dims = ND }; enum { n_eqns = NEQ }; enum { opts = OPTS }; enum { delayed_step = DELAY }; enum { var_dt = VARDT }; enum { out_intrp_ord = ORD };
  static constexpr vint hint_scale(const vint &e) { return SCALE * (int(e) % 3 - 1); }
};
constexpr bool has(opts::opts_t o) { return opts::isset(opts::opts_t(OPTS), o); }
static vint N_[3]; static vint T0, NTS; static vreal DT, TIME0, SPAN, TARGET; static bool PANIC; static int loops, steps, extra; static std::string ev; static bool inloop;
template <int N, class CT = ct_params_t> struct Mon : solvers::mpdata<CT>
{
  using parent_t = solvers::mpdata<CT>; using arr_t = typename parent_t::arr_t; using ix = H::ix<N>; using parent_t::parent_t; using real_t = vreal;
  static inline std::map<int, arr_t> res; int gcs = 0, uid = 0; vreal cfl0 = 0, dt0 = 0, stash0 = 0; vint step0 = 0; vreal time0 = 0; std::array<int, NEQ> n0;
  ix lo() { ix r; for (int d = 0; d < N; ++d) r[d] = 0; return r; }
  ix hi() { ix r; for (int d = 0; d < N; ++d) r[d] = N_[d] - 1; return r; }
  // the last statistic: its value is the largest element of the stat field, whose cells hold f
  template <class F> vreal stat(const std::string &l, F f)
  {
    vreal v = (*this->mem->xtmtmp)(0); arr_t s = this->stat_field;
    H::forall<N>(lo(), hi(), [&](const ix &c) { H::eq(l, H::at(s, c), f(c)); });
    H::eq(l + " (largest)", v, this->mem->max(this->rank, s(this->ijk)));
    return v;
  }
  static vreal G(Mon *s, const ix &c) { if constexpr (has(opts::nug)) return H::at(*s->mem->G, c); else return 1; }
  template <class V> vreal courant(V &C) { return stat("Courant number", [&](const ix &c) { vreal q = 0; for (int d = 0; d < N; ++d) { arr_t a = C[d]; q = q + std::abs(vreal((H::at(a, c) + H::at(a, H::sh<N>(c, d, -1))) / 2)); } return q / G(this, c); }); }
  template <class V> vreal divergence(V &C) { return stat("divergence", [&](const ix &c) { vreal q = 0; for (int d = 0; d < N; ++d) { arr_t a = C[d]; q = q + H::at(a, c) - H::at(a, H::sh<N>(c, d, -1)); } return std::abs(q) / G(this, c); }); }
  std::vector<arr_t> copies() { std::vector<arr_t> r; for (int d = 0; d < N; ++d) { arr_t c = this->mem->GC[d].copy(); c.reindexSelf(this->mem->GC[d].lbound()); r.push_back(c); } return r; }
  void hook_ante_loop(const typename parent_t::advance_arg_t n) override
  {
    ++loops; ev += "L"; if constexpr (VARDT) H::eq("target given to the hook", n, TARGET); else H::ieq("target given to the hook", n, NTS + T0);
    if (!INIT && !H::conc()) return;      // contract of the initialisation: see the INIT units
    std::vector<arr_t> keep; vreal dt_ = this->dt, cfl = 0; int fills = 0; side = done = 0; gc = &this->mem->GC; bool thrown = false, cut = false;
    // the first exchange fills the halos; the second one, if any, comes after the scaling
    on_vctr = [&] { if (fills == 0) keep = copies(); if (fills == 1) { cfl = courant(keep); cut = true; } ++fills; };
    after = [&] { if (fills == 1) keep = copies(); };
    try { parent_t::hook_ante_loop(n); } catch (std::runtime_error &e) { thrown = true; if (!std::strstr(e.what(), "divergent")) throw; }
    on_vctr = after = nullptr;
    vreal f = 1; H::yes("halos filled", fills >= 1);
    if (VARDT && (N == 1 || has(opts::dfl)) && !cut) { cfl = courant(keep); H::holds("no time-step change only at rest", cfl <= 0); }
    if (cut) { H::yes("only an adaptive step is changed", VARDT); H::holds("time-step change", 0 < cfl); f = this->max_courant / cfl; }
    H::eq("initial time step", this->dt, dt_ * f);
    for (int d = 0; d < N; ++d) { ix a = lo(), b = hi(); a[d] = -1; b[d] = N_[d] - 2; arr_t c = this->mem->GC[d], k = keep[d]; H::forall<N>(a, b, [&](const ix &i) { if (bcond::BC == bcond::cyclic && i[d] == -1) H::eq("Courant numbers scaled with the time step", H::at(c, i), H::at(k, H::sh<N>(i, d, N_[d] - 1)) * f); else H::eq("Courant numbers scaled with the time step", H::at(c, i), H::at(k, i) * f); }); }
    auto now = copies();
    this->xchng_vctr_alng(this->mem->GC);
    for (int d = 0; d < N; ++d) { ix a = lo(), b = hi(); a[d] = -1 - (this->halo - 1); b[d] = N_[d] - 1 + this->halo - 1; arr_t c = this->mem->GC[d], k = now[d]; H::forall<N>(a, b, [&](const ix &i) { H::eq("halos of the Courant numbers", H::at(k, i), H::at(c, i)); }); }
    if (N > 1 && !has(opts::dfl)) { vreal v = divergence(now); if (thrown) H::holds("rejected only if divergent", this->max_abs_div_eps < v); else H::holds("accepted only if not divergent", v <= this->max_abs_div_eps); }
    else H::yes("not rejected", !thrown);
    if (thrown) H::reject();
    if (INIT && !H::conc()) { H::cover("init"); H::reject(); }
    dt0 = this->dt;
  }
  void begin()
  {
    ev.clear(); res.clear(); ++steps; gcs = 1;
    if (VARDT && H::conc() && bool(this->dt * 200 < SPAN)) H::reject();
    if constexpr (VARDT) if (!inloop && !extra) H::holds("target ahead", this->time < TARGET);
    if (!H::conc() && !inloop)
    {
      inloop = true;
      // an arbitrary earlier step: the loop invariant
      if (VARDT) { vreal t = H::scalar("time"); H::assume(t < TARGET); this->time = t; this->dt = H::scalar("dt", H::pos); this->timestep = H::integer("T", 0, 0); }
      else { vint T = H::integer("T", 0, 0); H::iassume_le(T0, T); H::iassume_le(T + 1, T0 + NTS); this->timestep = T; this->time = T * DT; }
      this->dt_stash[0] = H::scalar("stash0", H::nonneg); if (this->dt_stash.size() > 1) this->dt_stash[1] = H::scalar("stash1", H::nonneg);
      vint p = H::integer("level", 0, 3); H::iassume_le(0, p); H::iassume_le(p, NEQ > 1 ? 3 : 0); int lev = NEQ == 1 ? -2 : p == 0 ? 0 : p == 1 ? -1 : p == 2 ? -2 : -3;
      for (int e = 0; e < NEQ; ++e) { this->n[e] = lev; for (int k = 0; k < 2; ++k) { arr_t a = this->mem->psi[e][k]; H::fill(a, "psi" + std::to_string(e) + "." + std::to_string(k)); } } this->mem->n = lev;
    }
    step0 = this->timestep; time0 = this->time; stash0 = this->dt_stash[0]; for (int e = 0; e < NEQ; ++e) n0[e] = int(this->n[e]);
    if constexpr (VARDT) { if (extra == 0) H::holds("no step after the target", time0 < TARGET); else H::yes("extra steps", extra < ORD); } else H::ile("no step after the target", step0 + 1, T0 + NTS);
  }
  void newgc() { if (VARGC) for (int d = 0; d < N; ++d) { arr_t c = this->mem->GC[d]; H::fill(c, "GC" + std::to_string(d) + "." + std::to_string(uid), H::any, gcs == 2 ? H::rnd(.1, .9) : 0.2 / gcs); } ++uid; }
  bool calc_gc() override
  {
    ev += "G"; if (ev.size() && ev.find_first_not_of('G') != std::string::npos) begin(), ev = "G"; else ++gcs;
    if (gcs > 1 && VARDT && VARGC) cfl0 = courant(this->mem->GC);
    if (gcs > 1)      // the step is cut to the largest Courant number of the field it was checked with
    {
      H::yes("only repeated for an adaptive step", VARDT && VARGC); H::eq("cut of the time step", this->dt, dt0 * (this->max_courant / cfl0));
      if (!H::conc()) { if (gcs == 3) H::reject(); this->dt = H::scalar("dt cut", H::pos); }
    }
    newgc(); dt0 = this->dt;
    return VARGC;
  }
  void calc_ndt_gc() override { ev += "n"; }
  void hook_ante_step() override
  {
    ev += "a";
    if constexpr (VARDT && VARGC) { vreal c = courant(this->mem->GC); if (gcs > 1) H::holds("Courant number within the limit", c <= this->max_courant); else H::holds("step not adapted only at rest", c <= 0); }
    H::eq("time step", this->dt, dt0); parent_t::hook_ante_step();
  }
  void hook_ante_delayed_step() override { ev += "d"; parent_t::hook_ante_delayed_step(); }
  void advop(vint e_) override
  {
    int e = int(e_); ev += std::to_string(e); H::ieq("time level", this->n[e], n0[e]);
    arr_t src = this->mem->psi[e][this->n[e]], dst = this->mem->psi[e][this->n[e] + 1];
    if (!H::conc()) { int s = SCALE * (e % 3 - 1); arr_t o = src.copy(); o.reindexSelf(src.lbound()); H::fill(o, "psi" + std::to_string(e) + "." + std::to_string((-n0[e]) & 1)); vreal f = s >= 0 ? vreal(1) / (1 << s) : vreal(1 << -s); if (steps == 1) H::forall<N>(lo(), hi(), [&](const ix &c) { H::eq("scaled for the advection", H::at(src, c), H::at(o, c) * f); }); }
    std::string nm = "adv" + std::to_string(e) + "." + std::to_string(uid++); H::fill(dst, nm); arr_t k = dst.copy(); k.reindexSelf(dst.lbound()); H::fill(k, nm); res[e].reference(k);
  }
  void hook_post_step() override
  {
    ev += "p"; parent_t::hook_post_step();
    std::string want = std::string(gcs, 'G'); if (VARGC && (has(opts::div_3rd) || has(opts::div_3rd_dt))) want += "n"; want += "a";
    for (int ph = 0; ph < 2; ++ph) { for (int e = 0; e < NEQ; ++e) if (((DELAY >> e) & 1) == ph) want += std::to_string(e); if (!ph) want += "d"; } want += "p";
    H::yes("stages in order: " + ev, ev == want);
    H::ieq("step number", this->timestep, step0 + 1);
    if (VARDT) H::eq("time", this->time, time0 + this->dt); else H::eq("time", this->time, vreal(this->timestep) * DT);
    H::eq("stash of the time step", this->dt_stash[0], this->dt); if (has(opts::div_3rd) || has(opts::div_3rd_dt)) H::eq("older stash", this->dt_stash.back(), stash0);
    for (int e = 0; e < NEQ; ++e)
    {
      int s = SCALE * (e % 3 - 1); vreal f = s >= 0 ? vreal(1 << s) : vreal(1) / (1 << -s); arr_t r = res[e], now = this->state(e), user = this->mem->advectee(e);
      H::forall<N>(lo(), hi(), [&](const ix &c) { H::eq("result of the step", H::at(now, c), H::at(r, c) * f); H::eq("field seen by the user", H::at(user, c), H::at(r, c) * f); });
    }
    ev = "-";
    if (extra || (VARDT ? bool(TARGET <= this->time) : false)) ++extra;
    else if (!H::conc() && (VARDT || this->timestep < T0 + NTS)) H::reject();      // invariant holds again
  }
};
template <int N> static void body()
{
  using slv_t = Mon<N>; using arr_t = typename slv_t::arr_t;
  typename slv_t::rt_params_t p; p.n_iters = 1; DT = H::scalar("dt0", H::pos); p.dt = DT;
  for (int d = 0; d < N; ++d) { N_[d] = H::size(dimname[d], NMIN); p.grid_size[d] = N_[d]; }
  loops = steps = extra = 0; ev = "-"; inloop = false;
  typename serial_of<slv_t, N, bcond::custom>::type run(p); auto &s = run.algos[0];
  for (int e = 0; e < NEQ; ++e) H::fill(run.advectee(e), "psi" + std::to_string(e));
  for (int d = 0; d < N; ++d) H::fill(run.advector(d), "C" + std::to_string(d), H::any, 0.15);
#ifdef CONC
  if (N > 1 && H::rint(0, 9)) for (int d = 0; d < N; ++d) { auto C = run.advector(d); double v = H::rnd(-.25, .25); C = v; }
#endif
  if (has(opts::nug)) { H::fill(run.g_factor(), "G", H::pos); if (bcond::BC == bcond::cyclic) wrap<arr_t, N>(run.g_factor(), p.grid_size); }
  T0 = 0; TIME0 = 0; vint first = H::conc() || INIT ? vint(0) : H::integer("T0", 0, 0); H::iassume_le(0, first);
  for (int part = 0; part < (H::conc() ? 3 : 1); ++part)
  {
    if (!H::conc()) { T0 = first; s.timestep = T0; TIME0 = H::scalar("time0", H::nonneg); if (VARDT) s.time = TIME0; else s.time = T0 * DT; }
    else { T0 = s.timestep; TIME0 = s.time; }
    extra = 0; int st0 = steps, l0 = loops; bool fresh = T0 == 0;
    if constexpr (VARDT)
    {
      SPAN = H::scalar("span" + std::to_string(part), H::pos); TARGET = SPAN + TIME0; run.advance(SPAN);
      if (steps > st0) { H::holds("target reached", TARGET <= s.time); H::ieq("steps after the target", extra, ORD > 1 ? ORD : 1); } else H::yes("steps taken", false);
    }
    else { NTS = H::integer("nt" + std::to_string(part), H::conc() && !part ? 1 : 0, 3); H::iassume_le(0, NTS); run.advance(NTS); H::ieq("number of steps", s.timestep, T0 + NTS); if (steps == st0) H::ieq("no step only if none is asked for", NTS, 0); }
    H::ieq("initialised once", loops - l0, fresh ? 1 : 0);
  }
  H::fn("solver_common::solve, solve_loop_body, cycle, scale, hook_ante_loop; solver_*d::courant_number, max_abs_vctr_div, scale_gc, hook_ante_loop; sharedmem::cycle, max, advectee");
}
UNIT("stepping") { body<ND>(); }
