// contract of mpdata_rhs: how right-hand sides enter a step under each integration scheme.  update_rhs and advop are represented by
// their contracts (an arbitrary right-hand side, an arbitrary advected field).
#ifndef NDEBUG
#define NDEBUG      // the destructor asserts that update_rhs was called, also when a trial was rejected
#endif
#include "setup.hpp"
#include <libmpdata++/solvers/mpdata_rhs.hpp>
#ifndef NEQ
#define NEQ 2
#endif
#ifndef DELAY
#define DELAY 0
#endif
#ifndef NORHS
#define NORHS 0
#endif
#ifndef VARDT
#define VARDT 0
#endif
#ifndef SCHEME
#define SCHEME trapez
#endif
using solvers::rhs_scheme_t;
struct ct_params_t : ct_params_default_t { using real_t = vreal; enum { n_dims = ND }; enum { n_eqns = NEQ }; enum { opts = OPTS }; enum { delayed_step = DELAY }; enum { hint_norhs = NORHS }; enum { rhs_scheme = solvers::SCHEME }; enum { var_dt = VARDT }; };
constexpr rhs_scheme_t SCH = solvers::SCHEME;
static vint N_[3]; static vreal DT; static int steps, updates, loops; static std::string ev;
static bool norhs(int e) { return (NORHS >> e) & 1; }
template <int N, class CT = ct_params_t> struct Mon : solvers::mpdata_rhs<CT>
{
  using parent_t = solvers::mpdata_rhs<CT>; using parent_t::parent_t; using arr_t = typename parent_t::arr_t; using ix = H::ix<N>;
  std::vector<arr_t> S, A, R, P; int uid = 0;            // state before the step, advected, right-hand side in use, the one before
  ix lo() { ix r; for (int d = 0; d < N; ++d) r[d] = 0; return r; }
  ix hi() { ix r; for (int d = 0; d < N; ++d) r[d] = N_[d] - 1; return r; }
  static arr_t cp(arr_t a) { arr_t c = a.copy(); c.reindexSelf(a.lbound()); return c; }
  std::vector<arr_t> all(bool rhs) { std::vector<arr_t> v; for (int e = 0; e < NEQ; ++e) v.push_back(cp(rhs ? this->rhs.at(e) : this->state(e))); return v; }
  template <class F> void same(const std::string &l, arr_t a, F f) { H::forall<N>(lo(), hi(), [&](const ix &c) { H::eq(l, H::at(a, c), f(c)); }); }
  void hook_ante_loop(const typename parent_t::advance_arg_t n) override
  {
    S = all(false); ev = "L"; updates = 0; parent_t::hook_ante_loop(n); ++loops; for (int e = 0; e < NEQ; ++e) { arr_t s = S[e]; same("initial state kept", this->state(e), [&](const ix &c) { return H::at(s, c); }); }
    H::yes("right-hand side evaluated before the first step: " + ev, ev == (SCH == solvers::trapez ? "Lu" : SCH == solvers::mixed ? "Lm" : "L")); ev = "-";
  }
  bool calc_gc() override
  {
    if (VARDT && steps == 2) H::reject();   // the step after an arbitrary one has been checked
    if (steps++ && !H::conc())       // an arbitrary earlier step
    { for (int e = 0; e < NEQ; ++e) { H::fill(this->state(e), "psi" + std::to_string(e) + "." + std::to_string(uid)); H::fill(this->rhs.at(e), "rhs" + std::to_string(e) + "." + std::to_string(uid)); } if (VARDT) this->dt = H::scalar("dt" + std::to_string(uid), H::pos); }
    ++uid; S = all(false); P = all(true); ev = ""; return false;
  }
  void update_rhs(arrvec_t<arr_t> &rhs, const vreal &dt, const vint &at) override
  {
    ev += "u"; auto s = all(false); parent_t::update_rhs(rhs, dt, at); H::yes("the right-hand sides are those of the solver", &rhs == &this->rhs);
    H::eq("time step given to update_rhs", dt, SCH == solvers::trapez ? this->dt / 2 : this->dt); H::ieq("time level given to update_rhs", at, SCH == solvers::trapez && ev != "Lu" ? 1 : 0);
    for (int e = 0; e < NEQ; ++e)
    {
      arr_t b = s[e]; same("update_rhs keeps the fields", this->state(e), [&](const ix &c) { return H::at(b, c); });
      if (ev != "Lu") { arr_t w = SCH == solvers::trapez ? A[e] : S[e]; same("fields the right-hand side is computed from", this->state(e), [&](const ix &c) { return H::at(w, c); }); }
      arr_t now = cp(this->state(e)); this->xchng(e); arr_t fresh = this->state(e); ix a = lo(), z = hi(); for (int d = 0; d < N; ++d) { a[d] = a[d] - this->halo; z[d] = z[d] + this->halo; }
      for (int d = 0; d < N; ++d) { ix p = lo(), q = hi(); p[d] = a[d]; q[d] = z[d]; H::forall<N>(p, q, [&](const ix &c) { H::eq("halos the right-hand side may use", H::at(now, c), H::at(fresh, c)); }); }
      if (!norhs(e)) { same("cleared right-hand side", rhs.at(e), [&](const ix &) { return vreal(0); }); H::fill(rhs.at(e), "R" + std::to_string(e) + "." + std::to_string(uid)); }
    }
    R = all(true); ++updates; ++uid;
  }
  void hook_mixed_rhs_ante_loop() override { ev += "m"; } void hook_mixed_rhs_ante_step() override { ev += "m"; } void hook_mixed_rhs_post_step() override { ev += "M"; }
  void advop(vint e_) override
  {
    int e = int(e_); ev += std::to_string(e); arr_t src = this->state(e), dst = this->mem->psi[e][this->solvers::template mpdata<CT>::n[e] + 1], s = S[e];
    vreal f = 0; arr_t r = S[e]; if (!norhs(e)) { if (SCH == solvers::euler_b) { f = this->dt; r.reference(R[e]); } if (SCH == solvers::trapez) { f = this->dt / 2; r.reference(P[e]); } }
    same("field that is advected", src, [&](const ix &c) { return H::at(s, c) + f * H::at(r, c); });
    std::string nm = "adv" + std::to_string(e) + "." + std::to_string(uid++); H::fill(dst, nm); arr_t k = cp(dst); A.resize(NEQ); A[e].reference(k);
  }
  void hook_post_step() override
  {
    parent_t::hook_post_step(); std::string w = SCH == solvers::euler_a || SCH == solvers::euler_b ? "u" : SCH == solvers::mixed ? "m" : "";
    for (int ph = 0; ph < 2; ++ph) for (int e = 0; e < NEQ; ++e) if (((DELAY >> e) & 1) == ph) w += std::to_string(e); w += SCH == solvers::trapez ? "u" : SCH == solvers::mixed ? "M" : "";
    H::yes("order of the stages: " + ev, ev == w);
    for (int e = 0; e < NEQ; ++e) { vreal f = norhs(e) || SCH == solvers::euler_b || SCH == solvers::mixed ? vreal(0) : SCH == solvers::euler_a ? this->dt : this->dt / 2; arr_t a = A[e], r = f_(e); same("field after the step", this->state(e), [&](const ix &c) { return H::at(a, c) + f * H::at(r, c); }); same("field seen by the user", this->mem->advectee(e), [&](const ix &c) { return H::at(a, c) + f * H::at(r, c); }); }
    if (SCH == solvers::trapez) for (int e = 0; e < NEQ; ++e) if (!norhs(e)) { arr_t r = R[e]; same("right-hand side kept for the next step", this->rhs.at(e), [&](const ix &c) { return H::at(r, c); }); }
  }
  arr_t f_(int e) { return SCH == solvers::mixed ? A[e] : R[e]; }
};
template <int N> static void body()
{
  using slv_t = Mon<N>; typename slv_t::rt_params_t p; p.n_iters = 1; DT = H::scalar("dt", H::pos); p.dt = DT; steps = updates = loops = 0;
  for (int d = 0; d < N; ++d) { N_[d] = H::size(dimname[d], NMIN); p.grid_size[d] = N_[d]; }
  typename serial_of<slv_t, N, bcond::BC>::type run(p);
  for (int e = 0; e < NEQ; ++e) H::fill(run.advectee(e), "psi" + std::to_string(e));
  for (int d = 0; d < N; ++d) run.advector(d) = .1;
  H::advance(run, VARDT ? 1 : 2); H::yes("steps taken", steps >= 1);
  H::fn("mpdata_rhs::update_rhs, apply_rhs, hook_ante_loop, hook_ante_step, hook_post_step");
}
UNIT("rhs") { body<ND>(); }
