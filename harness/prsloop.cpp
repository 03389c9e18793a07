// contract of the iterative pressure schemes (bodies of the pseudo-time loop): the error field stays the residual of the pressure field, the
// Laplacians kept belong to the search directions kept, and convergence means a residual within the tolerance.
// The Laplacian is represented by its contract (harness/prs.cpp): a linear operator, here multiplication by an arbitrary field - the schemes
// combine fields only linearly, so an identity that holds for every such operator is an identity between polynomials in the operator.
#ifndef NDEBUG
#define NDEBUG
#endif
#include <functional>
#include "setup.hpp"
#include <libmpdata++/solvers/mpdata_rhs_vip_prs.hpp>
#ifndef SCHEME
#define SCHEME mr
#endif
#ifndef KIT
#define KIT 3
#endif
#ifndef SIMPLE
#define SIMPLE 0
#endif
struct Ix { enum { vip_i, vip_j, vip_k, vip_den = -1 }; };
struct ct_params_t : ct_params_default_t { using real_t = vreal; enum { n_dims = ND }; enum { n_eqns = ND }; enum { rhs_scheme = solvers::trapez }; enum { prs_scheme = solvers::SCHEME }; enum { prs_k_iters = KIT }; using ix = Ix; };
static vint N_[3]; static int applied = 0; static bool wrong = false;
namespace libmpdataxx { namespace solvers { namespace detail {
template <> class mpdata_rhs_vip_prs_common<ct_params_t, 0> : public mpdata_rhs_vip<ct_params_t, 0>
{
  public:
  using parent_t = mpdata_rhs_vip<ct_params_t, 0>; using real_t = vreal; using typename parent_t::arr_t; using ijk_t = decltype(mpdata_rhs_vip_prs_common<ct_params_t, 0>::ijk);
  struct rt_params_t : parent_t::rt_params_t { real_t prs_tol; };
  real_t prs_tol, err_tol; bool converged = false; int iters = 0; arr_t Phi, err, W, W2, B;
  mpdata_rhs_vip_prs_common(typename parent_t::ctor_args_t args, const rt_params_t &p) : parent_t(args, p), prs_tol(p.prs_tol), err_tol(p.prs_tol / this->dt), Phi(args.mem->tmp["prs"][0][0]), err(args.mem->tmp["prs"][0][1]), W(args.mem->tmp["prs"][0][2]), W2(args.mem->tmp["prs"][0][3]), B(args.mem->tmp["prs"][0][4]) {}
  static void alloc(typename parent_t::mem_t *mem, const vint &n_iters) { parent_t::alloc(mem, n_iters); parent_t::alloc_tmp_sclr(mem, "prs", 5); }
  real_t prs_sum(const arr_t &a, const ijk_t &i) { return this->mem->sum(this->rank, a, i, false); }
  real_t prs_sum(const arr_t &a, const arr_t &b, const ijk_t &i) { return this->mem->sum(this->rank, a, b, i, false); }
  arr_t lap(arr_t &a, const ijk_t &, const std::array<real_t, parent_t::n_dims> &, bool init, bool simple)
  {
    if (onlap && !quiet) { quiet = true; onlap(); quiet = false; } ++applied; if (simple != bool(SIMPLE)) wrong = true;
    arr_t r = a.copy(); r.reindexSelf(a.lbound()); if (simple) r(this->ijk) = W2(this->ijk) * a(this->ijk); else r(this->ijk) = W(this->ijk) * a(this->ijk); if (init) r(this->ijk) = r(this->ijk) - B(this->ijk);
    arr_t s = r(this->ijk); return s;
  }
  std::function<void()> onlap; bool quiet = false;
  virtual void pressure_solver_loop_init(bool) = 0; virtual void pressure_solver_loop_body(bool) = 0;
};
} } }
using base_t = solvers::mpdata_rhs_vip_prs<ct_params_t>;
template <int N> struct Mon : base_t
{
  using parent_t = base_t; using parent_t::parent_t; using typename parent_t::arr_t; using ix = H::ix<N>; int uid = 0;
  static arr_t cp(arr_t a) { arr_t c = a.copy(); c.reindexSelf(a.lbound()); return c; }
  template <class F> void each(F f) { ix a, b; for (int d = 0; d < N; ++d) { a[d] = 0; b[d] = N_[d] - 1; } H::forall<N>(a, b, f); }
  void any(arr_t a, const std::string &s) { H::fill(a, s + "." + std::to_string(uid++)); }
  // what the scheme iterates on: search directions and their Laplacians
  template <class S> static auto dir(S &s, int, int) -> decltype((s.p_err[0], s.lap_p_err[0], std::vector<std::pair<arr_t, arr_t>>())) { return {{s.p_err[0], s.lap_p_err[0]}}; }
  template <class S> static auto dir(S &s, int, long) -> decltype((arr_t(s.p_err), arr_t(s.lap_p_err), std::vector<std::pair<arr_t, arr_t>>())) { return {{s.p_err, s.lap_p_err}}; }
  template <class S> static std::vector<std::pair<arr_t, arr_t>> dir(S &, long, ...) { return {}; }
  static void coef1(vreal &a) { a = H::scalar("alpha"); } static void coef1(std::vector<vreal> &a) { for (size_t k = 0; k < a.size(); ++k) a[k] = H::scalar("alpha" + std::to_string(k)); }
  template <class S> static auto coef(S &s, int) -> decltype((s.alpha, void())) { coef1(s.alpha); } template <class S> static void coef(S &, long) {}
  template <class S> static auto beta(S &s, int) -> decltype((s.beta = H::scalar(""), void())) { s.beta = H::scalar("beta"); } template <class S> static void beta(S &, long) {}
  void same(const std::string &l, arr_t a, arr_t b) { each([&](const ix &c) { H::eq(l, H::at(a, c), H::at(b, c), 1e-5); }); }
  arr_t laplace(arr_t a, bool with_velocity) { arr_t r = cp(this->err), b = cp(a); r(this->ijk) = this->lap(b, this->ijk, this->dijk, with_velocity, SIMPLE); return r; }
  void tolerance(bool was)
  {
    H::cover(this->converged ? "converged" : "not converged");
    if (this->converged) { vreal M = this->mem->max(this->rank, this->err(this->ijk)), m = this->mem->min(this->rank, this->err(this->ijk)); using std::abs; H::le("residual on convergence", std::max(abs(M), abs(m)), this->err_tol, 1e-12); }
  }
  // the coefficients: every step along a direction goes as far as makes the residual least, the next direction is the error made conjugate to
  // (its Laplacian orthogonal to the Laplacians of) the directions kept. Sums are arbitrary reals, the same for the same sum.
  struct Step { arr_t e, f; std::vector<std::pair<arr_t, arr_t>> d; };
  Step last; int nstep = 0; bool orth = true;
  void before() { { arr_t a = cp(this->err), b = cp(this->Phi); last.e.reference(a); last.f.reference(b); } }
  vreal dot(arr_t a, arr_t b) { return this->prs_sum(a, b, this->ijk); }
  void step_along(arr_t p, arr_t L) { vreal S = dot(L, L); if (bool(S != 0)) { vreal b = -dot(last.e, L) / S; arr_t f = last.f; each([&](const ix &c) { H::eq("step makes the residual least", H::at(this->Phi, c), H::at(f, c) + b * H::at(p, c), 1e-5); }); } }
  void next_is(arr_t got, arr_t q)
  {
    arr_t Lq = laplace(q, false), w = cp(q); bool ok = true;
    for (auto &l : last.d) { vreal S = dot(l.second, l.second); if (bool(S != 0)) { vreal a = -dot(Lq, l.second) / S; w(this->ijk) = w(this->ijk) + a * l.first(this->ijk); } else ok = false; }
    if (ok) same("next direction conjugate to the ones kept", got, w);
  }
  // gcrk: k steps in a body, told apart by the Laplacian asked for after each
  template <class S> auto begin(S &s, int) -> decltype((s.tmp_den.size(), s.p_err[0], void()))
  {
    before(); nstep = 0; last.d.clear();
    s.onlap = [&] { if (nstep) next_is(s.p_err[nstep], last.e); along(s, 0); };
  }
  template <class S> auto along(S &s, int) -> decltype((s.tmp_den.size(), s.p_err[0], void()))
  {
    arr_t p = cp(s.p_err[nstep]), L = cp(s.lap_p_err[nstep]); step_along(p, L); last.d.push_back({p, L}); before(); ++nstep;
  }
  template <class S> auto finish(S &s, int) -> decltype((s.tmp_den.size(), s.p_err[0], void()))
  {
    s.onlap = nullptr; if (this->converged) { if (nstep) next_is(s.p_err[nstep], last.e); along(s, 0); } else { H::yes("steps in a body", nstep == int(s.tmp_den.size())); next_is(s.p_err[0], last.e); }
  }
  // pc: one step; the error is preconditioned (a Richardson iteration) before it becomes a direction
  template <class S> auto begin(S &s, int) -> decltype((s.pcnd_err, void())) { before(); last.d.clear(); last.d.push_back({cp(s.p_err), cp(s.lap_p_err)}); }
  template <class S> auto finish(S &s, int) -> decltype((s.pcnd_err, void()))
  {
    step_along(last.d[0].first, last.d[0].second); if (this->converged) return;
    arr_t r = laplace(s.q_err, false); r(this->ijk) = r(this->ijk) - s.err(this->ijk); same("error of the preconditioner", s.pcnd_err, r); next_is(s.p_err, s.q_err);
  }
  // mr: a step along the error itself
  template <class S> auto begin(S &, long) -> std::enable_if_t<sizeof(S) && solvers::SCHEME == solvers::mr> { before(); }
  template <class S> auto finish(S &, long) -> std::enable_if_t<sizeof(S) && solvers::SCHEME == solvers::mr> { arr_t e = last.e; step_along(e, laplace(e, false)); }
  template <class S> void begin(S &, ...) {} template <class S> void finish(S &, ...) {}
  void check()
  {
    any(this->W, "W"); any(this->W2, "W2"); any(this->B, "B");
    // entering the iteration
    any(this->Phi, "Phi"); any(this->err, "err"); arr_t e0 = cp(this->err), f0 = cp(this->Phi); this->converged = false; this->pressure_solver_loop_init(SIMPLE);
    same("pressure kept", this->Phi, f0); same("residual kept", this->err, e0);
    for (auto &p : dir(*this, 0, 0)) same("Laplacian of the first direction", p.second, laplace(p.first, false));
    // an arbitrary iteration (concretely: a few from the start)
    if (H::conc()) { arr_t r = laplace(this->Phi, true); this->err(this->ijk) = r(this->ijk); this->pressure_solver_loop_init(SIMPLE); }
    for (int it = 0; it < (H::conc() ? 4 : 1) && !this->converged; ++it)
    {
      if (!H::conc())
      {
        any(this->Phi, "Phi"); arr_t r = laplace(this->Phi, true); this->err(this->ijk) = r(this->ijk);
        for (auto &p : dir(*this, 0, 0)) { any(p.first, "p"); arr_t q = laplace(p.first, false); p.second(this->ijk) = q(this->ijk); }
        beta(*this, 0); coef(*this, 0);
      }
      begin(*this, 0); this->pressure_solver_loop_body(SIMPLE); finish(*this, 0);
      same("the error is the residual of the pressure", this->err, laplace(this->Phi, true));
      if (!this->converged) for (auto &p : dir(*this, 0, 0)) same("Laplacian of the next direction", p.second, laplace(p.first, false));
      tolerance(false);
    }
    H::yes("the Laplacian asked for", !wrong);
  }
};
template <class P> static auto pcit(P &p, int) -> decltype((p.pc_iters, void())) { p.pc_iters = 2; } template <class P> static void pcit(P &, long) {}
template <int N> static void body()
{
  H::forget_sums(2);      // the contract of a sum: some real number, the same for the same sum
  using slv_t = Mon<N>; typename slv_t::rt_params_t p; p.n_iters = 2; vreal dt = H::scalar("dt", H::pos); p.dt = dt; p.prs_tol = H::conc() ? vreal(H::rnd(0.05, 0.5)) * dt : H::scalar("tol", H::pos); wrong = false;
  for (int d = 0; d < N; ++d) { N_[d] = H::size(dimname[d], NMIN); p.grid_size[d] = N_[d]; }
  p.di = 1; p.dj = 1; if constexpr (N > 2) p.dk = 1; pcit(p, 0);
  typename serial_of<slv_t, N, bcond::BC>::type run(p);
  static_cast<Mon<N> &>(run.algos[0]).check();
  H::fn("mpdata_rhs_vip_prs_mr, _gcrk, _pc: pressure_solver_loop_init, pressure_solver_loop_body, precond");
}
UNIT("prsloop") { body<ND>(); }
