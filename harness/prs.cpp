// contract of the pressure solvers (mpdata_rhs_vip_prs).
// the projection around the iteration, whose body is represented by its contract (an arbitrary pressure); prsloop.cpp has the bodies
#ifndef NDEBUG
#define NDEBUG
#endif
#include "setup.hpp"
#include <libmpdata++/solvers/mpdata_rhs_vip_prs.hpp>
#ifndef VAB
#define VAB noab
#endif
template <int N> struct Ix { enum { vip_i, vip_j, vip_k, vip_den = -1 }; };
struct ct_params_t : ct_params_default_t { using real_t = vreal; enum { n_dims = ND }; enum { n_eqns = ND }; enum { opts = OPTS }; enum { rhs_scheme = solvers::trapez }; enum { vip_vab = solvers::VAB }; enum { prs_scheme = solvers::mr }; using ix = Ix<ND>; };
constexpr auto AB = solvers::VAB; constexpr bool CY = bcond::BC == bcond::cyclic, RI = bcond::BC == bcond::rigid;
static vint N_[3]; static vreal dX[3];
template <int N> using ixs = H::ix<N>;
// central difference of f along d; beyond a periodic boundary its image, at other boundaries the one-sided difference
template <int N, class F> static vreal diff(F f, int d, const ixs<N> &c)
{
  ixs<N> p = H::sh<N>(c, d, 1), m = H::sh<N>(c, d, -1);
  if (bool(m[d] < 0)) { if (CY) m[d] = m[d] + (N_[d] - 1); else return (f(p) - f(c)) / dX[d]; }
  if (bool(p[d] > N_[d] - 1)) { if (CY) p[d] = p[d] - (N_[d] - 1); else return (f(c) - f(m)) / dX[d]; }
  return (f(p) - f(m)) / dX[d] / 2;
}
template <int N> static bool edge(int d, const ixs<N> &c) { return !CY && (bool(c[d] == 0) || bool(c[d] == N_[d] - 1)); }
template <int N, class P> struct Common : P
{
  using P::P; using arr_t = typename P::arr_t; using ix = ixs<N>; using CT = ct_params_t;
  std::vector<arr_t> E, U, A, X; int uid = 0;       // velocities fixing the edges; velocities entering a projection
  ix lo() { ix r; for (int d = 0; d < N; ++d) r[d] = 0; return r; }
  ix hi() { ix r; for (int d = 0; d < N; ++d) r[d] = N_[d] - 1; return r; }
  static arr_t cp(arr_t a) { arr_t c = a.copy(); c.reindexSelf(a.lbound()); return c; }
  template <class F> void each(F f) { H::forall<N>(lo(), hi(), f); }
  void any(arr_t a, const std::string &s) { H::fill(a, s + "." + std::to_string(uid++)); if (CY) wrap<arr_t, N>(a, N_); }
  void snap(std::vector<arr_t> &v) { v.clear(); for (int e = 0; e < N; ++e) v.push_back(cp(this->state(e))); }
  vreal g(const ix &c) { if (!this->mem->G) return 1; arr_t G = *this->mem->G; return H::at(G, c); }
  vreal damp(const ix &c, bool simple) { if (simple || AB != solvers::impl) return 1; arr_t a = *this->mem->vab_coeff; return 1 + vreal(.5) * this->dt * H::at(a, c); }
  arr_t PP;                                           // the pressure the projection is to be made with
  vreal grad(int d, const ix &c) { arr_t p = PP; return diff<N>([&](const ix &q) { return H::at(p, q); }, d, c); }
  vreal edgevel(int d, const ix &c) { if (RI) return 0; return H::at(E[d], c); }
  // the velocity left once the gradient of the pressure has been taken off u
  vreal left(std::vector<arr_t> &u, int d, const ix &c, bool simple) { if (edge<N>(d, c)) return edgevel(d, c); return (H::at(u[d], c) - grad(d, c)) / damp(c, simple); }
  template <class F> vreal divergence(F v, const ix &c) { vreal s = 0; for (int d = 0; d < N; ++d) s = s + diff<N>([&](const ix &q) { return g(q) * v(d, q); }, d, c); return s / g(c); }
};
using base_t = solvers::detail::mpdata_rhs_vip_prs_common<ct_params_t, 0>;
template <int N> struct Mon : Common<N, base_t>
{
  using parent_t = Common<N, base_t>; using parent_t::parent_t; using typename parent_t::arr_t; using typename parent_t::ix;
  bool simple = true; int bodies = 0, solves = 0, gcs = 0; vreal tol = 0;
  void pressure_solver_loop_init(bool s) override
  {
    H::yes("simple Laplacian exactly for the initial field", s == simple); bodies = 0; ++solves; { arr_t q = cp(this->Phi); this->PP.reference(q); }
    std::vector<arr_t> t; for (int d = 0; d < N; ++d) t.push_back(cp(this->state(d))); arr_t e = this->err;
    this->each([&](const ix &c) { H::eq("residual before the iteration", H::at(e, c), -this->divergence([&](int d, const ix &q) { return this->left(t, d, q, s); }, c), 1e-5); });
    // the operator alone: the same, without velocities
    arr_t q = cp(this->Phi), L = cp(this->err); this->any(q, "q"); { arr_t z = cp(q); L(this->ijk) = this->lap(z, this->ijk, this->dijk, false, s); arr_t keep = z; this->each([&](const ix &c) { H::eq("field kept by the Laplacian", H::at(keep, c), H::at(q, c)); }); }
    this->each([&](const ix &c) { H::eq("Laplacian", H::at(L, c), this->divergence([&](int d, const ix &x) { return edge<N>(d, x) ? vreal(0) : diff<N>([&](const ix &y) { return H::at(q, y); }, d, x) / this->damp(x, s); }, c), 1e-5); });
    H::eq("tolerance of the residual", this->err_tol, tol / this->dt);
  }
  using parent_t::cp;
  void pressure_solver_loop_body(bool s) override
  {
    H::yes("simple Laplacian exactly for the initial field", s == simple);
    this->any(this->Phi, "Phi"); this->any(this->err, "err"); this->converged = ++bodies == 2; { arr_t q = cp(this->Phi); this->PP.reference(q); }
  }
  // v: the velocities entering, w: the velocities of the projected field
  void projected(std::vector<arr_t> &v, std::vector<arr_t> &w)
  {
    H::yes("iterated until converged", bodies == 2);
    for (int d = 0; d < N; ++d) { arr_t a = w[d]; this->each([&](const ix &c) { H::eq("projected velocity", H::at(a, c), this->left(v, d, c, simple), 1e-5); }); }
    this->each([&](const ix &c)
    {
      vreal r = -this->divergence([&](int d, const ix &q) { return this->left(v, d, q, simple); }, c), D = this->divergence([&](int d, const ix &q) { return H::at(w[d], q); }, c);
      H::eq("divergence left is the residual of the pressure", D, -r, 1e-5);
    });
  }
  void hook_ante_loop(const typename parent_t::advance_arg_t n) override
  {
    this->snap(this->E); simple = true; parent_t::hook_ante_loop(n); H::yes("one projection", solves == 1); simple = false;
    std::vector<arr_t> w; for (int d = 0; d < N; ++d) w.push_back(cp(this->state(d))); simple = true; projected(this->E, w); simple = false;
    // the pressure the first step starts from
    for (int d = 0; d < N; ++d) { arr_t f = this->vip_rhs[d]; this->each([&](const ix &c) {
      vreal x = diff<N>([&](const ix &q) { vreal s = 0; for (int e = 0; e < N; ++e) s = s - vreal(.5) * H::at(w[e], q) * H::at(w[e], q); return s; }, d, c);
      vreal force = 0; if (AB == solvers::impl) { arr_t a = *this->mem->vab_coeff, r = this->mem->vab_relax[d]; force = -(H::at(a, c) * (H::at(w[d], c) - H::at(r, c))); }
      H::eq("forces before the first step", H::at(f, c), force - x, 1e-5); }); }
  }
  bool calc_gc() override
  {
    // two arbitrary successive states
    std::vector<arr_t> V, O; vreal b = 0;
    if (!H::conc() || gcs == 0) { for (int d = 0; d < N; ++d) { this->any(this->state(d), "V"); if (!CY) edges(this->state(d), d); } }
    for (int d = 0; d < N; ++d) { V.push_back(cp(this->state(d))); arr_t o = cp(this->state(d)); if (!H::conc()) { this->any(o, "O"); if (!CY) edges(o, d); this->vip_stash(-1)[d](this->ijk) = o(this->ijk); } else { arr_t s = this->vip_stash(-1)[d]; o(this->ijk) = s(this->ijk); } O.push_back(o); }
    if (!H::conc()) this->dt_stash[0] = H::scalar("dt0", H::pos); if (bool(this->dt_stash[0] > 0)) b = this->dt / (2 * this->dt_stash[0]);
    ++gcs; bool r = parent_t::calc_gc();
    ix a = this->lo(), z = this->hi(); if (!CY && !RI) for (int d = 0; d < N; ++d) { a[d] = a[d] + 1; z[d] = z[d] - 1; }
    H::forall<N>(a, z, [&](const ix &c)
    {
      vreal s = 0; for (int d = 0; d < N; ++d) { arr_t q = this->mem->GC[d]; s = s + H::at(q, c) - H::at(q, H::sh<N>(c, d, -1)); }
      vreal x = this->divergence([&](int d, const ix &q) { return H::at(V[d], q); }, c), y = this->divergence([&](int d, const ix &q) { return H::at(O[d], q); }, c);
      H::eq("divergence of the advector", s, this->dt * this->g(c) * ((1 + b) * x - b * y), 1e-5);
    });
    return r;
  }
  void edges(arr_t a, int d)        // velocities through rigid walls vanish (as a projection leaves them)
  {
    if (!RI) return; for (int k = 0; k < 2; ++k) { auto t = a.domain(); t.lbound(d) = t.ubound(d) = k ? vint(N_[d] - 1) : vint(0); a(t) = 0; }
  }
  void advop(vint e_) override
  {
    int e = int(e_); arr_t dst = this->mem->psi[e][this->solvers::template mpdata<solvers::detail::ct_params_vip_default_t<ct_params_t>>::n[e] + 1]; this->any(dst, "adv");
  }
  void vip_rhs_impl_fnlz() override
  {
    std::vector<arr_t> O, v, w; for (int d = 0; d < N; ++d) O.push_back(cp(this->state(d)));
    for (int d = 0; d < N; ++d) { arr_t t = cp(this->state(d)); if (AB == solvers::impl) t(this->ijk) = t(this->ijk) + vreal(.5) * this->dt * (*this->mem->vab_coeff)(this->ijk) * this->mem->vab_relax[d](this->ijk); v.push_back(t); }
    simple = false; int k = solves; parent_t::vip_rhs_impl_fnlz(); H::yes("one projection a step", solves == k + 1);
    for (int d = 0; d < N; ++d) w.push_back(cp(this->state(d))); projected(v, w);
    for (int d = 0; d < N; ++d) { arr_t f = this->vip_rhs[d]; this->each([&](const ix &c) { H::eq("forces kept for the next step", H::at(O[d], c) + vreal(.5) * this->dt * H::at(f, c), H::at(w[d], c), 1e-5); }); }
  }
};
template <int N> static void body()
{
  H::forget_sums();      // nothing depends on which step sizes the schemes choose
  using slv_t = Mon<N>; typename slv_t::rt_params_t p; p.n_iters = 2; vreal dt = H::scalar("dt", H::pos); p.dt = dt; p.prs_tol = H::scalar("tol", H::pos);
  for (int d = 0; d < N; ++d) { N_[d] = H::size(dimname[d], NMIN); p.grid_size[d] = N_[d]; dX[d] = H::scalar(std::string("d") + "xyz"[d], H::pos); }
  p.di = dX[0]; p.dj = dX[1]; if constexpr (N > 2) p.dk = dX[2];
  typename serial_of<slv_t, N, bcond::BC>::type run(p);
  for (int e = 0; e < N; ++e) { auto a = run.advectee(e); H::fill(a, "psi" + std::to_string(e)); if (CY) wrap<decltype(a), N>(a, N_); }
  if constexpr (opts::isset(opts::opts_t(OPTS), opts::nug)) { auto a = run.g_factor(); H::fill(a, "G", H::pos); if (CY) wrap<decltype(a), N>(a, N_); }
  if constexpr (solvers::VAB != solvers::noab) { auto a = run.vab_coefficient(); H::fill(a, "alpha", H::nonneg); if (CY) wrap<decltype(a), N>(a, N_); for (int d = 0; d < N; ++d) { auto r = run.vab_relaxed_state(d); H::fill(r, "relax" + std::to_string(d)); if (CY) wrap<decltype(r), N>(r, N_); } }
  static_cast<Mon<N> &>(run.algos[0]).tol = p.prs_tol;
  H::advance(run, 1);
  H::fn("mpdata_rhs_vip_prs_common::hook_ante_loop, pressure_solver_update, pressure_solver_apply, vip_rhs_impl_fnlz, ini_pressure, lap; formulae::nabla; mpdata_rhs_vip calc_gc");
}
UNIT("prs") { body<ND>(); }
