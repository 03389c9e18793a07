// contract of the velocity-in-advectees solvers (mpdata_rhs_vip): time extrapolation, interpolation to faces, time derivatives of the
// advector, the history they need, and velocity absorbers.  update_rhs and advop are represented by their contracts.
#ifndef NDEBUG
#define NDEBUG
#endif
#include "setup.hpp"
#include <libmpdata++/solvers/mpdata_rhs_vip.hpp>
#ifndef DENS
#define DENS 0        // 1: momenta are advected, 2: with a positive threshold
#endif
#ifndef VARDT
#define VARDT 0
#endif
#ifndef VAB
#define VAB noab
#endif
#ifndef SCHEME
#define SCHEME trapez
#endif
template <int N> struct Ix { enum { vip_i, vip_j, vip_k, vip_den = -1 }; };
template <> struct Ix<1> { enum { vip_i, h, vip_den = DENS ? h : -1 }; };
template <> struct Ix<2> { enum { vip_i, vip_j, h, vip_den = DENS ? h : -1 }; };
template <> struct Ix<3> { enum { vip_i, vip_j, vip_k, h, vip_den = DENS ? h : -1 }; };
struct ct_params_t : ct_params_default_t { using real_t = vreal; enum { n_dims = ND }; enum { n_eqns = ND + 1 }; enum { opts = OPTS }; enum { rhs_scheme = solvers::SCHEME }; enum { var_dt = VARDT }; enum { vip_vab = solvers::VAB }; using ix = Ix<ND>; };
using solvers::vip_vab_t; constexpr vip_vab_t AB = solvers::VAB; constexpr auto SCH = solvers::SCHEME;
static vint N_[3]; static vreal EPS, dX[3]; static int steps, gcs;
template <int N, class CT = ct_params_t> struct Mon : solvers::mpdata_rhs_vip<CT>
{
  using parent_t = solvers::mpdata_rhs_vip<CT>; using parent_t::parent_t; using arr_t = typename parent_t::arr_t; using ix = H::ix<N>;
  static constexpr bool D3 = parent_t::div3_mpdata;
  std::vector<arr_t> V[3], S, F, A, Rp, Rn; int uid = 0; bool cut = false;      // velocities at n, n-1, n-2; fields before the step; forces; advected; right-hand sides
  vreal dt0, dt1;
  ix lo() { ix r; for (int d = 0; d < N; ++d) r[d] = 0; return r; }
  ix hi() { ix r; for (int d = 0; d < N; ++d) r[d] = N_[d] - 1; return r; }
  static arr_t cp(arr_t a) { arr_t c = a.copy(); c.reindexSelf(a.lbound()); return c; }
  arr_t newarr(const std::string &s, H::Sign g = H::any) { arr_t c = this->state(0).copy(); c.reindexSelf(this->state(0).lbound()); H::fill(c, s + "." + std::to_string(uid++), g); return c; }
  template <class F> void each(F f) { H::forall<N>(lo(), hi(), f); }
  // cells outside a periodic domain are the periodic images
  static ix image(ix c) { for (int d = 0; d < N; ++d) { if (c[d] < 0) c[d] = c[d] + (N_[d] - 1); else if (c[d] > N_[d] - 1) c[d] = c[d] - (N_[d] - 1); } return c; }
  vreal vel(int d, const ix &c)
  {
    arr_t m = this->state(d); if (!DENS) return H::at(m, c);
    arr_t h = this->state(N); vreal q = H::at(m, c) / H::at(h, c); if (DENS == 1) return q;
    return bool(H::at(h, c) > EPS) ? q : vreal(0);
  }
  void snap(std::vector<arr_t> &v) { v.clear(); for (int e = 0; e < CT::n_eqns; ++e) v.push_back(cp(this->state(e))); }
  // the velocity of an earlier step: an array of its own, equal to the stash by the contract of fill_stash
  void hist()
  {
    for (int l = 1; l <= (D3 ? 2 : 1); ++l) for (int d = 0; d < N; ++d) { arr_t a = V[l][d], s = this->vip_stash(-l)[d]; each([&](const ix &c) { H::eq("velocity " + std::to_string(l) + " step(s) ago", H::at(s, c), H::at(a, c)); }); }
  }
  void havoc()
  {
    for (int e = 0; e < CT::n_eqns; ++e) { arr_t s = this->state(e); H::fill(s, "psi" + std::to_string(e) + "." + std::to_string(uid++), DENS && e == N ? H::pos : H::any); if (bcond::BC == bcond::cyclic) wrap<arr_t, N>(s, N_); H::fill(this->rhs.at(e), "rhs." + std::to_string(uid++)); }
    for (int l = 1; l <= 2; ++l) { V[l].clear(); for (int d = 0; d < N; ++d) V[l].push_back(newarr("V")); }
    for (int l = 1; l <= 2; ++l) if (bcond::BC == bcond::cyclic) for (int d = 0; d < N; ++d) wrap<arr_t, N>(V[l][d], N_);
    for (int d = 0; d < N; ++d) { for (int l = 1; l <= (D3 ? 2 : 1); ++l) this->vip_stash(-l)[d](this->ijk) = V[l][d](this->ijk); }
    this->dt_stash[0] = H::scalar("dt0", H::pos); if (D3) this->dt_stash[1] = H::scalar("dt1", H::pos); if (VARDT) this->dt = H::scalar("dt2", H::pos); impl_state();
  }
  void impl_state() { for (int d = 0; d < N; ++d) { arr_t f = this->vip_rhs[d]; if (AB == solvers::impl) f(this->ijk) = -(*this->mem->vab_coeff)(this->ijk) * (this->state(d)(this->ijk) - this->mem->vab_relax[d](this->ijk)); else f(this->ijk) = 0; } }
  void forces(const char *l)
  {
    for (int d = 0; d < N; ++d) { arr_t f = this->vip_rhs[d], v = this->state(d); if (AB != solvers::impl) { each([&](const ix &c) { H::eq(l, H::at(f, c), 0); }); continue; }
      arr_t a = *this->mem->vab_coeff, r = this->mem->vab_relax[d]; each([&](const ix &c) { H::eq(l, H::at(f, c), -(H::at(a, c) * (H::at(v, c) - H::at(r, c))), 1e-5); }); }
  }
  void hook_ante_loop(const typename parent_t::advance_arg_t n) override
  {
    parent_t::hook_ante_loop(n); forces("velocity forces before the first step");
    for (int l = 1; l <= 2; ++l) { V[l].clear(); for (int d = 0; d < N; ++d) { arr_t z = cp(this->state(0)); z = 0; V[l].push_back(z); } } cut = false;
  }
  vreal extrap(int d, const ix &c) { vreal b = bool(dt0 > 0) ? this->dt / (2 * dt0) : vreal(0); return (1 + b) * H::at(V[0][d], c) - b * H::at(V[1][d], c); }
  // dst is f interpolated to the faces, as a Courant number
  template <class F> void faces(const std::string &l, arrvec_t<arr_t> &dst, F f)
  {
    bool cy = bcond::BC == bcond::cyclic; int ex = this->halo - 1;
    for (int d = 0; d < N; ++d) for (int o = -1; o < N; ++o)
    {
      if (o == d || (o >= 0 && (!cy || ex == 0))) continue;      // o: the transverse dimension in which the halo is looked at
      ix a = lo(), z = hi(); z[d] = z[d] - 1; if (cy) { a[d] = a[d] - 1; z[d] = z[d] + 1; } if (o >= 0) { a[o] = a[o] - ex; z[o] = z[o] + ex; }
      H::forall<N>(a, z, [&](const ix &c) { arr_t g = dst[d]; ix p = image(c), q = image(H::sh<N>(c, d, 1)); vreal wp = 1, wq = 1; if (this->mem->G) { arr_t G = *this->mem->G; wp = H::at(G, p); wq = H::at(G, q); }
        H::eq(l, H::at(g, c), this->dt / dX[d] * vreal(.5) * (wp * f(d, p) + wq * f(d, q)), 1e-5); });
    }
  }
  bool calc_gc() override
  {
    if (!cut)
    {
      if (steps == (H::conc() ? 4 : 2)) H::reject();
      if (steps++ && !H::conc()) havoc(); else if (H::conc() && bcond::BC == bcond::cyclic) for (int e = 0; e < CT::n_eqns; ++e) wrap<arr_t, N>(this->state(e), N_);
      V[0].clear(); for (int d = 0; d < N; ++d) { arr_t a = newarr("V"); velocity(a, d); V[0].push_back(a); }
      hist(); dt0 = this->dt_stash[0]; if (D3) dt1 = this->dt_stash[1];
    }
    else { if (gcs == 3) H::reject(); if (!H::conc()) this->dt = H::scalar("dt cut", H::pos); }
    ++gcs; snap(S); bool r = parent_t::calc_gc(); H::yes("the advector varies in time", r);
    for (int e = 0; e < CT::n_eqns; ++e) { arr_t a = S[e], b = this->state(e); each([&](const ix &c) { H::eq("fields kept", H::at(b, c), H::at(a, c)); }); }
    faces("advector", this->mem->GC, [&](int d, const ix &c) { return extrap(d, c); });
    cut = VARDT; return r;
  }
  void velocity(arr_t a, int d)       // an array of the velocities at the current step
  {
    arr_t m = this->state(d);
    if (!DENS) a(this->ijk) = m(this->ijk);
    else { arr_t h = this->state(N); if (DENS == 1) a(this->ijk) = m(this->ijk) / h(this->ijk); else a(this->ijk) = where(h(this->ijk) > EPS, m(this->ijk) / h(this->ijk), 0); }
  }
  void hook_ante_step() override
  {
    cut = false; gcs = 0;
    if (D3)
    {
      if (bool(dt0 > 0)) faces("first time derivative", this->mem->ndt_GC, [&](int d, const ix &c) { return this->dt * (H::at(V[0][d], c) - H::at(V[1][d], c)) / dt0; });
      if (bool(dt0 > 0) && bool(dt1 > 0)) faces("second time derivative", this->mem->ndtt_GC, [&](int d, const ix &c) { vreal a = (H::at(V[0][d], c) - H::at(V[1][d], c)) / dt0, b = (H::at(V[1][d], c) - H::at(V[2][d], c)) / dt1; return this->dt * this->dt * (a - b) / (vreal(.5) * (dt0 + dt1)); });
    }
    snap(S); F.clear(); for (int d = 0; d < N; ++d) F.push_back(newarr("F"));
    Rp.clear(); for (int e = 0; e < CT::n_eqns; ++e) Rp.push_back(cp(this->rhs.at(e)));
    parent_t::hook_ante_step();
    for (int e = 0; e < CT::n_eqns; ++e)
    {
      arr_t s = S[e], b = this->state(e), r = SCH == solvers::trapez ? Rp[e] : SCH == solvers::euler_b ? Rn[e] : s; vreal f = SCH == solvers::trapez ? this->dt / 2 : SCH == solvers::euler_b ? this->dt : vreal(0);
      each([&](const ix &c) { vreal w = H::at(s, c) + f * H::at(r, c); if (e < N && AB != solvers::noab) { arr_t al = *this->mem->vab_coeff, x = this->mem->vab_relax[e]; w = w - (AB == solvers::expl ? this->dt : this->dt / 2) * H::at(al, c) * (H::at(s, c) - H::at(x, c)); } H::eq("field that is advected", H::at(b, c), w, 1e-5); });
    }
    V[2].swap(V[1]); V[1].swap(V[0]);
  }
  void update_rhs(arrvec_t<arr_t> &rhs, const vreal &dt, const vint &at) override
  {
    parent_t::update_rhs(rhs, dt, at); Rn.clear();
    for (int e = 0; e < CT::n_eqns; ++e) { H::fill(rhs.at(e), "R." + std::to_string(uid++)); if (bcond::BC == bcond::cyclic) wrap<arr_t, N>(rhs.at(e), N_); Rn.push_back(cp(rhs.at(e))); }
  }
  void advop(vint e_) override
  {
    int e = int(e_); arr_t dst = this->mem->psi[e][this->solvers::template mpdata<solvers::detail::ct_params_vip_default_t<CT>>::n[e] + 1]; H::fill(dst, "adv." + std::to_string(uid++), DENS && e == N ? H::pos : H::any); if (bcond::BC == bcond::cyclic) wrap<arr_t, N>(dst, N_);
    arr_t k = cp(dst); A.resize(CT::n_eqns); A[e].reference(k);
  }
  void hook_post_step() override
  {
    parent_t::hook_post_step();
    for (int e = 0; e < CT::n_eqns; ++e)
    {
      arr_t a = A[e], b = this->state(e), r = SCH == solvers::trapez || SCH == solvers::euler_a ? Rn[e] : a; vreal f = SCH == solvers::trapez ? this->dt / 2 : SCH == solvers::euler_a ? this->dt : vreal(0);
      each([&](const ix &c) { vreal w = H::at(a, c) + f * H::at(r, c), now = H::at(b, c), x = now; if (e < N && AB == solvers::impl) { arr_t al = *this->mem->vab_coeff, y = this->mem->vab_relax[e]; x = now + this->dt / 2 * H::at(al, c) * (now - H::at(y, c)); } H::eq("field after the step", x, w, 1e-5); });
    }
    forces("velocity forces for the next step");
    hist_next();
    if (VARDT && H::conc() && steps > 2) { H::reject(); }
  }
  void hist_next()                    // the next step finds the velocities of this one
  {
    for (int l = 1; l <= (D3 ? 2 : 1); ++l) for (int d = 0; d < N; ++d) { arr_t a = V[l][d], s = this->vip_stash(-l)[d]; each([&](const ix &c) { H::eq("velocity kept for the next step", H::at(s, c), H::at(a, c)); }); }
  }
};
template <int N> static void body()
{
  using slv_t = Mon<N>; typename slv_t::rt_params_t p; p.n_iters = 2; vreal dt = H::scalar("dt", H::pos); p.dt = dt; steps = gcs = 0; EPS = H::scalar("eps", H::pos); if (DENS == 2) p.vip_eps = EPS;
  for (int d = 0; d < N; ++d) { N_[d] = H::size(dimname[d], NMIN); p.grid_size[d] = N_[d]; dX[d] = H::scalar(std::string("d") + "xyz"[d], H::pos); }
  p.di = dX[0]; if constexpr (N > 1) p.dj = dX[1]; if constexpr (N > 2) p.dk = dX[2];
  typename serial_of<slv_t, N, bcond::BC>::type run(p);
  for (int e = 0; e <= N; ++e) { auto a = run.advectee(e); H::fill(a, "psi" + std::to_string(e), DENS && e == N ? H::pos : H::any); if (bcond::BC == bcond::cyclic) wrap<decltype(a), N>(a, N_); }
  if constexpr (opts::isset(opts::opts_t(OPTS), opts::nug)) { auto a = run.g_factor(); H::fill(a, "G", H::pos); if (bcond::BC == bcond::cyclic) wrap<decltype(a), N>(a, N_); }
  if constexpr (solvers::VAB != solvers::noab) { auto a = run.vab_coefficient(); H::fill(a, "alpha", H::nonneg); if (bcond::BC == bcond::cyclic) wrap<decltype(a), N>(a, N_); for (int d = 0; d < N; ++d) { auto r = run.vab_relaxed_state(d); H::fill(r, "relax" + std::to_string(d)); if (bcond::BC == bcond::cyclic) wrap<decltype(r), N>(r, N_); } }
  H::advance(run, VARDT ? (H::conc() ? 4 : 1) : H::conc() ? 4 : 2); H::yes("steps taken", steps >= 1);
  H::fn("mpdata_rhs_vip: extrapolate_in_time, interpolate_in_space, calc_gc, calc_ndt_gc, fill_stash, vip_rhs_*; hook_ante_loop, hook_ante_step, hook_post_step");
}
UNIT("vip") { body<ND>(); }
