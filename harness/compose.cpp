// contract of one advection step (advop): the passes, their order, time levels, halos and fields.  The real advop runs; at each
// stage boundary the state is compared with the stage's contract over the state before it (ref.hpp) and then replaced by an arbitrary one,
// so the next stage is checked against the contract only.
#include "setup.hpp"
#include "ref.hpp"
#ifndef NEQ
#define NEQ 1
#endif
#ifndef FREQ
#define FREQ 0
#endif
#ifndef SPTL
#define SPTL exact
#endif
#ifndef TMPRL
#define TMPRL noextrp
#endif
#ifndef DELAY
#define DELAY 0
#endif
using namespace libmpdataxx::arakawa_c; using libmpdataxx::arakawa_c::h;
static int side; static std::function<void()> on_sclr; static std::function<const void *()> watched;   // called before a scalar exchange of the watched array
#ifndef CONC
template <class A> const void *ident(A &a) { return a.v.st; }
#else
template <class A> const void *ident(A &a) { return a.dataFirst(); }
#endif
namespace libmpdataxx { namespace bcond {
  // the boundary under test plus a call-back before the first fill of a scalar exchange
  template <typename real_t, int halo, drctn_e dir, int n_dims, int dim>
  class bcond<real_t, halo, custom, dir, n_dims, dim> : public bcond<real_t, halo, BC, dir, n_dims, dim>
  {
    using parent_t = bcond<real_t, halo, BC, dir, n_dims, dim>; using arr_t = blitz::Array<real_t, n_dims>;
    template <class A> void cb(A &a) { if (dim == 0 && on_sclr && ident(a) == watched() && side++ % 2 == 0) { auto f = on_sclr; on_sclr = nullptr; f(); on_sclr = f; } }
    public:
    bcond(const rng_t &i, const std::array<vint, n_dims> &g, bool = false, vint = 0, vint = 1) : parent_t(i, g, false, 0, 1) {}   // as concurr_common constructs the one thread's boundary
    void fill_halos_sclr(blitz::Array<real_t, 1> &a, const bool deriv = false) { if constexpr (n_dims == 1) { cb(a); parent_t::fill_halos_sclr(a, deriv); } }
    void fill_halos_sclr(blitz::Array<real_t, 2> &a, const rng_t &j, const bool deriv = false) { if constexpr (n_dims == 2) { cb(a); parent_t::fill_halos_sclr(a, j, deriv); } }
    void fill_halos_sclr(blitz::Array<real_t, 3> &a, const rng_t &j, const rng_t &k, const bool deriv = false) { if constexpr (n_dims == 3) { cb(a); parent_t::fill_halos_sclr(a, j, k, deriv); } }
  };
} }
struct ct_params_t : ct_params_default_t { using real_t = vreal; enum { n_dims = ND }; enum { n_eqns = NEQ }; enum { opts = OPTS }; enum { delayed_step = DELAY }; enum { sptl_intrp = solvers::SPTL }; enum { tmprl_extrp = solvers::TMPRL }; };
constexpr bool has(opts::opts_t o) { return opts::isset(opts::opts_t(OPTS), o); }
static vint N_[3]; static std::vector<std::pair<int, int>> order;   // (equation, corrective passes)
template <int N, class CT = ct_params_t> struct Mon : solvers::mpdata<CT>
{
  using parent_t = solvers::mpdata<CT>; using arr_t = typename parent_t::arr_t; using ix = H::ix<N>; using R_ = Ref<N>; using F = typename R_::F;
  static inline std::map<int, arr_t> last;       // final field of each equation
  static inline std::array<arr_t, 6> keepC, keepG;
  int e_ = 0; int it = 0, uid = 0; arr_t prev;
  using parent_t::parent_t;
  arr_t &psi(vint e, int k = 0) { return this->mem->psi[e][this->n[e] + k]; }
  static H::Sign sg() { return has(opts::abs) || has(opts::iga) ? H::any : H::nonneg; }
  std::string nm(const char *s) { return std::string(s) + "#" + std::to_string(e_) + "." + std::to_string(uid++); }
  ix lo() { ix r; for (int d = 0; d < N; ++d) r[d] = 0; return r; }
  ix hi() { ix r; for (int d = 0; d < N; ++d) r[d] = N_[d] - 1; return r; }
  R_ ref(arr_t p, arr_t p0, arrvec_t<arr_t> &C) { R_ r; r.options(OPTS); r.sptl = solvers::SPTL == solvers::exact ? 0 : solvers::SPTL == solvers::aver2 ? 1 : 2; r.linear2 = solvers::TMPRL == solvers::linear2; r.psi_ = R_::of(p); r.psin_ = R_::of(p0); if (has(opts::nug)) r.G_ = R_::of(*this->mem->G);
    for (int d = 0; d < N; ++d) { r.C.push_back(R_::of(C[d])); if (has(opts::div_3rd) || has(opts::div_3rd_dt)) { r.ndt.push_back(R_::of(this->mem->ndt_GC[d])); r.ndtt.push_back(R_::of(this->mem->ndtt_GC[d])); } } return r; }
  template <class A> void everywhere(const std::string &l, A a, A b)
  {
    ix q0, q1; auto lb = a.lbound(), ub = a.ubound(); for (int d = 0; d < N; ++d) { q0[d] = lb(d); q1[d] = ub(d); }
    H::forall<N>(q0, q1, [&](const ix &i) { H::eq(l, H::at(a, i), H::at(b, i)); });
  }
  // the halos are what another fill would make of them
  void current_sclr(const std::string &l, arr_t a) { arr_t b = a.copy(); b.reindexSelf(a.lbound()); auto f = on_sclr; on_sclr = nullptr; this->xchng_sclr_(a); on_sclr = f; everywhere(l, a, b); }
  void xchng_sclr_(arr_t &a) { if constexpr (N == 1) this->xchng_sclr(a); else this->xchng_sclr(a, this->ijk, this->halo); }
  void fill_face_halos(arrvec_t<arr_t> &C, bool user, bool alng) { if (alng) this->xchng_vctr_alng(C, !user && has(opts::fct)); if constexpr (N > 1) { if (user) this->xchng_vctr_nrml(C, this->ijk, this->halo - 1); else this->xchng_vctr_nrml(C, this->ijk); } }
  // result of pass `iter` from src and the Courant numbers / fluxes used by it
  void check_update(int iter, arr_t src, arr_t out)
  {
    R_ r = ref(src, src, this->GC(iter));
    auto flux = [&](const ix &c, int d) -> vreal { return iter > 0 && has(opts::iga) ? r.C[d](c) : r.flux(r.C[d], c, d); };
    auto bflux = [&](const ix &c, int d) -> vreal     // no flux through a rigid wall: antisymmetric about the edge point
    {
      if (bcond::BC == bcond::rigid) { if (c[d] == -1) { ix q = c; q[d] = 0; return -flux(q, d); } if (c[d] == N_[d] - 1) { ix q = c; q[d] = N_[d] - 2; return -flux(q, d); } }
      return flux(c, d);
    };
    H::forall<N>(lo(), hi(), [&](const ix &c) {
      vreal s = 0; for (int d = 0; d < N; ++d) s = s + bflux(c, d) - bflux(R_::s(c, d, -1), d);
      H::eq("update" + std::to_string(iter), H::at(out, c), r.psi_(c) - s / r.G(c)); });
  }
  // the along-direction halo fill for opts::dfl also sets the outermost faces of the domain (open, rigid) or repeats the cyclic ones
  static constexpr bool DF = has(opts::dfl) && !has(opts::fct) && NIT > 2;
  void havoc_psi(bool whole) { arr_t a = psi(e_); H::fill(a, nm("psi"), sg()); if constexpr (DF && bcond::BC == bcond::cyclic) { std::array<vint, N> g; for (int d = 0; d < N; ++d) g[d] = N_[d]; wrap<arr_t, N>(a, g); } if (whole) { auto f = on_sclr; on_sclr = nullptr; this->xchng_sclr_(a); on_sclr = f; } }
  void advop(vint e) override
  {
    e_ = int(e); it = 0; uid = 0;
    current_sclr("halos of the advected field", psi(e)); havoc_psi(true);
    if (has(opts::nug)) current_sclr("halos of G", *this->mem->G);
    for (int d = 0; d < N; ++d) keepC[d].reference(this->mem->GC[d].copy()), keepC[d].reindexSelf(this->mem->GC[d].lbound());
    fill_face_halos(this->mem->GC, true, true);
    faces("halos of the Courant numbers", this->mem->GC, keepC, true, this->halo - 1, this->halo > 1 ? this->halo - 1 : 1);
    side = 0; watched = [this] { return ident(psi(e_)); };
    on_sclr = [this] { check_update(it, psi(e_, -1), psi(e_)); ++it; havoc_psi(false); };
    parent_t::advop(e);
    on_sclr = nullptr;
    check_update(it, psi(e), psi(e, 1));
    order.push_back({e_, it});
    faces("Courant numbers untouched", this->mem->GC, keepC, true, this->halo - 1, this->halo > 1 ? this->halo - 1 : 1);
    arr_t f = psi(e, 1).copy(); f.reindexSelf(psi(e, 1).lbound()); last[e_].reference(f);
  }
  void fct_init(vint e) override
  {
    parent_t::fct_init(e);
    if constexpr (has(opts::fct))
    {
      arr_t p = psi(e), mn = this->psi_min, mx = this->psi_max; ix a, b; for (int d = 0; d < N; ++d) { a[d] = -1; b[d] = N_[d]; }
      H::forall<N>(a, b, [&](const ix &c) { vreal l = H::at(p, c), u = l; for (int d = 0; d < N; ++d) for (int s = -1; s < 2; s += 2) { l = std::min(l, H::at(p, R_::s(c, d, s))); u = std::max(u, H::at(p, R_::s(c, d, s))); } H::eq("psi_min", H::at(mn, c), l); H::eq("psi_max", H::at(mx, c), u); });
      H::fill(mn, nm("pmin")); H::fill(mx, nm("pmax"));
    }
  }
  void fct_adjust_antidiff(vint e, vint iter) override
  {
    H::ieq("corrective pass number", iter, it);
    R_ r = ref(psi(e), psi(e, -1), this->GC_unco(iter)); auto &K = this->GC_corr(iter);
    for (int d = 0; d < N; ++d) { ix a = lo(), b = hi(); a[d] = -1; if (DF && bcond::BC != bcond::cyclic) { a[d] = 0; b[d] = b[d] - 1; } arr_t k = K[d]; H::forall<N>(a, b, [&](const ix &i) { H::eq("antidiff" + std::to_string(d), H::at(k, i), r.antidiff(i, d)); }); }
    const bool last_ = iter == this->n_iters - 1, fct = has(opts::fct);
    if (!fct && !last_) same_faces("halos of the corrective Courant numbers", K, has(opts::dfl));
    for (int d = 0; d < N; ++d)     // arbitrary interior faces
    {
      arr_t k = K[d], f = k.copy(); f.reindexSelf(k.lbound()); H::fill(f, nm("K"), H::any, 0.2);
      if constexpr (N == 1) k(this->im + h) = f(this->im + h);
      else if constexpr (N == 2) { if (d == 0) k(this->im + h, this->j) = f(this->im + h, this->j); else k(this->i, this->jm + h) = f(this->i, this->jm + h); }
      else { if (d == 0) k(this->im + h, this->j, this->k) = f(this->im + h, this->j, this->k); else if (d == 1) k(this->i, this->jm + h, this->k) = f(this->i, this->jm + h, this->k); else k(this->i, this->j, this->km + h) = f(this->i, this->j, this->km + h); }
    }
    if (!fct && !last_) fill_face_halos(K, false, has(opts::dfl));
    parent_t::fct_adjust_antidiff(e, iter);
    if constexpr (has(opts::fct))
    {
      same_faces("halos of the corrective Courant numbers (limiter)", K, true);
      R_ q = ref(psi(e), psi(e), K); F mn = R_::of(this->psi_min), mx = R_::of(this->psi_max), up = R_::of(this->beta_up), dn = R_::of(this->beta_dn);
      for (int o = 0; o < N; ++o) { ix a = lo(), b = hi(); a[o] = -1; b[o] = N_[o];   // the cells next to the faces of the domain, without its corners
      H::forall<N>(a, b, [&](const ix &c) { H::eq("beta_up", up(c), q.beta_up(q.C, mx, c)); H::eq("beta_dn", dn(c), q.beta_dn(q.C, mn, c)); }); }
      for (int d = 0; d < N; ++d) { ix a = lo(), b = hi(); a[d] = -1; arr_t m = this->GC_mono[d]; H::forall<N>(a, b, [&](const ix &i) { H::eq("GC_mono", H::at(m, i), q.limited(q.C, up, dn, i, d)); }); H::fill(m, nm("mono"), H::any, 0.2); }
    }
  }
  // faces of the domain and the halo layers next to it (no corners): equal in both
  template <class B> void faces(const std::string &l, arrvec_t<arr_t> &K, B &b, bool alng, int na, int nt)
  {
    for (int d = 0; d < N; ++d) for (int s = 0; s < 2 * N + 1; ++s)
    {
      int e = s / 2; if (e == d && !alng) continue;
      ix x, y; for (int q = 0; q < N; ++q) { x[q] = q == d ? -1 : 0; y[q] = N_[q] - 1; }
      if (e == d) { if (s & 1) { x[e] = N_[e]; y[e] = N_[e] - 1 + na; } else { x[e] = -1 - na; y[e] = -2; } } else if (e < N) { if (s & 1) { x[e] = N_[e]; y[e] = N_[e] - 1 + nt; } else { x[e] = -nt; y[e] = -1; } }
      arr_t k = K[d], o = b[d]; H::forall<N>(x, y, [&](const ix &i) { H::eq(l, H::at(k, i), H::at(o, i)); });
    }
  }
  void same_faces(const std::string &l, arrvec_t<arr_t> &K, bool alng)
  {
    std::vector<arr_t> b; for (int d = 0; d < N; ++d) { arr_t q = K[d].copy(); q.reindexSelf(K[d].lbound()); b.push_back(q); }
    fill_face_halos(K, false, alng); faces(l, K, b, alng, 1, 1);
  }
};
template <int N> static void body()
{
  using slv_t = Mon<N>; using arr_t = typename slv_t::arr_t;
  typename slv_t::rt_params_t p; p.n_iters = NIT; p.upwind_filter_freq = FREQ;
  for (int d = 0; d < N; ++d) { N_[d] = H::size(dimname[d], NMIN); p.grid_size[d] = N_[d]; }
  order.clear(); slv_t::last.clear(); on_sclr = nullptr;
  typename serial_of<slv_t, N, bcond::custom>::type run(p);
  for (int e = 0; e < NEQ; ++e) { H::fill(run.advectee(e), "psi" + std::to_string(e), slv_t::sg()); if (bcond::BC == bcond::cyclic) wrap<arr_t, N>(run.advectee(e), p.grid_size); }
  for (int d = 0; d < N; ++d) H::fill(run.advector(d), "C" + std::to_string(d), H::any, 0.15);
  if (has(opts::nug)) { H::fill(run.g_factor(), "G", H::pos); }
#ifdef CONC
  if (N > 1) for (int d = 0; d < N; ++d) { auto C = run.advector(d); double v = H::rnd(-.25, .25); C = v; }   // divergence-free
#endif
  H::advance(run, NT);
  // every equation is advected once per step, delayed ones last, with all corrective passes unless it is an upwind-filter step
  std::vector<std::pair<int, int>> want;
  for (int t = 0; t < NT; ++t) for (int ph = 0; ph < 2; ++ph) for (int e = 0; e < NEQ; ++e) if (((DELAY >> e) & 1) == ph) want.push_back({e, FREQ > 0 && t % FREQ == 0 ? 0 : NIT - 1});
  H::yes("every equation advected in order", order == want);
  for (int e = 0; e < NEQ; ++e) { arr_t f = slv_t::last[e], a = run.advectee(e); H::ix<N> lo, hi; for (int d = 0; d < N; ++d) { lo[d] = 0; hi[d] = N_[d] - 1; } H::forall<N>(lo, hi, [&](const H::ix<N> &c) { H::eq("advectee is the last result", H::at(a, c), H::at(f, c)); }); }
  H::fn("mpdata_osc::advop, mpdata_fct::fct_init, mpdata_fct::fct_adjust_antidiff, solver_common::solve, solve_loop_body, cycle, solver::xchng*");
}
UNIT("compose") { body<ND>(); }
