// flux-corrected transport: no value outside the range of the cell and its neighbours before the step and after the upwind pass
#include "setup.hpp"
#include "ref.hpp"
using namespace libmpdataxx::arakawa_c; using libmpdataxx::arakawa_c::h;
struct ct_params_t : ct_params_default_t { using real_t = vreal; enum { n_dims = ND }; enum { n_eqns = 1 }; enum { opts = OPTS }; };
constexpr bool has(opts::opts_t o) { return opts::isset(opts::opts_t(OPTS), o); }
static vint N_[3];
template <int N, class CT = ct_params_t> struct Lim : solvers::mpdata<CT>
{
  using parent_t = solvers::mpdata<CT>; using arr_t = typename parent_t::arr_t; using ix = H::ix<N>; using R_ = Ref<N>; using F = typename R_::F; using V = std::vector<std::pair<vreal, vreal>>;
  using parent_t::parent_t;
  std::vector<H::Fact<N>> fb, fm; int uid = 0; arrvec_t<arr_t> raw;
  arr_t &psi(vint e, int k = 0) { return this->mem->psi[e][this->n[e] + k]; }
  static H::Sign sg() { return has(opts::abs) || has(opts::iga) ? H::any : H::nonneg; }
  ix lo(vint by = 0) { ix r; for (int d = 0; d < N; ++d) r[d] = 0 - by; return r; }
  ix hi(vint by = 0) { ix r; for (int d = 0; d < N; ++d) r[d] = N_[d] - 1 + by; return r; }
  void xs(arr_t &a) { if constexpr (N == 1) this->xchng_sclr(a); else this->xchng_sclr(a, this->ijk, this->halo); }
  vreal pos(vreal x) { return std::max(x, vreal(0)); }
  R_ ref(arr_t p, arrvec_t<arr_t> &C) { R_ r; r.options(OPTS); r.psi_ = R_::of(p); if (has(opts::nug)) r.G_ = R_::of(*this->mem->G); for (int d = 0; d < N; ++d) r.C.push_back(R_::of(C[d])); return r; }
  // transport through face d of cell i with Courant numbers C (infinite gauge: C itself)
  static vreal tr(const R_ &r, const ix &i, int d) { return has(opts::iga) ? r.C[d](i) : r.flux(r.C[d], i, d); }
  vreal top(const R_ &r, F mx, const ix &c) { vreal m = std::max(mx(c), r.psi_(c)); for (int d = 0; d < N; ++d) m = std::max(m, std::max(r.psi_(R_::s(c, d)), r.psi_(R_::s(c, d, -1)))); return m; }
  vreal bot(const R_ &r, F mn, const ix &c) { vreal m = std::min(mn(c), r.psi_(c)); for (int d = 0; d < N; ++d) m = std::min(m, std::min(r.psi_(R_::s(c, d)), r.psi_(R_::s(c, d, -1)))); return m; }
  vreal inflow(const R_ &r, const ix &c) { vreal s = 0; for (int d = 0; d < N; ++d) s = s + pos(tr(r, R_::s(c, d, -1), d)) + pos(-tr(r, c, d)); return s; }
  vreal outflow(const R_ &r, const ix &c) { vreal s = 0; for (int d = 0; d < N; ++d) s = s + pos(tr(r, c, d)) + pos(-tr(r, R_::s(c, d, -1), d)); return s; }
  void fct_init(vint e) override
  {
    parent_t::fct_init(e);
    arr_t p = psi(e), mn = this->psi_min, mx = this->psi_max;
    H::forall<N>(lo(1), hi(1), [&](const ix &c) { vreal l = H::at(p, c), u = l; for (int d = 0; d < N; ++d) for (int s = -1; s < 2; s += 2) { l = std::min(l, H::at(p, R_::s(c, d, s))); u = std::max(u, H::at(p, R_::s(c, d, s))); } H::eq("psi_min", H::at(mn, c), l); H::eq("psi_max", H::at(mx, c), u); });
  }
  void fct_adjust_antidiff(vint e, vint iter) override
  {
    // any field after the previous pass, any bounds, any corrective Courant numbers
    auto u = std::to_string(uid++);
    if (!H::conc()) { arr_t a = psi(e); H::fill(a, "psi#" + u, sg()); xs(a); H::fill(this->psi_min, "mn" + u); H::fill(this->psi_max, "mx" + u); }
    auto &K = this->GC_corr(iter);
    for (int d = 0; d < N && !H::conc(); ++d)
    {
      arr_t k = K[d], f = k.copy(); f.reindexSelf(k.lbound()); H::fill(f, "K" + std::to_string(d) + u, H::any, 0.2);
      if constexpr (N == 1) k(this->im + h) = f(this->im + h);
      else if constexpr (N == 2) { if (d == 0) k(this->im + h, this->j) = f(this->im + h, this->j); else k(this->i, this->jm + h) = f(this->i, this->jm + h); }
      else { if (d == 0) k(this->im + h, this->j, this->k) = f(this->im + h, this->j, this->k); else if (d == 1) k(this->i, this->jm + h, this->k) = f(this->i, this->jm + h, this->k); else k(this->i, this->j, this->km + h) = f(this->i, this->j, this->km + h); }
    }
    parent_t::fct_adjust_antidiff(e, iter);
    for (int d = 0; d < N; ++d) H::generalise(K[d]); 
    R_ r = ref(psi(e), K); F up = R_::of(this->beta_up), dn = R_::of(this->beta_dn), mn = R_::of(this->psi_min), mx = R_::of(this->psi_max);
    fb.clear();
    for (int o = 0; o < N; ++o)
    {
      ix a = lo(), b = hi(); a[o] = -1; b[o] = N_[o];
      auto bounds = [=](const ix &c) { return V{{0, up(c)}, {0, dn(c)}, {up(c) * inflow(r, c), (top(r, mx, c) - r.psi_(c)) * r.G(c)}, {dn(c) * outflow(r, c), (r.psi_(c) - bot(r, mn, c)) * r.G(c)}}; };
      // u (I + eps) = M G
      auto ratio = [](const std::vector<vreal> &x) { const vreal &u = x[0], &I = x[1], &M = x[2], &G = x[3], &e = x[4]; return H::Rule{{I >= 0, M >= 0, G > 0, e > 0}, {{u * (I + e), M * G}}, {{0, u}, {u * I, M * G}}}; };
      H::forall<N>(a, b, [&](const ix &c) { vreal G = r.G(c); H::by("beta_up", {up(c), inflow(r, c), top(r, mx, c) - r.psi_(c), G, r.eps}, ratio); H::by("beta_dn", {dn(c), outflow(r, c), r.psi_(c) - bot(r, mn, c), G, r.eps}, ratio); });
      fb.push_back(H::Fact<N>(a, b, bounds));
    }
    H::generalise(this->beta_up); H::generalise(this->beta_dn);
    // limited transports: the same direction, and no more than the ratios of the two cells allow
    R_ q = ref(psi(e), this->GC_mono);
    fm.clear();
    for (int d = 0; d < N; ++d)
    {
      ix a = lo(), b = hi(); a[d] = -1;
      auto bounds = [=](const ix &i) { vreal f = tr(q, i, d), g = tr(r, i, d); ix j = R_::s(i, d); return V{{pos(f), up(j) * pos(g)}, {pos(f), dn(i) * pos(g)}, {pos(-f), up(i) * pos(-g)}, {pos(-f), dn(j) * pos(-g)}}; };
      H::forall<N>(a, b, [&](const ix &i) { fb[d].use(i); fb[d].use(R_::s(i, d)); int k = 0; for (auto &p : bounds(i)) H::le("limited transport." + std::to_string(k++), p.first, p.second); });
      fm.push_back(H::Fact<N>(a, b, bounds));
    }
    for (int d = 0; d < N; ++d) H::generalise(this->GC_mono[d]);
    last_K.clear(); for (int d = 0; d < N; ++d) last_K.push_back(K[d]);
  }
  std::vector<arr_t> last_K;
  void advop(vint e) override
  {
    if (!H::conc()) { arr_t a = psi(e); H::fill(a, "psiA", sg()); xs(a); }
    arr_t p0 = psi(e).copy(); p0.reindexSelf(psi(e).lbound());
    parent_t::advop(e);
    if (this->n_iters == 1) return;
    R_ r; { arrvec_t<arr_t> K; for (auto &k : last_K) { arr_t *p = new arr_t(k); K.push_back(p); } r = ref(psi(e), K); }
    R_ q = ref(psi(e), this->GC_mono); arr_t out = psi(e, 1); F mn = R_::of(this->psi_min), mx = R_::of(this->psi_max), up = R_::of(this->beta_up), dn = R_::of(this->beta_dn);
    H::forall<N>(lo(), hi(), [&](const ix &c) {
      vreal t = top(r, mx, c), b = bot(r, mn, c), net = 0;
      for (int d = 0; d < N; ++d) net = net + tr(q, R_::s(c, d, -1), d) - tr(q, c, d);
      H::eq("update", H::at(out, c), r.psi_(c) + net / r.G(c));
#ifndef CONC
      // net inflow <= up * inflow <= (top - psi) G, over the facts proved above; products are abstracted face by face
      vreal gi = 0, go = 0;
      for (int d = 0; d < N; ++d) for (int s = 0; s < 2; ++s)
      {
        ix f = s ? c : R_::s(c, d, -1); fm[d].use(f); vreal x = tr(q, f, d); if (s) x = -x;   // into the cell
        gi = gi + pos(x); go = go + pos(-x);
      }
      fb[0].use(c);
      H::lemma("net inflow", net <= gi); H::lemma("net outflow", -net <= go);
      H::lemma("bounded inflow", gi <= up(c) * inflow(r, c)); H::lemma("bounded outflow", go <= dn(c) * outflow(r, c));
      vreal G = r.G(c);
      H::lemma("net gain", net <= (t - r.psi_(c)) * G); H::lemma("net loss", -net <= (r.psi_(c) - b) * G);
      H::le("no new maximum", r.psi_(c) + net / G, t); H::le("no new minimum", b, r.psi_(c) + net / G);
#else
      H::le("no new maximum", H::at(out, c), t); H::le("no new minimum", b, H::at(out, c));
#endif
    });
  }
};
template <int N> static void body()
{
  using slv_t = Lim<N>; using arr_t = typename slv_t::arr_t;
  typename slv_t::rt_params_t p; p.n_iters = NIT;
  for (int d = 0; d < N; ++d) { N_[d] = H::size(dimname[d], NMIN); p.grid_size[d] = N_[d]; }
  typename serial_of<slv_t, N, bcond::BC>::type run(p);
  H::fill(run.advectee(), "psi", slv_t::sg()); if (bcond::BC == bcond::cyclic) wrap<arr_t, N>(run.advectee(), p.grid_size);
  for (int d = 0; d < N; ++d) H::fill(run.advector(d), "C" + std::to_string(d), H::any, 0.15);
  if (has(opts::nug)) H::fill(run.g_factor(), "G", H::pos);
#ifdef CONC
  if (N > 1) for (int d = 0; d < N; ++d) { auto C = run.advector(d); double v = H::rnd(-.25, .25); C = v; }   // divergence-free
#endif
  H::advance(run, NT);
  H::fn("formulae::mpdata::beta_up, beta_dn, GC_mono, formulae::donorcell::make_flux, donorcell_sum, mpdata_fct::fct_init, fct_adjust_antidiff, mpdata_osc::advop");
}
UNIT("limiter") { body<ND>(); }
