// a uniform field stays uniform under a non-divergent flow (Courant numbers from a stream function / vector potential)
#include "setup.hpp"
#ifndef SPTL
#define SPTL exact
#endif
using namespace libmpdataxx::arakawa_c; using libmpdataxx::arakawa_c::h;
struct ct_params_t : ct_params_default_t { using real_t = vreal; enum { n_dims = ND }; enum { n_eqns = 1 }; enum { opts = OPTS }; enum { sptl_intrp = solvers::SPTL }; };
static vint N_[3]; static vreal q; static bool spread = true;
constexpr int FAR = 4;
template <int N, class CT = ct_params_t> struct Uni : solvers::mpdata<CT>
{
  using parent_t = solvers::mpdata<CT>; using arr_t = typename parent_t::arr_t; using ix = H::ix<N>; using parent_t::parent_t;
  static inline std::vector<arr_t> S;     // potential
  static void pot()
  {
    S.clear();
    for (int d = 0; d < (N == 1 ? 0 : N == 2 ? 1 : 3); ++d)
    {
      auto R = [&](int d) { return rng_t(-FAR, N_[d] - 1 + FAR); };
      arr_t s = [&] { if constexpr (N == 1) return arr_t(R(0)); else if constexpr (N == 2) return arr_t(R(0), R(1)); else return arr_t(R(0), R(1), R(2)); }();
      H::fill(s, "S" + std::to_string(d), H::any, 0.1); S.push_back(s);
      // the periodic images: index -1 is n-2, n is 1
      if (bcond::BC == bcond::cyclic) for (int e = 0; e < N; ++e) for (int k = 0; k < FAR; ++k) for (int sd = 0; sd < 2; ++sd) {
        auto to = s.domain(), from = s.domain(); vint t = sd ? vint(N_[e] - 1 + k) : vint(-1 - k), f = sd ? vint(k) : vint(N_[e] - 2 - k);
        to.lbound(e) = to.ubound(e) = t; from.lbound(e) = from.ubound(e) = f; s(to) = s(from); }
    }
  }
  // Courant numbers over the index box of c
  static void flow(arr_t c, int d)
  {
    auto D = c.domain(); rng_t r[3]; for (int e = 0; e < N; ++e) r[e] = rng_t(D.lbound(e), D.ubound(e));
    if constexpr (N == 1) c = H::scalar("c");
    else if constexpr (N == 2) { arr_t s = S[0]; auto i = r[0], j = r[1]; if (d == 0) c(i, j) = s(i, j) - s(i, j - 1); else c(i, j) = s(i - 1, j) - s(i, j); }
    else { arr_t x = S[0], y = S[1], z = S[2]; auto i = r[0], j = r[1], k = r[2];
      if (d == 0) c(i, j, k) = z(i, j, k) - z(i, j - 1, k) - y(i, j, k) + y(i, j, k - 1);
      else if (d == 1) c(i, j, k) = x(i, j, k) - x(i, j, k - 1) - z(i, j, k) + z(i - 1, j, k);
      else c(i, j, k) = y(i, j, k) - y(i - 1, j, k) - x(i, j, k) + x(i, j - 1, k); }
  }
  void know(const std::string &l, arr_t a, vreal v) { H::known(l, a, v); }
  void advop(vint e) override
  {
    // no divergence in any cell of the domain, nor in the first layer around it (corners apart; wider halos only)
    for (int o = 0; o < N; ++o)
    {
      ix a, b; for (int d = 0; d < N; ++d) { vint w = d == o && this->halo > 1 ? 1 : 0; a[d] = 0 - w; b[d] = N_[d] - 1 + w; }
      if (bcond::BC == bcond::cyclic) H::forall<N>(a, b, [&](const ix &c) { vreal s = 0; for (int d = 0; d < N; ++d) { arr_t g = this->mem->GC[d]; s = s + H::at(g, c) - H::at(g, H::sh<N>(c, d, -1)); } H::eq("halo Courant numbers", s, 0); });
    }
    if (!H::conc()) { for (int d = 0; d < N; ++d) flow(this->mem->GC[d], d); for (int t = 0; t < this->mem->psi[e].size(); ++t) this->mem->psi[e][t] = q; for (auto *T : this->tmp) for (int d = 0; d < N; ++d) { arr_t t = (*T)[d]; t = 0; } }   // corner halos nobody reads

    parent_t::advop(e);
    arr_t p = this->mem->psi[e][this->n[e] + 1]; ix a, b; for (int d = 0; d < N; ++d) { a[d] = 0; b[d] = N_[d] - 1; }
    H::forall<N>(a, b, [&](const ix &c) { H::eq("uniform", H::at(p, c), q, 1e-6); });
  }
  void fct_init(vint e) override { parent_t::fct_init(e); if constexpr (opts::isset(opts::opts_t(OPTS), opts::fct)) { know("psi_min", this->psi_min, q); know("psi_max", this->psi_max, q); } }
  void fct_adjust_antidiff(vint e, vint iter) override
  {
    know("uniform after a pass", this->mem->psi[e][this->n[e]], q);
    for (int d = 0; d < N; ++d) know("no antidiffusion", this->GC_corr(iter)[d], 0);
    parent_t::fct_adjust_antidiff(e, iter);
    for (int d = 0; d < N; ++d) know("no limited antidiffusion", this->GC(iter)[d], 0);
  }
};
template <int N> static void body()
{
  using slv_t = Uni<N>; using arr_t = typename slv_t::arr_t;
  typename slv_t::rt_params_t p; p.n_iters = NIT;
  for (int d = 0; d < N; ++d) N_[d] = p.grid_size[d] = H::size(dimname[d], NMIN);
  typename serial_of<slv_t, N, bcond::BC>::type run(p);
  q = H::scalar("q", opts::isset(OPTS, opts::abs) || opts::isset(OPTS, opts::iga) ? H::any : H::pos);
  run.advectee() = q; slv_t::pot();
  if (opts::isset(OPTS, opts::nug)) { H::fill(run.g_factor(), "G", H::pos); if (bcond::BC == bcond::cyclic) wrap<arr_t, N>(run.g_factor(), p.grid_size); }
  for (int d = 0; d < N; ++d) slv_t::flow(run.advector(d), d);
  H::advance(run, NT);
  H::fn("mpdata_osc::advop (make_flux, donorcell_sum, antidiff), fct_init, fct_adjust_antidiff, fill_halos_vctr_alng/nrml");
}
UNIT("uniform") { body<ND>(); }
