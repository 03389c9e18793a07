// function contracts: every formula of the scheme, at an arbitrary index, equals the published one (ref.hpp)
#include "H.hpp"
#include <libmpdata++/blitz.hpp>
#include <libmpdata++/opts.hpp>
#include <libmpdata++/formulae/mpdata/formulae_mpdata_1d.hpp>
#include <libmpdata++/formulae/mpdata/formulae_mpdata_2d.hpp>
#include <libmpdata++/formulae/mpdata/formulae_mpdata_3d.hpp>
#include <libmpdata++/formulae/mpdata/formulae_mpdata_fct_1d.hpp>
#include <libmpdata++/formulae/mpdata/formulae_mpdata_fct_2d.hpp>
#include <libmpdata++/formulae/mpdata/formulae_mpdata_fct_3d.hpp>
#include <libmpdata++/formulae/donorcell_formulae.hpp>
#include "ref.hpp"
using namespace libmpdataxx;
using namespace libmpdataxx::arakawa_c;
#ifndef SPTL
#define SPTL exact
#endif
#ifndef TMPRL
#define TMPRL noextrp
#endif
constexpr int N = ND; constexpr opts::opts_t O = OPTS;
using arr_t = blitz::Array<vreal, N>; using ix = H::ix<N>;
static vint n[3]; constexpr int HL = 3;
static arr_t mk() { if constexpr (N == 1) return arr_t(rng_t(-HL, n[0] + HL)); else if constexpr (N == 2) return arr_t(rng_t(-HL, n[0] + HL), rng_t(-HL, n[1] + HL)); else return arr_t(rng_t(-HL, n[0] + HL), rng_t(-HL, n[1] + HL), rng_t(-HL, n[2] + HL)); }
static arr_t data(const char *nm, H::Sign s = H::any, double mag = 1) { arr_t a = mk(); H::fill(a, nm, s, mag); return a; }
static void pushd(arrvec_t<arr_t> &v, const std::string &nm, double mag) { v.push_back(new arr_t(mk())); for (int q = 0; q < 1; ++q) H::fill(v[int(v.size()) - 1], nm, H::any, mag); }
static rng_t R(int d) { return rng_t(0, n[d] - 1); }
template <int d, class arr_t> static void adiff(arr_t &res, arr_t &p1, arr_t &p0, arrvec_t<arr_t> &C, arrvec_t<arr_t> &t, arrvec_t<arr_t> &tt, arr_t &G, Ref<N> &r)
{
  arr_t before = data("res");
  if constexpr (N == 1) formulae::mpdata::antidiff<O, solvers::SPTL, solvers::TMPRL>(res, p1, C, t, tt, G, R(0));
  else if constexpr (N == 2) formulae::mpdata::antidiff<O, d, solvers::SPTL, solvers::TMPRL>(res, p1, p0, C, t, tt, G, R(d), R((d + 1) % 2));
  else formulae::mpdata::antidiff<O, d, solvers::SPTL, solvers::TMPRL>(res, p1, p0, C, t, tt, G, R(d), R((d + 1) % 3), R((d + 2) % 3));
  ix lo, hi; for (int e = 0; e < N; ++e) { lo[e] = 0; hi[e] = n[e] - 1; }
  H::forall<N>(lo, hi, [&](const ix &i) { H::eq("antidiff" + std::to_string(d), H::at(res, i), r.antidiff(i, d)); });
  for (int e = 0; e < N; ++e) for (int sd = 0; sd < 2; ++sd) { ix a, b; for (int q = 0; q < N; ++q) { a[q] = -HL; b[q] = n[q] + HL; } if (sd) a[e] = n[e]; else b[e] = -1; H::forall<N>(a, b, [&](const ix &i) { H::eq("antidiff-frame", H::at(res, i), H::at(before, i)); }); }
}
template <int d, class arr_t> static auto mflux(arr_t &p, arr_t &c, rng_t *r)
{
  if constexpr (N == 1) return formulae::donorcell::make_flux<O>(p, c, r[0]);
  else if constexpr (N == 2) return formulae::donorcell::make_flux<O, d>(p, c, r[d], r[1 - d]);
  else return formulae::donorcell::make_flux<O, d>(p, c, r[d], r[(d + 1) % 3], r[(d + 2) % 3]);
}
template <int N> static void body()
{
  using arr_t = blitz::Array<vreal, N>; using ix = H::ix<N>;
  static const char *dn[] = {"nx", "ny", "nz"};
  for (int d = 0; d < N; ++d) n[d] = H::size(dn[d], 2, 3);
  Ref<N> r; r.options(O); r.sptl = solvers::SPTL == solvers::exact ? 0 : solvers::SPTL == solvers::aver2 ? 1 : 2; r.linear2 = solvers::TMPRL == solvers::linear2;
  const bool anysign = r.abs_ || r.iga;
  arr_t p1 = data("psi1", anysign ? H::any : H::nonneg), p0 = data("psi0", anysign ? H::any : H::nonneg), G = data("G", H::pos), res = data("res");
  arrvec_t<arr_t> C, t, tt; for (int d = 0; d < N; ++d) { std::string q = std::to_string(d); pushd(C, "C" + q, 0.3); pushd(t, "t" + q, 0.1); pushd(tt, "tt" + q, 0.1); }
  r.psi_ = r.of(p1); r.psin_ = r.of(p0); r.G_ = r.of(G); for (int d = 0; d < N; ++d) { r.C.push_back(r.of(C[d])); r.ndt.push_back(r.of(t[d])); r.ndtt.push_back(r.of(tt[d])); }
#ifdef CONC
  // denominators away from zero: isolated zeros give 1/tiny amplification of round-off
  if (!r.iga && !r.pfc) { p1 = blitz::where(blitz::abs(p1) < 1e-3, 0.05, p1); p0 = blitz::where(blitz::abs(p0) < 1e-3, 0.05, p0); }
#endif
#ifndef NOAD
  adiff<0>(res, p1, p0, C, t, tt, G, r);
  if constexpr (N > 1) { H::fill(res, "res"); adiff<1>(res, p1, p0, C, t, tt, G, r); }
  if constexpr (N > 2) { H::fill(res, "res"); adiff<2>(res, p1, p0, C, t, tt, G, r); }
#endif
#ifdef UPW
  // upwind step on ranges
  ix lo, hi; for (int e = 0; e < N; ++e) { lo[e] = 0; hi[e] = n[e] - 1; }
  arrvec_t<arr_t> flx, khn; for (int d = 0; d < N; ++d) pushd(flx, "f", 1);
  for (int d = 0; d < 3; ++d) pushd(khn, "k", 1);
  rng_t rr[3] = {rng_t(0, 0), rng_t(0, 0), rng_t(0, 0)}, m1[3] = {rr[0], rr[0], rr[0]};
  for (int d = 0; d < N; ++d) { rr[d] = R(d); m1[d] = rng_t(-1, n[d] - 1); }
  { rng_t q[3] = {m1[0], rr[1], rr[2]}; if constexpr (N == 1) flx[0](q[0]) = mflux<0>(p1, C[0], q); else if constexpr (N == 2) flx[0](q[0], q[1]) = mflux<0>(p1, C[0], q); else flx[0](q[0], q[1], q[2]) = mflux<0>(p1, C[0], q); }
  if constexpr (N > 1) { rng_t q[3] = {rr[0], m1[1], rr[2]}; if constexpr (N == 2) flx[1](q[0], q[1]) = mflux<1>(p1, C[1], q); else flx[1](q[0], q[1], q[2]) = mflux<1>(p1, C[1], q); }
  if constexpr (N > 2) { rng_t q[3] = {rr[0], rr[1], m1[2]}; flx[2](q[0], q[1], q[2]) = mflux<2>(p1, C[2], q); }
  for (int d = 0; d < N; ++d) { ix a = lo; a[d] = -1; arr_t f = flx[d]; H::forall<N>(a, hi, [&](const ix &i) { H::eq("make_flux", H::at(f, i), r.flux(r.C[d], i, d)); }); }
  const bool hasg = r.nug;
  if constexpr (N == 1) { auto i = rr[0]; if (hasg) formulae::donorcell::donorcell_sum<O>(khn, idx_t<1>(i), res(i), p1(i), flx[0](i + h), flx[0](i - h), formulae::G<O>(G, i)); else formulae::donorcell::donorcell_sum<O>(khn, idx_t<1>(i), res(i), p1(i), flx[0](i + h), flx[0](i - h), 1); }
  else if constexpr (N == 2) { auto i = rr[0], j = rr[1]; formulae::donorcell::donorcell_sum<O>(khn, idx_t<2>({i, j}), res(i, j), p1(i, j), flx[0](i + h, j), flx[0](i - h, j), flx[1](i, j + h), flx[1](i, j - h), formulae::G<O, 0>(G, i, j)); }
  else { auto i = rr[0], j = rr[1], k = rr[2]; formulae::donorcell::donorcell_sum<O>(khn, idx_t<3>({i, j, k}), res(i, j, k), p1(i, j, k), flx[0](i + h, j, k), flx[0](i - h, j, k), flx[1](i, j + h, k), flx[1](i, j - h, k), flx[2](i, j, k + h), flx[2](i, j, k - h), formulae::G<O, 0>(G, i, j, k)); }
  H::forall<N>(lo, hi, [&](const ix &i) { H::eq("donorcell_sum", H::at(res, i), r.upwind(r.C, i)); });
#endif
#ifdef FCT
  {
    ix lo, hi; for (int e = 0; e < N; ++e) { lo[e] = 0; hi[e] = n[e] - 1; }
    arr_t pmin = data("pmin"), pmax = data("pmax"), up = data("up"), dn_ = data("dn"); arrvec_t<arr_t> flx, mono; for (int d = 0; d < N; ++d) { pushd(flx, "f" + std::to_string(d), 1); pushd(mono, "m", 1); }
    Ref<N> rf(r); rf.iga = true; std::vector<typename Ref<N>::F> FL; for (int d = 0; d < N; ++d) FL.push_back(r.of(flx[d]));   // beta functions take fluxes
    if constexpr (N == 1) { formulae::mpdata::beta_up<O>(up, p1, pmax, flx, G, R(0)); formulae::mpdata::beta_dn<O>(dn_, p1, pmin, flx, G, R(0)); }
    else if constexpr (N == 2) { formulae::mpdata::beta_up<O>(up, p1, pmax, flx, G, R(0), R(1)); formulae::mpdata::beta_dn<O>(dn_, p1, pmin, flx, G, R(0), R(1)); }
    else { formulae::mpdata::beta_up<O>(up, p1, pmax, flx, G, R(0), R(1), R(2)); formulae::mpdata::beta_dn<O>(dn_, p1, pmin, flx, G, R(0), R(1), R(2)); }
    H::forall<N>(lo, hi, [&](const ix &i) { H::eq("beta_up", H::at(up, i), rf.beta_up(FL, r.of(pmax), i)); H::eq("beta_dn", H::at(dn_, i), rf.beta_dn(FL, r.of(pmin), i)); });
    H::fill(up, "up", H::pos); H::fill(dn_, "dn", H::pos);
    if constexpr (N == 1) formulae::mpdata::GC_mono<O>(mono[0], p1, up, dn_, C[0], G, R(0));
    else if constexpr (N == 2) { formulae::mpdata::GC_mono<O, 0>(mono, p1, up, dn_, C, G, R(0), R(1)); formulae::mpdata::GC_mono<O, 1>(mono, p1, up, dn_, C, G, R(1), R(0)); }
    else { formulae::mpdata::GC_mono<O, 0>(mono, p1, up, dn_, C, G, R(0), R(1), R(2)); formulae::mpdata::GC_mono<O, 1>(mono, p1, up, dn_, C, G, R(1), R(2), R(0)); formulae::mpdata::GC_mono<O, 2>(mono, p1, up, dn_, C, G, R(2), R(0), R(1)); }
    for (int d = 0; d < N; ++d) { arr_t m = mono[d]; H::forall<N>(lo, hi, [&](const ix &i) { H::eq("GC_mono", H::at(m, i), r.limited(r.C, r.of(up), r.of(dn_), i, d)); }); }
  }
#endif
  H::fn("formulae::mpdata::antidiff, make_flux, donorcell_sum, beta_up, beta_dn, GC_mono");
}
UNIT("scheme") { body<ND>(); }
