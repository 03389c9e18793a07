// Independent, dimension-generic statement of the MPDATA formulae (Smolarkiewicz & Margolin 1998, Smolarkiewicz & Grabowski 1990,
// Waruszewski et al. 2018): unit vectors instead of per-dimension index permutations; one text for 1, 2 and 3 dimensions and all options.
// Face d of cell i lies between cells i and i + e_d and carries index i.
#pragma once
#include "H.hpp"
template <int N> struct Ref
{
  using ix = H::ix<N>; using arr = blitz::Array<vreal, N>; using F = std::function<vreal(const ix &)>;
  bool abs_ = false, iga = false, nug = false, pfc = false, tot = false, fot = false, dfl = false, div2 = false, div3 = false, div3dt = false; int sptl = 0; bool linear2 = false;
  F psi_, psin_, G_; std::vector<F> C, ndt, ndtt; vreal tiny, eps;
  static F of(arr a) { return [a](const ix &i) mutable { return vreal(H::at(a, i)); }; }
  static ix s(ix i, int d, int by = 1) { return H::sh<N>(i, d, by); }
  vreal mod(vreal x) const { return abs_ ? vreal(std::abs(x)) : x; }
  vreal P(const ix &i) const { return mod(psi_(i)); }
  vreal Pn(const ix &i) const { return mod(psin_(i)); }
  vreal G(const ix &i) const { return nug ? G_(i) : vreal(1); }
  vreal mean(const std::vector<vreal> &v) const { vreal r = 0; for (auto &x : v) r = r + x; return r / int(v.size()); }
  vreal frac(vreal nom, vreal den) const { if (pfc) { if (H::conc()) return bool(den != 0) ? vreal(nom / den) : vreal(0); return ite(den != 0, nom / den, 0); } return nom / (den + tiny); }
#ifndef CONC
  static vreal ite(vbool c, vreal a, vreal b) { return sym::r_ite(c, a, b); }
#else
  static vreal ite(bool c, vreal a, vreal b) { return c ? a : b; }
#endif
  // k * nom / (w * sum of psi over pts); infinite gauge: psi -> 1 in the denominator
  vreal nd(int k, vreal nom, vreal w, const std::vector<vreal> &pts) const
  {
    if (iga) return k * nom / (w * int(pts.size()));
    vreal sum = 0; for (auto &x : pts) sum = sum + x;
    return k * frac(nom, w * sum);
  }
  // ---- interpolations
  vreal Gx(const ix &i, int d) const { return nug ? vreal((G(i) + G(s(i, d))) / 2) : vreal(1); }
  vreal Gxy(const ix &i, int d, int e) const { return nug ? mean({G(i), G(s(i, d)), G(s(i, e)), G(s(s(i, d), e))}) : vreal(1); }
  vreal Px(const ix &i, int d) const { return (P(i) + P(s(i, d))) / 2; }
  vreal Pxy(const ix &i, int d, int e) const { return mean({P(i), P(s(i, d)), P(s(i, e)), P(s(s(i, d), e))}); }
  vreal Pnxy(const ix &i, int d, int e) const { return mean({Pn(i), Pn(s(i, d)), Pn(s(i, e)), Pn(s(s(i, d), e))}); }
  vreal Pxyz(const ix &i) const { std::vector<vreal> v; for (int m = 0; m < (1 << N); ++m) { ix q = i; for (int d = 0; d < N; ++d) if (m >> d & 1) q = s(q, d); v.push_back(P(q)); } return mean(v); }
  vreal Cc(const std::vector<F> &V, const ix &i, int d) const { return (V[d](i) + V[d](s(i, d, -1))) / 2; }                    // component d at the cell centre
  vreal Ce(const ix &i, int d, int e) const { return mean({C[e](i), C[e](s(i, d)), C[e](s(i, e, -1)), C[e](s(s(i, d), e, -1))}); } // component e at face d
  vreal Cedge(const std::vector<F> &V, const ix &i, int d, int e) const { return (V[e](i) + V[e](s(i, d))) / 2; }              // component e at (i + e_d/2 + e_e/2)
  // ---- derivatives of psi at face d
  vreal A(const ix &i, int d) const { return nd(2, P(s(i, d)) - P(i), 1, {P(i), P(s(i, d))}); }
  vreal B(const ix &i, int d, int e) const { ix a = s(i, d); return nd(1, P(s(a, e)) + P(s(i, e)) - P(s(a, e, -1)) - P(s(i, e, -1)), 1, {P(s(a, e)), P(s(i, e)), P(s(a, e, -1)), P(s(i, e, -1))}); }
  vreal Dxx(const ix &i, int d) const { vreal a = P(s(i, d, 2)), b = P(s(i, d)), c = P(i), e = P(s(i, d, -1)); return nd(2, a - b - c + e, 1, {a, b, c, e}); }
  vreal Dxy(const ix &i, int d, int e) const { ix x = s(i, d); vreal a = P(s(x, e)), b = P(s(i, e)), c = P(s(x, e, -1)), f = P(s(i, e, -1)); return nd(2, a - b - c + f, 1, {a, b, c, f}); }
  vreal Dyz(const ix &i, int d, int e, int f) const
  {
    vreal n = 0; std::vector<vreal> p;
    for (int x = 0; x < 2; ++x) for (int y = -1; y < 2; y += 2) for (int z = -1; z < 2; z += 2) { vreal v = P(s(s(s(i, d, x), e, y), f, z)); n = n + (y * z) * v; p.push_back(v); }
    return nd(1, n, 1, p);
  }
  vreal Dxxx(const ix &i, int d) const { vreal a = P(s(i, d, 2)), b = P(s(i, d)), c = P(i), e = P(s(i, d, -1)); return (a - 3 * b + 3 * c - e) / 4; }
  vreal Dxxy(const ix &i, int d, int e) const { vreal n = 0; for (int y = -1; y < 2; y += 2) { ix q = s(i, e, y); n = n + y * (P(s(q, d, 2)) - P(s(q, d)) - P(q) + P(s(q, d, -1))); } return n / 8; }
  vreal Dxyy(const ix &i, int d, int e) const { auto yy = [&](const ix &q) -> vreal { return P(s(q, e)) - 2 * P(q) + P(s(q, e, -1)); }; return (yy(s(i, d)) - yy(i)) / 6; }
  // ---- flux divergence
  vreal fdiv_c(const ix &i) const { vreal r = 0; for (int e = 0; e < N; ++e) r = r + C[e](i) * Px(i, e) - C[e](s(i, e, -1)) * Px(s(i, e, -1), e); return r / G(i); }
  vreal fdiv_corner(const ix &i, int d, int e) const   // at i + e_d/2 + e_e/2
  {
    auto comp = [&](const ix &q, int a, int b) -> vreal { return mean({C[a](q), C[a](s(q, a, -1)), C[a](s(q, b)), C[a](s(s(q, b), a, -1))}); };   // component a at q + e_b/2
    vreal r = comp(s(i, d), d, e) * Px(s(i, d), e) - comp(i, d, e) * Px(i, e) + comp(s(i, e), e, d) * Px(s(i, e), d) - comp(i, e, d) * Px(i, d);
    for (int f = 0; f < N; ++f) if (f != d && f != e) for (int t = 0; t < 2; ++t)
    {
      ix q = s(i, f, -t); vreal c = mean({C[f](q), C[f](s(q, d)), C[f](s(q, e)), C[f](s(s(q, d), e))});
      r = t ? vreal(r - c * Pxyz(q)) : vreal(r + c * Pxyz(q));
    }
    return r / Gxy(i, d, e);
  }
  std::vector<vreal> ring(const ix &i, int d, bool wide) const { std::vector<vreal> p{P(i), P(s(i, d))}; if (wide) { p.push_back(P(s(i, d, 2))); p.push_back(P(s(i, d, -1))); } for (int e = 0; e < N; ++e) if (e != d) for (int y = -1; y < 2; y += 2) { p.push_back(P(s(i, e, y))); p.push_back(P(s(s(i, d), e, y))); } return p; }
  vreal nfdiv(const std::vector<F> &V, const ix &i, int d) const
  {
    vreal n = Cc(V, s(i, d), d) * P(s(i, d)) - Cc(V, i, d) * P(i);
    for (int e = 0; e < N; ++e) if (e != d) n = n + Cedge(V, i, d, e) * Pxy(i, d, e) - Cedge(V, s(i, e, -1), d, e) * Pxy(s(i, e, -1), d, e);
    auto p = ring(i, d, false); return nd(int(p.size()), n, Gx(i, d), p);
  }
  vreal nfdiv_fdiv(const ix &i, int d) const
  {
    vreal n = Cc(C, s(i, d), d) * fdiv_c(s(i, d)) - Cc(C, i, d) * fdiv_c(i);
    for (int e = 0; e < N; ++e) if (e != d) n = n + Cedge(C, i, d, e) * fdiv_corner(i, d, e) - Cedge(C, s(i, e, -1), d, e) * fdiv_corner(s(i, e, -1), d, e);
    auto p = ring(i, d, true); return nd(int(p.size()), n, Gx(i, d), p);
  }
  vreal ndx_fdiv(const ix &i, int d) const { auto p = ring(i, d, true); return nd(int(p.size()), fdiv_c(s(i, d)) - fdiv_c(i), 1, p); }
  vreal nfdiv_dt(const ix &i, int d) const
  {
    auto D = [&](const ix &q) -> vreal { return P(q) - Pn(q); };
    vreal n = Cc(C, s(i, d), d) * D(s(i, d)) - Cc(C, i, d) * D(i);
    for (int e = 0; e < N; ++e) if (e != d) n = n + Cedge(C, i, d, e) * (Pxy(i, d, e) - Pnxy(i, d, e)) - Cedge(C, s(i, e, -1), d, e) * (Pxy(s(i, e, -1), d, e) - Pnxy(s(i, e, -1), d, e));
    auto p = ring(i, d, false); Ref o(*this); o.psi_ = psin_; auto p2 = o.ring(i, d, false); p.insert(p.end(), p2.begin(), p2.end());
    return nd(int(p.size()), n, Gx(i, d), p);
  }
  // ---- antidiffusive Courant number at face d of cell i
  vreal antidiff(const ix &i, int d) const
  {
    using std::abs;
    vreal c = C[d](i), g = Gx(i, d), r = 0;
    if (!div2)
    {
      r = abs(c) / 2 * (1 - abs(c) / g) * A(i, d);
      for (int e = 0; e < N; ++e) if (e != d) r = r - c * Ce(i, d, e) / (2 * g) * B(i, d, e);
      if (tot)
      {
        r = r + Dxx(i, d) * (3 * c * abs(c) / g - 2 * c * c * c / (g * g) - c) / 6;
        for (int e = 0; e < N; ++e) if (e != d) r = r + Dxy(i, d, e) * (abs(c) - 2 * c * c / g) * Ce(i, d, e) / (2 * g);
        if (N == 3) { int e = (d + 1) % 3, f = (d + 2) % 3; r = r - Dyz(i, d, e, f) * 2 * c * Ce(i, d, e) * Ce(i, d, f) / (3 * g * g); }
      }
      if (dfl)
      {
        vreal q = C[d](s(i, d)) - C[d](s(i, d, -1));
        for (int e = 0; e < N; ++e) if (e != d) q = q + C[e](s(i, d)) + C[e](i) - C[e](s(s(i, d), e, -1)) - C[e](s(i, e, -1));
        vreal x = c / g * q / 4; r = r - (iga ? vreal(x * Px(i, d)) : x);
      }
    }
    else
    {
      vreal n1 = nfdiv(C, i, d), a = A(i, d), second = abs(c) / 2 * a - c / 2 * n1; r = second;
      if (div3 || div3dt)
      {
        if (!iga) r = r + abs(second) / 2 * a;
        vreal cxx = C[d](s(i, d)) + C[d](s(i, d, -1)) - 2 * c, ctt = ndtt[d](i); if (iga) { cxx = cxx * Px(i, d); ctt = ctt * Px(i, d); }
        r = r - (4 * c * Dxx(i, d) + a * (C[d](s(i, d)) - C[d](s(i, d, -1))) + (sptl == 0 ? 1 : sptl == 1 ? 4 : 0) * cxx) / 24;
        vreal t = (linear2 ? 10 : 1) * ctt + 2 * c * nfdiv(ndt, i, d);
        if (!div3dt) { r = r + abs(c) / 2 * ndx_fdiv(i, d); t = t - 8 * c * nfdiv_fdiv(i, d) - 2 * ndt[d](i) * n1; }
        else
        {
          vreal a1 = P(s(i, d)), a0 = P(i), b1 = Pn(s(i, d)), b0 = Pn(i);
          r = r - abs(c) / 2 * nd(4, a1 - b1 - a0 + b0, 1, {a1, b1, a0, b0});
          t = t + 8 * c * nfdiv_dt(i, d) + 2 * ndt[d](i) * nd(2, a1 - b1 + a0 - b0, 1, {a1, b1, a0, b0});
        }
        r = r + t / 24;
      }
    }
    if (fot)
    {
      int e = (d + 1) % N; vreal y = Ce(i, d, e), ac = abs(c), ay = abs(y);
      r = r + Dxxx(i, d) * (6 * ac * c * c / (g * g) - 3 * c * c / g - 3 * c * c * c * c / (g * g * g)) / 2
            + Dxxy(i, d, e) * 3 * (ac - c * c / g) * c * y / (g * g)
            + Dxyy(i, d, e) * 3 * (3 * ay * c * c / g + 3 * y * y * ac / g - 2 * ay * ac - 9 * y * y * c * c / (g * g)) / g / 4;
    }
    return r;
  }
  // ---- upwind flux through face d, and the update
  static vreal posp(vreal x) { return (x + std::abs(x)) / 2; }
  static vreal negp(vreal x) { return (x - std::abs(x)) / 2; }
  vreal flux(const F &c, const ix &i, int d) const { vreal v = c(i); return posp(v) * psi_(i) + negp(v) * psi_(s(i, d)); }
  vreal upwind(const std::vector<F> &V, const ix &i) const { vreal r = 0; for (int d = 0; d < N; ++d) r = r + flux(V[d], i, d) - flux(V[d], s(i, d, -1), d); return psi_(i) - r / G(i); }
  // ---- flux-corrected transport; D = corrective Courant numbers (iga: fluxes themselves), lo/hi = extrema before the step
  vreal dflux(const std::vector<F> &D, const ix &i, int d) const { return iga ? D[d](i) : flux(D[d], i, d); }
  vreal beta_up(const std::vector<F> &D, const F &hi, const ix &i) const
  {
    vreal m = std::max(hi(i), psi_(i)), in = 0;
    for (int d = 0; d < N; ++d) { m = std::max(m, std::max(psi_(s(i, d)), psi_(s(i, d, -1)))); in = in + posp(dflux(D, s(i, d, -1), d)) - negp(dflux(D, i, d)); }
    return (m - psi_(i)) * G(i) / (in + eps);
  }
  vreal beta_dn(const std::vector<F> &D, const F &lo, const ix &i) const
  {
    vreal m = std::min(lo(i), psi_(i)), out = 0;
    for (int d = 0; d < N; ++d) { m = std::min(m, std::min(psi_(s(i, d)), psi_(s(i, d, -1)))); out = out + posp(dflux(D, i, d)) - negp(dflux(D, s(i, d, -1), d)); }
    return (psi_(i) - m) * G(i) / (out + eps);
  }
  // up/dn: the two beta functions
  vreal limited(const std::vector<F> &D, const F &up, const F &dn, const ix &i, int d) const
  {
    vreal c = D[d](i), one = 1;
    vreal fwd = std::min(one, std::min(dn(i), up(s(i, d)))), bwd = std::min(one, std::min(up(i), dn(s(i, d))));
    if (abs_ && !iga) return c * ite(c > 0, ite(psi_(i) > 0, fwd, bwd), ite(psi_(s(i, d)) > 0, bwd, fwd));
    return c * ite(c > 0, fwd, bwd);
  }
  void options(unsigned long o)
  {
    using namespace libmpdataxx;
    auto f = [&](opts::opts_t q) { return opts::isset(opts::opts_t(o), q); };
    abs_ = f(opts::abs); iga = f(opts::iga); nug = f(opts::nug); pfc = f(opts::pfc); tot = f(opts::tot); fot = f(opts::fot); dfl = f(opts::dfl); div2 = f(opts::div_2nd); div3 = f(opts::div_3rd); div3dt = f(opts::div_3rd_dt);
#ifndef CONC
    tiny = std::numeric_limits<vreal>::min(); eps = std::numeric_limits<vreal>::epsilon();
#else
    tiny = std::numeric_limits<double>::min(); eps = std::numeric_limits<double>::epsilon();
#endif
  }
};
