// contracts of the boundary-condition classes: value of every halo element after each fill, and frame (nothing else changes)
#include "H.hpp"
#include <libmpdata++/blitz.hpp>
#include <libmpdata++/bcond/cyclic_1d.hpp>
#include <libmpdata++/bcond/cyclic_2d.hpp>
#include <libmpdata++/bcond/cyclic_3d.hpp>
#include <libmpdata++/bcond/open_1d.hpp>
#include <libmpdata++/bcond/open_2d.hpp>
#include <libmpdata++/bcond/open_3d.hpp>
#include <libmpdata++/bcond/rigid_2d.hpp>
#include <libmpdata++/bcond/rigid_3d.hpp>
#include <libmpdata++/bcond/gndsky_2d.hpp>
#include <libmpdata++/bcond/gndsky_3d.hpp>
#include <libmpdata++/bcond/polar_2d.hpp>
#include <libmpdata++/bcond/polar_3d.hpp>
using namespace libmpdataxx;
using namespace libmpdataxx::arakawa_c;
using bcond::bcond_e; using bcond::drctn_e;
#ifndef KIND
#define KIND cyclic
#endif
constexpr int N = ND, HL = HALO; constexpr bcond_e K = bcond::KIND;
constexpr bool rig = K == bcond::rigid || K == bcond::gndsky;
using arr_t = blitz::Array<vreal, N>; using ix = H::ix<N>;
static const char *dn[] = {"nx", "ny", "nz"};
static std::array<vint, N> sz;
struct Box { ix lo, hi; };
static arr_t mk(const Box &b)
{
  if constexpr (N == 1) return arr_t(rng_t(b.lo[0], b.hi[0]));
  else if constexpr (N == 2) return arr_t(rng_t(b.lo[0], b.hi[0]), rng_t(b.lo[1], b.hi[1]));
  else return arr_t(rng_t(b.lo[0], b.hi[0]), rng_t(b.lo[1], b.hi[1]), rng_t(b.lo[2], b.hi[2]));
}
static Box sclr() { Box b; for (int e = 0; e < N; ++e) { b.lo[e] = -HL; b.hi[e] = sz[e] - 1 + HL; } return b; }
static Box vctr(int c) { Box b = sclr(); b.hi[c] = sz[c] - 2 + HL; return b; }
static Box cells() { Box b; for (int e = 0; e < N; ++e) { b.lo[e] = 0; b.hi[e] = sz[e] - 1; } return b; }
static arr_t data(const Box &b, const std::string &n) { arr_t a = mk(b); H::fill(a, n); return a; }
static void pushd(arrvec_t<arr_t> &av, const Box &b, const std::string &n) { av.push_back(new arr_t(mk(b))); H::fill(av[int(av.size()) - 1], n); }
static rng_t R(int e) { return rng_t(0, sz[e] - 1); }
// call f(args..., transverse ranges)
#define CALL(d, m, a, ...) [&] { if constexpr (N == 1) b.m(a __VA_OPT__(,) __VA_ARGS__); else if constexpr (N == 2) b.m(a, R((d + 1) % N) __VA_OPT__(,) __VA_ARGS__); else b.m(a, R((d + 1) % N), R((d + 2) % N) __VA_OPT__(,) __VA_ARGS__); }()
// every element of the array: in the halo slab of dimension d on the checked side (transverse inside): want(index); elsewhere unchanged
template <class F, class G> static void post(const std::string &l, arr_t &a, arr_t &a0, Box b, int d, F is_target, G want, int skip_lo = 0)
{
  // slab: every index along d separately (concrete distance from the edge), the rest of the array by one generic element
  Box c = cells(); (void)skip_lo;
  for (int m = -HL; m <= HL + 1; ++m) for (int side = 0; side < 2; ++side)
  {
    Box q; for (int e = 0; e < N; ++e) { q.lo[e] = 0; q.hi[e] = sz[e] - 1; }
    vint x = side == 0 ? vint(m) : b.hi[d] - HL - vint(m);     // side 0: m < 0 halo; side 1: m < 0 halo
    q.lo[d] = q.hi[d] = x;
    H::forall<N>(q.lo, q.hi, [&](const ix &i) {
      if (is_target(side, -m)) H::eq(l + (side ? "/right" : "/left") + std::to_string(-m), H::at(a, i), want(side, -m, i));
      else H::eq(l + "/frame-along" + (side ? "/right" : "/left") + std::to_string(-m), H::at(a, i), H::at(a0, i)); });
  }
  Box q = b; q.lo[d] = 1; q.hi[d] = b.hi[d] - HL - 1;
  H::forall<N>(q.lo, q.hi, [&](const ix &i) { H::eq(l + "/frame-interior", H::at(a, i), H::at(a0, i)); });
  for (int e = 0; e < N; ++e) if (e != d) for (int side = 0; side < 2; ++side)
  {
    Box q = b; if (side) q.lo[e] = sz[e]; else q.hi[e] = -1;
    H::forall<N>(q.lo, q.hi, [&](const ix &i) { H::eq(l + "/frame-transverse", H::at(a, i), H::at(a0, i)); });
  }
}
template <int d, drctn_e dir> static void one()
{
  const int S = dir == bcond::left ? 0 : 1;
  const vint n = sz[d];
  std::array<vint, N> gs; for (int e = 0; e < N; ++e) gs[e] = sz[e];
  bcond::bcond<vreal, HL, K, dir, N, d> b(R(d), gs, false, 0, 1);
  auto side = [S](int s, int m) { return s == S && m >= 1 && m <= HL; };
  // scalar index at distance m outside / inside of the edge; face index likewise (face i is i+1/2)
  auto at = [&](arr_t &a, ix i, vint x) -> vreal { i[d] = x; return H::at(a, i); };
  auto in = [&](int m) -> vint { return S == 0 ? vint(m) : n - 1 - vint(m); };        // m points inside the edge
  auto fin = [&](int m) -> vint { return S == 0 ? vint(m - 1) : n - 1 - vint(m); };    // m-th face inside (m >= 1)
  auto fout = [&](int m) -> vint { return S == 0 ? vint(-m) : n - 2 + vint(m); };      // m-th face outside
  auto wrap = [&](int m) -> vint { return S == 0 ? n - 1 - vint(m) : vint(m); };       // cyclic image of the m-th halo point
  auto fwrap = [&](int m) -> vint { return S == 0 ? n - 1 - vint(m) : vint(m - 1); };
  const int D1 = (d + 1) % N; (void)D1;
  auto pole = [&](vint j) -> vint { vint p = (gs[0] - 1) / 2; return (j + p) % (2 * p); };
  if constexpr (K != bcond::polar)
  {
    for (int deriv = 0; deriv < 2; ++deriv)
    {
      arr_t a = data(sclr(), "a"), a0 = data(sclr(), "a"); CALL(d, fill_halos_sclr, a, deriv != 0);
      post(deriv ? "sclr-deriv" : "sclr", a, a0, sclr(), d, side, [&](int, int m, const ix &i) -> vreal {
        if (K == bcond::cyclic) return at(a0, i, wrap(m));
        if (rig) return at(a0, i, in(m));
        return deriv ? vreal(0) : at(a0, i, in(0)); });
    }
    if constexpr (N > 1)
    {
      arr_t a = data(sclr(), "a"), a0 = data(sclr(), "a"); CALL(d, fill_halos_pres, a);
      post("pres", a, a0, sclr(), d, [&](int s, int m) { return side(s, m) && (K != bcond::open || m <= 2); }, [&](int, int m, const ix &i) -> vreal {
        if (K == bcond::cyclic) return at(a0, i, wrap(m));
        if (rig) return 2 * at(a0, i, in(0)) - at(a0, i, in(m));
        return (m + 1) * at(a0, i, in(0)) - m * at(a0, i, in(1)); });
      arr_t v = data(sclr(), "v"), p = data(sclr(), "p"), p0 = data(sclr(), "p");
      for (int sg = -1; sg <= 1; sg += 2)
      {
        p = p0; CALL(d, save_edge_vel, v); CALL(d, set_edge_pres, p, sg);
        for (int e = 0; e < N; ++e) for (int sd = 0; sd < 2; ++sd) {}
        post("edge", p, p0, sclr(), d, [&](int s, int m) { return s == S && m == 0 && K != bcond::cyclic; }, [&](int, int, const ix &i) -> vreal { return rig ? vreal(0) : sg * at(v, i, in(0)); });
      }
    }
    for (int ad = 0; ad < 2; ++ad)
    {
      arrvec_t<arr_t> av; std::vector<arr_t> av0; for (int e = 0; e < N; ++e) { std::string nm = "c" + std::to_string(e); pushd(av, vctr(e), nm); av0.push_back(data(vctr(e), nm)); }
      CALL(d, fill_halos_vctr_alng, av, ad != 0);
      const std::string l = ad ? "vctr-ad" : "vctr";
      auto tgt = [&](int s, int m) { return side(s, m) && (K == bcond::cyclic || !ad || m >= 2); };
      arr_t x = av[d];
      post(l, x, av0[d], vctr(d), d, tgt, [&](int, int m, const ix &i) -> vreal {
        if (K == bcond::cyclic) return at(av0[d], i, fwrap(m));
        if (rig) return -at(av0[d], i, fin(m));
        if (N == 1) return at(av0[d], i, fin(1));
        // zero divergence in the edge cell
        vreal dv = 0; for (int e = 0; e < N; ++e) if (e != d) { ix q = i; q[d] = in(0); ix q1 = q; q1[e] = q[e] - 1; dv = dv + H::at(av[e], q) - H::at(av[e], q1); }
        return S == 0 ? vreal(at(av0[d], i, fin(1)) + dv) : vreal(at(av0[d], i, fin(1)) - dv); });
      for (int e = 0; e < N; ++e) if (e != d)
      {
        // other components: only (open) the outermost transverse faces of the edge cells may be zeroed
        Box q = vctr(e); q.lo[e] = 0; q.hi[e] = sz[e] - 2;
        H::forall<N>(q.lo, q.hi, [&](const ix &i) { H::eq(l + "/other-components", H::at(av[e], i), H::at(av0[e], i)); });
        if (K != bcond::open) { Box w = vctr(e); H::forall<N>(w.lo, w.hi, [&](const ix &i) { H::eq(l + "/other-components", H::at(av[e], i), H::at(av0[e], i)); }); }
        else
        {
          Box w = vctr(e); w.lo[d] = 0; w.hi[d] = n - 1; if (S == 0) w.lo[d] = 1; else w.hi[d] = n - 2;
          H::forall<N>(w.lo, w.hi, [&](const ix &i) { H::eq(l + "/other-components", H::at(av[e], i), H::at(av0[e], i)); });
        }
      }
    }
    if constexpr (N > 1)
    {
      arr_t a = data(sclr(), "a"), a0 = data(sclr(), "a"); CALL(d, fill_halos_vctr_nrml, a);
      post("nrml", a, a0, sclr(), d, side, [&](int, int m, const ix &i) -> vreal { if (K == bcond::cyclic) return at(a0, i, wrap(m)); if (rig) return at(a0, i, in(m)); return vreal(0); });
    }
    // the *_cyclic variants act only for cyclic
    {
      arrvec_t<arr_t> av; pushd(av, vctr(d), "c"); for (int e = 1; e < N; ++e) pushd(av, vctr(d), "c"); arr_t a0 = data(vctr(d), "c");
      CALL(d, fill_halos_vctr_alng_cyclic, av, false); arr_t x = av[d];
      post("vctr_cyclic", x, a0, vctr(d), d, [&](int s, int m) { return side(s, m) && K == bcond::cyclic; }, [&](int, int m, const ix &i) -> vreal { return at(a0, i, fwrap(m)); });
    }
    if constexpr (N > 1)
    {
      arr_t a = data(sclr(), "a"), a0 = data(sclr(), "a"); CALL(d, fill_halos_vctr_nrml_cyclic, a);
      post("nrml_cyclic", a, a0, sclr(), d, [&](int s, int m) { return side(s, m) && K == bcond::cyclic; }, [&](int, int m, const ix &i) -> vreal { return at(a0, i, wrap(m)); });
      arrvec_t<arr_t> av; for (int e = 0; e < N; ++e) pushd(av, vctr(d), "c"); arr_t c0 = data(vctr(d), "c");
      CALL(d, fill_halos_flux, av); arr_t x = av[d];
      post("flux", x, c0, vctr(d), d, [&](int s, int m) { return side(s, m) && rig && m == 1; }, [&](int, int, const ix &i) -> vreal { return -at(c0, i, fin(1)); });
    }
    { // cell-edge averaging used by cyclic remapping
      arr_t a = data(sclr(), "a"), a0 = data(sclr(), "a"); CALL(d, copy_edge_sclr_to_halo1_cyclic, a);
      post("edge2halo", a, a0, sclr(), d, [&](int s, int m) { return s == S && m == 1 && K == bcond::cyclic; }, [&](int, int, const ix &i) -> vreal { return at(a0, i, S == 0 ? n - 1 : vint(0)); });
      arr_t c = data(sclr(), "a"); CALL(d, avg_edge_and_halo1_sclr_cyclic, c);
      post("edge-avg", c, a0, sclr(), d, [&](int s, int m) { return s == S && m == 0 && K == bcond::cyclic; }, [&](int, int, const ix &i) -> vreal { return (at(a0, i, in(0)) + at(a0, i, S == 0 ? vint(-1) : n)) / 2; });
    }
    if constexpr (N > 1 && K != bcond::open)
    {
      vreal di = H::scalar("di", H::pos);
      for (int st = 0; st < 2; ++st)
      {
        arr_t a = data(vctr(d), "c"), a0 = data(vctr(d), "c");
        if (K == bcond::cyclic && !st) continue;      // the collocated variant is a scalar fill (checked through sclr)
        if (st) CALL(d, fill_halos_sgs_div_stgr, a); else CALL(d, fill_halos_sgs_div, a);
        post("sgs_div", a, a0, vctr(d), d, [&](int s, int m) { return side(s, m) && (m == 1 || K == bcond::cyclic); }, [&](int, int m, const ix &i) -> vreal { return K == bcond::cyclic ? at(a0, i, fwrap(m)) : vreal(2 * at(a0, i, fin(1)) - at(a0, i, fin(2))); });
      }
      if (K == bcond::cyclic) { arr_t a = data(sclr(), "a"), a0 = data(sclr(), "a"); CALL(d, fill_halos_sgs_div, a); post("sgs_div", a, a0, sclr(), d, side, [&](int, int m, const ix &i) -> vreal { return at(a0, i, wrap(m)); }); }
      for (int off = 0; off < 2; ++off)
      {
        arrvec_t<arr_t> av; for (int e = 0; e < N + 1; ++e) pushd(av, vctr(d), "c" + std::to_string(e)); arr_t c0 = data(vctr(d), "c" + std::to_string(d + off)), g = data(sclr(), "g");
        if constexpr (N == 2) b.fill_halos_sgs_vctr(av, g, R(D1), off); else b.fill_halos_sgs_vctr(av, g, R((d + 1) % N), R((d + 2) % N), off);
        arr_t x = av[d + off];
        const bool gnd = K == bcond::gndsky && S == 0;
        post("sgs_vctr", x, c0, vctr(d), d, [&](int s, int m) { return side(s, m) && (m == 1 || K == bcond::cyclic); }, [&](int, int m, const ix &i) -> vreal { if (K == bcond::cyclic) return at(c0, i, fwrap(m)); return gnd ? vreal(2 * at(g, i, in(0)) - at(c0, i, fin(1))) : vreal(-at(c0, i, fin(1))); });
      }
      {
        arrvec_t<arr_t> av; for (int e = 0; e < N; ++e) pushd(av, vctr(d), "c"); arr_t c0 = data(vctr(d), "c"), u = data(sclr(), "u"), dv = data(vctr(d), "div");
        if constexpr (N == 2) b.fill_halos_sgs_tnsr(av, u, dv, R(D1), di); else b.fill_halos_sgs_tnsr(av, u, dv, R((d + 1) % N), R((d + 2) % N), di);
        arr_t x = av[d]; const bool gnd = K == bcond::gndsky && S == 0;
        post("sgs_tnsr", x, c0, vctr(d), d, [&](int s, int m) { return side(s, m) && (m == 1 || K == bcond::cyclic); }, [&](int, int m, const ix &i) -> vreal {
          if (K == bcond::cyclic) return at(c0, i, fwrap(m));
          // one-sided 2nd-order derivative of u at the ground (twice), minus the divergence
          if (gnd) return 2 * ((3 * at(u, i, in(1)) - 2 * at(u, i, in(0)) - at(u, i, in(2))) / di - at(dv, i, fout(1)));
          return 2 * at(c0, i, fin(1)) - at(c0, i, fin(2)); });
      }
    }
  }
  else if constexpr (N > 1)
  {
    // pole between the edge point and its mirror image on the opposite meridian; d is the meridional dimension, d+1 (mod 2) the zonal one
    auto opp = [&](const ix &i) { ix q = i; q[0] = pole(i[0]); return q; };
    {
      arr_t a = data(sclr(), "a"), a0 = data(sclr(), "a"); CALL(d, fill_halos_sclr, a, false);
      post("sclr", a, a0, sclr(), d, side, [&](int, int m, const ix &i) -> vreal { return at(a0, opp(i), in(m - 1)); });
    }
    for (int ad = 0; ad < 2; ++ad)
    {
      arrvec_t<arr_t> av; for (int e = 0; e < N; ++e) pushd(av, vctr(d), "c"); arr_t a0 = data(vctr(d), "c"); CALL(d, fill_halos_vctr_alng, av, ad != 0); arr_t x = av[d];
      post(ad ? "vctr-ad" : "vctr", x, a0, vctr(d), d, [&](int s, int m) { return side(s, m) && m <= 2 && (!ad || m >= 2); }, [&](int, int m, const ix &i) -> vreal { return m == 1 ? vreal(0) : at(a0, opp(i), fin(m - 1)); });
    }
    {
      arr_t a = data(vctr(0), "a"), a0 = data(vctr(0), "a");   // zonal component: staggered in x
      if constexpr (N == 2) b.fill_halos_vctr_nrml(a, rng_t(0, sz[0] - 2)); else if constexpr (d == 2) b.fill_halos_vctr_nrml(a, rng_t(0, sz[0] - 2), R(1)); else b.fill_halos_vctr_nrml(a, R(2), rng_t(0, sz[0] - 2));
      for (int m = 1; m <= HL; ++m)
      {
        Box q = cells(); q.hi[0] = sz[0] - 2; q.lo[d] = q.hi[d] = S == 0 ? vint(-m) : n - 1 + vint(m);
        H::forall<N>(q.lo, q.hi, [&](const ix &i) { H::eq("nrml", H::at(a, i), at(a0, opp(i), in(m - 1))); });
      }
      Box q = vctr(0); q.lo[d] = 0; q.hi[d] = n - 1;
      H::forall<N>(q.lo, q.hi, [&](const ix &i) { H::eq("nrml/frame", H::at(a, i), H::at(a0, i)); });
    }
  }
  H::fn(std::string("bcond::bcond<") + std::to_string(K) + "> fill_halos_*");
}
UNIT("bcond")
{
  for (int e = 0; e < N; ++e) sz[e] = H::size(dn[e], 4 + HL);
  if (K == bcond::polar) sz[0] = 2 * H::size("half", 3) + 1;
#ifndef DIM
  one<0, bcond::left>(); one<0, bcond::rght>();
  if constexpr (N > 1) { one<1, bcond::left>(); one<1, bcond::rght>(); }
  if constexpr (N > 2) { one<2, bcond::left>(); one<2, bcond::rght>(); }
#else
  one<DIM, bcond::left>(); one<DIM, bcond::rght>();
#endif
}
