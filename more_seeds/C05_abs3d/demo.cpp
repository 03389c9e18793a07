#include <libmpdata++/solvers/mpdata.hpp>
#include <libmpdata++/concurr/serial.hpp>
#include <cstdio>
#include <random>
using namespace libmpdataxx;
struct ct : ct_params_default_t { using real_t = double; enum { n_dims = 3 }; enum { n_eqns = 1 }; enum { opts = opts::fct | opts::abs }; };
int main() {
  const int n = 9; using slv = solvers::mpdata<ct>; slv::rt_params_t p; p.grid_size = {n, n, n}; double worst = 0;
  for (int s = 0; s < 40; ++s) { blitz::Array<double, 3> r[3];
    for (int it = 1; it < 3; ++it) { p.n_iters = it; concurr::serial<slv, bcond::cyclic, bcond::cyclic, bcond::cyclic, bcond::cyclic, bcond::cyclic, bcond::cyclic> run(p);
    std::mt19937 g(s); std::uniform_real_distribution<> u(-1, 1); auto a = run.advectee(); for (auto &x : a) x = u(g); auto A = blitz::Range::all(); a(n - 1, A, A) = a(0, A, A); a(A, n - 1, A) = a(A, 0, A); a(A, A, n - 1) = a(A, A, 0);
    if (it == 1) r[0].reference(a.copy()), r[0].reindexSelf(blitz::TinyVector<int, 3>(0, 0, 0)); for (int d = 0; d < 3; ++d) run.advector(d) = .3 * u(g); run.advance(1); r[it].reference(run.advectee().copy()); r[it].reindexSelf(blitz::TinyVector<int, 3>(0, 0, 0)); }
    for (int i = 1; i < n - 1; ++i) for (int j = 1; j < n - 1; ++j) for (int k = 1; k < n - 1; ++k) { double lo = 9, hi = -9;   // over the field before the step and after the first pass
      for (int q = 0; q < 2; ++q) for (int d = -3; d < 4; ++d) { int s = d < 0 ? -1 : d > 0, e = std::abs(d); double v = r[q](i + (e == 1) * s, j + (e == 2) * s, k + (e == 3) * s); lo = std::min(lo, v); hi = std::max(hi, v); }
      worst = std::max({worst, lo - r[2](i, j, k), r[2](i, j, k) - hi}); } }
  std::printf("%g\n", worst); return worst > 1e-9; }
