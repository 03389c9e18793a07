#include <libmpdata++/solvers/mpdata.hpp>
#include <libmpdata++/concurr/serial.hpp>
#include <cstdio>
#include <random>
using namespace libmpdataxx;
struct ct : ct_params_default_t { using real_t = double; enum { n_dims = 3 }; enum { n_eqns = 1 }; enum { opts = opts::khn | opts::nug }; };
int main() {
  using slv = solvers::mpdata<ct>; slv::rt_params_t p; p.grid_size = {7, 6, 8}; p.n_iters = 2;
  concurr::serial<slv, bcond::cyclic, bcond::cyclic, bcond::cyclic, bcond::cyclic, bcond::cyclic, bcond::cyclic> run(p);
  std::mt19937 g(1); std::uniform_real_distribution<> u(.5, 1.5);
  auto psi = run.advectee(); auto G = run.g_factor();
  for (auto &x : psi) x = u(g); for (auto &x : G) x = u(g);
  auto wrap = [](blitz::Array<double, 3> a) { auto A = blitz::Range::all(); a(6, A, A) = a(0, A, A); a(A, 5, A) = a(A, 0, A); a(A, A, 7) = a(A, A, 0); }; wrap(psi); wrap(G);
  run.advector(0) = .1; run.advector(1) = -.05; run.advector(2) = .12;
  auto sum = [&] { double s = 0; for (int i = 0; i < 6; ++i) for (int j = 0; j < 5; ++j) for (int k = 0; k < 7; ++k) s += run.advectee()(i, j, k) * run.g_factor()(i, j, k); return s; };
  double a = sum(); run.advance(5); double b = sum(); std::printf("%.12f %.12f\n", a, b); return std::abs(a - b) > 1e-9 * a; }
