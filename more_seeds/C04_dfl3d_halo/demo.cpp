#include <libmpdata++/solvers/mpdata.hpp>
#include <libmpdata++/concurr/serial.hpp>
#include <cstdio>
#include <random>
using namespace libmpdataxx;
struct ct : ct_params_default_t { using real_t = double; enum { n_dims = 3 }; enum { n_eqns = 1 }; enum { opts = opts::dfl }; };
// shifting the initial field along the periodic axis shifts the result
int main() {
  const int n = 9; using slv = solvers::mpdata<ct>; slv::rt_params_t p; p.grid_size = {n, 5, 5}; p.n_iters = 4; std::vector<std::vector<double>> r;
  for (int s = 0; s < 2; ++s) { concurr::serial<slv, bcond::cyclic, bcond::cyclic, bcond::cyclic, bcond::cyclic, bcond::cyclic, bcond::cyclic> run(p);
    std::mt19937 g(3); std::uniform_real_distribution<> u(.2, 1); std::vector<double> f(n - 1); for (auto &x : f) x = u(g);
    for (int i = 0; i < n; ++i) run.advectee()(i, blitz::Range::all(), blitz::Range::all()) = f[(i + 3 * s) % (n - 1)]; run.advector(0) = .3; run.advector(1) = 0; run.advector(2) = 0;
    run.advance(1); std::vector<double> o; for (int i = 0; i < n - 1; ++i) o.push_back(run.advectee()((i + (s ? n - 1 - 3 : 0)) % (n - 1), 2, 2)); r.push_back(o); }
  double e = 0; for (int i = 0; i < n - 1; ++i) e = std::max(e, std::abs(r[0][i] - r[1][i])); std::printf("%g\n", e); return e > 1e-9; }
