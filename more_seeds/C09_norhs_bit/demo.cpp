#include <libmpdata++/solvers/mpdata_rhs.hpp>
#include <libmpdata++/concurr/serial.hpp>
#include <libmpdata++/bcond/cyclic_1d.hpp>
#include <libmpdata++/bcond/cyclic_2d.hpp>
#include <random>
#include <cstdio>
using namespace libmpdataxx; using namespace libmpdataxx::arakawa_c;
struct ct : ct_params_default_t { using real_t = double; enum { n_dims = 1 }; enum { n_eqns = 3 }; enum { rhs_scheme = solvers::rhs_scheme_t::euler_a }; enum { hint_norhs = opts::bit(0) }; };
struct slv : solvers::mpdata_rhs<ct> { using parent_t = solvers::mpdata_rhs<ct>; using parent_t::parent_t; using typename parent_t::real_t;
  void update_rhs(libmpdataxx::arrvec_t<typename parent_t::arr_t> &rhs, const real_t &dt, const int &at) override { parent_t::update_rhs(rhs, dt, at); for (int e = 1; e < 3; ++e) rhs.at(e)(this->ijk) += e; } };
int main() { slv::rt_params_t p; p.grid_size = {9}; p.dt = .5; concurr::serial<slv, bcond::cyclic, bcond::cyclic> run(p); for (int e = 0; e < 3; ++e) run.advectee(e) = 1; run.advector() = .2; run.advance(4);
  double w = 0; for (int e = 0; e < 3; ++e) w = std::max(w, std::abs(run.advectee(e)(3) - (1 + 2. * e))); std::printf("%g\n", w); return w > 1e-9; }
