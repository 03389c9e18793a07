#include <libmpdata++/solvers/mpdata_rhs_vip.hpp>
#include <libmpdata++/concurr/serial.hpp>
#include <libmpdata++/bcond/cyclic_1d.hpp>
#include <libmpdata++/bcond/cyclic_2d.hpp>
#include <random>
#include <cstdio>
using namespace libmpdataxx; using namespace libmpdataxx::arakawa_c;
struct ct : ct_params_default_t { using real_t = double; enum { n_dims = 1 }; enum { n_eqns = 1 }; enum { opts = opts::div_2nd | opts::div_3rd }; enum { var_dt = true }; enum { rhs_scheme = solvers::trapez }; enum { sptl_intrp = solvers::aver4 }; struct ix { enum { u, vip_i = u, vip_den = -1 }; }; };
static double worst = 0; static int seen = 0;
struct slv : solvers::mpdata_rhs_vip<ct> { using parent_t = solvers::mpdata_rhs_vip<ct>; using parent_t::parent_t; using typename parent_t::real_t; double V[3] = {0, 0, 0};
  void update_rhs(libmpdataxx::arrvec_t<typename parent_t::arr_t> &rhs, const real_t &dt, const int &at) override { parent_t::update_rhs(rhs, dt, at); rhs.at(0)(this->ijk) += this->state(0)(this->ijk); }
  void hook_ante_step() override { V[2] = V[1]; V[1] = V[0]; V[0] = this->state(0)(4); double a = this->dt_stash[0], b = this->dt_stash[1];
    if (a > 0 && b > 0) { double w = this->dt * this->dt * this->dt / this->di * ((V[0] - V[1]) / a - (V[1] - V[2]) / b) / (.5 * (a + b)), g = this->mem->ndtt_GC[0](4); worst = std::max(worst, std::abs(w - g)); if (a != b) ++seen; }
    parent_t::hook_ante_step(); } };
int main() { slv::rt_params_t p; p.grid_size = {11}; p.di = 1; p.dt = .5; p.max_courant = .3; concurr::serial<slv, bcond::cyclic, bcond::cyclic> run(p); run.advectee() = .4; run.advance(2.); std::printf("%g %d\n", worst, seen); return worst > 1e-9 || !seen; }
