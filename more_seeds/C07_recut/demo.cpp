#include <libmpdata++/solvers/mpdata.hpp>
#include <libmpdata++/concurr/serial.hpp>
#include <libmpdata++/concurr/boost_thread.hpp>
#include <libmpdata++/concurr/cxx11_thread.hpp>
#include <libmpdata++/bcond/cyclic_1d.hpp>
#include <libmpdata++/bcond/cyclic_2d.hpp>
#include <libmpdata++/bcond/cyclic_3d.hpp>
#include <random>
#include <cstdio>
#include <chrono>
#include <thread>
using namespace libmpdataxx; using namespace libmpdataxx::arakawa_c;
struct ct : ct_params_default_t { using real_t = double; enum { n_dims = 1 }; enum { n_eqns = 1 }; enum { opts = 0 }; enum { var_dt = true }; };
struct slv : solvers::mpdata<ct> { using parent_t = solvers::mpdata<ct>; using parent_t::parent_t; static inline double worst = 0;
  bool calc_gc() override { double t = this->dt / 2; this->mem->GC[0](this->im + h) = this->dt * (1 + 2 * std::exp(-t * t)); this->xchng_vctr_alng(this->mem->GC); return true; }
  void hook_ante_step() override { parent_t::hook_ante_step(); worst = std::max(worst, this->courant_number(this->mem->GC)); } };
int main() { slv::rt_params_t p; p.grid_size = {16}; p.dt = 3; p.max_courant = .5; concurr::serial<slv, bcond::cyclic, bcond::cyclic> run(p); run.advectee() = 1; run.advector() = .1; run.advance(5.); std::printf("%g\n", slv::worst); return slv::worst > .5 * (1 + 1e-9); }
