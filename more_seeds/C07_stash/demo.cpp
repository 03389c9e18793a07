#include <libmpdata++/solvers/mpdata.hpp>
#include <libmpdata++/concurr/serial.hpp>
#include <libmpdata++/concurr/boost_thread.hpp>
#include <libmpdata++/concurr/cxx11_thread.hpp>
#include <libmpdata++/bcond/cyclic_1d.hpp>
#include <libmpdata++/bcond/cyclic_2d.hpp>
#include <libmpdata++/bcond/cyclic_3d.hpp>
#include <random>
#include <cstdio>
#include <chrono>
#include <thread>
using namespace libmpdataxx; using namespace libmpdataxx::arakawa_c;
struct ct : ct_params_default_t { using real_t = double; enum { n_dims = 1 }; enum { n_eqns = 1 }; enum { opts = opts::div_2nd | opts::div_3rd }; enum { var_dt = true }; };
struct slv : solvers::mpdata<ct> { using parent_t = solvers::mpdata<ct>; using parent_t::parent_t; std::vector<double> used; int bad = 0;
  bool calc_gc() override { double t = this->time + this->dt / 2; this->mem->GC[0](this->im + h) = this->dt * (.3 + .1 * std::sin(3 * t)); this->xchng_vctr_alng(this->mem->GC); return true; }
  void calc_ndt_gc() override { int k = used.size(); if (k > 0 && this->dt_stash[0] != used[k - 1]) ++bad; if (k > 1 && this->dt_stash[1] != used[k - 2]) ++bad; this->mem->ndt_GC[0](this->im + h) = 0; this->mem->ndtt_GC[0](this->im + h) = 0; this->xchng_vctr_alng(this->mem->ndt_GC); this->xchng_vctr_alng(this->mem->ndtt_GC); }
  void hook_post_step() override { parent_t::hook_post_step(); used.push_back(this->dt); if (bad) failed = true; ++steps; } static inline bool failed = false; static inline int steps = 0; };
int main() { slv::rt_params_t p; p.grid_size = {16}; p.dt = .1; concurr::serial<slv, bcond::cyclic, bcond::cyclic> run(p); run.advectee() = 1; run.advector() = .03; run.advance(20.); std::printf("steps %d, %s\n", slv::steps, slv::failed ? "stash wrong" : "stash right"); return slv::failed || slv::steps < 4; }
