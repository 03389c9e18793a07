#include <libmpdata++/solvers/mpdata.hpp>
#include <libmpdata++/concurr/serial.hpp>
#include <libmpdata++/concurr/boost_thread.hpp>
#include <libmpdata++/concurr/cxx11_thread.hpp>
#include <libmpdata++/bcond/cyclic_1d.hpp>
#include <libmpdata++/bcond/cyclic_2d.hpp>
#include <libmpdata++/bcond/cyclic_3d.hpp>
#include <random>
#include <cstdio>
#include <chrono>
#include <thread>
using namespace libmpdataxx; using namespace libmpdataxx::arakawa_c;
#include <boost/thread.hpp>
// threads that rest after every barrier, one thread at a time
thread_local int tid = 0; static int lazy = -1;
template <class S, bcond::bcond_e A, bcond::bcond_e B, bcond::bcond_e C = bcond::null, bcond::bcond_e D = bcond::null> class slow : public concurr::detail::concurr_common<S, A, B, C, D, bcond::null, bcond::null> {
  using P = concurr::detail::concurr_common<S, A, B, C, D, bcond::null, bcond::null>;
  struct mem_t : P::mem_t { boost::barrier b; mem_t(const std::array<int, S::n_dims> &g, int n) : P::mem_t(g, n), b(n) {} void barrier() { b.wait(); if (tid == lazy) std::this_thread::sleep_for(std::chrono::milliseconds(5)); } };
  void solve(typename P::advance_arg_t nt) { std::vector<std::thread> t; for (int i = 0; i < this->algos.size(); ++i) t.emplace_back([this, i, nt] { tid = i; this->algos[i].solve(nt); }); for (auto &x : t) x.join(); }
public: slow(const typename S::rt_params_t &p, int n) : P(p, new mem_t(p.grid_size, n), n) {} };
struct ct : ct_params_default_t { using real_t = double; enum { n_dims = 2 }; enum { n_eqns = 1 }; enum { opts = opts::fct }; };
int main() { using slv = solvers::mpdata<ct>; const int n = 21, m = 7; slv::rt_params_t p; p.grid_size = {n, m}; double worst = 0; concurr::serial<slv, bcond::cyclic, bcond::cyclic, bcond::cyclic, bcond::cyclic> one(p);
  auto init = [&](auto &r) { std::mt19937 g(5); std::uniform_real_distribution<> u(0, 1); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) r.advectee()(i, j) = i == n - 1 ? r.advectee()(0, j) : j == m - 1 ? r.advectee()(i, 0) : u(g); r.advector(0) = .4; r.advector(1) = .2; };
  init(one); one.advance(4);
  for (lazy = 0; lazy < 3; ++lazy) { slow<slv, bcond::cyclic, bcond::cyclic, bcond::cyclic, bcond::cyclic> r(p, 3); init(r); r.advance(4); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) worst = std::max(worst, std::abs(r.advectee()(i, j) - one.advectee()(i, j))); }
  std::printf("%g\n", worst); return worst > 1e-12; }
