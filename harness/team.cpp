// contracts of the thread team: the reductions every thread calls, and the number of threads a grid allows
#include "setup.hpp"
#include "teams.hpp"
struct ct_params_t : ct_params_default_t { using real_t = vreal; enum { n_dims = ND }; enum { n_eqns = 1 }; enum { opts = OPTS }; };
using slv_t = solvers::mpdata<ct_params_t>;
using run_t = typename threads_of<slv_t, ND, bcond::BC>::type;
constexpr int DD = ND < 3 ? 0 : 1;
UNIT("team")
{
  typename slv_t::rt_params_t prm; prm.n_iters = 2; prm.dt = 1;
  const int ask = TH;
  setenv("OMP_NUM_THREADS", std::to_string(ask).c_str(), 1);
#ifdef REDUCE
  for (int d = 0; d < ND; ++d) prm.grid_size[d] = H::size(dimname[d], TH);
  run_t run(prm); auto &mem = *run.mem;
#ifndef CONC
  std::vector<vreal> lo, hi; 
  auto part = [&](int k) { auto a = mem.advectee(); return a(run.algos[k].ijk); };
  H::fill(mem.advectee(), "psi");
  for (int k = 0; k < TH; ++k) { mem.max(k, part(k)); }
  vreal m = blitz::max(part(0)); for (int k = 1; k < TH; ++k) m = sym::max(m, blitz::max(part(k)));
  for (int k = 0; k < TH; ++k) H::eq("every thread gets the maximum over all threads", mem.max(k, part(k)), m);
  for (int k = 0; k < TH; ++k) { mem.min(k, part(k)); }
  m = blitz::min(part(0)); for (int k = 1; k < TH; ++k) m = sym::min(m, blitz::min(part(k)));
  for (int k = 0; k < TH; ++k) H::eq("every thread gets the minimum over all threads", mem.min(k, part(k)), m);
  H::eq("maximum without threads", mem.max(mem.advectee()), blitz::max(mem.advectee())); H::eq("minimum without threads", mem.min(mem.advectee()), blitz::min(mem.advectee()));
#endif
  H::fn("sharedmem_common::min, max");
#else
  // too few points along the divided dimension limit the number of threads, the others do not
  for (int d = 0; d < ND; ++d) prm.grid_size[d] = H::size(dimname[d], ND == 1 ? 4 : d == DD ? 2 : 3);
  vint n = prm.grid_size[DD], want = TH; 
  for (int k = 2; k <= TH; ++k) if (n == k) { want = k; for (int d = 0; d < ND; ++d) if (d == DD) prm.grid_size[d] = k; }
  run_t run(prm);
  H::ieq("one solver per thread", vint(run.algos.size()), want); H::ieq("threads known to the shared memory", run.mem->size, want);
#ifndef CONC
#ifndef TEAM_OMP
  H::ieq("threads the barrier waits for", static_cast<typename run_t::mem_t &>(*run.mem).b.count, want);
#endif
#endif
  for (int k = 0; k < int(want); ++k)
  {
    H::ieq("rank", run.algos[k].rank, k);
    auto r = run.algos[k].ijk[DD]; H::ile("every thread has a point", r.first(), r.last());
    if (k == 0) H::ieq("starts with the domain", r.first(), 0); if (k == int(want) - 1) H::ieq("ends with the domain", r.last(), n - 1); else H::ieq("parts are consecutive", run.algos[k + 1].ijk[DD].first(), r.last() + 1);
    for (int d = 0; d < ND; ++d) if (d != DD) { H::ieq("whole range in the other dimensions", run.algos[k].ijk[d].first(), 0); H::ieq("whole range in the other dimensions", run.algos[k].ijk[d].last(), prm.grid_size[d] - 1); }
  }
  H::fn("concurr::boost_thread::mem_t::size, mem_t, concurr_common::init, sharedmem_common");
#endif
}
