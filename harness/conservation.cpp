// cyclic domain: the G-weighted integral over the distinct cells does not change in a time step
#include "setup.hpp"
struct ct_params_t : ct_params_default_t { using real_t = vreal; enum { n_dims = ND }; enum { n_eqns = 1 }; enum { opts = OPTS }; };
UNIT("conservation")
{
  using slv_t = solvers::mpdata<ct_params_t>; using arr_t = typename slv_t::arr_t;
  typename slv_t::rt_params_t p;
  p.n_iters = NIT;
  H::ix<ND> lo, hm;
  for (int d = 0; d < ND; ++d) { vint n = H::size(dimname[d], NMIN); p.grid_size[d] = n; lo[d] = 0; hm[d] = n - 2; }
  typename serial_of<slv_t, ND, bcond::BC>::type run(p);
  const bool nug = opts::isset(OPTS, opts::nug), pos = !opts::isset(OPTS, opts::abs) && !opts::isset(OPTS, opts::iga);
  H::fill(run.advectee(), "psi", pos ? H::nonneg : H::any);
  for (int d = 0; d < ND; ++d) H::fill(run.advector(d), "C" + std::to_string(d), H::any, 0.15);
  if (nug) { H::fill(run.g_factor(), "G", H::pos); wrap<arr_t, ND>(run.g_factor(), p.grid_size); }
  wrap<arr_t, ND>(run.advectee(), p.grid_size);
  for (int d = 0; d < ND; ++d) for (int q = 0; q < ND; ++q) if (q != d) wrap_dim<arr_t, ND>(run.advector(d), q, p.grid_size[q]);
#ifdef CONC
  if (ND > 1) for (int d = 0; d < ND; ++d) { auto C = run.advector(d); double v = H::rnd(-.25, .25); C = v; }   // divergence-free
#endif
  auto psi0 = run.advectee().copy();
  H::advance(run, NT);
  auto psi = run.advectee();
  auto o = psi.lbound(); psi0.reindexSelf(o);
  H::telescopes<ND>("conservation", lo, hm, [&](const H::ix<ND> &c) -> vreal { vreal D = H::at(psi, c) - H::at(psi0, c); if (nug) { auto G = run.g_factor(); D = D * H::at(G, c); } return D; });
  H::fn("solvers::mpdata advance (donorcell_sum, make_flux, antidiff, fct_adjust_antidiff, xchng_*)");
}
