// Stand-in for the OpenMP runtime when concurr::openmp is verified (see boost/thread.hpp)
#pragma once
#include <boost/thread.hpp>
namespace omp_shim
{
  inline vint &max_threads() { static vint n = 1; return n; }
  struct in_team { in_team(const vint &n) { boost::thread::started = static_cast<long>(n); boost::thread::running = true; } ~in_team() { boost::thread::running = false; } };
  inline void barrier() { static boost::barrier b(0); b.wait(); }
}
inline void omp_set_num_threads(const vint &n) { omp_shim::max_threads() = n; }
inline vint omp_get_max_threads() { return omp_shim::max_threads(); }
inline vint omp_get_thread_num() { return boost::thread::selected; }
