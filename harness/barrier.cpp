// contract of concurr::detail::barrier::wait, for any number of threads and any number of earlier uses: the last thread to arrive opens
// the next round and wakes the others, any other thread leaves only once the round it arrived in is over
#include "setup.hpp"
#include "teams.hpp"
#include <atomic>
#include <thread>
using barrier_t = concurr::detail::barrier;
UNIT("barrier")
{
#ifndef CONC
  vint size = H::size("threads", 1), gen = H::integer("uses", 0, 0), here = H::integer("missing", 0, 0); H::iassume_le(0, gen); H::iassume_le(1, here); H::iassume_le(here, size);
  { barrier_t f(size); H::ieq("a new barrier waits for all threads", f.m_count, size); H::ieq("number of threads", f.m_threshold, size); }
  barrier_t b(size); b.m_generation = gen; b.m_count = here; int woken = 0, blocked = 0;
  b.m_cond.on_notify = [&] { ++woken; };
  b.m_cond.on_wait = [&] {
    H::ieq("a waiting thread is counted", b.m_count, here - 1); H::ieq("a waiting thread does not open the round", b.m_generation, gen);
    if (++blocked == 3) { b.m_generation = gen + 1; b.m_count = size; here = size + 1; }   // two wake-ups for no reason, then the round is over
    if (blocked > 3) { H::yes("leaves when its round is over", false); H::reject(); }
  };
  bool last = here == 1, r = b.wait();
  if (last) { H::yes("the last thread does not wait", blocked == 0); H::yes("the last thread wakes the others", woken > 0); H::ieq("next round", b.m_generation, gen + 1); H::ieq("all threads awaited again", b.m_count, size); }
  else { H::yes("waits until its round is over", blocked == 3); H::yes("only the last thread wakes others", woken == 0); H::ieq("does not touch the next round", b.m_generation, gen + 1); H::ieq("does not touch the next round", b.m_count, size); }
  H::yes("lock released", !b.m_mutex.held); H::yes("tells the last thread", r == last);
  H::fn("concurr::detail::barrier");
#else
  const int n = H::rint(2, 4); const std::size_t rounds[] = {0, 5, 4294967294ul, 4294967296ul, 8589934600ul}; const std::size_t g0 = rounds[H::rint(0, 4)]; H::S().log += "threads=" + std::to_string(n) + " uses=" + std::to_string(g0) + " ";
  barrier_t b(n); b.m_generation = g0;
  for (int r = 0; r < 3; ++r)
  {
    std::atomic<int> left{0}; std::vector<std::thread> t; for (int k = 1; k < n; ++k) t.emplace_back([&] { b.wait(); ++left; });
    for (int k = 0; k < 3; ++k) { std::this_thread::sleep_for(std::chrono::milliseconds(2)); std::lock_guard<std::mutex> g(b.m_mutex); b.m_cond.notify_all(); }
    H::ieq("threads that left before the last one came", left, 0); std::thread last([&] { b.wait(); ++left; });
    for (int k = 0; k < 400 && left < n; ++k) std::this_thread::sleep_for(std::chrono::milliseconds(5));
    H::ieq("threads that left once all are there", left, n); if (left < n) { b.m_generation += 1; for (int k = 0; k < 50 && left < n; ++k) { b.m_cond.notify_all(); std::this_thread::sleep_for(std::chrono::milliseconds(2)); } for (auto &x : t) x.detach(); last.detach(); std::printf("CONC-FAIL unit=%s seed=0 trial=0 %s\n", UNITNAME, H::S().first.c_str()); std::fflush(stdout); _Exit(1); }
    for (auto &x : t) x.join(); last.join();
  }
#endif
}
