// Stand-in for the thread library when concurr::boost_thread is verified: wait() is the synchronisation call-back, and of the threads
// started by solve() only the selected one runs (each thread is checked on its own, against the one-thread run).
#pragma once
#include <boost/core/ref.hpp>
#include <functional>
namespace boost
{
  struct barrier { vint count; static inline std::function<void(barrier &)> on_wait; explicit barrier(const vint &c) : count(c) {} void wait() { if (on_wait) on_wait(*this); } };
  struct thread
  {
    static inline int selected = 0; static inline long started = 0; static inline bool running = false;
    static vint hardware_concurrency() { return sym::fresh_int("cores"); }
    template <class F, class S, class A> thread(F f, reference_wrapper<S> s, A a) { if (++started == selected + 1) { running = true; (s.get().*f)(a); running = false; } }
  };
  struct thread_group { std::vector<std::unique_ptr<thread>> t; void add_thread(thread *p) { t.emplace_back(p); } void join_all() {} };
}
// the same stand-ins under the names of the standard thread library; concurr::detail::barrier itself is checked on its own
namespace sym_thread
{
  struct mutex { bool held = false; };
  template <class M> struct unique_lock { M &m; unique_lock(M &m) : m(m) { m.held = true; } ~unique_lock() { m.held = false; } };
  struct condition_variable { std::function<void()> on_wait, on_notify; template <class L> void wait(L &l) { H::yes("waits with the lock held", l.m.held); l.m.held = false; on_wait(); l.m.held = true; } void notify_all() { on_notify(); } void notify_one() { H::yes("wakes every waiting thread", false); } };
  struct thread : boost::thread { template <class F, class S, class A> thread(F f, S *s, A a) : boost::thread(f, boost::ref(*s), a) {} void join() {} };
}
