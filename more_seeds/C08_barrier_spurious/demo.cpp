#include <libmpdata++/solvers/mpdata.hpp>
#include <libmpdata++/concurr/serial.hpp>
#include <libmpdata++/concurr/boost_thread.hpp>
#include <libmpdata++/concurr/cxx11_thread.hpp>
#include <libmpdata++/bcond/cyclic_1d.hpp>
#include <libmpdata++/bcond/cyclic_2d.hpp>
#include <libmpdata++/bcond/cyclic_3d.hpp>
#include <random>
#include <cstdio>
#include <chrono>
#include <thread>
using namespace libmpdataxx;
#include <atomic>
int main() { concurr::detail::barrier b(2); std::atomic<bool> left{false}; std::thread t([&] { b.wait(); left = true; }); 
  for (int k = 0; k < 50 && !left; ++k) { std::this_thread::sleep_for(std::chrono::milliseconds(10)); std::lock_guard<std::mutex> g(b.m_mutex); b.m_cond.notify_all(); }
  bool bad = left; b.m_count = 1; b.wait(); t.join(); std::printf("left early: %d\n", bad); return bad; }
