// the concurrency drivers under contract: -DTEAM=boost_thread (default), cxx11_thread, openmp
#pragma once
#ifndef TEAM
#define TEAM boost_thread
#endif
#ifndef CONC
#include <boost/thread.hpp>
#include <mutex>
#include <condition_variable>
#define _OPENMP 201511
#include <omp.h>
#endif
#include <libmpdata++/concurr/boost_thread.hpp>
#include <libmpdata++/concurr/cxx11_thread.hpp>
#include <libmpdata++/concurr/openmp.hpp>
template <class S, int N, bcond::bcond_e B> struct threads_of;
template <class S, bcond::bcond_e B> struct threads_of<S, 1, B> { using type = concurr::TEAM<S, B, B>; };
template <class S, bcond::bcond_e B> struct threads_of<S, 2, B> { using type = concurr::TEAM<S, B, B, B, B>; };
template <class S, bcond::bcond_e B> struct threads_of<S, 3, B> { using type = concurr::TEAM<S, B, B, B, B, B, B>; };
