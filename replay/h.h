// shared by the replay / bounded stand-in programs
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <string>
#include <vector>
#include <deque>
#include <sstream>
#include <fstream>
#include <iostream>
#include <random>
#include <ctime>
#include <algorithm>
#include <set>
#include <map>
#include <functional>
#include <unistd.h>
static std::string CUR;  // the case being executed (printed if the real code crashes)
extern "C" void __asan_set_death_callback(void(*)(void)) __attribute__((weak));
static void on_death(){ std::string t=CUR; for(auto&c:t) if(c=='\n') c='|'; printf("CASE %s\n",t.c_str()); fflush(stdout); }
static std::mt19937_64 RNG; static double BUDGET; static struct timespec T0;
static long N_CASES=0, N_NONTRIV=0; static int N_FAIL=0;
inline double now_s(){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return (t.tv_sec-T0.tv_sec)+1e-9*(t.tv_nsec-T0.tv_nsec); }
inline void init(int argc,char**argv){ long seed=argc>1?atol(argv[1]):1; BUDGET=argc>2?atof(argv[2]):20; RNG.seed(seed*7919+13); clock_gettime(CLOCK_MONOTONIC,&T0); setvbuf(stdout,0,_IOLBF,0); if(__asan_set_death_callback) __asan_set_death_callback(on_death); }
inline bool more(){ return now_s()<BUDGET && N_FAIL<5; }
inline long rnd(long a,long b){ return std::uniform_int_distribution<long>(a,b)(RNG); }
inline double rndf(double a,double b){ return std::uniform_real_distribution<double>(a,b)(RNG); }
inline bool chance(double p){ return rndf(0,1)<p; }
inline void fail(const std::string& s){ N_FAIL++; std::string t=s; for(auto&c:t) if(c=='\n') c='|'; printf("FAIL %s\n",t.c_str()); fflush(stdout); }
inline int finish(){ printf("STAT evaluations=%ld\nSTAT nontrivial=%ld\nSTAT failures=%d\n",N_CASES,N_NONTRIV,N_FAIL); fflush(stdout); return N_FAIL?1:0; }
