// executable contracts: common part
#pragma once
#include <bits/stdc++.h>
#include <TQMeshConfig.h>
namespace H {
inline std::mt19937_64 rng;
inline double budget = 1.0;
inline std::string prop;
inline std::vector<double> seeds;
inline long checks = 0;
inline void init(int argc, char** argv)
{
  prop = argc > 1 ? argv[1] : "";
  rng.seed(argc > 2 ? std::stoull(argv[2]) : 1);
  budget = argc > 3 ? std::stod(argv[3]) : 1.0;
  if (argc > 4) { std::ifstream f(argv[4]); double d; while (f >> d) seeds.push_back(d); }
}
inline long n(long base) { return std::max(1L, (long)(base * budget)); }
inline int ri(int a, int b) { return a + (int)(rng() % (unsigned long)(b - a + 1)); }
inline double rd(double a, double b) { return a + (b - a) * ((rng() >> 11) * (1.0 / 9007199254740992.0)); }
template <class... A> [[noreturn]] inline void fail(const char* what, A... a)
{
  std::ostringstream o; o << std::setprecision(17);
  ((o << " " << a), ...);
  std::cout << "FAIL " << prop << ": " << what << ":" << o.str() << std::endl;
  std::_Exit(1);
}
// what the code under test is doing now, reported when it crashes
inline std::string doing;
inline void crash(int s)
{
  std::cout << "FAIL " << prop << ": signal " << s << " while: " << doing << std::endl;
  std::_Exit(1);
}
inline void guard() { if (getenv("NOGUARD")) return;  for (int s : {SIGSEGV, SIGFPE, SIGABRT, SIGBUS}) std::signal(s, crash); }
inline bool near(double a, double b, double tol = 1e-9)
{ return std::fabs(a - b) <= tol * std::max({1.0, std::fabs(a), std::fabs(b)}); }
inline int done() { std::cout << "ok " << checks << " checks" << std::endl; return 0; }
#define CHK(c, ...) do { ++H::checks; if (!(c)) H::fail(#c, __VA_ARGS__); } while (0)
}
