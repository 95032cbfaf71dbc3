// shared by the native replay units: deterministic random numbers and reporting
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <chrono>
#include <string>
#include <unordered_set>
namespace unit {
inline std::uint64_t s_ = 1;
inline std::uint64_t evals = 0;
inline int fails = 0;
inline double limit = 20;
inline std::chrono::steady_clock::time_point t0;
inline void init(int argc, char** argv) {
  s_ = argc > 1 ? std::strtoull(argv[1], nullptr, 10) * 0x9E3779B97F4A7C15ULL + 12345 : 1;
  if (argc > 2) limit = std::atof(argv[2]);
  t0 = std::chrono::steady_clock::now();
}
inline bool time_left() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < limit; }
inline std::uint64_t rnd() {
  std::uint64_t z = (s_ += 0x9E3779B97F4A7C15ULL);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}
inline std::uint64_t below(std::uint64_t n) { return n ? rnd() % n : 0; }
inline std::string hex(const void* p, std::size_t n) {
  static const char* x = "0123456789abcdef";
  std::string r;
  for (std::size_t i = 0; i < n; ++i) { auto b = static_cast<const unsigned char*>(p)[i]; r += x[b >> 4]; r += x[b & 15]; }
  return r;
}
inline void fail(const std::string& what) {
  if (++fails <= 10) std::printf("FAIL %s\n", what.c_str());
  std::fflush(stdout);
}
inline void check(bool ok, const std::string& what) { ++evals; if (!ok) fail(what); }
#define CHECK(ok, what) do { ++unit::evals; if (!(ok)) unit::fail(what); } while (0)
inline std::unordered_set<std::uint64_t> seen_;
inline void seen(std::uint64_t h) { if (seen_.size() < 2000000) seen_.insert(h); }
inline std::uint64_t hashb(const void* p, std::size_t n, std::uint64_t h = 1469598103934665603ULL) {
  for (std::size_t i = 0; i < n; ++i) h = (h ^ static_cast<const unsigned char*>(p)[i]) * 1099511628211ULL;
  return h;
}
inline int samples_ = 0;
inline void sample(const std::string& s) { if (samples_++ < 6) std::printf("CASE %s\n", s.substr(0, 250).c_str()); }
inline int done() { std::printf("DISTINCT %llu\n", (unsigned long long)seen_.size()); std::printf("EVALS %llu\n", (unsigned long long)evals); std::fflush(stdout); return fails ? 3 : 0; }
// a byte out of a mix that favours the values where signedness and carries matter
inline unsigned char byte() {
  switch (rnd() % 4) { case 0: return 0; case 1: return static_cast<unsigned char>(0x7f + rnd() % 2); case 2: return 0xff; default: return static_cast<unsigned char>(rnd()); }
}
}
