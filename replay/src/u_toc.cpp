// real toc_build / toc_search against a linear scan.
// argv: seed limit dir mode
#include "unit.hpp"
#include "toc.hpp"
#include <algorithm>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <sstream>
using namespace unit;
namespace fs = std::filesystem;
static std::string dir;
template <class PW> struct tst {
  static constexpr std::size_t N = sizeof(PW::hash);
  static void put(PW& p, std::uint32_t pre) { for (int i = 0; i < 4; ++i) p.hash[i] = std::byte(pre >> (24 - 8 * i)); }
  // a database with `dense` leading prefixes of `bits` bits filled
  static std::vector<PW> mk(unsigned bits, std::size_t prefixes, unsigned per, bool gap) {
    std::vector<PW> v; std::size_t g = gap && prefixes > 1 ? below(prefixes - 1) : ~std::size_t(0);
    for (std::size_t p = 0; p < prefixes; ++p) {
      if (p == g) continue;
      std::size_t n = 1 + below(per);
      for (std::size_t i = 0; i < n; ++i) {
        PW x; for (auto& b : x.hash) b = std::byte(byte());
        std::uint32_t low = std::uint32_t(rnd()); if (below(4) == 0) low = 0; if (below(4) == 0) low = ~0U;
        put(x, std::uint32_t(p << (32 - bits)) | (bits == 32 ? 0 : low & ((1ULL << (32 - bits)) - 1)));
        x.count = int(below(100000)); v.push_back(x);
      }
    }
    std::sort(v.begin(), v.end(), [](auto& a, auto& b) { return std::memcmp(a.hash.data(), b.hash.data(), N) < 0; });
    v.erase(std::unique(v.begin(), v.end(), [](auto& a, auto& b) { return !std::memcmp(a.hash.data(), b.hash.data(), N); }), v.end());
    return v;
  }
  static std::string save(const std::vector<PW>& v) { static int k = 0; std::string f = dir + "/t" + std::to_string(k++) + ".bin"; std::ofstream o(f, std::ios::binary); o.write(reinterpret_cast<const char*>(v.data()), std::streamsize(v.size() * sizeof(PW))); return f; }
  static void query(flat_file::database<PW>& db, const std::vector<PW>& v, const PW& q, unsigned bits, const std::string& D) {
    const PW* w = nullptr; for (auto& x : v) if (!std::memcmp(x.hash.data(), q.hash.data(), N)) w = &x;
    try {
      auto r = hibp::toc_search<PW>(db, q, bits);
      bool ok = bool(r) == bool(w) && (!w || (!std::memcmp(r->hash.data(), w->hash.data(), N) && r->count == w->count));
      CHECK(ok, D + "query " + hex(q.hash.data(), N) + " expected " + (w ? "found " + std::to_string(w->count) : "absent") + " got " + (r ? hex(r->hash.data(), N) + ":" + std::to_string(r->count) : "absent"));
    } catch (const std::exception& e) { fail(D + "query " + hex(q.hash.data(), N) + " threw " + e.what()); }
  }
  static void queries(const std::vector<PW>& v, const std::string& f, unsigned bits, std::size_t prefixes, const std::string& D) {
    flat_file::database<PW> db(f, 1 + below(200));
    for (std::size_t i = 0; i < v.size(); ++i) {
      if (v.size() > 300 && below(v.size() / 150) && i != 0 && i + 1 != v.size()) continue;
      query(db, v, v[i], bits, D);
      PW q = v[i]; q.hash[N - 1] ^= std::byte(1U << below(8)); query(db, v, q, bits, D);
      q = v[i]; q.hash[below(4)] ^= std::byte(1U << below(8)); query(db, v, q, bits, D);
    }
    for (int i = 0; i < 40; ++i) {
      PW q; for (auto& b : q.hash) b = std::byte(byte());
      std::uint64_t p = i < 20 ? below(prefixes + 2) : prefixes - (i & 1);
      if (p < (1ULL << bits)) put(q, std::uint32_t(p << (32 - bits)) | (i % 3 == 0 ? 0 : std::uint32_t((1ULL << (32 - bits)) - 1)));
      query(db, v, q, bits, D);
    }
    PW q; for (auto& b : q.hash) b = std::byte(0); query(db, v, q, bits, D);
    for (auto& b : q.hash) b = std::byte(0xff); query(db, v, q, bits, D);
  }
  static void run(unsigned bits) {
    std::size_t full = 1ULL << bits, pf;
    switch (below(4)) { case 0: pf = std::min<std::size_t>(full, 3000); break; case 1: pf = 1 + below(std::min<std::size_t>(full, 40)); break; case 2: pf = std::min<std::size_t>(full, 1 + below(3000)); break; default: pf = std::min<std::size_t>(full, 1 + below(300)); }
    unsigned per = 1 + unsigned(below(pf > 500 ? 3 : 30)); bool gap = below(5) == 0 && pf > 2;
    auto v = mk(bits, pf, per, gap); if (v.empty()) return;
    auto f = save(v);
    std::string D = "hash bytes=" + std::to_string(N) + " bits=" + std::to_string(bits) + " prefixes=" + std::to_string(pf) + "/" + std::to_string(full) + " records=" + std::to_string(v.size()) + (gap ? " with gap " : " ") + "db=" + fs::path(f).filename().string() + " ";
    seen(std::hash<std::string>{}(D)); if (below(30) == 0) sample(D);
    bool thrown = false;
    try { hibp::toc_build<PW>(f, bits); } catch (const std::exception& e) { thrown = true; }
    if (gap) { CHECK(thrown, D + "a gap was accepted"); fs::remove(f); return; }
    CHECK(!thrown, D + "build refused"); if (thrown) { fs::remove(f); return; }
    queries(v, f, bits, pf, D);
    std::string tf = f + "." + std::to_string(bits) + ".toc";
    CHECK(fs::exists(tf), D + "no saved table");
    // again from the saved table
    fs::last_write_time(f, fs::last_write_time(tf) - std::chrono::seconds(10));
    hibp::toc_build<PW>(f, bits); queries(v, f, bits, pf, D + "loaded: ");
    // database changed afterwards: must be rebuilt
    auto v2 = mk(bits, std::max<std::size_t>(1, pf / 2), per, false);
    { std::ofstream o(f, std::ios::binary); o.write(reinterpret_cast<const char*>(v2.data()), std::streamsize(v2.size() * sizeof(PW))); }
    fs::last_write_time(f, fs::last_write_time(tf) + std::chrono::seconds(below(2) ? 0 : 5));
    hibp::toc_build<PW>(f, bits); queries(v2, f, bits, std::max<std::size_t>(1, pf / 2), D + "changed: ");
    // a second width next to it
    unsigned b2 = bits > 2 ? bits - 1 : bits + 1;
    if (!thrown) { try { hibp::toc_build<PW>(f, b2); queries(v2, f, b2, std::max<std::size_t>(1, pf / 2), D + "second width: "); } catch (const std::exception&) { } }
    fs::remove(f); fs::remove(tf); fs::remove(f + "." + std::to_string(b2) + ".toc");
  }
};
int main(int c, char** v) {
  init(c, v); dir = v[3];
  std::stringstream sink; auto* old = std::cout.rdbuf(sink.rdbuf());
  for (int round = 0; time_left() && !fails; ++round)
    for (unsigned bits : {1U, 2U, 3U, 5U, 8U, 11U, 15U, 16U, 17U, 20U, 25U}) {
      if (!time_left()) break;
      tst<hibp::pawned_pw_sha1>::run(bits); tst<hibp::pawned_pw_ntlm>::run(bits); tst<hibp::pawned_pw_sha1t64>::run(bits); sink.str("");
    }
  std::cout.rdbuf(old);
  return done();
}
