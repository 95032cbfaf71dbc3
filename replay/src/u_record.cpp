#include "unit.hpp"
#include "hibp.hpp"
#include <vector>
using namespace unit;
static std::string tok(const std::array<std::byte,20>& h, std::size_t n, int mode) {
  std::string r = hex(h.data(), n);
  for (auto& c : r) if (mode == 1 || (mode == 2 && rnd() % 2)) c = char(c >= 'a' ? c - 32 : c);
  return r;
}
template <unsigned N> void go() {
  using PW = hibp::pawned_pw<N>;
  const std::int32_t cs[] = {0, 1, -1, 9, 10, 99, 100, 12345, 2147483647, -2147483647 - 1, 1000000000, 999999999, -5, 16, 255, 256};
  auto one = [&](const std::array<std::byte,20>& h, std::int32_t c, int mode) {
    std::string t = tok(h, N, mode), full = tok(h, 20, mode), C = std::to_string(c);
    seen(hashb(h.data(), N, hashb(&c, 4, std::uint64_t(mode + 7)))); if (below(20000) == 0) sample(t + ":" + C);
    auto ok = [&](const PW& p, std::int32_t cc) { return !std::memcmp(p.hash.data(), h.data(), N) && p.count == cc; };
    CHECK(ok(PW{t + ":" + C}, c), "parse " + t + ":" + C);
    CHECK(ok(PW{t + ":" + C + "\r"}, c), "parse with CR " + t + ":" + C);
    CHECK(ok(PW{t}, -1), "parse without count " + t);
    CHECK(ok(PW{t + ":"}, -1), "parse with empty count " + t);
    if (N == 8) { CHECK(ok(PW{full + ":" + C}, c), "parse full sha1 as 64 bit " + full + ":" + C); CHECK(ok(PW{full}, -1), "parse full sha1 " + full); }
    PW p; std::memcpy(p.hash.data(), h.data(), N); p.count = c;
    std::string want; for (char ch : hex(h.data(), N)) want += char(ch >= 'a' ? ch - 32 : ch);
    want += ":" + C;
    CHECK(p.to_string() == want, "print " + want + " gave " + p.to_string());
    PW q{p.to_string()}; CHECK(q == p && q.count == p.count, "round trip " + want);
  };
  std::array<std::byte,20> h;
  for (auto c : cs) for (int m = 0; m < 3; ++m) { for (auto& b : h) b = std::byte(rnd()); one(h, c, m); }
  for (unsigned i = 0; i < N; ++i) for (int v = 0; v < 256; ++v) { for (auto& b : h) b = std::byte(rnd()); h[i] = std::byte(v); one(h, cs[rnd() % 16], int(rnd() % 3)); }
  for (int k = 0; k < 20000; ++k) { for (auto& b : h) b = std::byte(byte()); one(h, std::int32_t(rnd() >> (rnd() % 33)), int(rnd() % 3)); }
  // acceptance of hash queries
  auto val = [&](const std::string& s) {
    seen(hashb(s.data(), s.size(), N)); if (below(20000) == 0) sample("validate " + s);
    bool want = s.size() == 2 * N;
    for (unsigned char ch : s) if (!((ch >= '0' && ch <= '9') || (ch >= 'A' && ch <= 'F'))) want = false;
    CHECK(hibp::is_valid_hash<PW>(s) == want, "is_valid_hash(size " + std::to_string(s.size()) + ") hex=" + hex(s.data(), s.size()));
  };
  auto good = [&](std::size_t n) { std::string s; for (std::size_t i = 0; i < n; ++i) s += "0123456789ABCDEF"[rnd() % 16]; return s; };
  for (std::size_t n = 0; n < 90; ++n) for (int k = 0; k < 5; ++k) val(good(n));
  for (unsigned i = 0; i < 2 * N; ++i) for (int v = 0; v < 256; ++v) { auto s = good(2 * N); s[i] = char(v); val(s); }
  for (int k = 0; k < 5000; ++k) { auto s = good(2 * N - 1 + rnd() % 3); for (int j = int(rnd() % 3); j > 0 && !s.empty(); --j) s[rnd() % s.size()] = char(rnd()); val(s); }
}
int main(int c, char** v) { init(c, v); go<20>(); go<16>(); go<8>(); return done(); }
