// real flat_file::database::disksort with memory limits that give many chunks. argv: seed limit dir
#include "unit.hpp"
#include "flat_file.hpp"
#include "hibp.hpp"
#include <algorithm>
#include <filesystem>
#include <fstream>
#include <sstream>
using namespace unit;
namespace fs = std::filesystem;
static std::string dir;
template <class PW> std::vector<PW> load(const std::string& f) { std::vector<PW> v(fs::file_size(f) / sizeof(PW)); std::ifstream i(f, std::ios::binary); if (!v.empty()) i.read(reinterpret_cast<char*>(v.data()), std::streamsize(v.size() * sizeof(PW))); return v; }
template <class PW> void one(std::size_t n, std::size_t mem, bool bycount, int dup) {
  std::vector<PW> v(n);
  for (auto& p : v) { for (auto& b : p.hash) b = std::byte(byte()); p.count = int(below(dup ? 3 : 100000)); if (dup > 1) for (std::size_t i = 0; i + 1 < p.hash.size(); ++i) p.hash[i] = std::byte(0); }
  if (below(4) == 0) std::sort(v.begin(), v.end()); else if (below(4) == 0) { std::sort(v.begin(), v.end()); std::reverse(v.begin(), v.end()); }
  std::string sub = dir + "/s"; fs::remove_all(sub); fs::create_directory(sub);
  std::string f = sub + "/in.bin"; { std::ofstream o(f, std::ios::binary); o.write(reinterpret_cast<const char*>(v.data()), std::streamsize(n * sizeof(PW))); }
  std::string D = "records=" + std::to_string(n) + " recsize=" + std::to_string(sizeof(PW)) + " max_memory=" + std::to_string(mem) + (bycount ? " by count" : " by hash") + (dup ? " with ties" : "") + " ";
  seen(hashb(v.data(), n * sizeof(PW), mem * 2 + bycount)); if (below(40) == 0) sample(D);
  std::string out;
  auto key = [](const PW& p) { std::string s(reinterpret_cast<const char*>(p.hash.data()), p.hash.size()); return std::make_pair(s, p.count); };
  try {
    flat_file::database<PW> db(f, 1 + below(50));
    out = bycount ? db.disksort([](auto& a, auto& b) { if (a.count == b.count) return a < b; return a.count > b.count; }, {}, mem) : db.disksort({}, {}, mem);
  } catch (const std::exception& e) { if (mem >= sizeof(PW)) fail(D + "threw " + e.what()); return; }
  auto got = load<PW>(out); auto want = v;
  auto lt = [&](const PW& a, const PW& b) { if (bycount && a.count != b.count) return a.count > b.count; return std::memcmp(a.hash.data(), b.hash.data(), a.hash.size()) < 0; };
  bool sorted = true; for (std::size_t i = 1; i < got.size(); ++i) if (lt(got[i], got[i - 1])) sorted = false;
  CHECK(sorted, D + "output not in order");
  auto full = [&](const PW& a, const PW& b) { return key(a) < key(b); };
  std::sort(got.begin(), got.end(), full); std::sort(want.begin(), want.end(), full);
  bool perm = got.size() == want.size(); for (std::size_t i = 0; perm && i < got.size(); ++i) perm = key(got[i]) == key(want[i]);
  CHECK(perm, D + "output is not a permutation of the input, " + std::to_string(got.size()) + " records");
  auto in2 = load<PW>(f); CHECK(in2.size() == v.size() && (n == 0 || !std::memcmp(in2.data(), v.data(), n * sizeof(PW))), D + "input changed");
  std::size_t files = 0; for (auto& e : fs::directory_iterator(sub)) { (void)e; ++files; }
  CHECK(files == 2, D + "temporary files left: " + std::to_string(files - 2));
}
template <class PW> void batch() {
  std::size_t s = sizeof(PW);
  for (std::size_t n = 0; n < 8; ++n) for (std::size_t per = 1; per < 5; ++per) one<PW>(n, per * s + below(s), below(2), int(below(3)));
  for (int i = 0; i < 30; ++i) { std::size_t n = below(120); one<PW>(n, (1 + below(n + 3)) * s + below(s), below(2), int(below(3))); }
  one<PW>(2500, s * 2500, false, 0); one<PW>(2500, s * 1250, true, 1); one<PW>(2501, s * 1250, true, 1); one<PW>(3000, s * 1001, false, 0);
  one<PW>(600, s * 2, below(2), 1); // more than 255 chunks
  one<PW>(3, s - 1, false, 0); one<PW>(3, 0, false, 0);
}
int main(int c, char** v) {
  init(c, v); dir = v[3]; std::stringstream sink; auto* old = std::cerr.rdbuf(sink.rdbuf());
  do { batch<hibp::pawned_pw_sha1>(); batch<hibp::pawned_pw_ntlm>(); batch<hibp::pawned_pw_sha1t64>(); sink.str(""); } while (time_left() && !fails);
  std::cerr.rdbuf(old); return done();
}
