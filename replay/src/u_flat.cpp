#include "unit.hpp"
#include "flat_file.hpp"
#include "hibp.hpp"
#include <filesystem>
#include <fstream>
#include <sstream>
using namespace unit;
namespace fs = std::filesystem;
static std::string dir;
static std::uint64_t hs(const std::string& s) { return std::hash<std::string>{}(s); }
struct pod { std::uint32_t v[3]; };
template <class T> T val(std::size_t i) { T t{}; std::uint64_t x = (i + 1) * 0x9E3779B97F4A7C15ULL; auto* p = reinterpret_cast<unsigned char*>(&t); for (std::size_t k = 0; k < sizeof(T); ++k) { p[k] = static_cast<unsigned char>(x >> (8 * (k % 8))); x += k; } return t; }
template <class T> bool same(const T& a, std::size_t i) { T b = val<T>(i); return !std::memcmp(&a, &b, sizeof(T)); }
template <class T> std::string mk(std::size_t n, std::size_t extra = 0) {
  std::string f = dir + "/db.bin"; std::ofstream o(f, std::ios::binary);
  for (std::size_t i = 0; i < n; ++i) { T t = val<T>(i); o.write(reinterpret_cast<char*>(&t), sizeof(T)); }
  for (std::size_t i = 0; i < extra; ++i) o.put('x');
  return f;
}
template <class T> void walk(std::size_t n, std::size_t buf) {
  auto f = mk<T>(n); flat_file::database<T> db(f, buf);
  std::string D = "records=" + std::to_string(n) + " recsize=" + std::to_string(sizeof(T)) + " buffer=" + std::to_string(buf) + " ";
  CHECK(db.number_records() == n && db.filesize() == n * sizeof(T), D + "number of records");
  CHECK(std::size_t(db.end() - db.begin()) == n, D + "end-begin");
  std::size_t k = 0; std::string trace;
  for (const auto& r : db) { CHECK(k < n && same(r, k), D + "forward iteration at " + std::to_string(k)); ++k; }
  CHECK(k == n, D + "forward iteration length");
  bool thrown = false; try { db.get_record(n); } catch (const std::exception&) { thrown = true; }
  CHECK(thrown, D + "reading one past the end");
  thrown = false; try { (void)*db.end(); } catch (const std::exception&) { thrown = true; }
  CHECK(thrown, D + "dereferencing end");
  for (std::size_t far : {n + 1, n + 2 + below(100), ~std::size_t(0), std::size_t(1) << 62}) {
    thrown = false; try { db.get_record(far); } catch (const std::exception&) { thrown = true; }
    CHECK(thrown, D + "reading far past the end");
  }
  try { for (k = 0; k < n; ++k) CHECK(same(db.get_record(k), k), D + "after a refused read, record " + std::to_string(k)); } catch (const std::exception& e) { fail(D + "valid access refused after an access past the end: " + e.what()); }
  if (!n) return;
  CHECK(same(db.back(), n - 1), D + "back");
  using It = typename flat_file::database<T>::const_iterator;
  std::vector<It> its; std::vector<std::size_t> ps;
  for (int i = 0; i < 3; ++i) { its.push_back(db.begin()); ps.push_back(0); }
  for (int step = 0; step < 60; ++step) {
    std::size_t w = below(3); It& it = its[w]; std::size_t& p = ps[w]; unsigned op = unsigned(below(9));
    auto t = std::to_string(w) + ":";
    switch (op) {
    case 0: if (p < n) { ++it; ++p; trace += t + "++ "; } break;
    case 1: if (p > 0) { --it; --p; trace += t + "-- "; } break;
    case 2: { std::size_t q = below(n + 1); if (q >= p) it += q - p; else it -= p - q; p = q; trace += t + "go" + std::to_string(q) + " "; } break;
    case 3: { std::size_t o = below(3); it = its[o]; p = ps[o]; trace += t + "=" + std::to_string(o) + " "; } break;
    case 4: if (p < n) { It x = it++; CHECK(std::size_t(x - db.begin()) == p && same(*x, p), D + trace + "post++"); ++p; trace += t + "post++ "; } break;
    case 5: { std::size_t q = below(n); It x = db.begin() + q; CHECK(same(*x, q) && x.pos() == q, D + trace + "begin+" + std::to_string(q)); It y = q + db.begin(); CHECK(x == y, D + trace + "n+begin"); trace += "read" + std::to_string(q) + " "; } break;
    case 6: { std::size_t q = below(n); CHECK(same(db.get_record(q), q), D + trace + "get_record " + std::to_string(q)); trace += "get" + std::to_string(q) + " "; } break;
    case 7: if (p > 0) { std::size_t q = 1 + below(p); It x = it - q; CHECK(same(*x, p - q), D + trace + "it-" + std::to_string(q)); } break;
    default: if (p > 0) { It x = it--; CHECK(x.pos() == p, D + trace + "post--"); --p; trace += t + "post-- "; } break;
    }
    seen(hs(D + trace)); if (below(4000) == 0) sample(D + trace);
    for (int i = 0; i < 3; ++i) {
      CHECK(its[i].pos() == ps[i] && (its[i] == db.begin() + ps[i]) && (its[i] - its[0]) == std::ptrdiff_t(ps[i]) - std::ptrdiff_t(ps[0]), D + trace + "position of iterator " + std::to_string(i));
      CHECK((its[i] == its[0]) == (ps[i] == ps[0]), D + trace + "equality of iterators");
      if (ps[i] < n && (rnd() & 1)) { CHECK(same(*its[i], ps[i]), D + trace + "deref iterator " + std::to_string(i) + " at " + std::to_string(ps[i])); trace += std::to_string(i) + ":* "; }
      if (ps[i] < n && (rnd() & 3) == 0) { CHECK(same(*its[i].operator->(), ps[i]), D + trace + "-> iterator " + std::to_string(i)); }
    }
  }
  // reload by move assignment
  auto f2 = mk<T>(n / 2); db = flat_file::database<T>(f2, buf);
  CHECK(db.number_records() == n / 2, D + "after move assignment");
  for (k = 0; k < n / 2; ++k) CHECK(same(db.get_record(k), k), D + "record after move assignment");
}
// the file shrinks after it was opened: a failed read is an error, then and later, or a true record, never anything else
template <class T> void shrink(std::size_t n, std::size_t buf) {
  auto f = mk<T>(n); flat_file::database<T> db(f, buf);
  std::size_t keep = below(n + 1);
  std::string D = "records=" + std::to_string(n) + " recsize=" + std::to_string(sizeof(T)) + " buffer=" + std::to_string(buf) + " file cut to " + std::to_string(keep) + " ";
  if (rnd() & 1) { try { db.get_record(0); } catch (const std::exception&) {} D += "get0 "; }
  fs::resize_file(f, keep * sizeof(T));
  for (int step = 0; step < 6; ++step) {
    std::size_t q = (rnd() & 1) && step ? n - 1 : below(n); D += "get" + std::to_string(q) + " ";
    try { CHECK(same(db.get_record(q), q), D + "returned a record that was never read"); } catch (const std::exception&) {}
    seen(hs(D));
  }
}
template <class T> void sizes() {
  for (std::size_t e = 1; e < sizeof(T); ++e) {
    auto f = mk<T>(3, e); bool thrown = false; try { flat_file::database<T> db(f, 4); } catch (const std::exception&) { thrown = true; }
    CHECK(thrown, "database size with " + std::to_string(e) + " surplus bytes accepted");
  }
  bool thrown = false; try { flat_file::database<T> db(dir + "/none", 4); } catch (const std::exception&) { thrown = true; }
  CHECK(thrown, "missing file accepted");
}
// writers
struct failbuf : std::streambuf { std::size_t room; std::string got; explicit failbuf(std::size_t r) : room(r) {}
  std::streamsize xsputn(const char* s, std::streamsize n) override { auto k = std::min<std::size_t>(std::size_t(n), room - got.size()); got.append(s, k); return std::streamsize(k); }
  int overflow(int c) override { if (got.size() >= room) return EOF; got.push_back(char(c)); return c; } };
template <class T> void writer() {
  std::size_t n = below(40), buf = 1 + below(12); std::string want, tr = "recsize=" + std::to_string(sizeof(T)) + " buffer=" + std::to_string(buf) + " ops=";
  std::stringstream ss;
  { flat_file::stream_writer<T> w(ss, buf);
    for (std::size_t i = 0; i < n; ++i) {
      if (below(5) == 0) { bool f = below(2); w.flush(f); tr += f ? "F" : "f"; CHECK(ss.str() == want, tr + " content after flush"); }
      T t = val<T>(i); w.write(t); want.append(reinterpret_cast<char*>(&t), sizeof(T)); tr += "w";
      CHECK(want.compare(0, ss.str().size(), ss.str()) == 0 && ss.str().size() + buf * sizeof(T) >= want.size(), tr + " prefix while writing");
    }
    if (below(3) == 0) { flat_file::stream_writer<T> w2 = std::move(w); T t = val<T>(n); (void)t; tr += "m"; }
  }
  seen(hs(tr)); if (below(300) == 0) sample(tr);
  // a moved-from writer must not write again: checked through the total content
  CHECK(ss.str() == want, tr + " total content, got " + std::to_string(ss.str().size()) + " want " + std::to_string(want.size()));
  std::string fn = dir + "/w.bin";
  { flat_file::file_writer<T> w(fn); for (std::size_t i = 0; i < n * 60; ++i) w.write(val<T>(i)); }
  std::string got; { std::ifstream in(fn, std::ios::binary); got.assign(std::istreambuf_iterator<char>(in), {}); }
  bool ok = got.size() == n * 60 * sizeof(T);
  for (std::size_t i = 0; ok && i < n * 60; ++i) { T t = val<T>(i); ok = !std::memcmp(got.data() + i * sizeof(T), &t, sizeof(T)); }
  CHECK(ok, "file_writer of " + std::to_string(n * 60) + " records");
  // failing stream
  failbuf fb(sizeof(T) * (n / 2)); std::ostream os(&fb); bool thrown = false;
  // not destroyed: a destructor whose final flush fails ends the program, which is a report as well
  try { auto& w = *new flat_file::stream_writer<T>(os, buf); for (std::size_t i = 0; i < n; ++i) w.write(val<T>(i)); w.flush(); } catch (const std::exception&) { thrown = true; }
  if (n > 0) CHECK(thrown, "stream_writer on a full stream did not report the error, n=" + std::to_string(n) + " buffer=" + std::to_string(buf));
  if (n > 0) { // a stream that accepts writes but cannot be flushed: flush(true) always asks it
    struct nosync : std::stringbuf { int sync() override { return -1; } } nb; std::ostream no(&nb); thrown = false;
    try { flat_file::stream_writer<T> w(no, buf); for (std::size_t i = 0; i < n; ++i) w.write(val<T>(i)); if (below(2)) w.flush(); w.flush(true); } catch (const std::exception&) { thrown = true; }
    CHECK(thrown, "flush(true) did not report that the stream cannot be flushed, n=" + std::to_string(n) + " buffer=" + std::to_string(buf)); }
  thrown = false; try { flat_file::file_writer<T> w(dir + "/no/such/dir"); } catch (const std::exception&) { thrown = true; }
  CHECK(thrown, "file_writer on an impossible path");
}
template <class T> void all(bool db, bool wr) {
  if (db) { sizes<T>(); for (std::size_t n = 0; n < 14; ++n) for (std::size_t b = 1; b < 9; ++b) walk<T>(n, b); for (int i = 0; i < 12; ++i) walk<T>(below(60), 1 + below(70)); for (int i = 0; i < 200; ++i) shrink<T>(1 + below(40), 1 + below(9)); for (int i = 0; i < 3; ++i) shrink<T>(4000 + below(9000), 1 + below(3000)); }
  if (wr) for (int i = 0; i < 60; ++i) writer<T>();
}
int main(int c, char** v) {
  init(c, v); dir = v[3]; std::string what = v[4];
  do { all<hibp::pawned_pw_sha1>(what == "db", what == "writer"); all<hibp::pawned_pw_ntlm>(what == "db", what == "writer"); all<hibp::pawned_pw_sha1t64>(what == "db", what == "writer");
    all<pod>(what == "db", what == "writer"); all<char>(what == "db", what == "writer"); } while (time_left() && !fails);
  return done();
}
