#include "unit.hpp"
#include "arrcmp.hpp"
#include "hibp.hpp"
using namespace unit;
template <std::size_t N> void one(const std::array<std::byte,N>& a, const std::array<std::byte,N>& b) {
  int r = 0;
  for (std::size_t i = 0; i < N && !r; ++i) r = int(a[i]) - int(b[i]);
  auto d = [&](const char* w) { return std::string(w) + " N=" + std::to_string(N) + " a=" + hex(a.data(), N) + " b=" + hex(b.data(), N); };
  seen(hashb(b.data(), N, hashb(a.data(), N, N))); if (r && below(400000) == 0) sample(d(""));
  auto s = arrcmp::array_compare(a, b, arrcmp::three_way{});
  CHECK((s < 0) == (r < 0) && (s > 0) == (r > 0) && (s == 0) == (r == 0), d("three_way"));
  int si = arrcmp::array_compare(a, b, arrcmp::three_way_int{});
  CHECK((si < 0) == (r < 0) && (si > 0) == (r > 0), d("three_way_int"));
  CHECK(arrcmp::array_compare(a, b, arrcmp::equal{}) == (r == 0), d("equal"));
  if constexpr (N == 20 || N == 16 || N == 8) {
    hibp::pawned_pw<N> x, y; x.hash = a; y.hash = b; x.count = int(rnd()); y.count = int(rnd());
    CHECK((x < y) == (r < 0) && (x > y) == (r > 0) && (x == y) == (r == 0) && (x != y) == (r != 0) && (x <= y) == (r <= 0) && (x >= y) == (r >= 0), d("record"));
  }
}
template <std::size_t N> void size() {
  std::array<std::byte,N> a, b;
  // every position, every interesting byte pair, with noise behind it
  static const unsigned char v[] = {0,1,0x7f,0x80,0x81,0xfe,0xff};
  for (std::size_t i = 0; i < N; ++i)
    for (auto p : v) for (auto q : v) {
      for (std::size_t j = 0; j < N; ++j) { a[j] = std::byte(byte()); b[j] = j < i ? a[j] : std::byte(byte()); }
      a[i] = std::byte(p); b[i] = std::byte(q); one<N>(a, b);
      for (std::size_t j = 0; j < N; ++j) b[j] = j == i ? std::byte(q) : a[j];
      one<N>(a, b);
    }
  for (int k = 0; k < 2000; ++k) {
    for (std::size_t j = 0; j < N; ++j) { a[j] = std::byte(byte()); b[j] = rnd() % 3 ? a[j] : std::byte(byte()); }
    one<N>(a, b);
  }
}
int main(int c, char** v) {
  init(c, v);
  [&]<std::size_t... I>(std::index_sequence<I...>) { (size<I + 1>(), ...); }(std::make_index_sequence<40>{});
  size<48>(); size<63>(); size<64>(); size<65>(); size<100>(); size<128>(); size<130>();
  return done();
}
