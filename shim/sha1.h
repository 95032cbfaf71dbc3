// stand-in for ext/hash-library's sha1.h (an empty submodule here): same interface, FIPS 180-1
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
class SHA1 {
public:
  std::string operator()(const std::string& text) { return (*this)(text.data(), text.size()); }
  std::string operator()(const void* data, std::size_t n) {
    std::string m(static_cast<const char*>(data), n);
    std::uint64_t bits = static_cast<std::uint64_t>(n) * 8;
    m.push_back(static_cast<char>(0x80));
    while (m.size() % 64 != 56) m.push_back(0);
    for (int i = 7; i >= 0; --i) m.push_back(static_cast<char>((bits >> (8 * i)) & 0xff));
    std::uint32_t h[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0};
    auto rol = [](std::uint32_t x, int k) { return (x << k) | (x >> (32 - k)); };
    for (std::size_t o = 0; o < m.size(); o += 64) {
      std::uint32_t w[80];
      for (int i = 0; i < 16; ++i) {
        w[i] = 0;
        for (int j = 0; j < 4; ++j) w[i] = (w[i] << 8) | static_cast<unsigned char>(m[o + 4 * i + j]);
      }
      for (int i = 16; i < 80; ++i) w[i] = rol(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
      std::uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
      for (int i = 0; i < 80; ++i) {
        std::uint32_t f, k;
        if (i < 20) { f = (b & c) | (~b & d); k = 0x5A827999; }
        else if (i < 40) { f = b ^ c ^ d; k = 0x6ED9EBA1; }
        else if (i < 60) { f = (b & c) | (b & d) | (c & d); k = 0x8F1BBCDC; }
        else { f = b ^ c ^ d; k = 0xCA62C1D6; }
        std::uint32_t t = rol(a, 5) + f + e + k + w[i];
        e = d; d = c; c = rol(b, 30); b = a; a = t;
      }
      h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
    }
    static const char* x = "0123456789abcdef";
    std::string r;
    for (auto v : h)
      for (int s = 28; s >= 0; s -= 4) r.push_back(x[(v >> s) & 15]);
    return r;
  }
};
