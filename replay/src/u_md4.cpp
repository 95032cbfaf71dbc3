#include "unit.hpp"
#include "ntlm.hpp"
#include <iostream>
#include <vector>
extern "C" {
#include "md4.h"
}
// reads lines "U hex s1,s2,..": MD4 of the bytes, split into updates of those sizes (rest at the end); "N hex": ntlm; "Z count": MD4 of count zero bytes
using namespace unit;
static std::string unhex(const std::string& s) { std::string r; for (std::size_t i = 0; i + 1 < s.size(); i += 2) r.push_back(char(std::stoi(s.substr(i, 2), nullptr, 16))); return r; }
int main() {
  std::string op, a, b;
  while (std::cin >> op) {
    if (op == "N") { std::cin >> a; if (a == "-") a = ""; try { auto h = hibp::ntlm(unhex(a)); std::cout << hex(h.data(), 16) << "\n"; } catch (const std::exception& e) { std::cout << "exception\n"; } }
    else if (op == "U") {
      std::cin >> a >> b; if (a == "-") a = ""; auto d = unhex(a); MD4_CTX c; MD4_Init(&c); std::size_t p = 0, q = 0;
      while (q < b.size()) { std::size_t n = std::stoul(b.substr(q)); q = b.find(',', q); q = q == std::string::npos ? b.size() : q + 1; n = std::min(n, d.size() - p);
        std::string x(d.data() + p, n); MD4_Update(&c, x.data(), n); p += n; }
      std::string x(d.substr(p)); MD4_Update(&c, x.data(), x.size());
      unsigned char r[16]; MD4_Final(r, &c); std::cout << hex(r, 16) << "\n";
    } else { std::size_t n; std::cin >> n; std::vector<char> z(n); MD4_CTX c; MD4_Init(&c); MD4_Update(&c, z.data(), n); unsigned char r[16]; MD4_Final(r, &c); std::cout << hex(r, 16) << "\n"; }
  }
}
