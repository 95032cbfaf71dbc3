// instantiates the real arrcmp / hibp templates for verification; adds no logic of its own
#include <algorithm>
#include <array>
#include <bit>
#include <cassert>
#include <charconv>
#include <compare>
#include <concepts>
#include <cstddef>
#include <cstdint>
#include <immintrin.h>
#include <ostream>
#include <string>
#include <string_view>
#include <fmt/format.h>
#ifdef VERIF_GCC_PATH
#undef __clang__
#endif
#include "arrcmp.hpp"
#include "hibp.hpp"

template <std::size_t N>
using arr = std::array<std::byte, N>;

#define INST(N)                                                                                   \
  template std::strong_ordering arrcmp::array_compare<N, arrcmp::three_way>(                      \
      const arr<N>&, const arr<N>&, arrcmp::three_way) noexcept;                                  \
  template int arrcmp::array_compare<N, arrcmp::three_way_int>(const arr<N>&, const arr<N>&,      \
                                                               arrcmp::three_way_int) noexcept;   \
  template bool arrcmp::array_compare<N, arrcmp::equal>(const arr<N>&, const arr<N>&,             \
                                                        arrcmp::equal) noexcept;
INST(1) INST(2) INST(3) INST(4) INST(5) INST(6) INST(7) INST(8) INST(9) INST(10) INST(11) INST(12) INST(13)
INST(14) INST(15) INST(16) INST(17) INST(18) INST(19) INST(20) INST(21) INST(23) INST(24) INST(28) INST(31) INST(32)
INST(33) INST(40) INST(48) INST(63) INST(64) INST(65) INST(100)

template struct hibp::pawned_pw<20>;
template struct hibp::pawned_pw<16>;
template struct hibp::pawned_pw<8>;
template bool hibp::is_valid_hash<hibp::pawned_pw_sha1>(const std::string&);
template bool hibp::is_valid_hash<hibp::pawned_pw_ntlm>(const std::string&);
template bool hibp::is_valid_hash<hibp::pawned_pw_sha1t64>(const std::string&);
// uses that force the defaulted / derived operators into the module
bool u_lt(const hibp::pawned_pw_sha1& a, const hibp::pawned_pw_sha1& b) { return a < b; }
