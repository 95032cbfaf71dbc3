// instantiates the real flat_file templates for verification; adds only accessors to private members
#include <cerrno>
#include <cstdint>
#include <string>
#include <vector>
#include <algorithm>
#include <array>
#include <charconv>
#include <compare>
#include <cstring>
#include <ostream>
#include <sstream>
#include <fmt/format.h>
#include "hibp.hpp"
#include "flat_file.hpp"

template <class Tag, auto M> struct leak { friend auto get(Tag) { return M; } };

#define RECORDS(X) X(hibp::pawned_pw_sha1, sha1) X(hibp::pawned_pw_ntlm, ntlm) X(hibp::pawned_pw_sha1t64, t64)

#define W(T, n)                                                                                                \
  struct wp_##n { friend auto get(wp_##n); }; template struct leak<wp_##n, &flat_file::stream_writer<T>::buf_pos_>; \
  struct wb_##n { friend auto get(wb_##n); }; template struct leak<wb_##n, &flat_file::stream_writer<T>::buf_>;     \
  std::size_t&    acc_w_pos_##n(flat_file::stream_writer<T>& w) { return w.*get(wp_##n{}); }                        \
  std::vector<T>& acc_w_buf_##n(flat_file::stream_writer<T>& w) { return w.*get(wb_##n{}); }                        \
  std::size_t     acc_w_size_##n() { return sizeof(flat_file::stream_writer<T>); }                                  \
  void use_w_##n(std::ostream& os, const T& v, std::size_t n, bool b) {                                             \
    flat_file::stream_writer<T> w(os, n); w.write(v); w.flush(b);                                                   \
    flat_file::stream_writer<T> m(std::move(w)); m.flush(); }                                                       \
  template class flat_file::stream_writer<T>;
#ifndef NO_WRITER
RECORDS(W)
#endif

#define D(T, n)                                                                                                \
  struct ds_##n { friend auto get(ds_##n); }; template struct leak<ds_##n, &flat_file::database<T>::buf_start_>;    \
  struct de_##n { friend auto get(de_##n); }; template struct leak<de_##n, &flat_file::database<T>::buf_end_>;      \
  struct db_##n { friend auto get(db_##n); }; template struct leak<db_##n, &flat_file::database<T>::buf_>;          \
  struct dn_##n { friend auto get(dn_##n); }; template struct leak<dn_##n, &flat_file::database<T>::dbsize_>;       \
  struct df_##n { friend auto get(df_##n); }; template struct leak<df_##n, &flat_file::database<T>::dbfsize_>;      \
  std::size_t&    acc_d_start_##n(flat_file::database<T>& d) { return d.*get(ds_##n{}); }                           \
  std::size_t&    acc_d_end_##n(flat_file::database<T>& d) { return d.*get(de_##n{}); }                             \
  std::vector<T>& acc_d_buf_##n(flat_file::database<T>& d) { return d.*get(db_##n{}); }                             \
  std::size_t&    acc_d_size_##n(flat_file::database<T>& d) { return d.*get(dn_##n{}); }                            \
  std::size_t&    acc_d_fsize_##n(flat_file::database<T>& d) { return d.*get(df_##n{}); }                           \
  std::size_t     acc_d_sizeof_##n() { return sizeof(flat_file::database<T>); }                                     \
  using it_##n = flat_file::database<T>::const_iterator;                                                            \
  it_##n   it_add_##n(it_##n i, std::size_t k) { return i + k; }                                                    \
  it_##n   it_radd_##n(it_##n i, std::size_t k) { return k + i; }                                                   \
  it_##n   it_sub_##n(it_##n i, std::size_t k) { return i - k; }                                                    \
  long     it_diff_##n(const it_##n& a, const it_##n& b) { return a - b; }                                          \
  bool     it_eq_##n(const it_##n& a, const it_##n& b) { return a == b; }                                           \
  const T& it_deref_##n(const it_##n& a) { return *a; }                                                             \
  const T* it_arrow_##n(const it_##n& a) { return a.operator->(); }                                                 \
  it_##n   it_preinc_##n(it_##n a) { ++a; return a; }                                                               \
  it_##n   it_postinc_##n(it_##n a, it_##n* old) { *old = a++; return a; }                                          \
  it_##n   it_predec_##n(it_##n a) { --a; return a; }                                                               \
  it_##n   it_postdec_##n(it_##n a, it_##n* old) { *old = a--; return a; }                                          \
  std::size_t it_pos_##n(it_##n& a) { return a.pos(); }                                                             \
  it_##n   d_begin_##n(flat_file::database<T>& d) { return d.begin(); }                                             \
  it_##n   d_end_##n(flat_file::database<T>& d) { return d.end(); }                                                 \
  const T& d_back_##n(flat_file::database<T>& d) { return d.back(); }                                               \
  std::size_t d_nrec_##n(flat_file::database<T>& d) { return d.number_records(); }                                  \
  std::size_t d_fsz_##n(flat_file::database<T>& d) { return d.filesize(); }                                         \
  const T& d_get_##n(flat_file::database<T>& d, std::size_t p) { return d.get_record(p); }                          \
  it_##n   lb_##n(it_##n a, it_##n b, const T& v) { return std::lower_bound(a, b, v); }                             \
  void use_d_##n(const char* s, std::size_t n) { flat_file::database<T> d(s, n); }
#ifndef NO_DB
RECORDS(D)
#endif
