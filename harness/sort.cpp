// the real app/hibp_sort.cpp, verbatim, plus accessors
#define main app_main
#include "app/hibp_sort.cpp"
#undef main
#define NO_WRITER
#include "flat.cpp"

// an arbitrary order of arbitrary keys: declared, never defined
struct anyorder {
  bool operator()(std::uint64_t, std::uint64_t) const;
};
template <class PW>
struct anykey {
  std::uint64_t operator()(const PW&) const;
};
#define SORTS(K, PW)                                                                              \
  std::string disksort_range_##K(flat_file::database<PW>& db, std::size_t a, std::size_t b,       \
                                 std::size_t mem) {                                                \
    return flat_file::disksort_range<PW>(flat_file::database<PW>::const_iterator(db, a),          \
                                         flat_file::database<PW>::const_iterator(db, b),          \
                                         anyorder{}, anykey<PW>{}, mem);                           \
  }                                                                                                \
  std::vector<std::string> sort_into_chunks_##K(flat_file::database<PW>& db, std::size_t a,       \
                                                std::size_t b, std::size_t mem) {                  \
    return flat_file::sort_into_chunks<PW>(flat_file::database<PW>::const_iterator(db, a),        \
                                           flat_file::database<PW>::const_iterator(db, b),        \
                                           anyorder{}, anykey<PW>{}, mem);                         \
  }                                                                                                \
  void merge_sorted_chunks_##K(const std::vector<std::string>& names, const std::string& out) {   \
    flat_file::merge_sorted_chunks<PW>(names, out, anyorder{}, anykey<PW>{});                      \
  }                                                                                                \
  std::string disksort_##K(flat_file::database<PW>& db, std::size_t mem) {                         \
    return db.disksort(anyorder{}, anykey<PW>{}, mem);                                             \
  }
SORTS(sha1, hibp::pawned_pw_sha1)
SORTS(ntlm, hibp::pawned_pw_ntlm)
std::string& acc_cli_in(cli_config_t& c) { return c.input_filename; }
bool& acc_cli_by_count(cli_config_t& c) { return c.sort_by_count; }
bool& acc_cli_ntlm(cli_config_t& c) { return c.ntlm; }
std::size_t& acc_cli_mem(cli_config_t& c) { return c.max_memory; }
