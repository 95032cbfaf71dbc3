// the real src/toc.cpp, verbatim, plus accessors and wrappers that only call it
#include "src/toc.cpp"
#define NO_WRITER
#include "flat.cpp"
#define T(T, n)                                                                                              \
  auto& acc_toc_##n() { return hibp::details::toc<T>; }                                                      \
  std::size_t acc_toc_elem_##n() { return sizeof(hibp::details::toc<T>[0]); }                                \
  void toc_search_##n(std::optional<T>* out, flat_file::database<T>& db, const T& v, unsigned b) { ::new (out) std::optional<T>(hibp::toc_search<T>(db, v, b)); } \
  void det_build_##n(const std::filesystem::path& p, unsigned b) { hibp::details::build<T>(p, b); }          \
  void det_save_##n(const std::filesystem::path& p) { hibp::details::save<T>(p); }                           \
  void det_load_##n(const std::filesystem::path& p) { hibp::details::load<T>(p); }                           \
  void toc_build_##n(const std::filesystem::path& p, unsigned b) { hibp::toc_build<T>(p, b); }               \
  std::size_t opt_val_off_##n(std::optional<T>& o) { return reinterpret_cast<char*>(&*o) - reinterpret_cast<char*>(&o); } \
  bool opt_has_##n(const std::optional<T>& o) { return o.has_value(); }                                      \
  const T& opt_get_##n(const std::optional<T>& o) { return *o; }
RECORDS(T)
