// the real src/srv/server.cpp, verbatim, against the assumed interface of RESTinio (fake_restinio), plus accessors
#include "src/srv/server.cpp"
#define NO_WRITER
#include "flat.cpp"
#include <new>
namespace hibp::srv { cli_config_t cli; }
namespace s_ = hibp::srv;
std::string& acc_cli_sha1() { return s_::cli.sha1_db_filename; }
std::string& acc_cli_ntlm() { return s_::cli.ntlm_db_filename; }
std::string& acc_cli_t64() { return s_::cli.sha1t64_db_filename; }
bool& acc_cli_json() { return s_::cli.json; }
bool& acc_cli_perf() { return s_::cli.perf_test; }
bool& acc_cli_toc() { return s_::cli.toc; }
unsigned& acc_cli_bits() { return s_::cli.toc_bits; }
#define S(T, n) void opt_set_##n(std::optional<T>* o, const T& v, bool has) { if (has) ::new (o) std::optional<T>(v); else ::new (o) std::optional<T>(); }
RECORDS(S)
void serve(const std::string& a, const std::string& b, const std::string& c) { auto r = hibp::srv::get_router(a, b, c); }
std::string decode(const std::string& s) { return hibp::srv::percent_decode(s); }
