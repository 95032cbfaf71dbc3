// the real app/hibp_download.cpp, verbatim, plus accessors
#define main app_main
#include "app/hibp_download.cpp"
#undef main
using cfg = hibp::dnl::cli_config_t;
cfg& acc_cli() { return hibp::dnl::cli; }
std::string& acc_cli_out(cfg& c) { return c.output_db_filename; }
bool& acc_cli_force(cfg& c) { return c.force; }
bool& acc_cli_resume(cfg& c) { return c.resume; }
bool& acc_cli_txt(cfg& c) { return c.txt_out; }
bool& acc_cli_ntlm(cfg& c) { return c.ntlm; }
bool& acc_cli_t64(cfg& c) { return c.sha1t64; }
bool& acc_cli_testing(cfg& c) { return c.testing; }
std::size_t& acc_cli_limit(cfg& c) { return c.index_limit; }
std::size_t& acc_cli_parallel(cfg& c) { return c.parallel_max; }
std::size_t acc_cli_size() { return sizeof(cfg); }
