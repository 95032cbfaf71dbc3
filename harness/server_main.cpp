// the real app/hibp_server.cpp, verbatim, plus accessors to its configuration
#define main app_main
#include "app/hibp_server.cpp"
#undef main
#define NO_WRITER
#include "flat.cpp"
using hibp::srv::cli_config_t;
std::string& acc_cli_sha1(cli_config_t& c) { return c.sha1_db_filename; }
std::string& acc_cli_ntlm(cli_config_t& c) { return c.ntlm_db_filename; }
std::string& acc_cli_t64(cli_config_t& c) { return c.sha1t64_db_filename; }
bool& acc_cli_toc(cli_config_t& c) { return c.toc; }
unsigned& acc_cli_bits(cli_config_t& c) { return c.toc_bits; }
