// the real app/hibp_topn.cpp, verbatim, plus accessors
#define main app_main
#include "app/hibp_topn.cpp"
#undef main
#include "flat.cpp"
std::size_t& acc_cli_topn(cli_config_t& c) { return c.topn; }
bool& acc_cli_stdout(cli_config_t& c) { return c.standard_output; }
bool& acc_cli_force(cli_config_t& c) { return c.force; }
std::string& acc_cli_in(cli_config_t& c) { return c.input_filename; }
std::string& acc_cli_out(cli_config_t& c) { return c.output_filename; }
std::size_t acc_cli_size() { return sizeof(cli_config_t); }
bool& acc_cli_ntlm(cli_config_t& c) { return c.ntlm; }
bool& acc_cli_t64(cli_config_t& c) { return c.sha1t64; }
