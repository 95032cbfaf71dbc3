// the real app/hibp_convert.cpp, verbatim, plus accessors
#define main app_main
#include "app/hibp_convert.cpp"
#undef main
#include "flat.cpp"
std::size_t& acc_cli_limit(cli_config_t& c) { return c.limit; }
bool& acc_cli_stdout(cli_config_t& c) { return c.standard_output; }
bool& acc_cli_stdin(cli_config_t& c) { return c.standard_input; }
bool& acc_cli_force(cli_config_t& c) { return c.force; }
bool& acc_cli_ntlm(cli_config_t& c) { return c.ntlm; }
bool& acc_cli_t2b(cli_config_t& c) { return c.txt_to_bin; }
bool& acc_cli_b2t(cli_config_t& c) { return c.bin_to_txt; }
std::string& acc_cli_in(cli_config_t& c) { return c.input_filename; }
std::string& acc_cli_out(cli_config_t& c) { return c.output_filename; }
std::size_t acc_cli_size() { return sizeof(cli_config_t); }
