// the real app/hibp_diff.cpp, verbatim, plus accessors
#define main app_main
#include "app/hibp_diff.cpp"
#undef main
std::string& acc_cli_old(cli_config_t& c) { return c.db_file_old; }
std::string& acc_cli_new(cli_config_t& c) { return c.db_file_new; }
bool& acc_cli_ntlm(cli_config_t& c) { return c.ntlm; }
