// the real app/hibp_dupes.cpp, verbatim, plus accessors
#define main app_main
#include "app/hibp_dupes.cpp"
#undef main
#define NO_WRITER
#include "flat.cpp"
unsigned& acc_cli_bits(cli_config_t& c) { return c.bits; }
std::string& acc_cli_in(cli_config_t& c) { return c.db_filename; }
bool& acc_cli_ntlm(cli_config_t& c) { return c.ntlm; }
