// the real app/hibp_search.cpp, verbatim, plus accessors
#define main app_main
#include "app/hibp_search.cpp"
#undef main
#define NO_WRITER
#include "flat.cpp"
#include <new>
unsigned& acc_cli_bits(cli_config_t& c) { return c.toc_bits; }
bool& acc_cli_toc(cli_config_t& c) { return c.toc; }
bool& acc_cli_hash(cli_config_t& c) { return c.hash; }
bool& acc_cli_ntlm(cli_config_t& c) { return c.ntlm; }
bool& acc_cli_t64(cli_config_t& c) { return c.sha1t64; }
std::string& acc_cli_in(cli_config_t& c) { return c.db_filename; }
std::string& acc_cli_query(cli_config_t& c) { return c.plain_text_password; }
std::size_t acc_cli_size() { return sizeof(cli_config_t); }
#define S(T, n) void opt_set_##n(std::optional<T>* o, const T& v, bool has) { if (has) ::new (o) std::optional<T>(v); else ::new (o) std::optional<T>(); }
RECORDS(S)
