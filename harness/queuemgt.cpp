// the real src/dnl/queuemgt.cpp, verbatim, plus accessors
#include "src/dnl/queuemgt.cpp"
using dl_t = hibp::dnl::download;
std::size_t acc_dl_size() { return sizeof(dl_t); }
std::string& acc_dl_prefix(dl_t& d) { return d.prefix; }
std::vector<char>& acc_dl_buffer(dl_t& d) { return d.buffer; }
std::size_t& acc_dl_index(dl_t& d) { return d.index; }
int& acc_dl_retries(dl_t& d) { return d.retries_left; }
bool& acc_finished() { return hibp::dnl::qmgt::finished_dls; }
bool cmp_queue(const std::unique_ptr<dl_t>& a, std::unique_ptr<dl_t>& b) { return hibp::dnl::qmgt::process_queue_compare(a, b); }
