// the real src/dnl/requests.cpp, verbatim, plus accessors
#include "src/dnl/requests.cpp"
using dl_t = hibp::dnl::download;
namespace rq = hibp::dnl::req;
std::size_t acc_dl_size() { return sizeof(dl_t); }
std::string& acc_dl_prefix(dl_t& d) { return d.prefix; }
std::vector<char>& acc_dl_buffer(dl_t& d) { return d.buffer; }
std::size_t& acc_dl_index(dl_t& d) { return d.index; }
int& acc_dl_retries(dl_t& d) { return d.retries_left; }
CURL*& acc_dl_easy(dl_t& d) { return d.easy; }
int acc_max_retries() { return dl_t::max_retries; }
std::size_t& acc_next_index() { return rq::next_index; }
std::size_t& acc_limit() { return hibp::dnl::cli.index_limit; }
std::size_t& acc_parallel() { return hibp::dnl::cli.parallel_max; }
CURLM*& acc_multi() { return rq::curl_multi_handle; }
bool& acc_ntlm() { return hibp::dnl::cli.ntlm; }
bool& acc_req_testing() { return rq::testing; }
std::size_t acc_msg_size() { return sizeof(CURLMsg); }
CURL*& acc_msg_easy(CURLMsg& m) { return m.easy_handle; }
CURLcode& acc_msg_result(CURLMsg& m) { return m.data.result; }
CURLMSG& acc_msg_kind(CURLMsg& m) { return m.msg; }
int k_done() { return CURLMSG_DONE; }
int k_ok() { return CURLE_OK; }
int k_private() { return CURLINFO_PRIVATE; }
int k_code() { return CURLINFO_RESPONSE_CODE; }
int k_opt_private() { return CURLOPT_PRIVATE; }
int k_opt_wf() { return CURLOPT_WRITEFUNCTION; }
int k_opt_wd() { return CURLOPT_WRITEDATA; }
int k_opt_url() { return CURLOPT_URL; }
void mk_download(void* p, std::size_t i) { new (p) dl_t(i); }
event_base*& acc_ebase() { return rq::ebase; }
event*& acc_timeout() { return rq::timeout; }
std::size_t acc_ctx_size() { return sizeof(rq::curl_context_t); }
event*& acc_ctx_event(rq::curl_context_t& c) { return c.event; }
curl_socket_t& acc_ctx_fd(rq::curl_context_t& c) { return c.sockfd; }
int k_in() { return CURL_POLL_IN; }
int k_out() { return CURL_POLL_OUT; }
int k_inout() { return CURL_POLL_INOUT; }
int k_remove() { return CURL_POLL_REMOVE; }
int k_read() { return EV_READ; }
int k_write() { return EV_WRITE; }
int k_persist() { return EV_PERSIST; }
int k_sel_in() { return CURL_CSELECT_IN; }
int k_sel_out() { return CURL_CSELECT_OUT; }
int k_timeout() { return CURL_SOCKET_TIMEOUT; }
int k_m_socket() { return CURLMOPT_SOCKETFUNCTION; }
int k_m_timer() { return CURLMOPT_TIMERFUNCTION; }
std::size_t acc_tv_size() { return sizeof(timeval); }
time_t& acc_tv_sec(timeval& t) { return t.tv_sec; }
suseconds_t& acc_tv_usec(timeval& t) { return t.tv_usec; }
