// What the proofs assume of RESTinio: a request has a response that is filled in and sent; a router calls the handler of a
// route with the request and the values of the route's parameters.  Functions without a body are contracts in targets/C19.py.
#pragma once
#include <cstdint>
#include <string>
#include <string_view>
#include <utility>

namespace restinio {
enum class http_field { content_type, content_length, server, cache_control, allow };
using http_field_t = http_field;
struct http_status_line_t { int code; };
inline http_status_line_t status_ok() { return {200}; }
inline http_status_line_t status_created() { return {201}; }
inline http_status_line_t status_bad_request() { return {400}; }
inline http_status_line_t status_forbidden() { return {403}; }
inline http_status_line_t status_not_found() { return {404}; }
inline http_status_line_t status_method_not_allowed() { return {405}; }
inline http_status_line_t status_unprocessable_entity() { return {422}; }
inline http_status_line_t status_internal_server_error() { return {500}; }
inline http_status_line_t status_not_implemented() { return {501}; }
inline http_status_line_t status_service_unavailable() { return {503}; }
enum class request_handling_status_t { accepted, rejected };
inline request_handling_status_t request_accepted() { return request_handling_status_t::accepted; }
inline request_handling_status_t request_rejected() { return request_handling_status_t::rejected; }
struct response_t {
  response_t& append_header(http_field f, std::string v);
  response_t& set_body(std::string body);
  response_t& connection_close();
  response_t& connection_keep_alive();
  request_handling_status_t done();
  int dummy = 0;
};
struct request_t {
  response_t create_response(http_status_line_t s = status_ok()) const;
};
struct request_handle_t {
  const request_t* p = nullptr;
  const request_t* operator->() const { return p; }
  const request_t& operator*() const { return *p; }
};
namespace router {
struct route_params_t {
  std::string_view operator[](std::string_view name) const;
};
} // namespace router
bool irv_next(const char* route, request_handle_t* req, router::route_params_t* params);
void irv_end();
void irv_other(request_handle_t* req);
namespace router {
template <class Extra = void>
struct express_router_t {
  template <class H>
  void http_get(const char* route, H h) {
    // arbitrary requests, one after the other
    request_handle_t req;
    route_params_t   params;
    while (irv_next(route, &req, &params)) {
      h(req, params);
      irv_end();
    }
  }
  template <class H>
  void non_matched_request_handler(H h) {
    request_handle_t req;
    irv_other(&req);
    h(req);
    irv_end();
  }
};
} // namespace router
struct default_traits_t {};
template <class Traits>
struct settings_t {
  settings_t&& address(const std::string& a) &&;
  settings_t&& port(std::uint16_t p) &&;
  template <class R>
  settings_t&& request_handler(R&& r) && { return std::move(*this); }
  int dummy = 0;
};
template <class Traits>
settings_t<Traits> on_thread_pool(std::size_t n) { return {}; }
template <class S>
void run(S&& s) {}
} // namespace restinio
