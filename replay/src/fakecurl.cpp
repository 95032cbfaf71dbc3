// Scripted stand-in for libcurl and libevent: drives the real download code through chosen completion orders, batches, partial
// bodies and failures, and records what it was asked to do. Environment: FAKE_DIR (bodies), FAKE_LOG, FAKE_SEED, FAKE_BATCH,
// FAKE_PERM (comma separated prefixes, highest priority first), FAKE_FAIL (file: "PREFIX outcome outcome ...", outcome is
// ok | err:<bytes> | st:<code>:<bytes>; after the listed attempts: ok), FAKE_SLEEP (max microseconds between batches).
#include <algorithm>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <curl/curl.h>
#include <event2/event.h>
#include <event2/event_struct.h>
#include <fstream>
#include <map>
#include <random>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>
#undef curl_easy_setopt
#undef curl_easy_getinfo
#undef curl_multi_setopt
using wfn = size_t (*)(char*, size_t, size_t, void*);
struct Easy {
  std::string url; wfn write = nullptr; void* wdata = nullptr; void* priv = nullptr; bool in_multi = false, started = false;
  bool done = false; long code = 0; CURLcode res = CURLE_OK; std::string body; size_t pos = 0, stop = 0; int fd = -1; void* sockp = nullptr; CURLMsg msg{};
};
struct Ev { int fd = -1; event_callback_fn cb = nullptr; void* arg = nullptr; bool added = false; };
static std::vector<Easy*> multi; static std::vector<Easy*> msgs; static std::vector<Ev*> evs; static bool stopped = false;
static curl_socket_callback sockfn = nullptr; static curl_multi_timer_callback timerfn = nullptr; static void* sockdata; static void* timerdata;
static std::map<std::string, int> attempts; static std::map<std::string, std::vector<std::string>> plan; static int next_fd = 1000;
static std::mt19937_64 rng; static FILE* lg = nullptr; static std::map<std::string, int> rank_; static int batch = 1; static int slp = 0; static std::string dir;
static std::vector<Easy*> chosen; static int max_out = 0;
static const char* env(const char* n, const char* d = "") { auto p = getenv(n); return p ? p : d; }
static void setup() {
  static bool once = false; if (once) return; once = true;
  rng.seed(strtoull(env("FAKE_SEED", "1"), nullptr, 10)); dir = env("FAKE_DIR", "."); batch = atoi(env("FAKE_BATCH", "1")); slp = atoi(env("FAKE_SLEEP", "0"));
  if (*env("FAKE_LOG")) lg = fopen(env("FAKE_LOG"), "a");
  std::stringstream ps(env("FAKE_PERM")); std::string t; int i = 0; while (std::getline(ps, t, ',')) rank_[t] = i++;
  std::ifstream f(env("FAKE_FAIL", "/dev/null")); while (std::getline(f, t)) { std::stringstream ls(t); std::string p, o; ls >> p; while (ls >> o) plan[p].push_back(o); }
}
static void log(const char* f, ...) { if (!lg) return; va_list a; va_start(a, f); vfprintf(lg, f, a); va_end(a); fputc('\n', lg); fflush(lg); }
static std::string prefix(const std::string& u) { auto q = u.find('?'); auto s = u.substr(0, q); return s.substr(s.rfind('/') + 1); }
static void begin(Easy* e) {
  auto p = prefix(e->url); int n = attempts[p]++; std::string o = "ok";
  auto it = plan.find(p); if (it != plan.end() && n < int(it->second.size())) o = it->second[n];
  std::ifstream f(dir + "/" + p, std::ios::binary); std::stringstream ss; ss << f.rdbuf(); bool have = bool(f);
  e->body = have ? ss.str() : "<html>not found: 0</html>"; e->code = have ? 200 : 404; e->res = CURLE_OK; e->pos = 0; e->stop = e->body.size(); e->done = false;
  if (o.rfind("err:", 0) == 0) { e->res = CURLE_RECV_ERROR; e->stop = std::min<size_t>(e->stop, strtoul(o.c_str() + 4, nullptr, 10)); if (e->stop == 0 && rng() % 2) e->code = 0; }
  if (o.rfind("st:", 0) == 0) { char* q; e->code = strtol(o.c_str() + 3, &q, 10); e->stop = std::min<size_t>(e->stop, strtoul(q + 1, nullptr, 10)); }
  log("BEGIN %s %d %s", p.c_str(), n, o.c_str());
}
static bool deliver(Easy* e, size_t n) { // false: refused
  n = std::min(n, e->stop - e->pos); if (!n) return true;
  std::vector<char> tmp(e->body.begin() + e->pos, e->body.begin() + e->pos + n); size_t r = n;
  if (e->write) r = (rng() % 2) ? e->write(tmp.data(), 1, n, e->wdata) : e->write(tmp.data(), n, 1, e->wdata);
  std::fill(tmp.begin(), tmp.end(), '!'); e->pos += n;
  if (r != n) { e->res = CURLE_WRITE_ERROR; e->stop = e->pos; return false; }
  return true;
}
static int sock(Easy* e, int what) { return sockfn ? sockfn(reinterpret_cast<CURL*>(e), e->fd, what, sockdata, e->sockp) : 0; }
static void complete(Easy* e) {
  e->done = true; e->msg.msg = CURLMSG_DONE; e->msg.easy_handle = reinterpret_cast<CURL*>(e); e->msg.data.result = e->res; msgs.push_back(e);
  log("DONE %s %d %ld", prefix(e->url).c_str(), int(e->res), e->code);
  sock(e, CURL_POLL_REMOVE); e->fd = -1; e->sockp = nullptr;
}
extern "C" {
CURLcode curl_global_init(long) { setup(); return CURLE_OK; }
void curl_global_cleanup() {}
const char* curl_easy_strerror(CURLcode) { return "scripted error"; }
const char* curl_multi_strerror(CURLMcode) { return "scripted error"; }
CURL* curl_easy_init() { setup(); return reinterpret_cast<CURL*>(new Easy); }
void curl_easy_cleanup(CURL* h) { auto e = reinterpret_cast<Easy*>(h); if (e && e->in_multi) log("BAD cleanup of an active handle"); delete e; }
CURLcode curl_easy_setopt(CURL* h, CURLoption o, ...) {
  auto e = reinterpret_cast<Easy*>(h); va_list a; va_start(a, o);
  switch (o) {
  case CURLOPT_WRITEFUNCTION: e->write = va_arg(a, wfn); break;
  case CURLOPT_WRITEDATA: e->wdata = va_arg(a, void*); break;
  case CURLOPT_PRIVATE: e->priv = va_arg(a, void*); break;
  case CURLOPT_URL: e->url = va_arg(a, char*); break;
  default: break;
  }
  va_end(a); return CURLE_OK;
}
CURLcode curl_easy_getinfo(CURL* h, CURLINFO i, ...) {
  auto e = reinterpret_cast<Easy*>(h); va_list a; va_start(a, i);
  if (i == CURLINFO_PRIVATE) *va_arg(a, void**) = e->priv;
  else if (i == CURLINFO_RESPONSE_CODE) *va_arg(a, long*) = e->code;
  va_end(a); return CURLE_OK;
}
CURLcode curl_easy_perform(CURL* h) {
  auto e = reinterpret_cast<Easy*>(h); setup(); log("SYNC %s", e->url.c_str()); begin(e);
  while (e->pos < e->stop) if (!deliver(e, 1 + rng() % 5000)) break;
  log("SYNCDONE %d %ld", int(e->res), e->code); return e->res;
}
CURLM* curl_multi_init() { return reinterpret_cast<CURLM*>(&multi); }
CURLMcode curl_multi_setopt(CURLM*, CURLMoption o, ...) {
  va_list a; va_start(a, o);
  switch (o) {
  case CURLMOPT_SOCKETFUNCTION: sockfn = va_arg(a, curl_socket_callback); break;
  case CURLMOPT_TIMERFUNCTION: timerfn = va_arg(a, curl_multi_timer_callback); break;
  case CURLMOPT_SOCKETDATA: sockdata = va_arg(a, void*); break;
  case CURLMOPT_TIMERDATA: timerdata = va_arg(a, void*); break;
  default: break;
  }
  va_end(a); return CURLM_OK;
}
CURLMcode curl_multi_add_handle(CURLM* m, CURL* h) {
  auto e = reinterpret_cast<Easy*>(h); if (e->in_multi) { log("BAD handle added twice"); return CURLM_ADDED_ALREADY; }
  e->in_multi = true; e->started = false; e->done = false; multi.push_back(e); max_out = std::max(max_out, int(multi.size()));
  log("ADD %s %zu %s", prefix(e->url).c_str(), multi.size(), e->url.c_str());
  if (timerfn) timerfn(m, 0, timerdata); return CURLM_OK;
}
CURLMcode curl_multi_remove_handle(CURLM*, CURL* h) {
  auto e = reinterpret_cast<Easy*>(h); if (!e->in_multi) return CURLM_OK; // as libcurl
  if (e->started && !e->done) { sock(e, CURL_POLL_REMOVE); e->sockp = nullptr; }
  std::erase(multi, e); std::erase(msgs, e); e->in_multi = false; std::memset(&e->msg, 0x5a, sizeof e->msg); // messages do not survive removal
  return CURLM_OK;
}
CURLMcode curl_multi_assign(CURLM*, curl_socket_t s, void* p) { for (auto e : multi) if (e->fd == s) e->sockp = p; return CURLM_OK; }
CURLMcode curl_multi_socket_action(CURLM*, curl_socket_t s, int, int* running) {
  if (s == CURL_SOCKET_TIMEOUT) {
    for (auto e : std::vector<Easy*>(multi)) if (!e->started) { e->started = true; e->fd = next_fd++; begin(e); sock(e, CURL_POLL_IN); }
  }
  for (auto e : chosen) { while (e->pos < e->stop) if (!deliver(e, 1 + rng() % 3000)) break; complete(e); }
  chosen.clear();
  if (running) { *running = 0; for (auto e : multi) *running += !e->done; }
  return CURLM_OK;
}
CURLMsg* curl_multi_info_read(CURLM*, int* left) {
  if (msgs.empty()) { if (left) *left = 0; return nullptr; }
  auto e = msgs.front(); msgs.erase(msgs.begin()); if (left) *left = int(msgs.size()); return &e->msg;
}
CURLMcode curl_multi_cleanup(CURLM*) { log("MAXOUT %d", max_out); return CURLM_OK; }
// libevent
struct event_base* event_base_new() { return reinterpret_cast<event_base*>(&evs); }
void event_base_free(struct event_base*) {}
void libevent_global_shutdown() {}
struct event* event_new(struct event_base*, evutil_socket_t fd, short, event_callback_fn cb, void* arg) { auto v = new Ev{int(fd), cb, arg, false}; evs.push_back(v); return reinterpret_cast<event*>(v); }
int event_assign(struct event* ev, struct event_base*, evutil_socket_t fd, short, event_callback_fn cb, void* arg) { *reinterpret_cast<Ev*>(ev) = Ev{int(fd), cb, arg, false}; return 0; }
int event_add(struct event* ev, const struct timeval*) { reinterpret_cast<Ev*>(ev)->added = true; return 0; }
int event_del(struct event* ev) { reinterpret_cast<Ev*>(ev)->added = false; return 0; }
void event_free(struct event* ev) { auto v = reinterpret_cast<Ev*>(ev); std::erase(evs, v); delete v; }
int event_base_loopbreak(struct event_base*) { stopped = true; return 0; }
int event_base_dispatch(struct event_base*) {
  while (!stopped) {
    if (slp) usleep(rng() % (slp + 1));
    Ev* timer = nullptr; for (auto v : evs) if (v->fd < 0 && v->added) timer = v;
    std::vector<Easy*> act; for (auto e : multi) if (e->started && !e->done) act.push_back(e);
    if (!timer && act.empty()) break;
    if (timer && (act.empty() || rng() % 2)) {
      timer->added = false; timer->cb(-1, EV_TIMEOUT, timer->arg); // also finds completions when data were chosen below
      continue;
    }
    for (auto e : act) if (rng() % 4 == 0 && e->pos < e->stop) deliver(e, 1 + rng() % 200); // interleaved partial data
    if (!rank_.empty()) std::stable_sort(act.begin(), act.end(), [](auto a, auto b) { auto r = [](auto x) { auto i = rank_.find(prefix(x->url)); return i == rank_.end() ? 1 << 30 : i->second; }; return r(a) < r(b); });
    else std::shuffle(act.begin(), act.end(), rng);
    size_t n = std::min(act.size(), size_t(1 + rng() % batch)); if (!rank_.empty()) n = std::min(act.size(), size_t(batch));
    chosen.assign(act.begin(), act.begin() + n);
    Ev* ev = nullptr; for (auto v : evs) if (v->fd == chosen[0]->fd && v->added) ev = v;
    if (!ev) { log("BAD no event is registered for an active socket"); break; }
    ev->cb(ev->fd, EV_READ, ev->arg);
  }
  return 0;
}
}
