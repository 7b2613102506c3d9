// W01, W02: the real dso::http_get over a simulated libcurl, server and disk.
#define CURL_DISABLE_TYPECHECK
#include "../sim/sim.hpp"
#include "cweb.hpp"
#include <algorithm>
#include <cstdarg>
#include <curl/curl.h>
#undef curl_easy_setopt
#undef curl_easy_getinfo
using namespace sim;

// ------------------------------------------------------------ the server
namespace {
struct Remote { std::vector<std::string> versions; };
std::map<std::string, Remote> server;           // url -> bodies over time

struct Net { uint32_t resolve_fail = 0, connect_fail = 0, http_err = 0, drop = 0, timeout = 0, init_fail = 0; } net;
struct Call { bool requested = false; int served_version = -1; std::string url; bool faulted = false; };
Call *current[16];
Call *me() { int t = cur_task(); return current[t < 0 ? 15 : t]; }
uint32_t maxchunk = 64;
long handles = 0; // transfer handles in use
struct Easy {
  std::string url;
  long failonerror = 0;
  curl_write_callback wf = nullptr;
  void *wd = nullptr;
  long code = 0;
};
CURLcode perform(Easy *h) {
  if (!h) return CURLE_BAD_FUNCTION_ARGUMENT;
  if (h->url.empty()) return CURLE_URL_MALFORMAT;
  Call *c = me();
  yield_point("connect");
  advance_ns(20000000);
  if (c) { c->requested = true; c->url = h->url; }
  if (net.resolve_fail && chance(FAULT, net.resolve_fail)) { count("fault.resolve"); if (c) c->faulted = true; note("[net] resolve fails"); return CURLE_COULDNT_RESOLVE_HOST; }
  if (net.connect_fail && chance(FAULT, net.connect_fail)) { count("fault.connect"); if (c) c->faulted = true; note("[net] connect refused"); return CURLE_COULDNT_CONNECT; }
  auto it = server.find(h->url);
  std::string body;
  h->code = 200;
  if (net.http_err && chance(FAULT, net.http_err)) {
    static const int codes[] = {404, 500, 503, 403, 429, 502};
    h->code = codes[draw(FAULT, 6)];
    count("fault.http_status");
    if (c) c->faulted = true;
    body = fmt("<html>error %ld</html>", h->code);
  } else if (it == server.end()) { h->code = 404; body = "<html>no</html>"; if (c) c->faulted = true; }
  else { body = it->second.versions.back(); if (c) c->served_version = it->second.versions.size() - 1; }
  note("[net] GET %s -> %ld, %zu bytes", h->url.c_str(), h->code, body.size());
  if (h->code >= 400 && h->failonerror) return CURLE_HTTP_RETURNED_ERROR;
  size_t at = 0;
  size_t cut = body.size();
  CURLcode end = CURLE_OK;
  if (net.drop && chance(FAULT, net.drop)) {
    cut = draw(FAULT, body.size() + 1);
    static const CURLcode es[] = {CURLE_PARTIAL_FILE, CURLE_RECV_ERROR, CURLE_GOT_NOTHING, CURLE_OPERATION_TIMEDOUT, CURLE_SSL_CONNECT_ERROR};
    end = es[draw(FAULT, 5)];
    if (cut == body.size()) end = CURLE_RECV_ERROR;
    count("fault.drop");
    if (c) c->faulted = true;
    note("[net] connection drops after %zu bytes", cut);
  }
  while (at < cut) {
    size_t k = std::min<size_t>(cut - at, 1 + draw(FAULT, maxchunk));
    yield_point("chunk");
    advance_ns(5000000);
    if (fs::faults.crash && chance(FAULT, fs::faults.crash)) { note("[net] process dies at byte %zu", at); crash_current(); }
    std::string piece = body.substr(at, k);
    size_t r = h->wf ? h->wf(&piece[0], 1, k, h->wd) : fwrite(piece.data(), 1, k, (FILE *)h->wd);
    if (r != k) { note("[net] write callback took %zu of %zu", r, k); return CURLE_WRITE_ERROR; }
    at += k;
  }
  yield_point("end");
  return end;
}
} // namespace

extern "C" {
CURLcode curl_global_init(long) { return CURLE_OK; }
void curl_global_cleanup(void) {}
CURL *curl_easy_init(void) {
  yield_point("init");
  if (net.init_fail && chance(FAULT, net.init_fail)) { count("fault.curl_init"); if (me()) me()->faulted = true; return nullptr; }
  ++handles;
  return new Easy;
}
void curl_easy_cleanup(CURL *h) { if (h) --handles; delete (Easy *)h; }
void curl_easy_reset(CURL *h) { *(Easy *)h = Easy(); }
CURLcode curl_easy_setopt(CURL *hh, CURLoption o, ...) {
  if (!hh) return CURLE_BAD_FUNCTION_ARGUMENT;
  Easy *h = (Easy *)hh;
  va_list a;
  va_start(a, o);
  switch (o) {
  case CURLOPT_URL: { const char *u = va_arg(a, const char *); h->url = u ? u : ""; break; }
  case CURLOPT_FAILONERROR: h->failonerror = va_arg(a, long); break;
  case CURLOPT_WRITEFUNCTION: h->wf = va_arg(a, curl_write_callback); break;
  case CURLOPT_WRITEDATA: h->wd = va_arg(a, void *); break;
  default: break;
  }
  va_end(a);
  return CURLE_OK;
}
CURLcode curl_easy_perform(CURL *h) { return perform((Easy *)h); }
const char *curl_easy_strerror(CURLcode) { return "simulated"; }
CURLcode curl_easy_getinfo(CURL *hh, CURLINFO i, ...) {
  va_list a;
  va_start(a, i);
  if (i == CURLINFO_RESPONSE_CODE) *va_arg(a, long *) = ((Easy *)hh)->code;
  va_end(a);
  return CURLE_OK;
}
}

// ------------------------------------------------------------ scenario
namespace {
std::string make_body(int tag) {
  // mostly short; sometimes beyond the stdio buffer
  uint32_t k = W(8);
  size_t n = k == 0 ? W(3) : k < 5 ? 1 + W(300) : k == 5 ? 4096 * (1 + W(3)) + (int)W(3) - 1 : 1 + W(20000);
  Rng r = Wrng();
  std::string b = fmt("<%d>", tag);
  if (k == 0 && n < 2) b = n ? "x" : "";
  while (b.size() < n) b += (char)(r.next() >> 56);
  return b;
}
struct Target { std::string local, url; std::vector<std::string> ok; std::string initial; bool had = false; };

// mode 1: absence/completeness (W01); mode 2: protection of what is there (W02)
void scenario(int mode) {
  server.clear();
  for (auto &c : current) c = nullptr;
  net = Net();
  handles = 0;
  int nt = 1 + W(2);
  static const char *names[] = {"/sim/dl/data.rnx.Z", "/sim/dl/eop.txt"};
  std::vector<Target> T(nt);
  int tag = 0;
  fs::one_process = draw(CONF, 2); // the callers are threads of one process, or processes
  const std::string longer = draw(CONF, 4) ? "" : std::string(1 + draw(CONF, 200), 'x');
  for (int i = 0; i < nt; i++) {
    T[i].local = names[i]; T[i].local.insert(8, longer);
    T[i].url = fmt("https://host/pub/%d", i);
    std::string b = make_body(tag++);
    server[T[i].url].versions = {b};
    T[i].ok = {b};
    bool pre = mode == 2 ? !Wc(250) : Wc(250);
    if (pre) { T[i].initial = Wc(500) ? make_body(tag++) : std::string("old content, kept by the user\n"); T[i].ok.push_back(T[i].initial); fs::put(T[i].local, T[i].initial); T[i].had = true; }
  }
  // configuration: fault-free, network only, disk only, both, crashes
  uint32_t cfg = draw(CONF, 6);
  auto &f = fs::faults;
  f = fs::Faults();
  maxchunk = draw(CONF, 2) ? 16384 : 64 + draw(CONF, 2000);
  bool crashes = false;
  if (cfg == 1 || cfg >= 3) {
    if (draw(CONF, 3) == 1) net.resolve_fail = 150;
    if (draw(CONF, 3) == 1) net.connect_fail = 150;
    if (draw(CONF, 2)) net.http_err = 200;
    if (draw(CONF, 2)) net.drop = 350;
    if (draw(CONF, 4) == 1) net.init_fail = 200;
  }
  if (cfg == 2 || cfg >= 3) {
    if (draw(CONF, 3) == 1) f.open_fail = 150;
    if (draw(CONF, 2)) f.write_enospc = 30 + draw(CONF, 200);
    if (draw(CONF, 3) == 1) f.write_eio = 100;
    if (draw(CONF, 2)) f.short_write = 200;
    if (draw(CONF, 2)) f.flush_fail = 300;
    if (draw(CONF, 3) == 1) f.close_fail = 200;
    if (draw(CONF, 3) == 1) f.unlink_fail = 400;
    if (draw(CONF, 3) == 1) f.rename_fail = 300;
  }
  if (cfg >= 4) { f.crash = 15 + draw(CONF, 100); crashes = true; }
  auto saved = f;
  bool disk_clean = !(f.open_fail || f.write_enospc || f.write_eio || f.flush_fail || f.close_fail || f.unlink_fail || f.rename_fail);

  auto is_ok = [&](Target &t, const std::string &b) { return std::find(t.ok.begin(), t.ok.end(), b) != t.ok.end(); };
  auto state = [&](Target &t) -> int { if (!fs::exists(t.local)) return -1; std::string b = fs::get(t.local); for (size_t i = 0; i < t.ok.size(); i++) if (t.ok[i] == b) return (int)i; return -2; };
  // at every I/O step the name is absent or holds something complete
  fs::io_hook = [&](const char *op, const std::string &path) {
    for (auto &t : T) {
      int s = state(t);
      if (s == -2) {
        if (t.had) fail("existing-file-damaged", "at step '%s %s' the file %s that was there before holds %zu bytes that are neither its old content nor a complete download", op, path.c_str(), t.local.c_str(), fs::get(t.local).size());
        if (crashes) fail("partial-file-visible", "at step '%s %s' a process death would leave %zu bytes of an incomplete download under %s", op, path.c_str(), fs::get(t.local).size(), t.local.c_str());
      }
      if (s == -1 && t.had && mode == 2) fail("existing-file-lost", "at step '%s %s' the file %s that was there before is gone", op, path.c_str(), t.local.c_str());
    }
  };

  int rounds = 1 + W(3);
  for (int rd = 0; rd < rounds; rd++) {
    if (saved.write_enospc) f.write_enospc = saved.write_enospc; // space was freed
    int callers = Wc(300) ? 2 + W(2) : 1;
    bool solo = callers == 1;
    for (auto &t : T) if (Wc(300)) { std::string b = make_body(tag++); server[t.url].versions.push_back(b); t.ok.push_back(b); }
    for (int k = 0; k < callers; k++) {
      int ncall = 1 + W(3);
      std::vector<std::pair<int, bool>> plan;
      for (int q = 0; q < ncall; q++) plan.push_back({(int)W(nt), Wc(500)});
      spawn(fmt("caller%d", k).c_str(), [=, &T, &state, &f] {
        for (auto &pl : plan) {
          Target &t = T[pl.first];
          bool force = pl.second;
          Call call;
          int tid = cur_task();
          current[tid] = &call;
          int before = state(t);
          uint64_t h0 = fs::harmful_fired();
          note("[call] http_get(%s, %s, force=%d) [file: %s]", t.url.c_str(), t.local.c_str(), force, before == -1 ? "absent" : "present");
          int rc = dso::http_get(t.url.c_str(), t.local.c_str(), force);
          current[tid] = nullptr;
          int after = state(t);
          note("[call] -> %d [file: %s]", rc, after == -1 ? "absent" : after == -2 ? "DAMAGED" : "complete");
          observe_u((uint64_t)(rc < 0 ? 1 : rc > 0 ? 2 : 0) * 64 + (after + 2) * 4 + force * 2 + (before >= 0));
          count(rc < 0 ? "skipped" : rc ? "failed" : "downloaded");
          if (solo && fs::harmful_fired() == h0 && !call.faulted) {
            if (!force && before != -1) { if (rc >= 0) fail("existing-not-reported", "the file exists and force is false, but the call returned %d", rc); }
            else if (rc != 0) fail("healthy-download-failed", "network and disk were healthy but the call returned %d", rc);
          }
          if (rc == 0) {
            if (after == -1) fail("success-without-file", "success was reported but %s does not exist", t.local.c_str());
            if (after == -2) fail("success-torn-file", "success was reported but %s holds %zu bytes instead of the complete body", t.local.c_str(), fs::get(t.local).size());
            if (!call.requested) fail("success-without-request", "success was reported although nothing was requested");
            if (solo) {
              const std::string &b = server[t.url].versions[call.served_version < 0 ? 0 : call.served_version];
              if (call.served_version < 0 || fs::get(t.local) != b) fail("success-wrong-content", "success was reported but the file does not hold the body that was served");
            }
            if (!force && before >= 0 && solo) fail("overwrote-without-force", "an existing file was overwritten without force");
            nontrivial();
          } else if (rc > 0) {
            if (after == -2) fail("failure-left-fragment", "the call failed (%d) but left %zu bytes of incomplete content under %s", rc, fs::get(t.local).size(), t.local.c_str());
            if (solo && before >= 0 && after != before) fail("existing-file-lost", "the call failed (%d) and the file that was there before has gone or changed", rc);
            if (solo && before == -1 && after != -1) fail("failure-left-file", "the call failed (%d) but a file appeared", rc);
            nontrivial();
          } else {
            if (force) fail("skip-with-force", "force was requested but the call returned %d", rc);
            if (solo && before == -1) fail("skip-without-file", "the file does not exist but the call said it does");
            if (call.requested) fail("skip-with-request", "the server was contacted although the call reported the file as existing");
            if (solo && after != before) fail("existing-file-lost", "the existing file changed although nothing was downloaded");
            if (after == -2) fail("fragment-taken-for-file", "the call reports the file as existing but it holds a fragment");
          }
        }
      });
    }
    run_tasks();
    for (auto &c : current) c = nullptr;
    if (!crashes && handles) fail("handle-not-released", "%ld transfer handles are still in use after all calls have returned", handles);
    if (!crashes && !f.unlink_fail)
      for (auto &n : fs::list()) {
        bool known = false;
        for (auto &t : T) known = known || n == t.local;
        if (!known) fail("file-left-behind", "all calls have returned but left the file %s (%zu bytes) behind", n.c_str(), fs::get(n).size());
      }
    // whatever happened (crashes included): absent or complete
    for (auto &t : T) {
      int s = state(t);
      if (s == -2) fail(t.had ? "existing-file-damaged" : "crash-left-fragment", "after all callers ended or died %s holds %zu bytes of incomplete content", t.local.c_str(), fs::get(t.local).size());
      if (s == -1 && t.had && (disk_clean || mode == 2)) fail("existing-file-lost", "the file %s that was there at the start is gone", t.local.c_str());
      if (s >= 0) t.had = true;
    }
  }
  // liveness: faults stop, one more forced call must succeed
  f = fs::Faults();
  net = Net();
  fs::io_hook = nullptr;
  lone([&] {
    for (auto &t : T) {
      Call c;
      current[0] = current[15] = &c;
      for (auto &x : current) x = &c;
      int rc = dso::http_get(t.url.c_str(), t.local.c_str(), true);
      if (rc != 0 || fs::get(t.local) != server[t.url].versions.back()) fail("no-recovery", "after all faults stopped a forced download returned %d", rc);
    }
  });
}
} // namespace
#include <set>
int main(int argc, char **argv) {
  return main_driver(argc, argv, {
    {"W01", [] { scenario(1); }, "a run is non-trivial when at least one call of the real http_get returned success or failure (not merely 'already there')"},
    {"W02", [] { scenario(2); }, "a run is non-trivial when at least one call of the real http_get returned success or failure (not merely 'already there')"},
  });
}
