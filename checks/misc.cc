// P50, P51: status-report callbacks, log helpers.
#include "pbt.h"
#include <errno.h>
#include <fcntl.h>
#include <libgen.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <unistd.h>
#include <memory>
static int g_level = 6;
#define LOG_LEVEL g_level
#include <swiftnav/common.h>
#include <swiftnav/logging.h>
#include <swiftnav/signal.h>
#include <swiftnav/subsystem_status_report.h>
using namespace pbt;

// ---------------------------------------------------------------- P50
namespace {
typedef swiftnav_subsystem_status_report_callback_node_t Node;
struct Call { int fn; uint16_t comp; uint8_t gen, spec; void *ctx; };
std::vector<Call> g_calls;
size_t g_limit;
// what a callback does to the registrations while a report is delivered
struct Act { bool on = false; int at = 0, op = 0; Node *node = nullptr; int fn = 0; void *ctx = nullptr; } g_act;
void deliver(int fn, uint16_t a, uint8_t b, uint8_t d, void *ctx);
void f0(uint16_t a, uint8_t b, uint8_t d, void *x) { deliver(0, a, b, d, x); }
void f1(uint16_t a, uint8_t b, uint8_t d, void *x) { deliver(1, a, b, d, x); }
void f2(uint16_t a, uint8_t b, uint8_t d, void *x) { deliver(2, a, b, d, x); }
const pfn_subsystem_status_report fns[3] = {f0, f1, f2};
void deliver(int fn, uint16_t a, uint8_t b, uint8_t d, void *ctx) {
  int at = (int)g_calls.size();
  g_calls.push_back({fn, a, b, d, ctx});
  CHECK(g_calls.size() <= g_limit, "delivery reaches more callbacks than there are registrations (%zu)", g_limit);
  if (g_act.on && at == g_act.at) {
    g_act.on = false;
    if (g_act.op == 0) swiftnav_subsystem_status_report_callback_deregister(g_act.node);
    else if (g_act.op == 1) swiftnav_subsystem_status_report_callback_register(g_act.node, fns[g_act.fn], g_act.ctx);
    else swiftnav_subsystem_status_report_callback_register(g_act.node, nullptr, g_act.ctx);
  }
}
struct RegM { int node, fn; void *ctx; };
struct Fleet {
  std::vector<std::unique_ptr<Buf>> mem;
  std::vector<RegM> model;
  Node *at(int i) { return (Node *)mem[(size_t)i]->p; }
  int find(int i) const { for (size_t k = 0; k < model.size(); k++) if (model[k].node == i) return (int)k; return -1; }
  ~Fleet() { swiftnav_subsystem_status_report_callback_reset(); }
};
void expect(Case &c, const std::vector<RegM> &want, uint16_t a, uint8_t b, uint8_t d, const char *what) {
  CHECK(g_calls.size() == want.size(), "%s: %zu callbacks called, %zu registered", what, g_calls.size(), want.size());
  for (size_t i = 0; i < want.size(); i++) {
    const Call &k = g_calls[i];
    CHECK(k.fn == want[i].fn && k.ctx == want[i].ctx, "%s: call %zu went to callback %d context %p, not %d %p", what, i, k.fn, k.ctx, want[i].fn, want[i].ctx);
    CHECK(k.comp == a && k.gen == b && k.spec == d, "%s: reported (%u,%u,%u), sent (%u,%u,%u)", what, k.comp, k.gen, k.spec, a, b, d);
  }
}
void history(Case &c, bool inside) {
  Fleet f;
  swiftnav_subsystem_status_report_callback_reset();
  int n = (int)c.size(1, 12);
  for (int i = 0; i < n; i++) {
    f.mem.emplace_back(new Buf(sizeof(Node)));
    memset(f.mem.back()->p, (int)c.pick({0xFF, 0x00, 0x5A}), sizeof(Node));
  }
  int ops = (int)c.size(1, 40), reregs = 0, removed = 0;
  for (int o = 0; o < ops; o++) {
    int k = (int)c.draw(11);
    if (k <= 3) {
      int i = (int)c.draw((uint64_t)n - 1), fn = (int)c.draw(2);
      void *ctx = (void *)(uintptr_t)c.u64();
      swiftnav_subsystem_status_report_callback_register(f.at(i), fns[fn], ctx);
      int p = f.find(i);
      c.note("register %d fn %d ctx %p%s", i, fn, ctx, p >= 0 ? " (again)" : "");
      if (p >= 0) { f.model[(size_t)p].fn = fn; f.model[(size_t)p].ctx = ctx; reregs++; }
      else f.model.push_back({i, fn, ctx});
    } else if (k == 4) {
      int i = (int)c.draw((uint64_t)n - 1);
      c.note("register %d with no callback", i);
      swiftnav_subsystem_status_report_callback_register(f.at(i), nullptr, (void *)(uintptr_t)c.u64());
      int p = f.find(i);
      if (p >= 0) { f.model.erase(f.model.begin() + p); removed++; }
    } else if (k <= 6) {
      int i = (int)c.draw((uint64_t)n - 1);
      c.note("deregister %d", i);
      swiftnav_subsystem_status_report_callback_deregister(f.at(i));
      int p = f.find(i);
      if (p >= 0) { f.model.erase(f.model.begin() + p); removed++; }
      // a registration object that is no longer registered belongs to the caller again
      if (c.coin()) f.mem[(size_t)i].reset(new Buf(sizeof(Node)));
    } else if (k == 7) {
      swiftnav_subsystem_status_report_callback_deregister(nullptr);
    } else if (k == 8) {
      if (c.chance(2, 3)) continue;
      c.note("reset");
      swiftnav_subsystem_status_report_callback_reset();
      f.model.clear();
      if (c.coin()) for (auto &m : f.mem) m.reset(new Buf(sizeof(Node)));
    } else {
      uint16_t a = (uint16_t)c.bits(16);
      uint8_t b = c.byte(), d = c.byte();
      std::vector<RegM> want = f.model;
      g_calls.clear();
      g_act.on = false;
      g_limit = want.size();
      if (inside && !want.empty() && c.coin()) {
        // one change made by the callback at position `at`
        g_act.on = true;
        g_act.at = (int)c.draw(want.size() - 1);
        int i = (int)c.draw((uint64_t)n - 1), p = f.find(i);
        g_act.node = f.at(i);
        g_act.op = p < 0 ? (c.coin() ? 0 : 2) : (int)c.draw(2);
        g_act.fn = (int)c.draw(2);
        g_act.ctx = (void *)(uintptr_t)c.u64();
        c.note("report (%u,%u,%u), callback %d does %d to %d", a, b, d, g_act.at, g_act.op, i);
        if (p >= 0) {
          if (g_act.op == 1) {
            // replaced: the new callback counts from its turn on
            f.model[(size_t)p].fn = g_act.fn; f.model[(size_t)p].ctx = g_act.ctx;
            if (p > g_act.at) want[(size_t)p] = f.model[(size_t)p];
          } else {
            f.model.erase(f.model.begin() + p);
            if (p > g_act.at) want.erase(want.begin() + p);
          }
          c.nontrivial();
        }
      } else c.note("report (%u,%u,%u)", a, b, d);
      swiftnav_send_subsystem_status_report(a, b, d);
      expect(c, want, a, b, d, "report");
      if (!inside) c.nontrivial(want.size() >= 2 && (reregs || removed));
    }
  }
  g_calls.clear();
  g_limit = f.model.size();
  g_act.on = false;
  swiftnav_send_subsystem_status_report(0x1234, 0x56, 0x78);
  expect(c, f.model, 0x1234, 0x56, 0x78, "last report");
  c.label(f.model.empty() ? "ends empty" : f.model.size() == 1 ? "ends with one" : "ends with several");
  g_limit = 0;
}
}  // namespace
SUB(P50, history, 2, 3000, "1..40 registrations, re-registrations, de-registrations (also of unknown and null objects, by null callback, resets) over 1..12 objects with any old content, released objects freed; every report reaches the model's registrations in order with values and context; non-trivial: a report to two or more after a re-registration or removal") { history(c, false); }
SUB(P50, inside, 1, 2000, "the same histories where a callback itself removes, replaces or nulls one registration during delivery: callbacks whose turn is still to come see the change, the others are called exactly once; non-trivial: a registered object was changed during delivery") { history(c, true); }

// ---------------------------------------------------------------- P51
namespace {
std::string base_model(const std::string &p) {
  if (p.empty()) return "";
  size_t e = p.find_last_not_of('/');
  if (e == std::string::npos) return "/";
  size_t b = p.find_last_of('/', e);
  return p.substr(b == std::string::npos ? 0 : b + 1, e - (b == std::string::npos ? 0 : b + 1) + 1);
}
}  // namespace
SUB(P51, shorten, 2, 3000, "paths of 0..400 bytes of slashes, dots, letters and any other byte, exact-size buffers; result is the model's last component and lies inside the path (or is a constant), agrees with POSIX basename for non-empty paths, and shortening the result again changes nothing; non-trivial: slash-containing path with a component") {
  std::string p;
  int n = (int)(c.chance(1, 20) ? c.size(0, 400) : c.size(0, 20));
  for (int i = 0; i < n; i++) {
    int k = (int)c.draw(3);
    p += k == 0 ? '/' : k == 1 ? (char)('a' + c.draw(25)) : k == 2 ? '.' : (char)(1 + c.draw(254));
  }
  Buf b(p.size() + 1), b2(p.size() + 1);
  memcpy(b.p, p.c_str(), p.size() + 1);
  memcpy(b2.p, p.c_str(), p.size() + 1);
  std::string want = base_model(p);
  c.note("\"%s\"", p.c_str());
  c.nontrivial(p.find('/') != std::string::npos && want != "/" && want.size() > 0);
  c.label(p.empty() ? "empty" : want == "/" ? "slashes" : p.back() == '/' ? "trailing slash" : "plain");
  const char *r = truncate_path_((char *)b.p);
  CHECK(r != nullptr, "null result");
  std::string got = r;
  CHECK(got == want, "\"%s\" shortens to \"%s\", not \"%s\"", p.c_str(), got.c_str(), want.c_str());
  if (!p.empty()) { const char *q = ::basename((char *)b2.p); CHECK(got == q, "\"%s\" shortens to \"%s\", basename \"%s\"", p.c_str(), got.c_str(), q); }
  Buf b3(got.size() + 1);
  memcpy(b3.p, got.c_str(), got.size() + 1);
  const char *again = truncate_path_((char *)b3.p);
  CHECK(got == again, "shortening twice gives \"%s\", then \"%s\"", got.c_str(), again);
}

namespace {
struct Msg { int sink, level, line; std::string file, text; };
std::vector<Msg> g_msgs;
std::string fmt(const char *m, va_list a) { char t[2048]; vsnprintf(t, sizeof t, m, a); return t; }
#define SINK(k)                                                                                        \
  void sink##k(int level, const char *m, ...) { va_list a; va_start(a, m); g_msgs.push_back({k, level, -1, "", fmt(m, a)}); va_end(a); } \
  void dsink##k(int level, const char *file, const int line, const char *m, ...) { va_list a; va_start(a, m); g_msgs.push_back({k, level, line, file, fmt(m, a)}); va_end(a); }
SINK(1) SINK(2) SINK(3)
const pfn_log sinks[3] = {sink1, sink2, sink3};
const pfn_detailed_log dsinks[3] = {dsink1, dsink2, dsink3};
const char *const level_names[8] = {"EMERGENCY", "ALERT", "CRITICAL", "ERROR", "WARNING", "NOTICE", "INFO", "DEBUG"};

// call sites as other source files would have them
struct Site { const char *file; int line; void (*emit)(int level, const char *s, int v); };
#define EMIT                                                                                           \
  switch (level) {                                                                                     \
    case 0: detailed_log_emerg("%s|%d", s, v); break; case 1: detailed_log_alert("%s|%d", s, v); break; \
    case 2: detailed_log_crit("%s|%d", s, v); break; case 3: detailed_log_error("%s|%d", s, v); break;  \
    case 4: detailed_log_warn("%s|%d", s, v); break; case 5: detailed_log_notice("%s|%d", s, v); break; \
    case 6: detailed_log_info("%s|%d", s, v); break; default: detailed_log_debug("%s|%d", s, v); break; \
  }
// clang-format off
void emit_a(int level, const char *s, int v) {
#line 77 "/home/user/project/src/main.c"
  EMIT
}
void emit_b(int level, const char *s, int v) {
#line 1 "plain.c"
  EMIT
}
void emit_c(int level, const char *s, int v) {
#line 65000 "../odd//dir.d/with spaces/x"
  EMIT
}
#line 240 "checks/misc.cc"
// clang-format on
const Site sites[3] = {{"main.c", 77, emit_a}, {"plain.c", 1, emit_b}, {"x", 65000, emit_c}};
void emit(int level, const char *s, int v) {
  switch (level) {
    case 0: log_emerg("%s|%d", s, v); break; case 1: log_alert("%s|%d", s, v); break;
    case 2: log_crit("%s|%d", s, v); break; case 3: log_error("%s|%d", s, v); break;
    case 4: log_warn("%s|%d", s, v); break; case 5: log_notice("%s|%d", s, v); break;
    case 6: log_info("%s|%d", s, v); break; default: log_debug("%s|%d", s, v); break;
  }
}
// what the default sink writes to the standard error stream
struct Capture {
  int keep, mem;
  Capture() {
    fflush(stderr);
    keep = dup(2);
    mem = memfd_create("stderr", 0);
    if (mem >= 0) dup2(mem, 2);
  }
  std::string end() {
    fflush(stderr);
    std::string s;
    if (mem >= 0) {
      off_t n = lseek(mem, 0, SEEK_END);
      s.resize((size_t)n);
      if (n > 0 && pread(mem, &s[0], (size_t)n, 0) != n) s.clear();
      close(mem);
      mem = -1;
    }
    if (keep >= 0) { dup2(keep, 2); close(keep); keep = -1; }
    return s;
  }
  ~Capture() { end(); }
};
void restore_logs() { silence_logs(); g_level = 6; g_msgs.clear(); }
struct Restore { ~Restore() { restore_logs(); } };
}  // namespace
SUB(P51, sinks, 2, 2000, "1..25 sink installations, returns to the default and messages (plain and with file and line, every level, verbosity threshold, text with any bytes) through the log macros: each message reaches exactly the sink installed last with level, base file name, line and text, or the standard error stream in the documented form by default, and nothing above the threshold is emitted; non-trivial: a message after two or more changes") {
  Restore r;
  logging_set_implementation(nullptr, nullptr);
  int cur = 0, changes = 0, ops = (int)c.size(1, 25);
  for (int o = 0; o < ops; o++) {
    int k = (int)c.draw(4);
    if (k == 0) {
      cur = (int)c.draw(3);
      c.note("sink %d", cur);
      logging_set_implementation(cur ? sinks[cur - 1] : nullptr, cur ? dsinks[cur - 1] : nullptr);
      changes++;
    } else if (k == 1) {
      g_level = (int)c.range(-1, 8);
      c.note("threshold %d", g_level);
    } else {
      int level = (int)c.draw(7), v = (int)(int32_t)c.u32();
      bool detailed = c.coin();
      const Site &site = sites[c.draw(2)];
      std::string text;
      int n = (int)c.size(0, 60);
      for (int i = 0; i < n; i++) text += (char)(c.coin() ? 'a' + c.draw(25) : c.chance(1, 4) ? '%' : 1 + c.draw(254));
      char num[16];
      snprintf(num, sizeof num, "|%d", v);
      std::string want = text + num;
      bool on = g_level >= level;
      c.note("%s level %d \"%s\"", detailed ? site.file : "plain", level, want.c_str());
      g_msgs.clear();
      std::string err;
      {
        Capture cap;
        if (detailed) site.emit(level, text.c_str(), v); else emit(level, text.c_str(), v);
        err = cap.end();
      }
      c.nontrivial(on && changes >= 2);
      if (!on) { CHECK(g_msgs.empty() && err.empty(), "message of level %d passes the threshold %d", level, g_level); continue; }
      if (cur) {
        CHECK(err.empty(), "message for sink %d also on the standard error stream", cur);
        CHECK(g_msgs.size() == 1, "%zu messages instead of one", g_msgs.size());
        const Msg &m = g_msgs[0];
        CHECK(m.sink == cur, "message reached sink %d, not %d", m.sink, cur);
        CHECK(m.level == level, "level %d, not %d", m.level, level);
        CHECK(m.text == want, "text \"%s\", not \"%s\"", m.text.c_str(), want.c_str());
        CHECK(m.line == (detailed ? site.line : -1), "line %d", m.line);
        if (detailed) CHECK(m.file == site.file, "file \"%s\", not \"%s\"", m.file.c_str(), site.file);
      } else {
        CHECK(g_msgs.empty(), "message reached sink %d after the default was restored", g_msgs.empty() ? 0 : g_msgs[0].sink);
        std::string line = std::string(level_names[level]) + ": " + want + "\n";
        if (detailed) line = std::string("(lsn::") + site.file + ":" + std::to_string(site.line) + ") " + line;
        CHECK(err == line, "standard error holds \"%s\", not \"%s\"", err.c_str(), line.c_str());
      }
    }
  }
}

namespace {
#define SID_SITE(L)                                                                                   \
  switch (nargs) {                                                                                    \
    case 0: L(sid, "plain text"); break;                                                              \
    case 1: L(sid, "%d", a[0]); break;                                                                \
    case 2: L(sid, "%s|%d", t, a[0]); break;                                                          \
    case 3: L(sid, "%s|%d|%d", t, a[0], a[1]); break;                                                 \
    case 6: L(sid, "%d%%%d,%d,%d,%d,%d", a[0], a[1], a[2], a[3], a[4], a[5]); break;                  \
    default: L(sid, "%d,%d,%d,%d,%d,%d,%d,%d,%d,%d,%d,%d,%s", a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], t); break; \
  }
#define SID_LEVELS                                                                                    \
  if (detailed) switch (level) {                                                                      \
    case 3: SID_SITE(detailed_log_error_sid) break; case 4: SID_SITE(detailed_log_warn_sid) break;    \
    case 6: SID_SITE(detailed_log_info_sid) break; default: SID_SITE(detailed_log_debug_sid) break;   \
  } else switch (level) {                                                                             \
    case 3: SID_SITE(log_error_sid) break; case 4: SID_SITE(log_warn_sid) break;                      \
    case 6: SID_SITE(log_info_sid) break; default: SID_SITE(log_debug_sid) break;                     \
  }
void emit_sid(bool detailed, int level, gnss_signal_t sid, int nargs, const int *a, const char *t) {
#line 4711 "/some/where/track.c"
  SID_LEVELS
}
#line 329 "checks/misc.cc"
}  // namespace
SUB(P51, signals, 1, 2000, "messages about a signal (any valid or unknown one, error to debug level, plain and with file and line, 0..13 arguments, any threshold) through the signal log macros: the sink receives the signal's text, a space and the formatted message; non-trivial: message within the threshold") {
  Restore r;
  int cur = 1 + (int)c.draw(2);
  logging_set_implementation(sinks[cur - 1], dsinks[cur - 1]);
  g_level = (int)c.range(2, 8);
  bool detailed = c.coin();
  int level = (int)c.pick({3, 4, 6, 7}), nargs = (int)c.pick({0, 1, 2, 3, 6, 13});
  gnss_signal_t sid;
  memset(&sid, 0, sizeof sid);
  sid.code = (code_t)(c.chance(1, 16) ? (int)c.pick({-1, 64}) : (int)c.draw(63));
  sid.sat = (u16)(c.chance(1, 8) ? c.draw(65535) : c.draw(210));
  int a[12];
  for (int &x : a) x = (int)(int32_t)c.u32();
  std::string t;
  int n = (int)c.size(0, 40);
  for (int i = 0; i < n; i++) t += (char)(c.coin() ? 'a' + c.draw(25) : c.chance(1, 4) ? '%' : 1 + c.draw(254));
  char name[SID_STR_LEN_MAX], want[1024];
  sid_to_string(name, sizeof name, sid);
  int k = snprintf(want, sizeof want, "%s ", name);
  char *p = want + k;
  size_t m = sizeof want - (size_t)k;
  switch (nargs) {
    case 0: snprintf(p, m, "plain text"); break;
    case 1: snprintf(p, m, "%d", a[0]); break;
    case 2: snprintf(p, m, "%s|%d", t.c_str(), a[0]); break;
    case 3: snprintf(p, m, "%s|%d|%d", t.c_str(), a[0], a[1]); break;
    case 6: snprintf(p, m, "%d%%%d,%d,%d,%d,%d", a[0], a[1], a[2], a[3], a[4], a[5]); break;
    default: {
      std::string s;
      for (int i = 0; i < 12; i++) s += std::to_string(a[i]) + ",";
      snprintf(p, m, "%s%s", s.c_str(), t.c_str());
    }
  }
  c.note("code %d sat %u level %d of %d, %d arguments%s", (int)sid.code, sid.sat, level, g_level, nargs, detailed ? ", detailed" : "");
  c.label(detailed ? "with file and line" : "plain");
  g_msgs.clear();
  emit_sid(detailed, level, sid, nargs, a, t.c_str());
  bool on = g_level >= level;
  c.nontrivial(on);
  CHECK(g_msgs.size() == (on ? 1u : 0u), "%zu messages at level %d, threshold %d", g_msgs.size(), level, g_level);
  if (!on) return;
  const Msg &q = g_msgs[0];
  CHECK(q.sink == cur && q.level == level, "sink %d level %d", q.sink, q.level);
  CHECK(q.text == want, "text \"%s\", not \"%s\"", q.text.c_str(), want);
  if (detailed) CHECK(q.file == "track.c" && q.line == 4711, "site %s:%d", q.file.c_str(), q.line);
}

namespace {
int g_runs;
void limited_step(u32 tow) { LOG_RATE_LIMIT(tow, g_runs++); }
}  // namespace
SUB(P51, rate, 1, 2000, "1..60 calls of the rate limiter with steady, jumping, repeated and wrapping tic counts: it runs its command at the first call and then exactly when LOG_RATE_THRESH tics have passed since it last did; non-trivial: some calls run and some do not after the first") {
  // bring the static state to "never run"
  limited_step(0); limited_step(0x80000000u); limited_step(0xFFFFFFFFu);
  u32 last = 0xFFFFFFFFu, t = c.u32();
  int n = (int)c.size(1, 60), ran = 0, held = 0;
  for (int i = 0; i < n; i++) {
    int k = (int)c.draw(4);
    if (i) t = k == 0 ? t + (u32)c.draw(400) : k == 1 ? last + LOG_RATE_THRESH - 1 + (u32)c.draw(2) : k == 2 ? t : k == 3 ? t + (u32)c.draw(1999) : c.u32();
    bool want = last == 0xFFFFFFFFu || (u32)(t - last) >= LOG_RATE_THRESH;
    g_runs = 0;
    limited_step(t);
    c.note("%u: %d", t, g_runs);
    CHECK(g_runs == (want ? 1 : 0), "at %u, last run at %u: ran %d times", t, last, g_runs);
    if (want) { last = t; if (i) ran++; } else held++;
  }
  c.nontrivial(ran && held);
}
namespace {
int g_every[5];
// one call site per period, as the counters belong to the site
void every_step(int i) {
  switch (i) {
    case 0: DO_EVERY(1, g_every[0]++); break;
    case 1: DO_EVERY(2, g_every[1]++); break;
    case 2: DO_EVERY(7, g_every[2]++); break;
    case 3: DO_EVERY(60, g_every[3]++); break;
    default: DO_EVERY(0, g_every[4]++); break;
  }
}
uint64_t g_calls_at[5];
}  // namespace
SUB(P51, every, 0.3, 500, "1..300 calls of the every-nth-call helper at sites of period 1, 2, 7, 60 and 0, interleaved: each site runs its command at calls 0, n, 2n, ... of its own and never for period 0; non-trivial: a site with period above 1 both runs and holds") {
  static const int per[5] = {1, 2, 7, 60, 0};
  int n = (int)c.size(1, 300), ran = 0, held = 0;
  int sites_used = 1 + (int)c.draw(4);
  for (int k = 0; k < 4; k++) while (g_calls_at[k] % (uint64_t)per[k]) { every_step(k); g_calls_at[k]++; }  // every case starts in phase
  for (int i = 0; i < n; i++) {
    int k = (int)c.draw(sites_used - 1);
    if (c.chance(1, 8)) k = 4;
    bool want = per[k] && g_calls_at[k] % (uint64_t)per[k] == 0;
    memset(g_every, 0, sizeof g_every);
    every_step(k);
    g_calls_at[k]++;
    int sum = 0;
    for (int x : g_every) sum += x;
    if (k >= 1 && k <= 3) (want ? ran : held)++;
    CHECK(g_every[k] == (want ? 1 : 0) && sum == g_every[k], "call %d: site of period %d ran %d times", i, per[k], g_every[k]);
  }
  c.nontrivial(ran && held);
}
