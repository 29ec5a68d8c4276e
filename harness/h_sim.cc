// C21: the stand-alone simulator. Generated scripts are read by the real script reader and run by the
// real simulator loop. In clock mode time is virtual: the loop's clock, interval timer and signal wait
// are the harness's, which delivers commands and lookups wherever it likes, late timer signals
// included. In race mode several threads send commands to a simulator running on real timers.
// A recording relay notes what is sent and when; the script says what should have been.
#include "vcommon.hh"
#include "plexil-config.h"
#include "Agenda.hh"
#include "CommandHandle.hh"
#include "CommandResponseManager.hh"
#include "CommRelayBase.hh"
#include "Debug.hh"
#include "Error.hh"
#include "PlexilSimResponseFactory.hh"
#include "ResponseFactory.hh"
#include "ResponseMessage.hh"
#include "Simulator.hh"
#include "SimulatorScriptReader.hh"
#include "Value.hh"
#include <algorithm>
#include <atomic>
#include <cmath>
#include <csignal>
#include <functional>
#include <iostream>
#include <memory>
#include <mutex>
#include <thread>
#include <dlfcn.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>
using namespace PLEXIL;
using vc::Rng;
static vc::Report R;
static std::string dir;

// ---------------------------------------------------------------- virtual time
struct World;
static World *W = nullptr;
static bool virt = false;
struct World {
  Rng r{1};
  int64_t now = 0;             // µs
  int64_t armed = 0;           // expiry, 0 = none
  bool pending = false;        // expired, signal not yet taken
  long waits = 0, lateTimers = 0, idle = 0;
  std::function<bool()> deliver;             // deliver what is due now; false if nothing
  std::function<int64_t()> nextArrival;      // -1 = none
  void tick() { now += r.below(8); expire(); }
  void expire() { if (armed && armed <= now) { armed = 0; pending = true; } }
  int wait() {
    ++waits;
    for (;;) {
      int64_t a = nextArrival();
      if (pending) {
        // Perhaps more arrives before the signal is taken
        if (a >= 0 && a <= now + 200 && r.chance(40)) { now = std::max(now, a); ++lateTimers; deliver(); continue; }
        if (r.chance(30)) { now += r.below(300); ++lateTimers; }
        pending = false;
        return SIGALRM;
      }
      if (armed && (a < 0 || armed <= a)) { now = armed; expire(); continue; }
      if (a < 0) return SIGTERM;
      now = std::max(now, a); expire();
      if (pending && r.chance(50)) continue;
      deliver();
    }
  }
};
extern "C" {
int gettimeofday(struct timeval *tv, void *tz) noexcept {
  if (!virt) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0; }
  W->tick(); tv->tv_sec = W->now / 1000000; tv->tv_usec = W->now % 1000000; return 0;
}
int setitimer(__itimer_which_t w, const struct itimerval *v, struct itimerval *o) noexcept {
  if (!virt) { static auto f = (int (*)(int, const struct itimerval *, struct itimerval *))dlsym(RTLD_NEXT, "setitimer"); return f(w, v, o); }
  if (v->it_value.tv_sec < 0 || v->it_value.tv_usec < 0 || v->it_value.tv_usec > 999999) { R.viol("timer", "the interval timer was given an invalid time"); errno = EINVAL; return -1; }
  int64_t d = v->it_value.tv_sec * 1000000ll + v->it_value.tv_usec;
  W->expire();
  W->armed = d ? W->now + d : 0;
  return 0;
}
int getitimer(__itimer_which_t w, struct itimerval *v) noexcept {
  if (!virt) { static auto f = (int (*)(int, struct itimerval *))dlsym(RTLD_NEXT, "getitimer"); return f(w, v); }
  W->tick(); memset(v, 0, sizeof *v);
  if (W->armed) { int64_t d = W->armed - W->now; v->it_value.tv_sec = d / 1000000; v->it_value.tv_usec = d % 1000000; }
  return 0;
}
int sigwait(const sigset_t *s, int *sig) {
  if (!virt) { static auto f = (int (*)(const sigset_t *, int *))dlsym(RTLD_NEXT, "sigwait"); return f(s, sig); }
  *sig = W->wait(); return 0;
}
}

// ---------------------------------------------------------------- scripts
enum T { B, I, RE, S, H };
static char const *tn[] = {"Boolean", "Integer", "Real", "String", ""};
struct Tele { std::string name; int64_t at; Value v; };
struct Rep { bool any = false; int64_t delay = 0; Value v; };
struct Cmd { std::string name; T t = RE; std::map<long, Rep> reps; bool hasDef = false; Rep def; long seen = 0; };
struct Script { std::vector<Tele> tele; std::vector<Cmd> cmds; std::vector<std::string> names; std::vector<std::string> text; bool telemetryFile = false; };

static std::string num(double d) { char b[64]; snprintf(b, sizeof b, "%.17g", d); return b; }
static Value value(Rng &r, T t, std::string &text) {
  if (t != S && t != H && r.chance(12)) { text = "UNKNOWN"; return Value(); }
  switch (t) {
  case B: { bool b = r.chance(50); static char const *tt[] = {"true", "1", "TRUE", "True"}, *ff[] = {"false", "0", "FALSE", "False"}; text = b ? tt[r.below(4)] : ff[r.below(4)]; return Value(b); }
  case I: { Integer i = r.chance(15) ? (r.chance(50) ? INT32_MAX : INT32_MIN) : r.range(-60, 60); text = std::to_string(i); return Value(i); }
  case RE: { double d = r.chance(20) ? r.unit() * 1e9 - 5e8 : r.range(-400, 400) * 0.25; text = d == (long)d && r.chance(40) ? std::to_string((long)d) : num(d); return Value((Real)d); }
  case S: { static std::vector<std::string> w = {"a", "x y", "\"quoted\"", "-1", "true", "COMMAND_SUCCESS", "a # b", "-", "Hello, World", "\"", "'q' z", "UNKNOWN", "it's 5"}; text = r.pick(w); if (r.chance(30)) text += std::to_string(r.below(100)); return Value(text); }
  default: { static std::vector<CommandHandleValue> h = {COMMAND_ACCEPTED, COMMAND_SUCCESS, COMMAND_RCVD_BY_SYSTEM, COMMAND_FAILED, COMMAND_DENIED, COMMAND_SENT_TO_SYSTEM}; auto x = r.pick(h); text = commandHandleValueName(x); return Value(x); }
  }
}
// A delay and how it is written
static int64_t delayOf(Rng &r, std::string &text, bool race) {
  int64_t us;
  if (race) us = r.range(0, 15) * 1000;
  else us = r.chance(15) ? 0 : r.chance(30) ? r.range(1, 4) * 1000000ll : r.chance(30) ? r.range(1, 20) * 100000ll : r.chance(40) ? r.range(1, 3000) * 1000ll : (int64_t)r.range(1, 3000000);
  char b[64];
  if (us % 1000000 == 0 && r.chance(50)) snprintf(b, sizeof b, "%lld", (long long)(us / 1000000));
  else if (us % 100000 == 0 && r.chance(60)) snprintf(b, sizeof b, "%.1f", us / 1e6);
  else snprintf(b, sizeof b, "%.6f", us / 1e6);
  text = b; return us;
}
static void noise(Rng &r, std::string &o) {
  while (r.chance(25)) { static std::vector<std::string> n = {"\n", "# comment\n", "   \n", "  # x 1.0\n", "#\n", "\t\n"}; o += r.pick(n); }
}
static Script gen(Rng &r, std::string const &id, bool race) {
  Script s;
  int style = r.below(race ? 2 : 4);   // 0,1 declared; 2 sections; 3 old command file, with a telemetry file
  std::vector<std::string> blocks, decls, teleBlocks;
  int nc = r.range(race ? 2 : 0, 4), nt = r.range(0, 4);
  static std::vector<std::string> cn = {"Move", "take-sample", "Look_1", "Integerish", "X", "q.r"}, ln = {"pos", "temp-1", "Sun", "Lookup1", "x", "y"};
  for (int i = 0; i < nc; ++i) {
    Cmd c; c.name = cn[i] + id; c.t = style >= 2 ? RE : (T)r.below(5);
    if (style < 2) decls.push_back(c.t == H ? "Command " + c.name + "\n" : std::string(tn[c.t]) + (r.chance(30) ? "  " : " ") + "Command " + c.name + "\n");
    int k = r.range(c.t == H && r.chance(20) ? 0 : 1, 4);
    std::set<long> idx; for (int j = 0; j < k; ++j) idx.insert(r.chance(30) ? 0 : r.range(1, 6));
    for (long n : idx) {
      Rep p; std::string d, v; p.delay = delayOf(r, d, race); p.any = !r.chance(12);
      p.v = value(r, c.t != S && r.chance(20) ? H : c.t, v);
      std::string o; noise(r, o);
      o += (r.chance(10) ? "  " : "") + c.name + " " + std::to_string(n) + " " + (p.any ? "1" : "0") + (r.chance(10) ? "   " : " ") + d + "\n"; noise(r, o); o += v + "\n";
      blocks.push_back(o);
      if (n == 0) { c.hasDef = true; c.def = p; } else c.reps[n] = p;
    }
    s.cmds.push_back(c); if (r.chance(15)) s.names.push_back(c.name);
  }
  for (int i = 0; i < nt; ++i) {
    std::string name = ln[i] + id; T t = style >= 2 ? RE : (T)r.below(4);
    if (style < 2) decls.push_back(std::string(tn[t]) + " Lookup " + name + "\n");
    int k = r.range(0, 5);
    for (int j = 0; j < k; ++j) {
      Tele x; x.name = name; std::string d, v; x.at = delayOf(r, d, race);
      if (!s.tele.empty() && r.chance(15)) { x.at = s.tele[r.below((int)s.tele.size())].at; d = num(x.at / 1e6); }
      x.v = value(r, t, v);
      std::string o; noise(r, o); o += name + " " + d + "\n"; noise(r, o); o += v + "\n";
      (style >= 2 ? teleBlocks : blocks).push_back(o); s.tele.push_back(x);
    }
    s.names.push_back(name);
  }
  auto shuffle = [&](std::vector<std::string> &v) { for (int i = (int)v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below(i)]); };
  shuffle(decls); shuffle(blocks); shuffle(teleBlocks);
  std::string o;
  if (style < 2) {
    for (auto &d : decls) { noise(r, o); o += d; }
    for (auto &b : blocks) o += b;
    noise(r, o); s.text.push_back(o);
  } else if (style == 2) {
    // Sections in any order and number
    std::vector<std::string> secs;
    for (size_t i = 0; i < blocks.size();) { std::string x = "BEGIN_COMMANDS\n"; int n = r.range(1, 4); while (n-- && i < blocks.size()) x += blocks[i++]; secs.push_back(x); }
    for (size_t i = 0; i < teleBlocks.size();) { std::string x = "BEGIN_TELEMETRY\n"; int n = r.range(1, 4); while (n-- && i < teleBlocks.size()) x += teleBlocks[i++]; secs.push_back(x); }
    shuffle(secs);
    for (auto &x : secs) { noise(r, o); o += x; }
    s.text.push_back(o);
  } else {
    for (auto &b : blocks) o += b;
    s.text.push_back(o); o.clear();
    for (auto &b : teleBlocks) o += b;
    s.text.push_back(o); s.telemetryFile = true;
  }
  for (auto &t : s.text) if (!t.empty() && t.back() == '\n' && r.chance(35)) { t.pop_back(); if (t.empty()) t = "\n"; }
  return s;
}

// ---------------------------------------------------------------- monitor
struct Exp { std::string name; int64_t lo = 0, due = 0; Value v; bool cmd = false; int got = 0; };
static bool sameV(Value const &a, Value const &b) {
  if (!a.isKnown() || !b.isKnown()) return a.isKnown() == b.isKnown();
  return a.valueType() == b.valueType() && a == b;
}
static std::string show(Value const &v) { std::ostringstream s; s << valueTypeName(v.valueType()) << " " << v; return s.str(); }

struct Sent { int64_t at; int type; std::string name; Value v; void *id; };
struct Relay : CommRelayBase {
  std::mutex mx; std::vector<Sent> sent; std::function<int64_t()> clock; std::function<void(Sent const &)> hook;
  std::atomic<long> count{0};
  Relay() : CommRelayBase("verif") {}
  void sendResponse(ResponseMessage const *m) override {
    Sent s{clock(), m->getMessageType(), m->getName(), m->getValue(), m->getId()};
    { std::lock_guard<std::mutex> g(mx); sent.push_back(s); }
    delete m; ++count;
    if (hook) hook(s);
  }
};
static int64_t realNow() { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); return t.tv_sec * 1000000ll + t.tv_nsec / 1000; }

static std::unique_ptr<Simulator> load(Script const &s, Relay &relay, std::string &err) {
  auto *map = new ResponseManagerMap(); Agenda *ag = makeAgenda();
  std::unique_ptr<SimulatorScriptReader> rd(makeScriptReader(map, ag, makePlexilSimResponseFactory()));
  for (size_t i = 0; i < s.text.size(); ++i) {
    std::string f = dir + "/s" + std::to_string(i); FILE *o = fopen(f.c_str(), "w"); fwrite(s.text[i].data(), 1, s.text[i].size(), o); fclose(o);
    if (!rd->readScript(f, s.telemetryFile && i)) { err = "script " + std::to_string(i) + " refused"; break; }
  }
  std::unique_ptr<Simulator> sim(makeSimulator(&relay, map, ag));
  return sim;
}
static std::string all(Script const &s) { std::string o; for (auto &t : s.text) o += t + "|"; return o; }

// What the script says about this occurrence of the command
static Rep const *reply(Cmd &c) {
  ++c.seen; auto it = c.reps.find(c.seen);
  Rep const *p = it != c.reps.end() ? &it->second : c.hasDef ? &c.def : nullptr;
  return p && p->any ? p : nullptr;
}

static void clockCase(uint64_t seed, bool sample) {
  Rng r(seed); Script s = gen(r, std::to_string(seed % 7), false);
  World w; W = &w; w.r = Rng(seed * 31 + 7); w.now = r.chance(25) ? 1000000ll * r.range(1, 2000000000) : r.range(1, 1000) * 1000003ll * 7;
  Relay relay; relay.clock = [&] { return w.now; };
  std::ostringstream cerrs; auto *old = std::cerr.rdbuf(cerrs.rdbuf());
  std::string err; auto sim = load(s, relay, err);
  std::cerr.rdbuf(old);
  if (!err.empty()) { R.viol("refused", err + ": " + cerrs.str() + " in " + all(s)); W = nullptr; return; }
  // Arrivals of commands and lookups
  struct Arr { int64_t at; int what; };
  std::vector<Arr> arr; int na = r.chance(10) ? 0 : r.range(1, 14); int64_t span = r.pick(std::vector<int64_t>{2000, 500000, 4000000});
  std::vector<int64_t> seedTimes; for (auto &t : s.tele) seedTimes.push_back(t.at);
  for (int i = 0; i < na; ++i) {
    int64_t t = !seedTimes.empty() && r.chance(25) ? std::max<int64_t>(0, r.pick(seedTimes) + r.range(-30, 30)) : (int64_t)(r.unit() * span);
    if (i && r.chance(25)) t = arr[r.below(i)].at;
    arr.push_back({t, (int)r.next() & 0xffff});
  }
  std::sort(arr.begin(), arr.end(), [](Arr const &a, Arr const &b) { return a.at < b.at; });
  std::vector<std::unique_ptr<Exp>> exps; std::map<std::string, std::pair<bool, Value>> last; long nLookup = 0, known = 0, noReply = 0, early = 0, nested = 0;
  int64_t start = -1; uint64_t sg = seed % 2;
  auto issue = [&](bool before) {
    if (r.chance(8) || s.cmds.empty()) {  // nobody knows this one
      std::string n = r.chance(30) && !s.tele.empty() ? s.tele[0].name : "Nobody" + std::to_string(r.below(5));
      for (auto &c : s.cmds) if (c.name == n) return;
      auto *e = new Exp; exps.emplace_back(e); e->cmd = true; e->got = -1; e->name = n; ++noReply;
      if (sim->scheduleResponseForCommand(n, e)) R.viol("reply", "a reply is promised to the unknown command " + n);
      return;
    }
    Cmd &c = s.cmds[r.below((int)s.cmds.size())];
    Rep const *p = reply(c);
    auto *e = new Exp; exps.emplace_back(e); e->cmd = true; e->name = c.name;
    if (p) { e->v = p->v; e->lo = (before ? 0 : w.now) + p->delay; } else { e->got = -1; ++noReply; }
    bool got = sim->scheduleResponseForCommand(c.name, e);
    if (p) e->due = (before ? 0 : w.now) + p->delay;
    if (got != !!p) R.viol("reply", std::string("command ") + c.name + " number " + std::to_string(c.seen) + (p ? " gets no reply" : " gets a reply") + " in " + all(s));
    if (before && p) e->lo = e->due = -1 - p->delay;   // relative to the start
    sg = vc::mix(sg, c.seen * 8 + !!p);
  };
  auto lookup = [&] {
    std::string n = s.names.empty() || r.chance(10) ? "none" : s.names[r.below((int)s.names.size())];
    int mark; std::unique_ptr<ResponseMessage> m(sim->getLookupNowResponse(n, &mark));
    ++nLookup; auto it = last.find(n);
    if (it == last.end()) { if (m) R.viol("lookup", "lookup of " + n + " before any telemetry got " + show(m->getValue())); return; }
    ++known;
    if (!m) { R.viol("lookup", "lookup of " + n + " got nothing although telemetry was sent"); return; }
    if (m->getName() != n || m->getId() != &mark || m->getMessageType() != MSG_LOOKUP || !sameV(m->getValue(), it->second.second))
      R.viol("lookup", "lookup of " + n + " got " + m->getName() + " " + show(m->getValue()) + " instead of " + show(it->second.second));
  };
  size_t at = 0; int nb = r.chance(30) ? r.range(1, 3) : 0;
  for (int i = 0; i < nb; ++i) { issue(true); ++early; }
  if (r.chance(30)) lookup();
  w.nextArrival = [&]() -> int64_t { return at < arr.size() ? start + arr[at].at : -1; };
  w.deliver = [&] { if (at >= arr.size()) return false; int k = arr[at++].what; if (k % 3 == 0) lookup(); else issue(false); return true; };
  relay.hook = [&](Sent const &x) {
    if (x.type == MSG_TELEMETRY) last[x.name] = {true, x.v};
    if (r.chance(6) && !s.cmds.empty() && nested < 4) { ++nested; issue(false); }
    if (r.chance(10)) lookup();
  };
  // The start is the first time the loop reads the clock
  virt = true; start = w.now; int64_t begun = w.now;
  sim->simulatorTopLevel();
  virt = false;
  // Judge
  const int64_t SLACK = 2000;
  for (auto &t : s.tele) { auto *e = new Exp; exps.emplace_back(e); e->name = t.name; e->v = t.v; e->lo = begun + t.at; e->due = begun + 10 + t.at; }
  for (auto &e : exps) if (e->cmd && e->got == 0 && e->due < 0) { int64_t d = -1 - e->due; e->lo = begun + d; e->due = begun + 10 + d; }
  int64_t prevDue = INT64_MIN;
  for (auto &x : relay.sent) {
    Exp *e = nullptr;
    if (x.type == MSG_COMMAND) { for (auto &p : exps) if (p.get() == x.id) e = p.get(); if (!e) { R.viol("sent", "a reply to nobody: " + x.name); continue; } }
    else if (x.type == MSG_TELEMETRY) {
      // The same telemetry may be due more than once
      for (int pass = 0; pass < 3 && !e; ++pass)
        for (auto &p : exps) if (!p->cmd && p->name == x.name && (pass == 2 ? !p->got : p->got == 0 && sameV(p->v, x.v)) && (pass || (p->lo - 2 <= x.at && x.at <= p->due + SLACK))) if (!e || p->lo < e->lo) e = p.get();
      if (!e) { R.viol("sent", "telemetry nobody asked for: " + x.name + " " + show(x.v) + " in " + all(s)); continue; }
    } else { R.viol("sent", "message of unexpected type"); continue; }
    if (e->got) { R.viol("sent", (e->got < 0 ? "a reply to a command that has none: " : "sent twice: ") + x.name); continue; }
    e->got = 1;
    if (x.name != e->name) R.viol("sent", "sent as " + x.name + " instead of " + e->name);
    if (!sameV(x.v, e->v)) R.viol("value", x.name + " sent with " + show(x.v) + " instead of " + show(e->v) + " in " + all(s));
    if (x.at < e->lo - 2) R.viol("early", x.name + " sent " + std::to_string(e->lo - x.at) + " us early in " + all(s));
    if (x.at > e->due + SLACK) R.viol("late", x.name + " sent " + std::to_string(x.at - e->due) + " us late in " + all(s));
    if (e->due + 30 < prevDue) R.viol("order", x.name + " sent after something due " + std::to_string(prevDue - e->due) + " us later");
    prevDue = std::max(prevDue, e->lo);
    R.add(x.type == MSG_COMMAND ? "replies" : "telemetry"); if (!e->v.isKnown()) R.add("unknown_values");
    sg = vc::mix(sg, vc::hashStr(x.name.substr(0, 3)) + (x.at / 50000));
  }
  for (auto &e : exps) if (e->got == 0) R.viol("lost", (e->cmd ? "no reply was sent to " : "telemetry not sent: ") + e->name + " due " + std::to_string((e->due - begun) / 1e6) + " s after the start in " + all(s));
  R.add("cases"); R.add("lookups", nLookup); R.add("lookups_answered", known); R.add("no_reply", noReply); R.add("before_start", early); R.add("nested", nested); R.add("late_timers", w.lateTimers); R.add("signal_waits", w.waits);
  R.sig(sg); if (sample) R.sample(all(s));
  relay.hook = nullptr; W = nullptr;
}

// ---------------------------------------------------------------- broken scripts
static void badCase(uint64_t seed) {
  Rng r(seed); std::string id = "b";
  // A good script followed by one bad entry, at any place entries may stand
  struct Bad { char const *what; std::string text; };
  std::vector<Bad> bad = {
    {"integer value", "i 1.0\n3.5\n"}, {"integer text", "i 1.0\nfive\n"}, {"integer range", "i 1.0\n2147483648\n"}, {"boolean", "b 1.0\nyes\n"}, {"real", "x 1.0\n1.0abc\n"}, {"real text", "x 1.0\nfast\n"},
    {"undeclared", "nosuch 1.0\n5\n"}, {"delay", "x soon\n5\n"}, {"no delay", "x\n5\n"}, {"no value", "x 1.0"}, {"no value newline", "x 1.0\n"}, {"no value comment", "x 1.0\n# 5\n"},
    {"index", "C one 1 0.5\n5\n"}, {"count", "C 1 one 0.5\n5\n"}, {"command delay", "C 1 1 x\n5\n"}, {"missing delay", "C 1 1\n5\n"}, {"command value", "C 1 1 0.5\nfive\n"}, {"command no value", "C 1 1 0.5\n"}, {"handle", "N 1 1 0.5\nCOMMAND_SUCCEEDED\n"}, {"handle value", "N 1 1 0.5\n5\n"},
    {"telemetry handle", "x 1.0\nCOMMAND_SUCCESS\n"}, {"redeclared", "Real Lookup x\n"}, {"redeclared command", "Integer Command C\n"}, {"declaration", "Real Thing z\n"}, {"array", "IntegerArray Lookup a\na 1.0\n5\n"}, {"boolean number", "b 1.0\n2\n"}, {"integer real", "i 1.0\n1e3\n"},
  };
  auto const &b = bad[r.below((int)bad.size())];
  std::string o = "Real Lookup x\nInteger Lookup i\nBoolean Lookup b\nReal Command C\nCommand N\n";
  auto good = [&](std::string &t) { static std::vector<std::string> g = {"x 1.5\n-2.25\n", "i 2\n7\n", "b 0\ntrue\n", "C 3 1 0.1\n4.5\n", "N 2 1 1\nCOMMAND_SUCCESS\n", "# note\n", "\n"}; int n = r.below(3); while (n--) t += r.pick(g); };
  good(o); o += b.text; std::string w = b.what;
  if (w.find("no value") == std::string::npos) good(o);
  std::string f = dir + "/bad"; FILE *h = fopen(f.c_str(), "w"); fwrite(o.data(), 1, o.size(), h); fclose(h);
  auto map = std::make_unique<ResponseManagerMap>(); std::unique_ptr<Agenda> ag(makeAgenda());
  std::unique_ptr<SimulatorScriptReader> rd(makeScriptReader(map.get(), ag.get(), makePlexilSimResponseFactory()));
  std::ostringstream cerrs; auto *old = std::cerr.rdbuf(cerrs.rdbuf());
  bool ok = rd->readScript(f); bool missing = rd->readScript(dir + "/absent");
  std::cerr.rdbuf(old);
  if (ok) R.viol("accepted", w + " accepted: " + o);
  else if (cerrs.str().empty()) R.viol("accepted", w + " refused without a message");
  if (missing) R.viol("accepted", "a script that does not exist is accepted");
  R.add("refusals"); R.sig(vc::hashStr(w) + o.size());
}

// ---------------------------------------------------------------- races
static void raceCase(uint64_t seed) {
  Rng r(seed); Script s = gen(r, std::to_string(seed % 7), true);
  for (auto &c : s.cmds) { c.reps.clear(); c.hasDef = false; }
  // Replies depend on how often a command was seen, so every thread has its own commands
  struct One { std::string name; std::map<long, Rep> reps; };
  s = Script(); std::string text; int nth = r.range(2, 4), per = r.range(3, 12);
  std::vector<std::vector<Rep>> plan(nth);
  for (int t = 0; t < nth; ++t) {
    std::string n = "cmd" + std::to_string(t); text += "Integer Command " + n + "\n";
  }
  text += "Integer Lookup tick\n";
  for (int t = 0; t < nth; ++t) for (int i = 0; i < per; ++i) {
    Rep p; std::string d; p.delay = delayOf(r, d, true); p.any = true; p.v = Value((Integer)(t * 1000 + i)); plan[t].push_back(p);
    text += "cmd" + std::to_string(t) + " " + std::to_string(i + 1) + " 1 " + d + "\n" + std::to_string(t * 1000 + i) + "\n";
  }
  int nt = r.range(1, 10); for (int i = 0; i < nt; ++i) { Tele x; x.name = "tick"; x.at = i * 2000 + r.below(1500); x.v = Value((Integer)i); s.tele.push_back(x); text += "tick " + num(x.at / 1e6) + "\n" + std::to_string(i) + "\n"; }
  s.text.push_back(text);
  Relay relay; relay.clock = realNow;
  std::string err; auto sim = load(s, relay, err);
  if (!err.empty()) { R.viol("refused", err); return; }
  struct Call { int64_t before = 0, after = 0; };
  std::vector<std::vector<Call>> calls(nth, std::vector<Call>(per));
  std::vector<std::vector<int>> mark(nth, std::vector<int>(per));
  std::atomic<long> answered{0}, backwards{0}; std::atomic<int> go{0};
  int64_t t0 = realNow();
  std::thread top([&] { ++go; sim->simulatorTopLevel(); });
  if (r.chance(60)) usleep(r.below(3000));   // or else commands come in while it is starting
  std::vector<std::thread> th;
  for (int t = 0; t < nth; ++t) th.emplace_back([&, t] {
    Rng q(seed * 17 + t); long lastTick = -1;
    for (int i = 0; i < per; ++i) {
      if (q.chance(60)) usleep(q.below(2500));
      calls[t][i].before = realNow();
      if (!sim->scheduleResponseForCommand("cmd" + std::to_string(t), &mark[t][i])) R.viol("reply", "no reply to a known command");
      calls[t][i].after = realNow();
      std::unique_ptr<ResponseMessage> m(sim->getLookupNowResponse("tick", &mark[t][i]));
      if (m) { Integer v; if (!m->getValue().getValue(v)) ++backwards; else { if (v < lastTick) ++backwards; lastTick = v; } ++answered; }
    }
  });
  for (auto &x : th) x.join();
  long want = (long)nth * per + nt;
  for (int i = 0; i < 10000 && relay.count < want; ++i) usleep(1000);
  usleep(1000);
  kill(getpid(), SIGTERM);
  top.join();
  int64_t end = realNow(); (void)end;
  std::map<void *, int> got; int ticks = 0; int64_t prev = -1; std::map<long, int> seenTick;
  for (auto &x : relay.sent) {
    if (x.at < prev) R.viol("order", "time runs backwards"); prev = x.at;
    if (x.type == MSG_TELEMETRY) {
      Integer v = -1; x.v.getValue(v); ++ticks;
      if (v < 0 || v >= nt || seenTick[v]++) R.viol("sent", "telemetry " + show(x.v) + " unexpected"); else if (x.at < t0 + s.tele[v].at - 2) R.viol("early", "telemetry sent early");
      continue;
    }
    ++got[x.id]; bool found = false;
    for (int t = 0; t < nth; ++t) for (int i = 0; i < per; ++i) if (&mark[t][i] == x.id) {
      found = true;
      if (x.name != "cmd" + std::to_string(t) || !sameV(x.v, plan[t][i].v)) R.viol("value", "reply " + x.name + " " + show(x.v) + " instead of " + show(plan[t][i].v));
      if (x.at < calls[t][i].before + plan[t][i].delay - 2) R.viol("early", "reply sent early");
      R.max("latest_us", x.at - calls[t][i].after - plan[t][i].delay);
    }
    if (!found) R.viol("sent", "a reply to nobody");
  }
  for (int t = 0; t < nth; ++t) for (int i = 0; i < per; ++i) if (got[&mark[t][i]] != 1) R.viol(got[&mark[t][i]] ? "sent" : "lost", "command " + std::to_string(t) + "/" + std::to_string(i) + " got " + std::to_string(got[&mark[t][i]]) + " replies");
  if (ticks != nt) R.viol("lost", std::to_string(ticks) + " of " + std::to_string(nt) + " telemetry values sent");
  if (backwards) R.viol("lookup", "lookups went back to an older value");
  R.add("race_runs"); R.add("race_replies", nth * per); R.add("race_lookups", answered);
  uint64_t h = 5; for (auto &x : relay.sent) h = vc::mix(h, vc::hashStr(x.name)); R.sig(h);
}

int main(int argc, char **argv) {
  vc::Args a(argc, argv); setvbuf(stdout, nullptr, _IOLBF, 0);
  std::string mode = a.str("mode", "clock"); long cases = a.num("cases", 1), from = a.num("first", 0); uint64_t seed = a.num("seed", 1);
  char t[] = "/tmp/vsimXXXXXX"; dir = mkdtemp(t);
  sigset_t ss; sigemptyset(&ss); for (int x : {SIGALRM, SIGINT, SIGHUP, SIGQUIT, SIGTERM}) sigaddset(&ss, x);
  pthread_sigmask(SIG_BLOCK, &ss, nullptr);
  Error::doThrowExceptions();
  std::ostringstream dbg; setDebugOutputStream(dbg);
  for (long i = from; i < from + cases; ++i) {
    R.begin(std::to_string(i)); uint64_t k = vc::mix(seed * 1000003, i);
    try {
      if (mode == "clock") clockCase(k, i < from + 2); else if (mode == "bad") badCase(k); else raceCase(k);
    } catch (std::exception const &e) { virt = false; R.viol("error", std::string("the simulator failed: ") + e.what()); }
  }
  R.finish();
  for (std::string f : {"s0", "s1", "bad"}) unlink((dir + "/" + f).c_str());
  rmdir(dir.c_str());
}
