// C18/C19: time. The real time adapter, timebases and time arithmetic on a fake clock: the
// system calls they use are replaced below, so timers fire exactly when the harness says.
#include "vcommon.hh"
#include "AdapterConfiguration.hh"
#include "AdapterExecInterface.hh"
#include "AdapterFactory.hh"
#include "Dispatcher.hh"
#include "Error.hh"
#include "ExecListenerBase.hh"
#include "InterfaceAdapter.hh"
#include "InterfaceError.hh"
#include "LookupHandler.hh"
#include "LookupReceiver.hh"
#include "Node.hh"
#include "NodeImpl.hh"
#include "NodeTransition.hh"
#include "PlanError.hh"
#include "PlexilExec.hh"
#include "State.hh"
#include "StateCache.hh"
extern "C" void initTimeAdapter();
#include "TimebaseFactory.hh"
#include "Value.hh"
#include "lifecycle-utils.h"
#include "parsePlan.hh"
#include "pugixml.hpp"
#include "timespec-utils.hh"
#include "timeval-utils.hh"
#include <atomic>
#include <cerrno>
#include <cmath>
#include <csignal>
#include <dlfcn.h>
#include <memory>
#include <mutex>
#include <sys/syscall.h>
#include <sys/time.h>
#include <thread>
#include <unistd.h>
#include <ctime>

using vc::Rng;
typedef long double LD;
typedef __int128 I128;
static long const NS = 1000000000L;
static int64_t const FOREVER = INT64_MAX;

// ---------------------------------------------------------------- the fake kernel
struct PTimer { void (*fn)(sigval) = nullptr; sigval arg{}; int64_t due = -1, interval = 0; bool live = false, absolute = false; };
struct Kernel {
  bool on = false;
  int64_t mono = 0, skew = 0;            // wall clock = mono + skew
  std::vector<PTimer> timers;
  int64_t idue = -1, iinterval = 0;      // interval timer, on the monotonic clock
  void (*alarm)(int) = nullptr;
  long bad = 0; std::string badWhat;
  std::mutex m;                          // race mode only
  int64_t wall() const { return mono + skew; }
  int live() const { int n = 0; for (auto &t : timers) n += t.live; return n; }
  void wrong(std::string const &w) { ++bad; badWhat = w; }
  // Earliest expiry on the monotonic clock.
  int64_t next() const {
    int64_t b = FOREVER;
    for (auto &t : timers) if (t.live && t.due >= 0) b = std::min(b, t.absolute ? std::max(mono, t.due - skew) : t.due);
    if (idue >= 0) b = std::min(b, idue);
    return b;
  }
  // Fires what is due now; returns the number of calls made.
  int fire() {
    int n = 0;
    for (size_t i = 0; i < timers.size(); ++i) {
      PTimer &t = timers[i];
      int64_t at = t.absolute ? t.due - skew : t.due;
      if (!t.live || t.due < 0 || at > mono) continue;
      if (t.interval) { t.due += t.interval; } else t.due = -1;
      ++n; auto fn = t.fn; auto a = t.arg; fn(a); // may set timers
    }
    if (idue >= 0 && idue <= mono) {
      if (iinterval) idue += iinterval; else idue = -1;
      ++n;
      if (alarm) alarm(SIGALRM); else wrong("the alarm signal arrived while no handler was installed: the process would die");
    }
    return n;
  }
  void reset() { timers.clear(); idue = -1; iinterval = 0; alarm = nullptr; bad = 0; badWhat.clear(); skew = 0; }
};
static Kernel K;

static bool valid(timespec const &t) { return t.tv_sec >= 0 && t.tv_nsec >= 0 && t.tv_nsec < NS; }
static int64_t ns(timespec const &t) { return t.tv_sec > FOREVER / NS / 2 ? FOREVER / 2 : t.tv_sec * NS + t.tv_nsec; }
extern "C" {
int clock_gettime(clockid_t id, struct timespec *ts) noexcept {
  if (!K.on || id != CLOCK_REALTIME) return (int)syscall(SYS_clock_gettime, id, ts);
  int64_t w = K.wall(); ts->tv_sec = w / NS; ts->tv_nsec = w % NS; return 0;
}
int gettimeofday(struct timeval *tv, void *) noexcept {
  if (!K.on) return (int)syscall(SYS_gettimeofday, tv, nullptr);
  int64_t w = K.wall(); tv->tv_sec = w / NS; tv->tv_usec = (w % NS) / 1000; return 0;
}
int timer_create(clockid_t id, struct sigevent *e, timer_t *out) noexcept {
  if (id != CLOCK_REALTIME || !e || e->sigev_notify != SIGEV_THREAD) { errno = EINVAL; return -1; }
  PTimer t; t.fn = e->sigev_notify_function; t.arg = e->sigev_value; t.live = true;
  K.timers.push_back(t); *out = (timer_t)(intptr_t)K.timers.size(); return 0;
}
static PTimer *timerOf(timer_t h) {
  size_t i = (size_t)(intptr_t)h;
  if (i < 1 || i > K.timers.size() || !K.timers[i - 1].live) { K.wrong("a timer that does not exist was used"); errno = EINVAL; return nullptr; }
  return &K.timers[i - 1];
}
int timer_settime(timer_t h, int flags, const struct itimerspec *v, struct itimerspec *) noexcept {
  std::lock_guard<std::mutex> g(K.m);
  PTimer *t = timerOf(h); if (!t) return -1;
  if (!valid(v->it_value) || !valid(v->it_interval)) { errno = EINVAL; return -1; }
  t->interval = ns(v->it_interval); t->absolute = flags & TIMER_ABSTIME;
  if (!v->it_value.tv_sec && !v->it_value.tv_nsec) t->due = -1;
  else if (t->absolute) t->due = ns(v->it_value);
  else { int64_t d = ns(v->it_value); t->due = d > FOREVER / 2 - K.mono ? FOREVER / 2 : K.mono + d; }
  return 0;
}
int timer_delete(timer_t h) noexcept { PTimer *t = timerOf(h); if (!t) return -1; t->live = false; t->due = -1; return 0; }
int setitimer(__itimer_which_t w, const struct itimerval *v, struct itimerval *) noexcept {
  auto ok = [](timeval const &t) { return t.tv_sec >= 0 && t.tv_usec >= 0 && t.tv_usec < 1000000; };
  if (w != ITIMER_REAL || !ok(v->it_value) || !ok(v->it_interval)) { errno = EINVAL; return -1; }
  auto n = [](timeval const &t) { return t.tv_sec > FOREVER / NS / 2 ? FOREVER / 2 : t.tv_sec * NS + t.tv_usec * 1000; };
  std::lock_guard<std::mutex> g(K.m);
  int64_t d = n(v->it_value); K.iinterval = n(v->it_interval);
  K.idue = d ? K.mono + d : -1;
  return 0;
}
int sigaction(int sig, const struct sigaction *a, struct sigaction *old) noexcept {
  if (sig == SIGALRM && K.on) { if (a) K.alarm = a->sa_handler == SIG_DFL || a->sa_handler == SIG_IGN ? nullptr : a->sa_handler; return 0; }
  static auto real = (int (*)(int, const struct sigaction *, struct sigaction *))dlsym(RTLD_NEXT, "sigaction");
  return real(sig, a, old);
}
}
static double wallNow() { timespec t; clock_gettime(CLOCK_REALTIME, &t); return timespecToDouble(t); }

static vc::Report R;
static std::unique_ptr<PLEXIL::PlexilExec> exec;
static std::string str(double d) { char b[64]; snprintf(b, sizeof b, "%.17g", d); return b; }

// ---------------------------------------------------------------- arithmetic
static double someSeconds(Rng &r) {
  switch (r.below(9)) {
  case 0: return r.range(-3, 3);
  case 1: return r.range(-5, 5) + (r.chance(50) ? 1e-9 : 0.999999999) * (r.chance(50) ? 1 : -1);
  case 2: return (r.unit() - 0.5) * 4;
  case 3: return 1.7e9 + r.unit() * 1e8;
  case 4: return -(r.unit() * 1e9);
  case 5: return r.range(0, 100) / 8.0;
  case 6: return (r.chance(50) ? 1 : -1) * std::pow(10.0, r.range(-12, 18)) * r.unit();
  case 7: return r.range(-20, 20) * 0.1;
  default: return r.range(-1000, 1000) * 1e-6;
  }
}
template <class TS> struct Tr;
template <> struct Tr<timespec> { static long const U = 1000000000L; static long &f(timespec &t) { return t.tv_nsec; } static long f(timespec const &t) { return t.tv_nsec; }
  static timespec of(double d) { return doubleToTimespec(d); } static void of(double d, timespec &t) { doubleToTimespec(d, t); } static double back(timespec const &t) { return timespecToDouble(t); } static const char *n() { return "timespec"; } };
template <> struct Tr<timeval> { static long const U = 1000000L; static long &f(timeval &t) { return t.tv_usec; } static long f(timeval const &t) { return t.tv_usec; }
  static timeval of(double d) { return doubleToTimeval(d); } static void of(double d, timeval &t) { doubleToTimeval(d, t); } static double back(timeval const &t) { return timevalToDouble(t); } static const char *n() { return "timeval"; } };

template <class TS> struct Arith {
  typedef Tr<TS> X;
  static I128 total(TS const &t) { return (I128)t.tv_sec * X::U + X::f(t); }
  // Normal form: the fraction is under one second and has the sign of the seconds.
  static bool normal(TS const &t) { long f = X::f(t); return f > -X::U && f < X::U && !(t.tv_sec > 0 && f < 0) && !(t.tv_sec < 0 && f > 0); }
  static std::string s(TS const &t) { return std::string(X::n()) + "{" + std::to_string((long)t.tv_sec) + "," + std::to_string(X::f(t)) + "}"; }
  static TS some(Rng &r) {
    TS t; long e[] = {0, 1, X::U - 1, X::U / 2, X::U - 2, 2};
    long f = r.chance(60) ? e[r.below(6)] : (long)(r.unit() * X::U);
    long sec = r.chance(70) ? r.range(-3, 3) : (long)((r.unit() - 0.5) * 4e9);
    t.tv_sec = sec; X::f(t) = sec < 0 || (!sec && r.chance(50)) ? -f : f; return t;
  }
  static void run(Rng &r) {
    TS a = some(r), b = r.chance(15) ? a : some(r);
    TS p = a + b, m = a - b;
    auto say = [&](const char *what, std::string const &got) { R.viol("arith", std::string(what) + " of " + s(a) + " and " + s(b) + " gives " + got); };
    if (total(p) != total(a) + total(b) || !normal(p)) say("sum", s(p));
    if (total(m) != total(a) - total(b) || !normal(m)) say("difference", s(m));
    if ((a < b) != (total(a) < total(b))) say("less-than", (a < b) ? "true" : "false");
    if ((a > b) != (total(a) > total(b))) say("greater-than", (a > b) ? "true" : "false");
    if ((a == b) != (total(a) == total(b))) say("equality", (a == b) ? "true" : "false");
    R.add("arith");
    // conversions
    double d = someSeconds(r); TS t = X::of(d), u; memset(&u, 0x5a, sizeof u); X::of(d, u);
    if (!(t == u)) R.viol("arith", "two conversions of " + str(d) + " give " + s(t) + " and " + s(u));
    LD err = fabsl((LD)total(t) - (LD)d * X::U), tol = 1.0L + fabsl((LD)d) * X::U * 1e-15L;
    if (err > tol || !normal(t)) R.viol("arith", str(d) + " seconds become " + s(t));
    double back = X::back(a); LD want = (LD)total(a) / X::U;
    if (fabsl((LD)back - want) > fabsl(want) * 3e-16L + 1e-18L) R.viol("arith", s(a) + " becomes " + str(back) + " seconds");
    double d2 = d + (r.chance(50) ? 1 : 1e-3) * r.unit(); TS t2 = X::of(d2);
    if (t2 < t) R.viol("arith", "conversion is not monotonic: " + str(d) + " and " + str(d2) + " become " + s(t) + " and " + s(t2));
    TS q = X::of(X::back(a)); I128 off = total(q) - total(a); if (off < 0) off = -off;
    if ((LD)off > 1 + fabsl((LD)total(a)) * 2e-16L) R.viol("arith", s(a) + " converted to seconds and back is " + s(q));
    R.add("conversions", 3);
    R.sig(vc::mix((uint64_t)total(a), (uint64_t)total(b)));
    // out of range: the nearest time there is, never garbage
    if (r.chance(20)) {
      double big[] = {9.3e18, 9223372036854775808.0, 1e19, 1e300, HUGE_VAL}; double x = big[r.below(5)]; bool neg = r.chance(50); if (neg) x = -x;
      if (x != -9223372036854775808.0) {
        TS y = X::of(x); TS zero{}; TS far = X::of(neg ? -1e15 : 1e15);
        if (neg ? !(y < far) : !(far < y)) R.viol("arith", str(x) + " seconds become " + s(y) + ", which is not further away than " + s(far));
        (void)zero; R.add("extremes");
      }
    }
  }
};

// ---------------------------------------------------------------- timebases
struct Unit {
  Rng r; std::string type; std::unique_ptr<PLEXIL::Timebase> tb; long wakes = 0; uint64_t h = 0; std::string log;
  Unit(uint64_t seed) : r(seed) {}
  void bad(std::string const &w) { R.viol("timer", type + ": " + w + " [" + log + "]"); failed = true; }
  bool failed = false;
  void note(std::string const &s) { log += s + "; "; if (log.size() > 500) log.erase(0, log.size() - 500); }
  long gran() const { return type == "Posix" ? 1 : 1000; }
  // Lets time pass, delivering expiries on time; returns wakeups seen.
  long pass(int64_t d) {
    long w = wakes; int64_t end = K.mono + d; int guard = 0;
    for (;;) { int64_t n = K.next(); if (n > end || ++guard > 100000) break; K.mono = std::max(K.mono, n); K.fire(); }
    K.mono = end; R.add("firings", guard);
    return wakes - w;
  }
  void run() {
    static const char *T[] = {"Posix", "Itimer"};
    type = T[r.below(2)]; K.reset(); K.on = true;
    K.mono = r.chance(40) ? r.range(1, 50) * (NS / 4) : 1700000000L * NS + (int64_t)(r.unit() * 1e16) + r.below(1000000000);
    pugi::xml_document x; x.load_string(("<Timebase Type=\"" + type + "\"/>").c_str());
    tb.reset(PLEXIL::makeTimebase(x.document_element(), [this]() { ++wakes; }));
    uint32_t tick = 0; bool started = false; double armed = 0; bool has = false, stale = false, everTimer = false;
    for (int i = 0, n = r.range(3, 16); i < n && !failed; ++i) {
      long w0 = wakes;
      double now = wallNow();
      if (PLEXIL::Timebase::queryTime() != now || tb->getTime() != now) bad("the time is " + str(tb->getTime()) + " when the clock says " + str(now));
      int k = r.below(10);
      if (!started) {
        if (r.chance(50)) { static const uint32_t I[] = {0, 0, 1000, 250000, 1000000, 999999, 4294967, 4294968, 5000000, 1000001, 10000000, 3600000000u}; tick = I[r.below(12)]; tb->setTickInterval(tick); note("tick " + std::to_string(tick)); }
        if (tb->getTickInterval() != tick) bad("the tick interval reads " + std::to_string(tb->getTickInterval()));
        tb->start(); started = true; has = false; note("start"); R.add("starts"); if (r.chance(10)) tb->start();
        if (wakes != w0) bad("starting called for a wakeup");
        continue;
      }
      if (k < 5) {
        double d; int q = r.below(12);
        if (q < 5) d = now + r.unit() * (r.chance(50) ? 10 : 0.01);
        else if (q < 7) d = now - r.unit() * 10;
        else if (q < 8) d = now;
        else if (q < 9) d = now + r.range(0, 40) * 0.25;
        else if (q < 10) d = now + 1e-6 * r.range(1, 5);
        else if (q < 11) d = now + std::pow(10.0, r.range(2, 9)) * r.unit();
        else { double B[] = {1e17, 1e18, 9.3e18, 1e300, 9223372036854775808.0}; d = B[r.below(5)]; }
        note("set " + str(d - now) + " ahead");
        try { tb->setTimer(d); } catch (std::exception const &e) { bad("setting the timer to " + str(d) + " threw " + e.what()); return; }
        R.add("settimers");
        if (tick) { if (wakes != w0) bad("a deadline in tick mode called for a wakeup"); if (!everTimer && tb->getNextWakeup() != 0) bad("a deadline in tick mode is remembered"); continue; }
        everTimer = true;
        
        double eps = gran() * 2e-9 + fabs(now) * 3e-16;
        if (d < now - eps) { if (wakes != w0 + 1) bad("a deadline in the past caused " + std::to_string(wakes - w0) + " wakeups"); R.add("pastdeadlines"); stale |= has; has = false; continue; } // a deadline set before may still be announced
        if (d > now + eps && wakes != w0) bad("a deadline in the future caused a wakeup at once");
        if (wakes != w0) { stale |= has; has = false; continue; } // right now
        armed = d; has = true; stale = false;
        if (d < 1e15 && fabs(tb->getNextWakeup() - d) > eps) bad("the next wakeup reads " + str(tb->getNextWakeup()) + " instead of " + str(d));
      } else if (k < 8) {
        if (tick) {
          int64_t T = (int64_t)tick * 1000; int m = r.range(0, 5); int64_t d = T * m + (m && r.chance(50) ? 0 : r.below(1000) * (T / 1000));
          static int64_t base; (void)base; int64_t t0 = K.mono; int64_t nx = K.next();
          if (nx == FOREVER) { bad("no tick is scheduled"); continue; }
          if (nx <= t0 - 1 || nx - t0 > T) { bad("the next of the ticks of " + std::to_string(tick) + " us is " + std::to_string(nx - t0) + " ns away"); continue; }
          long want = t0 + d < nx ? 0 : 1 + (long)((t0 + d - nx) / T), got = pass(d);
          note("pass " + std::to_string(d) + "ns"); R.add("ticks", got);
          if (got != want) bad(std::to_string(got) + " ticks of " + std::to_string(tick) + " us in " + std::to_string(d) + " ns, not " + std::to_string(want));
        } else if (has && armed < now + 1e10) {
          LD dn = (LD)armed * NS - (LD)K.wall();
          int64_t till = dn < 0 ? 0 : (int64_t)dn, slack = 2 * gran() + 1 + (int64_t)(fabs(armed) * 3e-16 * NS);
          if (r.chance(30)) { // not before
            int64_t d = (int64_t)(till * r.unit()) - slack; note("pass " + std::to_string(d) + "ns");
            if (d > 0 && pass(d)) { bad("woken " + std::to_string((double)(till - d) / NS) + " s before the deadline"); continue; }
            R.add("notyet");
          } else {
            long got = pass(till + slack); note("pass to deadline");
            if (got < 1) bad("nothing happened at the deadline " + str(armed));
            else if (got > 1) bad(std::to_string(got) + " wakeups for one deadline");
            R.add("deadlines"); has = false;
            if (r.chance(50) && pass(1000 * NS)) bad("another wakeup after the deadline had passed");
          }
        } else if (!has && !stale) { if (pass(NS * (int64_t)r.range(1, 100000))) bad("a wakeup nobody asked for"); note("idle"); R.add("idles"); }
      } else if (k < 9) {
        tb->stop(); started = false; note("stop"); R.add("stops"); has = stale = false;
        if (wakes != w0) bad("stopping called for a wakeup");
        if (K.live()) bad("a timer of the system is left behind after stopping");
        if (pass(NS * 100000L)) bad("a wakeup after stopping");
        if (r.chance(20)) tb->stop();
        if (r.chance(30)) break;
      } else {
        if (!tick) continue;
        bool thrown = false; try { tb->setTickInterval(tick + 1); } catch (std::exception const &) { thrown = true; }
        if (!thrown) { bad("the tick interval was changed while running"); }
      }
      h = vc::mix(h, (uint64_t)k * 31 + has);
    }
    if (K.bad && !failed) bad(K.badWhat);
    if (started && !failed) tb->stop();
    tb.reset();
    if (K.live() && !failed) bad("a timer of the system is left behind");
    K.on = false; R.sig(h);
  }
};

// ---------------------------------------------------------------- plans that wait for a time
struct Intf : PLEXIL::AdapterExecInterface {
  long events = 0;
  void handleValueChange(PLEXIL::State const &, const PLEXIL::Value &) override {}
  void handleValueChange(PLEXIL::State const &, PLEXIL::Value &&) override {}
  void handleValueChange(PLEXIL::State &&, const PLEXIL::Value &) override {}
  void handleValueChange(PLEXIL::State &&, PLEXIL::Value &&) override {}
  void handleCommandAck(PLEXIL::Command *, PLEXIL::CommandHandleValue) override {}
  void handleCommandReturn(PLEXIL::Command *, PLEXIL::Value const &) override {}
  void handleCommandReturn(PLEXIL::Command *, PLEXIL::Value &&) override {}
  void handleCommandAbortAck(PLEXIL::Command *, bool) override {}
  void handleUpdateAck(PLEXIL::Update *, bool) override {}
  void notifyMessageReceived(PLEXIL::Message *) override {}
  void notifyMessageQueueEmpty() override {}
  void notifyMessageAccepted(PLEXIL::Message *, std::string const &) override {}
  void notifyMessageHandleReleased(std::string const &) override {}
  void handleAddPlan(pugi::xml_node const) override {}
  bool handleAddLibrary(pugi::xml_document *) override { return false; }
  void notifyOfExternalEvent() override { ++events; }
  void notifyAndWaitForCompletion() override {}
};
struct NodeRec { double T, tol, dur, dtol; double active = -1, started = -1, ended = -1; };

struct Plan : PLEXIL::Dispatcher, PLEXIL::ExecListenerBase {
  Rng r; Intf intf; std::string type; std::unique_ptr<PLEXIL::AdapterConfiguration> conf; PLEXIL::LookupHandler *h = nullptr;
  std::map<std::string, NodeRec> nodes; long steps = 0; uint64_t sigh = 0; double maxLate = 0; std::string log; bool jumped = false;
  Plan(uint64_t seed) : r(seed) {}
  void lookupNow(PLEXIL::State const &s, PLEXIL::LookupReceiver *rc) override { if (s.name() == "time") h->lookupNow(s, rc); else rc->update(PLEXIL::Value(false)); }
  void setThresholds(PLEXIL::State const &s, PLEXIL::Real hi, PLEXIL::Real lo) override { R.add("thresholds"); if (s.name() == "time") h->setThresholds(s, hi, lo); }
  void setThresholds(PLEXIL::State const &s, PLEXIL::Integer hi, PLEXIL::Integer lo) override { if (s.name() == "time") h->setThresholds(s, hi, lo); }
  void clearThresholds(PLEXIL::State const &s) override { if (s.name() == "time") h->clearThresholds(s); }
  void executeCommand(PLEXIL::Command *) override {}
  void reportCommandArbitrationFailure(PLEXIL::Command *) override {}
  void invokeAbort(PLEXIL::Command *) override {}
  void executeUpdate(PLEXIL::Update *) override {}
  void notifyOfAssignment(PLEXIL::Expression const *, std::string const &, PLEXIL::Value const &) override {}
  void stepComplete(unsigned int) override {}
  void notifyOfTransitions(std::vector<PLEXIL::NodeTransition> const &ts) override {
    double now = wallNow();
    for (auto const &t : ts) {
      auto i = nodes.find(t.node->getNodeId()); if (i == nodes.end()) continue;
      NodeRec &n = i->second; std::string id = i->first;
      sigh = vc::mix(sigh, vc::hashStr(id) + (uint64_t)t.newState);
      if (t.newState == PLEXIL::WAITING_STATE) n.active = now;
      if (t.newState == PLEXIL::EXECUTING_STATE) {
        n.started = now; R.add("started");
        if (now < n.T) R.viol("early", id + " waits for " + str(n.T) + " and started at " + str(now) + ctx());
        if (n.T > 0) check(id, "started", n.T, std::max(n.active, 0.0), n.tol, now);
      }
      if (t.newState == PLEXIL::ITERATION_ENDED_STATE && n.started >= 0) {
        n.ended = now; R.add("ended");
        if (now < n.started + n.dur) R.viol("early", id + " started at " + str(n.started) + ", lasts " + str(n.dur) + " and ended at " + str(now) + ctx());
        check(id, "ended", n.started + n.dur, n.started, n.dtol, now);
      }
    }
  }
  // A lookup is refreshed whenever the time is a whole tolerance on, so a deadline is noticed at most one tolerance late.
  void check(std::string const &id, const char *what, double due, double since, double tol, double now) {
    double from = std::max(due, since), late = now - from;
    if (jumped && type == "Itimer") return; // the interval timer does not notice that the clock was set
    if (late > tol * 1.0000001 + maxLate + 5e-6 + 4e-16 * fabs(now)) R.viol("late", id + " " + what + " at " + str(now) + ", " + str(late) + " s after it was due, with a tolerance of " + str(tol) + ctx());
  }
  std::string ctx() const { return " [" + type + ": " + log + "]"; }
  void step() {
    int guard = 0;
    do {
      long e = intf.events;
      PLEXIL::StateCache::instance().incrementCycleCount();
      PLEXIL::g_exec->step(PLEXIL::StateCache::queryTime()); R.add("steps");
      if (++guard > 1000) { R.viol("stuck", "the executive never comes to rest" + ctx()); return; }
      if (intf.events == e && !PLEXIL::g_exec->needsStep()) break;
    } while (true);
    seen = intf.events;
  }
  long seen = 0;
  static std::string ge(double tol, std::string const &rhs, bool change = true, Rng *r = nullptr) {
    std::string look = change ? "<LookupOnChange><Name><StringValue>time</StringValue></Name><Tolerance>" + num(tol) + "</Tolerance></LookupOnChange>" : "<LookupNow><Name><StringValue>time</StringValue></Name></LookupNow>";
    (void)r; return "<GE>" + look + rhs + "</GE>";
  }
  static std::string num(double d) { if (fabs(d) < 1e6 && d == (int)d) return "<IntegerValue>" + std::to_string((int)d) + "</IntegerValue>"; return "<RealValue>" + str(d) + "</RealValue>"; }
  double tolOf(double span) { static const double T[] = {0.1, 0.25, 1, 1, 0.5, 3.7, 0.01, 10, 1e-3, 1e6, 1e300}; int k = r.below(40); double t = k < 32 ? T[k % 8] : k < 37 ? span * (0.1 + r.unit()) : T[8 + k % 3]; if (t < span / 60) t = span / 60 * (1 + r.unit()); return t; }
  void run() {
    static const char *TY[] = {"Posix", "Itimer"}; type = TY[r.below(2)]; K.reset(); K.on = true;
    K.mono = r.chance(40) ? r.range(1, 50) * (NS / 4) : 1700000000L * NS + (int64_t)(r.unit() * 1e16) + r.below(1000000000);
    conf.reset(PLEXIL::makeAdapterConfiguration());
    pugi::xml_document cx; cx.load_string(r.chance(80) || type != "Posix" ? ("<Adapter AdapterType=\"Time\"><Timebase Type=\"" + type + "\"/></Adapter>").c_str() : "<Adapter AdapterType=\"Time\"/>");
    std::unique_ptr<PLEXIL::InterfaceAdapter> ad(PLEXIL::AdapterFactory::createInstance(cx.document_element(), intf));
    if (!ad || !ad->initialize(conf.get()) || !ad->start()) { R.viol("internal", "the time adapter did not start"); K.on = false; return; }
    h = conf->getLookupHandler("time");
    PLEXIL::g_dispatcher = this; exec.reset(PLEXIL::makePlexilExec()); PLEXIL::g_exec = exec.get(); PLEXIL::g_exec->setDispatcher(this); PLEXIL::g_exec->setExecListener(this);
    double now = wallNow(); std::string body; int n = r.range(1, 5); double horizon = 1;
    bool seq = r.chance(25);
    for (int i = 0; i < n; ++i) {
      NodeRec q; double span = r.chance(70) ? r.unit() * 10 : r.unit() * std::pow(10.0, r.range(-2, 5));
      if (r.chance(20)) span = r.range(0, 8) * 0.25;
      q.T = now + (r.chance(10) ? -span : span); q.tol = tolOf(span);
      q.dur = r.chance(60) ? (r.chance(50) ? r.range(1, 6) * 0.5 : r.unit() * span) : 0; q.dtol = r.chance(60) && q.dur > 0 ? q.dur : tolOf(q.dur);
      if (seq && i) q.T = 0;
      horizon += span + (q.tol < 1e5 ? q.tol : 0) + q.dur + (q.dtol < 1e5 ? q.dtol : 0);
      std::string id = "W" + std::to_string(i);
      std::string end = q.dur > 0 ? "<EndCondition>" + ge(q.dtol, "<ADD><NodeTimepointValue><NodeId>" + id + "</NodeId><NodeStateValue>EXECUTING</NodeStateValue><Timepoint>START</Timepoint></NodeTimepointValue>" + num(q.dur) + "</ADD>") + "</EndCondition>" : "";
      std::string start = "<StartCondition>" + (seq && i ? "<EQInternal><NodeStateVariable><NodeId>W" + std::to_string(i - 1) + "</NodeId></NodeStateVariable><NodeStateValue>FINISHED</NodeStateValue></EQInternal>" : ge(q.tol, num(q.T))) + "</StartCondition>";
      if (seq && i) q.tol = 0, q.T = 0;
      body += "<Node NodeType=\"Empty\"><NodeId>" + id + "</NodeId>" + start + end + "</Node>";
      nodes[id] = q; log += id + " at +" + str(q.T - now) + " tol " + str(q.tol) + " dur " + str(q.dur) + " dtol " + str(q.dtol) + "; ";
    }
    std::string xml = "<PlexilPlan><GlobalDeclarations><StateDeclaration><Name>time</Name><Return><Name>_r</Name><Type>Real</Type></Return></StateDeclaration></GlobalDeclarations><Node NodeType=\"NodeList\"><NodeId>R</NodeId><NodeBody><NodeList>" + body + "</NodeList></NodeBody></Node></PlexilPlan>";
    R.sample(log);
    pugi::xml_document d; d.load_string(xml.c_str(), pugi::parse_default | pugi::parse_ws_pcdata_single);
    PLEXIL::NodePtr root(PLEXIL::parsePlan(d.document_element())); // checked by the caller's catch
    PLEXIL::g_exec->addPlan(root.release());
    PLEXIL::g_exec->step(PLEXIL::StateCache::queryTime()); step();
    double limit = now + horizon * 2 + 100; int guard = 0, njumps = 0; bool latency = r.chance(30), early = r.chance(15), jumps = r.chance(15), poke = r.chance(30);
    if (latency) maxLate = 0.02;
    while (!PLEXIL::g_exec->allPlansFinished() && ++guard < 4000) {
      int64_t nx = K.next();
      if (poke && r.chance(30)) { int64_t t = K.mono + (int64_t)(r.unit() * 2e9); if (t < nx) { K.mono = t; step(); R.add("pokes"); continue; } }
      if (jumps && njumps < 8 && r.chance(5)) { ++njumps; int64_t j = (int64_t)((r.unit() - (K.wall() < 100 * NS ? 0 : 0.5)) * 20 * NS); K.skew += j; jumped = true; if (j > 0) maxLate += j / 1e9; limit += 40; R.add("jumps"); log += "clock jumps; "; continue; }
      if (nx == FOREVER || nx - K.mono > (int64_t)4e18) break;
      if ((double)(nx + K.skew) / NS > limit + 1e6) break;
      int64_t t = std::max(nx, K.mono);
      if (latency) t += r.below(20000000);
      if (early && r.chance(40)) { // the notification comes a little early
        K.mono = std::max(K.mono, t - r.below(3000000));
        for (auto &p : K.timers) if (p.live && p.due >= 0) { p.due = -1; p.fn(p.arg); break; }
        if (K.idue >= 0 && K.alarm) { K.idue = -1; K.alarm(SIGALRM); }
        R.add("early");
      } else { K.mono = t; K.fire(); }
      R.add("firings");
      if (intf.events != seen) step(); else R.add("silent");
    }
    bool spent = guard >= 4000; // the budget ran out with timers still set
    if (spent) R.add("spent");
    for (auto const &p : nodes) {
      NodeRec const &q = p.second; double w = wallNow();
      if (q.started < 0 && q.tol == 0) continue; // follows another node
      if (q.started < 0 && q.active >= 0 && q.T + q.tol < w) R.viol("lost", p.first + " never started although it is " + str(w) + ctx());
      else if (spent) continue;
      else if (q.started < 0 && q.tol < 1e5 && q.active >= 0) R.viol("lost", p.first + " waits for " + str(q.T) + " but no timer is set; it is " + str(w) + ctx());
      else if (q.started >= 0 && q.ended < 0 && q.dtol < 1e5) R.viol("lost", p.first + ", started at " + str(q.started) + " for " + str(q.dur) + " s, waits on but no timer is set; it is " + str(w) + ctx());
    }
    if (PLEXIL::g_exec->allPlansFinished()) R.add("completed"); else R.add("unfinished");
    if (K.bad) R.viol("timer", K.badWhat + ctx());
    exec.reset(); PLEXIL::g_exec = nullptr;
    long e = intf.events; ad->stop();
    for (int i = 0; i < 50; ++i) { int64_t nx = K.next(); if (nx == FOREVER) break; K.mono = nx; K.fire(); }
    if (intf.events != e || K.live()) R.viol("timer", "the time adapter is still active after it was stopped" + ctx());
    ad.reset(); conf.reset(); K.on = false; R.sig(sigh);
  }
};

// ---------------------------------------------------------------- timers firing while the executive sets them
static void race(Rng r) {
  K.reset(); K.on = true; K.mono = 1000 * NS;
  pugi::xml_document x; x.load_string("<Timebase Type=\"Posix\"/>");
  PLEXIL::Timebase *t = nullptr; std::atomic<long> wakes{0}; std::atomic<double> sum{0};
  std::unique_ptr<PLEXIL::Timebase> tb(PLEXIL::makeTimebase(x.document_element(), [&]() { ++wakes; double nw = t->getNextWakeup(); sum = nw + t->getTime(); }));
  t = tb.get(); tb->start();
  PTimer p = K.timers[0]; int n = r.range(50, 300); std::vector<double> ds; for (int i = 0; i < n; ++i) ds.push_back(1000 + r.unit() * 100 - (r.chance(20) ? 50 : 0));
  long past = 0; for (double d : ds) past += d < 1000;
  std::thread th([&]() { for (int i = 0; i < n; ++i) { p.fn(p.arg); if (i % 8 == 0) std::this_thread::yield(); } });
  for (double d : ds) tb->setTimer(d);
  th.join(); tb->stop();
  if (wakes != n + past) R.viol("timer", std::to_string(wakes) + " wakeups instead of " + std::to_string(n + past));
  R.add("racewakes", wakes); R.sig(vc::mix(n, past)); tb.reset(); K.on = false;
}

int main(int argc, char **argv) {
  vc::Args a(argc, argv);
  PLEXIL::Error::doThrowExceptions(); PLEXIL::PlanError::doThrowExceptions(); PLEXIL::InterfaceError::doThrowExceptions();
  std::string mode = a.str("mode", "arith"); uint64_t seed = a.num("seed", 1); long first = a.num("first", 0), cases = a.num("cases", 10);
  initTimeAdapter();
  for (long k = first; k < first + cases; ++k) {
    R.begin(mode + ":" + std::to_string(seed) + ":" + std::to_string(k)); R.add("cases");
    uint64_t s = vc::mix(seed * 104729 + 17, k);
    try {
      if (mode == "arith") { Rng r(s); for (int i = 0; i < 50; ++i) { Arith<timespec>::run(r); Arith<timeval>::run(r); } }
      else if (mode == "unit") { Unit u(s); u.run(); }
      else if (mode == "plan") { Plan p(s); p.run(); }
      else if (mode == "race") race(Rng(s));
    } catch (std::exception const &e) { K.on = false; R.viol("internal", std::string("exception: ") + e.what()); exec.reset(); PLEXIL::g_exec = nullptr; R.finish(); return 0; }
  }
  R.finish();
  plexilRunFinalizers();
  return 0;
}
