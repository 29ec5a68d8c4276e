// C15/C16: the threaded application framework. A real ExecApplication with its worker thread, fed
// by several interface threads; monitors on the executive's side record what is applied and when.
#include "vcommon.hh"
#include "AdapterConfiguration.hh"
#include "AdapterExecInterface.hh"
#include "Command.hh"
#include "Error.hh"
#include "ExecApplication.hh"
#include "ExecListener.hh"
#include "ExecListenerHub.hh"
#include "Expression.hh"
#include "ExpressionListener.hh"
#include "InterfaceManager.hh"
#include "LookupReceiver.hh"
#include "Node.hh"
#include "NodeConnector.hh"
#include "NodeTransition.hh"
#include "NodeConstants.hh"
#include "PlexilExec.hh"
#include "State.hh"
#include "StateCache.hh"
#include "Update.hh"
#include "Value.hh"
#include "createExpression.hh"
#include "lifecycle-utils.h"
#include "pugixml.hpp"
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <dirent.h>
#include <memory>
#include <mutex>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>

using namespace PLEXIL;
using vc::Rng;
using Clock = std::chrono::steady_clock;

static vc::Report R;
static std::mutex repMx;
static void viol(std::string const &k, std::string const &m) { std::lock_guard<std::mutex> g(repMx); R.viol(k, m); }

// ---- waiting helpers ----
static std::atomic<long> deadlineMs{0};
static std::atomic<char const *> phase{"start"};
static long nowMs() { return std::chrono::duration_cast<std::chrono::milliseconds>(Clock::now().time_since_epoch()).count(); }
static void arm(char const *what, long ms = 60000) { phase = what; deadlineMs = nowMs() + ms; }
static void disarm() { deadlineMs = 0; }
static void watchdog() {
  for (;;) {
    usleep(100000);
    long d = deadlineMs;
    if (d && nowMs() > d) { viol("hang", std::string("no progress in: ") + phase.load()); fflush(stdout); _exit(1); }
  }
}
static std::set<std::string> tasks() {
  std::set<std::string> r;
  if (DIR *d = opendir("/proc/self/task")) { while (dirent *e = readdir(d)) if (e->d_name[0] != '.') r.insert(e->d_name); closedir(d); }
  return r;
}
static std::mutex workerMx;
static std::string workerTid;
// The application sleeps a second to let its worker end; sleep only as long as the worker lives.
extern "C" unsigned sleep(unsigned s) {
  std::string w;
  { std::lock_guard<std::mutex> g(workerMx); w = workerTid; }
  long end = nowMs() + 20000L * s;
  while (nowMs() < end && !w.empty()) {
    struct stat st;
    if (stat(("/proc/self/task/" + w).c_str(), &st)) break;
    usleep(300);
  }
  return 0;
}

// ---- the world ----
enum { MAXP = 4, STATES = 2 };
struct Mon;
struct World {
  ExecApplication *app = nullptr;
  int caseNo = 0;
  std::atomic<long> applied[MAXP];
  std::atomic<long> posted[MAXP];
  std::atomic<long> executed{0}, aborted{0}, updates{0}, finishedRoots{0}, steps{0};
  std::atomic<bool> hold{false};
  std::atomic<int> inExec{0};
};
static World W;

// exec side: guarded by the application's own exclusion; TSan checks that it is.
struct ExecSide {
  std::vector<std::pair<int, long>> log;
  std::map<std::string, int> finished;
  std::map<std::string, std::vector<std::string>> assigned;
  long badOutcome = 0; std::string bad;
};
static ExecSide X;

struct Enter {   // two threads inside the executive at once?
  Enter() { if (W.inExec.fetch_add(1) != 0) viol("exclusion", "two threads are inside the executive at once"); }
  ~Enter() { W.inExec.fetch_sub(1); }
};

struct Mon : public ExpressionListener {
  int p; Expression *e;
  Mon(int pp, Expression *ee) : p(pp), e(ee) {}
  void notifyChanged() override {
    Enter en;
    Integer v;
    if (!e->getValue(v)) return;
    X.log.push_back({p, v});
    if (v != W.applied[p] + 1)
      viol("order", "producer " + std::to_string(p) + ": value " + std::to_string(v) + " was applied after " + std::to_string(W.applied[p].load()));
    W.applied[p] = v;
  }
};

struct Lst : public ExecListener {
  void implementNotifyNodeTransitions(std::vector<NodeTransition> const &ts) const override {
    Enter en;
    W.steps++;
    for (NodeTransition const &t : ts) {
      std::string id = t.node->getNodeId();
      if (t.newState == FINISHED_STATE) {
        X.finished[id]++;
        if (t.node->getOutcome() != SUCCESS_OUTCOME && t.node->getOutcome() != NO_OUTCOME && id[0] != 'x') { ++X.badOutcome; if (X.bad.size() < 200) X.bad += id + ":" + outcomeName(t.node->getOutcome()) + " "; }
        if (id.compare(0, 4, "root") == 0) W.finishedRoots++;
      }
    }
  }
  void implementNotifyAssignment(Expression const *, std::string const &n, Value const &v) const override {
    Enter en;
    X.assigned[n].push_back(v.valueToString());
  }
};

// ---- responder threads: the outside system that answers commands and updates ----
struct Job { Command *c = nullptr; Update *u = nullptr; bool abort = false; long arg = 0; bool isNull() const { return !c && !u; } };
struct Responders {
  std::mutex m; std::condition_variable cv; std::deque<Job> q; bool done = false;
  std::vector<std::thread> ths;
  AdapterExecInterface *intf = nullptr;
  int jitter = 0;
  void start(int n, uint64_t seed) {
    done = false;
    for (int i = 0; i < n; ++i) ths.emplace_back([this, seed, i] { run(Rng(seed + 77 * i)); });
  }
  void post(Job j) { { std::lock_guard<std::mutex> g(m); q.push_back(j); } cv.notify_one(); }
  void stop() { { std::lock_guard<std::mutex> g(m); done = true; } cv.notify_all(); for (auto &t : ths) t.join(); ths.clear(); q.clear(); }
  void pause(Rng &r) { if (jitter && r.chance(40)) usleep(r.below(jitter)); else if (r.chance(20)) std::this_thread::yield(); }
  void run(Rng r) {
    for (;;) {
      Job j;
      {
        std::unique_lock<std::mutex> l(m);
        cv.wait(l, [this] { return done || (!q.empty() && !W.hold); });
        if (done) return;
        j = q.front(); q.pop_front();
      }
      pause(r);
      if (j.u) { intf->handleUpdateAck(j.u, true); intf->notifyOfExternalEvent(); continue; }
      if (j.abort) { intf->handleCommandAbortAck(j.c, true); intf->notifyOfExternalEvent(); continue; }
      static CommandHandleValue const seq[] = {COMMAND_SENT_TO_SYSTEM, COMMAND_RCVD_BY_SYSTEM, COMMAND_ACCEPTED};
      for (CommandHandleValue h : seq) if (r.chance(50)) { intf->handleCommandAck(j.c, h); if (r.chance(50)) intf->notifyOfExternalEvent(); pause(r); }
      // the result before the final handle: the node ends on the handle
      Value v((Integer)(j.arg * 3 + 1));
      if (r.chance(50)) intf->handleCommandReturn(j.c, v); else intf->handleCommandReturn(j.c, Value((Integer)(j.arg * 3 + 1)));
      if (r.chance(30)) { intf->notifyOfExternalEvent(); pause(r); }
      intf->handleCommandAck(j.c, COMMAND_SUCCESS);
      intf->notifyOfExternalEvent();
    }
  }
};
static Responders Resp;

// ---- plans ----
static std::string num(long n) { return std::to_string(n); }
static std::string iv(long n) { return "<IntegerValue>" + num(n) + "</IntegerValue>"; }
static std::string var(std::string const &n) { return "<IntegerVariable>" + n + "</IntegerVariable>"; }
static std::string state(int p, int j) { return "p" + num(W.caseNo) + "_" + num(p) + "_" + num(j); }
static std::string finishedC(std::string const &id) {
  return "<EQInternal><NodeStateVariable><NodeId>" + id + "</NodeId></NodeStateVariable><NodeStateValue>FINISHED</NodeStateValue></EQInternal>";
}
struct PlanInfo { std::string xml; std::string root; std::map<std::string, std::vector<std::string>> assigns; long cmds = 0, upds = 0; std::map<std::string, int> finishes; };
static int planCount = 0;
static PlanInfo makePlan(Rng &r, bool held, long gate[MAXP]) {
  PlanInfo P;
  std::string tag = num(planCount++);
  P.root = "root" + tag;
  std::string kids, decl, prev;
  int n = held ? 1 : r.range(1, 6);
  for (int i = 0; i < n; ++i) {
    std::string id = "n" + tag + "_" + num(i), v = "v" + tag + "_" + num(i);
    decl += "<DeclareVariable><Name>" + v + "</Name><Type>Integer</Type><InitialValue>" + iv(0) + "</InitialValue></DeclareVariable>";
    int reps = r.range(1, 3);
    std::string startC;
    if (!prev.empty() && r.chance(50)) startC = finishedC(prev);
    else if (gate && r.chance(50)) {
      int p = r.below(MAXP);
      if (gate[p] > 2) {
        // every later value of this producer satisfies it; its last value is on state (gate-1)%STATES
        startC = "<GE><LookupOnChange><Name><StringValue>" + state(p, (int)(gate[p] % STATES)) + "</StringValue></Name></LookupOnChange>" + iv(gate[p] - r.below(2)) + "</GE>";
      }
    }
    std::string sc = startC.empty() ? "" : "<StartCondition>" + startC + "</StartCondition>";
    int kind = held ? 0 : r.below(4);
    if (kind == 3) {
      kids += "<Node NodeType=\"Update\"><NodeId>" + id + "</NodeId>" + sc + "<NodeBody><Update><Pair><Name>a</Name>" + iv(5) + "</Pair></Update></NodeBody></Node>";
      P.finishes[id] = 1; P.upds++;
    } else {
      // a loop: command returning 3*k+1, then k := k + 1
      std::string k = "k" + tag + "_" + num(i);
      std::string cmd = "<Node NodeType=\"Command\"><NodeId>c" + id + "</NodeId><EndCondition><EQInternal><NodeCommandHandleVariable><NodeId>c" + id + "</NodeId></NodeCommandHandleVariable><NodeCommandHandleValue>COMMAND_SUCCESS</NodeCommandHandleValue></EQInternal></EndCondition><NodeBody><Command>" + var(v) + "<Name><StringValue>cmd</StringValue></Name><Arguments>" + var(k) + "</Arguments></Command></NodeBody></Node>";
      std::string asg = "<Node NodeType=\"Assignment\"><NodeId>a" + id + "</NodeId><StartCondition>" + finishedC("c" + id) + "</StartCondition><NodeBody><Assignment>" + var(k) + "<NumericRHS><ADD>" + var(k) + iv(1) + "</ADD></NumericRHS></Assignment></NodeBody></Node>";
      decl += "<DeclareVariable><Name>" + k + "</Name><Type>Integer</Type><InitialValue>" + iv(0) + "</InitialValue></DeclareVariable>";
      kids += "<Node NodeType=\"NodeList\"><NodeId>" + id + "</NodeId>" + sc + "<RepeatCondition><LT>" + var(k) + iv(reps) + "</LT></RepeatCondition><NodeBody><NodeList>" + cmd + asg + "</NodeList></NodeBody></Node>";
      P.finishes[id] = 1; P.finishes["c" + id] = reps; P.finishes["a" + id] = reps;
      for (int q = 0; q < reps; ++q) { P.assigns[k].push_back(num(q + 1)); }
      P.cmds += reps;
    }
    prev = id;
  }
  if (!held && r.chance(30)) {   // a command that is aborted by the end of its parent's sibling
    std::string id = "x" + tag;
    kids += "<Node NodeType=\"Command\"><NodeId>" + id + "</NodeId><ExitCondition>" + finishedC(prev) + "</ExitCondition><EndCondition><BooleanValue>false</BooleanValue></EndCondition>"
            "<NodeBody><Command><Name><StringValue>xcmd</StringValue></Name></Command></NodeBody></Node>";
    P.finishes[id] = 1;
  }
  P.xml = "<PlexilPlan><Node NodeType=\"NodeList\"><NodeId>" + P.root + "</NodeId><VariableDeclarations>" + decl + "</VariableDeclarations><NodeBody><NodeList>" + kids + "</NodeList></NodeBody></Node></PlexilPlan>";
  P.finishes[P.root] = 1;
  return P;
}

static void postValue(Rng &r, int p) {
  long n = W.posted[p] + 1;
  State s(state(p, (int)(n % STATES)), 0);
  Value v((Integer)n);
  AdapterExecInterface *i = W.app->manager();
  switch (r.below(4)) {
  case 0: i->handleValueChange(s, v); break;
  case 1: i->handleValueChange(s, Value((Integer)n)); break;
  case 2: i->handleValueChange(State(s), v); break;
  default: i->handleValueChange(State(s), Value((Integer)n)); break;
  }
  W.posted[p] = n;
}

static bool waitUntil(std::function<bool()> f, long ms) {
  long end = nowMs() + ms;
  while (nowMs() < end) { if (f()) return true; usleep(200); }
  return f();
}

static void runCase(Rng r, int caseNo) {
  W.caseNo = caseNo;
  for (int p = 0; p < MAXP; ++p) { W.applied[p] = 0; W.posted[p] = 0; }
  W.executed = W.aborted = W.updates = W.finishedRoots = W.steps = 0;
  W.hold = false;
  X = ExecSide();
  bool foreground = r.chance(30);
  std::unique_ptr<ExecApplication> app(makeExecApplication());
  W.app = app.get();
  app->setRunExecInBkgndOnly(!foreground);
  app->configuration();
  pugi::xml_document cfg;
  if (!app->initialize(cfg.append_child("Interfaces"))) { viol("internal", "initialize failed"); return; }
  app->listenerHub()->addListener(new Lst);
  app->configuration()->setDefaultCommandHandlerFunction(
    [](Command *c, AdapterExecInterface *) {
      Enter en;
      W.executed++;
      if (c->getName() == "xcmd") return;
      Integer a = 0; c->getArgValues().at(0).getValue(a);
      Resp.post(Job{c, nullptr, false, a});
    },
    [](Command *c, AdapterExecInterface *) { Enter en; W.aborted++; Resp.post(Job{c, nullptr, true, 0}); });
  app->configuration()->registerPlannerUpdateHandler([](Update *u, AdapterExecInterface *) { Enter en; W.updates++; Resp.post(Job{nullptr, u, false, 0}); });
  app->configuration()->registerLookupHandlerFunction("time", [](State const &, LookupReceiver *rcvr) {
    static double t = 0;    // only the executive asks
    rcvr->update(t += 0.001);
  });
  Resp.intf = app->manager();
  Resp.jitter = r.chance(50) ? r.range(1, 400) : 0;

  // monitors: one lookup per producer state, on the executive's side
  int nprod = r.range(1, MAXP);
  NodeConnector *conn = nullptr;
  struct Mo { Expression *e; Mon *m; bool del; };
  std::vector<Mo> mons;
  pugi::xml_document ed;
  for (int p = 0; p < nprod; ++p)
    for (int j = 0; j < STATES; ++j) {
      pugi::xml_document *d = new pugi::xml_document;
      std::string t = "<LookupOnChange><Name><StringValue>" + state(p, j) + "</StringValue></Name></LookupOnChange>";
      d->load_string(t.c_str());
      bool del = false;
      Expression *e = createExpression(d->document_element(), conn, del);
      Mon *m = new Mon(p, e);
      e->addListener(m);
      e->activate();
      mons.push_back({e, m, del});
      delete d;
    }

  arm("start");
  if (!app->startInterfaces()) { viol("internal", "startInterfaces failed"); return; }
  if (app->allPlansFinished()) viol("finished", "all plans are said to have finished before one was added");
  auto before = tasks();
  if (!app->run()) { viol("internal", "run failed"); return; }
  auto after = tasks();
  { std::lock_guard<std::mutex> g(workerMx); workerTid.clear(); for (auto &t : after) if (!before.count(t)) workerTid = t; }
  Resp.start(r.range(1, 3), r.next());

  // producers
  std::atomic<bool> go{false};
  std::vector<std::thread> ths;
  long total[MAXP] = {0, 0, 0, 0};
  int jitter = r.chance(60) ? r.range(1, 200) : 0;
  for (int p = 0; p < nprod; ++p) {
    total[p] = r.range(3, 60);
    uint64_t s = r.next();
    bool marks = r.chance(50);
    ths.emplace_back([p, s, jitter, marks, &go, &total] {
      Rng q(s);
      while (!go) std::this_thread::yield();
      while (W.posted[p] < total[p]) {
        int batch = q.range(1, 5);
        for (int b = 0; b < batch && W.posted[p] < total[p]; ++b) postValue(q, p);
        bool last = W.posted[p] >= total[p];
        if (marks && q.chance(25)) {
          long mine = W.posted[p];
          W.app->notifyAndWaitForCompletion();
          if (W.applied[p] < mine)
            viol("mark", "waiting for completion returned with " + std::to_string(mine - W.applied[p]) + " earlier events of the caller not applied");
          std::lock_guard<std::mutex> g(repMx); R.add("marks");
        } else if (last || q.chance(70)) W.app->manager()->notifyOfExternalEvent();
        if (jitter && q.chance(40)) usleep(q.below(jitter));
      }
    });
  }
  arm("plans and producers");
  // plans, added while events arrive
  int nplans = r.range(0, 3);
  std::vector<PlanInfo> plans;
  long wantCmd = 0, wantUpd = 0, xc = 0;
  go = true;
  for (int k = 0; k < nplans; ++k) {
    bool held = r.chance(25);
    PlanInfo P = makePlan(r, held, total);
    pugi::xml_document doc;
    if (!doc.load_string(P.xml.c_str())) { viol("internal", "bad plan text"); return; }
    if (held) W.hold = true;
    if (!app->addPlan(&doc)) { viol("addplan", "a valid plan was refused: " + P.xml); return; }
    plans.push_back(P);
    wantCmd += P.cmds; wantUpd += P.upds;
    if (P.finishes.count("x" + P.root.substr(4))) ++xc;
    long want = (long)plans.size();
    if (held) {
      app->notifyAndWaitForCompletion();
      if (app->allPlansFinished()) viol("finished", "all plans are said to have finished while a command is unanswered");
      std::atomic<bool> back{false};
      std::thread w([&] { app->waitForPlanFinished(); back = true; });
      usleep(r.range(500, 5000));
      if (back) viol("finished", "waiting for the plan returned while a command of it is unanswered");
      { std::lock_guard<std::mutex> g(Resp.m); W.hold = false; }
      Resp.cv.notify_all();
      arm("waiting for a held plan to finish");
      w.join();
      if (W.finishedRoots < want) viol("finished", "waiting for the plan returned before it finished");
      std::lock_guard<std::mutex> g(repMx); R.add("held");
    } else {
      int how = r.below(3);
      if (how == 0) app->notifyExec();
      else if (how == 1) app->notifyAndWaitForCompletion();
      else { app->notifyExec(); continue; }   // no wait: the next plan is added while this one runs
      arm("waiting for a plan to finish");
      app->waitForPlanFinished();
      if (W.finishedRoots < want)
        viol("finished", "waiting for plans returned after " + num(W.finishedRoots.load()) + " of " + num(want) + " plans finished");
      std::lock_guard<std::mutex> g(repMx); R.add("waits");
    }
  }
  for (auto &t : ths) t.join();
  arm("last events");
  if (!waitUntil([&] { for (int p = 0; p < nprod; ++p) if (W.applied[p] != total[p]) return false; return true; }, 30000)) {
    std::string m;
    for (int p = 0; p < nprod; ++p) m += num(W.applied[p].load()) + "/" + num(total[p]) + " ";
    viol("lost", "posted and notified events were not applied: " + m);
  }
  arm("last plan");
  if (nplans) {
    app->waitForPlanFinished();
    if (W.finishedRoots < nplans) viol("finished", "waiting for plans returned after " + num(W.finishedRoots.load()) + " of " + num(nplans) + " plans finished");
    if (!app->allPlansFinished()) viol("finished", "all plans finished but the application denies it");
  }
  else if (app->allPlansFinished()) viol("finished", "all plans are said to have finished although none was ever added");
  // suspend and resume
  if (r.chance(40)) {
    arm("suspend");
    Rng q(r.next());
    app->suspend();
    if (!app->isSuspended()) viol("suspend", "not suspended after suspend");
    long start = W.applied[0]; int advanced = 0;
    for (int b = 0; b < 4; ++b) {
      long had = W.applied[0];
      postValue(q, 0);
      W.app->manager()->notifyOfExternalEvent();
      usleep(1500);
      (void)app->allPlansFinished();
      if (W.applied[0] > had) ++advanced;
    }
    (void)start;
    if (!foreground && advanced >= 3) viol("suspend", "events are still applied while the executive is suspended");
    app->resume();
    if (app->isSuspended()) viol("suspend", "suspended after resume");
    if (!waitUntil([&] { return W.applied[0] == W.posted[0]; }, 30000)) viol("lost", "events posted while suspended were not applied after resume");
    total[0] = W.posted[0];
    R.add("suspends");
  }
  // shutdown: someone waits for it; producers may still be posting
  std::atomic<bool> stopProd{false}, down{false};
  std::thread late, waiter;
  if (r.chance(50)) {
    uint64_t s = r.next();
    late = std::thread([s, &stopProd] { Rng q(s); while (!stopProd) { postValue(q, 0); if (q.chance(50)) W.app->manager()->notifyOfExternalEvent(); usleep(50); } });
  }
  bool wt = r.chance(50);
  if (wt) waiter = std::thread([&] { app->waitForShutdown(); down = true; });
  bool susp = r.chance(15);
  if (susp) app->suspend();
  arm("stop");
  if (down) viol("shutdown", "waiting for shutdown returned before stop");
  app->stop();
  if (wt) { arm("waiting for shutdown"); waiter.join(); R.add("shutdowns"); }
  stopProd = true;
  if (late.joinable()) late.join();
  Resp.stop();
  disarm();

  // offline checks over the log
  long perProd[MAXP] = {0, 0, 0, 0};
  uint64_t h = 7;
  int switches = 0, lastP = -1;
  for (auto &e : X.log) { perProd[e.first]++; h = vc::mix(h, e.first); if (e.first != lastP) { ++switches; lastP = e.first; } }
  for (int p = 0; p < nprod; ++p)
    if (perProd[p] < total[p]) viol("lost", "producer " + num(p) + ": " + num(perProd[p]) + " of " + num(total[p]) + " values seen");
  for (PlanInfo &P : plans) {
    for (auto &f : P.finishes)
      if (X.finished[f.first] != f.second) viol("plan", "node " + f.first + " finished " + num(X.finished[f.first]) + " times instead of " + num(f.second));
    for (auto &a : P.assigns)
      if (X.assigned[a.first] != a.second) viol("plan", "variable " + a.first + " was assigned another sequence of values than the plan says");
  }
  if (X.badOutcome) viol("plan", num(X.badOutcome) + " nodes finished without success: " + X.bad);
  if (W.executed != wantCmd + xc) viol("plan", num(W.executed.load()) + " commands were sent instead of " + num(wantCmd + xc));
  if (W.aborted != xc) viol("plan", num(W.aborted.load()) + " aborts instead of " + num(xc));
  if (W.updates != wantUpd) viol("plan", num(W.updates.load()) + " updates instead of " + num(wantUpd));
  R.add("events", (long)X.log.size()); R.add("switches", switches); R.add("plans", nplans); R.add("commands", W.executed);
  if (foreground) R.add("foreground");
  R.sig(h);
  R.sample("producers " + num(nprod) + ", plans " + num(nplans) + ", events " + num((long)X.log.size()) + ", producer changes in the applied order " + num(switches));
  for (auto &m : mons) { m.e->deactivate(); m.e->removeListener(m.m); delete m.m; if (m.del) delete m.e; }
  app.reset();
}

// A response to a command whose plan has finished meanwhile.
static void lateResponse() {
  std::unique_ptr<ExecApplication> app(makeExecApplication());
  pugi::xml_document cfg, doc;
  app->initialize(cfg.append_child("Interfaces"));
  Command *sent = nullptr;
  app->configuration()->setDefaultCommandHandlerFunction([&sent](Command *c, AdapterExecInterface *) { sent = c; });
  app->startInterfaces();
  doc.load_string("<PlexilPlan><Node NodeType=\"Command\"><NodeId>late</NodeId><NodeBody><Command><Name><StringValue>go</StringValue></Name></Command></NodeBody></Node></PlexilPlan>");
  app->manager()->handleAddPlan(doc.document_element());
  app->runExec();
  if (!sent) { viol("internal", "command was not sent"); return; }
  app->manager()->handleCommandAck(sent, COMMAND_SENT_TO_SYSTEM);
  app->runExec();
  if (!app->allPlansFinished()) { viol("internal", "plan did not finish"); return; }
  app->manager()->handleCommandAck(sent, COMMAND_SUCCESS);
  app->runExec();
  app->stop();
}

int main(int argc, char **argv) {
  vc::Args A(argc, argv);
  uint64_t seed = A.num("seed", 1); long first = A.num("first", 0), n = A.num("cases", 10);
  Error::doThrowExceptions();
  std::thread(watchdog).detach();
  if (A.has("directed")) {
    R.begin("app:directed:" + A.str("directed") + ":0");
    arm("directed case");
    lateResponse();
    disarm();
    R.add("cases");
    R.finish();
    plexilRunFinalizers();
    return 0;
  }
  for (long c = first; c < first + n; ++c) {
    R.begin("app:" + std::to_string(c));
    runCase(Rng(seed * 1000003ull + c * 7919ull + 13), (int)c);
    R.add("cases");
  }
  R.finish();
  fflush(stdout);
  plexilRunFinalizers();
  return 0;
}
