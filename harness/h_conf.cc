// C24: interface configurations. Random configuration documents declare adapters (two kinds, several
// registration styles, names in lists, defaults), listeners, library and plan paths, comments, elements to
// be ignored, and mistakes. A real application is built from them and runs random plans of commands,
// lookups, tolerances, updates and library calls. A monitor in the adapters, listeners and plan compares who
// was constructed, initialised, started, stopped and destroyed, and who got which request, with the document.
#include "vcommon.hh"
#include "plexil-config.h"
#include "AdapterConfiguration.hh"
#include "AdapterExecInterface.hh"
#include "AdapterFactory.hh"
#include "Command.hh"
#include "CommandHandler.hh"
#include "Error.hh"
#include "ExecApplication.hh"
#include "ExecListener.hh"
#include "ExecListenerFactory.hh"
#include "ExecListenerHub.hh"
#include "InterfaceAdapter.hh"
#include "InterfaceError.hh"
#include "InterfaceManager.hh"
#include "LookupHandler.hh"
#include "LookupReceiver.hh"
#include "Node.hh"
#include "NodeTransition.hh"
#include "ParserException.hh"
#include "PlanError.hh"
#include "PlexilExec.hh"
#include "State.hh"
#include "Update.hh"
#include "Value.hh"
#include "lifecycle-utils.h"
#include "planLibrary.hh"
#include <pugixml.hpp>
#include <algorithm>
#include <cmath>
#include <fstream>
#include <iostream>
#include <memory>
#include <sys/stat.h>
#include <unistd.h>
using namespace PLEXIL;
using vc::Rng;
static vc::Report R;
static std::string dir;
static std::string num(long n) { return std::to_string(n); }
static void viol(std::string const &k, std::string const &m) { R.viol(k, m); }

// ---------------------------------------------------------------- what happens
enum Beh { B_SUCCESS, B_RETURN, B_FAILED, B_THROW, B_HOLD, B_HOLD_THROW, B_VALUE, B_SILENT };
struct Item {              // one request of the plan
  char kind;               // C command, L lookup once, T lookup with tolerance, U update
  std::string name;        // what it is for
  int beh = B_SUCCESS;
  bool real = false, viaVar = false, twice = false, assigned = false, interrupted = false;
  int node = 0;
};
struct Ev { char what; int hid; std::string name; int k; double hi = 0, lo = 0; };
struct World {
  std::vector<Item> items;
  std::vector<Ev> evs;
  std::vector<std::string> life;      // "construct 3" ...
  std::map<int, int> alive;
  std::map<std::string, std::vector<std::string>> st;  // node -> "state outcome failure"
  std::map<std::string, Value> assigned;
  std::vector<long> heard;            // transitions per listener
  std::map<int, Command *> held;
  std::map<int, Update *> unacked;
  std::map<int, bool> reg;            // names to pass by
  std::vector<std::string> libCalls;
  bool failInit = false;
};
static World W;
static int serial = 0;

static int keyOf(std::vector<Value> const &a) { Integer k = -1; if (a.empty() || !a[0].getValue(k)) return -1; return k; }
static Item *itemOf(int k) { return k >= 0 && k < (int)W.items.size() ? &W.items[k] : nullptr; }
static void doExec(int hid, Command *c, AdapterExecInterface *i) {
  int k = keyOf(c->getArgValues());
  W.evs.push_back({'x', hid, c->getName(), k});
  if (c->getName() == "lib") { std::string s; c->getArgValues().at(1).getValue(s); W.libCalls.push_back(s); i->handleCommandAck(c, COMMAND_SUCCESS); i->notifyOfExternalEvent(); return; }
  Item *t = itemOf(k);
  if (!t) { i->handleCommandAck(c, COMMAND_SUCCESS); i->notifyOfExternalEvent(); return; }
  switch (t->beh) {
  case B_RETURN: i->handleCommandReturn(c, Value((Integer)(1000 * (hid + 2) + k))); i->handleCommandAck(c, COMMAND_SUCCESS); i->notifyOfExternalEvent(); break;
  case B_FAILED: i->handleCommandAck(c, COMMAND_FAILED); i->notifyOfExternalEvent(); break;
  case B_THROW: reportInterfaceError("command refused on purpose"); break;
  case B_HOLD: case B_HOLD_THROW: W.held[k] = c; break;
  default: i->handleCommandAck(c, COMMAND_SUCCESS); i->notifyOfExternalEvent();
  }
}
static void doAbort(int hid, Command *c, AdapterExecInterface *i) {
  int k = keyOf(c->getArgValues());
  W.evs.push_back({'a', hid, c->getName(), k});
  Item *t = itemOf(k);
  if (t && t->beh == B_HOLD_THROW) reportInterfaceError("abort refused on purpose");
  i->handleCommandAbortAck(c, true); i->notifyOfExternalEvent();
}
static void doLookup(int hid, State const &s, LookupReceiver *rc) {
  int k = keyOf(s.parameters());
  W.evs.push_back({'l', hid, s.name(), k});
  Item *t = itemOf(k);
  if (!t) return;
  switch (t->beh) {
  case B_VALUE: if (t->real) rc->update(Value((Real)(1000 * (hid + 2) + k + 0.25))); else rc->update(Value((Integer)(1000 * (hid + 2) + k))); break;
  case B_THROW: reportInterfaceError("lookup refused on purpose"); break;
  default: break;
  }
}
static void doThresholds(int hid, State const &s, double hi, double lo) { W.evs.push_back({'t', hid, s.name(), keyOf(s.parameters()), hi, lo}); }
static void doClear(int hid, State const &s) { W.evs.push_back({'c', hid, s.name(), keyOf(s.parameters())}); }
static void doUpdate(int hid, Update *u, AdapterExecInterface *i) {
  int k = -1; Integer x;
  for (auto const &p : u->getPairs()) if (p.first == "k" && p.second.getValue(x)) k = x;
  W.evs.push_back({'u', hid, "", k});
  Item *t = itemOf(k);
  if (t && t->beh != B_SUCCESS) W.unacked[k] = u;
  if (t && t->beh == B_THROW) reportInterfaceError("update refused on purpose");
  if (t && t->beh == B_SILENT) return;
  i->handleUpdateAck(u, !(t && t->beh == B_FAILED)); i->notifyOfExternalEvent();
}

struct CH : public CommandHandler {
  int hid; CH(int h) : hid(h) {}
  void executeCommand(Command *c, AdapterExecInterface *i) override { doExec(hid, c, i); }
  void abortCommand(Command *c, AdapterExecInterface *i) override { doAbort(hid, c, i); }
};
struct LH : public LookupHandler {
  int hid; LH(int h) : hid(h) {}
  void lookupNow(State const &s, LookupReceiver *rc) override { doLookup(hid, s, rc); }
  void setThresholds(State const &s, Real hi, Real lo) override { doThresholds(hid, s, hi, lo); }
  void setThresholds(State const &s, Integer hi, Integer lo) override { doThresholds(hid, s, hi, lo); }
  void clearThresholds(State const &s) override { doClear(hid, s); }
};
// Registration styles: 0 object for a list, 1 object name by name, 2 functions, 3 functions with defaults,
// 4 functions with empty optional parts
static void regCommands(AdapterConfiguration *c, int hid, int style, std::vector<std::string> const &names, bool dflt) {
  auto ex = [hid](Command *x, AdapterExecInterface *i) { doExec(hid, x, i); };
  auto ab = [hid](Command *x, AdapterExecInterface *i) { doAbort(hid, x, i); };
  auto each = [&](std::string const *n) {
    switch (style) {
    case 0: case 1: { auto h = std::make_shared<CH>(hid); n ? c->registerCommandHandler(h, *n) : c->setDefaultCommandHandler(h); break; }
    case 2: n ? c->registerCommandHandlerFunction(*n, ex, ab) : c->setDefaultCommandHandlerFunction(ex, ab); break;
    case 3: n ? c->registerCommandHandlerFunction(*n, ex) : c->setDefaultCommandHandlerFunction(ex); break;
    default: n ? c->registerCommandHandlerFunction(*n, ex, AbortCommandHandler()) : c->setDefaultCommandHandlerFunction(ex, AbortCommandHandler());
    }
  };
  if (dflt) each(nullptr);
  if (style == 0 && names.size()) c->registerCommandHandler(std::make_shared<CH>(hid), names);
  else for (auto &n : names) each(&n);
}
static void regLookups(AdapterConfiguration *c, int hid, int style, std::vector<std::string> const &names, bool dflt) {
  auto ln = [hid](State const &s, LookupReceiver *rc) { doLookup(hid, s, rc); };
  auto tr = [hid](State const &s, Real hi, Real lo) { doThresholds(hid, s, hi, lo); };
  auto ti = [hid](State const &s, Integer hi, Integer lo) { doThresholds(hid, s, hi, lo); };
  auto cl = [hid](State const &s) { doClear(hid, s); };
  auto each = [&](std::string const *n) {
    switch (style) {
    case 0: case 1: { auto h = std::make_shared<LH>(hid); n ? c->registerLookupHandler(h, *n) : c->setDefaultLookupHandler(h); break; }
    case 2: n ? c->registerLookupHandlerFunction(*n, ln, tr, ti, cl) : c->setDefaultLookupHandler(ln, tr, ti, cl); break;
    default: n ? c->registerLookupHandlerFunction(*n, ln) : c->setDefaultLookupHandler(LookupNowHandler(ln)); break;
    }
  };
  if (dflt) each(nullptr);
  if (style == 0 && names.size()) c->registerLookupHandler(std::make_shared<LH>(hid), names);
  else for (auto &n : names) each(&n);
}

template <int KIND> struct HA : public InterfaceAdapter {
  int id, mine;
  HA(AdapterExecInterface &i, AdapterConf *c) : InterfaceAdapter(i, c), mine(++serial) {
    id = getXml().attribute("Id").as_int(-1);
    ++W.alive[id];
    W.life.push_back("construct " + num(id) + (KIND == getXml().attribute("Kind").as_int(-1) ? "" : " as the wrong kind"));
  }
  ~HA() { --W.alive[id]; W.life.push_back("destroy " + num(id)); }
  bool initialize(AdapterConfiguration *c) override {
    W.life.push_back("initialize " + num(id));
    int style = getXml().attribute("Style").as_int();
    regCommands(c, id, style, configuration().commandNames, configuration().defaultCommandAdapter);
    regLookups(c, id, style, configuration().lookupNames, configuration().defaultLookupAdapter);
    if (configuration().plannerUpdateAdapter) { int h = id; c->registerPlannerUpdateHandler([h](Update *u, AdapterExecInterface *i) { doUpdate(h, u, i); }); }
    return !getXml().attribute("FailInit").as_bool();
  }
  bool start() override { W.life.push_back("start " + num(id)); return !getXml().attribute("FailStart").as_bool(); }
  void stop() override { W.life.push_back("stop " + num(id)); }
};
template <int KIND> struct HL : public ExecListener {
  int id;
  HL(pugi::xml_node const x) : ExecListener(x) {
    id = x.attribute("Id").as_int(-1);
    ++W.alive[id];
    W.life.push_back("construct " + num(id) + (KIND == x.attribute("Kind").as_int(-1) ? "" : " as the wrong kind"));
  }
  ~HL() { --W.alive[id]; W.life.push_back("destroy " + num(id)); }
  bool initialize() override { W.life.push_back("initialize " + num(id)); return ExecListener::initialize() && !getXml().attribute("FailInit").as_bool(); }
  bool start() override { W.life.push_back("start " + num(id)); return !getXml().attribute("FailStart").as_bool(); }
  void stop() override { W.life.push_back("stop " + num(id)); }
  void implementNotifyNodeTransition(NodeTransition const &) const override { if (id - 100 < (int)W.heard.size()) ++W.heard[id - 100]; }
};
extern "C" void initLazyAdapter() { REGISTER_ADAPTER(HA<7>, "LazyAdapter"); }
extern "C" void initModKit() { REGISTER_ADAPTER(HA<8>, "ModAdapter"); REGISTER_EXEC_LISTENER(HL<8>, "ModListener"); }

struct Watch : public ExecListener {
  void implementNotifyNodeTransition(NodeTransition const &t) const override {
    W.st[t.node->getNodeId()].push_back(nodeStateName(t.newState));
    if (t.newState == FINISHED_STATE || t.newState == ITERATION_ENDED_STATE)
      W.st[t.node->getNodeId()].back() += " " + outcomeName(t.node->getOutcome());
  }
  void implementNotifyAssignment(Expression const *, std::string const &n, Value const &v) const override { W.assigned[n] = v; }
};

// ---------------------------------------------------------------- generation
static std::string ws(Rng &r) { static const std::vector<std::string> S = {"", "", "", " ", "\n", "\t", "  \n\t "}; return r.pick(S); }
static std::string esc(std::string const &s) { std::string o; for (char c : s) o += c == '&' ? "&amp;" : c == '<' ? "&lt;" : c == '>' ? "&gt;" : std::string(1, c); return o; }
static std::string listOf(Rng &r, std::vector<std::string> const &v) {
  std::string o = ws(r);
  for (size_t i = 0; i < v.size(); ++i) o += (i ? ws(r) + "," + ws(r) : "") + esc(v[i]);
  return o + ws(r);
}
struct AdapterDecl { int id, kind, style; bool dc = false, dl = false, up = false; std::vector<std::string> cmds, looks; };
struct Target { int hid = -1, style = 0; };   // -1: nobody

struct Case {
  Rng r; int cno; std::string tag;
  std::map<std::string, Target> cmdOf, lookOf; Target cmdD, lookD, upd;
  std::vector<AdapterDecl> decl; std::vector<int> lst;
  std::vector<std::string> paths;                     // library path, in order
  std::vector<std::string> expectLife;
  uint64_t h = 0; bool bad = false, unfinishedPlan = false;
  std::string xml;
  Case(Rng rr, int c) : r(rr), cno(c), tag("_" + num(c)) {}
  void fail(std::string const &k, std::string const &m) { bad = true; viol(k, m); }
  std::vector<std::string> cmdPool, lookPool;
  std::vector<std::string> some(std::vector<std::string> const &pool, int max) {
    std::vector<std::string> o; int n = r.below(max + 1);
    for (int i = 0; i < n; ++i) o.push_back(r.pick(pool));
    return o;
  }
  Target cmdTarget(std::string const &n) { auto i = cmdOf.find(n); return i == cmdOf.end() ? cmdD : i->second; }
  Target lookTarget(std::string const &n) { auto i = lookOf.find(n); return i == lookOf.end() ? lookD : i->second; }
  void noteNames(AdapterDecl const &a) {
    if (a.dc) cmdD = {a.id, a.style};
    if (a.dl) lookD = {a.id, a.style};
    if (a.up) upd = {a.id, a.style};
    for (auto &n : a.cmds) cmdOf[n] = {a.id, a.style};
    for (auto &n : a.looks) lookOf[n] = {a.id, a.style};
  }
  std::string lists(std::string const &el, std::vector<std::string> const &v) {
    // in one element or several
    std::string o; size_t i = 0;
    while (i < v.size()) {
      size_t n = std::min(v.size() - i, (size_t)r.range(1, 3));
      o += "<" + el + ">" + listOf(r, std::vector<std::string>(v.begin() + i, v.begin() + i + n)) + "</" + el + ">" + ws(r);
      i += n;
    }
    return o;
  }
  std::string adapterXml(AdapterDecl &a, std::string const &typeName, std::string const &extra) {
    std::vector<std::string> kids;
    if (a.dc && a.dl && a.up && r.chance(60)) kids.push_back("<DefaultAdapter/>");
    else {
      if (a.dc) kids.push_back("<DefaultCommandAdapter/>");
      if (a.dl) kids.push_back("<DefaultLookupAdapter/>");
      if (a.up) kids.push_back("<PlannerUpdate/>");
    }
    if (a.cmds.size()) kids.push_back(lists("CommandNames", a.cmds));
    if (a.looks.size()) kids.push_back(lists("LookupNames", a.looks));
    if (r.chance(20)) kids.push_back("<!-- a comment -->");
    if (r.chance(15)) kids.push_back("<Whatever x=\"1\"><CommandNames>" + r.pick(cmdPool) + "</CommandNames></Whatever>");
    for (size_t i = kids.size(); i > 1; --i) std::swap(kids[i - 1], kids[r.below((int)i)]);
    std::string o = "<Adapter" + (typeName.empty() ? std::string() : " AdapterType=\"" + typeName + "\"") + " Id=\"" + num(a.id) + "\" Kind=\"" + num(a.kind) + "\" Style=\"" + num(a.style) + "\"" + extra + ">";
    for (auto &k : kids) o += ws(r) + k;
    return o + "</Adapter>";
  }
  AdapterDecl genDecl(int id) {
    AdapterDecl a; a.id = id; a.kind = 1; a.style = r.below(5);
    if (r.chance(12)) a.dc = a.dl = a.up = true;
    else { a.dc = r.chance(20); a.dl = r.chance(20); a.up = r.chance(25); }
    if (!a.dc) a.cmds = some(cmdPool, 4);
    if (!a.dl) a.looks = some(lookPool, 4);
    return a;
  }
  // One mistake in the document
  enum Fault { F_NONE, F_TYPE, F_NOTYPE, F_INIT, F_START, F_LTYPE, F_LNOTYPE, F_LINIT, F_LSTART, F_ROOT, F_LIBNAME, F_LIBUNKNOWN, F_N };

  void run() {
    W = World();
    std::string d = dir + "/" + num(cno);
    mkdir(dir.c_str(), 0777); mkdir(d.c_str(), 0777);
    setLibraryPaths({});
    cmdPool = {"c1", "c10", "C1", "c", "move it", "c_2", "stop!", "\xc3\xa9t\xc3\xa9", "a.b"};
    lookPool.clear(); for (auto s : {"s1", "s10", "S1", "s", "the state", "s_2", "s&t"}) lookPool.push_back(s + tag);
    Fault fault = r.chance(30) ? (Fault)r.range(1, F_N - 1) : F_NONE;
    int na = r.range(0, 5), nl = r.range(0, 3);
    if ((fault >= F_TYPE && fault <= F_START) && !na) na = 1;
    if ((fault >= F_LTYPE && fault <= F_LSTART) && !nl) nl = 1;
    int fa = r.below(na), fl = r.below(nl);
    struct El { std::string x; int what; int idx; };
    std::vector<El> els;
    for (int i = 0; i < na; ++i) els.push_back({"", 'A', i});
    for (int i = 0; i < nl; ++i) els.push_back({"", 'L', i});
    // the order of adapters and of listeners is the order written; mix them
    {
      std::vector<El> o; int a = 0, l = 0;
      while (a < na || l < nl) { if (l >= nl || (a < na && r.chance(55))) o.push_back({"", 'A', a++}); else o.push_back({"", 'L', l++}); }
      els = o;
    }
    if (fault == F_LIBNAME || fault == F_LIBUNKNOWN) els.insert(els.begin() + r.below((int)els.size() + 1), {"", 'I', 0});
    bool modKit = r.chance(20);
    if (modKit) els.insert(els.begin(), {"<InterfaceLibrary Name=\"ModKit\"/>", 'M', 0});
    std::string body; bool refused = false, startRefused = false;
    std::vector<int> built, builtL;                    // ids constructed, in document order
    std::vector<AdapterDecl> decls;
    for (auto &e : els) {
      body += ws(r);
      if (r.chance(10)) body += "<!-- <Adapter AdapterType=\"Alpha\"/> -->";
      if (r.chance(8)) body += "<Unheard of=\"1\"/>";
      if (r.chance(25)) body += pathEl(d, "LibraryNodePath", refused);
      if (r.chance(8)) body += pathEl(d, "PlanPath", true);
      if (e.what == 'M') body += e.x;
      else if (e.what == 'I') { body += fault == F_LIBNAME ? "<InterfaceLibrary/>" : "<InterfaceLibrary Name=\"NoSuchKit\"/>"; refused = true; }
      else if (e.what == 'A') {
        AdapterDecl a = genDecl(e.idx);
        static const char *TN[] = {"Alpha", "Beta", "LazyAdapter", "ModAdapter"}; static const int TK[] = {1, 2, 7, 8};
        int t = r.below(modKit ? 4 : 3);
        a.kind = TK[t]; std::string tn = TN[t], extra;
        bool here = e.idx == fa;
        if (here && fault == F_TYPE) { static const std::vector<std::string> Bad = {"Gamma", "alpha", "Alpha ", "NoSuchAdapter"}; tn = r.pick(Bad); }
        if (here && fault == F_NOTYPE) tn = "";
        if (here && fault == F_INIT) extra = " FailInit=\"true\"";
        if (here && fault == F_START) extra = " FailStart=\"true\"";
        body += adapterXml(a, tn, extra);
        if (here && (fault == F_TYPE || fault == F_NOTYPE)) refused = true;
        if (!refused) { built.push_back(a.id); decls.push_back(a); }
      } else {
        static const char *TN[] = {"Gamma", "Delta", "ModListener"}; static const int TK[] = {1, 2, 8};
        int t = r.below(modKit ? 3 : 2); std::string tn = TN[t], extra; bool here = e.idx == fl;
        if (here && fault == F_LTYPE) { static const std::vector<std::string> Bad = {"Alpha", "gamma", "NoSuchListener"}; tn = r.pick(Bad); }
        if (here && fault == F_LNOTYPE) tn = "";
        if (here && fault == F_LINIT) extra = " FailInit=\"true\"";
        if (here && fault == F_LSTART) extra = " FailStart=\"true\"";
        int id = 100 + e.idx;
        body += "<Listener" + (tn.empty() ? std::string() : " ListenerType=\"" + tn + "\"") + " Id=\"" + num(id) + "\" Kind=\"" + num(TK[t]) + "\"" + extra + "/>";
        if (here && (fault == F_LTYPE || fault == F_LNOTYPE)) refused = true;
        if (!refused) builtL.push_back(id);
      }
    }
    if (r.chance(40)) body += pathEl(d, "LibraryNodePath", refused);
    std::string root = fault == F_ROOT ? "Interface" : "Interfaces";
    bool empty = fault == F_NONE && !na && !nl && r.chance(50);
    if (empty) paths.clear();
    xml = "<" + root + ">" + body + "</" + root + ">";
    if (fault == F_ROOT) { refused = true; built.clear(); builtL.clear(); decls.clear(); }
    pugi::xml_document cfg;
    if (!cfg.load_string(xml.c_str())) { viol("internal", "configuration does not parse: " + xml); return; }
    W.heard.assign(nl, 0);
    // what the document should lead to
    std::vector<std::string> built2;
    expectBuilt(els, built, builtL);
    if (fault == F_ROOT) expectLife.clear();
    for (int id : built) {
      if (refused) break;
      expectLife.push_back("initialize " + num(id));
      noteNames(*std::find_if(decls.begin(), decls.end(), [id](AdapterDecl &a) { return a.id == id; }));
      if (fault == F_INIT && id == fa) { refused = true; }
    }
    bool lrefused = false;
    if (!refused) for (int id : builtL) { expectLife.push_back("initialize " + num(id)); if (fault == F_LINIT && id == 100 + fl) { lrefused = true; break; } }
    h = vc::mix(h, vc::hashStr(std::to_string(fault) + ":" + num(na) + ":" + num(nl) + ":" + num((long)cmdOf.size()) + num((long)lookOf.size()) + num(cmdD.hid) + num(lookD.hid) + num(upd.hid)));
    std::unique_ptr<ExecApplication> app(makeExecApplication());
    bool ok = false;
    try { ok = app->initialize(empty ? pugi::xml_node() : cfg.document_element()); }
    catch (std::exception const &e) { fail("lifecycle", std::string("building the interfaces ended in ") + e.what() + ": " + xml); }
    if (!bad && ok == (refused || lrefused)) fail("refuse", std::string(ok ? "accepted" : "refused") + " the configuration " + xml);
    checkLife("initialising");
    if (!bad && ok) {
      R.add("configurations_accepted");
      for (int id : built) { expectLife.push_back("start " + num(id)); if (fault == F_START && id == fa) { startRefused = true; break; } }
      if (!startRefused) for (int id : builtL) { expectLife.push_back("start " + num(id)); if (fault == F_LSTART && id == 100 + fl) { startRefused = true; break; } }
      // names taken over by the application itself
      if (r.chance(25)) {
        AdapterDecl a; a.id = 50; a.style = r.below(5);
        a.cmds = some(cmdPool, 3); a.looks = some(lookPool, 3); a.dc = r.chance(10); a.dl = r.chance(10); a.up = r.chance(15);
        regCommands(app->configuration(), 50, a.style, a.cmds, a.dc);
        regLookups(app->configuration(), 50, a.style, a.looks, a.dl);
        if (a.up) app->configuration()->registerPlannerUpdateHandler([](Update *u, AdapterExecInterface *i) { doUpdate(50, u, i); });
        noteNames(a);
        R.add("names_taken_over_by_the_application");
      }
      app->listenerHub()->addListener(new Watch);
      bool st = app->startInterfaces();
      if (st == startRefused) fail("refuse", std::string(st ? "started" : "did not start") + " the interfaces of " + xml);
      checkLife("starting");
      if (!bad && st) {
        plan(*app, d);
        size_t before = W.life.size();
        app->stop();
        std::multiset<std::string> want, got(W.life.begin() + before, W.life.end());
        for (int id : built) want.insert("stop " + num(id));
        for (int id : builtL) want.insert("stop " + num(id));
        if (!bad && want != got) fail("lifecycle", "stopping the application did: " + join(got) + "; expected " + join(want) + " for " + xml);
        if (!bad && builtL.size() > 1) for (int id : builtL) if (W.heard[id - 100] != W.heard[builtL[0] - 100]) { fail("lifecycle", "listener " + num(id) + " heard " + num(W.heard[id - 100]) + " transitions, listener " + num(builtL[0]) + " heard " + num(W.heard[builtL[0] - 100])); break; }
      }
    } else if (!bad) R.add("configurations_refused");
    app.reset();
    if (!bad) for (auto &p : W.alive) if (p.second) { fail("lifecycle", (p.first < 100 ? "adapter " : "listener ") + num(p.first) + (p.second > 0 ? " was never destroyed" : " was destroyed twice") + " for " + xml); break; }
    for (auto &f : files) unlink(f.c_str());
    for (int i = 0; i < 4; ++i) rmdir((d + "/p" + num(i)).c_str());
    rmdir(d.c_str());
    R.sig(h);
    R.sample(xml.substr(0, 700));
    setLibraryPaths({});
  }
  template <class T> static std::string join(T const &v) { std::string o; for (auto &s : v) o += (o.empty() ? "" : ", ") + s; return o.empty() ? "nothing" : o; }
  template <class E> void expectBuilt(std::vector<E> const &els, std::vector<int> const &a, std::vector<int> const &l) {
    for (auto &e : els) {
      int id = e.what == 'A' ? e.idx : e.what == 'L' ? 100 + e.idx : -1;
      if (id < 0) continue;
      auto &v = e.what == 'A' ? a : l;
      if (std::find(v.begin(), v.end(), id) != v.end()) expectLife.push_back("construct " + num(id));
    }
  }
  void checkLife(std::string const &when) {
    if (bad) return;
    if (W.life != expectLife) {
      // an application may destroy things it gives up on
      std::vector<std::string> x; for (auto &s : W.life) if (s.compare(0, 7, "destroy")) x.push_back(s);
      if (x != expectLife) fail("lifecycle", when + " did: " + join(W.life) + "; expected " + join(expectLife) + " for " + xml);
    }
    R.add("lifecycle_events_checked", (long)W.life.size());
  }
  std::vector<std::string> files;
  std::string pathEl(std::string const &d, std::string const &el, bool ignored) {
    std::vector<std::string> v; int n = r.below(4);
    for (int i = 0; i < n; ++i) v.push_back(d + "/p" + num(r.below(4)));
    if (!ignored && el == "LibraryNodePath") paths.insert(paths.end(), v.begin(), v.end());
    if (v.empty() && r.chance(50)) return "<" + el + "/>";
    return "<" + el + ">" + listOf(r, v) + "</" + el + ">";
  }

  // ---------------------------------------------------------------- the plan
  std::string nameXml(std::string const &n, bool var, int k, std::string &decls) {
    if (!var) return "<StringValue>" + esc(n) + "</StringValue>";
    decls += "<DeclareVariable><Name>n" + num(k) + "</Name><Type>String</Type><InitialValue><StringValue>" + esc(n) + "</StringValue></InitialValue></DeclareVariable>";
    return "<StringVariable>n" + num(k) + "</StringVariable>";
  }
  static std::string handleIs(std::string const &id, std::string const &hv) {
    return "<EQInternal><NodeCommandHandleVariable><NodeRef dir=\"self\"/></NodeCommandHandleVariable><NodeCommandHandleValue>" + hv + "</NodeCommandHandleValue></EQInternal>";
  }
  void plan(ExecApplication &app, std::string const &d) {
    std::string kids, decls; int n = r.range(1, 10);
    for (int k = 0; k < n; ++k) {
      Item t; t.node = k; t.viaVar = r.chance(30);
      int q = r.below(100);
      t.kind = q < 45 ? 'C' : q < 65 ? 'L' : q < 85 ? 'T' : 'U';
      std::string id = "N" + num(k), K = "<IntegerValue>" + num(k) + "</IntegerValue>", args = "<Arguments>" + K + "</Arguments>";
      if (t.kind == 'C') {
        t.name = r.chance(90) ? r.pick(cmdPool) : "unlisted";
        static const std::vector<int> B = {B_SUCCESS, B_SUCCESS, B_RETURN, B_FAILED, B_THROW, B_HOLD, B_HOLD_THROW};
        t.beh = r.pick(B);
        bool nobody = cmdTarget(t.name).hid < 0;
        std::string post, ret;
        if (nobody || t.beh == B_SUCCESS || t.beh == B_RETURN) post = handleIs(id, "COMMAND_SUCCESS");
        else if (t.beh == B_FAILED) post = handleIs(id, "COMMAND_FAILED");
        else if (t.beh == B_THROW) {
          post = "<AND><IsKnown><NodeCommandHandleVariable><NodeRef dir=\"self\"/></NodeCommandHandleVariable></IsKnown>";
          for (auto s : {"COMMAND_SUCCESS", "COMMAND_FAILED", "COMMAND_DENIED", "COMMAND_ACCEPTED", "COMMAND_SENT_TO_SYSTEM", "COMMAND_RCVD_BY_SYSTEM"}) post += "<NOT>" + handleIs(id, s) + "</NOT>";
          post += "</AND>";
        }
        if (t.beh == B_RETURN) {
          std::string v = "<IntegerVariable>v" + num(k) + "</IntegerVariable>"; int hid = cmdTarget(t.name).hid;
          post = "<AND>" + post + (nobody ? "<NOT><IsKnown>" + v + "</IsKnown></NOT>" : "<EQNumeric>" + v + "<IntegerValue>" + num(1000 * (hid + 2) + k) + "</IntegerValue></EQNumeric>") + "</AND>";
          ret = "<IntegerVariable>v" + num(k) + "</IntegerVariable>"; decls += "<DeclareVariable><Name>v" + num(k) + "</Name><Type>Integer</Type></DeclareVariable>"; }
        kids += "<Node NodeType=\"Command\"><NodeId>" + id + "</NodeId>" + (post.empty() ? "" : "<PostCondition>" + post + "</PostCondition>") +
                "<NodeBody><Command>" + ret + "<Name>" + nameXml(t.name, t.viaVar, k, decls) + "</Name>" + args + "</Command></NodeBody></Node>";
      } else if (t.kind == 'U') {
        static const std::vector<int> B = {B_SUCCESS, B_SUCCESS, B_SUCCESS, B_FAILED, B_THROW, B_SILENT};
        t.beh = r.pick(B);
        kids += "<Node NodeType=\"Update\"><NodeId>" + id + "</NodeId><NodeBody><Update><Pair><Name>k</Name>" + K + "</Pair></Update></NodeBody></Node>";
      } else {
        t.name = r.chance(90) ? r.pick(lookPool) : "unlisted" + tag;
        static const std::vector<int> B = {B_VALUE, B_VALUE, B_VALUE, B_THROW, B_SILENT};
        t.beh = r.pick(B); t.real = r.chance(50);
        std::string nm = "<Name>" + nameXml(t.name, t.viaVar, k, decls) + "</Name>";
        if (t.kind == 'L') {
          std::string T = t.real ? "Real" : "Integer";
          decls += "<DeclareVariable><Name>v" + num(k) + "</Name><Type>" + T + "</Type><InitialValue><" + T + "Value>-5</" + T + "Value></InitialValue></DeclareVariable>";
          kids += "<Node NodeType=\"Assignment\"><NodeId>" + id + "</NodeId><NodeBody><Assignment><" + T + "Variable>v" + num(k) + "</" + T + "Variable><NumericRHS><LookupNow>" + nm + args + "</LookupNow></NumericRHS></Assignment></NodeBody></Node>";
        } else {
          t.twice = r.chance(40); // two lookups of the same state, with different tolerances
          std::string lim = t.real ? "<RealValue>1000000</RealValue>" : "<IntegerValue>1000000</IntegerValue>";
          auto look = [&](std::string const &tol) { return "<GE><LookupOnChange>" + nm + "<Tolerance>" + (t.real ? "<RealValue>" : "<IntegerValue>") + tol + (t.real ? "</RealValue>" : "</IntegerValue>") + "</Tolerance>" + args + "</LookupOnChange>" + lim + "</GE>"; };
          std::string narrow = look(t.real ? "0.5" : "2"), wide = look(t.real ? "7.5" : "20");
          kids += "<Node NodeType=\"Empty\"><NodeId>" + id + "</NodeId><EndCondition>" + (!t.twice ? narrow : r.chance(50) ? "<AND>" + narrow + wide + "</AND>" : "<AND>" + wide + narrow + "</AND>") + "</EndCondition></Node>";
        }
      }
      W.items.push_back(t);
    }
    // a library plan that lies in some of the directories of the path
    std::string lib = "Lib" + tag, call, why; int want = -1;
    bool useLib = r.chance(40), loads = true;
    if (useLib) {
      std::vector<bool> in(4);
      for (int i = 0; i < 4; ++i) {
        std::string pd = d + "/p" + num(i); mkdir(pd.c_str(), 0777);
        in[i] = r.chance(50);
        if (!in[i]) continue;
        std::string f = pd + "/" + lib + ".plx"; std::ofstream o(f);
        o << "<PlexilPlan><Node NodeType=\"Command\"><NodeId>" << lib << "</NodeId><NodeBody><Command><Name><StringValue>lib</StringValue></Name><Arguments><IntegerValue>-1</IntegerValue><StringValue>" << i << "</StringValue></Arguments></Command></NodeBody></Node></PlexilPlan>";
        files.push_back(f);
      }
      if (r.chance(25)) { std::string p = d + "/p" + num(r.below(4)); app.addLibraryPath(p); paths.push_back(p); }
      for (auto &p : paths) { int i = p.back() - '0'; if (in[i]) { want = i; break; } }
      loads = want >= 0;
      // the command of the library plan is one the application takes
      regCommands(app.configuration(), 51, 0, {"lib"}, false); cmdOf["lib"] = {51, 0};
      call = "<Node NodeType=\"LibraryNodeCall\"><NodeId>CALL</NodeId><NodeBody><LibraryNodeCall><NodeId>" + lib + "</NodeId></LibraryNodeCall></NodeBody></Node>";
    }
    auto text = [&](std::string const &more) {
      return "<PlexilPlan><Node NodeType=\"NodeList\"><NodeId>Root</NodeId><ExitCondition><EQBoolean><LookupOnChange><Name><StringValue>halt" + tag + "</StringValue></Name></LookupOnChange><BooleanValue>true</BooleanValue></EQBoolean></ExitCondition>" +
             (decls.empty() ? "" : "<VariableDeclarations>" + decls + "</VariableDeclarations>") + "<NodeBody><NodeList>" + kids + more + "</NodeList></NodeBody></Node></PlexilPlan>";
    };
    auto add = [&](std::string const &x) {
      pugi::xml_document doc;
      if (!doc.load_string(x.c_str(), pugi::parse_default | pugi::parse_ws_pcdata_single)) { viol("internal", "plan does not parse: " + x); bad = true; return false; }
      try { app.manager()->handleAddPlan(doc.document_element()); return true; }
      catch (ParserException const &e) { why = e.what(); return false; }
    };
    try {
      if (useLib) {
        bool ok = add(text(call));
        if (bad) return;
        if (ok != loads) { fail("path", std::string(ok ? "found" : "did not find") + " library plan " + lib + " in " + join(paths) + "; it lies in " + join(files)); return; }
        if (!ok) { useLib = false; if (!add(text(""))) { if (!bad) fail("internal", "plan refused: " + why + ": " + text("")); return; } }
      } else if (!add(text(""))) { if (!bad) fail("internal", "plan refused: " + why + ": " + text("")); return; }
      app.runExec(); app.runExec();
      if (useLib) {
        R.add("library_plans_found_by_path");
        if (W.libCalls.size() != 1 || W.libCalls[0] != num(want)) { fail("path", "the plan called was the one in directory " + join(W.libCalls) + ", not " + num(want) + "; path " + join(paths)); return; }
      }
      afterStart();
      if (bad) return;
      if (r.chance(12)) { R.add("applications_stopped_with_a_plan_under_way"); unfinishedPlan = true; return; }
      // some of the states reach the value waited for
      for (size_t k = 0; k < W.items.size(); ++k) {
        Item &t = W.items[k];
        if (t.kind != 'T' || !r.chance(50)) continue;
        State s(t.name, 1); s.setParameter(0, Value((Integer)k));
        app.manager()->handleValueChange(s, t.real ? Value((Real)2e6) : Value((Integer)2000000));
        t.assigned = true;
      }
      app.runExec();
      for (size_t k = 0; k < W.items.size(); ++k) if (W.items[k].kind == 'T' && W.items[k].assigned && !has(k, "FINISHED SUCCESS")) { fail("internal", "N" + num((long)k) + " did not end: " + join(W.st["N" + num((long)k)])); return; }
      // then everything left is interrupted
      if (W.st["Root"].back() != "FINISHED SUCCESS") {
        for (auto &t : W.items) t.interrupted = !finished(t.node);
        app.manager()->handleValueChange(State("halt" + tag), Value(true));
        app.runExec(); app.runExec();
        // an abort the handler refuses leaves the node waiting; it is acknowledged later
        for (auto &p : W.held) {
          Item &t = W.items[p.first];
          if (t.beh != B_HOLD_THROW || cmdTarget(t.name).style > 2) continue;
          if (finished(p.first)) { fail("error", "the handler of " + t.name + " failed to abort it, but the node ended: " + join(W.st["N" + num(p.first)])); return; }
          app.manager()->handleCommandAbortAck(p.second, true); R.add("aborts_that_failed");
        }
        for (auto &p : W.unacked) app.manager()->handleUpdateAck(p.second, true);
        app.runExec();
      }
      if (W.st["Root"].back().compare(0, 8, "FINISHED")) { fail("hang", "the plan did not end: " + join(W.st["Root"]) + unfinished() + " with " + xml); return; }
      checkAll();
    } catch (std::exception const &e) { fail("error", std::string("the executive ended with ") + e.what() + " with " + xml); }
  }
  std::string unfinished() { std::string o; for (size_t k = 0; k < W.items.size(); ++k) if (!finished((int)k)) o += std::string("; ") + W.items[k].kind + " " + W.items[k].name + " beh " + num(W.items[k].beh) + ": " + join(W.st["N" + num((long)k)]); return o; }
  bool finished(int k) { auto &v = W.st["N" + num(k)]; return !v.empty() && v.back().compare(0, 8, "FINISHED") == 0; }
  bool has(int k, std::string const &s) { auto &v = W.st["N" + num(k)]; return !v.empty() && v.back() == s; }
  std::string evText(Ev const &e) {
    static const std::map<char, std::string> N = {{'x', "command"}, {'a', "abort of"}, {'l', "lookup of"}, {'t', "thresholds for"}, {'c', "end of thresholds for"}, {'u', "update"}};
    return N.at(e.what) + " " + e.name + "(" + num(e.k) + ") at " + who(e.hid);
  }
  static std::string who(int hid) { return hid < 0 ? "nobody" : hid >= 50 ? "the application" : "adapter " + num(hid); }
  Target targetOf(Ev const &e) { return e.what == 'u' ? upd : e.what == 'x' || e.what == 'a' ? cmdTarget(e.name) : lookTarget(e.name); }
  long count(char what, int k) { long n = 0; for (auto &e : W.evs) if (e.what == what && e.k == k) ++n; return n; }
  void checkRoute() {
    for (auto &e : W.evs) {
      Target t = targetOf(e);
      if (t.hid != e.hid) { fail("route", evText(e) + " was for " + who(t.hid) + " with " + xml); return; }
      if (e.k >= 0) {
        Item *i = itemOf(e.k);
        if (!i || (e.what != 'u' && i->name != e.name)) { fail("route", evText(e) + " was never asked for"); return; }
      }
    }
  }
  void afterStart() {
    checkRoute(); if (bad) return;
    R.add("requests_checked", (long)W.evs.size());
    for (size_t j = 0; j < W.items.size(); ++j) {
      int k = (int)j; Item &t = W.items[j];
      Target g = t.kind == 'C' ? cmdTarget(t.name) : t.kind == 'U' ? upd : lookTarget(t.name);
      std::string what = std::string(t.kind == 'C' ? "command " : t.kind == 'U' ? "update " : "lookup ") + t.name + "(" + num(k) + ") for " + who(g.hid);
      long x = count(t.kind == 'C' ? 'x' : t.kind == 'U' ? 'u' : 'l', k);
      if (g.hid < 0 ? x != 0 : t.kind == 'C' || t.kind == 'U' ? x != 1 : x < 1) { fail("route", what + " was handed over " + num(x) + " times with " + xml); return; }
      if (t.kind == 'C') {
        if (g.hid < 0) { R.add("commands_nobody_is_declared_for"); if (!has(k, "FINISHED SUCCESS") ) { fail("default", what + ": " + join(W.st["N" + num(k)])); return; } }
        else if (t.beh == B_HOLD || t.beh == B_HOLD_THROW) { if (finished(k)) { fail("error", what + " was not answered but the node is " + join(W.st["N" + num(k)])); return; } }
        else if (!has(k, "FINISHED SUCCESS")) { fail(t.beh == B_THROW ? "error" : "route", what + (t.beh == B_THROW ? " made its handler fail" : "") + ": " + join(W.st["N" + num(k)])); return; }
        if (t.beh == B_THROW && g.hid >= 0) R.add("commands_whose_handler_failed");
      } else if (t.kind == 'L') {
        auto it = W.assigned.find("v" + num(k));
        if (it == W.assigned.end()) { fail("internal", what + " was not assigned"); return; }
        double z = 0; Integer zi = 0; Value const &v = it->second;
        bool known = v.isKnown();
        if (known) { if (v.valueType() == INTEGER_TYPE) { v.getValue(zi); z = zi; } else v.getValue(z); }
        bool exp = g.hid >= 0 && t.beh == B_VALUE;
        if (known != exp) { fail(g.hid < 0 ? "default" : t.beh == B_THROW ? "error" : "route", what + (known ? " gave " + v.valueToString() : " gave no value")); return; }
        if (exp && z != 1000 * (g.hid + 2) + k + (t.real ? 0.25 : 0)) { fail("route", what + " gave " + v.valueToString()); return; }
        R.add(g.hid < 0 ? "lookups_nobody_is_declared_for" : t.beh == B_THROW ? "lookups_whose_handler_failed" : "lookups_answered");
      } else if (t.kind == 'T') {
        long n = count('t', k); bool exp = g.hid >= 0 && g.style <= 2 && t.beh == B_VALUE;
        if (exp ? n < 1 : n > 0) { fail("route", what + " set thresholds " + num(n) + " times"); return; }
        if (exp) {
          R.add("thresholds_checked");
          Ev last = W.evs[0]; for (auto &e : W.evs) if (e.what == 't' && e.k == k) last = e;
          double v = 1000 * (g.hid + 2) + k + (t.real ? 0.25 : 0), tol = t.real ? 0.5 : 2;
          if (last.hi != v + tol || last.lo != v - tol) { fail("route", what + ": thresholds " + std::to_string(last.lo) + " to " + std::to_string(last.hi) + " around " + std::to_string(v)); return; }
        }
      } else {
        bool done = g.hid < 0 || t.beh == B_SUCCESS;
        if (g.hid < 0) R.add("updates_nobody_is_declared_for");
        if (g.hid >= 0 && t.beh == B_THROW) R.add("updates_whose_handler_failed");
        if (done ? !has(k, "FINISHED SUCCESS") : finished(k)) { fail(g.hid < 0 ? "default" : "error", what + ": " + join(W.st["N" + num(k)])); return; }
      }
    }
  }
  void checkAll() {
    checkRoute(); if (bad) return;
    for (size_t j = 0; j < W.items.size(); ++j) {
      int k = (int)j; Item &t = W.items[j];
      Target g = t.kind == 'C' ? cmdTarget(t.name) : t.kind == 'U' ? upd : lookTarget(t.name);
      if (t.kind == 'C') {
        bool held = W.held.count(k) > 0;
        long n = count('a', k), exp = held && g.style <= 2 ? 1 : 0;
        if (n != exp) { fail("route", "command " + t.name + "(" + num(k) + ") for " + who(g.hid) + " was aborted " + num(n) + " times"); return; }
        if (held) R.add("aborts_checked");
        if (count('x', k) > 1) { fail("route", "command " + t.name + "(" + num(k) + ") was sent twice"); return; }
      }
      if (t.kind == 'T') {
        bool had = count('t', k) > 0; char last = 0;
        for (auto &e : W.evs) if (e.k == k && (e.what == 't' || e.what == 'c')) last = e.what;
        if (had && last != 'c') { fail("route", "thresholds for " + t.name + "(" + num(k) + ") stayed set at " + who(g.hid)); return; }
      }
    }
    R.add("requests_checked", (long)W.evs.size());
    for (auto &e : W.evs) h = vc::mix(h, vc::hashStr(evText(e)) % 1000003);
  }
};

int main(int argc, char **argv) {
  vc::Args A(argc, argv);
  uint64_t seed = A.num("seed", 1); long first = A.num("first", 0), n = A.num("cases", 10);
  Error::doThrowExceptions(); InterfaceError::doThrowExceptions(); PlanError::doThrowExceptions();
  dir = "/tmp/h_conf." + num(getpid());
  REGISTER_ADAPTER(HA<1>, "Alpha"); REGISTER_ADAPTER(HA<2>, "Beta");
  REGISTER_EXEC_LISTENER(HL<1>, "Gamma"); REGISTER_EXEC_LISTENER(HL<2>, "Delta");
  std::ostringstream sink; std::streambuf *old = std::cerr.rdbuf(sink.rdbuf());
  if (A.has("loud")) std::cerr.rdbuf(old);
  for (long c = first; c < first + n; ++c) {
    R.begin("conf:" + std::to_string(c));
    sink.str("");
    Case k(Rng(seed * 1000003ull + c), (int)c);
    k.run();
    R.add("cases");
  }
  std::cerr.rdbuf(old);
  rmdir(dir.c_str());
  R.finish();
  plexilRunFinalizers();
  return 0;
}
