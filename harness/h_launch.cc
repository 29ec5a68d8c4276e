// C22: the commands the executive itself provides. Random plans use StartPlan, ExitPlan and the print
// commands of the real launcher and utility adapters in a real application, with random library plans,
// parameters and mistakes, while other plans run, repeat, fail and share names. A monitor on the
// command handler and on root node transitions compares what was started, with what arguments, what was
// ended, what was answered and what the PlanState, PlanOutcome and PlanFailureType lookups show.
#include "vcommon.hh"
#include "plexil-config.h"
#include "AdapterConfiguration.hh"
#include "AdapterExecInterface.hh"
#include "ArrayImpl.hh"
#include "Command.hh"
#include "createExpression.hh"
#include "Error.hh"
#include "ExecApplication.hh"
#include "ExecListener.hh"
#include "ExecListenerHub.hh"
#include "Expression.hh"
#include "InterfaceManager.hh"
#include "Node.hh"
#include "NodeConnector.hh"
#include "NodeTransition.hh"
#include "ParserException.hh"
#include "PlexilExec.hh"
#include "State.hh"
#include "Value.hh"
#include "lifecycle-utils.h"
#include <pugixml.hpp>
#include <algorithm>
#include <fstream>
#include <iostream>
#include <memory>
#include <unistd.h>
using namespace PLEXIL;
using vc::Rng;
static vc::Report R;
static std::string dir;
static std::string num(long n) { return std::to_string(n); }
static void viol(std::string const &k, std::string const &m) { R.viol(k, m); }

// ---------------------------------------------------------------- values
static std::string esc(std::string const &s) {
  std::string o;
  for (char c : s) switch (c) {
    case '<': o += "&lt;"; break; case '>': o += "&gt;"; break; case '&': o += "&amp;"; break;
    case '\n': o += "&#10;"; break; case '\r': o += "&#13;"; break; case '\t': o += "&#9;"; break;
    default: o += c; }
  return o;
}
static const char *TYN[] = {"Integer", "Real", "Boolean", "String"};
struct Arg {           // an argument as the plan writes it
  int ty;              // 0..3
  bool arr;
  Value v;             // what it is
  std::string xml;     // how the plan writes it (a literal, or a variable reference)
  std::string decl;    // declaration of that variable
  bool unknown = false, strGap = false;
};
static std::string genStr(Rng &r) {
  static const std::vector<std::string> S = {"", "a", " ", "x y", " lead", "trail ", "<&>\"'", "UNKNOWN", "two\nlines", "tab\there", "]]>", "12", "true", "\xc3\xa9t\xc3\xa9", "&amp;", "a\r\nb"};
  return r.pick(S);
}
static std::string scalarText(Rng &r, int ty, Value &v) {
  switch (ty) {
  case 0: { static const std::vector<Integer> I = {0, 1, -1, 42, 2147483647, -2147483647 - 1, 1000000, -7}; Integer i = r.pick(I); v = Value(i); return num(i); }
  case 1: { static const std::vector<double> D = {0.5, -2.25, 1.0 / 3, 1e300, 1e-300, 12345678.901234567, 3.0, 0.1, 6.02214076e23, -1e-7, 123456789012345678.0};
            double d = r.pick(D); v = Value(d); char b[64]; snprintf(b, sizeof b, "%.17g", d); return b; }
  case 2: { bool b = r.chance(50); v = Value(b); return b ? "true" : "false"; }
  default: { std::string s = genStr(r); v = Value(s); return esc(s); }
  }
}
static int varNo = 0;
template <class T> static Value mkArr(std::vector<Value> const &e, size_t max) {
  ArrayImpl<T> a(max);
  for (size_t i = 0; i < e.size(); ++i) { T x; if (e[i].getValue(x)) a.setElement(i, x); else a.setElementUnknown(i); }
  return Value(a);
}
static Arg genArg(Rng &r, int ty, bool arr, bool unknown) {
  Arg a; a.ty = ty; a.arr = arr; a.unknown = unknown;
  std::string var = "v" + num(++varNo);
  if (arr) {
    int max = r.range(1, 5), n = r.chance(70) ? max : r.range(1, max);
    std::vector<Value> el; std::string t;
    for (int i = 0; i < n; ++i) {
      Value v; std::string x = scalarText(r, ty, v);
      if (ty < 3 && r.chance(20)) { x = "UNKNOWN"; v = Value(); }
      el.push_back(v);
      t += std::string("<") + TYN[ty] + "Value>" + x + "</" + TYN[ty] + "Value>";
    }
    a.strGap = ty == 3 && n < max;
    switch (ty) {
    case 0: a.v = mkArr<Integer>(el, max); break; case 1: a.v = mkArr<Real>(el, max); break;
    case 2: a.v = mkArr<Boolean>(el, max); break; default: a.v = mkArr<String>(el, max); break; }
    a.decl = "<DeclareArray><Name>" + var + "</Name><Type>" + TYN[ty] + "</Type><MaxSize>" + num(max) + "</MaxSize>" +
             (unknown ? "" : std::string("<InitialValue><ArrayValue Type=\"") + TYN[ty] + "\">" + t + "</ArrayValue></InitialValue>") + "</DeclareArray>";
    a.xml = "<ArrayVariable>" + var + "</ArrayVariable>";
    return a;
  }
  std::string x = scalarText(r, ty, a.v), T = TYN[ty];
  if (unknown || r.chance(40)) {
    a.decl = "<DeclareVariable><Name>" + var + "</Name><Type>" + T + "</Type>" + (unknown ? "" : "<InitialValue><" + T + "Value>" + x + "</" + T + "Value></InitialValue>") + "</DeclareVariable>";
    a.xml = "<" + T + "Variable>" + var + "</" + T + "Variable>";
  } else a.xml = "<" + T + "Value>" + x + "</" + T + "Value>";
  return a;
}
static std::string strLit(std::string const &s) { return "<StringValue>" + esc(s) + "</StringValue>"; }
static std::string lookup(std::string const &name, std::string const &arg, bool onChange = true) {
  std::string L = onChange ? "LookupOnChange" : "LookupNow";
  return "<" + L + "><Name><StringValue>" + name + "</StringValue></Name>" + (arg.empty() ? "" : "<Arguments>" + arg + "</Arguments>") + "</" + L + ">";
}
static std::string show(Value const &v) { return v.isKnown() ? v.valueToString() : "unknown"; }
static bool same(Value const &a, Value const &b) {
  if (a.isKnown() != b.isKnown()) return false;
  if (!a.isKnown()) return true;
  return a.valueType() == b.valueType() && a == b;
}

// ---------------------------------------------------------------- what happens
struct Param { std::string name; int ty; bool arr, def; Value defV; };
struct Lib { std::string name; std::vector<Param> p; int body; };
struct Rec { std::string lib; std::vector<Value> args; };
struct Truth { NodeState s = INACTIVE_STATE; NodeOutcome o = NO_OUTCOME; FailureType f = NO_FAILURE; int live = 0; long begun = 0; };
struct World {
  std::vector<Rec> recs;
  std::vector<std::pair<int, Value>> ok;   // report number, returned value
  std::vector<int> failed, seen;
  std::map<std::string, Truth> truth;
  std::vector<std::string> roots;          // in order of appearance
};
static World W;
struct Lst : public ExecListener {
  void implementNotifyNodeTransitions(std::vector<NodeTransition> const &ts) const override {
    for (auto const &t : ts) {
      if (t.node->getParent()) continue;
      Truth &x = W.truth[t.node->getNodeId()];
      if (t.oldState == INACTIVE_STATE) { W.roots.push_back(t.node->getNodeId()); ++x.live; ++x.begun; }
      x.s = t.newState; x.o = t.node->getOutcome(); x.f = t.node->getFailureType();
      if (t.newState == FINISHED_STATE) --x.live;
    }
  }
};
static std::string cmdNode(std::string const &id, std::string const &name, std::string const &args, std::string const &extra = "", std::string const &ret = "") {
  return "<Node NodeType=\"Command\"><NodeId>" + id + "</NodeId>" + extra + "<NodeBody><Command>" +
         (ret.empty() ? "" : "<StringVariable>" + ret + "</StringVariable>") +
         "<Name><StringValue>" + name + "</StringValue></Name>" + (args.empty() ? "" : "<Arguments>" + args + "</Arguments>") + "</Command></NodeBody></Node>";
}
static std::string finished(std::string const &id) {
  return "<EQInternal><NodeStateVariable><NodeRef dir=\"sibling\">" + id + "</NodeRef></NodeStateVariable><NodeStateValue>FINISHED</NodeStateValue></EQInternal>";
}
static std::string handleIs(std::string const &id, std::string const &h) {
  return "<EQInternal><NodeCommandHandleVariable><NodeRef dir=\"sibling\">" + id + "</NodeRef></NodeCommandHandleVariable><NodeCommandHandleValue>" + h + "</NodeCommandHandleValue></EQInternal>";
}
static std::string report(std::string const &c, int k, std::string const &ret) {
  std::string sc = "<StartCondition>" + finished(c) + "</StartCondition>";
  return cmdNode("S" + c, "reportS", "<IntegerValue>" + num(k) + "</IntegerValue>" + (ret.empty() ? "" : "<StringVariable>" + ret + "</StringVariable>"),
                 sc + "<SkipCondition><AND>" + finished(c) + "<NOT>" + handleIs(c, "COMMAND_SUCCESS") + "</NOT></AND></SkipCondition>") +
         cmdNode("F" + c, "reportF", "<IntegerValue>" + num(k) + "</IntegerValue>",
                 sc + "<SkipCondition><AND>" + finished(c) + "<NOT>" + handleIs(c, "COMMAND_FAILED") + "</NOT></AND></SkipCondition>");
}
static std::string planOf(std::string const &id, std::string const &decls, std::string const &kids) {
  return "<PlexilPlan><Node NodeType=\"NodeList\"><NodeId>" + id + "</NodeId>" + (decls.empty() ? "" : "<VariableDeclarations>" + decls + "</VariableDeclarations>") +
         "<NodeBody><NodeList>" + kids + "</NodeList></NodeBody></Node></PlexilPlan>";
}
static std::string emptyNode(std::string const &id, std::string const &conds) {
  return "<Node NodeType=\"Empty\"><NodeId>" + id + "</NodeId>" + conds + "</Node>";
}
static std::string libXml(Rng &r, Lib &l, std::string const &tag) {
  std::string in, args = "<StringValue>" + l.name + "</StringValue>";
  for (auto &p : l.p) {
    std::string T = TYN[p.ty], init;
    if (p.def) {
      if (p.arr) {
        std::vector<Value> el; std::string t;
        int n = r.range(1, 3);
        for (int i = 0; i < n; ++i) { Value v; std::string x = scalarText(r, p.ty, v); el.push_back(v); t += "<" + T + "Value>" + x + "</" + T + "Value>"; }
        switch (p.ty) { case 0: p.defV = mkArr<Integer>(el, n); break; case 1: p.defV = mkArr<Real>(el, n); break; case 2: p.defV = mkArr<Boolean>(el, n); break; default: p.defV = mkArr<String>(el, n); }
        init = "<InitialValue><ArrayValue Type=\"" + T + "\">" + t + "</ArrayValue></InitialValue>";
        in += "<DeclareArray><Name>" + p.name + "</Name><Type>" + T + "</Type><MaxSize>" + num(n) + "</MaxSize>" + init + "</DeclareArray>";
      } else {
        std::string x = scalarText(r, p.ty, p.defV);
        in += "<DeclareVariable><Name>" + p.name + "</Name><Type>" + T + "</Type><InitialValue><" + T + "Value>" + x + "</" + T + "Value></InitialValue></DeclareVariable>";
      }
    }
    else if (p.arr) in += "<DeclareArray><Name>" + p.name + "</Name><Type>" + T + "</Type><MaxSize>10</MaxSize></DeclareArray>";
    else in += "<DeclareVariable><Name>" + p.name + "</Name><Type>" + T + "</Type></DeclareVariable>";
    args += p.arr ? "<ArrayVariable>" + p.name + "</ArrayVariable>" : "<" + T + "Variable>" + p.name + "</" + T + "Variable>";
  }
  std::string kids = cmdNode("r", "rec", args), after = "<StartCondition>" + finished("r") + "</StartCondition>";
  switch (l.body) {
  case 1: kids += emptyNode("w", after + "<EndCondition>" + lookup("go" + tag, "<IntegerVariable>id</IntegerVariable>") + "</EndCondition>"); break;
  case 2: kids += emptyNode("n", after + "<EndCondition><BooleanValue>false</BooleanValue></EndCondition>"); break;
  case 3: kids += emptyNode("f", after + "<PostCondition><BooleanValue>false</BooleanValue></PostCondition>"); break;
  }
  return "<PlexilPlan><Node NodeType=\"NodeList\"><NodeId>" + l.name + "</NodeId>" + (in.empty() ? "" : "<Interface><In>" + in + "</In></Interface>") +
         "<NodeBody><NodeList>" + kids + "</NodeList></NodeBody></Node></PlexilPlan>";
}

struct Inst { std::string name; int lib, id; bool done = false; };
struct Direct { std::string name; int kind; int phase = 0; bool exits, post = true, rep = false, done = false, exited = false; };
struct Watch { std::string name; int kind; Expression *e; bool del; };

struct Case {
  Rng r; int no; std::string tag;
  std::unique_ptr<ExecApplication> app;
  std::vector<Lib> libs;
  std::vector<Inst> inst;
  std::vector<Direct> direct;
  std::vector<Watch> watches;
  std::map<int, std::string> waiters;    // report number -> plan name
  std::set<std::string> exitSet;         // names ExitPlan succeeded for
  std::set<std::string> everReturned;
  int nextId = 0, nextRep = 0, nextPlan = 0;
  bool bad = false;
  uint64_t h = 0;
  std::string what;
  Case(Rng q, int n) : r(q), no(n), tag("c" + num(n)) {}
  void fail(std::string const &k, std::string const &m) { viol(k, m + " [" + what + "]"); bad = true; }
  AdapterExecInterface *intf() { return app->manager(); }
  void settle() {
    for (int i = 0; i < 20; ++i) app->runExec();
  }
  bool add(std::string const &xml) {
    pugi::xml_document d;
    if (!d.load_string(xml.c_str(), pugi::parse_default | pugi::parse_ws_pcdata_single)) { fail("internal", "bad plan text " + xml); return false; }
    try { intf()->handleAddPlan(d.document_element()); }
    catch (ParserException const &e) { fail("internal", std::string("plan refused: ") + e.what() + xml); return false; }
    intf()->notifyOfExternalEvent();
    return true;
  }
  void watch(std::string const &name, bool onChange) {
    static const char *N[] = {"PlanState", "PlanOutcome", "PlanFailureType"};
    for (int k = 0; k < 3; ++k) {
      pugi::xml_document d;
      d.load_string(lookup(N[k], strLit(name), onChange).c_str(), pugi::parse_default | pugi::parse_ws_pcdata_single);
      NodeConnector *c = nullptr; bool del = false;
      Expression *e = createExpression(d.document_element(), c, del);
      e->activate();
      watches.push_back({name, k, e, del});
    }
  }
  Value expected(std::string const &name, int kind) {
    auto it = W.truth.find(name);
    if (it == W.truth.end()) return Value();
    if (kind == 0) return Value(nodeStateName(it->second.s));
    if (kind == 1) return it->second.o == NO_OUTCOME ? Value() : Value(outcomeName(it->second.o));
    return it->second.f == NO_FAILURE ? Value() : Value(failureTypeName(it->second.f));
  }
  void checkLookups() {
    static const char *N[] = {"PlanState", "PlanOutcome", "PlanFailureType"};
    auto one = [&](Watch const &w, const char *how) {
      Value want = expected(w.name, w.kind), got = w.e->toValue();
      R.add("lookups");
      if (want.isKnown()) R.add("known_lookups");
      if (!same(want, got)) fail("lookup", std::string(N[w.kind]) + "(" + w.name + ") shows " + show(got) + " instead of " + show(want) + how);
    };
    for (auto const &w : watches) one(w, "");
    // fresh ones
    if (!W.roots.empty()) {
      size_t n = watches.size();
      watch(W.roots[r.below((int)W.roots.size())], false);
      while (watches.size() > n) { one(watches.back(), " when asked afresh"); drop(watches.back()); watches.pop_back(); }
    }
  }
  void drop(Watch &w) { w.e->deactivate(); if (w.del) delete w.e; }

  // One StartPlan call, valid or with one mistake.
  struct Call { std::string args, decls; int lib = -1, id = -1, wrong = 0; std::vector<Value> expect; bool refuse = false; };
  Call call() {
    Call c;
    c.lib = r.below((int)libs.size());
    Lib &l = libs[c.lib];
    c.id = ++nextId;
    c.wrong = r.chance(35) ? r.range(1, 10) : 0;
    if (c.wrong == 6 && l.p.size() < 2) c.wrong = 0;
    std::vector<std::pair<std::string, std::string>> pairs;
    c.expect.push_back(Value(l.name));
    int victim = r.range(1, std::max(1, (int)l.p.size() - 1));
    for (size_t i = 0; i < l.p.size(); ++i) {
      Param &p = l.p[i];
      if (i == 0) { pairs.push_back({strLit("id"), "<IntegerValue>" + num(c.id) + "</IntegerValue>"}); c.expect.push_back(Value((Integer)c.id)); continue; }
      bool v = (int)i == victim;
      if (p.def && !(v && c.wrong) && r.chance(40)) { c.expect.push_back(p.defV); continue; }
      if (c.wrong == 6 && v && !p.def) continue;                      // a required parameter missing
      int ty = p.ty; bool arr = p.arr;
      if (c.wrong == 7 && v) { if (arr) arr = false; else if (ty == 0 || ty == 1) ty = 3; else ty = 0; }   // of another type
      Arg a = genArg(r, ty, arr, c.wrong == 8 && v && !arr);
      if (a.strGap) c.refuse = true;
      c.decls += a.decl;
      pairs.push_back({strLit(p.name), a.xml});
      c.expect.push_back(a.v);
      R.add(arr ? "array_args" : "scalar_args");
    }
    if (c.wrong == 6 && l.p[victim].def) c.wrong = 0;
    if ((c.wrong == 7 || c.wrong == 8) && l.p.size() < 2) c.wrong = 0;
    if (c.wrong == 8 && l.p[victim].arr) c.wrong = 0;
    for (size_t i = pairs.size(); i-- > 1;) std::swap(pairs[i], pairs[r.below((int)i + 1)]);
    std::string name = strLit(l.name);
    std::string nv = "v" + num(++varNo);
    switch (c.wrong) {
    case 1: name = strLit("NoSuchPlan" + tag); break;
    case 2: pairs.push_back({strLit("nosuch"), "<IntegerValue>1</IntegerValue>"}); break;
    case 3: pairs.push_back({strLit("id"), ""}); break;               // not in pairs
    case 4: name = "<IntegerValue>7</IntegerValue>"; break;
    case 5: name = "<StringVariable>" + nv + "</StringVariable>"; c.decls += "<DeclareVariable><Name>" + nv + "</Name><Type>String</Type></DeclareVariable>"; break;
    case 9: pairs[r.below((int)pairs.size())].first = r.chance(50) ? "<IntegerValue>3</IntegerValue>" : "<StringVariable>" + nv + "</StringVariable>";
            c.decls += "<DeclareVariable><Name>" + nv + "</Name><Type>String</Type></DeclareVariable>"; break;
    case 10: pairs.push_back(pairs[r.below((int)pairs.size())]); break;   // given twice
    }
    c.args = name;
    for (auto &p : pairs) c.args += p.first + p.second;
    if (c.wrong == 4 && r.chance(30)) c.args = "";
    if (c.wrong) c.refuse = true;
    return c;
  }
  void doStart(bool thenExit) {
    int k = thenExit ? 1 : r.chance(60) ? 1 : r.range(2, 4);
    std::vector<Call> cs; std::vector<int> reps; std::string decls, kids;
    int exitRep = -1;
    for (int i = 0; i < k; ++i) {
      Call c = call();
      int rep = ++nextRep; reps.push_back(rep);
      std::string id = "C" + num(i), ret = r.chance(90) || thenExit ? "ret" + num(i) : "";
      decls += c.decls;
      if (!ret.empty()) decls += "<DeclareVariable><Name>" + ret + "</Name><Type>String</Type></DeclareVariable>";
      kids += cmdNode(id, "StartPlan", c.args, "", ret) + report(id, rep, ret);
      if (thenExit) {
        exitRep = ++nextRep;
        kids += cmdNode("X", "ExitPlan", "<StringVariable>" + ret + "</StringVariable>", "<StartCondition>" + finished(id) + "</StartCondition>") + report("X", exitRep, "");
      }
      cs.push_back(c);
    }
    what = "start";
    size_t recs0 = W.recs.size(), ok0 = W.ok.size(), f0 = W.failed.size(), roots0 = W.roots.size();
    if (!add(planOf("P" + tag + "_" + num(++nextPlan), decls, kids))) return;
    settle();
    size_t started = 0, refused = 0;
    for (int i = 0; i < k; ++i) {
      Call &c = cs[i]; Lib &l = libs[c.lib];
      what = "start of " + l.name + " mistake " + num(c.wrong) + " args " + c.args;
      bool f = std::count(W.failed.begin() + f0, W.failed.end(), reps[i]) > 0;
      auto it = std::find_if(W.ok.begin() + ok0, W.ok.end(), [&](std::pair<int, Value> const &p) { return p.first == reps[i]; });
      bool ok = it != W.ok.end();
      if (ok == f) { fail("answer", ok ? "StartPlan both succeeded and failed" : "StartPlan neither succeeded nor failed"); return; }
      if (ok && c.refuse) { fail("refuse", "StartPlan with a mistake in its arguments succeeded"); return; }
      if (!ok && !c.refuse) { fail("start", "StartPlan with proper arguments failed"); return; }
      if (!ok) { ++refused; R.add("refused"); h = vc::mix(h, 1000 + c.wrong); continue; }
      ++started; R.add("started");
      h = vc::mix(h, l.body * 16 + l.p.size());
      // what it was called with
      long n = 0;
      for (size_t j = recs0; j < W.recs.size(); ++j) {
        Rec const &x = W.recs[j]; Integer id = 0;
        if (x.args.size() < 2 || !x.args[1].getValue(id) || id != c.id) continue;
        ++n;
        if (x.args.size() != c.expect.size()) { fail("args", "plan saw " + num((long)x.args.size()) + " parameters"); return; }
        for (size_t q = 0; q < x.args.size(); ++q)
          if (!same(x.args[q], c.expect[q])) { fail("args", "parameter " + num((long)q) + " is " + show(x.args[q]) + " instead of " + show(c.expect[q])); return; }
        R.add("params", (long)x.args.size());
      }
      if (n != 1) { if (!(thenExit && n == 0)) { fail("start", "started plan ran " + num(n) + " times"); return; } }
      if (it->second.isKnown()) {
        String const *s = nullptr;
        if (it->second.valueType() != STRING_TYPE || !it->second.getValuePointer(s)) { fail("answer", "StartPlan returned " + show(it->second)); return; }
        if (s->compare(0, l.name.size(), l.name)) { fail("answer", "plan was named " + *s); return; }
        if (!everReturned.insert(*s).second) { fail("answer", "the name " + *s + " was returned twice"); return; }
        if (W.truth.find(*s) == W.truth.end()) { fail("answer", "no plan of the returned name " + *s); return; }
        Inst x; x.name = *s; x.lib = c.lib; x.id = c.id;
        if (thenExit && l.body != 0 && l.body != 3) {
          if (std::count(W.ok.begin() + ok0, W.ok.end(), std::make_pair(exitRep, Value())) == 0) { fail("exit", "ExitPlan of a running plan failed"); return; }
          exitSet.insert(*s); x.done = true; R.add("exited");
          Truth &t = W.truth[*s];
          if (t.s != FINISHED_STATE || t.o != INTERRUPTED_OUTCOME || t.f != EXITED) { fail("exit", "plan told to exit is " + nodeStateName(t.s) + " " + outcomeName(t.o)); return; }
        }
        if (!x.done && (l.body == 0 || l.body == 3)) {
          x.done = true;
          Truth &t = W.truth[*s];
          bool exited = thenExit && t.o == INTERRUPTED_OUTCOME;
          if (t.s != FINISHED_STATE || (!exited && t.o != SUCCESS_OUTCOME)) { fail("start", "plan that ends at once is " + nodeStateName(t.s) + " " + outcomeName(t.o)); return; }
        }
        inst.push_back(x);
        if (r.chance(60)) watch(*s, true);
      }
    }
    if (W.roots.size() - roots0 != started + 1) fail("start", num((long)(W.roots.size() - roots0)) + " plans appeared instead of " + num((long)started + 1));
    if (W.recs.size() - recs0 > started) fail("start", "more plans ran than were started");
  }
  // Many plans started one after another by one plan: every one runs once, under a name of its own.
  void doBurst() {
    Call c; int tries = 0;
    do { c = call(); ++tries; } while (tries < 60 && (c.refuse || (libs[c.lib].body != 0 && libs[c.lib].body != 3)));
    if (tries == 60) return;
    long N = r.chance(50) ? r.range(20, 200) : r.range(200, 1300);
    what = "burst of " + num(N) + " " + libs[c.lib].name;
    int rep = ++nextRep;
    std::string kids = "<Node NodeType=\"NodeList\"><NodeId>I</NodeId><RepeatCondition><LT><IntegerVariable>n</IntegerVariable><IntegerValue>" + num(N) + "</IntegerValue></LT></RepeatCondition><VariableDeclarations>" + c.decls +
      "<DeclareVariable><Name>ret</Name><Type>String</Type></DeclareVariable></VariableDeclarations><NodeBody><NodeList>" + cmdNode("C", "StartPlan", c.args, "", "ret") + report("C", rep, "ret") +
      "<Node NodeType=\"Assignment\"><NodeId>K</NodeId><NodeBody><Assignment><IntegerVariable>n</IntegerVariable><NumericRHS><ADD><IntegerVariable>n</IntegerVariable><IntegerValue>1</IntegerValue></ADD></NumericRHS></Assignment></NodeBody></Node></NodeList></NodeBody></Node>";
    size_t recs0 = W.recs.size(), ok0 = W.ok.size(), f0 = W.failed.size(), roots0 = W.roots.size();
    if (!add(planOf("P" + tag + "_" + num(++nextPlan), "<DeclareVariable><Name>n</Name><Type>Integer</Type><InitialValue><IntegerValue>0</IntegerValue></InitialValue></DeclareVariable>", kids))) return;
    for (long i = 0; i < 40 * N && W.ok.size() - ok0 + (W.failed.size() - f0) < (size_t)N; ++i) app->runExec();
    settle();
    if (W.failed.size() != f0) { fail("start", "StartPlan with proper arguments failed"); return; }
    if (W.ok.size() != ok0 + (size_t)N) { fail("answer", num((long)(W.ok.size() - ok0)) + " answers to " + num(N) + " starts"); return; }
    if (W.recs.size() != recs0 + (size_t)N) { fail("start", num((long)(W.recs.size() - recs0)) + " runs of " + num(N) + " started plans"); return; }
    if (W.roots.size() != roots0 + 1 + (size_t)N) { fail("start", num((long)(W.roots.size() - roots0 - 1)) + " plans appeared instead of " + num(N)); return; }
    for (size_t i = ok0; i < W.ok.size(); ++i) {
      String const *s = nullptr;
      if (W.ok[i].first != rep || W.ok[i].second.valueType() != STRING_TYPE || !W.ok[i].second.getValuePointer(s)) { fail("answer", "StartPlan returned " + show(W.ok[i].second)); return; }
      if (!everReturned.insert(*s).second) { fail("answer", "the name " + *s + " was returned twice"); return; }
      auto t = W.truth.find(*s);
      if (t == W.truth.end()) { fail("answer", "no plan of the returned name " + *s); return; }
      if (t->second.s != FINISHED_STATE || t->second.o != SUCCESS_OUTCOME) { fail("start", "plan that ends at once is " + nodeStateName(t->second.s) + " " + outcomeName(t->second.o)); return; }
      Rec const &x = W.recs[recs0 + (i - ok0)];
      bool good = x.args.size() == c.expect.size();
      for (size_t q = 0; good && q < x.args.size(); ++q) good = same(x.args[q], c.expect[q]);
      if (!good) { fail("args", "a plan of the burst saw other arguments"); return; }
    }
    h = vc::mix(h, 5000 + N / 100);
    R.add("burst_starts", N);
  }
  std::string someName() {
    int k = r.below(10);
    if (k < 4 && !inst.empty()) return inst[r.below((int)inst.size())].name;
    if (k < 8 && !direct.empty()) return direct[r.below((int)direct.size())].name;
    if (k == 8 && !libs.empty()) return libs[0].name;
    return "Nobody" + tag;
  }
  void doExit() {
    int wrong = r.chance(20) ? r.range(1, 4) : 0;
    std::string name = someName(), args = strLit(name), decls;
    if (wrong == 1) args = "<IntegerValue>1</IntegerValue>";
    if (wrong == 2) { args = "<StringVariable>u</StringVariable>"; decls = "<DeclareVariable><Name>u</Name><Type>String</Type></DeclareVariable>"; }
    if (wrong == 3) args += strLit("more");
    if (wrong == 4) args = "";
    auto t = W.truth.find(name);
    int live = t == W.truth.end() ? 0 : t->second.live;
    bool want = !wrong && live == 1;
    what = "exit of " + name + " mistake " + num(wrong) + " live " + num(live);
    int rep = ++nextRep;
    size_t ok0 = W.ok.size(), f0 = W.failed.size();
    if (!add(planOf("P" + tag + "_" + num(++nextPlan), decls, cmdNode("X", "ExitPlan", args) + report("X", rep, "")))) return;
    settle();
    bool ok = W.ok.size() > ok0, f = W.failed.size() > f0;
    if (ok == f) { fail("answer", "ExitPlan neither succeeded nor failed"); return; }
    if (ok != want) { fail("exit", want ? "ExitPlan failed" : "ExitPlan without exactly one such plan succeeded"); return; }
    R.add(ok ? "exits" : "exits_refused");
    h = vc::mix(h, 2000 + wrong * 4 + live);
    if (ok) exitSet.insert(name);
    for (auto &x : inst) if (ok && x.name == name && !x.done) {
      x.done = true; R.add("exited");
      Truth &y = W.truth[name];
      if (y.s != FINISHED_STATE || y.o != INTERRUPTED_OUTCOME || y.f != EXITED) fail("exit", "plan told to exit is " + nodeStateName(y.s) + " " + outcomeName(y.o) + " " + failureTypeName(y.f));
    }
  }
  void doDirect() {
    Direct d;
    bool reuse = !direct.empty() && r.chance(30);
    d.name = reuse ? direct[r.below((int)direct.size())].name : "D" + tag + "_" + num(++nextPlan);
    d.kind = r.below(4);
    d.exits = r.chance(50);
    what = "plan " + d.name + " kind " + num(d.kind);
    std::string n = strLit(d.name), c;
    if (d.exits) c += "<ExitCondition>" + lookup("ExitPlan", n) + "</ExitCondition>";
    if (d.kind == 1) c += "<PostCondition><BooleanValue>false</BooleanValue></PostCondition>";
    if (d.kind == 2) c += "<SkipCondition><BooleanValue>true</BooleanValue></SkipCondition>";
    if (d.kind == 3) c += "<StartCondition><EQNumeric>" + lookup("phase" + tag, n) + "<IntegerValue>0</IntegerValue></EQNumeric></StartCondition>"
                          "<EndCondition><EQNumeric>" + lookup("phase" + tag, n) + "<IntegerValue>1</IntegerValue></EQNumeric></EndCondition>"
                          "<PostCondition>" + lookup("post" + tag, n) + "</PostCondition><RepeatCondition>" + lookup("rep" + tag, n) + "</RepeatCondition>";
    size_t roots0 = W.roots.size();
    if (d.kind == 3 && !reuse) {
      intf()->handleValueChange(State("phase" + tag, Value(d.name)), Value((Integer)0));
      intf()->handleValueChange(State("post" + tag, Value(d.name)), Value(true));
      intf()->handleValueChange(State("rep" + tag, Value(d.name)), Value(true));
      intf()->notifyOfExternalEvent();
      settle();
      roots0 = W.roots.size();
    }
    if (r.chance(50)) watch(d.name, true);
    if (!add("<PlexilPlan>" + emptyNode(d.name, c) + "</PlexilPlan>")) return;
    settle();
    if (W.roots.size() != roots0 + 1) fail("internal", "plan did not appear");
    if (reuse) R.add("names_reused");
    R.add("direct");
    h = vc::mix(h, 3000 + d.kind * 2 + reuse);
    direct.push_back(d);
  }
  void doWorld() {
    if (r.chance(50) && !inst.empty()) {
      Inst &x = inst[r.below((int)inst.size())];
      what = "go of " + x.name;
      intf()->handleValueChange(State("go" + tag, Value((Integer)x.id)), Value(true));
      intf()->notifyOfExternalEvent();
      settle();
      if (libs[x.lib].body == 1 && !x.done) {
        x.done = true; R.add("released");
        Truth &t = W.truth[x.name];
        if (t.s != FINISHED_STATE || t.o != SUCCESS_OUTCOME) fail("start", "plan " + x.name + " that can end is " + nodeStateName(t.s) + " " + outcomeName(t.o));
      }
    } else if (!direct.empty()) {
      Direct &d = direct[r.below((int)direct.size())];
      what = "world of " + d.name;
      int k = r.below(4);
      if (k == 0) intf()->handleValueChange(State("post" + tag, Value(d.name)), Value(r.chance(50)));
      else if (k == 1) intf()->handleValueChange(State("rep" + tag, Value(d.name)), Value(r.chance(70)));
      else { long b = W.truth[d.name].begun; (void)b; d.phase ^= 1; intf()->handleValueChange(State("phase" + tag, Value(d.name)), Value((Integer)d.phase)); }
      intf()->notifyOfExternalEvent();
      settle();
    }
  }
  void doWaiter() {
    std::string name = someName();
    int rep = ++nextRep;
    what = "waiter for " + name;
    if (!add(planOf("P" + tag + "_" + num(++nextPlan), "", cmdNode("w", "seen", "<IntegerValue>" + num(rep) + "</IntegerValue>",
             "<StartCondition><EQString>" + lookup("PlanState", strLit(name)) + "<StringValue>FINISHED</StringValue></EQString></StartCondition>")))) return;
    waiters[rep] = name;
    settle();
  }
  void checkWaiters() {
    for (auto it = waiters.begin(); it != waiters.end();) {
      bool seen = std::count(W.seen.begin(), W.seen.end(), it->first) > 0;
      auto t = W.truth.find(it->second);
      bool fin = t != W.truth.end() && t->second.s == FINISHED_STATE;
      if (fin && !seen) { fail("wait", "a plan waiting for " + it->second + " to finish did not notice"); return; }
      if (seen) { if (!fin && (t == W.truth.end() || t->second.begun < 1)) fail("wait", "a plan waiting for " + it->second + " went on early"); R.add("waiters"); it = waiters.erase(it); }
      else ++it;
    }
  }
  void doPrint() {
    int n = r.below(4);
    bool pretty = r.chance(50), toString = r.chance(60);
    std::string args, decls, want;
    for (int i = 0; i < n; ++i) {
      Arg a = genArg(r, r.below(4), r.chance(30), false);
      if (r.chance(20) && !a.arr) { a = genArg(r, a.ty, false, true); a.v = Value(); }
      args += a.xml; decls += a.decl;
      std::ostringstream s; s << a.v;
      want += s.str() + (pretty ? " " : "");
    }
    if (pretty) want += "\n";
    what = "print " + args;
    int rep = ++nextRep;
    size_t ok0 = W.ok.size();
    std::string kids, ret;
    if (toString) { ret = "ret"; decls += "<DeclareVariable><Name>ret</Name><Type>String</Type></DeclareVariable>"; }
    kids = cmdNode("C", toString ? (pretty ? "pprintToString" : "printToString") : (pretty ? "pprint" : "print"), args, "", ret) + report("C", rep, ret);
    std::ostringstream cap;
    std::streambuf *old = std::cout.rdbuf(cap.rdbuf());
    bool added = add(planOf("P" + tag + "_" + num(++nextPlan), decls, kids));
    settle();
    std::cout.rdbuf(old);
    if (!added) return;
    if (W.ok.size() != ok0 + 1) { fail("print", "print command did not succeed"); return; }
    Value got = W.ok.back().second;
    if (toString) { if (!same(got, Value(want))) fail("print", "printed " + show(got) + " instead of " + want); if (!cap.str().empty()) fail("print", "printed on the output"); }
    else if (cap.str() != want) fail("print", "printed " + cap.str() + " instead of " + want);
    R.add("prints");
  }
  void run() {
    W = World();
    // library plans
    std::string d = dir + "/" + tag;
    std::string cmd = "mkdir -p " + d;
    if (system(cmd.c_str())) { viol("internal", "no scratch directory"); return; }
    int nl = r.range(1, 4);
    for (int i = 0; i < nl; ++i) {
      Lib l; l.name = "L" + tag + "_" + num(i); l.body = r.below(4);
      l.p.push_back({"id", 0, false, false, Value()});
      int np = r.below(4);
      for (int j = 0; j < np; ++j) l.p.push_back({"p" + num(j), r.below(4), r.chance(35), r.chance(40), Value()});
      std::ofstream(d + "/" + l.name + ".plx") << "<?xml version=\"1.0\"?>" << libXml(r, l, tag);
      libs.push_back(l);
    }
    app.reset(makeExecApplication());
    pugi::xml_document cfg;
    auto ix = cfg.append_child("Interfaces");
    ix.append_child("Adapter").append_attribute("AdapterType").set_value("Launcher");
    ix.append_child("Adapter").append_attribute("AdapterType").set_value("Utility");
    app->configuration();
    app->addLibraryPath(d);
    if (!app->initialize(ix)) { viol("internal", "initialize failed"); return; }
    app->listenerHub()->addListener(new Lst);
    app->configuration()->setDefaultCommandHandlerFunction([](Command *c, AdapterExecInterface *i) {
      auto const &a = c->getArgValues();
      std::string const &n = c->getName();
      Integer k = 0;
      if (n == "rec") { Rec x; x.args = a; W.recs.push_back(x); }
      else if (n == "reportS") { a.at(0).getValue(k); W.ok.push_back({k, a.size() > 1 ? a[1] : Value()}); }
      else if (n == "reportF") { a.at(0).getValue(k); W.failed.push_back(k); }
      else if (n == "seen") { a.at(0).getValue(k); W.seen.push_back(k); }
      else viol("internal", "command " + n);
      i->handleCommandAck(c, COMMAND_SUCCESS);
      i->notifyOfExternalEvent();
    });
    if (!app->startInterfaces()) { viol("internal", "startInterfaces failed"); return; }
    int ops = r.range(4, 25);
    bool burst = no % 60 == 7;
    for (int i = 0; i < ops && !bad; ++i) {
      int k = r.below(20);
      if (i == 2 && burst) doBurst();
      else if (k < 7) doStart(false);
      else if (k < 9) doStart(true);
      else if (k < 12) doDirect();
      else if (k < 15) doWorld();
      else if (k < 17) doExit();
      else if (k < 18) doWaiter();
      else doPrint();
      if (!bad) checkLookups();
      if (!bad) checkWaiters();
      // plans nobody ended are still there
      for (auto &x : inst) if (!bad && !x.done && W.truth[x.name].live != 1) { fail("others", "plan " + x.name + " ended without being told to"); }
    }
    R.add("ops", ops); R.sig(h);
    R.sample(num(ops) + " operations, " + num((long)inst.size()) + " plans started, last: " + what);
    for (auto &w : watches) drop(w);
    app->stop();
    app.reset();
    for (auto &l : libs) unlink((d + "/" + l.name + ".plx").c_str());
    rmdir(d.c_str());
  }
};

int main(int argc, char **argv) {
  vc::Args A(argc, argv);
  uint64_t seed = A.num("seed", 1); long first = A.num("first", 0), n = A.num("cases", 10);
  Error::doThrowExceptions(); 
  dir = "/tmp/h_launch." + num(getpid());
  std::ostringstream sink; std::streambuf *old = std::cerr.rdbuf(sink.rdbuf());
  if (A.has("loud")) std::cerr.rdbuf(old);
  for (long c = first; c < first + n; ++c) {
    R.begin("launch:" + std::to_string(c));
    sink.str("");
    Case k(Rng(seed * 1000003ull + c), (int)c);
    k.run();
    R.add("cases");
  }
  std::cerr.rdbuf(old);
  rmdir(dir.c_str());
  R.finish();
  plexilRunFinalizers();
  return 0;
}
