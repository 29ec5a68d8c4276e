// C20: test scripts. The real test executive (its own main program) runs generated plans against
// generated scripts; a tap on its listener compares the plan's view after every step with what the
// script has said so far. Malformed scripts run in a child process, which has to refuse them.
#include "vcommon.hh"
#include "plexil-config.h"
#undef HAVE_DEBUG_LISTENER
#define HAVE_DEBUG_LISTENER 1
#undef HAVE_LUV_LISTENER
#define main test_exec_main
#include "exec-test-runner.cc"
#undef main
#include "CommandHandle.hh"
#include "ExecListener.hh"
#include "ExecListenerBase.hh"
#include "Expression.hh"
#include "Node.hh"
#include "PlanError.hh"
#include "ParserException.hh"
#include "StateCache.hh"
#include "State.hh"
#include "Value.hh"
#include "createExpression.hh"
#include "plan-utils.hh"
#include <fcntl.h>
#include <functional>
#include <dirent.h>
#include <memory>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace PLEXIL;
using vc::Rng;
static vc::Report R;
static std::string dir;

static std::string esc(std::string const &s, bool attr = false) {
  std::string o;
  for (char c : s) switch (c) {
    case '<': o += "&lt;"; break; case '>': o += "&gt;"; break; case '&': o += "&amp;"; break;
    case '"': o += "&quot;"; break; default: o += c; }
  return o;
}
static void put(std::string const &name, std::string const &text) {
  FILE *f = fopen((dir + "/" + name).c_str(), "w"); fwrite(text.data(), 1, text.size(), f); fclose(f);
}
static std::string num(double d) { char b[64]; snprintf(b, sizeof b, "%.17g", d); return b; }
static std::string show(Value const &v) { std::ostringstream s; s << v; return std::string(valueTypeName(v.valueType())) + " " + s.str(); }

// ---------------------------------------------------------------- values
enum T { B, I, RE, S, BA, IA, RA, SA };
static char const *stype[] = {"bool", "int", "real", "string", "bool-array", "int-array", "real-array", "string-array"};
static char const *ptype[] = {"Boolean", "Integer", "Real", "String", "Boolean", "Integer", "Real", "String"};
struct V { T t = B; bool known = true; Value v; std::vector<std::string> text; std::vector<Value> els; };

static std::string word(Rng &r) {
  static std::vector<std::string> w = {"a", "Rock", "x y", "<&>", "\"q\"", "true", "0", "-1", "UNKNOWNs", "#(1 2)", "caf\xc3\xa9", "a,b", "1e5", "it's", "  lead", "Trail ", "null"};
  std::string s = r.pick(w); if (r.chance(30)) s += std::to_string(r.below(1000)); return s;
}
static std::string boolText(Rng &r, bool b) {
  static char const *t[] = {"true", "1", "TRUE", "True"}, *f[] = {"false", "0", "FALSE", "False"};
  int i = r.below(4); return b ? t[i] : f[i];
}
static Value scalar(Rng &r, T t, std::string &text) {
  switch (t) {
  case B: case BA: { bool b = r.chance(50); text = boolText(r, b); return Value(b); }
  case I: case IA: { Integer i = r.chance(15) ? (r.chance(50) ? INT32_MAX : INT32_MIN) : r.range(-50, 50); text = std::to_string(i); return Value(i); }
  case RE: case RA: { double d = r.chance(20) ? r.unit() * 1e9 - 5e8 : r.chance(10) ? 1.5e300 : r.range(-400, 400) * 0.25; text = r.chance(20) && std::abs(d) < 1e6 && d == (long)d ? std::to_string((long)d) : num(d); return Value((Real)d); }
  default: { text = word(r); return Value(text); }
  }
}
static Value typedUnknown(T t) { switch (t) { case B: return Value(BOOLEAN_TYPE); case I: return Value(INTEGER_TYPE); case RE: return Value(REAL_TYPE); case S: return Value(STRING_TYPE); default: return Value(); } }
static V gen(Rng &r, T t, int unk, int n = -1) {
  V v; v.t = t;
  static char const *unkTxt[] = {"Plexil_Unknown", "PLEXIL_UNKNOWN", "plexil_unknown"};
  if (t < BA) {
    std::string s;
    if (r.chance(unk)) { v.known = false; v.v = Value(); v.text.push_back(unkTxt[r.below(3)]); return v; }
    v.v = scalar(r, t, s); v.text.push_back(s); return v;
  }
  if (n < 0) n = r.range(1, 5);
  bool any = false;
  for (int i = 0; i < n; ++i) {
    std::string s; Value e;
    if (r.chance(unk) && !(i == n - 1 && !any)) { e = Value(); s = unkTxt[r.below(3)]; } else { e = scalar(r, t, s); any = true; }
    v.els.push_back(e); v.text.push_back(s);
  }
  if (!any) { std::string s; v.els[0] = scalar(r, t, s); v.text[0] = s; }
  v.v = Value(v.els);
  return v;
}
static bool same(Value const &a, Value const &b) {
  if (!a.isKnown() || !b.isKnown()) return a.isKnown() == b.isKnown();
  return a == b && isArrayType(a.valueType()) == isArrayType(b.valueType());
}
// Element by element, from the public array interface.
static bool sameV(Value const &got, V const &want) {
  if (!want.known) return !got.isKnown();
  if (want.t < BA) { return got.isKnown() && got == want.v && got.valueType() == want.v.valueType(); }
  Array const *a = nullptr;
  if (!got.getValuePointer(a) || !a) return false;
  if (a->size() != want.els.size()) return false;
  for (size_t i = 0; i < want.els.size(); ++i) if (!same(a->getElementValue(i), want.els[i])) return false;
  return true;
}

// ---------------------------------------------------------------- the case
struct Arg { T t = B; std::string text; Value v; bool unk = false; std::string psx() const; };
struct St { std::string name; std::vector<Arg> args; T t = B; V cur; bool set = false; std::unique_ptr<Expression> e[2]; };
struct Cmd { std::string name; std::vector<Arg> args; bool ret = false; T rt = I; int rsize = 0; bool returned = false, aborting = false, done = false, acked = false; std::string handle; V val; };
struct Upd { bool acked = false; };
struct Ev { std::string xml; std::string what; };
struct Case {
  std::vector<St> sts; std::vector<Cmd> cmds; std::vector<Upd> upds; int plans = 0, sent = 0; bool lib = false;
  std::string printText; int nPrint = 0; std::string toStr; bool pretty = false;
  std::vector<std::function<void()>> apply;   // what each event does to the model
  std::vector<std::string> what;
  size_t at = 0; long steps = 0; bool failed = false;
};
static Case *C = nullptr;
static long *shared = nullptr;                 // steps seen by a child

std::string Arg::psx() const {
  std::string ty = t == S && !unk && !text.empty() && vc::hashStr(text) % 2 ? "" : std::string(" type=\"") + stype[t] + "\"";
  return "<Param" + ty + ">" + esc(unk ? "UNKNOWN" : text) + "</Param>";
}
static std::string lit(Arg const &a) {
  switch (a.t) {
  case B: { bool b; a.v.getValue(b); return std::string("<BooleanValue>") + (b ? "true" : "false") + "</BooleanValue>"; }
  case I: { Integer i; a.v.getValue(i); return "<IntegerValue>" + std::to_string(i) + "</IntegerValue>"; }
  case RE: { Real d; a.v.getValue(d); return "<RealValue>" + num(d) + "</RealValue>"; }
  default: return "<StringValue>" + esc(a.text) + "</StringValue>";
  }
}
static std::vector<Arg> genArgs(Rng &r, int unk) {
  std::vector<Arg> a; int n = r.chance(40) ? 0 : r.range(1, 3);
  for (int i = 0; i < n; ++i) {
    Arg x; x.t = (T)r.below(4);
    if (r.chance(unk)) { x.unk = true; x.v = typedUnknown(x.t); }
    else { x.v = scalar(r, x.t, x.text); if (x.t == S && r.chance(15)) { x.text = ""; x.v = Value(""); } }
    a.push_back(x);
  }
  return a;
}
// Two calls are the same if their arguments are, however written; 1 and 1.0 are.
static std::string keyOf(std::string k, std::vector<Arg> const &args) {
  for (auto &a : args) {
    k += "|";
    if (a.unk) k += "?";
    else if (a.t == B) { bool b; a.v.getValue(b); k += b ? "T" : "F"; }
    else if (a.t == I) { Integer i; a.v.getValue(i); k += num(i); }
    else if (a.t == RE) { Real d; a.v.getValue(d); k += num(d); }
    else k += "S" + a.text;
  }
  return k;
}
static std::string params(std::vector<Arg> const &a) { std::string s; for (auto &x : a) s += x.psx(); return s; }
static std::string results(V const &v, char const *tag) { std::string s; for (auto &t : v.text) s += std::string("<") + tag + ">" + esc(t) + "</" + tag + ">"; return s; }

static std::string stateXml(St const &s, V const &v, bool noArgs = false) {
  return "<State name=\"" + esc(s.name) + "\" type=\"" + stype[v.t] + "\">" + (noArgs ? "" : params(s.args)) + results(v, "Value") + "</State>";
}
static std::string cmdXml(char const *tag, Cmd const &c, char const *type, std::string const &res) {
  return std::string("<") + tag + " name=\"" + esc(c.name) + "\" type=\"" + type + "\">" + params(c.args) + res + "</" + tag + ">";
}
static std::string callXml(std::string const &name, std::vector<Arg> const &args, int node) {
  std::string s = "<Name><StringValue>" + esc(name) + "</StringValue></Name>";
  if (!args.empty()) {
    s += "<Arguments>";
    for (size_t i = 0; i < args.size(); ++i)
      s += args[i].unk ? std::string("<") + ptype[args[i].t] + "Variable>u" + std::to_string(node) + "_" + std::to_string(i) + "</" + ptype[args[i].t] + "Variable>" : lit(args[i]);
    s += "</Arguments>";
  }
  return s;
}
static std::string handleOf(int i) { static char const *h[] = {"COMMAND_SENT_TO_SYSTEM", "COMMAND_ACCEPTED", "COMMAND_RCVD_BY_SYSTEM", "COMMAND_FAILED", "COMMAND_DENIED", "COMMAND_SUCCESS", "COMMAND_INTERFACE_ERROR"}; return h[i % 7]; }

static std::string planXml(Case &c, std::vector<Arg> const &printArgs) {
  std::string p = "<PlexilPlan><Node NodeType=\"NodeList\"><NodeId>Root</NodeId><EndCondition><BooleanValue>false</BooleanValue></EndCondition><NodeBody><NodeList>";
  for (size_t i = 0; i < c.cmds.size(); ++i) {
    Cmd &k = c.cmds[i]; std::string id = std::to_string(i), decl, lhs;
    for (size_t j = 0; j < k.args.size(); ++j) if (k.args[j].unk)
      decl += "<DeclareVariable><Name>u" + id + "_" + std::to_string(j) + "</Name><Type>" + ptype[k.args[j].t] + "</Type></DeclareVariable>";
    if (k.ret) {
      std::string nm = "r" + id;
      if (k.rt < BA) { decl += "<DeclareVariable><Name>" + nm + "</Name><Type>" + ptype[k.rt] + "</Type></DeclareVariable>"; lhs = std::string("<") + ptype[k.rt] + "Variable>" + nm + "</" + ptype[k.rt] + "Variable>"; }
      else { decl += "<DeclareArray><Name>" + nm + "</Name><Type>" + ptype[k.rt] + "</Type><MaxSize>" + std::to_string(k.rsize) + "</MaxSize></DeclareArray>"; lhs = "<ArrayVariable>" + nm + "</ArrayVariable>"; }
    }
    p += "<Node NodeType=\"Command\"><NodeId>C" + id + "</NodeId>" + (decl.empty() ? "" : "<VariableDeclarations>" + decl + "</VariableDeclarations>") +
         "<InvariantCondition><NOT><LookupOnChange><Name><StringValue>" + esc(c.sts[c.sts.size() - c.cmds.size() + i].name) + "</StringValue></Name></LookupOnChange></NOT></InvariantCondition>"
         "<EndCondition><BooleanValue>false</BooleanValue></EndCondition><NodeBody><Command>" + lhs + callXml(k.name, k.args, (int)i) + "</Command></NodeBody></Node>";
  }
  for (size_t i = 0; i < c.upds.size(); ++i)
    p += "<Node NodeType=\"Update\"><NodeId>U" + std::to_string(i) + "</NodeId><NodeBody><Update><Pair><Name>a</Name><IntegerValue>1</IntegerValue></Pair></Update></NodeBody></Node>";
  if (c.nPrint) {
    p += std::string("<Node NodeType=\"Command\"><NodeId>P</NodeId><NodeBody><Command>") + callXml(c.pretty ? "pprint" : "print", printArgs, 0) + "</Command></NodeBody></Node>";
    p += std::string("<Node NodeType=\"Command\"><NodeId>PS</NodeId><VariableDeclarations><DeclareVariable><Name>ps</Name><Type>String</Type></DeclareVariable></VariableDeclarations><EndCondition><BooleanValue>false</BooleanValue></EndCondition><NodeBody><Command><StringVariable>ps</StringVariable>") + callXml(c.pretty ? "pprintToString" : "printToString", printArgs, 0) + "</Command></NodeBody></Node>";
  }
  if (c.lib) p += "<Node NodeType=\"LibraryNodeCall\"><NodeId>LC</NodeId><NodeBody><LibraryNodeCall><NodeId>Lk</NodeId></LibraryNodeCall></NodeBody></Node>";
  return p + "</NodeList></NodeBody></Node></PlexilPlan>";
}

// ---------------------------------------------------------------- the tap
static void bad(std::string const &kind, std::string const &m) {
  if (C->failed) return;
  C->failed = true;
  R.viol(kind, "after " + (C->at ? C->what[C->at - 1] : std::string("the initial state")) + ": " + m);
}
static Node *child(Node *n, std::string const &id) { for (auto const &c : dynamic_cast<NodeImpl *>(n)->getChildren()) if (c->getNodeId() == id) return c.get(); return nullptr; }
static Expression *local(Node *n, char const *name) { return dynamic_cast<NodeConnector *>(n)->findVariable(name); }

static Expression *exprOf(std::string const &x, NodeConnector *nc, bool &created) {
  pugi::xml_document d; d.load_string(x.c_str(), pugi::parse_default | pugi::parse_ws_pcdata_single);
  return createExpression(d.document_element(), nc, created);
}
static void observe() {
  Case &c = *C;
  Node *root = nullptr; int roots = 0, sentSeen = 0;
  for (auto const &n : g_exec->getPlans()) { ++roots; if (n->getNodeId() == "Root") root = n.get(); else if (n->getNodeId().rfind("Sent", 0) == 0 && n->getState() == FINISHED_STATE) ++sentSeen; }
  if (!root) { bad("lost", "the plan is not there"); return; }
  if (sentSeen != c.sent) bad("plan", std::to_string(sentSeen) + " plans were received from the script and run, " + std::to_string(c.sent) + " were sent");
  NodeConnector *rc = dynamic_cast<NodeConnector *>(root);
  for (auto &s : c.sts) {
    for (int k = 0; k < 2; ++k) {                 // a standing lookup and one made now
      if (k == 1 || !s.e[0]) {
        bool cr; std::string tag = k ? "LookupNow" : "LookupOnChange";
        s.e[k].reset(exprOf("<" + tag + ">" + callXml(s.name, s.args, 0) + "</" + tag + ">", rc, cr));
        s.e[k]->activate();
      }
      Value v = s.e[k]->toValue(); R.add("lookups");
      if (s.set ? !sameV(v, s.cur) : v.isKnown())
        bad("state", "lookup " + s.name + params(s.args) + " is " + show(v) + ", the script says " + (s.set ? show(s.cur.v) : std::string("nothing")));
      if (k) { s.e[1]->deactivate(); s.e[1].reset(); }
    }
  }
  // A step that sends something out leaves what follows from it to the next.
  if (g_exec->needsStep()) { R.add("unsettled"); return; }
  R.add("settled");
  for (size_t i = 0; i < c.cmds.size(); ++i) {
    Cmd &k = c.cmds[i]; std::string id = "C" + std::to_string(i);
    Node *n = child(root, id);
    NodeState want = k.done ? FINISHED_STATE : k.aborting ? FAILING_STATE : EXECUTING_STATE;
    if (!k.aborting && k.acked && (k.handle == "COMMAND_FAILED" || k.handle == "COMMAND_DENIED" || k.handle == "COMMAND_INTERFACE_ERROR")) want = FINISHED_STATE;
    R.add("nodes");
    if (n->getState() != want) bad("command", id + " (" + k.name + ") is " + nodeStateName(n->getState()) + ", not " + nodeStateName(want));
    bool cr; Expression *h = exprOf("<NodeCommandHandleVariable><NodeId>" + id + "</NodeId></NodeCommandHandleVariable>", rc, cr);
    h->activate(); Value hv = h->toValue(); h->deactivate(); if (cr) delete h;
    if (!k.aborting) {
      std::ostringstream hs; hs << hv;
      if (hv.isKnown() ? hs.str() != k.handle : !k.handle.empty()) bad("handle", id + " (" + k.name + ") has handle " + hs.str() + ", the script said " + (k.handle.empty() ? std::string("nothing") : k.handle));
    }
    if (k.ret && want != FINISHED_STATE) {
      Value v = local(n, ("r" + std::to_string(i)).c_str())->toValue();
      if (k.returned ? !sameV(v, k.val) : v.isKnown() && (k.rt < BA)) bad("return", id + " (" + k.name + ") returned " + show(v) + ", the script said " + (k.returned ? show(k.val.v) : std::string("nothing")));
    }
  }
  for (size_t i = 0; i < c.upds.size(); ++i) {
    Node *n = child(root, "U" + std::to_string(i)); R.add("nodes");
    if (n->getState() != (c.upds[i].acked ? FINISHED_STATE : EXECUTING_STATE)) bad("update", "U" + std::to_string(i) + " is " + nodeStateName(n->getState()) + (c.upds[i].acked ? " though acknowledged" : " though not acknowledged"));
  }
  if (c.nPrint) {
    Value v = local(child(root, "PS"), "ps")->toValue(); std::string const *s;
    if (!v.getValuePointer(s) || *s != c.toStr) bad("print", "printing to a string gave " + show(v) + " not " + c.toStr);
  }
  if (c.lib && c.steps == 1) { Node *n = child(root, "LC"); if (n->getState() != FINISHED_STATE) bad("library", std::string("the library call is ") + nodeStateName(n->getState())); }
}
struct Tap : ExecListenerBase {
  ExecListenerBase *hub;
  void notifyOfTransitions(std::vector<NodeTransition> const &t) override { hub->notifyOfTransitions(t); }
  void notifyOfAssignment(Expression const *e, std::string const &n, Value const &v) override { hub->notifyOfAssignment(e, n, v); }
  void stepComplete(unsigned int n) override {
    hub->stepComplete(n);
    if (shared) { ++*shared; return; }
    Case &c = *C; ++c.steps; R.add("steps");
    // The first step follows the initial states, each later one an event; after the script the
    // executive may need more.
    if (c.steps > 1 && c.at < c.apply.size()) { c.apply[c.at](); ++c.at; }
    if (!c.failed) observe();
  }
};
static Tap tap;
struct Quiet : ExecListener { ~Quiet() { if (C) for (auto &s : C->sts) for (auto &e : s.e) if (e) { e->deactivate(); e.reset(); } } };
namespace PLEXIL { ExecListener *makePlanDebugListener() { tap.hub = g_exec->getExecListener(); g_exec->setExecListener(&tap); return new Quiet; } }

// ---------------------------------------------------------------- generation
struct Script { std::string initial; std::vector<std::string> evs; std::vector<int> kinds; };
static int runMain(std::vector<std::string> const &args) {
  std::vector<char *> av; static std::string prog = "exec-test-runner"; av.push_back((char *)prog.c_str());
  for (auto &a : args) av.push_back((char *)a.c_str());
  av.push_back(nullptr);
  // The finalizers end the process for good, so only a child runs them.
  return shared ? test_exec_main((int)av.size() - 1, av.data()) : run((int)av.size() - 1, av.data());
}
static std::string scriptXml(Script const &s) {
  std::string x = "<PLEXILScript>" + s.initial + "<Script>"; for (auto &e : s.evs) x += e; return x + "</Script></PLEXILScript>";
}
static void build(Rng &r, Case &c, Script &sc, bool apply, std::vector<Arg> &printArgs) {
  // What the executive knows of states outlives a run: no name is used twice.
  static int serial = 0; std::string tag = "#" + std::to_string(++serial);
  // commands with distinct names or arguments
  int nc = r.range(0, 4), nu = r.range(0, 2), ns = r.range(1, 4); std::set<std::string> used;
  static std::vector<std::string> names = {"go", "take a picture", "drive", "A&B"};
  for (int i = 0; i < nc; ++i) {
    Cmd k; k.name = r.pick(names); k.args = genArgs(r, 15); k.ret = r.chance(60); k.rt = (T)r.below(8); k.rsize = r.range(1, 4);
    // A typeless unknown string and the like: two commands must differ in more than that.
    std::string key = keyOf(k.name, k.args);
    if (!used.insert(key).second) { k.name += std::to_string(i); }
    c.cmds.push_back(std::move(k));
  }
  c.upds.resize(nu);
  used.clear();
  static std::vector<std::string> snames = {"At", "battery", "x y", "speed", "<s>"};
  for (int i = 0; i < ns; ++i) {
    St s; s.name = r.pick(snames) ; s.args = genArgs(r, 0); s.t = (T)r.below(8);
    std::string key = keyOf(s.name, s.args);
    if (!used.insert(key).second) s.name += std::to_string(i);
    s.name += tag;
    c.sts.push_back(std::move(s));
  }
  for (int i = 0; i < nc; ++i) { St s; s.name = "abort" + std::to_string(i) + tag; s.t = B; c.sts.push_back(std::move(s)); }
  c.lib = r.chance(25);
  if (r.chance(30)) {
    c.nPrint = 1; c.pretty = r.chance(50); printArgs = genArgs(r, 0);
    std::ostringstream o; for (auto &a : printArgs) { o << a.v; if (c.pretty) o << " "; } if (c.pretty) o << "\n"; c.toStr = o.str();
    c.printText = c.toStr;
  }
  auto setState = [&](size_t i, V v) { return [&c, i, v]() { c.sts[i].cur = v; c.sts[i].set = true; }; };
  V no; no.t = B; no.v = Value(false); no.text = {"false"};
  V yes; yes.t = B; yes.v = Value(true); yes.text = {"true"};
  // initial state: the abort flags have to be known
  sc.initial = "<InitialState>";
  std::vector<int> order; for (size_t i = 0; i < c.sts.size(); ++i) order.push_back((int)i);
  for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.below((int)i)]);
  for (int i : order) {
    bool ab = i >= ns;
    if (!ab && r.chance(40)) continue;
    V v = ab ? no : gen(r, c.sts[i].t, 10);
    if (r.chance(10) && !ab) { V w = gen(r, c.sts[i].t, 10); sc.initial += stateXml(c.sts[i], w); } // overridden at once
    sc.initial += stateXml(c.sts[i], v); setState(i, v)();
  }
  sc.initial += "</InitialState>";
  if (!nc && r.chance(20)) { sc.initial = ""; for (auto &s : c.sts) s.set = false; }

  // the model while generating
  struct G { bool returned = false, aborting = false, done = false; bool over = false; };
  std::vector<G> g(nc); std::vector<bool> gu(nu); int plansSent = 0;
  int ne = r.range(0, 12);
  for (int e = 0; e < ne; ++e) {
    int group = r.chance(20) ? r.range(0, 4) : -1;
    std::string xml; std::vector<std::function<void()>> fs; std::string what; std::set<int> touched;
    for (int q = 0; q < (group < 0 ? 1 : group); ++q) {
      for (int tries = 0; tries < 20; ++tries) {
        int kind = r.below(group < 0 ? 8 : 6);
        if (kind == 0) {
          int i = r.below(ns); V v = gen(r, c.sts[i].t, 12);
          xml += stateXml(c.sts[i], v); fs.push_back(setState(i, v)); what += " state " + c.sts[i].name; R.add("ev_state"); break;
        }
        if (kind <= 4 && nc) {
          int i = r.below(nc); if (g[i].over || (g[i].done)) continue;
          if (touched.count(i)) continue;
          Cmd &k = c.cmds[i];
          if (kind == 1 && !g[i].aborting) {
            std::string h = handleOf(r.below(7));
            xml += cmdXml("CommandAck", k, r.chance(80) ? "string" : "string", "<Result>" + h + "</Result>");
            fs.push_back([&c, i, h]() { c.cmds[i].handle = h; c.cmds[i].acked = true; }); what += " ack C" + std::to_string(i) + " " + h;
            if (h == "COMMAND_FAILED" || h == "COMMAND_DENIED" || h == "COMMAND_INTERFACE_ERROR") g[i].over = true;
            touched.insert(i); R.add("ev_ack"); break;
          }
          if (kind == 2 && k.ret && !g[i].returned && !g[i].aborting) {
            V v = gen(r, k.rt, 10, k.rt >= BA ? k.rsize : -1);
            xml += cmdXml("Command", k, stype[k.rt], results(v, "Result"));
            fs.push_back([&c, i, v]() { c.cmds[i].returned = true; c.cmds[i].val = v; }); g[i].returned = true; what += " return C" + std::to_string(i); touched.insert(i); R.add("ev_return"); break;
          }
          if (kind == 3 && !g[i].aborting) {
            int s = ns + i; xml += stateXml(c.sts[s], yes); auto f = setState(s, yes);
            fs.push_back([&c, i, f]() { f(); c.cmds[i].aborting = true; }); g[i].aborting = true; what += " make C" + std::to_string(i) + " fail"; touched.insert(i); R.add("ev_fail"); break;
          }
          if (kind == 4 && g[i].aborting) {
            // a refusal leaves the node failing; either answers the abort
            bool ok = r.chance(85);
            xml += cmdXml("CommandAbort", k, "bool", "<Result>" + boolText(r, ok) + "</Result>");
            fs.push_back([&c, i, ok]() { if (ok) c.cmds[i].done = true; }); g[i].done = true; what += " abort C" + std::to_string(i); touched.insert(i); R.add("ev_abort"); break;
          }
          continue;
        }
        if (kind == 5 && nu) {
          int i = r.below(nu); if (gu[i] || touched.count(100 + i)) continue;
          gu[i] = true; xml += "<UpdateAck name=\"U" + std::to_string(i) + "\"/>"; fs.push_back([&c, i]() { c.upds[i].acked = true; }); what += " update U" + std::to_string(i); touched.insert(100 + i); R.add("ev_update"); break;
        }
        if (kind == 6) { xml += "<Delay/>"; what += " delay"; R.add("ev_delay"); break; }
        if (kind == 7) {
          std::string f = "sent" + std::to_string(plansSent) + ".plx"; ++plansSent;
          put(f, "<PlexilPlan><Node NodeType=\"Empty\"><NodeId>Sent" + f.substr(4, 1) + "</NodeId></Node></PlexilPlan>");
          xml += "<SendPlan file=\"" + dir + "/" + f + "\"/>"; fs.push_back([&c]() { ++c.sent; }); what += " plan"; R.add("ev_plan"); break;
        }
      }
    }
    if (group >= 0) { xml = "<Simultaneous>" + xml + "</Simultaneous>"; what = " together:" + what; R.add("ev_group"); }
    if (xml.empty()) continue;
    sc.evs.push_back(xml); c.what.push_back(std::to_string(sc.evs.size()) + what);
    c.apply.push_back([fs]() { for (auto &f : fs) f(); });
  }
}
static std::vector<std::string> options(Rng &r, Case &c) {
  std::vector<std::vector<std::string>> o = {{"-p", dir + "/plan.plx"}, {"-s", dir + "/script.psx"}};
  if (r.chance(50)) o.push_back({"+d"}); else if (r.chance(50)) o.push_back({"-d", dir + "/none.cfg"});
  if (r.chance(50)) o.push_back({"+r"}); else if (r.chance(50)) o.push_back({"-r", dir + "/none.data"});
  if (c.lib) { if (r.chance(50)) o.push_back({"-L", dir}); else o.push_back({"-l", dir + (r.chance(50) ? "/Lk.plx" : "/Lk")}); put("Lk.plx", "<PlexilPlan><Node NodeType=\"Empty\"><NodeId>Lk</NodeId></Node></PlexilPlan>"); }
  for (size_t i = o.size(); i > 1; --i) std::swap(o[i - 1], o[r.below((int)i)]);
  std::vector<std::string> a; for (auto &x : o) for (auto &y : x) a.push_back(y);
  return a;
}

static void good(uint64_t seed) {
  Rng r(seed); Case c; C = &c; Script sc; std::vector<Arg> pa;
  build(r, c, sc, true, pa);
  put("plan.plx", planXml(c, pa)); put("script.psx", scriptXml(sc));
  auto args = options(r, c);
  std::ostringstream out; std::streambuf *old = std::cout.rdbuf(out.rdbuf());
  int rc = -1; std::string err;
  try { rc = runMain(args); }
  catch (std::exception &e) { err = e.what(); }
  std::cout.rdbuf(old);
  if (!err.empty()) { R.viol("internal", "an error was raised at event " + (c.at < c.what.size() ? c.what[c.at] : std::string("end")) + ": " + err); R.finish(false); fflush(stdout); _exit(1); }
  if (rc) { bad("refused", "a well-formed script was refused, status " + std::to_string(rc)); }
  else if (!c.failed) {
    if (c.at != c.apply.size()) bad("steps", "only " + std::to_string(c.steps) + " steps for " + std::to_string(c.apply.size()) + " events");
    if (c.nPrint && out.str() != c.printText) bad("print", "printed \"" + out.str() + "\" not \"" + c.printText + "\"");
  }
  uint64_t h = 7; for (auto &e : c.what) h = vc::mix(h, vc::hashStr(e)); R.sig(h);
  R.add("events", (long)sc.evs.size()); R.add("scripts");
  if (sc.evs.size() > 3) R.sample(scriptXml(sc));
  C = nullptr;
}

// ---------------------------------------------------------------- refusal
static std::string slurp(std::string const &f) { FILE *p = fopen(f.c_str(), "r"); std::string s; if (!p) return s; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, p)) > 0) s.append(b, n); fclose(p); return s; }
static bool cut(std::string &s, std::string const &a, std::string const &b) { size_t i = s.find(a); if (i == std::string::npos) return false; s.replace(i, a.size(), b); return true; }

static void refuse(uint64_t seed) {
  Rng r(seed); Case c; C = nullptr; Script sc; std::vector<Arg> pa;
  build(r, c, sc, false, pa); c.lib = false; 
  std::string plan = planXml(c, pa);
  // Break one thing. limit: steps that may be taken.
  size_t at = r.below((int)sc.evs.size() + 1); long limit = 1 + (long)at; std::string broken, what;
  std::vector<std::string> args;
  std::string st = "<State name=\"battery\" type=\"int\"><Value>5</Value></State>", nosuch = "<Command name=\"never\" type=\"int\"><Result>1</Result></Command>";
  static std::vector<std::pair<char const *, char const *>> breaks = {
    {"unknown element", "<Sttae name=\"battery\" type=\"int\"><Value>5</Value></Sttae>"},
    {"state without name", "<State type=\"int\"><Value>5</Value></State>"},
    {"state without type", "<State name=\"battery\"><Value>5</Value></State>"},
    {"state without value", "<State name=\"battery\" type=\"int\"></State>"},
    {"state with unknown type", "<State name=\"battery\" type=\"complex\"><Value>5</Value></State>"},
    {"integer that is no number", "<State name=\"battery\" type=\"int\"><Value>five</Value></State>"},
    {"integer with rubbish", "<State name=\"battery\" type=\"int\"><Value>5x</Value></State>"},
    {"integer with fraction", "<State name=\"battery\" type=\"int\"><Value>5.5</Value></State>"},
    {"integer out of range", "<State name=\"battery\" type=\"int\"><Value>99999999999</Value></State>"},
    {"real that is no number", "<State name=\"battery\" type=\"real\"><Value>abc</Value></State>"},
    {"boolean that is none", "<State name=\"battery\" type=\"bool\"><Value>maybe</Value></State>"},
    {"empty integer", "<State name=\"battery\" type=\"int\"><Value></Value></State>"},
    {"integer element that is no number", "<State name=\"battery\" type=\"int-array\"><Value>1</Value><Value>x</Value></State>"},
    {"integer parameter that is no number", "<State name=\"battery\" type=\"int\"><Param type=\"int\">q</Param><Value>5</Value></State>"},
    {"boolean parameter that is none", "<State name=\"battery\" type=\"int\"><Param type=\"bool\">q</Param><Value>5</Value></State>"},
    {"parameter of unknown type", "<State name=\"battery\" type=\"int\"><Param type=\"complex\">q</Param><Value>5</Value></State>"},
    {"empty integer parameter", "<State name=\"battery\" type=\"int\"><Param type=\"int\"></Param><Value>5</Value></State>"},
    {"return of no command", "<Command name=\"never\" type=\"int\"><Result>1</Result></Command>"},
    {"acknowledgement of no command", "<CommandAck name=\"never\" type=\"string\"><Result>COMMAND_SUCCESS</Result></CommandAck>"},
    {"abort of no command", "<CommandAbort name=\"never\" type=\"bool\"><Result>1</Result></CommandAbort>"},
    {"acknowledgement of no update", "<UpdateAck name=\"nobody\"/>"},
    {"update acknowledgement without name", "<UpdateAck/>"},
    {"command without result", "<Command name=\"never\" type=\"int\"></Command>"},
    {"plan without file", "<SendPlan/>"},
    {"plan from no file", "<SendPlan file=\"/nonexistent/p.plx\"/>"},
    {"unknown element in group", "<Simultaneous><Delay2/></Simultaneous>"},
    {"return of no command in group", "<Simultaneous><Command name=\"never\" type=\"int\"><Result>1</Result></Command></Simultaneous>"},
  };
  // An answer may be given once, to what waits for it.
  std::vector<std::pair<std::string, std::string>> twice;
  for (auto &m : c.cmds) {
    if (m.ret) { V v = gen(r, m.rt, 10, m.rt >= BA ? m.rsize : -1); twice.push_back({"second return", cmdXml("Command", m, stype[m.rt], results(v, "Result"))}); }
    else twice.push_back({"return of a command that has none", cmdXml("Command", m, "int", "<Result>1</Result>")});
    twice.push_back({"acknowledgement with an unknown handle", cmdXml("CommandAck", m, "string", "<Result>COMMAND_SUCCES</Result>")});
    twice.push_back({"abort not asked for", cmdXml("CommandAbort", m, "bool", "<Result>1</Result>")});
    V yes; yes.t = B; yes.v = Value(true); yes.text = {"true"}; std::string ab = cmdXml("CommandAbort", m, "bool", r.chance(70) ? "<Result>1</Result>" : "<Result>0</Result>");
    twice.push_back({"abort answered twice", stateXml(c.sts[c.sts.size() - c.cmds.size() + (size_t)(&m - &c.cmds[0])], yes) + ab + ab});
    Cmd w = Cmd(); w.name = m.name; w.args = m.args; Arg x; x.t = I; x.text = "77"; x.v = Value((Integer)77); w.args.push_back(x);
    bool same = false; for (auto &o : c.cmds) same = same || keyOf(o.name, o.args) == keyOf(w.name, w.args);
    if (!same) twice.push_back({"acknowledgement with another argument", cmdXml("CommandAck", w, "string", "<Result>COMMAND_SUCCESS</Result>")});
  }
  if (!c.upds.empty()) twice.push_back({"second update acknowledgement", "<UpdateAck name=\"U0\"/>"});
  int k = r.below((int)breaks.size() + 12);
  if (!twice.empty() && r.chance(25)) k = -1;
  std::string script;
  if (k < 0) {
    auto &t = r.pick(twice); what = t.first; broken = t.second; limit = 1;
    if (what.find("second") == 0) {
      if (r.chance(50)) broken = "<Simultaneous>" + broken + broken + "</Simultaneous>";
      else { broken += broken; limit = 2; }
    }
    if (what == "abort answered twice") { limit = 3; R.add("aborts_twice"); }
    sc.evs.insert(sc.evs.begin(), broken); script = scriptXml(sc); args = options(r, c);
  }
  else if (k < (int)breaks.size()) {
    what = breaks[k].first; broken = breaks[k].second;
    if (k < 17 && r.chance(25)) { // in the initial state
      if (sc.initial.empty()) sc.initial = "<InitialState></InitialState>";
      cut(sc.initial, "</InitialState>", broken + "</InitialState>"); limit = 0;
    }
    else sc.evs.insert(sc.evs.begin() + at, broken);
    script = scriptXml(sc);
    args = options(r, c);
  }
  else {
    args = options(r, c); limit = 0; script = scriptXml(sc);
    auto drop = [&](char const *o, int n) { for (size_t i = 0; i < args.size(); ++i) if (args[i] == o) { args.erase(args.begin() + i, args.begin() + i + n); return; } };
    switch (k - (int)breaks.size()) {
    case 0: what = "no script file"; unlink((dir + "/script.psx").c_str()); script = ""; break;
    case 1: what = "no plan file"; plan = ""; break;
    case 2: what = "ill-formed script"; script = script.substr(0, script.size() - r.range(1, 20)); break;
    case 3: what = "ill-formed plan"; plan = plan.substr(0, plan.size() - r.range(1, 40)); break;
    case 4: what = "plan that breaks a rule"; cut(plan, "<NodeId>Root</NodeId>", ""); break;
    case 5: what = "script with another root"; script = plan; break;
    case 6: what = "unknown option"; args.push_back("-zz"); break;
    case 7: what = "missing option value"; args.push_back(r.chance(50) ? "-l" : "-L"); break;
    case 8: what = "contradicting options"; args = {"-p", dir + "/plan.plx", "-s", dir + "/script.psx"}; { bool d = r.chance(50), f = r.chance(50); std::vector<std::string> a = {d ? "-d" : "-r", dir + "/x"}, b = {d ? "+d" : "+r"}; if (f) std::swap(a, b); for (auto &x : a) args.push_back(x); for (auto &x : b) args.push_back(x); } break;
    case 9: what = "no script option"; drop("-s", 2); args.push_back("+d"); args.push_back("+r"); break;
    case 10: what = "missing library file"; args.push_back("-l"); args.push_back(dir + "/nosuch"); break;
    case 11: what = "script without events part"; script = "<PLEXILScript>" + sc.initial + "</PLEXILScript>"; limit = 1; break;
    }
    // contradictory combinations like +d twice are harmless
  }
  if (!plan.empty()) put("plan.plx", plan); else unlink((dir + "/plan.plx").c_str());
  if (!script.empty()) put("script.psx", script); else unlink((dir + "/script.psx").c_str());
  fflush(stdout);
  shared = (long *)mmap(nullptr, sizeof(long), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::string errf = dir + "/err";
  pid_t pid = fork();
  if (!pid) {
    int fd = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 2); dup2(fd, 1);
    signal(SIGABRT, SIG_DFL); alarm(60);
    Error::doNotThrowExceptions(); PlanError::doNotThrowExceptions();
    exit(runMain(args));
  }
  int status = 0; waitpid(pid, &status, 0);
  long steps = *shared; munmap(shared, sizeof(long)); shared = nullptr;
  std::string err = slurp(errf);
  R.cur += ""; 
  if (err.find("Sanitizer") != std::string::npos || err.find("runtime error:") != std::string::npos) {
    size_t p = err.find("ERROR:"); if (p == std::string::npos) p = err.find("runtime error:"); 
    R.viol("crash", what + ": " + err.substr(p == std::string::npos ? 0 : p, 600));
  }
  else if (WIFSIGNALED(status) && WTERMSIG(status) != SIGABRT) R.viol("crash", what + ": died of signal " + std::to_string(WTERMSIG(status)));
  else if (WIFEXITED(status) && WEXITSTATUS(status) == 0) R.viol("accepted", what + " was accepted" + (broken.empty() ? "" : ": " + broken));
  else if (steps > limit) R.viol("accepted", what + ": " + std::to_string(steps) + " steps were taken, " + std::to_string(limit) + " come before the error");
  else if (err.empty()) R.viol("silent", what + " was refused without a word");
  R.add("refusals"); R.sig(vc::mix(vc::hashStr(what), WIFEXITED(status) ? WEXITSTATUS(status) : 1000));
}

int main(int argc, char **argv) {
  vc::Args a(argc, argv);
  bool bad = a.str("mode", "good") == "bad";
  uint64_t seed = a.num("seed", 1); long first = a.num("first", 0), n = a.num("cases", 1);
  char t[] = "/tmp/h_script.XXXXXX"; dir = mkdtemp(t);
  if (!bad) { Error::doThrowExceptions(); PlanError::doThrowExceptions(); }
  for (long i = first; i < first + n; ++i) {
    R.begin(std::to_string(i));
    uint64_t s = vc::mix(seed * 1000003 + (bad ? 77 : 0), i);
    R.add("cases");
    if (bad) refuse(s); else good(s);
  }
  plexilRunFinalizers();
  R.finish();
  if (DIR *d = opendir(dir.c_str())) { while (dirent *e = readdir(d)) if (e->d_name[0] != '.') unlink((dir + "/" + e->d_name).c_str()); closedir(d); rmdir(dir.c_str()); }
  return 0;
}
