// Loads plan documents - generated, collected, and mutated - through the real
// loader, under AddressSanitizer (with leak detection) and UBSan.  A document
// is either refused with the loader's diagnostic or yields a plan that can be
// run in a hostile environment; nothing may crash, leak, hang or trip an
// internal assertion.
#include "lifecycle-utils.h"
#include "pmodel.hh"
#include "ArrayImpl.hh"
#include "Command.hh"
#include "CommandHandle.hh"
#include "Debug.hh"
#include "Dispatcher.hh"
#include "Error.hh"
#include "ExecListenerBase.hh"
#include "LookupReceiver.hh"
#include "NodeImpl.hh"
#include "NodeTransition.hh"
#include "ParserException.hh"
#include "PlanError.hh"
#include "PlexilExec.hh"
#include "ResourceArbiterInterface.hh"
#include "State.hh"
#include "StateCache.hh"
#include "Update.hh"
#include "Value.hh"
#include "parsePlan.hh"
#include "planLibrary.hh"
#include "pugixml.hpp"
#include <deque>
#include <algorithm>
#include <cmath>
#include <dirent.h>
#include <fstream>
#include <functional>
#include <sanitizer/lsan_interface.h>
#include <unistd.h>

using namespace pmodel;
using vc::Rng;
static vc::Report R;
struct Brake {};
struct Bad { std::string kind, msg; };
static unsigned const PO = pugi::parse_default | pugi::parse_ws_pcdata_single;

// ---------------------------------------------------------------- environment
struct Env : PLEXIL::Dispatcher, PLEXIL::ExecListenerBase {
  Rng &r; bool wild; bool untyped = false, interrupted = false; long micro = 0, trans = 0;
  std::vector<PLEXIL::Command *> cmds; std::vector<PLEXIL::Update *> upds; std::vector<PLEXIL::State> states;
  std::map<std::string, PLEXIL::ValueType> retTy; std::map<PLEXIL::Command *, std::string> cname;
  Env(Rng &r_) : r(r_), wild(r_.chance(15)) {}
  PLEXIL::Value some(PLEXIL::ValueType t) {
    if (r.chance(10)) { PLEXIL::Value u; u.setUnknown(); return u; }
    switch (t) {
    case PLEXIL::BOOLEAN_TYPE: return PLEXIL::Value((PLEXIL::Boolean)r.chance(50));
    case PLEXIL::INTEGER_TYPE: return PLEXIL::Value((PLEXIL::Integer)(r.chance(90) ? r.range(-2, 3) : r.chance(50) ? 2147483647 : (int)0x80000000));
    case PLEXIL::REAL_TYPE: case PLEXIL::DATE_TYPE: case PLEXIL::DURATION_TYPE: return PLEXIL::Value((PLEXIL::Real)(r.chance(90) ? r.range(-4, 6) * 0.5 : 1e300));
    case PLEXIL::STRING_TYPE: return PLEXIL::Value(PLEXIL::String(r.chance(50) ? "" : "abc"));
    case PLEXIL::INTEGER_ARRAY_TYPE: return PLEXIL::Value(PLEXIL::IntegerArray(std::vector<PLEXIL::Integer>(r.below(4), 1)));
    case PLEXIL::REAL_ARRAY_TYPE: return PLEXIL::Value(PLEXIL::RealArray(std::vector<PLEXIL::Real>(r.below(4), 1.5)));
    case PLEXIL::BOOLEAN_ARRAY_TYPE: return PLEXIL::Value(PLEXIL::BooleanArray(std::vector<PLEXIL::Boolean>(r.below(4), true)));
    case PLEXIL::STRING_ARRAY_TYPE: return PLEXIL::Value(PLEXIL::StringArray(std::vector<PLEXIL::String>(r.below(4), "q")));
    default: { static const PLEXIL::ValueType T[] = {PLEXIL::BOOLEAN_TYPE, PLEXIL::INTEGER_TYPE, PLEXIL::REAL_TYPE, PLEXIL::STRING_TYPE}; return some(T[r.below(4)]); }
    }
  }
  // The state cache outlives the executive: a state an earlier case gave another type is not typed.
  void was(std::string const &n, PLEXIL::ValueType t) { static std::map<std::string, PLEXIL::ValueType> w; auto i = w.insert({n, t}).first; if (i->second != t) { untyped = true; i->second = PLEXIL::UNKNOWN_TYPE; } if (i->second == PLEXIL::UNKNOWN_TYPE) untyped = true; }
  PLEXIL::ValueType ty(std::string const &n) {
    static const PLEXIL::ValueType T[] = {PLEXIL::BOOLEAN_TYPE, PLEXIL::INTEGER_TYPE, PLEXIL::REAL_TYPE, PLEXIL::STRING_TYPE};
    auto it = retTy.find(n);
    if (wild && r.chance(50)) { untyped = true; was(n, PLEXIL::UNKNOWN_TYPE); return T[r.below(4)]; }
    if (it != retTy.end()) { was(n, it->second); return it->second; }
    untyped = true; was(n, PLEXIL::UNKNOWN_TYPE);
    return T[vc::hashStr(n) % 4];
  }
  void lookupNow(PLEXIL::State const &s, PLEXIL::LookupReceiver *rc) override {
    if (states.size() < 40) states.push_back(s);
    if (obey && hand.count(s.name())) { rc->update(PLEXIL::Value((PLEXIL::Boolean)(hand[s.name()] != 0))); return; }
    if (s.name() == "time") { untyped = true; rc->update(PLEXIL::Value((PLEXIL::Real)now)); return; }
    rc->update(some(ty("state " + s.name())));
  }
  double now = 0;
  void setThresholds(PLEXIL::State const &, PLEXIL::Real, PLEXIL::Real) override {}
  void setThresholds(PLEXIL::State const &, PLEXIL::Integer, PLEXIL::Integer) override {}
  void clearThresholds(PLEXIL::State const &) override {}
  void executeCommand(PLEXIL::Command *c) override { if (std::find(cmds.begin(), cmds.end(), c) == cmds.end()) cmds.push_back(c); cname[c] = c->getName(); R.add("commands"); }
  void reportCommandArbitrationFailure(PLEXIL::Command *c) override { PLEXIL::commandHandleReturn(c, PLEXIL::COMMAND_DENIED); }
  void invokeAbort(PLEXIL::Command *c) override { PLEXIL::commandAbortAcknowledge(c, r.chance(90)); }
  void executeUpdate(PLEXIL::Update *u) override { if (std::find(upds.begin(), upds.end(), u) == upds.end()) upds.push_back(u); R.add("updates"); }
  void notifyOfTransitions(std::vector<PLEXIL::NodeTransition> const &ts) override {
    trans += (long)ts.size(); if (++micro > 400) throw Brake{};
    // A child that started in the very micro-step in which its parent ended: known finding, see directed:orphan.
    if (orphanOk) for (auto const &x : PLEXIL::g_exec->getPlans()) if (orphan(x.get())) { R.add("orphans"); throw Brake{}; }
  }
  bool orphanOk = true, obey = false; std::map<std::string, int> hand;
  static bool orphan(PLEXIL::Node *n) {
    auto *x = dynamic_cast<PLEXIL::NodeImpl *>(n); if (!x) return false;
    bool ended = x->getState() == PLEXIL::ITERATION_ENDED_STATE || x->getState() == PLEXIL::FINISHED_STATE;
    for (auto const &k : x->getChildren()) { if (ended && k->getState() != PLEXIL::INACTIVE_STATE && k->getState() != PLEXIL::FINISHED_STATE) return true; if (orphan(k.get())) return true; }
    return false;
  }
  void notifyOfAssignment(PLEXIL::Expression const *e, std::string const &d, PLEXIL::Value const &v) override { (void)e; volatile size_t n = d.size() + v.valueToString().size(); (void)n; }
  void stepComplete(unsigned int) override {}
  void respond() {
    for (auto *c : cmds) if (r.chance(50)) {
      if (r.chance(40)) PLEXIL::commandReturn(c, some(ty("command " + cname[c])));
      static const PLEXIL::CommandHandleValue H[] = {PLEXIL::COMMAND_SUCCESS, PLEXIL::COMMAND_SUCCESS, PLEXIL::COMMAND_ACCEPTED, PLEXIL::COMMAND_FAILED, PLEXIL::COMMAND_RCVD_BY_SYSTEM, PLEXIL::COMMAND_SENT_TO_SYSTEM};
      PLEXIL::commandHandleReturn(c, H[r.below(6)]);
    }
    for (auto *u : upds) if (r.chance(60)) u->acknowledge(r.chance(90));
    for (size_t q = 0; q < states.size(); ++q) if (r.chance(20)) { PLEXIL::State s(states[q]); PLEXIL::StateCache::instance().lookupReturn(s, some(ty("state " + s.name()))); }
  }
};

// ---------------------------------------------------------------- documents
struct Doc { std::string name, xml; bool valid = true; };
static std::vector<Doc> corpus;
static std::vector<std::string> tags, texts;
static std::map<std::string, std::vector<std::string>> textsOf;   // by tag
static void collect(pugi::xml_node n) {
  static std::set<std::string> st, sx;
  for (auto k : n.children()) {
    if (k.type() == pugi::node_element) { if (st.insert(k.name()).second) tags.push_back(k.name()); }
    else if (k.type() == pugi::node_pcdata && std::string(k.value()).size() < 60) {
      std::string v = k.value();
      if (sx.insert(v).second) texts.push_back(v);
      auto &q = textsOf[n.name()]; if (q.size() < 60 && std::find(q.begin(), q.end(), v) == q.end()) q.push_back(v);
    }
    collect(k);
  }
}
static void loadCorpus(std::string const &dir) {
  std::set<std::string> bad;
  { std::ifstream f(dir + "/refused.txt"); std::string l; while (std::getline(f, l)) bad.insert(l); }
  std::vector<std::string> names;
  if (DIR *d = opendir(dir.c_str())) { while (dirent *e = readdir(d)) { std::string n = e->d_name; if (n.size() > 4 && n.substr(n.size() - 4) == ".plx") names.push_back(n); } closedir(d); }
  std::sort(names.begin(), names.end());
  for (auto &n : names) {
    std::ifstream f(dir + "/" + n); std::stringstream ss; ss << f.rdbuf();
    corpus.push_back({n, ss.str(), !bad.count(n)});
    pugi::xml_document d; if (d.load_string(corpus.back().xml.c_str(), PO)) collect(d);
  }
}
struct XStr : pugi::xml_writer { std::string s; void write(const void *d, size_t n) override { s.append((char const *)d, n); } };
static std::string text(pugi::xml_document const &d) { XStr w; d.save(w, "", pugi::format_raw | pugi::format_no_declaration); return w.s; }
static std::vector<pugi::xml_node> elements(pugi::xml_node n) {
  std::vector<pugi::xml_node> r, todo;   // in document order, without recursion: documents may be deep
  auto push = [&](pugi::xml_node p) { for (auto k = p.last_child(); k; k = k.previous_sibling()) if (k.type() == pugi::node_element) todo.push_back(k); };
  push(n);
  while (!todo.empty()) { auto k = todo.back(); todo.pop_back(); r.push_back(k); push(k); }
  return r;
}
static std::vector<pugi::xml_node> leaves(pugi::xml_node n) {
  std::vector<pugi::xml_node> r;
  for (auto e : elements(n)) if (e.first_child().type() == pugi::node_pcdata) r.push_back(e);
  return r;
}
static bool inside(pugi::xml_node a, pugi::xml_node b) { for (; a; a = a.parent()) if (a == b) return true; return false; }
static const char *WEIRD[] = {"", " ", "-1", "0", "1", "99999999999999999999", "2147483648", "1e999", "nan", "0x", "true", "UNKNOWN", "A", "NoSuchThing", "\xff\xfe", "a b", "FINISHED", "SUCCESS", "Integer", "Boolean", "<", "-", "+", ".", "INF", "4294967295", "2147483647", "1000000"};

// Any change at all.
static std::string mutate(pugi::xml_document &d, Rng &r) {
  auto es = elements(d);
  if (es.empty()) return "nothing";
  auto e = r.pick(es);
  switch (r.below(15)) {
  case 0: if (e == d.document_element() && r.chance(90)) return "nothing"; { std::string n = e.name(); e.parent().remove_child(e); return "removed " + n; }
  case 1: if (e == d.document_element()) return "nothing"; e.parent().insert_copy_after(e, e); return std::string("repeated ") + e.name();
  case 2: { std::string o = e.name(); e.set_name(r.pick(tags).c_str()); return "renamed " + o + " to " + e.name(); }
  case 3: case 4: { auto ls = leaves(d); if (ls.empty()) return "nothing"; auto l = r.pick(ls); std::string t = r.chance(40) ? WEIRD[r.below(sizeof WEIRD / sizeof *WEIRD)] : r.pick(texts); l.first_child().set_value(t.c_str()); return std::string("text of ") + l.name() + " is " + t; }
  case 5: case 6: { auto ls = leaves(d); if (ls.empty()) return "nothing"; auto l = r.pick(ls); auto &q = textsOf[l.name()]; if (q.empty()) return "nothing"; std::string t = r.pick(q); l.first_child().set_value(t.c_str()); return std::string("text of ") + l.name() + " is " + t; }
  case 7: case 8: { auto o = r.pick(es); if (inside(o, e) || inside(e, o)) return "nothing"; std::string n = e.name(); e.parent().insert_copy_before(o, e); e.parent().remove_child(e); return n + " replaced by another element " + o.name(); }
  case 9: { auto o = r.pick(es); if (inside(o, e)) return "nothing"; e.append_copy(o); return std::string("extra ") + o.name() + " in " + e.name(); }
  case 10: { auto a = e.first_attribute(); if (a && r.chance(60)) { std::string n = a.name(); if (r.chance(30)) e.remove_attribute(a); else a.set_value(r.chance(50) ? WEIRD[r.below(sizeof WEIRD / sizeof *WEIRD)] : r.pick(texts).c_str()); return "attribute " + n + " changed"; } e.append_attribute(r.chance(50) ? "Type" : "NodeType").set_value(r.pick(texts).c_str()); return std::string("attribute added to ") + e.name(); }
  case 11: { auto t = e.insert_child_before(pugi::node_pcdata, e.first_child()); t.set_value("stray"); return std::string("stray text in ") + e.name(); }
  case 12: { std::string n = e.name(); while (e.first_child()) e.remove_child(e.first_child()); return "emptied " + n; }
  case 13: { auto s = e.next_sibling(); if (!s) return "nothing"; e.parent().insert_copy_before(s, e); e.parent().remove_child(s); return std::string("swapped ") + e.name(); }
  default: { // copy from another document
    Doc const &o = r.pick(corpus); pugi::xml_document od; if (!od.load_string(o.xml.c_str(), PO)) return "nothing";
    auto oe = elements(od); std::vector<pugi::xml_node> same; for (auto x : oe) if (!strcmp(x.name(), e.name())) same.push_back(x);
    auto pickd = (!same.empty() && r.chance(80)) ? r.pick(same) : r.pick(oe);
    if (e == d.document_element()) return "nothing";
    e.parent().insert_copy_before(pickd, e); std::string n = e.name(); e.parent().remove_child(e); return n + " replaced by " + pickd.name() + " of " + o.name; }
  }
}
// Changes that mean nothing.
static void decorate(pugi::xml_node n, Rng &r) {
  std::vector<pugi::xml_node> es; es.push_back(n); for (auto e : elements(n)) es.push_back(e);
  for (auto e : es) {
    if (!strcmp(e.name(), "")) continue;
    bool leaf = e.first_child().type() == pugi::node_pcdata || !e.first_child();
    if (r.chance(15) && !leaf) { auto c = e.insert_child_before(pugi::node_comment, e.first_child()); c.set_value(" remark "); }
    if (r.chance(10) && !leaf) { auto c = e.append_child(pugi::node_pcdata); c.set_value("\n   "); }
    if (r.chance(10)) { e.append_attribute("LineNo").set_value(r.range(1, 99)); e.append_attribute("ColNo").set_value(r.range(0, 40)); }
    if (r.chance(5) && !strcmp(e.name(), "Node")) e.append_attribute("FileName").set_value("somewhere.ple");
  }
}

// Changes that break a rule of the language: the document must be refused.
typedef pugi::xml_node XN;
static bool endsWith(std::string const &s, const char *e) { std::string t = e; return s.size() >= t.size() && s.compare(s.size() - t.size(), t.size(), t) == 0; }
static bool isVarRef(std::string const &n) { return n == "IntegerVariable" || n == "RealVariable" || n == "BooleanVariable" || n == "StringVariable" || n == "ArrayVariable"; }
static bool isCond(std::string const &n) { return endsWith(n, "Condition"); }
struct BadCtx { pugi::xml_document &d; Rng &r; std::vector<XN> es; std::string note;
  XN any(std::function<bool(XN)> f) { std::vector<XN> q; for (auto e : es) if (f(e)) q.push_back(e); return q.empty() ? XN() : r.pick(q); }
  XN tag(const char *t) { return any([&](XN e) { return !strcmp(e.name(), t); }); }
};
static XN lit(XN where, const char *tag, const char *text) { auto e = where.append_child(tag); e.append_child(pugi::node_pcdata).set_value(text); return e; }
static void replaceWith(XN old, const char *tag, const char *text) { auto e = old.parent().insert_child_before(tag, old); e.append_child(pugi::node_pcdata).set_value(text); old.parent().remove_child(old); }
// The same thing once more: right after the original or further away, after another one of its kind.
static bool again(BadCtx &b, XN e) {
  if (!e) return false;
  std::vector<XN> after; for (auto s : e.parent().children()) if (!strcmp(s.name(), e.name())) after.push_back(s);
  auto where = b.r.chance(50) ? e : b.r.pick(after);
  e.parent().insert_copy_after(e, where); return true;
}
struct BadRule { const char *name; std::function<bool(BadCtx &)> f; };
static std::vector<BadRule> const &badRules() {
  static std::vector<BadRule> R0 = {
    {"undeclared variable", [](BadCtx &b) { auto e = b.any([](XN x) { return isVarRef(x.name()); }); if (!e) return false; e.first_child().set_value("nosuch_v"); return true; }},
    {"variable of another type", [](BadCtx &b) { auto e = b.any([](XN x) { return isVarRef(x.name()) && strcmp(x.name(), "ArrayVariable"); }); if (!e) return false; e.set_name(!strcmp(e.name(), "StringVariable") ? "BooleanVariable" : "StringVariable"); return true; }},
    {"variable declared twice", [](BadCtx &b) { auto e = b.any([](XN x) { return !strncmp(x.name(), "Declare", 7) && !strcmp(x.parent().name(), "VariableDeclarations"); }); return again(b, e); }},
    {"variable without a name", [](BadCtx &b) { auto e = b.any([](XN x) { return !strncmp(x.name(), "Declare", 7); }); if (!e) return false; e.remove_child(e.child("Name")); return true; }},
    {"variable of unknown type", [](BadCtx &b) { auto e = b.any([](XN x) { return !strncmp(x.name(), "Declare", 7) && x.child("Type"); }); if (!e) return false; e.child("Type").first_child().set_value("Quaternion"); return true; }},
    {"initial value of the wrong type", [](BadCtx &b) { auto e = b.any([](XN x) { return !strcmp(x.name(), "DeclareVariable") && strcmp(x.parent().parent().parent().name(), "LibraryNodeDeclaration") && strcmp(x.child_value("Type"), "String") && x.child("InitialValue"); }); if (!e) return false; auto i = e.child("InitialValue"); while (i.first_child()) i.remove_child(i.first_child()); lit(i, "StringValue", "abc"); return true; }},
    {"condition that is not Boolean", [](BadCtx &b) { auto e = b.any([](XN x) { return isCond(x.name()); }); if (!e) return false; while (e.first_child()) e.remove_child(e.first_child()); int k = b.r.below(3); k == 0 ? lit(e, "IntegerValue", "1") : k == 1 ? lit(e, "StringValue", "true") : lit(e, "RealValue", "1.0"); return true; }},
    {"empty condition", [](BadCtx &b) { auto e = b.any([](XN x) { return isCond(x.name()); }); if (!e) return false; while (e.first_child()) e.remove_child(e.first_child()); return true; }},
    {"condition given twice", [](BadCtx &b) { auto e = b.any([](XN x) { return isCond(x.name()); }); return again(b, e); }},
    {"logical operator on a number", [](BadCtx &b) { auto e = b.any([](XN x) { return !strcmp(x.name(), "AND") || !strcmp(x.name(), "OR") || !strcmp(x.name(), "NOT"); }); if (!e) return false; e.remove_child(e.first_child()); lit(e, "IntegerValue", "3"); return true; }},
    {"arithmetic on a Boolean", [](BadCtx &b) { auto e = b.any([](XN x) { std::string n = x.name(); return n == "ADD" || n == "SUB" || n == "MUL" || n == "LT" || n == "GE"; }); if (!e) return false; e.remove_child(e.last_child()); lit(e, "BooleanValue", "true"); return true; }},
    {"negation of two operands", [](BadCtx &b) { auto e = b.tag("NOT"); if (!e) return false; e.append_copy(e.first_child()); return true; }},
    {"comparison of one operand", [](BadCtx &b) { auto e = b.any([](XN x) { std::string n = x.name(); return n == "LT" || n == "GT" || n == "LE" || n == "GE" || n == "EQNumeric" || n == "EQString" || n == "EQBoolean" || n == "EQInternal"; }); if (!e) return false; e.remove_child(e.last_child()); return true; }},
    {"comparison of three operands", [](BadCtx &b) { auto e = b.any([](XN x) { std::string n = x.name(); return n == "LT" || n == "GT" || n == "LE" || n == "GE" || n == "EQNumeric" || n == "EQString" || n == "EQBoolean"; }); if (!e) return false; e.append_copy(e.last_child()); return true; }},
    {"unknown expression", [](BadCtx &b) { auto e = b.any([](XN x) { return isCond(x.parent().name()) || !strcmp(x.parent().name(), "AND") || !strcmp(x.parent().name(), "OR"); }); if (!e) return false; e.set_name("Frobnicate"); return true; }},
    {"reference to a node that does not exist", [](BadCtx &b) { auto e = b.any([](XN x) { std::string n = x.parent().name(); return (!strcmp(x.name(), "NodeId") || !strcmp(x.name(), "NodeRef")) && (n == "NodeStateVariable" || n == "NodeOutcomeVariable" || n == "NodeFailureVariable" || n == "NodeCommandHandleVariable" || n == "NodeTimepointValue"); }); if (!e) return false; e.set_name("NodeId"); while (e.first_attribute()) e.remove_attribute(e.first_attribute()); while (e.first_child()) e.remove_child(e.first_child()); e.append_child(pugi::node_pcdata).set_value("nosuch_n"); return true; }},
    {"state that does not exist", [](BadCtx &b) { auto e = b.any([](XN x) { std::string n = x.name(); return n == "NodeStateValue" || n == "NodeOutcomeValue" || n == "NodeFailureValue" || n == "NodeCommandHandleValue"; }); if (!e) return false; e.first_child().set_value("DREAMING"); return true; }},
    {"node without an identifier", [](BadCtx &b) { auto e = b.tag("Node"); if (!e) return false; e.remove_child(e.child("NodeId")); return true; }},
    {"node with an empty identifier", [](BadCtx &b) { auto e = b.tag("Node"); if (!e) return false; auto i = e.child("NodeId"); while (i.first_child()) i.remove_child(i.first_child()); return true; }},
    {"node with two identifiers", [](BadCtx &b) { auto e = b.tag("Node"); if (!e) return false; auto i = e.child("NodeId"); e.insert_copy_after(i, i); return true; }},
    {"node without a type", [](BadCtx &b) { auto e = b.tag("Node"); if (!e) return false; e.remove_attribute("NodeType"); return true; }},
    {"node of unknown type", [](BadCtx &b) { auto e = b.tag("Node"); if (!e) return false; e.attribute("NodeType").set_value("Wish"); return true; }},
    {"node without a body", [](BadCtx &b) { auto e = b.any([](XN x) { return !strcmp(x.name(), "Node") && strcmp(x.attribute("NodeType").value(), "Empty"); }); if (!e) return false; e.remove_child(e.child("NodeBody")); return true; }},
    {"node with two bodies", [](BadCtx &b) { auto e = b.tag("NodeBody"); if (!e) return false; e.parent().insert_copy_after(e, e); return true; }},
    {"body with two contents", [](BadCtx &b) { auto e = b.tag("NodeBody"); if (!e) return false; e.append_copy(e.first_child()); return true; }},
    {"empty body", [](BadCtx &b) { auto e = b.tag("NodeBody"); if (!e) return false; while (e.first_child()) e.remove_child(e.first_child()); return true; }},
    {"body of another kind of node", [](BadCtx &b) { auto e = b.any([](XN x) { return !strcmp(x.name(), "NodeBody"); }); if (!e) return false; std::string t = e.parent().attribute("NodeType").value(); e.parent().attribute("NodeType").set_value(t == "Assignment" ? "Command" : "Assignment"); return true; }},
    {"unknown element in a node", [](BadCtx &b) { auto e = b.tag("Node"); if (!e) return false; e.append_child("Mood").append_child(pugi::node_pcdata).set_value("good"); return true; }},
    {"siblings of the same name", [](BadCtx &b) { auto e = b.any([](XN x) { return !strcmp(x.name(), "Node") && !strcmp(x.parent().name(), "NodeList"); }); return again(b, e); }},
    {"integer literal that is none", [](BadCtx &b) { static const char *T[] = {"abc", "1.5", "99999999999", "", "1 2", "0xZZ", "--3", "2147483648"}; auto e = b.tag("IntegerValue"); if (!e) return false; while (e.first_child()) e.remove_child(e.first_child()); e.append_child(pugi::node_pcdata).set_value(T[b.r.below(8)]); return true; }},
    {"real literal that is none", [](BadCtx &b) { static const char *T[] = {"abc", "1..5", "", "1 2", "--3", "1e", "."}; auto e = b.tag("RealValue"); if (!e) return false; while (e.first_child()) e.remove_child(e.first_child()); e.append_child(pugi::node_pcdata).set_value(T[b.r.below(7)]); return true; }},
    {"Boolean literal that is none", [](BadCtx &b) { static const char *T[] = {"maybe", "2", "", "truefalse", "yes"}; auto e = b.tag("BooleanValue"); if (!e) return false; while (e.first_child()) e.remove_child(e.first_child()); e.append_child(pugi::node_pcdata).set_value(T[b.r.below(5)]); return true; }},
    {"assignment of the wrong type", [](BadCtx &b) { auto e = b.any([](XN x) { std::string n = x.name(); return endsWith(n, "RHS"); }); if (!e) return false; std::string n = e.name(); while (e.first_child()) e.remove_child(e.first_child()); if (n == "BooleanRHS") lit(e, "IntegerValue", "1"); else lit(e, "BooleanValue", "true"); return true; }},
    {"assignment to a literal", [](BadCtx &b) { auto e = b.any([](XN x) { return !strcmp(x.parent().name(), "Assignment") && isVarRef(x.name()); }); if (!e) return false; replaceWith(e, "IntegerValue", "1"); return true; }},
    {"assignment without a value", [](BadCtx &b) { auto e = b.any([](XN x) { return endsWith(x.name(), "RHS"); }); if (!e) return false; e.parent().remove_child(e); return true; }},
    {"array index that is no integer", [](BadCtx &b) { auto e = b.tag("Index"); if (!e) return false; while (e.first_child()) e.remove_child(e.first_child()); b.r.chance(50) ? lit(e, "BooleanValue", "true") : lit(e, "StringValue", "1"); return true; }},
    {"element of an array that is not declared", [](BadCtx &b) { auto e = b.tag("ArrayElement"); if (!e) return false; e.child("Name").first_child().set_value("nosuch_a"); return true; }},
    {"array of impossible size", [](BadCtx &b) { static const char *T[] = {"-1", "x", "", "1.5"}; auto e = b.tag("MaxSize"); if (!e || strcmp(e.parent().name(), "DeclareArray")) return false; while (e.first_child()) e.remove_child(e.first_child()); e.append_child(pugi::node_pcdata).set_value(T[b.r.below(4)]); return true; }},
    {"lookup without a name", [](BadCtx &b) { auto e = b.any([](XN x) { return !strncmp(x.name(), "Lookup", 6); }); if (!e) return false; e.remove_child(e.child("Name")); return true; }},
    {"lookup whose name is a number", [](BadCtx &b) { auto e = b.any([](XN x) { return !strncmp(x.name(), "Lookup", 6); }); if (!e) return false; auto n = e.child("Name"); while (n.first_child()) n.remove_child(n.first_child()); lit(n, "IntegerValue", "4"); return true; }},
    {"lookup with too many arguments", [](BadCtx &b) { auto e = b.any([](XN x) { return !strncmp(x.name(), "Lookup", 6) && x.child("Name").child("StringValue") && (!strcmp(x.child("Name").child_value("StringValue"), "bL0") || !strcmp(x.child("Name").child_value("StringValue"), "iL0")); }); if (!e) return false; auto a = e.append_child("Arguments"); lit(a, "IntegerValue", "4"); return true; }},
    {"lookup with too few arguments", [](BadCtx &b) { auto e = b.any([](XN x) { return !strncmp(x.name(), "Lookup", 6) && x.child("Arguments") && !strcmp(x.child("Name").child_value("StringValue"), "pL"); }); if (!e) return false; e.remove_child(e.child("Arguments")); return true; }},
    {"command without a name", [](BadCtx &b) { auto e = b.tag("Command"); if (!e) return false; e.remove_child(e.child("Name")); return true; }},
    {"command whose name is a number", [](BadCtx &b) { auto e = b.tag("Command"); if (!e) return false; auto n = e.child("Name"); while (n.first_child()) n.remove_child(n.first_child()); lit(n, "RealValue", "4"); return true; }},
    {"resource without a priority", [](BadCtx &b) { auto e = b.tag("ResourcePriority"); if (!e) return false; e.parent().remove_child(e); return true; }},
    {"resource without a name", [](BadCtx &b) { auto e = b.tag("ResourceName"); if (!e) return false; e.parent().remove_child(e); return true; }},
    {"resource priority that is no number", [](BadCtx &b) { auto e = b.tag("ResourcePriority"); if (!e) return false; while (e.first_child()) e.remove_child(e.first_child()); lit(e, "StringValue", "4"); return true; }},
    {"resource field given twice", [](BadCtx &b) { auto e = b.any([](XN x) { return !strncmp(x.name(), "Resource", 8) && !strcmp(x.parent().name(), "Resource"); }); return again(b, e); }},
    {"call of a library that does not exist", [](BadCtx &b) { auto e = b.any([](XN x) { return !strcmp(x.parent().name(), "LibraryNodeCall") && !strcmp(x.name(), "NodeId"); }); if (!e) return false; e.first_child().set_value("nosuch_library"); return true; }},
    {"library parameter given twice", [](BadCtx &b) { auto e = b.tag("Alias"); return again(b, e); }},
    {"library parameter given twice", [](BadCtx &b) { auto e = b.any([](XN x) { return !strcmp(x.name(), "Alias") && !strcmp(x.next_sibling().name(), "Alias"); }); if (!e) return false; e.parent().insert_copy_after(e, e.parent().last_child()); return true; }},
    {"command declared twice", [](BadCtx &b) { return again(b, b.tag("CommandDeclaration")); }},
    {"library declared twice", [](BadCtx &b) { return again(b, b.tag("LibraryNodeDeclaration")); }},
    {"priority given twice", [](BadCtx &b) { return again(b, b.tag("Priority")); }},
    {"two variable sections", [](BadCtx &b) { return again(b, b.tag("VariableDeclarations")); }},
    {"update pair given twice", [](BadCtx &b) { return again(b, b.tag("Pair")); }},
    {"argument for a parameter the library does not have", [](BadCtx &b) { auto e = b.tag("LibraryNodeCall"); if (!e) return false; auto a = e.append_child("Alias"); lit(a, "NodeParameter", "nosuch_p"); lit(a, "IntegerValue", "1"); return true; }},
    {"array literal of mixed types", [](BadCtx &b) { auto e = b.tag("ArrayValue"); if (!e) return false; lit(e, !strcmp(e.attribute("Type").value(), "Boolean") ? "StringValue" : "BooleanValue", "true"); return true; }},
    {"array literal of unknown type", [](BadCtx &b) { auto e = b.tag("ArrayValue"); if (!e) return false; if (b.r.chance(50)) e.remove_attribute("Type"); else e.attribute("Type").set_value("Quaternion"); return true; }},
    {"tolerance that is no number", [](BadCtx &b) { auto e = b.tag("LookupOnChange"); if (!e || e.child("Tolerance")) return false; auto t = e.insert_child_after("Tolerance", e.child("Name")); b.r.chance(50) ? lit(t, "BooleanValue", "true") : lit(t, "StringValue", "1"); return true; }},
    {"node reference of an unknown direction", [](BadCtx &b) { auto e = b.tag("NodeRef"); if (!e) return false; e.attribute("dir").set_value("cousin"); return true; }},
    {"timepoint that does not exist", [](BadCtx &b) { auto e = b.tag("Timepoint"); if (!e) return false; e.first_child().set_value("MIDDLE"); return true; }},
    {"variable without a type", [](BadCtx &b) { auto e = b.any([](XN x) { return !strncmp(x.name(), "Declare", 7) && x.child("Type"); }); if (!e) return false; e.remove_child(e.child("Type")); return true; }},
    {"two initial values", [](BadCtx &b) { auto e = b.any([](XN x) { return !strcmp(x.name(), "InitialValue") && !strcmp(x.parent().name(), "DeclareVariable"); }); if (!e) return false; e.append_copy(e.first_child()); return true; }},
    {"lookup name given twice", [](BadCtx &b) { auto e = b.any([](XN x) { return !strcmp(x.name(), "Name") && !strncmp(x.parent().name(), "Lookup", 6); }); if (!e) return false; e.append_copy(e.first_child()); return true; }},
    {"command whose arguments come twice", [](BadCtx &b) { return again(b, b.any([](XN x) { return !strcmp(x.name(), "Arguments") && !strcmp(x.parent().name(), "Command"); })); }},
    {"state variable of a number", [](BadCtx &b) { auto e = b.tag("NodeStateVariable"); if (!e) return false; while (e.first_child()) e.remove_child(e.first_child()); lit(e, "IntegerValue", "1"); return true; }},
    {"two expressions where one belongs", [](BadCtx &b) { auto e = b.any([](XN x) { std::string n = x.name(), p = x.parent().name(); return isCond(n) || endsWith(n, "RHS") || n == "Tolerance" || n == "Index" || n == "Alias" || n == "Pair" || (n == "Name" && (!strncmp(p.c_str(), "Lookup", 6) || p == "Command")) || (n == "InitialValue" && p == "DeclareVariable") || (p == "Resource") || n == "ArrayElement"; }); if (!e || !e.last_child()) return false; if (e.last_child().type() != pugi::node_element) e.append_child("IntegerValue").append_child(pugi::node_pcdata).set_value("1"); else e.append_copy(e.last_child()); b.note = std::string(" in ") + e.name(); return true; }},
    {"second node beside the root", [](BadCtx &b) { auto e = b.d.document_element(); e.append_copy(e.child("Node")); return true; }},
    {"declarations after the node", [](BadCtx &b) { auto e = b.d.document_element(); auto g = e.child("GlobalDeclarations"); if (!g) return false; e.append_copy(g); return true; }},
    {"something after the arguments", [](BadCtx &b) { auto e = b.any([](XN x) { return !strcmp(x.name(), "Arguments"); }); if (!e) return false; b.r.chance(50) ? (void)e.parent().append_copy(e) : (void)lit(e.parent(), "IntegerValue", "1"); return true; }},
    {"library parameter without a value", [](BadCtx &b) { auto e = b.tag("Alias"); if (!e) return false; e.remove_child(e.last_child()); return true; }},
    {"use of an undeclared mutex", [](BadCtx &b) { auto e = b.tag("UsingMutex"); if (!e) return false; e.child("Name").first_child().set_value("nosuch_m"); return true; }},
    {"mutex declared twice", [](BadCtx &b) { auto e = b.tag("DeclareMutex"); return again(b, e); }},
    {"priority that is no number", [](BadCtx &b) { auto e = b.tag("Priority"); if (!e) return false; e.first_child().set_value(b.r.chance(50) ? "urgent" : "-3"); return true; }},
    {"update pair without a name", [](BadCtx &b) { auto e = b.tag("Pair"); if (!e) return false; e.remove_child(e.child("Name")); return true; }},
    {"update pair without a value", [](BadCtx &b) { auto e = b.tag("Pair"); if (!e) return false; e.remove_child(e.last_child()); return true; }},
    {"plan without a node", [](BadCtx &b) { auto e = b.d.document_element(); e.remove_child(e.child("Node")); return true; }},
    {"not a plan at all", [](BadCtx &b) { auto e = b.d.document_element(); e.set_name("Recipe"); return true; }},
    {"state declared twice", [](BadCtx &b) { auto e = b.tag("StateDeclaration"); return again(b, e); }},
    {"declaration of unknown type", [](BadCtx &b) { auto e = b.any([](XN x) { return !strcmp(x.name(), "Return"); }); if (!e) return false; e.child("Type").first_child().set_value("Quaternion"); return true; }},
  };
  return R0;
}

// Names that denote nothing, or something the use may not touch: the document must be refused.
static XN nodeOf(XN e) { while (e && strcmp(e.name(), "Node")) e = e.parent(); return e; }
static XN around(XN n) { return nodeOf(n.parent()); }
static bool encloses(XN m, XN a) { for (; a; a = around(a)) if (a == m) return true; return false; }
static bool declares(XN n, const char *sec, std::string const &name) { for (auto d : n.child(sec).children()) if (name == d.child_value("Name")) return true; return false; }
static const char *typeOfRef(XN e) { static std::string t; t = e.name(); t = t.substr(0, t.size() - 8); return t.c_str(); }
static XN declareIn(XN where, const char *name, const char *ty) { auto d = where.append_child("DeclareVariable"); lit(d, "Name", name); lit(d, "Type", ty); return d; }
static XN section(XN n, const char *s) { auto e = n.child(s); if (e) return e; auto b = n.child("NodeBody"); return b ? n.insert_child_before(s, b) : n.append_child(s); }
static bool scalarRef(XN x) { return isVarRef(x.name()) && strcmp(x.name(), "ArrayVariable"); }
static bool isNodeRef(XN x) { std::string n = x.parent().name(); return (!strcmp(x.name(), "NodeId") || !strcmp(x.name(), "NodeRef")) && (n == "NodeStateVariable" || n == "NodeOutcomeVariable" || n == "NodeFailureVariable" || n == "NodeCommandHandleVariable"); }
static bool inIface(XN x) { std::string n = x.parent().name(); return (n == "In" || n == "InOut") && !strcmp(x.parent().parent().parent().name(), "Node"); }
static void refTo(XN e, const char *name) { e.set_name("NodeId"); e.remove_attribute("dir"); while (e.first_child()) e.remove_child(e.first_child()); e.append_child(pugi::node_pcdata).set_value(name); }
static void relTo(XN e, const char *dir, const char *name) { e.set_name("NodeRef"); e.remove_attribute("dir"); e.append_attribute("dir").set_value(dir); while (e.first_child()) e.remove_child(e.first_child()); if (*name) e.append_child(pugi::node_pcdata).set_value(name); }
static std::vector<BadRule> const &nameRules() {
  static std::vector<BadRule> R0 = {
    {"assignment to a variable declared read-only", [](BadCtx &b) {
      auto e = b.any([](XN x) { return !strcmp(x.parent().name(), "Assignment") && scalarRef(x); }); if (!e) return false;
      std::string name = e.child_value(); std::vector<XN> c;
      for (auto m = nodeOf(e); m; m = around(m)) { if (!m.child("Interface")) c.push_back(m); if (declares(m, "VariableDeclarations", name)) break; if (!around(m)) break; }
      if (!c.empty() && declares(c.back(), "VariableDeclarations", name)) c.pop_back();
      if (!c.empty() && !around(c.back())) c.pop_back();
      if (c.empty()) return false;
      declareIn(section(section(b.r.pick(c), "Interface"), "In"), name.c_str(), typeOfRef(e)); return true; }},
    {"in-out declaration of what the surrounding node may only read", [](BadCtx &b) {
      auto e = b.any([](XN x) { return !strcmp(x.name(), "DeclareVariable") && inIface(x) && !strcmp(x.parent().name(), "In"); }); if (!e) return false;
      auto m = nodeOf(e); std::string name = e.child_value("Name"), ty = e.child_value("Type");
      auto a = b.any([&](XN x) { if (strcmp(x.name(), "Node") || x == m || !encloses(m, x) || x.child("Interface") || declares(x, "VariableDeclarations", name)) return false; for (auto q = around(x); q && q != m; q = around(q)) if (declares(q, "VariableDeclarations", name)) return false; return true; }); if (!a) return false;
      declareIn(section(section(a, "Interface"), "InOut"), name.c_str(), ty.c_str()); return true; }},
    {"variable of another branch", [](BadCtx &b) {
      auto e = b.any([](XN x) { return scalarRef(x); }); if (!e) return false;
      auto n = b.any([&](XN x) { return !strcmp(x.name(), "Node") && !encloses(x, nodeOf(e)); }); if (!n) return false;
      declareIn(section(n, "VariableDeclarations"), "hidden_v", typeOfRef(e)); e.first_child().set_value("hidden_v"); return true; }},
    {"read-only variable of another branch", [](BadCtx &b) {
      auto e = b.any([](XN x) { return scalarRef(x); }); if (!e) return false;
      auto n = b.any([&](XN x) { return !strcmp(x.name(), "Node") && !encloses(x, nodeOf(e)); }); if (!n) return false;
      auto d = declareIn(section(section(n, "Interface"), b.r.chance(50) ? "In" : "InOut"), "hidden_v", typeOfRef(e)); std::string t = typeOfRef(e);
      auto i = d.append_child("InitialValue"); t == "Integer" ? lit(i, "IntegerValue", "1") : t == "Real" ? lit(i, "RealValue", "1") : t == "Boolean" ? lit(i, "BooleanValue", "1") : lit(i, "StringValue", "x");
      e.first_child().set_value("hidden_v"); return true; }},
    {"array of another branch", [](BadCtx &b) {
      auto e = b.tag("ArrayElement"); if (!e) return false; std::string name = e.child_value("Name");
      auto n = b.any([&](XN x) { return !strcmp(x.name(), "Node") && !encloses(x, nodeOf(e)); }); if (!n) return false;
      auto s = section(n, "VariableDeclarations"); auto o = b.any([&](XN x) { return !strcmp(x.name(), "DeclareArray") && x.child_value("Name") == name; }); if (!o) return false;
      auto d = s.append_copy(o); d.remove_child("InitialValue"); d.child("Name").first_child().set_value("hidden_a"); e.child("Name").first_child().set_value("hidden_a"); return true; }},
    {"node out of sight", [](BadCtx &b) {
      auto e = b.any(isNodeRef); if (!e) return false; auto a = nodeOf(e);
      auto h = b.any([&](XN x) { if (strcmp(x.name(), "Node") || encloses(x, a) || around(x) == a || !x.child("NodeId")) return false; return !encloses(around(x), a); }); if (!h) return false;
      h.child("NodeId").first_child().set_value("hidden_n"); refTo(e, "hidden_n"); return true; }},
    {"sibling that is none", [](BadCtx &b) {
      auto e = b.any(isNodeRef); if (!e) return false; auto a = nodeOf(e);
      auto h = b.any([&](XN x) { return !strcmp(x.name(), "Node") && x.child("NodeId") && around(x) != around(a); }); if (!h) return false;
      h.child("NodeId").first_child().set_value("hidden_n"); relTo(e, "sibling", "hidden_n"); return true; }},
    {"child that is none", [](BadCtx &b) {
      auto e = b.any(isNodeRef); if (!e) return false; auto a = nodeOf(e);
      auto h = b.any([&](XN x) { return !strcmp(x.name(), "Node") && x.child("NodeId") && around(x) != a; }); if (!h) return false;
      h.child("NodeId").first_child().set_value("hidden_n"); relTo(e, "child", "hidden_n"); return true; }},
    {"parent of the root", [](BadCtx &b) { auto e = b.any([](XN x) { return isNodeRef(x) && !around(nodeOf(x)); }); if (!e) return false; relTo(e, "parent", ""); return true; }},
    {"mutex of another branch", [](BadCtx &b) {
      auto e = b.tag("UsingMutex"); if (!e) return false;
      auto n = b.any([&](XN x) { return !strcmp(x.name(), "Node") && !encloses(x, nodeOf(e)); }); if (!n) return false;
      lit(section(n, "VariableDeclarations").append_child("DeclareMutex"), "Name", "hidden_m"); e.child("Name").first_child().set_value("hidden_m"); return true; }},
    {"interface to a variable that does not exist", [](BadCtx &b) {
      auto n = b.any([](XN x) { return !strcmp(x.name(), "Node") && around(x) && !x.child("Interface"); }); if (!n) return false;
      static const char *T[] = {"Integer", "Real", "Boolean", "String"}; declareIn(section(section(n, "Interface"), b.r.chance(50) ? "In" : "InOut"), "nosuch_v", T[b.r.below(4)]); return true; }},
    {"interface of another type", [](BadCtx &b) {
      auto e = b.any([](XN x) { return !strcmp(x.name(), "DeclareVariable") && inIface(x); }); if (!e) return false;
      auto t = e.child("Type").first_child(); t.set_value(!strcmp(t.value(), "String") ? "Boolean" : "String"); return true; }},
    {"interface that is also a variable of the node", [](BadCtx &b) {
      auto e = b.any([](XN x) { return !strncmp(x.name(), "Declare", 7) && inIface(x); }); if (!e) return false;
      section(nodeOf(e), "VariableDeclarations").append_copy(e); return true; }},
    {"interface given twice", [](BadCtx &b) {
      auto e = b.any([](XN x) { return !strncmp(x.name(), "Declare", 7) && inIface(x); }); if (!e) return false;
      XN o = b.r.chance(50) ? e.parent() : section(nodeOf(e).child("Interface"), "x"); if (!strcmp(o.name(), "x")) { o.set_name(!strcmp(e.parent().name(), "In") ? "InOut" : "In"); for (auto q : nodeOf(e).child("Interface").children()) if (q != o && !strcmp(q.name(), o.name())) { nodeOf(e).child("Interface").remove_child(o); o = q; break; } }
      o.append_copy(e); return true; }},
  };
  return R0;
}

// ---------------------------------------------------------------- written by hand
struct Hand { const char *name; std::vector<std::string> libs; std::string doc; int expect; std::vector<std::map<std::string, int>> world; bool run = true; };
static std::string pl(std::string const &x) { return "<PlexilPlan>" + x + "</PlexilPlan>"; }
static std::string assignI(const char *id, const char *v, std::string const &rhs) { return std::string("<Node NodeType=\"Assignment\"><NodeId>") + id + "</NodeId><NodeBody><Assignment><IntegerVariable>" + v + "</IntegerVariable><NumericRHS>" + rhs + "</NumericRHS></Assignment></NodeBody></Node>"; }
static std::string libDoc(const char *id, std::string const &iface, std::string const &rest, const char *type = "NodeList") { return pl(std::string("<Node NodeType=\"") + type + "\"><NodeId>" + id + "</NodeId>" + iface + rest + "</Node>"); }
static std::string callOf(const char *id, const char *lib, std::string const &aliases) { return std::string("<Node NodeType=\"LibraryNodeCall\"><NodeId>") + id + "</NodeId><NodeBody><LibraryNodeCall><NodeId>" + lib + "</NodeId>" + aliases + "</LibraryNodeCall></NodeBody></Node>"; }
static std::string ali(const char *n, std::string const &e) { return std::string("<Alias><NodeParameter>") + n + "</NodeParameter>" + e + "</Alias>"; }
static std::string rootWith(std::string const &decls, std::string const &kids) { return pl("<Node NodeType=\"NodeList\"><NodeId>Root</NodeId>" + decls + "<NodeBody><NodeList>" + kids + "</NodeList></NodeBody></Node>"); }
static std::string iv(const char *n) { return std::string("<IntegerVariable>") + n + "</IntegerVariable>"; }
static std::string il(const char *n) { return std::string("<IntegerValue>") + n + "</IntegerValue>"; }
static std::string decl(const char *n, const char *ty, std::string const &init = "") { return std::string("<DeclareVariable><Name>") + n + "</Name><Type>" + ty + "</Type>" + (init.empty() ? "" : "<InitialValue>" + init + "</InitialValue>") + "</DeclareVariable>"; }
static std::string declA(const char *n, const char *ty, const char *max, std::string const &init = "") { return std::string("<DeclareArray><Name>") + n + "</Name><Type>" + ty + "</Type><MaxSize>" + max + "</MaxSize>" + (init.empty() ? "" : "<InitialValue>" + init + "</InitialValue>") + "</DeclareArray>"; }
static std::string vars(std::string const &x) { return "<VariableDeclarations>" + x + "</VariableDeclarations>"; }
static std::string in_(std::string const &x) { return "<Interface><In>" + x + "</In></Interface>"; }
static std::string inout(std::string const &x) { return "<Interface><InOut>" + x + "</InOut></Interface>"; }
static std::string body(std::string const &k) { return "<NodeBody><NodeList>" + k + "</NodeList></NodeBody>"; }
static std::string look(const char *n) { return std::string("<LookupOnChange><Name><StringValue>") + n + "</StringValue></Name></LookupOnChange>"; }
static std::string stateIs(const char *n, const char *st) { return std::string("<EQInternal><NodeStateVariable><NodeId>") + n + "</NodeId></NodeStateVariable><NodeStateValue>" + st + "</NodeStateValue></EQInternal>"; }
static std::string cmdNode(const char *id, std::string const &conds) { return std::string("<Node NodeType=\"Command\"><NodeId>") + id + "</NodeId>" + conds + "<NodeBody><Command><Name><StringValue>" + id + "</StringValue></Name></Command></NodeBody></Node>"; }
static std::vector<Hand> const &hands() {
  static bool extra = false; static std::deque<std::string> names;
  static std::string arr = "<ArrayValue Type=\"Integer\"><IntegerValue>1</IntegerValue><IntegerValue>2</IntegerValue></ArrayValue>";
  static std::string aeq = "<NodeBody><Assignment><ArrayElement><Name>p</Name><Index><IntegerValue>1</IntegerValue></Index></ArrayElement><NumericRHS><IntegerValue>5</IntegerValue></NumericRHS></Assignment></NodeBody>";
  static std::vector<Hand> H = {
    {"library-calls-itself", {libDoc("LR1", "", body(callOf("C", "LR1", "")))}, rootWith("", callOf("A", "LR1", "")), 0, {}},
    {"libraries-call-each-other", {libDoc("LM1", "", body(callOf("C", "LM2", ""))), libDoc("LM2", "", body(callOf("C", "LM1", "")))}, rootWith("", callOf("A", "LM1", "")), 0, {}},
    {"library-calls-another-twice", {libDoc("LT2", "", "", "Empty"), libDoc("LT1", "", body(callOf("C", "LT2", "") + callOf("D", "LT2", "")))}, rootWith("", callOf("A", "LT1", "") + callOf("B", "LT1", "")), 1, {}},
    {"in-parameter-assigned", {libDoc("LI1", in_(decl("p", "Integer")), body(assignI("X", "p", il("1"))))}, rootWith(vars(decl("v", "Integer")), callOf("A", "LI1", ali("p", iv("v")))), 0, {}},
    {"in-parameter-read", {libDoc("LI2", in_(decl("p", "Integer")), vars(decl("q", "Integer")) + body(assignI("X", "q", iv("p"))))}, rootWith("", callOf("A", "LI2", ali("p", il("4")))), 1, {}},
    {"in-parameter-default", {libDoc("LI3", in_(decl("p", "Integer", il("7"))), vars(decl("q", "Integer")) + body(assignI("X", "q", iv("p"))))}, rootWith("", callOf("A", "LI3", "")), 1, {}},
    {"in-parameter-missing", {libDoc("LI4", in_(decl("p", "Integer")), vars(decl("q", "Integer")) + body(assignI("X", "q", iv("p"))))}, rootWith("", callOf("A", "LI4", "")), 0, {}},
    {"in-parameter-of-another-type", {libDoc("LI5", in_(decl("p", "Integer")), "", "Empty")}, rootWith("", callOf("A", "LI5", ali("p", "<StringValue>x</StringValue>"))), 0, {}},
    {"inout-parameter-assigned", {libDoc("LO1", inout(decl("p", "Integer")), body(assignI("X", "p", il("1"))))}, rootWith(vars(decl("v", "Integer")), callOf("A", "LO1", ali("p", iv("v")))), 1, {}},
    {"inout-parameter-literal", {libDoc("LO2", inout(decl("p", "Integer")), body(assignI("X", "p", il("1"))))}, rootWith("", callOf("A", "LO2", ali("p", il("4")))), 0, {}},
    {"inout-parameter-expression", {libDoc("LO3", inout(decl("p", "Integer")), body(assignI("X", "p", il("1"))))}, rootWith(vars(decl("v", "Integer")), callOf("A", "LO3", ali("p", "<ADD>" + iv("v") + il("1") + "</ADD>"))), 0, {}},
    {"inout-parameter-missing", {libDoc("LO4", inout(decl("p", "Integer")), body(assignI("X", "p", il("1"))))}, rootWith("", callOf("A", "LO4", "")), 0, {}},
    {"inout-parameter-default", {libDoc("LO5", inout(decl("p", "Integer", il("3"))), body(assignI("X", "p", il("1"))))}, rootWith("", callOf("A", "LO5", "")), 1, {}},
    {"inout-array-default", {libDoc("LO6", inout(declA("p", "Integer", "4", arr)), aeq, "Assignment")}, rootWith("", callOf("A", "LO6", "")), 1, {}},
    {"inout-array-given", {libDoc("LO7", inout(declA("p", "Integer", "4")), aeq, "Assignment")}, rootWith(vars(declA("w", "Integer", "4", arr)), callOf("A", "LO7", ali("p", "<ArrayVariable>w</ArrayVariable>"))), 1, {}},
    {"in-array-assigned", {libDoc("LO8", in_(declA("p", "Integer", "4")), aeq, "Assignment")}, rootWith(vars(declA("w", "Integer", "4", arr)), callOf("A", "LO8", ali("p", "<ArrayVariable>w</ArrayVariable>"))), 0, {}},
    {"library-reads-variable-of-caller", {libDoc("LV1", "", body(assignI("X", "v", il("1"))))}, rootWith(vars(decl("v", "Integer")), callOf("A", "LV1", "")), 0, {}},
    {"library-passes-its-parameter-on", {libDoc("LP2", inout(decl("q", "Integer")), body(assignI("X", "q", il("1")))), libDoc("LP1", inout(decl("p", "Integer")), body(callOf("C", "LP2", ali("q", iv("p")))))}, rootWith(vars(decl("v", "Integer")), callOf("A", "LP1", ali("p", iv("v")))), 1, {}},
    {"library-passes-its-in-parameter-on-for-assignment", {libDoc("LP4", inout(decl("q", "Integer")), body(assignI("X", "q", il("1")))), libDoc("LP3", in_(decl("p", "Integer")), body(callOf("C", "LP4", ali("q", iv("p")))))}, rootWith(vars(decl("v", "Integer")), callOf("A", "LP3", ali("p", iv("v")))), 0, {}},
    {"parameter-also-a-variable", {libDoc("LS1", in_(decl("p", "Integer")), vars(decl("p", "Integer")), "Empty")}, rootWith("", callOf("A", "LS1", ali("p", il("1")))), 0, {}},
    {"initial-value-larger-than-array", {}, rootWith(vars(declA("w", "Integer", "1", arr)), ""), 0, {}},
    {"initial-value-of-array-fits", {}, rootWith(vars(declA("w", "Integer", "2", arr)), "<Node NodeType=\"Empty\"><NodeId>E</NodeId></Node>"), 1, {}},
    {"orphan", {}, pl("<Node NodeType=\"NodeList\"><NodeId>Root</NodeId><EndCondition>" + look("orphanEnd") + "</EndCondition>" + body(cmdNode("HoldA", "<EndCondition>" + look("holdEnd") + "</EndCondition>") + cmdNode("RepB", "<StartCondition><OR>" + look("repStart") + stateIs("HoldA", "FINISHED") + "</OR></StartCondition><RepeatCondition><BooleanValue>true</BooleanValue></RepeatCondition><EndCondition>" + look("repEnd") + "</EndCondition>")) + "</Node>"), 1,
      {{{"orphanEnd", 0}, {"holdEnd", 0}, {"repStart", 1}, {"repEnd", 0}}, {{"repStart", 0}}, {{"orphanEnd", 1}}, {{"orphanEnd", 0}}, {{"repEnd", 1}}, {{"repEnd", 0}}, {{"holdEnd", 1}}, {{"repEnd", 1}}, {}}},
  };
  // Caller and library declare a command and a state of the same name differently; each means its own.
  if (!extra) {
    extra = true;
    static std::string const one = "<GlobalDeclarations><CommandDeclaration><Name>shared</Name><Return><Name>_r</Name><Type>Integer</Type></Return><Parameter><Type>Integer</Type></Parameter></CommandDeclaration><StateDeclaration><Name>sharedState</Name><Return><Name>_r</Name><Type>Integer</Type></Return></StateDeclaration></GlobalDeclarations>";
    static std::string const two = "<GlobalDeclarations><CommandDeclaration><Name>shared</Name><Return><Name>_r</Name><Type>String</Type></Return><Parameter><Type>Integer</Type></Parameter><Parameter><Type>Integer</Type></Parameter></CommandDeclaration><StateDeclaration><Name>sharedState</Name><Return><Name>_r</Name><Type>String</Type></Return></StateDeclaration></GlobalDeclarations>";
    auto with = [](std::string const &d, std::string const &g) { return std::string(d).insert(strlen("<PlexilPlan>"), g); };
    auto use = [](const char *id, int n, bool ret) { std::string o = std::string("<Node NodeType=\"Command\"><NodeId>") + id + "</NodeId><NodeBody><Command>" + (ret ? iv("v") : "") + "<Name><StringValue>shared</StringValue></Name><Arguments>"; for (int i = 0; i < n; ++i) o += il("1"); return o + "</Arguments></Command></NodeBody></Node>"; };
    auto st = [](const char *id, bool num) { return std::string("<Node NodeType=\"Empty\"><NodeId>") + id + "</NodeId><StartCondition>" + (num ? "<GT>" + look("sharedState") + il("1") + "</GT>" : "<EQString>" + look("sharedState") + "<StringValue>x</StringValue></EQString>") + "</StartCondition></Node>"; };
    std::string v = vars(decl("v", "Integer")); int k = 0;
    for (bool first : {false, true}) for (int deep = 0; deep < 3; ++deep) for (int what = 0; what < 6; ++what) {
      // what is used, next to the call: properly (0 arguments, 1 result, 2 state), or as the library would (3, 4, 5)
      bool own = what < 3; std::string u = what % 3 == 0 ? use("U", own ? 1 : 2, false) : what % 3 == 1 ? (own ? use("U", 1, true) : use("U", 2, true)) : st("U", own);
      std::string n = "Sh" + std::to_string(k++); std::vector<std::string> ls; std::string in = n;
      // the library uses its own; or calls another one, before or after
      std::string lu = use("L", 2, false) + st("M", false);
      if (deep) { ls.push_back(with(libDoc((n + "x").c_str(), "", v + body(use("L", 1, true) + st("M", true))), one)); lu = deep == 1 ? callOf("N", (n + "x").c_str(), "") + lu : lu + callOf("N", (n + "x").c_str(), ""); }
      ls.push_back(with(libDoc(n.c_str(), "", body(lu)), two));
      std::string c = callOf("A", n.c_str(), "");
      names.push_back((own ? std::string("own-declaration-") : std::string("declaration-of-library-")) + (what % 3 == 0 ? "arguments" : what % 3 == 1 ? "result" : "state") + (first ? "-before" : "-after") + std::to_string(deep));
      H.push_back({names.back().c_str(), ls, with(rootWith(v, first ? u + c : c + u), one), own, {}, false});
    }
  }
  return H;
}
// Documents of unusual depth or width. Anything may be refused for its depth, but nothing may crash, and what
// is merely wide, or not deep, is to be accepted and run.
static std::string huge(Rng &r, std::string &what, int &expect, std::vector<std::string> &libs) {
  auto rep = [](std::string const &x, int n) { std::string o; o.reserve(x.size() * (size_t)n); for (int i = 0; i < n; ++i) o += x; return o; };
  auto nest = [&](std::string const &a, std::string const &in, std::string const &b, int n) { return rep(a, n) + in + rep(b, n); };
  auto big = [&](int lo, int hi) { return (int)(lo * std::pow((double)hi / lo, r.below(1000001) / 1e6)); };
  auto cond = [](std::string const &e, const char *c = "StartCondition") { return rootWith(vars(decl("v", "Integer", il("1")) + decl("s", "String") + declA("w", "Integer", "3")), std::string("<Node NodeType=\"Empty\"><NodeId>E</NodeId><") + c + ">" + e + "</" + c + "></Node>"); };
  auto asgn = [](std::string const &e) { return rootWith(vars(decl("v", "Integer", il("1")) + declA("w", "Integer", "3")), assignI("X", "v", e)); };
  bool deep = r.chance(60);
  int n = deep ? big(10, 20000) : big(10, 3000);
  auto id = [](const char *p, int i) { return p + std::to_string(i); };
  std::string doc;
  expect = deep && n > 100 ? -1 : 1;
  if (deep) switch (r.below(13)) {
    case 0: what = "negation"; doc = cond(nest("<NOT>", "<BooleanValue>1</BooleanValue>", "</NOT>", n)); break;
    case 1: what = "conjunction"; doc = cond(nest("<AND><BooleanValue>1</BooleanValue>", "<BooleanValue>1</BooleanValue>", "</AND>", n), r.chance(50) ? "EndCondition" : "InvariantCondition"); break;
    case 2: what = "sum"; doc = asgn(nest("<ADD>" + iv("v"), il("1"), "</ADD>", n)); break;
    case 3: what = "concatenation"; doc = cond("<EQString>" + nest("<Concat><StringVariable>s</StringVariable>", "<StringValue>x</StringValue>", "</Concat>", n) + "<StringValue>x</StringValue></EQString>"); break;
    case 4: what = "array index"; doc = cond("<EQNumeric>" + nest("<ArrayElement><Name>w</Name><Index>", il("1"), "</Index></ArrayElement>", n) + il("1") + "</EQNumeric>"); break;
    case 5: what = "lookup arguments"; doc = cond("<EQString>" + nest("<LookupOnChange><Name><StringValue>hugeL</StringValue></Name><Arguments>", "<StringValue>x</StringValue>", "</Arguments></LookupOnChange>", n) + "<StringValue>x</StringValue></EQString>"); break;
    case 6: what = "lookup name"; doc = cond("<EQString>" + nest("<LookupNow><Name>", "<StringValue>x</StringValue>", "</Name></LookupNow>", n) + "<StringValue>x</StringValue></EQString>"); break;
    case 7: { what = "node lists"; std::string o; for (int i = 0; i < n; ++i) o += "<Node NodeType=\"NodeList\"><NodeId>" + id("n", i) + "</NodeId><NodeBody><NodeList>"; doc = pl(o + "<Node NodeType=\"Empty\"><NodeId>E</NodeId></Node>" + rep("</NodeList></NodeBody></Node>", n)); break; }
    case 8: { what = "library calls"; n = std::min(n, 60); expect = 1; static int serial; ++serial; for (int i = 0; i < n; ++i) libs.push_back(libDoc(("Hg" + std::to_string(serial) + "x" + std::to_string(i)).c_str(), in_(decl("p", "Integer")), i ? body(callOf("C", ("Hg" + std::to_string(serial) + "x" + std::to_string(i - 1)).c_str(), ali("p", "<ADD>" + iv("p") + il("1") + "</ADD>"))) : std::string(), i ? "NodeList" : "Empty")); doc = rootWith("", callOf("A", ("Hg" + std::to_string(serial) + "x" + std::to_string(n - 1)).c_str(), ali("p", il("1")))); break; }
    case 9: what = "junk"; expect = 0; doc = pl(nest("<Junk>", "", "</Junk>", n)); break;
    case 10: what = "junk in a node"; expect = 0; doc = rootWith(nest("<NodeBody>", "", "</NodeBody>", n), ""); break;
    case 11: what = "library body"; libs.push_back(libDoc("HgBody", "", "<StartCondition>" + nest("<OR>", "<BooleanValue>1</BooleanValue>", "</OR>", n) + "</StartCondition>", "Empty")); doc = rootWith("", callOf("A", "HgBody", "")); break;
    default: what = "argument of a library"; libs.push_back(libDoc("HgArg", in_(decl("p", "Integer")), "<StartCondition><GT>" + iv("p") + il("0") + "</GT></StartCondition>", "Empty")); doc = rootWith(vars(decl("v", "Integer", il("1"))), callOf("A", "HgArg", ali("p", nest("<ADD>" + iv("v"), il("1"), "</ADD>", n)))); break;
  } else switch (r.below(10)) {
    case 0: { what = "children"; std::string o; for (int i = 0; i < n; ++i) o += "<Node NodeType=\"Empty\"><NodeId>" + id("n", i) + "</NodeId></Node>"; doc = rootWith("", o); break; }
    case 1: { what = "variables"; std::string o; for (int i = 0; i < n; ++i) o += decl(id("v", i).c_str(), "Integer", il("1")); doc = rootWith(vars(o), assignI("X", id("v", n - 1).c_str(), iv("v0"))); break; }
    case 2: what = "operands"; doc = cond("<AND>" + rep("<BooleanValue>1</BooleanValue>", n) + "</AND>"); break;
    case 3: what = "summands"; doc = asgn("<ADD>" + rep(iv("v"), n) + "</ADD>"); break;
    case 4: what = "pieces of a string"; doc = cond("<EQString><Concat>" + rep("<StringValue>abc</StringValue>", n) + "</Concat><StringValue>abc</StringValue></EQString>"); break;
    case 5: what = "array elements"; n = big(10, 30000); doc = rootWith(vars(declA("big", "Integer", std::to_string(n).c_str(), "<ArrayValue Type=\"Integer\">" + rep(il("7"), n) + "</ArrayValue>") + decl("v", "Integer")), assignI("X", "v", "<ArrayElement><Name>big</Name><Index>" + il(std::to_string(n - 1).c_str()) + "</Index></ArrayElement>")); break;
    case 6: what = "letters of a string"; n = big(10, 1000000); doc = cond("<EQString><StringVariable>s</StringVariable><StringValue>" + rep("x", n) + "</StringValue></EQString>"); break;
    case 7: what = "letters of a name"; n = big(10, 100000); doc = rootWith(vars(decl(rep("x", n).c_str(), "Integer")), assignI("X", rep("x", n).c_str(), il("1"))); break;
    case 8: { what = "lookup arguments side by side"; doc = cond("<EQString><LookupOnChange><Name><StringValue>hugeW</StringValue></Name><Arguments>" + rep("<StringValue>a</StringValue>", n) + "</Arguments></LookupOnChange><StringValue>x</StringValue></EQString>"); break; }
    default: { what = "nodes waiting for one another"; std::string o; n = std::min(n, 1000); for (int i = 0; i < n; ++i) o += "<Node NodeType=\"Empty\"><NodeId>" + id("n", i) + "</NodeId>" + (i ? "<StartCondition>" + stateIs(id("n", i - 1).c_str(), "FINISHED") + "</StartCondition>" : std::string()) + "</Node>"; doc = rootWith("", o); break; }
  }
  what = std::to_string(n) + " " + what + (deep ? " inside one another" : "");
  R.add(deep ? "deep_documents" : "wide_documents");
  return doc;
}
static void runHand(Hand const &h, Env &env, PLEXIL::NodeImpl *root);

// ---------------------------------------------------------------- loading
enum Verdict { REFUSED, ACCEPTED };
static std::string why;
static Verdict load(std::string const &xml, PLEXIL::NodeImpl *&root) {
  pugi::xml_document doc;
  root = nullptr;
  if (!doc.load_buffer(xml.data(), xml.size(), PO)) { why = "not XML"; return REFUSED; }
  try { root = PLEXIL::parsePlan(doc.document_element()); }
  catch (PLEXIL::ParserException const &e) { why = e.what(); return REFUSED; }
  catch (PLEXIL::Error const &e) { throw Bad{"internal", std::string("loading ended in an internal error: ") + e.what()}; }
  catch (PLEXIL::PlanError const &e) { throw Bad{"internal", std::string("loading ended in a plan error: ") + e.what()}; }
  catch (std::exception const &e) { throw Bad{"internal", std::string("loading ended in an exception: ") + e.what()}; }
  if (!root) throw Bad{"internal", "the loader returned neither a plan nor a diagnostic"};
  return ACCEPTED;
}
static void addLib(std::string const &xml) {
  auto *doc = new pugi::xml_document;
  if (!doc->load_buffer(xml.data(), xml.size(), PO)) { delete doc; return; }
  try { if (!PLEXIL::loadLibraryDocument(doc)) R.add("libsrefused"); else R.add("libs"); }
  catch (PLEXIL::ParserException const &e) { R.add("libsrefused"); }
  catch (PLEXIL::Error const &e) { throw Bad{"internal", std::string("loading a library ended in an internal error: ") + e.what()}; }
  catch (std::exception const &e) { throw Bad{"internal", std::string("loading a library ended in an exception: ") + e.what()}; }
}
static void returnTypes(std::string const &xml, Env &env) {
  pugi::xml_document d; if (!d.load_buffer(xml.data(), xml.size(), PO)) return;
  // A lookup or command whose name is computed has no declared type.
  for (auto e : elements(d)) if ((!strncmp(e.name(), "Lookup", 6) || !strcmp(e.name(), "Command")) && !e.child("Name").child("StringValue")) env.untyped = true;
  auto gd = d.document_element().child("GlobalDeclarations");
  if (d.document_element().first_child() != gd) return; // read only where they belong, at the front
  for (auto g : gd.children()) {
    std::string t = g.child("Return").child_value("Type"); bool arr = g.child("Return").child("MaxSize");
    static std::map<std::string, PLEXIL::ValueType> T = {{"Boolean", PLEXIL::BOOLEAN_TYPE}, {"Integer", PLEXIL::INTEGER_TYPE}, {"Real", PLEXIL::REAL_TYPE}, {"String", PLEXIL::STRING_TYPE}};
    if (T.count(t)) env.retTy[(!strcmp(g.name(), "CommandDeclaration") ? "command " : "state ") + std::string(g.child_value("Name"))] = arr ? PLEXIL::arrayType(T[t]) : T[t];
  }
}
static void runPlan(PLEXIL::NodeImpl *root, Env &env, Rng &r) {
  PLEXIL::g_exec->addPlan(root);
  try {
    for (int s = 0; s < 25; ++s) {
      env.now += 1; env.micro = 0;
      env.respond();
      PLEXIL::StateCache::instance().incrementCycleCount();
      PLEXIL::g_exec->step(env.now);
      R.add("steps");
      PLEXIL::g_exec->deleteFinishedPlans();
      if (PLEXIL::g_exec->getPlans().empty()) { env.cmds.clear(); env.upds.clear(); R.add("reaped"); if (r.chance(50)) break; }
    }
    if (PLEXIL::g_exec->allPlansFinished()) R.add("completed");
  }
  catch (Brake const &) { R.add("braked"); }
  catch (PLEXIL::PlanError const &e) { R.add("planerrors"); env.interrupted = true; }
  catch (PLEXIL::Error const &e) { env.interrupted = true; if (env.untyped && strstr(e.what(), "trying to get a")) R.add("typeerrors"); else throw Bad{"internal", std::string("an accepted plan ran into an internal error: ") + e.what()}; }
  catch (std::exception const &e) { throw Bad{"internal", std::string("an accepted plan ran into an exception: ") + e.what()}; }
  R.add("transitions", env.trans);
  (void)r;
}

static void runHand(Hand const &h, Env &env, PLEXIL::NodeImpl *root) {
  env.orphanOk = false; env.obey = true; env.hand = h.world.empty() ? std::map<std::string, int>() : h.world[0];
  for (auto const &w : env.hand) PLEXIL::StateCache::instance().lookupReturn(PLEXIL::State(w.first, 0), PLEXIL::Value((PLEXIL::Boolean)(w.second != 0)));
  PLEXIL::g_exec->addPlan(root);
  try {
    for (size_t s = 0; s < h.world.size() + 12; ++s) {
      if (s && s < h.world.size()) for (auto const &w : h.world[s]) { env.hand[w.first] = w.second; PLEXIL::StateCache::instance().lookupReturn(PLEXIL::State(w.first, 0), PLEXIL::Value((PLEXIL::Boolean)(w.second != 0))); }
      for (auto *c : env.cmds) PLEXIL::commandHandleReturn(c, PLEXIL::COMMAND_SUCCESS);
      for (int k = 0; k < 4; ++k) { env.micro = 0; PLEXIL::g_exec->step(++env.now); R.add("steps"); }
    }
  }
  catch (PLEXIL::Error const &e) { throw Bad{"internal", std::string("an accepted plan ran into an internal error: ") + e.what()}; }
  if (!PLEXIL::g_exec->allPlansFinished()) throw Bad{"unfinished", "the plan should have finished"};
  R.add("completed"); R.add("transitions", env.trans);
}

int main(int argc, char **argv) {
  vc::Args A(argc, argv);
  PLEXIL::Error::doThrowExceptions(); PLEXIL::Error::doNotDisplayErrors(); PLEXIL::Error::doNotDisplayWarnings();
  PLEXIL::PlanError::doThrowExceptions();
  std::string dir = A.str("corpus", "/verif/corpus");
  loadCorpus(dir);
  if (corpus.empty() || tags.size() < 50) { fprintf(stderr, "no corpus in %s\n", dir.c_str()); return 3; }
  if (A.has("debug")) { std::istringstream is(":PlexilExec:step\n:Node:\n"); PLEXIL::readDebugConfigStream(is); }
  std::string mode = A.str("mode", "mutate");
  uint64_t seed = (uint64_t)A.num("seed", 1);
  long first = A.num("first", 0), cases = A.num("cases", 1);
  if (mode == "corpus") cases = std::max(0L, std::min(cases, (long)corpus.size() - first));
  if (mode == "directed") cases = std::max(0L, std::min(cases, (long)hands().size() - first));
  PLEXIL::appendLibraryPath(dir);
  for (long c = first; c < first + cases; ++c) {
    std::ostringstream id; id << mode << ":"; if (mode == "directed") id << hands()[(size_t)c].name << ":" << c; else id << seed << ":" << c;
    R.begin(id.str()); R.add("cases");
    Rng r(vc::mix(vc::mix(seed, vc::hashStr(mode)), (uint64_t)c));
    Env env(r);
    PLEXIL::g_exec = PLEXIL::makePlexilExec();
    PLEXIL::g_dispatcher = &env; PLEXIL::g_exec->setDispatcher(&env); PLEXIL::g_exec->setExecListener(&env);
    std::string doc, name, what; std::vector<std::string> libs; int expect = -1;
    try {
      if (mode == "corpus") { doc = corpus[c].xml; name = corpus[c].name; expect = corpus[c].valid; }
      else if (mode == "directed") { Hand const &h = hands()[(size_t)c]; doc = h.doc; name = h.name; expect = h.expect; libs = h.libs; }
      else if (mode == "huge") { doc = huge(r, what, expect, libs); name = "huge"; }
      else {
        bool gen = r.chance(40) || mode == "bad" || mode == "names";
        if (gen) {
          Prof f; f.maxNodes = 8; f.wX = r.chance(50) ? 3 : 0; f.arrays = r.chance(50) ? 50 : f.arrays; f.pMutex = f.pUseMutex = r.chance(30) ? 50 : 0; f.pRes = r.chance(30) ? 50 : 0; f.watch = 30;
          if (mode == "names") { f.pIface = 45; f.renames = r.chance(50) ? 40 : 1; f.pMutex = f.pUseMutex = 35; f.pVars = 85; f.maxNodes = 14; f.wA = 6; f.wL = 6; f.maxDepth = 5; f.pStart = 60; f.pEnd = 40; }
          std::ostringstream tag; tag << "x" << c;
          Plan p; Gen g(p, r, f, tag.str()); g.run();
          doc = p.rootXml[0]; name = "generated"; for (auto &l : p.libs) libs.push_back(l.xml); expect = 1;
        } else { Doc const &o = r.pick(corpus); doc = o.xml; name = o.name; expect = o.valid; }
        if (mode == "benign") {
          pugi::xml_document d; if (!d.load_buffer(doc.data(), doc.size(), PO)) doc.clear(); else { decorate(d.document_element(), r); doc = text(d); }
        } else if (mode == "names" && r.chance(20)) {
        } else if (mode == "bad" || mode == "names") {
          pugi::xml_document d; auto const &rules = mode == "bad" ? badRules() : nameRules();
          if (!d.load_buffer(doc.data(), doc.size(), PO)) throw Bad{"harness", "generated document is not XML"};
          BadCtx b{d, r, elements(d), ""};
          // defaults and sizes announced for a library elsewhere are not looked at
          b.es.erase(std::remove_if(b.es.begin(), b.es.end(), [](XN e) { bool init = false; for (; e; e = e.parent()) { if (!strcmp(e.name(), "InitialValue") || !strcmp(e.name(), "MaxSize")) init = true; if (!strcmp(e.name(), "LibraryNodeDeclaration")) return init; } return false; }), b.es.end());
          auto const &q = rules[(size_t)c % rules.size()]; what = q.name; auto tag = what.c_str(); (void)tag;
          if (!q.f(b)) { R.add("inapplicable"); delete PLEXIL::g_exec; PLEXIL::g_exec = nullptr; continue; }
          R.sig(vc::hashStr(what)); R.add("rule_applied"); doc = text(d); expect = 0; name = "document with a " + what + b.note;
        } else {
          bool ml = !libs.empty() && r.chance(40);
          std::string &t = ml ? libs[r.below((int)libs.size())] : doc;
          pugi::xml_document d;
          if (d.load_buffer(t.data(), t.size(), PO)) { int k = r.chance(70) ? 1 : r.range(2, 5); for (int i = 0; i < k; ++i) what += mutate(d, r) + "; "; for (auto e : elements(d)) if (!strcmp(e.name(), "MaxSize") && strtod(e.child_value(), nullptr) > 1e6 && e.first_child()) e.first_child().set_value("1000"); /* not our memory */ t = text(d); }
          if (r.chance(2)) { t.resize(r.below((int)t.size() + 1)); what += "cut"; }
          expect = -1;
        }
      }
      if (A.has("dump")) { for (auto &l : libs) fprintf(stderr, "LIB %s\n", l.c_str()); fprintf(stderr, "%s\n%s\n%s\n", name.c_str(), what.c_str(), doc.c_str()); }
      for (auto &l : libs) addLib(l);
      PLEXIL::NodeImpl *root;
      Verdict v = load(doc, root);
      R.add(v == ACCEPTED ? "accepted" : "refused");
      R.sig(vc::mix(vc::hashStr(name + what.substr(0, what.find(';'))), v));
      if (A.has("verdict")) printf("VERDICT %s %s %s\n", name.c_str(), v == ACCEPTED ? "accepted" : "refused", v == ACCEPTED ? "" : why.substr(0, 200).c_str());
      if (v == REFUSED) R.sig(vc::hashStr(why.substr(0, 40)));
      if (expect >= 0 && expect != (int)v) { if (v == ACCEPTED) delete root; throw Bad{expect ? "refused" : "accepted", name + (expect ? " is well formed but was refused: " + why : " is ill formed but was accepted")}; }
      if (v == ACCEPTED) { if (mode == "directed") { if (hands()[(size_t)c].run) runHand(hands()[(size_t)c], env, root); else delete root; } else { returnTypes(doc, env); for (auto &l : libs) { auto keep = env.retTy; returnTypes(l, env); for (auto &k : keep) if (env.retTy[k.first] != k.second) env.untyped = true; } runPlan(root, env, r); } }
      if (c % 97 == 0) R.sample(name + ": " + (what.empty() ? "unchanged" : what) + (v == ACCEPTED ? " accepted and run" : " refused: " + why.substr(0, 150)));
    }
    catch (Bad const &b) { R.viol(b.kind, b.msg + " [" + name + ": " + what + "]"); }
    delete PLEXIL::g_exec; PLEXIL::g_exec = nullptr; PLEXIL::g_dispatcher = nullptr;
    // An executive interrupted in the middle of a step (such errors end the real program) cannot be trusted
    // to have left the shared state cache in order: go on in a fresh process.
    if (env.interrupted && c + 1 < first + cases) {
      plexilRunFinalizers();
      if (__lsan_do_recoverable_leak_check()) exit(23);
      R.finish(false);
      std::vector<std::string> av(argv, argv + argc); std::vector<char *> ap;
      bool f1 = false, f2 = false;
      for (size_t i = 1; i + 1 < av.size(); ++i) { if (av[i] == "--first") { av[i + 1] = std::to_string(c + 1); f1 = true; } if (av[i] == "--cases") { av[i + 1] = std::to_string(first + cases - c - 1); f2 = true; } }
      if (!f1) { av.push_back("--first"); av.push_back(std::to_string(c + 1)); }
      if (!f2) { av.push_back("--cases"); av.push_back(std::to_string(first + cases - c - 1)); }
      for (auto &x : av) ap.push_back(&x[0]);
      ap.push_back(nullptr);
      execv("/proc/self/exe", ap.data());
      fprintf(stderr, "cannot restart\n"); return 3;
    }
    if (A.has("leakeach") && __lsan_do_recoverable_leak_check()) { fprintf(stderr, "LEAK in %s\n", id.str().c_str()); }
  }
  plexilRunFinalizers();
  R.finish();
  return 0;
}
