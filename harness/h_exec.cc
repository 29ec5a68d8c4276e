// Runs the real executive (parser + exec + intfc) on random plans in a random
// environment, and checks every observable event online against the reference
// model in pmodel.hh.
#include "lifecycle-utils.h"
#include "pmodel.hh"
#include "ArrayImpl.hh"
#include "Command.hh"
#include "CommandHandle.hh"
#include "Debug.hh"
#include "Dispatcher.hh"
#include "Error.hh"
#include "ExecListenerBase.hh"
#include "Expression.hh"
#include "LookupReceiver.hh"
#include "Node.hh"
#include "NodeImpl.hh"
#include "NodeTransition.hh"
#include "PlanError.hh"
#include "PlexilExec.hh"
#include "ResourceArbiterInterface.hh"
#include "State.hh"
#include "StateCache.hh"
#include "Update.hh"
#include "Value.hh"
#include "parsePlan.hh"
#include "planLibrary.hh"
#include "pugixml.hpp"
#include <algorithm>
#include <functional>

using namespace pmodel;
using vc::Report;
using vc::Rng;

static Report R;
struct Stop { std::string kind, msg; };        // violation
struct Discard { std::string why; };           // case abandoned (outside the claim)

static PLEXIL::Value toValue(V const &v, Ty ty) {
  if (!v.known()) {
    switch (ty) {
    case TB: { PLEXIL::Value u; u.setUnknown(); return u; }
    case TI: { PLEXIL::Value u; u.setUnknown(); return u; }
    case TR: { PLEXIL::Value u; u.setUnknown(); return u; }
    default: { PLEXIL::Value u; u.setUnknown(); return u; }
    }
  }
  switch (v.k) {
  case V::B: return PLEXIL::Value((PLEXIL::Boolean)(v.i != 0));
  case V::I: return PLEXIL::Value((PLEXIL::Integer)v.i);
  case V::R: return PLEXIL::Value((PLEXIL::Real)v.d);
  case V::S: return PLEXIL::Value(PLEXIL::String(v.s));
  case V::A: {
    size_t n = v.a.size();
    auto fill = [&](auto &arr, auto get) { for (size_t i = 0; i < n; ++i) if (v.a[i].known()) arr.setElement(i, get(v.a[i])); return PLEXIL::Value(arr); };
    switch (ty) {
    case TBA: { PLEXIL::BooleanArray a(n); return fill(a, [](V const &e) { return (PLEXIL::Boolean)(e.i != 0); }); }
    case TIA: { PLEXIL::IntegerArray a(n); return fill(a, [](V const &e) { return (PLEXIL::Integer)e.i; }); }
    case TRA: { PLEXIL::RealArray a(n); return fill(a, [](V const &e) { return (PLEXIL::Real)e.d; }); }
    default: { PLEXIL::StringArray a(n); return fill(a, [](V const &e) { return PLEXIL::String(e.s); }); }
    }
  }
  default: return PLEXIL::Value();
  }
}
template <class T> static V arrV(PLEXIL::Value const &x, V (*f)(T)) {
  PLEXIL::ArrayImpl<T> const *p = nullptr;
  if (!x.getValuePointer(p) || !p) return V();
  std::vector<V> a;
  for (size_t i = 0; i < p->size(); ++i) {
    T e;
    if (p->elementKnown(i) && p->getElement(i, e)) a.push_back(f(e)); else a.push_back(V());
  }
  return V::ar(a);
}
static V fromValue(PLEXIL::Value const &x) {
  if (!x.isKnown()) return V();
  switch (x.valueType()) {
  case PLEXIL::BOOLEAN_TYPE: { PLEXIL::Boolean b; x.getValue(b); return V::b(b); }
  case PLEXIL::INTEGER_TYPE: { PLEXIL::Integer b; x.getValue(b); return V::in(b); }
  case PLEXIL::REAL_TYPE: { PLEXIL::Real b; x.getValue(b); return V::re(b); }
  case PLEXIL::STRING_TYPE: { PLEXIL::String b; x.getValue(b); return V::st(b); }
  case PLEXIL::BOOLEAN_ARRAY_TYPE: return arrV<PLEXIL::Boolean>(x, [](PLEXIL::Boolean b) { return V::b(b); });
  case PLEXIL::INTEGER_ARRAY_TYPE: return arrV<PLEXIL::Integer>(x, [](PLEXIL::Integer b) { return V::in(b); });
  case PLEXIL::REAL_ARRAY_TYPE: return arrV<PLEXIL::Real>(x, [](PLEXIL::Real b) { return V::re(b); });
  case PLEXIL::STRING_ARRAY_TYPE: return arrV<PLEXIL::String>(x, [](PLEXIL::String b) { return V::st(b); });
  default: return V();
  }
}

struct Case : PLEXIL::Dispatcher, PLEXIL::ExecListenerBase {
  Prof prof;
  Rng rng;
  Plan plan;
  std::unique_ptr<Model> m;
  std::map<std::string, V> world;
  std::map<std::string, Ty> wty;
  std::map<PLEXIL::Node const *, int> idx;
  std::vector<PLEXIL::NodeImpl *> real;
  std::vector<char> added;       // root added
  std::map<PLEXIL::Command *, int> cmdOf;
  std::vector<PLEXIL::Command *> cmdPtr;
  std::vector<PLEXIL::Update *> updPtr;
  struct Pend { int node; int kind; };  // environment to-do
  std::vector<char> outstanding, abortOut, updOut;
  std::vector<Eff> expAcc, expRej;
  bool arbDone = false, loopChecked = false, inStep = false;
  long micro = 0, stepMicro = 0, steps = 0;
  uint64_t sig = 0;
  bool helpful = false, reap = false;
  std::function<void(pugi::xml_node)> onPlan, onLib;   // told of each plan and library before it is added
  std::function<void()> between;                       // called between steps
  std::string trace;

  Case(Prof const &f, uint64_t seed) : prof(f), rng(seed) { reap = vc::mix(seed, 77) % 2; }

  void note(std::string const &s) { if (trace.size() < 20000) trace += s + "; "; }
  std::string nid(int n) { return plan.n[n].id; }

  // ------------------------------------------------------------ Dispatcher
  std::string skey(PLEXIL::State const &s) {
    std::string k = s.name();
    for (auto const &v : s.parameters()) k += "|" + fromValue(v).str();
    return k;
  }
  void lookupNow(PLEXIL::State const &s, PLEXIL::LookupReceiver *r) override {
    R.add("lookups");
    auto it = world.find(skey(s));
    if (it == world.end() || !it->second.known()) { r->setUnknown(); return; }
    r->update(toValue(it->second, wty[it->first]));
  }
  void setThresholds(PLEXIL::State const &, PLEXIL::Real, PLEXIL::Real) override {}
  void setThresholds(PLEXIL::State const &, PLEXIL::Integer, PLEXIL::Integer) override {}
  void clearThresholds(PLEXIL::State const &) override {}

  void startOutbound() {
    loopEnd();
    if (!m->assigns.empty()) throw Stop{"assign", "step finished without performing the assignment of " + nid(m->assigns.front().node)};
    if (!m->retracts.empty()) throw Stop{"assign", "step finished without retracting the assignment of " + nid(m->retracts.front().node)};
    if (!arbDone) { arbDone = true; m->arbitrate(expAcc, expRej); }
  }
  void executeCommand(PLEXIL::Command *c) override {
    startOutbound();
    R.add("commands");
    if (expAcc.empty()) throw Stop{"cmd", "command " + c->getName() + " dispatched but none is expected"};
    Eff e = expAcc.front();
    expAcc.erase(expAcc.begin());
    checkCmd(c, e, "dispatched");
    outstanding[e.node] = 1;
    note("CMD " + nid(e.node));
  }
  void checkCmd(PLEXIL::Command *c, Eff const &e, const char *what) {
    const char *kind = plan.n[e.node].res.empty() ? "cmd" : "arb";
    auto it = cmdOf.find(c);
    if (it != cmdOf.end() && it->second != e.node)
      throw Stop{kind, std::string("command of ") + nid(it->second) + " " + what + " where that of " + nid(e.node) + " was expected"};
    if (it == cmdOf.end()) {
      if (cmdPtr[e.node] && cmdPtr[e.node] != c) throw Stop{kind, std::string("an unexpected command was ") + what + " instead of that of " + nid(e.node)};
      cmdOf[c] = e.node; cmdPtr[e.node] = c;
    }
    if (c->getName() != e.name) throw Stop{kind, "command name " + c->getName() + " differs from " + e.name};
    auto const &as = c->getArgValues();
    if (as.size() != e.args.size()) throw Stop{"cmd", "command of " + nid(e.node) + ": wrong number of arguments"};
    for (size_t i = 0; i < as.size(); ++i)
      if (!fromValue(as[i]).eq(e.args[i])) throw Stop{"cmd", "command of " + nid(e.node) + ": argument " + fromValue(as[i]).str() + " should be " + e.args[i].str()};
  }
  void reportCommandArbitrationFailure(PLEXIL::Command *c) override {
    startOutbound();
    R.add("rejections");
    if (!expAcc.empty()) throw Stop{"arb", "command of " + nid(expAcc.front().node) + " should have been accepted"};
    if (expRej.empty()) throw Stop{"arb", "command " + c->getName() + " refused though resources are available"};
    Eff e = expRej.front();
    expRej.erase(expRej.begin());
    checkCmd(c, e, "refused");
    note("REJ " + nid(e.node));
    PLEXIL::commandHandleReturn(c, PLEXIL::COMMAND_DENIED);
    if (m->rt[e.node].cmdActive) m->rt[e.node].handle = H_DENIED;
  }
  void endCmds() {
    if (!expAcc.empty()) throw Stop{"arb", "command of " + nid(expAcc.front().node) + " was never dispatched"};
    if (!expRej.empty()) throw Stop{"arb", "refused command of " + nid(expRej.front().node) + " was never reported"};
  }
  void invokeAbort(PLEXIL::Command *c) override {
    startOutbound(); endCmds();
    R.add("aborts");
    if (m->aborts.empty()) throw Stop{"cmd", "unexpected abort of " + c->getName()};
    Eff e = m->aborts.front();
    m->aborts.pop_front();
    if (cmdPtr[e.node] != c) throw Stop{"cmd", "abort sent for the wrong command, expected that of " + nid(e.node)};
    abortOut[e.node] = 1;
    note("ABORT " + nid(e.node));
  }
  void executeUpdate(PLEXIL::Update *u) override {
    startOutbound(); endCmds();
    R.add("updates");
    if (!m->aborts.empty()) throw Stop{"cmd", "abort of " + nid(m->aborts.front().node) + " not sent"};
    if (m->updates.empty()) throw Stop{"update", "unexpected update from " + u->getNodeId()};
    Eff e = m->updates.front();
    m->updates.pop_front();
    if (u->getNodeId() != nid(e.node)) throw Stop{"update", "update of " + u->getNodeId() + " where that of " + nid(e.node) + " was expected"};
    size_t k = 0;
    for (auto const &pr : u->getPairs()) { (void)pr; ++k; }
    if (k != e.pairs.size()) throw Stop{"update", "update of " + nid(e.node) + ": wrong number of pairs"};
    for (auto const &x : e.pairs) {
      bool f = false;
      for (auto const &pr : u->getPairs()) if (std::string(pr.first) == x.first) {
        f = true;
        if (!fromValue(pr.second).eq(x.second)) throw Stop{"update", "update of " + nid(e.node) + ": pair " + x.first + " is " + fromValue(pr.second).str() + ", should be " + x.second.str()};
      }
      if (!f) throw Stop{"update", "update of " + nid(e.node) + ": pair " + x.first + " missing"};
    }
    updPtr[e.node] = u;
    updOut[e.node] = 1;
    note("UPD " + nid(e.node));
    if (rng.chance(prof.pSyncUpdate)) { updOut[e.node] = 0; ackUpd(e.node, true); }
  }
  void ackUpd(int n, bool a) {
    updPtr[n]->acknowledge(a);
    if (m->rt[n].ackActive) m->rt[n].ack = a ? true : m->rt[n].ack;
  }

  // ------------------------------------------------------------ listener
  struct E1 { int n; Dest d; bool acq; std::vector<std::string> res; };
  std::vector<E1> enabled() {
    std::vector<E1> v;
    for (size_t i = 0; i < plan.n.size(); ++i) {
      int root = (int)i;
      while (plan.n[root].parent >= 0) root = plan.n[root].parent;
      if (!added[root]) continue;
      E1 e; e.n = (int)i;
      if (m->dest((int)i, e.d)) {
        e.acq = e.d.st == EXECUTING && m->acquires((int)i);
        if (e.acq) e.res = m->resources((int)i);
        v.push_back(e);
      }
    }
    return v;
  }
  // nodes that must move: enabled and not waiting for a held resource
  std::string mustMove(std::vector<E1> const &v, bool &res) {
    for (auto const &e : v) {
      bool blocked = false;
      for (auto const &s : e.res) if (m->held.count(s)) blocked = true;
      if (!blocked) { res = e.acq; return nid(e.n) + " " + stName(m->rt[e.n].st) + "->" + stName(e.d.st); }
    }
    return "";
  }
  void loopEnd() {
    if (loopChecked) return;
    loopChecked = true;
    if (!m->effects()) {
      bool res = false;
      std::string s = mustMove(enabled(), res);
      if (!s.empty()) throw Stop{res ? "resource" : "quiesce", "step ended with enabled transition " + s};
    }
    // degenerate situation: see DESIGN.md
  }
  void notifyOfTransitions(std::vector<PLEXIL::NodeTransition> const &ts) override {
    if (++stepMicro > 250) throw Discard{"unbounded step"};
    ++micro;
    R.add("microsteps");
    if (loopChecked) throw Stop{"quiesce", "transition after the step's outbound phase began"};
    if (m->effects()) throw Stop{"quiesce", "further transitions in the same step although side effects are queued"};
    std::vector<E1> en = enabled();
    std::map<int, E1 *> em;
    for (auto &e : en) em[e.n] = &e;
    std::set<int> seen;
    std::map<std::string, int> winner;
    for (auto const &t : ts) {
      auto it = idx.find(t.node);
      if (it == idx.end()) throw Stop{"state", "transition of a node that is not part of any loaded plan"};
      int n = it->second;
      std::string what = nid(n) + " " + stName(t.oldState) + "->" + stName(t.newState);
      if (!seen.insert(n).second) throw Stop{"state", "node moved twice in one micro-step: " + what};
      if ((int)t.oldState != m->rt[n].st) throw Stop{"state", what + ": node was in state " + stName(m->rt[n].st)};
      auto ei = em.find(n);
      if (ei == em.end()) throw Stop{"state", what + ": no transition is enabled"};
      if (ei->second->d.st != (int)t.newState) throw Stop{"state", what + ": should go to " + stName(ei->second->d.st)};
      for (auto const &s : ei->second->res) {
        if (m->held.count(s)) throw Stop{"resource", what + ": " + s + " is held by " + nid(m->held[s])};
        if (winner.count(s)) throw Stop{"resource", what + ": " + s + " also taken by " + nid(winner[s])};
        winner[s] = n;
      }
    }
    for (auto &e : en) {
      if (seen.count(e.n)) continue;
      std::string what = nid(e.n) + " " + stName(m->rt[e.n].st) + "->" + stName(e.d.st);
      if (!e.acq) throw Stop{"missing", "enabled transition not taken: " + what};
      bool ok = false;
      for (auto const &s : e.res) {
        if (m->held.count(s)) ok = true;
        else if (winner.count(s) && plan.n[winner[s]].prio <= plan.n[e.n].prio) ok = true;
      }
      if (!ok) throw Stop{"resource", "node passed over for a free resource: " + what};
      R.add("contended");
    }
    for (auto const &t : ts) {
      int n = idx[t.node];
      Dest d = em[n]->d;
      m->apply(n, d);
      sig = vc::mix(sig, (uint64_t)n * 64 + t.oldState * 8 + t.newState);
      R.add("transitions");
      R.sig(vc::mix(0x7717, ((uint64_t)plan.n[n].type << 24) | (t.oldState << 20) | (t.newState << 16) | (m->rt[n].out << 8) | m->rt[n].fail));
      note(nid(n) + ":" + stName(t.newState));
    }
    // outcomes, read after the whole micro-step
    for (auto const &t : ts) {
      int n = idx[t.node];
      PLEXIL::Node *x = t.node;
      if ((int)x->getState() != m->rt[n].st) throw Stop{"state", nid(n) + " reports state " + stName(x->getState()) + " after moving to " + stName(m->rt[n].st)};
      int o = x->getOutcome(), f = x->getFailureType();
      if (!o) o = NOOUT;
      if (!f) f = NOFAIL;
      if (o != m->rt[n].out || f != m->rt[n].fail)
        throw Stop{"state", nid(n) + " in " + stName(m->rt[n].st) + " has outcome " + outName(o) + "/" + failName(f) + ", should be " + outName(m->rt[n].out) + "/" + failName(m->rt[n].fail)};
    }
    // situation outside the claim: a waiting child below a parent that already ended
    for (size_t i = 0; i < plan.n.size(); ++i) {
      int ps = plan.n[i].parent >= 0 ? m->rt[plan.n[i].parent].st : EXECUTING;
      if (m->rt[i].st != INACTIVE && m->rt[i].st != FINISHED && (ps == ITER || ps == FINISHED)) throw Discard{"child left active under an ended parent"};
    }
  }
  void notifyOfAssignment(PLEXIL::Expression const *, std::string const &name, PLEXIL::Value const &value) override {
    loopEnd();
    R.add("assignments");
    V v = fromValue(value);
    bool retract = m->assigns.empty();
    if (retract && m->retracts.empty()) throw Stop{"assign", "unexpected assignment to " + name};
    Eff e = retract ? m->retracts.front() : m->assigns.front();
    if (retract) m->retracts.pop_front(); else m->assigns.pop_front();
    if (name.find(plan.v[e.lhs].name) == std::string::npos && !aliasNamed(e.node, name))
      throw Stop{"assign", "assignment to " + name + " where " + plan.v[e.lhs].name + " (node " + nid(e.node) + ") was expected"};
    V exp = e.val;
    if (!e.noTarget) m->setVar(e.lhs, e.ix, exp);
    if (isArr(plan.v[e.lhs].ty) && e.ix < 0 && !v.eq(exp)) exp = m->varValue(e.lhs);   // the array may be reported as written or as stored
    if (!v.eq(exp)) throw Stop{retract ? "retract" : "assign", std::string(retract ? "retraction" : "assignment") + " by " + nid(e.node) + " reported " + v.str() + ", should be " + exp.str()};
    if (retract) { m->rt[e.node].abDone = true; R.add("retractions"); }
    else m->rt[e.node].ack = true;
    note((retract ? "RETRACT " : "ASSIGN ") + nid(e.node) + "=" + v.str());
  }
  bool aliasNamed(int n, std::string const &name) { return name.find(plan.v[plan.n[n].lhs].name) != std::string::npos; }
  void stepComplete(unsigned int) override {
    startOutbound(); endCmds();
    if (!m->aborts.empty()) throw Stop{"cmd", "abort of " + nid(m->aborts.front().node) + " not sent"};
    if (!m->updates.empty()) throw Stop{"update", "update of " + nid(m->updates.front().node) + " not sent"};
    checkVars("at end of step");
  }
  void checkVars(const char *when) {
    for (size_t x = 0; x < plan.v.size(); ++x) {
      if (plan.v[x].alias) continue;
      int o = plan.v[x].owner;
      if (!real[o]) continue;
      PLEXIL::Expression *e = real[o]->findLocalVariable(plan.v[x].name.c_str());
      if (!e) throw Stop{"var", "variable " + plan.v[x].name + " not found in its node"};
      V v = fromValue(e->toValue()), w = m->varValue((int)x);
      R.add("varchecks");
      if (!v.eq(w)) throw Stop{"var", plan.v[x].name + " in " + nid(o) + " is " + v.str() + ", should be " + w.str() + " " + when};
    }
  }

  // ------------------------------------------------------------ environment
  V randWorld(std::string const &k, Ty t) {
    if (k == "hiL") return rng.chance(4) ? V() : V::b(!rng.chance(8));
    if (k == "loL") return rng.chance(4) ? V() : V::b(rng.chance(8));
    if (k == "rN") return V::st("R" + std::to_string(rng.below(4)) + (rng.chance(25) ? rng.chance(50) ? "c0" : "c0c0" : ""));
    if (k == "rP") return V::in(rng.range(0, 4));
    if (k == "rB") { static const double B[] = {0.25, 0.5, 0.75, 1, 1.5, -0.25, -0.5, 0}; return V::re(B[rng.below(8)]); }
    if (k == "rF") return V::b(rng.chance(50));
    if (rng.chance(prof.pUnkWorld)) return V();
    switch (t) {
    case TB: return V::b(rng.chance(50));
    case TI: return V::in(rng.range(-6, 6));
    case TR: return V::re(rng.range(-12, 12) / 4.0);
    default: { static const char *S[] = {"", "a", "bc", "z"}; return V::st(S[rng.below(4)]); }
    }
  }
  PLEXIL::State stateOf(std::string const &k) {
    std::vector<PLEXIL::Value> ps;
    size_t b = k.find('|');
    std::string name = k.substr(0, b);
    while (b != std::string::npos) { ps.push_back(PLEXIL::Value((PLEXIL::Integer)atoi(k.c_str() + b + 1))); b = k.find('|', b + 1); }
    PLEXIL::State st(name, ps.size());
    for (size_t i = 0; i < ps.size(); ++i) st.setParameter(i, ps[i]);
    return st;
  }
  void initWorld() {
    static const struct { const char *k; Ty t; } W[] = {{"bL0", TB}, {"bL1", TB}, {"bL2", TB}, {"hiL", TB}, {"loL", TB}, {"iL0", TI}, {"iL1", TI}, {"rL0", TR}, {"sL0", TS},
      {"pL|-2", TI}, {"pL|-1", TI}, {"pL|0", TI}, {"pL|1", TI}, {"pL|2", TI}, {"pM|0|1|2|3|4|0", TI}, {"pM|0|1|2|3|4|1", TI}, {"pM|1|1|2|3|4|0", TI}, {"pM|-1|1|2|3|4|0", TI}};
    for (auto &x : W) { wty[x.k] = x.t; world[x.k] = randWorld(x.k, x.t); }
    if (prof.resExpr) { wty["rN"] = TS; wty["rP"] = TI; wty["rB"] = TR; wty["rF"] = TB; for (auto k : {"rN", "rP", "rB", "rF"}) world[k] = randWorld(k, wty[k]); }
    for (auto &x : world) publish(x.first);
  }
  void publish(std::string const &k) { PLEXIL::StateCache::instance().lookupReturn(stateOf(k), toValue(world[k], wty[k])); }
  void environment() {
    int changes = rng.below(4);
    for (int i = 0; i < changes; ++i) {
      auto it = world.begin();
      std::advance(it, rng.below((int)world.size()));
      V v = randWorld(it->first, wty[it->first]);
      if (v.eq(it->second)) continue;
      it->second = v;
      publish(it->first);
      note(it->first + "<-" + v.str());
    }
    for (size_t n = 0; n < plan.n.size(); ++n) {
      if (abortOut[n] && rng.chance(60)) { abortOut[n] = 0; abortAck((int)n, rng.chance(80)); }
      if (outstanding[n] && rng.chance(helpful ? 90 : prof.pDone)) {
        int k = rng.below(10);
        if (plan.n[n].dest >= 0 && k < 4) ret((int)n);
        else {
          static const int H[] = {H_SENT, H_ACC, H_RCVD, H_SUCCESS, H_SUCCESS, H_FAILED, H_IFERR, H_DENIED};
          handle((int)n, helpful ? H_SUCCESS : H[rng.below(8)]);
        }
        if (rng.chance(30)) outstanding[n] = 0;
      }
      if (updOut[n] && rng.chance(60)) { bool a = rng.chance(85); if (a) updOut[n] = 0; ackUpd((int)n, a); note("ACK " + nid((int)n)); }
      // late and duplicate responses
      if (cmdPtr[n] && rng.chance(2)) {
        int k = rng.below(3);
        if (k == 0 && plan.n[n].dest >= 0) ret((int)n); else if (k == 1) handle((int)n, rng.range(H_SENT, H_IFERR));
      }
    }
  }
  void abortAck(int n, bool ok) {
    note(std::string("ABACK ") + nid(n) + (ok ? "1" : "0"));
    PLEXIL::commandAbortAcknowledge(cmdPtr[n], ok);
    if (m->rt[n].cmdActive) { m->rt[n].abDone = ok; }
    if (!ok) abortOut[n] = rng.chance(80);
  }
  void handle(int n, int h) {
    note(std::string("H ") + nid(n) + " " + handleName(h));
    PLEXIL::commandHandleReturn(cmdPtr[n], (PLEXIL::CommandHandleValue)h);
    if (m->rt[n].cmdActive) m->rt[n].handle = h;
    R.add("handles");
  }
  void ret(int n) {
    int x = m->base(plan.n[n].dest);
    Ty ty = plan.v[x].ty; bool el = (bool)plan.n[n].destIx;
    if (el) ty = elTy(ty);
    auto scalar = [&](Ty t) { return t == TI ? V::in(rng.range(-5, 5)) : t == TB ? V::b(rng.chance(50)) : t == TR ? V::re(rng.range(-8, 8) / 2.0) : V::st(rng.chance(50) ? "r" : ""); };
    V v;
    if (rng.chance(prof.pUnkReturn)) ;
    else if (isArr(ty)) { std::vector<V> a; int k = rng.range(1, plan.v[x].maxSize); for (int j = 0; j < k; ++j) a.push_back(rng.chance(20) ? V() : scalar(elTy(ty))); v = V::ar(a); R.add("array_returns"); }
    else v = scalar(ty);
    if (el) R.add("element_returns");
    note("RET " + nid(n) + "=" + v.str());
    PLEXIL::commandReturn(cmdPtr[n], toValue(v, ty));
    if (m->rt[n].cmdActive) {
      if (!el) m->setVar(x, -1, v);
      else { V i = eval(plan.n[n].destIx, *m); if (i.known()) m->setVar(x, i.i, v); }
    }
    R.add("returns");
  }

  // ------------------------------------------------------------ set-up
  void mapNodes(int n, PLEXIL::NodeImpl *x) {
    if (x->getNodeId() != plan.n[n].id) throw Stop{"load", "loaded plan has node " + x->getNodeId() + " where " + plan.n[n].id + " was written"};
    real[n] = x; idx[x] = n;
    auto &kids = x->getChildren();
    if (kids.size() != plan.n[n].kids.size()) throw Stop{"load", "node " + plan.n[n].id + " has the wrong number of children"};
    for (size_t i = 0; i < kids.size(); ++i) mapNodes(plan.n[n].kids[i], kids[i].get());
  }
  PLEXIL::NodeImpl *load(std::string const &xmls) {
    pugi::xml_document doc;
    auto res = doc.load_buffer(xmls.data(), xmls.size(), (pugi::parse_default | pugi::parse_ws_pcdata_single));
    if (!res) throw Stop{"harness", std::string("bad XML: ") + res.description()};
    PLEXIL::NodeImpl *x = PLEXIL::parsePlan(doc.document_element());
    if (onPlan) onPlan(doc.document_element());
    return x;
  }
  // The application discards finished plans between steps.
  void reapFinished(size_t nRoots) {
    std::vector<PLEXIL::Node *> left;
    PLEXIL::g_exec->deleteFinishedPlans();
    for (auto const &x : PLEXIL::g_exec->getPlans()) left.push_back(x.get());
    for (size_t i = 0; i < nRoots; ++i) {
      int root = plan.roots[i];
      if (!added[root]) continue;
      bool there = std::find(left.begin(), left.end(), (PLEXIL::Node *)real[root]) != left.end();
      bool fin = m->rt[root].st == FINISHED;
      if (there == fin) throw Stop{"quiesce", "plan " + nid(root) + (fin ? " has finished but was not discarded" : " was discarded before it had finished")};
      if (!fin) continue;
      R.add("reaped");
      added[root] = 0;
      for (size_t n = 0; n < plan.n.size(); ++n) {
        int a = (int)n;
        while (plan.n[a].parent >= 0) a = plan.n[a].parent;
        if (a != root) continue;
        idx.erase(real[n]); real[n] = nullptr;
        if (cmdPtr[n]) cmdOf.erase(cmdPtr[n]);
        cmdPtr[n] = nullptr; updPtr[n] = nullptr;
        outstanding[n] = abortOut[n] = updOut[n] = 0;
      }
    }
  }
  void run(std::string const &tag, int maxSteps, bool dump) {
    Gen g(plan, rng, prof, tag);
    g.run();
    if (dump) for (auto &l : plan.libs) fprintf(stderr, "LIB %s\n", l.xml.c_str());
    if (dump) for (auto &x : plan.rootXml) fprintf(stderr, "%s\n", x.c_str());
    size_t N = plan.n.size();
    m.reset(new Model(plan));
    m->world = &world;
    real.assign(N, nullptr); added.assign(N, 0); cmdPtr.assign(N, nullptr); updPtr.assign(N, nullptr);
    outstanding.assign(N, 0); abortOut.assign(N, 0); updOut.assign(N, 0);
    R.add("nodes", (long)N);
    R.max("max_nodes", (long)N);
    R.add("omitted_arguments", g.R_omitted); R.add("nested_calls", g.nested); if (g.big) R.add("uncommon_sizes");
    if (prof.renames) {
      R.add("renames", g.renamed);
      for (auto &q : plan.n) R.add("interfaces", (long)(q.ifIn.size() + q.ifInOut.size()));
      R.add("relative_references", g.p.dirRefs);
    }
    if (prof.pRes) {
      static const double mx[] = {1.0, 0.5, 2.0, 1.0};
      std::ostringstream h;
      auto ws = [this](bool need) { static const char *W[] = {"", " ", "\t", "  ", " \t ", "\r"}; return W[rng.range(need ? 1 : 0, rng.chance(60) ? 1 : 4)]; };
      h << "% resources\n";
      bool several = false;
      for (auto &q : plan.n) if (q.res.size() > 1) several = true;
      std::vector<std::string> lines, shared;
      std::function<void(std::string const &, int)> define = [&](std::string const &name, int depth) {
        double lim = depth ? rng.range(1, 6) * 0.25 : mx[name[1] - '0'];
        m->resMax[name] = lim;
        std::ostringstream l; l << ws(false) << name << ws(true) << lim;
        if (rng.chance(depth ? 60 : 45)) {
          int k = g.big ? rng.range(1, 5) : rng.range(1, 2);
          for (int j = 0; j < k; ++j) {
            std::ostringstream c; c << name << "c" << j;
            double w = rng.range(1, 3) * 0.25;
            // below two resources at once: only where no command asks for both
            std::string kid = !several && depth == 0 && !shared.empty() && rng.chance(25) ? rng.pick(shared) : c.str();
            for (auto &x : m->resKids[name]) if (x.second == kid) kid = c.str();
            m->resKids[name].push_back({w, kid}); l << ws(true) << w << ws(true) << kid;
            if (kid != c.str()) { R.add("shared_resources"); continue; }
            if (depth == 0) shared.push_back(kid);
            if (depth < 3 && rng.chance(50)) { define(kid, depth + 1); R.add("deep_resources"); }
          }
        }
        l << ws(false);
        lines.push_back(l.str());
      };
      for (int i = 0; i < 4; ++i) if (rng.chance(70)) define("R" + std::to_string(i), 0);
      for (size_t q = lines.size(); q > 1; --q)
        std::swap(lines[q - 1], lines[rng.below(q)]);
      for (auto &l : lines) { if (rng.chance(10)) h << (rng.chance(50) ? "\n" : " % more\n"); h << l << "\n"; }
      std::istringstream is(h.str());
      if (!PLEXIL::g_exec->getArbiter()->readResourceHierarchy(is)) throw Stop{"arb", "resource hierarchy not accepted: " + h.str()};
    }
    initWorld();
    for (auto &l : plan.libs) {
      auto *doc = new pugi::xml_document;
      if (!doc->load_buffer(l.xml.data(), l.xml.size(), (pugi::parse_default | pugi::parse_ws_pcdata_single))) throw Stop{"harness", "bad library XML"};
      if (!PLEXIL::loadLibraryDocument(doc)) throw Stop{"lib", "library not accepted"};
      if (onLib) onLib(doc->document_element().child("Node"));
    }
    std::vector<PLEXIL::NodeImpl *> roots;
    for (size_t i = 0; i < plan.roots.size(); ++i) {
      roots.push_back(nullptr);
    }
    size_t nextRoot = 0;
    double t = 1.0;
    int idle = 0;
    for (int s = 0; s < maxSteps; ++s) {
      if (nextRoot < plan.roots.size() && (s == 0 || rng.chance(40))) {
        PLEXIL::NodeImpl *root = load(plan.rootXml[nextRoot]);
        std::unique_ptr<PLEXIL::NodeImpl> hold(root);
        mapNodes(plan.roots[nextRoot], root);
        hold.release();
        PLEXIL::g_exec->addPlan(root);
        added[plan.roots[nextRoot]] = 1;
        roots[nextRoot] = root;
        ++nextRoot;
      }
      bool done = nextRoot == plan.roots.size();
      for (size_t i = 0; i < nextRoot; ++i) if (m->rt[plan.roots[i]].st != FINISHED) done = false;
      bool allFin = true;
      for (size_t i = 0; i < nextRoot; ++i) if (m->rt[plan.roots[i]].st != FINISHED) allFin = false;
      if (PLEXIL::g_exec->allPlansFinished() != allFin) throw Stop{"quiesce", std::string("executive reports all plans ") + (allFin ? "un" : "") + "finished"};
      if (done) { R.add("completed"); break; }
      if (s > maxSteps / 2) helpful = true;
      environment();
      if (between) between();
      bool res = false;
      std::string mm = mustMove(enabled(), res);
      bool ns = PLEXIL::g_exec->needsStep();
      if (!ns && !mm.empty()) throw Stop{res ? "resource" : "quiesce", "executive claims to be idle but " + mm + " is enabled"};
      if (!ns) { R.add("idle"); if (++idle % 3) { continue; } }
      t += rng.range(0, 3) * 0.25;
      m->now = t;
      stepMicro = 0; loopChecked = arbDone = false; inStep = true;
      note("STEP");
      PLEXIL::g_exec->step(t);
      inStep = false;
      ++steps;
      R.add("steps");
      if (!loopChecked) throw Stop{"quiesce", "step completed without being reported"};
      R.max("max_microsteps", stepMicro);
      if (reap) reapFinished(nextRoot);
    }
    R.sig(sig);
  }
};

static Prof profile(std::string const &n) {
  Prof f;
  if (n == "watch") { f.watch = 80; f.pUnkWorld = 40; f.pUnkRhs = 50; f.wA = 6; f.wE = 5; f.wC = 2; f.arrays = 60; f.pPre = 5; f.pSkip = 10; f.pStart = 60; f.pRep = 40; f.maxNodes = 12; f.maxDepth = 3; f.fewVars = 1; }
  if (n == "life") {}
  else if (n == "big") { f.maxNodes = 45; f.maxDepth = 6; f.pSecondRoot = 30; }
  else if (n == "resource") { f.pMutex = 70; f.pUseMutex = 60; f.wE = 3; f.wA = 6; f.wC = 2; f.fewVars = 1; f.pPrio = 60; f.pExit = 30; f.pInv = 30; f.pRep = 35; f.pSkip = 5; }
  else if (n == "assign") { f.wA = 12; f.wE = 1; f.wC = 1; f.wU = 0; f.fewVars = 1; f.pExit = 30; f.pInv = 30; f.arrays = 50; f.pPrio = 50; f.pRep = 35; f.pSkip = 5; }
  else if (n == "ret") { f.wC = 9; f.wA = 9; f.wE = 1; f.wU = 0; f.fewVars = 1; f.pEnd = 60; f.pExit = 35; f.pInv = 35; f.arrays = 85; f.pRep = 35; f.pSkip = 5; f.pUnkReturn = 30; f.pDone = 80; f.maxNodes = 12; f.maxDepth = 3; }
  else if (n == "scope") { f.pIface = 45; f.renames = 60; f.wX = 2; f.arrays = 35; f.pMutex = 35; f.pUseMutex = 35; f.pVars = 85; f.maxNodes = 18; f.wE = 3; f.wA = 6; f.wL = 6; f.maxDepth = 5; f.pStart = 60; f.pEnd = 40; }
  else if (n == "cmd") { f.wC = 12; f.wA = 2; f.wU = 0; f.pEnd = 60; f.pExit = 30; f.pInv = 30; f.pRep = 35; f.pSkip = 5; }
  else if (n == "arb") { f.wC = 14; f.wA = 1; f.wU = 0; f.pRes = 85; f.resExpr = true; f.pStart = 30; f.pSkip = 5; f.pRep = 35; f.maxNodes = 18; }
  else if (n == "update") { f.wU = 10; f.wA = 2; f.wC = 1; f.pRep = 35; }
  else if (n == "lib") { f.wX = 4; f.libNest = 2; f.maxNodes = 22; f.wA = 6; }
  else if (n == "cond") { f.pStart = 80; f.pSkip = 30; f.pExit = 40; f.pInv = 40; f.pEnd = 60; f.pPre = 40; f.pPost = 40; f.pRep = 40; f.pVars = 90; }
  return f;
}

#ifndef H_EXEC_NO_MAIN
int main(int argc, char **argv) {
  vc::Args A(argc, argv);
  PLEXIL::Error::doThrowExceptions();
  PLEXIL::Error::doNotDisplayWarnings();
  PLEXIL::PlanError::doThrowExceptions();
  std::string pn = A.str("profile", "life");
  uint64_t seed = (uint64_t)A.num("seed", 1);
  long first = A.num("first", 0), cases = A.num("cases", 1);
  int maxSteps = (int)A.num("steps", 60);
  bool dump = A.has("dump");
  for (long c = first; c < first + cases; ++c) {
    std::ostringstream id;
    id << pn << ":" << seed << ":" << c;
    R.begin(id.str());
    std::ostringstream tag;
    tag << "x" << c;
    uint64_t cs = vc::mix(vc::mix(seed, vc::hashStr(pn)), (uint64_t)c);
    {
      Prof f = profile(pn);
      if (A.has("nodes")) f.maxNodes = (int)A.num("nodes", 10);
      Case k(f, cs);
      PLEXIL::g_exec = PLEXIL::makePlexilExec();
      PLEXIL::g_dispatcher = &k;
      PLEXIL::g_exec->setDispatcher(&k);
      PLEXIL::g_exec->setExecListener(&k);
      R.add("cases");
      bool bad = false;
      try { k.run(tag.str(), maxSteps, dump); }
      catch (Stop const &s) { R.viol(s.kind, s.msg); bad = true; }
      catch (Discard const &d) { R.add("discarded"); }
      catch (PLEXIL::Error const &e) { R.viol("internal", e.what()); bad = true; }
      catch (std::exception const &e) { R.viol("internal", e.what()); bad = true; }
      if (bad && A.has("trace")) fprintf(stderr, "TRACE %s\n", k.trace.c_str());
      if (!bad && k.steps > 10) R.sample("case " + id.str() + " plan " + k.plan.rootXml[0].substr(0, 300) + " ... events " + k.trace.substr(0, 400), 1);
      delete PLEXIL::g_exec;
      PLEXIL::g_exec = nullptr;
    }
  }
  plexilRunFinalizers();
  R.finish();
  return 0;
}
#endif
