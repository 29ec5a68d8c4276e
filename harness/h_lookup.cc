// C07: lookups. Real lookup expressions (parsed from XML) in the real state cache, a fake
// world behind a fake dispatcher, and a model of what each lookup must show.
#include "vcommon.hh"
#include "ArrayImpl.hh"
#include "Dispatcher.hh"
#include "Error.hh"
#include "Expression.hh"
#include "ExpressionListener.hh"
#include "LookupReceiver.hh"
#include "NodeConnector.hh"
#include "ParserException.hh"
#include "PlanError.hh"
#include "State.hh"
#include "StateCache.hh"
#include "UserVariable.hh"
#include "Value.hh"
#include "createExpression.hh"
#include "lifecycle-utils.h"
#include "pugixml.hpp"
#include <cmath>
#include <functional>
#include <map>
#include <memory>

using namespace PLEXIL;
using vc::Rng;

enum T { TB, TI, TR, TS, TA, TAR, TAS, TAB };
struct V { bool known = false; T t = TI; double d = 0; std::string s; };
static bool same(V const &a, V const &b) {
  if (a.known != b.known) return false;
  return !a.known || (a.t == b.t && a.d == b.d && a.s == b.s);
}
static std::string num(double d) { char b[40]; snprintf(b, sizeof b, "%.17g", d); return b; }
static std::string show(V const &v) { return !v.known ? "unknown" : v.t == TS ? "'" + v.s + "'" : v.t >= TA ? std::string("#RSB").substr(v.t - TA, 1) + v.s : num(v.d); }
static Value toVal(V const &v) {
  if (!v.known) return Value();
  switch (v.t) {
  case TB: return Value((Boolean)(v.d != 0));
  case TI: return Value((Integer)v.d);
  case TR: return Value((Real)v.d);
  case TS: return Value(String(v.s));
  case TAR: { RealArray a(v.s.size()); for (size_t k = 0; k < v.s.size(); ++k) if (v.s[k] != '?') a.setElement(k, (Real)(v.s[k] - '0')); return Value(a); }
  case TAS: { StringArray a(v.s.size()); for (size_t k = 0; k < v.s.size(); ++k) if (v.s[k] != '?') a.setElement(k, String(1, v.s[k])); return Value(a); }
  case TAB: { BooleanArray a(v.s.size()); for (size_t k = 0; k < v.s.size(); ++k) if (v.s[k] != '?') a.setElement(k, (Boolean)(v.s[k] == '1')); return Value(a); }
  default: { IntegerArray a(v.s.size()); for (size_t k = 0; k < v.s.size(); ++k) if (v.s[k] != '?') a.setElement(k, v.s[k] - '0'); return Value(a); }
  }
}
static std::string text(IntegerArray const &a) { std::string s; for (size_t k = 0; k < a.size(); ++k) { Integer q; s += a.getElement(k, q) ? (char)('0' + q) : '?'; } return s; }
static std::string text(RealArray const &a) { std::string s; for (size_t k = 0; k < a.size(); ++k) { Real q; s += a.getElement(k, q) ? (char)('0' + (int)q) : '?'; } return s; }
static std::string text(StringArray const &a) { std::string s; for (size_t k = 0; k < a.size(); ++k) { String q; s += a.getElement(k, q) ? q : "?"; } return s; }
static std::string text(BooleanArray const &a) { std::string s; for (size_t k = 0; k < a.size(); ++k) { Boolean q; s += a.getElement(k, q) ? (q ? '1' : '0') : '?'; } return s; }
static V fromVal(Value const &x) {
  V v; v.known = x.isKnown();
  if (!v.known) return v;
  Boolean b; Integer i; Real r; IntegerArray const *a; RealArray const *ar; StringArray const *as; BooleanArray const *ab;
  switch (x.valueType()) {
  case BOOLEAN_TYPE: v.t = TB; x.getValue(b); v.d = b; break;
  case INTEGER_TYPE: v.t = TI; x.getValue(i); v.d = i; break;
  case REAL_TYPE: v.t = TR; x.getValue(r); v.d = r; break;
  case STRING_TYPE: v.t = TS; x.getValue(v.s); break;
  case INTEGER_ARRAY_TYPE: v.t = TA; x.getValuePointer(a); v.s = text(*a); break;
  case REAL_ARRAY_TYPE: v.t = TAR; x.getValuePointer(ar); v.s = text(*ar); break;
  case STRING_ARRAY_TYPE: v.t = TAS; x.getValuePointer(as); v.s = text(*as); break;
  case BOOLEAN_ARRAY_TYPE: v.t = TAB; x.getValuePointer(ab); v.s = text(*ab); break;
  default: v.known = false;
  }
  return v;
}

// ---- plan side ----
struct L;
struct P { int k = 0; double lit = 0; bool real = false; int var = -1; std::shared_ptr<L> l; };  // 0 literal, 1 variable, 2 lookup
struct L {
  int nameVar = -1; std::string name;   // literal or string variable
  std::vector<P> args;
  bool hasTol = false; P tol;
  // model
  bool active = false;
  bool stKnown = false; std::string st; T ty = TI;
  bool thr = false; V base; double tolv = 0;
};

struct Var { std::string name; T t; V val; Expression *e; };

struct Lis : ExpressionListener { long n = 0; void notifyChanged() override { ++n; } };

static std::string key(std::string const &n, std::vector<V> const &a) {
  std::string k = n + "(";
  for (auto &x : a) k += show(x) + ",";
  return k + ")";
}
static std::string key(State const &s) {
  std::vector<V> a;
  for (auto &p : s.parameters()) a.push_back(fromVal(p));
  return key(s.name(), a);
}

struct Case : Dispatcher, NodeConnector {
  Rng r; vc::Report &rep;
  std::string id = "TestNode", pre;
  std::vector<Var> vars;
  struct Ent { V v; long ts = -1; bool has = false; };
  std::map<std::string, V> world;
  std::map<std::string, State> states;
  std::map<std::string, Ent> ent;
  std::map<std::string, std::pair<double, double>> thrs;     // hi, lo as told to the interface
  std::map<std::string, long> queried;
  long cycle = 0;
  int mode;    // 0 every change is pushed, 1 the interface honours thresholds, 2 silent
  std::vector<std::shared_ptr<L>> roots;
  std::vector<std::string> xmls; std::vector<uint64_t> sigs;
  std::vector<Expression *> ex;
  std::vector<bool> made;
  std::vector<std::unique_ptr<Lis>> lis;

  Case(uint64_t s, vc::Report &p) : r(s), rep(p) {}
  std::string const &getNodeId() const override { return id; }
  Expression *findVariable(char const *n) override { for (auto &v : vars) if (v.name == n) return v.e; return nullptr; }
  void notifyResourceAvailable() override {}

  // Dispatcher
  void lookupNow(State const &s, LookupReceiver *rc) override {
    std::string k = key(s);
    rep.add("queries");
    queried[k]++;
    V v = worldOf(k, s);
    if (mode == 1) { Ent &e = ent[k]; e.v = v; e.has = true; e.ts = cycle; }
    if (!v.known) rc->setUnknown();
    else switch (r.below(2) * 10 + v.t) {
    case TB: rc->update((Boolean)(v.d != 0)); break;
    case TI: rc->update((Integer)v.d); break;
    case TR: rc->update((Real)v.d); break;
    case TS: rc->update(v.s); break;
    default: {
      if (v.t < TA || v.s.empty() || v.s.find('?') != std::string::npos || r.chance(50)) { rc->update(toVal(v)); break; }
      size_t n = v.s.size();
      std::vector<Integer> i; std::vector<Real> d; std::vector<String> st; Boolean b[8];
      for (size_t q = 0; q < n; ++q) { i.push_back(v.s[q] - '0'); d.push_back(v.s[q] - '0'); st.push_back(String(1, v.s[q])); b[q] = v.s[q] == '1'; }
      if (v.t == TA) rc->update(i.data(), n); else if (v.t == TAR) rc->update(d.data(), n); else if (v.t == TAS) rc->update(st.data(), n); else rc->update(b, n);
    }
    }
  }
  void setThresholds(State const &s, Real hi, Real lo) override { thrs[key(s)] = {hi, lo}; rep.add("thresholds"); }
  void setThresholds(State const &s, Integer hi, Integer lo) override { thrs[key(s)] = {hi, lo}; rep.add("thresholds"); }
  void clearThresholds(State const &s) override { thrs.erase(key(s)); }
  void executeCommand(Command *) override {}
  void invokeAbort(Command *) override {}
  void executeUpdate(Update *) override {}
  void reportCommandArbitrationFailure(Command *) override {}

  T typeOf(std::string const &k) {
    switch (k[pre.size() + 1]) { case 'i': return TI; case 'r': case 't': return TR; case 'b': return TB; case 's': return TS; case 'x': return TAR; case 'y': return TAS; case 'z': return TAB; default: return TA; }
  }
  V newVal(T t) {
    V v; v.t = t; v.known = !r.chance(12);
    if (!v.known) return v;
    switch (t) {
    case TB: v.d = r.below(2); break;
    case TI: v.d = r.chance(80) ? r.range(-2, 4) : r.chance(80) ? r.range(-20, 20) : r.chance(50) ? 2147483647 : -2147483648.0; break;
    case TR: v.d = r.chance(85) ? r.range(-6, 12) * 0.5 : r.chance(80) ? r.range(-200, 200) * 0.25 : 1e300; break;
    case TS: { static const char *S[] = {"", "a", "b", "fi"}; v.s = S[r.below(4)]; break; }
    default: { static const char *S[] = {"", "1", "12", "1?", "?2", "123"}, *B[] = {"", "1", "10", "1?", "?0", "101"}; int q = r.below(6); v.s = t == TAB ? B[q] : S[q]; }
    }
    return v;
  }
  V worldOf(std::string const &k, State const &s) {
    auto it = world.find(k);
    if (it != world.end()) return it->second;
    states[k] = s;
    V v = newVal(typeOf(k));
    if (k[pre.size() + 1] == 't' && v.known) { static double D[] = {0, 0.5, 1, 2, 3.5, -1}; v.d = D[r.below(6)]; }
    return world[k] = v;
  }

  // ---- model ----
  V ev(P &p) {
    V v;
    if (p.k == 0) { v.known = true; v.t = p.real ? TR : TI; v.d = p.lit; return v; }
    if (p.k == 1) return vars[p.var].val;
    return shown(*p.l);
  }
  V shown(L &l) {
    if (!l.active || !l.stKnown) return V();
    if (l.thr) return l.base;
    return ent[l.st].v;
  }
  void refresh(L &l) {
    if (!l.active) { l.stKnown = false; l.thr = false; return; }
    for (auto &a : l.args) if (a.k == 2) refresh(*a.l);
    if (l.hasTol && l.tol.k == 2) refresh(*l.tol.l);
    bool known = true;
    std::string nm = l.name;
    if (l.nameVar >= 0) { V n = vars[l.nameVar].val; known = n.known; nm = n.s; }
    std::vector<V> a;
    for (auto &p : l.args) { a.push_back(ev(p)); if (!a.back().known) known = false; }
    std::string st = known ? key(nm, a) : "";
    if (known != l.stKnown || st != l.st) {
      l.stKnown = known; l.st = st; l.thr = false;
      if (known) {
        l.ty = typeOf(st);
        Ent &e = ent[st];
        if (mode == 1 ? !e.has : (!e.has || e.ts < cycle)) {
          auto it = world.find(st);
          if (it == world.end()) { rep.viol("state", "the interface was never asked for " + st); e.v = V(); }
          else e.v = it->second;
          e.has = true; e.ts = cycle;
        }
      }
    }
    if (!l.hasTol || !l.stKnown) return;
    if (l.ty != TI && l.ty != TR) { l.thr = false; return; }
    V t = ev(l.tol), v = ent[l.st].v;
    if (!t.known) { l.thr = false; return; }
    double tv = std::fabs(t.d);
    l.tolv = tv;
    if (!l.thr) { if (v.known) { l.thr = true; l.base = v; } return; }
    bool ex = v.known != l.base.known || (v.known && std::fabs(v.d - l.base.d) >= tv);
    if (ex) l.base = v;
  }
  void each(L &l, std::function<void(L &)> f) {
    f(l);
    for (auto &a : l.args) if (a.k == 2) each(*a.l, f);
    if (l.hasTol && l.tol.k == 2) each(*l.tol.l, f);
  }
  void setActive(L &l, bool on) { each(l, [on](L &x) { x.active = on; }); }

  // ---- generation ----
  std::string nm(int k) { static const char *N[] = {"fi", "fr", "fb", "fs", "fa", "fx", "fy", "fz"}; return pre + N[k]; }
  // With a tolerance anywhere in a tree, one event must reach each lookup of the tree by one path only:
  // otherwise passing through an intermediate state legitimately restarts the tolerance band.
  bool tolTree = false;
  std::set<int> used;
  P param(int d) {
    P p;
    int k = r.below(10);
    int v = r.below(2);
    if (tolTree && k >= 4 && (k < 8 || d <= 0) && !used.insert(v).second) k = 0;
    if (k < 4) { p.lit = r.range(0, 2); return p; }
    if (k < 8 || d <= 0) { p.k = 1; p.var = v; return p; }
    p.k = 2; p.l = gen(d - 1, r.below(2));
    return p;
  }
  std::shared_ptr<L> gen(int d, int forced = -1) {
    auto l = std::make_shared<L>();
    int k = forced >= 0 ? forced : r.below(10);
    if (forced < 0 && k == 4) k = r.range(4, 7);
    else if (k > 4) k = r.chance(60) ? 0 : 1;
    l->name = nm(k);
    if (tolTree && d < 2) l->name += std::to_string(d);
    if (forced < 0 && r.chance(15)) l->nameVar = 4;
    int n = r.chance(50) ? 1 : r.below(4);
    for (int q = 0; q < n; ++q) l->args.push_back(param(d));
    if (tolTree && (d == 2 || r.chance(60))) {
      l->hasTol = true;
      int t = r.below(10);
      int tv = r.range(2, 3);
      if (t >= 5 && t < 9 && !used.insert(tv).second) t = 0;
      if (t == 9 && !used.insert(99).second) t = 0;
      if (t < 3) { static double D[] = {0, 0.5, 1, 2.5}; l->tol.real = true; l->tol.lit = D[r.below(4)]; }
      else if (t < 5) { l->tol.lit = r.below(4); }
      else if (t < 9) { l->tol.k = 1; l->tol.var = tv; }
      else { l->tol.k = 2; l->tol.l = std::make_shared<L>(); l->tol.l->name = pre + "ft"; }
    }
    return l;
  }
  std::string xml(P const &p) {
    if (p.k == 0) {
      char b[40]; snprintf(b, 40, "%g", p.lit);
      return p.real ? std::string("<RealValue>") + b + "</RealValue>" : std::string("<IntegerValue>") + b + "</IntegerValue>";
    }
    if (p.k == 1) { static const char *N[] = {"IntegerVariable", "IntegerVariable", "RealVariable", "IntegerVariable"}; return std::string("<") + N[p.var] + ">" + vars[p.var].name + "</" + N[p.var] + ">"; }
    return xml(*p.l);
  }
  std::string xml(L const &l) {
    std::string x = l.nameVar >= 0 ? "<StringVariable>" + vars[l.nameVar].name + "</StringVariable>" : "<StringValue>" + l.name + "</StringValue>";
    x = "<Name>" + x + "</Name>";
    if (l.hasTol) x += "<Tolerance>" + xml(l.tol) + "</Tolerance>";
    if (!l.args.empty()) { x += "<Arguments>"; for (auto &a : l.args) x += xml(a); x += "</Arguments>"; }
    return l.hasTol ? "<LookupOnChange>" + x + "</LookupOnChange>" : r.chance(50) ? "<LookupNow>" + x + "</LookupNow>" : "<LookupOnChange>" + x + "</LookupOnChange>";
  }

  std::vector<V> before; std::vector<long> notes; std::vector<bool> wasOn;
  void snap() {
    before.clear(); notes.clear(); wasOn.clear();
    for (size_t k = 0; k < roots.size(); ++k) { before.push_back(shown(*roots[k])); notes.push_back(lis[k]->n); wasOn.push_back(roots[k]->active); }
  }
  std::string lastEvent;
  V readTyped(Expression *e, V const &want, bool &k) {
    V v; k = false;
    Integer i; Real d; Boolean b; String const *s; IntegerArray const *a; RealArray const *ar; StringArray const *as; BooleanArray const *ab;
    v.t = want.t;
    switch (want.t) {
    case TI: k = e->getValue(i); v.d = i; break;
    case TR: k = e->getValue(d); v.d = d; break;
    case TB: k = e->getValue(b); v.d = b; break;
    case TS: k = e->getValuePointer(s); if (k) v.s = *s; break;
    case TAR: k = e->getValuePointer(ar); if (k) v.s = text(*ar); break;
    case TAS: k = e->getValuePointer(as); if (k) v.s = text(*as); break;
    case TAB: k = e->getValuePointer(ab); if (k) v.s = text(*ab); break;
    default: k = e->getValuePointer(a); if (k) v.s = text(*a);
    }
    v.known = k;
    return v;
  }
  void check() {
    for (auto &l : roots) refresh(*l);
    std::string ctx = " after " + lastEvent;
    for (size_t k = 0; k < roots.size(); ++k) {
      L &l = *roots[k];
      V got = fromVal(ex[k]->toValue());
      V want = shown(l);
      rep.add("checks");
      if (want.known) rep.add("known");
      if (mode != 1) {
        if (!same(got, want)) rep.viol("value", xmls[k] + " shows " + show(got) + " instead of " + show(want) + ctx);
        if (ex[k]->isKnown() != want.known) rep.viol("value", xmls[k] + " isKnown " + std::to_string(ex[k]->isKnown()) + " but value " + show(want) + ctx);
        if (want.known) {
          bool kn; V tv = readTyped(ex[k], want, kn);
          if (!same(tv, want)) rep.viol("value", xmls[k] + " reads as " + show(tv) + " instead of " + show(want) + ctx);
        }
        if (l.active && wasOn[k] && !same(before[k], want)) {
          rep.add("changes");
          if (lis[k]->n == notes[k]) rep.viol("notify", xmls[k] + " went from " + show(before[k]) + " to " + show(want) + " and told nobody" + ctx);
        }
      }
      else if (l.active && l.stKnown && l.hasTol && (l.ty == TI || l.ty == TR)) {
        // end to end: the shown value is within tolerance of the world
        V w = world[l.st], t = ev(l.tol);
        bool nested = false;
        for (auto &a : l.args) if (a.k == 2) nested = true;
        if (t.known && !nested && l.tol.k != 2) {
          double tv = std::fabs(t.d);
          rep.add("tolchecks");
          bool ok = got.known == w.known && (!got.known || (tv == 0 ? got.d == w.d : std::fabs(got.d - w.d) < tv));
          if (!ok) rep.viol("tolerance", xmls[k] + " shows " + show(got) + " while the world is " + show(w) + " and the tolerance " + std::to_string(tv) + ctx);
        }
      }
      rep.sig(vc::mix(sigs[k], vc::hashStr(show(want)) + l.active));
    }
    if (mode == 1) return;
    // thresholds told to the interface
    std::map<std::string, std::pair<double, double>> want;
    for (auto &r0 : roots) each(*r0, [&](L &l) {
      if (!l.active || !l.stKnown || !l.thr || !l.base.known) return;
      double hi = l.base.d + l.tolv, lo = l.base.d - l.tolv;
      if (l.ty == TI && l.tolv > 2147483640.0) return;   // beyond the range of integers
      if (l.ty == TI) { hi = l.base.d + std::floor(l.tolv); lo = l.base.d - std::floor(l.tolv); if (l.tolv != std::floor(l.tolv)) { hi += 1; lo -= 1; }
        if (hi > 2147483647) hi = 2147483647; if (lo < -2147483648.0) lo = -2147483648.0; }
      auto it = want.find(l.st);
      if (it == want.end()) want[l.st] = {hi, lo};
      else { it->second.first = std::min(it->second.first, hi); it->second.second = std::max(it->second.second, lo); }
    });
    for (auto &t : thrs) {
      bool any = false;
      for (auto &r0 : roots) each(*r0, [&](L &l) { if (l.active && l.stKnown && l.st == t.first) any = true; });
      if (!any) rep.viol("threshold", "thresholds stay set for " + t.first + " which nothing looks up" + ctx);
      rep.add("threshold_none_checks");
    }
    for (auto &w : want) {
      rep.add("thresholdchecks");
      auto it = thrs.find(w.first);
      if (it == thrs.end()) rep.viol("threshold", "the interface has no thresholds for " + w.first + ctx);
      else if (it->second != w.second)
        rep.viol("threshold", "the interface was told " + std::to_string(it->second.second) + ".." + std::to_string(it->second.first) + " for " + w.first + " instead of " + std::to_string(w.second.second) + ".." + std::to_string(w.second.first) + ctx);
    }
  }
  void push(std::string const &k) {
    Ent &e = ent[k];
    StateCache::instance().lookupReturn(states[k], toVal(world[k]));
    e.v = world[k]; e.has = true; e.ts = cycle;
    rep.add("pushes");
    for (auto &l : roots) refresh(*l);
  }
  bool beyond(std::string const &k) {
    V const &w = world[k];
    auto &e = ent[k];
    auto t = thrs.find(k);
    if (t == thrs.end()) return true;
    if (w.known != e.v.known) return true;
    return w.known && (w.d >= t->second.first || w.d <= t->second.second);
  }
  void settle() {      // an interface which reports only values beyond the thresholds
    for (int n = 0; n < 50; ++n) {
      bool any = false;
      std::vector<std::string> ks;
      for (auto &w : world) ks.push_back(w.first);
      for (auto &k : ks) if (!same(world[k], ent[k].v) && beyond(k)) { push(k); any = true; }
      if (!any) return;
    }
  }

  void run() {
    mode = r.chance(60) ? 0 : r.chance(60) ? 1 : 2;
    static const char *VN[] = {"i0", "i1", "r0", "j0", "s0"};
    static const T VT[] = {TI, TI, TR, TI, TS};
    for (int k = 0; k < 5; ++k) {
      Var v; v.name = VN[k]; v.t = VT[k];
      v.e = v.t == TI ? (Expression *)new IntegerVariable(VN[k]) : v.t == TR ? (Expression *)new RealVariable(VN[k]) : (Expression *)new StringVariable(VN[k]);
      v.e->activate();
      vars.push_back(v);
    }
    for (int k = 0; k < 5; ++k) setVar(k, 0);
    int n = r.range(1, 5);
    std::string decl;
    for (auto &v : vars) decl += "<DeclareVariable><Name>" + v.name + "</Name><Type>" + (v.t == TI ? "Integer" : v.t == TR ? "Real" : "String") + "</Type></DeclareVariable>";
    for (int k = 0; k < n; ++k) {
      tolTree = r.chance(65); used.clear();
      auto l = gen(2);
      std::string x = xml(*l);
      pugi::xml_document doc;
      doc.load_string(("<Node><NodeId>TestNode</NodeId><VariableDeclarations>" + decl + "</VariableDeclarations><StartCondition>" + x + "</StartCondition></Node>").c_str(), pugi::parse_default | pugi::parse_ws_pcdata_single);
      pugi::xml_node xn = doc.first_child().child("StartCondition").first_child();
      bool created = false;
      Expression *e;
      try { checkExpression("TestNode", xn); e = createExpression(xn, this, created); }
      catch (ParserException &pe) { rep.viol("reject", x + ": " + pe.what()); continue; }
      { std::string y = x; size_t q; while ((q = y.find(pre)) != std::string::npos) y.erase(q, pre.size()); sigs.push_back(vc::hashStr(y)); }
      roots.push_back(l); xmls.push_back(x); ex.push_back(e); made.push_back(created);
      lis.emplace_back(new Lis);
      e->addListener(lis.back().get());
      rep.sample(x.substr(0, 600));
    }
    for (int step = 0; step < 30; ++step) {
      snap();
      int a = r.below(100);
      if (step < (int)roots.size() || a < 14) {
        int k = step < (int)roots.size() ? step : r.below((int)roots.size());
        bool on = !roots[k]->active;
        lastEvent = (on ? "activating " : "deactivating ") + std::to_string(k);
        if (mode == 2 && step >= (int)roots.size()) {
          // everything off, a new cycle or not, everything on
          bool inc = true;   // within one cycle the interface may or may not be asked again
          for (size_t q = 0; q < roots.size(); ++q) if (roots[q]->active) { setActive(*roots[q], false); ex[q]->deactivate(); refresh(*roots[q]); each(*roots[q], [](L &x) { x.stKnown = false; x.thr = false; x.st.clear(); }); }
          silent();
          if (inc) { StateCache::instance().incrementCycleCount(); ++cycle; }
          for (size_t q = 0; q < roots.size(); ++q) { setActive(*roots[q], true); ex[q]->activate(); refresh(*roots[q]); }
          snapNotes();
          lastEvent = inc ? "reactivation in a new cycle" : "reactivation in the same cycle";
        }
        else {
          setActive(*roots[k], on);
          if (on) ex[k]->activate();
          else { ex[k]->deactivate(); each(*roots[k], [](L &x) { x.stKnown = false; x.thr = false; x.st.clear(); }); }
        }
      }
      else if (a < 45) {
        int v = r.below(5);
        setVar(v, 1);
      }
      else if (a < 55 && mode != 2) { StateCache::instance().incrementCycleCount(); ++cycle; lastEvent = "a new cycle"; }
      else if (mode != 2 && !world.empty()) {
        auto it = world.begin();
        std::advance(it, r.below((int)world.size()));
        V old = it->second;
        T t = typeOf(it->first);
        V nv = newVal(t);
        if (it->first[pre.size() + 1] == 't' && nv.known) { static double D[] = {0, 0.5, 1, 2, 3.5, -1}; nv.d = D[r.below(6)]; }
        else if (old.known && nv.known && (t == TI || t == TR) && r.chance(60)) { nv.d = old.d + (t == TI ? r.range(-2, 2) : r.range(-4, 4) * 0.5); if (t == TR && std::fabs(nv.d) < 1000 && r.chance(30)) { nv.d += r.range(-1, 1) * 0x1p-30; rep.add("close"); } if (nv.d > 2147483647 && t == TI) nv.d = old.d; if (nv.d < -2147483648.0 && t == TI) nv.d = old.d; }
        it->second = nv;
        std::string k = it->first;
        lastEvent = k + " going from " + show(old) + " to " + show(it->second);
        if (mode == 0) push(k);
      }
      else continue;
      if (mode == 1) { for (auto &l : roots) refresh(*l); settle(); }
      check();
      if (rep.violations > 30) break;
    }
    for (size_t k = 0; k < roots.size(); ++k) {
      if (roots[k]->active) ex[k]->deactivate();
      ex[k]->removeListener(lis[k].get());
      if (made[k]) delete ex[k];
    }
    // nobody is left listening: changes now reach nobody
    for (auto &w : world) StateCache::instance().lookupReturn(states[w.first], toVal(newVal(typeOf(w.first))));
    for (auto &v : vars) { v.e->deactivate(); delete v.e; }
  }
  void snapNotes() { for (size_t k = 0; k < roots.size(); ++k) { before[k] = shown(*roots[k]); notes[k] = lis[k]->n; } }
  void silent() { for (auto &w : world) if (r.chance(50)) w.second = newVal(typeOf(w.first)); }
  void setVar(int k, int announce) {
    V v; v.t = vars[k].t; v.known = !r.chance(15);
    if (k < 2) v.d = r.range(0, 2);
    else if (k == 2) { static double D[] = {0, 0.5, 1, 2, 3.5, -1}; v.d = D[r.below(6)]; }
    else if (k == 3) v.d = r.range(-1, 4);
    else v.s = nm(r.below(5));
    if (!v.known) { v.d = 0; v.s.clear(); }
    vars[k].val = v;
    if (announce) lastEvent = vars[k].name + " becoming " + show(v);
    vars[k].e->asAssignable()->setValue(toVal(v));
  }
};

int main(int argc, char **argv) {
  vc::Args args(argc, argv);
  Error::doThrowExceptions();
  PlanError::doThrowExceptions();
  vc::Report rep;
  uint64_t seed = args.num("seed", 1);
  long first = args.num("first", 0), cases = args.num("cases", 10);
  for (long k = first; k < first + cases; ++k) {
    rep.begin("lookup:" + std::to_string(k));
    rep.add("cases");
    Case *c = new Case(vc::mix(seed * 7919 + 5, k), rep);
    c->pre = "c" + std::to_string(k) + "_";
    g_dispatcher = c;
    try { c->run(); delete c; }
    catch (std::exception &e) { rep.viol("internal", std::string("exception: ") + e.what() + " after " + c->lastEvent); }
  }
  rep.finish();
  plexilRunFinalizers();
  return 0;
}
