// C17: values, arrays and states: equality, ordering, copying, serialization, text.
#include "vcommon.hh"
#include "ArrayImpl.hh"
#include "Error.hh"
#include "ParserException.hh"
#include "PlanError.hh"
#include "State.hh"
#include "Value.hh"
#include "lifecycle-utils.h"
#include <climits>
#include <cmath>
#include <map>
#include <memory>

using namespace PLEXIL;
using vc::Rng;

struct M {                    // model of a value
  ValueType t = UNKNOWN_TYPE;
  bool known = false;
  int64_t i = 0; double d = 0; std::string s;
  std::vector<M> a;
};
static bool isArr(ValueType t) { return t >= BOOLEAN_ARRAY_TYPE && t <= STRING_ARRAY_TYPE; }
static ValueType elt(ValueType t) { return (ValueType)(t - ARRAY_TYPE); }
static bool num(ValueType t) { return t == INTEGER_TYPE || t == REAL_TYPE; }
static double dv(M const &m) { return m.t == INTEGER_TYPE ? (double)m.i : m.d; }

static bool eqM(M const &x, M const &y) {
  if (x.known != y.known) return false;
  if (num(x.t) && num(y.t)) return !x.known || dv(x) == dv(y);
  if (x.t != y.t) return false;
  if (!x.known) return true;
  if (x.t == STRING_TYPE) return x.s == y.s;
  if (isArr(x.t)) {
    if (x.a.size() != y.a.size()) return false;
    for (size_t k = 0; k < x.a.size(); ++k) {
      if (x.a[k].known != y.a[k].known) return false;
      if (x.a[k].known && !eqM(x.a[k], y.a[k])) return false;
    }
    return true;
  }
  return x.i == y.i;
}
// same contents including the type
static bool identM(M const &x, M const &y) { return x.t == y.t && eqM(x, y); }

static std::string shows(M const &m) {
  std::ostringstream o;
  o << valueTypeName(m.t) << ":";
  if (!m.known) o << "unknown";
  else if (m.t == STRING_TYPE) o << "'" << (m.s.size() > 20 ? m.s.substr(0, 20) + "~" + std::to_string(m.s.size()) : m.s) << "'";
  else if (m.t == REAL_TYPE) { char b[40]; snprintf(b, 40, "%.17g", m.d); o << b; }
  else if (isArr(m.t)) { o << m.a.size() << "["; for (size_t k = 0; k < m.a.size() && k < 6; ++k) o << shows(m.a[k]) << ","; o << "]"; }
  else o << m.i;
  return o.str();
}

struct Gen {
  Rng &r;
  std::vector<std::string> pool;
  explicit Gen(Rng &rr) : r(rr) {}
  int64_t ival() {
    static int64_t s[] = {INT_MAX, INT_MIN, 255, 256, 128, 127, -128, -129, 65535, 65536, 0x1000000, 0x7f80, -256, 0x8080, 0x808080};
    return r.chance(50) ? r.range(-3, 3) : r.chance(70) ? s[r.below(15)] : (int32_t)r.next();
  }
  double rval() {
    static double s[] = {0.5, 1e308, -1e308, 1e-308, 5e-324, 2147483647, -2147483648.0, 0.1, 1.0 / 3, 3.141592653589793, 1e15, 123456789012345678.0, INFINITY, -INFINITY, 1.0000000000000002};
    if (r.chance(50)) return r.range(-3, 3);
    if (r.chance(70)) return s[r.below(15)];
    return ((double)(int64_t)r.next()) * std::pow(2.0, r.range(-80, 40));
  }
  std::string sval() {
    static const char *s[] = {"", "a", "b", "ab", "UNKNOWN", "\xc3\xa9", " x "};
    if (r.chance(75)) return s[r.below(7)];
    static const int L[] = {127, 128, 129, 255, 256, 257, 300, 1000, 33000, 65535, 65536, 70000};
    size_t n = r.chance(60) ? r.below(40) : L[r.below(r.chance(90) ? 8 : 12)];
    std::string x(n, 'q');
    for (size_t k = 0; k < n && k < 64; ++k) x[k] = (char)r.range(1, 255);
    if (n && r.chance(30)) x[r.below((int)n)] = '\0';
    return x;
  }
  M scalar(ValueType t, int unk) {
    M m; m.t = t;
    m.known = !r.chance(unk);
    if (!m.known) return m;
    switch (t) {
    case BOOLEAN_TYPE: m.i = r.below(2); break;
    case INTEGER_TYPE: m.i = ival(); break;
    case REAL_TYPE: m.d = rval(); break;
    case STRING_TYPE: m.s = sval(); break;
    case NODE_STATE_TYPE: m.i = r.range(INACTIVE_STATE, ITERATION_ENDED_STATE); break;
    case OUTCOME_TYPE: m.i = r.range(SUCCESS_OUTCOME, INTERRUPTED_OUTCOME); break;
    case FAILURE_TYPE: m.i = r.range(PRE_CONDITION_FAILED, PARENT_EXITED); break;
    case COMMAND_HANDLE_TYPE: m.i = r.range(COMMAND_SENT_TO_SYSTEM, COMMAND_SUCCESS); break;
    default: m.known = false; break;
    }
    return m;
  }
  M any(bool serial) {
    static const ValueType T[] = {UNKNOWN_TYPE, BOOLEAN_TYPE, INTEGER_TYPE, INTEGER_TYPE, REAL_TYPE, REAL_TYPE, STRING_TYPE, STRING_TYPE, COMMAND_HANDLE_TYPE,
      BOOLEAN_ARRAY_TYPE, INTEGER_ARRAY_TYPE, REAL_ARRAY_TYPE, STRING_ARRAY_TYPE, NODE_STATE_TYPE, OUTCOME_TYPE, FAILURE_TYPE};
    ValueType t = T[r.below(serial ? 13 : 16)];
    if (!isArr(t)) return scalar(t, 12);
    M m; m.t = t; m.known = !r.chance(8);
    if (!m.known) return m;
    static const int L[] = {7, 8, 9, 15, 16, 17, 31, 33, 64, 100, 127, 128, 129, 200, 255, 256, 257, 300, 1025};
    size_t n = r.chance(70) ? r.below(5) : L[r.below(19)];
    m.a.resize(n);
    for (auto &x : m.a) { x = scalar(elt(t), 20); if (n > 20 && x.s.size() > 50) x.s.resize(50); }
    return m;
  }
  // something close to m
  M near(M const &m) {
    M n = m;
    if (r.chance(30)) return n;
    if (num(m.t) && m.known && r.chance(60)) {
      if (m.t == INTEGER_TYPE) { n.t = REAL_TYPE; n.d = (double)m.i + (r.chance(30) ? 0.5 : 0); }
      else if (m.d == std::floor(m.d) && std::fabs(m.d) < 2e9) { n.t = INTEGER_TYPE; n.i = (int64_t)m.d; }
      return n;
    }
    if (isArr(m.t) && m.known && !m.a.empty()) {
      size_t k = r.below((int)m.a.size());
      if (r.chance(20)) n.a.pop_back();
      else n.a[k] = scalar(elt(m.t), 40);
      return n;
    }
    if (r.chance(30)) { n.known = false; n.a.clear(); n.s.clear(); return n; }
    return isArr(m.t) || m.t == UNKNOWN_TYPE ? n : scalar(m.t, 10);
  }

  template <class A, class F> A mkArr(M const &m, F get) {
    size_t n = m.a.size();
    A a(r.chance(30) ? (size_t)r.below(40) : n);
    size_t z = a.size();
    if (r.chance(40)) for (size_t k = 0; k < z; ++k) a.setElementValue(k, get(scalar(elt(m.t), 0)));   // stale contents
    if (r.chance(30)) { for (size_t k = 0; k < z; ++k) a.setElementUnknown(k); }
    a.resize(n);
    for (size_t k = 0; k < n; ++k) {
      if (m.a[k].known) a.setElementValue(k, get(m.a[k]));
      else if (r.chance(50)) { a.setElementValue(k, get(scalar(elt(m.t), 0))); a.setElementUnknown(k); }
      else a.setElementUnknown(k);
    }
    return a;
  }
  static Value sc(M const &m) {
    if (!m.known) return Value(m.t);
    switch (m.t) {
    case BOOLEAN_TYPE: return Value((Boolean)(m.i != 0));
    case INTEGER_TYPE: return Value((Integer)m.i);
    case REAL_TYPE: return Value((Real)m.d);
    case STRING_TYPE: return Value(String(m.s));
    case NODE_STATE_TYPE: return Value((NodeState)m.i);
    case OUTCOME_TYPE: return Value((NodeOutcome)m.i);
    case FAILURE_TYPE: return Value((FailureType)m.i);
    case COMMAND_HANDLE_TYPE: return Value((CommandHandleValue)m.i);
    default: return Value();
    }
  }
  void assignTo(Value &v, M const &m) {   // operator= of each native type
    if (!m.known) { v = Value(m.t); return; }
    switch (m.t) {
    case BOOLEAN_TYPE: v = (Boolean)(m.i != 0); return;
    case INTEGER_TYPE: v = (Integer)m.i; return;
    case REAL_TYPE: v = (Real)m.d; return;
    case STRING_TYPE: if (m.s.find('\0') == std::string::npos && r.chance(40)) v = m.s.c_str(); else v = String(m.s); return;
    case NODE_STATE_TYPE: v = (NodeState)m.i; return;
    case OUTCOME_TYPE: v = (NodeOutcome)m.i; return;
    case FAILURE_TYPE: v = (FailureType)m.i; return;
    case COMMAND_HANDLE_TYPE: v = (CommandHandleValue)m.i; return;
    case BOOLEAN_ARRAY_TYPE: v = mkArr<BooleanArray>(m, sc); return;
    case INTEGER_ARRAY_TYPE: v = mkArr<IntegerArray>(m, sc); return;
    case REAL_ARRAY_TYPE: v = mkArr<RealArray>(m, sc); return;
    case STRING_ARRAY_TYPE: v = mkArr<StringArray>(m, sc); return;
    default: v = Value(); return;
    }
  }
  Value direct(M const &m) {
    if (m.known) switch (m.t) {
    case BOOLEAN_ARRAY_TYPE: return Value(mkArr<BooleanArray>(m, sc));
    case INTEGER_ARRAY_TYPE: return Value(mkArr<IntegerArray>(m, sc));
    case REAL_ARRAY_TYPE: return Value(mkArr<RealArray>(m, sc));
    case STRING_ARRAY_TYPE: { StringArray a = mkArr<StringArray>(m, sc); if (r.chance(50)) return Value((Array const &)a); return Value(a); }
    default: break;
    }
    return sc(m);
  }
  Value make(M const &m) {
    int k = r.below(6);
    Value v = direct(m);
    if (k == 0) return v;
    Value junk = direct(any(false));
    if (k == 1) { junk = v; return junk; }
    if (k == 2) { junk = std::move(v); return junk; }
    if (k == 3) { assignTo(junk, m); return junk; }
    if (k == 4) { Value w(v); v.setUnknown(); return w; }
    if (isArr(m.t) && m.known) {      // from a list of values
      bool anyKnown = false;
      std::vector<Value> l;
      for (auto &e : m.a) { l.push_back(e.known ? sc(e) : r.chance(50) ? Value() : Value(e.t)); anyKnown |= e.known; }
      if (m.t == REAL_ARRAY_TYPE)
        for (size_t q = 0; q < l.size(); ++q) if (m.a[q].known && std::fabs(m.a[q].d) < 1e9 && m.a[q].d == std::floor(m.a[q].d) && r.chance(30)) {
          bool other = false;
          for (size_t z = 0; z < l.size(); ++z) if (z != q && m.a[z].known && l[z].valueType() == REAL_TYPE) other = true;
          if (other) l[q] = Value((Integer)m.a[q].d);
        }
      if (anyKnown) return Value(l);
    }
    return v;
  }
};

template <class A, class F> static void readArr(M &m, Value const &v, F get) {
  A const *p = nullptr;
  if (!v.getValuePointer(p) || !p) { m.known = false; return; }
  m.a.resize(p->size());
  for (size_t k = 0; k < p->size(); ++k) get(m.a[k], *p, k);
}
// read a value back through the typed accessors
static M read(Value const &v) {
  M m; m.t = v.valueType(); m.known = v.isKnown();
  if (!m.known) return m;
  Boolean b; Integer i; Real d; NodeState ns; NodeOutcome no; FailureType ft; CommandHandleValue ch;
  switch (m.t) {
  case BOOLEAN_TYPE: m.known = v.getValue(b); m.i = b; break;
  case INTEGER_TYPE: m.known = v.getValue(i); m.i = i; break;
  case REAL_TYPE: m.known = v.getValue(d); m.d = d; break;
  case STRING_TYPE: m.known = v.getValue(m.s); break;
  case NODE_STATE_TYPE: m.known = v.getValue(ns); m.i = ns; break;
  case OUTCOME_TYPE: m.known = v.getValue(no); m.i = no; break;
  case FAILURE_TYPE: m.known = v.getValue(ft); m.i = ft; break;
  case COMMAND_HANDLE_TYPE: m.known = v.getValue(ch); m.i = ch; break;
  case BOOLEAN_ARRAY_TYPE: readArr<BooleanArray>(m, v, [](M &e, BooleanArray const &a, size_t k) { Boolean x = false; e.t = BOOLEAN_TYPE; e.known = a.getElement(k, x); e.i = x; }); break;
  case INTEGER_ARRAY_TYPE: readArr<IntegerArray>(m, v, [](M &e, IntegerArray const &a, size_t k) { Integer x = 0; e.t = INTEGER_TYPE; e.known = a.getElement(k, x); e.i = x; }); break;
  case REAL_ARRAY_TYPE: readArr<RealArray>(m, v, [](M &e, RealArray const &a, size_t k) { Real x = 0; e.t = REAL_TYPE; e.known = a.getElement(k, x); e.d = x; }); break;
  case STRING_ARRAY_TYPE: readArr<StringArray>(m, v, [](M &e, StringArray const &a, size_t k) { e.t = STRING_TYPE; e.known = a.getElement(k, e.s); }); break;
  default: m.known = false;
  }
  return m;
}

static std::string scText(M const &m) {
  if (!m.known) return "UNKNOWN";
  char b[64];
  switch (m.t) {
  case BOOLEAN_TYPE: return m.i ? "true" : "false";
  case INTEGER_TYPE: return std::to_string(m.i);
  case REAL_TYPE: snprintf(b, sizeof b, "%.15g", m.d); return b;
  default: return m.s;
  }
}

struct One {
  Rng r; Gen g; vc::Report &rep;
  One(uint64_t s, vc::Report &p) : r(s), g(r), rep(p) {}

  void check(Value const &v, M const &m, const char *what) {
    rep.add("reads");
    M x = read(v);
    if (!identM(x, m)) rep.viol("copy", std::string(what) + " of " + shows(m) + " reads back as " + shows(x));
  }

  void compare() {
    std::vector<M> ms;
    std::vector<Value> vs;
    ms.push_back(g.any(false));
    for (int k = 1; k < 5; ++k) ms.push_back(r.chance(70) ? g.near(ms[r.below(k)]) : g.any(false));
    for (auto &m : ms) vs.push_back(g.make(m));
    size_t n = ms.size();
    for (size_t a = 0; a < n; ++a) {
      check(vs[a], ms[a], "value");
      for (size_t b = 0; b < n; ++b) {
        bool e = vs[a] == vs[b], want = eqM(ms[a], ms[b]);
        rep.add("comparisons");
        if (e) rep.add("equal");
        if (e != want) rep.viol("eq", shows(ms[a]) + (e ? " == " : " != ") + shows(ms[b]));
        if ((vs[a] != vs[b]) == e) rep.viol("eq", "== and != agree on " + shows(ms[a]) + " and " + shows(ms[b]));
        bool l = vs[a] < vs[b], gt = vs[a] > vs[b];
        if ((int)l + (int)gt + (int)want != 1)
          rep.viol("order", shows(ms[a]) + " and " + shows(ms[b]) + ": less " + std::to_string(l) + " greater " + std::to_string(gt) + " equal " + std::to_string(want));
        if ((vs[a] <= vs[b]) == gt || (vs[a] >= vs[b]) == l) rep.viol("order", "<= or >= disagree on " + shows(ms[a]) + " and " + shows(ms[b]));
        rep.sig(vc::mix(ms[a].t * 64 + ms[b].t, (ms[a].known ? 1 : 0) + 2 * (ms[b].known ? 1 : 0) + 4 * l + 8 * e + 16 * std::min<size_t>(ms[a].a.size(), 300)));
        for (size_t c = 0; c < n; ++c)
          if (l && vs[b] < vs[c] && !(vs[a] < vs[c])) rep.viol("order", "not transitive: " + shows(ms[a]) + " < " + shows(ms[b]) + " < " + shows(ms[c]));
      }
    }
    // states with these values as parameters, used as map keys
    std::vector<State> ss;
    std::vector<std::pair<std::string, std::vector<M>>> sm;
    std::map<State, int> tab;
    std::vector<int> cls;
    // with many parameters, most of them the same
    std::vector<M> many;
    if (r.chance(12)) { int np = r.chance(80) ? r.range(4, 20) : r.range(60, 300); for (int q = 0; q < np; ++q) many.push_back(ms[r.below((int)n)]); rep.add("manyparameters"); }
    for (int k = 0; k < 5; ++k) {
      std::vector<M> p = many;
      int np = p.empty() ? r.below(3) : 0;
      for (int q = 0; q < np; ++q) p.push_back(ms[r.below((int)n)]);
      if (!p.empty() && np == 0 && r.chance(60)) p[r.below((int)p.size())] = ms[r.below((int)n)];
      std::string nm = r.chance(60) ? "f" : r.chance(50) ? "g" : "fg";
      State s(nm, p.size());
      for (size_t q = 0; q < p.size(); ++q) s.setParameter(q, g.make(p[q]));
      if (r.chance(30)) { State t("junk", g.make(ms[0])); t = s; s = t; }
      ss.push_back(s); sm.push_back({nm, p});
    }
    auto seq = [&](size_t a, size_t b) {
      if (sm[a].first != sm[b].first || sm[a].second.size() != sm[b].second.size()) return false;
      for (size_t q = 0; q < sm[a].second.size(); ++q) if (!eqM(sm[a].second[q], sm[b].second[q])) return false;
      return true;
    };
    for (size_t a = 0; a < ss.size(); ++a) {
      size_t c = a;
      for (size_t b = 0; b < a; ++b) if (seq(a, b)) { c = cls[b]; break; }
      cls.push_back((int)c);
      auto ins = tab.insert({ss[a], (int)c});
      rep.add("mapkeys");
      if (ins.second != (c == a) || ins.first->second != (int)c) rep.viol("order", "state " + ss[a].toString().substr(0, 200) + " is not found again, or confused with another, as a key");
      for (size_t b = 0; b < ss.size(); ++b) {
        if ((ss[a] == ss[b]) != seq(a, b)) rep.viol("eq", "states " + ss[a].toString().substr(0, 200) + " and " + ss[b].toString().substr(0, 200));
        if ((int)(ss[a] < ss[b]) + (int)(ss[b] < ss[a]) + (int)seq(a, b) != 1) rep.viol("order", "states " + ss[a].toString().substr(0, 200) + " and " + ss[b].toString().substr(0, 200));
      }
    }
  }

  void mutate() {
    Value v;
    M cur;
    int n = r.range(3, 12);
    for (int k = 0; k < n; ++k) {
      M m = r.chance(40) ? g.near(cur) : g.any(false);
      switch (r.below(5)) {
      case 0: { Value w = g.make(m); v = w; check(w, m, "source of copy"); break; }
      case 1: { Value w = g.make(m); v = std::move(w); break; }
      case 2: g.assignTo(v, m); break;
      case 3: { Value w(v); check(w, cur, "copy"); g.assignTo(w, m); check(v, cur, "value whose copy was changed"); v = w; break; }
      default: { Value &self = v; v = self; check(v, cur, "self-assigned value"); v = g.make(m); break; }
      }
      cur = m;
      check(v, cur, "assignment");
      // routes
      if (v.isKnown() != cur.known) rep.viol("copy", "known-ness of " + shows(cur));
      if (num(cur.t)) {
        Real d = -99; bool k2 = v.getValue(d);
        if (k2 != cur.known || (k2 && d != dv(cur))) rep.viol("copy", "read as real: " + shows(cur));
      }
      if (cur.t == STRING_TYPE) {
        String const *p = nullptr; bool k2 = v.getValuePointer(p);
        if (k2 != cur.known || (k2 && *p != cur.s)) rep.viol("copy", "read by pointer: " + shows(cur));
      }
      if (isArr(cur.t) && cur.known) {
        Array const *p = nullptr;
        if (!v.getValuePointer(p) || p->size() != cur.a.size()) rep.viol("copy", "array pointer of " + shows(cur));
        else {
          bool all = true, any = false;
          for (size_t q = 0; q < cur.a.size(); ++q) {
            all &= cur.a[q].known; any |= cur.a[q].known;
            if (p->elementKnown(q) != cur.a[q].known) rep.viol("copy", "element known-ness in " + shows(cur));
            M e = read(p->getElementValue(q));
            if (e.known != cur.a[q].known || (e.known && !identM(e, cur.a[q]))) rep.viol("copy", "element " + std::to_string(q) + " of " + shows(cur) + " is " + shows(e));
          }
          if (!cur.a.empty() && (p->allElementsKnown() != all || p->anyElementsKnown() != any)) rep.viol("copy", "all/any known of " + shows(cur));
          bool past = false;
          try { past = p->elementKnown(cur.a.size()); } catch (PlanError &) { }
          if (past || p->getElementValue(cur.a.size()).isKnown()) rep.viol("copy", "element past the end of " + shows(cur) + " is known");
          std::unique_ptr<Array> cl(p->clone());
          if (!(*cl == *p)) rep.viol("eq", "clone of " + shows(cur));
        }
      }
    }
  }

  void serial() {
    std::vector<M> ms;
    int n = r.range(1, 5);
    size_t total = 0;
    std::vector<Value> vs;
    for (int k = 0; k < n; ++k) { ms.push_back(g.any(true)); vs.push_back(g.make(ms.back())); total += vs.back().serialSize(); }
    std::vector<char> buf(total);     // exact, so that ASan sees any overrun
    char *p = buf.data();
    for (int k = 0; k < n; ++k) {
      char *q = vs[k].serialize(p);
      rep.add("serialized");
      if (!q) { rep.viol("serial", shows(ms[k]) + " cannot be serialized"); return; }
      if ((size_t)(q - p) != vs[k].serialSize()) { rep.viol("serial", shows(ms[k]) + " promises " + std::to_string(vs[k].serialSize()) + " bytes and writes " + std::to_string(q - p)); return; }
      p = q;
    }
    char const *c = buf.data();
    Value into;
    for (int k = 0; k < n; ++k) {
      if (r.chance(60)) into = g.make(g.any(false));
      if (r.chance(20)) into = g.make(g.near(ms[k]));
      char const *c2 = into.deserialize(c);
      if (!c2 || (size_t)(c2 - c) != vs[k].serialSize()) { rep.viol("serial", shows(ms[k]) + " is read back from " + std::to_string(c2 ? c2 - c : -1) + " bytes instead of " + std::to_string(vs[k].serialSize())); return; }
      M m = read(into);
      if (m.known != ms[k].known || (m.known && !identM(m, ms[k]))) rep.viol("serial", shows(ms[k]) + " comes back as " + shows(m));
      if (ms[k].known && ms[k].t == REAL_TYPE && std::memcmp(&m.d, &ms[k].d, 8)) rep.viol("serial", shows(ms[k]) + " comes back with other bits");
      rep.sig(vc::mix(ms[k].t * 2 + ms[k].known, ms[k].a.size() * 100000 + ms[k].s.size() + 7777));
      c = c2;
    }
    // state
    size_t np = r.chance(94) ? r.below(4) : r.chance(60) ? r.range(4, 60) : r.chance(95) ? r.range(200, 700) : r.range(65500, 66500);
    if (np >= 200) rep.add("manyparameters");
    State s(g.sval() + "n", np);
    std::vector<M> pm;
    for (size_t k = 0; k < s.parameterCount(); ++k) { M m; if (np < 60) m = g.any(true); else { m.t = INTEGER_TYPE; m.known = !r.chance(10); m.i = r.below(1000); } pm.push_back(m); s.setParameter(k, g.make(m)); }
    std::vector<char> sb(s.serialSize());
    char *e = s.serialize(sb.data());
    if (!e || (size_t)(e - sb.data()) != sb.size()) { rep.viol("serial", "state size"); return; }
    State t;
    if (r.chance(50)) t = State("other", g.make(g.any(false)), g.make(g.any(false)));
    char const *e2 = t.deserialize(sb.data());
    if (e2 != e) { rep.viol("serial", "state bytes read"); return; }
    if (t.name() != s.name() || t.parameterCount() != pm.size()) { rep.viol("serial", "state name or parameter count"); return; }
    for (size_t k = 0; k < pm.size(); ++k) {
      M m = read(t.parameter(k));
      if (m.known != pm[k].known || (m.known && !identM(m, pm[k]))) rep.viol("serial", "state parameter " + shows(pm[k]) + " comes back as " + shows(m));
    }
  }

  template <class T> int tryParse(std::string const &s, T &x) {   // 1 value, 0 unknown, -1 rejected
    try { return parseValue<T>(s.c_str(), x) ? 1 : 0; } catch (ParserException &) { return -1; }
  }
  void text() {
    M m = g.any(false);
    Value v = g.make(m);
    std::string s = v.valueToString();
    rep.add("texts");
    std::ostringstream o;
    o << v;
    if (o.str() != s) rep.viol("text", shows(m) + " prints differently to a stream");
    if (!m.known) { if (s != "[unknown_value]") rep.viol("text", shows(m) + " prints " + s); }
    else if (isArr(m.t)) {
      std::string w = "#(";
      for (size_t k = 0; k < m.a.size(); ++k) w += (k ? " " : "") + scText(m.a[k]);
      w += ")";
      if (w != s) rep.viol("text", shows(m) + " prints " + s.substr(0, 300));
    }
    else if (m.t < STRING_TYPE || m.t == STRING_TYPE) {
      if (s != scText(m)) rep.viol("text", shows(m) + " prints " + s.substr(0, 300));
      if (m.t == BOOLEAN_TYPE) { Boolean b; if (tryParse(s, b) != 1 || b != (m.i != 0)) rep.viol("parse", s + " does not read back"); }
      if (m.t == INTEGER_TYPE) { Integer b; if (tryParse(s, b) != 1 || b != m.i) rep.viol("parse", s + " does not read back"); }
      if (m.t == REAL_TYPE && !std::isinf(m.d)) {
        Real b; if (tryParse(s, b) != 1 || !(std::fabs(b - m.d) <= std::fabs(m.d) * 1e-14 + 5e-324)) { if (std::fabs(m.d) < 1.797e308) rep.viol("parse", s + " does not read back as " + shows(m)); }
      }
      if (m.t == STRING_TYPE && m.s.find('\0') == std::string::npos) { String b; if (tryParse(s, b) != 1 || b != m.s) rep.viol("parse", "string does not read back"); }
    }
    else if (m.t == NODE_STATE_TYPE) { if (parseNodeState(s) != (NodeState)m.i) rep.viol("text", "node state " + s); }
    else if (m.t == FAILURE_TYPE) { if (parseFailureType(s) != (FailureType)m.i) rep.viol("text", "failure type " + s); }
    else if (m.t == OUTCOME_TYPE) { if (parseNodeOutcome(s) != (NodeOutcome)m.i) rep.viol("text", "outcome " + s); }
    else if (m.t == COMMAND_HANDLE_TYPE) { if (parseCommandHandleValue(s) != (CommandHandleValue)m.i) rep.viol("text", "command handle " + s); }

    // numerals
    std::string body;
    bool neg = r.chance(40);
    int64_t iv = g.ival();
    if (iv < 0) iv = -iv;
    if (r.chance(25)) iv = r.chance(50) ? (int64_t)INT_MAX + r.range(0, 2) : (int64_t)(r.next() >> r.range(1, 33));
    body = std::to_string(iv);
    std::string str = (neg ? "-" : "") + body;
    bool junk = r.chance(25);
    if (junk) { static const char *J[] = {"x", " ", ".5.", "-", "1-", "e", ","}; const char *j = J[r.below(7)]; str = str + j; }
    int64_t want = neg ? -iv : iv;
    Integer ires = 0;
    int got = tryParse(str, ires);
    rep.add("numerals");
    bool fits = !junk && want >= INT_MIN && want <= INT_MAX;
    if (fits ? (got != 1 || ires != want) : got != -1) rep.viol("parse", "integer '" + str + "' gives " + std::to_string(got) + " " + std::to_string(ires));
    rep.sig(vc::mix(vc::hashStr(str), 5));
    if (!junk) {
      std::string rs = (neg ? "-" : "") + body;
      if (r.chance(60)) rs += "." + std::to_string(r.below(100000));
      int ex = 0;
      if (r.chance(40)) { ex = r.range(-340, 340); rs += (r.chance(50) ? "e" : "E") + std::to_string(ex); }
      Real d = 0; got = tryParse(rs, d);
      double w = strtod(rs.c_str(), nullptr);
      if (std::isinf(w) ? got != -1 : (got != 1 || d != w)) rep.viol("parse", "real '" + rs + "' gives " + std::to_string(got));
      if (tryParse(rs + (r.chance(50) ? "z" : " 1"), d) != -1) rep.viol("parse", "real '" + rs + "z' accepted");
    }
    static const char *B[] = {"true", "false", "TRUE", "False", "0", "1", "2", "yes", "truer", "fals", "", "UNKNOWN", "tru e"};
    static const int W[] = {1, 0, 1, 0, 0, 1, -1, -1, -1, -1, -1, -2, -1};
    int bi = r.below(13);
    Boolean b = false; got = tryParse(std::string(B[bi]), b);
    if (W[bi] == -1 ? got == 1 : W[bi] == -2 ? got != 0 : (got != 1 || b != (W[bi] != 0))) rep.viol("parse", std::string("boolean '") + B[bi] + "' gives " + std::to_string(got) + std::to_string(b));
    Integer i2; Real r2;
    if (tryParse(std::string("UNKNOWN"), i2) != 0 || tryParse(std::string("UNKNOWN"), r2) != 0) rep.viol("parse", "UNKNOWN");
  }
};

int main(int argc, char **argv) {
  vc::Args args(argc, argv);
  Error::doThrowExceptions();
  PlanError::doThrowExceptions();
  vc::Report rep;
  uint64_t seed = args.num("seed", 1);
  long first = args.num("first", 0), cases = args.num("cases", 10);
  for (long k = first; k < first + cases; ++k) {
    rep.begin("value:" + std::to_string(k));
    rep.add("cases");
    One o(vc::mix(seed * 7919 + 3, k), rep);
    try { o.compare(); o.mutate(); o.serial(); o.text(); }
    catch (std::exception &e) { rep.viol("internal", std::string("exception: ") + e.what()); }
  }
  rep.finish();
  plexilRunFinalizers();
  return 0;
}
