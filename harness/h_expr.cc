// C08: expressions parsed by the real parser and evaluated by the real expression
// classes, against an independent evaluator; checks every observation route and
// that listeners are told of every change of value.
#include "vcommon.hh"
#include "ArrayImpl.hh"
#include "ArrayReference.hh"
#include "ArrayVariable.hh"
#include "Constant.hh"
#include "Error.hh"
#include "Expression.hh"
#include "ExpressionListener.hh"
#include "NodeConnector.hh"
#include "ParserException.hh"
#include "PlanError.hh"
#include "UserVariable.hh"
#include "Value.hh"
#include "createExpression.hh"
#include "lifecycle-utils.h"
#include "pugixml.hpp"
#include <climits>
#include <cmath>
#include <memory>

using namespace PLEXIL;
using vc::Rng;

enum T { TB, TI, TR, TS, TBA, TIA, TRA, TSA };
static bool isArr(T t) { return t >= TBA; }
static T elt(T t) { return (T)(t - 4); }
static const char *tn(T t) { static const char *n[] = {"Boolean", "Integer", "Real", "String", "BooleanArray", "IntegerArray", "RealArray", "StringArray"}; return n[t]; }
static ValueType vt(T t) {
  switch (t) { case TB: return BOOLEAN_TYPE; case TI: return INTEGER_TYPE; case TR: return REAL_TYPE; case TS: return STRING_TYPE;
  case TBA: return BOOLEAN_ARRAY_TYPE; case TIA: return INTEGER_ARRAY_TYPE; case TRA: return REAL_ARRAY_TYPE; default: return STRING_ARRAY_TYPE; }
}

struct V {            // model value
  bool known = false;
  bool b = false; int64_t i = 0; double d = 0; std::string s;
  bool dk = false;    // don't care: the model does not say
  bool mayUnk = false; // exact result or unknown are both right (overflow on the way)
  std::vector<V> a;
};
static V vb(bool b) { V v; v.known = true; v.b = b; return v; }
static V vi(int64_t i) { V v; v.known = true; v.i = i; return v; }
static V vr(double d) { V v; v.known = true; v.d = d; return v; }
static V vs(std::string const &s) { V v; v.known = true; v.s = s; return v; }
static V dontCare() { V v; v.dk = true; return v; }

static bool same(T t, V const &x, V const &y) {
  if (x.known != y.known) return false;
  if (!x.known) return true;
  switch (t) {
  case TB: return x.b == y.b;
  case TI: return x.i == y.i;
  case TR: return x.d == y.d || (std::isnan(x.d) && std::isnan(y.d));
  case TS: return x.s == y.s;
  default:
    if (x.a.size() != y.a.size()) return false;
    for (size_t k = 0; k < x.a.size(); ++k) if (!same(elt(t), x.a[k], y.a[k])) return false;
    return true;
  }
}
static std::string show(T t, V const &v) {
  if (v.dk) return "any";
  if (!v.known) return "UNKNOWN";
  char b[64];
  switch (t) {
  case TB: return v.b ? "true" : "false";
  case TI: return std::to_string(v.i);
  case TR: snprintf(b, sizeof b, "%.17g", v.d); return b;
  case TS: return "'" + v.s + "'";
  default: { std::string r = "#("; for (auto &x : v.a) r += show(elt(t), x) + " "; return r + ")"; }
  }
}
static Value toVal(T t, V const &v) {
  if (!v.known) return Value();
  switch (t) {
  case TB: return Value((Boolean)v.b);
  case TI: return Value((Integer)v.i);
  case TR: return Value((Real)v.d);
  case TS: return Value(String(v.s));
  case TBA: { BooleanArray a(v.a.size()); for (size_t k = 0; k < v.a.size(); ++k) if (v.a[k].known) a.setElement(k, v.a[k].b); return Value(a); }
  case TIA: { IntegerArray a(v.a.size()); for (size_t k = 0; k < v.a.size(); ++k) if (v.a[k].known) a.setElement(k, (Integer)v.a[k].i); return Value(a); }
  case TRA: { RealArray a(v.a.size()); for (size_t k = 0; k < v.a.size(); ++k) if (v.a[k].known) a.setElement(k, v.a[k].d); return Value(a); }
  default: { StringArray a(v.a.size()); for (size_t k = 0; k < v.a.size(); ++k) if (v.a[k].known) a.setElement(k, v.a[k].s); return Value(a); }
  }
}

struct Var { std::string name; T t; V val; Expression *e; size_t max = 0; };
struct E {
  enum K { LIT, VARK, AREF, OP } k = LIT;
  T t = TI;
  V lit;
  int var = 0;
  std::string op;
  std::vector<std::shared_ptr<E>> a;
};
typedef std::shared_ptr<E> P;

struct Conn : NodeConnector {
  std::string id = "TestNode";
  std::vector<Var> vars;
  std::string const &getNodeId() const override { return id; }
  Expression *findVariable(char const *n) override {
    for (auto &v : vars) if (v.name == n) return v.e;
    return nullptr;
  }
  void notifyResourceAvailable() override {}
};

struct Gen {
  Rng &r; Conn &c;
  Gen(Rng &rr, Conn &cc) : r(rr), c(cc) {}
  int64_t ival() {
    static int64_t s[] = {0, 1, -1, 2, 3, 5, 7, -7, 10, 100, INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1, 46341, -46341, 65536, 1 << 30};
    return r.chance(65) ? r.range(-4, 6) : s[r.below(18)];
  }
  double rval() {
    static double s[] = {0, 1, -1, 0.5, -0.5, 1.5, 2.5, -2.5, 0.49999999999999994, 1e10, -1e10, 1e308, -1e308, 1e-308, 2147483647.0, 2147483648.0, -2147483648.0, -2147483649.0, 2147483647.5, -2147483648.5, 3.25, 1e-3};
    if (r.chance(20)) return (double)(r.range(-40, 40)) / 8;
    if (r.chance(50)) return r.range(-5, 5);
    return s[r.below(22)];
  }
  std::string sval() {
    static const char *s[] = {"", "a", "b", "ab", "abc", "foo", "Foo", " x ", "zz", "\xc3\xa9", "1", "UNKNOWN"};
    return s[r.below(12)];
  }
  V scalar(T t, int unk) {
    if (r.chance(unk)) return V();
    switch (t) { case TB: return vb(r.chance(50)); case TI: return vi(ival()); case TR: return vr(rval()); default: return vs(sval()); }
  }
  V value(T t, int unk, size_t max) {
    if (!isArr(t)) return scalar(t, unk);
    V v; v.known = !r.chance(unk / 2);
    if (!v.known) return v;
    v.a.resize(r.chance(60) ? max : r.below((int)max + 1));
    for (auto &x : v.a) x = scalar(elt(t), 20);
    return v;
  }
  P leaf(T t) {
    P p(new E); p->t = t;
    std::vector<int> vs_;
    for (size_t k = 0; k < c.vars.size(); ++k) if (c.vars[k].t == t) vs_.push_back((int)k);
    if (!isArr(t) && r.chance(20)) {
      for (size_t k = 0; k < c.vars.size(); ++k)
        if (c.vars[k].t == (T)(t + 4)) { p->k = E::AREF; p->var = (int)k; p->a.push_back(expr(TI, 1)); 
          if (r.chance(75)) { P l(new E); l->t = TI; l->lit = vi(r.below((int)c.vars[k].max)); p->a[0] = l; }
          return p; }
    }
    if (!vs_.empty() && r.chance(65)) { p->k = E::VARK; p->var = r.pick(vs_); return p; }
    p->lit = t == TS ? scalar(t, 0) : t == TSA ? [&]{ V v; v.known = true; v.a.resize(r.below(4)); for (auto &x : v.a) x = scalar(TS, 0); return v; }()
      : isArr(t) ? [&]{ V v; v.known = true; v.a.resize(r.below(4)); for (auto &x : v.a) x = scalar(elt(t), 15); return v; }() : scalar(t, 10);
    return p;
  }
  P op(T t, const char *o, std::vector<P> a) { P p(new E); p->k = E::OP; p->t = t; p->op = o; p->a = a; return p; }
  P num(int d) { return expr(r.chance(60) ? TI : TR, d); }
  P expr(T t, int d) {
    if (d <= 0 || isArr(t) || r.chance(10)) return leaf(t);
    auto many = [&](T at, int lo) { int n = r.chance(60) ? 2 : r.chance(30) ? lo : r.range(lo, 7); std::vector<P> v; for (int k = 0; k < n; ++k) v.push_back(expr(at, d - 1)); return v; };
    switch (t) {
    case TB: {
      int k = r.below(14);
      if (k < 3) { const char *o[] = {"AND", "OR", "XOR"}; return op(t, o[k], many(TB, 1)); }
      if (k == 3) return op(t, "NOT", {expr(TB, d - 1)});
      if (k == 4) return op(t, "IsKnown", {expr((T)r.below(8), d - 1)});
      if (k < 8) { const char *o[] = {"GT", "GE", "LT", "LE"}; bool st = r.chance(20);
        return op(t, o[r.below(4)], st ? std::vector<P>{expr(TS, d - 1), expr(TS, d - 1)} : std::vector<P>{num(d - 1), num(d - 1)}); }
      if (k < 10) return op(t, r.chance(50) ? "EQNumeric" : "NENumeric", {num(d - 1), num(d - 1)});
      if (k == 10) return op(t, r.chance(50) ? "EQBoolean" : "NEBoolean", {expr(TB, d - 1), expr(TB, d - 1)});
      if (k == 11) return op(t, r.chance(50) ? "EQString" : "NEString", {expr(TS, d - 1), expr(TS, d - 1)});
      T at = (T)r.range(TBA, TSA);
      if (k == 12) return op(t, r.chance(50) ? "EQArray" : "NEArray", {leaf(at), leaf(at)});
      return op(t, r.chance(50) ? "ALL_KNOWN" : "ANY_KNOWN", {leaf(at)});
    }
    case TI: {
      int k = r.below(11);
      if (k < 3) { const char *o[] = {"ADD", "SUB", "MUL"}; return op(t, o[k], many(TI, 1)); }
      if (k == 3) return op(t, "DIV", {expr(TI, d - 1), expr(TI, d - 1)});
      if (k == 4) return op(t, "MOD", {expr(TI, d - 1), expr(TI, d - 1)});
      if (k == 5) return op(t, r.chance(50) ? "MAX" : "MIN", many(TI, 1));
      if (k == 6) return op(t, "ABS", {expr(TI, d - 1)});
      if (k == 7) return op(t, "STRLEN", {expr(TS, d - 1)});
      if (k == 8) return op(t, "REAL_TO_INT", {num(d - 1)});
      if (k == 9) { const char *o[] = {"CEIL", "FLOOR", "ROUND", "TRUNC"}; return op(t, o[r.below(4)], {expr(TI, d - 1)}); }
      return op(t, r.chance(60) ? "ArraySize" : "ArrayMaxSize", {leaf((T)r.range(TBA, TSA))});
    }
    case TR: {
      int k = r.below(10);
      auto mixed = [&](int lo) { std::vector<P> v = many(TI, lo); int m = r.below((int)v.size()); for (size_t q = 0; q < v.size(); ++q) if ((int)q == m || r.chance(40)) v[q] = expr(TR, d - 1); return v; };
      if (k < 3) { const char *o[] = {"ADD", "SUB", "MUL"}; return op(t, o[k], mixed(1)); }
      if (k < 5) { std::vector<P> v = {num(d - 1), num(d - 1)}; if (v[0]->t == TI && v[1]->t == TI) v[r.below(2)] = expr(TR, d - 1); return op(t, k == 3 ? "DIV" : "MOD", v); }
      if (k == 5) return op(t, r.chance(50) ? "MAX" : "MIN", mixed(1));
      if (k == 6) return op(t, "ABS", {expr(TR, d - 1)});
      if (k == 7) return op(t, "SQRT", {num(d - 1)});
      { const char *o[] = {"CEIL", "FLOOR", "ROUND", "TRUNC"}; return op(t, o[r.below(4)], {expr(TR, d - 1)}); }
    }
    default:
      return op(TS, "Concat", many(TS, 1));
    }
  }
};

static std::string esc(std::string const &s) {
  std::string r;
  for (char c : s) switch (c) { case '<': r += "&lt;"; break; case '>': r += "&gt;"; break; case '&': r += "&amp;"; break; default: r += c; }
  return r;
}
static std::string litText(T t, V const &v) {
  if (!v.known) return "UNKNOWN";
  if (t == TS) return esc(v.s);
  return show(t, v);
}
static std::string xml(P const &p, Conn const &c) {
  switch (p->k) {
  case E::LIT:
    if (isArr(p->t)) {
      std::string en = tn(elt(p->t)), b;
      for (auto &x : p->lit.a) b += "<" + en + "Value>" + litText(elt(p->t), x) + "</" + en + "Value>";
      return "<ArrayValue Type=\"" + en + "\">" + b + "</ArrayValue>";
    }
    return std::string("<") + tn(p->t) + "Value>" + litText(p->t, p->lit) + "</" + tn(p->t) + "Value>";
  case E::VARK:
    if (isArr(p->t)) return "<ArrayVariable>" + c.vars[p->var].name + "</ArrayVariable>";
    return std::string("<") + tn(p->t) + "Variable>" + c.vars[p->var].name + "</" + tn(p->t) + "Variable>";
  case E::AREF:
    return "<ArrayElement><Name>" + c.vars[p->var].name + "</Name><Index>" + xml(p->a[0], c) + "</Index></ArrayElement>";
  default: {
    std::string b;
    for (auto &x : p->a) b += xml(x, c);
    return "<" + p->op + ">" + b + "</" + p->op + ">";
  }
  }
}

struct PlanErr {};
// Independent evaluator
static V ev(P const &p, Conn const &c, bool &anyUnkRoute);
static bool inInt(__int128 x) { return x >= INT_MIN && x <= INT_MAX; }
static V evi(P const &p, Conn const &c, bool &u) { return ev(p, c, u); }
static V asReal(P const &p, V v) { if (v.known && p->t == TI) v.d = (double)v.i; return v; }

static V ev(P const &p, Conn const &c, bool &u) {
  if (p->k == E::LIT) return p->lit;
  if (p->k == E::VARK) return c.vars[p->var].val;
  if (p->k == E::AREF) {
    V ix = ev(p->a[0], c, u);
    if (ix.dk || ix.mayUnk) return dontCare();
    if (!ix.known) return V();
    if (ix.i < 0) throw PlanErr();
    V const &av = c.vars[p->var].val;
    if (!av.known) return V();
    if ((size_t)ix.i >= c.vars[p->var].max && (size_t)ix.i >= av.a.size()) throw PlanErr();
    if ((size_t)ix.i >= av.a.size()) return dontCare();   // within the maximum, beyond what was assigned
    return av.a[(size_t)ix.i];
  }
  std::vector<V> a;
  bool may = false;
  for (auto &x : p->a) { a.push_back(ev(x, c, u)); if (a.back().dk) may = true; if (a.back().mayUnk) may = true; }
  std::string const &o = p->op;
  if (may) return dontCare();
  size_t n = a.size();
  bool allKnown = true;
  for (auto &x : a) allKnown &= x.known;
  if (o == "IsKnown") return vb(a[0].known);
  if (o == "AND" || o == "OR") {
    bool dom = o == "OR";
    for (auto &x : a) if (x.known && x.b == dom) return vb(dom);
    return allKnown ? vb(!dom) : V();
  }
  if (!allKnown) return V();
  if (o == "XOR") { bool z = false; for (auto &x : a) z ^= x.b; return vb(z); }
  if (o == "NOT") return vb(!a[0].b);
  if (o == "Concat") { std::string z; for (auto &x : a) z += x.s; return vs(z); }
  if (o == "STRLEN") return vi((int64_t)a[0].s.size());
  if (o == "ArraySize") return vi((int64_t)a[0].a.size());
  if (o == "ArrayMaxSize") return p->a[0]->k == E::VARK ? dontCare() : vi((int64_t)a[0].a.size());
  if (o == "ALL_KNOWN") { for (auto &x : a[0].a) if (!x.known) return vb(false); return vb(true); }
  if (o == "ANY_KNOWN") { for (auto &x : a[0].a) if (x.known) return vb(true); return vb(false); }
  if (o == "EQBoolean" || o == "NEBoolean") return vb((a[0].b == a[1].b) == (o[0] == 'E'));
  if (o == "EQString" || o == "NEString") return vb((a[0].s == a[1].s) == (o[0] == 'E'));
  if (o == "EQArray" || o == "NEArray") return vb(same(p->a[0]->t, a[0], a[1]) == (o[0] == 'E'));
  if ((o == "GT" || o == "GE" || o == "LT" || o == "LE") && p->a[0]->t == TS) {
    int k = a[0].s.compare(a[1].s);
    return vb(o == "GT" ? k > 0 : o == "GE" ? k >= 0 : o == "LT" ? k < 0 : k <= 0);
  }
  if (p->t == TB) {   // numeric comparison
    double x = asReal(p->a[0], a[0]).d, y = asReal(p->a[1], a[1]).d;
    if (o == "EQNumeric") return vb(x == y);
    if (o == "NENumeric") return vb(x != y);
    return vb(o == "GT" ? x > y : o == "GE" ? x >= y : o == "LT" ? x < y : x <= y);
  }
  if (p->t == TI) {
    if (o == "REAL_TO_INT") {
      double x = asReal(p->a[0], a[0]).d;
      if (std::isnan(x) || x < INT_MIN || x > INT_MAX || x != std::trunc(x)) return V();
      return vi((int64_t)x);
    }
    if (o == "CEIL" || o == "FLOOR" || o == "ROUND" || o == "TRUNC") return a[0];
    if (o == "DIV" || o == "MOD") {
      if (a[1].i == 0) return V();
      int64_t z = o == "DIV" ? a[0].i / a[1].i : a[0].i % a[1].i;
      return inInt(z) ? vi(z) : V();
    }
    if (o == "ABS") { int64_t z = a[0].i < 0 ? -a[0].i : a[0].i; return inInt(z) ? vi(z) : V(); }
    __int128 z = a[0].i;
    bool over = false;
    if (o == "SUB" && n == 1) z = -z;
    for (size_t k = 1; k < n; ++k) {
      if (o == "ADD") z += a[k].i;
      else if (o == "SUB") z -= a[k].i;
      else if (o == "MUL") { z *= a[k].i; if (z > (__int128)1 << 90 || z < -((__int128)1 << 90)) { bool zero = false; for (size_t q = k + 1; q < n; ++q) zero |= a[q].i == 0; if (zero) { V v = vi(0); v.mayUnk = true; return v; } return V(); } }
      else if (o == "MAX") z = z > a[k].i ? z : a[k].i;
      else z = z < a[k].i ? z : a[k].i;
      if (!inInt(z)) over = true;
    }
    if (!inInt(z)) return V();
    V v = vi((int64_t)z);
    v.mayUnk = over;
    return v;
  }
  // reals
  std::vector<double> d;
  bool nan = false;
  for (size_t k = 0; k < n; ++k) { d.push_back(asReal(p->a[k], a[k]).d); nan |= std::isnan(d.back()); }
  if (o == "SQRT") return d[0] < 0 ? V() : vr(std::sqrt(d[0]));
  if (o == "CEIL") return vr(std::ceil(d[0]));
  if (o == "FLOOR") return vr(std::floor(d[0]));
  if (o == "ROUND") return vr(std::round(d[0]));
  if (o == "TRUNC") return vr(std::trunc(d[0]));
  if (o == "ABS") return vr(std::fabs(d[0]));
  if (o == "DIV") return d[1] == 0 ? V() : vr(d[0] / d[1]);
  if (o == "MOD") return d[1] == 0 ? V() : vr(std::fmod(d[0], d[1]));
  if ((o == "MAX" || o == "MIN") && nan) return dontCare();
  double z = d[0];
  if (o == "SUB" && n == 1) z = -z;
  for (size_t k = 1; k < n; ++k) {
    if (o == "ADD") z += d[k];
    else if (o == "SUB") z -= d[k];
    else if (o == "MUL") z *= d[k];
    else if (o == "MAX") z = z > d[k] ? z : d[k];
    else z = z < d[k] ? z : d[k];
  }
  return vr(z);
}

// What the real expression says through each route.
template <class AT, class ET> static bool fromArr(Array const *ap, V &v, ET V::*f) { return false; }
static V fromArray(T t, Array const *ap) {
  V v; v.known = true;
  for (size_t k = 0; k < ap->size(); ++k) {
    V x;
    if (ap->elementKnown(k)) {
      x.known = true;
      switch (elt(t)) {
      case TB: { Boolean b; x.known = ap->getElement(k, b); x.b = b; break; }
      case TI: { Integer b; x.known = ap->getElement(k, b); x.i = b; break; }
      case TR: { Real b; x.known = ap->getElement(k, b); x.d = b; break; }
      default: { String b; x.known = ap->getElement(k, b); x.s = b; }
      }
    }
    v.a.push_back(x);
  }
  return v;
}
static V fromValue(T t, Value const &w) {
  V v; v.known = w.isKnown();
  if (!v.known) return v;
  switch (t) {
  case TB: { Boolean b; w.getValue(b); v.b = b; break; }
  case TI: { Integer b; w.getValue(b); v.i = b; break; }
  case TR: { Real b; w.getValue(b); v.d = b; break; }
  case TS: w.getValue(v.s); break;
  default: { Array const *ap; w.getValuePointer(ap); return fromArray(t, ap); }
  }
  return v;
}
static V direct(T t, Expression const *e) {
  V v;
  switch (t) {
  case TB: { Boolean b = false; v.known = e->getValue(b); v.b = b; break; }
  case TI: { Integer b = 0; v.known = e->getValue(b); v.i = b; break; }
  case TR: { Real b = 0; v.known = e->getValue(b); v.d = b; break; }
  case TS: { v.known = e->getValue(v.s); break; }
  default: { Array const *ap = nullptr; if (!e->getValuePointer(ap)) return v; return fromArray(t, ap); }
  }
  return v;
}

struct Lis : ExpressionListener { long n = 0; void notifyChanged() override { ++n; } };

static Var mkVar(const char *name, T t, size_t max) {
  Var v; v.name = name; v.t = t; v.max = max; v.e = nullptr;
  switch (t) {
  case TB: v.e = new BooleanVariable(name); break;
  case TI: v.e = new IntegerVariable(name); break;
  case TR: v.e = new RealVariable(name); break;
  case TS: v.e = new StringVariable(name); break;
  case TBA: v.e = new BooleanArrayVariable(name, new IntegerConstant((Integer)max), true); break;
  case TIA: v.e = new IntegerArrayVariable(name, new IntegerConstant((Integer)max), true); break;
  case TRA: v.e = new RealArrayVariable(name, new IntegerConstant((Integer)max), true); break;
  default: v.e = new StringArrayVariable(name, new IntegerConstant((Integer)max), true); break;
  }
  return v;
}

static void oneCase(uint64_t seed, long n, vc::Report &rep) {
  Rng r(vc::mix(seed * 7919, n));
  Conn c;
  static const char *nm[] = {"vb", "vi", "vr", "vs", "ab", "ai", "ar", "as"};
  for (int t = TB; t <= TSA; ++t) c.vars.push_back(mkVar(nm[t], (T)t, 1 + r.below(5)));
  static const char *nm2[] = {"wb", "wi", "wr", "ws"};
  for (int t = TB; t <= TS; ++t) c.vars.push_back(mkVar(nm2[t], (T)t, 0));
  static const char *nm3[] = {"bb", "bi", "br", "bs"};
  for (int t = TBA; t <= TSA; ++t) c.vars.push_back(mkVar(nm3[t - TBA], (T)t, c.vars[t].max));
  for (auto &v : c.vars) v.e->activate();
  Gen g(r, c);
  auto setVar = [&](int k) {
    Var &v = c.vars[k];
    Assignable *as = v.e->asAssignable();
    if (isArr(v.t) && v.val.known && r.chance(50) && !v.val.a.empty()) {   // one element
      size_t ix = r.below((int)v.val.a.size());
      V x = g.scalar(elt(v.t), 30);
      dynamic_cast<ArrayVariable *>(v.e)->setElement(ix, toVal(elt(v.t), x));
      v.val.a[ix] = x;
    }
    else {
      V x = g.value(v.t, 9, v.max);
      if (isArr(v.t) && r.chance(50)) {      // nearly the same as the other array of this type
        for (auto &w : c.vars) if (w.t == v.t && w.name != v.name && w.val.known) x = w.val;
        if (x.known && r.chance(30) && !x.a.empty()) x.a[r.below((int)x.a.size())] = g.scalar(elt(v.t), 40);
      }
      if (isArr(v.t)) x.a.resize(x.known ? v.max : 0);   // arrays in plans always have their full size
      as->setValue(toVal(v.t, x));
      v.val = x;
    }
  };
  for (size_t k = 0; k < c.vars.size(); ++k) if (r.chance(85)) setVar((int)k); else { c.vars[k].e->asAssignable()->setUnknown(); c.vars[k].val = V(); }
  T t = r.chance(90) ? (T)r.below(4) : (T)r.range(TBA, TSA);
  P p = g.expr(t, r.range(1, 4));
  std::string x = xml(p, c);
  pugi::xml_document doc;
  std::string decl;
  for (auto &v : c.vars)
    decl += isArr(v.t) ? "<DeclareArray><Name>" + v.name + "</Name><Type>" + tn(elt(v.t)) + "</Type><MaxSize>" + std::to_string(v.max) + "</MaxSize></DeclareArray>"
                       : "<DeclareVariable><Name>" + v.name + "</Name><Type>" + tn(v.t) + "</Type></DeclareVariable>";
  doc.load_string(("<Node><NodeId>TestNode</NodeId><VariableDeclarations>" + decl + "</VariableDeclarations><StartCondition>" + x + "</StartCondition></Node>").c_str(), pugi::parse_default | pugi::parse_ws_pcdata_single);
  pugi::xml_node xn = doc.first_child().child("StartCondition").first_child();
  rep.sample(x.substr(0, 700));
  bool created = false;
  Expression *e = nullptr;
  try {
    ValueType ct = checkExpression("TestNode", xn);
    e = createExpression(xn, &c, created);
    if (ct != UNKNOWN_TYPE && ct != vt(t)) rep.viol("type", "static type of " + x + " is " + valueTypeName(ct) + " not " + tn(t));
  }
  catch (std::exception &ex) {
    rep.viol("reject", std::string("valid expression rejected: ") + ex.what() + " " + x);
    for (auto &v : c.vars) delete v.e;
    return;
  }
  if (e->valueType() != vt(t)) rep.viol("type", std::string("type of ") + x + " is " + valueTypeName(e->valueType()) + " not " + tn(t));
  Lis lis;
  e->addListener(&lis);
  e->activate();
  V prev; bool havePrev = false;
  long seen = 0;
  for (int round = 0; round < 6; ++round) {
    if (round) {
      int m = r.range(1, 3);
      for (int q = 0; q < m; ++q) setVar(r.below((int)c.vars.size()));
    }
    bool u = false;
    V want;
    bool wantErr = false, gotErr = false;
    try { want = ev(p, c, u); } catch (PlanErr &) { wantErr = true; }
    V got;
    try {
      got = direct(t, e);
      rep.add("evals");
      if (!wantErr) {
        bool ok = want.dk || same(t, want, got) || (want.mayUnk && !got.known);
        if (!ok) rep.viol("value", x + " evaluates to " + show(t, got) + " instead of " + show(t, want));
        if (got.known != e->isKnown()) rep.viol("route", x + " known-ness differs between value and isKnown");
        V tv = fromValue(t, e->toValue());
        if (!same(t, tv, got)) rep.viol("route", x + " reports " + show(t, tv) + " as Value but evaluates to " + show(t, got));
        if (t == TI) {
          Real d; bool k = e->getValue(d);
          if (k != got.known || (k && d != (double)got.i)) rep.viol("route", x + " read as Real differs");
        }
        if (t == TS) {
          String const *ps; bool k = e->getValuePointer(ps);
          if (k != got.known || (k && *ps != got.s)) rep.viol("route", x + " by pointer differs");
        }
        std::string vsr = e->valueString(), vsv = e->toValue().valueToString();
        if (vsr != vsv) rep.viol("route", x + " prints " + vsr + " but its value prints " + vsv);
        if (!same(t, direct(t, e), got)) rep.viol("route", x + " gives another value when evaluated again");
        rep.sig(vc::mix(vc::hashStr(p->k == E::OP ? p->op : "leaf"), (got.known ? 1 : 0) + 2 * p->a.size() + 100 * t + 1000 * (want.dk ? 1 : 0)));
        if (got.known && !want.dk) rep.add("known"); else rep.add("unknown");
        if (havePrev && !same(t, prev, got) && lis.n == seen)
          rep.viol("notify", x + " changed from " + show(t, prev) + " to " + show(t, got) + " and told nobody");
        if (havePrev && !same(t, prev, got)) rep.add("changes");
      }
      havePrev = true; prev = got; seen = lis.n;
    }
    catch (PlanError &) { gotErr = true; havePrev = false; }
    if (gotErr && !wantErr && !want.dk) {
      // an operand the model did not need to look at may be out of bounds; only complain when no array element is involved
      if (x.find("ArrayElement") == std::string::npos) rep.viol("value", x + " raised a plan error");
    }
    if (wantErr) rep.add("planerrors");
    rep.sig(vc::mix(vc::hashStr(x), round * 31 + (got.known ? 1 : 0)));
  }
  e->deactivate();
  e->removeListener(&lis);
  if (created) delete e;
  for (auto &v : c.vars) { v.e->deactivate(); delete v.e; }
}

int main(int argc, char **argv) {
  vc::Args args(argc, argv);
  Error::doThrowExceptions();
  PlanError::doThrowExceptions();
  vc::Report rep;
  uint64_t seed = args.num("seed", 1);
  long first = args.num("first", 0), cases = args.num("cases", 10);
  for (long k = first; k < first + cases; ++k) {
    rep.begin("expr:" + std::to_string(k));
    rep.add("cases");
    try { oneCase(seed, k, rep); }
    catch (std::exception &e) { rep.viol("internal", std::string("exception: ") + e.what()); }
  }
  rep.finish();
  plexilRunFinalizers();
  return 0;
}
