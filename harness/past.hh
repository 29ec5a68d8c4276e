// Abstract plan syntax shared by the executive harnesses: three-valued values,
// expressions, XML emission and an independent evaluator (the reference
// semantics the monitors compare the real executive against).
#ifndef PAST_HH
#define PAST_HH
#include "vcommon.hh"
#include <algorithm>
#include <climits>
#include <cmath>
#include <functional>
#include <memory>

namespace past {

enum Ty { TB, TI, TR, TS, TIA, TSA, TBA, TRA, TNS, TNO, TNF, TCH };

struct V {
  enum K { U, B, I, R, S, A } k = U;
  long i = 0;
  double d = 0;
  std::string s;
  std::vector<V> a;
  static V unk() { return V(); }
  static V b(bool x) { V v; v.k = B; v.i = x; return v; }
  static V in(long x) { V v; v.k = I; v.i = x; return v; }
  static V re(double x) { V v; v.k = R; v.d = x; return v; }
  static V st(std::string x) { V v; v.k = S; v.s = x; return v; }
  static V ar(std::vector<V> x) { V v; v.k = A; v.a = x; return v; }
  bool known() const { return k != U; }
  bool isT() const { return k == B && i; }
  bool isF() const { return k == B && !i; }
  double num() const { return k == R ? d : (double)i; }
  bool eq(V const &o) const {
    if (k == U || o.k == U) return k == o.k;
    if ((k == I || k == R || k == B) && (o.k == I || o.k == R || o.k == B)) return num() == o.num();
    if (k != o.k) return false;
    if (k == S) return s == o.s;
    if (a.size() != o.a.size()) return false;
    for (size_t j = 0; j < a.size(); ++j) if (!a[j].eq(o.a[j])) return false;
    return true;
  }
  std::string str() const {
    std::ostringstream o;
    switch (k) {
    case U: return "UNKNOWN";
    case B: return i ? "true" : "false";
    case I: o << i; return o.str();
    case R: o << d; return o.str();
    case S: return "\"" + s + "\"";
    case A: o << "["; for (auto &x : a) o << x.str() << " "; o << "]"; return o.str();
    }
    return "?";
  }
};

enum Op {
  LIT, VAR, LOOKUP, NOT, AND, OR, XOR, GT, GE, LT, LE, EQN, NEN, EQB, NEB, EQS, NES, ISKNOWN,
  NSTATE, NOUTCOME, NFAIL, NHANDLE, NFUNC, TIMECMP, ADD, SUB, MUL, MOD, MAXO, MINO, ABSO, AREF, CONCAT,
  STRLEN, ASIZE, EQA, NEA, ALLK, ANYK
};

struct Expr;
typedef std::shared_ptr<Expr> EP;
struct Expr {
  Op op;
  Ty ty;
  V lit;
  std::vector<EP> a;
  int var = -1;        // VAR, AREF
  int node = -1;       // node references
  std::string name;    // LOOKUP state name, NFUNC tag, node-state name, handle name
  int code = 0;        // compared enum code
  int aux = 0;         // LOOKUP: 1 = OnChange ; NSTATE: 0 EQ 1 NE ; TIMECMP: 0 START 1 END
  std::string cmp;     // TIMECMP comparison tag
};

inline EP mk(Op op, Ty ty) { EP e = std::make_shared<Expr>(); e->op = op; e->ty = ty; return e; }
inline EP lit(V v, Ty ty) { EP e = mk(LIT, ty); e->lit = v; return e; }

struct VarDecl {
  std::string name;
  Ty ty;
  int owner = -1;      // node index
  EP init;             // may be null
  int maxSize = 0;
  bool alias = false;  // parameter of a library instance
  EP target;           // alias target expression (caller scope)
  bool iface = false;  // declared in an interface
  bool inout = false;  // an assignable parameter
};

inline std::string esc(std::string const &s) {
  std::string r;
  for (char c : s) {
    if (c == '<') r += "&lt;"; else if (c == '>') r += "&gt;"; else if (c == '&') r += "&amp;"; else r += c;
  }
  return r;
}

inline const char *stName(int s) {
  static const char *n[] = {"?", "INACTIVE", "WAITING", "EXECUTING", "ITERATION_ENDED", "FINISHED", "FAILING", "FINISHING"};
  return s >= 0 && s <= 7 ? n[s] : "?";
}
inline const char *outName(int o) {
  switch (o) { case 16: return "none"; case 17: return "SUCCESS"; case 18: return "FAILURE"; case 19: return "SKIPPED"; case 20: return "INTERRUPTED"; }
  return "?";
}
inline const char *failName(int o) {
  switch (o) { case 32: return "none"; case 33: return "PRE_CONDITION_FAILED"; case 34: return "POST_CONDITION_FAILED";
  case 35: return "INVARIANT_CONDITION_FAILED"; case 36: return "PARENT_FAILED"; case 37: return "EXITED"; case 38: return "PARENT_EXITED"; }
  return "?";
}
inline const char *handleName(int h) {
  switch (h) { case 49: return "COMMAND_SENT_TO_SYSTEM"; case 50: return "COMMAND_ACCEPTED"; case 51: return "COMMAND_RCVD_BY_SYSTEM";
  case 52: return "COMMAND_FAILED"; case 53: return "COMMAND_DENIED"; case 54: return "COMMAND_SUCCESS"; case 55: return "COMMAND_ABORTED";
  case 56: return "COMMAND_ABORT_FAILED"; case 57: return "COMMAND_INTERFACE_ERROR"; }
  return "?";
}
inline const char *tyTag(Ty t) {
  switch (t) { case TB: case TBA: return "Boolean"; case TI: case TIA: return "Integer"; case TR: case TRA: return "Real"; case TS: case TSA: return "String"; default: return "?"; }
}
inline bool isArr(Ty t) { return t == TIA || t == TSA || t == TBA || t == TRA; }
inline Ty elTy(Ty t) { return t == TIA ? TI : t == TSA ? TS : t == TBA ? TB : t == TRA ? TR : t; }

inline std::string scalarText(V const &v) {
  if (!v.known()) return "UNKNOWN";
  if (v.k == V::S) return esc(v.s);
  if (v.k == V::R) { char b[64]; snprintf(b, sizeof b, "%.17g", v.d); return b; }
  return v.str();
}

// Context for emission: maps indices to names
struct Names {
  virtual std::string var(int) const = 0;
  virtual Ty varTy(int) const = 0;
  virtual std::string node(int) const = 0;
  virtual std::string ref(int x) const { return "<NodeId>" + node(x) + "</NodeId>"; }
  virtual ~Names() {}
};

inline const char *opTag(Op o) {
  switch (o) {
  case NOT: return "NOT"; case AND: return "AND"; case OR: return "OR"; case XOR: return "XOR"; case GT: return "GT"; case GE: return "GE";
  case LT: return "LT"; case LE: return "LE"; case EQN: return "EQNumeric"; case NEN: return "NENumeric"; case EQB: return "EQBoolean";
  case NEB: return "NEBoolean"; case EQS: return "EQString"; case NES: return "NEString"; case ISKNOWN: return "IsKnown"; case ADD: return "ADD";
  case SUB: return "SUB"; case MUL: return "MUL"; case MOD: return "MOD"; case MAXO: return "MAX"; case MINO: return "MIN"; case ABSO: return "ABS";
  case CONCAT: return "Concat"; case STRLEN: return "STRLEN"; case ASIZE: return "ArraySize"; case EQA: return "EQArray"; case NEA: return "NEArray";
  case ALLK: return "ALL_KNOWN"; case ANYK: return "ANY_KNOWN";
  default: return "?";
  }
}

inline std::string xml(EP const &e, Names const &n) {
  auto wrap = [](std::string const &t, std::string const &b) { return "<" + t + ">" + b + "</" + t + ">"; };
  switch (e->op) {
  case LIT:
    if (isArr(e->ty)) {
      std::string b;
      for (auto &x : e->lit.a) b += wrap(std::string(tyTag(e->ty)) + "Value", scalarText(x));
      return std::string("<ArrayValue Type=\"") + tyTag(e->ty) + "\">" + b + "</ArrayValue>";
    }
    return wrap(std::string(tyTag(e->ty)) + "Value", scalarText(e->lit));
  case VAR:
    if (isArr(n.varTy(e->var))) return wrap("ArrayVariable", n.var(e->var));
    return wrap(std::string(tyTag(n.varTy(e->var))) + "Variable", n.var(e->var));
  case LOOKUP: {
    std::string b = "<Name><StringValue>" + e->name + "</StringValue></Name>";
    if (!e->a.empty()) { std::string as; for (auto &x : e->a) as += xml(x, n); b += wrap("Arguments", as); }
    return wrap(e->aux ? "LookupOnChange" : "LookupNow", b);
  }
  case AREF:
    return "<ArrayElement><Name>" + n.var(e->var) + "</Name><Index>" + xml(e->a[0], n) + "</Index></ArrayElement>";
  case NSTATE:
    return wrap(e->aux ? "NEInternal" : "EQInternal", "<NodeStateVariable>" + n.ref(e->node) + "</NodeStateVariable><NodeStateValue>" + stName(e->code) + "</NodeStateValue>");
  case NOUTCOME:
    return wrap(e->aux ? "NEInternal" : "EQInternal", "<NodeOutcomeVariable>" + n.ref(e->node) + "</NodeOutcomeVariable><NodeOutcomeValue>" + outName(e->code) + "</NodeOutcomeValue>");
  case NFAIL:
    return wrap(e->aux ? "NEInternal" : "EQInternal", "<NodeFailureVariable>" + n.ref(e->node) + "</NodeFailureVariable><NodeFailureValue>" + failName(e->code) + "</NodeFailureValue>");
  case NHANDLE:
    if (e->aux == 2) return "<IsKnown><NodeCommandHandleVariable>" + n.ref(e->node) + "</NodeCommandHandleVariable></IsKnown>";
    return wrap(e->aux ? "NEInternal" : "EQInternal", "<NodeCommandHandleVariable>" + n.ref(e->node) + "</NodeCommandHandleVariable><NodeCommandHandleValue>" + handleName(e->code) + "</NodeCommandHandleValue>");
  case NFUNC:
    return wrap(e->name, "" + n.ref(e->node) + "");
  case TIMECMP:
  {
    std::string tp = "<NodeTimepointValue>" + n.ref(e->node) + "<NodeStateValue>" + stName(e->code) +
                "</NodeStateValue><Timepoint>" + ((e->aux & 1) ? "END" : "START") + "</Timepoint></NodeTimepointValue>", o = xml(e->a[0], n);
    return wrap(e->cmp, (e->aux & 2) ? o + tp : tp + o);
  }
  default: {
    std::string b;
    for (auto &x : e->a) b += xml(x, n);
    return wrap(opTag(e->op), b);
  }
  }
}

// Evaluation context
struct Ctx {
  virtual V varValue(int) = 0;
  virtual V lookup(std::string const &, std::vector<V> const &) = 0;
  virtual int nodeState(int) = 0;
  virtual int nodeOutcome(int) = 0;   // 0 = none
  virtual int nodeFailure(int) = 0;   // 0 = none
  virtual int nodeHandle(int) = 0;    // 0 = none
  virtual V timepoint(int node, int state, int end) = 0;
  virtual std::vector<int> const &children(int) = 0;
  virtual ~Ctx() {}
};

inline V eval(EP const &e, Ctx &c) {
  switch (e->op) {
  case LIT: return e->lit;
  case VAR: return c.varValue(e->var);
  case LOOKUP: {
    std::vector<V> as;
    for (auto &x : e->a) { as.push_back(eval(x, c)); }
    return c.lookup(e->name, as);
  }
  case AREF: {
    V arr = c.varValue(e->var), ix = eval(e->a[0], c);
    if (!arr.known() || !ix.known() || ix.i < 0 || ix.i >= (long)arr.a.size()) return V();
    return arr.a[ix.i];
  }
  case NSTATE: { bool r = c.nodeState(e->node) == e->code; return V::b(e->aux ? !r : r); }
  case NOUTCOME: { int o = c.nodeOutcome(e->node); if (!o) return V(); bool r = o == e->code; return V::b(e->aux ? !r : r); }
  case NFAIL: { int o = c.nodeFailure(e->node); if (!o) return V(); bool r = o == e->code; return V::b(e->aux ? !r : r); }
  case NHANDLE: {
    int o = c.nodeHandle(e->node);
    if (e->aux == 2) return V::b(o != 0);
    if (!o) return V();
    bool r = o == e->code; return V::b(e->aux ? !r : r);
  }
  case NFUNC: {
    int s = c.nodeState(e->node), o = c.nodeOutcome(e->node), f = c.nodeFailure(e->node);
    std::string const &t = e->name;
    if (t == "Finished") return V::b(s == 5);
    if (t == "Executing") return V::b(s == 3);
    if (t == "Waiting") return V::b(s == 2);
    if (t == "Inactive") return V::b(s == 1);
    if (t == "IterationEnded") return V::b(s == 4);
    if (t == "Succeeded") return V::b(s == 5 && o == 17);
    if (t == "Failed") return V::b(s == 5 && o == 18);
    if (t == "Skipped") return V::b(o == 19);
    if (t == "PostconditionFailed") return V::b(f == 34);
    if (t == "NoChildFailed") {
      for (int k : c.children(e->node)) if (c.nodeState(k) == 5 && c.nodeOutcome(k) == 18) return V::b(false);
      return V::b(true);
    }
    return V();
  }
  case TIMECMP: {
    V t = c.timepoint(e->node, e->code, e->aux & 1), x = eval(e->a[0], c);
    if (!t.known() || !x.known()) return V();
    if (e->aux & 2) std::swap(t, x);
    if (e->cmp == "EQNumeric") return V::b(t.num() == x.num());
    if (e->cmp == "NENumeric") return V::b(t.num() != x.num());
    if (e->cmp == "GT") return V::b(t.num() > x.num());
    if (e->cmp == "GE") return V::b(t.num() >= x.num());
    if (e->cmp == "LT") return V::b(t.num() < x.num());
    return V::b(t.num() <= x.num());
  }
  case ISKNOWN: return V::b(eval(e->a[0], c).known());
  case NOT: { V x = eval(e->a[0], c); return x.known() ? V::b(!x.i) : x; }
  case AND: { bool u = false; bool f = false; for (auto &x : e->a) { V v = eval(x, c); if (v.isF()) f = true; if (!v.known()) u = true; }
    return f ? V::b(false) : u ? V() : V::b(true); }
  case OR: { bool u = false; bool t = false; for (auto &x : e->a) { V v = eval(x, c); if (v.isT()) t = true; if (!v.known()) u = true; }
    return t ? V::b(true) : u ? V() : V::b(false); }
  case XOR: { bool r = false; bool u = false; for (auto &x : e->a) { V v = eval(x, c); if (!v.known()) u = true; else if (v.i) r = !r; }
    return u ? V() : V::b(r); }
  case ALLK: case ANYK: {
    V v = eval(e->a[0], c);
    if (!v.known()) return v;
    bool all = true, any = false;
    for (auto &x : v.a) { if (x.known()) any = true; else all = false; }
    return V::b(e->op == ALLK ? all : any);
  }
  default: break;
  }
  // strict operators
  std::vector<V> vs;
  for (auto &x : e->a) { vs.push_back(eval(x, c)); if (!vs.back().known()) return V(); }
  switch (e->op) {
  case GT: return V::b(vs[0].num() > vs[1].num());
  case GE: return V::b(vs[0].num() >= vs[1].num());
  case LT: return V::b(vs[0].num() < vs[1].num());
  case LE: return V::b(vs[0].num() <= vs[1].num());
  case EQN: case EQB: case EQS: case EQA: return V::b(vs[0].eq(vs[1]));
  case NEN: case NEB: case NES: case NEA: return V::b(!vs[0].eq(vs[1]));
  case CONCAT: { std::string s; for (auto &v : vs) s += v.s; return V::st(s); }
  case STRLEN: return V::in((long)vs[0].s.size());
  case ASIZE: return V::in((long)vs[0].a.size());
  default: break;
  }
  bool real = false;
  for (auto &v : vs) if (v.k == V::R) real = true;
  if (e->ty == TR) real = true;
  if (real) {
    double r = vs[0].num();
    switch (e->op) {
    case ADD: for (size_t j = 1; j < vs.size(); ++j) r += vs[j].num(); break;
    case SUB: if (vs.size() == 1) r = -r; for (size_t j = 1; j < vs.size(); ++j) r -= vs[j].num(); break;
    case MUL: for (size_t j = 1; j < vs.size(); ++j) r *= vs[j].num(); break;
    case MAXO: for (size_t j = 1; j < vs.size(); ++j) r = std::max(r, vs[j].num()); break;
    case MINO: for (size_t j = 1; j < vs.size(); ++j) r = std::min(r, vs[j].num()); break;
    case ABSO: r = std::fabs(r); break;
    case MOD: if (vs[1].num() == 0) return V(); r = std::fmod(r, vs[1].num()); break;
    default: return V();
    }
    return V::re(r);
  }
  long r = vs[0].i;
  switch (e->op) {
  case ADD: for (size_t j = 1; j < vs.size(); ++j) r += vs[j].i; break;
  case SUB: if (vs.size() == 1) r = -r; for (size_t j = 1; j < vs.size(); ++j) r -= vs[j].i; break;
  case MUL: for (size_t j = 1; j < vs.size(); ++j) r *= vs[j].i; break;
  case MAXO: for (size_t j = 1; j < vs.size(); ++j) r = std::max(r, vs[j].i); break;
  case MINO: for (size_t j = 1; j < vs.size(); ++j) r = std::min(r, vs[j].i); break;
  case ABSO: r = r < 0 ? -r : r; break;
  case MOD: if (vs[1].i == 0) return V(); r = r % vs[1].i; break;
  default: return V();
  }
  return V::in(r);
}

} // namespace past
#endif
