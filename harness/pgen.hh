// Random plan generator: produces an abstract plan plus its PLEXIL XML.
#ifndef PGEN_HH
#define PGEN_HH
#include "past.hh"

namespace pgen {
using namespace past;

enum Cond { CSTART, CSKIP, CEXIT, CINV, CEND, CPRE, CPOST, CREP, NCOND };
inline const char *condTag(int c) {
  static const char *n[] = {"StartCondition", "SkipCondition", "ExitCondition", "InvariantCondition", "EndCondition", "PreCondition", "PostCondition", "RepeatCondition"};
  return n[c];
}

struct Res { std::string name; int prio; double bound; bool hasRel; bool rel; EP nameE, prioE, boundE, relE; };   // an expression replaces the literal

struct PN {
  std::string id;
  char type = 'E';   // E A C U L X(library call)
  int parent = -1;
  std::vector<int> kids;
  EP cond[NCOND];
  std::vector<int> vars;           // declared here (incl. interface vars for library roots)
  std::vector<std::string> mutexDecl;
  std::vector<std::string> mutexUse; // resolved unique names
  std::vector<std::string> mutexUseName;
  int prio = 100000;
  bool hasPrio = false;
  // assignment
  int lhs = -1; EP lhsIx; EP rhs;
  // command
  EP cname; std::vector<EP> args; int dest = -1; EP destIx; std::vector<Res> res;
  // update
  std::vector<std::pair<std::string, EP>> pairs;
  // library call
  std::string lib; std::vector<std::pair<std::string, int>> alias; // param name -> var index (instance)
  // interface of an ordinary node: variables of the nodes around it
  std::vector<int> ifIn, ifInOut;
};

struct Prof {
  int maxNodes = 14, maxDepth = 4;
  int wE = 2, wA = 4, wC = 4, wU = 1, wL = 4, wX = 0;
  int pStart = 35, pSkip = 15, pExit = 20, pInv = 20, pEnd = 30, pPre = 15, pPost = 20, pRep = 25;
  int pVars = 70, pMutex = 0, pUseMutex = 0, pPrio = 20, pRes = 0;
  int roots = 1;
  int pSecondRoot = 15;
  int fewVars = 0;      // concentrate assignments on few variables
  int pSyncUpdate = 30;
  int arrays = 30;      // pct array declarations
  bool nary3 = true;
  bool timepoints = true;
  bool resExpr = false; // resources given by lookups
  int watch = 0;        // pct of conditions that watch one variable or element directly
  int pUnkWorld = 12;   // pct of lookup values that are unknown
  int pUnkReturn = 8;   // pct of command return values that are unknown
  int pUnkRhs = 0;      // pct of assignments of a value that is often unknown
  int pIface = 0;       // pct of nodes with an interface of their own
  int renames = 0;      // attempts to give things names that others have
  int pBig = 12;        // pct of plans with uncommon magnitudes: long lists and strings, large arrays, numbers and priorities
  int libNest = 1;      // how deep library plans call others
  int pDone = 50;       // environment: chance to answer a command each step
};

struct Lib { std::string name; std::string xml; };

struct Plan : Names {
  std::vector<PN> n;
  std::vector<VarDecl> v;
  std::vector<int> roots;
  std::vector<std::string> rootXml;
  std::vector<Lib> libs;
  std::vector<std::string> globalMutexes;
  std::string hierarchy;
  std::string var(int i) const override { return v[i].name; }
  Ty varTy(int i) const override { return v[i].ty; }
  std::string node(int i) const override { return n[i].id; }
  // node references by position, for the node being printed
  int cur = -1; bool dirs = false; mutable unsigned turn = 0; mutable long dirRefs = 0;
  std::map<std::string, std::string> mutexName;
  std::string mname(std::string const &m) const { auto i = mutexName.find(m); return i == mutexName.end() ? m : i->second; }
  std::string ref(int x) const override {
    if (dirs && cur >= 0 && turn++ % 2) {
      bool libRoot = n[cur].parent >= 0 && n[n[cur].parent].type == 'X';
      ++dirRefs;
      if (x == cur) return "<NodeRef dir=\"self\"/>";
      if (!libRoot && x == n[cur].parent) return "<NodeRef dir=\"parent\"/>";
      if (!libRoot && n[cur].parent >= 0 && n[x].parent == n[cur].parent) return "<NodeRef dir=\"sibling\">" + n[x].id + "</NodeRef>";
      if ((n[cur].type == 'L' || n[cur].type == 'X') && n[x].parent == cur) return "<NodeRef dir=\"child\">" + n[x].id + "</NodeRef>";
      --dirRefs;
    }
    return "<NodeId>" + n[x].id + "</NodeId>";
  }
};

// ------------------------------------------------------------------ generator
struct Gen {
  Plan &p; vc::Rng &r; Prof const f; std::string tag;
  int nodesLeft; int seq = 0; int lib = 0; bool big = false; int nested = 0;
  struct Scope {
    std::vector<int> vis;        // visible variable indices (ancestors)
    std::vector<int> writable;   // subset assignable
    std::vector<int> refs;       // nodes that may be referenced
    std::vector<std::pair<std::string, std::string>> mutexes; // (name, unique) visible
    std::set<std::string> held;  // unique names used by ancestors
    int depth = 0;
    bool inLib = false;
  };
  Gen(Plan &p_, vc::Rng &r_, Prof const &f_, std::string t) : p(p_), r(r_), f(f_), tag(t), nodesLeft(f_.maxNodes) {}

  std::string nm(const char *b) { std::ostringstream o; o << b << seq++; return o.str(); }

  int anyVar(std::vector<int> const &vis, Ty t) {
    std::vector<int> c;
    for (int x : vis) if (p.v[x].ty == t) c.push_back(x);
    return c.empty() ? -1 : r.pick(c);
  }
  EP vref(int x) { EP e = mk(VAR, p.v[x].ty); e->var = x; return e; }
  EP look(const char *n, Ty t, bool arg = false) {
    EP e = mk(LOOKUP, t); e->name = n; e->aux = r.chance(60);
    return e;
  }
  EP gInt(std::vector<int> const &vis, int d) {
    int k = r.below(d > 0 ? 12 : 5);
    int x;
    switch (k) {
    case 0: if (big && r.chance(30)) return lit(V::in(r.range(-30000000, 30000000)), TI); return lit(V::in(r.range(-8, 8)), TI);
    case 1: return look(r.chance(50) ? "iL0" : "iL1", TI);
    case 2: case 3: x = anyVar(vis, TI); if (x >= 0) return vref(x); return lit(V::in(r.range(0, 3)), TI);
    case 4: x = anyVar(vis, TIA); if (x >= 0) return aref(x, vis, d); return lit(V::in(r.range(0, 3)), TI);
    case 5: case 6: { EP e = mk(ADD, TI); int n = 2 + (r.chance(20) ? r.range(1, 3) : 0); for (int i = 0; i < n; ++i) e->a.push_back(gInt(vis, d - 1)); return e; }
    case 7: { EP e = mk(SUB, TI); int n = r.chance(20) ? 1 : 2; for (int i = 0; i < n; ++i) e->a.push_back(gInt(vis, d - 1)); return e; }
    case 8: { EP e = mk(MUL, TI); e->a = {gInt(vis, d - 1), lit(V::in(r.range(-3, 3)), TI)}; return e; }
    case 9: { EP e = mk(r.chance(50) ? MAXO : MINO, TI); e->a = {gInt(vis, d - 1), gInt(vis, d - 1)}; return e; }
    case 10: { EP e = mk(ABSO, TI); e->a = {gInt(vis, d - 1)}; return e; }
    case 11: { // parameterised lookup
      EP e = mk(LOOKUP, TI); e->name = "pL"; e->aux = r.chance(60);
      EP ix = mk(MOD, TI); ix->a = {gInt(vis, 0), lit(V::in(3), TI)};
      e->a = {ix};
      if (r.chance(25)) { // more parameters than the fixed-size argument vectors hold
        e->name = "pM"; e->a.clear();
        for (int q = 0; q < 6; ++q) {
          if (q == 0 || q == 5) { EP m = mk(MOD, TI); m->a = {gInt(vis, 0), lit(V::in(2), TI)}; e->a.push_back(m); }
          else e->a.push_back(lit(V::in(q), TI));
        }
      }
      return e; }
    }
    return lit(V::in(1), TI);
  }
  EP gIntMod(std::vector<int> const &vis, int d) {
    if (r.chance(30)) return lit(V::in(r.range(0, 5)), TI);
    EP e = mk(MOD, TI); e->a = {gInt(vis, d), lit(V::in(7), TI)}; return e;
  }
  EP aref(int x, std::vector<int> const &vis, int d) {
    EP e = mk(AREF, elTy(p.v[x].ty)); e->var = x;
    int iv = anyVar(vis, TI);
    if (d > 0 && iv >= 0 && r.chance(30)) {
      // ABS(MOD(var, size)) stays within bounds
      EP m = mk(MOD, TI); m->a = {vref(iv), lit(V::in(p.v[x].maxSize), TI)};
      EP ab = mk(ABSO, TI); ab->a = {m}; e->a = {ab};
    } else e->a = {lit(V::in(r.below(p.v[x].maxSize)), TI)};
    return e;
  }
  EP gReal(std::vector<int> const &vis, int d) {
    int k = r.below(d > 0 ? 6 : 3); int x;
    switch (k) {
    case 0: if (big && r.chance(30)) return lit(bigReal(), TR); return lit(V::re(r.range(-16, 16) / 4.0), TR);
    case 1: return look("rL0", TR);
    case 2: x = anyVar(vis, TR); if (x >= 0) return vref(x); return lit(V::re(0.5), TR);
    case 3: { EP e = mk(ADD, TR); e->a = {gReal(vis, d - 1), gInt(vis, d - 1)}; return e; }
    case 4: { EP e = mk(SUB, TR); e->a = {gReal(vis, d - 1), gReal(vis, d - 1)}; return e; }
    case 5: { EP e = mk(r.chance(50) ? MAXO : MINO, TR); e->a = {gReal(vis, d - 1), gReal(vis, d - 1)}; return e; }
    }
    return lit(V::re(0.25), TR);
  }
  EP gStr(std::vector<int> const &vis, int d) {
    int k = r.below(d > 0 ? 4 : 3); int x;
    static const char *S[] = {"", "a", "bc", "a<b&c"};
    switch (k) {
    case 0: if (big && r.chance(40)) return lit(bigStr(), TS); return lit(V::st(S[r.below(3)]), TS);
    case 1: return look("sL0", TS);
    case 2: x = anyVar(vis, TS); if (x >= 0) return vref(x); return lit(V::st("z"), TS);
    case 3: { EP e = mk(CONCAT, TS); e->a = {gStr(vis, 0), lit(V::st("q"), TS)}; return e; }
    }
    return lit(V::st("y"), TS);
  }
  EP gBool(std::vector<int> const &vis, std::vector<int> const &refs, int d) {
    int k = r.below(d > 0 ? 24 : 6); int x;
    switch (k) {
    case 0: return lit(V::b(r.chance(50)), TB);
    case 1: case 2: { static const char *B[] = {"bL0", "bL1", "bL2"}; return look(B[r.below(3)], TB); }
    case 3: x = anyVar(vis, TB); if (x >= 0) return vref(x); return look("bL0", TB);
    case 4: case 5: if (!refs.empty()) return nodeCond(refs); return look("bL1", TB);
    case 6: { EP e = mk(NOT, TB); e->a = {gBool(vis, refs, d - 1)}; return e; }
    case 7: case 8: { EP e = mk(r.chance(50) ? AND : OR, TB); int n = 2 + (f.nary3 && r.chance(30) ? r.range(1, 4) : 0); for (int i = 0; i < n; ++i) e->a.push_back(gBool(vis, refs, d - 1)); return e; }
    case 9: { EP e = mk(XOR, TB); int n = 2 + (f.nary3 && r.chance(30) ? r.range(1, 2) : 0); for (int i = 0; i < n; ++i) e->a.push_back(gBool(vis, refs, d - 1)); return e; }
    case 10: case 11: case 12: { static const Op C[] = {GT, GE, LT, LE, EQN, NEN}; EP e = mk(C[r.below(6)], TB); e->a = {gInt(vis, d - 1), gInt(vis, d - 1)}; return e; }
    case 13: { static const Op C[] = {GT, GE, LT, LE, EQN, NEN}; EP e = mk(C[r.below(6)], TB); e->a = {gReal(vis, d - 1), r.chance(50) ? gReal(vis, d - 1) : gInt(vis, d - 1)}; return e; }
    case 14: { EP e = mk(r.chance(50) ? EQB : NEB, TB); e->a = {gBool(vis, refs, d - 1), gBool(vis, refs, d - 1)}; return e; }
    case 15: { EP e = mk(r.chance(50) ? EQS : NES, TB); e->a = {gStr(vis, d - 1), gStr(vis, d - 1)}; return e; }
    case 16: case 17: { EP e = mk(ISKNOWN, TB);
      int q = r.below(4);
      if (q == 0) e->a = {look("bL2", TB)};
      else if (q == 1) e->a = {look("iL1", TI)};
      else { if (!vis.empty()) { int vx = r.pick(vis); e->a = {isArr(p.v[vx].ty) ? aref(vx, vis, d) : vref(vx)}; } if (e->a.empty()) e->a = {look("rL0", TR)}; }
      return e; }
    case 18: case 19: case 20: if (!refs.empty()) return nodeCond(refs); return look("bL2", TB);
    case 21: { static const Ty AT[] = {TIA, TIA, TBA, TSA, TRA}; x = anyVar(vis, AT[r.below(5)]); } if (x >= 0) { EP e = mk(r.chance(50) ? ALLK : ANYK, TB); e->a = {vref(x)}; return e; } return look("bL2", TB);
    case 22: x = anyVar(vis, TBA); if (x >= 0) return aref(x, vis, d); return look("bL0", TB);
    case 23: { EP e = mk(EQN, TB); EP l = mk(STRLEN, TI); l->a = {gStr(vis, d - 1)}; e->a = {l, lit(V::in(r.below(3)), TI)}; return e; }
    }
    return look("bL0", TB);
  }
  EP nodeCond(std::vector<int> const &refs) {
    int x = r.pick(refs);
    int k = r.below(10);
    if (k < 3) { EP e = mk(NSTATE, TB); e->node = x; e->code = r.range(1, 5); if (r.chance(15)) e->code = r.range(6, 7); e->aux = r.chance(30); return e; }
    if (k < 4) { EP e = mk(NOUTCOME, TB); e->node = x; e->code = r.range(17, 20); e->aux = r.chance(30); return e; }
    if (k < 5) { EP e = mk(NFAIL, TB); e->node = x; e->code = r.range(33, 38); e->aux = r.chance(30); return e; }
    if (k < 6 && p.n[x].type == 'C') { EP e = mk(NHANDLE, TB); e->node = x; e->code = r.range(49, 56); e->aux = r.below(3); return e; }
    if (k < 7 && f.timepoints) { EP e = mk(TIMECMP, TB); static const int S[] = {2, 3, 4, 5}; e->node = x; e->code = S[r.below(4)]; e->aux = r.chance(40) + 2 * r.chance(30);
      static const char *C[] = {"GT", "GE", "LT", "LE", "EQNumeric", "NENumeric"}; e->cmp = C[r.below(6)]; e->a = {lit(V::re(r.range(1, 40) * 0.5), TR)}; return e; }
    EP e = mk(NFUNC, TB); e->node = x;
    static const char *F[] = {"Finished", "Executing", "Waiting", "Inactive", "IterationEnded", "Succeeded", "Failed", "Skipped", "PostconditionFailed"};
    e->name = F[r.below(9)];
    if (r.chance(10) && (p.n[x].type == 'L')) e->name = "NoChildFailed";
    return e;
  }
  // a condition that is true most of the time / false most of the time
  EP watchCond(std::vector<int> const &vis) {
    int x = r.pick(vis);
    Ty t = p.v[x].ty;
    EP e;
    if (isArr(t) && r.chance(25)) { e = mk(r.chance(50) ? ALLK : ANYK, TB); e->a = {vref(x)}; }
    else {
      EP v = isArr(t) ? aref(x, vis, 1) : vref(x);
      Ty et = elTy(t);
      if (r.chance(60)) { e = mk(ISKNOWN, TB); e->a = {v}; }
      else if (et == TB) e = v;
      else if (et == TS) { e = mk(r.chance(50) ? EQS : NES, TB); e->a = {v, lit(scal(TS), TS)}; }
      else { static const Op C[] = {GT, GE, LT, LE, EQN, NEN}; e = mk(C[r.below(6)], TB); e->a = {v, lit(scal(et), et)}; }
    }
    if (r.chance(50)) { EP n = mk(NOT, TB); n->a = {e}; e = n; }
    return e;
  }
  EP mostly(bool want, std::vector<int> const &vis, std::vector<int> const &refs) {
    if (r.chance(f.watch) && !vis.empty()) return watchCond(vis);
    EP e = gBool(vis, refs, 2);
    EP o = mk(want ? OR : AND, TB);
    o->a = {e, look(want ? (r.chance(50) ? "hiL" : "bL0") : (r.chance(50) ? "loL" : "bL1"), TB)};
    return r.chance(70) ? o : e;
  }

  void declVars(int me, Scope const &sc, int lo, int hi) {
    int k = r.range(lo, hi);
    for (int i = 0; i < k; ++i) {
      VarDecl d; d.owner = me; d.name = nm("v");
      if (r.chance(f.arrays)) { static const Ty T[] = {TIA, TIA, TBA, TSA, TRA}; d.ty = T[r.below(5)]; d.maxSize = r.range(1, 4); if (big && r.chance(50)) d.maxSize = r.chance(20) ? r.range(60, 300) : r.range(5, 40); }
      else { static const Ty T[] = {TI, TI, TB, TB, TR, TS}; d.ty = T[r.below(6)]; }
      if (r.chance(75)) {
        if (isArr(d.ty)) {
          std::vector<V> a; int n = r.range(1, d.maxSize);
          for (int j = 0; j < n; ++j) a.push_back(scal(elTy(d.ty)));
          d.init = lit(V::ar(a), d.ty);
        }
        else if (r.chance(70)) d.init = lit(scal(d.ty), d.ty);
        else { int q = anyVar(sc.vis, d.ty); d.init = q >= 0 ? vref(q) : lit(scal(d.ty), d.ty); }
      }
      if (f.pIface && d.init && d.init->op == LIT && !(isArr(d.ty) && (int)d.init->lit.a.size() < d.maxSize) && p.n[me].type != 'X' && !(p.n[me].parent >= 0 && p.n[p.n[me].parent].type == 'X') && r.chance(f.pIface)) d.iface = true;
      p.v.push_back(d);
      p.n[me].vars.push_back((int)p.v.size() - 1);
    }
  }
  V bigReal() { static const double D[] = {0.1, 16777217.0, 1e9 + 0.5, -3e-7, 1.0 / 3, 123456.789, -98765432.125}; return V::re(D[r.below(7)]); }
  V bigStr() {
    static const char *W[] = {"lorem ", "a<b&c>", "\"q'", "\xc3\xa9t\xc3\xa9", "0", "zz", "]]", "{}"};
    std::string s; int n = r.chance(20) ? r.range(30, 90) : r.range(2, 6); for (int i = 0; i < n; ++i) s += W[r.below(8)];
    return V::st(s + "_");
  }
  V scal(Ty t) {
    if (big && r.chance(20)) { if (t == TI) return V::in(r.range(-30000000, 30000000)); if (t == TR) return bigReal(); if (t == TS) return bigStr(); }
    switch (t) { case TB: return V::b(r.chance(50)); case TI: return V::in(r.range(0, 5)); case TR: return V::re(r.range(-4, 4) * 0.5); default: { static const char *S[] = {"", "a", "bc"}; return V::st(S[r.below(3)]); } }
  }
  EP gTy(Ty t, std::vector<int> const &vis, std::vector<int> const &refs, int d) {
    switch (t) { case TB: return gBool(vis, refs, d); case TI: return gIntMod(vis, d); case TR: { EP e = gReal(vis, 0); return e; } case TS: return gStr(vis, 0); default: { int x = anyVar(vis, t); if (x >= 0) return vref(x); return EP(); } }
  }

  int newNode(char t, int parent) {
    PN n; n.type = t; n.parent = parent; n.id = nm("N") + tag; p.n.push_back(n); return (int)p.n.size() - 1;
  }

  // Build node `me` of type t; returns index. refs: nodes referable from me (self+ancestors+their kids so far)
  int build(int parent, Scope sc) {
    --nodesLeft;
    char t = 'L';
    if (parent >= 0 || r.chance(10)) {
      int wl = (sc.depth >= f.maxDepth || nodesLeft <= 1) ? 0 : f.wL;
      int wx = (nodesLeft <= (lib ? 1 : 3) || parent < 0) ? 0 : f.wX;
      int wa = sc.writable.empty() ? 0 : f.wA;
      int tot = f.wE + wa + f.wC + f.wU + wl + wx, k = r.below(tot);
      if ((k -= f.wE) < 0) t = 'E'; else if ((k -= wa) < 0) t = 'A'; else if ((k -= f.wC) < 0) t = 'C';
      else if ((k -= f.wU) < 0) t = 'U'; else if ((k -= wl) < 0) t = 'L'; else t = 'X';
    }
    int me = newNode(t, parent);
    if (parent >= 0) p.n[parent].kids.push_back(me);
    if (t == 'X') { buildCall(me, sc); }
    else finish(me, sc, t);
    return me;
  }

  bool repeatable(int me) {
    char t = p.n[me].type;
    return t == 'A' || t == 'C' || t == 'U' || t == 'L' || t == 'X';
  }
  bool hasEffect(int me) {
    char t = p.n[me].type;
    if (t == 'A' || t == 'C' || t == 'U') return true;
    for (int k : p.n[me].kids) if (hasEffect(k)) return true;
    return false;
  }

  void mutexes(int me, Scope &sc) {
    PN &n = p.n[me];
    if (r.chance(f.pMutex)) {
      int k = big ? r.range(1, 5) : r.range(1, 2);
      for (int i = 0; i < k; ++i) { std::string u = nm("m") + tag; n.mutexDecl.push_back(u); sc.mutexes.push_back({u, u}); }
    }
    if (r.chance(f.pUseMutex)) {
      std::vector<std::string> c;
      for (auto &m : sc.mutexes) if (!sc.held.count(m.second)) c.push_back(m.second);
      int k = std::min((int)c.size(), big ? r.range(1, 5) : r.chance(30) ? 2 : 1);
      for (int i = 0; i < k; ++i) { int j = r.below((int)c.size()); n.mutexUse.push_back(c[j]); n.mutexUseName.push_back(c[j]); sc.held.insert(c[j]); c.erase(c.begin() + j); }
    }
  }

  void finish(int me, Scope sc, char t) {
    std::vector<int> outerVis = sc.vis;
    bool atomic = t != 'L';
    bool libRoot = p.n[me].parent >= 0 && p.n[p.n[me].parent].type == 'X';
    if (f.pIface && !libRoot && !sc.vis.empty() && r.chance(f.pIface)) {
      int k = r.range(1, 2);
      for (int i = 0; i < k; ++i) {
        int x = r.pick(sc.vis);
        auto &q = p.n[me];
        if (std::count(q.ifIn.begin(), q.ifIn.end(), x) || std::count(q.ifInOut.begin(), q.ifInOut.end(), x)) continue;
        auto w = std::find(sc.writable.begin(), sc.writable.end(), x);
        if (w != sc.writable.end() && r.chance(50)) q.ifInOut.push_back(x);
        else { q.ifIn.push_back(x); if (w != sc.writable.end()) sc.writable.erase(w); }
      }
    }
    if (r.chance(f.pVars) || (t == 'L' && p.n[me].parent < 0)) declVars(me, sc, 1, t == 'L' ? (p.n[me].parent < 0 ? (f.fewVars ? 2 : 4) : 2) : 1);
    mutexes(me, sc);
    std::vector<int> inVis = sc.vis;
    // the same order whether or not the call gives a value for a parameter with a default
    auto par = [&](int x) { return p.v[x].alias || p.v[x].inout; };
    for (int x : p.n[me].vars) if (!par(x)) { inVis.push_back(x); sc.writable.push_back(x); }
    for (int x : p.n[me].vars) if (par(x)) { inVis.push_back(x); if (p.v[x].inout) sc.writable.push_back(x); }
    sc.vis = inVis;
    sc.refs.push_back(me);
    if (t == 'L') {
      Scope k = sc; k.depth++;
      int want = r.range(1, 5);
      for (int i = 0; i < want && (nodesLeft > 0); ++i) {
        Scope kk = k;
        // earlier siblings may be referenced
        for (int s : p.n[me].kids) kk.refs.push_back(s);
        build(me, kk);
      }
    }
    // own kids can be referenced by own conditions
    std::vector<int> refs = sc.refs;
    for (int s : p.n[me].kids) refs.push_back(s);
    body(me, sc, t);
    conds(me, outerVis, inVis, refs);
    (void)atomic;
  }

  void conds(int me, std::vector<int> const &outer, std::vector<int> const &in, std::vector<int> const &refs) {
    if (r.chance(f.pStart)) p.n[me].cond[CSTART] = mostly(r.chance(70), outer, refs);
    if (r.chance(f.pSkip)) p.n[me].cond[CSKIP] = mostly(false, outer, refs);
    if (r.chance(f.pExit)) p.n[me].cond[CEXIT] = mostly(false, outer, refs);
    if (r.chance(f.pInv)) p.n[me].cond[CINV] = mostly(true, r.chance(70) ? outer : in, refs);
    if (r.chance(f.pEnd)) p.n[me].cond[CEND] = mostly(r.chance(50), in, refs);
    if (r.chance(f.pPre)) p.n[me].cond[CPRE] = mostly(true, outer, refs);
    if (r.chance(f.pPost)) p.n[me].cond[CPOST] = mostly(true, in, refs);
    if (repeatable(me) && hasEffect(me) && r.chance(f.pRep)) p.n[me].cond[CREP] = mostly(r.chance(50), outer, refs);
  }

  void body(int me, Scope const &sc, char t) {
    std::vector<int> refs = sc.refs;
    if (t == 'A') {
      std::vector<int> w;
      for (int x : sc.writable) w.push_back(x);
      if (w.empty()) { p.n[me].type = 'E'; return; }
      int x = r.pick(w);
      if (f.fewVars && r.chance(70)) x = w[0];
      EP ix; Ty ty = p.v[x].ty;
      if (isArr(ty) && r.chance(75)) { EP a = aref(x, sc.vis, 1); ix = a->a[0]; ty = elTy(ty); }
      EP rhs = isArr(ty) ? EP() : gTy(ty, sc.vis, refs, 2);
      if (isArr(ty)) { std::vector<int> c; for (int q : sc.vis) if (p.v[q].ty == ty && p.v[q].maxSize <= p.v[x].maxSize && q != x) c.push_back(q);
        if (!c.empty() && r.chance(75)) rhs = vref(r.pick(c));
        else if (r.chance(70)) { std::vector<V> a; int n = r.range(1, p.v[x].maxSize); for (int j = 0; j < n; ++j) a.push_back(scal(elTy(ty))); rhs = lit(V::ar(a), ty); } }
      if (!rhs) { ix = lit(V::in(0), TI); ty = elTy(p.v[x].ty); rhs = gTy(ty, sc.vis, refs, 1); }
      if (!isArr(ty) && r.chance(f.pUnkRhs)) rhs = ty == TB ? look("bL2", TB) : ty == TI ? look("iL1", TI) : ty == TR ? look("rL0", TR) : look("sL0", TS);
      p.n[me].lhs = x; p.n[me].lhsIx = ix; p.n[me].rhs = rhs;
      if (r.chance(f.pPrio)) { p.n[me].hasPrio = true; p.n[me].prio = r.range(0, 5); if (big && r.chance(60)) { static const int P[] = {99999, 100000, 100001, 65535, 65536, 127, 128, 32768, 255, 256, 2147483646, 2000000000}; p.n[me].prio = P[r.below(12)]; } }
    }
    else if (t == 'C') {
      std::vector<int> w;
      for (int x : sc.writable) w.push_back(x);
      std::string nmx = "cmd0";
      if (!w.empty() && r.chance(40)) {
        int x = r.pick(w);
        if (f.fewVars && r.chance(60)) x = w[0];
        p.n[me].dest = x;
        Ty dt = p.v[x].ty;
        if (isArr(dt) && r.chance(50)) { p.n[me].destIx = aref(x, sc.vis, 1)->a[0]; dt = elTy(dt); }
        if (isArr(dt)) nmx = dt == TBA ? "cmdBA" : dt == TIA ? "cmdIA" : dt == TRA ? "cmdRA" : "cmdSA";
        else switch (dt) { case TB: nmx = "cmdB"; break; case TI: nmx = "cmdI"; break; case TR: nmx = "cmdR"; break; default: nmx = "cmdS"; }
      }
      p.n[me].cname = lit(V::st(nmx), TS);
      int k = big ? r.range(0, 11) : r.below(3);
      for (int i = 0; i < k; ++i) {
        static const Ty T[] = {TB, TI, TR, TS, TIA, TBA, TRA, TSA};
        EP e = gTy(T[r.below(i || big ? 8 : 4)], sc.vis, refs, 1);
        if (e) p.n[me].args.push_back(e);
      }
      if (r.chance(f.pRes)) {
        int nr = big ? r.range(1, 4) : r.range(1, 2);
        std::set<int> used;
        for (int i = 0; i < nr; ++i) {
          int q = r.below(4); if (used.count(q)) continue; used.insert(q);
          Res s; std::ostringstream o; o << "R" << q; s.name = o.str(); s.prio = big ? r.range(-3, 1000000) : r.range(0, 4); if (nr == 1 && r.chance(20)) s.name += r.chance(60) ? "c0" : "c0c0";
          s.bound = r.range(1, 4) * 0.25; if (r.chance(10)) s.bound = 1.5; if (r.chance(20)) s.bound = -s.bound;
          s.hasRel = r.chance(50); s.rel = s.hasRel ? r.chance(50) : true;
          if (f.resExpr) {
            if (nr == 1 && r.chance(25)) s.nameE = look("rN", TS);
            if (r.chance(25)) s.prioE = look("rP", TI);
            if (r.chance(25)) s.boundE = look("rB", TR);
            if (r.chance(30)) { s.hasRel = true; s.relE = look("rF", TB); }
          }
          p.n[me].res.push_back(s);
        }
      }
    }
    else if (t == 'U') {
      int k = big ? r.range(1, 12) : r.range(1, 2);
      for (int i = 0; i < k; ++i) {
        static const Ty T[] = {TB, TI, TR, TS, TIA, TBA, TRA, TSA};
        EP e = gTy(T[r.below(i || big ? 8 : 4)], sc.vis, refs, 1);
        if (!e) continue;
        std::ostringstream o; o << (big && i % 3 == 0 ? "a_longer_name_of_pair_" : "p") << (k - i); p.n[me].pairs.push_back({o.str(), e});
      }
      if (p.n[me].pairs.empty()) p.n[me].pairs.push_back({"p", gInt(sc.vis, 0)});
    }
  }

  // Library: signature first, then body generated with its own generator state so
  // that two instances of the same library are structurally identical.
  struct LibSig { std::string name; uint64_t seed; int nIn, nInOut; std::vector<Ty> ty; int budget; bool emitted; std::vector<int> mx; std::vector<EP> def; };
  std::vector<LibSig> sigs;
  int R_omitted = 0;
  std::string declXml(std::string const &name, Ty ty, int mx, EP const &init) {
    std::string s, e;
    if (isArr(ty)) { s = "<DeclareArray><Name>" + name + "</Name><Type>" + tyTag(ty) + "</Type><MaxSize>" + std::to_string(mx) + "</MaxSize>"; e = "</DeclareArray>"; }
    else { s = "<DeclareVariable><Name>" + name + "</Name><Type>" + tyTag(ty) + "</Type>"; e = "</DeclareVariable>"; }
    if (init) s += "<InitialValue>" + xml(init, p) + "</InitialValue>";
    return s + e;
  }
  std::string ifaceXml(LibSig const &s) {
    std::string x;
    auto par = [&](int i) { return declXml("par" + std::to_string(i), s.ty[i], s.mx[i], s.def[i]); };
    if (s.nIn) { x += "<In>"; for (int i = 0; i < s.nIn; ++i) x += par(i); x += "</In>"; }
    if (s.nInOut) { x += "<InOut>"; for (int i = s.nIn; i < s.nIn + s.nInOut; ++i) x += par(i); x += "</InOut>"; }
    return "<Interface>" + x + "</Interface>";
  }
  void buildCall(int me, Scope sc) {
    if (sigs.empty() || r.chance(50)) {
      LibSig s; s.name = nm("Lib") + tag; s.seed = r.next(); s.nIn = r.below(big ? 6 : 3); s.nInOut = r.below(big ? 5 : 3); s.budget = r.range(1, f.libNest > lib ? 7 : 5); s.emitted = false;
      static const Ty T[] = {TI, TB, TR, TS};
      for (int i = 0; i < s.nIn + s.nInOut; ++i) s.ty.push_back(T[r.below(4)]);
      // the in-out parameters must be satisfiable by writable caller variables
      for (int i = s.nIn; i < s.nIn + s.nInOut; ++i) {
        std::vector<int> w; for (int x : sc.writable) if (!isArr(p.v[x].ty)) w.push_back(x);
        if (w.empty()) { s.nInOut = 0; s.ty.resize(s.nIn); break; }
        s.ty[i] = p.v[r.pick(w)].ty;
      }
      s.mx.assign(s.ty.size(), 0); s.def.assign(s.ty.size(), EP());
      for (int i = 0; i < s.nIn + s.nInOut; ++i) {
        std::vector<int> w; for (int x : (i < s.nIn ? sc.vis : sc.writable)) if (isArr(p.v[x].ty)) w.push_back(x);
        if (!w.empty() && r.chance(30)) { int x = r.pick(w); s.ty[i] = p.v[x].ty; s.mx[i] = p.v[x].maxSize; }
        if (r.chance(35)) {
          if (s.mx[i]) { std::vector<V> a; for (int j = 0; j < s.mx[i]; ++j) a.push_back(scal(elTy(s.ty[i]))); s.def[i] = lit(V::ar(a), s.ty[i]); }
          else s.def[i] = lit(scal(s.ty[i]), s.ty[i]);
        }
      }
      sigs.push_back(s);
    }
    LibSig &s = sigs[r.below((int)sigs.size())];
    // bind
    std::vector<EP> actual;
    for (int i = 0; i < s.nIn + s.nInOut; ++i) {
      if (s.def[i] && r.chance(50)) actual.push_back(EP());
      else if (i < s.nIn && s.mx[i]) {
        std::vector<int> w; for (int x : sc.vis) if (p.v[x].ty == s.ty[i] && p.v[x].maxSize == s.mx[i]) w.push_back(x);
        if (w.empty() && !s.def[i]) { p.n[me].type = 'E'; finish(me, sc, 'E'); return; }
        actual.push_back(w.empty() ? EP() : vref(r.pick(w)));
      } else if (i < s.nIn) {
        Ty t = s.ty[i];
        EP e = t == TB ? gBool(sc.vis, sc.refs, 1) : t == TI ? gInt(sc.vis, 1) : t == TR ? gReal(sc.vis, 1) : gStr(sc.vis, 1);
        actual.push_back(e);
      } else {
        std::vector<int> w; for (int x : sc.writable) if (p.v[x].ty == s.ty[i] && p.v[x].maxSize == s.mx[i]) w.push_back(x);
        if (w.empty() && s.def[i]) { actual.push_back(EP()); continue; }
        if (w.empty()) { p.n[me].type = 'E'; finish(me, sc, 'E'); return; }
        actual.push_back(vref(r.pick(w)));
      }
    }
    p.n[me].lib = s.name;
    std::vector<int> outerVis = sc.vis;
    mutexes(me, sc);
    // instance
    vc::Rng lr(s.seed);
    Prof lf = f; lf.maxNodes = s.budget; if (lib >= f.libNest) lf.wX = 0; lf.pMutex = 0; lf.pUseMutex = 0;
    Gen lg(p, lr, lf, "_" + s.name);
    lg.lib = lib + 1; lg.big = big;
    Scope ls; ls.inLib = true; ls.depth = std::max(1, f.maxDepth - 2);
    int root = lg.newNode('L', me);
    p.n[me].kids.push_back(root);
    p.n[root].id = s.name;
    std::vector<int> params;
    for (int i = 0; i < s.nIn + s.nInOut; ++i) {
      VarDecl d; std::ostringstream o; o << "par" << i; d.name = o.str(); d.ty = s.ty[i]; d.maxSize = s.mx[i]; d.owner = root; d.alias = true; d.target = actual[i]; d.iface = true; d.inout = i >= s.nIn;
      bool given = (bool)actual[i];
      if (!given) { R_omitted++; if (d.inout) { d.alias = false; d.init = s.def[i]; } else d.target = s.def[i]; }
      p.v.push_back(d); int vi = (int)p.v.size() - 1;
      params.push_back(vi);
      // an in-out parameter with a default may be a variable of the called node itself: not visible outside it
      if (d.inout && s.def[i]) p.n[root].vars.push_back(vi);
      else { ls.vis.push_back(vi); if (d.inout) ls.writable.push_back(vi); }
      if (given) p.n[me].alias.push_back({d.name, vi});
    }
    lg.finish(root, ls, 'L');
    nodesLeft -= (s.budget - lg.nodesLeft); R_omitted += lg.R_omitted; nested += lg.nested; if (lib) ++nested;
    bool known = false; for (auto &q : p.libs) if (q.name == s.name) known = true;
    if (!s.emitted && !known) {
      s.emitted = true;
      Lib L; L.name = s.name;
      std::string itf = ifaceXml(s);
      L.xml = "<PlexilPlan>" + lg.globals({}) + nodeXml(root, itf) + "</PlexilPlan>";
      p.libs.push_back(L);
    }
    std::vector<int> refs = sc.refs; refs.push_back(me);
    if (f.renames) refs.push_back(root);
    conds(me, outerVis, outerVis, refs);
  }

  // ---------------------------------------------------------------- XML
  std::string globals(std::vector<std::string> const &gm) {
    std::string s = "<GlobalDeclarations>";
    static const char *ST[][2] = {{"bL0", "Boolean"}, {"bL1", "Boolean"}, {"bL2", "Boolean"}, {"hiL", "Boolean"}, {"loL", "Boolean"}, {"iL0", "Integer"}, {"iL1", "Integer"}, {"rL0", "Real"}, {"sL0", "String"}};
    if (f.resExpr) for (auto &x : {"rNString", "rPInteger", "rBReal", "rFBoolean"}) s += "<StateDeclaration><Name>" + std::string(x, 2) + "</Name><Return><Name>_r</Name><Type>" + std::string(x + 2) + "</Type></Return></StateDeclaration>";
    for (auto &x : ST) s += std::string("<StateDeclaration><Name>") + x[0] + "</Name><Return><Name>_r</Name><Type>" + x[1] + "</Type></Return></StateDeclaration>";
    s += "<StateDeclaration><Name>pL</Name><Return><Name>_r</Name><Type>Integer</Type></Return><Parameter><Name>_p</Name><Type>Integer</Type></Parameter></StateDeclaration>";
    s += "<StateDeclaration><Name>pM</Name><Return><Name>_r</Name><Type>Integer</Type></Return>";
    for (int q = 0; q < 6; ++q) s += "<Parameter><Name>_p" + std::to_string(q) + "</Name><Type>Integer</Type></Parameter>";
    s += "</StateDeclaration>";
    static const char *CT[][2] = {{"cmdB", "Boolean"}, {"cmdI", "Integer"}, {"cmdR", "Real"}, {"cmdS", "String"}};
    s += "<CommandDeclaration><Name>cmd0</Name><AnyParameters/></CommandDeclaration>";
    for (auto &x : CT) s += std::string("<CommandDeclaration><Name>") + x[0] + "</Name><Return><Name>_r</Name><Type>" + x[1] + "</Type></Return><AnyParameters/></CommandDeclaration>";
    for (auto &l : sigs) {
      s += "<LibraryNodeDeclaration><Name>" + l.name + "</Name>" + ifaceXml(l) + "</LibraryNodeDeclaration>";
    }
    for (auto &m : gm) s += "<DeclareMutex><Name>" + p.mname(m) + "</Name></DeclareMutex>";
    return s + "</GlobalDeclarations>";
  }
  std::string lval(int x, EP const &ix) {
    if (ix) return "<ArrayElement><Name>" + p.v[x].name + "</Name><Index>" + xml(ix, p) + "</Index></ArrayElement>";
    if (isArr(p.v[x].ty)) return "<ArrayVariable>" + p.v[x].name + "</ArrayVariable>";
    return std::string("<") + tyTag(p.v[x].ty) + "Variable>" + p.v[x].name + "</" + tyTag(p.v[x].ty) + "Variable>";
  }
  std::string nodeXml(int me, std::string const &itf = "") {
    PN &n = p.n[me];
    p.cur = me;
    const char *TN = n.type == 'E' ? "Empty" : n.type == 'A' ? "Assignment" : n.type == 'C' ? "Command" : n.type == 'U' ? "Update" : n.type == 'L' ? "NodeList" : "LibraryNodeCall";
    std::string s = std::string("<Node NodeType=\"") + TN + "\"><NodeId>" + n.id + "</NodeId>";
    for (int c = 0; c < NCOND; ++c) if (n.cond[c]) s += std::string("<") + condTag(c) + ">" + xml(n.cond[c], p) + "</" + condTag(c) + ">";
    if (n.hasPrio) { std::ostringstream o; o << n.prio; s += "<Priority>" + o.str() + "</Priority>"; }
    s += itf;
    {
      std::string in, io;
      for (int x : n.ifIn) in += declXml(p.v[x].name, p.v[x].ty, p.v[x].maxSize, EP());
      for (int x : n.ifInOut) io += declXml(p.v[x].name, p.v[x].ty, p.v[x].maxSize, EP());
      if (itf.empty()) for (int x : n.vars) if (p.v[x].iface && !p.v[x].alias) io += declXml(p.v[x].name, p.v[x].ty, p.v[x].maxSize, p.v[x].init);
      if (!in.empty() || !io.empty()) s += "<Interface>" + (in.empty() ? in : "<In>" + in + "</In>") + (io.empty() ? io : "<InOut>" + io + "</InOut>") + "</Interface>";
    }
    if (!n.mutexUse.empty()) { s += "<UsingMutex>"; for (auto &m : n.mutexUseName) s += "<Name>" + p.mname(m) + "</Name>"; s += "</UsingMutex>"; }
    bool decl = !n.mutexDecl.empty();
    for (int x : n.vars) if (!p.v[x].alias && !p.v[x].iface) decl = true;
    if (decl) {
      s += "<VariableDeclarations>";
      for (int x : n.vars) {
        VarDecl &d = p.v[x]; if (d.alias || d.iface) continue;
        s += declXml(d.name, d.ty, d.maxSize, d.init);
      }
      for (auto &m : n.mutexDecl) s += "<DeclareMutex><Name>" + p.mname(m) + "</Name></DeclareMutex>";
      s += "</VariableDeclarations>";
    }
    if (n.type == 'A') {
      s += "<NodeBody><Assignment>" + lval(n.lhs, n.lhsIx);
      Ty t = n.lhsIx ? elTy(p.v[n.lhs].ty) : p.v[n.lhs].ty;
      const char *R = isArr(t) ? "ArrayRHS" : t == TB ? "BooleanRHS" : t == TS ? "StringRHS" : "NumericRHS";
      s += std::string("<") + R + ">" + xml(n.rhs, p) + "</" + R + "></Assignment></NodeBody>";
    } else if (n.type == 'C') {
      s += "<NodeBody><Command>";
      if (!n.res.empty()) {
        s += "<ResourceList>";
        for (auto &q : n.res) {
          std::ostringstream o; o << q.prio; char b[32]; snprintf(b, sizeof b, "%.17g", q.bound);
          s += "<Resource><ResourceName>" + (q.nameE ? xml(q.nameE, p) : "<StringValue>" + q.name + "</StringValue>") + "</ResourceName><ResourcePriority>" + (q.prioE ? xml(q.prioE, p) : "<IntegerValue>" + o.str() + "</IntegerValue>") +
               "</ResourcePriority><ResourceUpperBound>" + (q.boundE ? xml(q.boundE, p) : std::string("<RealValue>") + b + "</RealValue>") + "</ResourceUpperBound>";
          if (q.hasRel) s += "<ResourceReleaseAtTermination>" + (q.relE ? xml(q.relE, p) : std::string("<BooleanValue>") + (q.rel ? "true" : "false") + "</BooleanValue>") + "</ResourceReleaseAtTermination>";
          s += "</Resource>";
        }
        s += "</ResourceList>";
      }
      if (n.dest >= 0) s += lval(n.dest, n.destIx);
      s += "<Name>" + xml(n.cname, p) + "</Name>";
      if (!n.args.empty()) { s += "<Arguments>"; for (auto &a : n.args) s += xml(a, p); s += "</Arguments>"; }
      s += "</Command></NodeBody>";
    } else if (n.type == 'U') {
      s += "<NodeBody><Update>";
      for (auto &q : n.pairs) s += "<Pair><Name>" + q.first + "</Name>" + xml(q.second, p) + "</Pair>";
      s += "</Update></NodeBody>";
    } else if (n.type == 'L') {
      s += "<NodeBody><NodeList>";
      for (int k : n.kids) s += nodeXml(k);
      p.cur = me;
      s += "</NodeList></NodeBody>";
    } else if (n.type == 'X') {
      s += "<NodeBody><LibraryNodeCall><NodeId>" + n.lib + "</NodeId>";
      for (auto &a : n.alias) s += "<Alias><NodeParameter>" + a.first + "</NodeParameter>" + xml(p.v[a.second].target, p) + "</Alias>";
      s += "</LibraryNodeCall></NodeBody>";
    }
    return s + "</Node>";
  }

  // ---------------------------------------------------------------- names
  // Give variables, nodes and mutexes names that others have, as long as every use still denotes the
  // innermost declaration visible from the node it is written in.
  bool inLibrary(int u) const { for (int q = p.n[u].parent; q >= 0; q = p.n[q].parent) if (p.n[q].type == 'X') return true; return false; }
  void walk(EP const &e, std::function<void(Expr const &)> const &fn) { if (!e) return; fn(*e); for (auto &x : e->a) walk(x, fn); }
  void uses(int u, std::function<void(int)> var, std::function<void(int)> node) {
    PN &n = p.n[u];
    auto fn = [&](Expr const &e) { if (e.op == VAR || e.op == AREF) var(e.var); if (e.op == NSTATE || e.op == NOUTCOME || e.op == NFAIL || e.op == NHANDLE || e.op == NFUNC || e.op == TIMECMP) node(e.node); };
    for (auto &c : n.cond) walk(c, fn);
    for (int x : n.vars) walk(p.v[x].init, fn);
    if (n.lhs >= 0) var(n.lhs);
    if (n.dest >= 0) var(n.dest);
    for (auto &e : {n.lhsIx, n.rhs, n.cname, n.destIx}) walk(e, fn);
    for (auto &e : n.args) walk(e, fn);
    for (auto &q : n.res) for (auto &e : {q.nameE, q.prioE, q.boundE, q.relE}) walk(e, fn);
    for (auto &q : n.pairs) walk(q.second, fn);
    for (auto &q : n.alias) walk(p.v[q.second].target, fn);
    for (int x : n.ifIn) { if (n.parent >= 0) outerUse.push_back({n.parent, x}); }
    for (int x : n.ifInOut) { if (n.parent >= 0) outerUse.push_back({n.parent, x}); }
  }
  std::vector<std::pair<int, int>> outerUse;
  int resolveVar(int u, std::string const &name) const {
    for (; u >= 0; u = p.n[u].parent) {
      for (int x : p.n[u].vars) if (p.v[x].name == name) return x;
      for (int x : p.n[u].ifIn) if (p.v[x].name == name) return x;
    }
    return -1;
  }
  int resolveNode(int u, std::string const &name) const {
    for (; u >= 0; u = p.n[u].parent) {
      if (p.n[u].id == name) return u;
      for (int k : p.n[u].kids) if (p.n[k].id == name) return k;
    }
    return -1;
  }
  std::string resolveMutex(int u, std::string const &name) const {
    for (; u >= 0; u = p.n[u].parent) for (auto &m : p.n[u].mutexDecl) if (p.mname(m) == name) return m;
    for (auto &m : p.globalMutexes) if (p.mname(m) == name) return m;
    return "";
  }
  int renamed = 0;
  void rename(int from) {
    struct Use { int u, x; };
    std::vector<Use> vu, nu; std::vector<std::pair<int, std::string>> mu;
    std::vector<int> nodes, vars; std::vector<std::string> pool, ids, mpool, mutexesHere;
    outerUse.clear();
    for (int u = from; u < (int)p.n.size(); ++u) {
      if (inLibrary(u)) { for (int x : p.n[u].vars) pool.push_back(p.v[x].name); continue; }
      nodes.push_back(u);
      uses(u, [&](int x) { vu.push_back({u, x}); }, [&](int x) { nu.push_back({u, x}); });
      for (auto &m : p.n[u].mutexUse) mu.push_back({u, m});
      for (int x : p.n[u].vars) { vars.push_back(x); pool.push_back(p.v[x].name); }
      for (auto &m : p.n[u].mutexDecl) { mpool.push_back(m); mutexesHere.push_back(m); }
      if (p.n[u].parent >= 0) ids.push_back(p.n[u].id);
    }
    for (auto &q : outerUse) vu.push_back({q.first, q.second});
    for (auto &s : sigs) for (size_t i = 0; i < s.ty.size(); ++i) pool.push_back("par" + std::to_string(i));
    for (auto &m : p.globalMutexes) mpool.push_back(m);
    auto okVars = [&] {
      for (int u : nodes) { std::set<std::string> s; for (int x : p.n[u].vars) if (!s.insert(p.v[x].name).second) return false; for (auto *l : {&p.n[u].ifIn, &p.n[u].ifInOut}) for (int x : *l) if (!s.insert(p.v[x].name).second) return false; }
      for (auto &q : vu) if (resolveVar(q.u, p.v[q.x].name) != q.x) return false;
      // an interface variable is the surrounding one of its name; its own value is for when there is none
      for (int x : vars) if (p.v[x].iface && p.n[p.v[x].owner].parent >= 0 && resolveVar(p.n[p.v[x].owner].parent, p.v[x].name) >= 0) return false;
      return true;
    };
    auto okNodes = [&] {
      for (int u : nodes) { std::set<std::string> s; if (p.n[u].type == 'L') for (int k : p.n[u].kids) if (!s.insert(p.n[k].id).second) return false; }
      for (auto &q : nu) if (resolveNode(q.u, p.n[q.x].id) != q.x) return false;
      return true;
    };
    auto okMutexes = [&] {
      for (int u : nodes) { std::set<std::string> s; for (auto &m : p.n[u].mutexDecl) if (!s.insert(p.mname(m)).second) return false; s.clear(); for (auto &m : p.n[u].mutexUse) if (!s.insert(p.mname(m)).second) return false; }
      for (auto &q : mu) if (resolveMutex(q.first, p.mname(q.second)) != q.second) return false;
      return true;
    };
    if (!okVars() || !okNodes() || !okMutexes()) return;
    for (int i = 0; i < f.renames; ++i) {
      int k = r.below(10);
      if (k < 5 && !vars.empty()) { int x = r.pick(vars); std::string old = p.v[x].name; p.v[x].name = r.pick(pool); if (p.v[x].name != old) { if (okVars()) ++renamed; else p.v[x].name = old; } }
      else if (k < 8 && !ids.empty()) { int u = r.pick(nodes); if (p.n[u].parent < 0) continue; std::string old = p.n[u].id; p.n[u].id = r.pick(ids); if (p.n[u].id != old) { if (okNodes()) ++renamed; else p.n[u].id = old; } }
      else if (!mutexesHere.empty()) { std::string m = r.pick(mutexesHere), old = p.mname(m); p.mutexName[m] = p.mname(r.pick(mpool)); if (p.mname(m) != old) { if (okMutexes()) ++renamed; else p.mutexName[m] = old; } }
    }
  }

  void run() {
    p.dirs = f.renames > 0;
    big = r.chance(f.pBig);
    int k = 1 + (r.chance(f.pSecondRoot) ? 1 : 0);
    if (f.pMutex && r.chance(40)) { p.globalMutexes.push_back(nm("g") + tag); if (r.chance(30)) p.globalMutexes.push_back(nm("g") + tag); }
    for (int i = 0; i < k; ++i) {
      if (i) nodesLeft = std::max(3, f.maxNodes / 2);
      Scope sc;
      for (auto &m : p.globalMutexes) sc.mutexes.push_back({m, m});
      sigs.clear();
      int before = (int)p.n.size();
      int root = build(-1, sc);
      if (f.renames) rename(before);
      p.roots.push_back(root);
      p.rootXml.push_back("<PlexilPlan>" + globals(p.globalMutexes) + nodeXml(root) + "</PlexilPlan>");
    }
  }
};
} // namespace pgen
#endif
