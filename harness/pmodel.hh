// Reference model of the executive: given the plan and the observed history it
// predicts which transitions are enabled and what side effects must follow.
#ifndef PMODEL_HH
#define PMODEL_HH
#include "pgen.hh"
#include <algorithm>
#include <deque>

namespace pmodel {
using namespace pgen;
enum { INACTIVE = 1, WAITING, EXECUTING, ITER, FINISHED, FAILING, FINISHING };
enum { NOOUT = 16, SUCCESS, FAILURE, SKIPPED, INTERRUPTED };
enum { NOFAIL = 32, FPRE, FPOST, FINV, FPARENT, FEXITED, FPEXITED };
enum { H_NONE = 48, H_SENT, H_ACC, H_RCVD, H_FAILED, H_DENIED, H_SUCCESS, H_ABORTED, H_ABFAIL, H_IFERR };

struct Dest { int st = 0, out = NOOUT, fail = NOFAIL; bool setOut = false; };

struct Eff { bool noTarget = false;
  int node;
  int lhs = -1; long ix = -1; V val;              // assignment
  std::string name; std::vector<V> args;          // command
  std::vector<std::pair<std::string, V>> pairs;   // update
};

struct RT {
  int st = INACTIVE, out = NOOUT, fail = NOFAIL;
  bool ack = false, abDone = false;     // assignment ack / command abort complete / update ack
  bool cmdActive = false; int handle = H_NONE;
  bool ackActive = false;
  V saved; long ix = -1; bool noTarget = false;                // assignment
  std::map<std::string, double> alloc; bool hasAlloc = false;
  std::vector<Res> res;                 // as evaluated when the command began
  std::map<std::pair<int, int>, double> tp;
  int activations = 0;
};

struct Model : Ctx {
  Plan &p;
  std::vector<RT> rt;
  std::vector<V> val;
  std::vector<char> act;
  std::map<std::string, V> *world;
  double now = 0;
  std::deque<Eff> assigns, retracts, cmds, aborts, updates;
  std::map<std::string, int> held;
  // resources
  std::map<std::string, double> allocated;
  std::map<std::string, double> resMax;
  std::map<std::string, std::vector<std::pair<double, std::string>>> resKids;

  explicit Model(Plan &pl) : p(pl), rt(pl.n.size()), val(pl.v.size()), act(pl.v.size(), 0) {}

  // ---- Ctx
  V varValue(int x) override {
    if (p.v[x].alias) return eval(p.v[x].target, *this);
    return act[x] ? val[x] : V();
  }
  static std::string key(std::string const &n, std::vector<V> const &a) {
    std::string k = n;
    for (auto &x : a) k += "|" + x.str();
    return k;
  }
  V lookup(std::string const &n, std::vector<V> const &a) override {
    for (auto &x : a) if (!x.known()) return V();
    auto it = world->find(key(n, a));
    return it == world->end() ? V() : it->second;
  }
  int nodeState(int n) override { return rt[n].st; }
  int nodeOutcome(int n) override { return rt[n].out == NOOUT ? 0 : rt[n].out; }
  int nodeFailure(int n) override { return rt[n].fail == NOFAIL ? 0 : rt[n].fail; }
  int nodeHandle(int n) override { return rt[n].handle == H_NONE ? 0 : rt[n].handle; }
  V timepoint(int n, int s, int e) override {
    auto it = rt[n].tp.find({s, e});
    return it == rt[n].tp.end() ? V() : V::re(it->second);
  }
  std::vector<int> const &children(int n) override { return p.n[n].kids; }

  // ---- conditions
  V cond(int n, int c) { return p.n[n].cond[c] ? eval(p.n[n].cond[c], *this) : V(); }
  bool condT(int n, int c) { return p.n[n].cond[c] && cond(n, c).isT(); }
  bool condF(int n, int c) { return p.n[n].cond[c] && cond(n, c).isF(); }
  bool ancExit(int n) { for (int a = p.n[n].parent; a >= 0; a = p.n[a].parent) if (condT(a, CEXIT)) return true; return false; }
  bool ancInvF(int n) { for (int a = p.n[n].parent; a >= 0; a = p.n[a].parent) if (condF(a, CINV)) return true; return false; }
  bool ancEnd(int n) { for (int a = p.n[n].parent; a >= 0; a = p.n[a].parent) if (condT(a, CEND)) return true; return false; }
  bool exitT(int n) { return condT(n, CEXIT); }
  bool invF(int n) { return condF(n, CINV); }
  bool preOk(int n) { return !p.n[n].cond[CPRE] || cond(n, CPRE).isT(); }
  bool postOk(int n) { return !p.n[n].cond[CPOST] || cond(n, CPOST).isT(); }
  bool startOk(int n) { return !p.n[n].cond[CSTART] || cond(n, CSTART).isT(); }
  bool kidsAll(int n, bool waitOk) {
    for (int k : p.n[n].kids) if (rt[k].st != FINISHED && !(waitOk && rt[k].st == WAITING)) return false;
    return true;
  }
  bool endOk(int n) {
    PN &q = p.n[n];
    bool user = !q.cond[CEND] || cond(n, CEND).isT();
    switch (q.type) {
    case 'E': return user;
    case 'A': return user;
    case 'U': return rt[n].ack && user;
    case 'L': case 'X': return q.cond[CEND] ? user : kidsAll(n, false);
    case 'C': {
      int h = rt[n].handle;
      if (h == H_DENIED || h == H_FAILED || h == H_IFERR) return true;
      return user;
    }
    }
    return false;
  }
  static Dest mkd(int st) { Dest d; d.st = st; return d; }
  static Dest mkd(int st, int o, int f) { Dest d; d.st = st; d.out = o; d.fail = f; d.setOut = true; return d; }
  Dest postDest(int n) { return postOk(n) ? mkd(ITER, SUCCESS, NOFAIL) : mkd(ITER, FAILURE, FPOST); }

  bool dest(int n, Dest &d) {
    PN &q = p.n[n];
    RT &r = rt[n];
    int ps = q.parent >= 0 ? rt[q.parent].st : 0;
    switch (r.st) {
    case INACTIVE:
      if (q.parent < 0) { d = mkd(WAITING); return true; }
      if (ps == FINISHED) { d = mkd(FINISHED, SKIPPED, NOFAIL); return true; }
      if (ps == EXECUTING) {
        if (ancExit(n) || ancInvF(n) || ancEnd(n)) d = mkd(FINISHED, SKIPPED, NOFAIL);
        else d = mkd(WAITING);
        return true;
      }
      return false;
    case WAITING:
      if (ancExit(n) || exitT(n) || ancInvF(n) || ancEnd(n) || condT(n, CSKIP)) { d = mkd(FINISHED, SKIPPED, NOFAIL); return true; }
      if (!startOk(n)) return false;
      if (!preOk(n)) { d = mkd(ITER, FAILURE, FPRE); return true; }
      d = mkd(EXECUTING);
      return true;
    case EXECUTING: return destExec(n, d);
    case FINISHING:
      if (q.type == 'C') {
        if (ancExit(n)) { d = mkd(FAILING, INTERRUPTED, FPEXITED); return true; }
        if (exitT(n)) { d = mkd(FAILING, INTERRUPTED, FEXITED); return true; }
        if (ancInvF(n)) { d = mkd(FAILING, FAILURE, FPARENT); return true; }
        if (invF(n)) { d = mkd(FAILING, FAILURE, FINV); return true; }
        if (r.handle != H_NONE) { d = postDest(n); return true; }
        return false;
      }
      // list
      if (ancExit(n)) { d = mkd(FAILING, INTERRUPTED, FPEXITED); return true; }
      if (exitT(n)) { d = mkd(FAILING, INTERRUPTED, FEXITED); return true; }
      if (ancInvF(n)) { d = mkd(FAILING, FAILURE, FPARENT); return true; }
      if (invF(n)) { d = mkd(FAILING, FAILURE, FINV); return true; }
      if (kidsAll(n, true)) { d = postDest(n); return true; }
      return false;
    case FAILING: {
      bool done = false;
      if (q.type == 'A' || q.type == 'C') done = r.abDone;
      else if (q.type == 'U') done = r.ack;
      else done = kidsAll(n, true);
      if (!done) return false;
      d = mkd((r.fail == FPARENT || r.fail == FPEXITED) ? FINISHED : ITER);
      return true;
    }
    case ITER:
      if (ancExit(n)) { d = mkd(FINISHED, INTERRUPTED, FPEXITED); return true; }
      if (ancInvF(n)) { d = mkd(FINISHED, FAILURE, FPARENT); return true; }
      if (ancEnd(n)) { d = mkd(FINISHED); return true; }
      if (q.cond[CREP]) {
        V v = cond(n, CREP);
        if (!v.known()) return false;
        if (v.i) { d = mkd(WAITING, NOOUT, NOFAIL); return true; }
      }
      d = mkd(FINISHED);
      return true;
    case FINISHED:
      if (q.parent >= 0 && ps == WAITING) { d = mkd(INACTIVE, NOOUT, NOFAIL); return true; }
      return false;
    }
    return false;
  }
  bool destExec(int n, Dest &d) {
    PN &q = p.n[n];
    RT &r = rt[n];
    bool empty = q.type == 'E';
    if (q.type == 'A' && !r.ack) return false;
    if (ancExit(n)) { d = mkd(empty ? FINISHED : FAILING, INTERRUPTED, FPEXITED); return true; }
    if (exitT(n)) { d = mkd(empty ? ITER : FAILING, INTERRUPTED, FEXITED); return true; }
    if (ancInvF(n)) { d = mkd(empty ? FINISHED : FAILING, FAILURE, FPARENT); return true; }
    if (invF(n)) { d = mkd(empty ? ITER : FAILING, FAILURE, FINV); return true; }
    if (!endOk(n)) return false;
    if (q.type == 'C' || q.type == 'L' || q.type == 'X') { d = mkd(FINISHING); return true; }
    d = postDest(n);
    return true;
  }
  int base(int x) { while (p.v[x].alias) { EP t = p.v[x].target; if (t->op != VAR) return -1; x = t->var; } return x; }
  std::vector<std::string> resources(int n) {
    std::vector<std::string> v;
    for (auto &m : p.n[n].mutexUse) v.push_back("m:" + m);
    if (p.n[n].type == 'A') { std::ostringstream o; o << "v:" << base(p.n[n].lhs); v.push_back(o.str()); }
    return v;
  }
  bool acquires(int n) { return p.n[n].type == 'A' || !p.n[n].mutexUse.empty(); }

  // ---- transition application
  static bool executable(int s) { return s == EXECUTING || s == FAILING || s == FINISHING; }
  void setVar(int x, long ix, V const &v) {
    if (!act[x]) return;
    if (ix >= 0) { if (val[x].known() && ix < (long)val[x].a.size()) val[x].a[ix] = v; }
    else {
      val[x] = v;
      if (isArr(p.v[x].ty) && v.known() && (int)v.a.size() < p.v[x].maxSize) val[x].a.resize(p.v[x].maxSize);
    }
  }
  V getVar(int x, long ix) {
    if (ix < 0) return val[x];
    if (!val[x].known() || ix >= (long)val[x].a.size()) return V();
    return val[x].a[ix];
  }
  void apply(int n, Dest const &d) {
    PN &q = p.n[n];
    RT &r = rt[n];
    int old = r.st;
    if (d.st == INACTIVE) r.tp.clear();
    r.tp[{old, 1}] = now;
    r.tp[{d.st, 0}] = now;
    r.st = d.st;
    if (d.setOut) { r.out = d.out; r.fail = d.fail; }
    if (!executable(old) && d.st == EXECUTING) {
      for (auto &s : resources(n)) held[s] = n;
      ++r.activations;
      for (int x : q.vars) {
        if (p.v[x].alias) continue;
        V v;
        if (p.v[x].init) v = eval(p.v[x].init, *this);
        if (isArr(p.v[x].ty)) {
          if (!v.known()) v = V::ar({});
          if ((int)v.a.size() < p.v[x].maxSize) v.a.resize(p.v[x].maxSize);
        }
        act[x] = 1;
        val[x] = v;
      }
      if (q.type == 'A') {
        Eff e; e.node = n; e.lhs = base(q.lhs);
        if (q.lhsIx) { V i = eval(q.lhsIx, *this); e.ix = i.known() ? i.i : 1000000; }
        e.val = eval(q.rhs, *this);
        // an element of an array that is unknown, or at an unknown index, is no place: nothing is written, and nothing taken back
        e.noTarget = r.noTarget = e.lhs >= 0 && e.ix >= 0 && (!val[e.lhs].known() || e.ix >= (long)val[e.lhs].a.size());
        r.ix = e.ix; r.saved = getVar(e.lhs, e.ix); r.ack = false; r.abDone = false;
        assigns.push_back(e);
      } else if (q.type == 'C') {
        Eff e; e.node = n; e.name = eval(q.cname, *this).s;
        r.cmdActive = true; r.handle = H_NONE; r.abDone = false;
        for (auto &a : q.args) e.args.push_back(eval(a, *this));
        r.res = q.res;
        for (auto &z : r.res) {
          if (z.nameE) z.name = eval(z.nameE, *this).s;
          if (z.prioE) z.prio = eval(z.prioE, *this).i;
          if (z.boundE) z.bound = eval(z.boundE, *this).d;
          if (z.relE) z.rel = eval(z.relE, *this).i != 0;
        }
        cmds.push_back(e);
      } else if (q.type == 'U') {
        Eff e; e.node = n;
        for (auto &a : q.pairs) e.pairs.push_back({a.first, eval(a.second, *this)});
        r.ack = false; r.ackActive = true;
        updates.push_back(e);
      }
    }
    if (d.st == FAILING) {
      if (q.type == 'A') { Eff e; e.node = n; e.lhs = base(q.lhs); e.ix = r.ix; e.val = r.saved; e.noTarget = r.noTarget; r.abDone = false; retracts.push_back(e); }
      if (q.type == 'C') { Eff e; e.node = n; aborts.push_back(e); }
    }
    if (executable(old) && !executable(d.st)) {
      for (auto &s : resources(n)) { auto it = held.find(s); if (it != held.end() && it->second == n) held.erase(it); }
      for (int x : q.vars) if (!p.v[x].alias) { act[x] = 0; val[x] = V(); }
      if (q.type == 'C') {
        r.cmdActive = false;
        releaseRes(n);
      }
      if (q.type == 'U') r.ackActive = false;
    }
  }
  void releaseRes(int n) {
    RT &r = rt[n];
    if (!r.hasAlloc) return;
    bool any = false;
    for (auto &s : r.alloc) if (relOf(n, s.first)) { allocated[s.first] -= s.second; any = true; }
    (void)any;
    r.alloc.clear(); r.hasAlloc = false;
  }
  std::map<std::pair<int, std::string>, bool> relMap;
  bool relOf(int n, std::string const &s) { auto it = relMap.find({n, s}); return it == relMap.end() ? true : it->second; }
  void flat(int n, std::string const &name, double w, bool rel, std::map<std::string, double> &out) {
    out[name] = w;
    relMap[{n, name}] = rel;
    for (auto &k : resKids[name]) flat(n, k.second, k.first, rel, out);
  }
  // Arbitration of the commands issued by one step.
  void arbitrate(std::vector<Eff> &acc, std::vector<Eff> &rej) {
    struct C { Eff e; std::map<std::string, double> w; int prio; };
    std::vector<C> cs;
    for (auto &e : cmds) {
      if (rt[e.node].res.empty()) { acc.push_back(e); continue; }
      C c; c.e = e; c.prio = rt[e.node].res[0].prio;
      for (auto &q : rt[e.node].res) flat(e.node, q.name, q.bound, q.rel, c.w);
      cs.push_back(c);
    }
    cmds.clear();
    std::stable_sort(cs.begin(), cs.end(), [](C const &a, C const &b) { return a.prio < b.prio; });
    std::map<std::string, double> pos, neg;
    for (auto &c : cs) for (auto &w : c.w) { pos[w.first] = allocated[w.first]; neg[w.first] = allocated[w.first]; }
    for (auto &c : cs) {
      auto sp = pos, sn = neg;
      bool bad = false;
      for (auto &w : c.w) {
        (w.second < 0 ? neg : pos)[w.first] += w.second;
        double mx = resMax.count(w.first) ? resMax[w.first] : 1.0;
        if (neg[w.first] < 0 || neg[w.first] > mx || pos[w.first] < 0 || pos[w.first] > mx) bad = true;
      }
      if (bad) { pos = sp; neg = sn; rej.push_back(c.e); continue; }
      acc.push_back(c.e);
      rt[c.e.node].alloc = c.w; rt[c.e.node].hasAlloc = true;
      for (auto &w : c.w) allocated[w.first] += w.second;
    }
  }
  bool effects() const { return !assigns.empty() || !retracts.empty() || !cmds.empty() || !aborts.empty(); }
};
} // namespace pmodel
#endif
