// C23: messages. The real message adapter in a real application: transports (the harness) deliver
// random messages, plans take them with GetMessageHandle, look at them and release them. In plan mode
// one thread does everything and every message lookup is compared with a model after each operation,
// standing lookups and fresh ones. In race mode several transport threads deliver while the executive
// runs in its own and consumer plans take every message; what they saw is compared with what was sent.
#include "vcommon.hh"
#include "plexil-config.h"
#include "AdapterConfiguration.hh"
#include "AdapterExecInterface.hh"
#include "AdapterFactory.hh"
#include "ArrayImpl.hh"
#include "Command.hh"
#include "createExpression.hh"
#include "Error.hh"
#include "ExecApplication.hh"
#include "Expression.hh"
#include "InterfaceAdapter.hh"
#include "InterfaceManager.hh"
#include "MessageAdapter.hh"
#include "NodeConnector.hh"
#include "ParserException.hh"
#include "State.hh"
#include "Timebase.hh"
#include "Value.hh"
#include "lifecycle-utils.h"
#include <pugixml.hpp>
#include <algorithm>
#include <atomic>
#include <cmath>
#include <deque>
#include <functional>
#include <iostream>
#include <memory>
#include <mutex>
#include <thread>
#include <unistd.h>
using namespace PLEXIL;
using vc::Rng;
static vc::Report R;
static std::string num(long n) { return std::to_string(n); }
static void viol(std::string const &k, std::string const &m) { R.viol(k, m); }
static std::string show(Value const &v) { return v.isKnown() ? v.valueToString() : "unknown"; }
static bool same(Value const &a, Value const &b) {
  if (a.isKnown() != b.isKnown()) return false;
  if (!a.isKnown()) return true;
  return a.valueType() == b.valueType() && a == b;
}
static std::string esc(std::string const &s) {
  std::string o;
  for (char c : s) switch (c) {
    case '<': o += "&lt;"; break; case '>': o += "&gt;"; break; case '&': o += "&amp;"; break;
    case '\n': o += "&#10;"; break; case '\r': o += "&#13;"; break; case '\t': o += "&#9;"; break;
    default: o += c; }
  return o;
}
static std::string str(std::string const &s) { return "<StringValue>" + esc(s) + "</StringValue>"; }
static std::string integer(long i) { return "<IntegerValue>" + num(i) + "</IntegerValue>"; }
static std::string lookup(std::string const &name, std::string const &args, bool onChange) {
  std::string L = onChange ? "LookupOnChange" : "LookupNow";
  return "<" + L + "><Name>" + str(name) + "</Name>" + (args.empty() ? "" : "<Arguments>" + args + "</Arguments>") + "</" + L + ">";
}
static std::string cmdNode(std::string const &id, std::string const &name, std::string const &args, std::string const &extra = "", std::string const &ret = "") {
  return "<Node NodeType=\"Command\"><NodeId>" + id + "</NodeId>" + extra + "<NodeBody><Command>" + (ret.empty() ? "" : "<StringVariable>" + ret + "</StringVariable>") +
         "<Name>" + str(name) + "</Name>" + (args.empty() ? "" : "<Arguments>" + args + "</Arguments>") + "</Command></NodeBody></Node>";
}
static std::string finished(std::string const &id) {
  return "<EQInternal><NodeStateVariable><NodeRef dir=\"sibling\">" + id + "</NodeRef></NodeStateVariable><NodeStateValue>FINISHED</NodeStateValue></EQInternal>";
}
static std::string handleIs(std::string const &id, std::string const &h) {
  return "<EQInternal><NodeCommandHandleVariable><NodeRef dir=\"sibling\">" + id + "</NodeRef></NodeCommandHandleVariable><NodeCommandHandleValue>" + h + "</NodeCommandHandleValue></EQInternal>";
}
static std::string report(std::string const &c, int k, std::string const &ret) {
  std::string sc = "<StartCondition>" + finished(c) + "</StartCondition>";
  return cmdNode("S" + c, "reportS", integer(k) + (ret.empty() ? "" : "<StringVariable>" + ret + "</StringVariable>"),
                 sc + "<SkipCondition><AND>" + finished(c) + "<NOT>" + handleIs(c, "COMMAND_SUCCESS") + "</NOT></AND></SkipCondition>") +
         cmdNode("F" + c, "reportF", integer(k), sc + "<SkipCondition><AND>" + finished(c) + "<NOT>" + handleIs(c, "COMMAND_FAILED") + "</NOT></AND></SkipCondition>");
}
static std::string planOf(std::string const &id, std::string const &decls, std::string const &kids, std::string const &conds = "") {
  return "<PlexilPlan><Node NodeType=\"NodeList\"><NodeId>" + id + "</NodeId>" + conds + (decls.empty() ? "" : "<VariableDeclarations>" + decls + "</VariableDeclarations>") +
         "<NodeBody><NodeList>" + kids + "</NodeList></NodeBody></Node></PlexilPlan>";
}
static std::string declStr(std::string const &v) { return "<DeclareVariable><Name>" + v + "</Name><Type>String</Type></DeclareVariable>"; }

struct Msg { std::string text, sender; std::vector<Value> p; double t0, t1; };
static Value genValue(Rng &r) {
  switch (r.below(9)) {
  case 0: return Value((Integer)r.range(-3, 100));
  case 1: return Value(r.unit() * 10 - 5);
  case 2: return Value(r.chance(50));
  case 3: return Value(std::string(r.chance(30) ? "" : "text"));
  case 4: return Value();
  case 5: { ArrayImpl<Integer> a(r.range(0, 4)); for (size_t i = 0; i < a.size(); ++i) if (r.chance(70)) a.setElement(i, (Integer)r.range(0, 9)); return Value(a); }
  case 6: { ArrayImpl<Real> a(r.range(1, 3)); for (size_t i = 0; i < a.size(); ++i) if (r.chance(70)) a.setElement(i, (Real)r.unit()); return Value(a); }
  case 7: { ArrayImpl<String> a(r.range(1, 3)); for (size_t i = 0; i < a.size(); ++i) if (r.chance(70)) a.setElement(i, String("e")); return Value(a); }
  default: { ArrayImpl<Boolean> a(r.range(1, 3)); for (size_t i = 0; i < a.size(); ++i) if (r.chance(70)) a.setElement(i, (Boolean)r.chance(50)); return Value(a); }
  }
}
struct App {
  std::unique_ptr<ExecApplication> app;
  std::unique_ptr<InterfaceAdapter> adapter;
  MessageAdapter *ma = nullptr;
  bool up(bool early, std::function<void(App &)> before, CommandHandler *) { (void)early; (void)before; return true; }
  bool start(std::function<void(Command *, AdapterExecInterface *)> h, std::function<void()> before) {
    app.reset(makeExecApplication());
    pugi::xml_document cfg, ax;
    app->configuration();
    if (!app->initialize(cfg.append_child("Interfaces"))) { viol("internal", "initialize failed"); return false; }
    auto x = ax.append_child("Adapter");
    x.append_attribute("AdapterType").set_value("Message");
    adapter.reset(AdapterFactory::createInstance(x, *app->manager()));
    if (!adapter || !adapter->initialize(app->configuration())) { viol("internal", "no message adapter"); return false; }
    ma = dynamic_cast<MessageAdapter *>(adapter.get());
    if (!ma) { viol("internal", "the message adapter takes no messages"); return false; }
    app->configuration()->setDefaultCommandHandlerFunction(h);
    before();
    if (!app->startInterfaces() || !adapter->start()) { viol("internal", "startInterfaces failed"); return false; }
    return true;
  }
  bool add(std::string const &xml) {
    pugi::xml_document d;
    if (!d.load_string(xml.c_str(), pugi::parse_default | pugi::parse_ws_pcdata_single)) { viol("internal", "bad plan text " + xml); return false; }
    try { app->manager()->handleAddPlan(d.document_element()); }
    catch (ParserException const &e) { viol("internal", std::string("plan refused: ") + e.what() + xml); return false; }
    app->manager()->notifyOfExternalEvent();
    return true;
  }
};

// ---------------------------------------------------------------- plan mode
struct Case {
  Rng r; int no; App A;
  struct Held { Msg m; bool live; };
  std::deque<Msg> q;
  std::map<std::string, Held> held;       // by handle
  std::vector<std::string> handles;
  struct Watch { std::string name, handle; int idx; Expression *e; bool del; };
  std::vector<Watch> ws;
  std::vector<std::pair<int, Value>> ok; std::vector<int> failed, seen;
  std::map<int, std::string> waiters; std::set<int> sat;
  int rep = 0, plan = 0; bool bad = false; uint64_t h = 0;
  std::string what;
  Case(Rng q0, int n) : r(q0), no(n) {}
  void fail(std::string const &k, std::string const &m) { viol(k, m + " [" + what + "]"); bad = true; }
  void settle() { for (int i = 0; i < 12; ++i) A.app->runExec(); }
  Watch mk(std::string const &name, std::string const &handle, int idx, bool onChange) {
    pugi::xml_document d;
    d.load_string(lookup(name, handle.empty() ? "" : str(handle) + (idx >= 0 ? integer(idx) : ""), onChange).c_str(), pugi::parse_default | pugi::parse_ws_pcdata_single);
    NodeConnector *c = nullptr; bool del = false;
    Expression *e = createExpression(d.document_element(), c, del);
    e->activate();
    return Watch{name, handle, idx, e, del};
  }
  void drop(Watch &w) { w.e->deactivate(); if (w.del) delete w.e; }
  void compare(Watch &w, const char *how) {
    Value got = w.e->toValue(), want;
    R.add("lookups");
    if (w.handle.empty()) {
      if (w.name == "HaveMessage") want = Value(!q.empty());
      else if (w.name == "PeekAtMessage") want = q.empty() ? Value() : Value(q.front().text);
      else want = q.empty() || q.front().sender.empty() ? Value() : Value(q.front().sender);
    } else {
      auto it = held.find(w.handle);
      bool live = it != held.end() && it->second.live;
      if (w.name == "MessageArrived") {
        double t = 0;
        if (!live) { if (got.isKnown()) fail("lookup", "MessageArrived of no message is known"); return; }
        if (!got.getValue(t) || t < it->second.m.t0 - 0.001 || t > it->second.m.t1 + 0.001) fail("lookup", "MessageArrived(" + w.handle + ") is " + show(got));
        R.add("known_lookups");
        return;
      }
      if (live) {
        Msg &m = it->second.m;
        if (w.name == "MessageText") want = Value(m.text);
        else if (w.name == "MessageSender") want = m.sender.empty() ? Value() : Value(m.sender);
        else if (w.name == "MessageParameterCount") want = Value((Integer)m.p.size());
        else if (w.idx >= 0 && w.idx < (int)m.p.size()) want = m.p[w.idx];
      } 
    }
    if (want.isKnown()) R.add("known_lookups");
    if (!same(want, got)) fail("lookup", w.name + "(" + w.handle + (w.idx >= 0 ? "," + num(w.idx) : "") + ") shows " + show(got) + " instead of " + show(want) + how);
  }
  std::vector<Watch> all(std::string const &hd, bool onChange) {
    std::vector<Watch> v;
    if (hd.empty()) for (const char *n : {"HaveMessage", "PeekAtMessage", "PeekAtMessageSender"}) v.push_back(mk(n, "", -1, onChange));
    else {
      for (const char *n : {"MessageText", "MessageSender", "MessageParameterCount", "MessageArrived"}) v.push_back(mk(n, hd, -1, onChange));
      size_t np = held.count(hd) ? held[hd].m.p.size() : 0;
      for (size_t i = 0; i <= np; ++i) v.push_back(mk("MessageParameter", hd, (int)i, onChange));
    }
    return v;
  }
  void check() {
    for (auto &w : ws) compare(w, "");
    std::vector<Watch> f = all("", false);
    for (auto &x : handles) if (r.chance(40)) for (auto &w : all(x, false)) f.push_back(w);
    for (auto &w : f) { compare(w, " when asked afresh"); drop(w); }
    for (auto it = waiters.begin(); it != waiters.end();) {
      bool s = std::count(seen.begin(), seen.end(), it->first) > 0;
      bool due = it->second.empty() ? !q.empty() || sat.count(it->first) : !(held.count(it->second) && held[it->second].live);
      if (s != due) { fail("wait", s ? "a plan waiting for a message event went on early" : "a plan waiting for a message event did not notice it"); return; }
      if (s) { R.add("waiters"); it = waiters.erase(it); } else ++it;
    }
  }
  void receive() {
    Msg m;
    m.text = r.chance(20) ? "" : "msg" + num(r.below(1000));
    if (r.chance(10)) m.text += " <&> x";
    if (r.chance(60)) m.sender = "agent" + num(r.below(5));
    int np = r.chance(40) ? 0 : r.range(1, 4);
    for (int i = 0; i < np; ++i) m.p.push_back(genValue(r));
    what = "receive " + m.text;
    State s(m.text, m.p.size());
    for (size_t i = 0; i < m.p.size(); ++i) s.setParameter(i, m.p[i]);
    m.t0 = Timebase::queryTime();
    if (m.sender.empty()) A.ma->receiveMessageAnonymously(s); else A.ma->receiveMessage(m.sender, s);
    m.t1 = Timebase::queryTime();
    q.push_back(m);
    for (auto &w : waiters) if (w.second.empty()) sat.insert(w.first);
    R.add("received");
  }
  void accept() {
    int k = r.chance(70) ? 1 : r.range(2, 3);
    std::string decls, kids; std::vector<int> reps;
    for (int i = 0; i < k; ++i) {
      std::string v = "h" + num(i), id = "G" + num(i);
      reps.push_back(++rep);
      decls += declStr(v);
      kids += cmdNode(id, "GetMessageHandle", "", "", v) + report(id, rep, v);
    }
    what = "accept";
    size_t ok0 = ok.size();
    size_t avail = q.size();
    if (!A.add(planOf("P" + num(++plan), decls, kids))) { bad = true; return; }
    settle();
    if (ok.size() - ok0 != (size_t)k) { fail("answer", num(k) + " GetMessageHandle commands, " + num((long)(ok.size() - ok0)) + " succeeded"); return; }
    // in which order they were carried out shows in the messages they got
    std::vector<std::string> hs; size_t none = 0;
    for (size_t i = ok0; i < ok.size(); ++i) {
      if (!ok[i].second.isKnown()) { ++none; continue; }
      String s; if (!ok[i].second.getValue(s) || s.empty()) { fail("handle", "GetMessageHandle returned " + show(ok[i].second)); return; }
      if (held.count(s)) { fail("handle", "the handle " + s + " was given twice"); return; }
      if (std::count(hs.begin(), hs.end(), s)) { fail("handle", "the handle " + s + " was given twice"); return; }
      hs.push_back(s);
    }
    size_t want = std::min(avail, (size_t)k);
    if (hs.size() != want) { fail("handle", num((long)hs.size()) + " messages were given instead of " + num((long)want)); return; }
    if (none) R.add("empty_accepts", (long)none);
    // match: the first `want` messages, each to one handle
    std::vector<Msg> ms(q.begin(), q.begin() + want);
    q.erase(q.begin(), q.begin() + want);
    for (auto &s : hs) {
      size_t best = ms.size();
      for (size_t j = 0; j < ms.size() && best == ms.size(); ++j) {
        held[s] = Held{ms[j], true};
        bool all_ = true;
        auto f = all(s, false);
        for (auto &w : f) {
          Value got = w.e->toValue(), wv;
          Msg &m = ms[j];
          if (w.name == "MessageArrived") { double t = 0; if (!got.getValue(t) || t < m.t0 - 0.001 || t > m.t1 + 0.001) all_ = false; }
          else {
            if (w.name == "MessageText") wv = Value(m.text); else if (w.name == "MessageSender") wv = m.sender.empty() ? Value() : Value(m.sender);
            else if (w.name == "MessageParameterCount") wv = Value((Integer)m.p.size()); else if (w.idx < (int)m.p.size()) wv = m.p[w.idx];
            if (!same(wv, got)) all_ = false;
          }
          drop(w);
        }
        if (all_) best = j;
      }
      if (best == ms.size()) { fail("message", "the handle " + s + " shows none of the messages it could be"); return; }
      ms.erase(ms.begin() + best);
      handles.push_back(s);
      R.add("accepted");
      if (r.chance(70)) for (auto &w : all(s, true)) ws.push_back(w);
    }
    h = vc::mix(h, 100 + k * 10 + want);
  }
  void release() {
    int wrong = r.chance(30) ? r.range(1, 5) : 0;
    std::string hd = handles.empty() ? "nobody" : handles[r.below((int)handles.size())], args = str(hd), decls;
    bool okWanted = true;
    switch (wrong) {
    case 1: args = integer(3); okWanted = false; break;
    case 2: args = ""; okWanted = false; break;
    case 3: args = "<StringVariable>u</StringVariable>"; decls = declStr("u"); break;   // unknown: no-op
    case 4: args = str(""); break;
    case 5: args = str("nohandle"); break;
    }
    what = "release " + hd + " mistake " + num(wrong);
    int k = ++rep; size_t ok0 = ok.size(), f0 = failed.size();
    if (!A.add(planOf("P" + num(++plan), decls, cmdNode("X", "ReleaseMessageHandle", args) + report("X", k, "")))) { bad = true; return; }
    settle();
    bool o = ok.size() > ok0, f = failed.size() > f0;
    if (o == f) { fail("answer", "ReleaseMessageHandle neither succeeded nor failed"); return; }
    if (wrong != 3 && o != okWanted) { fail("answer", o ? "ReleaseMessageHandle with a wrong argument succeeded" : "ReleaseMessageHandle failed"); return; }
    if (!wrong && held.count(hd)) { if (held[hd].live) R.add("released"); held[hd].live = false; }
    h = vc::mix(h, 200 + wrong);
  }
  void badSend() {
    static const char *u = "<StringVariable>u</StringVariable>";
    std::string name, args; int k = r.below(8);
    switch (k) {
    case 0: name = "SendMessage"; break;
    case 1: name = "SendMessage"; args = str("to"); break;
    case 2: name = "SendMessage"; args = integer(1) + str("x"); break;
    case 3: name = "SendMessage"; args = str("to") + integer(1); break;
    case 4: name = "SendMessage"; args = r.chance(50) ? str("to") + u : u + str("m"); break;
    case 5: name = "PublishMessage"; break;
    case 6: name = "PublishMessage"; args = integer(1); break;
    default: name = "PublishMessage"; args = u; break;
    }
    what = name + " " + args;
    int n = ++rep; size_t ok0 = ok.size(), f0 = failed.size();
    if (!A.add(planOf("P" + num(++plan), declStr("u"), cmdNode("X", name, args) + report("X", n, "")))) { bad = true; return; }
    settle();
    if (ok.size() != ok0 || failed.size() != f0 + 1) fail("refuse", name + " with wrong arguments did not fail");
    R.add("refused");
    h = vc::mix(h, 300 + k);
  }
  void waiter() {
    int n = ++rep;
    std::string hd;
    if (!handles.empty() && r.chance(50)) hd = handles[r.below((int)handles.size())];
    std::string c = hd.empty() ? lookup("HaveMessage", "", true)
                               : "<NOT><IsKnown>" + lookup(r.chance(50) ? "MessageText" : "MessageParameterCount", str(hd), true) + "</IsKnown></NOT>";
    what = "waiter " + hd;
    waiters[n] = hd;
    if (!A.add(planOf("P" + num(++plan), "", cmdNode("w", "seen", integer(n), "<StartCondition>" + c + "</StartCondition>")))) { bad = true; return; }
    settle();
    h = vc::mix(h, 400);
  }
  void run() {
    std::vector<Watch> early;
    if (!A.start([this](Command *c, AdapterExecInterface *i) {
          auto const &a = c->getArgValues(); Integer k = 0;
          if (!a.empty()) a[0].getValue(k);
          if (c->getName() == "reportS") ok.push_back({k, a.size() > 1 ? a[1] : Value()});
          else if (c->getName() == "reportF") failed.push_back(k);
          else if (c->getName() == "seen") seen.push_back(k);
          else viol("internal", "command " + c->getName());
          i->handleCommandAck(c, COMMAND_SUCCESS); i->notifyOfExternalEvent();
        }, [this] { if (r.chance(30)) { receive(); } })) return;
    settle();
    if (r.chance(80)) for (auto &w : all("", true)) ws.push_back(w);
    check();
    int ops = r.range(4, 30);
    for (int i = 0; i < ops && !bad; ++i) {
      int k = r.below(20);
      if (k < 7) { int n = r.chance(70) ? 1 : r.range(2, 4); for (int j = 0; j < n; ++j) receive(); if (r.chance(80)) settle(); else continue; h = vc::mix(h, n); }
      else if (k < 12) accept();
      else if (k < 16) release();
      else if (k < 18) badSend();
      else waiter();
      if (!bad) settle();
      if (!bad) check();
    }
    R.add("ops", ops); R.sig(h);
    R.sample(num(ops) + " operations, " + num((long)handles.size()) + " messages taken, " + num((long)q.size()) + " left, last: " + what);
    for (auto &w : ws) drop(w);
    A.app->stop(); A.adapter->stop();
    A.adapter.reset();
    A.app.reset();
  }
};

// ---------------------------------------------------------------- race mode
struct Got { std::string handle, text, sender; long a = -1, b = -1, n = -1; bool whole; };
static void race(Rng r, int no) {
  App A; std::mutex m; std::vector<Got> got; std::atomic<long> taken{0}; std::atomic<long> none{0};
  int T = r.range(1, 4), C = r.range(1, 3);
  bool foreground = r.chance(30), accAll = r.chance(85);
  std::string tag = "stop" + num(no);
  std::vector<long> total(T);
  if (!A.start([&](Command *c, AdapterExecInterface *i) {
        auto const &a = c->getArgValues();
        if (a.size() == 6 && a[0].isKnown()) {
          Got g; g.whole = true;
          for (auto const &v : a) if (!v.isKnown()) g.whole = false;
          Integer x = -1;
          a[0].getValue(g.handle); a[1].getValue(g.text); a[2].getValue(g.sender);
          if (a[3].getValue(x)) g.a = x;
          if (a[4].getValue(x)) g.b = x;
          if (a[5].getValue(x)) g.n = x;
          std::lock_guard<std::mutex> l(m); got.push_back(g); ++taken;
        } else ++none;
        i->handleCommandAck(c, COMMAND_SUCCESS); i->notifyOfExternalEvent();
      }, [] {})) return;
  A.app->setRunExecInBkgndOnly(!foreground);
  if (!A.app->run()) { viol("internal", "run failed"); return; }
  // consumers
  for (int c = 0; c < C; ++c) {
    std::string hv = "<StringVariable>h</StringVariable>";
    std::string kids = cmdNode("G", "GetMessageHandle", "", "", "h") +
      cmdNode("T", "got", hv + lookup("MessageText", hv, false) + lookup("MessageSender", hv, false) + lookup("MessageParameter", hv + integer(0), false) +
              lookup("MessageParameter", hv + integer(1), false) + lookup("MessageParameterCount", hv, false), "<StartCondition>" + finished("G") + "</StartCondition>") +
      cmdNode("R", "ReleaseMessageHandle", hv, "<StartCondition>" + finished("T") + "</StartCondition>");
    A.add(planOf("C" + num(no) + "_" + num(c), declStr("h"), kids,
                 "<StartCondition>" + lookup("HaveMessage", "", true) + "</StartCondition><RepeatCondition><NOT>" + lookup(tag, "", true) + "</NOT></RepeatCondition>"));
  }
  A.app->manager()->handleValueChange(State(tag), Value(false));
  A.app->manager()->notifyOfExternalEvent();
  std::vector<std::thread> ths;
  long sum = 0; int jitter = r.below(3) ? r.range(1, 200) : 0; if (no % 40 == 11) { jitter = 0; R.add("race_long"); }
  for (int t = 0; t < T; ++t) {
    total[t] = no % 40 == 11 ? 2600 / T : r.range(3, 40); sum += total[t];
    uint64_t s = r.next(); long n = total[t];
    ths.emplace_back([&A, t, s, n, jitter] {
      Rng q(s);
      for (long i = 0; i < n; ++i) {
        State st("m" + num(t) + "_" + num(i), 2);
        st.setParameter(0, Value((Integer)t)); st.setParameter(1, Value((Integer)i));
        A.ma->receiveMessage("t" + num(t), st);
        if (jitter && q.chance(40)) usleep(q.below(jitter));
      }
    });
  }
  for (auto &t : ths) t.join();
  if (accAll) {
    for (int i = 0; i < 60000 && taken < sum; ++i) usleep(500);
    if (taken < sum) viol("lost", num(taken) + " of " + num(sum) + " messages were taken by plans waiting for messages");
    usleep(500);
  }
  A.app->manager()->handleValueChange(State(tag), Value(true));
  A.app->manager()->notifyOfExternalEvent();
  A.app->notifyAndWaitForCompletion();
  A.app->stop(); A.adapter->stop();
  A.app->waitForShutdown();
  std::vector<long> next(T, 0); std::set<std::string> hs, ids;
  long sw = 0; int last = -1; uint64_t h = 0;
  for (auto &g : got) {
    if (!hs.insert(g.handle).second) viol("handle", "the handle " + g.handle + " was given twice");
    if (!g.whole) { viol("message", "a message taken shows unknown text, sender or parameters"); continue; }
    if (g.a < 0 || g.a >= T || g.text != "m" + num(g.a) + "_" + num(g.b) || g.sender != "t" + num(g.a) || g.n != 2) { viol("message", "a message shows " + g.text + " from " + g.sender + " with " + num(g.a) + "," + num(g.b)); continue; }
    if (!ids.insert(g.text).second) { viol("message", g.text + " was taken twice"); continue; }
    if (C == 1 && g.b != next[g.a]) viol("order", g.text + " was taken when number " + num(next[g.a]) + " was due");
    next[g.a] = g.b + 1;
    if (g.a != last) ++sw;
    last = (int)g.a; h = vc::mix(h, g.a);
  }
  R.add("race_taken", (long)got.size()); R.add("race_none", none); R.add("race_switches", sw); R.sig(h);
  A.adapter.reset(); A.app.reset();
}

static std::atomic<long> alive{0};
int main(int argc, char **argv) {
  vc::Args A(argc, argv);
  uint64_t seed = A.num("seed", 1); long first = A.num("first", 0), n = A.num("cases", 10);
  bool rc = A.str("mode", "plan") == "race";
  Error::doThrowExceptions();
  std::thread([] { long was = -1; int same_ = 0; for (;;) { sleep(1); long a = alive; if (a == was) { if (++same_ > 100) { viol("hang", "no progress for 100 s"); _exit(0); } } else same_ = 0; was = a; } }).detach();
  std::ostringstream sink; std::streambuf *old = std::cerr.rdbuf();
  if (!rc && !A.has("loud")) std::cerr.rdbuf(sink.rdbuf());
  for (long c = first; c < first + n; ++c) {
    R.begin((rc ? "race:" : "plan:") + std::to_string(c));
    ++alive;
    sink.str("");
    Rng r(seed * 1000003ull + c);
    if (rc) race(r, (int)c);
    else { Case k(r, (int)c); k.run(); }
    R.add("cases");
  }
  std::cerr.rdbuf(old);
  R.finish();
  plexilRunFinalizers();
  return 0;
}
