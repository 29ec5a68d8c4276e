// C15: the input queue. Random histories against a model, then several producers and a consumer.
#include "vcommon.hh"
#include "ArrayImpl.hh"
#include "Command.hh"
#include "Error.hh"
#include "Message.hh"
#include "QueueEntry.hh"
#include "SerializedInputQueue.hh"
#include "SimpleInputQueue.hh"
#include "State.hh"
#include "Value.hh"
#include "lifecycle-utils.h"
#include <atomic>
#include <chrono>
#include <deque>
#include <memory>
#include <thread>
#include <unistd.h>

using namespace PLEXIL;
using vc::Rng;
static vc::Report R;
static std::string num(long n) { return std::to_string(n); }

struct Item { int type = 0; std::string state, value; void *p = nullptr; unsigned seq = 0; };

static Value randVal(Rng &r) {
  switch (r.below(6)) {
  case 0: return Value();
  case 1: return Value((Integer)r.range(-5, 5));
  case 2: return Value(r.range(-9, 9) * 0.5);
  case 3: return Value(String("s" + num(r.below(100))));
  case 4: return Value((Boolean)r.chance(50));
  default: { IntegerArray a(r.below(4)); for (size_t k = 0; k < a.size(); ++k) a.setElement(k, r.below(9)); return Value(a); }
  }
}
static std::string show(Value const &v) { return num(v.valueType()) + ":" + v.valueToString(); }
static std::string show(State const &s) { std::string o = s.name(); for (size_t k = 0; k < s.parameterCount(); ++k) o += "|" + show(s.parameter(k)); return o; }

static Item fill(Rng &r, QueueEntry *e, unsigned seq, int producer) {
  Item m;
  m.seq = seq;
  void *tok = (void *)(uintptr_t)(0x10000 + 16 * seq + producer);
  switch (r.below(11)) {
  case 0: case 1: case 2: {
    State s("st" + num(r.below(5)), r.below(3));
    for (size_t k = 0; k < s.parameterCount(); ++k) s.setParameter(k, randVal(r));
    Value v = randVal(r);
    m.type = Q_LOOKUP; m.state = show(s); m.value = show(v);
    switch (r.below(4)) {
    case 0: e->initForLookup(s, v); break;
    case 1: e->initForLookup(s, Value(v)); break;
    case 2: e->initForLookup(State(s), v); break;
    default: e->initForLookup(State(s), Value(v)); break;
    }
    break;
  }
  case 3: { CommandHandleValue h = (CommandHandleValue)r.range(NO_COMMAND_HANDLE + 1, COMMAND_HANDLE_MAX - 1); m.type = Q_COMMAND_ACK; m.p = tok; m.value = show(Value(h)); e->initForCommandAck((Command *)tok, h); break; }
  case 4: case 5: { Value v = randVal(r); m.type = Q_COMMAND_RETURN; m.p = tok; m.value = show(v); if (r.chance(50)) e->initForCommandReturn((Command *)tok, v); else e->initForCommandReturn((Command *)tok, Value(v)); break; }
  case 6: { bool b = r.chance(50); m.type = Q_COMMAND_ABORT; m.p = tok; m.value = show(Value((Boolean)b)); e->initForCommandAbort((Command *)tok, b); break; }
  case 7: { bool b = r.chance(50); m.type = Q_UPDATE_ACK; m.p = tok; m.value = show(Value((Boolean)b)); e->initForUpdateAck((Update *)tok, b); break; }
  case 8: m.type = Q_RECEIVE_MSG; m.p = tok; e->initForReceiveMessage((Message *)tok); break;
  case 9: { std::string h = "h" + num(r.below(50)); m.type = Q_RELEASE_MSG_HANDLE; m.value = show(Value(String(h))); e->initForReleaseMessageHandle(h); break; }
  default: m.type = Q_MARK; m.value = num(seq); e->initForMark(seq); break;
  }
  return m;
}

static std::string check(QueueEntry *e, Item const &m) {
  if (e->type != m.type) return "kind " + num(e->type) + " instead of " + num(m.type);
  switch (m.type) {
  case Q_LOOKUP: if (show(*e->state) != m.state) return "state " + show(*e->state) + " instead of " + m.state; if (show(e->value) != m.value) return "value " + show(e->value) + " instead of " + m.value; break;
  case Q_COMMAND_ACK: case Q_COMMAND_RETURN: case Q_COMMAND_ABORT: if (e->command != m.p) return "another command"; if (show(e->value) != m.value) return "value " + show(e->value) + " instead of " + m.value; break;
  case Q_UPDATE_ACK: if (e->update != m.p) return "another update"; if (show(e->value) != m.value) return "value " + show(e->value) + " instead of " + m.value; break;
  case Q_RECEIVE_MSG: if (e->message != m.p) return "another message"; break;
  case Q_RELEASE_MSG_HANDLE: if (show(e->value) != m.value) return "value " + show(e->value) + " instead of " + m.value; break;
  case Q_MARK: if (num(e->sequence) != m.value) return "mark " + num(e->sequence) + " instead of " + m.value; break;
  }
  return "";
}

template <class Q> static void history(Rng r, char const *nm) {
  Q q;
  std::deque<Item> model;
  std::vector<QueueEntry *> held;
  std::set<QueueEntry *> out;       // entries not owned by the queue
  unsigned seq = 1;
  int n = r.range(5, 120);
  uint64_t h = 3;
  for (int k = 0; k < n; ++k) {
    int op = r.below(100);
    if (op < 50) {
      QueueEntry *e = q.allocate();
      if (!e) { R.viol("queue", std::string(nm) + ": no entry"); return; }
      if (!out.insert(e).second) { R.viol("queue", std::string(nm) + ": an entry still in use was handed out again"); return; }
      Item m = fill(r, e, seq++, 0);
      q.put(e); out.erase(e);
      model.push_back(m);
    } else if (op < 90) {
      QueueEntry *e = q.get();
      if (!e != model.empty()) { R.viol("queue", std::string(nm) + (e ? ": got an entry from an empty queue" : ": got nothing from a queue with entries")); return; }
      if (!e) continue;
      std::string bad = check(e, model.front());
      if (!bad.empty()) { R.viol("queue", std::string(nm) + ": entry " + num(k) + ": " + bad); return; }
      h = vc::mix(h, model.front().type);
      model.pop_front();
      R.add("queued");
      if (!out.insert(e).second) { R.viol("queue", std::string(nm) + ": an entry still in use was handed out again"); return; }
      if (r.chance(30)) held.push_back(e); else { q.release(e); out.erase(e); }
    } else if (op < 96) {
      if (!held.empty()) { int i = r.below((int)held.size()); q.release(held[i]); out.erase(held[i]); held.erase(held.begin() + i); }
    } else if (op < 97) { q.flush(); model.clear(); R.add("flushes"); }
    if (q.isEmpty() != model.empty()) { R.viol("queue", std::string(nm) + ": isEmpty is wrong with " + num((long)model.size()) + " entries queued"); return; }
  }
  for (QueueEntry *e : held) q.release(e);
  R.sig(h);
}

static void concurrent(Rng r) {
  SerializedInputQueue q;
  int P = r.range(2, 5), per = r.range(5, 200);
  std::vector<std::vector<Item>> sent(P);
  std::atomic<int> live{P}; std::atomic<bool> go{false};
  std::vector<std::thread> ts;
  for (int p = 0; p < P; ++p) {
    uint64_t s = r.next();
    ts.emplace_back([&, p, s] {
      Rng g(s);
      std::vector<Item> mine;
      while (!go) std::this_thread::yield();
      for (int k = 0; k < per; ++k) {
        QueueEntry *e = q.allocate();
        // the producer's number travels in the state's name or the token
        Item m;
        if (g.chance(50)) {
          State s("p" + num(p), 1); s.setParameter(0, (Integer)k);
          Value v = randVal(g);
          m.type = Q_LOOKUP; m.state = show(s); m.value = show(v);
          e->initForLookup(s, v);
        } else { Value v = randVal(g); void *t = (void *)(uintptr_t)(16 * (k + 1) + p); m.type = Q_COMMAND_RETURN; m.p = t; m.value = show(v); e->initForCommandReturn((Command *)t, v); }
        mine.push_back(m);
        q.put(e);
        if (g.chance(5)) std::this_thread::yield();
      }
      sent[p] = mine;
      --live;
    });
  }
  // consumer: entries come out with the producer's number; compare after the join
  struct Got { int p; Item m; };
  std::vector<Got> got;
  std::string bad;
  go = true;
  long total = (long)P * per;
  auto end = std::chrono::steady_clock::now() + std::chrono::seconds(60);
  while ((long)got.size() < total && bad.empty()) {
    QueueEntry *e = q.get();
    if (!e) {
      if (live == 0 && q.isEmpty()) break;
      if (std::chrono::steady_clock::now() > end) { bad = "no progress"; break; }
      std::this_thread::yield();
      continue;
    }
    Got g;
    g.m.type = e->type; g.m.value = show(e->value);
    if (e->type == Q_LOOKUP) { g.m.state = show(*e->state); g.p = atoi(e->state->name().c_str() + 1); }
    else if (e->type == Q_COMMAND_RETURN) { g.m.p = e->command; g.p = (int)((uintptr_t)e->command & 15); }
    else bad = "an entry of a kind nobody sent";
    got.push_back(g);
    q.release(e);
  }
  for (auto &t : ts) t.join();
  if (bad.empty() && (long)got.size() != total) bad = num((long)got.size()) + " of " + num(total) + " entries came out";
  if (bad.empty() && !q.isEmpty()) bad = "entries left over";
  std::vector<size_t> at(P, 0);
  int sw = 0, last = -1; uint64_t h = 5;
  for (size_t k = 0; k < got.size() && bad.empty(); ++k) {
    int p = got[k].p;
    if (p < 0 || p >= P || at[p] >= sent[p].size()) { bad = "an entry came out twice"; break; }
    Item const &m = sent[p][at[p]++];
    if (m.type != got[k].m.type || m.value != got[k].m.value || m.state != got[k].m.state || m.p != got[k].m.p)
      bad = "producer " + num(p) + ": entry " + num((long)at[p]) + " is out of order or damaged: " + got[k].m.state + " " + got[k].m.value;
    if (p != last) { ++sw; last = p; h = vc::mix(h, p * 1000 + at[p]); }
  }
  if (!bad.empty()) R.viol("queue", "concurrent: " + bad);
  R.add("concurrent", total); R.add("switches", sw); R.sig(h);
  R.sample("producers " + num(P) + ", entries " + num(total) + ", changes of producer in the order taken " + num(sw));
}

int main(int argc, char **argv) {
  vc::Args A(argc, argv);
  uint64_t seed = A.num("seed", 1); long first = A.num("first", 0), n = A.num("cases", 10);
  Error::doThrowExceptions();
  for (long c = first; c < first + n; ++c) {
    R.begin("queue:" + num(c));
    Rng r(seed * 1000003ull + c * 7919ull + 29);
    alarm(120);
    for (int k = 0; k < 4; ++k) { history<SerializedInputQueue>(Rng(r.next()), "serialized"); history<SimpleInputQueue>(Rng(r.next()), "simple"); }
    concurrent(Rng(r.next()));
    R.add("cases");
  }
  R.finish();
  plexilRunFinalizers();
  return 0;
}
