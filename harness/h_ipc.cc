// C26: the IPC adapter on a fake message bus inside the process. The functions of the IPC library
// are replaced below: the harness sees everything published, sends what other agents would send,
// and can make any call fail.
#include "vcommon.hh"
#include "AdapterConfiguration.hh"
#include "AdapterExecInterface.hh"
#include "AdapterFactory.hh"
#include "ArrayImpl.hh"
#include "Command.hh"
#include "CommandHandle.hh"
#include "CommandHandler.hh"
#include "Error.hh"
#include "InterfaceAdapter.hh"
#include "InterfaceError.hh"
#include "LookupHandler.hh"
#include "LookupReceiver.hh"
#include "parser-utils.hh"
#include "PlanError.hh"
#include "State.hh"
#include "Update.hh"
#include "Value.hh"
#include "ipc.h"
#include "ipc-data-formats.h"
#include "IpcCommRelay.cc"
#include "Simulator.hh"
#include "lifecycle-utils.h"
#include "pugixml.hpp"
extern "C" void initIpcAdapter();
#include <atomic>
#include <chrono>
#include <cmath>
#include <condition_variable>
#include <deque>
#include <functional>
#include <iostream>
#include <limits>
#include <memory>
#include <mutex>
#include <thread>
#include <unistd.h>

using vc::Rng;
using PLEXIL::Value;
static vc::Report R;

static std::string str(Value const &v) {
  std::ostringstream o; o << PLEXIL::valueTypeName(v.isKnown() ? v.valueType() : PLEXIL::UNKNOWN_TYPE) << " "; PLEXIL::Real d;
  if (v.isKnown() && v.valueType() == PLEXIL::REAL_TYPE && v.getValue(d)) { char b[64]; snprintf(b, sizeof b, "%.17g", d); o << b; }
  else o << v;
  return o.str();
}

// ---------------------------------------------------------------- the fake bus
// One message as the bus sees it.
struct Piece {
  std::string name;               // of the IPC message, without its address
  std::string to;                 // the address, empty for everybody
  int type = 0, count = 0; uint32_t serial = 0; std::string from; bool nullFrom = false;
  std::string s1; bool null1 = false; uint32_t req = 0; Value v;   // the contents
};
static const char *FMT(std::string const &n) {
  static const std::map<std::string, const char *> F = {
    {MSG_BASE, MSG_BASE_FORMAT}, {RETURN_VALUE_MSG, RETURN_VALUE_MSG_FORMAT}, {COMMAND_HANDLE_VALUE_MSG, COMMAND_HANDLE_VALUE_MSG_FORMAT},
    {BOOLEAN_VALUE_MSG, BOOLEAN_VALUE_MSG_FORMAT}, {INTEGER_VALUE_MSG, INTEGER_VALUE_MSG_FORMAT}, {REAL_VALUE_MSG, REAL_VALUE_MSG_FORMAT}, {STRING_VALUE_MSG, STRING_VALUE_MSG_FORMAT},
    {BOOLEAN_ARRAY_MSG, BOOLEAN_ARRAY_MSG_FORMAT}, {INTEGER_ARRAY_MSG, INTEGER_ARRAY_MSG_FORMAT}, {REAL_ARRAY_MSG, REAL_ARRAY_MSG_FORMAT}, {STRING_ARRAY_MSG, STRING_ARRAY_MSG_FORMAT},
    {BOOLEAN_PAIR_MSG, BOOLEAN_PAIR_MSG_FORMAT}, {INTEGER_PAIR_MSG, INTEGER_PAIR_MSG_FORMAT}, {REAL_PAIR_MSG, REAL_PAIR_MSG_FORMAT}, {STRING_PAIR_MSG, STRING_PAIR_MSG_FORMAT}};
  auto it = F.find(n); return it == F.end() ? nullptr : it->second;
}
static const char *const NAMES[] = {MSG_BASE, RETURN_VALUE_MSG, COMMAND_HANDLE_VALUE_MSG, BOOLEAN_VALUE_MSG, INTEGER_VALUE_MSG, REAL_VALUE_MSG, STRING_VALUE_MSG, BOOLEAN_ARRAY_MSG, INTEGER_ARRAY_MSG, REAL_ARRAY_MSG, STRING_ARRAY_MSG, BOOLEAN_PAIR_MSG, INTEGER_PAIR_MSG, REAL_PAIR_MSG, STRING_PAIR_MSG};
static char *dup(std::string const &s, bool null) { if (null) return nullptr; char *p = (char *)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); return p; }
template <class T> static T *fresh(Piece const &p) { T *t = (T *)calloc(1, sizeof(T)); PlexilMsgBase *b = (PlexilMsgBase *)t; b->msgType = p.type; b->count = p.count; b->serial = p.serial; b->senderUID = dup(p.from, p.nullFrom); return t; }
// What the library hands to the receiver of a message.
static void *unmarshal(Piece const &p) {
  std::string const &n = p.name; PLEXIL::Boolean b = false; PLEXIL::Integer i = 0; PLEXIL::Real d = 0; PLEXIL::String s; size_t k = 0;
  if (n == MSG_BASE) return fresh<PlexilMsgBase>(p);
  if (n == RETURN_VALUE_MSG) { auto *m = fresh<PlexilReturnValuesMsg>(p); m->requestSerial = p.req; m->requesterUID = dup(p.s1, p.null1); return m; }
  if (n == COMMAND_HANDLE_VALUE_MSG) { auto *m = fresh<PlexilCommandHandleValueMsg>(p); m->commandHandleValue = p.req; return m; }
  if (n == BOOLEAN_VALUE_MSG) { auto *m = fresh<PlexilBooleanValueMsg>(p); p.v.getValue(b); m->boolValue = b; return m; }
  if (n == INTEGER_VALUE_MSG) { auto *m = fresh<PlexilIntegerValueMsg>(p); p.v.getValue(i); m->intValue = i; return m; }
  if (n == REAL_VALUE_MSG) { auto *m = fresh<PlexilRealValueMsg>(p); p.v.getValue(d); m->doubleValue = d; return m; }
  if (n == STRING_VALUE_MSG) { auto *m = fresh<PlexilStringValueMsg>(p); m->stringValue = dup(p.s1, p.null1); return m; }
#define ARR(NAME, MSG, FIELD, ARRAY, ELT, TMP) if (n == NAME) { auto *m = fresh<MSG>(p); PLEXIL::ARRAY const *a = nullptr; p.v.getValuePointer(a); m->arraySize = k = a->size(); m->FIELD = k ? (ELT *)calloc(k, sizeof(ELT)) : nullptr; for (size_t j = 0; j < k; ++j) { a->getElement(j, TMP); m->FIELD[j] = (ELT)TMP; } return m; }
  ARR(BOOLEAN_ARRAY_MSG, PlexilBooleanArrayMsg, boolArray, BooleanArray, unsigned char, b)
  ARR(INTEGER_ARRAY_MSG, PlexilIntegerArrayMsg, intArray, IntegerArray, int32_t, i)
  ARR(REAL_ARRAY_MSG, PlexilRealArrayMsg, doubleArray, RealArray, double, d)
  if (n == STRING_ARRAY_MSG) { auto *m = fresh<PlexilStringArrayMsg>(p); PLEXIL::StringArray const *a = nullptr; p.v.getValuePointer(a); m->arraySize = k = a->size(); m->stringArray = k ? (const char **)calloc(k, sizeof(char *)) : nullptr; for (size_t j = 0; j < k; ++j) { a->getElement(j, s); m->stringArray[j] = dup(s, false); } return m; }
  if (n == BOOLEAN_PAIR_MSG) { auto *m = fresh<BooleanPair>(p); m->pairHeader.pairName = dup(p.s1, p.null1); p.v.getValue(b); m->pairBoolValue = b; return m; }
  if (n == INTEGER_PAIR_MSG) { auto *m = fresh<IntegerPair>(p); m->pairHeader.pairName = dup(p.s1, p.null1); p.v.getValue(i); m->pairIntValue = i; return m; }
  if (n == REAL_PAIR_MSG) { auto *m = fresh<RealPair>(p); m->pairHeader.pairName = dup(p.s1, p.null1); p.v.getValue(d); m->pairDoubleValue = d; return m; }
  auto *m = fresh<StringPair>(p); m->pairHeader.pairName = dup(p.s1, p.null1); p.v.getValue(s); m->pairStringValue = dup(s, false); return m;
}
static void release(std::string const &n, void *v) {
  free((void *)((PlexilMsgBase *)v)->senderUID);
  if (n == RETURN_VALUE_MSG) free((void *)((PlexilReturnValuesMsg *)v)->requesterUID);
  else if (n == STRING_VALUE_MSG) free((void *)((PlexilStringValueMsg *)v)->stringValue);
  else if (n == BOOLEAN_ARRAY_MSG) free(((PlexilBooleanArrayMsg *)v)->boolArray);
  else if (n == INTEGER_ARRAY_MSG) free(((PlexilIntegerArrayMsg *)v)->intArray);
  else if (n == REAL_ARRAY_MSG) free(((PlexilRealArrayMsg *)v)->doubleArray);
  else if (n == STRING_ARRAY_MSG) { auto *m = (PlexilStringArrayMsg *)v; for (size_t j = 0; j < m->arraySize; ++j) free((void *)m->stringArray[j]); free(m->stringArray); }
  else if (n == BOOLEAN_PAIR_MSG || n == INTEGER_PAIR_MSG || n == REAL_PAIR_MSG) free((void *)((PairHeader *)v)->pairName);
  else if (n == STRING_PAIR_MSG) { free((void *)((PairHeader *)v)->pairName); free((void *)((StringPair *)v)->pairStringValue); }
  free(v);
}
// What the sender of a message hands to the library.
static Piece marshal(std::string const &n, void const *v) {
  Piece p; p.name = n; auto *b = (PlexilMsgBase const *)v; p.type = b->msgType; p.count = b->count; p.serial = b->serial; p.nullFrom = !b->senderUID; if (b->senderUID) p.from = b->senderUID;
  auto text = [&](char const *s) { p.null1 = !s; if (s) p.s1 = s; };
  if (n == RETURN_VALUE_MSG) { auto *m = (PlexilReturnValuesMsg const *)v; p.req = m->requestSerial; text(m->requesterUID); }
  else if (n == COMMAND_HANDLE_VALUE_MSG) { p.req = ((PlexilCommandHandleValueMsg const *)v)->commandHandleValue; p.v = Value((PLEXIL::CommandHandleValue)p.req); }
  else if (n == BOOLEAN_VALUE_MSG) p.v = Value((bool)((PlexilBooleanValueMsg const *)v)->boolValue);
  else if (n == INTEGER_VALUE_MSG) p.v = Value((PLEXIL::Integer)((PlexilIntegerValueMsg const *)v)->intValue);
  else if (n == REAL_VALUE_MSG) p.v = Value((PLEXIL::Real)((PlexilRealValueMsg const *)v)->doubleValue);
  else if (n == STRING_VALUE_MSG) { text(((PlexilStringValueMsg const *)v)->stringValue); p.v = Value(p.s1); }
  else if (n == BOOLEAN_ARRAY_MSG) { auto *m = (PlexilBooleanArrayMsg const *)v; PLEXIL::BooleanArray a(m->arraySize); for (size_t j = 0; j < m->arraySize; ++j) a.setElement(j, (bool)m->boolArray[j]); p.v = Value(a); }
  else if (n == INTEGER_ARRAY_MSG) { auto *m = (PlexilIntegerArrayMsg const *)v; PLEXIL::IntegerArray a(m->arraySize); for (size_t j = 0; j < m->arraySize; ++j) a.setElement(j, m->intArray[j]); p.v = Value(a); }
  else if (n == REAL_ARRAY_MSG) { auto *m = (PlexilRealArrayMsg const *)v; PLEXIL::RealArray a(m->arraySize); for (size_t j = 0; j < m->arraySize; ++j) a.setElement(j, m->doubleArray[j]); p.v = Value(a); }
  else if (n == STRING_ARRAY_MSG) { auto *m = (PlexilStringArrayMsg const *)v; PLEXIL::StringArray a(m->arraySize); for (size_t j = 0; j < m->arraySize; ++j) a.setElement(j, std::string(m->stringArray[j])); p.v = Value(a); }
  else if (n == BOOLEAN_PAIR_MSG) { text(((PairHeader const *)v)->pairName); p.v = Value((bool)((BooleanPair const *)v)->pairBoolValue); }
  else if (n == INTEGER_PAIR_MSG) { text(((PairHeader const *)v)->pairName); p.v = Value((PLEXIL::Integer)((IntegerPair const *)v)->pairIntValue); }
  else if (n == REAL_PAIR_MSG) { text(((PairHeader const *)v)->pairName); p.v = Value((PLEXIL::Real)((RealPair const *)v)->pairDoubleValue); }
  else if (n == STRING_PAIR_MSG) { text(((PairHeader const *)v)->pairName); p.v = Value(PLEXIL::String(((StringPair const *)v)->pairStringValue)); }
  return p;
}

struct Bus {
  std::mutex m; std::condition_variable cv;
  bool connected = false, busy = false, pause = false; std::string module;
  std::map<std::string, std::string> defs;                                          // message names
  std::map<std::string, std::pair<HANDLER_DATA_TYPE, void *>> subs;
  std::deque<Piece> inbox; std::vector<Piece> log; std::map<void *, std::string> out; long delivered = 0;
  bool loop = true; int failPublish = 0, failConnect = 0, failDefine = 0; long failed = 0; std::string wrong;
  std::function<void(Piece const &)> onPublish;                                     // called with the lock held
  bool hit(int &f) { if (f > 0 && --f == 0) { ++failed; return true; } return false; }
  static bool split(std::string const &full, std::string &to, std::string &base) {
    for (const char *n : NAMES) { size_t l = strlen(n); if (full.size() >= l && full.compare(full.size() - l, l, n) == 0) { to = full.substr(0, full.size() - l); base = n; return true; } }
    return false;
  }
  void put(Piece const &p) { if (connected && subs.count(p.to + p.name)) { inbox.push_back(p); cv.notify_all(); } }
  void inject(std::vector<Piece> const &v) { std::lock_guard<std::mutex> g(m); for (Piece const &p : v) put(p); }
  bool quiet(int ms) { std::unique_lock<std::mutex> g(m); return cv.wait_for(g, std::chrono::milliseconds(ms), [&] { return !connected || (inbox.empty() && !busy); }); }
  void reset() { std::lock_guard<std::mutex> g(m); connected = false; subs.clear(); defs.clear(); inbox.clear(); log.clear(); for (auto &p : out) release(p.second, p.first); out.clear(); failPublish = failConnect = failDefine = 0; failed = 0; pause = false; wrong.clear(); onPublish = nullptr; }
};
static Bus B;
static FORMATTER_PTR fmtOf(std::string const &n) { static std::map<std::string, std::unique_ptr<std::string>> M; static std::mutex m; std::lock_guard<std::mutex> g(m); auto &p = M[n]; if (!p) p.reset(new std::string(n)); return (FORMATTER_PTR)p.get(); }
IPC_ERROR_TYPE IPC_errno = IPC_No_Error;
extern "C" {
IPC_RETURN_TYPE IPC_initialize(void) { return IPC_OK; }
IPC_RETURN_TYPE IPC_connectModule(const char *task, const char *) { std::lock_guard<std::mutex> g(B.m); if (B.hit(B.failConnect)) return IPC_Error; B.connected = true; B.module = task; return IPC_OK; }
int IPC_isConnected(void) { std::lock_guard<std::mutex> g(B.m); return B.connected; }
IPC_RETURN_TYPE IPC_disconnect(void) { std::lock_guard<std::mutex> g(B.m); B.connected = false; B.subs.clear(); B.inbox.clear(); B.cv.notify_all(); return IPC_OK; }
IPC_RETURN_TYPE IPC_defineMsg(const char *n, unsigned int, const char *f) { std::lock_guard<std::mutex> g(B.m); if (B.hit(B.failDefine)) return IPC_Error; std::string to, base; if (!Bus::split(n, to, base) || std::string(FMT(base)) != f) B.wrong = std::string("message ") + n + " is defined with format " + f; B.defs[n] = f; return IPC_OK; }
int IPC_isMsgDefined(const char *n) { std::lock_guard<std::mutex> g(B.m); return B.defs.count(n); }
IPC_RETURN_TYPE IPC_subscribeData(const char *n, HANDLER_DATA_TYPE h, void *d) { std::lock_guard<std::mutex> g(B.m); if (!B.defs.count(n)) return IPC_Error; B.subs[n] = {h, d}; return IPC_OK; }
IPC_RETURN_TYPE IPC_unsubscribe(const char *n, HANDLER_TYPE) { std::lock_guard<std::mutex> g(B.m); B.subs.erase(n); return IPC_OK; }
FORMATTER_PTR IPC_msgFormatter(const char *n) { if (!n) return nullptr; { std::lock_guard<std::mutex> g(B.m); if (!B.defs.count(n)) return nullptr; } return fmtOf(FMT(n) ? n : ""); }
IPC_RETURN_TYPE IPC_freeData(FORMATTER_PTR f, void *d) {
  std::lock_guard<std::mutex> g(B.m);
  auto it = B.out.find(d); std::string n = f ? *(std::string const *)f : "nothing";
  if (it == B.out.end()) { B.wrong = "a message is released twice"; return IPC_Error; }
  if (it->second != n) { B.wrong = "a " + it->second + " is released as " + n; return IPC_Error; }
  B.out.erase(it); release(n, d); return IPC_OK;
}
IPC_RETURN_TYPE IPC_publishData(const char *n, void *d) {
  std::lock_guard<std::mutex> g(B.m); std::string to, base;
  if (!n) { B.wrong = "something without a name is published"; return IPC_Error; }
  if (!B.connected) { IPC_errno = IPC_Not_Connected; return IPC_Error; }
  if (!Bus::split(n, to, base)) { B.wrong = std::string("something named ") + n + " is published"; return IPC_Error; }
  if (!to.empty() && !B.defs.count(n)) { IPC_errno = IPC_Message_Not_Defined; ++B.failed; return IPC_Error; }
  if (B.hit(B.failPublish)) { IPC_errno = IPC_Communication_Error; return IPC_Error; }
  Piece p = marshal(base, d); p.to = to; B.log.push_back(p);
  if (to == B.module || (to.empty() && B.loop)) B.put(p);
  if (B.onPublish) B.onPublish(p);
  return IPC_OK;
}
IPC_RETURN_TYPE IPC_listenClear(unsigned int) {
  std::unique_lock<std::mutex> g(B.m);
  if (!B.connected) return IPC_Error;
  B.cv.wait_for(g, std::chrono::milliseconds(2), [&] { return (!B.inbox.empty() && !B.pause) || !B.connected; });
  if (B.inbox.empty() || B.pause) return IPC_Timeout;
  while (!B.inbox.empty() && !B.pause) {
    Piece p = B.inbox.front(); B.inbox.pop_front(); auto it = B.subs.find(p.to + p.name); if (it == B.subs.end()) continue;
    auto h = it->second; void *d = unmarshal(p); B.out[d] = p.name; B.busy = true; ++B.delivered;
    g.unlock(); h.first(nullptr, d, h.second); g.lock();
    B.busy = false;
  }
  B.cv.notify_all();
  return IPC_OK;
}
}

// ---------------------------------------------------------------- commands, updates and interface
struct Cmd : PLEXIL::Command {
  PLEXIL::State st; int id;
  Cmd(std::string const &n, std::vector<Value> const &a, int i) : st(n, a.size()), id(i) { for (size_t k = 0; k < a.size(); ++k) st.setParameter(k, a[k]); }
  PLEXIL::State const &getCommand() const override { return st; }
  std::string const &getName() const override { return st.name(); }
  std::vector<Value> const &getArgValues() const override { return st.parameters(); }
  bool isReturnExpected() const override { return true; }
};
struct Upd : PLEXIL::Update {
  std::string node; PairValueMap ps; PLEXIL::Update *nx = nullptr;
  PairValueMap const &getPairs() const override { return ps; }
  std::string const &getNodeId() const override { return node; }
  void acknowledge(bool) override {}
  PLEXIL::Update *next() const override { return nx; }
  PLEXIL::Update **nextPtr() override { return &nx; }
};
struct Rcv : PLEXIL::LookupReceiver {
  std::vector<std::string> got;
  void update(Value const &v) override { got.push_back(str(v)); }
  void setUnknown() override { got.push_back(str(Value())); }
  void update(PLEXIL::Boolean v) override { update(Value(v)); }
  void update(PLEXIL::Integer v) override { update(Value(v)); }
  void update(PLEXIL::Real v) override { update(Value(v)); }
  void update(PLEXIL::String const &v) override { update(Value(v)); }
  void update(char const *v) override { update(Value(v)); }
  void update(PLEXIL::Boolean const [], size_t) override { got.push_back("array"); }
  void update(PLEXIL::Integer const [], size_t) override { got.push_back("array"); }
  void update(PLEXIL::Real const [], size_t) override { got.push_back("array"); }
  void update(PLEXIL::String const [], size_t) override { got.push_back("array"); }
};
static std::string str(PLEXIL::State const &s) { std::string o = s.name() + "("; for (auto &v : s.parameters()) o += str(v) + ", "; return o + ")"; }
static std::string xml(pugi::xml_node const n) { std::ostringstream o; n.print(o, "", pugi::format_raw); return o.str(); }
struct Ev { std::string what; Cmd *cmd = nullptr; std::string st; Value v; };
struct Intf : PLEXIL::AdapterExecInterface {
  std::mutex m; std::map<PLEXIL::Command *, int> live; std::vector<Ev> log; long events = 0, eventAfter = 0; std::string wrong;
  int seen = 0;
  void add(Ev const &e) { std::lock_guard<std::mutex> g(m); log.push_back(e); }
  void of(const char *w, PLEXIL::Command *c, std::string const &t, Value const &v = Value()) {
    std::lock_guard<std::mutex> g(m); auto it = live.find(c); if (it == live.end()) { wrong = std::string(w) + " for a command that is over"; return; }
    Ev e; e.what = std::string(w) + " " + std::to_string(it->second) + " " + t; e.cmd = static_cast<Cmd *>(c); e.v = v; log.push_back(e);
  }
  void val(PLEXIL::State const &s, Value const &v) { Ev e; e.st = str(s); e.v = v; e.what = "value " + e.st + " = " + str(v); add(e); }
  void handleValueChange(PLEXIL::State const &s, const Value &v) override { val(s, v); }
  void handleValueChange(PLEXIL::State const &s, Value &&v) override { val(s, v); }
  void handleValueChange(PLEXIL::State &&s, const Value &v) override { val(s, v); }
  void handleValueChange(PLEXIL::State &&s, Value &&v) override { val(s, v); }
  void handleCommandAck(PLEXIL::Command *c, PLEXIL::CommandHandleValue v) override { of("handle", c, std::to_string((int)v)); }
  void handleCommandReturn(PLEXIL::Command *c, Value const &v) override { of("return", c, str(v), v); }
  void handleCommandReturn(PLEXIL::Command *c, Value &&v) override { of("return", c, str(v), v); }
  void handleCommandAbortAck(PLEXIL::Command *c, bool a) override { of("aborted", c, a ? "yes" : "no"); }
  void handleUpdateAck(PLEXIL::Update *u, bool a) override { Ev e; e.what = "update " + u->getNodeId() + (a ? " yes" : " no"); add(e); }
  void notifyMessageReceived(PLEXIL::Message *) override {}
  void notifyMessageQueueEmpty() override {}
  void notifyMessageAccepted(PLEXIL::Message *, std::string const &) override {}
  void notifyMessageHandleReleased(std::string const &) override {}
  void handleAddPlan(pugi::xml_node const n) override {
    std::string x = xml(n); if (x.find("refuse") != std::string::npos) PLEXIL::throwParserException("a plan that is wrong", n);
    Ev e; e.what = "plan " + x; add(e);
  }
  bool handleAddLibrary(pugi::xml_document *d) override {
    std::string x = xml(d->document_element()); delete d; if (x.find("refuse") != std::string::npos) return false;
    Ev e; e.what = "library " + x; add(e); return true;
  }
  void notifyOfExternalEvent() override { std::lock_guard<std::mutex> g(m); ++events; eventAfter = log.size(); }
  void notifyAndWaitForCompletion() override {}
};

// ---------------------------------------------------------------- sequences
// What one agent sends: a leader and what follows it.
struct Seq { std::vector<Piece> ps; };
static Piece valuePiece(Value const &v) {
  Piece p; p.v = v;
  if (!v.isKnown()) { p.name = MSG_BASE; p.type = PlexilMsgType_UnknownValue; return p; }
  switch (v.valueType()) {
  case PLEXIL::BOOLEAN_TYPE: p.name = BOOLEAN_VALUE_MSG; p.type = PlexilMsgType_BooleanValue; break;
  case PLEXIL::INTEGER_TYPE: p.name = INTEGER_VALUE_MSG; p.type = PlexilMsgType_IntegerValue; break;
  case PLEXIL::REAL_TYPE: p.name = REAL_VALUE_MSG; p.type = PlexilMsgType_RealValue; break;
  case PLEXIL::STRING_TYPE: p.name = STRING_VALUE_MSG; p.type = PlexilMsgType_StringValue; v.getValue(p.s1); break;
  case PLEXIL::BOOLEAN_ARRAY_TYPE: p.name = BOOLEAN_ARRAY_MSG; p.type = PlexilMsgType_BooleanArray; break;
  case PLEXIL::INTEGER_ARRAY_TYPE: p.name = INTEGER_ARRAY_MSG; p.type = PlexilMsgType_IntegerArray; break;
  case PLEXIL::REAL_ARRAY_TYPE: p.name = REAL_ARRAY_MSG; p.type = PlexilMsgType_RealArray; break;
  case PLEXIL::STRING_ARRAY_TYPE: p.name = STRING_ARRAY_MSG; p.type = PlexilMsgType_StringArray; break;
  default: { p.name = COMMAND_HANDLE_VALUE_MSG; p.type = PlexilMsgType_CommandHandleValue; PLEXIL::CommandHandleValue h; v.getValue(h); p.req = h; break; }
  }
  return p;
}
// One line for one published message; the serial only ties the messages of a sequence together.
static std::string show(Piece const &p, bool lead) {
  std::string s = lead ? "" : "  "; s += "[" + (lead ? p.to : std::string()) + "] type " + std::to_string(p.type) + " count " + std::to_string(p.count) + " " + p.name + " from " + p.from + ": ";
  if (p.name == RETURN_VALUE_MSG) return s + std::to_string(p.req) + " " + p.s1;
  if (lead) return s + p.s1;
  if (p.name.find("Pair") != std::string::npos) s += p.s1 + " = ";
  return s + str(p.type == PlexilMsgType_UnknownValue ? Value() : p.v);
}
static bool unsendable(Value const &v) {
  if (!v.isKnown() || !PLEXIL::isArrayType(v.valueType())) return false;
  PLEXIL::Array const *a = nullptr; v.getValuePointer(a); return !a->allElementsKnown();
}

struct World {
  Rng r; bool racy; Intf intf; std::unique_ptr<PLEXIL::AdapterConfiguration> conf; std::unique_ptr<PLEXIL::InterfaceAdapter> ad; pugi::xml_document keep;
  std::string log; bool dead = false, started = false; uint64_t h = 0; int ids = 0;
  std::string uid, dir; std::vector<std::string> agents; std::vector<uint32_t> serials;
  bool dups = false, planner = false;
  // the model
  std::map<std::string, Value> ext; std::set<std::string> extNames; std::vector<std::string> extList;
  struct Q { std::deque<Value> msgs; std::deque<Cmd *> rcvs; };
  std::map<std::string, Q> qs; std::map<uint32_t, Cmd *> pending; std::set<Cmd *> all;
  std::vector<std::string> wantEv, wantPub; size_t evAt = 0, pubAt = 0; long notified = 0; std::set<uint32_t> ours; uint32_t lastSerial = 0;
  std::map<std::pair<std::string, uint32_t>, std::vector<Piece>> parts; // sequences still incomplete
  std::vector<std::string> labels; std::vector<uint32_t> replied;
  bool looking = false; std::string lookState; uint32_t lookSerial = 0; Value lookResult; bool lookDone = false;
  World(uint64_t s, bool rc, std::string const &d) : r(s), racy(rc), dir(d) {}
  virtual ~World() { for (Cmd *c : all) delete c; }
  void note(std::string const &s) { log += s.substr(0, 200) + "; "; if (log.size() > 1500) log.erase(0, log.size() - 1500); }
  void bad(const char *k, std::string const &w) { if (dead) return; dead = true; R.viol(k, w + " [" + log + "]"); }

  // ------------------------------------------------ values and names
  std::string word() { static const char *W[] = {"", "a", "two words", "x:y", "<&\">", "\xc3\xa9t\xc3\xa9", "0", "-1"}; return r.chance(50) ? W[r.below(8)] : "w" + std::to_string(r.below(30)); }
  PLEXIL::Integer num() { switch (r.below(5)) { case 0: return 0; case 1: return INT32_MAX; case 2: return INT32_MIN; default: return r.range(-1000, 1000); } }
  PLEXIL::Real real() { switch (r.below(6)) { case 0: return 0; case 1: return 1.0 / 3; case 2: return 1e308; case 3: return -std::numeric_limits<double>::infinity(); case 4: return 5e-324; default: return (r.unit() - 0.5) * std::pow(10.0, r.range(-30, 30)); } }
  Value scalar() { switch (r.below(4)) { case 0: return Value(r.chance(50)); case 1: return Value(num()); case 2: return Value(real()); default: return Value(PLEXIL::String(word())); } }
  Value some(bool holes = false, bool handles = false) {
    if (r.chance(8)) return Value();
    if (handles && r.chance(5)) return Value((PLEXIL::CommandHandleValue)r.range(PLEXIL::COMMAND_SENT_TO_SYSTEM, PLEXIL::COMMAND_INTERFACE_ERROR));
    if (r.chance(65)) return scalar();
    int n = r.chance(10) ? 0 : r.chance(90) ? r.range(1, 6) : r.range(50, 300); bool hole = holes && n && r.chance(15); int at = hole ? r.below(n) : -1;
    switch (r.below(4)) {
    case 0: { PLEXIL::BooleanArray a(n); for (int i = 0; i < n; ++i) if (i != at) a.setElement(i, r.chance(50)); return Value(a); }
    case 1: { PLEXIL::IntegerArray a(n); for (int i = 0; i < n; ++i) if (i != at) a.setElement(i, num()); return Value(a); }
    case 2: { PLEXIL::RealArray a(n); for (int i = 0; i < n; ++i) if (i != at) a.setElement(i, real()); return Value(a); }
    default: { PLEXIL::StringArray a(n); for (int i = 0; i < n; ++i) if (i != at) a.setElement(i, word()); return Value(a); }
    }
  }
  std::vector<Value> some(int n, bool holes, bool handles) { std::vector<Value> v; for (int i = 0; i < n; ++i) v.push_back(some(holes, handles)); return v; }
  int few() { return r.chance(25) ? 0 : r.chance(92) ? r.range(1, 4) : r.range(10, 40); }

  // ------------------------------------------------ the model of what arrives
  void ev(std::string const &s) { wantEv.push_back(s); }
  void queue(std::string const &key, Value const &v) { Q &q = qs[key]; if (!dups) q.msgs.clear(); q.msgs.push_back(v); pair(q); }
  void pair(Q &q) { while (!q.msgs.empty() && !q.rcvs.empty()) { ev("return " + std::to_string(q.rcvs.front()->id) + " " + str(q.msgs.front())); q.rcvs.pop_front(); q.msgs.pop_front(); R.add("received"); } }
  static PLEXIL::State state(std::string const &n, std::vector<Value> const &p) { PLEXIL::State s(n, p.size()); for (size_t i = 0; i < p.size(); ++i) s.setParameter(i, p[i]); return s; }
  void arrive(Piece const &p) {
    if (p.nullFrom || p.null1) return;
    bool lead = false, single = false; std::pair<std::string, uint32_t> key(p.from, p.serial);
    switch (p.type) {
    case PlexilMsgType_Command: case PlexilMsgType_LookupNow: case PlexilMsgType_PlannerUpdate: case PlexilMsgType_TelemetryValues: lead = true; break;
    case PlexilMsgType_ReturnValues: if (p.s1 != uid) return; lead = true; break;
    case PlexilMsgType_Message: case PlexilMsgType_NotifyExec: case PlexilMsgType_AddPlan: case PlexilMsgType_AddPlanFile: case PlexilMsgType_AddLibrary: case PlexilMsgType_AddLibraryFile: single = true; break;
    default: break;
    }
    if (single) { apply({p}); return; }
    if (lead) { parts.erase(key); if (!p.count) apply({p}); else parts[key] = {p}; return; }
    auto it = parts.find(key); if (it == parts.end()) { R.add("strays"); return; }
    it->second.push_back(p); if ((int)it->second.size() > it->second[0].count) { auto s = it->second; parts.erase(it); apply(s); }
  }
  std::vector<Value> vals(std::vector<Piece> const &s, size_t from) { std::vector<Value> v; for (size_t i = from; i < s.size(); ++i) v.push_back(s[i].type == PlexilMsgType_UnknownValue || s[i].name.find("Pair") != std::string::npos ? Value() : s[i].v); return v; }
  virtual void apply(std::vector<Piece> const &s) {
    Piece const &l = s[0]; R.add("arrivals");
    switch (l.type) {
    case PlexilMsgType_Message: queue("M" + l.s1, Value(l.s1)); break;
    case PlexilMsgType_NotifyExec: ++notified; break;
    case PlexilMsgType_AddPlan: case PlexilMsgType_AddLibrary: case PlexilMsgType_AddPlanFile: case PlexilMsgType_AddLibraryFile: {
      pugi::xml_document d; bool file = l.type == PlexilMsgType_AddPlanFile || l.type == PlexilMsgType_AddLibraryFile;
      bool ok = file ? d.load_file(l.s1.c_str()).status == pugi::status_ok : d.load_string(l.s1.c_str()).status == pugi::status_ok;
      std::string x = ok ? xml(d.document_element()) : ""; if (!ok || x.find("refuse") != std::string::npos) { R.add("plansrefused"); break; }
      ev((l.type == PlexilMsgType_AddPlan || l.type == PlexilMsgType_AddPlanFile ? "plan " : "library ") + x); R.add("plans"); break; }
    case PlexilMsgType_Command: {
      std::string lab = std::to_string((int)l.serial) + ":" + l.from; auto v = vals(s, 1); labels.push_back(lab); if (labels.size() > 6) labels.erase(labels.begin());
      queue("C" + l.s1, Value(lab)); for (size_t i = 0; i < v.size(); ++i) queue("P" + lab + "/" + std::to_string(i), v[i]); break; }
    case PlexilMsgType_TelemetryValues: {
      if (l.s1.empty() || !l.count) break;
      auto v = vals(s, 1); Value x = v[0]; v.erase(v.begin()); std::string st = str(state(l.s1, v));
      if (looking && st == lookState) { looking = false; lookDone = true; lookResult = x; break; }
      ev("value " + st + " = " + str(x)); R.add("telemetry"); break; }
    case PlexilMsgType_ReturnValues: {
      if (l.count != 1) break;
      Value x = vals(s, 1)[0];
      if (looking && l.req == lookSerial) { looking = false; lookDone = true; lookResult = x; break; }
      auto it = pending.find(l.req); if (it == pending.end()) { R.add("unasked"); break; }
      if (s[1].count == MSG_COUNT_CMD_ACK) {
        if (s[1].type != PlexilMsgType_CommandHandleValue || s[1].req <= PLEXIL::NO_COMMAND_HANDLE || s[1].req >= PLEXIL::COMMAND_HANDLE_MAX) break;
        ev("handle " + std::to_string(it->second->id) + " " + std::to_string(s[1].req)); R.add("handles"); break; }
      ev("return " + std::to_string(it->second->id) + " " + str(x)); R.add("returns"); break; }
    case PlexilMsgType_LookupNow: {
      auto v = vals(s, 1); auto it = ext.find(str(state(l.s1, v))); if (it == ext.end()) it = ext.find(str(state(l.s1, {})));
      if (it == ext.end()) { R.add("queriesignored"); break; }
      if (unsendable(it->second)) break;
      R.add("queries"); publish(ret(l.serial, l.from, it->second)); break; }
    default: break;
    }
  }
  // ------------------------------------------------ the model of what is published
  Piece lead(int type, std::string const &to, std::string const &text, size_t n) { Piece p; p.name = STRING_VALUE_MSG; p.type = type; p.to = to; p.count = n; p.s1 = text; return p; }
  Seq seq(Piece l, std::vector<Value> const &v) { Seq s; s.ps.push_back(l); for (size_t i = 0; i < v.size(); ++i) { Piece p = valuePiece(v[i]); p.count = i; s.ps.push_back(p); } return s; }
  Seq ret(uint32_t req, std::string const &to, Value const &v) { Piece l; l.name = RETURN_VALUE_MSG; l.type = PlexilMsgType_ReturnValues; l.to = to; l.count = 1; l.req = req; l.s1 = to; Seq s = seq(l, {v}); return s; }
  Seq sign(Seq s, std::string const &from, uint32_t serial) { for (Piece &p : s.ps) { p.from = from; p.serial = serial; } return s; }
  // The adapter publishes this; only the first n messages if a call fails.
  std::deque<Piece> looped; std::vector<size_t> pubLens;
  void publish(Seq s, size_t n = 1u << 20) {
    s = sign(s, uid, 0); if (n > s.ps.size()) n = s.ps.size();
    for (size_t i = 0; i < n; ++i) wantPub.push_back(show(s.ps[i], i == 0));
    if (n) pubLens.push_back(n);
  }

  // ------------------------------------------------ comparing
  // Takes the new entries of the log of the bus; own messages arrive again if the bus says so.
  bool settle() {
    if (dead) return false;
    if (started && !B.quiet(20000)) { bad("lost", "messages that arrived are not taken"); return false; }
    std::lock_guard<std::mutex> g(B.m);
    if (!B.wrong.empty()) { bad("bus", B.wrong); return false; }
    std::lock_guard<std::mutex> g2(intf.m);
    if (!intf.wrong.empty()) { bad("stale", intf.wrong); return false; }
    for (size_t i = 0; evAt < intf.log.size() || i < wantEv.size(); ++evAt, ++i) {
      std::string got = evAt < intf.log.size() ? intf.log[evAt].what : "nothing", want = i < wantEv.size() ? wantEv[i] : "nothing";
      if (got != want) { bad("effect", "the executive is told \"" + got.substr(0, 300) + "\" instead of \"" + want.substr(0, 300) + "\""); return false; }
      h = vc::mix(h, vc::hashStr(got)); R.add("effects");
    }
    wantEv.clear();
    size_t i = 0; uint32_t cur = 0; std::string from; size_t k = 0, left = 0;
    for (; pubAt < B.log.size() || i < wantPub.size(); ++pubAt, ++i) {
      std::string got = pubAt < B.log.size() ? "" : "nothing", want = i < wantPub.size() ? wantPub[i] : "nothing";
      if (pubAt < B.log.size()) {
        Piece const &p = B.log[pubAt]; bool first = left == 0; if (first && k < pubLens.size()) left = pubLens[k++];
        got = show(p, first); if (left) --left;
        if (first) { cur = p.serial; if (!ours.insert(cur).second) { bad("publish", "serial " + std::to_string(cur) + " is used again"); return false; } lastSerial = cur; }
        else if (p.serial != cur) { bad("publish", "a part of message " + std::to_string(cur) + " is numbered " + std::to_string(p.serial)); return false; }
      }
      if (got != want) { bad("publish", "published: \"" + got.substr(0, 300) + "\" instead of \"" + want.substr(0, 300) + "\""); return false; }
      R.add("published");
    }
    wantPub.clear(); pubLens.clear();
    return true;
  }
  // What the adapter publishes comes back to it, where it is heard by everybody or addressed to it.
  void echo(size_t from) {
    std::vector<Piece> v; { std::lock_guard<std::mutex> g(B.m); for (size_t i = from; i < B.log.size(); ++i) if (B.log[i].to == uid || (B.log[i].to.empty() && B.loop)) v.push_back(B.log[i]); }
    for (Piece const &p : v) arrive(p);
  }
  size_t mark() { std::lock_guard<std::mutex> g(B.m); return B.log.size(); }
  // After an operation of the executive: its messages come back, and replies to them, until nothing more happens.
  bool finishOp(size_t from) {
    for (int i = 0; i < 10 && !dead; ++i) {
      if (started && !B.quiet(20000)) { bad("lost", "messages that arrived are not taken"); return false; }
      size_t n = mark(); if (n == from) break;
      echo(from); from = n;
    }
    return settle();
  }

  // ------------------------------------------------ commands
  Cmd *cmd(std::string const &n, std::vector<Value> const &a) { Cmd *c = new Cmd(n, a, ids++); all.insert(c); std::lock_guard<std::mutex> g(intf.m); intf.live[c] = c->id; return c; }
  void over(Cmd *c) { { std::lock_guard<std::mutex> g(intf.m); intf.live.erase(c); if (racy) for (auto &e : intf.log) if (e.cmd == c) e.cmd = nullptr; } for (auto it = pending.begin(); it != pending.end();) it = it->second == c ? pending.erase(it) : std::next(it); all.erase(c); delete c; }
  void exec(Cmd *c) { PLEXIL::CommandHandler *hd = conf->getCommandHandler(c->getName()); if (!hd) { bad("internal", "no handler for " + c->getName()); return; } if (!racy) hold(true); hd->executeCommand(c, &intf); if (!racy) hold(false); }
  // The adapter does not get its own messages back before it has posted what comes of them.
  void hold(bool on) { std::lock_guard<std::mutex> g(B.m); B.pause = on; B.cv.notify_all(); }
  void handle(Cmd *c, int v) { ev("handle " + std::to_string(c->id) + " " + std::to_string(v)); }
  int fault(size_t pieces) { int f = r.chance(8) ? r.range(1, (int)pieces + 1) : 0; std::lock_guard<std::mutex> g(B.m); B.failPublish = f; B.failed = 0; return f; }
  // How many messages get through, and whether all do.
  size_t through(int f, size_t pieces, bool &ok) { { std::lock_guard<std::mutex> g(B.m); B.failPublish = 0; } if (!started) { ok = false; return 0; } ok = !f || (size_t)f > pieces; if (!ok) R.add("faults"); return ok ? pieces : f - 1; }
  std::string cname() { static const char *N[] = {"go", "stop", "x_0", "Move arm", ""}; return N[r.below(5)]; }
  std::string mname() { static const char *N[] = {"hello", "m1", "two words", "__x", ""}; return N[r.below(5)]; }
  Value wrongName() { switch (r.below(4)) { case 0: return Value((PLEXIL::Integer)1); case 1: return Value(); case 2: return Value(PLEXIL::STRING_TYPE); default: return Value(2.5); } }

  void doSendMessage() {
    std::string m = mname(); std::vector<Value> a{Value(PLEXIL::String(m))}; bool ok = true; int q = r.below(100);
    if (q < 4) a.clear(), ok = false; else if (q < 8) a.push_back(a[0]), ok = false; else if (q < 12) a[0] = wrongName(), ok = false;
    size_t at = mark(); int f = fault(1); Cmd *c = cmd("SendMessage", a); note("send message " + m + (ok ? "" : " wrongly") + (f ? " fault " + std::to_string(f) : "")); exec(c);
    bool sent; size_t n = through(f, 1, sent); if (ok) { publish(seq(lead(PlexilMsgType_Message, "", m, 0), {}), n); R.add("messages"); }
    handle(c, ok && sent ? PLEXIL::COMMAND_SUCCESS : PLEXIL::COMMAND_FAILED); finishOp(at); if (!dead) over(c);
  }
  std::string destOf(std::string const &full, std::string &rest) { size_t k = full.find(':'); if (k == std::string::npos) { rest = full; return ""; } rest = full.substr(k + 1); return full.substr(0, k); }
  std::string address(std::string const &n) { int q = r.below(100); return q < 55 ? n : q < 85 ? r.pick(agents) + ":" + n : q < 90 ? uid + ":" + n : q < 95 ? ":" + n : "Nobody:" + n; }
  std::vector<Cmd *> sentCmds;
  void doCommand(Cmd *again = nullptr) {
    std::string full = again ? again->getName() : address("cmd" + std::to_string(r.below(4))), rest, to = destOf(full, rest);
    std::vector<Value> a = again ? again->getArgValues() : some(few(), true, true); bool ok = true; for (auto &v : a) if (unsendable(v)) ok = false;
    bool known = to != "Nobody"; size_t at = mark(); int f = fault(a.size() + 1);
    Cmd *c = again ? again : cmd(full, a); note((again ? "again " : "command ") + full + "/" + std::to_string(a.size()) + (ok ? "" : " unsendable") + (f ? " fault " + std::to_string(f) : "")); 
    if (again) for (auto it = pending.begin(); it != pending.end();) it = it->second == c ? pending.erase(it) : std::next(it);
    exec(c); bool sent; size_t n = through(f, a.size() + 1, sent); if (!known) { n = 0; sent = false; } if (!ok) { n = 0; sent = false; }
    publish(seq(lead(PlexilMsgType_Command, to, rest, a.size()), a), n); handle(c, sent ? PLEXIL::COMMAND_SENT_TO_SYSTEM : PLEXIL::COMMAND_FAILED); R.add("commands");
    { std::lock_guard<std::mutex> g(B.m); if (sent && B.log.size() > at) { pending[B.log[at].serial] = c; replied.push_back(B.log[at].serial); } }
    finishOp(at); if (dead) return;
    if (sent) { if (!again) sentCmds.push_back(c); } else if (!again) over(c);
  }
  void doReturn() {
    uint32_t ser = r.chance(80) ? r.below(50) : (uint32_t)r.next(); std::string to = r.chance(85) ? r.pick(agents) : r.chance(50) ? uid : "Nobody"; Value v = some(true, true);
    std::string label = std::to_string((int)ser) + ":" + to; if (!labels.empty() && r.chance(60)) { label = labels[r.below(labels.size())]; ser = (uint32_t)atoi(label.c_str()); to = label.substr(label.find(':') + 1); }
    std::vector<Value> a{Value(PLEXIL::String(label)), v}; bool ok = !unsendable(v); int q = r.below(100);
    if (q < 3) a.clear(), ok = false; else if (q < 6) a.pop_back(), ok = false; else if (q < 9) a[0] = wrongName(), ok = false; else if (q < 12) a[0] = Value(PLEXIL::String("nothing")), ok = false; else if (q < 15) a.push_back(v), ok = false;
    size_t at = mark(); int f = fault(2); Cmd *c = cmd("SendReturnValue", a); note("return value to " + label + (ok ? "" : " wrongly") + (f ? " fault" : "")); exec(c);
    bool known = to == uid || std::find(agents.begin(), agents.end(), to) != agents.end(), sent; size_t n = through(f, 2, sent); if (!ok || !known) { n = 0; sent = false; }
    Seq s = ret(ser, to, v); if (!unsendable(v)) publish(s, n);
    handle(c, sent ? PLEXIL::COMMAND_SUCCESS : PLEXIL::COMMAND_FAILED); finishOp(at); if (!dead) over(c); R.add("returnsent");
  }
  void doReceive(bool message) {
    std::string n = message ? mname() : cname(); std::vector<Value> a{Value(PLEXIL::String(n))}; bool ok = true; int q = r.below(100);
    if (q < 3) a.clear(), ok = false; else if (q < 6) a.push_back(a[0]), ok = false; else if (q < 9) a[0] = wrongName(), ok = false;
    Cmd *c = cmd(message ? "ReceiveMessage" : "ReceiveCommand", a); note((message ? "receive message " : "receive command ") + n + (ok ? "" : " wrongly"));
    waitFor(c, (message ? "M" : "C") + n, ok);
  }
  // The value may come before or after the handle; both orders are tried.
  void waitFor(Cmd *c, std::string const &key, bool ok) {
    size_t at = mark(); exec(c); if (!ok) { handle(c, PLEXIL::COMMAND_FAILED); settle(); if (!dead) over(c); return; }
    Q &q = qs[key]; std::string id = std::to_string(c->id), first; { std::lock_guard<std::mutex> g(intf.m); if (evAt < intf.log.size()) first = intf.log[evAt].what; }
    q.rcvs.push_back(c); R.add("receives");
    if (first.compare(0, 6, "handle") == 0) { handle(c, PLEXIL::COMMAND_SENT_TO_SYSTEM); pair(q); } else { pair(q); handle(c, PLEXIL::COMMAND_SENT_TO_SYSTEM); }
    finishOp(at);
  }
  void doGet() {
    if (labels.empty()) return;
    std::string l = labels[r.below(labels.size())]; int k = r.below(4); std::vector<Value> a{Value(PLEXIL::String(l)), Value((PLEXIL::Integer)k)}; bool ok = true; int q = r.below(100);
    if (q < 3) a.clear(), ok = false; else if (q < 6) a.push_back(a[1]), ok = false; else if (q < 9) a[0] = wrongName(), ok = false; else if (q < 12) a[1] = Value((PLEXIL::Integer)-1), ok = false;
    else if (q < 15) a[1] = r.chance(50) ? Value(PLEXIL::INTEGER_TYPE) : Value(1.0), ok = false; else if (q < 30) { a.pop_back(); k = 0; }
    Cmd *c = cmd("GetParameter", a); note("parameter " + std::to_string(k) + " of " + l + (ok ? "" : " wrongly")); R.add("parameters"); waitFor(c, "P" + l + "/" + std::to_string(k), ok);
  }
  std::vector<Value> lookParams() { std::vector<Value> v; int n = r.chance(60) ? 0 : r.range(1, 2); for (int i = 0; i < n; ++i) v.push_back(r.chance(50) ? Value((PLEXIL::Integer)r.below(2)) : Value(PLEXIL::String(r.chance(50) ? "p" : ""))); return v; }
  void doUpdateLookup() {
    bool known = !extList.empty() && r.chance(90); std::string n = known ? r.pick(extList) : "undeclared"; std::vector<Value> ps = lookParams(), a{Value(PLEXIL::String(n)), some(true, false)}; a.insert(a.end(), ps.begin(), ps.end()); bool form = true; int q = r.below(100);
    if (q < 3) a.clear(), form = false; else if (q < 6) a.resize(1), form = false; else if (q < 9) a[0] = wrongName(), form = false;
    size_t at = mark(); bool ok = form && known; std::vector<Value> v(a.begin() + (a.empty() ? 0 : 1), a.end()); bool sendable = true; for (auto &x : v) if (unsendable(x)) sendable = false;
    int f = fault(v.size() + 1); Cmd *c = cmd("UpdateLookup", a); note("update lookup " + n + "/" + std::to_string(ps.size()) + (ok ? "" : " wrongly") + (sendable ? "" : " unsendable") + (f ? " fault" : "")); exec(c);
    bool sent; size_t np = through(f, v.size() + 1, sent); if (!sendable) { np = 0; sent = false; }
    if (ok) { std::string st = str(state(n, ps)); ext[st] = a[1]; ev("value " + st + " = " + str(a[1])); publish(seq(lead(PlexilMsgType_TelemetryValues, "", n, v.size()), v), np); }
    handle(c, ok && sent ? PLEXIL::COMMAND_SUCCESS : PLEXIL::COMMAND_FAILED); R.add("lookupupdates"); finishOp(at); if (!dead) over(c);
  }
  void doUpdate() {
    if (!planner) return;
    Upd u; u.node = "Node" + std::to_string(r.below(3)); int n = few(); bool sendable = true; for (int i = 0; i < n; ++i) { Value v = r.chance(88) ? scalar() : some(); if (!v.isKnown() || PLEXIL::isArrayType(v.valueType())) sendable = false; u.ps["n" + std::to_string(i)] = v; }
    std::vector<std::pair<std::string, Value>> ps(u.ps.begin(), u.ps.end()); size_t at = mark(); int f = fault(n + 1); note("update of " + std::to_string(n) + (sendable ? "" : " unsendable") + (f ? " fault" : ""));
    hold(true); try { conf->getPlannerUpdateHandler()(&u, &intf); } catch (PLEXIL::InterfaceError const &) { bad("update", "an update that cannot be sent raises an error"); return; } hold(false);
    bool sent; size_t np = through(f, n + 1, sent); if (!sendable) { np = 0; sent = false; } if (!n) { np = 0; sent = true; }
    Seq s; s.ps.push_back(lead(PlexilMsgType_PlannerUpdate, "", u.node, n));
    for (int i = 0; i < n; ++i) { Piece p; p.count = i; p.s1 = ps[i].first; p.v = ps[i].second; if (p.v.isKnown()) switch (p.v.valueType()) { case PLEXIL::BOOLEAN_TYPE: p.name = BOOLEAN_PAIR_MSG; p.type = PlexilMsgType_PairBoolean; break; case PLEXIL::INTEGER_TYPE: p.name = INTEGER_PAIR_MSG; p.type = PlexilMsgType_PairInteger; break; case PLEXIL::REAL_TYPE: p.name = REAL_PAIR_MSG; p.type = PlexilMsgType_PairReal; break; default: p.name = STRING_PAIR_MSG; p.type = PlexilMsgType_PairString; break; } s.ps.push_back(p); }
    publish(s, np); ev("update " + u.node + (sent ? " yes" : " no")); R.add("updates"); finishOp(at);
  }
  // A lookup of the executive. Somebody on the bus answers it, after sending other things.
  void doLookup() {
    bool mine = !extList.empty() && r.chance(35); std::string n = mine ? r.pick(extList) : address("st" + std::to_string(r.below(4))), rest, to = destOf(n, rest); std::vector<Value> ps = lookParams(); if (r.chance(5) && ps.size()) { PLEXIL::IntegerArray a(2); a.setElement(0, 1); ps[0] = Value(a); }
    bool sendable = true; for (auto &x : ps) if (unsendable(x)) sendable = false;
    PLEXIL::State st = state(n, ps); auto it = ext.find(str(st)); Rcv rc; size_t at = mark(); PLEXIL::LookupHandler *lh = conf->getLookupHandler(n); note("lookup " + str(st));
    if (it != ext.end()) { lh->lookupNow(st, &rc); if (rc.got.size() != 1 || rc.got[0] != str(it->second)) bad("lookup", "a lookup of " + str(st) + " gives " + (rc.got.empty() ? "nothing" : rc.got[0]) + " instead of " + str(it->second)); R.add("ownlookups"); settle(); return; }
    if (!started) return;
    Seq s = seq(lead(PlexilMsgType_LookupNow, to, rest, ps.size()), ps); int f = fault(s.ps.size()); bool sent; 
    // the answer, in the middle of other things
    std::vector<Seq> noise; for (int i = 0, k = r.below(3); i < k; ++i) noise.push_back(other());
    Value ans = some(); std::string who = r.pick(agents); bool tele = r.chance(35); int extra = r.chance(25) ? 1 : 0; uint32_t base = serials[0]; for (auto &x : serials) if (x > base) base = x; for (Seq &o : noise) for (Piece &p2 : o.ps) { if (p2.serial > base) base = p2.serial; if (p2.name == COMMAND_HANDLE_VALUE_MSG && (p2.req <= PLEXIL::NO_COMMAND_HANDLE || p2.req >= PLEXIL::COMMAND_HANDLE_MAX)) { p2.req = PLEXIL::COMMAND_SENT_TO_SYSTEM; p2.v = Value(PLEXIL::COMMAND_SENT_TO_SYSTEM); } }
    std::vector<Piece> batch; uint32_t lser = 0; 
    size_t len = s.ps.size(), have = 0;
    { std::lock_guard<std::mutex> g(B.m); B.onPublish = [&](Piece const &p) {
        if (p.type == PlexilMsgType_LookupNow) lser = p.serial;
        if (++have != len) return;
        B.failPublish = 0;
        for (int e = 0; e <= extra; ++e) {
          Seq a; Value v = e ? scalar() : ans; bool t = e ? r.chance(50) : tele;
          if (t) { std::vector<Value> tv{v}; tv.insert(tv.end(), ps.begin(), ps.end()); a = seq(lead(PlexilMsgType_TelemetryValues, "", rest, tv.size()), tv); } else { a = ret(lser, uid, v); if (r.chance(50)) for (Piece &p2 : a.ps) p2.to = ""; }
          noise.push_back(sign(a, who, ++base));
        }
        serials.assign(serials.size(), base); if (r.chance(50) && noise.size() > 1 && !extra) std::swap(noise[noise.size() - 1], noise[r.below(noise.size())]);
        batch = extra ? merge(noise, true) : merge(noise, false); for (Piece const &p2 : batch) B.put(p2); }; }
    lh->lookupNow(st, &rc); size_t np = through(f, len, sent); if (to == "Nobody") { sent = false; np = 0; } if (!sendable) { sent = false; np = 0; }
    { std::lock_guard<std::mutex> g(B.m); B.onPublish = nullptr; }
    publish(s, np); 
    if (sent) {
      looking = true; lookDone = false; lookState = str(state(rest, ps)); lookSerial = lser; R.add("lookups");
      // the query itself comes back before the answers, if it does
      std::vector<Piece> back; { std::lock_guard<std::mutex> g(B.m); for (size_t i = at; i < at + len && i < B.log.size(); ++i) if (B.log[i].to == uid || (B.log[i].to.empty() && B.loop)) back.push_back(B.log[i]); }
      for (Piece const &p : back) arrive(p);
      for (Piece const &p : batch) arrive(p);
      if (!dead && !lookDone) bad("internal", "no answer");
      std::string want = str(lookResult); if (rc.got.size() != 1 || rc.got[0] != want) bad("lookup", "a lookup of " + str(st) + " gives " + (rc.got.empty() ? "nothing" : rc.got[0]) + " instead of " + want);
      h = vc::mix(h, vc::hashStr(want)); finishOp(at + len);
    } else {
      if (rc.got.size() > 1 || (rc.got.size() == 1 && rc.got[0] != str(Value()))) bad("lookup", "a lookup that cannot be sent gives " + rc.got[0]); R.add("lookupfaults"); finishOp(at); }
  }
  void doAbort() {
    std::vector<std::pair<Q *, size_t>> w; for (auto &q : qs) for (size_t i = 0; i < q.second.rcvs.size(); ++i) w.emplace_back(&q.second, i);
    Cmd *c = nullptr;
    if (!w.empty() && (sentCmds.empty() || r.chance(60))) { auto p = w[r.below(w.size())]; c = p.first->rcvs[p.second]; p.first->rcvs.erase(p.first->rcvs.begin() + p.second); }
    else if (!sentCmds.empty()) { size_t k = r.below(sentCmds.size()); c = sentCmds[k]; sentCmds.erase(sentCmds.begin() + k); }
    if (!c) return;
    note("abort " + c->getName()); conf->getCommandHandler(c->getName())->abortCommand(c, &intf); ev("aborted " + std::to_string(c->id) + " yes"); R.add("aborts"); settle(); if (!dead) over(c);
  }

  // ------------------------------------------------ what the others send
  Seq other() {
    size_t w = r.below(agents.size()); uint32_t ser = ++serials[w]; if (r.chance(3)) serials[w] = ser = 0x80000000u + r.below(1000); Seq s; std::string me = r.chance(60) ? "" : uid; int q = r.below(100);
    if (q < 20) s = seq(lead(PlexilMsgType_Message, me, mname(), 0), {});
    else if (q < 42) { auto v = some(few(), false, false); s = seq(lead(PlexilMsgType_Command, me, cname(), v.size()), v); }
    else if (q < 56) { std::vector<Value> v{some()}; auto p = lookParams(); v.insert(v.end(), p.begin(), p.end()); s = seq(lead(PlexilMsgType_TelemetryValues, me, r.chance(15) && extList.size() ? r.pick(extList) : "st" + std::to_string(r.below(4)), v.size()), v); }
    else if (q < 70) { // an answer to a command, or to nothing
      uint32_t req = !replied.empty() && r.chance(80) ? replied[replied.size() - 1 - r.below(std::min<size_t>(replied.size(), 4))] : r.below(40);
      s = ret(req, uid, some(false, true)); s.ps[0].to = s.ps[1].to = me;
      if (r.chance(30)) { int hv = r.chance(80) ? r.range(PLEXIL::COMMAND_SENT_TO_SYSTEM, PLEXIL::COMMAND_INTERFACE_ERROR) : r.below(100); Piece p; p.name = COMMAND_HANDLE_VALUE_MSG; p.type = PlexilMsgType_CommandHandleValue; p.req = hv; p.v = Value((PLEXIL::CommandHandleValue)(hv > 48 && hv < 58 ? hv : 49)); p.count = MSG_COUNT_CMD_ACK; p.to = me; s.ps[1] = p; if (r.chance(10)) { s.ps[1] = valuePiece(scalar()); s.ps[1].count = MSG_COUNT_CMD_ACK; } } }
    else if (q < 82) { auto p = lookParams(); s = seq(lead(PlexilMsgType_LookupNow, me, extList.size() && r.chance(80) ? r.pick(extList) : "unheard", p.size()), p); }
    else if (q < 86) { Piece p; p.name = MSG_BASE; p.type = PlexilMsgType_NotifyExec; p.to = me; s.ps.push_back(p); }
    else if (q < 92) s = planSeq(me);
    else if (q < 94) { Value v = scalar(); s.ps.push_back(lead(PlexilMsgType_PlannerUpdate, me, "N", 1)); Piece p; p.name = STRING_PAIR_MSG; p.type = PlexilMsgType_PairString; p.s1 = "x"; p.v = Value(PLEXIL::String("y")); s.ps.push_back(p); }
    else s = wrong(me);
    return sign(s, s.ps.size() && s.ps[0].nullFrom ? "" : agents[w], ser);
  }
  Seq planSeq(std::string const &me) {
    std::string x = "<PlexilPlan><Node NodeType=\"Empty\"><NodeId>p" + std::to_string(r.below(1000)) + "</NodeId>" + (r.chance(10) ? "<refuse/>" : "") + "</Node></PlexilPlan>"; bool file = r.chance(40), lib = r.chance(40);
    int q = r.below(100); if (q < 6) x = "<PlexilPlan><Node>"; else if (q < 9) x = ""; else if (q < 11) x = "plain text";
    if (!file) return seq(lead(lib ? PlexilMsgType_AddLibrary : PlexilMsgType_AddPlan, me, x, 0), {});
    std::string f = dir + "/p" + std::to_string(r.below(1000000)) + ".plx"; if (q >= 95) f = dir + "/missing"; else { FILE *o = fopen(f.c_str(), "w"); if (o) { fputs(x.c_str(), o); fclose(o); } files.push_back(f); }
    return seq(lead(lib ? PlexilMsgType_AddLibraryFile : PlexilMsgType_AddPlanFile, me, f, 0), {});
  }
  std::vector<std::string> files;
  Seq wrong(std::string const &me) {
    Seq s; R.add("malformed"); Piece p;
    switch (r.below(10)) {
    case 0: s.ps.push_back(valuePiece(scalar())); break;                                                       // no leader
    case 1: s = seq(lead(PlexilMsgType_Command, me, cname(), 3), some(r.below(3), false, false)); break;             // never completed
    case 2: s = ret(replied.empty() ? 1 : replied.back(), uid, scalar()); s.ps[0].count = 2; s.ps.push_back(valuePiece(scalar())); break; // two values
    case 3: s = ret(replied.empty() ? 1 : replied.back(), uid, scalar()); s.ps[0].count = 0; s.ps.resize(1); break;   // none
    case 4: s = ret(replied.empty() ? 1 : replied.back(), "Somebody", scalar()); s.ps[0].to = s.ps[1].to = ""; break; // for somebody else
    case 5: s = seq(lead(PlexilMsgType_TelemetryValues, me, "st1", 0), {}); break;
    case 6: s = seq(lead(PlexilMsgType_TelemetryValues, me, "", 1), {scalar()}); break;
    case 7: { static const int T[] = {PlexilMsgType_Message, PlexilMsgType_Command, PlexilMsgType_AddPlan, PlexilMsgType_AddLibraryFile, PlexilMsgType_LookupNow, PlexilMsgType_TelemetryValues}; s = seq(lead(T[r.below(6)], me, "", 0), {}); s.ps[0].null1 = true; break; } // no text
    case 8: s = seq(lead(PlexilMsgType_Message, me, mname(), 0), {}); s.ps[0].nullFrom = true; break;                 // no sender
    default: s = seq(lead(PlexilMsgType_Command, me, cname(), 1), {}); p.name = INTEGER_PAIR_MSG; p.type = PlexilMsgType_PairInteger; p.s1 = "k"; p.v = Value((PLEXIL::Integer)4); s.ps.push_back(p); break; // a pair for an argument
    }
    return s;
  }
  // The messages of several agents, in some order that keeps that of each sequence.
  std::vector<Piece> merge(std::vector<Seq> const &v, bool keep) {
    std::vector<Piece> out; std::vector<size_t> at(v.size()); size_t left = 0; for (auto &s : v) left += s.ps.size();
    size_t i = 0; while (left) { if (keep) { while (at[i] == v[i].ps.size()) ++i; } else do i = r.below(v.size()); while (at[i] == v[i].ps.size()); out.push_back(v[i].ps[at[i]++]); --left; }
    return out;
  }
  void doArrive() {
    std::vector<Seq> v; for (int i = 0, n = r.chance(40) ? 1 : r.range(2, 5); i < n; ++i) v.push_back(other());
    if (v.size() > 1) R.add("interleaved");
    std::vector<Piece> ps = merge(v, r.chance(30)); if (r.chance(3)) { size_t k = r.below(ps.size()); ps.insert(ps.begin() + k, ps[k]); } // sent twice
    std::string d; for (auto &p : ps) { d += "t" + std::to_string(p.type) + "#" + std::to_string(p.serial) + (p.to.empty() ? "" : "@") + " "; } note("arrive " + d);
    size_t at = mark(); long n0; { std::lock_guard<std::mutex> g(intf.m); n0 = intf.events; }
    long k0 = notified; B.inject(ps); if (started) for (auto &p : ps) arrive(p);
    finishOp(at); std::lock_guard<std::mutex> g(intf.m); if (!dead && intf.events - n0 < notified - k0) bad("notify", "the executive was not told of an event");
    if (!dead && intf.eventAfter != (long)intf.log.size() && !intf.log.empty() && intf.log.back().what.compare(0, 7, "library")) bad("notify", "something was posted without telling the executive: " + intf.log.back().what);
  }

  // ------------------------------------------------ configuration
  std::string config() {
    dups = r.chance(50); planner = r.chance(80); uid = r.chance(80) ? "Exec" + std::to_string(r.below(3)) : ""; agents = {"A", "B-2", "agent with spaces"}; serials = {0, 0, 0};
    std::string x = "<Adapter AdapterType=\"IpcAdapter\""; if (!uid.empty()) x += " TaskName=\"" + uid + "\""; if (r.chance(50)) x += " Server=\"localhost\""; if (dups) x += " AllowDuplicateMessages=\"true\""; x += ">";
    if (r.chance(60) || racy) x += "<DefaultCommandAdapter/>"; else { x += "<CommandNames>"; std::string l; for (int i = 0; i < 4; ++i) for (std::string a : {std::string(), agents[0] + ":", agents[1] + ":", agents[2] + ":", uid + ":", std::string(":"), std::string("Nobody:")}) { if (!l.empty()) l += ","; l += a + "cmd" + std::to_string(i); } if (uid.empty()) { x.resize(x.size() - 14); x += "<DefaultCommandAdapter/>"; } else x += l + "</CommandNames>"; }
    x += "<DefaultLookupAdapter/>"; if (planner) x += "<PlannerUpdate/>";
    int n = r.chance(15) && !racy ? 0 : r.range(1, 4); if (n || r.chance(50)) {
      x += "<ExternalLookups>"; static const char *T[] = {"Boolean", "Integer", "Real", "String", "BooleanArray", "IntegerArray", "RealArray", "StringArray"};
      for (int i = 0; i < n; ++i) { int t = r.below(8); std::string nm = "ext" + std::to_string(i), v; Value val;
        auto two = [&](auto a, const char *s) { v = s; return Value(a); };
        switch (t) { case 0: { bool b = r.chance(50); v = b ? "true" : "false"; val = Value(b); break; } case 1: { PLEXIL::Integer k = num(); v = std::to_string(k); val = Value(k); break; } case 2: { PLEXIL::Real k = r.range(-1000, 1000) / 8.0; v = std::to_string(k); val = Value(k); break; } case 3: { v = r.chance(20) ? "" : "text " + std::to_string(r.below(9)); val = Value(PLEXIL::String(v)); break; }
          case 4: { PLEXIL::BooleanArray a(2); a.setElement(0, true); a.setElement(1, false); val = two(a, "true, false"); break; } case 5: { PLEXIL::IntegerArray a(2); a.setElement(0, 7); a.setElement(1, -2); val = two(a, "7, -2"); break; } case 6: { PLEXIL::RealArray a(2); a.setElement(0, 1.5); a.setElement(1, -2.25); val = two(a, "1.5, -2.25"); break; } default: { PLEXIL::StringArray a(2); a.setElement(0, std::string("one")); a.setElement(1, std::string("t w o")); val = two(a, "&quot;one&quot;, &quot;t w o&quot;"); break; } }
        x += "<Lookup name=\"" + nm + "\" type=\"" + T[t] + "\" value=\"" + v + "\"/>"; if (r.chance(10)) x += "<Lookup name=\"" + nm + "\" type=\"Integer\" value=\"9\"/>";
        ext[str(state(nm, {}))] = val; extList.push_back(nm); }
      x += "</ExternalLookups>"; }
    return x + "</Adapter>";
  }
  bool start() {
    { std::lock_guard<std::mutex> g(B.m); for (auto &a : agents) for (const char *n : NAMES) B.defs[a + n] = FMT(n); }
    int f = !racy && r.chance(4) ? r.range(1, 2) : 0; { std::lock_guard<std::mutex> g(B.m); if (f == 1) B.failConnect = 1; if (f == 2) B.failDefine = r.range(1, 20); }
    bool ok = ad->start(); { std::lock_guard<std::mutex> g(B.m); B.failConnect = B.failDefine = 0; }
    if (ok == (f != 0)) { bad("start", ok ? "the adapter starts without a connection" : "the adapter does not start"); return false; }
    if (!ok) { R.add("startfaults"); if (!ad->start()) { bad("start", "the adapter cannot be started after a failure"); return false; } }
    { std::lock_guard<std::mutex> g(B.m); if (!uid.empty() && B.module != uid) bad("start", "it calls itself " + B.module + " instead of " + uid); uid = B.module; if (uid.empty()) bad("start", "it has no name"); }
    started = true; return !dead;
  }
  bool setup() {
    std::string x = config(); R.sample(x); log = x + " "; keep.load_string(x.c_str()); conf.reset(PLEXIL::makeAdapterConfiguration());
    ad.reset(PLEXIL::AdapterFactory::createInstance(keep.document_element(), intf)); if (!ad) { bad("internal", "no adapter"); return false; }
    if (!ad->initialize(conf.get())) { bad("start", "the configuration is refused"); return false; }
    return start();
  }
  void stop() {
    ad->stop(); started = false; R.add("stops"); note("stop"); settle();
    parts.clear(); std::lock_guard<std::mutex> g(B.m); if (dead) return;
    if (B.connected) bad("stop", "it is still connected after stopping"); else if (!B.out.empty()) bad("leak", std::to_string(B.out.size()) + " messages are not released, one a " + B.out.begin()->second);
  }
  void run() {
    B.reset(); B.loop = r.chance(50);
    if (setup()) {
      for (int i = 0, n = r.range(5, 50); i < n && !dead; ++i) {
        int q = r.below(100);
        if (q < 30) doArrive(); else if (q < 36) doSendMessage(); else if (q < 46) doCommand(!sentCmds.empty() && r.chance(15) ? sentCmds[r.below(sentCmds.size())] : nullptr); else if (q < 50) doReturn(); else if (q < 58) doReceive(true); else if (q < 66) doReceive(false); else if (q < 73) doGet();
        else if (q < 80) doUpdateLookup(); else if (q < 84) doUpdate(); else if (q < 92) doLookup(); else if (q < 98) doAbort(); else { stop(); if (!dead) start(); }
        settle();
      }
      if (started && !dead) stop();
    }
    ad.reset(); conf.reset(); B.reset(); for (auto &f : files) unlink(f.c_str()); R.sig(h);
  }
  void race();
};
void World::race() {
  B.reset(); B.loop = r.chance(30);
  if (setup()) {
    uint64_t s0 = r.next(); std::atomic<bool> end(false); int nA = 3; std::vector<long> cmdsSent(nA), msgsSent(nA), teleSent(nA); std::mutex am; std::vector<std::pair<std::string, uint32_t>> asked;
    // every command of ours is answered, at once or soon, by its first argument and then by a handle
    std::vector<Piece> later; uint32_t rs = 1000000;
    { std::lock_guard<std::mutex> g(B.m); auto seqs = std::make_shared<std::map<uint32_t, std::pair<Piece, std::vector<Piece>>>>();
      B.onPublish = [this, seqs, &rs](Piece const &p) {
        if (p.type == PlexilMsgType_Command || p.type == PlexilMsgType_LookupNow) (*seqs)[p.serial].first = p;
        else { auto it = seqs->find(p.serial); if (it == seqs->end()) return; it->second.second.push_back(p); }
        auto it = seqs->find(p.serial); if ((int)it->second.second.size() < it->second.first.count) return;
        Seq a = sign(ret(p.serial, uid, it->second.second.empty() ? Value((PLEXIL::Integer)77) : it->second.second[0].v), "Answerer", ++rs); for (Piece const &x : a.ps) B.put(x);
        seqs->erase(it); }; }
    std::vector<std::thread> th;
    for (int k = 0; k < nA; ++k) th.emplace_back([&, k]() { Rng q(s0 + k); std::string me = "T" + std::to_string(k); uint32_t ser = 0; int n = q.range(30, 120);
      for (int i = 0; i < n && !end; ++i) {
        Seq s; int z = q.below(100);
        if (z < 35) { s = seq(lead(PlexilMsgType_Command, q.chance(50) ? "" : uid, "job", 2), {Value((PLEXIL::Integer)++cmdsSent[k]), Value(PLEXIL::String(me))}); }
        else if (z < 55) { s = seq(lead(PlexilMsgType_Message, "", "note", 0), {}); ++msgsSent[k]; }
        else if (z < 80) s = seq(lead(PlexilMsgType_TelemetryValues, "", "tele" + std::to_string(k), 2), {Value((PLEXIL::Integer)++teleSent[k]), Value((PLEXIL::Integer)0)});
        else { s = seq(lead(PlexilMsgType_LookupNow, "", "ext0", 0), {}); }
        s = sign(s, agents[k], ++ser); if (z >= 80) { std::lock_guard<std::mutex> g(am); asked.emplace_back(agents[k], ser); }
        for (Piece const &p : s.ps) { B.inject({p}); if (q.chance(20)) std::this_thread::yield(); }
        if (q.chance(20)) std::this_thread::sleep_for(std::chrono::microseconds(q.below(200)));
      } });
    // Meanwhile the executive is busy. ext0 takes increasing values.
    struct Out { Cmd *c; int arg; }; std::vector<Out> cmds; std::vector<Cmd *> rc, rm; long ext0 = 0; std::vector<Cmd *> done; std::set<Cmd *> gone; long aborted = 0;
    auto result = [&](Cmd *c) { std::vector<Value> v; std::lock_guard<std::mutex> g(intf.m); for (auto &e : intf.log) if (e.cmd == c && e.what.compare(0, 6, "return") == 0) v.push_back(e.v); return v; };
    auto handles = [&](Cmd *c) { int n = 0; std::lock_guard<std::mutex> g(intf.m); for (auto &e : intf.log) if (e.cmd == c && e.what.compare(0, 6, "handle") == 0) ++n; return n; };
    for (int i = 0, n = r.range(20, 60); i < n && !dead; ++i) {
      int q = r.below(100);
      if (q < 20) { int a = r.below(10000); Cmd *c = cmd(r.chance(60) ? "cmdX" : agents[0] + ":cmdX", {Value((PLEXIL::Integer)a)}); exec(c); cmds.push_back({c, a}); }
      else if (q < 40) { Cmd *c = cmd("ReceiveCommand", {Value(PLEXIL::String("job"))}); exec(c); rc.push_back(c); }
      else if (q < 50) { Cmd *c = cmd("ReceiveMessage", {Value(PLEXIL::String("note"))}); exec(c); rm.push_back(c); }
      else if (q < 65) { Cmd *c = cmd("UpdateLookup", {Value(PLEXIL::String("ext0")), Value((PLEXIL::Integer)++ext0)}); exec(c); }
      else if (q < 80) { PLEXIL::Integer a = r.below(1000); PLEXIL::State st = state(r.chance(70) ? "remote" : agents[1] + ":remote", {Value(a)}); Rcv x; conf->getLookupHandler(st.name())->lookupNow(st, &x); if (x.got.size() != 1 || x.got[0] != str(Value(a))) bad("lookup", "a lookup gives " + (x.got.empty() ? "nothing" : x.got[0]) + " instead of " + str(Value(a))); R.add("racelookups"); }
      else if (q < 86) { Rcv x; PLEXIL::State st = state("ext0", {}); conf->getLookupHandler("ext0")->lookupNow(st, &x); if (ext0 && (x.got.size() != 1 || x.got[0] != str(Value((PLEXIL::Integer)ext0)))) bad("lookup", "ext0 is " + (x.got.empty() ? "nothing" : x.got[0])); }
      else if (q < 92) { Cmd *c = cmd("SendMessage", {Value(PLEXIL::String("out"))}); exec(c); }
      else if (!cmds.empty() && r.chance(50)) { size_t k = r.below(cmds.size()); Cmd *c = cmds[k].c; cmds.erase(cmds.begin() + k); conf->getCommandHandler(c->getName())->abortCommand(c, &intf); B.quiet(20000); over(c); ++aborted; }
      else if (!rc.empty() && dups) { Cmd *c = rc.back(); if (!result(c).empty()) continue; rc.pop_back(); conf->getCommandHandler(c->getName())->abortCommand(c, &intf); if (result(c).empty()) over(c); else rc.push_back(c); ++aborted; }
      if (r.chance(30)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(200)));
    }
    for (auto &t : th) t.join();
    end = true; if (!dead && !B.quiet(20000)) bad("lost", "messages that arrived are not taken");
    { std::lock_guard<std::mutex> g(B.m); B.onPublish = nullptr; if (!B.wrong.empty()) bad("bus", B.wrong); }
    { std::lock_guard<std::mutex> g(intf.m); if (!intf.wrong.empty()) bad("stale", intf.wrong); }
    // our commands: one handle, one return each, with their own argument
    for (auto &o : cmds) { if (dead) break; auto v = result(o.c); if (v.size() != 1 || str(v[0]) != str(Value((PLEXIL::Integer)o.arg))) { bad("return", "a command that was answered once got " + std::to_string(v.size()) + " values"); } else if (handles(o.c) != 1) bad("return", "a command got " + std::to_string(handles(o.c)) + " handles"); R.add("racereturns"); }
    // telemetry: all of it, in order
    if (!dead) { std::lock_guard<std::mutex> g(intf.m); std::map<std::string, long> at; for (auto &e : intf.log) if (e.st.compare(0, 4, "tele") == 0) { PLEXIL::Integer n = 0; e.v.getValue(n); if (n != at[e.st] + 1) bad("order", "telemetry " + std::to_string(n) + " follows " + std::to_string(at[e.st])); at[e.st] = n; R.add("racetelemetry"); }
      for (int k = 0; k < nA; ++k) { std::string st = str(state("tele" + std::to_string(k), {Value((PLEXIL::Integer)0)})); if (!dead && at[st] != teleSent[k]) bad("lost", "telemetry lost"); } }
    // received commands: each one once; with duplicates kept, all of them, in the order of each sender, with their arguments
    std::map<std::string, long> from; std::set<std::string> labs; long got = 0; bool gap = false;
    for (Cmd *c : rc) { if (dead) break; auto v = result(c); if (v.empty()) { gap = true; continue; } std::string l;
      if (gap && !aborted) { bad("order", "a later ReceiveCommand was answered before an earlier one"); break; }
      if (v.size() != 1 || !v[0].getValue(l) || !labs.insert(l).second) { bad("receive", "ReceiveCommand got " + std::to_string(v.size()) + " values, " + l); break; }
      ++got; R.add("raced"); Cmd *p = cmd("GetParameter", {v[0], Value((PLEXIL::Integer)0)}), *p1 = cmd("GetParameter", {v[0], Value((PLEXIL::Integer)1)}); exec(p); exec(p1); auto a = result(p), b = result(p1); PLEXIL::Integer n = 0; std::string who;
      if (a.size() != 1 || b.size() != 1 || !a[0].getValue(n) || !b[0].getValue(who)) { bad("parameter", "a received command has lost its arguments"); break; }
      int k = who[1] - '0'; if (l.substr(l.find(':') + 1) != agents[k]) { bad("parameter", "arguments of another command"); break; }
      if (n <= from[who]) { bad("order", "command " + std::to_string(n) + " of " + who + " follows " + std::to_string(from[who])); break; } from[who] = n; h = vc::mix(h, n * 4 + k); }
    if (!dead && gap && dups && !aborted) { long sent = 0; for (long c : cmdsSent) sent += c; if (got != sent) bad("lost", std::to_string(sent - got) + " commands lost although a ReceiveCommand waits"); }
    { long n = 0, sent = 0; bool wait = false; for (Cmd *c : rm) { auto v = result(c); if (v.size() > 1) bad("receive", "a message was returned twice"); if (v.empty()) wait = true; else ++n; } for (long c : msgsSent) sent += c; if (!dead && wait && dups && n != sent) bad("lost", "messages lost although a ReceiveMessage waits"); if (!dead && n > sent) bad("receive", "more messages than sent"); }
    // queries: each answered once, with values that do not go back
    if (!dead) { std::lock_guard<std::mutex> g(B.m); std::map<std::pair<std::string, uint32_t>, int> ans; std::map<std::string, long> last; std::map<uint32_t, std::vector<Piece>> mine; 
      for (auto &p : B.log) mine[p.serial].push_back(p);
      for (auto &kv : mine) { auto &v = kv.second; if (v[0].name == MSG_BASE || (int)v.size() != v[0].count + 1) { bad("publish", "the parts of a published message are incomplete or mixed up"); break; } for (size_t i = 1; i < v.size(); ++i) if (v[i].count != (int)i - 1) bad("publish", "parts out of order"); R.add("published", v.size());
        if (v[0].type == PlexilMsgType_ReturnValues) { ++ans[{v[0].s1, v[0].req}]; R.add("racequeries"); } }
      for (auto &p : asked) if (!dead && ans[p] != 1) bad("query", std::to_string(ans[p]) + " answers to one query");
      if (!dead) for (auto &p : B.log) if (p.type == PlexilMsgType_ReturnValues) { Piece const &t = mine[p.serial][1]; PLEXIL::Integer n = 0; if (t.type == PlexilMsgType_IntegerValue && t.v.getValue(n) && (last[p.s1] || str(t.v) != str(ext[str(state("ext0", {}))]))) { if (n > ext0 && ext0) bad("query", "a value from nowhere"); else if (ext0 && last[p.s1] > n && last[p.s1] <= ext0) bad("query", "an older value after a newer one"); if (n <= ext0) last[p.s1] = n; } } }
    if (started) { ad->stop(); started = false; std::lock_guard<std::mutex> g(B.m); if (!dead && !B.out.empty()) bad("leak", std::to_string(B.out.size()) + " messages are not released"); }
  }
  ad.reset(); conf.reset(); B.reset(); R.sig(h);
}

// ---------------------------------------------------------------- C21: the relay of the stand-alone simulator
// The relay between the bus and a simulator that is a stand-in: it answers some commands at once, some when
// the harness says so, some never, and knows some states.
struct RelayRun : World {
  struct Sim : Simulator {
    RelayRun &w; std::vector<std::pair<std::string, void *>> waits; explicit Sim(RelayRun &x) : w(x) {}
    void start() override {} void stop() override {} void simulatorTopLevel() override {}
    bool scheduleResponseForCommand(std::string const &c, void *id) override {
      Ev e; e.what = "command " + c; w.intf.add(e); auto it = w.cmds.find(c); if (it == w.cmds.end()) return false;
      if (it->second.first) w.rel->sendResponse(new ResponseMessage(c, it->second.second, MSG_COMMAND, id));
      else { std::lock_guard<std::mutex> g(w.intf.m); waits.emplace_back(c, id); }
      return true;
    }
    ResponseMessage *getLookupNowResponse(std::string const &n, void *id) const override {
      Ev e; e.what = "lookup " + n; w.intf.add(e); auto it = w.states.find(n); return it == w.states.end() ? nullptr : new ResponseMessage(n, it->second, MSG_LOOKUP, id);
    }
  };
  Sim sim; std::unique_ptr<IpcCommRelay> rel; std::map<std::string, std::pair<bool, Value>> cmds; std::map<std::string, Value> states;
  struct Wait { std::string name, from; uint32_t serial; }; std::vector<Wait> waits;
  RelayRun(uint64_t s, std::string const &d) : World(s, false, d), sim(*this) {}
  Value val() { return r.chance(10) ? Value((PLEXIL::CommandHandleValue)r.range(PLEXIL::COMMAND_SENT_TO_SYSTEM, PLEXIL::COMMAND_INTERFACE_ERROR)) : r.chance(12) ? Value() : r.chance(80) ? scalar() : some(); }
  void apply(std::vector<Piece> const &s) override {
    Piece const &l = s[0];
    if (l.type == PlexilMsgType_Command) {
      ev("command " + l.s1); R.add("relaycommands"); auto it = cmds.find(l.s1); if (it == cmds.end()) { R.add("relayunanswered"); return; }
      if (it->second.first) { publish(ret(l.serial, l.from, it->second.second)); R.add("relayreplies"); } else waits.push_back({l.s1, l.from, l.serial});
    } else if (l.type == PlexilMsgType_LookupNow) {
      ev("lookup " + l.s1); auto it = states.find(l.s1); publish(ret(l.serial, l.from, it == states.end() ? Value() : it->second)); R.add(it == states.end() ? "relayunknown" : "relaylookups");
    }
  }
  // What was promised is sent now.
  void reply(size_t k) {
    void *id; Wait w = waits[k]; waits.erase(waits.begin() + k);
    { std::lock_guard<std::mutex> g(intf.m); if (k >= sim.waits.size() || sim.waits[k].first != w.name) { bad("relay", "a reply is not asked for"); return; } id = sim.waits[k].second; sim.waits.erase(sim.waits.begin() + k); }
    Value v = val(); size_t at = mark(); int f = fault(2); note("reply to " + w.from + " " + std::to_string(w.serial) + (f ? " fault" : "")); rel->sendResponse(new ResponseMessage(w.name, v, MSG_COMMAND, id));
    bool sent; size_t n = through(f, 2, sent); publish(ret(w.serial, w.from, v), n); R.add("relayreplies"); finishOp(at);
  }
  void telemetry() {
    std::string n = "st" + std::to_string(r.below(4)); Value v = val(); states[n] = v; size_t at = mark(); int f = fault(2); note("telemetry " + n + (f ? " fault" : "")); rel->sendResponse(new ResponseMessage(n, v, MSG_TELEMETRY));
    bool sent; size_t k = through(f, 2, sent); publish(seq(lead(PlexilMsgType_TelemetryValues, "", n, 1), {v}), k); R.add("relaytelemetry"); finishOp(at);
  }
  void arriveSome() {
    std::vector<Seq> v;
    for (int i = 0, n = r.chance(40) ? 1 : r.range(2, 6); i < n; ++i) {
      if (r.chance(20)) { v.push_back(other()); continue; }
      size_t w = r.below(agents.size()); std::string me = r.chance(60) ? "" : uid; bool c = r.chance(65); auto a = some(few(), false, false);
      v.push_back(sign(seq(lead(c ? PlexilMsgType_Command : PlexilMsgType_LookupNow, me, c ? cname() : "st" + std::to_string(r.below(5)), a.size()), a), agents[w], ++serials[w]));
    }
    std::vector<Piece> ps = merge(v, r.chance(30)); note("arrive " + std::to_string(ps.size())); size_t at = mark(); B.inject(ps); for (auto &p : ps) arrive(p); finishOp(at);
  }
  void go() {
    B.reset(); B.loop = r.chance(50); agents = {"A", "B-2", "agent with spaces"}; serials = {0, 0, 0}; uid = "RobotSim" + std::to_string(r.below(3));
    for (const char *n : {"go", "stop", "x_0", "Move arm", ""}) if (r.chance(65)) cmds[n] = {r.chance(40), val()};
    for (int i = 0; i < 4; ++i) if (r.chance(40)) states["st" + std::to_string(i)] = val();
    rel.reset(new IpcCommRelay(uid)); rel->registerSimulator(&sim);
    { std::lock_guard<std::mutex> g(B.m); for (auto &a : agents) for (const char *n : NAMES) B.defs[a + n] = FMT(n); B.failConnect = r.chance(5); }
    bool fails = B.failConnect, ok = rel->initialize("localhost:1381"); if (ok == fails) bad("start", ok ? "the relay starts without a connection" : "the relay does not start");
    if (!ok && !dead && !rel->initialize()) bad("start", "the relay cannot be started after a failure");
    if (!dead && B.module != uid) bad("start", "it calls itself " + B.module + " instead of " + uid);
    started = true;
    for (int i = 0, n = r.range(5, 40); i < n && !dead; ++i) { int q = r.below(100); if (q < 50) arriveSome(); else if (q < 75) { if (!waits.empty()) reply(r.below(waits.size())); } else telemetry(); }
    while (!dead && !waits.empty()) reply(r.below(waits.size()));
    settle(); started = false; if (!dead) rel.reset();
    if (!dead && !B.out.empty()) bad("leak", std::to_string(B.out.size()) + " messages are not released");
    if (dead) rel.release(); else B.reset();
    R.sig(h);
  }
};

int main(int argc, char **argv) {
  vc::Args a(argc, argv);
  PLEXIL::Error::doThrowExceptions(); PLEXIL::PlanError::doThrowExceptions(); PLEXIL::InterfaceError::doThrowExceptions();
  std::string mode = a.str("mode", "seq"); uint64_t seed = a.num("seed", 1); long first = a.num("first", 0), cases = a.num("cases", 10);
  initIpcAdapter(); std::cout.rdbuf(nullptr); std::cerr.rdbuf(nullptr);
  char dir[] = "/tmp/vipc.XXXXXX"; if (!mkdtemp(dir)) return 2;
  for (long k = first; k < first + cases; ++k) {
    R.begin(mode + ":" + std::to_string(seed) + ":" + std::to_string(k)); R.add("cases");
    uint64_t s = vc::mix(seed * 7919 + 6, k);
    if (mode == "relay") { std::unique_ptr<RelayRun> w(new RelayRun(s, dir)); w->go(); for (auto &f : w->files) unlink(f.c_str()); if (w->dead) { w.release(); rmdir(dir); R.finish(); fflush(stdout); _exit(0); } continue; }
    try { World w(s, mode == "race", dir); if (mode == "race") w.race(); else w.run(); if (w.dead) { for (auto &f : w.files) unlink(f.c_str()); rmdir(dir); R.finish(); fflush(stdout); _exit(0); } }
    catch (std::exception const &e) { R.viol("internal", std::string("exception: ") + e.what()); R.finish(); fflush(stdout); _exit(0); }
  }
  rmdir(dir); R.finish();
  plexilRunFinalizers();
  return 0;
}
