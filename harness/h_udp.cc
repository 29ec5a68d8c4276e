// C19: the UDP adapter on a fake network inside the process. The socket calls are replaced below
// by local sockets, so that nothing leaves the process, no port of the machine is used, and
// the harness sees every datagram and can make any call fail.
#include "vcommon.hh"
#include "AdapterConfiguration.hh"
#include "AdapterExecInterface.hh"
#include "AdapterFactory.hh"
#include "ArrayImpl.hh"
#include "Command.hh"
#include "CommandHandle.hh"
#include "CommandHandler.hh"
#include "Error.hh"
#include "InterfaceAdapter.hh"
#include "InterfaceError.hh"
#include "PlanError.hh"
#include "State.hh"
#include "Value.hh"
#include "lifecycle-utils.h"
#include "pugixml.hpp"
extern "C" void initUdpAdapter();
#include <atomic>
#include <cerrno>
#include <chrono>
#include <cmath>
#include <condition_variable>
#include <cstring>
#include <deque>
#include <memory>
#include <mutex>
#include <netinet/in.h>
#include <poll.h>
#include <sstream>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/un.h>
#include <thread>
#include <unistd.h>

using vc::Rng;
static vc::Report R;

// ---------------------------------------------------------------- the fake network
struct FSock { int port = 0, dst = 0; std::string addr; long in = 0, out = 0; };
struct Net {
  bool on = false;
  std::mutex m; std::condition_variable cv;
  std::map<int, FSock> socks;
  std::map<int, std::vector<int>> bound;        // port -> sockets, the last one gets the datagrams
  std::vector<std::pair<int, std::string>> sent; // what the adapter sent
  long pending = 0, gen = 0, polls = 0; bool polling = false;
  int failSocket = 0, failBind = 0, failConnect = 0, failSend = 0, failed = 0;
  int sigEvery = 0; long waits = 0, signals = 0;  // every n-th wait is ended by a signal
  int inject = -1;
  bool hit(int &f) { if (f > 0 && --f == 0) { ++failed; return true; } return false; }
  // Sends a datagram to a port; false if nobody listens there.
  bool deliver(int port, std::string const &d, std::unique_lock<std::mutex> &g) {
    auto it = bound.find(port); if (it == bound.end() || it->second.empty()) return false;
    FSock &s = socks[it->second.back()];
    sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX; memcpy(a.sun_path, s.addr.data(), s.addr.size());
    socklen_t n = offsetof(sockaddr_un, sun_path) + s.addr.size();
    if (inject < 0) inject = (int)syscall(SYS_socket, AF_UNIX, SOCK_DGRAM, 0);
    long r = syscall(SYS_sendto, inject, d.data(), d.size(), MSG_DONTWAIT, &a, n);
    (void)g;
    if (r < 0) return false;
    ++pending; ++s.in; return true;
  }
  bool send(int port, std::string const &d) { std::unique_lock<std::mutex> g(m); return deliver(port, d, g); }
  bool listening(int port) { std::lock_guard<std::mutex> g(m); auto it = bound.find(port); return it != bound.end() && !it->second.empty(); }
  size_t room(int port) { std::lock_guard<std::mutex> g(m); auto it = bound.find(port); if (it == bound.end() || it->second.empty()) return 0; FSock &s = socks[it->second.back()]; return s.in - s.out < 8 ? 1 : 0; }
  size_t open() { std::lock_guard<std::mutex> g(m); return socks.size(); }
  bool quiet(int ms) { std::unique_lock<std::mutex> g(m); return cv.wait_for(g, std::chrono::milliseconds(ms), [&] { return pending == 0 && polling; }); }
  void reset() { std::lock_guard<std::mutex> g(m); for (auto &p : socks) syscall(SYS_close, p.first); socks.clear(); bound.clear(); sent.clear(); pending = 0; polling = false; failSocket = failBind = failConnect = failSend = failed = 0; }
};
static Net N;
extern "C" {
int socket(int dom, int type, int proto) noexcept {
  if (!N.on || dom != AF_INET || (type & 0xf) != SOCK_DGRAM) return (int)syscall(SYS_socket, dom, type, proto);
  std::lock_guard<std::mutex> g(N.m);
  if (N.hit(N.failSocket)) { errno = EMFILE; return -1; }
  int fd = (int)syscall(SYS_socket, AF_UNIX, SOCK_DGRAM, 0); if (fd >= 0) N.socks[fd] = FSock(); return fd;
}
int setsockopt(int fd, int l, int o, const void *v, socklen_t n) noexcept {
  { std::lock_guard<std::mutex> g(N.m); if (N.on && N.socks.count(fd)) return 0; }
  return (int)syscall(SYS_setsockopt, fd, l, o, v, n);
}
int bind(int fd, const struct sockaddr *a, socklen_t n) noexcept {
  std::lock_guard<std::mutex> g(N.m);
  auto it = N.socks.find(fd); if (!N.on || it == N.socks.end()) return (int)syscall(SYS_bind, fd, a, n);
  if (N.hit(N.failBind)) { errno = EADDRINUSE; return -1; }
  FSock &s = it->second; s.port = ntohs(((const sockaddr_in *)a)->sin_port);
  char b[64]; int k = snprintf(b, sizeof b, "vudp.%d.%ld", (int)getpid(), ++N.gen); s.addr = std::string(1, '\0') + std::string(b, k);
  sockaddr_un u; memset(&u, 0, sizeof u); u.sun_family = AF_UNIX; memcpy(u.sun_path, s.addr.data(), s.addr.size());
  if (syscall(SYS_bind, fd, &u, (socklen_t)(offsetof(sockaddr_un, sun_path) + s.addr.size())) < 0) { perror("harness bind"); return -1; }
  N.bound[s.port].push_back(fd); return 0;
}
int connect(int fd, const struct sockaddr *a, socklen_t n) {
  { std::lock_guard<std::mutex> g(N.m);
    auto it = N.socks.find(fd);
    if (N.on && it != N.socks.end()) {
      if (N.hit(N.failConnect)) { errno = ENETUNREACH; return -1; }
      it->second.dst = ntohs(((const sockaddr_in *)a)->sin_port); return 0;
    } }
  return (int)syscall(SYS_connect, fd, a, n);
}
ssize_t sendto(int fd, const void *b, size_t len, int fl, const struct sockaddr *a, socklen_t n) {
  { std::unique_lock<std::mutex> g(N.m);
    auto it = N.socks.find(fd);
    if (N.on && it != N.socks.end()) {
      if (N.hit(N.failSend)) { errno = ENOBUFS; return -1; }
      int port = a ? ntohs(((const sockaddr_in *)a)->sin_port) : it->second.dst;
      std::string d((const char *)b, len); N.sent.emplace_back(port, d); N.deliver(port, d, g); return (ssize_t)len;
    } }
  return (ssize_t)syscall(SYS_sendto, fd, b, len, fl, a, n);
}
ssize_t send(int fd, const void *b, size_t len, int fl) { return sendto(fd, b, len, fl, nullptr, 0); }
ssize_t recvfrom(int fd, void *b, size_t len, int fl, struct sockaddr *a, socklen_t *n) {
  ssize_t r = (ssize_t)syscall(SYS_recvfrom, fd, b, len, fl, nullptr, nullptr);
  std::lock_guard<std::mutex> g(N.m);
  auto it = N.socks.find(fd); if (!N.on || it == N.socks.end()) return r;
  if (a && n) { sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_port = htons(40000); s.sin_addr.s_addr = htonl(0x7f000001); memcpy(a, &s, std::min<size_t>(*n, sizeof s)); *n = sizeof s; }
  if (r >= 0) { ++it->second.out; --N.pending; }
  return r;
}
ssize_t recv(int fd, void *b, size_t len, int fl) { return recvfrom(fd, b, len, fl, nullptr, nullptr); }
ssize_t __recvfrom_chk(int fd, void *b, size_t len, size_t, int fl, struct sockaddr *a, socklen_t *n) { return recvfrom(fd, b, len, fl, a, n); }
ssize_t __recv_chk(int fd, void *b, size_t len, size_t, int fl) { return recv(fd, b, len, fl); }
int close(int fd) {
  { std::lock_guard<std::mutex> g(N.m);
    auto it = N.socks.find(fd);
    if (N.on && it != N.socks.end()) {
      N.pending -= it->second.in - it->second.out;
      if (it->second.port) { auto &v = N.bound[it->second.port]; for (size_t i = 0; i < v.size(); ++i) if (v[i] == fd) { v.erase(v.begin() + i); break; } }
      N.socks.erase(it); N.cv.notify_all();
    } }
  return (int)syscall(SYS_close, fd);
}
int poll(struct pollfd *f, nfds_t n, int t) {
  if (!N.on) return (int)syscall(SYS_poll, f, n, t);
  { std::lock_guard<std::mutex> g(N.m);
    if (N.sigEvery && ++N.waits % N.sigEvery == 0) { ++N.signals; errno = EINTR; return -1; }
    N.polling = true; ++N.polls; N.cv.notify_all(); }
  int r; do r = (int)syscall(SYS_poll, f, n, t); while (r < 0 && errno == EINTR);
  { std::lock_guard<std::mutex> g(N.m); N.polling = false; }
  return r;
}
}

// ---------------------------------------------------------------- commands and interface
struct Cmd : PLEXIL::Command {
  PLEXIL::State st; bool ret; int id;
  std::vector<PLEXIL::CommandHandleValue> acks; std::vector<PLEXIL::Value> rets; std::vector<bool> aborts;
  Cmd(std::string const &n, std::vector<PLEXIL::Value> const &a, int i) : st(n, a.size()), ret(true), id(i) { for (size_t k = 0; k < a.size(); ++k) st.setParameter(k, a[k]); }
  PLEXIL::State const &getCommand() const override { return st; }
  std::string const &getName() const override { return st.name(); }
  std::vector<PLEXIL::Value> const &getArgValues() const override { return st.parameters(); }
  bool isReturnExpected() const override { return ret; }
};
struct Intf : PLEXIL::AdapterExecInterface {
  std::mutex m; std::set<PLEXIL::Command *> live; long events = 0, results = 0, eventAfter = 0; std::string wrong;
  Cmd *of(PLEXIL::Command *c, const char *what) { if (!live.count(c)) { wrong = std::string(what) + " for a command that is over"; return nullptr; } return static_cast<Cmd *>(c); }
  void handleValueChange(PLEXIL::State const &, const PLEXIL::Value &) override {}
  void handleValueChange(PLEXIL::State const &, PLEXIL::Value &&) override {}
  void handleValueChange(PLEXIL::State &&, const PLEXIL::Value &) override {}
  void handleValueChange(PLEXIL::State &&, PLEXIL::Value &&) override {}
  void handleCommandAck(PLEXIL::Command *c, PLEXIL::CommandHandleValue v) override { std::lock_guard<std::mutex> g(m); ++results; if (Cmd *k = of(c, "a handle")) k->acks.push_back(v); }
  void handleCommandReturn(PLEXIL::Command *c, PLEXIL::Value const &v) override { std::lock_guard<std::mutex> g(m); ++results; if (Cmd *k = of(c, "a return value")) k->rets.push_back(v); }
  void handleCommandReturn(PLEXIL::Command *c, PLEXIL::Value &&v) override { std::lock_guard<std::mutex> g(m); ++results; if (Cmd *k = of(c, "a return value")) k->rets.push_back(v); }
  void handleCommandAbortAck(PLEXIL::Command *c, bool a) override { std::lock_guard<std::mutex> g(m); ++results; if (Cmd *k = of(c, "an abort acknowledgement")) k->aborts.push_back(a); }
  void handleUpdateAck(PLEXIL::Update *, bool) override {}
  void notifyMessageReceived(PLEXIL::Message *) override {}
  void notifyMessageQueueEmpty() override {}
  void notifyMessageAccepted(PLEXIL::Message *, std::string const &) override {}
  void notifyMessageHandleReleased(std::string const &) override {}
  void handleAddPlan(pugi::xml_node const) override {}
  bool handleAddLibrary(pugi::xml_document *) override { return false; }
  void notifyOfExternalEvent() override { std::lock_guard<std::mutex> g(m); ++events; eventAfter = results; }
  void notifyAndWaitForCompletion() override {}
};

// ---------------------------------------------------------------- messages
enum PK { INT, FLOAT, BOOL, STR };
struct Par { PK k; int bytes, elems; bool array; };
struct Gram { std::string bytes; std::vector<PLEXIL::Value> vals; std::string label; std::vector<bool> taken; bool maybe = false; long seq = 0; };
struct Msg {
  std::string name; int local, peer; std::vector<Par> ps; int len = 0;
  bool opened = false, lossy = false;
  std::deque<Cmd *> waiting; std::deque<std::shared_ptr<Gram>> queued; std::vector<std::shared_ptr<Gram>> got;
};
static void put(std::string &b, uint32_t v, int n) { for (int i = n - 1; i >= 0; --i) b += (char)(unsigned char)(v >> (8 * i)); }
static uint32_t get(std::string const &b, size_t at, int n) { uint32_t v = 0; for (int i = 0; i < n; ++i) v = v << 8 | (unsigned char)b[at + i]; return v; }
static std::string str(PLEXIL::Value const &v) { std::ostringstream o; o << v; std::string s = o.str(); if (s.size() > 120) s = s.substr(0, 120) + "..."; return s; }
static std::string hex(std::string const &b) { std::string s; char t[4]; for (unsigned char c : b.substr(0, 60)) { snprintf(t, sizeof t, "%02x", c); s += t; } return s + (b.size() > 60 ? "..." : ""); }
static float fl(uint32_t v) { float f; memcpy(&f, &v, 4); return f; }
static uint32_t un(float f) { uint32_t v; memcpy(&v, &f, 4); return v; }

// The values in a datagram, by the format of the message.
static std::vector<PLEXIL::Value> decode(Msg const &m, std::string b) {
  b.resize(m.len, '\0'); size_t at = 0; std::vector<PLEXIL::Value> out;
  auto one = [&](Par const &p) -> PLEXIL::Value {
    size_t o = at; at += p.bytes;
    switch (p.k) {
    case INT: { uint32_t v = get(b, o, p.bytes); return PLEXIL::Value((PLEXIL::Integer)(p.bytes == 2 ? (int32_t)(int16_t)v : (int32_t)v)); }
    case FLOAT: return PLEXIL::Value((PLEXIL::Real)fl(get(b, o, 4)));
    case BOOL: return PLEXIL::Value(get(b, o, p.bytes) != 0);
    default: { std::string s = b.substr(o, p.bytes); return PLEXIL::Value(PLEXIL::String(s.substr(0, s.find('\0')))); }
    }
  };
  for (Par const &p : m.ps) {
    if (!p.array) { out.push_back(one(p)); continue; }
    PLEXIL::BooleanArray ba(p.elems); PLEXIL::IntegerArray ia(p.elems); PLEXIL::RealArray ra(p.elems); PLEXIL::StringArray sa(p.elems);
    for (int i = 0; i < p.elems; ++i) {
      PLEXIL::Value v = one(p); PLEXIL::Integer n; PLEXIL::Real d; bool t; PLEXIL::String s;
      if (p.k == INT) { v.getValue(n); ia.setElement(i, n); } else if (p.k == FLOAT) { v.getValue(d); ra.setElement(i, d); }
      else if (p.k == BOOL) { v.getValue(t); ba.setElement(i, t); } else { v.getValue(s); sa.setElement(i, s); }
    }
    out.push_back(p.k == INT ? PLEXIL::Value(ia) : p.k == FLOAT ? PLEXIL::Value(ra) : p.k == BOOL ? PLEXIL::Value(ba) : PLEXIL::Value(sa));
  }
  return out;
}

struct World {
  Rng r; bool racy; Intf intf; std::unique_ptr<PLEXIL::AdapterConfiguration> conf; std::unique_ptr<PLEXIL::InterfaceAdapter> ad;
  std::vector<Msg> ms; std::set<Cmd *> all; std::set<std::string> labels; std::string log; bool started = false, dead = false; int ids = 0; uint64_t h = 0; int nextPort = 20000;
  World(uint64_t s, bool rc) : r(s), racy(rc) {}
  ~World() { for (Cmd *c : all) delete c; }
  void note(std::string const &s) { log += s + "; "; if (log.size() > 900) log.erase(0, log.size() - 900); }
  void bad(const char *k, std::string const &w) { if (dead) return; dead = true; R.viol(k, w + " [" + log + "]"); }

  static const char *ty(PK k) { static const char *T[] = {"int", "float", "bool", "string"}; return T[k]; }
  Par somePar() {
    Par p; p.k = (PK)r.below(4); p.array = r.chance(35); p.elems = p.array ? (r.chance(90) ? r.range(1, 6) : r.range(20, 200)) : 1;
    static const int I[] = {2, 4, 4}, B[] = {1, 2, 4};
    p.bytes = p.k == INT ? I[r.below(3)] : p.k == FLOAT ? 4 : p.k == BOOL ? B[r.below(3)] : r.chance(90) ? r.range(1, 12) : r.range(100, 300);
    return p;
  }
  std::string parXml(Par const &p) { return std::string("<Parameter type=\"") + ty(p.k) + (p.array ? "-array\" elements=\"" + std::to_string(p.elems) : "") + "\" bytes=\"" + std::to_string(p.bytes) + "\"" + (r.chance(30) ? " desc=\"x\"" : "") + "/>"; }
  // A configuration; in kind>0 something is wrong with it.
  std::string config(bool &ok) {
    ok = true; static const char *NM[] = {"msg", "a", "msg_", "Message with spaces ", "__COMMAND__", "very-long-name-of-a-message-that-goes-on-and-on-and-on-to-the-end"};
    std::string names = NM[racy || r.chance(70) ? 0 : r.below(6)];
    bool wrong = !racy && r.chance(12); int n = r.range(1, 4), w = wrong ? r.below(n) : -1, what = r.below(10);
    int dl = r.chance(20) ? nextPort++ : 0, dp = r.chance(20) ? nextPort++ : 0;
    std::string x = "<Adapter AdapterType=\"UdpAdapter\""; if (dl) x += " default_local_port=\"" + std::to_string(dl) + "\""; if (dp) x += " default_peer_port=\"" + std::to_string(dp) + "\"";
    if (r.chance(70)) x += " default_peer=\"127.0.0.1\"";
    if (r.chance(5)) x += " debug=\"true\"";
    x += ">"; bool usedL = false;
    for (int i = 0; i < n; ++i) {
      Msg m; m.name = names + std::to_string(i); m.local = nextPort++; m.peer = r.chance(15) ? m.local : nextPort++;
      bool defL = dl && !usedL && r.chance(50), defP = dp && r.chance(50); if (defL) { m.local = dl; usedL = true; } if (defP) m.peer = dp;
      int k = r.chance(15) ? 0 : r.chance(5) ? r.range(8, 24) : r.range(1, 5); if (racy && k < 1) k = 1;
      for (int j = 0; j < k; ++j) { Par p = somePar(); if (j == 0 && (racy || r.chance(50))) p = Par{INT, 4, 1, false}; m.ps.push_back(p); m.len += p.bytes * p.elems; }
      bool here = i == w; std::string nm = m.name, lp = std::to_string(m.local), pp = std::to_string(m.peer), extra;
      if (here) { ok = false;
        switch (what) {
        case 0: nm = ""; break;
        case 1: { static const char *B[] = {"0", "65536", "x", "", "99999"}; lp = B[r.below(5)]; defL = false; break; }
        case 2: { static const char *B[] = {"0", "65536", "x", "", "70000"}; pp = B[r.below(5)]; defP = false; break; }
        case 3: extra = "<Parameter bytes=\"4\"/>"; break;
        case 4: extra = std::string("<Parameter type=\"") + ty((PK)r.below(4)) + "\"" + (r.chance(50) ? " bytes=\"0\"" : r.chance(50) ? " bytes=\"q\"" : "") + "/>"; break;
        case 5: { static const char *B[] = {"type=\"int\" bytes=\"3\"", "type=\"int\" bytes=\"8\"", "type=\"float\" bytes=\"8\"", "type=\"float\" bytes=\"2\"", "type=\"bool\" bytes=\"3\"", "type=\"int-array\" elements=\"2\" bytes=\"1\"", "type=\"bool-array\" elements=\"2\" bytes=\"5\"", "type=\"float-array\" elements=\"3\" bytes=\"2\""}; extra = std::string("<Parameter ") + B[r.below(8)] + "/>"; break; }
        case 6: { static const char *B[] = {"real", "Integer", "array", "double", "int-", "string-arrays"}; extra = std::string("<Parameter bytes=\"4\" type=\"") + B[r.below(6)] + "\"/>"; break; }
        case 7: extra = std::string("<Parameter bytes=\"4\" type=\"int-array\"") + (r.chance(50) ? " elements=\"0\"" : "") + "/>"; break;
        case 8: extra = "<Parameter bytes=\"4\" type=\"int\" elements=\"1\"/>"; break;
        default: { static const char *B[] = {"<Parameter type=\"string\" bytes=\"4294967295\"/><Parameter type=\"string\" bytes=\"5\"/>", "<Parameter type=\"int-array\" bytes=\"4\" elements=\"1073741825\"/>", "<Parameter type=\"string\" bytes=\"70000\"/>", "<Parameter type=\"string-array\" bytes=\"65536\" elements=\"65537\"/>"}; extra = B[r.below(4)]; break; }
        }
      }
      x += "<Message name=\"" + nm + "\""; if (!defL) x += " local_port=\"" + lp + "\""; if (!defP) x += " peer_port=\"" + pp + "\""; if (r.chance(40) || x.find("default_peer=") == std::string::npos) x += " peer=\"127.0.0.1\"";
      x += ">"; for (Par const &p : m.ps) x += parXml(p);
      x += extra + "</Message>"; ms.push_back(m);
    }
    return x + "</Adapter>";
  }

  // ------------------------------------------------ values
  PLEXIL::Value someVal(Par const &p, bool &fits, bool wrong) {
    auto i1 = [&]() -> int32_t { switch (r.below(6)) { case 0: return 0; case 1: return -1; case 2: return p.bytes == 2 ? 32767 : INT32_MAX; case 3: return p.bytes == 2 ? -32768 : INT32_MIN; case 4: return r.range(-300, 300); default: { int32_t v = (int32_t)r.next(); return p.bytes == 2 ? (int16_t)v : v; } } };
    auto f1 = [&]() -> double { switch (r.below(6)) { case 0: return 0; case 1: return -104.7; case 2: return 3.4028234663852886e38; case 3: return 1e-40; case 4: return -r.unit(); default: return (r.unit() - 0.5) * std::pow(10.0, r.range(-30, 30)); } };
    auto s1 = [&]() { int n = r.chance(30) ? p.bytes : r.below(p.bytes + 1); std::string s; for (int i = 0; i < n; ++i) s += (char)r.range(1, 255); return s; };
    if (wrong) { fits = false;
      switch (r.below(4)) {
      case 0: return PLEXIL::Value();
      case 1: { PK k = (PK)((p.k + 1 + r.below(3)) % 4); if (r.chance(30) && !p.array) { PLEXIL::IntegerArray a(2, 1); return PLEXIL::Value(a); } return k == INT ? PLEXIL::Value((PLEXIL::Integer)1) : k == FLOAT ? PLEXIL::Value((PLEXIL::Real)2.5) : k == BOOL ? PLEXIL::Value(true) : PLEXIL::Value(PLEXIL::String("no")); }
      case 2: // out of range
        if (!p.array) {
          if (p.k == INT && p.bytes == 2) return PLEXIL::Value((PLEXIL::Integer)(r.chance(50) ? 32768 : -32769));
          if (p.k == FLOAT) return PLEXIL::Value((PLEXIL::Real)(r.chance(50) ? 3.5e38 : -1e300));
          if (p.k == STR) return PLEXIL::Value(PLEXIL::String(std::string(p.bytes + r.range(1, 20), 'x')));
          return PLEXIL::Value();
        }
        // fall through
      default: {
        if (!p.array) return PLEXIL::Value();
        int n = p.elems; bool unk = false, range = false; int q = r.below(3); if (q == 0) n += r.chance(50) || n == 1 ? 1 : -1; else if (q == 1) unk = true; else range = true;
        if (range && (p.k == BOOL || (p.k == INT && p.bytes == 4))) { range = false; unk = true; }
        int at = r.below(n);
        if (p.k == INT) { PLEXIL::IntegerArray a(n, 1); if (unk) a.setElementUnknown(at); if (range) a.setElement(at, 40000); return PLEXIL::Value(a); }
        if (p.k == FLOAT) { PLEXIL::RealArray a(n, 1.5); if (unk) a.setElementUnknown(at); if (range) a.setElement(at, 1e39); return PLEXIL::Value(a); }
        if (p.k == BOOL) { PLEXIL::BooleanArray a(n, true); if (unk) a.setElementUnknown(at); return PLEXIL::Value(a); }
        PLEXIL::StringArray a(n, "y"); if (unk) a.setElementUnknown(at); if (range) a.setElement(at, std::string(p.bytes + 1, 'z')); return PLEXIL::Value(a); }
      }
    }
    if (!p.array) return p.k == INT ? PLEXIL::Value((PLEXIL::Integer)i1()) : p.k == FLOAT ? PLEXIL::Value((PLEXIL::Real)f1()) : p.k == BOOL ? PLEXIL::Value(r.chance(50)) : PLEXIL::Value(PLEXIL::String(s1()));
    PLEXIL::BooleanArray ba(p.elems); PLEXIL::IntegerArray ia(p.elems); PLEXIL::RealArray ra(p.elems); PLEXIL::StringArray sa(p.elems);
    for (int i = 0; i < p.elems; ++i) { if (p.k == INT) ia.setElement(i, i1()); else if (p.k == FLOAT) ra.setElement(i, f1()); else if (p.k == BOOL) ba.setElement(i, r.chance(50)); else sa.setElement(i, s1()); }
    return p.k == INT ? PLEXIL::Value(ia) : p.k == FLOAT ? PLEXIL::Value(ra) : p.k == BOOL ? PLEXIL::Value(ba) : PLEXIL::Value(sa);
  }
  static void enc1(std::string &b, Par const &p, int32_t i, double d, bool t, std::string const &s) {
    if (p.k == INT) put(b, (uint32_t)i, p.bytes); else if (p.k == FLOAT) put(b, un((float)d), 4); else if (p.k == BOOL) put(b, t, p.bytes); else { std::string x = s; x.resize(p.bytes, '\0'); b += x; }
  }
  static std::string encode(Msg const &m, std::vector<PLEXIL::Value> const &a) {
    std::string b;
    for (size_t k = 0; k < m.ps.size(); ++k) {
      Par const &p = m.ps[k]; PLEXIL::Value const &v = a[k]; PLEXIL::Integer i = 0; PLEXIL::Real d = 0; bool t = false; PLEXIL::String s;
      if (!p.array) { if (p.k == INT) v.getValue(i); else if (p.k == FLOAT) v.getValue(d); else if (p.k == BOOL) v.getValue(t); else v.getValue(s); enc1(b, p, i, d, t, s); continue; }
      PLEXIL::IntegerArray const *ia; PLEXIL::RealArray const *ra; PLEXIL::BooleanArray const *ba; PLEXIL::StringArray const *sa;
      for (int j = 0; j < p.elems; ++j) {
        if (p.k == INT) { v.getValuePointer(ia); ia->getElement(j, i); } else if (p.k == FLOAT) { v.getValuePointer(ra); ra->getElement(j, d); } else if (p.k == BOOL) { v.getValuePointer(ba); ba->getElement(j, t); } else { v.getValuePointer(sa); sa->getElement(j, s); }
        enc1(b, p, i, d, t, s);
      }
    }
    return b;
  }

  // ------------------------------------------------ commands
  Cmd *cmd(std::string const &name, std::vector<PLEXIL::Value> const &args) { Cmd *c = new Cmd(name, args, ids++); all.insert(c); std::lock_guard<std::mutex> g(intf.m); intf.live.insert(c); return c; }
  void over(Cmd *c) { { std::lock_guard<std::mutex> g(intf.m); intf.live.erase(c); } all.erase(c); delete c; }
  void exec(Cmd *c) { PLEXIL::CommandHandler *hd = conf->getCommandHandler(c->getName()); if (!hd) { bad("udp", "no handler for " + c->getName()); return; } hd->executeCommand(c, &intf); }
  void abort(Cmd *c) { conf->getCommandHandler(c->getName())->abortCommand(c, &intf); }
  int ack(Cmd *c) { std::lock_guard<std::mutex> g(intf.m); return c->acks.empty() ? 0 : c->acks.size() == 1 ? c->acks[0] : -1; }
  std::vector<PLEXIL::Value> rets(Cmd *c) { std::lock_guard<std::mutex> g(intf.m); return c->rets; }
  bool settle() {
    if (dead) return false;
    if (started && !N.quiet(20000)) { bad("lost", "datagrams that arrived are not read"); return false; }
    std::lock_guard<std::mutex> g(intf.m);
    if (!intf.wrong.empty()) { bad("stale", intf.wrong); return false; }
    if (intf.eventAfter != intf.results) { bad("notify", "a result was posted without telling the executive"); return false; }
    return true;
  }

  void doSend(Msg &m) {
    bool fits = true; std::vector<PLEXIL::Value> a; int w = r.chance(25) && m.ps.size() ? r.below(m.ps.size()) : -1;
    for (size_t i = 0; i < m.ps.size(); ++i) a.push_back(someVal(m.ps[i], fits, (int)i == w));
    if (r.chance(8)) { if (a.size() && r.chance(50)) a.pop_back(); else a.push_back(PLEXIL::Value((PLEXIL::Integer)1)); fits = false; }
    int f = !racy && r.chance(12) ? r.range(1, 3) : 0;
    if (f && fits) { std::lock_guard<std::mutex> g(N.m); N.failed = 0; (f == 1 ? N.failSocket : f == 2 ? N.failConnect : N.failSend) = 1; }
    size_t before = N.open(), sent0; { std::lock_guard<std::mutex> g(N.m); sent0 = N.sent.size(); }
    Cmd *c = cmd(m.name, a); note("send " + m.name + (fits ? "" : " with wrong arguments") + (f ? " fault " + std::to_string(f) : "")); exec(c);
    bool failed; { std::lock_guard<std::mutex> g(N.m); failed = N.failed > 0; N.failed = N.failSocket = N.failConnect = N.failSend = 0; }
    int want = fits && !failed ? PLEXIL::COMMAND_SUCCESS : PLEXIL::COMMAND_FAILED, got = ack(c); R.add(fits ? failed ? "sendfaults" : "sends" : "sendrefused");
    std::vector<std::pair<int, std::string>> out; { std::lock_guard<std::mutex> g(N.m); out.assign(N.sent.begin() + sent0, N.sent.end()); }
    std::string args; for (auto &v : a) args += str(v) + ", ";
    if (got != want) bad("send", "sending " + m.name + "(" + args + ") gives handle " + std::to_string(got) + " instead of " + std::to_string(want));
    else if (want == PLEXIL::COMMAND_SUCCESS) {
      std::string b = encode(m, a);
      if (out.size() != 1) bad("send", std::to_string(out.size()) + " datagrams sent for one command");
      else if (out[0].first != m.peer) bad("send", m.name + " sent to port " + std::to_string(out[0].first) + " instead of " + std::to_string(m.peer));
      else if (out[0].second != b) bad("send", m.name + "(" + args + ") is sent as " + hex(out[0].second) + " instead of " + hex(b));
      // It may be a message to this very process.
      for (Msg &o : ms) if (o.local == m.peer && &o == &m && N.listening(o.local) && !dead && !racy) arrived(o, b, false);
    } else if (out.size()) bad("send", "a datagram was sent although the command failed");
    if (!dead && N.open() != before) bad("leak", "a socket is left open after sending");
    over(c); h = vc::mix(h, want * 7 + m.len);
  }

  // A datagram has been handed to a listening socket.
  void arrived(Msg &m, std::string const &b, bool maybe) {
    if (!settle()) return;
    auto g = std::make_shared<Gram>(); g->bytes = b; g->vals = decode(m, b.substr(0, m.len)); g->taken.assign(m.ps.size(), false); g->maybe = maybe; R.add("datagrams");
    if (maybe) R.add("misfits");
    if (m.waiting.empty()) { m.queued.push_back(g); return; }
    Cmd *c = m.waiting.front();
    if (maybe && rets(c).empty()) { R.add("dropped"); return; } // refusing it is fine
    m.waiting.pop_front(); delivered(m, c, g);
  }
  void delivered(Msg &m, Cmd *c, std::shared_ptr<Gram> g) {
    auto v = rets(c); std::string l;
    if (v.size() != 1) { bad("receive", v.empty() ? "a waiting ReceiveCommand for " + m.name + " did not get the datagram " + hex(g->bytes) : std::to_string(v.size()) + " values returned to one ReceiveCommand"); return; }
    if (!v[0].getValue(l) || !labels.insert(l).second) { bad("receive", "ReceiveCommand returned " + str(v[0])); return; }
    R.add("received"); g->label = l; m.got.push_back(g); over(c);
    for (Msg &o : ms) for (Cmd *w : o.waiting) if (!rets(w).empty()) { bad("receive", "a ReceiveCommand for " + o.name + " was answered when a datagram for " + m.name + " arrived for an earlier one"); return; }
  }
  void doReceive(Msg &m) {
    int q = racy ? 99 : r.below(100); std::vector<PLEXIL::Value> a{PLEXIL::Value(PLEXIL::String(m.name))}; bool ok = true; int fault = 0;
    if (q < 3) a.clear(), ok = false; else if (q < 5) a.push_back(a[0]), ok = false; else if (q < 7) a[0] = PLEXIL::Value((PLEXIL::Integer)3), ok = false;
    else if (q < 9) a[0] = PLEXIL::Value(PLEXIL::STRING_TYPE), ok = false; else if (q < 12) a[0] = PLEXIL::Value(PLEXIL::String("nothing")), ok = false;
    else if (q < 20) fault = r.range(1, 2);
    if (fault && ok) { std::lock_guard<std::mutex> g(N.m); N.failed = 0; (fault == 1 ? N.failSocket : N.failBind) = 1; }
    Cmd *c = cmd("ReceiveCommand", a); note("receive " + m.name + (ok ? "" : " wrongly") + (fault ? " fault" : "")); exec(c);
    bool failed; { std::lock_guard<std::mutex> g(N.m); failed = N.failed > 0; N.failed = N.failSocket = N.failBind = 0; }
    int want = !started || !ok || failed ? PLEXIL::COMMAND_FAILED : PLEXIL::COMMAND_SENT_TO_SYSTEM, got = ack(c);
    if (got != want) { bad("receive", "ReceiveCommand gets handle " + std::to_string(got) + " instead of " + std::to_string(want)); return; }
    if (want == PLEXIL::COMMAND_FAILED) { // and nothing is ever delivered to it
      if (!rets(c).empty()) bad("receive", "a failed ReceiveCommand got a value");
      over(c); R.add("receivefailed"); settle(); return; }
    R.add("receives"); m.opened = true;
    if (!N.listening(m.local)) { bad("receive", "nothing listens for " + m.name + " after ReceiveCommand"); return; }
    if (racy) { m.waiting.push_back(c); return; }
    if (m.queued.empty()) { m.waiting.push_back(c); if (!rets(c).empty()) bad("receive", "ReceiveCommand got " + str(rets(c)[0]) + " although nothing arrived"); }
    else { auto g = m.queued.front(); m.queued.pop_front(); delivered(m, c, g); }
    settle();
  }
  void doArrive(Msg &m) {
    std::string b; bool fits = true; int q = r.below(100); bool maybe = false;
    if (q < 70) { std::vector<PLEXIL::Value> a; for (Par const &p : m.ps) a.push_back(someVal(p, fits, false)); b = encode(m, a); }
    else for (int i = 0; i < m.len; ++i) b += (char)r.below(256);
    for (size_t i = 0, at = 0; i < m.ps.size(); ++i) { // no not-a-number, which equals nothing
      Par const &p = m.ps[i]; for (int e = 0; e < p.elems; ++e, at += p.bytes) if (p.k == FLOAT && std::isnan(fl(get(b, at, 4)))) b[at] = 0; }
    if (q >= 85 && !m.waiting.empty()) {
      if (q < 94 && m.len) { b.resize(r.chance(10) ? 0 : r.below(m.len)); maybe = true; }
      else if (q >= 97) { b += std::string(r.range(1, 50), 'L'); maybe = true; }
    }
    if (!N.listening(m.local)) return;
    if (!N.send(m.local, b)) { return; }
    note("datagram of " + std::to_string(b.size()) + " bytes for " + m.name); h = vc::mix(h, b.size());
    arrived(m, b, maybe);
  }
  void doGet(Msg &m) {
    if (m.got.empty()) return;
    size_t n = m.got.size(); auto g = m.got[n - 1 - r.below(std::min<size_t>(n, 3))];
    int k = (int)m.ps.size(), q = r.below(100), id = k ? r.below(k) : 0; std::vector<PLEXIL::Value> a{PLEXIL::Value(PLEXIL::String(g->label)), PLEXIL::Value((PLEXIL::Integer)id)}; bool ok = k > 0;
    if (q < 3) a[1] = PLEXIL::Value((PLEXIL::Integer)k), ok = false; else if (q < 6) a[1] = PLEXIL::Value((PLEXIL::Integer)-1), ok = false; else if (q < 8) a[1] = PLEXIL::Value((PLEXIL::Real)1), ok = false;
    else if (q < 10) a[1] = PLEXIL::Value(PLEXIL::INTEGER_TYPE), ok = false; else if (q < 12) a[0] = PLEXIL::Value((PLEXIL::Integer)1), ok = false; else if (q < 14) a[0] = PLEXIL::Value(PLEXIL::String("nobody:1")), ok = false;
    else if (q < 16) a.push_back(a[1]), ok = false; else if (q < 18) a.clear(), ok = false; else if (q < 20) a[0] = PLEXIL::Value(PLEXIL::STRING_TYPE), ok = false;
    else if (q < 35) { a.pop_back(); id = 0; }
    else if (!k) a[1] = PLEXIL::Value((PLEXIL::Integer)0);
    if (!k && q >= 20 && q < 35) return; // a message without parameters, first parameter asked for: not claimed
    Cmd *c = cmd("GetParameter", a); note("parameter " + std::to_string(id) + " of " + g->label + (ok ? "" : " wrongly")); exec(c);
    int want = ok ? PLEXIL::COMMAND_SENT_TO_SYSTEM : PLEXIL::COMMAND_FAILED, got = ack(c);
    if (got != want) { bad("parameter", "GetParameter gets handle " + std::to_string(got) + " instead of " + std::to_string(want)); return; }
    settle(); auto v = rets(c); R.add("parameters");
    if (!ok) { if (v.size()) bad("parameter", "a failed GetParameter got a value"); }
    else if (g->taken[id]) { if (v.size()) bad("parameter", "parameter " + std::to_string(id) + " of one datagram was returned twice"); return; /* stays waiting */ }
    else if (v.size() != 1) bad("parameter", std::to_string(v.size()) + " values returned for parameter " + std::to_string(id) + " of " + m.name);
    else { g->taken[id] = true; if (!(v[0] == g->vals[id]) || v[0].valueType() != g->vals[id].valueType()) bad("parameter", "parameter " + std::to_string(id) + " of datagram " + hex(g->bytes) + " is " + str(v[0]) + " instead of " + str(g->vals[id])); }
    if (!dead) over(c);
  }
  void doAbort(Msg &m) {
    if (m.waiting.empty()) return;
    size_t k = r.below(m.waiting.size()); Cmd *c = m.waiting[k]; note("abort receive " + m.name);
    abort(c); R.add("aborts");
    { std::lock_guard<std::mutex> g(intf.m); if (c->aborts.size() != 1 || !c->aborts[0]) { bad("abort", std::to_string(c->aborts.size()) + " acknowledgements of an abort"); } }
    if (dead) return;
    m.waiting.erase(m.waiting.begin() + k);
    if (racy) { m.lossy = true; if (!rets(c).empty()) { early.push_back({&m, rets(c)[0]}); } over(c); return; }
    if (!rets(c).empty()) { bad("abort", "an aborted ReceiveCommand got a value"); return; }
    over(c); settle();
    if (started && !m.waiting.empty() && !N.listening(m.local)) bad("abort", "nothing listens for " + m.name + " any more although another ReceiveCommand waits");
  }
  void doStop() {
    note("stop"); ad->stop(); started = false; R.add("stops");
    if (N.open()) bad("leak", std::to_string(N.open()) + " sockets are open after stopping");
    for (Msg &m : ms) { m.opened = false; }
    if (r.chance(20)) ad->stop();
    if (r.chance(60)) { // the commands still waiting are given up
      for (Msg &m : ms) while (!m.waiting.empty()) { Cmd *c = m.waiting.front(); abort(c); m.waiting.pop_front(); if (ack(c) != PLEXIL::COMMAND_SENT_TO_SYSTEM) bad("abort", "strange"); over(c); }
      note("start"); if (!ad->start()) bad("start", "the adapter cannot be started again"); started = true; R.add("restarts");
    }
  }
  std::vector<std::pair<Msg *, PLEXIL::Value>> early;

  bool setup() {
    bool ok; std::string x = config(ok); conf.reset(PLEXIL::makeAdapterConfiguration()); R.sample(x);
    keep.load_string(x.c_str()); log = x + " ";
    ad.reset(PLEXIL::AdapterFactory::createInstance(keep.document_element(), intf));
    if (!ad) { bad("internal", "no adapter"); return false; }
    bool got = ad->initialize(conf.get());
    if (got != ok) bad("config", std::string(ok ? "a valid" : "an invalid") + " configuration is " + (got ? "accepted" : "refused"));
    if (!got || dead) { R.add("refused"); return false; }
    return true;
  }
  pugi::xml_document keep;
  void finish() {
    if (started) { ad->stop(); started = false; if (!dead && N.open()) bad("leak", std::to_string(N.open()) + " sockets are open after stopping"); }
    { std::lock_guard<std::mutex> g(intf.m); if (!intf.wrong.empty()) bad("stale", intf.wrong); }
    ad.reset(); conf.reset();
  }
  void interrupt() { int k = r.chance(30) ? r.range(2, 9) : 0; std::lock_guard<std::mutex> g(N.m); N.sigEvery = k; N.waits = N.signals = 0; }
  void run() {
    N.reset(); N.on = true; nextPort = r.chance(50) ? r.range(1024, 32000) : r.range(32700, 65500); interrupt();
    if (setup()) {
      if (r.chance(95)) { ad->start(); started = true; }
      for (int i = 0, n = r.range(5, 40); i < n && !dead; ++i) {
        Msg &m = ms[r.below(ms.size())]; int q = r.below(100);
        if (q < 25) doReceive(m); else if (q < 50) doArrive(m); else if (q < 70) doGet(m); else if (q < 84) doSend(m); else if (q < 94) doAbort(m); else if (q < 96 && started) doStop(); else doGet(m);
        settle();
      }
    }
    finish(); { std::lock_guard<std::mutex> g(N.m); N.sigEvery = 0; if (N.signals) R.add("signals", N.signals); } N.on = false; N.reset(); R.sig(vc::mix(h, std::hash<std::string>()(log)));
  }
  void race() {
    N.reset(); N.on = true; interrupt();
    if (setup()) {
      ad->start(); started = true; std::atomic<bool> end(false); std::vector<long> sentTo(ms.size()); std::vector<std::atomic<long>> seqs(ms.size());
      for (Msg &m : ms) doReceive(m);
      uint64_t s = r.next();
      std::thread peer([&, s]() { Rng q(s); int n = q.range(20, 150);
        for (int i = 0; i < n && !end; ++i) { size_t k = q.below(ms.size()); Msg &m = ms[k]; if (!N.room(m.local)) { std::this_thread::yield(); continue; }
          std::string b; put(b, (uint32_t)(seqs[k] + 1), 4); b.resize(m.len, '\1'); for (size_t z = 0, at = 0; z < m.ps.size(); ++z) { for (int e = 0; e < m.ps[z].elems; ++e, at += m.ps[z].bytes) if (m.ps[z].k == FLOAT) b[at] = 1; }
          if (N.send(m.local, b)) ++seqs[k];
          if (q.chance(20)) std::this_thread::sleep_for(std::chrono::microseconds(q.below(200))); } });
      std::vector<std::vector<Cmd *>> done(ms.size());
      for (int i = 0, n = r.range(10, 60); i < n && !dead; ++i) {
        size_t k = r.below(ms.size()); Msg &m = ms[k]; int q = r.below(100);
        if (q < 60) doReceive(m); else if (q < 66) doAbort(m); else if (q < 85) doSend(m);
        else { std::lock_guard<std::mutex> g(intf.m); for (auto it = m.waiting.begin(); it != m.waiting.end();) if (!(*it)->rets.empty()) { done[k].push_back(*it); it = m.waiting.erase(it); } else ++it; }
        if (r.chance(30)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(200)));
      }
      peer.join(); end = true;
      if (settle()) for (size_t k = 0; k < ms.size() && !dead; ++k) {
        Msg &m = ms[k]; long want = 0; bool self = m.peer == m.local;
        for (Cmd *c : m.waiting) done[k].push_back(c);
        m.waiting.clear(); bool gap = false; long got = 0;
        for (Cmd *c : done[k]) {
          auto v = rets(c); if (v.empty()) { gap = true; continue; }
          std::string l; if (v.size() != 1 || !v[0].getValue(l) || !labels.insert(l).second) { bad("receive", std::to_string(v.size()) + " values, " + str(v[0])); break; }
          if (gap) { bad("order", "a later ReceiveCommand was answered before an earlier one"); break; }
          Cmd *p = cmd("GetParameter", {v[0]}); exec(p); auto pv = rets(p); PLEXIL::Integer n = 0; ++got; R.add("raced");
          if (pv.size() != 1 || !pv[0].getValue(n)) { bad("parameter", "no parameter of a received datagram"); break; }
          if (self) { over(p); continue; } // mixed with its own
          if (m.lossy ? n <= want : n != want + 1) { bad("order", "datagram " + std::to_string(n) + " follows " + std::to_string(want) + " for " + m.name); break; }
          want = n; over(p);
        }
        if (!dead && !self && !m.lossy && gap && want != seqs[k]) bad("lost", std::to_string(seqs[k] - want) + " datagrams for " + m.name + " lost while a ReceiveCommand waits");
        h = vc::mix(h, want);
      }
    }
    finish(); N.on = false; N.reset(); R.sig(h);
  }
};

int main(int argc, char **argv) {
  vc::Args a(argc, argv);
  PLEXIL::Error::doThrowExceptions(); PLEXIL::PlanError::doThrowExceptions(); PLEXIL::InterfaceError::doThrowExceptions();
  std::string mode = a.str("mode", "seq"); uint64_t seed = a.num("seed", 1); long first = a.num("first", 0), cases = a.num("cases", 10);
  initUdpAdapter(); std::cout.rdbuf(nullptr);
  for (long k = first; k < first + cases; ++k) {
    R.begin(mode + ":" + std::to_string(seed) + ":" + std::to_string(k)); R.add("cases");
    uint64_t s = vc::mix(seed * 7919 + 5, k);
    try { World w(s, mode == "race"); if (mode == "race") w.race(); else w.run(); if (w.dead) { R.finish(); fflush(stdout); _exit(0); } }
    catch (std::exception const &e) { R.viol("internal", std::string("exception: ") + e.what()); R.finish(); fflush(stdout); _exit(0); }
  }
  R.finish();
  plexilRunFinalizers();
  return 0;
}
