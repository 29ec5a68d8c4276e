// C12: what listeners and the viewer are told. Real plans run in a random environment (the driver
// of h_exec.cc, whose model checks each event as the executive raises it); the real hub passes the
// events to several listeners with filters, among them viewer listeners on a fake network inside
// the process. Every listener's record and every viewer's byte stream is compared with the events.
#define H_EXEC_NO_MAIN 1
#include "h_exec.cc"
#include "ExecApplication.hh"
#include "AdapterConfiguration.hh"
#include "ExecListener.hh"
#include "ExecListenerFactory.hh"
#include "ExecListenerFilter.hh"
#include "ExecListenerFilterFactory.hh"
#include "ExecListenerHub.hh"
#include "InterfaceManager.hh"
#include "LuvListener.hh"
#include <atomic>
#include <cerrno>
#include <chrono>
#include <condition_variable>
#include <mutex>
#include <netinet/in.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <thread>
#include <deque>
#include <iostream>
#include <unistd.h>
namespace PLEXIL { void registerExecListenerFilters(); }
using namespace PLEXIL;

static std::mutex repMx;
static void viol(std::string const &k, std::string const &m) { std::lock_guard<std::mutex> g(repMx); R.viol(k, m); }

// ---------------------------------------------------------------- the fake network
static const char EOM = 4;
struct Viewer {               // one connection
  int port = 0; std::string in; bool open = true; long acked = 0, msgs = 0; bool gone = false, bad = false;
};
struct Net {
  bool on = false;
  std::mutex m;
  Rng rng{1};
  std::map<int, int> fds;                          // fd -> connection number, -1 if not connected
  std::vector<Viewer> conns;
  std::map<int, bool> blocking;                    // port -> the viewer is asked to acknowledge
  std::map<int, long> dieAfter;                    // port -> the viewer goes away after so many bytes
  std::set<int> refuse;                            // ports nobody listens on
  int pPart = 0, pIntr = 0, jitter = 0; long partial = 0, intr = 0, died = 0;
  void reset(uint64_t seed) { std::lock_guard<std::mutex> g(m); for (auto &f : fds) syscall(SYS_close, f.first); fds.clear(); conns.clear(); blocking.clear(); dieAfter.clear(); refuse.clear(); rng = Rng(seed); pPart = pIntr = jitter = 0; }
};
static Net N;
extern "C" {
int socket(int dom, int type, int proto) noexcept {
  if (!N.on || dom != AF_INET) return (int)syscall(SYS_socket, dom, type, proto);
  std::lock_guard<std::mutex> g(N.m);
  int fd = (int)syscall(SYS_socket, AF_UNIX, SOCK_STREAM, 0); if (fd >= 0) N.fds[fd] = -1; return fd;
}
int setsockopt(int fd, int l, int o, const void *v, socklen_t n) noexcept {
  { std::lock_guard<std::mutex> g(N.m); if (N.on && N.fds.count(fd)) return 0; }
  return (int)syscall(SYS_setsockopt, fd, l, o, v, n);
}
int connect(int fd, const struct sockaddr *a, socklen_t n) {
  { std::lock_guard<std::mutex> g(N.m);
    auto it = N.fds.find(fd);
    if (N.on && it != N.fds.end()) {
      int port = ntohs(((const sockaddr_in *)a)->sin_port);
      if (ntohl(((const sockaddr_in *)a)->sin_addr.s_addr) != 0x7f000001) viol("luv", "connection to the wrong host");
      if (N.refuse.count(port)) { errno = ECONNREFUSED; return -1; }
      it->second = (int)N.conns.size(); N.conns.emplace_back(); N.conns.back().port = port; return 0;
    } }
  return (int)syscall(SYS_connect, fd, a, n);
}
ssize_t send(int fd, const void *b, size_t len, int fl) {
  int nap = 0; ssize_t ret = -1;
  { std::lock_guard<std::mutex> g(N.m);
    auto it = N.fds.find(fd);
    if (!N.on || it == N.fds.end()) return (ssize_t)syscall(SYS_sendto, fd, b, len, fl, nullptr, 0);
    if (it->second < 0) { errno = ENOTCONN; return -1; }
    Viewer &v = N.conns[it->second];
    if (v.gone) { if (!(fl & MSG_NOSIGNAL)) { viol("luv", "writing to a viewer that has gone away raises SIGPIPE, which ends the process"); } errno = EPIPE; return -1; }
    if (len && N.rng.chance(N.pIntr)) { ++N.intr; errno = EINTR; return -1; }
    if (N.blocking[v.port] && v.acked != v.msgs && len) { if (!v.bad) viol("luv", "next message sent before the viewer acknowledged the one before"); v.bad = true; }
    size_t k = len;
    if (len > 1 && N.rng.chance(N.pPart)) { k = 1 + N.rng.below((int)len - 1); ++N.partial; }
    v.in.append((const char *)b, k);
    for (size_t i = 0; i < k; ++i) if (((const char *)b)[i] == EOM) ++v.msgs;
    auto d = N.dieAfter.find(v.port);
    if (d != N.dieAfter.end() && d->second >= 0 && (long)v.in.size() > d->second) { v.gone = true; ++N.died; }
    ret = (ssize_t)k;
    if (N.jitter && N.rng.chance(30)) nap = N.rng.below(N.jitter);
  }
  if (nap) usleep(nap);
  return ret;
}
ssize_t recv(int fd, void *b, size_t len, int fl) {
  std::lock_guard<std::mutex> g(N.m);
  auto it = N.fds.find(fd);
  if (!N.on || it == N.fds.end()) return (ssize_t)syscall(SYS_recvfrom, fd, b, len, fl, nullptr, nullptr);
  if (it->second < 0) { errno = ENOTCONN; return -1; }
  Viewer &v = N.conns[it->second];
  if (v.gone) { if (N.rng.chance(50)) return 0; errno = ECONNRESET; return -1; }
  if (N.rng.chance(N.pIntr)) { ++N.intr; errno = EINTR; return -1; }
  if (!N.blocking[v.port] || v.acked >= v.msgs) { viol("luv", "waits for an acknowledgement that is not due"); return 0; }
  ++v.acked; *(char *)b = EOM; return 1;
}
ssize_t __recv_chk(int fd, void *b, size_t len, size_t, int fl) { return recv(fd, b, len, fl); }
int close(int fd) {
  { std::lock_guard<std::mutex> g(N.m);
    auto it = N.fds.find(fd);
    if (N.on && it != N.fds.end()) { if (it->second >= 0) N.conns[it->second].open = false; N.fds.erase(it); } }
  return (int)syscall(SYS_close, fd);
}
}

// ---------------------------------------------------------------- events
struct Ev {
  enum K { TRANS, ASSIGN, PLAN, LIB } k = TRANS;
  std::string node; int from = 0, to = 0; Node const *ptr = nullptr;
  Expression const *dest = nullptr; std::string name; Value val;
  std::string xml;            // plan or library
  std::string luv;            // expected viewer message, canonical
  std::string str() const {
    switch (k) {
    case TRANS: return "transition of " + node + " " + nodeStateName((NodeState)from) + "->" + nodeStateName((NodeState)to);
    case ASSIGN: return "assignment " + name + "=" + val.valueToString();
    case PLAN: return "plan " + xml.substr(0, 60);
    default: return "library " + xml.substr(0, 60);
    }
  }
  bool same(Ev const &o) const { return k == o.k && node == o.node && from == o.from && to == o.to && ptr == o.ptr && dest == o.dest && name == o.name && val == o.val && xml == o.xml; }
};
// canonical form of an XML tree: independent of formatting
static void canon(pugi::xml_node n, std::string &o) {
  if (n.type() == pugi::node_pcdata || n.type() == pugi::node_cdata) { o += "'" + std::string(n.value()) + "'"; return; }
  if (n.type() != pugi::node_element) { for (auto c : n.children()) canon(c, o); return; }
  o += "<" + std::string(n.name());
  for (auto a : n.attributes()) o += " " + std::string(a.name()) + "=\"" + a.value() + "\"";
  o += ">";
  std::string txt; bool elems = false;
  for (auto c : n.children()) if (c.type() == pugi::node_element) elems = true;
  for (auto c : n.children()) {
    if (c.type() == pugi::node_pcdata || c.type() == pugi::node_cdata) { if (!elems) txt += c.value(); }
    else canon(c, o);
  }
  if (!txt.empty()) o += "'" + txt + "'";
  o += "</>";
}
static std::string canonOf(pugi::xml_node n) { std::string o; canon(n, o); return o; }
static std::string el(std::string const &tag, std::string const &txt) { return "<" + tag + ">" + (txt.empty() ? "" : "'" + txt + "'") + "</>"; }

struct Filter {
  enum T { NONE, STATES, RAND } t = NONE;
  bool on[8]; uint64_t seed = 0;
  bool coin(std::string const &s) const { return vc::mix(seed, vc::hashStr(s)) % 3 != 0; }
  bool pass(Ev const &e) const {
    if (t == NONE) return true;
    if (t == STATES) return e.k != Ev::TRANS || on[e.from] || on[e.to];
    switch (e.k) {
    case Ev::TRANS: return coin("t" + e.node + std::to_string(e.to));
    case Ev::ASSIGN: return coin("a" + e.name);
    case Ev::PLAN: return coin("p" + e.xml);
    default: return coin("l" + e.xml);
    }
  }
};
class RandFilter : public ExecListenerFilter {
  Filter f;
public:
  RandFilter(pugi::xml_node const x) : ExecListenerFilter(x) {}
  ~RandFilter() {}
  bool initialize() override { f.t = Filter::RAND; f.seed = strtoull(getXml().attribute("Seed").value(), nullptr, 10); return true; }
  bool reportNodeTransition(NodeTransition const &t) override { return f.coin("t" + t.node->getNodeId() + std::to_string((int)t.newState)); }
  bool reportAddPlan(pugi::xml_node const x) override { return f.coin("p" + canonOf(x)); }
  bool reportAddLibrary(pugi::xml_node const x) override { return f.coin("l" + canonOf(x)); }
  bool reportAssignment(Expression const *, std::string const &n, Value const &) override { return f.coin("a" + n); }
};
static std::map<int, std::vector<Ev>> got;   // what each recording listener was told
static std::map<int, int> starts, stops;
class Rec : public ExecListener {
  int id;
public:
  Rec(pugi::xml_node const x) : ExecListener(x), id(x.attribute("Id").as_int()) {}
  bool start() override { ++starts[id]; return true; }
  void stop() override { ++stops[id]; }
  void implementNotifyNodeTransition(NodeTransition const &t) const override { Ev e; e.k = Ev::TRANS; e.node = t.node->getNodeId(); e.ptr = t.node; e.from = t.oldState; e.to = t.newState; got[id].push_back(e); }
  void implementNotifyAddPlan(pugi::xml_node const x) const override { Ev e; e.k = Ev::PLAN; e.xml = canonOf(x); got[id].push_back(e); }
  void implementNotifyAddLibrary(pugi::xml_node const x) const override { Ev e; e.k = Ev::LIB; e.xml = canonOf(x); got[id].push_back(e); }
  void implementNotifyAssignment(Expression const *d, std::string const &n, Value const &v) const override { Ev e; e.k = Ev::ASSIGN; e.dest = d; e.name = n; e.val = v; got[id].push_back(e); }
};

static std::string transMsg(NodeTransition const &t) {
  std::string s = "<NodeStateUpdate>" + el("NodeState", nodeStateName(t.newState));
  if (t.node->getOutcome() != NO_OUTCOME) s += el("NodeOutcome", outcomeName(t.node->getOutcome()));
  if (t.node->getFailureType() != NO_FAILURE) s += el("NodeFailureType", failureTypeName(t.node->getFailureType()));
  s += "<Conditions>";
  auto *n = dynamic_cast<NodeImpl const *>(t.node);
  for (size_t i = 0; i < NodeImpl::conditionIndexMax; ++i) if (Expression const *c = n->getCondition(i)) {
    bool b; std::string v = c->getValue(b) ? (b ? "true" : "false") : "[unknown_value]";
    s += el(NodeImpl::ALL_CONDITIONS[i], v);
  }
  s += "</><NodePath>";
  std::vector<std::string> path;
  for (Node const *x = t.node; x; x = x->getParent()) path.insert(path.begin(), x->getNodeId());
  for (auto &p : path) s += el("NodeId", p);
  return s + "</></>";
}

// Reads a viewer's byte stream; returns false after reporting.
static bool splitMsgs(std::string const &in, bool cut, std::vector<std::string> &out) {
  size_t a = 0;
  for (size_t i = 0; i < in.size(); ++i) if (in[i] == EOM) {
    pugi::xml_document d;
    auto r = d.load_buffer(in.data() + a, i - a, pugi::parse_default | pugi::parse_ws_pcdata | pugi::parse_fragment);
    int roots = 0; bool stray = false;
    for (auto c : d.children()) if (c.type() == pugi::node_element) ++roots; else if (c.type() == pugi::node_pcdata) stray = true;
    if (!r || roots != 1 || stray) { viol("luv", std::string("viewer message is not well-formed XML (") + r.description() + "): " + in.substr(a, std::min<size_t>(i - a, 300))); return false; }
    out.push_back(canonOf(d.first_child()));
    a = i + 1;
  }
  if (a != in.size() && !cut) { viol("luv", "viewer stream ends inside a message: " + in.substr(a, 200)); return false; }
  return true;
}

// ---------------------------------------------------------------- hub mode
struct Sink { int id; bool luv; Filter f; int port = 0; bool block = false; bool connected = false; long dieAt = -1; std::vector<Ev> want; size_t checked = 0; std::vector<std::string> wantMsgs; int conn = -1; };

struct Tap : ExecListenerBase {
  Case *k; ExecListenerHub *hub; std::vector<Sink> sinks; std::vector<Ev> ts, as; std::vector<NodeTransition> raw; Rng rng; bool stopped = false; std::deque<std::string> keep;
  Tap(Case *c, ExecListenerHub *h, uint64_t s) : k(c), hub(h), rng(s) {}
  void notifyOfTransitions(std::vector<NodeTransition> const &t) override {
    k->notifyOfTransitions(t);
    for (auto &x : t) { Ev e; e.node = x.node->getNodeId(); e.ptr = x.node; e.from = x.oldState; e.to = x.newState; ts.push_back(e); raw.push_back(x); }
    hub->notifyOfTransitions(t);
    if (rng.chance(10)) inject();
  }
  void notifyOfAssignment(Expression const *d, std::string const &n, Value const &v) override {
    k->notifyOfAssignment(d, n, v);
    tell(d, n, v);
    if (rng.chance(10)) inject();
  }
  void tell(Expression const *d, std::string const &n, Value const &v) {
    Ev e; e.k = Ev::ASSIGN; e.dest = d; e.name = n; e.val = v; as.push_back(e);
    hub->notifyOfAssignment(d, n, v);
  }
  std::string text(bool doc = false) {
    static const char *P[] = {"<", ">", "&", "\"", "'", "a", "Zz", " ", "\n", "\t", "\r", "]]>", "&amp;", "&lt;", "<!--", "-->", "<?x?>", "</Value>", "\x04", "\x01", "\x1f", "\x7f", "\xc3\xa9", "\xe2\x82\xac", "%s", "\\", "0"};
    std::string s; int n = rng.below(6); for (int i = 0; i < n; ++i) s += P[rng.below((int)(sizeof P / sizeof *P))];
    if (doc) for (char &c : s) if (c == '\r' || c == 4) c = '_';
    return s;
  }
  // an assignment of our own: the hub does not mind where events come from
  void inject() {
    std::string n = rng.chance(60) ? "v" + std::to_string(rng.below(50)) : text();
    Value v;
    switch (rng.below(6)) {
    case 0: v = Value(String(text())); break;
    case 1: v = Value((Integer)rng.range(-100, 100)); break;
    case 2: { StringArray a(3); for (int i = 0; i < 3; ++i) if (rng.chance(80)) a.setElement(i, String(text())); v = Value(a); break; }
    case 3: v = Value((Real)(rng.range(-100, 100) / 8.0)); break;
    case 4: break;
    default: v = Value(String(text())); break;
    }
    R.add("injected");
    tell(nullptr, n, v);
  }
  void push(Ev e) {
    R.add(e.k == Ev::TRANS ? "events_transition" : e.k == Ev::ASSIGN ? "events_assignment" : e.k == Ev::PLAN ? "events_plan" : "events_library");
    for (auto &s : sinks) {
      if (!s.f.pass(e)) { R.add("filtered"); continue; }
      if (!s.luv) { s.want.push_back(e); continue; }
      if (!s.connected) continue;
      if (e.k == Ev::PLAN || e.k == Ev::LIB) s.wantMsgs.push_back("<PlanInfo>" + el("ViewerBlocks", s.block ? "true" : "false") + "</>");
      s.wantMsgs.push_back(e.luv);
    }
  }
  void stepComplete(unsigned int c) override {
    while (rng.chance(25)) inject();
    for (size_t i = 0; i < ts.size(); ++i) { ts[i].luv = transMsg(raw[i]); push(ts[i]); }
    for (auto &a : as) { a.luv = "<Assignment><Variable>" + el("VariableName", a.name) + "</>" + el("Value", a.val.valueToString()) + "</>"; push(a); }
    ts.clear(); as.clear(); raw.clear();
    hub->stepComplete(c);
    check();
    k->stepComplete(c);
  }
  void plan(pugi::xml_node x, bool lib) {
    Ev e; e.k = lib ? Ev::LIB : Ev::PLAN; e.xml = canonOf(x);
    e.luv = lib ? "<PlexilLibrary>" + e.xml + "</>" : e.xml;
    push(e);
    if (lib) hub->notifyOfAddLibrary(x); else hub->notifyOfAddPlan(x);
    check();
  }
  void strange() {   // documents with text that needs care
    pugi::xml_document d;
    auto p = d.append_child(rng.chance(50) ? "PlexilPlan" : "Node");
    p.append_child("NodeId").text().set(("x" + text(true)).c_str());
    p.append_attribute("A").set_value(text(true).c_str());
    plan(d.document_element(), rng.chance(40));
  }
  void check() {
    for (auto &s : sinks) {
      if (s.luv) { checkLuv(s); continue; }
      auto &g = got[s.id];
      for (; s.checked < s.want.size() || s.checked < g.size(); ++s.checked) {
        if (s.checked >= g.size()) throw Stop{"listen", "listener was not told of " + s.want[s.checked].str()};
        if (s.checked >= s.want.size()) throw Stop{"listen", "listener was told again, or against its filter, of " + g[s.checked].str()};
        if (!g[s.checked].same(s.want[s.checked])) throw Stop{"listen", "listener was told of " + g[s.checked].str() + " where " + s.want[s.checked].str() + " was due"};
        R.add("delivered");
      }
    }
  }
  void checkLuv(Sink &s) {
    if (!s.connected) return;
    Viewer v; { std::lock_guard<std::mutex> g(N.m); v = N.conns[s.conn]; }
    std::vector<std::string> m;
    bool cut = v.gone;
    if (!splitMsgs(v.in, cut, m)) throw Stop{"", ""};
    for (size_t i = 0; i < m.size() || (i < s.wantMsgs.size() && !cut); ++i) {
      if (i >= m.size()) throw Stop{"luv", "viewer was not sent " + s.wantMsgs[i]};
      if (i >= s.wantMsgs.size()) throw Stop{"luv", "viewer was sent in excess " + m[i]};
      if (m[i] != s.wantMsgs[i]) throw Stop{"luv", "viewer was sent " + m[i] + " where " + s.wantMsgs[i] + " was due"};
    }
    R.add("viewer_messages", (long)m.size());
    if (v.gone) { s.connected = false; R.add("viewers_lost"); }
    else { std::lock_guard<std::mutex> g(N.m); N.conns[s.conn].in.clear(); s.wantMsgs.clear(); }
  }
};

static std::string stateList(Rng &r, bool *on, bool val) {
  static const char *S[] = {"", "INACTIVE", "WAITING", "EXECUTING", "ITERATION_ENDED", "FINISHED", "FAILING", "FINISHING"};
  for (int i = 0; i < 8; ++i) on[i] = !val;
  std::string s; int n = r.range(1, 4); bool sp = r.chance(40);
  for (int i = 0; i < n; ++i) { int k = r.range(1, 7); on[parseNodeState(S[k])] = val; if (i) s += sp ? (r.chance(50) ? " , " : ", ") : ","; else if (sp) s += r.chance(50) ? " \n" : ""; s += S[k]; }
  if (sp && r.chance(40)) s += " ";
  return s;
}

static void hubCase(uint64_t cs, std::string const &tag) {
  Rng r(vc::mix(cs, 991));
  static const char *PN[] = {"life", "life", "assign", "cmd", "lib", "update", "cond", "big"};
  Prof f = profile(PN[r.below(8)]);
  if (f.maxNodes > 20) f.maxNodes = 20;
  Case k(f, cs);
  k.reap = true;
  got.clear(); starts.clear(); stops.clear();
  N.reset(cs);
  N.pPart = r.chance(50) ? r.range(5, 60) : 0;
  N.pIntr = r.chance(30) ? r.range(5, 40) : 0;
  ExecListenerHub hub;
  Tap tap(&k, &hub, vc::mix(cs, 5));
  // configuration
  std::deque<std::unique_ptr<pugi::xml_document>> docs;
  int nl = r.range(1, 4); bool bad = false; int badId = -1, noconn = -1;
  std::string how;
  for (int i = 0; i < nl; ++i) {
    Sink s; s.id = i; s.luv = r.chance(45);
    docs.emplace_back(new pugi::xml_document);
    auto x = docs.back()->append_child("Listener");
    x.append_attribute("ListenerType").set_value(s.luv ? "LuvListener" : "Rec");
    x.append_attribute("Id").set_value(i);
    if (s.luv) {
      s.port = 40000 + i; s.block = r.chance(40);
      x.append_attribute("HostName").set_value("127.0.0.1");
      x.append_attribute("Port").set_value(s.port);
      if (s.block || r.chance(50)) x.append_attribute("Blocking").set_value(s.block);
      N.blocking[s.port] = s.block;
      if (r.chance(10)) { N.refuse.insert(s.port); if (r.chance(30)) { x.append_attribute("IgnoreConnectFailure").set_value(false); noconn = i; } }
      else if (r.chance(25)) N.dieAfter[s.port] = r.below(r.chance(50) ? 400 : 6000);
    }
    int ft = r.below(10);
    if (ft < 5) {
      auto fx = x.append_child("Filter");
      if (r.chance(4)) { bad = true; if (badId < 0) badId = i; if (r.chance(50)) fx.append_attribute("FilterType").set_value(r.chance(50) ? "NoSuchFilter" : ""); }
      else if (ft < 3) {
        s.f.t = Filter::STATES;
        fx.append_attribute("FilterType").set_value("NodeState");
        int w = r.below(20);
        if (w < 10) fx.append_child("States").text().set(stateList(r, s.f.on, true).c_str());
        else if (w < 18) fx.append_child("IgnoredStates").text().set(stateList(r, s.f.on, false).c_str());
        else if (w == 18) s.f.t = Filter::NONE;
        else { fx.append_child("IgnoredStates").text().set(stateList(r, s.f.on, false).c_str()); fx.append_child("States").text().set(stateList(r, s.f.on, true).c_str()); bad = true; if (badId < 0) badId = i; }
      } else { s.f.t = Filter::RAND; s.f.seed = r.next() >> 8; fx.append_attribute("FilterType").set_value("Rand"); fx.append_attribute("Seed").set_value((unsigned long long)s.f.seed); }
    }
    how += std::to_string(s.luv) + std::to_string((int)s.f.t) + std::to_string(s.block) + " ";
    tap.sinks.push_back(s);
    if (s.luv && s.f.t == Filter::NONE && !x.child("Filter") && r.chance(30) && noconn != i) hub.addListener(makeLuvListener("127.0.0.1", s.port, s.block));
    else if (!hub.constructListener(x)) { viol("listen", "listener was not constructed"); return; }
  }
  if (hub.initialize() == bad) { viol("listen", bad ? "an invalid filter was accepted" : "a valid listener was refused"); return; }
  if (bad) { R.add("refused"); return; }
  auto startAll = [&]() -> bool {
    size_t before = N.conns.size();
    bool ok = hub.start();
    if (ok != (noconn < 0)) { viol("listen", ok ? "a listener that could not connect was started" : "starting failed"); return false; }
    if (!ok) return false;
    for (auto &s : tap.sinks) if (s.luv) {
      s.wantMsgs.clear(); s.conn = -1;
      for (size_t c = before; c < N.conns.size(); ++c) if (N.conns[c].port == s.port) { if (s.conn >= 0) { viol("luv", "two connections to one viewer"); return false; } s.conn = (int)c; }
      s.connected = s.conn >= 0;
      if (s.connected == (N.refuse.count(s.port) > 0)) { viol("luv", "viewer was not connected to"); return false; }
    }
    return true;
  };
  auto closed = [&](const char *when) { for (auto &v : N.conns) if (v.open) { viol("luv", std::string("a connection is still open after ") + when); return; } };
  g_exec = makePlexilExec();
  g_dispatcher = &k;
  g_exec->setDispatcher(&k);
  g_exec->setExecListener(&tap);
  if (!startAll()) { hub.stop(); closed("stop"); delete g_exec; g_exec = nullptr; R.add("notstarted"); return; }
  k.onPlan = [&](pugi::xml_node x) { tap.plan(x, false); };
  k.onLib = [&](pugi::xml_node x) { tap.plan(x, true); };
  k.between = [&] {
    if (r.chance(6)) tap.strange();
    if (r.chance(1)) { hub.stop(); closed("stop"); R.add("restarts"); if (!startAll()) throw Stop{"", ""}; }
  };
  bool broken = false;
  try { k.run(tag, 50, false); }
  catch (Stop const &s) { if (!s.kind.empty()) viol(s.kind, s.msg); broken = true; }
  catch (Discard const &) { R.add("discarded"); broken = true; }
  catch (PLEXIL::Error const &e) { viol("internal", e.what()); broken = true; }
  catch (std::exception const &e) { viol("luv", std::string("exception out of a step: ") + e.what()); broken = true; }
  catch (...) { viol("luv", "exception out of a step"); broken = true; }
  hub.stop();
  closed("stop");
  if (!broken) for (int i = 0; i < nl; ++i) if (!tap.sinks[i].luv && (starts[i] < 1 || stops[i] != starts[i])) viol("listen", "listener was started " + std::to_string(starts[i]) + " times but stopped " + std::to_string(stops[i]));
  uint64_t sg = k.sig; for (auto &s : tap.sinks) sg = vc::mix(sg, (s.luv * 8 + s.f.t) * 2 + s.block);
  R.sig(sg);
  if (!broken && k.steps > 5) R.sample("listeners " + how + "; first record " + (got.empty() || got.begin()->second.empty() ? std::string("none") : got.begin()->second[0].str()), 1);
  delete g_exec; g_exec = nullptr;
}

// ---------------------------------------------------------------- race mode
// The threaded application: plans and libraries are added by several threads while others run.
static std::atomic<long> deadlineMs{0};
static long nowMs() { return std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static void watchdog() { for (;;) { usleep(100000); long d = deadlineMs; if (d && nowMs() > d) { viol("hang", "plans do not finish"); _exit(1); } } }
static std::mutex wMx; static std::string workerTid;
extern "C" unsigned sleep(unsigned s) {   // the application sleeps while its worker ends
  std::string w; { std::lock_guard<std::mutex> g(wMx); w = workerTid; }
  long end = nowMs() + 20000L * s;
  while (nowMs() < end && !w.empty()) { struct stat st; if (stat(("/proc/self/task/" + w).c_str(), &st)) break; usleep(300); }
  return 0;
}
static std::vector<std::string> *order = nullptr;      // written by the executive's thread and, for plans, by the adders
class RaceRec : public ExecListener {
public:
  RaceRec(pugi::xml_node const x) : ExecListener(x) {}
  void implementNotifyNodeTransition(NodeTransition const &t) const override {
    if (t.oldState == INACTIVE_STATE) { std::lock_guard<std::mutex> g(wMx); workerTid = std::to_string(syscall(SYS_gettid)); }
    order->push_back("T " + t.node->getNodeId() + " " + nodeStateName(t.newState));
  }
  void implementNotifyAddPlan(pugi::xml_node const x) const override { order->push_back("P " + std::string(x.child("Node").child_value("NodeId"))); }
  void implementNotifyAddLibrary(pugi::xml_node const x) const override { order->push_back("L " + std::string(x.child_value("NodeId"))); }
  void implementNotifyAssignment(Expression const *, std::string const &n, Value const &v) const override { order->push_back("A " + n + " " + v.valueToString()); }
};
static void raceCase(uint64_t cs) {
  Rng r(cs);
  N.reset(cs);
  N.pPart = r.chance(50) ? 30 : 0; N.pIntr = r.chance(30) ? 10 : 0; N.jitter = r.chance(60) ? r.range(5, 200) : 0;
  std::vector<std::string> ord; order = &ord;
  { std::lock_guard<std::mutex> g(wMx); workerTid.clear(); }
  ExecApplication *app = makeExecApplication();
  ExecListenerHub *hub = app->listenerHub();
  pugi::xml_document cd; auto cx = cd.append_child("Listener"); cx.append_attribute("ListenerType").set_value("RaceRec");
  if (!hub->constructListener(cx)) { viol("listen", "listener was not constructed"); return; }
  bool block = r.chance(30); N.blocking[40000] = block;
  hub->addListener(makeLuvListener("127.0.0.1", 40000, block));
  pugi::xml_document conf; conf.append_child("Interfaces");
  if (!app->initialize(conf.document_element())) { viol("internal", "application not initialized"); return; }
  if (!app->startInterfaces() || !app->run()) { viol("internal", "application not started"); return; }
  deadlineMs = nowMs() + 60000;
  int nt = r.range(1, 3), np = r.range(1, 5);
  std::vector<std::thread> th; std::vector<std::string> names; std::map<std::string, int> vals;
  std::mutex nm;
  for (int t = 0; t < nt; ++t) {
    uint64_t ts = r.next();
    th.emplace_back([&, t, ts] {
      Rng q(ts);
      for (int i = 0; i < np; ++i) {
        std::string id = "r" + std::to_string(t) + "_" + std::to_string(i);
        int n = q.range(1, 4);
        std::string x = "<PlexilPlan><Node NodeType=\"NodeList\"><NodeId>" + id + "</NodeId><VariableDeclarations><DeclareVariable><Name>v" + id + "</Name><Type>Integer</Type><InitialValue><IntegerValue>0</IntegerValue></InitialValue></DeclareVariable></VariableDeclarations><NodeBody><NodeList><Node NodeType=\"Assignment\"><NodeId>a" + id + "</NodeId><RepeatCondition><LT><IntegerVariable>v" + id + "</IntegerVariable><IntegerValue>" + std::to_string(n) + "</IntegerValue></LT></RepeatCondition><NodeBody><Assignment><IntegerVariable>v" + id + "</IntegerVariable><NumericRHS><ADD><IntegerVariable>v" + id + "</IntegerVariable><IntegerValue>1</IntegerValue></ADD></NumericRHS></Assignment></NodeBody></Node></NodeList></NodeBody></Node></PlexilPlan>";
        { std::lock_guard<std::mutex> g(nm); names.push_back(id); vals[id] = n; }
        pugi::xml_document d; d.load_buffer(x.data(), x.size());
        if (q.chance(15)) {
          auto *l = new pugi::xml_document; std::string lx = "<PlexilPlan><Node NodeType=\"Empty\"><NodeId>l" + id + "</NodeId></Node></PlexilPlan>";
          l->load_buffer(lx.data(), lx.size());
          { std::lock_guard<std::mutex> g(nm); if (!app->manager()->handleAddLibrary(l)) viol("internal", "library refused"); names.push_back("l" + id); }
        }
        if (q.chance(50)) { if (!app->addPlan(&d)) viol("internal", "plan refused"); app->notifyExec(); }
        else { app->manager()->handleAddPlan(d.document_element()); app->manager()->notifyOfExternalEvent(); }
        if (q.chance(50)) usleep(q.below(400));
      }
    });
  }
  for (auto &t : th) t.join();
  app->notifyAndWaitForCompletion();
  while (!app->allPlansFinished()) { app->notifyExec(); usleep(200); }
  app->notifyAndWaitForCompletion();
  app->stop(); app->waitForShutdown();
  { std::lock_guard<std::mutex> g(wMx); workerTid.clear(); }
  std::string in; { std::lock_guard<std::mutex> g(N.m); if (N.conns.size() == 1) in = N.conns[0].in; else { } }
  delete app;
  deadlineMs = 0;
  for (auto &v : N.conns) if (v.open) viol("luv", "a connection is still open after the application ended");
  // the stream, reduced to the same form
  std::vector<std::string> m, o2; if (!splitMsgs(in, false, m)) return;
  bool info = false;
  for (auto &x : m) {
    pugi::xml_document d;
    if (x.compare(0, 10, "<PlanInfo>") == 0) { if (info) { viol("luv", "two plan headers in a row"); return; } info = true; continue; }
    bool p = x.compare(0, 12, "<PlexilPlan>") == 0 || x.compare(0, 15, "<PlexilLibrary>") == 0;
    if (p != info) { viol("luv", p ? "a plan without its header" : "something came between the header and its plan"); return; }
    info = false;
    auto field = [&](std::string const &tag, bool last) { size_t a = last ? x.rfind("<" + tag + ">'") : x.find("<" + tag + ">'"); if (a == std::string::npos) return std::string("?"); a += tag.size() + 3; return x.substr(a, x.find('\'', a) - a); };
    if (p) o2.push_back((x[7] == 'P' ? "P " : "L ") + field("NodeId", false));
    else if (x.compare(0, 12, "<Assignment>") == 0) o2.push_back("A " + field("VariableName", false) + " " + field("Value", false));
    else o2.push_back("T " + field("NodeId", true) + " " + field("NodeState", false));
  }
  if (o2 != ord) { size_t i = 0; while (i < o2.size() && i < ord.size() && o2[i] == ord[i]) ++i; viol("luv", "viewer and listener disagree at event " + std::to_string(i) + ": " + (i < o2.size() ? o2[i] : "end") + " / " + (i < ord.size() ? ord[i] : "end")); return; }
  std::map<std::string, int> seen, fin, cnt;
  for (auto &e : ord) {
    std::istringstream is(e); std::string k, id, st; is >> k >> id >> st;
    if (k == "P" || k == "L") { if (seen[id]++) { viol("listen", "plan " + id + " announced twice"); return; } }
    else if (k == "T") {
      std::string root = id[0] == 'a' ? id.substr(1) : id;
      if (!seen.count(root)) { viol("listen", "node " + id + " moved before its plan was announced"); return; }
      if (id[0] == 'r' && st == "FINISHED") ++fin[id];
    }
    else if (k == "A") ++cnt[id.substr(0, id.find_last_not_of(' ') + 1)];
  }
  for (auto &n : names) { if (seen[n] != 1) { viol("listen", "plan or library " + n + " was not announced"); return; } if (n[0] == 'r' && fin[n] != 1) { viol("listen", "plan " + n + " reported finished " + std::to_string(fin[n]) + " times"); return; } }
  long tot = 0; for (auto &c : cnt) tot += c.second;
  long want = 0; for (auto &v : vals) want += v.second;
  if (tot != want) viol("listen", std::to_string(want) + " assignments were made but " + std::to_string(tot) + " reported");
  R.add("raced_plans", (long)names.size()); R.add("raced_events", (long)ord.size());
  uint64_t sg = 0; for (auto &e : ord) sg = vc::mix(sg, vc::hashStr(e)); R.sig(sg);
}

int main(int argc, char **argv) {
  vc::Args A(argc, argv);
  PLEXIL::Error::doThrowExceptions();
  PLEXIL::Error::doNotDisplayWarnings();
  PLEXIL::PlanError::doThrowExceptions();
  bool race = A.str("mode", "hub") == "race";
  uint64_t seed = (uint64_t)A.num("seed", 1);
  long first = A.num("first", 0), cases = A.num("cases", 1);
  registerExecListenerFilters();
  REGISTER_EXEC_LISTENER_FILTER(RandFilter, "Rand");
  REGISTER_EXEC_LISTENER(Rec, "Rec");
  REGISTER_EXEC_LISTENER(RaceRec, "RaceRec");
  initLuvListener();
  if (race) std::thread(watchdog).detach();
  N.on = true;
  if (!A.has("noise")) { std::cerr.setstate(std::ios::failbit); std::cout.setstate(std::ios::failbit); }
  for (long c = first; c < first + cases; ++c) {
    R.begin((race ? "race:" : "hub:") + std::to_string(seed) + ":" + std::to_string(c));
    R.add("cases");
    uint64_t cs = vc::mix(seed * 77 + race, (uint64_t)c);
    if (race) raceCase(cs); else hubCase(cs, "x" + std::to_string(c));
  }
  R.add("partial_writes", N.partial); R.add("interrupted_calls", N.intr); R.add("viewers_gone", N.died);
  plexilRunFinalizers();
  R.finish();
  return 0;
}
