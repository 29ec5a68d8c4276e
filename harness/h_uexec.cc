// C27: the universal executive. Its real main program is run in a child process on generated command
// lines, configurations, libraries, resources, debug settings and plans; an adapter and a listener of ours,
// named in the configuration, write down what the plan did, and a viewer listens at its port.
#include "vcommon.hh"
#include "plexil-config.h"
#define main universal_exec_main
#include "UniversalExec.cc"
#undef main
#include "Configuration.hh"
#include "AdapterExecInterface.hh"
#include "AdapterFactory.hh"
#include "Command.hh"
#include "CommandHandler.hh"
#include "ExecListener.hh"
#include "ExecListenerFactory.hh"
#include "InterfaceAdapter.hh"
#include "LookupHandler.hh"
#include "LookupReceiver.hh"
#include "Node.hh"
#include "NodeTransition.hh"
#include "State.hh"
#include "Value.hh"
#include <algorithm>
#include <arpa/inet.h>
#include <dirent.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <sanitizer/lsan_interface.h>
using namespace PLEXIL;
using vc::Rng;
extern "C" void initIpcAdapter() {}
extern "C" void initUdpAdapter() {}
static vc::Report R;
static std::string dir;

static void note(std::string const &l) {
  int fd = open((dir + "/notes").c_str(), O_WRONLY | O_APPEND | O_CREAT, 0600);
  std::string x = l + "\n"; if (write(fd, x.data(), x.size()) < 0) _exit(99); close(fd);
}
class Vf : public InterfaceAdapter {
public:
  Vf(AdapterExecInterface &i, AdapterConf *c) : InterfaceAdapter(i, c), m_fail(c->xml.attribute("Fail").value()) {}
  bool initialize(AdapterConfiguration *c) override {
    c->setDefaultCommandHandlerFunction([](Command *cmd, AdapterExecInterface *i) {
      std::string l = cmd->getName();
      for (auto const &a : cmd->getArgValues()) { Integer n; std::string s; if (a.valueType() == INTEGER_TYPE && a.getValue(n)) l += " " + std::to_string(n); else if (a.valueType() == STRING_TYPE && a.getValue(s)) l += " '" + s + "'"; else l += " ?"; }
      note("M " + l);
      i->handleCommandAck(cmd, COMMAND_SUCCESS); i->notifyOfExternalEvent();
    });
    c->setDefaultLookupHandler(LookupNowHandler([](State const &s, LookupReceiver *rc) { Integer n = 0; if (s.parameterCount()) s.parameter(0).getValue(n); rc->update(Value((Integer)(5000 + n))); }));
    return m_fail != "init";
  }
  bool start() override { note("started"); return m_fail != "start"; }
  void stop() override { note("stopped"); }
  std::string m_fail;
};
class VfL : public ExecListener {
public:
  VfL(pugi::xml_node x) : ExecListener(x), m_fail(x.attribute("Fail").value()) {}
  bool initialize() override { return m_fail != "init"; }
  bool start() override { return m_fail != "start"; }
  void implementNotifyNodeTransition(NodeTransition const &t) const override {
    note("T " + t.node->getNodeId() + " " + nodeStateName(t.oldState) + " " + nodeStateName(t.newState) + (t.newState == FINISHED_STATE ? " " + outcomeName(t.node->getOutcome()) : ""));
  }
  std::string m_fail;
};

static std::string slurp(std::string const &f) { FILE *p = fopen(f.c_str(), "r"); std::string s; if (!p) return s; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, p)) > 0) s.append(b, n); fclose(p); return s; }
static std::vector<std::string> lines(std::string const &s) { std::vector<std::string> o; std::istringstream i(s); std::string l; while (std::getline(i, l)) o.push_back(l); return o; }
static void put(std::string const &f, std::string const &t) { FILE *p = fopen((dir + "/" + f).c_str(), "w"); fwrite(t.data(), 1, t.size(), p); fclose(p); }
static void wipe(std::string const &d, bool self) {
  if (DIR *p = opendir(d.c_str())) {
    while (dirent *e = readdir(p)) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string f = d + "/" + n; struct stat st; if (!lstat(f.c_str(), &st) && S_ISDIR(st.st_mode)) wipe(f, true); else unlink(f.c_str()); }
    closedir(p);
  }
  if (self) rmdir(d.c_str());
}
static std::string il(int n) { return "<IntegerValue>" + std::to_string(n) + "</IntegerValue>"; }
static std::string cmd(std::string const &id, std::string const &more, std::string const &args, std::string const &res = "", std::string const &after = "") {
  return "<Node NodeType=\"Command\"><NodeId>" + id + "</NodeId>" + more + "<NodeBody><Command>" + res + "<Name><StringValue>mark</StringValue></Name><Arguments>" + args + "</Arguments></Command></NodeBody>" + after + "</Node>";
}

struct Case {
  std::vector<std::string> args; std::string plan; std::map<std::string, std::string> files; std::vector<std::string> marks;
  std::set<std::string> nodes;       // every node of the plan
  bool proper = true;                // our adapter and listener are there
  bool planDebug = false; bool debug = false; std::vector<std::string> patterns;
  bool viewer = false, block = false; int rc = 0; std::string what = "good"; bool noRun = false; int planDebugs = 0;
};
static std::string esc(std::string const &s) { std::string o; for (char c : s) o += c == '<' ? "&lt;" : c == '&' ? "&amp;" : std::string(1, c); return o; }

static void gen(Rng &r, Case &c, int port) {
  std::vector<std::vector<std::string>> opts;
  // resources
  bool res = r.chance(40), resOn = false; double bound = 0, limit = 1;
  if (res) {
    int k = r.below(4); bool generous = r.chance(50);
    std::string file = k == 1 ? "other.res" : "resource.data";
    if (k != 3) c.files[file] = generous ? "% resources\nres 4\n" : "res 0.5\n";
    if (k == 1) { opts.push_back({"-r", r.chance(50) ? file : dir + "/" + file}); if (r.chance(50)) c.files["resource.data"] = "res 2\n"; }
    if (k == 2) opts.push_back({"+r"});
    resOn = k < 2; bound = generous ? 3 : 0.75; if (resOn) limit = generous ? 4 : 0.5;
  }
  // configuration
  int k = r.below(20);
  std::string cfg = "<?xml version=\"1.0\"?>\n<!-- who does what -->\n<Interfaces>";
  std::vector<std::string> parts = {"<Adapter AdapterType=\"Vf\"/>", "<Listener ListenerType=\"VfL\"/>"};
  if (r.chance(50)) { c.planDebugs = 1; parts.push_back("<Listener ListenerType=\"PlanDebugListener\"/>"); }
  if (r.chance(40)) parts.push_back("<Adapter AdapterType=\"Utility\"/>");
  if (r.chance(40)) parts.push_back("<Adapter AdapterType=\"Time\"/>");
  if (r.chance(30)) parts.push_back("<Adapter AdapterType=\"Launcher\"/>");
  // a viewer asked for by option replaces one that is configured
  if (r.chance(50)) { c.viewer = true; if (r.chance(40)) parts.push_back("<Listener ListenerType=\"LuvListener\" HostName=\"localhost\" Port=\"" + std::to_string(port) + "\" IgnoreConnectFailure=\"true\"/>"); }
  bool confPath = r.chance(30);
  if (confPath) parts.push_back("<LibraryNodePath>" + std::string(r.chance(50) ? "elsewhere,conflib" : dir + "/conflib") + "</LibraryNodePath>");
  for (size_t i = parts.size(); i > 1; --i) std::swap(parts[i - 1], parts[r.below((int)i)]);
  for (auto &p : parts) cfg += (r.chance(50) ? "\n  " : "") + p;
  cfg += "</Interfaces>\n";
  if (k == 0) c.proper = false;                                        // none at all
  else if (k == 1) { c.proper = false; opts.push_back({"-c", "nosuch.xml"}); if (r.chance(50)) c.files["interface-config.xml"] = cfg; }
  else if (k == 2) { c.proper = false; opts.push_back({"-c", ""}); c.files["interface-config.xml"] = cfg; }
  else if (k < 9) c.files["interface-config.xml"] = cfg;
  else { std::string f = r.chance(50) ? "my config.xml" : "sub/cfg.xml"; c.files[f] = cfg; opts.push_back({"-c", r.chance(50) ? f : dir + "/" + f}); if (r.chance(30)) c.files["interface-config.xml"] = "<Interfaces/>"; }
  if (!c.proper) c.planDebugs = 0;
  // debugging
  static std::vector<std::string> pool = {"Node:transition", "Node:clock", "Node", "transition", "ExecApplication", "PlexilExec:step", "Nothing:matches", "CommandNode", "Node:clo", "cycle", "StateCache", ":"};
  k = r.below(6);
  if (k) {
    std::string d; int n = r.range(1, 4); std::vector<std::string> pats;
    for (int i = 0; i < n; ++i) {
      std::string p = r.chance(50) ? pool[r.below(2)] : r.pick(pool); bool off = r.chance(20);
      if (r.chance(15)) { std::string m = r.chance(70) ? "Node:transition" : "Node:clock"; int b = r.below((int)m.size() - 4); p = m.substr(b, r.range(4, (int)m.size() - b)); if (p[0] == ':') p = p.substr(1); }
      if (!off) pats.push_back(p == ":" ? "" : p);
      d += r.chance(20) ? "\n  \n" : "";
      d += (r.chance(20) ? "  \t" : "") + std::string(off ? (r.chance(50) ? "# " : "// ") : "") + (p == ":" ? "" : r.chance(30) ? ":" : "") + p + (r.chance(20) ? "  " : "") + (r.chance(20) ? (r.chance(50) ? " # why: Node" : " // Exec") : "") + (r.chance(10) ? "\r" : "");
      if (i + 1 < n || r.chance(70)) d += "\n";
    }
    if (k == 1) { c.files["Debug.cfg"] = d; opts.push_back({"+d"}); }
    else if (k == 2) { c.files["Debug.cfg"] = d; opts.push_back({"-d", "nosuch.cfg"}); }
    else if (k == 3) { c.files["Debug.cfg"] = d; c.debug = true; }
    else { c.files["sub/dbg.cfg"] = d; if (r.chance(50)) c.files["Debug.cfg"] = "Node\nExec\n"; opts.push_back({"-d", "sub/dbg.cfg"}); c.debug = true; }
    if (c.debug) c.patterns = pats;
  }
  // viewer
  if (c.viewer) {
    std::vector<std::string> o = {"-v"};
    c.block = r.chance(40);
    std::vector<std::vector<std::string>> vo = {{"-n", std::to_string(port)}};
    if (r.chance(60)) vo.push_back({"-h", r.chance(50) ? "localhost" : "127.0.0.1"});
    if (c.block) vo.push_back({"-b"});
    for (size_t i = vo.size(); i > 1; --i) std::swap(vo[i - 1], vo[r.below((int)i)]);
    for (auto &x : vo) for (auto &y : x) o.push_back(y);
    opts.push_back(o);
  }
  // libraries: preloaded by name or file, or found when called
  int nl = r.below(4); std::vector<std::vector<std::string>> libOpts;
  std::string base = "lib";
  bool libDir = r.chance(60);
  std::string lower;   // searched after the right one
  if (libDir) { std::vector<std::string> o; if (r.chance(40)) o = {"-L", r.chance(50) ? "nowhere" : "other"}; o.push_back("-L"); o.push_back(r.chance(50) ? base : dir + "/" + base); if (r.chance(40)) { o.push_back("-L"); o.push_back(lower = "later"); } opts.push_back(o); }
  for (int i = 0; i < nl; ++i) {
    std::string n = "Lib" + std::to_string(i);
    std::string doc = "<PlexilPlan>" + cmd(n, "<Interface><In><DeclareVariable><Name>i</Name><Type>Integer</Type></DeclareVariable></In></Interface>", "<IntegerVariable>i</IntegerVariable>" + il(900 + i)) + "</PlexilPlan>";
    int w = libDir || (confPath && c.proper) ? r.below(5) : 2 + r.below(3);
    if (w < 2) {   // in a directory to be searched
      std::string d = libDir && (!(confPath && c.proper) || r.chance(50)) ? base : "conflib";
      c.files[d + "/" + n + ".plx"] = doc; if (w) libOpts.push_back({"-l", r.chance(50) ? n : n + ".plx"});
      if (r.chance(20)) c.files["unused/" + n + ".plx"] = "<PlexilPlan/>";
      std::string wrong = "<PlexilPlan><Node NodeType=\"Empty\"><NodeId>" + n + "</NodeId></Node></PlexilPlan>";
      if (d == base && lower.size() && r.chance(50)) { c.files[lower + "/" + n + ".plx"] = wrong; R.add("shadowed"); }
      if (d == "conflib" && libDir && r.chance(50)) { c.files[base + "/" + n + ".plx"] = wrong; R.add("shadowed"); }
    }
    else if (w == 2) { c.files[n + ".plx"] = doc; if (r.chance(50)) libOpts.push_back({"-l", n}); }    // in the working directory
    else { c.files["deep/" + n + ".plx"] = doc; libOpts.push_back({"-l", (w == 3 ? "deep/" : dir + "/deep/") + n + (r.chance(50) ? ".plx" : "")}); }
  }
  for (auto &o : libOpts) opts.push_back(o);
  // the plan
  int n = r.range(1, 9); std::string kids;
  for (int i = 0; i < n; ++i) {
    std::string id = "N" + std::to_string(i), start = i ? "<StartCondition><EQInternal><NodeStateVariable><NodeId>N" + std::to_string(i - 1) + "</NodeId></NodeStateVariable><NodeStateValue>FINISHED</NodeStateValue></EQInternal></StartCondition>" : "";
    c.nodes.insert(id);
    std::string m = "M mark " + std::to_string(i);
    int w = r.below(10);
    if (w < 3 && nl) { int l = r.below(nl); kids += "<Node NodeType=\"LibraryNodeCall\"><NodeId>" + id + "</NodeId>" + start + "<NodeBody><LibraryNodeCall><NodeId>Lib" + std::to_string(l) + "</NodeId><Alias><NodeParameter>i</NodeParameter>" + il(i) + "</Alias></LibraryNodeCall></NodeBody></Node>"; c.marks.push_back(m + " " + std::to_string(900 + l)); }
    else if (w < 5 && res) {
      kids += "<Node NodeType=\"Command\"><NodeId>" + id + "</NodeId>" + start + "<NodeBody><Command><ResourceList><Resource><ResourceName><StringValue>res</StringValue></ResourceName><ResourcePriority>" + il(1) + "</ResourcePriority><ResourceUpperBound><RealValue>" + std::to_string(bound) + "</RealValue></ResourceUpperBound></Resource></ResourceList><Name><StringValue>mark</StringValue></Name><Arguments>" + il(i) + "<StringValue>r</StringValue></Arguments></Command></NodeBody></Node>";
      if (bound <= limit) c.marks.push_back(m + " 'r'"); R.add(bound <= limit ? "granted" : "denied");
    }
    else if (w < 7) { kids += cmd(id, start, il(i) + "<LookupNow><Name><StringValue>val</StringValue></Name><Arguments>" + il(i) + "</Arguments></LookupNow>"); c.marks.push_back(m + " " + std::to_string(5000 + i)); }
    else { static std::vector<std::string> tx = {"x", "two words", "", "a<b&c", "  blanks  "}; std::string t = r.pick(tx); kids += cmd(id, start, il(i) + "<StringValue>" + esc(t) + "</StringValue>"); c.marks.push_back(m + " '" + t + "'"); }
  }
  c.nodes.insert("Root");
  c.plan = "<PlexilPlan><Node NodeType=\"NodeList\"><NodeId>Root</NodeId><NodeBody><NodeList>" + kids + "</NodeList></NodeBody></Node></PlexilPlan>";
  std::string pf = r.chance(50) ? "plan.plx" : "sub/the plan.xml";
  c.files[pf] = c.plan;
  opts.push_back({"-p", r.chance(50) ? pf : dir + "/" + pf});
  // something wrong
  if (r.chance(30)) {
    auto drop = [&](char const *o) { opts.erase(std::remove_if(opts.begin(), opts.end(), [&](std::vector<std::string> const &x) { return x[0] == o; }), opts.end()); };
    c.rc = 1;
    switch (int w = r.below(20)) {
    case 0: c.what = "no plan file"; c.files.erase(pf); break;
    case 1: c.what = "plan cut short"; c.files[pf] = c.plan.substr(0, c.plan.size() - r.range(1, 40)); break;
    case 2: c.what = "plan breaking a rule"; c.files[pf] = "<PlexilPlan><Node NodeType=\"Empty\"/></PlexilPlan>"; break;
    case 3: c.what = "plan calling what is nowhere"; { std::string &p = c.files[pf]; size_t q = p.rfind("</NodeList>"); p.insert(q, "<Node NodeType=\"LibraryNodeCall\"><NodeId>Z</NodeId><NodeBody><LibraryNodeCall><NodeId>Nowhere</NodeId></LibraryNodeCall></NodeBody></Node>"); } break;
    case 4: c.what = "missing library"; opts.push_back({"-l", "Nowhere.plx"}); break;
    case 5: c.what = "library cut short"; c.files["Bad.plx"] = "<PlexilPlan><Node NodeType=\"Empty\"><NodeId>Bad</NodeId>"; opts.push_back({"-l", "Bad"}); break;
    case 6: c.what = "library of another name"; c.files["Bad.plx"] = "<PlexilPlan><Node NodeType=\"Empty\"><NodeId>Good</NodeId></Node></PlexilPlan>"; opts.push_back({"-l", "Bad"}); break;
    case 7: c.what = "configuration of another kind"; drop("-c"); c.files["interface-config.xml"] = "<Interface/>"; break;
    case 8: case 9: case 10: case 11: case 12: {
      static std::vector<std::string> bad = {"<Adapter AdapterType=\"Nonesuch\"/>", "<Adapter AdapterType=\"Vf\" Fail=\"init\"/>", "<Adapter AdapterType=\"Vf\" Fail=\"start\"/>", "<Listener ListenerType=\"VfL\" Fail=\"start\"/>", "<Listener ListenerType=\"Nonesuch\"/>"};
      c.what = "configuration with " + bad[w - 8]; drop("-c"); std::string x = cfg; x.insert(r.chance(50) ? x.find("</Interfaces>") : x.find("<Interfaces>") + 12, bad[w - 8]); c.files["interface-config.xml"] = x; break; }
    case 13: c.what = "unknown option"; c.rc = 2; opts.push_back({r.chance(50) ? "-x" : "plan.plx"}); break;
    case 14: c.what = "both -d and +d"; c.rc = 2; drop("-d"); drop("+d"); opts.push_back({"-d", "x"}); opts.push_back({"+d"}); break;
    case 15: c.what = "both -r and +r"; c.rc = 2; drop("-r"); drop("+r"); opts.push_back({"-r", "x"}); opts.push_back({"+r"}); break;
    case 16: c.what = "-d twice"; c.rc = 2; drop("-d"); drop("+d"); opts.push_back({"-d", "x"}); opts.push_back({"-d", "x"}); break;
    case 17: c.what = "no arguments"; c.rc = 2; opts.clear(); break;
    case 18: c.what = "option without value"; c.rc = 2; break;
    case 19: c.what = "help"; c.rc = 0; drop("-v"); opts.push_back({"-h"}); break;
    }
    c.noRun = true;
    R.add("wrong");
  }
  for (size_t i = opts.size(); i > 1; --i) { size_t j = r.below((int)i); std::swap(opts[i - 1], opts[j]); }
  if (c.what == "option without value") { static std::vector<std::string> ov = {"-c", "-d", "-l", "-L", "-p", "-r", "-n"}; std::string o = r.pick(ov); if (o == "-d" || o == "-r") opts.erase(std::remove_if(opts.begin(), opts.end(), [&](std::vector<std::string> const &x) { return x[0].substr(1) == o.substr(1); }), opts.end()); opts.push_back({o}); }
  for (auto &o : opts) for (auto &x : o) c.args.push_back(x);
}

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void one(uint64_t seed) {
  Rng r(seed); Case c;
  wipe(dir, false);
  int ls = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); sockaddr_in sa{}; sa.sin_family = AF_INET; sa.sin_addr.s_addr = htonl(INADDR_LOOPBACK); socklen_t sl = sizeof sa;
  if (ls < 0 || bind(ls, (sockaddr *)&sa, sl) || listen(ls, 4) || getsockname(ls, (sockaddr *)&sa, &sl)) { R.viol("internal", "no socket"); return; }
  gen(r, c, ntohs(sa.sin_port));
  for (auto &f : c.files) { size_t s = f.first.rfind('/'); if (s != std::string::npos) mkdir((dir + "/" + f.first.substr(0, s)).c_str(), 0700); put(f.first, f.second); }
  std::string cl; for (auto &a : c.args) cl += " " + a;
  fflush(stdout);
  pid_t pid = fork();
  if (!pid) {
    close(ls);
    if (chdir(dir.c_str())) _exit(98);
    int fd = open("out", O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600), fe = open("err", O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600); dup2(fd, 1); dup2(fe, 2); close(fd); close(fe);
    std::vector<char *> av; static std::string prog = "universalExec"; av.push_back((char *)prog.c_str());
    for (auto &a : c.args) av.push_back((char *)a.c_str());
    av.push_back(nullptr);
    int rc = main_internal((int)av.size() - 1, av.data());
    std::cout.flush(); std::cerr.flush(); fflush(nullptr);
    __lsan_do_recoverable_leak_check();
    _exit(rc);
  }
  // the viewer
  std::string seen; int conns = 0, fd = -1, status = 0; bool done = false, killed = false; double t0 = now(), end = 0;
  while (true) {
    pollfd p[2] = {{ls, POLLIN, 0}, {fd, POLLIN, 0}};
    int k = poll(p, fd < 0 ? 1 : 2, done ? 0 : 5);
    if (k > 0 && (p[0].revents & POLLIN)) { int x = accept(ls, nullptr, nullptr); if (x >= 0) { ++conns; if (fd >= 0) close(fd); fd = x; } continue; }
    if (k > 0 && fd >= 0 && p[1].revents) {
      char b[65536]; ssize_t n = read(fd, b, sizeof b);
      if (n <= 0) { close(fd); fd = -1; }
      else { seen.append(b, n); if (c.block) for (ssize_t i = 0; i < n; ++i) if (b[i] == 4) { if (send(fd, "ack\004", 4, MSG_NOSIGNAL) < 0) break; } }
      continue;
    }
    if (done) { if (fd < 0 || now() - end > 5) break; continue; }
    if (waitpid(pid, &status, WNOHANG) == pid) { done = true; end = now(); continue; }
    if (now() - t0 > 60) { killed = true; kill(pid, SIGKILL); t0 = 1e18; }
  }
  if (fd >= 0) close(fd);
  close(ls);
  std::string out = slurp(dir + "/out"), err = slurp(dir + "/err");
  std::vector<std::string> marks, trans; int stopped = 0, started = 0;
  for (auto &l : lines(slurp(dir + "/notes"))) { if (l[0] == 'M') marks.push_back(l); else if (l[0] == 'T') trans.push_back(l.substr(2)); else if (l == "started") ++started; else ++stopped; }
  auto say = [&](char const *k, std::string const &m) { R.viol(k, m + " [" + c.what + ":" + cl + "]"); };
  R.add("runs"); R.sig(vc::mix(vc::hashStr(c.what), vc::mix(c.files.size(), c.args.size() * 64 + c.marks.size())));
  if (killed) { say("hang", "still running after 60 s; it said: " + out.substr(out.size() > 300 ? out.size() - 300 : 0)); return; }
  size_t san = err.find("Sanitizer"); if (san == std::string::npos) san = err.find("runtime error:");
  if (san != std::string::npos && err.find("LeakSanitizer has encountered a fatal error") == std::string::npos) { say("crash", err.substr(san > 260 ? san - 260 : 0, 700)); return; }
  if (!WIFEXITED(status)) { say("crash", "died of signal " + std::to_string(WTERMSIG(status)) + ": " + err.substr(0, 300)); return; }
  int rc = WEXITSTATUS(status);
  if (rc != c.rc) { say("status", "status " + std::to_string(rc) + " instead of " + std::to_string(c.rc) + ": " + err.substr(0, 200) + " " + out.substr(out.size() > 200 ? out.size() - 200 : 0)); return; }
  if (c.noRun) {
    if (!marks.empty() || !trans.empty()) say("ran", "something ran all the same: " + (marks.empty() ? trans[0] : marks[0]));
    if (out.empty() && err.empty()) say("silent", "refused without a word");
    return;
  }
  if (c.proper && marks != c.marks) {
    size_t i = 0; while (i < marks.size() && i < c.marks.size() && marks[i] == c.marks[i]) ++i;
    say("plan", "commands sent: " + std::to_string(marks.size()) + " of " + std::to_string(c.marks.size()) + ", at " + std::to_string(i) + " " + (i < marks.size() ? marks[i] : "nothing") + " instead of " + (i < c.marks.size() ? c.marks[i] : "nothing"));
    return;
  }
  R.add("marks", (long)marks.size());
  if (!c.proper && (!marks.empty() || !trans.empty())) say("config", "an adapter was there that was not configured");
  if (c.proper) {
    std::set<std::string> fin; for (auto &t : trans) { size_t i = t.find(' '); if (t.find(" FINISHED SUCCESS") != std::string::npos) fin.insert(t.substr(0, i)); }
    for (auto &n : c.nodes) if (!fin.count(n)) { say("plan", n + " did not finish with success"); break; }
    if (started != 1 || stopped != 1) say("config", "the adapter was started " + std::to_string(started) + " and stopped " + std::to_string(stopped) + " times");
  }
  // debug messages: those asked for and no others
  std::vector<std::string> dt, dc; std::set<std::string> markers;
  for (auto &l : lines(out)) {
    if (l.empty() || l[0] != '[') continue;
    size_t e = l.find(']'); if (e == std::string::npos) continue;
    std::string m = l.substr(1, e - 1); bool word = !m.empty(); for (char x : m) word = word && (isalnum((unsigned char)x) || x == ':' || x == '_'); if (!word) continue;
    markers.insert(m);
    if (m == "Node:transition") dt.push_back(l.substr(e + 1));
    if (m == "Node:clock") dc.push_back(l.substr(e + 1));
  }
  auto wanted = [&](std::string const &m) { for (auto &p : c.patterns) if (m.find(p) != std::string::npos) return true; return false; };
  for (auto &m : markers) if (!wanted(m)) { say("debug", "messages marked " + m + " were not asked for"); break; }
  R.add("markers", (long)markers.size());
  bool narrow = true; for (auto &p : c.patterns) narrow = narrow && (p.find("Node") == 0 || p == "Nothing:matches" || (p.size() >= 4 && (std::string("Node:transition").find(p) != std::string::npos || std::string("Node:clock").find(p) != std::string::npos)));
  if (wanted("Node:transition")) {
    std::multiset<std::string> fin; for (auto &l : dt) { size_t i = l.find("Transitioning "); size_t j = i == std::string::npos ? i : l.find(' ', i + 14); if (j != std::string::npos && l.find(" to FINISHED at") != std::string::npos) fin.insert(l.substr(i + 14, j - i - 14)); }
    if (narrow) for (auto &n : c.nodes) if (fin.count(n) != 1) { say("debug", "the end of " + n + " was reported " + std::to_string(fin.count(n)) + " times"); break; }
    if (narrow && c.proper && dt.size() != trans.size()) say("debug", std::to_string(dt.size()) + " transitions reported instead of " + std::to_string(trans.size()));
    R.add("debug_transitions", (long)dt.size());
  }
  if (wanted("Node:clock") && c.proper) {
    std::vector<std::string> want; for (auto &t : trans) { std::istringstream i(t); std::string n, a, b, o; i >> n >> a >> b >> o; if (b == "EXECUTING") want.push_back(" Node '" + n + "' started at "); if (b == "FINISHED") want.push_back(" Node '" + n + "' finished at |(" + o + ")"); }
    bool ok = dc.size() == (c.planDebugs ? want.size() : 0);
    for (size_t i = 0; ok && i < dc.size(); ++i) { size_t q = want[i].find('|'); std::string a = want[i].substr(0, q), b = q == std::string::npos ? "" : want[i].substr(q + 1); ok = dc[i].compare(0, a.size(), a) == 0 && (b.empty() || (dc[i].size() >= b.size() && dc[i].compare(dc[i].size() - b.size(), b.size(), b) == 0)); if (!ok) say("listener", "reported " + dc[i] + " instead of " + want[i]); }
    if (narrow && dc.size() != (c.planDebugs ? want.size() : 0)) say("listener", std::to_string(dc.size()) + " starts and ends reported instead of " + std::to_string(c.planDebugs ? want.size() : 0));
    R.add("debug_clock", (long)dc.size());
  }
  // the viewer
  if (c.viewer) {
    long msgs = 0, st = 0, pl = 0, info = 0; std::string m;
    for (char x : seen) { if (x != 4) { m += x; continue; } ++msgs; if (m.find("<NodeStateUpdate>") == 0) ++st; if (m.find("<PlexilPlan") == 0) ++pl; if (m.find("<PlanInfo>") == 0) { ++info; if ((m.find(">true<") != std::string::npos) != c.block) say("viewer", "told " + m); } m.clear(); }
    if (conns != 1 || !m.empty() || pl != 1 || info < 1 || (c.proper && st != (long)trans.size()) || !st)
      say("viewer", std::to_string(conns) + " connections, " + std::to_string(msgs) + " messages: " + std::to_string(info) + " headers, " + std::to_string(pl) + " plans, " + std::to_string(st) + " transitions instead of " + std::to_string(trans.size()) + (m.empty() ? "" : ", last one incomplete"));
    R.add("viewer_messages", msgs);
  }
  else if (conns) say("viewer", "a viewer was connected to unasked");
  if (out.find("without errors") == std::string::npos) say("status", "it did not say how it ended");
  R.sample(cl + " -> " + std::to_string(marks.size()) + " commands, status " + std::to_string(rc));
}

int main(int argc, char **argv) {
  vc::Args a(argc, argv);
  uint64_t seed = a.num("seed", 1); long first = a.num("first", 0), n = a.num("cases", 1);
  char t[] = "/tmp/h_uexec.XXXXXX"; dir = mkdtemp(t);
  REGISTER_ADAPTER(Vf, "Vf");
  REGISTER_EXEC_LISTENER(VfL, "VfL");
  for (long i = first; i < first + n; ++i) { R.begin(std::to_string(i)); R.add("cases"); one(vc::mix(seed * 1000003 + 27, i)); }
  wipe(dir, true);
  R.finish();
  plexilRunFinalizers();
  return 0;
}
