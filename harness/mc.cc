#include "mc.h"
#include <algorithm>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace mc {

struct Shared {
  volatile uint64_t beats;       // executions started
  volatile uint64_t execs;       // executions completed by their owner
  volatile uint64_t group;
  volatile uint32_t len;
  volatile int status;           // 0 running, 1 done, 2 failure
  uint16_t choices[16384];
  char key[512];
  char msg[8192];
};

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

unsigned Ctx::choose(unsigned n) {
  if (n == 0) throw Failure{"", "harness error: choice among 0 alternatives"};
  unsigned c = 0;
  if (taken.size() < prefix.size()) {
    c = prefix[taken.size()];
    if (c >= n) throw Failure{"divergence", str("replaying a prefix diverged: choice ", c, " of ", n, " at depth ", taken.size(), " (nondeterministic behaviour)")};
  }
  taken.push_back(c); arity.push_back(n);
  Shared* s = (Shared*)shared;
  if (s && taken.size() <= 16384) { s->choices[taken.size() - 1] = c; s->len = taken.size(); }
  if (on_depth) on_depth(taken.size());
  return c;
}
void Ctx::failKeyed(const std::string& key, const std::string& msg) {
  if (known.count(key)) { known_seen.insert(key); return; }
  throw Failure{key, msg};
}

static std::string g_prop, g_scratch, g_replay_dir = ".";
static std::set<std::string> g_known;
static unsigned g_workers = 8;

static std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

static void quiet(const std::string& errFile) {
  int fd = open("/dev/null", O_WRONLY); dup2(fd, 1);
  int fe = errFile.empty() ? fd : open(errFile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  dup2(fe, 2);
  rlimit r = {0, 0}; setrlimit(RLIMIT_CORE, &r);
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
  r = {3ul << 30, 3ul << 30}; setrlimit(RLIMIT_AS, &r);        // a runaway allocation ends the execution, not the sandbox
#endif
  prctl(PR_SET_PDEATHSIG, SIGKILL);
}
static void rmrf(const std::string& d) {
  if (d.compare(0, 5, "/tmp/") != 0 && d.compare(0, 9, "/dev/shm/") != 0) return;
  std::string c = "rm -rf -- '" + d + "'"; if (system(c.c_str())) {}
}

struct ReplayResult { int kind; std::string key, msg, trace, err; };  // 0 ok 1 failure 2 crash 3 hang

static ReplayResult replay(const Scenario& sc, const std::vector<uint16_t>& choices, double limit) {
  static int serial = 0;
  std::string dir = g_scratch + "/replay" + std::to_string(serial++);
  mkdir(dir.c_str(), 0700);
  std::string out = dir + ".out", tr = dir + ".trace", err = dir + ".err";
  pid_t p = fork();
  if (p == 0) {
    setpgid(0, 0); quiet(err);
    Ctx c; c.prefix = choices; c.scratch_dir = dir; c.trace_on = true; c.known = g_known;
    int kind = 0; std::string key, msg;
    // the trace is flushed as it grows, so that a crash keeps it
    struct FileBuf : std::stringbuf { int fd; int sync() override { std::string s = str(); if (write(fd, s.data(), s.size()) < 0) {} str(""); return 0; } };
    FileBuf fb; fb.fd = open(tr.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    c.trace.std::ostream::rdbuf(&fb); c.trace << std::unitbuf;
    try { sc.body(c); } catch (Failure& f) { kind = 1; key = f.key; msg = f.msg; }
    catch (Skip&) {}
    catch (std::exception& e) { kind = 1; msg = std::string("exception left the code under test: ") + e.what(); }
    catch (...) { kind = 1; msg = "exception left the code under test"; }
    c.trace.flush();
    std::ofstream o(out); o << kind << "\n" << key << "\n" << msg << "\n"; o.close();
    c.trace.std::ostream::rdbuf(nullptr);
    _exit(0);
  }
  double t0 = now(); int st = 0; bool hang = false;
  for (;;) {
    pid_t r = waitpid(p, &st, WNOHANG);
    if (r == p) break;
    if (now() - t0 > limit) { hang = true; kill(-p, SIGKILL); kill(p, SIGKILL); waitpid(p, &st, 0); break; }
    usleep(2000);
  }
  auto slurp = [](const std::string& f, size_t max) { std::ifstream i(f); std::stringstream b; b << i.rdbuf(); std::string s = b.str(); if (s.size() > max) s = s.substr(0, max) + "\n[...]\n"; return s; };
  ReplayResult rr; rr.trace = slurp(tr, 200000); rr.err = slurp(err, 20000);
  std::ifstream o(out);
  if (hang) { rr.kind = 3; rr.msg = str("no progress within ", limit, " s"); }
  else if (!o || !(o >> rr.kind)) {
    rr.kind = 2;
    rr.msg = WIFSIGNALED(st) ? str("the process was killed by signal ", WTERMSIG(st)) : str("the process exited with status ", WEXITSTATUS(st));
  } else { std::string l; std::getline(o, l); std::getline(o, rr.key); std::stringstream b; b << o.rdbuf(); rr.msg = b.str(); }
  rmrf(dir); unlink(out.c_str()); unlink(tr.c_str()); unlink(err.c_str());
  return rr;
}

static void worker(const Scenario& sc, unsigned w, unsigned W, Shared* sh, std::vector<uint16_t> start, uint64_t group0, bool resume, int gen) {
  setpgid(0, 0); quiet("");
  std::string dir = str(g_scratch, "/", sc.name, ".w", w, ".", gen); mkdir(dir.c_str(), 0700);
  Ctx c; c.scratch_dir = dir; c.known = g_known; c.shared = sh;
  unsigned split = W > 1 ? sc.split : 0;
  uint64_t group = group0, owned = 0, nodes = 0, depthmax = 0;
  bool counted = false;
  std::vector<std::string> samples;
  std::vector<uint16_t> prefix = start;
  bool first = true;
  c.on_depth = [&](unsigned d) { if (split && d == split && group % W != w) throw Skip{}; };
  for (;;) {
    if (!(first && resume)) { if (split && prefix.size() <= split) { ++group; sh->group = group; } }
    first = false;
    c.prefix = prefix; c.taken.clear(); c.arity.clear(); sh->len = 0; sh->beats = sh->beats + 1;
    bool want = samples.size() < 2 && (owned == 1 || owned == 97);
    c.trace_on = want; c.trace.str("");
    bool skipped = false; uint64_t tr0 = c.transitions;
    try { sc.body(c); }
    catch (Skip&) { skipped = true; }
    catch (Failure& f) {
      snprintf(sh->key, sizeof sh->key, "%s", f.key.c_str()); snprintf(sh->msg, sizeof sh->msg, "%s", f.msg.c_str());
      sh->status = 2; _exit(0);
    } catch (std::exception& e) {
      snprintf(sh->msg, sizeof sh->msg, "exception left the code under test: %s", e.what()); sh->key[0] = 0; sh->status = 2; _exit(0);
    } catch (...) { snprintf(sh->msg, sizeof sh->msg, "exception left the code under test"); sh->key[0] = 0; sh->status = 2; _exit(0); }
    counted = !skipped && (!split || c.taken.size() >= split || group % W == w);
    if (counted) {
      ++owned; sh->execs = sh->execs + 1;
      nodes += c.taken.size() >= prefix.size() ? c.taken.size() - (prefix.empty() ? 0 : prefix.size() - 1) : 0;
      depthmax = std::max<uint64_t>(depthmax, c.taken.size());
      if (want) samples.push_back(c.trace.str());
    }
    else c.transitions = tr0;
    size_t i = c.taken.size();
    while (i > 0 && c.taken[i - 1] + 1u >= c.arity[i - 1]) --i;
    if (i == 0) break;
    prefix.assign(c.taken.begin(), c.taken.begin() + i); ++prefix[i - 1];
  }
  std::ofstream o(dir + ".res", std::ios::binary);
  auto put = [&](uint64_t v) { o.write((char*)&v, 8); };
  put(owned); put(nodes); put(depthmax); put(c.transitions);
  put(c.states.size()); for (auto h : c.states) put(h);
  put(c.outcomes.size()); for (auto h : c.outcomes) put(h);
  auto puts = [&](const std::string& s) { put(s.size()); o.write(s.data(), s.size()); };
  put(c.known_seen.size()); for (auto& k : c.known_seen) puts(k);
  put(samples.size()); for (auto& k : samples) puts(k);
  o.close();
  sh->status = 1;
  rmrf(dir);
  _exit(0);
}

struct Totals { uint64_t execs = 0, nodes = 0, depth = 0, trans = 0; std::unordered_set<uint64_t> states, outcomes; std::set<std::string> known; std::vector<std::string> samples; };

static void collect(const std::string& f, Totals& t) {
  std::ifstream i(f, std::ios::binary);
  auto get = [&]() { uint64_t v = 0; i.read((char*)&v, 8); return v; };
  t.execs += get(); t.nodes += get(); t.depth = std::max(t.depth, get()); t.trans += get();
  for (uint64_t n = get(); n; --n) t.states.insert(get());
  for (uint64_t n = get(); n; --n) t.outcomes.insert(get());
  auto gets = [&]() { std::string s(get(), 0); i.read(&s[0], s.size()); return s; };
  for (uint64_t n = get(); n; --n) t.known.insert(gets());
  for (uint64_t n = get(); n; --n) { std::string s = gets(); if (t.samples.size() < 3 && !s.empty()) t.samples.push_back(s); }
}

static void report(const Scenario& sc, const std::vector<uint16_t>& ch, const ReplayResult& rr) {
  std::string path = g_replay_dir + "/" + g_prop + "-" + sc.name + ".replay";
  std::ofstream o(path);
  o << "property " << g_prop << "\nscenario " << sc.name << "\nchoices " << ch.size();
  for (auto c : ch) o << " " << c;
  o << "\n# " << sc.bound << "\n# key: " << rr.key << "\n# what failed:\n" << rr.msg << "\n# operations:\n" << rr.trace << "\n# stderr:\n" << rr.err << "\n";
  o.close();
  std::string m = rr.msg; for (auto& x : m) if (x == '\n') x = ' ';
  std::cout << "scenario " << sc.name << ": " << m.substr(0, 1500) << (rr.key.empty() ? "" : " [key " + rr.key + "]") << "\n";
  std::cout << "VIOLATION property=" << g_prop << " replay=" << path << std::endl;
}

int run(int argc, char** argv, const std::string& property, const std::vector<Scenario>& scenarios) {
  g_prop = property;
  std::string json, only, replayFile, knownFile;
  unsigned nw = std::max(1L, sysconf(_SC_NPROCESSORS_ONLN));
  bool list = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--json") json = next(); else if (a == "--only") only = next(); else if (a == "--replay") replayFile = next();
    else if (a == "--known") knownFile = next(); else if (a == "--replays") g_replay_dir = next();
    else if (a == "--workers") nw = std::stoi(next()); else if (a == "--list") list = true;
  }
  if (list) { for (auto& s : scenarios) std::cout << s.name << ": " << s.bound << "\n"; return 0; }
  g_workers = nw;
  std::map<std::string, std::string> knownText;
  if (!knownFile.empty()) {
    std::ifstream k(knownFile); std::string l;
    while (std::getline(k, l)) {   // "known: property=<id> key=<key> <text>"
      std::istringstream is(l); std::string tag, p, key; is >> tag >> p >> key;
      if (tag == "known:" && p == "property=" + property && key.compare(0, 4, "key=") == 0) {
        std::string rest; std::getline(is, rest); g_known.insert(key.substr(4)); knownText[key.substr(4)] = rest;
      }
    }
  }
  char tmpl[] = "/tmp/thotmc.XXXXXX";
  if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 2; }
  g_scratch = tmpl;
  if (!replayFile.empty()) {
    std::ifstream f(replayFile); std::string t, p, s, sn; size_t n = 0; std::vector<uint16_t> ch;
    f >> t >> p >> t >> sn >> t >> n; for (size_t i = 0; i < n; ++i) { int v; f >> v; ch.push_back(v); }
    int ret = 0;
    for (auto& sc : scenarios) if (sc.name == sn) {
      auto rr = replay(sc, ch, 120);
      std::cout << rr.trace << "\n" << rr.err << "\n";
      if (rr.kind) { std::cout << "REPRODUCED: " << rr.msg << " key=" << rr.key << "\n"; ret = 1; } else std::cout << "not reproduced\n";
    }
    rmrf(g_scratch); return ret;
  }
  bool violated = false, error = false;
  Totals all; std::string perScenario; std::set<std::string> knownSeen;
  double t00 = now();
  for (auto& sc : scenarios) {
    if (!only.empty() && sc.name != only) continue;
    double t0 = now();
    unsigned W = sc.split == 0 ? 1 : nw;
    std::vector<Shared*> sh(W); std::vector<pid_t> pid(W); std::vector<uint64_t> beat(W, 0); std::vector<double> last(W, now()); std::vector<int> gen(W, 0);
    Totals tot; bool bad = false;
    auto spawn = [&](unsigned w, const std::vector<uint16_t>& start, uint64_t group, bool resume) {
      sh[w]->status = 0; sh[w]->len = 0;
      pid_t p = fork();
      if (p == 0) { worker(sc, w, W, sh[w], start, group, resume, gen[w]); _exit(3); }
      setpgid(p, p); pid[w] = p; beat[w] = sh[w]->beats; last[w] = now();
    };
    std::cout.flush();
    for (unsigned w = 0; w < W; ++w) {
      sh[w] = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      spawn(w, {}, (uint64_t)-1, false);
    }
    unsigned alive = W;
    auto killall = [&]() { for (unsigned w = 0; w < W; ++w) if (pid[w]) { kill(-pid[w], SIGKILL); kill(pid[w], SIGKILL); waitpid(pid[w], 0, 0); pid[w] = 0; } alive = 0; };
    unsigned unrepro = 0;
    while (alive && !bad) {
      usleep(3000);
      for (unsigned w = 0; w < W && !bad; ++w) {
        if (!pid[w]) continue;
        int st; pid_t r = waitpid(pid[w], &st, WNOHANG);
        bool suspicious = false; std::string why; int kind = 0;
        if (r == pid[w]) {
          if (sh[w]->status == 1) { collect(str(g_scratch, "/", sc.name, ".w", w, ".", gen[w], ".res"), tot); pid[w] = 0; --alive; continue; }
          suspicious = true; kind = sh[w]->status == 2 ? 1 : 2;
          why = kind == 1 ? sh[w]->msg : (WIFSIGNALED(st) ? str("signal ", WTERMSIG(st)) : str("exit ", WEXITSTATUS(st)));
        } else {
          if (sh[w]->beats != beat[w]) { beat[w] = sh[w]->beats; last[w] = now(); }
          bool stuck = now() - last[w] > sc.hang;
          static unsigned tick = 0; bool fat = false;
          if (++tick % 512 == 0) {
            std::ifstream m(str("/proc/", pid[w], "/statm")); uint64_t vs = 0, rs = 0; m >> vs >> rs; fat = rs * 4096 > 5ULL << 30;
          }
          if (stuck || fat) { kill(-pid[w], SIGKILL); kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); suspicious = true; kind = 3; why = stuck ? "no progress" : "memory use above 5 GB"; }
        }
        if (!suspicious) continue;
        pid[w] = 0;
        std::vector<uint16_t> ch(sh[w]->choices, sh[w]->choices + std::min((uint32_t)sh[w]->len, (uint32_t)16384));
        // confirm alone, twice
        auto r1 = replay(sc, ch, std::max(90.0, 4 * sc.hang));
        if (r1.kind) {
          auto r2 = replay(sc, ch, std::max(90.0, 4 * sc.hang));
          if (r2.kind) { killall(); report(sc, ch, r1); violated = bad = true; break; }
        }
        ++unrepro;
        std::cout << "note: scenario " << sc.name << ": " << why << " did not reproduce alone" << std::endl;
        if (unrepro > 3 && kind != 3) {
          // the failure needs the executions before it (state that leaks between executions): that
          // is nondeterminism of the code under test, reported with the worker's failing execution
          killall(); ReplayResult rr; rr.kind = kind; rr.key = "unreproducible"; rr.msg = why + " (repeatedly, but not when the execution runs alone: hidden state carried between executions)";
          report(sc, ch, rr); violated = bad = true; break;
        }
        ++gen[w];
        // continue after that execution: its choices are replayed and it is run once more
        spawn(w, ch, sh[w]->group, true);
      }
    }
    if (bad) { for (unsigned w = 0; w < W; ++w) munmap(sh[w], sizeof(Shared)); if (violated) { perScenario += str(perScenario.empty() ? "" : ",", "{\"scenario\":\"", jesc(sc.name), "\",\"violated\":true}"); } continue; }
    for (unsigned w = 0; w < W; ++w) munmap(sh[w], sizeof(Shared));
    double dt = now() - t0;
    std::cout << "scenario " << sc.name << ": executions=" << tot.execs << " choice-tree-nodes=" << tot.nodes << " transitions=" << tot.trans << " distinct-states=" << tot.states.size()
              << " distinct-outcomes=" << tot.outcomes.size() << " max-depth=" << tot.depth << " time=" << dt << "s" << std::endl;
    perScenario += str(perScenario.empty() ? "" : ",", "{\"scenario\":\"", jesc(sc.name), "\",\"bound\":\"", jesc(sc.bound), "\",\"executions\":", tot.execs, ",\"choice_tree_nodes\":", tot.nodes,
                       ",\"transitions\":", tot.trans, ",\"distinct_states\":", tot.states.size(), ",\"distinct_outcomes\":", tot.outcomes.size(), ",\"max_depth\":", tot.depth, ",\"wall_s\":", dt, "}");
    all.execs += tot.execs; all.nodes += tot.nodes; all.trans += tot.trans; all.depth = std::max(all.depth, tot.depth);
    for (auto h : tot.states) all.states.insert(h ^ hashStr(sc.name));
    for (auto h : tot.outcomes) all.outcomes.insert(h ^ hashStr(sc.name));
    for (auto& k : tot.known) knownSeen.insert(k);
    if (tot.samples.size()) all.samples.push_back(sc.name + ": " + tot.samples.back().substr(0, 600));
    if (tot.execs == 0) { std::cout << "error: scenario " << sc.name << " explored nothing\n"; error = true; }
  }
  for (auto& k : g_known)
    if (knownSeen.count(k)) std::cout << "KNOWN-FINDING: property=" << property << " " << k << knownText[k] << std::endl;
  if (!json.empty()) {
    std::ofstream o(json);
    o << "{\"executions\":" << all.execs << ",\"states\":" << all.states.size() << ",\"nodes\":" << all.nodes << ",\"transitions\":" << all.trans << ",\"outcomes\":" << all.outcomes.size()
      << ",\"max_depth\":" << all.depth << ",\"violated\":" << (violated ? "true" : "false") << ",\"wall_s\":" << now() - t00 << ",\"scenarios\":[" << perScenario << "],\"known_seen\":[";
    bool f = true; for (auto& k : knownSeen) { o << (f ? "" : ",") << "\"" << jesc(k) << "\""; f = false; }
    o << "],\"samples\":["; f = true;
    for (auto& s : all.samples) { o << (f ? "" : ",") << "\"" << jesc(s) << "\""; f = false; }
    o << "]}\n";
  }
  rmrf(g_scratch);
  return violated ? 1 : error ? 2 : 0;
}
}  // namespace mc
