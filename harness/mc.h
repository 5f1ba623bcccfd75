// Stateless explicit enumeration of executions ("model checking the implementation").
//
// A scenario is a function body(Ctx&) which drives the real thot code and compares it with a
// reference model.  Every source of nondeterminism (which operation comes next, which argument,
// which environment answer, which thread runs) is a call to Ctx::choose(n).  The explorer runs the
// body again and again, depth first, until every sequence of choices has been executed.  A failing
// execution is identified by its scenario and its list of choices, which is also its replay file.
#ifndef MC_H
#define MC_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <functional>
#include <set>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace mc {

struct Failure { std::string key, msg; };
struct Skip {};

inline uint64_t hashBytes(const void* p, size_t n, uint64_t h = 1469598103934665603ULL) {
  const unsigned char* b = (const unsigned char*)p;
  for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ULL; }
  h ^= h >> 29; h *= 0x9E3779B97F4A7C15ULL;
  return h;
}
inline uint64_t hashStr(const std::string& s) { return hashBytes(s.data(), s.size()); }

class Ctx {
 public:
  // one choice out of n>=1 alternatives; alternative 0 must be the simplest
  unsigned choose(unsigned n);
  bool flip() { return choose(2) == 1; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[choose(v.size())]; }
  // a transition: one operation on the implementation under test
  void step(uint64_t n = 1) { transitions += n; }
  // a distinct state of the reference model was reached
  void state(uint64_t h) { states.insert(h); }
  void state(const std::string& s) { state(hashStr(s)); }
  // the observable outcome of one execution (vacuity indicator)
  void outcome(uint64_t h) { outcomes.insert(h); }
  void outcome(const std::string& s) { outcome(hashStr(s)); }
  bool tracing() const { return trace_on; }
  void log(const std::string& s) { if (trace_on) trace << s << "\n"; }
  [[noreturn]] void fail(const std::string& msg, const std::string& key = "") { throw Failure{key, msg}; }
  void check(bool ok, const std::string& msg) { if (!ok) fail(msg); }
  // a check whose message is only built when it fails
  template <class F> void checkf(bool ok, F f) { if (!ok) fail(f()); }
  // report a violation but keep exploring this execution if it is a listed known finding
  void failKeyed(const std::string& key, const std::string& msg);
  const std::string& scratch() const { return scratch_dir; }

  // --- explorer internals
  std::vector<uint16_t> prefix;                   // choices to be replayed
  std::vector<uint16_t> taken, arity;             // choices made in this execution
  uint64_t transitions = 0;
  std::unordered_set<uint64_t> states, outcomes;
  bool trace_on = false;
  std::ostringstream trace;
  std::string scratch_dir;
  std::function<void(unsigned)> on_depth;         // partitioning hook
  std::set<std::string> known;                    // listed keys
  std::set<std::string> known_seen;
  void* shared = nullptr;
};

struct Scenario {
  std::string name;
  std::string bound;        // what is enumerated, in words
  std::function<void(Ctx&)> body;
  unsigned split = 3;       // depth at which the tree is split among workers
  double hang = 20;         // seconds without progress before the execution is examined alone
};

// runs every scenario; returns the process exit status
int run(int argc, char** argv, const std::string& property, const std::vector<Scenario>& scenarios);

inline bool close(double a, double b, double rel = 1e-4, double abs = 1e-6) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (std::isinf(a) || std::isinf(b)) return a == b;
  return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
}
template <class V> std::string join(const V& v, const char* sep = " ") {
  std::ostringstream o; bool first = true;
  for (const auto& x : v) { if (!first) o << sep; o << x; first = false; }
  return o.str();
}
template <class... A> std::string str(const A&... a) { std::ostringstream o; (void)std::initializer_list<int>{((o << a), 0)...}; return o.str(); }
}  // namespace mc
#endif
