// Controlled scheduler: the threads of the code under test are real threads, of which exactly one
// runs at a time.  A thread gives up control before it acquires a mutex, when it waits, when it
// creates a thread, at the socket calls and when it ends; which thread goes on is a choice of the
// explorer, so that all interleavings of those points up to a bound on the preemptions are
// executed.  The hand-over is invisible for ThreadSanitizer (raw futexes on plain integers): under
// -fsanitize=thread every explored schedule is also checked for accesses that only the hand-over
// orders, i.e. for data races.
#ifndef THREADS_H
#define THREADS_H
#include "mc.h"
#include <cerrno>
#include <climits>
#include <dlfcn.h>
#include <linux/futex.h>
#include <memory>
#include <pthread.h>
#include <sys/syscall.h>
#include <unistd.h>

#if defined(__SANITIZE_THREAD__)
extern "C" {
void AnnotateIgnoreReadsBegin(const char*, int);
void AnnotateIgnoreReadsEnd(const char*, int);
void AnnotateIgnoreWritesBegin(const char*, int);
void AnnotateIgnoreWritesEnd(const char*, int);
}
#define SCHED_NOTSAN __attribute__((no_sanitize("thread"), noinline))
namespace sched {
struct Hidden {
  Hidden() { AnnotateIgnoreReadsBegin(__FILE__, __LINE__); AnnotateIgnoreWritesBegin(__FILE__, __LINE__); }
  ~Hidden() { AnnotateIgnoreWritesEnd(__FILE__, __LINE__); AnnotateIgnoreReadsEnd(__FILE__, __LINE__); }
};
}
#else
#define SCHED_NOTSAN __attribute__((noinline))
namespace sched { struct Hidden { Hidden() {} ~Hidden() {} }; }
#endif

namespace sched {

struct Thread {
  int id = 0; std::string name;
  volatile int go = 0;
  bool done = false, spurious = false, signalled = false;
  void* cond = nullptr;
  std::function<bool()> ready;      // null: runnable
  const char* at = "start";
  pthread_t real{};
  bool joinable = false;            // created by spawn(): joined by run()
  std::function<void()> fn;
  void* (*start)(void*) = nullptr; void* arg = nullptr; void* ret = nullptr;
};

struct State {
  mc::Ctx* c = nullptr;
  bool drain = false;
  int bound = 0, used = 0;          // preemptions
  int spuriousBudget = 0;
  bool fixedSwitch = false;         // who runs after a thread blocks is not enumerated
  std::vector<std::unique_ptr<Thread>> thr;
  std::map<const void*, std::pair<int, int>> owner;   // mutex -> (thread, depth)
  std::set<const void*> destroyed;
  Thread* last = nullptr;
  volatile int back = 0;            // the controller may go on
  unsigned request = 0, answer = 0; // a choice asked for by the running thread
  std::string failure;
  uint64_t points = 0, limit = 200000;
  std::string sched;                // who ran, for the replay
};
inline State* g = nullptr;
inline thread_local Thread* self = nullptr;

SCHED_NOTSAN inline void futexWait(volatile int* p) {
  while (*p == 0) syscall(SYS_futex, (int*)p, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  *p = 0;
  __asm__ __volatile__("" ::: "memory");
}
SCHED_NOTSAN inline void futexPost(volatile int* p) {
  __asm__ __volatile__("" ::: "memory");
  *p = 1;
  syscall(SYS_futex, (int*)p, FUTEX_WAKE_PRIVATE, INT_MAX, nullptr, nullptr, 0);
}
#ifdef SVC_REAL_DLSYM
template <class F> F real(const char* name) { return (F)SVC_REAL_DLSYM(RTLD_NEXT, name); }
#else
template <class F> F real(const char* name) { return (F)dlsym(RTLD_NEXT, name); }
#endif

inline bool controlled() { return g && self; }
// gives control back and waits until this thread is chosen again
inline void handOver() { int* b = (int*)&g->back; Thread* me = self; futexPost(b); futexWait(&me->go); }
inline void point(const char* at, std::function<bool()> ready = nullptr) {
  if (!controlled()) return;
  Hidden h;
  self->at = at; self->ready = std::move(ready);
  handOver();
  self->ready = nullptr;
}
// a choice of the environment made by the running thread
inline unsigned choose(unsigned n) {
  if (!controlled()) return 0;
  Hidden h;
  g->request = n;
  handOver();
  return g->answer;
}
[[noreturn]] inline void failure(const std::string& msg) {
  { Hidden h; if (g->failure.empty()) g->failure = msg; }
  for (;;) { self->at = "failed"; self->ready = [] { return false; }; handOver(); }
}
inline std::string ownerName(const void* m) { auto i = g->owner.find(m); return i == g->owner.end() ? std::string("nobody") : g->thr[i->second.first]->name; }

inline void* trampoline(void* p) {
  Thread* t = (Thread*)p;
  struct End { ~End() { Hidden h; self->done = true; self->at = "end"; Thread* me = self; self = nullptr; (void)me; futexPost(&g->back); } };
  self = t;
  futexWait(&t->go);
  End end;
  { Hidden h; t->ready = nullptr; }
  if (t->fn) {
    try { t->fn(); }
    catch (mc::Failure& f) { failure(f.msg); }
    catch (std::exception& e) { failure(std::string("an exception left a thread: ") + e.what()); }
    return nullptr;
  }
  t->ret = t->start(t->arg);
  return t->ret;
}

// One execution: spawn() the model threads, then run().
struct Run {
  State s;
  Run(mc::Ctx& c, int bound, bool fixedSwitch = false, int spuriousBudget = 0) { s.c = &c; s.bound = bound; s.fixedSwitch = fixedSwitch; s.spuriousBudget = spuriousBudget; g = &s; }
  ~Run() { g = nullptr; }
  void spawn(const std::string& name, std::function<void()> fn) {
    s.thr.emplace_back(new Thread); Thread* t = s.thr.back().get();
    t->id = s.thr.size() - 1; t->name = name; t->fn = std::move(fn); t->joinable = true;
    static auto create = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
    if (create(&t->real, nullptr, trampoline, t)) throw mc::Failure{"", "harness error: pthread_create"};
  }
  bool enabled(Thread* t) {
    if (t->done) return false;
    if (!t->ready) return true;
    if (t->ready()) return true;
    return false;
  }
  std::string describe() {
    std::string d;
    for (auto& t : s.thr) if (!t->done) d += mc::str(d.empty() ? "" : ", ", t->name, " at ", t->at);
    return d;
  }
  unsigned pickOne(unsigned n) {
    if (n < 2 || s.drain) return 0;
    try { return s.c->choose(n); } catch (mc::Skip&) { s.drain = true; return 0; }
  }
  // runs every thread to its end; throws when one fails or all are blocked
  void run() {
    Hidden h;
    for (;;) {
      std::vector<Thread*> en; bool lastEnabled = false;
      if (s.last && enabled(s.last)) { en.push_back(s.last); lastEnabled = true; }
      if (!lastEnabled || s.used < s.bound) for (auto& t : s.thr) if (t.get() != s.last && enabled(t.get())) { en.push_back(t.get()); if (s.fixedSwitch) break; }
      // spurious wake-ups of threads waiting for a condition
      if (s.spuriousBudget > 0 && !s.drain) for (auto& t : s.thr) if (!t->done && t->cond && !t->signalled && !t->spurious && !en.empty()) {
        t->spurious = true; bool ok = t->ready(); t->spurious = false;
        if (ok) en.push_back(t.get());
      }
      if (en.empty()) {
        bool all = true; for (auto& t : s.thr) all &= t->done;
        if (all) break;
        if (s.drain) throw mc::Skip{};
        throw mc::Failure{"", "deadlock: " + describe() + "; order of execution: " + s.sched};
      }
      Thread* t = en[pickOne(en.size())];
      if (lastEnabled && t != s.last) ++s.used;
      if (t->cond && !t->signalled && t->ready && !t->ready()) { t->spurious = true; --s.spuriousBudget; }
      if (t != s.last && s.sched.size() < 4000) s.sched += mc::str(s.sched.empty() ? "" : " > ", t->name, "@", t->at);
      s.last = t;
      if (++s.points > s.limit) { if (s.drain) throw mc::Skip{}; throw mc::Failure{"", "no progress: " + describe()}; }
      futexPost(&t->go);
      futexWait(&s.back);
      while (s.request) { unsigned n = s.request; s.request = 0; s.answer = pickOne(n); futexPost(&t->go); futexWait(&s.back); }
      if (!s.failure.empty()) { if (s.drain) throw mc::Skip{}; throw mc::Failure{"", s.failure + "; order of execution: " + s.sched}; }
      s.c->step();
    }
    static auto join = real<int (*)(pthread_t, void**)>("pthread_join");
    for (auto& t : s.thr) if (t->joinable) join(t->real, nullptr);
    s.c->log("schedule: " + s.sched);
    if (s.drain) throw mc::Skip{};
  }
};
}  // namespace sched

#ifdef SCHED_INTERPOSE
// The pthread operations of the code under test.
namespace sched { inline bool createFails = false; }
extern "C" {
int pthread_create(pthread_t* tid, const pthread_attr_t* attr, void* (*start)(void*), void* arg) {
  using namespace sched;
  static auto create = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
  if (!controlled()) return create(tid, attr, start, arg);
  int r;
  {
    Thread* t;
    {
      Hidden h;
      if (createFails && choose(2)) return EAGAIN;
      g->thr.emplace_back(new Thread); t = g->thr.back().get();
      t->id = g->thr.size() - 1; t->name = mc::str("thread", t->id); t->start = start; t->arg = arg;
    }
    r = create(tid, attr, trampoline, t);
    Hidden h;
    t->real = *tid;
    if (r) { g->thr.pop_back(); return r; }
  }
  point("pthread_create");
  return r;
}
int pthread_join(pthread_t tid, void** ret) {
  using namespace sched;
  static auto join = real<int (*)(pthread_t, void**)>("pthread_join");
  if (controlled()) {
    Thread* t = nullptr;
    { Hidden h; for (auto& x : g->thr) if (pthread_equal(x->real, tid)) t = x.get(); }
    if (t) point("pthread_join", [t] { return t->done; });
  }
  return join(tid, ret);
}
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
  using namespace sched;
  static auto init = real<int (*)(pthread_mutex_t*, const pthread_mutexattr_t*)>("pthread_mutex_init");
  if (g) { Hidden h; auto i = g->owner.find(m); if (i != g->owner.end()) { if (self) failure("a mutex was initialised while it was held by " + ownerName(m)); g->owner.erase(i); } g->destroyed.erase(m); }
  return init(m, a);
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  using namespace sched;
  static auto lock = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
  if (!controlled()) return lock(m);
  {
    Hidden h;
    int me = self->id;
    auto i = g->owner.find(m);
    if (i != g->owner.end() && i->second.first == me) {
      if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { ++i->second.second; goto locked; }
      failure("thread " + self->name + " locks a mutex which it holds already");
    }
    point("pthread_mutex_lock", [m] { return !g->owner.count(m); });
    g->owner[m] = {me, 1};
  }
locked:
  return lock(m);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  using namespace sched;
  static auto trylock = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
  if (!controlled()) return trylock(m);
  {
    Hidden h;
    point("pthread_mutex_trylock");
    auto i = g->owner.find(m);
    if (i != g->owner.end()) return EBUSY;
    g->owner[m] = {self->id, 1};
  }
  return trylock(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  using namespace sched;
  static auto unlock = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
  if (!controlled()) return unlock(m);
  {
    Hidden h;
    auto i = g->owner.find(m);
    if (i == g->owner.end() || i->second.first != self->id) failure("thread " + self->name + " unlocks a mutex held by " + ownerName(m));
    if (--i->second.second == 0) g->owner.erase(i);
  }
  return unlock(m);
}
int pthread_cond_wait(pthread_cond_t* cv, pthread_mutex_t* m) {
  using namespace sched;
  static auto lock = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
  static auto unlock = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
  static auto wait = real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait");
  if (!controlled()) return wait(cv, m);
  {
    Hidden h;
    auto i = g->owner.find(m);
    if (i == g->owner.end() || i->second.first != self->id) failure("thread " + self->name + " waits with a mutex held by " + ownerName(m));
    g->owner.erase(i);
  }
  unlock(m);
  {
    Hidden h;
    Thread* me = self;
    me->cond = cv; me->signalled = me->spurious = false;
    point("pthread_cond_wait", [me, m] { return (me->signalled || me->spurious) && !g->owner.count(m); });
    me->cond = nullptr; me->signalled = me->spurious = false;
    g->owner[m] = {me->id, 1};
  }
  return lock(m);
}
int pthread_cond_signal(pthread_cond_t* cv) {
  using namespace sched;
  static auto signal = real<int (*)(pthread_cond_t*)>("pthread_cond_signal");
  if (!controlled()) return signal(cv);
  Hidden h;
  std::vector<Thread*> w;
  for (auto& t : g->thr) if (!t->done && t->cond == cv && !t->signalled) w.push_back(t.get());
  if (!w.empty()) w[w.size() > 1 ? choose(w.size()) : 0]->signalled = true;
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* cv) {
  using namespace sched;
  static auto broadcast = real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast");
  if (!controlled()) return broadcast(cv);
  Hidden h;
  for (auto& t : g->thr) if (!t->done && t->cond == cv) t->signalled = true;
  return 0;
}
}
#endif
#endif
