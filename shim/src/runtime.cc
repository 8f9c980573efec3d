#include <dlfcn.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <atomic>
#include <cassert>
#include <condition_variable>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <thread>
#include <unordered_map>
#include <vector>

#include "bthread/bthread.h"
#include "bthread/butex.h"
#include "bthread/execution_queue.h"
#include "butil/time.h"
#include "shim/sched.h"

// ---- clock ---------------------------------------------------------------------------------------------------------
namespace shim {
int64_t g_virtual_us = -1;
static int RealClock(clockid_t id, timespec* ts) { return (int)syscall(SYS_clock_gettime, id, ts); }
static int64_t RealUs(clockid_t id) { timespec t; RealClock(id, &t); return (int64_t)t.tv_sec * 1000000 + t.tv_nsec / 1000; }
int64_t NowUs() { return g_virtual_us >= 0 ? g_virtual_us : RealUs(CLOCK_REALTIME); }
int64_t MonoUs() { return g_virtual_us >= 0 ? g_virtual_us : RealUs(CLOCK_MONOTONIC); }
}  // namespace shim
extern "C" {
int clock_gettime(clockid_t id, struct timespec* ts) {
  if (shim::g_virtual_us >= 0 && (id == CLOCK_REALTIME || id == CLOCK_MONOTONIC || id == CLOCK_REALTIME_COARSE || id == CLOCK_MONOTONIC_COARSE)) {
    ts->tv_sec = shim::g_virtual_us / 1000000; ts->tv_nsec = (shim::g_virtual_us % 1000000) * 1000; return 0;
  }
  return shim::RealClock(id, ts);
}
int gettimeofday(struct timeval* tv, void*) {
  int64_t u = shim::NowUs(); tv->tv_sec = u / 1000000; tv->tv_usec = u % 1000000; return 0;
}
time_t time(time_t* t) { time_t v = shim::NowUs() / 1000000; if (t) *t = v; return v; }
}

// ---- scheduler -----------------------------------------------------------------------------------------------------
namespace shim {
namespace {
enum St { RUNNABLE, BLOCKED, DONE };
struct Task {
  int id = 0; St st = RUNNABLE;
  const void* waiting = nullptr; const char* why = ""; int64_t deadline = -1; bool timed_out = false;
  std::function<void()> fn; std::condition_variable cv; std::thread th; bool started = false;
};
struct Sched {
  std::mutex mu; std::vector<std::unique_ptr<Task>> tasks; Task* cur = nullptr; SchedOpts o; SchedResult r; uint64_t rng = 1;
  std::condition_variable main_cv; bool over = false; int64_t base = 0;
  uint32_t Rand() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return (uint32_t)(rng >> 16); }
};
std::shared_ptr<Sched> g_s;
thread_local Task* t_me = nullptr;
thread_local std::shared_ptr<Sched> t_s;
std::atomic<uint64_t> g_tid{1};

int Choose(Sched& s, int n, bool cur_first, bool mem) {
  // n alternatives; alternative 0 is "keep running" when cur_first
  if (n <= 1) return 0;
  size_t d = s.r.choices.size();
  int c;
  if (s.o.systematic) {
    if (mem) return 0;
    c = d < s.o.prefix.size() ? s.o.prefix[d] : 0;
    if (c >= n) c = 0;
    s.r.choices.push_back(c); s.r.nchoices.push_back(n);
    return c;
  }
  if (cur_first) {
    int p = mem ? s.o.mem_preempt_permille : s.o.preempt_permille;
    if ((int)(s.Rand() % 1000) >= p) return 0;
    return 1 + s.Rand() % (n - 1);
  }
  return s.Rand() % n;
}
// Called with s.mu held by the running task (or by the starter): selects and hands over to the next task.
void Switch(Sched& s, std::unique_lock<std::mutex>& l, Task* me, bool mem) {
  if (s.over) { if (me) for (;;) me->cv.wait(l); return; }
  if (++s.r.steps > s.o.max_steps) { s.r.overrun = true; s.over = true; s.r.blocked = "at " + std::to_string(g_virtual_us) + " "; for (auto& t : s.tasks) if (t->st != DONE) s.r.blocked += "T" + std::to_string(t->id) + (t->st == BLOCKED ? std::string(":") + t->why + "@" + std::to_string(t->deadline) : std::string(":runs")) + " "; s.main_cv.notify_all(); if (me) for (;;) me->cv.wait(l); return; }
  std::vector<Task*> c;
  bool cur_first = me && me->st == RUNNABLE;
  if (cur_first) c.push_back(me);
  for (auto& t : s.tasks) if (t->st == RUNNABLE && t.get() != me) c.push_back(t.get());
  if (c.empty()) {
    Task* best = nullptr;
    for (auto& t : s.tasks) if (t->st == BLOCKED && t->deadline >= 0 && (!best || t->deadline < best->deadline)) best = t.get();
    if (best) {
      if (g_virtual_us >= 0 && best->deadline > g_virtual_us) g_virtual_us = best->deadline;
      best->st = RUNNABLE; best->timed_out = true; best->waiting = nullptr; best->deadline = -1;
      c.push_back(best);
    } else {
      bool all = true;
      for (auto& t : s.tasks) if (t->st != DONE) all = false;
      s.over = true;
      if (!all) {
        s.r.deadlock = true;
        for (auto& t : s.tasks) if (t->st == BLOCKED) s.r.blocked += "T" + std::to_string(t->id) + ":" + t->why + " ";
      }
      s.main_cv.notify_all();
      if (me && me->st != DONE) for (;;) me->cv.wait(l);
      return;
    }
  }
  Task* n = c[Choose(s, (int)c.size(), cur_first, mem)];
  s.cur = n;
  if (n != me) {
    n->cv.notify_all();
    if (me && me->st != DONE) while (s.cur != me) me->cv.wait(l);
  }
}
void Spawn(std::shared_ptr<Sched> sp, Task* t) {
  t->th = std::thread([sp, t] {
    t_me = t; t_s = sp;
    { std::unique_lock<std::mutex> l(sp->mu); while (sp->cur != t) t->cv.wait(l); }
    t->fn();
    std::unique_lock<std::mutex> l(sp->mu);
    t->st = DONE;
    for (auto& w : sp->tasks) if (w->st == BLOCKED && w->waiting == t) { w->st = RUNNABLE; w->waiting = nullptr; w->deadline = -1; }
    Switch(*sp, l, t, false);
  });
  t->th.detach();
}
inline bool Managed() { return t_me != nullptr && !t_s->over; }
void BlockOn(const void* a, const char* why, int64_t deadline, std::unique_lock<std::mutex>& l) {
  t_me->st = BLOCKED; t_me->waiting = a; t_me->why = why; t_me->deadline = deadline; t_me->timed_out = false;
  Switch(*t_s, l, t_me, false);
}
int Wake(const void* a, int n) {  // s.mu held
  auto& s = *t_s; int k = 0;
  std::vector<Task*> w;
  for (auto& t : s.tasks) if (t->st == BLOCKED && t->waiting == a) w.push_back(t.get());
  while (!w.empty() && k < n) {
    size_t i = 0;
    if (n == 1 && w.size() > 1) i = s.o.systematic ? 0 : s.Rand() % w.size();
    w[i]->st = RUNNABLE; w[i]->waiting = nullptr; w[i]->deadline = -1; w[i]->timed_out = false; w.erase(w.begin() + i); k++;
  }
  return k;
}
}  // namespace
bool InSched() { return Managed(); }
int SchedSelf() { return t_me ? t_me->id : -1; }
void SchedPoint() { if (!Managed()) return; std::unique_lock<std::mutex> l(t_s->mu); Switch(*t_s, l, t_me, false); }
void MemPoint() {
  if (t_me == nullptr || t_s->over || t_s->o.mem_preempt_permille <= 0) return;
  std::unique_lock<std::mutex> l(t_s->mu); Switch(*t_s, l, t_me, true);
}
SchedResult RunSched(const SchedOpts& o, std::vector<std::function<void()>> bodies) {
  auto sp = std::make_shared<Sched>();
  sp->o = o; sp->rng = o.seed * 0x9E3779B97F4A7C15ull + 0x1234567; for (int i = 0; i < 8; i++) sp->Rand();
  g_s = sp;
  std::unique_lock<std::mutex> l(sp->mu);
  for (auto& b : bodies) { auto t = std::make_unique<Task>(); t->id = (int)sp->tasks.size(); t->fn = b; sp->tasks.push_back(std::move(t)); }
  for (auto& t : sp->tasks) Spawn(sp, t.get());
  Switch(*sp, l, nullptr, false);
  while (!sp->over) sp->main_cv.wait(l);
  auto r = sp->r;
  if (g_s == sp) g_s = nullptr;
  return r;
}
bool NextPrefix(const SchedResult& r, int max_preempt, std::vector<int>* prefix) {
  std::vector<int> c = r.choices;
  for (int i = (int)c.size() - 1; i >= 0; --i) {
    if (c[i] + 1 < r.nchoices[i]) {
      int nz = 1; for (int j = 0; j < i; j++) nz += c[j] != 0;
      if (nz > max_preempt) continue;
      c.resize(i + 1); c[i]++; *prefix = c; return true;
    }
  }
  return false;
}
}  // namespace shim
using namespace shim;

// ---- bthread -------------------------------------------------------------------------------------------------------
namespace bthread { int32_t FLAGS_bthread_concurrency = 9; }
namespace {
struct Th { std::thread th; Task* task = nullptr; bool done = false; };
std::mutex g_th_mu; std::map<uint64_t, std::shared_ptr<Th>> g_th;
thread_local uint64_t t_bid = 0;
}  // namespace
static int StartImpl(bthread_t* t, void* (*fn)(void*), void* arg) {
  uint64_t id = g_tid++;
  auto th = std::make_shared<Th>();
  { std::lock_guard<std::mutex> g(g_th_mu); g_th[id] = th; }
  if (t) *t = id;
  if (Managed()) {
    auto sp = t_s; std::unique_lock<std::mutex> l(sp->mu);
    auto k = std::make_unique<Task>(); k->id = (int)sp->tasks.size(); k->fn = [fn, arg, id] { t_bid = id; fn(arg); }; th->task = k.get();
    Task* p = k.get(); sp->tasks.push_back(std::move(k)); Spawn(sp, p); Switch(*sp, l, t_me, false);
  } else {
    th->th = std::thread([fn, arg, id] { t_bid = id; fn(arg); });
  }
  return 0;
}
int bthread_start_background(bthread_t* t, const bthread_attr_t*, void* (*fn)(void*), void* arg) { return StartImpl(t, fn, arg); }
int bthread_start_urgent(bthread_t* t, const bthread_attr_t*, void* (*fn)(void*), void* arg) { return StartImpl(t, fn, arg); }
int bthread_join(bthread_t t, void**) {
  std::shared_ptr<Th> th;
  { std::lock_guard<std::mutex> g(g_th_mu); auto it = g_th.find(t); if (it == g_th.end()) return EINVAL; th = it->second; }
  if (th->task && Managed()) { std::unique_lock<std::mutex> l(t_s->mu); while (th->task->st != DONE) BlockOn(th->task, "join", -1, l); }
  else if (th->th.joinable()) th->th.join();
  std::lock_guard<std::mutex> g(g_th_mu); g_th.erase(t);
  return 0;
}
int bthread_stop(bthread_t) { return 0; }
bthread_t bthread_self(void) { if (t_bid == 0) t_bid = g_tid++; return t_bid; }
int bthread_yield(void) { if (Managed()) { std::unique_lock<std::mutex> l(t_s->mu); BlockOn(t_me, "yield", 0, l); } else sched_yield(); return 0; }
int bthread_usleep(uint64_t us) {
  if (Managed()) { std::unique_lock<std::mutex> l(t_s->mu); BlockOn(t_me, "sleep", NowUs() + (int64_t)us, l); return 0; }
  if (g_virtual_us >= 0) { __sync_fetch_and_add(&g_virtual_us, (int64_t)us); sched_yield(); return 0; }
  timespec ts = butil::microseconds_to_timespec(us); nanosleep(&ts, nullptr); return 0;
}
int bthread_getconcurrency(void) { return bthread::FLAGS_bthread_concurrency; }
int bthread_setconcurrency(int n) { bthread::FLAGS_bthread_concurrency = n; return 0; }
int bthread_about_to_quit() { return 0; }
// Timers are explicit steps as well: they are recorded and never fire by themselves.
namespace { std::mutex g_tm_mu; std::map<uint64_t, std::pair<void (*)(void*), void*>> g_tm; uint64_t g_tm_id = 1; }
int bthread_timer_add(bthread_timer_t* id, struct timespec, void (*f)(void*), void* a) { std::lock_guard<std::mutex> g(g_tm_mu); *id = g_tm_id++; g_tm[*id] = {f, a}; return 0; }
int bthread_timer_del(bthread_timer_t id) { std::lock_guard<std::mutex> g(g_tm_mu); return g_tm.erase(id) ? 0 : EINVAL; }
namespace shim { int FireTimers() { std::map<uint64_t, std::pair<void (*)(void*), void*>> m; { std::lock_guard<std::mutex> g(g_tm_mu); m.swap(g_tm); } for (auto& [_, p] : m) p.first(p.second); return (int)m.size(); } }

int bthread_mutex_init(bthread_mutex_t* m, const bthread_mutexattr_t*) { pthread_mutex_init(&m->m, nullptr); m->owner = nullptr; m->init_magic = 0x5a; return 0; }
int bthread_mutex_destroy(bthread_mutex_t*) { return 0; }
int bthread_mutex_lock(bthread_mutex_t* m) {
  if (!Managed()) return pthread_mutex_lock(&m->m);
  std::unique_lock<std::mutex> l(t_s->mu);
  Switch(*t_s, l, t_me, false);
  while (m->owner) BlockOn(m, "mutex", -1, l);
  m->owner = t_me;
  return 0;
}
int bthread_mutex_trylock(bthread_mutex_t* m) {
  if (!Managed()) return pthread_mutex_trylock(&m->m);
  std::unique_lock<std::mutex> l(t_s->mu);
  Switch(*t_s, l, t_me, false);
  if (m->owner) return EBUSY;
  m->owner = t_me; return 0;
}
int bthread_mutex_timedlock(bthread_mutex_t* m, const timespec* t) {
  if (!Managed()) return pthread_mutex_timedlock(&m->m, t);
  std::unique_lock<std::mutex> l(t_s->mu);
  Switch(*t_s, l, t_me, false);
  while (m->owner) { BlockOn(m, "mutex", t->tv_sec * 1000000ll + t->tv_nsec / 1000, l); if (t_me->timed_out) return ETIMEDOUT; }
  m->owner = t_me; return 0;
}
int bthread_mutex_unlock(bthread_mutex_t* m) {
  if (!Managed()) { if (t_me) return 0; return pthread_mutex_unlock(&m->m); }
  std::unique_lock<std::mutex> l(t_s->mu);
  m->owner = nullptr; Wake(m, 1 << 30);
  Switch(*t_s, l, t_me, false);
  return 0;
}
int bthread_cond_init(bthread_cond_t* c, const bthread_condattr_t*) { pthread_cond_init(&c->c, nullptr); c->m = nullptr; return 0; }
int bthread_cond_destroy(bthread_cond_t*) { return 0; }
int bthread_cond_signal(bthread_cond_t* c) {
  if (!Managed()) return pthread_cond_signal(&c->c);
  std::unique_lock<std::mutex> l(t_s->mu); Wake(c, 1); Switch(*t_s, l, t_me, false); return 0;
}
int bthread_cond_broadcast(bthread_cond_t* c) {
  if (!Managed()) return pthread_cond_broadcast(&c->c);
  std::unique_lock<std::mutex> l(t_s->mu); Wake(c, 1 << 30); Switch(*t_s, l, t_me, false); return 0;
}
static int CondWait(bthread_cond_t* c, bthread_mutex_t* m, int64_t deadline) {
  std::unique_lock<std::mutex> l(t_s->mu);
  m->owner = nullptr; Wake(m, 1 << 30);
  BlockOn(c, "cond", deadline, l);
  bool to = t_me->timed_out;
  while (m->owner) BlockOn(m, "mutex", -1, l);
  m->owner = t_me;
  return to ? ETIMEDOUT : 0;
}
int bthread_cond_wait(bthread_cond_t* c, bthread_mutex_t* m) { return Managed() ? CondWait(c, m, -1) : pthread_cond_wait(&c->c, &m->m); }
int bthread_cond_timedwait(bthread_cond_t* c, bthread_mutex_t* m, const timespec* t) {
  if (Managed()) return CondWait(c, m, t->tv_sec * 1000000ll + t->tv_nsec / 1000);
  if (g_virtual_us >= 0) {  // nobody else can advance a virtual clock: treat as elapsed
    int64_t d = t->tv_sec * 1000000ll + t->tv_nsec / 1000; if (d > g_virtual_us) g_virtual_us = d; return ETIMEDOUT;
  }
  return pthread_cond_timedwait(&c->c, &m->m, t);
}
namespace bthread {
struct Butex { int v; pthread_mutex_t m; pthread_cond_t c; };
void* butex_create() { auto* b = new Butex; b->v = 0; pthread_mutex_init(&b->m, nullptr); pthread_cond_init(&b->c, nullptr); return b; }
void butex_destroy(void* b) { delete (Butex*)b; }
static int DoWake(void* p, int n) {
  if (Managed()) { std::unique_lock<std::mutex> l(t_s->mu); int k = Wake(p, n); Switch(*t_s, l, t_me, false); return k; }
  auto* b = (Butex*)p; pthread_mutex_lock(&b->m); n == 1 ? pthread_cond_signal(&b->c) : pthread_cond_broadcast(&b->c); pthread_mutex_unlock(&b->m); return 1;
}
int butex_wake(void* p, bool) { return DoWake(p, 1); }
int butex_wake_all(void* p, bool) { return DoWake(p, 1 << 30); }
int butex_wait(void* p, int expected, const timespec* abst, bool) {
  auto* b = (Butex*)p;
  if (Managed()) {
    std::unique_lock<std::mutex> l(t_s->mu);
    Switch(*t_s, l, t_me, false);
    if (__atomic_load_n(&b->v, __ATOMIC_SEQ_CST) != expected) { errno = EWOULDBLOCK; return -1; }
    BlockOn(p, "butex", abst ? abst->tv_sec * 1000000ll + abst->tv_nsec / 1000 : -1, l);
    if (t_me->timed_out) { errno = ETIMEDOUT; return -1; }
    return 0;
  }
  pthread_mutex_lock(&b->m); int rc = 0;
  if (__atomic_load_n(&b->v, __ATOMIC_SEQ_CST) != expected) { errno = EWOULDBLOCK; rc = -1; }
  else if (abst) { int e = pthread_cond_timedwait(&b->c, &b->m, abst); if (e) { errno = e; rc = -1; } }
  else pthread_cond_wait(&b->c, &b->m);
  pthread_mutex_unlock(&b->m); return rc;
}
namespace shimq {
static std::mutex g_q_mu; static std::map<uint64_t, std::shared_ptr<QBase>> g_q; static uint64_t g_qid = 1;
uint64_t Register(std::shared_ptr<QBase> q) { std::lock_guard<std::mutex> g(g_q_mu); bthread_mutex_init(&q->mu, nullptr); bthread_cond_init(&q->cv, nullptr); g_q[g_qid] = q; return g_qid++; }
std::shared_ptr<QBase> Find(uint64_t id) { std::lock_guard<std::mutex> g(g_q_mu); auto it = g_q.find(id); return it == g_q.end() ? nullptr : it->second; }
void Start(std::shared_ptr<QBase> q) {
  auto* h = new std::shared_ptr<QBase>(q);
  bthread_start_background(&q->tid, nullptr, +[](void* a) -> void* {
    std::shared_ptr<QBase> q = *(std::shared_ptr<QBase>*)a; delete (std::shared_ptr<QBase>*)a;
    bthread_mutex_lock(&q->mu);
    for (;;) { if (q->Drain()) continue; if (q->stop) break; bthread_cond_wait(&q->cv, &q->mu); }
    bthread_mutex_unlock(&q->mu);
    return nullptr;
  }, h);
}
}  // namespace shimq
}  // namespace bthread
