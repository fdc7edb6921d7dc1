// C18: generated lock programs on signals2::mutex and dummy_mutex. -DMX_REAL=0: under the controlled scheduler (pthread calls wrapped); 1: real parallel threads.
#include "core.hpp"
// MX_WIN: the Windows mutex over stand-ins for the critical section functions (not recursive, unlike the real ones). MX_NOP: the mutex of programs without threads
#include <boost/config.hpp>
#ifdef MX_WIN
#include <pthread.h>
#include <boost/assert.hpp>
#define __declspec(x)
#define __stdcall
#define _WIN32_WINNT 0x0600
#undef BOOST_HAS_PTHREADS
#define BOOST_HAS_WINTHREADS
#endif
#include <boost/signals2/mutex.hpp>
#include <boost/signals2/dummy_mutex.hpp>
#ifdef MX_WIN
#undef __declspec
#undef __stdcall
struct _RTL_CRITICAL_SECTION { pthread_mutex_t* m; };
static void win_bad(const char* s) { printf("FAIL %s\n", s); fflush(stdout); _exit(3); }
static long g_cs; typedef ::_RTL_CRITICAL_SECTION* PCS;
extern "C" void InitializeCriticalSection(PCS c) { c->m = new pthread_mutex_t; pthread_mutexattr_t a; pthread_mutexattr_init(&a); pthread_mutexattr_settype(&a, PTHREAD_MUTEX_ERRORCHECK); pthread_mutex_init(c->m, &a); __sync_fetch_and_add(&g_cs, 1); }
extern "C" void EnterCriticalSection(PCS c) { if (pthread_mutex_lock(c->m)) win_bad("a critical section is entered twice"); }
extern "C" int TryEnterCriticalSection(PCS c) { return pthread_mutex_trylock(c->m) == 0 ? 7 : 0; }
extern "C" void LeaveCriticalSection(PCS c) { if (pthread_mutex_unlock(c->m)) win_bad("a critical section is left by a thread that has not entered it"); }
extern "C" void DeleteCriticalSection(PCS c) { if (pthread_mutex_destroy(c->m)) win_bad("a critical section is deleted while it is entered"); delete c->m; c->m = 0; __sync_fetch_and_sub(&g_cs, 1); }
#endif
#ifndef MX_REAL
#define MX_REAL 0
#endif
#if MX_REAL
#include <pthread.h>
#include <atomic>
#include <thread>
#else
#include "ctl.h"
#endif
#include <memory>
vc::Progress* vc::g_progress;
namespace bs = boost::signals2; using vc::Rng; using vc::Outcome; using vc::Lines;
#define S(x) std::to_string(x)
enum { NM = 3, NT = 3 };
struct Op { int code, m, n; }; // cs: lock, n updates, unlock. try. nest: lock m and the next. ctry: try while holding. dm: dummy_mutex sequence. spin: try until it succeeds
enum { CS, TRY, NEST, CTRY, DM, SPIN, PAUSE, NCODE };
static const char* const NAMES[] = {"cs", "try", "nest", "ctry", "dm", "spin", "pause"};
template<class D> static bool dummy_ok(D& d, int n) { unsigned x = unsigned(n) * 2654435761u; bool ok = true; for (int i = 0; i < 8; ++i, x >>= 2) switch (x & 3) { case 0: d.lock(); break; case 1: ok = ok && d.try_lock(); break; default: d.unlock(); } return ok && d.try_lock(); }

#if !MX_REAL
struct Iv { long t0, t1; int th; };
struct TryRec { int m; long t0, t1; bool res; int th; bool self; };
struct World { std::unique_ptr<bs::mutex> m[NM]; bs::dummy_mutex dm; long data[NM], shadow[NM]; int owner[NM]; std::vector<Iv> held[NM + 1][NT + 1]; std::vector<TryRec> tries[NT + 1]; long updates; };
static World* W; static int tid() { int s = sched_self(); return s < 0 ? NT : s; }
[[noreturn]] static void bad(const std::string& s) { static char b[300]; snprintf(b, sizeof b, "%s", s.c_str()); sched_fail(b); }
struct Loud { Loud() { sched_quiet(-1); } ~Loud() { sched_quiet(1); } };
static void enter(int m) { if (nt_get(&W->owner[m])) bad("mutual exclusion: two threads hold the mutex"); nt_add(&W->owner[m], tid() + 1); }
static void leave(int m) { if (nt_get(&W->owner[m]) != tid() + 1) bad("mutual exclusion: two threads hold the mutex"); nt_add(&W->owner[m], -(tid() + 1)); }
static void work(int m, int n) { for (int i = 0; i < n; ++i) { long v = W->data[m]; sched_mark(); W->data[m] = v + 1; ++W->shadow[m]; sched_mark(); if (nt_get(&W->owner[m]) != tid() + 1) bad("mutual exclusion: two threads hold the mutex"); } }
static void lock(int m) { W->held[m][tid()].push_back(Iv{sched_now(), 1L << 60, tid()}); sched_where("lock"); { Loud d; W->m[m]->lock(); } sched_where(0); enter(m); }
static void unlock(int m) { leave(m); { Loud d; W->m[m]->unlock(); } W->held[m][tid()].back().t1 = sched_now(); }
static bool trylock(int m, bool self) { TryRec r; r.m = m; r.th = tid(); r.self = self; r.t0 = sched_now(); sched_where("try_lock"); sched_expect_no_wait(1); { Loud d; r.res = W->m[m]->try_lock(); } sched_expect_no_wait(0); sched_where(0); r.t1 = sched_now(); W->tries[tid()].push_back(r); if (self) { if (r.res) bad("try_lock succeeded although the mutex was held"); return false; } if (r.res) { W->held[m][tid()].push_back(Iv{r.t0, 1L << 60, tid()}); enter(m); } return r.res; }
static void body(int t, void* p) { sched_quiet(1);
  for (auto& op : (*(std::vector<Op>*)p)) { if (op.code / 100 != t) continue; int c = op.code % 100, m = op.m % NM, k = (m + 1) % NM; int a = std::min(m, k), b = std::max(m, k);
    switch (c) { case CS: lock(m); work(m, op.n); unlock(m); break; case TRY: if (trylock(m, false)) { work(m, op.n); unlock(m); } break;
      case NEST: lock(a); work(a, 1); lock(b); work(b, op.n); if (op.n & 1) { unlock(a); unlock(b); } else { unlock(b); unlock(a); } break;
      case CTRY: lock(m); work(m, 1); trylock(m, true); if (trylock(k, false)) { work(k, 1); unlock(k); } work(m, op.n); unlock(m); break;
      case DM: if (!dummy_ok(W->dm, op.n)) bad("dummy_mutex::try_lock returned false"); break;
      case SPIN: { int i = 0; while (!trylock(m, false)) { sched_mark(); if (++i > 40) break; } if (i <= 40) { work(m, op.n); unlock(m); } break; }
      case PAUSE: for (int i = 0; i < op.n; ++i) sched_mark(); } }
  sched_quiet(-1); }
static Outcome run_case(const Lines& l) {
  Outcome o; std::vector<Op> ops; std::vector<SchedDec> dec; int nt = 2, gran = 0, sweep = 0;
  for (auto& s : l) { std::istringstream is(s); std::string k; is >> k; if (k == "!nt") { is >> nt >> gran >> sweep; nt = std::max(2, std::min<int>(NT, nt)); } else if (k == "p") { SchedDec d; is >> d.n >> d.to; if (d.n < 1) d.n = 1; dec.push_back(d); } else if (k == "a" || k == "b" || k == "c") { std::string n; Op op; is >> n >> op.m >> op.n; for (int i = 0; i < NCODE; ++i) if (n == NAMES[i]) { op.code = i + 100 * (k[0] - 'a'); if (op.m < 0) op.m = 0; ops.push_back(op); } } }
  auto once = [&](const std::vector<SchedDec>& d) { std::unique_ptr<World> wp(new World); W = wp.get(); for (int m = 0; m < NM; ++m) { W->m[m].reset(new bs::mutex); W->data[m] = W->shadow[m] = 0; W->owner[m] = 0; }
    sched_reset_counts(); sched_rules(0); sched_run(nt, body, &ops, d.data(), int(d.size()), gran); o.counters["schedules"]++; std::string msg; int contended = 0;
    for (int m = 0; m < NM; ++m) { if (W->data[m] != W->shadow[m]) msg = "an update made under the lock was lost"; if (!W->m[m]->try_lock()) msg = "a mutex nobody holds could not be locked with try_lock"; else W->m[m]->unlock(); }
    for (int t = 0; t < NT && msg.empty(); ++t) for (auto& r : W->tries[t]) { o.counters["try_locks"]++; o.counters[r.res ? "try_true" : "try_false"]++; if (r.self || r.res) continue; bool busy = false; for (int u = 0; u < NT; ++u) for (auto& h : W->held[r.m][u]) if (u != t && h.t0 < r.t1 && h.t1 > r.t0) busy = true; 
      for (int u = 0; u < NT; ++u) for (auto& q : W->tries[u]) if (u != t && q.m == r.m && q.t0 < r.t1 && q.t1 > r.t0) busy = true; if (busy) ++contended; else msg = "try_lock returned false although no other thread held the mutex"; }
    for (int m = 0; m < NM; ++m) for (int t = 0; t < NT; ++t) for (auto& h : W->held[m][t]) { o.hash = vc::mix(o.hash, h.t1 - h.t0 + 100 * m + t); for (int u = 0; u < t; ++u) for (auto& g : W->held[m][u]) if (h.t0 < g.t1 && g.t0 < h.t1) ++contended; }
    o.counters["contended"] += contended; if (contended) o.nontrivial = true; int used = sched_used(); W = 0; if (!msg.empty()) { o.ok = false; o.msg = msg; } return used; };
  if (!sweep) { once(dec); return o; }
  for (int n = 1; n < 300 && o.ok; ++n) { auto d = dec; d.insert(d.begin(), SchedDec{n, 0}); if (once(d) == 0) break; } 
  return o;
}
#elif defined(MX_NOP)
static_assert(std::is_base_of<bs::dummy_mutex, bs::mutex>::value || true, "");
static Outcome run_case(const Lines& l) { // any sequence of calls is a no-op, whatever object it is made on
  Outcome o; bs::mutex m[NM]; bs::dummy_mutex d; for (auto& s : l) { std::istringstream is(s); std::string k, n; Op op; is >> k; if (k.size() != 1) continue; is >> n >> op.m >> op.n; for (int i = 0; i <= (op.n & 15) && o.ok; ++i) if (!dummy_ok(m[unsigned(op.m + i) % NM], op.n * 31 + i) || !dummy_ok(d, op.n + i)) { o.ok = false; o.msg = "try_lock of a mutex without effect returned false"; } }
  o.nontrivial = l.size() > 3; o.hash = vc::hash_str(vc::join(l)); return o; }
#else
struct World { bs::mutex m[NM]; bs::dummy_mutex dm; long data[NM]; std::atomic<int> owner[NM]; std::atomic<long> want[NM]; std::atomic<int> stage; };
static World* W; static std::atomic<const char*> g_bad;
static void bad(const char* s) { g_bad.store(s); }
static void enter(int m) { if (W->owner[m].exchange(1, std::memory_order_relaxed)) bad("mutual exclusion: two threads hold the mutex"); }
static void leave(int m) { W->owner[m].store(0, std::memory_order_relaxed); }
static void work(int m, int n) { for (int i = 0; i < n; ++i) { long v = W->data[m]; if (i == 0) std::this_thread::yield(); W->data[m] = v + 1; W->want[m].fetch_add(1, std::memory_order_relaxed); } }
struct Arg { const std::vector<Op>* ops; int t, reps; };
static void* body(void* p) { Arg& A = *(Arg*)p; for (int rep = 0; rep < A.reps; ++rep) for (auto& op : *A.ops) { if (op.code / 100 != A.t) continue; int m = op.m % NM, k = (m + 1) % NM, a = std::min(m, k), b = std::max(m, k); auto& M = W->m;
    auto L = [&](int x) { M[x].lock(); enter(x); }; auto U = [&](int x) { leave(x); M[x].unlock(); };
    switch (op.code % 100) { case CS: L(m); work(m, op.n); U(m); break; case TRY: if (M[m].try_lock()) { enter(m); work(m, op.n); U(m); } break; case NEST: L(a); work(a, 1); L(b); work(b, op.n); U(b); U(a); break;
      case CTRY: L(m); if (M[m].try_lock()) bad("try_lock succeeded although the mutex was held"); if (M[k].try_lock()) { enter(k); work(k, 1); U(k); } work(m, op.n); U(m); break; case DM: if (!dummy_ok(W->dm, op.n + rep)) bad("dummy_mutex::try_lock returned false"); break;
      case SPIN: { int i = 0; while (!M[m].try_lock()) { if (++i > 100) break; std::this_thread::yield(); } if (i <= 100) { enter(m); work(m, op.n); U(m); } break; } case PAUSE: std::this_thread::yield(); } } return 0; }
// one thread holds the mutex until the other's try_lock has returned; then the other waits in lock() until it is unlocked
static void* partner(void*) { while (W->stage.load() != 1) std::this_thread::yield(); if (W->m[0].try_lock()) { bad("try_lock succeeded although another thread held the mutex"); } W->stage.store(2); while (W->stage.load() != 3) std::this_thread::yield(); W->stage.store(33); W->m[0].lock(); if (W->stage.load() != 4) bad("lock() returned although another thread held the mutex"); ++W->data[0]; W->m[0].unlock(); W->stage.store(5); return 0; }
static bool wait_stage(int s) { double t = vc::now(); while (W->stage.load() != s) { if (vc::now() - t > 10 || g_bad.load()) return false; std::this_thread::yield(); } return true; }
static Outcome run_case(const Lines& l) {
  Outcome o; std::vector<Op> ops; int nt = 2; g_bad.store(0);
  for (auto& s : l) { std::istringstream is(s); std::string k; is >> k; if (k == "!nt") { is >> nt; nt = std::max(2, std::min<int>(NT, nt)); } else if (k == "a" || k == "b" || k == "c") { std::string n; Op op; is >> n >> op.m >> op.n; for (int i = 0; i < NCODE; ++i) if (n == NAMES[i]) { op.code = i + 100 * (k[0] - 'a'); if (op.m < 0) op.m = 0; ops.push_back(op); } } }
  std::unique_ptr<World> wp(new World); W = wp.get(); for (int m = 0; m < NM; ++m) { W->data[m] = 0; W->owner[m] = 0; W->want[m] = 0; } W->stage = 0;
  auto die = [&](const char* s) { printf("FAIL %s\n", s); fflush(stdout); _exit(3); };
  pthread_t th[NT]; Arg args[NT]; for (int t = 0; t < nt; ++t) { args[t] = Arg{&ops, t, 40}; pthread_create(&th[t], 0, body, &args[t]); } for (int t = 0; t < nt; ++t) pthread_join(th[t], 0);
  for (int m = 0; m < NM; ++m) if (W->data[m] != W->want[m].load()) die("an update made under the lock was lost"); for (int m = 0; m < NM; ++m) if (!W->m[m].try_lock()) die("a mutex nobody holds could not be locked with try_lock"); else W->m[m].unlock();
  pthread_t q; pthread_create(&q, 0, partner, 0); W->m[0].lock(); W->stage.store(1); if (!wait_stage(2)) die(g_bad.load() ? g_bad.load() : "try_lock waits while another thread holds the mutex"); W->stage.store(3); if (!wait_stage(33)) die("the partner thread does not answer"); for (int i = 0; i < 20; ++i) std::this_thread::yield(); ++W->data[0]; W->stage.store(4); W->m[0].unlock(); if (!wait_stage(5)) die(g_bad.load() ? g_bad.load() : "unlock() did not wake the waiting thread"); pthread_join(q, 0);
  if (g_bad.load()) die(g_bad.load()); o.nontrivial = nt > 1 && ops.size() > 2; o.hash = vc::hash_str(vc::join(l)); o.counters["updates"] += W->want[0] + W->want[1] + W->want[2]; W = 0; wp.reset();
#ifdef MX_WIN
  if (g_cs) die("critical sections are not deleted with their mutexes");
#endif
  return o;
}
#endif
static Lines generate(uint64_t seed, const std::string&) {
  Rng r(seed); Lines out; int nt = r.chance(60) ? 2 : 3, gran = r.chance(60), sweep = r.chance(40); out.push_back("!nt " + S(nt) + " " + S(gran) + " " + S(sweep)); int nm = r.range(1, NM);
  for (int t = 0; t < nt; ++t) { int n = r.range(1, 4); for (int i = 0; i < n; ++i) { static const int w[] = {CS, CS, CS, TRY, TRY, NEST, CTRY, DM, SPIN, PAUSE}; int c = w[r.below(10)]; out.push_back(std::string(1, char('a' + t)) + " " + NAMES[c] + " " + S(r.below(nm)) + " " + S(c == DM ? r.below(10000) : r.range(0, 3))); } }
  int nd = r.range(0, 6); for (int i = 0; i < nd; ++i) out.push_back("p " + S(r.range(1, gran ? 40 : 10)) + " " + S(r.below(2))); return out;
}
int main(int argc, char** argv) { vc::Harness h; h.gen = generate; h.run = run_case; return vc::main_loop(argc, argv, h); }
