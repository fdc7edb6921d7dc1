// C23: the cost of operations.  The same generated history is run on signals of growing size; what each operation costs is counted in control-flow edges executed, mutex operations,
// allocations, group comparisons and function comparisons, and must grow as documented.
#include <cstdint>
#include <cstddef>
#define NOCOV __attribute__((no_sanitize("coverage")))
static uint64_t g_edges, g_allocs, g_locks, g_cmps, g_eqs, g_copies;
extern "C" NOCOV void __sanitizer_cov_trace_pc_guard_init(uint32_t*, uint32_t*) {}
extern "C" NOCOV void __sanitizer_cov_trace_pc_guard(uint32_t*) { ++g_edges; }
#include "core.hpp"
#include <boost/signals2.hpp>
#include <boost/make_shared.hpp>
#include <memory>
#include <new>
vc::Progress* vc::g_progress;
void* operator new(std::size_t n) { ++g_allocs; void* p = malloc(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, std::size_t) noexcept { free(p); }
void operator delete[](void* p, std::size_t) noexcept { free(p); }
using vc::Rng; using vc::Lines; using vc::Outcome; using std::string; using std::vector;
namespace bs = boost::signals2;
struct Mx { bool h; Mx() : h(false) {} Mx(const Mx&) = delete; void lock() { if (h) { printf("FAIL self-lock\n"); fflush(stdout); _exit(3); } ++g_locks; h = true; } bool try_lock() { lock(); return true; } void unlock() { ++g_locks; h = false; } };
struct Cmp { bool operator()(int a, int b) const { ++g_cmps; return a < b; } };
static long g_calls;
struct Fn { int id; explicit Fn(int i) : id(i) {} Fn(const Fn& o) : id(o.id) { ++g_copies; } int operator()(int) const { ++g_calls; return 1; } bool operator==(const Fn& o) const { ++g_eqs; return id == o.id; } };
struct XFn { Fn f; int operator()(const bs::connection&, int) const { ++g_calls; return 1; } bool operator==(const XFn& o) const { return f == o.f; } };
struct Comb { typedef int result_type; int stop; explicit Comb(int s = 0) : stop(s) {} template<class It> int operator()(It f, It l) const { int n = 0; for (; f != l; ++f) { n += *f; if (stop && n == stop) break; } return n; } };
typedef bs::signal<int(int), Comb, int, Cmp, boost::function<int(int)>, boost::function<int(const bs::connection&, int)>, Mx> Sig;
struct Cost { uint64_t edges, allocs, locks, cmps, eqs, copies; static Cost now() { Cost c = { g_edges, g_allocs, g_locks, g_cmps, g_eqs, g_copies }; return c; } Cost operator-(const Cost& o) const { Cost c = { edges - o.edges, allocs - o.allocs, locks - o.locks, cmps - o.cmps, eqs - o.eqs, copies - o.copies }; return c; } };
enum { CONST = 0, LIN = 1 };
struct Op { int op; int a[4]; };
static const char* NAMES[] = { "fill", "kill", "drop", "block", "unblock", "em", "con", "conx", "dis", "conq", "blkq", "blk", "discg", "discf", "disall", "num", "empty", "swap", "move", "comb", "churn", "scoped", "nest", "destroy" }; enum { NOPS = 24 };
struct Meas { int op, cls; Cost c; size_t n; int line; }; // n: slots known (LIN) or touched
struct World {
  std::unique_ptr<Sig> s, t; vector<bs::connection> cs; vector<boost::shared_ptr<int> > objs; vector<bs::shared_connection_block> bl; vector<int> grp; size_t known; int n; vector<Meas> out; boost::shared_ptr<int> common;
  explicit World(int scale) : s(new Sig()), t(new Sig()), known(0), n(scale), common(boost::make_shared<int>(1)) {}
  template<class F> void measure(int line, int op, int cls, size_t k, F f) { Cost a = Cost::now(); f(); Cost d = Cost::now() - a; Meas m = { op, cls, d, k, line }; out.push_back(m); }
  int group(int mode, int i) const { switch (mode % 5) { case 0: return 0; case 1: return 7; case 2: { int r = 1; while (r * r < n) ++r; return 1 + i % r; } case 3: return 1 + i; default: return n - i; } }
  bs::connection con(int id, int mode, int i, int pos, int trk, bool ext) {
    bs::connect_position p = pos % 3 == 0 ? bs::at_back : pos % 3 == 1 ? bs::at_front : i % 2 ? bs::at_front : bs::at_back; int g = group(mode, i); grp.push_back(g); ++known;
    auto track = [&](bs::slot_base&) {}; (void)track;
    if (ext) { XFn x = { Fn(id) }; Sig::extended_slot_type sl(x); tr(sl, trk); return g ? s->connect_extended(g, sl, p) : s->connect_extended(sl, p); }
    Fn f(id); Sig::slot_type sl(f); tr(sl, trk); return g ? s->connect(g, sl, p) : s->connect(sl, p); }
  template<class S> void tr(S& sl, int trk) { trk %= 4; if (trk == 1) sl.track(common); if (trk >= 2) for (int k = 1; k < trk; ++k) { objs.push_back(boost::make_shared<int>(1)); sl.track(objs.back()); } }
  size_t at(int a) const { return cs.empty() ? 0 : (cs.size() - 1) * size_t(a % 13) / 12; }
  void step(int line, const Op& o) {
    const int* a = o.a;
    switch (o.op) {
    case 0: for (int i = 0; i < n; ++i) cs.push_back(con(i, a[0], i, a[1], a[2], a[3] % 4 == 0)); break;
    case 1: { int p = 1 + a[0] % 5, r = a[1] % p; for (size_t i = 0; i < cs.size(); ++i) if (int(i % p) == r) cs[i].disconnect(); break; }
    case 2: { int p = 1 + a[0] % 4, r = a[1] % p; for (size_t i = 0; i < objs.size(); ++i) if (int(i % p) == r) objs[i].reset(); break; }
    case 3: { int p = 1 + a[0] % 4; for (size_t i = 0; i < cs.size(); ++i) if (i % p == 0) bl.push_back(bs::shared_connection_block(cs[i])); break; }
    case 4: bl.clear(); break;
    case 5: measure(line, 5, LIN, known, [&]() { (*s)(1); }); break;
    case 6: { int i = a[1] % 2 ? n / 2 : a[1] % 3 ? n + 1 : 0; cs.reserve(cs.size() + 1); grp.reserve(grp.size() + 1); objs.reserve(objs.size() + 3); measure(line, 6, CONST, 0, [&]() { cs.push_back(con(1000000, a[0], i, a[2], a[3] % 2, false)); }); break; }
    case 7: { int i = a[1] % 2 ? n / 2 : a[1] % 3 ? n + 1 : 0; cs.reserve(cs.size() + 1); grp.reserve(grp.size() + 1); objs.reserve(objs.size() + 3); measure(line, 7, CONST, 0, [&]() { cs.push_back(con(1000000, a[0], i, a[2], a[3] % 2, true)); }); break; }
    case 8: if (!cs.empty()) { size_t k = at(a[0]); measure(line, 8, CONST, 0, [&]() { cs[k].disconnect(); }); } break;
    case 9: if (!cs.empty()) { size_t k = at(a[0]); measure(line, 9, CONST, 0, [&]() { cs[k].connected(); }); } break;
    case 10: if (!cs.empty()) { size_t k = at(a[0]); measure(line, 10, CONST, 0, [&]() { cs[k].blocked(); }); } break;
    case 11: if (!cs.empty()) { size_t k = at(a[0]); measure(line, 11, CONST, 0, [&]() { bs::shared_connection_block b(cs[k]); b.unblock(); b.block(); }); } break;
    case 12: { int g = group(1 + a[0] % 4, at(a[1]) % size_t(n)); size_t k = 0; for (int x : grp) k += x == g; measure(line, 12, k > 12 ? LIN : CONST, k, [&]() { s->disconnect(g); }); break; }
    case 13: measure(line, 13, LIN, known, [&]() { Fn f(a[0] % 2 ? n / 2 : 1000000); s->disconnect(f); }); break;
    case 14: measure(line, 14, LIN, known, [&]() { s->disconnect_all_slots(); }); break;
    case 15: measure(line, 15, LIN, known, [&]() { s->num_slots(); }); break;
    case 16: measure(line, 16, LIN, known, [&]() { s->empty(); }); break;
    case 17: measure(line, 17, CONST, 0, [&]() { using std::swap; swap(*s, *t); swap(*s, *t); }); break;
    case 18: measure(line, 18, CONST, 0, [&]() { Sig x(std::move(*s)); *s = std::move(x); }); break;
    case 19: measure(line, 19, CONST, 0, [&]() { s->set_combiner(Comb(a[0] % 3 == 0 ? 3 : 0)); }); break;
    case 20: // repeated connect and disconnect: each pair as cheap as the first
      { size_t m = size_t(n); measure(line, 20, LIN, m, [&]() { for (size_t i = 0; i < m; ++i) { bs::connection c = con(2000000, a[0], a[1] % 2 ? int(i) : 0, a[2], 0, false); c.disconnect(); } }); known = known > m ? known : known; break; }
    case 21: if (!cs.empty()) { size_t k = at(a[0]); measure(line, 21, CONST, 0, [&]() { bs::scoped_connection c(cs[k]); bs::scoped_connection d(std::move(c)); if (a[1] % 2) d.release(); }); } break;
    case 22: // slots connected by a running slot: one copy of the list at most
      measure(line, 22, LIN, known + 2 * n, [&]() { int m = n, md = a[0]; World* w = this; bs::connection c = s->connect([w, m, md](int) -> int { static int depth; if (!depth) { ++depth; for (int i = 0; i < m; ++i) w->cs.push_back(w->con(i, md, i, 0, 0, false)); --depth; } return 1; }, bs::at_front); (*s)(1); c.disconnect(); }); break;
    case 23: measure(line, 23, LIN, known, [&]() { s.reset(); }); s.reset(new Sig()); known = 0; grp.clear(); break;
    } }
};
// what the operation costs on a plain list of 24 slots, in the most expensive of a few states
static Cost g_cal[NOPS];
static void mx(Cost& a, const Cost& b) { a.edges = std::max(a.edges, b.edges); a.allocs = std::max(a.allocs, b.allocs); a.locks = std::max(a.locks, b.locks); a.cmps = std::max(a.cmps, b.cmps); a.eqs = std::max(a.eqs, b.eqs); a.copies = std::max(a.copies, b.copies); }
static void calibrate() {
  static bool done; if (done) return; done = true; memset(g_cal, 0, sizeof g_cal);
  for (int mode = 0; mode < 4; ++mode) for (int dead = 0; dead < 4; ++dead) for (int op = 5; op < NOPS; ++op) {
    World w(24); Op f = { 0, { mode, 0, dead == 3 ? 3 : 1, dead == 3 ? mode : dead } }; w.step(0, f); if (dead == 1) { Op k = { 1, { 1, 0, 0, 0 } }; w.step(0, k); } if (dead == 2) { Op k = { 1, { 0, 0, 0, 0 } }; w.step(0, k); } if (dead == 3) { Op k = { 2, { 0, 0, 0, 0 } }; w.step(0, k); } Op o = { op, { op == 12 ? mode + 3 : mode, 1, 0, 0 } }; w.out.clear(); w.step(0, o); if (!w.out.empty()) mx(g_cal[op], w.out[0].c); }
}
static Lines generate(uint64_t seed, const string&) {
  Rng r(seed); Lines out; auto put = [&](int op) { char t[60]; snprintf(t, sizeof t, "%s %d %d %d %d", NAMES[op], r.below(13), r.below(13), r.below(13), r.below(13)); out.push_back(t); };
  static const int WT[] = { 3, 8, 5, 3, 2, 9, 9, 5, 7, 4, 4, 4, 8, 5, 2, 4, 4, 2, 2, 3, 6, 3, 4, 1 }; int wt[NOPS], tot = 0; for (int i = 0; i < NOPS; ++i) { wt[i] = r.chance(20) ? 0 : WT[i]; if (r.chance(10)) wt[i] *= 5; if (i == 0 && wt[i] > 6) wt[i] = 6; tot += wt[i]; }
  put(0); int n = r.range(2, 12), fills = 1; for (int i = 0; i < n; ++i) { int x = r.below(tot), op = 0; for (; op < NOPS - 1; ++op) { if (x < wt[op]) break; x -= wt[op]; } if (op == 0 && ++fills > 3) op = 5; put(op); }
  return out;
}
static Outcome run_case(const Lines& l) {
  calibrate(); static std::map<string, int> names; if (names.empty()) for (int i = 0; i < NOPS; ++i) names[NAMES[i]] = i; Outcome o; vector<Op> p;
  for (auto& t : l) { char nm[16]; Op q = { 0, { 0, 0, 0, 0 } }; if (sscanf(t.c_str(), "%15s %d %d %d %d", nm, q.a, q.a + 1, q.a + 2, q.a + 3) < 1 || !names.count(nm)) continue; q.op = names[nm]; for (int& x : q.a) if (x < 0) x = 0; p.push_back(q); }
  static const int SC[] = { 24, 96, 384 }; vector<Meas> m[3]; uint64_t h = 7;
  for (int k = 0; k < 3; ++k) { World w(SC[k]); for (size_t i = 0; i < p.size(); ++i) w.step(int(i), p[i]); m[k].swap(w.out); if (m[k].size() != m[0].size()) { o.ok = false; o.msg = "model: different measurements"; return o; } }
  static long worst[NOPS][2];
  for (size_t i = 0; i < m[0].size() && o.ok; ++i) for (int k = 1; k < 3 && o.ok; ++k) {
    const Meas& b = m[k][i]; const Cost& c = b.c; Cost base = g_cal[b.op]; if (b.cls == CONST) { mx(base, m[0][i].c); if (k == 2) mx(base, m[1][i].cls == CONST ? m[1][i].c : base); }
    double f = b.cls == CONST ? 1 : std::max(1.0, double(b.n) / 24); struct { const char* what; uint64_t v, base; double mul, add; } q[] = { { "control-flow edges", c.edges, base.edges, b.cls == CONST ? 2.0 : 5.0, b.cls == CONST ? 500.0 : 3000.0 }, { "allocations", c.allocs, base.allocs, 2, b.cls == CONST ? 8.0 : 60.0 }, { "mutex operations", c.locks, base.locks, 2, b.cls == CONST ? 8.0 : 60.0 },
      { "group comparisons", c.cmps, base.cmps, b.cls == CONST ? 2.0 : 10.0, b.cls == CONST ? 80.0 : 400.0 }, { "function comparisons", c.eqs, base.eqs, 2, 20 }, { "function copies", c.copies, base.copies, 2, 20 } };
    for (auto& x : q) { double lim = x.base * f * x.mul + x.add; if (double(x.v) > lim) { o.ok = false; char t[300]; snprintf(t, sizeof t, "%s (line %d) of a signal with %d slots per fill costs %llu %s, %s allows about %.0f (it costs %llu on 24 slots)", NAMES[b.op], b.line + 1, SC[k], (unsigned long long)x.v, x.what, b.cls == CONST ? "constant or logarithmic cost" : "linear cost", lim, (unsigned long long)x.base); o.msg = t; break; } }
    if (k == 2) { long pc = long(100.0 * c.edges / (base.edges * f * q[0].mul + q[0].add)); if (pc > worst[b.op][b.cls]) worst[b.op][b.cls] = pc; h = (h ^ (b.op * 31 + c.locks)) * 1099511628211ull; o.counters[string("measured_") + NAMES[b.op]]++; }
  }
  if (getenv("COST_WORST")) { static int calls; if (++calls % 200 == 0) { for (int i = 0; i < NOPS; ++i) fprintf(stderr, "%s=%ld/%ld ", NAMES[i], worst[i][0], worst[i][1]); fprintf(stderr, "\n"); } }
  o.hash = h; o.nontrivial = m[0].size() >= 2 && p.size() >= 3; return o;
}
int main(int argc, char** argv) { vc::Harness h; h.gen = generate; h.run = run_case; return vc::main_loop(argc, argv, h); }
