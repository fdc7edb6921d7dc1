// C14, C12: destructors of slot functions, tracked objects and combiners that use the signals and connections themselves, run wherever the library runs them.
#include "core.hpp"
#include <boost/signals2.hpp>
#include <boost/make_shared.hpp>
#include <memory>
#include <list>
vc::Progress* vc::g_progress;
using vc::Rng; using vc::Lines; using vc::Outcome; using std::string; using std::vector;
namespace bs = boost::signals2;
static string g_err; static void err(const string& m) { if (g_err.empty()) g_err = m; }
// the signals' mutex: not recursive, checks its own use
struct Mx { bool held; static int nheld, live; Mx() : held(false) { ++live; } ~Mx() { if (held) die("a locked mutex was destroyed"); --live; } Mx(const Mx&) = delete; static void die(const char* m) { printf("FAIL %s\n", m); fflush(stdout); _exit(3); }
  void lock() { if (held) die("lock() of a mutex this thread already holds"); if (nheld) die("lock() of a second mutex while one is held"); held = true; ++nheld; } bool try_lock() { if (held) return false; lock(); return true; } void unlock() { if (!held) die("unlock() of a mutex that is not held"); held = false; --nheld; } };
int Mx::nheld, Mx::live;
static void user(const char* what) { if (Mx::nheld) { static char b[100]; snprintf(b, sizeof b, "%s runs with a mutex held", what); Mx::die(b); } }
enum { NS = 2, NO = 4, NH = 6, NSC = 10, NB = 4, MAXU = 4000 };
struct Op { int op; int a[4]; };
struct World; static World* W; static signed char g_state[MAXU]; // 0 never, 1 alive, 2 dead
static const char* const KINDS[] = { "the destructor of a slot function", "the destructor of a combiner", "the destructor of a tracked object" }; enum { FUNCTION, COMBINER, TRACKED };
struct P { int uid, script, kind; P(int u, int s, int k) : uid(u), script(s), kind(k) { g_state[u] = 1; } P(const P&) = delete; ~P(); };
typedef boost::shared_ptr<P> PP;
struct Fn { PP p; int eq; int slotscript; Fn(PP q, int e, int s) : p(q), eq(e), slotscript(s) {} int operator()(int) const; bool operator==(const Fn& o) const { return eq == o.eq; } };
struct XFn { Fn f; int operator()(const bs::connection& c, int x) const;  bool operator==(const XFn& o) const { return f == o.f; } };
struct Comb { PP p; typedef int result_type; explicit Comb(PP q = PP()) : p(q) {} static void act(int script); static void end(bool stopped);
  template<class It> int operator()(It f, It l) const { user("a combiner"); int n = 0, mode = p ? p->script % 5 : 0, k = 0; bool stop = false; for (; f != l; ++f) { if (mode == 2 && k % 2) act(p->script + 1); n += *f; if (mode == 3) act(p->script + 2); if (mode == 4 && ++k == 2) { stop = true; break; } ++k; } if (mode == 1 || mode == 4) act(p->script + 1); end(stop); if (p && g_state[p->uid] != 1) err("a combiner was destroyed while it was used"); user("a combiner"); return n; } };
typedef bs::signal<int(int), Comb, int, std::less<int>, boost::function<int(int)>, boost::function<int(const bs::connection&, int)>, Mx> Sig;
struct MSig; struct MC { int uid, eq, grp, trk, ord; bool on, ext; std::map<long, long> offat; // when it was disconnected or blocked, in the invocations that were between two slots then
  int maybe, blocks; bool expired; bs::connection h; MSig* s; }; typedef std::shared_ptr<MC> CP;
struct MSig { vector<CP> l; int busy; MSig() : busy(0) {} };
struct Fr { vector<CP> v; size_t pos; long id, clock; bool idle, stopped; }; // idle: none of its slots is running
struct World {
  std::unique_ptr<Sig> sg[NS]; std::unique_ptr<MSig> ms[NS]; vector<CP> all; PP ob[NO]; int obuid[NO]; CP h[NH]; std::unique_ptr<bs::scoped_connection> sc[2]; CP mscc[2]; std::unique_ptr<bs::shared_connection_block> blk[NB]; CP mblk[NB]; bool blkon[NB];
  vector<Fr> fr; vector<Op> script[NSC]; bool away[NS]; int budget, depth, next; long frames, runs; /* scripts started */ std::map<string, long> cnt; uint64_t hash; bool down;
  World() : budget(400), depth(0), next(1), frames(0), runs(0), hash(7), down(false) { memset(obuid, 0, sizeof obuid); memset(blkon, 0, sizeof blkon); memset(away, 0, sizeof away); for (int i = 0; i < NS; ++i) { sg[i].reset(new Sig()); ms[i].reset(new MSig()); } }
  std::map<long, long> stamp() { std::map<long, long> m; for (auto& f : fr) if (f.idle) m[f.id] = f.clock; return m; } // destructors run between two slots, when the next one may have been chosen
  void mix(uint64_t x) { hash = (hash ^ x) * 1099511628211ull; }
  // a slot's tracked objects: gone when the object's destructor starts
  void expire(int uid) { for (auto& c : all) if (c->trk == uid) { c->on = false; c->expired = true; } }
  void run(int s, const char* why) { if (down || depth >= 4 || !g_err.empty()) return; ++depth; ++runs; cnt[why]++; vector<Op> ops = script[s % NSC]; for (auto& o : ops) { if (--budget < 0 || !g_err.empty()) break; step(o); } --depth; }
  struct Busy { MSig* m; explicit Busy(MSig* x) : m(x) { ++m->busy; } ~Busy() { --m->busy; } };
  template<class Pr, class F> void disc(MSig* only, Pr match, F f) { vector<CP> t; for (auto& c : all) if (c->on && (!only || c->s == only) && match(*c)) { ++c->maybe; t.push_back(c); } f(); for (auto& c : t) { --c->maybe; c->on = false; c->offat = stamp(); } }
  // the library calls or skips a slot while its disconnection is under way
  static bool late(const Fr& f, const MC& c) { auto i = c.offat.find(f.id); return i != c.offat.end() && i->second == f.clock; }
  bool must(const Fr& f, const MC& c) { return c.on && !c.maybe && !c.blocks && !late(f, c); }
  void hit(int uid) { if (fr.empty()) { err("a slot ran outside an invocation"); return; } Fr& f = fr.back(); while (f.pos < f.v.size() && f.v[f.pos]->uid != uid) { if (must(f, *f.v[f.pos])) { err("slot " + std::to_string(f.v[f.pos]->uid) + " was passed over, slot " + std::to_string(uid) + " called"); return; } ++f.pos; }
    if (f.pos == f.v.size()) { err("slot " + std::to_string(uid) + " is called but not due"); return; } CP c = f.v[f.pos++]; bool late = World::late(f, *c); if (late && (c->blocks || !c->on)) ++cnt["late"]; if (c->blocks && !late) err("a blocked slot is called"); if (!c->on && !c->expired && !late) err("a disconnected slot is called"); if (!c->on && c->expired) err("a slot is called after its tracked object's destruction began"); ++f.clock; f.idle = false; mix(uid); ++cnt["calls"]; }
  void asked(int uid, const bs::connection& k) { for (auto& c : all) if (c->uid == uid) { bool on = c->on && !c->maybe, r = k.connected(); if (on && !r && c->on && !c->maybe) err("an extended slot got a connection that is not connected"); if (k != c->h && !c->maybe) err("an extended slot got a foreign connection"); } }
  void emit(int i) { MSig* m = ms[i].get(); if (fr.size() >= 3) return; Busy b(m); Fr f; f.v = m->l; f.pos = 0; f.id = ++frames; f.clock = 0; f.idle = true; f.stopped = false; fr.push_back(f); (*sg[i])(1); Fr& e = fr.back(); for (; e.pos < e.v.size() && !e.stopped; ++e.pos) if (must(e, *e.v[e.pos])) err("slot " + std::to_string(e.v[e.pos]->uid) + " was not called"); fr.pop_back(); ++cnt["emits"]; }
  void count(int i) { size_t lo = 0, hi = 0; long r0 = runs; for (auto& c : ms[i]->l) { lo += c->on && !c->maybe; hi += c->on; } Busy b(ms[i].get()); size_t n = sg[i]->num_slots(); if (runs == r0 && (n < lo || n > hi)) err("num_slots() is wrong"); r0 = runs; lo = hi = 0; for (auto& c : ms[i]->l) { lo += c->on && !c->maybe; hi += c->on; } bool e = sg[i]->empty(); if (runs == r0 && ((e && lo) || (!e && !hi))) err("empty() is wrong"); }
  void ask(const CP& c) { bool on = c->on, mb = c->maybe != 0; bool r = c->h.connected(); if (!mb && !c->maybe && on == c->on && r != on) err(string("connected() is wrong for slot ") + std::to_string(c->uid)); }
  void connect(const int* a, int i) {
    if (next >= MAXU - 2 || ms[i]->l.size() > 24) return; int u = next++; CP c(new MC()); c->uid = u; c->eq = a[2] % 4; c->grp = a[1] % 4; c->trk = 0; c->maybe = c->blocks = 0; c->on = true; c->expired = false; MSig* m = ms[i].get(); c->s = m; int pos = a[3] % 2; bs::connect_position p = pos ? bs::at_front : bs::at_back;
    PP ob1; int oi = a[3] % (2 * NO); if (oi < NO && ob[oi]) { ob1 = ob[oi]; c->trk = ob1->uid; }
    Busy b(m); PP q(new P(u, a[2], FUNCTION)); c->ord = c->grp ? c->grp : pos ? 0 : 100; auto lt = [](const CP& x, const CP& y) { return x->ord < y->ord; }; 
    auto it = pos ? std::lower_bound(m->l.begin(), m->l.end(), c, lt) : std::upper_bound(m->l.begin(), m->l.end(), c, lt); m->l.insert(it, c); all.push_back(c); bool x = a[0] / 2 % 3 == 0; c->ext = x; c->maybe = 1; // not yet visible to code run by connect itself
    { Fn f(q, c->eq, a[1] + a[3]); q.reset(); boost::weak_ptr<P> w(ob1); ob1.reset(); bs::connection r; if (x) { XFn xf = { f }; Sig::extended_slot_type s(xf); if (c->trk) s.track(w); r = c->grp ? sg[i]->connect_extended(c->grp, s, p) : sg[i]->connect_extended(s, p); } else { Sig::slot_type s(f); if (c->trk) s.track(w); r = c->grp ? sg[i]->connect(c->grp, s, p) : sg[i]->connect(s, p); } c->h = r; }
    c->maybe = 0; h[a[1] % NH] = c; ++cnt["connects"]; }
  void step(const Op& o) {
    const int* a = o.a; int i = a[0] % NS; MSig* m = ms[i].get(); mix(o.op * 8 + depth);
    if (away[i] && (o.op == 0 || (o.op >= 2 && o.op <= 6) || o.op == 8 || o.op == 11)) return; // in the middle of an assignment to it, a signal cannot be used
    switch (o.op) {
    case 0: connect(a, i); break;
    case 1: { CP c = h[a[1] % NH]; if (c) disc(0, [&](MC& x) { return &x == c.get(); }, [&]() { bs::connection k(c->h); k.disconnect(); }); break; }
    case 2: { Busy b(m); int g = 1 + a[1] % 3; disc(m, [&](MC& x) { return x.grp == g; }, [&]() { sg[i]->disconnect(g); }); break; }
    case 3: { Busy b(m); int e = a[2] % 4; bool x = a[3] % 2; Fn f(PP(), e, 0); XFn xf = { f }; disc(m, [&](MC& y) { return y.eq == e && y.ext == x; }, [&]() { if (x) sg[i]->disconnect(xf); else sg[i]->disconnect(f); }); break; }
    case 4: { Busy b(m); disc(m, [&](MC&) { return true; }, [&]() { sg[i]->disconnect_all_slots(); }); break; }
    case 5: emit(i); break;
    case 6: count(i); break;
    case 7: { CP c = h[a[1] % NH]; if (c) ask(c); break; }
    case 8: { if (next >= MAXU - 2) break; Busy b(m); sg[i]->set_combiner(Comb(PP(new P(next++, a[2], COMBINER)))); ++cnt["set_combiner"]; break; }
    case 9: { int k = a[1] % NO; if (!ob[k]) { if (next < MAXU - 2) { ob[k].reset(new P(next++, a[2], TRACKED)); } } else { PP t; t.swap(ob[k]); t.reset(); ++cnt["drops"]; } break; }
    case 10: { int k = a[1] % NB; if (mblk[k] && blkon[k]) { --mblk[k]->blocks; mblk[k]->offat = stamp(); } blkon[k] = false; mblk[k].reset(); blk[k].reset(); CP c = h[a[2] % NH]; if (c && c->on && a[3] % 3) { ++c->maybe; std::unique_ptr<bs::shared_connection_block> t(new bs::shared_connection_block(c->h)); if (!mblk[k]) { blk[k] = std::move(t); mblk[k] = c; blkon[k] = true; ++c->blocks; c->offat = stamp(); } t.reset(); --c->maybe; ++cnt["blocks"]; } break; }
    case 11: if (!m->busy && !down) { std::unique_ptr<MSig> n(new MSig()); std::unique_ptr<MSig> old = std::move(ms[i]); ms[i] = std::move(n); std::unique_ptr<Sig> os = std::move(sg[i]); sg[i].reset(new Sig()); ++old->busy; disc(old.get(), [&](MC&) { return true; }, [&]() { os.reset(); }); graves.push_back(std::move(old)); ++cnt["signals_destroyed"]; } break;
    case 12: if (!ms[0]->busy && !ms[1]->busy) { using std::swap; swap(ms[0], ms[1]); swap(*sg[0], *sg[1]); } break;
    case 13: if (!ms[0]->busy && !ms[1]->busy) { // move assignment drops the target's slots
        std::unique_ptr<MSig> t = std::move(ms[i]); ms[i] = std::move(ms[1 - i]); ms[1 - i].reset(new MSig()); ++t->busy; ++ms[i]->busy; ++ms[1 - i]->busy; away[i] = true; disc(t.get(), [&](MC&) { return true; }, [&]() { Sig n; Sig x(std::move(*sg[1 - i])); swap(*sg[1 - i], n); *sg[i] = std::move(x); }); away[i] = false; --ms[i]->busy; --ms[1 - i]->busy; graves.push_back(std::move(t)); ++cnt["move_assigns"]; } break;
    case 14: { int k = a[1] % 2; CP old = mscc[k]; CP c = h[a[2] % NH]; mscc[k] = CP(); std::unique_ptr<bs::scoped_connection> t = std::move(sc[k]); disc(0, [&](MC& x) { return &x == old.get(); }, [&]() { t.reset(); }); if (c && a[3] % 2 && !sc[k]) { sc[k].reset(new bs::scoped_connection(c->h)); mscc[k] = c; } break; }
    } }
  vector<std::unique_ptr<MSig> > graves;
  void check() { // nothing is running: everything must be exact
    for (int i = 0; i < NS; ++i) for (size_t k = 0; k < ms[i]->l.size(); ++k) if (ms[i]->l[k]->maybe) err("model");
    bool again = true; for (int round = 0; again && round < 200 && g_err.empty(); ++round) { again = false; uint64_t before = hash; int n0 = next; for (size_t k = 0; k < all.size() && g_err.empty(); ++k) { CP c = all[k]; bool r = c->h.connected(); if (r != c->on) { err("slot " + std::to_string(c->uid) + (r ? " is still connected" : " is disconnected")); } }
      if (hash != before || n0 != next) { again = true; } }
    for (auto& c : all) if (!c->on && g_state[c->uid] != 2) err("the function of slot " + std::to_string(c->uid) + " is alive after its disconnection"); else if (c->on && g_state[c->uid] != 1) err("the function of connected slot " + std::to_string(c->uid) + " was destroyed");
    for (int i = 0; i < NS; ++i) { size_t n = 0; for (auto& c : ms[i]->l) n += c->on; if (sg[i]->num_slots() != n || sg[i]->empty() != (n == 0)) err("num_slots() or empty() is wrong"); vector<CP> k; for (auto& c : ms[i]->l) if (c->on) k.push_back(c); ms[i]->l = k; }
    if (Mx::nheld) err("a mutex was left locked"); }
};
P::~P() { if (g_state[uid] != 1) Mx::die("destroyed twice"); user(KINDS[kind]); if (kind == TRACKED && W) W->expire(uid); g_state[uid] = 2; if (W) { W->run(script, KINDS[kind]); } user(KINDS[kind]); }
int Fn::operator()(int) const { user("a slot"); int u = p->uid; PP q; W->hit(u); { size_t d = W->fr.size(); W->run(slotscript, "slots"); if (W->fr.size() != d) err("model: frames"); else { if (d) { ++W->fr.back().clock; W->fr.back().idle = true; } } } user("a slot"); if (g_state[u] != 1 || p->uid != u) err("a slot function was destroyed while it was running"); return 1; }
int XFn::operator()(const bs::connection& c, int x) const { int u = f.p->uid; W->asked(u, c); return f(x); }
void Comb::act(int script) { W->run(script, "combiners"); }
void Comb::end(bool stopped) { Fr& f = W->fr.back(); f.stopped = stopped; if (stopped || W->fr.size() != 1) return; // the range was walked to its end: no slot function is in use
  for (auto& c : f.v) if (!c->on && !c->maybe && !c->expired && g_state[c->uid] != 2) err("the function of slot " + std::to_string(c->uid) + ", disconnected, is alive when the combiner has reached the end"); }
static const char* NAMES[] = { "con", "dis", "disg", "disf", "disall", "em", "num", "q", "comb", "ob", "blk", "kill", "swap", "mova", "scoped", "scr" }; enum { NOPS = 16 };
static Lines generate(uint64_t seed, const string&) {
  Rng r(seed); Lines out; static const int WT[] = { 40, 12, 6, 6, 2, 14, 4, 4, 3, 8, 5, 2, 2, 2, 4, 0 }; int wt[NOPS], tot = 0; for (int i = 0; i < NOPS; ++i) { wt[i] = WT[i]; if (i > 0 && i != 5 && r.chance(15)) wt[i] = 0; if (r.chance(8)) wt[i] *= 4; tot += wt[i]; }
  auto put = [&](int op, int a, int b, int c, int d, int e) { char t[80]; if (op == 15) snprintf(t, sizeof t, "scr %d %s %d %d %d %d", a, NAMES[b % 15], c, d, e, r.below(12)); else snprintf(t, sizeof t, "%s %d %d %d %d", NAMES[op], a, b, c, d); out.push_back(t); }; auto pick = [&]() { int x = r.below(tot), op = 0; for (; op < NOPS - 1; ++op) { if (x < wt[op]) break; x -= wt[op]; } return op; };
  int ns = r.range(1, 14), nsc = r.range(1, NSC); for (int i = 0; i < ns; ++i) put(15, r.below(nsc), pick(), r.below(12), r.below(12), r.below(12));
  int n = r.range(6, 40); for (int i = 0; i < n; ++i) put(i < 4 ? 0 : pick(), r.below(12), r.below(12), r.below(12), r.below(12), 0);
  return out;
}
static Outcome run_case(const Lines& l) {
  static std::map<string, int> names; if (names.empty()) for (int i = 0; i < NOPS; ++i) names[NAMES[i]] = i; Outcome o; g_err.clear(); memset(g_state, 0, sizeof g_state); Mx::nheld = 0; int live0 = Mx::live;
  { World w; W = &w; vector<Op> p;
    for (auto& t : l) { char nm[16], n2[16]; Op q = { 0, { 0, 0, 0, 0 } }; int s = 0; if (t.compare(0, 4, "scr ") == 0) { if (sscanf(t.c_str(), "scr %d %15s %d %d %d %d", &s, n2, q.a, q.a + 1, q.a + 2, q.a + 3) < 2 || !names.count(n2)) continue; q.op = names[n2]; for (int& x : q.a) if (x < 0) x = 0; if (q.op < 15) w.script[(s < 0 ? 0 : s) % NSC].push_back(q); continue; } if (sscanf(t.c_str(), "%15s %d %d %d %d", nm, q.a, q.a + 1, q.a + 2, q.a + 3) < 1 || !names.count(nm)) continue; q.op = names[nm]; for (int& x : q.a) if (x < 0) x = 0; p.push_back(q); }
    for (auto& q : p) { if (!g_err.empty()) break; w.budget = 60; w.step(q); if (g_err.empty()) { w.check(); if (!g_err.empty()) g_err += string(" (after: ") + NAMES[q.op] + ")"; } }
    w.down = true; for (auto& b : w.blk) b.reset(); for (auto& s : w.sc) s.reset(); for (auto& s : w.sg) s.reset(); for (auto& x : w.ob) x.reset(); 
    for (int u = 0; u < MAXU && g_err.empty(); ++u) if (g_state[u] == 1) err("something was left alive when all signals are gone: " + std::to_string(u));
    o.counters = w.cnt; o.hash = w.hash; W = 0; }
  if (Mx::live != live0 && g_err.empty()) err("a mutex outlived all signals and connections"); Mx::live = live0;
  long d = 0; for (auto& c : o.counters) if (c.first.compare(0, 5, "the d") == 0) d += c.second; o.ok = g_err.empty(); o.msg = g_err; o.nontrivial = d > 0 && o.counters["connects"] > 2; return o;
}
int main(int argc, char** argv) { vc::Harness h; h.gen = generate; h.run = run_case; return vc::main_loop(argc, argv, h); }
