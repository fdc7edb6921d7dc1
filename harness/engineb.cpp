// Engine B: generated multi-threaded programs on signals and connections under the controlled scheduler (ctl.h).
// -DEB_MX=0: signals with a Mutex type of the harness; 1: signals2::mutex, its pthread calls wrapped by the linker.
#include "core.hpp"
#include "ctl.h"
#include <boost/signals2.hpp>
#include <boost/make_shared.hpp>
#include <memory>
#include <new>
#include <atomic>
#ifndef EB_MX
#define EB_MX 0
#endif
vc::Progress* vc::g_progress;
namespace bs = boost::signals2;
using vc::Rng; using vc::Outcome; using vc::Lines;
static const long INF = 1L << 60;
enum { NK = 10, NT = 3, NO = 4, NSUP = 4 };

struct Loud { Loud() { sched_quiet(-1); } ~Loud() { sched_quiet(1); } };
[[noreturn]] static void bad(const std::string& m) { static char b[512]; snprintf(b, sizeof b, "%s", m.c_str()); sched_fail(b); }
#define S(x) std::to_string(x)
static void check_unlocked(const char* what) { if (sched_held()) bad(std::string("lock held: ") + what + " runs while its thread holds a mutex of the library"); }

// ---- the program
enum Code { CONN, DISC, DGRP, DFN, DALL, CALL, QC, QB, QN, QE, BLK, UBLK, COMB, QCOMB, DROP, DSIG, RELAY, DRELAY, DSELF, CHURN, THROW, NCODE };
static const char* const NAMES[] = {"conn", "disc", "dgrp", "dfn", "dall", "call", "qc", "qb", "qn", "qe", "blk", "ublk", "comb", "qcomb", "drop", "dsig", "relay", "drelay", "dself", "churn", "throw"};
struct Op { int code; int a[6]; };
struct Case { int nt, own, sweep_gran, sweep_stride, sweep2, sweep_start, gran; bool sweep; std::vector<Op> setup, body[NT], fin; std::vector<Op> act[NK]; std::vector<SchedDec> dec; };

// ---- records
struct OpRec { int code, a, b, c; long t0, t1, res; };
struct CallRec { int k; long t0, t1; bool threw; };
struct Stop {}; // thrown by a combiner
struct CombRec { int sig, inv, id, th; long L, m0, m1; bool direct, early; int nexc; std::vector<CallRec> calls; std::vector<int> vals; };
struct ConnRec { int sig, grp, pos, trk, ext, eq; long c0, c1; bool relay; };
struct BlkRec { int k; long b0, b1, u0, u1; };
struct ThreadLog { std::vector<OpRec> ops; std::vector<CombRec> combs; std::vector<int> stack; std::vector<BlkRec> blks; long lastT; long direct_L[2]; int direct_inv[2]; int depth; int pending[2]; };

struct World; static World* W;
struct Obj; struct F;

struct CtlMutex {
  SchedMutex m; static int live;
  CtlMutex() { sched_m_init(&m); nt_add(&live, 1); }
  ~CtlMutex() { sched_m_destroy(&m); nt_add(&live, -1); }
  CtlMutex(const CtlMutex&) = delete; CtlMutex& operator=(const CtlMutex&) = delete;
  void lock() { sched_m_lock(&m); } bool try_lock() { return sched_m_trylock(&m); } void unlock() { sched_m_unlock(&m); }
};
int CtlMutex::live;
#if EB_MX == 0
typedef CtlMutex MX;
#else
typedef bs::mutex MX;
#endif
struct Res { int id, n; int v[24]; operator int() const { return 777; } };
struct Comb { int sig, id, canary; typedef Res result_type; Comb(int s = 0, int i = 0) : sig(s), id(i), canary(0x1234) {} Comb(const Comb& o) : sig(o.sig), id(o.id), canary(o.canary) {} ~Comb() { SchedQuiet q; check_unlocked("the destructor of a combiner"); if (canary != 0x1234) bad("a combiner is destroyed twice"); canary = 0; }
  template<class It> Res operator()(It b, It e) const; };
typedef bs::signal<int(int), Comb, int, std::less<int>, boost::function<int(int)>, boost::function<int(const bs::connection&, int)>, MX> Sig;

struct World {
  const Case* c; Sig* s[2]; bool s1_alive; bs::connection h[NK]; std::atomic<int> pub[NK]; int tried[NK];
  boost::shared_ptr<Obj> own_b[NO]; std::shared_ptr<Obj> own_s[NO]; boost::weak_ptr<Obj> wb[NT + 1][NO]; std::weak_ptr<Obj> ws[NT + 1][NO]; Obj* raw[NO];
  bs::shared_connection_block* blk[NT + 1][2]; int blkrec[NT + 1][2];
  ThreadLog log[NT + 1]; ConnRec cr[NK]; int live[NK]; int ncalls[NK]; int runs[NK]; int script_runs[NK]; long od[NO]; int odn[NO]; int ouse[NO]; int ocr[NO]; int invs; int relay; int conns_made; long phase_end;
  int live_churn;
};
static int tid() { int s = sched_self(); return s < 0 ? NT : s; }
static ThreadLog& lg() { return W->log[tid()]; }

struct Obj { int k; int data; int canary; explicit Obj(int k_) : k(k_), data(7), canary(0x0B1) { }
  ~Obj() { SchedQuiet q; check_unlocked("the destructor of a tracked object"); if (canary != 0x0B1) bad("tracked object " + S(k) + " destroyed twice"); canary = 0; data = -1; if (nt_get(&W->ouse[k])) bad("tracked object " + S(k) + " destroyed while a slot tracking it is running"); nt_add(&W->odn[k], 1); W->od[k] = sched_now(); } };

static void exec(const Op& op, const bs::connection* self);
struct F { // the slot function
  int idx, eq, trk, data, canary; mutable int running;
  explicit F(int i, int e, int t) : idx(i), eq(e), trk(t), data(5), canary(0xF00D), running(0) { cnt(1); }
  F(const F& o) : idx(o.idx), eq(o.eq), trk(o.trk), data(o.data), canary(o.canary), running(0) { SchedQuiet q; if (o.canary != 0xF00D) bad("a dead slot function was copied"); cnt(1); }
  ~F() { SchedQuiet q; check_unlocked("the destructor of a slot function"); if (canary != 0xF00D) bad("slot function " + S(idx) + " destroyed twice"); if (nt_get(&running)) bad("slot function " + S(idx) + " destroyed while it is running"); canary = 0; data = 0; cnt(-1); }
  void cnt(int d) { nt_add(idx >= 0 ? &W->live[idx] : &W->live_churn, d); }
  // the function may refer to what its slot tracks, so that must be alive while it is compared
  bool operator==(const F& o) const { SchedQuiet q; if (canary != 0xF00D || o.canary != 0xF00D) bad("a dead slot function is compared"); int tr = trk | o.trk;
    for (int k = 0; k < NO; ++k) if (tr >> k & 1) { if (nt_get(&W->odn[k])) bad("slot " + S(idx) + " compared by disconnect after its tracked object " + S(k) + " was destroyed"); nt_add(&W->ouse[k], 1); } nt_add(&running, 1);
    sched_mark(); if (canary != 0xF00D) bad("a slot function was destroyed while it was compared"); nt_add(&running, -1); for (int k = 0; k < NO; ++k) if (tr >> k & 1) { if (W->raw[k]->data != 7) bad("tracked object damaged"); nt_add(&W->ouse[k], -1); } return eq == o.eq; }
  int run(int inv, const bs::connection* self) const {
    SchedQuiet q; check_unlocked("a slot"); if (idx < 0) return -1;
    ThreadLog& l = lg(); if (l.stack.empty()) bad("slot " + S(idx) + " called outside an invocation"); if (canary != 0xF00D || data != 5) bad("slot " + S(idx) + " called after its function was destroyed");
    CombRec* c = &l.combs[l.stack.back()]; if (c->inv == -1) c->inv = inv; if (c->inv != inv) bad("slot " + S(idx) + " received another invocation's argument"); if (c->sig != W->cr[idx].sig) bad("slot called by a signal it is not connected to");
    for (auto& x : c->calls) if (x.k == idx) bad("slot " + S(idx) + " called twice by one invocation");
    for (int k = 0; k < NO; ++k) if (trk >> k & 1) { if (nt_get(&W->odn[k])) bad("slot " + S(idx) + " called after its tracked object " + S(k) + " was destroyed"); nt_add(&W->ouse[k], 1); if (W->raw[k]->data != 7) bad("tracked object damaged"); }
    nt_add(&running, 1); nt_add(&W->ncalls[idx], 1); size_t ci = l.stack.back(), ri = c->calls.size(); c->calls.push_back(CallRec{idx, sched_now(), -1, false}); bool thr = false;
    if (self) { if (!W->pub[idx].load(std::memory_order_acquire)) {} else if (!(*self == W->h[idx])) bad("extended slot " + S(idx) + " received a connection that is not its own");
      OpRec q; q.code = QC; q.a = idx; q.b = q.c = 0; q.t0 = sched_now(); { Loud d; q.res = self->connected(); } q.t1 = sched_now(); l.ops.push_back(q); }
    sched_mark();
    if (l.depth < 2 && nt_add(&W->script_runs[idx], 1) <= 3) { ++l.depth; for (auto& op : W->c->act[idx]) { if (op.code == THROW) thr = true; else exec(op, self); } --l.depth; }
    sched_mark();
    for (int k = 0; k < NO; ++k) if (trk >> k & 1) { if (nt_get(&W->odn[k]) || W->raw[k]->data != 7) bad("tracked object " + S(k) + " destroyed while a slot tracking it is running"); nt_add(&W->ouse[k], -1); }
    if (canary != 0xF00D || data != 5) bad("slot function " + S(idx) + " destroyed while it is running");
    nt_add(&running, -1); CombRec& c2 = l.combs[ci]; c2.calls[ri].t1 = l.lastT = sched_now(); if (thr) { c2.calls[ri].threw = true; throw int(idx); } return idx;
  }
  int operator()(int inv) const { return run(inv, 0); }
  int operator()(const bs::connection& c, int inv) const { return run(inv, &c); }
};
static bool oc_relay_stop(ThreadLog& l, int ci) { l.combs[ci].calls.back().threw = true; return true; } // the relayed signal's combiner threw
template<class It> Res Comb::operator()(It b, It e) const {
  SchedQuiet q; check_unlocked("a combiner"); if (canary != 0x1234) bad("a destroyed combiner is used");
  ThreadLog& l = lg(); CombRec r; r.sig = sig; r.id = id; r.th = tid(); r.nexc = 0; r.early = false; r.m1 = -1; int ci = int(l.combs.size());
  if (l.pending[sig] > 0) { l.pending[sig] = 0; r.direct = true; r.L = l.direct_L[sig]; r.inv = l.direct_inv[sig]; }
  else { if (l.stack.empty() || sig != 1) bad("a combiner runs without an invocation"); r.direct = false; r.L = l.lastT; CombRec& o = l.combs[l.stack.back()]; r.inv = o.inv; if (W->relay >= 0) { for (auto& x : o.calls) if (x.k == W->relay) bad("the relayed signal was called twice by one invocation"); o.calls.push_back(CallRec{W->relay, 0, 0, false}); } else bad("a combiner runs without an invocation"); }
  int oc = r.direct ? -1 : l.stack.back(); size_t ocr = r.direct ? 0 : l.combs[oc].calls.size() - 1;
  r.m0 = l.lastT = sched_now(); if (oc >= 0) l.combs[oc].calls[ocr].t0 = r.m0; l.combs.push_back(r); l.stack.push_back(ci);
  std::vector<int> v; int nexc = 0; int guard = 0, limit = id < 4 ? 99 : id < 6 ? id - 3 : id - 5; bool early = false;
  for (;;) {
    bool end; { Loud d; end = b == e; } if (end) break; if (guard >= limit) { early = true; break; }
    if (++guard > 60) bad("an invocation does not end");
    try { int x; { Loud d; x = *b; } if (x != -1) v.push_back(x); } catch (const bs::expired_slot&) { ++nexc; } catch (int) { ++nexc; } catch (Stop&) { ++nexc; if (oc_relay_stop(l, ci)) {} }
    { Loud d; ++b; }
  }
  sched_mark(); if (canary != 0x1234) bad("a combiner was destroyed while it is running");
  CombRec& m = l.combs[ci]; m.vals = v; m.nexc = nexc; m.early = early; m.m1 = l.lastT = sched_now(); l.stack.pop_back(); if (oc >= 0) l.combs[oc].calls[ocr].t1 = m.m1;
  if (early && id >= 6) throw Stop(); Res out; out.id = id; out.n = int(v.size()); for (size_t i = 0; i < v.size() && i < 24; ++i) out.v[i] = v[i]; return out;
}
static void unblock_rec(int t, int b, long u0) { int i = W->blkrec[t][b]; if (i >= 0) { W->log[t].blks[i].u0 = u0; W->log[t].blks[i].u1 = sched_now(); W->blkrec[t][b] = -1; } }
static void exec(const Op& op, const bs::connection* self) {
  int t = tid(); World& w = *W; ThreadLog& l = lg(); const int* a = op.a;
  OpRec r; r.code = op.code; r.a = a[0]; r.b = a[1]; r.c = a[2]; r.res = 0; 
  auto sig_ok = [&](int s) { return s == 0 || ((t == w.c->own || t == NT) && w.s1_alive); };
  auto begin = [&]() { r.t0 = sched_now(); sched_where(NAMES[op.code]); };
  auto end = [&]() { r.t1 = sched_now(); l.ops.push_back(r); };
  auto published = [&](int k) { return k >= 0 && k < NK && w.pub[k].load(std::memory_order_acquire) != 0; };
  switch (op.code) {
  case CONN: { int k = a[0], s = a[1] & 1; if (k < 0 || k >= NK || nt_add(&w.tried[k], 1) > 1 || !sig_ok(s)) return; nt_add(&w.conns_made, 1);
    ConnRec& c = w.cr[k]; c.sig = s; c.grp = a[2]; c.pos = a[3] & 1; c.trk = a[4] & 15; c.ext = a[5] & 1; c.eq = k / 2; c.relay = false; bs::connect_position p = c.pos ? bs::at_back : bs::at_front; 
    F f(k, c.eq, c.trk); c.c1 = INF; 
    auto track = [&](auto& sl) { for (int o = 0; o < NO; ++o) if (c.trk >> o & 1) { if (o & 1) sl.track_foreign(w.ws[t][o]); else sl.track(w.wb[t][o]); } };
    bs::connection cn;
    if (c.ext) { Sig::extended_slot_type sl(f); track(sl); begin(); c.c0 = r.t0; { Loud d; cn = c.grp >= 0 ? w.s[s]->connect_extended(c.grp, sl, p) : w.s[s]->connect_extended(sl, p); } c.c1 = sched_now(); }
    else { Sig::slot_type sl(f); track(sl); begin(); c.c0 = r.t0; { Loud d; cn = c.grp >= 0 ? w.s[s]->connect(c.grp, sl, p) : w.s[s]->connect(sl, p); } c.c1 = sched_now(); }
    w.h[k] = cn; w.pub[k].store(1, std::memory_order_release); end(); return; }
  case RELAY: { int k = a[0]; if (t != NT || k < 0 || k >= NK || !sig_ok(1) || w.relay >= 0 || nt_add(&w.tried[k], 1) > 1) return; nt_add(&w.conns_made, 1); w.relay = k; ConnRec& c = w.cr[k]; c.sig = 0; c.grp = a[1]; c.pos = a[2] & 1; c.trk = c.ext = 0; c.eq = -5; c.relay = true; c.c1 = INF;
    begin(); c.c0 = r.t0; { Loud d; bs::connect_position p = c.pos ? bs::at_back : bs::at_front; bs::connection cn = c.grp >= 0 ? w.s[0]->connect(c.grp, *w.s[1], p) : w.s[0]->connect(*w.s[1], p); SchedQuiet q; w.h[k] = cn; } c.c1 = sched_now(); w.pub[k].store(1, std::memory_order_release); end(); return; }
  case DISC: if (!published(a[0])) return; begin(); { bs::connection c(w.h[a[0]]); Loud d; c.disconnect(); } end(); return;
  case DSELF: if (!self || l.stack.empty()) return; { CombRec& c = l.combs[l.stack.back()]; if (c.calls.empty()) return; r.a = c.calls.back().k; } begin(); { Loud d; self->disconnect(); } r.code = DISC; end(); return;
  case DGRP: if (!sig_ok(a[0] & 1)) return; r.a &= 1; begin(); { Loud d; w.s[a[0] & 1]->disconnect(a[1]); } end(); return;
  case DFN: { if (!sig_ok(a[0] & 1)) return; r.a &= 1; F f(-1, a[1], 0); begin(); { Loud d; w.s[a[0] & 1]->disconnect(f); } end(); return; }
  case DRELAY: r.a &= 1; if (r.a) { begin(); { Loud d; w.s[0]->disconnect(*w.s[0]); } end(); return; } /* matches no slot */ if (!sig_ok(1)) return; begin(); { Loud d; w.s[0]->disconnect(*w.s[1]); } end(); return;
  case DALL: if (!sig_ok(a[0] & 1)) return; r.a &= 1; begin(); { Loud d; w.s[a[0] & 1]->disconnect_all_slots(); } end(); return;
  case CALL: { int s = a[0] & 1; if (!sig_ok(s) || l.stack.size() > 3) return; r.a = s; int inv = nt_add(&w.invs, 1); size_t nc = l.combs.size(); int pend = l.pending[s]; 
    begin(); l.direct_L[s] = l.lastT = r.t0; l.direct_inv[s] = inv; l.pending[s] = 1; Res x; bool stopped = false; try { if (a[1] & 1) { const Sig& cs = *w.s[s]; Loud d; x = cs(inv); } else { Loud d; x = (*w.s[s])(inv); } } catch (Stop&) { stopped = true; } 
    if (l.pending[s]) bad("an invocation returned without running the combiner"); l.pending[s] = pend; l.lastT = sched_now();
    CombRec& c = l.combs[nc]; if (c.inv != inv || c.sig != s || (stopped ? !c.early || c.id < 6 : x.id != c.id || x.n != int(c.vals.size()))) bad("an invocation returned something else than its combiner"); 
    size_t j = 0; for (auto& y : c.calls) { int want = w.cr[y.k].relay ? 777 : y.k; if (y.t1 < 0) bad("a slot did not finish"); if (y.threw) continue; if (j >= c.vals.size() || c.vals[j] != want) bad("the combiner received other results than the slots returned"); ++j; } if (j != c.vals.size()) bad("the combiner received a result without a slot call");
    r.res = inv; end(); return; }
  case QC: if (!published(a[0])) return; { bs::connection c(w.h[a[0]]); begin(); { Loud d; r.res = c.connected(); } end(); } return;
  case QB: if (!published(a[0])) return; { bs::connection c(w.h[a[0]]); begin(); { Loud d; r.res = c.blocked(); } end(); } return;
  case QN: if (!sig_ok(a[0] & 1)) return; r.a &= 1; begin(); { Loud d; r.res = long(w.s[a[0] & 1]->num_slots()); } end(); return;
  case QE: if (!sig_ok(a[0] & 1)) return; r.a &= 1; begin(); { Loud d; r.res = w.s[a[0] & 1]->empty(); } end(); return;
  case BLK: { if (!published(a[0])) return; int b = a[1] & 1; bs::connection c(w.h[a[0]]); begin(); bs::shared_connection_block* nb; { Loud d; nb = new bs::shared_connection_block(c); } long b1 = sched_now(); if (!nb->blocking()) bad("a new shared_connection_block is not blocking");
    l.blks.push_back(BlkRec{a[0], r.t0, b1, INF, INF}); int ni = int(l.blks.size()) - 1; bs::shared_connection_block* ob = w.blk[t][b]; w.blk[t][b] = nb; int oi = w.blkrec[t][b]; w.blkrec[t][b] = ni; 
    if (ob) { long u0 = sched_now(); { Loud d; delete ob; } if (oi >= 0) { l.blks[oi].u0 = u0; l.blks[oi].u1 = sched_now(); } } end(); return; }
  case UBLK: { int b = a[0] & 1; if (!w.blk[t][b]) return; begin(); { Loud d; if (a[1] & 1) { w.blk[t][b]->unblock(); SchedQuiet q; unblock_rec(t, b, r.t0); } } bs::shared_connection_block* x = w.blk[t][b]; w.blk[t][b] = 0; { Loud d; delete x; } unblock_rec(t, b, r.t0); end(); return; }
  case COMB: if (!sig_ok(a[0] & 1)) return; r.a &= 1; { Comb c(a[0] & 1, a[1]); begin(); { Loud d; w.s[a[0] & 1]->set_combiner(c); } end(); } return;
  case QCOMB: if (!sig_ok(a[0] & 1)) return; r.a &= 1; begin(); { Loud d; Comb c = w.s[a[0] & 1]->combiner(); r.res = c.canary == 0x1234 && c.sig == (a[0] & 1) ? c.id : -99; } end(); return;
  case DROP: { int o = a[0] & 3; if (t != NT && t != o % w.c->nt) return; r.a = o; if (o & 1) { if (!w.own_s[o]) return; begin(); Loud d; w.own_s[o].reset(); } else { if (!w.own_b[o]) return; begin(); Loud d; w.own_b[o].reset(); } end(); return; }
  case DSIG: if (!sig_ok(1) || t == NT) return; { w.s1_alive = false; begin(); { Loud d; delete w.s[1]; } w.s[1] = 0; end(); } return;
  case CHURN: { int s = a[0] & 1; if (!sig_ok(s)) return; r.a = s; begin(); for (int i = 0; i < (a[1] & 7); ++i) { F f(-1, -77, 0); bs::connection c; if (a[2] & 1) { Sig::extended_slot_type sl(f); Loud d; c = w.s[s]->connect_extended(sl); } else { Sig::slot_type sl(f); Loud d; c = w.s[s]->connect(sl); } Loud d; c.disconnect(); } end(); return; }
  }
}
static void thread_body(int t, void*) { sched_quiet(1); lg().lastT = sched_now(); for (auto& op : W->c->body[t]) exec(op, 0); if (!lg().stack.empty()) bad("unbalanced invocation"); sched_where(0); for (int b = 0; b < 2; ++b) {} sched_quiet(-1); }

// ---- the oracle: what the timestamps allow
struct Iv { long t0, t1; bool definite; };
struct Verdict { std::string msg; bool overlap; std::map<std::string, long> n; uint64_t hash; };
static int rank_of(const ConnRec& c) { return c.grp >= 0 ? 1 : c.pos ? 2 : 0; }
static int order_of(const ConnRec& a, const ConnRec& b) { // -1: a before b, 1: after, 0 unknown
  if (rank_of(a) != rank_of(b)) return rank_of(a) < rank_of(b) ? -1 : 1; if (a.grp >= 0 && a.grp != b.grp) return a.grp < b.grp ? -1 : 1;
  if (a.c1 < b.c0) return b.pos ? -1 : 1; if (b.c1 < a.c0) return a.pos ? 1 : -1; return 0; }
static Verdict judge(World& w, bool fin) {
  Verdict v; v.overlap = false; v.hash = 0; std::vector<OpRec> ops; std::vector<CombRec> combs; std::vector<BlkRec> blks; std::vector<std::pair<int, OpRec>> tops;
  for (int t = 0; t <= NT; ++t) { for (auto& o : w.log[t].ops) { ops.push_back(o); if (t < NT) tops.push_back(std::make_pair(t, o)); } for (auto& c : w.log[t].combs) combs.push_back(c); for (auto& b : w.log[t].blks) blks.push_back(b); }
  for (auto& x : tops) if (x.second.code == CALL) for (auto& y : tops) if (x.first != y.first && x.second.t0 < y.second.t1 && y.second.t0 < x.second.t1) v.overlap = true;
  auto made = [&](int k) { return w.tried[k] > 0 && w.cr[k].c0 > 0; };
  std::vector<Iv> D[NK];
  for (int k = 0; k < NK; ++k) { if (!made(k)) continue; ConnRec& c = w.cr[k]; 
    for (auto& o : ops) { bool hit = false; 
      switch (o.code) { case DISC: if (o.a == k) { D[k].push_back(Iv{o.t0, o.t1, true}); } continue; case DGRP: hit = o.a == c.sig && c.grp >= 0 && o.b == c.grp; break; case DFN: hit = o.a == c.sig && !c.relay && o.b == c.eq; break; case DRELAY: hit = c.relay && !o.a; break; case DALL: hit = o.a == c.sig; break; case DSIG: if (c.sig == 1 || c.relay) D[k].push_back(Iv{o.t0, w.phase_end, true}); continue; } // a running invocation keeps the contents of a destroyed signal
      if (hit && c.c0 < o.t1) D[k].push_back(Iv{o.t0, o.t1, c.c1 < o.t0}); 
      if (o.code == DROP && (c.trk >> o.a & 1)) D[k].push_back(Iv{o.t0, w.od[o.a] ? w.od[o.a] : INF, true}); }
  }
  auto maybe_gone = [&](int k, long before) { for (auto& d : D[k]) if (d.t0 < before) return true; return false; };   // some disconnect may have taken effect before that time
  auto gone = [&](int k, long before) { for (auto& d : D[k]) if (d.definite && d.t1 < before) return true; 
    for (auto& o : ops) if (o.code == QC && o.a == k && !o.res && o.t1 < before) return true; return false; };
  auto fail = [&](const std::string& m) { if (v.msg.empty()) v.msg = m; };
  auto tm = [](const char* n, long t) { return std::string(" ") + n + "=" + (t >= INF ? "inf" : S(t)); };
  for (auto& c : combs) {
    if (c.m1 < 0) continue; std::string at = " [signal " + S(c.sig) + " invocation " + S(c.inv) + " thread " + S(c.th) + " " + S(c.L) + ".." + S(c.m1) + "]";
    v.hash = vc::mix(v.hash, c.sig * 131 + c.th);
    long bound = c.L; std::vector<bool> called(NK, false);
    for (size_t i = 0; i < c.calls.size(); ++i) { CallRec& x = c.calls[i]; int k = x.k; called[k] = true; v.hash = vc::mix(v.hash, k + 1000); v.n["slot_calls"]++;
      if (gone(k, bound)) fail("slot " + S(k) + " called although its disconnection was complete before the invocation reached it" + at);
      for (auto& b : blks) if (b.k == k && b.b1 < bound && b.u0 > x.t0) fail("slot " + S(k) + " called although it was blocked" + at);
      if (w.cr[k].c0 > c.m0) fail("slot " + S(k) + " called by an invocation that was already running when it was connected" + at);
      for (size_t j = 0; j < i; ++j) if (order_of(w.cr[c.calls[j].k], w.cr[k]) > 0) fail("slots " + S(c.calls[j].k) + " and " + S(k) + " called in the wrong order" + at);
      bound = x.t1; }
    for (int k = 0; k < NK; ++k) { if (!made(k) || w.cr[k].sig != c.sig || called[k] || w.cr[k].c1 > c.L) continue; if (maybe_gone(k, c.m1)) continue; bool pb = false; for (auto& b : blks) if (b.k == k && b.b0 < c.m1 && b.u1 > c.L) pb = true; if (pb) continue; if (c.early && (c.calls.empty() || order_of(w.cr[k], w.cr[c.calls.back().k]) >= 0)) continue;
      fail("slot " + S(k) + " was connected and unblocked throughout an invocation that did not call it" + at); }
    { std::vector<long> cb; bool ok = false; auto poss = [&](long t0, long t1) { for (auto& o : ops) if (o.code == COMB && o.a == c.sig && o.t0 > t1 && o.t1 < c.L) return false; return t0 < c.m0; }; if (c.id == 0 && poss(-1, 0)) ok = true; for (auto& o : ops) if (o.code == COMB && o.a == c.sig && o.b == c.id && poss(o.t0, o.t1)) ok = true; if (!ok) fail("an invocation used a combiner that was not the signal's" + at); }
  }
  for (auto& o : ops) {
    std::string at = " [" + S(o.t0) + ".." + S(o.t1) + "]";
    if (o.code == QC) { v.n["queries"]++; int k = o.a; if (o.res && gone(k, o.t0)) fail("connection " + S(k) + " reported connected after its disconnection" + at); if (!o.res && !maybe_gone(k, o.t1)) fail("connection " + S(k) + " reported disconnected although nothing disconnected it" + at); }
    if (o.code == QB) { int k = o.a; bool db = gone(k, o.t0), pb = maybe_gone(k, o.t1); for (auto& b : blks) if (b.k == k) { if (b.b1 < o.t0 && b.u0 > o.t1) db = true; if (b.b0 < o.t1 && b.u1 > o.t0) pb = true; } if (o.res && !pb) fail("connection " + S(k) + " reported blocked although nothing blocked it" + at); if (!o.res && db) fail("connection " + S(k) + " reported unblocked although it was blocked or disconnected" + at); }
    if (o.code == QN || o.code == QE) { v.n["queries"]++; int lo = 0, hi = 0; for (int k = 0; k < NK; ++k) if (made(k) && w.cr[k].sig == o.a) { if (w.cr[k].c1 < o.t0 && !maybe_gone(k, o.t1)) ++lo; if (w.cr[k].c0 < o.t1 && !gone(k, o.t0)) ++hi; } 
      bool churn = false; for (auto& x : ops) if (x.code == CHURN && x.a == o.a && x.t0 < o.t1 && x.t1 > o.t0) churn = true; if (churn) hi += 10;
      if (o.code == QN && (o.res < lo || o.res > hi)) fail("num_slots() returned " + S(o.res) + ", possible are " + S(lo) + ".." + S(hi) + at); if (o.code == QE && ((o.res && lo) || (!o.res && !hi))) fail(std::string("empty() returned ") + (o.res ? "true" : "false") + at); }
    if (o.code == QCOMB) { bool ok = false; auto poss = [&](long t0, long t1) { for (auto& x : ops) if (x.code == COMB && x.a == o.a && x.t0 > t1 && x.t1 < o.t0) return false; return t0 < o.t1; }; if (o.res == 0 && poss(-1, 0)) ok = true; for (auto& x : ops) if (x.code == COMB && x.a == o.a && x.b == o.res && poss(x.t0, x.t1)) ok = true; if (!ok) fail("combiner() returned " + S(o.res) + at); }
  }
  (void)tm; (void)fin; v.n["ops"] += ops.size(); v.n["invocations"] += combs.size(); return v;
}

// ---- one execution
struct RunRes { std::string msg; int used; bool overlap; uint64_t hash; std::map<std::string, long> n; long points; };
static RunRes run_once(const Case& c, const std::vector<SchedDec>& dec, int gran) {
  RunRes rr; std::unique_ptr<World> wp(new World); World& w = *wp; memset(w.tried, 0, sizeof w.tried); for (int k = 0; k < NK; ++k) { w.pub[k] = 0; memset(&w.cr[k], 0, sizeof w.cr[k]); w.live[k] = w.ncalls[k] = w.script_runs[k] = w.runs[k] = 0; } for (int k = 0; k < NO; ++k) { w.od[k] = 0; w.odn[k] = w.ouse[k] = w.ocr[k] = 0; }
  for (int t = 0; t <= NT; ++t) { for (int b = 0; b < 2; ++b) { w.blk[t][b] = 0; w.blkrec[t][b] = -1; } ThreadLog& l = w.log[t]; l.lastT = sched_now(); l.depth = 0; l.pending[0] = l.pending[1] = 0; }
  w.c = &c; w.phase_end = INF; w.invs = 0; w.relay = -1; w.conns_made = 0; w.live_churn = 0; W = &w; sched_reset_counts(); sched_rules(1); CtlMutex::live = 0; sched_quiet(1);
  for (int k = 0; k < NO; ++k) { if (k & 1) { w.own_s[k].reset(new Obj(k)); w.raw[k] = w.own_s[k].get(); } else { w.own_b[k].reset(new Obj(k)); w.raw[k] = w.own_b[k].get(); } for (int t = 0; t <= NT; ++t) { w.wb[t][k] = w.own_b[k]; w.ws[t][k] = w.own_s[k]; } }
  w.s[0] = new Sig(Comb(0, 0)); w.s[1] = new Sig(Comb(1, 0)); w.s1_alive = true;
  for (auto& op : c.setup) exec(op, 0);
  sched_quiet(-1);
  sched_run(c.nt, thread_body, 0, dec.data(), int(dec.size()), gran); w.phase_end = sched_now(); rr.used = sched_used(); rr.points = sched_points(0);
  sched_quiet(1);
  std::string m;
  Verdict v = judge(w, false); m = v.msg; rr.overlap = v.overlap;
  if (m.empty()) { // afterwards: one thread, everything is known
    std::vector<OpRec> all; for (int t = 0; t <= NT; ++t) for (auto& o : w.log[t].ops) all.push_back(o);
    bool explicit_gone[NK]; 
    for (int k = 0; k < NK; ++k) { explicit_gone[k] = false; for (auto& o : all) { ConnRec& r = w.cr[k]; if (!r.c0) continue; if (o.code == DISC && o.a == k) explicit_gone[k] = true; if (o.t0 > r.c1 && ((o.code == DGRP && o.a == r.sig && r.grp >= 0 && o.b == r.grp) || (o.code == DFN && o.a == r.sig && !r.relay && o.b == r.eq) || (o.code == DALL && o.a == r.sig) || (o.code == DRELAY && r.relay && !o.a) || (o.code == DSIG && r.sig == 1))) explicit_gone[k] = true; } 
      if (explicit_gone[k] && w.live[k] != 0 && !w.cr[k].relay) m = "slot function " + S(k) + " is still alive although it is disconnected and nothing runs"; }
    if (w.live_churn) m = "a disconnected slot function is still alive";
    for (int o = 0; o < NO && m.empty(); ++o) { bool dropped = o & 1 ? !w.own_s[o] : !w.own_b[o]; if (dropped && w.odn[o] != 1) m = "tracked object " + S(o) + " is still alive although its owners are gone and nothing runs"; if (!dropped && w.odn[o]) m = "tracked object destroyed although it has an owner"; }
  }
  if (m.empty()) {
    for (auto& op : c.fin) exec(op, 0);
    Op q; for (int k = 0; k < NK; ++k) if (w.pub[k]) { q = Op{QC, {k}}; exec(q, 0); q = Op{QB, {k}}; exec(q, 0); }
    for (int s = 0; s < 2; ++s) { if (s && !w.s1_alive) continue; for (int code : {QN, QE, QCOMB, CALL, QN}) { q = Op{code, {s}}; exec(q, 0); } }
    for (int k = 0; k < NK; ++k) if (w.pub[k] && !w.h[k].connected() && w.live[k] && !w.cr[k].relay) m = "slot function " + S(k) + " is still alive although it is disconnected";
    for (int t = 0; t <= NT; ++t) for (int b = 0; b < 2; ++b) { delete w.blk[t][b]; w.blk[t][b] = 0; long u = sched_now(); unblock_rec(t, b, u); }
    for (int s = 0; s < 2; ++s) if (!s || w.s1_alive) { q = Op{CALL, {s}}; exec(q, 0); }
    if (m.empty()) { v = judge(w, true); m = v.msg; }
  }
  long nl = sched_lock_count(), np = sched_pthread_count(); (void)nl; (void)np;
  delete w.s[0]; delete w.s[1]; 
  for (int k = 0; k < NK && m.empty(); ++k) { if (w.live[k] && !w.cr[k].relay) m = "slot function " + S(k) + " is not destroyed with its signal"; if (w.pub[k] && w.h[k].connected()) m = "connection " + S(k) + " outlives its signal"; }
  for (int k = 0; k < NO; ++k) { w.own_b[k].reset(); w.own_s[k].reset(); if (m.empty() && w.odn[k] != 1) m = "tracked object " + S(k) + " is kept alive or destroyed twice"; }
  for (int k = 0; k < NK; ++k) w.h[k] = bs::connection();
  if (m.empty() && w.live_churn) m = "a slot function leaked";
#if EB_MX == 0
  if (m.empty() && CtlMutex::live) m = "a mutex of the signal leaked";
  if (m.empty() && np) m = "the library locks a mutex of another type than the one given to the signal";
  if (m.empty() && nl == 0 && v.n["ops"]) m = "the library does not use the mutex type given to the signal";
#else
  if (m.empty() && nl == 0 && v.n["ops"]) m = "signals2::mutex does not lock anything";
#endif
  sched_quiet(-1); W = 0; rr.msg = m; rr.hash = v.hash; rr.n = v.n; return rr;
}

// ---- text
static Op parse_op(std::istringstream& is) { Op o; o.code = -1; memset(o.a, 0, sizeof o.a); std::string n; is >> n; for (int i = 0; i < NCODE; ++i) if (n == NAMES[i]) o.code = i; for (int i = 0; i < 6; ++i) if (!(is >> o.a[i])) break; return o; }
static std::string show(const Op& o, int n) { std::string s = NAMES[o.code]; for (int i = 0; i < n; ++i) s += " " + S(o.a[i]); return s; }
static int nargs(int c) { switch (c) { case CONN: return 6; case RELAY: case CHURN: return 3; case DGRP: case DFN: case CALL: case BLK: case UBLK: case COMB: return 2; case DSIG: case DSELF: case THROW: return 0; default: return 1; } }
static Case parse(const Lines& l) {
  Case c; c.nt = 2; c.own = 0; c.sweep = false; c.gran = 1; c.sweep_gran = 1; c.sweep_stride = 1; c.sweep2 = 0; c.sweep_start = 0;
  for (auto& s : l) { std::istringstream is(s); std::string k; is >> k; 
    if (k == "!nt") { is >> c.nt >> c.own; if (c.nt < 2) c.nt = 2; if (c.nt > NT) c.nt = NT; c.own %= c.nt; } else if (k == "!sweep") { c.sweep = true; is >> c.sweep_gran >> c.sweep_stride >> c.sweep2 >> c.sweep_start; } else if (k == "!gran") is >> c.gran;
    else if (k == "p") { SchedDec d; is >> d.n >> d.to; if (d.n < 1) d.n = 1; c.dec.push_back(d); }
    else if (k == "s") c.setup.push_back(parse_op(is)); else if (k == "f") c.fin.push_back(parse_op(is)); else if (k == "a" || k == "b" || k == "c") c.body[k[0] - 'a'].push_back(parse_op(is));
    else if (k == "act") { int i; is >> i; if (i >= 0 && i < NK) c.act[i].push_back(parse_op(is)); } }
  auto clean = [](std::vector<Op>& v) { v.erase(std::remove_if(v.begin(), v.end(), [](const Op& o) { return o.code < 0; }), v.end()); };
  clean(c.setup); clean(c.fin); for (auto& b : c.body) clean(b); for (auto& b : c.act) clean(b); return c;
}
static Outcome run_case(const Lines& l) {
  Case c = parse(l); Outcome o; auto take = [&](const RunRes& r) { o.counters["schedules"]++; for (auto& x : r.n) o.counters[x.first] += x.second; o.hash = vc::mix(o.hash, r.hash); if (r.overlap && r.used > 0) { o.nontrivial = true; o.counters["overlapping_schedules"]++; } if (!r.msg.empty()) { o.ok = false; o.msg = r.msg; } };
  if (!c.sweep) { take(run_once(c, c.dec, c.gran)); return o; }
  int runs = 0; 
  for (int n = 1 + (c.sweep_start < 0 ? 0 : c.sweep_start); runs < 350; n += c.sweep_stride < 1 ? 1 : c.sweep_stride, ++runs) { std::vector<SchedDec> d; d.push_back(SchedDec{n, 0}); if (c.sweep2 > 0) d.push_back(SchedDec{c.sweep2, 0}); RunRes r = run_once(c, d, c.sweep_gran); take(r); if (!o.ok) { o.msg += " (first preemption after " + S(n) + " points of thread 0)"; return o; } if (r.used == 0) break; }
  return o;
}

// ---- generator
struct Mix { const char* name; int w[NCODE]; int trk, ext, act, relay, blkp; };
static const Mix MIXES[] = { //conn disc dgrp dfn dall call qc qb qn qe blk ublk comb qcomb drop dsig relay drelay dself churn
  {"mix",    {3, 3, 1, 1, 1, 8, 2, 1, 1, 1, 2, 2, 1, 1, 2, 1, 0, 1, 0, 1, 0}, 30, 25, 25, 25, 0},
  {"disc",   {3, 7, 2, 2, 1, 9, 2, 1, 1, 1, 0, 0, 0, 0, 1, 1, 0, 1, 0, 2}, 15, 25, 25, 20, 0},
  {"block",  {1, 2, 0, 0, 0, 8, 1, 3, 0, 0, 7, 6, 0, 0, 1, 0, 0, 0, 0, 0}, 15, 10, 20, 10, 0},
  {"comb",   {2, 2, 0, 0, 0, 8, 1, 0, 1, 1, 0, 0, 5, 2, 1, 0, 0, 0, 0, 1}, 10, 10, 20, 15, 0},
  {"expire", {3, 2, 1, 1, 1, 8, 3, 1, 2, 1, 1, 1, 1, 0, 7, 1, 0, 1, 0, 1}, 80, 20, 20, 20, 0},
  {"ext",    {3, 4, 1, 1, 0, 9, 2, 1, 0, 0, 2, 1, 1, 0, 2, 1, 0, 1, 0, 1, 0}, 20, 90, 45, 20, 0},
  {"lock",   {4, 3, 1, 1, 1, 7, 2, 1, 1, 1, 1, 1, 1, 1, 4, 1, 0, 1, 0, 2}, 55, 45, 50, 25, 0},
};
static Lines generate(uint64_t seed, const std::string& prof) {
  Rng r(seed); const Mix* mx = &MIXES[0]; for (auto& m : MIXES) if (prof == m.name) mx = &m; Lines out; int nt = r.chance(75) ? 2 : 3, own = r.below(nt);
  out.push_back("!nt " + S(nt) + " " + S(own)); bool sweep = r.chance(35); std::vector<std::string> dl;
  if (sweep) { int g = r.chance(70); static const int st[] = {1, 1, 2, 3, 5, 8, 13, 17}; int stride = g ? st[r.below(8)] : 1; out.push_back("!sweep " + S(g) + " " + S(stride) + " " + S(r.chance(40) ? r.range(1, g ? 300 : 12) : 0) + " " + S(g && stride < 3 && r.chance(50) ? r.range(0, 300) : r.below(3))); }
  else { int g = r.chance(75); out.push_back("!gran " + S(g)); int n = r.range(1, 6); for (int i = 0; i < n; ++i) { int mag = g ? (r.chance(50) ? 400 : 60) : 12; dl.push_back("p " + S(r.range(1, mag)) + " " + S(r.below(2))); } }
  int nk = r.range(1, 5), next = 0; bool small = r.chance(50); bool use1 = r.chance(mx->relay * 2);
  auto trkmask = [&]() { if (!r.chance(mx->trk)) return 0; int m = 1 << r.below(r.chance(60) ? 1 + r.below(2) : NO); if (r.chance(25)) m |= 1 << r.below(NO); return m; };
  auto conn = [&](int s) { int g = r.chance(50) ? -1 : r.below(3); Op o; o.code = CONN; int a[] = {next++ % NK, s, g, r.below(2), trkmask(), r.chance(mx->ext)}; memcpy(o.a, a, sizeof a); return o; };
  auto pick = [&](bool script, int thr) { int wt[NCODE]; for (int i = 0; i < NCODE; ++i) wt[i] = mx->w[i] * (use1 && (i == DSIG || i == DRELAY) ? 3 : 1); int tot = 0; for (int i = 0; i < NCODE; ++i) tot += wt[i]; int x = r.below(tot), c = 0; while (x >= wt[c]) x -= wt[c++]; Op o; memset(o.a, 0, sizeof o.a); int hk = r.below(next > 0 ? next + (r.chance(20) ? 1 : 0) : 1) % NK; int s = use1 && r.chance(30) ? 1 : 0;
    if (script && c == CALL && r.chance(60)) c = DISC; if ((c == DSIG || c == DRELAY) && !use1) c = CALL; 
    if (c == CONN) { if (next >= NK) c = CALL; else return conn(s); }
    o.code = c; if (script && c == DISC && r.chance(30)) { o.code = DSELF; return o; }
    switch (c) { case DISC: case QC: case QB: o.a[0] = hk; break; case DGRP: o.a[0] = s; o.a[1] = r.below(3); break; case DFN: o.a[0] = s; o.a[1] = r.below(4); break; case BLK: o.a[0] = hk; o.a[1] = r.below(2); break; case UBLK: o.a[0] = r.below(2); o.a[1] = r.below(2); break; case COMB: o.a[0] = s; o.a[1] = r.chance(60) ? r.range(1, 3) : r.range(4, 7); break;
      case DROP: o.a[0] = r.below(NO); if (!script && thr >= 0 && r.chance(80)) { int z = r.below(2); o.a[0] = thr + nt * z; if (o.a[0] >= NO) o.a[0] = thr; } break; case DRELAY: o.a[0] = r.below(2); break; case CALL: o.a[0] = s; o.a[1] = r.below(2); break; case CHURN: o.a[0] = s; o.a[1] = r.range(1, 4); o.a[2] = r.below(2); break; default: o.a[0] = s; }
    return o; };
  for (int i = 0; i < nk; ++i) { Op o = conn(use1 && r.chance(35) ? 1 : 0); out.push_back("s " + show(o, 6)); }
  if (use1 && r.chance(80) && next < NK) out.push_back("s relay " + S(next++) + " " + S(r.chance(50) ? -1 : r.below(3)) + " " + S(r.below(2)));
  if (r.chance(20)) { Op o; o.code = CALL; o.a[0] = 0; o.a[1] = 0; out.push_back("s " + show(o, 2)); }
  if (r.chance(mx->w[COMB] * 10)) out.push_back("s comb " + S(use1 && r.chance(30)) + " " + S(r.range(4, 7)));
  if (r.chance(25)) out.push_back("s disc " + S(r.below(next)));
  for (int t = 0; t < nt; ++t) { int n = small ? r.range(1, 2) : r.range(1, 5); bool hasc = false; for (int i = 0; i < n; ++i) { Op o = pick(false, t); if (o.code == CALL) hasc = true; if (t == 0 && i == n - 1 && !hasc && r.chance(80)) { o.code = CALL; o.a[0] = 0; o.a[1] = 0; } out.push_back(std::string(1, char('a' + t)) + " " + show(o, nargs(o.code))); } }
  if (r.chance(mx->act)) { int n = r.range(1, 3); for (int i = 0; i < n; ++i) { Op o = pick(true, -1); out.push_back("act " + S(r.below(next)) + " " + show(o, nargs(o.code))); } if (r.chance(30)) out.push_back("act " + S(r.below(next)) + " throw"); }
  if (r.chance(20)) { Op o = pick(false, -1); out.push_back("f " + show(o, nargs(o.code))); }
  for (auto& d : dl) out.push_back(d);
  return out;
}
int main(int argc, char** argv) { vc::Harness h; h.gen = generate; h.run = run_case; return vc::main_loop(argc, argv, h); }
