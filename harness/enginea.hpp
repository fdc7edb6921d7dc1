// Engine A: one generated program, run on the real library and on a reference model; the event traces must agree.
#ifndef VERIF_ENGINEA_HPP
#define VERIF_ENGINEA_HPP
#include "core.hpp"
#include <memory>
#include <climits>
#include <exception>
#include <stdexcept>

namespace ea {
using vc::Lines;

enum { NSIG = 3, NH = 10, NSC = 4, NBL = 5, NOB = 16, NSL = 5, NXS = 3, NFN = 6, NG = 5, MAXUID = 4096 };
const int ANY = INT_MIN;

#define EA_OPS \
  X(conn) X(connx) X(conno) X(connxo) X(connref) X(connbind) X(connsig) X(bulk) \
  X(disch) X(discg) X(discf) X(discx) X(discs) X(discall) X(discreg) \
  X(hcopy) X(hmove) X(hswap) X(hclr) X(heq) X(hst) X(hfromb) \
  X(scnew) X(scasg) X(scmv) X(scmc) X(scmvh) X(scsw) X(screl) X(scdel) X(scst) \
  X(bnew) X(bcp) X(basg) X(blk) X(unb) X(bdel) X(bst) \
  X(emit) X(sdel) X(snew) X(smv) X(smc) X(ssw) X(snull) X(snum) X(sempty) X(scomb) X(gcomb) X(seq) \
  X(onew) X(odrop) X(odup) \
  X(slnew) X(xlnew) X(sltrk) X(slbulk) X(slsig) X(sltsl) X(slcp) X(slasg) X(slcall) X(slst) X(sllock) X(slfsig) X(slconv) X(slbind) X(xltrk) X(xlsl) \
  X(thr) X(xdisc) X(xst) X(xsave) X(xblk) X(obs) X(chk) X(fault)
#define X(n) O_##n,
enum OpC { EA_OPS N_OPS };
#undef X
#define X(n) #n,
static const char* const op_names[] = { EA_OPS };
#undef X

struct Op { int code; int a[5]; };
struct Prog { int cfg = 0; bool faults = false; std::vector<std::vector<Op> > scripts; };
inline Prog parse(const Lines& l) {
  Prog p; p.scripts.resize(NFN + 1);
  static std::map<std::string, int> names; if (names.empty()) for (int i = 0; i < N_OPS; ++i) names[op_names[i]] = i;
  for (auto& s : l) {
    char nm[32]; int sc; Op o; memset(o.a, 0, sizeof o.a);
    if (s[0] == '!') { int f = 0; sscanf(s.c_str(), "!cfg %d %d", &p.cfg, &f); p.faults = f; continue; }
    int n = sscanf(s.c_str(), "%d %31s %d %d %d %d %d", &sc, nm, &o.a[0], &o.a[1], &o.a[2], &o.a[3], &o.a[4]);
    if (n < 2 || !names.count(nm) || sc < 0 || sc > NFN) continue;
    o.code = names[nm]; for (int& x : o.a) if (x < 0) x = 0;
    p.scripts[sc].push_back(o);
  }
  return p;
}
inline std::string show(int sc, const Op& o) { char b[160]; snprintf(b, sizeof b, "%d %s %d %d %d %d %d", sc, op_names[o.code], o.a[0], o.a[1], o.a[2], o.a[3], o.a[4]); return b; }

struct Ev { char t; int a, b, c; };
inline std::string show(const Ev& e) { char b[80]; auto f = [](int x) { return x == ANY ? std::string("?") : std::to_string(x); }; snprintf(b, sizeof b, "%c(%s,%s,%s)", e.t, f(e.a).c_str(), f(e.b).c_str(), f(e.c).c_str()); return b; }

struct TestExc { int v; };
struct InjectedExc { int v; };

// What functors, combiners and tracked objects need from whichever world is running.
struct Host {
  std::vector<Ev> trace;
  bool muted = false, unspec = false;
  int emit_budget = 40;
  bool counts = true;
  bool alive[MAXUID];            // tracked objects by oid
  std::map<std::string, long> cnt;
  void log(char t, int a = 0, int b = 0, int c = 0) { if (!muted && trace.size() < 200000) { Ev e = { t, a, b, c }; trace.push_back(e); } }
  size_t unspec_at = 0; void set_unspec() { if (!unspec) { unspec = true; unspec_at = trace.size(); } }
  virtual int run_fn(int fnid, int uid, int arg, void* self) = 0;
  virtual int classify() = 0;                    // inside a handler: code of the exception being handled; rethrows what it does not know
  virtual void throw_exc(int kind, int v) = 0;
  virtual void comb_script(int id) = 0;
  virtual ~Host() {}
};
extern Host* g_host;

// ---- combiner behaviours: shared by the real combiner (over slot_call_iterators) and the model (over its own iterator)
// id = pattern(4) + 4*stop(4) + 16*exception policy(3) + 48*extra(4)
const int NCOMB = 192;
inline bool is_expiry(int code) { return code == -7 || (code <= -20 && code > -30); }
template<class It> int comb_run(Host& H, int id, int n, bool is_const, It first, It last) {
  H.log('C', id, H.counts ? n : 0, is_const);
  if (H.emit_budget-- <= 0) { H.log('c', id); return -1; }
  int pat = id % 4, stop = (id / 4) % 4, pol = (id / 16) % 3, ext = (id / 48) % 4; long acc = 7; int steps = 0;
  auto add = [&](int v) { H.log('D', v, steps); acc = (acc * 31 + v) % 1000003; };
  while (!(first == last)) {
    if (stop && steps >= stop) break;
    bool advanced = false, used = false;
    int d = pat == 0 ? 1 : pat == 1 ? 2 : pat == 2 ? (steps & 1 ? 0 : 1) : 1;
    for (int i = 0; i < d; ++i) {
      try {
        if (ext == 1 && i == 0 && steps % 3 == 0) { It c(first); int v = *c; add(v); int w = *first; add(w); H.log('Q', c == first, c != first); }
        else if (ext == 1 && steps % 3 == 1 && i == d - 1) { int v = *first++; advanced = true; add(v); }
        else if (ext == 1) { It c(first); It k(c); first = k; int v = *first; add(v); int w = *c; add(w); int x = *k; add(x); }
        else add(*first);
        used = true;
      } catch (...) { int e = H.classify(); if (pol == 1 || (pol == 2 && is_expiry(e))) { H.log('x', e, steps); break; } throw; }
    }
    if (ext == 3 && used && !H.muted) H.comb_script(id);
    if (!advanced) ++first;
    ++steps;
    if (pat == 3) { bool e1 = first == last, e2 = !(first != last); H.log('Q', e1, e2); }
  }
  H.log('E', id, H.counts ? n : 0, int(acc));
  if (ext == 2 && !H.muted) H.throw_exc(steps + id, id % 7);
  return int(acc);
}

struct SigMeta { bool exists, null; };

// ---- the interpreter, templated on the world
template<class W> struct Interp : Host {
  W w; const Prog& P; int depth = 0, budget = 220, calls = 0; int next_uid = 1, next_oid = 1; int cid = 0;
  SigMeta sm[NSIG]; int emitting = 0;
  int sl_uid[NSL], xs_uid[NXS]; bool sl_ex[NSL], xs_ex[NXS]; int sl_use[NSL]; int sl_fn[NSL], xs_fn[NXS]; bool sl_plain[NSL]; int sl_n[NSL], xs_n[NXS]; enum { MAXTRK = 64 };
  std::vector<std::vector<int> > uid_track; std::vector<int> sl_oids[NSL];
  int ob_kind[NOB], ob_oid[NOB]; // kind -1: none
  std::vector<void*> selfs;
  std::vector<char>* outcomes; size_t out_i = 0; int f_type = 0, f_k = 0;
  explicit Interp(const Prog& p, std::vector<char>* oc) : w(*this), P(p), outcomes(oc) {
    memset(alive, 0, sizeof alive); uid_track.resize(MAXUID); counts = !p.faults;
    for (int i = 0; i < NSIG; ++i) { w.snew(i, 0); sm[i].exists = true; sm[i].null = false; }
    for (int i = 0; i < NSL; ++i) { sl_ex[i] = false; sl_use[i] = 0; sl_uid[i] = 0; sl_fn[i] = 0; sl_plain[i] = false; sl_n[i] = 0; }
    for (int i = 0; i < NXS; ++i) { xs_ex[i] = false; xs_uid[i] = 0; xs_fn[i] = 0; xs_n[i] = 0; }
    for (int i = 0; i < NOB; ++i) { ob_kind[i] = -1; ob_oid[i] = 0; }
  }
  int new_uid() { return next_uid < MAXUID - 1 ? next_uid++ : next_uid; }
  int new_oid() { return next_oid < MAXUID - 1 ? next_oid++ : next_oid; }
  bool ok(int s) const { return sm[s].exists; }
  bool usable(int s) const { return sm[s].exists && !sm[s].null; }

  void check_alive(char t, int uid) { int dead = 0; for (int o : uid_track[uid]) if (!alive[o]) ++dead; if (!uid_track[uid].empty()) { log(t, uid, dead); ++cnt["tracked_calls"]; if (uid_track[uid].size() > 10) ++cnt["big_tracked_calls"]; } }
  int run_fn(int fnid, int uid, int arg, void* self) {
    log('S', fnid, uid, arg); if (!muted) ++calls; ++cnt["slot_calls"]; if (depth > 1) ++cnt["nested_slot_calls"];
    if (uid > 0) check_alive('a', uid);
    if (self) w.log_self(self);
    if (depth < 4 && budget > 0 && !muted && calls < 250) {
      struct G { Interp& i; G(Interp& x, void* s) : i(x) { ++i.depth; i.selfs.push_back(s); } ~G() { --i.depth; i.selfs.pop_back(); } } g(*this, self);
      const std::vector<Op>& sc = P.scripts[1 + fnid % NFN];
      for (size_t i = 0; i < sc.size() && budget > 0; ++i) step(sc[i]);
    }
    if (uid > 0) check_alive('b', uid);
    log('T', fnid, uid);
    return (fnid + 1) * 1000 + uid * 7 + arg;
  }
  int classify() { return w.classify(); }
  void throw_exc(int kind, int v) { w.throw_exc(kind, v); }
  void comb_script(int id) {
    if (depth >= 4 || budget <= 0 || calls >= 250) return;
    struct G { Interp& i; G(Interp& x) : i(x) { ++i.depth; i.selfs.push_back(0); } ~G() { --i.depth; i.selfs.pop_back(); } } g(*this); ++cnt["combiner_scripts"];
    const std::vector<Op>& sc = P.scripts[1 + (id / 3) % NFN]; for (size_t i = 0; i < sc.size() && budget > 0; ++i) step(sc[i]);
  }
  void run() {
    const std::vector<Op>& sc = P.scripts[0];
    for (size_t i = 0; i < sc.size() && budget > 0; ++i) { step(sc[i]); if (unspec) return; }
    Op o; memset(&o, 0, sizeof o); o.code = O_chk; step(o); o.code = O_obs; o.a[0] = 255; step(o);
    for (int s = 0; s < NSIG; ++s) { o.code = O_emit; o.a[0] = s; o.a[1] = 3; o.a[2] = 0; budget += 60; emit_budget += 20; f_type = 0; step(o); }
    o.code = O_chk; step(o);
  }
  void finish() { // destroy everything; nothing may be left
    // destroy in a script-dependent order
    w.clear_all(P.scripts[0].size() % 3);
    if (!unspec) { w.chk_final(); }
  }

  struct FaultScope { Interp& i; bool was; bool on; FaultScope(Interp& x) : i(x), was(x.muted), on(x.f_type != 0) { if (on) { i.muted = true; } } ~FaultScope() { i.muted = was; i.f_type = 0; } };
  // run a library operation which may be told to fail; returns true if it failed (model: told so)
  template<class F> bool maybe_fail(F f) {
    if (!f_type) { f(false); return false; }
    FaultScope fs(*this); ++cnt["fault_ops"];
    bool failed;
    if (W::is_model) { failed = out_i < outcomes->size() ? (*outcomes)[out_i++] != 0 : false; if (!failed) f(false); }
    else { failed = w.with_fault(f_type, f_k, [&] { f(false); }); outcomes->push_back(failed); }
    if (failed) { ++cnt["faults_hit"]; if (emitting) ++cnt["mid_faults_hit"]; }
    return failed;
  }
  // disconnect(f) may fail after ending some of the connections it has to end; the
  // caller retries: then all of them have ended, and no other connection has
  template<class F> void maybe_fail_retry(F f) { bool was = muted; const bool on = f_type != 0; if (maybe_fail(f) && on) { muted = true; f(false); muted = was; } }

  void step(const Op& o) {
    --budget; if (unspec) return;
    const int* a = o.a; const int s = a[0] % NSIG; bool mid = emitting > 0;
    int ft = f_type; bool faultable = false;
    switch (o.code) { case O_conn: case O_connx: case O_conno: case O_connxo: case O_connref: case O_connsig: case O_emit: case O_disch: case O_discg: case O_discf: case O_discx: case O_discs: case O_discall: case O_scomb: case O_snum: case O_blk: case O_bnew: case O_smv: faultable = true; break; default: break; }
    if (!faultable && o.code != O_fault) { f_type = 0; ft = 0; }
    (void)ft;
    switch (o.code) {
    case O_fault: f_type = 1 + a[0] % 3; f_k = a[1] % 24; break;
    case O_conn: case O_connx: case O_connref: { // s h fn pos grp
      if (!usable(s)) break; int fn = a[2] % NFN; int uid = o.code == O_connref ? w.ref_uid(fn) : new_uid(); int id = cid++; int g = a[4] % (NG + 1) - 1; int h = a[1] % NH; bool front = a[3] % 2;
      bool failed = maybe_fail([&](bool) { if (o.code == O_conn) w.conn(s, h, fn, uid, front, g, id); else if (o.code == O_connx) w.connx(s, h, fn, uid, front, g, id); else w.connref(s, h, fn, front, g, id); });
      if (failed) w.reg_none(id); ++cnt["connects"]; if (mid) ++cnt["mid_connects"]; if (g >= 0) ++cnt["group_connects"]; if (front) ++cnt["front_connects"]; if (o.code == O_connx) ++cnt["ext_connects"]; break; }
    case O_conno: { int sl = a[2] % NSL; if (!usable(s) || !sl_ex[sl] || sl_use[sl]) break; int id = cid++; int g = a[4] % (NG + 1) - 1;
      bool failed = maybe_fail([&](bool) { w.conno(s, a[1] % NH, sl, a[3] % 2, g, id); }); if (failed) w.reg_none(id); ++cnt["connects"]; ++cnt["slotobj_connects"]; if (mid) ++cnt["mid_connects"]; break; }
    case O_connxo: { int x = a[2] % NXS; if (!usable(s) || !xs_ex[x]) break; int id = cid++; int g = a[4] % (NG + 1) - 1;
      bool failed = maybe_fail([&](bool) { w.connxo(s, a[1] % NH, x, a[3] % 2, g, id); }); if (failed) w.reg_none(id); ++cnt["connects"]; ++cnt["ext_connects"]; if (mid) ++cnt["mid_connects"]; break; }
    case O_connbind: { int ob = a[3] % NOB; if (!usable(s) || ob_kind[ob] != 2) break; w.connbind(s, a[1] % NH, a[2] % NFN, new_uid(), ob, a[4] % 6, cid++); ++cnt["connects"]; ++cnt["bind_connects"]; break; }
    case O_connsig: { int s2 = a[2] % NSIG; if (!W::C::has_sigslot || !usable(s) || !usable(s2)) break; int id = cid++; int g = a[4] % (NG + 1) - 1; bool failed = maybe_fail([&](bool) { w.connsig(s, a[1] % NH, s2, a[3] % 2, g, id); }); if (failed) w.reg_none(id); ++cnt["connects"]; ++cnt["sig_connects"]; break; }
    case O_bulk: { if (!usable(s)) break; int n = 1 + a[1] % 16, pat = a[2]; for (int i = 0; i < n && cid < 120; ++i) { int g = ((i * (1 + pat % 5) + pat / 5) % (NG + 1)) - 1; if (pat % 7 == 0) g = -1; w.conn(s, NH - 1, a[3] % NFN, new_uid(), (i * pat / 3) % 2, g, cid); ++cid; ++cnt["connects"]; } if (mid) ++cnt["mid_connects"]; break; }
    case O_disch: if (!maybe_fail([&](bool) { w.disch(a[0] % NH); })) { if (mid) ++cnt["mid_disc"]; } break;
    case O_discg: if (ok(s)) { maybe_fail([&](bool) { w.discg(s, a[1] % NG); }); if (mid) ++cnt["mid_disc"]; } break;
    case O_discf: if (ok(s)) { maybe_fail_retry([&](bool) { w.discf(s, a[1] % NFN, a[2] % 2); }); if (mid) ++cnt["mid_disc"]; } break;
    case O_discx: if (ok(s)) { maybe_fail_retry([&](bool) { w.discx(s, a[1] % NFN); }); if (mid) ++cnt["mid_disc"]; } break;
    case O_discs: if (W::C::has_sigslot && ok(s) && usable(a[1] % NSIG)) { maybe_fail_retry([&](bool) { w.discs(s, a[1] % NSIG); }); } break;
    case O_discall: if (ok(s)) { maybe_fail([&](bool) { w.discall(s); }); if (mid) ++cnt["mid_disc"]; } break;
    case O_discreg: { int m = 2 + a[1] % 5; w.discreg(a[0] % m, m); if (mid) ++cnt["mid_disc"]; break; }
    case O_hcopy: w.hcopy(a[0] % NH, a[1] % NH, a[2] % 2); break;
    case O_hmove: w.hmove(a[0] % NH, a[1] % NH, a[2] % 2); break;
    case O_hswap: w.hswap(a[0] % NH, a[1] % NH, a[2] % 2); break;
    case O_hclr: w.hclr(a[0] % NH); break;
    case O_heq: w.heq(a[0] % NH, a[1] % NH); ++cnt["handle_compares"]; break;
    case O_hst: w.hst(a[0] % NH); ++cnt["handle_queries"]; break;
    case O_hfromb: w.hfromb(a[0] % NH, a[1] % NBL); break;
    case O_scnew: w.scnew(a[0] % NSC, a[1] % NH, a[2] % 4); ++cnt["scoped"]; break;
    case O_scasg: w.scasg(a[0] % NSC, a[1] % NH, a[2] % 4); break;
    case O_scmv: w.scmv(a[0] % NSC, a[1] % NSC, a[2] % 2); ++cnt["scoped"]; break;
    case O_scmc: w.scmc(a[0] % NSC, a[1] % NSC); ++cnt["scoped"]; break;
    case O_scmvh: w.scmvh(a[0] % NSC, a[1] % NH, a[2] % 3); break;
    case O_scsw: w.scsw(a[0] % NSC, a[1] % NSC, a[2] % 2); break;
    case O_screl: w.screl(a[0] % NSC, a[1] % NH, a[2] % 3); break;
    case O_scdel: w.scdel(a[0] % NSC); break;
    case O_scst: w.scst(a[0] % NSC); break;
    case O_bnew: { int k = a[0] % NBL; if (maybe_fail([&](bool) { w.bnew(k, a[1] % NH, a[2] % 3); })) w.bkeep(k); ++cnt["blocks"]; break; }
    case O_bcp: w.bcp(a[0] % NBL, a[1] % NBL); ++cnt["blocks"]; break;
    case O_basg: w.basg(a[0] % NBL, a[1] % NBL); ++cnt["blocks"]; break;
    case O_blk: maybe_fail([&](bool) { w.blk(a[0] % NBL); }); if (mid) ++cnt["mid_block"]; break;
    case O_unb: w.unb(a[0] % NBL); if (mid) ++cnt["mid_block"]; break;
    case O_bdel: w.bdel(a[0] % NBL); break;
    case O_bst: w.bst(a[0] % NBL); break;
    case O_emit: {
      if (!usable(s) || (depth > 0 && calls > 200)) break; bool prop = (a[2] & 2) && depth > 0; int r = 0; char res = 'v';
      if (f_type) { maybe_fail([&](bool) { w.emit(s, a[1] % 50, a[2] & 1, true); }); ++cnt["emits"]; break; }
      struct G { int& e; G(int& x) : e(x) { ++e; } ~G() { --e; } } g(emitting); if (mid) ++cnt["nested_emits"]; ++cnt["emits"];
      try { r = w.emit(s, a[1] % 50, a[2] & 1, false); }
      catch (...) { int e = w.classify(); ++cnt["exc_emits"]; if (e < 0 && e != -7 && e != -8) ++cnt["other_exceptions"]; log('X', e); if (prop) throw; res = 'x'; }
      if (res == 'v') log('R', r);
      break; }
    case O_sdel: if (ok(s)) { sm[s].exists = false; w.sdel(s); if (mid) ++cnt["mid_sdel"]; } break;
    case O_snew: if (!ok(s)) { w.snew(s, a[1] % NCOMB); sm[s].exists = true; sm[s].null = false; } break;
    case O_smv: { int b = a[1] % NSIG; if (!ok(s) || !ok(b)) break; f_type = 0; w.smv(s, b); if (s != b) { sm[s].null = sm[b].null; sm[b].null = true; } ++cnt["sig_moves"]; if (mid) ++cnt["mid_moves"]; break; }
    case O_smc: { int b = a[1] % NSIG; if (ok(s) || !ok(b) || s == b) break; w.smc(s, b); sm[s].exists = true; sm[s].null = sm[b].null; sm[b].null = true; ++cnt["sig_moves"]; if (mid) ++cnt["mid_moves"]; break; }
    case O_ssw: { int b = a[1] % NSIG; if (!ok(s) || !ok(b)) break; w.ssw(s, b, a[2] % 3); std::swap(sm[s].null, sm[b].null); ++cnt["sig_moves"]; if (mid) ++cnt["mid_moves"]; break; }
    case O_snull: if (ok(s)) w.snull(s); break;
    case O_snum: if (ok(s)) maybe_fail([&](bool) { w.snum(s); }); break;
    case O_sempty: if (ok(s)) w.sempty(s); break;
    case O_scomb: if (usable(s)) { maybe_fail([&](bool) { w.scomb(s, a[1] % NCOMB); }); if (mid) ++cnt["mid_scomb"]; ++cnt["set_combiner"]; } break;
    case O_gcomb: if (usable(s)) w.gcomb(s); break;
    case O_seq: if (ok(s) && ok(a[1] % NSIG)) w.seq(s, a[1] % NSIG); break;
    case O_onew: { int ob = a[0] % NOB; int k = a[1] % 3; if (ob_kind[ob] >= 0 && mid) ++cnt["mid_odrop"]; int id = new_oid(); w.onew(ob, k, id); ob_kind[ob] = k; ob_oid[ob] = id; break; }
    case O_odrop: { int ob = a[0] % NOB; if (ob_kind[ob] < 0) break; ob_kind[ob] = -1; w.odrop(ob); if (mid) ++cnt["mid_odrop"]; ++cnt["odrop"]; break; }
    case O_odup: { int x = a[0] % NOB, y = a[1] % NOB; if (x == y || ob_kind[y] < 0) break; if (ob_kind[y] == 2) { int id = new_oid(); w.odup(x, y, id, a[2] % 2); ob_kind[x] = 2; ob_oid[x] = id; break; } w.odup(x, y, 0, 0); ob_kind[x] = ob_kind[y]; ob_oid[x] = ob_oid[y]; break; }
    case O_slnew: { int l = a[0] % NSL; if (sl_use[l]) break; int u = new_uid(); w.slnew(l, a[1] % NFN, u); sl_ex[l] = true; sl_uid[l] = u; sl_fn[l] = a[1] % NFN; sl_plain[l] = true; sl_oids[l].clear(); sl_n[l] = 0; break; }
    case O_xlnew: { int l = a[0] % NXS; int u = new_uid(); w.xlnew(l, a[1] % NFN, u); xs_ex[l] = true; xs_uid[l] = u; xs_fn[l] = a[1] % NFN; xs_n[l] = 0; break; }
    case O_sltrk: { int l = a[0] % NSL, ob = a[1] % NOB; if (!sl_ex[l] || sl_use[l] || ob_kind[ob] < 0 || ob_kind[ob] == 2) break; track(l, ob, a[2] % 2); ++cnt["tracks"]; break; }
    case O_slbulk: { int l = a[0] % NSL, n = 1 + a[1] % NOB; if (!sl_ex[l] || sl_use[l]) break; for (int i = 0; i < n; ++i) { int ob = i; if (ob_kind[ob] < 0 && a[2] % 2) { int id = new_oid(); int k = i % 2; w.onew(ob, k, id); ob_kind[ob] = k; ob_oid[ob] = id; } if (ob_kind[ob] < 0 || ob_kind[ob] == 2) continue; track(l, ob, i % 2); ++cnt["tracks"]; } break; }
    case O_slsig: { int l = a[0] % NSL, s2 = a[1] % NSIG; if (!sl_ex[l] || sl_use[l] || !usable(s2) || sl_n[l] >= MAXTRK) break; ++sl_n[l]; w.slsig(l, s2); ++cnt["tracks"]; break; }
    case O_sltsl: { int l = a[0] % NSL, m = a[1] % NSL; if (l == m || !sl_ex[l] || sl_use[l] || !sl_ex[m] || sl_n[l] + sl_n[m] > MAXTRK) break; sl_n[l] += sl_n[m]; rebump(l); w.sltsl(l, m); sl_oids[l].insert(sl_oids[l].end(), sl_oids[m].begin(), sl_oids[m].end()); if (sl_plain[l]) uid_track[sl_uid[l]] = sl_oids[l]; ++cnt["tracks"]; break; }
    case O_slcp: case O_slasg: { int l = a[0] % NSL, m = a[1] % NSL; if (l == m || sl_use[l] || !sl_ex[m]) break; if (o.code == O_slasg && !sl_ex[l]) break; w.slcp(l, m, o.code == O_slasg); sl_ex[l] = true; sl_uid[l] = sl_uid[m]; sl_fn[l] = sl_fn[m]; sl_plain[l] = sl_plain[m]; sl_oids[l] = sl_oids[m]; sl_n[l] = sl_n[m]; break; }
    case O_slcall: { int l = a[0] % NSL; if (!sl_ex[l]) break; if (depth >= 4 || emit_budget-- <= 0) break; struct G { int& u; G(int& x) : u(x) { ++u; } ~G() { --u; } } g(sl_use[l]); ++cnt["slot_direct_calls"];
      try { int r = w.slcall(l, a[1] % 50, a[2] & 1); log('r', r); }
      catch (...) { int e = w.classify(); log('X', e); if (e == -7) ++cnt["slot_direct_expired"]; } break; }
    case O_slst: if (sl_ex[a[0] % NSL]) w.slst(a[0] % NSL); break;
    case O_sllock: if (sl_ex[a[0] % NSL]) { ++cnt["slot_locks"]; try { w.sllock(a[0] % NSL); } catch (typename W::Expired&) { log('X', -7); } } break;
    case O_slfsig: { int l = a[0] % NSL; if (!W::C::has_sigslot || sl_use[l] || !usable(a[1] % NSIG)) break; w.slfsig(l, a[1] % NSIG); sl_ex[l] = true; sl_uid[l] = 0; sl_plain[l] = false; sl_oids[l].clear(); sl_n[l] = 1; break; }
    case O_slconv: { int l = a[0] % NSL, m = a[2] % NSL; if (sl_use[l] || l == m) break; int u = new_uid(); w.slconv(l, a[1] % NFN, u, a[3] % 3, m, sl_ex[m]); sl_ex[l] = true; sl_uid[l] = u; sl_plain[l] = false; sl_oids[l].clear(); sl_n[l] = sl_ex[m] ? sl_n[m] : 0; ++cnt["slot_conversions"]; break; }
    case O_slbind: { int l = a[0] % NSL, ob = a[2] % NOB; if (sl_use[l] || ob_kind[ob] != 2) break; int u = new_uid(); w.slbind(l, a[1] % NFN, u, ob, a[3] % 6); sl_ex[l] = true; sl_uid[l] = u; sl_plain[l] = false; sl_oids[l].clear(); sl_n[l] = 1; break; }
    case O_xltrk: { int l = a[0] % NXS, ob = a[1] % NOB; if (!xs_ex[l] || ob_kind[ob] < 0 || ob_kind[ob] == 2 || xs_n[l] >= MAXTRK) break; ++xs_n[l]; w.xltrk(l, ob, a[2] % 2); ++cnt["tracks"]; break; }
    case O_xlsl: { int l = a[0] % NXS, m = a[1] % NSL; if (!xs_ex[l] || !sl_ex[m] || xs_n[l] + sl_n[m] > MAXTRK) break; xs_n[l] += sl_n[m]; w.xlsl(l, m); ++cnt["tracks"]; break; }
    case O_thr: if (depth > 0) { w.throw_exc(a[0], a[1] % 10); } break;
    case O_xdisc: if (!selfs.empty() && selfs.back()) { w.xdisc(selfs.back()); ++cnt["self_disc"]; } break;
    case O_xst: if (!selfs.empty() && selfs.back()) w.log_self(selfs.back()); break;
    case O_xsave: if (!selfs.empty() && selfs.back()) w.xsave(selfs.back(), a[0] % NH); break;
    case O_xblk: if (!selfs.empty() && selfs.back()) { w.xblk(selfs.back(), a[0] % NBL); ++cnt["blocks"]; } break;
    case O_obs: { for (int i = 0; i < NSIG; ++i) if (ok(i)) { if (a[0] & 1) w.snum(i); if (a[0] & 2) w.sempty(i); if (a[0] & 4) w.snull(i); } if (a[0] & 8) for (int i = 0; i < NH; ++i) w.hst(i); if (a[0] & 16) for (int i = 0; i < NSC; ++i) w.scst(i); if (a[0] & 32) for (int i = 0; i < NBL; ++i) w.bst(i); break; }
    case O_chk: if (depth == 0 && emitting == 0) { w.chk(next_uid, next_oid); ++cnt["lifetime_checks"]; } break;
    }
  }
  void rebump(int l) { if (sl_plain[l]) { int u = new_uid(); w.slbump(l, sl_fn[l], u); sl_uid[l] = u; uid_track[u] = sl_oids[l]; } }
  void track(int l, int ob, int form) { if (sl_n[l] >= MAXTRK) return; ++sl_n[l]; rebump(l); w.sltrk(l, ob, form); sl_oids[l].push_back(ob_oid[ob]); if (sl_plain[l]) uid_track[sl_uid[l]] = sl_oids[l]; }
};

} // namespace ea
#endif
