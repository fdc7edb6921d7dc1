// The model world of engine A: what the documentation says, written without the library.
#ifndef VERIF_ENGINEA_MODEL_HPP
#define VERIF_ENGINEA_MODEL_HPP
#include "enginea.hpp"
namespace ea {

struct MExpired { int code; explicit MExpired(int c = -7) : code(c) {} };
struct MExc { int code; };
struct MNoSlots {};

template<class CfgT> struct Model {
  typedef CfgT C; enum { is_model = 1 }; typedef MExpired Expired; typedef MNoSlots NoSlots;
  struct MTk { Host& H; int oid; MTk(Host& h, int o) : H(h), oid(o) { H.alive[o] = true; } ~MTk() { H.alive[oid] = false; } };
  struct MTrk { Host& H; int oid; MTrk(Host& h, int o) : H(h), oid(o) { H.alive[o] = true; } ~MTrk() { H.alive[oid] = false; } };
  struct MConn; struct MImpl;
  struct MTrack { int kind; std::weak_ptr<MTk> o; std::weak_ptr<MTrk> t; std::weak_ptr<MImpl> s; };
  enum FnKind { PLAIN, EXT, REF, SIGNAL, BIND, CONV };
  struct MSlot { FnKind kind; int fnid, uid; std::weak_ptr<MImpl> target; std::vector<MTrack> tr; };
  struct MConn { int cid, meta, grp; bool flag = true, emission_expired = false; MSlot slot; std::weak_ptr<int> blocker; std::weak_ptr<MImpl> owner; int active = 0; };
  typedef std::shared_ptr<MConn> CP; typedef std::weak_ptr<MConn> CW;
  struct MComb { int id, n; };
  struct MImpl { std::vector<CP> list; std::shared_ptr<MComb> comb; bool has_object = true; ~MImpl() { } };
  typedef std::shared_ptr<MImpl> IP;
  typedef std::vector<std::shared_ptr<void> > Locks;
  Host& H;
  IP sg[NSIG]; bool ex[NSIG]; CW h[NH]; struct MSc { bool ex = false; CW c; } sc[NSC]; struct MBl { bool ex = false; CW c; std::shared_ptr<int> b; } bl[NBL];
  struct Ob { std::shared_ptr<MTk> o; std::shared_ptr<MTrk> t; } ob[NOB];
  std::unique_ptr<MSlot> sl[NSL], xs[NXS]; std::vector<CW> reg; std::vector<int> regx; std::vector<CW> all; int nsame = 0;
  explicit Model(Host& x) : H(x) { for (bool& e : ex) e = false; }

  int ref_uid(int) { return MAXUID - 1; }
  template<class F> bool with_fault(int, int, F) { return false; }
  int classify() { try { throw; } catch (MExpired& e) { return e.code; } catch (MNoSlots&) { return -8; } catch (MExc& e) { return e.code; } }
  void throw_exc(int kind, int v) { kind %= 8; if (kind == 2) throw MExpired(); if (kind == 3) throw MExpired(-20 - v); MExc e; e.code = kind < 2 ? v : kind == 4 ? -9 : kind == 5 ? 100 + v : kind == 6 ? -40 - v : -60 - v; throw e; }
  void bkeep(int) {}
  // ---- helpers
  bool less(int a, int b) const { return C::grp == 0 ? a < b : C::grp == 1 ? a > b : a / 2 < b / 2; }
  bool before(int m1, int g1, int m2, int g2) const { if (m1 != m2) return m1 < m2; return m1 == 1 && less(g1, g2); }
  bool track_expired(const MTrack& t) { if (t.kind == 2) return t.t.expired(); if (t.kind == 3) { IP p = t.s.lock(); if (p && !p->has_object) H.set_unspec(); return !p; } return t.o.expired(); }
  bool expired(const MSlot& s) { for (auto& t : s.tr) if (track_expired(t)) return true; return false; }
  // 1 yes, 0 no, ANY
  int conn_state(const CP& c) { if (!c || !c->flag) return 0; if (expired(c->slot)) return 0; IP o = c->owner.lock(); if (!o || !o->has_object) return ANY; return 1; }
  int blocked_state(const CP& c) { int s = conn_state(c); if (c && !c->blocker.expired() && s) return 1; return s == ANY ? ANY : s == 0 ? 1 : 0; }
  void disconnect(const CP& c) { if (c && c->flag) { c->flag = false; } }
  CP insert(int s, FnKind kind, int fn, int uid, bool front, int g, int id) {
    CP c(new MConn); c->cid = id; c->meta = g >= 0 ? 1 : front ? 0 : 2; c->grp = g; c->slot.kind = kind; c->slot.fnid = fn; c->slot.uid = uid; c->owner = sg[s];
    std::vector<CP>& l = sg[s]->list; size_t i = 0;
    if (front) { while (i < l.size() && before(l[i]->meta, l[i]->grp, c->meta, c->grp)) ++i; }
    else { while (i < l.size() && !before(c->meta, c->grp, l[i]->meta, l[i]->grp)) ++i; }
    l.insert(l.begin() + i, c); return c;
  }
  void put(int hh, int id, const CP& c, bool x = false) { if ((int)reg.size() <= id) { reg.resize(id + 1); regx.resize(id + 1); } reg[id] = c; regx[id] = x; h[hh] = c; }
  void reg_none(int id) { if ((int)reg.size() <= id) { reg.resize(id + 1); regx.resize(id + 1); } }
  // ---- operations
  void conn(int s, int hh, int fn, int uid, bool front, int g, int id) { put(hh, id, insert(s, PLAIN, fn, uid, front, g, id)); }
  void connx(int s, int hh, int fn, int uid, bool front, int g, int id) { put(hh, id, insert(s, EXT, fn, uid, front, g, id), true); }
  void connref(int s, int hh, int fn, bool front, int g, int id) { put(hh, id, insert(s, REF, fn, MAXUID - 1, front, g, id)); }
  void conno(int s, int hh, int l, bool front, int g, int id) { MSlot cp(*sl[l]); CP c = insert(s, PLAIN, 0, 0, front, g, id); c->slot = cp; put(hh, id, c); }
  void connxo(int s, int hh, int l, bool front, int g, int id) { MSlot cp(*xs[l]); CP c = insert(s, EXT, 0, 0, front, g, id); c->slot = cp; put(hh, id, c, true); }
  MTrack trk_of(int o) { MTrack t; t.kind = ob[o].t ? 2 : 0; t.o = ob[o].o; t.t = ob[o].t; return t; }
  MTrack trk_sig(const IP& p) { MTrack t; t.kind = 3; t.s = p; return t; }
  void connbind(int s, int hh, int fn, int uid, int o, int form, int id) { if (form == 5) { uid = MAXUID - 1; fn = ob[o].t->oid % NFN; } CP c = insert(s, BIND, fn, uid, false, -1, id); c->slot.tr.push_back(trk_of(o)); put(hh, id, c); }
  void connsig(int s, int hh, int s2, bool front, int g, int id) { CP c = insert(s, SIGNAL, 0, 0, front, g, id); c->slot.target = sg[s2]; c->slot.tr.push_back(trk_sig(sg[s2])); put(hh, id, c); }
  void disch(int i) { disconnect(h[i].lock()); }
  void discg(int s, int g) { if (!sg[s]) return; for (auto& c : sg[s]->list) if (c->meta == 1 && !less(c->grp, g) && !less(g, c->grp)) disconnect(c); }
  void discf(int s, int fn, int) { if (!sg[s]) return; for (auto& c : sg[s]->list) if ((c->slot.kind == PLAIN || c->slot.kind == REF) && c->slot.fnid == fn) disconnect(c); }
  void discx(int s, int fn) { if (!sg[s]) return; for (auto& c : sg[s]->list) if (c->slot.kind == EXT && c->slot.fnid == fn) disconnect(c); }
  void discs(int s, int s2) { if (!sg[s]) return; for (auto& c : sg[s]->list) if (c->slot.kind == SIGNAL && c->slot.target.lock() == sg[s2]) disconnect(c); }
  void discall(int s) { if (!sg[s]) return; for (auto& c : sg[s]->list) disconnect(c); }
  void discreg(int k, int m) { for (size_t i = k; i < reg.size(); i += m) disconnect(reg[i].lock()); }
  void hcopy(int a, int b, int) { h[a] = h[b]; }
  void hmove(int a, int b, int) { if (a == b) return; h[a] = h[b]; h[b].reset(); H.log('m', 0); }
  void hswap(int a, int b, int) { h[a].swap(h[b]); }
  void hclr(int a) { h[a].reset(); }
  void heq(int a, int b) { CP x = h[a].lock(), y = h[b].lock(); int cx = conn_state(x), cy = conn_state(y); 
    if (a == b || (x && x == y && cx == 1)) { H.log('q', 1, 0, 0); return; }
    if (cx == 1 || cy == 1) { H.log('q', 0, 1, 1); return; } // a connected one differs from anything else
    H.log('q', ANY, ANY, ANY); }
  void hst(int a) { CP c = h[a].lock(); H.log('h', a, conn_state(c), blocked_state(c)); }
  void hfromb(int a, int k) { if (bl[k].ex) h[a] = bl[k].c; }
  void scnew(int k, int a, int) { CW t = h[a]; scdel(k); sc[k].ex = true; sc[k].c = t; }
  void scasg(int k, int a, int f) { if (!sc[k].ex) return; int j = a % NSC; if (f == 3 && !sc[j].ex) return; CW t = f == 3 ? sc[j].c : h[a]; disconnect(sc[k].c.lock()); sc[k].c = t; }
  void scmv(int k, int j, int) { if (!sc[k].ex || !sc[j].ex || k == j) return; disconnect(sc[k].c.lock()); sc[k].c = sc[j].c; sc[j].c.reset(); }
  void scmc(int k, int j) { if (k == j || !sc[j].ex) return; CW t = sc[j].c; sc[j].c.reset(); scdel(k); sc[k].ex = true; sc[k].c = t; }
  void scmvh(int k, int a, int f) { if (sc[k].ex && f == 2) sc[k].c.swap(h[a]); else if (sc[k].ex) { CW t = h[a]; h[a].reset(); disconnect(sc[k].c.lock()); sc[k].c = t; H.log('m', 0); } }
  void scsw(int k, int j, int) { if (sc[k].ex && sc[j].ex) sc[k].c.swap(sc[j].c); }
  void screl(int k, int a, int) { if (sc[k].ex) { h[a] = sc[k].c; sc[k].c.reset(); H.log('m', 0); } }
  void scdel(int k) { if (sc[k].ex) { disconnect(sc[k].c.lock()); sc[k].c.reset(); sc[k].ex = false; } }
  void scst(int k) { if (sc[k].ex) { CP c = sc[k].c.lock(); H.log('s', k, conn_state(c), blocked_state(c)); } }
  static void mblock(MBl& b) { if (b.b) return; CP c = b.c.lock(); if (!c) { b.b = std::make_shared<int>(0); return; } b.b = c->blocker.lock(); if (!b.b) { b.b = std::make_shared<int>(1); c->blocker = b.b; } }
  void bnew(int k, int a, int init) { MBl n; n.ex = true; n.c = h[a]; if (init) mblock(n); bl[k] = n; }
  void bcp(int k, int j) { if (k != j && bl[j].ex) bl[k] = bl[j]; }
  void basg(int k, int j) { if (bl[k].ex && bl[j].ex) bl[k] = bl[j]; }
  void blk(int k) { if (bl[k].ex) mblock(bl[k]); }
  void unb(int k) { if (bl[k].ex) bl[k].b.reset(); }
  void bdel(int k) { bl[k] = MBl(); }
  void bst(int k) { if (bl[k].ex) H.log('k', k, bl[k].b ? 1 : 0, conn_state(bl[k].c.lock())); }

  // ---- invocation
  int call_slot(const MSlot& s, int arg, const CP& self) {
    if (s.kind == SIGNAL) { IP p = s.target.lock(); if (!p) { H.set_unspec(); return 0; } return emit_impl(p, arg, false); }
    if (s.kind == EXT) { CW c = self; return H.run_fn(s.fnid, s.uid, arg, &c); }
    return H.run_fn(s.fnid, s.uid, arg, 0);
  }
  struct Inv { // one invocation: cursor over the slots connected when it started
    Model& M; std::vector<CP> list; size_t pos; int arg; Locks locks; CP active; bool have; int val; unsigned nconn = 0, ndisc = 0;
    Inv(Model& m, const IP& impl, int a) : M(m), list(impl->list), pos(0), arg(a), have(false), val(0) { find(); }
    ~Inv() { if (active) --active->active; }
    void find() {
      for (; pos < list.size(); ++pos) {
        CP c = list[pos];
        release(pos);
        bool exp = false; for (auto& t : c->slot.tr) { if (M.track_expired(t)) { exp = true; break; } if (t.kind == 0) locks.push_back(t.o.lock()); else if (t.kind == 3) locks.push_back(t.s.lock()); }
        if (exp && c->flag) { c->flag = false; ++M.H.cnt["expiries_found"]; }
        if (c->flag) ++nconn; else ++ndisc;
        if (c->flag && !c->blocker.expired()) ++M.H.cnt["blocked_skips"];
        if (c->flag && c->blocker.expired()) { if (active) --active->active; active = c; ++c->active; return; }
      }
      if (active) --active->active; active.reset();
    }
    void release(size_t from) { // drop the previous slot's locks; if that ends an object a later slot tracks, the order is unspecified
      if (locks.empty()) return; bool will_die = false; for (auto& l : locks) if (l.use_count() == 1) will_die = true;
      std::map<void*, int> n; for (auto& l : locks) ++n[l.get()]; for (auto& l : locks) if (l.use_count() <= n[l.get()]) will_die = true;
      if (will_die) { std::set<void*> dying; for (auto& l : locks) if (l.use_count() <= n[l.get()]) dying.insert(l.get());
        for (size_t i = from; i < list.size(); ++i) if (list[i]->flag) for (auto& t : list[i]->slot.tr) { void* p = t.kind == 0 ? (void*)t.o.lock().get() : t.kind == 3 ? (void*)t.s.lock().get() : 0; if (p && dying.count(p)) { M.H.set_unspec(); } } }
      locks.clear();
    }
    int deref() { if (!have) { if (pos >= list.size()) { M.H.set_unspec(); return 0; } CP c = list[pos];
        try { val = M.call_slot(c->slot, arg, c); } catch (MExpired&) { M.disconnect(c); throw; }
        if (C::is_void) val = 0; have = true; } return val; }
    void inc() { ++pos; find(); have = false; }
  };
  struct It { Inv* i; bool operator==(const It& o) const { return end() == o.end(); } bool operator!=(const It& o) const { return !(*this == o); } bool end() const { return !i || i->pos >= i->list.size(); } int operator*() const { return i->deref(); } It& operator++() { i->inc(); return *this; } struct Post { int v; int operator*() const { return v; } }; Post operator++(int) { Post p = { i->deref() }; i->inc(); return p; } };
  int emit_impl(IP impl, int arg, bool cst) {
    std::shared_ptr<MComb> cb = impl->comb; Inv inv(*this, impl, arg); It f = { &inv }, l = { 0 };
    struct EG { int& d; EG(int& x) : d(x) { ++d; } ~EG() { --d; } };
    if (C::comb == 0) { if (!cst) ++cb->n; return comb_run<It>(H, cb->id, cb->n, cst, f, l); }
    if (C::comb != 1 && H.emit_budget-- <= 0) return C::comb == 3 ? -1 : 0;
    bool any = false, slots = false; int v = 0;
    while (!f.end()) { slots = true; try { int x = *f; any = true; v = x; } catch (MExpired&) {} ++f; }
    (void)slots;
    if (C::comb == 2) return 0; if (C::comb == 1) return any ? v : -999; if (!any) throw MNoSlots(); return v;
  }
  int emit(int s, int arg, int cst, bool) { int sb = H.emit_budget; bool was = H.muted; try { int r = emit_impl(sg[s], arg, cst); if (was) H.emit_budget = sb; return r; } catch (MNoSlots&) { if (was) { H.emit_budget = sb; return 0; } throw; } }
  // ---- signal objects
  void drop(int s) { if (sg[s]) sg[s]->has_object = false; sg[s].reset(); }
  void sdel(int s) { drop(s); ex[s] = false; }
  void snew(int s, int c) { sg[s].reset(new MImpl); sg[s]->comb.reset(new MComb()); sg[s]->comb->id = C::comb == 1 ? 0 : c; sg[s]->comb->n = 0; ex[s] = true; }
  void smv(int a, int b) { if (a == b) return; drop(a); sg[a].swap(sg[b]); }
  void smc(int a, int b) { sg[a] = sg[b]; sg[b].reset(); ex[a] = true; }
  void ssw(int a, int b, int) { if (a != b) sg[a].swap(sg[b]); }
  void snull(int s) { H.log('0', !sg[s]); }
  int num(int s) { if (!sg[s]) return 0; int n = 0; for (auto& c : sg[s]->list) { int x = conn_state(c); if (x) ++n; } return n; }
  void snum(int s) { H.log('n', s, num(s)); }
  void sempty(int s) { H.log('e', s, num(s) == 0); }
  void scomb(int s, int c) { sg[s]->comb.reset(new MComb()); sg[s]->comb->id = C::comb == 1 ? 0 : c; sg[s]->comb->n = 0; }
  void gcomb(int s) { H.log('g', sg[s]->comb->id, H.counts ? sg[s]->comb->n : 0); }
  void seq(int a, int b) { H.log('=', sg[a] == sg[b]); }
  void onew(int o, int k, int id) { ob[o].o.reset(); ob[o].t.reset(); if (k == 2) ob[o].t.reset(new MTrk(H, id)); else ob[o].o.reset(new MTk(H, id)); }
  void odrop(int o) { ob[o].o.reset(); ob[o].t.reset(); }
  void odup(int x, int y, int id, int) { if (ob[y].t) { ob[x].o.reset(); ob[x].t.reset(new MTrk(H, id)); return; } ob[x].t.reset(); ob[x].o = ob[y].o; }
  void slnew(int l, int fn, int u) { sl[l].reset(new MSlot()); sl[l]->kind = PLAIN; sl[l]->fnid = fn; sl[l]->uid = u; }
  void xlnew(int l, int fn, int u) { xs[l].reset(new MSlot()); xs[l]->kind = EXT; xs[l]->fnid = fn; xs[l]->uid = u; }
  void slbump(int l, int fn, int u) { sl[l]->fnid = fn; sl[l]->uid = u; }
  void sltrk(int l, int o, int) { sl[l]->tr.push_back(trk_of(o)); }
  void xltrk(int l, int o, int) { xs[l]->tr.push_back(trk_of(o)); }
  void xlsl(int l, int m) { for (auto& t : sl[m]->tr) xs[l]->tr.push_back(t); }
  void slsig(int l, int s) { sl[l]->tr.push_back(trk_sig(sg[s])); }
  void sltsl(int l, int m) { for (auto& t : std::vector<MTrack>(sl[m]->tr)) sl[l]->tr.push_back(t); }
  void slcp(int l, int m, bool) { sl[l].reset(new MSlot(*sl[m])); }
  int slcall(int l, int arg, int) { MSlot s(*sl[l]); Locks lk; for (auto& t : s.tr) { if (track_expired(t)) throw MExpired(); if (t.kind == 0) lk.push_back(t.o.lock()); else if (t.kind == 3) lk.push_back(t.s.lock()); }
    int r = call_slot(s, arg, CP()); return C::is_void ? 0 : r; }
  void slst(int l) { H.log('l', expired(*sl[l]), int(sl[l]->tr.size())); }
  void sllock(int l) { if (expired(*sl[l])) throw MExpired(); H.log('L', int(sl[l]->tr.size())); }
  void slfsig(int l, int s) { sl[l].reset(new MSlot()); sl[l]->kind = SIGNAL; sl[l]->fnid = 0; sl[l]->uid = 0; sl[l]->target = sg[s]; sl[l]->tr.push_back(trk_sig(sg[s])); }
  void slconv(int l, int fn, int u, int, int m, bool mex) { std::unique_ptr<MSlot> n(new MSlot()); n->kind = CONV; n->fnid = fn; n->uid = u; if (mex) n->tr = sl[m]->tr; sl[l] = std::move(n); }
  void slbind(int l, int fn, int u, int o, int form) { if (form == 5) { u = MAXUID - 1; fn = ob[o].t->oid % NFN; } sl[l].reset(new MSlot()); sl[l]->kind = BIND; sl[l]->fnid = fn; sl[l]->uid = u; sl[l]->tr.push_back(trk_of(o)); }
  void log_self(void* p) { CP c = static_cast<CW*>(p)->lock(); int st = conn_state(c); int who = c ? c->cid : -1; if (st == ANY) H.log('Y', ANY, ANY, ANY); else H.log('Y', st, st ? who : -1, st); }
  void xdisc(void* p) { disconnect(static_cast<CW*>(p)->lock()); }
  void xsave(void* p, int a) { h[a] = *static_cast<CW*>(p); }
  void xblk(void* p, int k) { MBl n; n.ex = true; n.c = *static_cast<CW*>(p); mblock(n); bl[k] = n; }
  void chk(int nu, int no) {
    std::vector<int> st(nu, 0);
    auto mark = [&](const MSlot& s, int v) { if (s.uid > 0 && s.uid < nu) { int& x = st[s.uid]; if (v == 1) x = 1; else if (x != 1) x = ANY; } };
    for (auto& s : sl) if (s) mark(*s, 1); for (auto& s : xs) if (s) mark(*s, 1);
    std::set<MImpl*> seen; for (auto& p : sg) if (p && seen.insert(p.get()).second) for (auto& c : p->list) if (c->flag) mark(c->slot, expired(c->slot) ? ANY : 1); 
    for (int u = 1; u < nu; ++u) H.log('F', u, st[u]); for (int o = 1; o < no; ++o) H.log('O', o, H.alive[o]);
  }
  void clear_all(int) { for (auto& x : sg) x.reset(); for (auto& x : ob) { x.o.reset(); x.t.reset(); } for (auto& x : sl) x.reset(); for (auto& x : xs) x.reset(); for (auto& x : sc) x = MSc(); for (auto& x : bl) x = MBl(); }
  void chk_final() { H.log('Z', 0, 0, 0); }
};
} // namespace ea
#endif
