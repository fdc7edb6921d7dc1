// The real world of engine A: everything goes through the public API of Boost.Signals2.
#ifndef VERIF_ENGINEA_REAL_HPP
#define VERIF_ENGINEA_REAL_HPP
#include "enginea.hpp"
#include <boost/signals2.hpp>
#include <boost/signals2/shared_connection_block.hpp>
#include <boost/bind/bind.hpp>
#include <boost/ref.hpp>
#include <boost/make_shared.hpp>

namespace bs = boost::signals2;
namespace ea {

// ---------------- fault injection
struct Faults { bool armed = false; int type = 0; int left = 0; bool fired = false;
  bool tick(int t) { if (!armed || t != type || fired) return false; if (left-- > 0) return false; fired = true; return true; } };
extern Faults g_faults;
extern long g_live_blocks;

// ---------------- the Mutex handed to the signals: not recursive, checks its own use
struct CheckedMutex {
  bool held = false; 
  static long live, nheld, locks; static const char* error;
  CheckedMutex() { ++live; }
  ~CheckedMutex() { if (held) fail("mutex destroyed while held"); --live; }
  CheckedMutex(const CheckedMutex&) = delete; CheckedMutex& operator=(const CheckedMutex&) = delete;
  static void fail(const char* m) { printf("FAIL %s\n", m); fflush(stdout); _exit(3); }
  void lock() { if (held) fail("lock() of a mutex already held by this thread (self-deadlock)"); if (nheld) fail("lock() of a second library mutex while one is held"); held = true; ++nheld; ++locks; }
  bool try_lock() { if (held) return false; lock(); return true; }
  void unlock() { if (!held) fail("unlock() of a mutex that is not held"); held = false; --nheld; }
};
inline void user_code(const char* what) { if (CheckedMutex::nheld) { static char b[200]; snprintf(b, sizeof b, "%s with a library mutex held", what); CheckedMutex::fail(b); } }

// ---------------- functors
struct Census { int n[MAXUID]; };
extern Census g_fn, g_ob;
struct Payload { int uid; explicit Payload(int u) : uid(u) { ++g_fn.n[uid]; } ~Payload() { --g_fn.n[uid]; user_code("slot function destroyed"); } };
struct FnBase {
  int fnid, uid; unsigned magic; boost::shared_ptr<Payload> p; int pad[4];
  FnBase(int f, int u) : fnid(f), uid(u), magic(0xfeed1234u), p(new Payload(u)) { pad[0] = 0; }
  FnBase(const FnBase& o) : fnid(o.fnid), uid(o.uid), magic(o.magic), p(o.p) { if (g_faults.tick(2)) { InjectedExc e; e.v = 2; throw e; } check("copied"); }
  ~FnBase() { check("destroyed"); magic = 0xdead; }
  void check(const char* w) const { if (magic != 0xfeed1234u) { printf("FAIL slot function corrupt when %s\n", w); fflush(stdout); _exit(3); } }
  int go(int arg, void* self) const { check("called"); user_code("slot called"); boost::shared_ptr<Payload> guard; int u = uid; const FnBase* me = this; int r = g_host->run_fn(fnid, uid, arg, self); 
    if (me->magic != 0xfeed1234u || me->uid != u) { printf("FAIL slot function destroyed while running\n"); fflush(stdout); _exit(3); } user_code("slot returned"); return r; }
  bool eq(const FnBase& o) const { return fnid == o.fnid; }
};
struct Fn : FnBase { Fn(int f, int u) : FnBase(f, u) {} int operator()(int a) const { return go(a, 0); } bool operator==(const Fn& o) const { return eq(o); } };
struct XFn : FnBase { XFn(int f, int u) : FnBase(f, u) {} int operator()(const bs::connection& c, int a) const { bs::connection k(c); return go(a, &k); } bool operator==(const XFn& o) const { return eq(o); } };
struct Trk : bs::trackable { int oid; explicit Trk(int o) : oid(o) { g_host->alive[o] = true; } ~Trk() { g_host->alive[oid] = false; } Trk(const Trk& o, int id) : bs::trackable(o), oid(id) { g_host->alive[id] = true; } Trk(const Trk&) = delete; void assign(const Trk& o) { bs::trackable::operator=(o); } int operator()(int a) const { return g_host->run_fn(oid % NFN, MAXUID - 1, a, 0); } typedef int result_type; };
struct FnT : FnBase { typedef int result_type; FnT(int f, int u) : FnBase(f, u) {} int operator()(const Trk*, int a) const { return go(a, 0); } int operator()(const Trk&, int a) const { return go(a, 0); } };
struct Tk { int oid; unsigned magic; explicit Tk(int o) : oid(o), magic(0xabcd) { ++g_ob.n[o]; g_host->alive[o] = true; } ~Tk() { --g_ob.n[oid]; if (magic != 0xabcd) { printf("FAIL tracked object destroyed twice\n"); _exit(3); } magic = 0; g_host->alive[oid] = false; user_code("tracked object destroyed"); } };
struct LongFn : FnBase { LongFn(int f, int u) : FnBase(f, u) {} long operator()(long a) const { return go(int(a), 0); } bool operator==(const LongFn& o) const { return eq(o); } };

// ---------------- combiners
template<class Sig> struct dummy_t {};
struct LogComb {
  typedef int result_type; int id, n; boost::shared_ptr<int> live;
  LogComb(int i = 0) : id(i), n(0), live(new int(77)) {}
  LogComb(const LogComb& o) : id(o.id), n(o.n), live(o.live) { if (g_faults.tick(2)) { InjectedExc e; e.v = 4; throw e; } }
  ~LogComb() { user_code("combiner destroyed"); }
  template<class It> int operator()(It f, It l) { user_code("combiner called"); int i = id, k = ++n; boost::shared_ptr<int> g(live); int r = comb_run<It>(*g_host, id, k, false, f, l); if (id != i || live != g) { printf("FAIL combiner object replaced while in use\n"); fflush(stdout); _exit(3); } return r; }
  template<class It> int operator()(It f, It l) const { user_code("combiner called"); int i = id; boost::shared_ptr<int> g(live); int r = comb_run<It>(*g_host, id, n, true, f, l); if (id != i || live != g) { printf("FAIL combiner object replaced while in use\n"); fflush(stdout); _exit(3); } return r; }
};
struct GuardVoid { typedef void result_type; int id, n; explicit GuardVoid(int i = 0) : id(i), n(0) {} GuardVoid(const GuardVoid&) = default; ~GuardVoid() { user_code("combiner destroyed"); } template<class It> void operator()(It f, It l) const { if (g_host->emit_budget-- <= 0) return; bs::optional_last_value<void>()(f, l); } };
struct GuardLast { typedef int result_type; int id, n; explicit GuardLast(int i = 0) : id(i), n(0) {} GuardLast(const GuardLast&) = default; ~GuardLast() { user_code("combiner destroyed"); } template<class It> int operator()(It f, It l) const { if (g_host->emit_budget-- <= 0) return -1; return bs::last_value<int>()(f, l); } };

struct CmpInt { bool operator()(int a, int b) const { if (g_faults.tick(3)) { InjectedExc e; e.v = 3; throw e; } return a < b; } };
struct Grp { int v; Grp(const Grp& o) : v(o.v) { if (g_faults.tick(2)) { InjectedExc e; e.v = 5; throw e; } } explicit Grp(int x) : v(x) {} Grp& operator=(const Grp&) = default; };
struct GrpLess { int mod; explicit GrpLess(int m = 1) : mod(m) {} bool operator()(const Grp& a, const Grp& b) const { if (g_faults.tick(3)) { InjectedExc e; e.v = 3; throw e; } return a.v / mod < b.v / mod; } };

// ---------------- configurations
struct CfgInfo { bool sigslot, isvoid; int comb; int grpmode; }; // comb: 0 programmable 1 optional_last 2 void 3 last_value; grpmode 0 less 1 string greater 2 v/2
template<int K> struct Cfg;
template<> struct Cfg<0> { enum { k = 0, has_sigslot = 1, is_void = 0, comb = 0, grp = 0 };
  typedef bs::signal<int(int), LogComb, int, CmpInt, boost::function<int(int)>, boost::function<int(const bs::connection&, int)>, CheckedMutex> Sig; typedef LogComb Comb; typedef int G; static int mk(int g) { return g; }
  static Sig* make(int c) { return new Sig(LogComb(c)); } };
template<> struct Cfg<1> { enum { k = 1, has_sigslot = 0, is_void = 0, comb = 1, grp = 0 };
  typedef bs::signal<int(int)> Sig; typedef bs::optional_last_value<int> Comb; typedef int G; static int mk(int g) { return g; }
  static Sig* make(int) { return new Sig(); } };
template<> struct Cfg<2> { enum { k = 2, has_sigslot = 1, is_void = 1, comb = 2, grp = 1 };
  typedef bs::signal<void(int), GuardVoid, std::string, std::greater<std::string>, boost::function<void(int)>, boost::function<void(const bs::connection&, int)>, bs::dummy_mutex> Sig; typedef GuardVoid Comb; typedef std::string G; static std::string mk(int g) { return "group-name-long-enough-to-allocate-" + std::to_string(g); }
  static Sig* make(int c) { return new Sig(GuardVoid(c)); } };
template<> struct Cfg<3> { enum { k = 3, has_sigslot = 1, is_void = 0, comb = 3, grp = 2 };
  typedef bs::signal<int(int), GuardLast, Grp, GrpLess, boost::function<int(int)>, boost::function<int(const bs::connection&, int)>, CheckedMutex> Sig; typedef GuardLast Comb; typedef Grp G; static Grp mk(int g) { return Grp(g); }
  static Sig* make(int c) { return new Sig(GuardLast(c), GrpLess(2)); } };

template<bool V> struct Ret { template<class S> static int call(S& s, int a) { s(a); return 0; } };
template<class R> inline int to_int(const R& r) { return int(r); }
template<class R> inline int to_int(const boost::optional<R>& r) { return r ? int(*r) : -999; }
template<> struct Ret<false> { template<class S> static int call(S& s, int a) { return to_int(s(a)); } };

template<class CfgT> struct Real {
  typedef CfgT C; enum { is_model = 0 };
  typedef typename C::Sig Sig; typedef typename Sig::slot_type Slot; typedef typename Sig::extended_slot_type XSlot;
  typedef bs::expired_slot Expired; typedef bs::no_slots_error NoSlots;
  Host& H;
  std::unique_ptr<Sig> sg[NSIG]; bs::connection h[NH]; std::unique_ptr<bs::scoped_connection> sc[NSC]; std::unique_ptr<bs::shared_connection_block> bl[NBL];
  struct Ob { int kind; boost::shared_ptr<Tk> b; std::shared_ptr<Tk> s; std::unique_ptr<Trk> t; Ob() : kind(-1) {} void clear() { kind = -1; b.reset(); s.reset(); t.reset(); } } ob[NOB];
  std::unique_ptr<Slot> sl[NSL]; std::unique_ptr<XSlot> xs[NXS]; std::vector<bs::connection> reg; std::vector<int> regx; std::unique_ptr<Fn> rf[NFN];
  explicit Real(Host& x) : H(x) { for (int i = 0; i < NFN; ++i) rf[i].reset(new Fn(i, MAXUID - 1)); }
  int ref_uid(int) { return MAXUID - 1; }
  template<class F> bool with_fault(int type, int k, F f) { g_faults.type = type; g_faults.left = k; g_faults.fired = false; g_faults.armed = true; bool failed = false;
    try { f(); } catch (std::bad_alloc&) { failed = true; } catch (InjectedExc&) { failed = true; } g_faults.armed = false; if (CheckedMutex::nheld) CheckedMutex::fail("a mutex is still held after an operation that threw"); return failed; }
  struct ExpiredD : bs::expired_slot { int v; explicit ExpiredD(int x) : v(x) {} }; struct TestExcD : TestExc { int w; explicit TestExcD(int x) : w(x) { v = -1; } };
  int classify() { try { throw; } catch (ExpiredD& e) { return -20 - e.v; } catch (bs::expired_slot&) { return -7; } catch (boost::bad_weak_ptr&) { return -9; } catch (bs::no_slots_error&) { return -8; } catch (TestExcD& e) { return 100 + e.w; } catch (TestExc& e) { return e.v; } catch (int v) { return -40 - v; } catch (std::runtime_error& e) { return -60 - atoi(e.what()); } }
  void throw_exc(int kind, int v) { switch (kind % 8) { case 2: throw bs::expired_slot(); case 3: throw ExpiredD(v); case 4: throw boost::bad_weak_ptr(); case 5: throw TestExcD(v); case 6: throw v; case 7: throw std::runtime_error(std::to_string(v)); default: { TestExc e; e.v = v; throw e; } } }
  void put(int hh, int id, const bs::connection& c, bool x = false) { bool a = g_faults.armed; g_faults.armed = false; if ((int)reg.size() <= id) { reg.resize(id + 1); regx.resize(id + 1); } reg[id] = c; regx[id] = x; h[hh] = c; g_faults.armed = a; }
  void reg_none(int id) { if ((int)reg.size() <= id) { reg.resize(id + 1); regx.resize(id + 1); } }
  static bs::connect_position pos(bool front) { return front ? bs::at_front : bs::at_back; }
  template<class T> bs::connection docon(int s, const T& f, bool front, int g) { return g < 0 ? (front ? sg[s]->connect(f, bs::at_front) : sg[s]->connect(f)) : (front ? sg[s]->connect(C::mk(g), f, bs::at_front) : sg[s]->connect(C::mk(g), f)); }
  template<class T> bs::connection doconx(int s, const T& f, bool front, int g) { return g < 0 ? (front ? sg[s]->connect_extended(f, bs::at_front) : sg[s]->connect_extended(f)) : (front ? sg[s]->connect_extended(C::mk(g), f, bs::at_front) : sg[s]->connect_extended(C::mk(g), f)); }
  void conn(int s, int hh, int fn, int uid, bool front, int g, int id) { put(hh, id, docon(s, Fn(fn, uid), front, g)); }
  void connx(int s, int hh, int fn, int uid, bool front, int g, int id) { put(hh, id, doconx(s, XFn(fn, uid), front, g), true); }
  void connref(int s, int hh, int fn, bool front, int g, int id) { put(hh, id, docon(s, boost::ref(*rf[fn]), front, g)); }
  void conno(int s, int hh, int l, bool front, int g, int id) { put(hh, id, docon(s, *sl[l], front, g)); }
  void connxo(int s, int hh, int l, bool front, int g, int id) { put(hh, id, doconx(s, *xs[l], front, g), true); }
  Slot* mkbind(int fn, int uid, int o, int form) { using namespace boost::placeholders; Trk* t = ob[o].t.get();
    if (form == 0) return new Slot(boost::bind<int>(FnT(fn, uid), t, _1)); if (form == 1) return new Slot(boost::bind<int>(FnT(fn, uid), boost::ref(*t), _1)); const Trk* ct = t; if (form == 3) return new Slot(boost::bind<int>(FnT(fn, uid), ct, _1)); if (form == 4) return new Slot(boost::bind<int>(FnT(fn, uid), boost::cref(*t), _1)); if (form == 5) return new Slot(boost::ref(*t)); return new Slot(FnT(fn, uid), t, _1); }
  void connbind(int s, int hh, int fn, int uid, int o, int form, int id) { std::unique_ptr<Slot> x(mkbind(fn, uid, o, form)); put(hh, id, sg[s]->connect(*x)); }
  template<class S, bool B> struct SS { static bs::connection go(Real& r, int s, int s2, bool front, int g) { return r.docon(s, *r.sg[s2], front, g); } static Slot* mk(Real& r, int s) { return new Slot(*r.sg[s]); } static void disc(Real& r, int s, int s2) { r.sg[s]->disconnect(*r.sg[s2]); } };
  template<class S> struct SS<S, false> { static bs::connection go(Real&, int, int, bool, int) { return bs::connection(); } static Slot* mk(Real&, int) { return 0; } static void disc(Real&, int, int) {} };
  typedef SS<Sig, bool(C::has_sigslot)> SSt;
  void connsig(int s, int hh, int s2, bool front, int g, int id) { put(hh, id, SSt::go(*this, s, s2, front, g)); }
  void disch(int i) { h[i].disconnect(); }
  void discg(int s, int g) { sg[s]->disconnect(C::mk(g)); }
  void discf(int s, int fn, int form) { Fn f(fn, MAXUID - 1); if (form == 0) sg[s]->disconnect(f); else sg[s]->disconnect(boost::cref(f)); }
  void discx(int s, int fn) { sg[s]->disconnect(XFn(fn, MAXUID - 1)); }
  void discs(int s, int s2) { SSt::disc(*this, s, s2); }
  void discall(int s) { sg[s]->disconnect_all_slots(); }
  void discreg(int k, int m) { for (size_t i = k; i < reg.size(); i += m) { bs::connection c(reg[i]); c.disconnect(); } }
  void hcopy(int a, int b, int f) { if (f) h[a] = h[b]; else { bs::connection t(h[b]); h[a].swap(t); } }
  void hmove(int a, int b, int f) { if (a == b) { if (f) h[a] = std::move(h[b]); else h[a] = h[b]; return; } if (f) h[a] = std::move(h[b]); else { bs::connection t(std::move(h[b])); h[a] = t; } H.log('m', h[b].connected()); }
  void hswap(int a, int b, int f) { if (f) h[a].swap(h[b]); else { using std::swap; swap(h[a], h[b]); } }
  void hclr(int a) { h[a] = bs::connection(); }
  void heq(int a, int b) { H.log('q', h[a] == h[b], h[a] != h[b], (h[a] < h[b]) + (h[b] < h[a])); }
  void hst(int a) { bool b = h[a].blocked(); H.log('h', a, h[a].connected(), b); }
  void hfromb(int a, int k) { if (bl[k]) h[a] = bl[k]->connection(); }
  void scnew(int k, int a, int mv) { if (mv > 1) { std::unique_ptr<bs::scoped_connection> t(new bs::scoped_connection); if (mv == 2) *t = h[a]; else { bs::scoped_connection u(h[a]); using std::swap; swap(*t, u); } sc[k] = std::move(t); } else if (mv) { bs::connection t(h[a]); sc[k].reset(new bs::scoped_connection(std::move(t))); } else sc[k].reset(new bs::scoped_connection(h[a])); }
  void scasg(int k, int a, int f) { if (!sc[k]) return; if (f == 3) { if (sc[a % NSC]) *sc[k] = static_cast<const bs::connection&>(*sc[a % NSC]); } else if (f == 2) { bs::connection t(h[a]); *sc[k] = std::move(t); } else *sc[k] = h[a]; }
  void scmv(int k, int j, int f) { if (!sc[k] || !sc[j]) return; if (f) *sc[k] = std::move(static_cast<bs::connection&>(*sc[j])); else *sc[k] = std::move(*sc[j]); }
  void scmc(int k, int j) { if (k == j || !sc[j]) return; std::unique_ptr<bs::scoped_connection> t(new bs::scoped_connection(std::move(*sc[j]))); sc[k] = std::move(t); }
  void scmvh(int k, int a, int f) { if (sc[k] && f == 2) sc[k]->swap(h[a]); else if (sc[k]) { *sc[k] = std::move(h[a]); H.log('m', h[a].connected()); } }
  void scsw(int k, int j, int f) { if (!sc[k] || !sc[j]) return; if (f) sc[k]->swap(*sc[j]); else { using std::swap; swap(*sc[k], *sc[j]); } }
  void screl(int k, int a, int f) { if (sc[k]) { if (f == 1) h[a] = std::move(*sc[k]); else if (f == 2) { bs::connection t(std::move(*sc[k])); h[a].swap(t); } else h[a] = sc[k]->release(); H.log('m', sc[k]->connected()); } }
  void scdel(int k) { sc[k].reset(); }
  void scst(int k) { if (sc[k]) { bool b = sc[k]->blocked(); H.log('s', k, sc[k]->connected(), b); } }
  void bnew(int k, int a, int init) { std::unique_ptr<bs::shared_connection_block> t(init == 2 ? new bs::shared_connection_block(h[a]) : new bs::shared_connection_block(h[a], init == 1)); bl[k] = std::move(t); }
  void bkeep(int) {}
  void bcp(int k, int j) { if (k != j && bl[j]) bl[k].reset(new bs::shared_connection_block(*bl[j])); }
  void basg(int k, int j) { if (bl[k] && bl[j]) *bl[k] = *bl[j]; }
  void blk(int k) { if (bl[k]) bl[k]->block(); }
  void unb(int k) { if (bl[k]) bl[k]->unblock(); }
  void bdel(int k) { bl[k].reset(); }
  void bst(int k) { if (bl[k]) { bs::connection c = bl[k]->connection(); H.log('k', k, bl[k]->blocking(), c.connected()); } }
  int emit(int s, int arg, int cst, bool quiet) { struct FE { bool q; } ; const Sig& cs = *sg[s]; int sb = H.emit_budget;
    if (!quiet) return cst ? Ret<bool(C::is_void)>::call(cs, arg) : Ret<bool(C::is_void)>::call(*sg[s], arg);
    struct R { Host& h; int b; ~R() { h.emit_budget = b; } } r = { H, sb };
    try { cst ? Ret<bool(C::is_void)>::call(cs, arg) : Ret<bool(C::is_void)>::call(*sg[s], arg); } catch (bs::no_slots_error&) {} return 0; }
  void sdel(int s) { delete sg[s].release(); }
  void snew(int s, int c) { sg[s].reset(C::make(c)); }
  void smv(int a, int b) { Sig& x = *sg[a]; Sig& y = *sg[b]; x = std::move(y); }
  void smc(int a, int b) { sg[a].reset(new Sig(std::move(*sg[b]))); }
  void ssw(int a, int b, int f) { if (f == 0) sg[a]->swap(*sg[b]); else if (f == 1) { using boost::signals2::swap; swap(*sg[a], *sg[b]); } else { using std::swap; if (a != b) swap(*sg[a], *sg[b]); } }
  void snull(int s) { H.log('0', sg[s]->null()); }
  void snum(int s) { H.log('n', s, int(sg[s]->num_slots())); }
  void sempty(int s) { H.log('e', s, sg[s]->empty()); }
  template<class S, int M> struct CB { static void set(S& s, int c) { s.set_combiner(typename S::combiner_type(c)); } static void get(Host& H, S& s) { typename S::combiner_type c = s.combiner(); H.log('g', c.id, H.counts ? c.n : 0); } };
  template<class S> struct CB<S, 1> { static void set(S& s, int) { s.set_combiner(typename S::combiner_type()); } static void get(Host& H, S& s) { s.combiner(); H.log('g', 0); } };
  void scomb(int s, int c) { CB<Sig, C::comb>::set(*sg[s], c); }
  void gcomb(int s) { CB<Sig, C::comb>::get(H, *sg[s]); }
  void seq(int a, int b) { H.log('=', *sg[a] == *sg[b]); }
  void onew(int o, int k, int id) { ob[o].clear(); ob[o].kind = k; if (k == 0) ob[o].b.reset(new Tk(id)); else if (k == 1) ob[o].s = std::make_shared<Tk>(id); else ob[o].t.reset(new Trk(id)); }
  void odrop(int o) { ob[o].clear(); }
  void odup(int x, int y, int id, int form) { if (ob[y].kind == 2) { std::unique_ptr<Trk> n(form ? new Trk(id) : new Trk(*ob[y].t, id)); if (form) n->assign(*ob[y].t); ob[x].clear(); ob[x].kind = 2; ob[x].t = std::move(n); return; } ob[x].clear(); ob[x].kind = ob[y].kind; ob[x].b = ob[y].b; ob[x].s = ob[y].s; }
  void slnew(int l, int fn, int u) { sl[l].reset(new Slot(Fn(fn, u))); }
  void xlnew(int l, int fn, int u) { xs[l].reset(new XSlot(XFn(fn, u))); }
  void slbump(int l, int fn, int u) { sl[l]->slot_function() = Fn(fn, u); }
  template<class S> void trk(S& s, int o, int form) { if (ob[o].kind == 0) { if (form) s.track_foreign(ob[o].b); else s.track(ob[o].b); } else { if (form) { std::weak_ptr<Tk> w(ob[o].s); s.track_foreign(w); } else s.track_foreign(ob[o].s); } }
  void sltrk(int l, int o, int form) { trk(*sl[l], o, form); }
  void xltrk(int l, int o, int form) { trk(*xs[l], o, form); }
  void xlsl(int l, int m) { xs[l]->track(*sl[m]); }
  void slsig(int l, int s) { sl[l]->track(*sg[s]); }
  void sltsl(int l, int m) { sl[l]->track(*sl[m]); }
  void slcp(int l, int m, bool asg) { if (asg) *sl[l] = *sl[m]; else sl[l].reset(new Slot(*sl[m])); }
  template<bool V, class S> static int callslot(S& s, int arg) { if constexpr (V) { s(arg); return 0; } else return s(arg); }
  int slcall(int l, int arg, int cst) { const Slot& c = *sl[l]; return cst ? callslot<bool(C::is_void)>(c, arg) : callslot<bool(C::is_void)>(*sl[l], arg); }
  void slst(int l) { H.log('l', sl[l]->expired(), int(sl[l]->tracked_objects().size())); }
  void sllock(int l) { typename Slot::locked_container_type t = sl[l]->lock(); H.log('L', int(t.size())); }
  void slfsig(int l, int s) { sl[l].reset(SSt::mk(*this, s)); }
  void slconv(int l, int fn, int u, int form, int m, bool mex) {
    if constexpr (bool(C::is_void)) { bs::slot<long(long)> o((LongFn(fn, u))); if (mex) o.track(*sl[m]); if (form == 0) sl[l].reset(new Slot(o)); else { bs::slot<void(long)> o2(o); sl[l].reset(new Slot(o2)); } }
    else { bs::slot<long(long)> o((LongFn(fn, u))); if (mex) o.track(*sl[m]); if (form == 0) sl[l].reset(new Slot(o)); else if (form == 1) { bs::slot<int(long)> o2(o); sl[l].reset(new Slot(o2)); } else { bs::slot<long(int)> o2(o); bs::slot<long(int)> o3(o2); sl[l].reset(new Slot(o3)); } } }
  void slbind(int l, int fn, int u, int o, int form) { sl[l].reset(mkbind(fn, u, o, form)); }
  void log_self(void* c) { bs::connection& k = *static_cast<bs::connection*>(c); int m = 0, who = -1; for (size_t i = 0; i < reg.size(); ++i) if (regx[i] && reg[i] == k && reg[i].connected()) { ++m; who = int(i); } H.log('Y', m, who, k.connected()); }
  void xdisc(void* c) { static_cast<bs::connection*>(c)->disconnect(); }
  void xsave(void* c, int a) { h[a] = *static_cast<bs::connection*>(c); }
  void xblk(void* c, int k) { bl[k].reset(new bs::shared_connection_block(*static_cast<bs::connection*>(c))); }
  void chk(int nu, int no) { for (int u = 1; u < nu; ++u) H.log('F', u, g_fn.n[u] > 0); for (int o = 1; o < no; ++o) H.log('O', o, H.alive[o]); }
  void clear_all(int order) {
    for (int pass = 0; pass < 5; ++pass) switch ((pass + order) % 5) {
      case 0: for (auto& x : sg) x.reset(); break; case 1: for (auto& x : h) x = bs::connection(); for (auto& x : sc) x.reset(); reg.clear(); regx.clear(); break; case 2: for (auto& x : bl) x.reset(); break;
      case 3: for (auto& x : ob) x.clear(); break; case 4: for (auto& x : sl) x.reset(); for (auto& x : xs) x.reset(); break; }
  }
  void chk_final() { int lf = 0, lo = 0; for (int i = 0; i < MAXUID - 1; ++i) { lf += g_fn.n[i]; lo += H.alive[i]; } if (C::k != 1 && C::k != 2) H.log('Z', lf, lo, int(CheckedMutex::live)); else H.log('Z', lf, lo, 0); }
};
} // namespace ea
#endif
