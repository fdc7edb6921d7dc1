// C07 / C20: every way to make a slot track something (track, track_foreign, pointers and references bound to trackables and signals, nested binds, the binding
// constructors at every position), driven by generated histories. Oracle: per slot the set of objects it must track, kept beside the real objects.
#include "core.hpp"
#include <boost/signals2.hpp>
#include <boost/bind/bind.hpp>
#include <boost/ref.hpp>
#include <boost/make_shared.hpp>
#include <boost/function.hpp>
#include <memory>
#include <functional>
#include <utility>
vc::Progress* vc::g_progress;
using vc::Rng; using vc::Lines; using vc::Outcome; using std::string;
namespace bs = boost::signals2; using namespace boost::placeholders;
static string g_err; static void err(const string& m) { if (g_err.empty()) g_err = m; }
enum { NO = 8, NL = 6, NX = 2, NH = 8, NS = 2, NK = 3, NF = 6, MAXID = 600, NKIND = 9 };

// ---- things to track
static bool g_alive[MAXID]; static int g_inuse[MAXID]; static long g_payloads;
static void born(int id) { g_alive[id] = true; }
static void dies(int id) { if (!g_alive[id]) err("object " + std::to_string(id) + " destroyed twice"); if (g_inuse[id]) err("tracked object " + std::to_string(id) + " destroyed while a slot tracking it runs"); g_alive[id] = false; }
struct Other { virtual ~Other() {} long pad[3]; };
struct Obj { int id; int extra; explicit Obj(int i) : id(i), extra(0) { born(i); } ~Obj() { dies(id); } Obj(const Obj&) = delete; };
struct Bx : Other, Obj { explicit Bx(int i) : Obj(i) {} };
static int hit(int uid, int arg);
#define TBODY(T) int id, fuid; typedef int result_type; int method(int uid, int a) { return hit(uid, a); } int cmethod(int uid, int a) const { return hit(uid, a); } int operator()(int a) const { return hit(fuid, a); } ~T() { dies(id); }
struct T1 : bs::trackable { explicit T1(int i) : id(i), fuid(0) { born(i); } T1(const T1& o, int i) : bs::trackable(o), id(i), fuid(0) { born(i); } TBODY(T1) };
struct T2Base : bs::trackable { int z; int bmethod(int uid, int a) { return hit(uid, a); } };
struct T2 : Other, T2Base { explicit T2(int i) : id(i), fuid(0) { born(i); } T2(const T2& o, int i) : Other(o), T2Base(o), id(i), fuid(0) { born(i); } TBODY(T2) };
struct T3 : Other, virtual bs::trackable { explicit T3(int i) : id(i), fuid(0) { born(i); } T3(const T3& o, int i) : Other(o), bs::trackable(o), id(i), fuid(0) { born(i); } TBODY(T3) };
// a smart pointer of the user's own
template<class T> struct MyWp;
struct MyCtl { T1* unused; Bx* p; int strong, weak; };
template<class T> struct MySp { MyCtl* c; MySp() : c(0) {} explicit MySp(Bx* p) : c(new MyCtl()) { c->p = p; c->strong = 1; c->weak = 1; } MySp(const MySp& o) : c(o.c) { if (c) ++c->strong; } explicit MySp(const MyWp<T>& w);
  MySp& operator=(const MySp& o) { MySp t(o); std::swap(c, t.c); return *this; } ~MySp() { if (c && --c->strong == 0) { MyCtl* k = c; Bx* p = k->p; k->p = 0; delete p; if (--k->weak == 0) delete k; } } int uses() const { return c ? c->strong : 0; } };
template<class T> struct MyWp { MyCtl* c; MyWp() : c(0) {} MyWp(const MySp<T>& s) : c(s.c) { if (c) ++c->weak; } MyWp(const MyWp& o) : c(o.c) { if (c) ++c->weak; } MyWp& operator=(const MyWp& o) { MyWp t(o); std::swap(c, t.c); return *this; } ~MyWp() { if (c && --c->weak == 0) delete c; }
  bool expired() const { return !c || c->strong == 0; } MySp<T> lock() const { MySp<T> r; if (c && c->strong) { r.c = c; ++c->strong; } return r; } };
namespace boost { namespace signals2 { template<class T> struct weak_ptr_traits< ::MyWp<T> > { typedef ::MySp<T> shared_type; }; template<class T> struct shared_ptr_traits< ::MySp<T> > { typedef ::MyWp<T> weak_type; }; } }

typedef bs::signal<int(int), bs::last_value<int> > S1; typedef bs::signal<void(), bs::optional_last_value<void>, int, std::less<int>, boost::function<void()>, boost::function<void(const bs::connection&)>, bs::dummy_mutex> S2; typedef bs::signal<string(double, int&)> S3;
typedef bs::signal<int(int)> Sig; typedef Sig::slot_type Slot; typedef Sig::extended_slot_type XSlot;
struct Ob { int kind, id; boost::shared_ptr<Bx> b, b2; std::shared_ptr<Bx> s, s2; MySp<Bx> m, m2; std::unique_ptr<T1> t1; std::unique_ptr<T2> t2; std::unique_ptr<T3> t3; std::unique_ptr<S1> g1; std::unique_ptr<S2> g2; std::unique_ptr<S3> g3; Ob() : kind(-1), id(0) {} };

// ---- the model beside it
struct MSlot { int uid = 0; int relay = 0; std::vector<int> tr; };
struct MConn { MSlot s; bool flag = true; };
typedef std::shared_ptr<MConn> CP;
struct Frame { std::vector<CP>* list; size_t cur; const MSlot* direct; int last; bool any; };
struct World {
  Ob ob[NO]; std::unique_ptr<Slot> sl[NL]; MSlot ms[NL]; std::unique_ptr<XSlot> xs[NX]; MSlot mx[NX]; std::unique_ptr<Sig> sg[NS]; std::vector<CP> conns[NS]; bs::connection h[NH]; CP mh[NH];
  std::unique_ptr<bs::slot_base::locked_container_type> held[NK]; std::vector<int> heldids[NK];
  std::vector<Frame> frames; std::vector<const MSlot*> running; std::vector<std::pair<int, int> > script[NF]; int next_id = 1, next_uid = 1, budget = 200, calls = 0; std::map<int, int> kind_of; std::map<string, long> cnt; uint64_t hash = 1469598103934665603ull;
  void mixh(long a) { hash = vc::hash_bytes(&a, sizeof a, hash); }
  bool gone(const MSlot& s) const { for (int i : s.tr) if (i < 0 || !g_alive[i]) return true; return false; }
  bool callable(const CP& c) const { return c->flag && !gone(c->s); }
} static* W;

static int enter(int uid, int relay, int arg); 
static int hit(int uid, int arg) { return enter(uid, 0, arg); }
struct G { typedef int result_type; int uid; boost::shared_ptr<int> live; explicit G(int u) : uid(u), live(new int(u), [](int* p) { delete p; --g_payloads; }) { ++g_payloads; }
  template<class A> static int last(const A& a) { return last_(a); } static int last_(int a) { return a; } template<class A> static int last_(const A&) { return 0; }
  template<class... A> int operator()(A&&... a) const { int v = 0; int d[] = { 0, (pick(v, a), 0)... }; (void)d; return hit(uid, v); }
  static void pick(int& v, const int& a) { v = a; } template<class A> static void pick(int&, const A&) {} };
struct XG : G { explicit XG(int u) : G(u) {} template<class A> int operator()(const bs::connection& c, A&& a) const { if (!c.connected()) err("an extended slot received a connection that is not connected"); return hit(uid, a); } template<class B, class A> int operator()(B&&, const bs::connection& c, A&& a) const { if (!c.connected()) err("an extended slot received a connection that is not connected"); return hit(uid, a); } };
struct Hf { typedef int result_type; template<class A> int operator()(A&&) const { return 0; } template<class A, class B> int operator()(A&&, B&& b) const { return b; } };
struct Relay { int id; Relay(int i) : id(i) {} int operator()(int a) const { return enter(0, id, a); } };

// a call has arrived from the library: which slot can it be, and was it right to make it?
static void act(int op, int i);
static int enter(int uid, int relay, int arg) {
  World& w = *W; ++w.calls; const MSlot* m = 0; CP keep;
  if (w.frames.empty()) { err("a slot was called outside any call"); return 0; }
  { Frame& f = w.frames.back();
    if (f.direct) { m = f.direct; if (m->uid != uid || m->relay != relay) { err("a slot object called another function"); return 0; } if (w.gone(*m)) { err("a slot object was called although an object it tracks is gone"); return 0; } }
    else { for (; f.cur < f.list->size(); ++f.cur) { CP c = (*f.list)[f.cur]; if (!w.callable(c)) { c->flag = false; continue; } break; }
      if (f.cur >= f.list->size()) { err("slot " + std::to_string(uid) + " called although it is disconnected or an object it tracks is gone"); return 0; }
      keep = (*f.list)[f.cur++]; m = &keep->s; if (m->uid != uid || m->relay != relay) { err("slot " + std::to_string(uid) + " called where slot " + std::to_string(m->uid) + " was expected"); return 0; } } }
  for (int i : m->tr) ++g_inuse[w.kind_of[i] <= 2 ? i : 0];
  w.running.push_back(m); w.mixh(uid * 16 + relay); ++w.cnt["slot_calls"]; if (!m->tr.empty()) ++w.cnt["tracked_calls"];
  std::vector<int> tr(m->tr);
  if (uid > 0 && w.frames.size() < 3) { auto sc = w.script[uid % NF]; for (auto& x : sc) if (w.budget-- > 0) act(x.first, x.second); }
  w.running.pop_back();
  for (int i : tr) { if (w.kind_of[i] <= 2 && !g_alive[i]) err("an object the running slot tracks was destroyed during the call"); --g_inuse[w.kind_of[i] <= 2 ? i : 0]; }
  int r = (uid + 17 * relay) * 1000 + arg; { Frame& f = w.frames.back(); f.last = r; f.any = true; } return r;
}

// ---- operations
static bool in_use_by_running(int id) { for (auto& v : W->heldids) for (int i : v) if (i == id) return true; for (auto* m : W->running) for (int i : m->tr) if (i == id) return true; return false; }
static void drop(int i) { Ob& o = W->ob[i]; if (o.kind < 0) return; if (o.kind >= 6) { if (in_use_by_running(o.id)) return; g_alive[o.id] = false; }
  if (o.kind >= 6 || o.kind >= 3) { Ob t; t.kind = o.kind; t.t1.swap(o.t1); t.t2.swap(o.t2); t.t3.swap(o.t3); t.g1.swap(o.g1); t.g2.swap(o.g2); t.g3.swap(o.g3); o.kind = -1; return; }
  o.kind = -1; boost::shared_ptr<Bx> b, b2; std::shared_ptr<Bx> s, s2; b.swap(o.b); b2.swap(o.b2); s.swap(o.s); s2.swap(o.s2); MySp<Bx> m, m2; std::swap(m.c, o.m.c); std::swap(m2.c, o.m2.c); }
static void undup(int i) { Ob& o = W->ob[i]; if (o.kind < 0 || o.kind > 2) return; boost::shared_ptr<Bx> b; std::shared_ptr<Bx> s; MySp<Bx> m; if (o.b2) b.swap(o.b2); else if (o.s2) s.swap(o.s2); else if (o.m2.c) std::swap(m.c, o.m2.c); }
static void emit(int s, int arg);
static void act(int op, int i) { switch (op % 5) { case 0: case 1: drop(i % NO); break; case 2: undup(i % NO); break; case 3: { World& w = *W; w.h[i % NH].disconnect(); if (w.mh[i % NH]) w.mh[i % NH]->flag = false; break; } default: emit(i % NS, 5); } }
static void emit(int s, int arg) {
  World& w = *W; if (!w.sg[s] || w.frames.size() >= 3 || w.calls > 300) return; std::vector<CP> list(w.conns[s]); Frame f = { &list, 0, 0, 0, false }; w.frames.push_back(f); boost::optional<int> r = (*w.sg[s])(arg); f = w.frames.back(); w.frames.pop_back();
  for (; f.cur < list.size(); ++f.cur) { if (w.callable(list[f.cur])) { err("slot " + std::to_string(list[f.cur]->s.uid) + " is connected and nothing it tracks is gone, but it was not called"); return; } list[f.cur]->flag = false; }
  if (!!r != f.any || (r && *r != f.last)) err("wrong result of an invocation"); ++w.cnt["emits"]; w.mixh(f.any);
  for (auto& c : list) if (w.gone(c->s)) ++w.cnt["expired_skips"];
}
template<class T> static Slot* mkslot(int form, T* p, int& uid, T1* q, std::vector<int>& tr, int id, int qid) {
  tr.push_back(id); const T* cp = p;
  switch (form) {
  case 0: return new Slot(boost::bind<int>(G(uid), p, _1)); case 1: return new Slot(boost::bind<int>(G(uid), boost::ref(*p), _1)); case 2: return new Slot(boost::bind<int>(G(uid), cp, _1)); case 3: return new Slot(boost::bind<int>(G(uid), boost::cref(*p), _1));
  case 4: return new Slot(boost::bind<int>(G(uid), boost::bind<int>(Hf(), p), _1)); case 5: return new Slot(boost::bind<int>(G(uid), boost::bind<int>(Hf(), boost::ref(*p), _1), _1)); case 6: return new Slot(boost::bind(&T::method, p, uid, _1)); case 7: return new Slot(boost::bind(&T::cmethod, boost::ref(*p), uid, _1));
  case 8: return new Slot(G(uid), p, _1); case 9: return new Slot(&T::method, p, uid, _1); case 10: return new Slot(boost::bind<int>(G(uid), (T*)0, p, _1)); case 11: { const bs::trackable* b = p; return new Slot(boost::bind<int>(G(uid), b, _1)); }
  case 12: if (!p->fuid) p->fuid = uid; uid = p->fuid; return new Slot(boost::ref(*p)); case 13: if (!p->fuid) p->fuid = uid; uid = p->fuid; return new Slot(boost::cref(*p)); case 14: if (q) { tr.push_back(qid); return new Slot(boost::bind<int>(G(uid), p, boost::ref(*q), _1)); } return new Slot(boost::bind<int>(G(uid), boost::cref(*cp), 3, _1));
  case 15: tr.pop_back(); return new Slot(boost::bind<int>(G(uid), (void*)p, _1)); case 16: if (q) { tr.push_back(qid); return new Slot(G(uid), q, boost::bind<int>(Hf(), cp), _1); } return new Slot(&T::cmethod, cp, uid, _1); default: return new Slot(&T::cmethod, boost::cref(*p), uid, _1); }
}
template<class S> static Slot* mksig(int form, S* p, int uid) { const S* cp = p; switch (form % 5) { case 0: return new Slot(boost::bind<int>(G(uid), p, _1)); case 1: return new Slot(boost::bind<int>(G(uid), boost::ref(*p), _1)); case 2: return new Slot(boost::bind<int>(G(uid), boost::cref(*p), _1)); case 3: if (form / 5 % 2) return new Slot(boost::bind<int>(G(uid), (S*)0, cp, _1)); return new Slot(G(uid), cp, _1); default: return new Slot(boost::bind<int>(G(uid), _1, boost::bind<int>(Hf(), boost::ref(*p)))); } }
// the binding constructors: n bound arguments, the tracked one at position k, the call's argument at the position after it (or before)
template<int N, int K> struct Bc {
  template<int I, class T> static auto at(T* p, int form) { if constexpr (I == K) { if constexpr (N % 3 == 0) return p; else if constexpr (N % 3 == 1) return boost::ref(*p); else return boost::cref(*p); } else if constexpr (I == (K + 1) % N) return _1; else return 100 + I; }
  struct Fp { G g; typedef int result_type; template<class... A> int operator()(A&&... a) const { int i = 0, v = -1; int d[] = { 0, (one(i, v, a), 0)... }; (void)d; if (i != N) err("a slot with bound arguments got the wrong number of them"); return hit(g.uid, v == -1 ? 0 : v); }
    static void one(int& i, int& v, const int& a) { if (i == (K + 1) % N) v = a; else if (i == K || a != 100 + i) err("a bound argument arrived wrong or in the wrong position"); ++i; } template<class A> static void one(int& i, int&, const A&) { if (i != K) err("a bound argument arrived in the wrong position"); ++i; } };
  template<class T, size_t... I> static Slot* mk2(T* p, int uid, int form, std::index_sequence<I...>) { return new Slot(Fp{ G(uid) }, at<int(I)>(p, form)...); }
  template<class T> static Slot* mk(T* p, int uid, int form) { return mk2(p, uid, form, std::make_index_sequence<N>()); }
};
typedef Slot* (*BcFn1)(T2*, int, int);
template<int N, size_t... K> static void bcfill(std::vector<BcFn1>& v, std::index_sequence<K...>) { int d[] = { 0, (v.push_back(&Bc<N, int(K)>::template mk<T2>), 0)... }; (void)d; }
static std::vector<BcFn1>& bcs() { static std::vector<BcFn1> v; if (v.empty()) { bcfill<1>(v, std::make_index_sequence<1>()); bcfill<2>(v, std::make_index_sequence<2>()); bcfill<3>(v, std::make_index_sequence<3>()); bcfill<4>(v, std::make_index_sequence<4>()); bcfill<5>(v, std::make_index_sequence<5>()); bcfill<6>(v, std::make_index_sequence<6>()); bcfill<7>(v, std::make_index_sequence<7>()); bcfill<8>(v, std::make_index_sequence<8>()); bcfill<9>(v, std::make_index_sequence<9>()); } return v; }

template<class SL> static bool do_track(SL& s, int i, int form, std::vector<int>& tr) {
  Ob& o = W->ob[i]; if (o.kind < 0) return false; SL* r = 0;
  switch (o.kind) {
  case 0: switch (form % 10) { case 0: r = &s.track(o.b); break; case 1: r = &s.track(boost::weak_ptr<Bx>(o.b)); break; case 2: r = &s.track(boost::weak_ptr<void>(o.b)); break; case 3: r = &s.track(boost::shared_ptr<int>(o.b, &o.b->extra)); break; case 4: r = &s.track_foreign(o.b); break; case 5: r = &s.track_foreign(boost::weak_ptr<Bx>(o.b)); break; case 6: r = &s.track_foreign(boost::shared_ptr<const Obj>(o.b)); break; case 7: r = &s.track_foreign(boost::shared_ptr<void>(o.b)); break; case 8: r = &s.track(boost::shared_ptr<Obj>(o.b)); break; default: r = &s.track_foreign(boost::shared_ptr<void>(o.b, (void*)0)); } break;
  case 1: switch (form % 7) { case 0: r = &s.track_foreign(o.s); break; case 1: r = &s.track_foreign(std::weak_ptr<Bx>(o.s)); break; case 2: r = &s.track_foreign(std::shared_ptr<const Obj>(o.s)); break; case 3: r = &s.track_foreign(std::shared_ptr<int>(o.s, &o.s->extra)); break; case 4: r = &s.track_foreign(std::shared_ptr<void>(o.s)); break; case 5: r = &s.track_foreign(std::weak_ptr<const void>(o.s)); break; default: r = &s.track_foreign(std::shared_ptr<void>(o.s, (void*)0)); } break;
  case 2: r = form % 2 ? &s.track_foreign(o.m) : &s.track_foreign(MyWp<Bx>(o.m)); break;
  case 3: r = &s.track(Slot(boost::bind<int>(Hf(), o.t1.get(), _1))); break; case 4: r = &s.track(Slot(boost::bind<int>(Hf(), boost::ref(*o.t2), _1))); break; case 5: r = &s.track(Slot(boost::bind<int>(Hf(), boost::cref(*o.t3), _1))); break;
  case 6: r = &s.track(*o.g1); break; case 7: r = &s.track(*o.g2); break; case 8: r = &s.track(*o.g3); break; }
  if (r != &s) err("track did not return the slot itself"); tr.push_back(o.id); return true;
}
static void step(int op, const int* a) {
  World& w = *W; if (w.budget-- <= 0) return; int l = a[0] % NL, x = a[0] % NX, i = a[0] % NO;
  switch (op) {
  case 0: { drop(i); Ob& o = w.ob[i]; if (o.kind >= 0 || w.next_id >= MAXID - 2) break; o.kind = a[1] % NKIND; o.id = w.next_id++; w.kind_of[o.id] = o.kind; int id = o.id; switch (o.kind) { case 0: if (a[2] % 2) o.b.reset(new Bx(id)); else o.b = boost::make_shared<Bx>(id); break; case 1: if (a[2] % 2) o.s.reset(new Bx(id)); else o.s = std::make_shared<Bx>(id); break; case 2: o.m = MySp<Bx>(new Bx(id)); break; case 3: o.t1.reset(new T1(id)); break; case 4: o.t2.reset(new T2(id)); break; case 5: o.t3.reset(new T3(id)); break;
      case 6: o.g1.reset(new S1()); o.g1->connect(Relay(id)); born(id); break; case 7: o.g2.reset(new S2()); born(id); break; default: o.g3.reset(new S3()); born(id); } break; }
  case 1: drop(i); break;
  case 2: { Ob& o = w.ob[i]; if (o.kind == 0) o.b2 = o.b; if (o.kind == 1) o.s2 = o.s; if (o.kind == 2) o.m2 = o.m; break; }
  case 3: undup(i); break;
  case 4: { Ob& o = w.ob[i]; int j = a[1] % NO; Ob& q = w.ob[j]; if (i == j || q.kind < 3 || q.kind > 5 || w.next_id >= MAXID - 2) break; drop(i); if (o.kind >= 0) break; o.kind = q.kind; o.id = w.next_id++; w.kind_of[o.id] = o.kind; if (q.kind == 3) o.t1.reset(new T1(*q.t1, o.id)); else if (q.kind == 4) o.t2.reset(new T2(*q.t2, o.id)); else o.t3.reset(new T3(*q.t3, o.id)); ++w.cnt["trackable_copies"]; break; }
  case 5: { Ob& o = w.ob[a[2] % NO]; MSlot m; m.uid = w.next_uid++; int form = a[1] % 18; Ob& q = w.ob[a[3] % NO]; std::unique_ptr<Slot> n; T1* qp = q.kind == 3 ? q.t1.get() : 0;
      switch (o.kind) { case 3: n.reset(mkslot(form, o.t1.get(), m.uid, qp, m.tr, o.id, q.id)); break; case 4: if (form == 17) { n.reset(new Slot(boost::bind(&T2Base::bmethod, o.t2.get(), m.uid, _1))); m.tr.push_back(o.id); } else n.reset(mkslot(form, o.t2.get(), m.uid, qp, m.tr, o.id, q.id)); break; case 5: n.reset(mkslot(form, o.t3.get(), m.uid, qp, m.tr, o.id, q.id)); break;
        case 6: m.tr.push_back(o.id); if (form < 8) { m.relay = o.id; m.uid = 0; --w.next_uid; if (form < 3) n.reset(new Slot(*o.g1)); else if (form < 5) n.reset(new Slot(boost::bind(boost::ref(*o.g1), _1))); else if (form < 7) n.reset(new Slot(boost::ref(*o.g1))); else n.reset(new Slot(boost::bind(static_cast<int (S1::*)(int)>(&S1::operator()), o.g1.get(), _1))); } else n.reset(mksig(form, o.g1.get(), m.uid)); break;
        case 7: m.tr.push_back(o.id); n.reset(mksig(form, o.g2.get(), m.uid)); break; case 8: m.tr.push_back(o.id); n.reset(mksig(form, o.g3.get(), m.uid)); break; default: n.reset(new Slot(G(m.uid))); }
      ++w.cnt["slots"]; if (!m.tr.empty()) ++w.cnt["bound_tracks"]; w.sl[l] = std::move(n); w.ms[l] = m; break; }
  case 6: { Ob& o = w.ob[a[2] % NO]; if (o.kind != 4) break; MSlot m; m.uid = w.next_uid++; int p = a[1] % int(bcs().size()); w.sl[l].reset(bcs()[p](o.t2.get(), m.uid, 0)); m.tr.push_back(o.id); w.ms[l] = m; ++w.cnt["binding_constructors"]; ++w.cnt["bound_tracks"]; break; }
  case 7: if (w.sl[l] && w.ms[l].tr.size() < 40 && do_track(*w.sl[l], a[1] % NO, a[2], w.ms[l].tr)) ++w.cnt["tracks"]; break;
  case 8: if (w.sl[l]) { Slot& s = *w.sl[l]; switch (a[1] % 6) { case 0: s.track(boost::weak_ptr<void>()); break; case 1: s.track(boost::shared_ptr<Bx>()); break; case 2: s.track_foreign(std::weak_ptr<Bx>()); break; case 3: s.track_foreign(std::shared_ptr<Bx>()); break; case 4: s.track_foreign(MyWp<Bx>()); break; default: { boost::weak_ptr<Bx> g; { boost::shared_ptr<Bx> t(new Bx(MAXID - 1)); g = t; } s.track(g); } } w.ms[l].tr.push_back(-1); ++w.cnt["empty_tracks"]; } break;
  case 9: { int m = a[1] % NL; if (w.sl[l] && w.sl[m] && l != m && w.ms[l].tr.size() + w.ms[m].tr.size() < 40) { w.sl[l]->track(*w.sl[m]); w.ms[l].tr.insert(w.ms[l].tr.end(), w.ms[m].tr.begin(), w.ms[m].tr.end()); ++w.cnt["tracks"]; } break; }
  case 10: { Ob& o = w.ob[a[2] % NO]; MSlot m; m.uid = w.next_uid++; if (o.kind == 3) { w.xs[x].reset(a[1] % 2 ? new XSlot(boost::bind<int>(XG(m.uid), o.t1.get(), _1, _2)) : new XSlot(XG(m.uid), boost::ref(*o.t1), _1, _2)); m.tr.push_back(o.id); } else w.xs[x].reset(new XSlot(XG(m.uid))); w.mx[x] = m; break; }
  case 11: if (w.xs[x] && w.mx[x].tr.size() < 40 && do_track(*w.xs[x], a[1] % NO, a[2], w.mx[x].tr)) ++w.cnt["tracks"]; break;
  case 12: { int m = a[1] % NX; if (w.sl[l] && w.xs[m] && w.ms[l].tr.size() + w.mx[m].tr.size() < 40) { if (a[2] % 2) { w.sl[l]->track(*w.xs[m]); w.ms[l].tr.insert(w.ms[l].tr.end(), w.mx[m].tr.begin(), w.mx[m].tr.end()); } else { w.xs[m]->track(*w.sl[l]); w.mx[m].tr.insert(w.mx[m].tr.end(), w.ms[l].tr.begin(), w.ms[l].tr.end()); } ++w.cnt["tracks"]; } break; }
  case 13: { int m = a[1] % NL; if (l != m && w.sl[m]) { w.sl[l].reset(new Slot(*w.sl[m])); w.ms[l] = w.ms[m]; ++w.cnt["copies"]; } break; }
  case 14: { int m = a[1] % NL; if (w.sl[l] && w.sl[m]) { *w.sl[l] = *w.sl[m]; w.ms[l] = w.ms[m]; ++w.cnt["copies"]; } break; }
  case 15: { int m = a[1] % NL; if (l != m && w.sl[l] && w.sl[m]) { using std::swap; swap(*w.sl[l], *w.sl[m]); swap(w.ms[l], w.ms[m]); ++w.cnt["copies"]; } break; }
  case 16: { int m = a[1] % NL; if (!w.sl[m]) break; MSlot cp = w.ms[m]; std::unique_ptr<Slot> n; switch (a[2] % 4) { case 0: { bs::slot<int(long)> t(*w.sl[m]); n.reset(new Slot(t)); break; } case 1: { bs::slot<int(int), std::function<int(int)> > t(*w.sl[m]); n.reset(new Slot(t)); break; } case 2: { bs::slot<long(int)> t(*w.sl[m]); bs::slot<long(short)> u(t); (void)u; n.reset(new Slot(t)); break; } default: { Slot t(std::move(*w.sl[m])); n.reset(new Slot(t)); *w.sl[m] = t; } } w.sl[l] = std::move(n); w.ms[l] = cp; ++w.cnt["conversions"]; break; }
  case 17: { int s = a[0] % NS; int q = a[1] % NL; if (!w.sl[q] || w.conns[s].size() > 20) break; CP c(new MConn); c->s = w.ms[q]; w.h[a[2] % NH] = w.sg[s]->connect(*w.sl[q]); w.mh[a[2] % NH] = c; w.conns[s].push_back(c); ++w.cnt["connects"]; break; }
  case 18: { int s = a[0] % NS; int q = a[1] % NX; if (!w.xs[q] || w.conns[s].size() > 20) break; CP c(new MConn); c->s = w.mx[q]; w.h[a[2] % NH] = w.sg[s]->connect_extended(*w.xs[q]); w.mh[a[2] % NH] = c; w.conns[s].push_back(c); ++w.cnt["connects"]; break; }
  case 19: act(3, a[0]); break;
  case 20: emit(a[0] % NS, a[1] % 50); break;
  case 21: case 26: if (w.sl[l]) { std::unique_ptr<Slot> cp; const Slot* s = w.sl[l].get(); MSlot m(w.ms[l]); if (a[1] % 2) { cp.reset(new Slot(*s)); s = cp.get(); } Frame f = { 0, 0, &m, 0, false }; bool dead = w.gone(m), thrown = false; w.frames.push_back(f); int r = 0; try { r = a[2] % 2 ? (*s)(7) : (*const_cast<Slot*>(s))(7); } catch (bs::expired_slot&) { thrown = true; } f = w.frames.back(); w.frames.pop_back();
      if (dead != thrown) err(dead ? "a slot object with an expired tracked object did not throw expired_slot" : "a slot object threw expired_slot although nothing it tracks is gone"); else if (!thrown && (!f.any || r != f.last)) err("a slot object called directly did not return its function's result"); ++w.cnt["direct_calls"]; w.mixh(thrown); } break;
  case 22: if (w.sl[l]) { int k = a[1] % NK; for (int q : w.heldids[k]) if (w.kind_of[q] <= 2) --g_inuse[q]; w.heldids[k].clear(); bool dead = w.gone(w.ms[l]), thrown = false; try { const bs::slot_base::locked_container_type n(w.sl[l]->lock()); if (w.held[k] && a[2] % 2) *w.held[k] = n; else w.held[k].reset(new bs::slot_base::locked_container_type(n)); } catch (bs::expired_slot&) { thrown = true; w.held[k].reset(); } if (dead != thrown) err("slot::lock: wrong outcome"); if (!thrown) for (int q : w.ms[l].tr) { if (w.kind_of[q] <= 2) ++g_inuse[q]; w.heldids[k].push_back(q); } ++w.cnt["locks"]; w.mixh(thrown); } break;
  case 23: { int k = a[0] % NK; for (int q : w.heldids[k]) if (w.kind_of[q] <= 2) --g_inuse[q]; w.heldids[k].clear(); w.held[k].reset(); break; }
  case 24: if (w.sl[l]) { bool e = w.sl[l]->expired(); if (e != w.gone(w.ms[l])) err("slot::expired() is wrong"); if (w.sl[l]->tracked_objects().size() != w.ms[l].tr.size()) err("slot has the wrong number of tracked objects"); w.mixh(e); ++w.cnt["slot_queries"]; } break;
  case 25: { int q = a[0] % NH; bool c = w.h[q].connected(), m = w.mh[q] && w.callable(w.mh[q]); if (c != m) err("connected() is " + std::to_string(c) + " but the slot is " + (m ? "connected with everything it tracks alive" : "disconnected or expired")); w.mixh(c); ++w.cnt["queries"]; int s = a[1] % NS; size_t n = 0; for (auto& k : w.conns[s]) n += w.callable(k); if (w.sg[s]->num_slots() != n) err("num_slots() is wrong"); break; }
  case 27: { act(0, a[0]); break; }
  }
  if (w.frames.empty()) { bool any = false; for (auto& k : w.held) any |= !!k; if (!any) for (auto& o : w.ob) { if (o.kind == 0 && o.b.use_count() != 1 + !!o.b2) err("the library keeps a tracked object alive (boost::shared_ptr)"); if (o.kind == 1 && o.s.use_count() != 1 + !!o.s2) err("the library keeps a tracked object alive (std::shared_ptr)"); if (o.kind == 2 && o.m.uses() != 1 + !!o.m2.c) err("the library keeps a tracked object alive (custom pointer)"); } }
}
static const char* NAMES[] = { "new", "drop", "dup", "undup", "tcopy", "sl", "slb", "trk", "tre", "trs", "xl", "xtr", "trx", "cp", "asg", "swp", "cnv", "con", "conx", "dis", "em", "call", "lock", "unlock", "st", "q", "callc", "dropx", "scr" };
enum { NOPS = sizeof NAMES / sizeof NAMES[0] };
static Lines generate(uint64_t seed, const string&) {
  Rng r(seed); Lines out; static const int WT[NOPS] = { 9, 4, 3, 2, 2, 10, 3, 10, 1, 3, 3, 3, 2, 4, 3, 2, 4, 14, 4, 2, 14, 8, 3, 3, 4, 6, 2, 3, 0 }; int wt[NOPS]; int tot = 0, no = r.range(1, NO), nl = r.range(1, NL), kinds = r.chance(40) ? r.below(NKIND) : -1;
  for (int i = 0; i < NOPS; ++i) { wt[i] = r.chance(12) && i != 17 && i != 20 && i != 0 ? 0 : WT[i]; if (r.chance(10)) wt[i] *= 4; tot += wt[i]; }
  auto put = [&](int op, int a, int b, int c, int d) { char t[80]; snprintf(t, sizeof t, "%s %d %d %d %d", NAMES[op], a, b, c, d); out.push_back(t); };
  int ns = r.range(0, 8); for (int i = 0; i < ns; ++i) put(28, r.below(NF), r.chance(70) ? r.below(3) : r.below(5), r.below(8), 0);
  for (int i = 0; i < no; ++i) put(0, i, kinds >= 0 && r.chance(80) ? kinds : r.below(NKIND), r.below(2), 0); for (int i = 0; i < nl; ++i) { put(5, i, r.below(36), r.below(no), r.below(no)); if (r.chance(60)) put(7, i, r.below(no), r.below(64), 0); }
  int n = r.range(8, 60); for (int k = 0; k < n; ++k) { int x = r.below(tot), op = 0; for (; op < NOPS - 1; ++op) { if (x < wt[op]) break; x -= wt[op]; }
    int A = r.below(64), B = r.below(90), C = r.below(64), D = r.below(64);
    switch (op) { case 0: case 1: case 2: case 3: case 27: A = r.below(no); if (kinds >= 0 && op == 0 && r.chance(60)) B = kinds; break; case 4: A = r.below(no); B = r.below(no); break; case 5: case 6: A = r.below(nl); C = r.below(no); D = r.below(no); break; case 7: A = r.below(nl); B = r.below(no); break; case 10: C = r.below(no); break; case 11: B = r.below(no); break; case 8: case 24: case 21: case 22: case 26: case 12: A = r.below(nl); break; case 9: case 13: case 14: case 15: case 16: A = r.below(nl); B = r.below(nl); break; case 17: A = r.below(10) < 8 ? 0 : 1; B = r.below(nl); break; case 20: A = r.below(10) < 8 ? 0 : 1; break; }
    put(op, A, B, C, D); }
  return out;
}
static Outcome run_case(const Lines& l) {
  static std::map<string, int> names; if (names.empty()) for (int i = 0; i < NOPS; ++i) names[NAMES[i]] = i;
  Outcome o; g_err.clear(); memset(g_alive, 0, sizeof g_alive); memset(g_inuse, 0, sizeof g_inuse); g_payloads = 0;
  { World w; W = &w; w.kind_of[-1] = 9; for (int s = 0; s < NS; ++s) w.sg[s].reset(new Sig());
    for (auto& t : l) { char nm[16]; int a[4] = { 0, 0, 0, 0 }; if (sscanf(t.c_str(), "%15s %d %d %d %d", nm, a, a + 1, a + 2, a + 3) < 1 || !names.count(nm)) continue; for (int& x : a) if (x < 0) x = 0; int op = names[nm]; if (op == 28) { w.script[a[0] % NF].push_back(std::make_pair(a[1], a[2])); continue; } step(op, a); if (!g_err.empty()) { g_err += " (at: " + t + ")"; break; } }
    for (int s = 0; s < NS && g_err.empty(); ++s) { w.budget += 40; w.calls = 0; emit(s, 1); for (int q = 0; q < NH && g_err.empty(); ++q) { int a[4] = { q, s, 0, 0 }; w.budget += 2; step(25, a); } }
    for (int k = 0; k < NK; ++k) { for (int q : w.heldids[k]) if (w.kind_of[q] <= 2) --g_inuse[q]; w.heldids[k].clear(); w.held[k].reset(); }
    if (g_err.empty()) { for (int i = 0; i < NO; ++i) { if (l.size() % 2) break; drop(i); } for (int i = 1; i < w.next_id && l.size() % 2 == 0 && g_err.empty(); ++i) if (g_alive[i]) err("a tracked object outlived its owners"); }
    for (int i = 0; i < NL; ++i) w.sl[i].reset(); for (int i = 0; i < NX; ++i) w.xs[i].reset(); for (int s = 0; s < NS; ++s) w.sg[s].reset(); if (g_payloads && g_err.empty()) err("slot functions left when all signals and slots are gone");
    o.counters = w.cnt; o.hash = w.hash; }
  W = 0; o.ok = g_err.empty(); o.msg = g_err; o.nontrivial = o.counters["connects"] > 1 && (o.counters["tracked_calls"] > 0 || o.counters["direct_calls"] > 1) && (o.counters["bound_tracks"] + o.counters["tracks"] > 1); return o;
}
int main(int argc, char** argv) { vc::Harness h; h.gen = generate; h.run = run_case; return vc::main_loop(argc, argv, h); }
