// C09: the standard combiners and the slot result range for many result types: driven over generated input ranges (a scripted iterator) and through real signals.
#include "core.hpp"
#include <boost/signals2.hpp>
#include <boost/signals2/last_value.hpp>
#include <boost/signals2/optional_last_value.hpp>
#include <memory>
#include <array>
#include <numeric>
#include <iterator>
#include <type_traits>
#include <stdexcept>
vc::Progress* vc::g_progress;
using vc::Rng; using vc::Lines; using vc::Outcome; using std::string; using std::vector;
namespace bs = boost::signals2;
static string g_err; static void err(const string& m) { if (g_err.empty()) g_err = m; }
static long g_live;
struct Val { int v; Val* self; explicit Val(int x) : v(x), self(this) { ++g_live; } Val(const Val& o) : v(o.v), self(this) { o.chk(); ++g_live; } Val(Val&& o) : v(o.v), self(this) { o.chk(); ++g_live; o.v = -5; } Val& operator=(const Val& o) { o.chk(); chk(); v = o.v; return *this; } Val& operator=(Val&& o) { o.chk(); chk(); v = o.v; if (&o != this) o.v = -5; return *this; } ~Val() { chk(); self = 0; --g_live; } void chk() const { if (self != this) err("use of a result that is not alive"); } };
struct NoDef { int v; explicit NoDef(int x) : v(x) {} private: NoDef(); };
struct ConvTo { int v; ConvTo(int x = 0) : v(x) {} operator bool() const { return v % 2 != 0; } };
static vector<std::unique_ptr<Val> > g_pool; static Val& pool(int i) { while ((int)g_pool.size() <= i) { --g_live; g_pool.emplace_back(new Val((int)g_pool.size())); } return *g_pool[i]; }
template<class T> struct Tr { static T make(int i) { return T(i); } static int code(const T& x) { return int(x); } static int want(int i) { return i; } };
template<> struct Tr<string> { static string make(int i) { return "a result that is long enough for the heap " + std::to_string(i); } static int code(const string& s) { return s.size() > 42 ? atoi(s.c_str() + 42) : -77; } static int want(int i) { return i; } };
template<> struct Tr<bool> { static bool make(int i) { return i & 1; } static int code(bool b) { return b; } static int want(int i) { return i & 1; } };
template<> struct Tr<Val> { static Val make(int i) { return Val(i); } static int code(const Val& v) { v.chk(); return v.v; } static int want(int i) { return i; } };
template<> struct Tr<Val&> { static Val& make(int i) { return pool(i); } static int code(Val& v) { return &v == &pool(v.v) ? v.v : -78; } static int want(int i) { return i; } };
template<> struct Tr<const Val&> { static const Val& make(int i) { return pool(i); } static int code(const Val& v) { return &v == &pool(v.v) ? v.v : -78; } static int want(int i) { return i; } };
template<> struct Tr<Val*> { static Val* make(int i) { return i % 5 == 4 ? 0 : &pool(i); } static int code(Val* v) { return v ? v == &pool(v->v) ? v->v : -78 : -1; } static int want(int i) { return i % 5 == 4 ? -1 : i; } };
template<> struct Tr<std::shared_ptr<Val> > { typedef std::shared_ptr<Val> P; static P make(int i) { return i % 5 == 4 ? P() : P(new Val(i)); } static int code(const P& p) { if (!p) return -1; p->chk(); return p->v; } static int want(int i) { return i % 5 == 4 ? -1 : i; } };
template<> struct Tr<NoDef> { static NoDef make(int i) { return NoDef(i); } static int code(const NoDef& n) { return n.v; } static int want(int i) { return i; } };
template<> struct Tr<ConvTo> { static ConvTo make(int i) { return ConvTo(i); } static int code(const ConvTo& n) { return n.v; } static int want(int i) { return i; } };
template<> struct Tr<vector<string> > { typedef vector<string> V; static V make(int i) { return V(i % 4, std::to_string(i)); } static int code(const V& v) { return v.empty() ? 0 : int(v.size()) * 1000 + atoi(v[0].c_str()); } static int want(int i) { return i % 4 ? (i % 4) * 1000 + i : 0; } };
struct OtherExc { int at; }; struct ExpD : bs::expired_slot {};
struct Evt { int type, val; }; // type 0,1: a value; 2 expired_slot; 3 derived from it; 4 another exception; 5 blocked slot; 6 a slot that disconnects itself
struct Script { vector<Evt> e; vector<int> derefs; vector<int> order; void go(int i) { if (i < 0 || i >= (int)e.size()) { err("dereference past the end of the range"); return; } ++derefs[i]; order.push_back(i); if (e[i].type == 2) throw bs::expired_slot(); if (e[i].type == 3) throw ExpD(); if (e[i].type == 4) { OtherExc x = { i }; throw x; } } };
template<class T, bool ByRef> struct SIt { Script* s; size_t pos; typedef std::input_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef void pointer; typedef T reference; T operator*() const { s->go((int)pos); return Tr<T>::make(s->e[pos].val); } SIt& operator++() { ++pos; return *this; } SIt operator++(int) { SIt t(*this); ++pos; return t; } bool operator==(const SIt& o) const { return pos == o.pos; } bool operator!=(const SIt& o) const { return pos != o.pos; } };
template<class T> struct SItR { Script* s; size_t pos; mutable boost::optional<T> cur; typedef std::input_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef T* pointer; typedef T& reference; T& operator*() const { if (!cur) { s->go((int)pos); cur.emplace(Tr<T>::make(s->e[pos].val)); } return *cur; } SItR& operator++() { ++pos; cur.reset(); return *this; } bool operator==(const SItR& o) const { return pos == o.pos; } bool operator!=(const SItR& o) const { return pos != o.pos; } };
template<bool R> struct SIt<void, R> { Script* s; size_t pos; void operator*() const { s->go((int)pos); } SIt& operator++() { ++pos; return *this; } bool operator==(const SIt& o) const { return pos == o.pos; } bool operator!=(const SIt& o) const { return pos != o.pos; } };
// outcome of one use of a combiner: kind 0 value, 1 none, 2 no_slots_error, 3 OtherExc, 4 expired_slot reached us
struct Res { int kind; long code; bool operator==(const Res& o) const { return kind == o.kind && code == o.code; } string str() const { static const char* n[] = { "value", "none", "no_slots_error", "exception", "expired_slot" }; return string(n[kind]) + " " + std::to_string(code); } };
template<class F> static Res guard(F f) { Res r = { 0, 0 }; try { r = f(); } catch (OtherExc& e) { r.kind = 3; r.code = e.at; } catch (bs::no_slots_error&) { r.kind = 2; r.code = 0; } catch (bs::expired_slot&) { r.kind = 4; r.code = 0; } return r; }
template<class T> static Res of(T&& x) { Res r = { 0, 0 }; typedef typename std::remove_cv<typename std::remove_reference<T>::type>::type D; r.code = Tr<D>::code(x); return r; }
template<class T> struct Opt { static Res of(const boost::optional<T>& o) { Res r = { o ? 0 : 1, o ? Tr<T>::code(*o) : 0 }; return r; } };
struct Exp { Res r; vector<int> order; };
// the model of last_value / optional_last_value over the callable positions idx
template<class T> static Exp model_last(const vector<Evt>& e, const vector<int>& idx, bool optional) { Exp x; bool any = false; long v = 0; x.r.kind = 0; x.r.code = 0;
  for (int i : idx) { x.order.push_back(i); if (e[i].type == 4) { x.r.kind = 3; x.r.code = i; return x; } if (e[i].type == 2 || e[i].type == 3) continue; any = true; v = std::is_void<T>::value ? 0 : Tr<typename std::conditional<std::is_void<T>::value, int, T>::type>::want(e[i].val); }
  if (std::is_void<T>::value) return x; if (!any) { x.r.kind = optional ? 1 : 2; return x; } x.r.code = v; return x; }
// a user's combiner: pattern over the range, collecting codes
struct Pat { int p, k, pol; }; static Pat g_pat;
template<class T> struct Elem { template<class It> static long get(It& i) { long c = Tr<T>::code(*i); return c; } }; template<> struct Elem<void> { template<class It> static long get(It& i) { *i; return 0; } };
template<class T> static long post(T&& x) { typedef typename std::remove_cv<typename std::remove_reference<T>::type>::type D; return Tr<D>::code(x); }
template<class T, bool V> struct Algo { template<class It> static void run(int p, It f, It l, vector<long>& out) { typedef typename std::remove_cv<typename std::remove_reference<T>::type>::type D; 
    if (p == 5) { for (It i = std::find_if(f, l, [&](const D& x) { long c = Tr<T>::code(const_cast<D&>(x)); out.push_back(c); return c % 3 == 2; }); false; ++i) {} } else if (p == 7) std::for_each(f, l, [&](const D& x) { out.push_back(Tr<T>::code(const_cast<D&>(x))); });
    else if (p == 8) { long s = std::accumulate(f, l, 0L, [&](long a, const D& x) { return a * 3 + Tr<T>::code(const_cast<D&>(x)); }); out.push_back(s); } else std::transform(f, l, std::back_inserter(out), [](const D& x) { return long(Tr<T>::code(const_cast<D&>(x))); }); }
  template<class It> static void p10(It& f, vector<long>& out) { out.push_back(Tr<T>::code(*f++)); } };
template<class T> struct Algo<T, true> { template<class It> static void run(int, It f, It l, vector<long>& out) { for (; f != l; ++f) out.push_back(Elem<T>::get(f)); } template<class It> static void p10(It& f, vector<long>& out) { out.push_back(Elem<T>::get(f)); ++f; } };
template<class T> struct CombList { typedef vector<long> result_type;
  template<class It> vector<long> operator()(It f, It l) const {
    vector<long> out; Pat g = g_pat; int n = 0;
    if (g.p == 5 || g.p == 7 || g.p == 8 || g.p == 9) { Algo<T, !std::is_object<T>::value>::run(g.p, f, l, out); return out; }
    if (g.p == 6) { for (; f != l; ++f) ++n; out.push_back(n); return out; }
    while (f != l) { bool adv = false;
      try { switch (g.p) { case 1: { long a = Elem<T>::get(f); long b = Elem<T>::get(f); if (a != b) err("repeated dereference gave another result"); out.push_back(a); break; } case 2: if (n % 2 == 0) out.push_back(Elem<T>::get(f)); break; case 3: if (n >= g.k) return out; out.push_back(Elem<T>::get(f)); break; case 4: { It c(f); out.push_back(Elem<T>::get(c)); out.push_back(Elem<T>::get(f)); break; } case 10: { bool last = false; Algo<T, !std::is_object<T>::value>::p10(f, out); adv = true; (void)last; break; } default: out.push_back(Elem<T>::get(f)); }
      } catch (bs::expired_slot&) { if (g.pol) throw; out.push_back(-1000); } 
      if (!adv) ++f; ++n; }
    return out; } };
template<class T> static Exp model_list(const vector<Evt>& e, const vector<int>& idx, Pat g, vector<long>& out) { Exp x; x.r.kind = 0; x.r.code = 0; int n = 0; bool alg = g.p == 5 || g.p == 7 || g.p == 8 || g.p == 9; long acc = 0; typedef typename std::conditional<std::is_void<T>::value, int, T>::type U; const bool vd = std::is_void<T>::value, obj = std::is_object<T>::value;
  if (g.p == 6) { out.push_back((long)idx.size()); return x; }
  for (int i : idx) { if (g.p == 2 && n % 2) { ++n; continue; } if (g.p == 3 && n >= g.k) return x; x.order.push_back(i); long c = vd ? 0 : Tr<U>::want(e[i].val);
    if (e[i].type == 4) { x.r.kind = 3; x.r.code = i; return x; } if (e[i].type == 2 || e[i].type == 3) { if (g.pol || alg) { x.r.kind = 4; return x; } out.push_back(-1000); ++n; continue; }
    if (alg && obj) { acc = acc * 3 + c; if (g.p != 8) out.push_back(c); if (g.p == 5 && c % 3 == 2) return x; } else { out.push_back(c); if (g.p == 4) out.push_back(c); } ++n; }
  if (alg && obj && g.p == 8) out.push_back(acc); return x; }

template<class Sig, class T> struct Slots { Script* s; int i; bs::connection* self; T operator()() const { if (s->e[i].type == 6) self->disconnect(); s->go(i); return Tr<T>::make(s->e[i].val); } }; template<class Sig> struct Slots<Sig, void> { Script* s; int i; bs::connection* self; void operator()() const { if (s->e[i].type == 6) self->disconnect(); s->go(i); } };
template<class R> struct Call { template<class S> static Res go(S& s) { return of(s()); } }; template<> struct Call<void> { template<class S> static Res go(S& s) { s(); Res r = { 0, 0 }; return r; } }; template<class T> struct Call<boost::optional<T> > { template<class S> static Res go(S& s) { return Opt<T>::of(s()); } }; static vector<long>* g_out; template<> struct Call<vector<long> > { template<class S> static Res go(S& s) { *g_out = s(); Res r = { 0, 0 }; return r; } };
static std::map<string, long> g_cnt; static uint64_t g_hash;
static string vs(const vector<int>& v) { string s; for (int i : v) s += std::to_string(i) + " "; return s; }
static void compare(const char* what, const Exp& x, const Res& r, const vector<int>& order) { if (!(x.r == r)) err(string(what) + ": expected " + x.r.str() + ", got " + r.str()); if (x.order != order) err(string(what) + ": positions dereferenced: expected " + vs(x.order) + "got " + vs(order)); g_hash = vc::hash_bytes(&r, sizeof(int), g_hash); g_hash = vc::hash_bytes(&r.code, sizeof r.code, g_hash); for (int i : order) g_hash = vc::hash_bytes(&i, sizeof i, g_hash); ++g_cnt[string("used_") + what]; }
template<class T, class Comb> static void through_signal(const char* what, const vector<Evt>& ev, int which, bool cst, Pat pat) {
  typedef bs::signal<T(), Comb> Sig; Script s; s.e = ev; s.derefs.assign(ev.size(), 0); vector<bs::connection> c(ev.size()); vector<bs::shared_connection_block> bl; vector<bool> on(ev.size(), true);
  { Sig sig; for (size_t i = 0; i < ev.size(); ++i) { Slots<Sig, T> f = { &s, int(i), &c[i] }; c[i] = sig.connect(f); if (ev[i].type == 5) bl.push_back(bs::shared_connection_block(c[i])); }
    for (int round = 0; round < 2 && g_err.empty(); ++round) { vector<int> idx; for (size_t i = 0; i < ev.size(); ++i) if (on[i] && ev[i].type != 5) idx.push_back((int)i); s.order.clear(); g_pat = pat; vector<long> got, want; g_out = &got;
      const Sig& cs = sig; typedef typename Sig::result_type R; Res r = cst ? guard([&] { return Call<R>::go(cs); }) : guard([&] { return Call<R>::go(sig); });
      Exp x = which == 2 ? model_list<T>(ev, idx, pat, want) : model_last<T>(ev, idx, which == 1); compare(what, x, r, s.order); if (which == 2 && x.r.kind == 0 && got != want) { string a, b; for (long q : want) a += std::to_string(q) + " "; for (long q : got) b += std::to_string(q) + " "; err(string(what) + " pattern " + std::to_string(pat.p) + ": expected " + a + "got " + b); }
      for (int i : x.order) if (ev[i].type == 2 || ev[i].type == 3 || ev[i].type == 6) on[i] = false;
      size_t n = 0; for (size_t i = 0; i < ev.size(); ++i) { n += on[i]; if (c[i].connected() != on[i]) err(string(what) + ": slot " + std::to_string(i) + (on[i] ? " was disconnected" : " is still connected")); } if (sig.num_slots() != n) err("num_slots() is wrong"); } } }
template<class T, bool ByRef> static void direct(const vector<Evt>& ev) {
  vector<int> idx; for (size_t i = 0; i < ev.size(); ++i) idx.push_back((int)i); Script s; s.e = ev; for (int w = 0; w < 2 && g_err.empty(); ++w) { s.order.clear(); s.derefs.assign(ev.size(), 0); typename std::conditional<ByRef, SItR<T>, SIt<T, false> >::type f, l; f.s = l.s = &s; f.pos = 0; l.pos = ev.size();
    Res r; const bs::last_value<T> lv = bs::last_value<T>(); const bs::optional_last_value<T> ov = bs::optional_last_value<T>(); auto a = [&] { return lv(f, l); }; auto b = [&] { return ov(f, l); }; typedef typename bs::last_value<T>::result_type R0; typedef typename bs::optional_last_value<T>::result_type R1; 
    static_assert(std::is_same<R0, T>::value, "last_value::result_type"); r = w ? guard([&] { return Call<R1>::go(b); }) : guard([&] { return Call<R0>::go(a); }); Exp x = model_last<T>(ev, idx, w == 1); compare(w ? "optional_last_value(range)" : "last_value(range)", x, r, s.order); } }
template<class T> static void run_kind(const vector<Evt>& ev, const vector<std::array<int, 4> >& uses) {
  for (auto& u : uses) { if (!g_err.empty()) return; Pat p = { u[1] % 11, u[2] % 6, u[3] % 2 }; bool cst = u[3] & 2; switch (u[0] % 6) { case 0: { vector<Evt> e(ev); for (auto& x : e) if (x.type > 4) x.type = 0; direct<T, false>(e); break; } case 1: { vector<Evt> e(ev); for (auto& x : e) if (x.type > 4) x.type = 0; direct<T, std::is_object<T>::value>(e); break; }
    case 2: through_signal<T, bs::last_value<T> >("last_value", ev, 0, cst, p); break; case 3: through_signal<T, bs::optional_last_value<T> >("optional_last_value", ev, 1, cst, p); break; default: through_signal<T, CombList<T> >("user combiner", ev, 2, cst, p); } } }
enum { NKINDS = 13 };
static Lines generate(uint64_t seed, const string&) {
  Rng r(seed); Lines out; char t[64]; snprintf(t, sizeof t, "!kind %d", r.below(NKINDS)); out.push_back(t); int n = r.chance(12) ? 0 : r.chance(20) ? r.range(8, 24) : r.range(1, 7); int style = r.below(5);
  for (int i = 0; i < n; ++i) { int ty = style == 0 ? 0 : style == 1 ? (r.chance(50) ? 0 : 2) : style == 2 ? (r.chance(25) ? 0 : r.range(2, 3)) : style == 3 ? (r.chance(70) ? 0 : r.range(1, 6)) : r.below(7); snprintf(t, sizeof t, "ev %d %d", ty, r.below(20)); out.push_back(t); }
  int k = r.range(1, 5); for (int i = 0; i < k; ++i) { snprintf(t, sizeof t, "use %d %d %d %d", r.below(6), r.below(11), r.below(6), r.below(4)); out.push_back(t); } return out;
}
static Outcome run_case(const Lines& l) {
  Outcome o; g_err.clear(); g_cnt.clear(); g_hash = 1469598103934665603ull; int kind = 0; vector<Evt> ev; vector<std::array<int, 4> > uses;
  for (auto& s : l) { int a, b, c, d; if (sscanf(s.c_str(), "!kind %d", &a) == 1) kind = a; else if (sscanf(s.c_str(), "ev %d %d", &a, &b) == 2) { Evt e = { a % 7, b % 20 }; ev.push_back(e); } else if (sscanf(s.c_str(), "use %d %d %d %d", &a, &b, &c, &d) == 4) uses.push_back({ { a, b, c, d } }); }
  for (int i = 0; i < 20; ++i) pool(i); g_live = 0;
  switch (kind % NKINDS) { case 0: run_kind<void>(ev, uses); break; case 1: run_kind<int>(ev, uses); break; case 2: run_kind<string>(ev, uses); break; case 3: run_kind<bool>(ev, uses); break; case 4: run_kind<Val&>(ev, uses); break; case 5: run_kind<const Val&>(ev, uses); break; case 6: run_kind<std::shared_ptr<Val> >(ev, uses); break; case 7: run_kind<NoDef>(ev, uses); break; case 8: run_kind<Val>(ev, uses); break; case 9: run_kind<Val*>(ev, uses); break; case 10: run_kind<vector<string> >(ev, uses); break; case 11: run_kind<ConvTo>(ev, uses); break; default: run_kind<double>(ev, uses); }
  if (g_live && g_err.empty()) err("slot results left alive or destroyed twice: " + std::to_string(g_live));
  g_hash = vc::hash_bytes(&kind, sizeof kind, g_hash); o.ok = g_err.empty(); o.msg = "result kind " + std::to_string(kind) + ": " + g_err; o.counters = g_cnt; o.hash = g_hash; o.nontrivial = ev.size() > 1 && !uses.empty(); return o;
}
int main(int argc, char** argv) { vc::Harness h; h.gen = generate; h.run = run_case; return vc::main_loop(argc, argv, h); }
