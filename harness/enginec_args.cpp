// C08: arguments, results and introspection for generated signatures (arity 0..9, 10 and 12 in the variadic implementation), slot forms and invocations.
#include "core.hpp"
#include <boost/signals2.hpp>
#include <boost/function.hpp>
#include <boost/bind/bind.hpp>
#include <functional>
#include <memory>
#include <type_traits>
#include <utility>
vc::Progress* vc::g_progress;
using vc::Rng; using vc::Lines; using vc::Outcome; using std::string;
namespace s2 = boost::signals2;
#ifndef AR_PART
#define AR_PART 0
#endif
#ifdef BOOST_NO_CXX11_VARIADIC_TEMPLATES
enum { VARIADIC = 0, MAXN = 9 };
#else
enum { VARIADIC = 1, MAXN = 12 };
#endif
static const char* g_err; static void err(const char* m) { if (!g_err) g_err = m; }
static long g_live;
struct Val { int v; Val* self; Val() : v(-7), self(this) { ++g_live; } explicit Val(int x) : v(x), self(this) { ++g_live; } Val(const Val& o) : v(o.v), self(this) { o.chk(); ++g_live; } Val(Val&& o) : v(o.v), self(this) { o.chk(); o.v = -999; ++g_live; } 
  Val& operator=(const Val& o) { o.chk(); v = o.v; return *this; } Val& operator=(Val&& o) { o.chk(); v = o.v; if (&o != this) o.v = -999; return *this; } ~Val() { chk(); self = 0; --g_live; } void chk() const { if (self != this) err("use of an object that is not alive"); } };
struct Base { virtual ~Base() {} int pad; Base() : pad(3) {} virtual Val& val() = 0; virtual const Val& val() const = 0; };
struct Left { virtual ~Left() {} long l[2]; };
struct Der : Left, Base { Val x; explicit Der(int i = 0) : x(i) {} Val& val() { return x; } const Val& val() const { return x; } };

// ---- parameter kinds
enum { NKIND = 9 };
template<int K> struct PK; 
template<> struct PK<0> { typedef int type; }; template<> struct PK<1> { typedef Val type; }; template<> struct PK<2> { typedef Val& type; }; template<> struct PK<3> { typedef const Val& type; }; template<> struct PK<4> { typedef Val* type; };
template<> struct PK<5> { typedef string type; }; template<> struct PK<6> { typedef Base& type; }; template<> struct PK<7> { typedef const string& type; }; template<> struct PK<8> { typedef std::shared_ptr<Val> type; };
static const int PAT[4][12] = { { 0, 1, 2, 3, 4, 5, 6, 7, 8, 1, 2, 0 }, { 1, 1, 5, 8, 2, 2, 3, 6, 0, 0, 1, 5 }, { 2, 5, 0, 1, 8, 3, 4, 2, 7, 6, 0, 8 }, { 5, 2, 1, 0, 6, 8, 1, 5, 3, 4, 7, 1 } };
template<int Q, int I> struct KindAt; 
#define P4(I, a, b, c, d) template<> struct KindAt<0, I> { enum { v = a }; }; template<> struct KindAt<1, I> { enum { v = b }; }; template<> struct KindAt<2, I> { enum { v = c }; }; template<> struct KindAt<3, I> { enum { v = d }; };
P4(0, 0, 1, 2, 5) P4(1, 1, 1, 5, 2) P4(2, 2, 5, 0, 1) P4(3, 3, 8, 1, 0) P4(4, 4, 2, 8, 6) P4(5, 5, 2, 3, 8) P4(6, 6, 3, 4, 1) P4(7, 7, 6, 2, 5) P4(8, 8, 0, 7, 3) P4(9, 1, 0, 6, 4) P4(10, 2, 1, 0, 7) P4(11, 0, 5, 8, 1)
// ---- result kinds
template<int K> struct RK; template<> struct RK<0> { typedef void type; }; template<> struct RK<1> { typedef int type; }; template<> struct RK<2> { typedef Val type; }; template<> struct RK<3> { typedef Val& type; }; template<> struct RK<4> { typedef string type; }; template<> struct RK<5> { typedef const Val* type; };
enum { NRK = 6, NF = 8 };

struct Objs { Val vals[16]; Der ders[16]; string strs[16]; std::shared_ptr<Val> sps[16]; };
static Objs* g_o; static Val* g_res; // g_res[f]: object a slot f returns by reference or pointer
struct Call { const int* map; } static g_call; // object of each position in the running invocation
static bool g_byaddr; // by-address parameters must be the caller's objects
static std::vector<string>* g_log; static int g_ncall;

// what a slot observes at position i, and what it does to it
template<int K> struct See;
static void mark(string& r, const string& s) { r += s; r += ','; }
template<> struct See<0> { static void see(string& r, int, int& x, int) { mark(r, std::to_string(x)); x = -1; } static void see(string& r, int, const int& x, int) { mark(r, std::to_string(x)); } };
template<> struct See<1> { static void see(string& r, int, Val& x, int) { x.chk(); mark(r, std::to_string(x.v)); Val y(std::move(x)); } static void see(string& r, int, const Val& x, int) { x.chk(); mark(r, std::to_string(x.v)); } };
template<> struct See<2> { static void see(string& r, int i, Val& x, int f) { x.chk(); if (&x != &g_o->vals[g_call.map[i]]) err("reference argument is another object"); mark(r, std::to_string(x.v)); x.v += 1 + f; } static void see(string& r, int i, const Val& x, int) { if (&x != &g_o->vals[g_call.map[i]]) err("reference argument is another object"); mark(r, std::to_string(x.v)); } };
template<> struct See<3> { static void see(string& r, int i, const Val& x, int) { x.chk(); if (&x != &g_o->vals[g_call.map[i]]) err("const reference argument is another object"); mark(r, std::to_string(x.v)); } };
template<> struct See<4> { template<class P> static void see(string& r, int i, P& x, int) { if (x != &g_o->vals[g_call.map[i]]) err("pointer argument changed"); else mark(r, std::to_string(x->v)); } };
template<> struct See<5> { static void see(string& r, int, string& x, int) { mark(r, x); string y; y.swap(x); } static void see(string& r, int, const string& x, int) { mark(r, x); } };
template<> struct See<6> { static void see(string& r, int i, Base& x, int f) { if (&x != &g_o->ders[g_call.map[i]]) err("base reference argument is another object"); else { mark(r, std::to_string(x.val().v)); x.val().v += 1 + f; } } static void see(string& r, int i, const Base& x, int) { if (&x != &g_o->ders[g_call.map[i]]) err("base reference argument is another object"); else mark(r, std::to_string(x.val().v)); } };
template<> struct See<7> { static void see(string& r, int i, const string& x, int) { if (&x != &g_o->strs[g_call.map[i]]) err("const string reference argument is another object"); mark(r, x); } };
template<> struct See<8> { static void see(string& r, int i, std::shared_ptr<Val>& x, int) { if (x != g_o->sps[g_call.map[i]]) err("shared_ptr argument changed"); mark(r, "p"); x.reset(); } static void see(string& r, int i, const std::shared_ptr<Val>& x, int) { if (x != g_o->sps[g_call.map[i]]) err("shared_ptr argument changed"); mark(r, "p"); } };
static bool clobbers(int k) { return k == 2 || k == 6; }

// what a slot returns
static int retv(int f) { return 1000 * (f + 1) + g_ncall; }
template<class R> struct Ret; template<> struct Ret<void> { static void go(int) {} }; template<> struct Ret<int> { static int go(int f) { return retv(f); } }; template<> struct Ret<Val> { static Val go(int f) { return Val(retv(f)); } }; template<> struct Ret<Val&> { static Val& go(int f) { g_res[f].v = retv(f); return g_res[f]; } };
template<> struct Ret<string> { static string go(int f) { return "some result long enough to live on the heap " + std::to_string(retv(f)); } }; template<> struct Ret<const Val*> { static const Val* go(int f) { g_res[f].v = retv(f); return &g_res[f]; } };
static string rs(int x) { return std::to_string(x); } static string rs(const Val& x) { x.chk(); for (int f = 0; f < NF; ++f) if (&x == &g_res[f]) return "&" + std::to_string(f) + "=" + std::to_string(x.v); return std::to_string(x.v); } static string rs(const string& x) { return x.size() > 45 ? x.substr(44) : "short:" + x; } static string rs(const Val* x) { return "*" + rs(*x); }
template<class R> struct ResStr { static string of(int f, int call) { return std::to_string(1000 * (f + 1) + call); } };
template<> struct ResStr<void> { static string of(int, int) { return "void"; } };
template<> struct ResStr<Val&> { static string of(int f, int call) { return "&" + std::to_string(f) + "=" + std::to_string(1000 * (f + 1) + call); } };
template<> struct ResStr<const Val*> { static string of(int f, int call) { return "*&" + std::to_string(f) + "=" + std::to_string(1000 * (f + 1) + call); } };
template<class R> struct Comb { typedef std::vector<string> result_type; template<class It> result_type operator()(It a, It b) const { result_type r; for (; a != b; ++a) r.push_back(rs(*a)); return r; } };
template<> struct Comb<void> { typedef std::vector<string> result_type; template<class It> result_type operator()(It a, It b) const { result_type r; for (; a != b; ++a) { *a; r.push_back("void"); } return r; } };

// ---- slot forms for signature R(A...) with argument kinds K...
template<class Sig, class Idx, int Q> struct Forms;
template<class R, class... A, size_t... I, int Q> struct Forms<R(A...), std::index_sequence<I...>, Q> {
  static string open(int f) { return "f" + std::to_string(f) + "("; }
  template<class... B> static R body(int f, B&... b) { string r = open(f); int d[] = { 0, (See<KindAt<Q, I>::v>::see(r, int(I), b, f), 0)... }; (void)d; g_log->push_back(r + ")"); ++g_ncall; return Ret<R>::go(f); }
  struct Exact { int f; R operator()(A... a) const { return body(f, a...); } };                 // takes value parameters by value and clobbers them
  struct ByConst { int f; R operator()(typename std::conditional<std::is_reference<A>::value, A, const A&>::type... a) const { return body(f, a...); } };
  struct Any { int f; template<class... B> R operator()(B&&... b) const { static_assert(sizeof...(B) == sizeof...(A), ""); return body(f, b...); } };
  struct Mutable { int f; Val own; R operator()(A... a) { own.chk(); return body(f, a...); } };
  struct Ext { int f; R operator()(const s2::connection& c, A... a) const { if (!c.connected()) err("extended slot got a connection that is not connected"); return body(f, a...); } };
  template<int F> static R plain(A... a) { return body(F, a...); }
  static R withtag(int f, A... a) { return body(f, a...); }
  struct Mem { int f; R call(A... a) { return body(f, a...); } };
  struct Tag { typedef R result_type; R operator()(int f, A... a) const { return body(f, a...); } };
};
enum { NFORM = 12 };
static const char* FORM[NFORM] = { "exact", "byconst", "generic", "mutable", "pointer", "std::function", "boost::function", "otherslot", "bound", "extended", "chained", "reference" };
template<int F> struct FP { template<class Fm> static auto get(int f) -> decltype(&Fm::template plain<0>) { return f == F ? &Fm::template plain<F> : FP<F - 1>::template get<Fm>(f); } };
template<> struct FP<-1> { template<class Fm> static auto get(int) -> decltype(&Fm::template plain<0>) { return &Fm::template plain<0>; } };

struct Run { virtual ~Run() {} virtual Outcome go(const Lines&) = 0; };
template<class Sig, class Idx, int Q> struct RunT;
template<class R, class... A, size_t... I, int Q> struct RunT<R(A...), std::index_sequence<I...>, Q> : Run {
  typedef R Sig(A...); enum { N = sizeof...(A) }; typedef Forms<Sig, std::index_sequence<I...>, Q> Fm; // boost::function ends at 10 arguments
  typedef typename std::conditional<(N < 10), boost::function<Sig>, std::function<Sig> >::type SF; typedef R XSig(const s2::connection&, A...); typedef typename std::conditional<(N < 10), boost::function<XSig>, std::function<XSig> >::type XSF;
  typedef s2::signal<Sig, Comb<R>, int, std::less<int>, SF, XSF> S; typedef s2::signal<Sig, s2::last_value<R>, int, std::less<int>, SF, XSF> Inner; typedef typename S::slot_type Slot; typedef typename S::extended_slot_type XSlot;
  template<class SS> struct Holder { std::vector<std::shared_ptr<void> > keep; };
  std::vector<std::shared_ptr<void> > keep;
  template<class T> T& hold(T* p) { keep.push_back(std::shared_ptr<T>(p)); return *p; }
  template<class F> static Slot bound(F f, int tag, std::true_type) { return bnd(f, tag, std::integral_constant<int, N>()); }
  static Slot bnd(typename Fm::Tag f, int t, std::integral_constant<int, 0>) { return Slot(f, t); }
  static Slot bnd(typename Fm::Tag f, int t, std::integral_constant<int, 1>) { using namespace boost::placeholders; return Slot(f, t, _1); }
  static Slot bnd(typename Fm::Tag f, int t, std::integral_constant<int, 2>) { using namespace boost::placeholders; return Slot(f, t, _1, _2); }
  static Slot bnd(typename Fm::Tag f, int t, std::integral_constant<int, 3>) { using namespace boost::placeholders; return Slot(f, t, _1, _2, _3); }
  static Slot bnd(typename Fm::Tag f, int t, std::integral_constant<int, 4>) { using namespace boost::placeholders; return Slot(f, t, _1, _2, _3, _4); }
  static Slot bnd(typename Fm::Tag f, int t, std::integral_constant<int, 5>) { using namespace boost::placeholders; return Slot(f, t, _1, _2, _3, _4, _5); }
  static Slot bnd(typename Fm::Tag f, int t, std::integral_constant<int, 6>) { using namespace boost::placeholders; return Slot(f, t, _1, _2, _3, _4, _5, _6); }
  static Slot bnd(typename Fm::Tag f, int t, std::integral_constant<int, 7>) { using namespace boost::placeholders; return Slot(f, t, _1, _2, _3, _4, _5, _6, _7); }
  template<int M> static Slot bnd(typename Fm::Tag, int t, std::integral_constant<int, M>) { typename Fm::Exact e = { t }; return Slot(e); }
  Slot make(int form, int f) {
    switch (form) {
      case 0: { typename Fm::Exact x = { f }; return Slot(x); } case 1: { typename Fm::ByConst x = { f }; return Slot(x); } case 2: { typename Fm::Any x = { f }; return Slot(x); } case 3: { typename Fm::Mutable x = { f, Val(1) }; return Slot(x); }
      case 4: return Slot(FP<NF - 1>::template get<Fm>(f)); case 5: { typename Fm::Exact x = { f }; return Slot(std::function<Sig>(x)); } case 6: { typename Fm::Exact x = { f }; return Slot(SF(x)); }
      case 7: { typename Fm::Exact x = { f }; s2::slot<Sig, std::function<Sig> > o(x); return Slot(o); } case 8: return bnd(typename Fm::Tag(), f, std::integral_constant<int, N>());
      case 10: { Inner& in = hold(new Inner()); typename Fm::Exact x = { f }; in.connect(x); return Slot(in); }
      default: { typename Fm::Exact& x = hold(new typename Fm::Exact()); x.f = f; return byref(x, std::integral_constant<bool, (N < 10)>()); } } }
  static Slot byref(typename Fm::Exact& x, std::true_type) { return Slot(boost::ref(x)); } static Slot byref(typename Fm::Exact& x, std::false_type) { return Slot(std::ref(x)); }
  s2::connection conn(S& s, int form, int f, int where) {
    if (form == 9) { typename Fm::Ext x = { f }; XSlot xs(x); return where == 0 ? s.connect_extended(xs) : where == 1 ? s.connect_extended(xs, s2::at_front) : s.connect_extended(0, xs); }
    if (form == 0 && where == 0) { typename Fm::Exact x = { f }; return s.connect(x); }
    if (form == 4 && where == 0) return s.connect(FP<NF - 1>::template get<Fm>(f));
    Slot sl = make(form, f); return where == 0 ? s.connect(sl) : where == 1 ? s.connect(sl, s2::at_front) : s.connect(0, sl); }
  // the argument of position J for an invocation: an lvalue, or for value kinds (mode 1) a temporary
  template<int K, class T> struct Mk; 
  template<class T> struct Mk<0, T> { static int get(int i, int) { return g_o->vals[g_call.map[i]].v; } };
  template<class T> struct Mk<1, T> { static Val get(int i, int) { return Val(g_o->vals[g_call.map[i]].v); } }; 
  template<class T> struct Mk<2, T> { static Val& get(int i, int) { return g_o->vals[g_call.map[i]]; } }; template<class T> struct Mk<3, T> { static const Val& get(int i, int) { return g_o->vals[g_call.map[i]]; } }; template<class T> struct Mk<4, T> { static Val* get(int i, int) { return &g_o->vals[g_call.map[i]]; } };
  template<class T> struct Mk<5, T> { static string get(int i, int) { return g_o->strs[g_call.map[i]]; } }; template<class T> struct Mk<6, T> { static Der& get(int i, int) { return g_o->ders[g_call.map[i]]; } }; template<class T> struct Mk<7, T> { static const string& get(int i, int) { return g_o->strs[g_call.map[i]]; } }; template<class T> struct Mk<8, T> { static std::shared_ptr<Val> get(int i, int) { return g_o->sps[g_call.map[i]]; } };
  template<int K, class T> struct Lv { static decltype(Mk<K, T>::get(0, 0)) get(int i) { return Mk<K, T>::get(i, 0); } };
  template<class T> struct Lv<1, T> { static Val& get(int i) { return g_o->vals[g_call.map[i]]; } }; template<class T> struct Lv<5, T> { static string& get(int i) { return g_o->strs[g_call.map[i]]; } }; template<class T> struct Lv<8, T> { static std::shared_ptr<Val>& get(int i) { return g_o->sps[g_call.map[i]]; } };
  template<class C> static auto call(C& c, int mode) -> decltype(c(Lv<KindAt<Q, I>::v, void>::get(int(I))...)) { if (mode & 1) return c(Mk<KindAt<Q, I>::v, void>::get(int(I), 0)...); return c(Lv<KindAt<Q, I>::v, void>::get(int(I))...); }
  template<class C> string slotcall(C& c, int mode, std::true_type) { call(c, mode); return "void"; }
  template<class C> string slotcall(C& c, int mode, std::false_type) { return rs(call(c, mode)); }

  // model: the state of the objects
  int mv[16], md[16]; string mst[16];
  string observe(int f, const int* map, const int* mv0, const string* st0) {
    string r = "f" + std::to_string(f) + "(";
    for (int i = 0; i < N; ++i) { int k = PAT[Q][i], m = map[i]; 
      if (k == 0 || k == 1) mark(r, std::to_string(mv0[m])); else if (k == 2) { mark(r, std::to_string(mv[m])); mv[m] += 1 + f; } else if (k == 3 || k == 4) mark(r, std::to_string(mv[m])); else if (k == 5) mark(r, st0[m]); else if (k == 7) mark(r, mst[m]); else if (k == 6) { mark(r, std::to_string(md[m])); md[m] += 1 + f; } else mark(r, "p"); }
    return r + ")"; }
  string observe_const(int f, const int* map, const int* mv0, const string* st0, int form) { (void)form; return observe(f, map, mv0, st0); }

  template<class X, class Y> static bool same() { return std::is_same<X, Y>::value; }
  template<class T, int M> struct ArgT; 
  static const char* introspect() {
    typedef typename S::slot_function_type sf; 
    if (int(S::arity) != N) return "signal::arity"; if (int(Slot::arity) != N) return "slot::arity"; if (int(XSlot::arity) != N + 1) return "extended slot::arity";
    bool ok[] = { true, same<typename S::template arg<I>::type, A>()..., same<typename Slot::template arg<I>::type, A>()..., same<typename XSlot::template arg<I + 1>::type, A>()... }; for (bool b : ok) if (!b) return "arg<n>::type";
    if (!same<typename XSlot::template arg<0>::type, const s2::connection&>()) return "extended slot arg<0>::type";
    if (!same<typename S::slot_result_type, R>()) return "slot_result_type"; if (!same<typename Slot::result_type, R>()) return "slot::result_type"; if (!same<typename XSlot::result_type, R>()) return "extended slot::result_type"; if (!same<typename S::result_type, std::vector<string> >()) return "signal::result_type";
    if (!same<typename S::signature_type, R(A...)>()) return "signature_type"; if (!same<typename Slot::signature_type, R(A...)>()) return "slot::signature_type"; if (!same<sf, SF>()) return "slot_function_type"; if (!same<typename Slot::slot_function_type, sf>()) return "slot::slot_function_type";
    if (!same<typename S::extended_slot_function_type, XSF>()) return "extended_slot_function_type"; if (!same<typename S::combiner_type, Comb<R> >()) return "combiner_type"; if (!same<typename S::group_type, int>() || !same<typename S::group_compare_type, std::less<int> >()) return "group types";
    if (!same<Slot, s2::slot<R(A...), SF> >() && VARIADIC) return "slot_type";
    return one(std::integral_constant<int, N>()); }
  static const char* one(std::integral_constant<int, 1>) { typedef typename S::template arg<0>::type T; if (!same<typename S::argument_type, T>() || !same<typename Slot::argument_type, T>()) return "argument_type"; return 0; }
  static const char* one(std::integral_constant<int, 2>) { typedef typename S::template arg<0>::type T; typedef typename S::template arg<1>::type U; if (!same<typename S::first_argument_type, T>() || !same<typename Slot::first_argument_type, T>() || !same<typename S::second_argument_type, U>() || !same<typename Slot::second_argument_type, U>()) return "first/second_argument_type"; return 0; }
  template<int M> static const char* one(std::integral_constant<int, M>) { return 0; }

  Outcome go(const Lines& ls) {
    Outcome o; g_err = 0; std::vector<string> log; g_log = &log; g_ncall = 0; std::unique_ptr<Objs> ob(new Objs()); g_o = ob.get(); std::vector<Val> res(NF); g_res = res.data(); string where = "introspection";
    for (int i = 0; i < 16; ++i) { g_o->vals[i].v = mv[i] = 50 + i; g_o->ders[i].x.v = md[i] = 80 + i; g_o->strs[i] = mst[i] = "a string argument that does not fit inline " + std::to_string(i); g_o->sps[i] = std::make_shared<Val>(i); }
    struct C { int form, f; s2::connection c; }; std::vector<C> order; std::vector<C> groups[3]; std::unique_ptr<S> s(new S()); long calls = 0, multi = 0; uint64_t h = N * 7 + Q; 
    auto fail = [&](const string& w) { o.ok = false; o.msg = w + " at '" + where + "' (arity " + std::to_string(N) + ", pattern " + std::to_string(Q) + ", result kind " + (std::is_void<R>::value ? "void" : "value") + ")"; s.release(); ob.release(); new std::vector<Val>(std::move(res)); new std::vector<std::shared_ptr<void> >(std::move(keep)); return o; };
    if (const char* e = introspect()) return fail(string("introspection: ") + e + " is wrong");
    for (auto& l : ls) { char nm[32]; int a[16] = { 0 }; if (l[0] == '!') continue; if (sscanf(l.c_str(), "%31s %d %d %d %d %d %d %d %d %d %d %d %d %d %d", nm, a, a + 1, a + 2, a + 3, a + 4, a + 5, a + 6, a + 7, a + 8, a + 9, a + 10, a + 11, a + 12, a + 13) < 1) continue; for (int& x : a) if (x < 0) x = 0;
      where = l; string op = nm;
      if (op == "conn") { int form = a[0] % NFORM, f = a[1] % NF, w = a[2] % 3; C c = { form, f, conn(*s, form, f, w) }; if (w == 1) groups[0].insert(groups[0].begin(), c); else groups[w == 0 ? 2 : 1].push_back(c); h = vc::mix(h, form * 10 + w); }
      else if (op == "disc") { int n = 0; for (auto& g : groups) n += g.size(); if (!n) continue; int k = a[0] % n; for (auto& g : groups) { if (k < (int)g.size()) { g[k].c.disconnect(); g.erase(g.begin() + k); break; } k -= g.size(); } }
      else if (op == "call" || op == "slot") {
        int map[12]; for (int i = 0; i < 12; ++i) map[i] = a[2 + i] % 16; g_call.map = map; 
        log.clear(); int mv0[16]; string st0[16]; for (int i = 0; i < 16; ++i) { mv0[i] = mv[i]; st0[i] = mst[i]; } std::vector<string> elog, eres, got; int c0 = g_ncall;
        if (op == "call") { if (a[0] & 2) { const S& cs = *s; got = call(cs, a[0]); } else got = call(*s, a[0]); 
          int k = c0; for (auto& g : groups) for (auto& c : g) { elog.push_back(observe(c.f, map, mv0, st0)); ++k; eres.push_back(ResStr<R>::of(c.f, k)); } ++calls; if (eres.size() > 1) ++multi; }
        else { int form = (a[1] / NF) % NFORM, f = a[1] % NF; if (form == 9) form = 0; Slot sl = make(form, f); const Slot& cs = sl; got.push_back(a[0] & 2 ? slotcall(cs, a[0], std::is_void<R>()) : slotcall(sl, a[0], std::is_void<R>())); elog.push_back(observe(f, map, mv0, st0)); eres.push_back(ResStr<R>::of(f, c0 + 1)); }
        if (g_err) return fail(g_err); 
        // results that are references show the object's latest value when the combiner looks at them; it looks right after each call
        if (log != elog) { string t = "slots observed "; for (auto& x : log) t += x; t += " instead of "; for (auto& x : elog) t += x; return fail(t); }
        if (got != eres) { string t = "the combiner received "; for (auto& x : got) t += x + " "; t += "instead of "; for (auto& x : eres) t += x + " "; return fail(t); }
        for (int i = 0; i < 16; ++i) if (g_o->vals[i].v != mv[i] || g_o->ders[i].x.v != md[i] || g_o->strs[i] != mst[i] || !g_o->sps[i]) return fail("an argument of the caller was changed"); 
        h = vc::mix(h, a[0] % 4 + 4 * eres.size()); for (auto& x : elog) h = vc::mix(h, vc::hash_str(x)); }
    }
    s.reset(); for (auto& g : groups) g.clear(); keep.clear(); if (g_err) return fail(g_err); long live = g_live; (void)live;
    ob.reset(); res.clear(); if (g_live) return fail("argument or result objects leaked or destroyed twice: " + std::to_string(g_live));
    o.hash = h; o.nontrivial = multi >= 1 && N > 0; o.counters["calls"] = calls; o.counters["calls_with_several_slots"] = multi; return o; }
};
template<int N, int Q, class Is> struct SigOf; template<int N, int Q, size_t... I> struct SigOf<N, Q, std::index_sequence<I...> > { typedef typename RK<(N + Q * 2) % NRK>::type R; typedef R type(typename PK<KindAt<Q, I>::v>::type...); };
template<int N, int Q> Run* mkrun() { typedef std::make_index_sequence<N> Is; return new RunT<typename SigOf<N, Q, Is>::type, Is, Q>(); }
#ifndef AR_HALF
#define AR_HALF 0
#endif
template<int N> Run* mkq(int q) { enum { H = (AR_HALF + N / 3) % 2 }; return q & 1 ? mkrun<N, H>() : mkrun<N, H + 2>(); }
static int NS_[] = {
#if AR_PART == 0
  0, 3, 6, 9
#elif AR_PART == 1
  1, 4, 7
#else
  2, 5, 8
#endif
#ifndef BOOST_NO_CXX11_VARIADIC_TEMPLATES
  , 10 + AR_PART
#endif
};
enum { NNS = sizeof NS_ / sizeof NS_[0] };
static Run* pick(int n, int q) { switch (n % NNS) { 
#if AR_PART == 0
  case 0: return mkq<0>(q); case 1: return mkq<3>(q); case 2: return mkq<6>(q); case 3: return mkq<9>(q);
#ifndef BOOST_NO_CXX11_VARIADIC_TEMPLATES
  default: return mkq<10>(q);
#endif
#elif AR_PART == 1
  case 0: return mkq<1>(q); case 1: return mkq<4>(q); case 2: return mkq<7>(q);
#ifndef BOOST_NO_CXX11_VARIADIC_TEMPLATES
  default: return mkq<11>(q);
#endif
#else
  case 0: return mkq<2>(q); case 1: return mkq<5>(q); case 2: return mkq<8>(q);
#ifndef BOOST_NO_CXX11_VARIADIC_TEMPLATES
  default: return mkq<12>(q);
#endif
#endif
  } return 0; }
static Outcome run(const Lines& ls) { int n = 0, q = 0; for (auto& l : ls) if (l[0] == '!') sscanf(l.c_str(), "!sig %d %d", &n, &q); std::unique_ptr<Run> r(pick(n % NNS, q & 3)); g_live = 0; return r->go(ls); }
static Lines gen(uint64_t seed, const string&) {
  Rng r(seed); Lines l; l.push_back("!sig " + std::to_string(r.below(NNS)) + " " + std::to_string(r.below(4))); int n = r.range(3, 30);
  for (int i = 0; i < n; ++i) { int w = r.below(100); std::ostringstream s;
    if (w < 45) s << "conn " << r.below(NFORM) << ' ' << r.below(NF) << ' ' << r.below(3); else if (w < 52) s << "disc " << r.below(20);
    else { s << (w < 85 ? "call " : "slot ") << r.below(4) << ' ' << r.below(NFORM * NF); int few = r.chance(30); for (int k = 0; k < 12; ++k) s << ' ' << (few ? r.below(2) : r.below(16)); }
    l.push_back(s.str()); }
  return l; }
int main(int argc, char** argv) { vc::Harness h; h.gen = gen; h.run = run; return vc::main_loop(argc, argv, h); }
