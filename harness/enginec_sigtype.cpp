// C22: signal_type keyword parameters: generated subsets and orders of the keywords, and the behaviour of signals of the resulting types.
// The combinations are generated at compile time from ST_SEED (the run_check seed) so that each build sees other ones; the behaviour is driven by generated cases.
#include "core.hpp"
#include <boost/signals2.hpp>
#include <boost/signals2/signal_type.hpp>
#include <boost/signals2/dummy_mutex.hpp>
#include <functional>
#include <type_traits>
#include <tuple>
vc::Progress* vc::g_progress;
using vc::Rng; using vc::Lines; using vc::Outcome; using std::string;
namespace s2 = boost::signals2; namespace kw = boost::signals2::keywords;

// ---- the values the keywords can take
static long g_locks[2], g_cmp, g_fn, g_xfn, g_comb;
template<int K> struct CMutex { bool held; CMutex() : held(false) {} void lock() { held = true; ++g_locks[K]; } bool try_lock() { held = true; ++g_locks[K]; return true; } void unlock() { held = false; } };
template<class R> struct MyComb { typedef int result_type; template<class It> int operator()(It a, It b) const { int n = 0; ++g_comb; for (; a != b; ++a) { *a; ++n; } return n; } };
struct MyGroup { int k; MyGroup(int x = 0) : k(x) {} bool operator<(const MyGroup& o) const { return k < o.k; } };
template<class G> struct Rev { bool operator()(const G& a, const G& b) const { ++g_cmp; return b < a; } };
template<class Sig> struct MyFn : boost::function<Sig> { MyFn() {} template<class F> MyFn(const F& f) : boost::function<Sig>(f) { ++g_fn; } template<class F> MyFn& operator=(const F& f) { ++g_fn; boost::function<Sig>::operator=(f); return *this; } };
template<class Sig> struct MyXFn : boost::function<Sig> { MyXFn() {} template<class F> MyXFn(const F& f) : boost::function<Sig>(f) { ++g_xfn; } template<class F> MyXFn& operator=(const F& f) { ++g_xfn; boost::function<Sig>::operator=(f); return *this; } };
template<class S> struct XSig; template<class R, class... A> struct XSig<R(A...)> { typedef R type(const s2::connection&, A...); typedef R result; };

template<int I> struct SigN; template<> struct SigN<0> { typedef void type(); }; template<> struct SigN<1> { typedef int type(int); }; template<> struct SigN<2> { typedef void type(int&, const string&); };
// a choice: bit i set = keyword i given (1 combiner, 2 group, 3 compare, 4 slot function, 5 extended slot function, 6 mutex)
template<int SIG, unsigned MASK> struct Choice {
  typedef typename SigN<SIG>::type Sig; typedef typename XSig<Sig>::type XS; typedef typename XSig<Sig>::result R;
  template<unsigned B, class A, class D> using pick = typename std::conditional<(MASK & (1u << B)) != 0, A, D>::type;
  typedef pick<1, MyComb<R>, s2::optional_last_value<R> > comb; typedef pick<2, MyGroup, int> group; typedef pick<3, Rev<group>, std::less<group> > cmp; typedef pick<4, MyFn<Sig>, boost::function<Sig> > fn; typedef pick<5, MyXFn<XS>, boost::function<XS> > xfn; typedef pick<6, CMutex<0>, s2::mutex> mtx;
  typedef s2::signal<Sig, comb, group, cmp, fn, xfn, mtx> expected;
};
template<class C, int K> struct Kw; 
template<class C> struct Kw<C, 0> { typedef kw::signature_type<typename C::Sig> type; typedef typename C::Sig plain; }; template<class C> struct Kw<C, 1> { typedef kw::combiner_type<typename C::comb> type; typedef typename C::comb plain; }; template<class C> struct Kw<C, 2> { typedef kw::group_type<typename C::group> type; typedef typename C::group plain; };
template<class C> struct Kw<C, 3> { typedef kw::group_compare_type<typename C::cmp> type; typedef typename C::cmp plain; }; template<class C> struct Kw<C, 4> { typedef kw::slot_function_type<typename C::fn> type; typedef typename C::fn plain; }; template<class C> struct Kw<C, 5> { typedef kw::extended_slot_function_type<typename C::xfn> type; typedef typename C::xfn plain; }; template<class C> struct Kw<C, 6> { typedef kw::mutex_type<typename C::mtx> type; typedef typename C::mtx plain; };

// ---- compile-time generation: entry J of this build
constexpr unsigned rnd(unsigned a, unsigned b) { unsigned long long z = (a * 0x9E3779B97F4A7C15ull) ^ (b * 0xBF58476D1CE4E5B9ull); z ^= z >> 29; z *= 0x94D049BB133111EBull; z ^= z >> 32; return unsigned(z >> 7); }
#ifndef ST_SEED
#define ST_SEED 1
#endif
#ifndef ST_N
#define ST_N 12
#endif
struct Perm { int k[7]; int n; unsigned mask; int sig; int npos; };
constexpr Perm make(unsigned seed, unsigned j) {
  Perm p = { { 0, 0, 0, 0, 0, 0, 0 }, 0, 0, 0, 0 }; unsigned s = seed * 1000 + j; 
  p.sig = rnd(s, 1) % 3; p.mask = ((seed * ST_N + j) * 37 % 64) << 1; // every subset in 64 consecutive entries
  bool style = rnd(s, 4) % 3 == 0; // some parameters positionally first
  if (style) { int npos = 1; while (npos < 7 && (p.mask & (1u << npos)) && rnd(s, 40 + npos) % 4) ++npos; p.npos = npos; for (int i = 0; i < npos; ++i) p.k[p.n++] = i; for (int i = npos; i < 7; ++i) if (p.mask & (1u << i)) p.k[p.n++] = i; }
  else { for (int i = 0; i < 7; ++i) if (i == 0 || (p.mask & (1u << i))) p.k[p.n++] = i; }
  for (int i = p.n - 1; i > p.npos; --i) { int r = p.npos + int(rnd(s, 10 + i) % unsigned(i - p.npos + 1)); int t = p.k[i]; p.k[i] = p.k[r]; p.k[r] = t; }
  return p; }
template<int J> struct Entry { static constexpr Perm p = make(ST_SEED, J); typedef Choice<p.sig, p.mask> C;
  template<int I> using at = typename std::conditional<(I < p.npos), typename Kw<C, p.k[I]>::plain, typename Kw<C, p.k[I]>::type>::type;
  template<size_t... I> static s2::signal_type<at<I>...> mk(std::index_sequence<I...>);
  typedef decltype(mk(std::make_index_sequence<p.n>())) ST; };

struct Res { bool type_ok; string what; std::function<Outcome(const Lines&, const Perm&)> behave; };
template<class S, class C, int SIG> struct Drive;
template<class F, class X> static void none() {}
static std::vector<int>* g_order;
struct Slot0 { int id; void operator()() const { g_order->push_back(id); } int operator()(int x) const { g_order->push_back(id); return x + id; } void operator()(int& x, const string& s) const { g_order->push_back(id); x += id + int(s.size()); } bool operator==(const Slot0& o) const { return id == o.id; } };
struct XSlot0 { int id; template<class... A> auto operator()(const s2::connection& c, A&&... a) const -> decltype(Slot0()(std::forward<A>(a)...)) { if (!c.connected()) g_order->push_back(-1); return Slot0{ id }(std::forward<A>(a)...); } };
template<class S> static void invoke(S& s, std::vector<int>& res, std::integral_constant<int, 0>) { put(res, s, [&] { return s(); }); }
template<class R> static void out(std::vector<int>& r, const boost::optional<R>& v) { r.push_back(v ? int(*v) : -5); }
static void out(std::vector<int>& r, int v) { r.push_back(v); }
template<class S, class F> typename std::enable_if<std::is_void<typename S::result_type>::value>::type put(std::vector<int>& r, S&, F f) { f(); r.push_back(-6); }
template<class S, class F> typename std::enable_if<!std::is_void<typename S::result_type>::value>::type put(std::vector<int>& r, S&, F f) { out(r, f()); }
template<class S> static void inv(S& s, std::vector<int>& r, void (*)()) { put(r, s, [&] { return s(); }); }
template<class S> static void inv(S& s, std::vector<int>& r, int (*)(int)) { put(r, s, [&] { return s(7); }); }
template<class S> static void inv(S& s, std::vector<int>& r, void (*)(int&, const string&)) { int x = 3; put(r, s, [&] { return s(x, string("ab")); }); r.push_back(x); }

template<class ST, class C, int SIG, unsigned MASK> static Outcome drive(const Lines& ls) {
  typedef typename ST::type S; typedef typename C::Sig Sig; Outcome o; string where = "type";
  auto fail = [&](const string& w) { o.ok = false; o.msg = w; return o; };
  std::unique_ptr<S> s(new S()); std::vector<int> order; g_order = &order; struct Cn { int grp; int seq; int id; bool x; }; std::vector<Cn> m; std::vector<s2::connection> cs; int n = 0, invs = 0; 
  g_cmp = g_fn = g_xfn = g_comb = 0; g_locks[0] = g_locks[1] = 0; bool grouped2 = false, anyx = false, any = false; uint64_t h = MASK * 31 + SIG;
  for (auto& l : ls) { if (l[0] == '!') continue; char nm[32]; int a[4] = { 0 }; if (sscanf(l.c_str(), "%31s %d %d %d", nm, a, a + 1, a + 2) < 1) continue; for (int& x : a) if (x < 0) x = 0; string op = nm; where = l; h = vc::mix(h, vc::hash_str(l));
    if (op == "conn") { int g = a[0] % 5; int id = 1 + a[1] % 9; bool x = a[2] % 3 == 0; s2::connection c; any = true;
      if (x) { typename S::extended_slot_type sl((XSlot0{ id })); c = s->connect_extended(typename C::group(g), sl); anyx = true; } else { typename S::slot_type sl((Slot0{ id })); c = s->connect(typename C::group(g), sl); }
      for (auto& y : m) if (y.grp != g) grouped2 = true; m.push_back(Cn{ g, n++, id, x }); cs.push_back(c); }
    else if (op == "dgrp") { int g = a[0] % 5; s->disconnect(typename C::group(g)); for (size_t i = m.size(); i-- > 0;) if (m[i].grp == g) { m.erase(m.begin() + i); cs.erase(cs.begin() + i); } }
    else if (op == "disc" && !m.empty()) { int i = a[0] % m.size(); cs[i].disconnect(); m.erase(m.begin() + i); cs.erase(cs.begin() + i); }
    else if (op == "call") { order.clear(); std::vector<int> got, want; inv(*s, got, static_cast<Sig*>(0)); ++invs; 
      std::vector<Cn> v = m; std::stable_sort(v.begin(), v.end(), [](const Cn& p, const Cn& q) { return (MASK & 8) ? p.grp > q.grp : p.grp < q.grp; }); std::vector<int> eo; for (auto& y : v) eo.push_back(y.id);
      if (order != eo) return fail("slots called in an order that does not follow the chosen group order at '" + l + "'");
      if (MASK & 2) want.push_back(v.size()); else if (SIG == 1) want.push_back(v.empty() ? -5 : 7 + v.back().id); else want.push_back(-6);
      if (SIG == 2) { int x = 3; for (auto& y : v) x += y.id + 2; want.push_back(x); }
      if (got != want) return fail("the result is not that of the chosen combiner at '" + l + "'"); }
    if (s->num_slots() != m.size()) return fail("num_slots() wrong at '" + l + "'");
  }
  if (any) { if (((MASK & 64) != 0) != (g_locks[0] != 0)) return fail("the signal does not use the chosen mutex"); if (invs && ((MASK & 2) != 0) != (g_comb != 0)) return fail("the signal does not use the chosen combiner"); if (grouped2 && ((MASK & 8) != 0) != (g_cmp != 0)) return fail("the signal does not use the chosen group comparison");
    if (m.size() && !anyx && ((MASK & 16) != 0) != (g_fn != 0)) return fail("the signal does not use the chosen slot function type"); if (anyx && ((MASK & 32) != 0) != (g_xfn != 0)) return fail("the signal does not use the chosen extended slot function type"); }
  o.hash = h; o.nontrivial = invs > 0 && n > 1; o.counters["invocations"] = invs; return o;
}
template<int J> static Outcome entry(const Lines& ls) {
  typedef Entry<J> E; typedef typename E::C C; typedef typename E::ST ST; typedef typename C::expected X; Outcome o; const char* bad = 0;
  if (!std::is_same<typename ST::type, X>::value) bad = "type is not the signal named positionally";
  if (!std::is_same<typename ST::signature_type, typename C::Sig>::value) bad = "signature_type"; if (!std::is_same<typename ST::combiner_type, typename C::comb>::value) bad = "combiner_type"; if (!std::is_same<typename ST::group_type, typename C::group>::value) bad = "group_type"; if (!std::is_same<typename ST::group_compare_type, typename C::cmp>::value) bad = "group_compare_type";
  if (!std::is_same<typename ST::slot_function_type, typename C::fn>::value) bad = "slot_function_type"; if (!std::is_same<typename ST::extended_slot_function_type, typename C::xfn>::value) bad = "extended_slot_function_type"; if (!std::is_same<typename ST::mutex_type, typename C::mtx>::value) bad = "mutex_type";
  if (!std::is_same<typename ST::type::combiner_type, typename C::comb>::value || !std::is_same<typename ST::type::group_type, typename C::group>::value || !std::is_same<typename ST::type::group_compare_type, typename C::cmp>::value || !std::is_same<typename ST::type::slot_function_type, typename C::fn>::value || !std::is_same<typename ST::type::extended_slot_function_type, typename C::xfn>::value || !std::is_same<typename ST::type::signature_type, typename C::Sig>::value) bad = "the signal's own typedefs";
  string d = "signal_type<"; for (int i = 0; i < E::p.n; ++i) { static const char* nm[] = { "signature", "combiner", "group", "group_compare", "slot_function", "extended_slot_function", "mutex" }; d += string(i ? ", " : "") + nm[E::p.k[i]] + (i < E::p.npos ? " (positional)" : ""); } d += ">";
  if (bad) { o.ok = false; o.msg = d + ": " + bad + " is wrong"; return o; }
  o = drive<ST, C, E::p.sig, E::p.mask>(ls); if (!o.ok) o.msg = d + ": " + o.msg; o.hash = vc::mix(o.hash, J + 100 * ST_SEED); return o; }
template<size_t... J> static Outcome dispatch(int j, const Lines& l, std::index_sequence<J...>) { static Outcome (*const f[])(const Lines&) = { &entry<J>... }; return f[j % sizeof...(J)](l); }
static Outcome run(const Lines& ls) { int j = 0; for (auto& l : ls) if (l[0] == '!') sscanf(l.c_str(), "!entry %d", &j); if (j < 0) j = 0; return dispatch(j, ls, std::make_index_sequence<ST_N>()); }
static Lines gen(uint64_t seed, const string&) { Rng r(seed); Lines l; l.push_back("!entry " + std::to_string(r.below(ST_N))); int n = r.range(4, 24); for (int i = 0; i < n; ++i) { int w = r.below(100); std::ostringstream s; if (w < 55) s << "conn " << r.below(5) << ' ' << r.below(9) << ' ' << r.below(6); else if (w < 62) s << "dgrp " << r.below(5); else if (w < 70) s << "disc " << r.below(9); else s << "call"; l.push_back(s.str()); } l.push_back("call"); return l; }
int main(int argc, char** argv) { vc::Harness h; h.gen = gen; h.run = run; return vc::main_loop(argc, argv, h); }
