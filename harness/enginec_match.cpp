// C03: disconnecting by slot function (every kind of function object with a meaning of equality) and by group (every type convertible to the group type), also from running slots.
#include "core.hpp"
#include <boost/signals2.hpp>
#include <boost/bind/bind.hpp>
#include <boost/make_shared.hpp>
#include <memory>
#include <list>
#include <functional>
#include <cctype>
#ifndef MT_SEL
#define MT_SEL 1
#endif
vc::Progress* vc::g_progress;
using vc::Rng; using vc::Lines; using vc::Outcome; using std::string; using std::vector; using boost::placeholders::_1; using boost::placeholders::_2;
namespace bs = boost::signals2;
static string g_err; static void err(const string& m) { if (g_err.empty()) g_err = m; }
enum { FN, FO, MO, BI, MP, MR, BF, BN, RL, XFN, XFO, XB, XRL, BR, MV, SF, B2, TF, NT };
static const char* TN[] = { "function pointer", "functor", "functor equal modulo 3", "bind", "member function of object pointer", "member function of object reference", "bind of a functor", "nested bind", "signal",
  "extended function pointer", "extended functor", "extended bind", "extended signal", "bind of a reference", "member function of object value", "functor with string", "bind of two values", "trackable functor by reference" };
struct WorldB { virtual int hit(int t, int k, int a, int x, const bs::connection* c) = 0; virtual ~WorldB() {} }; static WorldB* W;
struct CmpThrow {}; static int g_throw = -1; static void cmp_event() { if (g_throw >= 0 && g_throw-- == 0) throw CmpThrow(); }
template<int K> int fn(int x) { return W->hit(FN, K, 0, x, 0); } typedef int (*FnP)(int); static const FnP FNS[] = { &fn<0>, &fn<1>, &fn<2>, &fn<3>, &fn<4> };
template<int K> int xfn(const bs::connection& c, int x) { return W->hit(XFN, K, 0, x, &c); } typedef int (*XFnP)(const bs::connection&, int); static const XFnP XFNS[] = { &xfn<0>, &xfn<1>, &xfn<2> };
struct F { int k; typedef int result_type; explicit F(int k) : k(k) {} int operator()(int x) const { return W->hit(FO, k, 0, x, 0); } bool operator==(const F& o) const { return k == o.k; } };
struct M { int k; typedef int result_type; explicit M(int k) : k(k) {} int operator()(int x) const { return W->hit(MO, k, 0, x, 0); } bool operator==(const M& o) const { cmp_event(); return k % 3 == o.k % 3; } };
struct S { int k; string s; typedef int result_type; explicit S(int k) : k(k), s("a string long enough to be on the heap " + std::to_string(k)) {} int operator()(int x) const { return W->hit(SF, k, 0, x, 0); } bool operator==(const S& o) const { return s == o.s; } };
struct T : bs::trackable { int k; typedef int result_type; explicit T(int k) : k(k) {} int operator()(int x) const { return W->hit(TF, k, 0, x, 0); } bool operator==(const T& o) const { return k == o.k; } };
struct XF { int k; typedef int result_type; explicit XF(int k) : k(k) {} int operator()(const bs::connection& c, int x) const { return W->hit(XFO, k, 0, x, &c); } bool operator==(const XF& o) const { return k == o.k; } };
struct F2 { int k; typedef int result_type; explicit F2(int k) : k(k) {} int operator()(int a, int x) const { return W->hit(BF, k, a, x, 0); } bool operator==(const F2& o) const { return k == o.k; } };
template<int K> int g2(int a, int x) { return W->hit(BI, K, a, x, 0); } typedef int (*G2)(int, int); static const G2 G2S[] = { &g2<0>, &g2<1> };
static int hh(int a) { return a; } static int gn(int a, int x) { return W->hit(BN, 0, a, x, 0); } static int gr(const int& a, int x) { return W->hit(BR, 0, a, x, 0); } static int gb(int a, int b, int x) { return W->hit(B2, a, b, x, 0); } static int xg(int a, const bs::connection& c, int x) { return W->hit(XB, 0, a, x, &c); }
struct Obj { int k; int mode; int m0(int x) { return W->hit(mode, k, 0, x, 0); } int m1(int x) { return W->hit(mode, k, 1, x, 0); } int m2(int x) const { return W->hit(mode, k, 2, x, 0); } bool operator==(const Obj& o) const { return k == o.k && mode == o.mode; } };
static Obj g_op[3] = { { 0, MP }, { 1, MP }, { 2, MP } }, g_or[3] = { { 0, MR }, { 1, MR }, { 2, MR } }, g_ov[3] = { { 0, MV }, { 1, MV }, { 2, MV } }; static int g_ints[3] = { 0, 1, 2 };
static F g_f[5] = { F(0), F(1), F(2), F(3), F(4) }; static M g_m[6] = { M(0), M(1), M(2), M(3), M(4), M(5) }; static XF g_x[3] = { XF(0), XF(1), XF(2) };
typedef int (Obj::*ObM)(int); static const ObM OBM[] = { &Obj::m0, &Obj::m1 };
struct Sum { typedef int result_type; template<class It> int operator()(It f, It l) const { unsigned s = 0; for (; f != l; ++f) s = s * 3 + *f; return int(s & 0xffffff); } };
struct Sum2 { typedef int result_type; template<class It> int operator()(It f, It l) const { unsigned s = 0; for (; f != l; ++f) s = s * 5 + *f; return int(s & 0xffffff); } };
// groups: mk makes the group value number g (0..7), key its place in the order; disc disconnects by a value of some type convertible to the group type
enum En { E0 }; struct ToInt { int v; operator int() const { return v; } }; struct ToStr { string s; operator string() const { return s; } };
struct G0 { typedef int G; typedef std::less<int> C; static G mk(int g) { return g - 3; } static int key(int g) { return g; }
  template<class Sg> static void disc(Sg& s, int g, int form) { int v = g - 3; switch (form % 10) { case 0: s.disconnect(v); break; case 1: s.disconnect(short(v)); break; case 2: s.disconnect((long long)v); break; case 3: s.disconnect((signed char)v); break; case 4: s.disconnect(double(v)); break; case 5: s.disconnect(ToInt{ v }); break; case 6: s.disconnect(boost::ref(v)); break; case 7: s.disconnect(std::ref(v)); break; case 8: { const int w = v; s.disconnect(boost::cref(w)); break; } default: if (v == 0) s.disconnect(E0); else if (v == 1) s.disconnect(true); else s.disconnect(v); } } };
struct G1 { typedef long G; typedef std::greater<long> C; static G mk(int g) { return g * 1000000007L; } static int key(int g) { return -g; }
  template<class Sg> static void disc(Sg& s, int g, int form) { long v = mk(g); if (form % 3 == 0) s.disconnect(v); else if (form % 3 == 1) s.disconnect((unsigned long)v); else s.disconnect(boost::ref(v)); } };
struct CI { bool operator()(const string& a, const string& b) const { return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end(), [](char x, char y) { return tolower(x) < tolower(y); }); } };
struct G2g { typedef string G; typedef CI C; static G mk(int g) { string s = g < 4 ? "a group" : "the group with a long name that needs the heap"; s += char('a' + g / 2); if (g % 2) for (char& c : s) c = char(toupper(c)); return s; } static int key(int g) { return g / 2; }
  template<class Sg> static void disc(Sg& s, int g, int form) { string v = mk(g); switch (form % 5) { case 0: s.disconnect(v); break; case 1: s.disconnect(v.c_str()); break; case 2: s.disconnect(boost::ref(v)); break; case 3: s.disconnect(ToStr{ v }); break; default: { char b[80]; snprintf(b, sizeof b, "%s", v.c_str()); s.disconnect(b); } } } };
struct Key { int hi, lo; Key(int v) : hi(v), lo(-1) {} Key(int h, int l) : hi(h), lo(l) {} bool operator<(const Key& o) const { return hi < o.hi; } };
struct G3 { typedef Key G; typedef std::less<Key> C; static G mk(int g) { return Key(g / 2, g % 2); } static int key(int g) { return g / 2; }
  template<class Sg> static void disc(Sg& s, int g, int form) { if (form % 3 == 0) s.disconnect(mk(g)); else if (form % 3 == 1) s.disconnect(g / 2); else { Key k(g / 2, 7); s.disconnect(boost::cref(k)); } } };
enum { NS = 2, NF = 12, NG = 8 };
struct Op { int op; int a[7]; };
struct MC { int t, k, a, gen; bool on; int blocks; int part, key; bs::connection h; }; typedef std::shared_ptr<MC> CP;
static bool same(const MC& c, int t, int k, int a, int gen) { if (c.t != t || c.a != a || c.gen != gen) return false; return t == MO ? c.k % 3 == k % 3 : c.k == k; }
template<class GC> struct World : WorldB {
  typedef bs::signal<int(int), Sum, typename GC::G, typename GC::C> Sig; typedef bs::signal<int(int), Sum2> Sig2; typedef bs::signal<int(const bs::connection&, int), Sum> SigX; struct SigD : Sig {}; struct SigXD : SigX { };
  typedef typename Sig::slot_type Slot; typedef typename Sig::extended_slot_type XSlot;
  std::unique_ptr<Sig> sg[NS]; vector<CP> l[NS];
  std::unique_ptr<Sig> r0[2]; std::unique_ptr<Sig2> r1[2]; std::unique_ptr<SigD> r2[2]; std::unique_ptr<SigX> x0[2]; std::unique_ptr<SigXD> x1[2]; std::unique_ptr<T> tr[3]; int rg[6], xg_[4], tg[3]; int gens;
  struct Fr { int s; vector<CP> v; size_t pos; int x; unsigned sum; }; vector<Fr> fr; vector<Op> script[NF]; int budget = 240, calls = 0; std::map<string, long> cnt; uint64_t h = 7; std::list<bs::shared_connection_block> blocks; vector<std::pair<CP, bs::shared_connection_block> > bl;
  void mixh(uint64_t x) { h = (h ^ x) * 1099511628211ull; }
  struct Rh { World* w; int t, k, gen; int operator()(int x) const { return w->hit2(t, k, 0, gen, x, 0); } int operator()(const bs::connection& c, int x) const { return w->hit2(t, k, 0, gen, x, &c); } };
  World() { gens = 0; for (auto& s : sg) s.reset(new Sig()); for (int i = 0; i < 6; ++i) mkr(i); for (int i = 0; i < 4; ++i) mkx(i); for (int i = 0; i < 3; ++i) mkt(i); }
  void kill(int t, int k, int gen) { for (auto& v : l) for (auto& c : v) if (c->t == t && c->k == k && c->gen == gen) c->on = false; }
  // drop and renew a relay signal or a tracked functor (not while it is in use)
  void mkr(int i) { rg[i] = ++gens; Rh r = { this, RL, i, gens }; if (i < 2) { r0[i].reset(); r0[i].reset(new Sig()); r0[i]->connect(r); } else if (i < 4) { r1[i - 2].reset(); r1[i - 2].reset(new Sig2()); r1[i - 2]->connect(r); } else { r2[i - 4].reset(); r2[i - 4].reset(new SigD()); r2[i - 4]->connect(r); } }
  void mkx(int i) { xg_[i] = ++gens; Rh r = { this, XRL, i, gens }; if (i < 2) { x0[i].reset(); x0[i].reset(new SigX()); x0[i]->connect(r); } else { x1[i - 2].reset(); x1[i - 2].reset(new SigXD()); x1[i - 2]->connect(r); } }
  void mkt(int i) { tg[i] = ++gens; tr[i].reset(); tr[i].reset(new T(i)); }
  static void norm(int t, int& k, int& a) { switch (t) { case FN: k %= 5; a = 0; break; case FO: k %= 5; a = 0; break; case MO: k %= 6; a = 0; break; case BI: k %= 2; a %= 3; break; case MP: case MR: case MV: k %= 3; a %= 3; break; case BF: k %= 2; a %= 2; break; case BN: case BR: case XB: k = 0; a %= 3; break; case RL: k %= 6; a = 0; break; case XFN: case XFO: k %= 3; a = 0; break; case XRL: k %= 4; a = 0; break; case SF: k %= 3; a = 0; break; case B2: k %= 2; a %= 2; break; case TF: k %= 3; a = 0; break; } }
  int gen(int t, int k) { return t == RL ? rg[k] : t == XRL ? xg_[k] : t == TF ? tg[k] : 0; }
  // apply u to the function object of kind t with parameters k, a in form v
  template<class U> void with(int t, int k, int a, int v, U& u) {
    switch (t) {
    case FN: u(FNS[k]); break; case FO: if (v % 3 == 0) u(F(k)); else if (v % 3 == 1) u(boost::ref(g_f[k])); else u(boost::cref(g_f[k])); break; case MO: if (v % 3 == 0) u(M(k)); else if (v % 3 == 1) u(boost::ref(g_m[k])); else u(boost::cref(g_m[k])); break;
    case BI: u(boost::bind(G2S[k], a, _1)); break; case MP: if (a < 2) u(boost::bind(OBM[a], &g_op[k], _1)); else u(boost::bind(&Obj::m2, (const Obj*)&g_op[k], _1)); break; case MR: if (a < 2) u(boost::bind(OBM[a], boost::ref(g_or[k]), _1)); else u(boost::bind(&Obj::m2, boost::cref(g_or[k]), _1)); break;
    case MV: if (a < 2) u(boost::bind(OBM[a], g_ov[k], _1)); else u(boost::bind(&Obj::m2, g_ov[k], _1)); break; case BF: u(boost::bind(F2(k), a, _1)); break; case BN: u(boost::bind(&gn, boost::bind(&hh, a), _1)); break; case BR: u(boost::bind(&gr, boost::ref(g_ints[a]), _1)); break; case B2: u(boost::bind(&gb, k, a, _1)); break;
    case SF: u(S(k)); break; case TF: u(boost::ref(*tr[k])); break;
    case RL: if (k < 2) { if (v % 2) u(boost::ref(*r0[k])); else u(*r0[k]); } else if (k < 4) { if (v % 2) u(boost::ref(*r1[k - 2])); else u(*r1[k - 2]); } else { if (v % 2) u(boost::ref(*r2[k - 4])); else u(*r2[k - 4]); } break;
    case XFN: u(XFNS[k]); break; case XFO: if (v % 3 == 0) u(XF(k)); else if (v % 3 == 1) u(boost::ref(g_x[k])); else u(boost::cref(g_x[k])); break; case XB: u(boost::bind(&xg, a, _1, _2)); break;
    case XRL: if (k < 2) { if (v % 2) u(boost::ref(*x0[k])); else u(*x0[k]); } else { if (v % 2) u(boost::ref(*x1[k - 2])); else u(*x1[k - 2]); } break; } }
  struct Con { Sig& s; int part, g, pos, via; bs::connection c;
    template<class SL> void put(const SL& sl, std::true_type) { bs::connect_position p = pos ? bs::at_front : bs::at_back; c = part == 1 ? s.connect_extended(GC::mk(g), sl, p) : s.connect_extended(sl, p); } template<class SL> void put(const SL& sl, std::false_type) { bs::connect_position p = pos ? bs::at_front : bs::at_back; c = part == 1 ? s.connect(GC::mk(g), sl, p) : s.connect(sl, p); }
    template<class Fn> void go(const Fn& f, std::true_type) { XSlot a(f); if (via % 3 == 0) put(a, std::true_type()); else if (via % 3 == 1) { XSlot b(a); put(b, std::true_type()); } else { XSlot b(&xfn<0>); b = a; put(b, std::true_type()); } } template<class Fn> void go(const Fn& f, std::false_type) { if (via % 4 == 0) { put(f, std::false_type()); return; } Slot a(f); if (via % 4 == 1) put(a, std::false_type()); else if (via % 4 == 2) { Slot b(a); put(b, std::false_type()); } else { Slot b(&fn<0>); b = a; put(b, std::false_type()); } } };
  struct ConN : Con { ConN(const Con& c) : Con(c) {} template<class Fn> typename std::enable_if<std::is_convertible<Fn, Fn>::value>::type operator()(const Fn& f) { this->go(f, std::false_type()); } void operator()(const Sig& f) { this->go(f, std::false_type()); } void operator()(const Sig2& f) { this->go(f, std::false_type()); } void operator()(const SigD& f) { this->go(f, std::false_type()); } };
  struct ConX : Con { ConX(const Con& c) : Con(c) {} template<class Fn> typename std::enable_if<std::is_convertible<Fn, Fn>::value>::type operator()(const Fn& f) { this->go(f, std::true_type()); } void operator()(const SigX& f) { this->go(f, std::true_type()); } void operator()(const SigXD& f) { this->go(f, std::true_type()); } };
  struct Dis { Sig& s; int v; template<class Fn> void operator()(const Fn& f) { s.disconnect(f); } };
  // dispatch without instantiating normal kinds for extended slots and vice versa
  template<class U> void withN(int t, int k, int a, int v, U& u) { NoX<U> n = { u }; with(t, k, a, v, n); } template<class U> void withX(int t, int k, int a, int v, U& u) { OnlyX<U> n = { u }; with(t, k, a, v, n); }
  template<class U> struct NoX { U& u; template<class Fn> void operator()(const Fn& f) { u(f); } void operator()(const XFnP&) {} void operator()(const XF&) {} void operator()(const boost::reference_wrapper<XF>&) {} void operator()(const boost::reference_wrapper<const XF>&) {} void operator()(const SigX&) {} void operator()(const SigXD&) {} void operator()(const boost::reference_wrapper<SigX>&) {} void operator()(const boost::reference_wrapper<SigXD>&) {} typedef decltype(boost::bind(&xg, 0, _1, _2)) XBt; void operator()(const XBt&) {} };
  template<class U> struct OnlyX { U& u; template<class Fn> void operator()(const Fn&) {} void operator()(const XFnP& f) { u(f); } void operator()(const XF& f) { u(f); } void operator()(const boost::reference_wrapper<XF>& f) { u(f); } void operator()(const boost::reference_wrapper<const XF>& f) { u(f); } void operator()(const SigX& f) { u(f); } void operator()(const SigXD& f) { u(f); } void operator()(const boost::reference_wrapper<SigX>& f) { u(f); } void operator()(const boost::reference_wrapper<SigXD>& f) { u(f); } typedef decltype(boost::bind(&xg, 0, _1, _2)) XBt; void operator()(const XBt& f) { u(f); } };
  static bool ext(int t) { return t == XFN || t == XFO || t == XB || t == XRL; }
  void connect(int s, int t, int k, int a, int v, int part, int g, int pos) {
    norm(t, k, a); if (l[s].size() > 40) return; Con c = { *sg[s], part, g, pos, v / 3, bs::connection() };
    if (!ext(t)) { if (t == BI && v % 2) { Slot sl(G2S[k], a, _1); c.put(sl, std::false_type()); } else if (t == MP && v % 2 && a < 2) { Slot sl(OBM[a], &g_op[k], _1); c.put(sl, std::false_type()); } else { ConN n(c); withN(t, k, a, v, n); c.c = n.c; } } else { ConX n(c); withX(t, k, a, v, n); c.c = n.c; }
    CP m(new MC()); m->t = t; m->k = k; m->a = a; m->gen = gen(t, k); m->on = true; m->part = part; m->key = part == 1 ? GC::key(g) : 0; m->h = c.c; auto lt = [](const CP& x, const CP& y) { return x->part != y->part ? x->part < y->part : x->key < y->key; };
    l[s].insert(pos ? std::lower_bound(l[s].begin(), l[s].end(), m, lt) : std::upper_bound(l[s].begin(), l[s].end(), m, lt), m); ++cnt["connects"]; if (!m->h.connected()) err(string("a new connection is not connected: ") + TN[t]); }
  void disc_fn(int s, int t, int k, int a, int v, int thr) {
    norm(t, k, a); int gn = gen(t, k); long n = 0; for (auto& c : l[s]) n += c->on && same(*c, t, k, a, gn); cnt["matched"] += n; ++cnt["disconnect_by_function"]; if (n > 1) ++cnt["several_matched"]; mixh(n * 64 + t); Dis d = { *sg[s], v };
    bool thrown = false; if (t == MO && thr > 0) g_throw = thr - 1; try { if (t == FN && v % 7 == 6) withN(t, k, a, v, d); else if (t == TF && v % 2) { T x(k); d(x); } else with(t, k, a, v, d); } catch (CmpThrow&) { thrown = true; } bool reached = t == MO && thr > 0 && g_throw < 0; g_throw = -1;
    if (thrown != reached) err("an exception of a comparison did not reach the caller of disconnect"); if (thrown) ++cnt["comparison_threw"];
    // TF by value compares equal to functors of every generation, but the others are gone anyway
    for (auto& c : l[s]) if (c->on && same(*c, t, k, a, gn)) { if (thrown) { c->on = c->h.connected(); } else c->on = false; } check(s); }
  void disc_group(int s, int g, int form) { int key = GC::key(g); long n = 0; for (auto& c : l[s]) if (c->on && c->part == 1 && c->key == key) { ++n; c->on = false; } ++cnt["disconnect_by_group"]; cnt["matched"] += n; mixh(n * 64 + 61); GC::disc(*sg[s], g, form); check(s); }
  void check(int s) { size_t n = 0; for (auto& c : l[s]) { n += c->on; if (c->h.connected() != c->on) err(string(c->on ? "a slot that does not match was disconnected: " : "a slot that should be disconnected is connected: ") + TN[c->t] + " " + std::to_string(c->k) + " " + std::to_string(c->a) + (c->part == 1 ? " in a group" : "")); } if (sg[s]->num_slots() != n || sg[s]->empty() != (n == 0)) err("num_slots() or empty() is wrong"); }
  int hit(int t, int k, int a, int x, const bs::connection* c) { return hit2(t, k, a, gen(t, k), x, c); }
  int hit2(int t, int k, int a, int gn, int x, const bs::connection* c) {
    if (fr.empty()) { err("a slot ran outside an invocation"); return 0; } Fr& f = fr.back(); while (f.pos < f.v.size() && !(f.v[f.pos]->on && !f.v[f.pos]->blocks)) ++f.pos;
    if (f.pos == f.v.size() || f.v[f.pos]->t != t || f.v[f.pos]->k != k || f.v[f.pos]->a != a || f.v[f.pos]->gen != gn) { err(string("the wrong slot was called: ") + TN[t] + " " + std::to_string(k) + " " + std::to_string(a)); return 0; }
    CP m = f.v[f.pos++]; if (x != f.x) err("wrong argument"); if (c && t != XRL && (*c != m->h || !c->connected())) err("an extended slot did not get its own connection"); mixh(t * 31 + k * 7 + a); ++cnt["calls"]; ++calls;
    if (g_err.empty() && fr.size() < 4) { vector<Op>& sc = script[(t * 5 + k * 3 + a) % NF]; for (Op o : sc) { if (!g_err.empty()) break; if (--budget <= 0) break; ++cnt["ops_in_slots"]; step(o, true); } }
    int res = (t * 7 + k * 3 + a) % 13; fr.back().sum = fr.back().sum * 3 + res; return res; }
  void emit(int s, int x) { Fr f = { s, l[s], 0, x, 0 }; fr.push_back(f); int res = (*sg[s])(x); Fr& e = fr.back(); while (e.pos < e.v.size() && !(e.v[e.pos]->on && !e.v[e.pos]->blocks)) ++e.pos; if (e.pos < e.v.size()) err(string("a connected slot was not called: ") + TN[e.v[e.pos]->t] + " " + std::to_string(e.v[e.pos]->k)); if (res != int(e.sum & 0xffffff)) err("the invocation returned something else than its combiner"); fr.pop_back(); ++cnt["emits"]; }
  void step(Op o, bool in) { int* a = o.a; int s = a[0] % NS;
    switch (o.op) {
    case 0: connect(s, a[1] % NT, a[2], a[3], a[4], a[5] % 4 == 0 ? 0 : a[5] % 4 == 1 ? 2 : 1, a[6] % NG, a[5] % 4 == 0 || (a[5] % 4 == 3)); break;
    case 1: disc_fn(s, a[1] % NT, a[2], a[3], a[4], a[5] % 8); break; case 2: disc_group(s, a[1] % NG, a[2]); break;
    case 3: for (auto& c : l[s]) c->on = false; sg[s]->disconnect_all_slots(); check(s); ++cnt["disconnect_all"]; break;
    case 4: if (fr.size() < 3 && calls < 400) emit(s, a[1] % 50); break;
    case 5: if (!l[s].empty()) { CP c = l[s][a[1] % l[s].size()]; c->h.disconnect(); c->on = false; check(s); } break;
    case 6: if (!l[s].empty()) { CP c = l[s][a[1] % l[s].size()]; if (!c->on) break; bl.push_back(std::make_pair(c, bs::shared_connection_block(c->h))); ++c->blocks; ++cnt["blocks"]; } break;
    case 7: if (!bl.empty()) { int i = a[1] % bl.size(); --bl[i].first->blocks; bl.erase(bl.begin() + i); } break;
    case 8: if (!in) { int i = a[1]; if (a[2] % 3 == 0) { i %= 6; kill(RL, i, rg[i]); mkr(i); } else if (a[2] % 3 == 1) { i %= 4; kill(XRL, i, xg_[i]); mkx(i); } else { i %= 3; kill(TF, i, tg[i]); mkt(i); } check(s); ++cnt["signals_renewed"]; } break;
    case 9: if (!in) { using std::swap; if (a[1] % 2) swap(*sg[0], *sg[1]); else { Sig t(std::move(*sg[0])); *sg[0] = std::move(*sg[1]); *sg[1] = std::move(t); } swap(l[0], l[1]); } break;
    case 10: check(s); break; } }
  void run(const vector<Op>& p) { W = this; for (auto& o : p) if (o.op == 11) { Op q = { o.a[1] % 8, { o.a[2], o.a[3], o.a[4], o.a[5], o.a[6], o.a[6] / 3, o.a[5] / 2 } }; static const int M8[] = { 0, 1, 1, 2, 5, 6, 3, 4 }; q.op = M8[q.op]; if (q.op == 3 && o.a[3] % 3) q.op = 1; script[o.a[0] % NF].push_back(q); }
    for (auto& o : p) { if (o.op == 11) continue; if (!g_err.empty()) break; calls = 0; step(o, false); } for (int s = 0; s < NS && g_err.empty(); ++s) { calls = 0; budget = 0; check(s); emit(s, 3); } bl.clear(); }
  ~World() { W = 0; }
};
static const char* NAMES[] = { "con", "dis", "disg", "disall", "em", "disc", "blk", "unblk", "renew", "swap", "q", "scr" }; enum { NOPS = 12 };
static Lines generate(uint64_t seed, const string&) {
  Rng r(seed); Lines out; out.push_back("!cfg " + std::to_string(r.below(4))); static const int WT[] = { 40, 26, 10, 1, 12, 4, 4, 3, 4, 2, 3, 0 }; int wt[NOPS], tot = 0; int kinds = r.range(1, 5), kk[5]; for (int i = 0; i < kinds; ++i) kk[i] = r.below(NT); bool few = r.chance(75); int ng = r.range(1, NG);
  for (int i = 0; i < NOPS; ++i) { wt[i] = WT[i]; if (i > 1 && i != 4 && r.chance(12)) wt[i] = 0; if (r.chance(8)) wt[i] *= 4; tot += wt[i]; }
  auto put = [&](int op, int a, int b, int c, int d, int e, int f, int g) { char t[100]; snprintf(t, sizeof t, "%s %d %d %d %d %d %d %d", NAMES[op], a, b, c, d, e, f, g); out.push_back(t); }; auto kind = [&]() { return few && !r.chance(8) ? kk[r.below(kinds)] : r.below(NT); };
  int km = r.chance(50) ? 3 : 30; int ns = r.chance(60) ? r.range(1, 8) : 0; for (int i = 0; i < ns; ++i) put(11, r.below(NF), r.below(8), r.below(10) < 8 ? 0 : 1, kind(), r.below(km), r.below(6), r.below(12));
  int n = r.range(8, 60); for (int q = 0; q < n; ++q) { int x = r.below(tot), op = 0; for (; op < NOPS - 1; ++op) { if (x < wt[op]) break; x -= wt[op]; } int s = r.below(10) < 8 ? 0 : 1; if (q < 6) op = 0;
    if (op == 2) put(op, s, r.below(ng), r.below(30), 0, 0, 0, 0); else put(op, s, op <= 1 ? kind() : r.below(60), r.below(km), r.below(6), r.below(24), op == 1 ? (r.chance(15) ? r.below(8) : 0) : r.below(4), r.below(ng)); }
  return out;
}
template<class GC> static void run_cfg(const vector<Op>& p, Outcome& o) { World<GC> w; w.run(p); o.counters = w.cnt; o.hash = w.h; }
static Outcome run_case(const Lines& l) {
  static std::map<string, int> names; if (names.empty()) for (int i = 0; i < NOPS; ++i) names[NAMES[i]] = i; Outcome o; g_err.clear(); g_throw = -1; int cfg = 0; vector<Op> p;
  for (auto& t : l) { char nm[16]; if (t.compare(0, 5, "!cfg ") == 0) { cfg = atoi(t.c_str() + 5); continue; } Op q = { 0, { 0, 0, 0, 0, 0, 0, 0 } }; if (sscanf(t.c_str(), "%15s %d %d %d %d %d %d %d", nm, q.a, q.a + 1, q.a + 2, q.a + 3, q.a + 4, q.a + 5, q.a + 6) < 1 || !names.count(nm)) continue; q.op = names[nm]; for (int& x : q.a) if (x < 0) x = 0; p.push_back(q); }
#if MT_SEL & 1 // which group types this build has
  if (cfg & 1) run_cfg<G0>(p, o); else run_cfg<G2g>(p, o);
#else
  if (cfg & 1) run_cfg<G3>(p, o); else run_cfg<G1>(p, o);
#endif
  o.ok = g_err.empty(); o.msg = g_err; o.nontrivial = o.counters["connects"] > 2 && o.counters["matched"] > 0; return o;
}
int main(int argc, char** argv) { vc::Harness h; h.gen = generate; h.run = run_case; return vc::main_loop(argc, argv, h); }
