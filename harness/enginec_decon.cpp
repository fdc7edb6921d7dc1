// C17: deconstruct / deconstruct_ptr: generated sequences of creations (type, arity, argument categories, hooks, injected faults) and owner operations;
// the log of constructions, hooks and destructions must equal the model's.
#include "core.hpp"
#include <new>
#include <boost/signals2/deconstruct.hpp>
#include <boost/signals2/deconstruct_ptr.hpp>
#include <boost/enable_shared_from_this.hpp>
#include <boost/weak_ptr.hpp>
#include <utility>
vc::Progress* vc::g_progress;
using vc::Rng; using vc::Lines; using vc::Outcome; using std::string;
namespace s2 = boost::signals2;
#ifdef BOOST_NO_CXX11_VARIADIC_TEMPLATES
enum { VARIADIC = 0 };
#else
enum { VARIADIC = 1 };
#endif

// ---- allocation faults and accounting (only while armed)
static bool g_count; static long g_blocks; static int g_failin = -1; static bool g_failed;
static std::map<void*, int>* g_mem; static bool g_inmem;
static void* mem_new(size_t n, size_t al) {
  if (g_count && !g_inmem && g_failin >= 0 && g_failin-- == 0) { g_failed = true; throw std::bad_alloc(); }
  void* p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
  if (g_count && !g_inmem) { g_inmem = true; (*g_mem)[p] = 1; g_inmem = false; ++g_blocks; }
  return p;
}
static void mem_del(void* p) { if (!p) return; if (g_mem && !g_inmem) { g_inmem = true; if (g_mem->erase(p)) --g_blocks; g_inmem = false; } free(p); }
void* operator new(size_t n) { return mem_new(n, 0); }
void* operator new[](size_t n) { return mem_new(n, 0); }
void* operator new(size_t n, std::align_val_t a) { return mem_new(n, size_t(a)); }
void operator delete(void* p) noexcept { mem_del(p); }
void operator delete[](void* p) noexcept { mem_del(p); }
void operator delete(void* p, size_t) noexcept { mem_del(p); }
void operator delete[](void* p, size_t) noexcept { mem_del(p); }
void operator delete(void* p, std::align_val_t) noexcept { mem_del(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { mem_del(p); }
struct Quiet { bool c; Quiet() : c(g_count) { g_count = false; } ~Quiet() { g_count = c; } };

// ---- event log
static std::vector<string>* g_log;
static void ev(const string& s) { Quiet q; g_log->push_back(s); }
static const char* g_err; static void err(const char* m) { if (!g_err) g_err = m; }
struct CtorBoom { int k; }; struct PostBoom { int k; };
static int g_next;        // id the next object gets
static int g_throw_ctor;  // 0 no, 1 first part, 2 second part, 3 body
static int g_post_throw, g_post_keep, g_post_self; // behaviour of the next postconstruct hook
static std::vector<boost::shared_ptr<const void> >* g_kept;
static long g_objs, g_parts;

struct Arg { int id; Arg* self; bool moved; explicit Arg(int i = 0) : id(i), self(this), moved(false) {} Arg(const Arg& o) : id(o.id), self(this), moved(false) { err("an argument was copied"); } Arg(Arg&& o) : id(o.id), self(this), moved(false) { err("an argument was moved"); } Arg& operator=(const Arg&) = delete; };
static Arg* g_args; // g_args[0..8] are the arguments of the running call
static char cat(Arg&) { return 'l'; } static char cat(const Arg&) { return 'c'; } static char cat(Arg&&) { return 'r'; }
static string show(const Arg& a, char c) { Quiet q; if (a.self != &a) return "bad"; return string(1, c) + std::to_string(a.id) + (&a >= g_args && &a < g_args + 9 ? "" : "!copy") + ","; }
template<class... A> string showall(A&&... a) { Quiet q; string r; int d[] = { 0, ((void)(r += show(a, cat(std::forward<A>(a)))), 0)... }; (void)d; return r; }

struct Part { int w; explicit Part(int w_) : w(w_) { if (g_throw_ctor == w) throw CtorBoom(); ++g_parts; } ~Part() { --g_parts; } Part(const Part&) = delete; };
template<size_t A> struct alignas(A) Raw { unsigned char c[A]; };
template<> struct Raw<1> { unsigned char c[1]; };
struct Core { // the part every object has
  int id; Core* me; Part p1; Raw<1> pad; Part p2; long magic; 
  template<class... A> explicit Core(int, A&&... a) : id(g_next), me(this), p1(1), p2(2), magic(0x5151515151) { ev("C" + std::to_string(id) + "(" + showall(std::forward<A>(a)...) + ")"); ++g_objs; }
  Core(const Core&) = delete;
  void gone() { ev("~" + std::to_string(id)); }
  ~Core() { if (me != this || magic != 0x5151515151) err("destroyed object is not a live object"); ev("~" + std::to_string(id)); magic = 0; --g_objs; }
  void body() { if (g_throw_ctor == 3) throw CtorBoom(); }
};
static void post_hook(const boost::shared_ptr<const void>& sp, const void* real, const void* ptr, Core& c, const string& args, bool have_self, const boost::shared_ptr<const void>& self) {
  Quiet q;
  if (c.me != &c || c.magic != 0x5151515151) err("postconstruct hook for an object that is not alive");
  if (real) { if (sp.get() != real) err("the shared_ptr given to the postconstruct hook does not point at the object"); if (sp.use_count() < 1) err("the shared_ptr given to the postconstruct hook owns nothing"); }
  (void)ptr;
  if (have_self) { if (!self) err("shared_from_this() gives nothing in the postconstruct hook"); else if (real && (self < sp || sp < self)) err("shared_from_this() belongs to another owner"); }
  ev("P" + std::to_string(c.id) + "(" + args + ")");
  if (g_post_keep && (sp || self)) g_kept->push_back(sp ? sp : self);
  if (g_post_throw) { q.~Quiet(); new (&q) Quiet(); throw PostBoom(); }
}
static void pre_hook(Core& c) { if (c.me != &c || c.magic != 0x5151515151) err("predestruct hook for an object that is not alive"); ev("D" + std::to_string(c.id)); }

// ---- the kinds of class
#define BODY(NAME) template<class... A> explicit NAME(A&&... a) : c(0, std::forward<A>(a)...) { c.body(); } NAME(const NAME&) = delete; 
#define POST(NAME) template<class T, class... A> friend void adl_postconstruct(const boost::shared_ptr<T>& sp, NAME* p, A&&... a) { Quiet q; post_hook(sp, p, p, p->c, showall(std::forward<A>(a)...), false, boost::shared_ptr<const void>()); }
#define PRE(NAME) friend void adl_predestruct(NAME* p) { pre_hook(p->c); }
namespace user {
struct K0 { Core c; BODY(K0) POST(K0) PRE(K0) };
template<size_t N> struct alignas(N) KA { Core c; BODY(KA) 
  template<class T, class... A> friend void adl_postconstruct(const boost::shared_ptr<T>& sp, KA* p, A&&... a) { Quiet q; post_hook(sp, p, p, p->c, showall(std::forward<A>(a)...), false, boost::shared_ptr<const void>()); }
  friend void adl_predestruct(KA* p) { pre_hook(p->c); } };
class K2 { friend class boost::signals2::deconstruct_access; Core c; BODY(K2) public: ~K2() {} POST(K2) PRE(K2) };
struct K3 : boost::enable_shared_from_this<K3> { Core c; BODY(K3) PRE(K3)
  template<class T, class... A> friend void adl_postconstruct(const boost::shared_ptr<T>& sp, K3* p, A&&... a) { Quiet q; boost::shared_ptr<const void> self; try { self = p->shared_from_this(); } catch (std::exception&) {} post_hook(sp, p, p, p->c, showall(std::forward<A>(a)...), true, self); } };
struct Left { virtual ~Left() {} int x[3]; }; struct VBase { virtual ~VBase() {} int y; };
struct HookBase { HookBase() : core(0) {} virtual ~HookBase() {} Core* core; 
  template<class T, class... A> friend void adl_postconstruct(const boost::shared_ptr<T>& sp, HookBase* p, A&&... a) { Quiet q; HookBase* b = const_cast<typename boost::remove_const<T>::type*>(sp.get()); if (b != p) err("hook argument and shared_ptr point to different objects"); post_hook(sp, sp.get(), p, *p->core, showall(std::forward<A>(a)...), false, boost::shared_ptr<const void>()); }
  friend void adl_predestruct(HookBase* p) { pre_hook(*p->core); } };
struct K5 : Left, HookBase, virtual VBase { Core c; template<class... A> explicit K5(A&&... a) : c(0, std::forward<A>(a)...) { core = &c; c.body(); } };
struct K6 { Core c; BODY(K6) POST(K6) }; // no predestruct hook
struct K7 : s2::postconstructible, s2::predestructible { Core c; BODY(K7) protected: void postconstruct() { post_hook(boost::shared_ptr<const void>(), 0, this, c, "", false, boost::shared_ptr<const void>()); } void predestruct() { pre_hook(c); } };
struct K8 : s2::predestructible { Core c; BODY(K8) void predestruct() { pre_hook(c); } };
struct K9 : Left, s2::postconstructible, boost::enable_shared_from_this<K9> { Core c; BODY(K9) void postconstruct() { boost::shared_ptr<const void> self; { Quiet q; try { self = shared_from_this(); } catch (std::exception&) {} } post_hook(boost::shared_ptr<const void>(), 0, this, c, "", true, self); } };
}
using namespace user;
struct Kind { const char* name; bool post_args, pre, post, keepable; };
enum { NK = 12 };
static const Kind KINDS[NK] = { {"plain", 1, 1, 1, 1}, {"align16", 1, 1, 1, 1}, {"align64", 1, 1, 1, 1}, {"private", 1, 1, 1, 1}, {"esft", 1, 1, 1, 1}, {"const", 1, 1, 1, 1}, {"bases", 1, 1, 1, 1}, {"nopre", 1, 0, 1, 1}, {"bothbases", 0, 1, 1, 0}, {"prebase", 0, 1, 0, 0}, {"postbase_esft", 0, 0, 1, 1}, {"constesft", 1, 1, 1, 1} };
template<int K> struct TypeOf; template<> struct TypeOf<0> { typedef K0 type; }; template<> struct TypeOf<1> { typedef KA<16> type; }; template<> struct TypeOf<2> { typedef KA<64> type; }; template<> struct TypeOf<3> { typedef K2 type; }; template<> struct TypeOf<4> { typedef K3 type; }; template<> struct TypeOf<5> { typedef const K0 type; };
template<> struct TypeOf<6> { typedef K5 type; }; template<> struct TypeOf<7> { typedef K6 type; }; template<> struct TypeOf<8> { typedef K7 type; }; template<> struct TypeOf<9> { typedef K8 type; }; template<> struct TypeOf<10> { typedef K9 type; }; template<> struct TypeOf<11> { typedef const K3 type; };

// ---- argument categories: pattern P gives argument i the category (P, i)
enum { NPAT = 5 };
template<int P, int I> struct CatOf { enum { v = P == 0 ? 0 : P == 1 ? 1 : P == 2 ? 2 : P == 3 ? I % 3 : (I * 2 + 1) % 3 }; };
template<int C> struct Pass; template<> struct Pass<0> { static Arg& go(Arg& a) { return a; } }; template<> struct Pass<1> { static const Arg& go(Arg& a) { return a; } }; template<> struct Pass<2> { static Arg&& go(Arg& a) { return std::move(a); } };
static int cat_of(int p, int i) { return p == 0 ? 0 : p == 1 ? 1 : p == 2 ? 2 : p == 3 ? i % 3 : (i * 2 + 1) % 3; }
static string expect_args(int n, int p, int base) { string r; for (int i = 0; i < n; ++i) r += string(1, VARIADIC ? "lcr"[cat_of(p, i)] : 'c') + std::to_string(base + i) + ","; return r; }

template<class T, int P, size_t... I> s2::postconstructor_invoker<T> mk(Arg* a, std::index_sequence<I...>) { return s2::deconstruct<T>(Pass<CatOf<P, I>::v>::go(a[I])...); }
template<class T, int P, size_t... I> boost::shared_ptr<T> post(const s2::postconstructor_invoker<T>& inv, Arg* a, std::index_sequence<I...>) { return inv.postconstruct(Pass<CatOf<P, I>::v>::go(a[I])...); }
template<class T, size_t N> s2::postconstructor_invoker<T> mkp(int p, Arg* a) { std::make_index_sequence<N> s; switch (p) { case 0: return mk<T, 0>(a, s); case 1: return mk<T, 1>(a, s); case 2: return mk<T, 2>(a, s); case 3: return mk<T, 3>(a, s); default: return mk<T, 4>(a, s); } }
template<class T, size_t N> boost::shared_ptr<T> postp(int p, const s2::postconstructor_invoker<T>& i, Arg* a) { std::make_index_sequence<N> s; switch (p) { case 0: return post<T, 0>(i, a, s); case 1: return post<T, 1>(i, a, s); case 2: return post<T, 2>(i, a, s); case 3: return post<T, 3>(i, a, s); default: return post<T, 4>(i, a, s); } }
template<class T> s2::postconstructor_invoker<T> mkn(int n, int p, Arg* a) { switch (n) { case 0: return mkp<T, 0>(p, a); case 1: return mkp<T, 1>(p, a); case 2: return mkp<T, 2>(p, a); case 3: return mkp<T, 3>(p, a); case 4: return mkp<T, 4>(p, a); case 5: return mkp<T, 5>(p, a); case 6: return mkp<T, 6>(p, a); case 7: return mkp<T, 7>(p, a); case 8: return mkp<T, 8>(p, a); default: return mkp<T, 9>(p, a); } }
template<class T, bool ARGS> struct PostN { static boost::shared_ptr<T> go(int n, int p, const s2::postconstructor_invoker<T>& i, Arg* a) { switch (n) { case 0: return i.postconstruct(); case 1: return postp<T, 1>(p, i, a); case 2: return postp<T, 2>(p, i, a); case 3: return postp<T, 3>(p, i, a); case 4: return postp<T, 4>(p, i, a); case 5: return postp<T, 5>(p, i, a); case 6: return postp<T, 6>(p, i, a); case 7: return postp<T, 7>(p, i, a); case 8: return postp<T, 8>(p, i, a); default: return postp<T, 9>(p, i, a); } } };
template<class T> struct PostN<T, false> { static boost::shared_ptr<T> go(int, int, const s2::postconstructor_invoker<T>& i, Arg*) { return i.postconstruct(); } };

typedef boost::shared_ptr<const void> Any;
struct Req { int kind, n, p, how, pn, pp; };
static Arg* g_pargs;
template<class T> void look(const boost::shared_ptr<T>& s) { if (!s) err("deconstruct gave a null pointer"); if (size_t(s.get()) % alignof(T)) err("object is not suitably aligned"); }
template<int K> Any create(const Req& r, bool& second) {
  typedef typename TypeOf<K>::type T; const bool pa = K < 8 || K == 11; second = false;
  if (r.how == 0) { boost::shared_ptr<T> s = mkn<T>(r.n, r.p, g_args); look(s); return s; }                                  // conversion
  if (r.how == 1) { s2::postconstructor_invoker<T> inv = mkn<T>(r.n, r.p, g_args); Arg* c = g_args; g_args = g_pargs; boost::shared_ptr<T> s; try { s = PostN<T, pa>::go(r.pn, r.pp, inv, g_pargs); } catch (...) { g_args = c; throw; } g_args = c; look(s); return s; }
  if (r.how == 2) { mkn<T>(r.n, r.p, g_args); return Any(); }                                                                // never postconstructed
  // call the hook through the invoker, with the hook arguments or without
  struct Call { static boost::shared_ptr<T> go(const Req& r, const s2::postconstructor_invoker<T>& inv, bool args) { if (!args) return r.p % 2 ? boost::shared_ptr<T>(inv) : inv.postconstruct(); Arg* c = g_args; g_args = g_pargs; boost::shared_ptr<T> s; try { s = PostN<T, pa>::go(r.pn, r.pp, inv, g_pargs); } catch (...) { g_args = c; throw; } g_args = c; return s; } };
  const int v = (r.n + r.pn) % 4;
  if (r.how == 3) { // the invoker is used again: the hook must not run again
    s2::postconstructor_invoker<T> inv = mkn<T>(r.n, r.p, g_args); boost::shared_ptr<T> s = Call::go(r, inv, v & 1), t = inv, u = Call::go(r, inv, !(v & 2)); second = true;
    if (s != t || s != u || s < u || u < s) err("the invoker gave different pointers"); look(s); return s; }
  { // the hook throws the first time, the invoker is asked again
    s2::postconstructor_invoker<T> inv = mkn<T>(r.n, r.p, g_args); boost::shared_ptr<T> s; try { s = Call::go(r, inv, v & 1); } catch (PostBoom&) { g_post_throw = 0; second = true; s = Call::go(r, inv, v & 2); } look(s); return s; }
}
static Any create_any(const Req& r, bool& second) { switch (r.kind) { case 0: return create<0>(r, second); case 1: return create<1>(r, second); case 2: return create<2>(r, second); case 3: return create<3>(r, second); case 4: return create<4>(r, second); case 5: return create<5>(r, second); case 6: return create<6>(r, second); case 7: return create<7>(r, second); case 8: return create<8>(r, second); case 9: return create<9>(r, second); case 10: return create<10>(r, second); default: return create<11>(r, second); } }
// deconstruct_ptr; how: 0 default deleter, 1 custom deleter, 2 null, 3 null with a deleter, 4 const pointer
struct MyDel { int id; template<class T> void operator()(T* p) const { ev("X" + std::to_string(id) + (p ? "" : "null")); delete p; } };
template<class T> Any dp(int how) {
  if (how == 2) { boost::shared_ptr<T> s = s2::deconstruct_ptr(static_cast<T*>(0)); if (s) err("deconstruct_ptr(null) gave a pointer"); return s; }
  if (how == 3) { MyDel d = { g_next }; boost::shared_ptr<T> s = s2::deconstruct_ptr(static_cast<T*>(0), d); if (s) err("deconstruct_ptr(null, d) gave a pointer"); return s; }
  T* p; { Quiet q; p = new T(); }
  if (how == 1) { MyDel d = { g_next }; boost::shared_ptr<T> s = s2::deconstruct_ptr(p, d); if (s.get() != p) err("deconstruct_ptr changed the pointer"); return s; }
  if (how == 4) { boost::shared_ptr<const T> s = s2::deconstruct_ptr(const_cast<const T*>(p)); if (s.get() != p) err("deconstruct_ptr changed the pointer"); return s; }
  boost::shared_ptr<T> s = s2::deconstruct_ptr(p); if (s.get() != p) err("deconstruct_ptr changed the pointer"); return s;
}

enum { NS = 4 };
struct MObj { int id; int owners; bool pre; bool custom; bool gone; };
static Outcome run(const Lines& ls) {
  Outcome o; std::vector<string> log, exp; g_log = &log; g_err = 0; g_objs = g_parts = 0; std::vector<Any> kept; g_kept = &kept; std::map<void*, int> mem; g_mem = &mem; g_blocks = 0; g_failed = false; g_count = false;
  Any slot[NS]; boost::weak_ptr<const void> weak[NS]; int ms[NS], mw[NS]; std::vector<int> mk_; std::map<int, MObj> objs; for (int i = 0; i < NS; ++i) ms[i] = mw[i] = -1;
  int nid = 0; long made = 0, thrown = 0, hooks = 0; string where;
  auto drop = [&](int id) { if (id < 0) return; MObj& m = objs[id]; if (--m.owners) return; m.gone = true; if (m.custom) exp.push_back("X" + std::to_string(id)); else if (m.pre) exp.push_back("D" + std::to_string(id)); exp.push_back("~" + std::to_string(id)); };
  auto fail = [&](const string& w) { g_count = false; g_mem = 0; o.ok = false; o.msg = w + " at '" + where + "'"; for (Any& a : slot) new Any(a); for (Any& a : kept) new Any(a); return o; };
  Arg args[9] = { Arg(10), Arg(11), Arg(12), Arg(13), Arg(14), Arg(15), Arg(16), Arg(17), Arg(18) }, pargs[9] = { Arg(20), Arg(21), Arg(22), Arg(23), Arg(24), Arg(25), Arg(26), Arg(27), Arg(28) };
  for (auto& s : ls) {
    char nm[32]; int a[10] = { 0 }; if (sscanf(s.c_str(), "%31s %d %d %d %d %d %d %d %d %d %d", nm, a, a + 1, a + 2, a + 3, a + 4, a + 5, a + 6, a + 7, a + 8, a + 9) < 1) continue; for (int& x : a) if (x < 0) x = 0;
    string op = nm; where = s; int d = a[0] % NS;
    if (op == "mk" || op == "ptr") {
      Req r; int id; g_post_throw = g_post_keep = g_post_self = 0; g_throw_ctor = 0; g_failin = -1; g_failed = false;
      id = g_next = nid++; bool second = false; Any res; int thr = 0; int fault = 0; int before = g_objs;
      const Kind* k; int how; bool custom = false, cst = false; 
      if (op == "mk") { r.kind = a[1] % NK; r.n = a[2] % 10; r.p = a[3] % NPAT; r.how = a[4] % 5; r.pn = a[5] % 10; r.pp = a[6] % NPAT; k = &KINDS[r.kind]; how = r.how; if (!k->post_args) r.pn = 0;
        g_throw_ctor = a[7] % 8 < 4 ? 0 : a[7] % 4; g_post_throw = a[8] % 3 == 1; g_post_keep = k->keepable && a[8] % 2; fault = a[9] % 8; g_failin = fault == 1 ? 0 : -1; if (g_failin == 0) g_post_keep = 0; }
      else { static const int pk[] = { 8, 9, 10, 0, 6 }; int w = a[1] % 5; k = &KINDS[pk[w]]; how = a[2] % 5; custom = how == 1 || how == 3; cst = how == 4; (void)cst; g_throw_ctor = a[3] % 8 < 6 ? 0 : 1 + a[3] % 3; g_post_throw = a[4] % 3 == 1; g_post_keep = k->keepable && a[4] % 2; fault = a[5] % 8; g_failin = fault == 1 ? 0 : -1; }
      bool hookthrows = g_post_throw; bool keep = g_post_keep; int ct = g_throw_ctor; g_args = args; g_pargs = pargs; bool oom = g_failin == 0;
      // the real thing
      g_count = true;
      try {
        if (op == "mk") res = create_any(r, second);
        else switch (a[1] % 5) { case 0: res = dp<K7>(how); break; case 1: res = dp<K8>(how); break; case 2: res = dp<K9>(how); break; case 3: res = dp<K0>(how); break; default: res = dp<K5>(how); }
      } catch (CtorBoom&) { thr = 1; } catch (PostBoom&) { thr = 2; } catch (std::bad_alloc&) { thr = 3; }
      g_count = false; (void)before;
      // the model
      bool post_hook_runs = k->post; bool pre = k->pre; string I = std::to_string(id); int want = 0; bool alive = false; int keeps = 0;
      if (op == "mk") {
        if (oom) want = 3;
        else if (ct) { want = 1; if (ct == 3) { exp.push_back("C" + I + "(" + expect_args(r.n, r.p, 10) + ")"); exp.push_back("~" + I); } }
        else {
          exp.push_back("C" + I + "(" + expect_args(r.n, r.p, 10) + ")"); objs[id] = MObj{ id, 1, pre, false, false };
          if (how == 2) drop(id);
          else if (!post_hook_runs) alive = true;
          else { ++hooks; const int v = (r.n + r.pn) % 4; string all = expect_args(r.pn, r.pp, 20), pa = how == 1 || ((how == 3 || how == 4) && (v & 1)) ? all : "", pa2 = v & 2 ? all : ""; exp.push_back("P" + I + "(" + pa + ")"); if (keep) { ++objs[id].owners; mk_.push_back(id); ++keeps; }
            if (hookthrows) { if (how == 4) { exp.push_back("P" + I + "(" + pa2 + ")"); if (keep) { ++objs[id].owners; mk_.push_back(id); ++keeps; } alive = true; } else { want = 2; drop(id); } } else alive = true; }
        }
      } else {
        bool hooked = a[1] % 5 < 3; post_hook_runs = hooked && k->post; pre = hooked && k->pre;
        if (how == 2 || how == 3) { // null: no object; a custom deleter is given the null pointer once
          if (oom && how == 3) { want = 3; exp.push_back("X" + I + "null"); } else if (how == 3) { objs[id] = MObj{ id, 1, false, true, false }; exp.push_back("X" + I + "null"); objs.erase(id); res.reset(); }
          else { if (oom) { res.reset(); if (thr == 3) want = 3; } } 
        } else if (ct) { want = 1; if (ct == 3) { exp.push_back("C" + I + "()"); exp.push_back("~" + I); } }
        else { exp.push_back("C" + I + "()"); objs[id] = MObj{ id, 1, pre, custom, false };
          if (oom) { want = 3; drop(id); }
          else if (!post_hook_runs) alive = true;
          else { ++hooks; exp.push_back("P" + I + "()"); if (keep) { ++objs[id].owners; mk_.push_back(id); } if (hookthrows) { want = 2; drop(id); } else alive = true; } }
      }
      if (how == 3 && op == "ptr") { res.reset(); }
      if (thr != want) return fail("exception " + std::to_string(thr) + " instead of " + std::to_string(want) + " (1 constructor, 2 postconstructor, 3 bad_alloc)");
      if (thr) ++thrown; else ++made;
      if (bool(res) != alive) return fail(alive ? "no pointer was handed out" : "a pointer was handed out");
      { int old = ms[d]; slot[d].swap(res); res.reset(); ms[d] = alive ? id : -1; drop(old); }
    }
    else if (op == "cp") { int e = a[1] % NS; int old = ms[d]; if (d != e) { slot[d] = slot[e]; ms[d] = ms[e]; if (ms[d] >= 0) ++objs[ms[d]].owners; drop(old); } }
    else if (op == "mv") { int e = a[1] % NS; if (d != e) { int old = ms[d]; slot[d] = std::move(slot[e]); ms[d] = ms[e]; ms[e] = -1; drop(old); } }
    else if (op == "rst") { slot[d].reset(); int old = ms[d]; ms[d] = -1; drop(old); }
    else if (op == "wk") { weak[d] = slot[a[1] % NS]; mw[d] = ms[a[1] % NS]; }
    else if (op == "lk") { int e = a[1] % NS; Any l = weak[e].lock(); bool want = mw[e] >= 0 && !objs[mw[e]].gone; if (bool(l) != want) return fail("weak_ptr::lock() disagrees with the model"); if (want) { int old = ms[d]; slot[d] = l; l.reset(); ms[d] = mw[e]; ++objs[mw[e]].owners; drop(old); } }
    else if (op == "unk") { kept.clear(); std::vector<int> t; t.swap(mk_); for (int id : t) drop(id); }
    if (g_err) return fail(g_err);
    if (log != exp) { string t; size_t i = 0; while (i < log.size() && i < exp.size() && log[i] == exp[i]) ++i; t = "event " + std::to_string(i) + ": got " + (i < log.size() ? log[i] : "nothing") + ", expected " + (i < exp.size() ? exp[i] : "nothing"); return fail(t); }
    long live = 0; for (auto& m : objs) live += !m.second.gone; if (g_objs != live || g_parts != 2 * live) return fail("objects leaked or destroyed twice");
    for (int i = 0; i < NS; ++i) if (ms[i] >= 0 && size_t(0) != 0) return o;
  }
  for (Any& x : slot) x.reset(); kept.clear(); for (int i = 0; i < NS; ++i) drop(ms[i]); for (int id : mk_) drop(id); for (auto& w : weak) w.reset();
  where = "end"; if (g_err) return fail(g_err); if (log != exp) { string t; for (auto& l : log) t += l + " "; t += "/ expected "; for (auto& l : exp) t += l + " "; return fail("at the end: got " + t); }
  if (g_objs || g_parts) return fail("objects leaked"); if (g_blocks) return fail("memory leaked or freed twice: " + std::to_string(g_blocks) + " blocks");
  g_mem = 0; 
  uint64_t h = 7; for (auto& e : exp) h = vc::mix(h, vc::hash_str(e)); for (auto& l : ls) h = vc::mix(h, vc::hash_str(l.substr(0, 12)));
  o.hash = h; o.nontrivial = made >= 2 && hooks >= 1; o.counters["made"] = made; o.counters["threw"] = thrown; o.counters["hooks"] = hooks; return o;
}
static Lines gen(uint64_t seed, const string&) {
  Rng r(seed); Lines l; int n = r.range(2, 24);
  for (int i = 0; i < n; ++i) { int w = r.below(100); std::ostringstream s;
    if (w < 42) { s << "mk " << r.below(NS) << ' ' << r.below(NK) << ' ' << r.below(10) << ' ' << r.below(NPAT) << ' ' << (r.chance(40) ? 1 : r.below(5)) << ' ' << r.below(10) << ' ' << r.below(NPAT) << ' ' << r.below(8) << ' ' << r.below(6) << ' ' << r.below(8); }
    else if (w < 60) s << "ptr " << r.below(NS) << ' ' << r.below(5) << ' ' << r.below(5) << ' ' << r.below(8) << ' ' << r.below(6) << ' ' << r.below(8);
    else if (w < 68) s << "cp " << r.below(NS) << ' ' << r.below(NS); else if (w < 74) s << "mv " << r.below(NS) << ' ' << r.below(NS); else if (w < 84) s << "rst " << r.below(NS); else if (w < 90) s << "wk " << r.below(NS) << ' ' << r.below(NS); else if (w < 95) s << "lk " << r.below(NS) << ' ' << r.below(NS); else s << "unk";
    l.push_back(s.str()); }
  return l;
}
int main(int argc, char** argv) { vc::Harness h; h.gen = gen; h.run = run; return vc::main_loop(argc, argv, h); }
