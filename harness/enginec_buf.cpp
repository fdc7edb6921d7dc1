// C21: auto_buffer against std::vector, over generated operation sequences, element types, capacities and faults.
#include "core.hpp"
#include <boost/signals2/detail/auto_buffer.hpp>
#include <boost/shared_ptr.hpp>
#include <list>
#include <iterator>
#include <stdexcept>
vc::Progress* vc::g_progress;
using vc::Rng; using vc::Lines; using vc::Outcome;
namespace sd = boost::signals2::detail;

struct Boom { int at; };
static bool g_armed; static int g_left; static bool g_fired;
static void tick() { if (g_armed && !g_fired && g_left-- <= 0) { g_fired = true; throw Boom(); } }
static long g_live, g_alloc; // live elements, allocated elements (outstanding)
static std::map<void*, size_t>* g_blocks; static const char* g_err;
static void err(const char* m) { if (!g_err) g_err = m; }

struct Elem { // neither trivial nor movable, knows its own address, may throw
  int v; Elem* self; int* heap;
  Elem() : v(0) { tick(); init(0); }
  explicit Elem(int x) : v(x) { init(x); }
  Elem(const Elem& o) : v(o.v) { o.chk(); tick(); init(o.v); }
  Elem& operator=(const Elem& o) { o.chk(); chk(); tick(); v = o.v; *heap = o.v; return *this; }
  ~Elem() { chk(); self = 0; delete heap; --g_live; }
  void init(int x) { self = this; heap = new int(x); ++g_live; }
  void chk() const { if (self != this) err("element used that was never constructed or is already destroyed"); else if (*heap != v) err("element corrupt"); }
};
inline int val(const Elem& e) { e.chk(); return e.v; }
struct Big { int a[9]; }; // trivial but larger than long double: passed by reference
inline int val(const Big& b) { for (int i = 1; i < 9; ++i) if (b.a[i] != b.a[0]) err("torn trivial element"); return b.a[0]; }
inline int val(int x) { return x; }
inline int val(const std::string& s) { return s.empty() ? 0 : atoi(s.c_str() + 30); }
inline int val(const boost::shared_ptr<int>& p) { return p ? *p : 0; }
template<class T> struct Mk; 
template<> struct Mk<Elem> { enum { triv = 0, counted = 1 }; static Elem mk(int x) { return Elem(x); } };
template<> struct Mk<Big> { enum { triv = 1, counted = 0 }; static Big mk(int x) { Big b; for (int& i : b.a) i = x; return b; } };
template<> struct Mk<int> { enum { triv = 1, counted = 0 }; static int mk(int x) { return x; } };
template<> struct Mk<std::string> { enum { triv = 0, counted = 0 }; static std::string mk(int x) { return std::string(30, 'x') + std::to_string(x); } };
template<> struct Mk<boost::shared_ptr<int> > { enum { triv = 0, counted = 0 }; static boost::shared_ptr<int> mk(int x) { return boost::shared_ptr<int>(new int(x)); } };

template<class T> struct Alloc { typedef T value_type; Alloc() {} template<class U> Alloc(const Alloc<U>&) {} template<class U> struct rebind { typedef Alloc<U> other; };
  T* allocate(size_t n) { tick(); T* p = (T*)malloc(n * sizeof(T) + 1); (*g_blocks)[p] = n; g_alloc += n; return p; }
  void deallocate(T* p, size_t n) { auto i = g_blocks->find(p); if (i == g_blocks->end()) { err("deallocation of memory that is not allocated"); return; } if (i->second != n) err("deallocation with another size than allocated"); g_alloc -= i->second; g_blocks->erase(i); free(p); }
  bool operator==(const Alloc&) const { return true; } bool operator!=(const Alloc&) const { return false; } };
struct Keep { template<class S> static S new_capacity(S c) { return c + c / 2; } template<class S> static bool should_shrink(S size, S cap) { return size * 2 < cap; } };

template<class T> struct InIt { typedef std::input_iterator_tag iterator_category; typedef T value_type; typedef ptrdiff_t difference_type; typedef const T* pointer; typedef const T& reference; const T* p; const T& operator*() const { return *p; } const T* operator->() const { return p; } InIt& operator++() { ++p; return *this; } InIt operator++(int) { InIt t = *this; ++p; return t; } bool operator==(const InIt& o) const { return p == o.p; } bool operator!=(const InIt& o) const { return p != o.p; } };

enum { NB = 3 };
struct OpI { const char* name; const char* args; int w; };
static const OpI OPS[] = { {"push", "bv", 14}, {"pushd", "b", 2}, {"pushr", "bnv", 4}, {"pushl", "bnv", 2}, {"ins", "biv", 6}, {"insn", "binv", 3}, {"insr", "binv", 3}, {"insl", "binv", 2}, {"insi", "binv", 2},
  {"pop", "b", 4}, {"popn", "bn", 2}, {"erase", "bi", 4}, {"eraser", "bin", 3}, {"clear", "b", 1}, {"assign", "bb", 4}, {"copy", "bb", 2}, {"cap", "bn", 1}, {"fill", "bnv", 1}, {"range", "bnv", 1}, {"swap", "bb", 5}, {"reserve", "bn", 2}, {"reservep", "bn", 2}, {"shrink", "b", 3},
  {"upush", "bv", 2}, {"upushn", "bn", 1}, {"set", "biv", 2}, {"cmp", "bb", 2}, {"ures", "bn", 1} };
enum { NOPS = sizeof OPS / sizeof OPS[0] };

struct Run { virtual ~Run() {} virtual Outcome go(const Lines&) = 0; };
template<class T, class Pol, class Grow> struct RunT : Run {
  typedef sd::auto_buffer<T, Pol, Grow, Alloc<T> > AB; typedef Mk<T> M;
  enum { N = sd::auto_buffer_detail::compute_buffer_objects<Pol, T>::value };
  std::unique_ptr<AB> b[NB]; std::vector<int> m[NB]; Outcome o; std::map<std::string, long> cnt;
  int transitions = 0;
  bool stackp(const AB& x) const { const char* d = (const char*)x.data(); const char* s = (const char*)&x; return d >= s && d < s + sizeof(AB); }
  const char* verify(bool model = true) {
    long total = 0, heap = 0; 
    for (int i = 0; i < NB; ++i) { AB& x = *b[i]; const AB& cx = x;
      if (!x.is_valid()) return "is_valid() is false"; if (x.size() > x.capacity()) return "size above capacity"; if (x.capacity() < size_t(N)) return "capacity below the inline capacity";
      if (x.empty() != (x.size() == 0)) return "empty() wrong"; if (x.full() != (x.size() == x.capacity())) return "full() wrong";
      if (N && x.is_on_stack() != stackp(x)) return "is_on_stack() wrong"; if (!x.is_on_stack()) { heap += x.capacity(); auto it = g_blocks->find(x.data()); if (it == g_blocks->end() || it->second != x.capacity()) return "heap buffer is not an allocated block of capacity() elements"; }
      if (size_t(x.data()) % alignof(T)) return "buffer misaligned";
      total += x.size(); 
      if (model) { std::vector<int>& v = m[i]; if (x.size() != v.size()) return "size differs from the model"; for (size_t k = 0; k < v.size(); ++k) if (val(x[k]) != v[k]) return "contents differ from the model";
        if (!v.empty()) { if (val(x.front()) != v.front() || val(cx.front()) != v.front() || val(x.back()) != v.back() || val(cx.back()) != v.back()) return "front()/back() wrong"; }
        size_t k = 0; for (typename AB::const_iterator it = cx.begin(); it != cx.end(); ++it, ++k) if (val(*it) != v[k]) return "iteration differs"; if (k != v.size()) return "iteration length differs";
        for (typename AB::reverse_iterator it = x.rbegin(); it != x.rend(); ++it) if (val(*it) != v[--k]) return "reverse iteration differs"; if (k) return "reverse iteration length differs"; } 
      else { m[i].clear(); for (size_t k = 0; k < x.size(); ++k) m[i].push_back(val(x[k])); } }
    if (M::counted && g_live != total) return g_live > total ? "more live elements than the sizes account for (leak)" : "fewer live elements than the sizes account for (destroyed twice)";
    if (g_alloc != heap) return g_alloc > heap ? "memory leaked" : "memory freed twice";
    return g_err;
  }
  Outcome go(const Lines& ls) {
    std::map<void*, size_t> blocks; g_blocks = &blocks; g_live = g_alloc = 0; g_err = 0; g_armed = false;
    for (auto& x : b) x.reset(new AB());
    int fault = -1; uint64_t h = N * 31 + M::triv; 
    for (auto& s : ls) {
      char nm[32]; int a[4] = { 0, 0, 0, 0 }; if (s[0] == '!') continue; if (sscanf(s.c_str(), "%31s %d %d %d %d", nm, &a[0], &a[1], &a[2], &a[3]) < 1) continue; for (int& x : a) if (x < 0) x = 0;
      std::string op = nm; if (op == "fault") { fault = a[0] % 40; continue; }
      bool st0[NB]; size_t cap0[NB]; const void* d0[NB]; std::vector<int> before[NB]; for (int i = 0; i < NB; ++i) { st0[i] = b[i]->is_on_stack(); cap0[i] = b[i]->capacity(); d0[i] = b[i]->data(); before[i] = m[i]; }
      int k = a[0] % NB; g_armed = fault >= 0; g_left = fault; g_fired = false; bool threw = false, strong = false; bool was_armed = g_armed; fault = -1; bool checkstable = false;
      try { strong = apply(op, a); } catch (Boom&) { threw = true; }
      g_armed = false; ++cnt["ops"];
      if (threw) { ++cnt["throws"]; m[k] = before[k]; 
        const bool s2 = op == "push" || op == "pushd" || op == "pushr" || op == "pushl" || op == "reserve" || op == "reservep" || op == "upush" || op == "copy" || op == "range" || op == "fill" || op == "cap" || op == "shrink";
        if (s2) for (int i = 0; i < NB; ++i) m[i] = before[i];
        const char* e = verify(s2); if (e) { std::string t = std::string("after ") + op + " threw: " + e; return fail(t, s); } ++cnt[s2 ? "strong_throws" : "basic_throws"]; }
      else { (void)was_armed; (void)strong; const char* e = verify(); if (e) return fail(e, s); }
      (void)checkstable;
      if (!threw) { // no reallocation when the capacity suffices
        if ((op == "push" || op == "pushd" || op == "pushr" || op == "pushl" || op == "ins" || op == "insn" || op == "insr" || op == "reserve" || op == "reservep" || op == "insl") && m[k].size() <= cap0[k] && !(op[0] == 'r' && b[k]->capacity() != cap0[k]) && (b[k]->capacity() != cap0[k] || b[k]->data() != d0[k])) return fail("reallocated although the capacity sufficed", s);
        if (op == "reserve" && b[k]->capacity() < size_t(a[1] % 40)) return fail("reserve(n) left less capacity", s);
        if (op == "reservep" && b[k]->capacity() != std::max(cap0[k], size_t(a[1] % 40))) return fail("reserve_precisely(n) has another capacity", s);
        if (op == "shrink" && !b[k]->is_on_stack() && Grow::should_shrink(m[k].size(), cap0[k]) && (b[k]->capacity() != std::max(m[k].size(), size_t(N)))) return fail("shrink_to_fit() did not shrink", s);
      }
      for (int i = 0; i < NB; ++i) if (b[i]->is_on_stack() != st0[i]) { ++transitions; ++cnt["stack_heap_transitions"]; }
      for (int i = 0; i < NB; ++i) { h = vc::hash_bytes(m[i].data(), m[i].size() * sizeof(int), h); h = h * 131 + b[i]->capacity(); }
    }
    for (auto& x : b) x.reset();
    if (g_err) return fail(g_err, "destruction"); if (M::counted && g_live) return fail("elements leaked", "destruction"); if (g_alloc || !blocks.empty()) return fail("memory leaked", "destruction");
    o.hash = h; o.nontrivial = transitions > 0 && cnt["ops"] > 4; o.counters = cnt; return o;
  }
  Outcome fail(const std::string& w, const std::string& at) { o.ok = false; o.msg = w + " at '" + at + "'"; for (auto& x : b) new std::unique_ptr<AB>(x.release()); return o; }
  bool apply(const std::string& op, int* a) {
    int k = a[0] % NB, k2 = a[1] % NB; AB& x = *b[k]; std::vector<int>& v = m[k]; 
    struct Off { bool was; Off() : was(g_armed) { g_armed = false; } void on() { g_armed = was; } } off; // the harness's own copies must not throw
    std::vector<T> src; std::vector<int> sv; auto mksrc = [&](int n, int base) { n %= 14; src.reserve(n + 1); for (int i = 0; i < n; ++i) { src.push_back(M::mk(base + i)); sv.push_back(base + i); } };
    struct Cnt { Cnt() {} } c; (void)c;
    if (op == "push") { T t(M::mk(a[1])); off.on(); x.push_back(t); v.push_back(a[1]); }
    else if (op == "upush") { if (x.full()) return 0; T t(M::mk(a[1])); off.on(); x.unchecked_push_back(t); v.push_back(a[1]); }
    else if (op == "pushd") { off.on(); x.push_back(); g_armed = false; if (M::triv) x.back() = M::mk(0); v.push_back(0); }
    else if (op == "upushn") { size_t n = a[1] % 6; if (x.size() + n > x.capacity()) return 0; off.on(); x.unchecked_push_back_n(n); g_armed = false; for (size_t i = 0; i < n; ++i) v.push_back(0); }
    else if (op == "pushr") { mksrc(a[1], a[2]); const T* p = src.data(); off.on(); x.push_back(p, p + src.size()); v.insert(v.end(), sv.begin(), sv.end()); }
    else if (op == "pushl") { mksrc(a[1], a[2]); std::list<T> l(src.begin(), src.end()); off.on(); x.push_back(l.begin(), l.end()); v.insert(v.end(), sv.begin(), sv.end()); }
    else if (op == "ins") { size_t p = a[1] % (v.size() + 1); T t(M::mk(a[2])); off.on(); typename AB::iterator r = x.insert(x.begin() + p, t); g_armed = false; v.insert(v.begin() + p, a[2]); if (r != x.begin() + p) err("insert returned the wrong position"); }
    else if (op == "insn") { size_t p = a[1] % (v.size() + 1), n = a[2] % 12; T t(M::mk(a[3])); off.on(); x.insert(x.begin() + p, n, t); v.insert(v.begin() + p, n, a[3]); }
    else if (op == "insr") { size_t p = a[1] % (v.size() + 1); mksrc(a[2], a[3]); const T* q = src.data(); off.on(); x.insert(x.begin() + p, q, q + src.size()); v.insert(v.begin() + p, sv.begin(), sv.end()); }
    else if (op == "insl") { size_t p = a[1] % (v.size() + 1); mksrc(a[2], a[3]); insl(x, p, src, off, std::integral_constant<bool, M::triv>()); v.insert(v.begin() + p, sv.begin(), sv.end()); }
    else if (op == "insi") { size_t p = a[1] % (v.size() + 1); mksrc(a[2], a[3]); InIt<T> f = { src.data() }, l = { src.data() + src.size() }; off.on(); x.insert(x.begin() + p, f, l); v.insert(v.begin() + p, sv.begin(), sv.end()); }
    else if (op == "pop") { if (v.empty()) return 0; off.on(); x.pop_back(); v.pop_back(); }
    else if (op == "popn") { size_t n = a[1] % (v.size() + 1); off.on(); x.pop_back_n(n); v.resize(v.size() - n); }
    else if (op == "erase") { if (v.empty()) return 0; size_t p = a[1] % v.size(); off.on(); typename AB::iterator r = x.erase(x.begin() + p); g_armed = false; v.erase(v.begin() + p); if (r != x.begin() + p) err("erase returned the wrong position"); }
    else if (op == "eraser") { size_t p = a[1] % (v.size() + 1), n = a[2] % (v.size() - p + 1); off.on(); typename AB::iterator r = x.erase(x.begin() + p, x.begin() + p + n); g_armed = false; v.erase(v.begin() + p, v.begin() + p + n); if (r != x.begin() + p) err("erase returned the wrong position"); }
    else if (op == "clear") { off.on(); x.clear(); v.clear(); }
    else if (op == "assign") { off.on(); AB& r = (x = *b[k2]); v = m[k2]; if (&r != &x) err("operator= returned something else"); }
    else if (op == "copy") { if (k == k2) return 0; off.on(); std::unique_ptr<AB> t(new AB(*b[k2])); g_armed = false; b[k].swap(t); v = m[k2]; }
    else if (op == "cap") { off.on(); std::unique_ptr<AB> t(new AB(typename AB::size_type(a[1] % 40))); g_armed = false; if (t->capacity() < size_t(a[1] % 40)) err("constructor left less capacity"); b[k].swap(t); v.clear(); }
    else if (op == "fill") { size_t n = a[1] % 20; T e(M::mk(a[2])); off.on(); std::unique_ptr<AB> t(new AB(typename AB::size_type(n), e)); g_armed = false; b[k].swap(t); v.assign(n, a[2]); }
    else if (op == "range") { mksrc(a[1], a[2]); const T* q = src.data(); off.on(); std::unique_ptr<AB> t(new AB(q, q + src.size())); g_armed = false; b[k].swap(t); v = sv; }
    else if (op == "swap") { off.on(); if ((a[0] + a[1]) % 2) x.swap(*b[k2]); else swap(x, *b[k2]); v.swap(m[k2]); }
    else if (op == "reserve") { off.on(); x.reserve(a[1] % 40); }
    else if (op == "reservep") { off.on(); x.reserve_precisely(a[1] % 40); }
    else if (op == "shrink") { off.on(); x.shrink_to_fit(); }
    else if (op == "set") { if (v.empty()) return 0; size_t p = a[1] % v.size(); x[p] = M::mk(a[2]); v[p] = a[2]; }
    else if (op == "cmp") { cmp(x, *b[k2], v, m[k2], std::integral_constant<bool, std::is_same<T, int>::value>()); }
    else if (op == "ures") { if (!M::triv) return 0; size_t n = a[1] % 30, old = x.size(); off.on(); x.uninitialized_resize(n); g_armed = false; if (x.size() != n) err("uninitialized_resize(n) left another size"); for (size_t i = old; i < n; ++i) x[i] = M::mk(5); v.resize(n, 5); }
    g_armed = false; return 1;
  }
  template<class O> void insl(AB& x, size_t p, std::vector<T>& s, O& off, std::false_type) { std::list<T> l(s.begin(), s.end()); off.on(); x.insert(x.begin() + p, l.begin(), l.end()); }
  template<class O> void insl(AB& x, size_t p, std::vector<T>& s, O& off, std::true_type) { const T* q = s.data(); off.on(); x.insert(x.begin() + p, q, q + s.size()); }
  void cmp(AB& x, AB& y, std::vector<int>& v, std::vector<int>& w, std::true_type) { if ((x == y) != (v == w) || (x != y) != (v != w) || (x < y) != (v < w) || (x > y) != (v > w) || (x <= y) != (v <= w) || (x >= y) != (v >= w)) err("comparison differs from the model"); }
  void cmp(AB&, AB&, std::vector<int>&, std::vector<int>&, std::false_type) {}
};
// -DBUF_PART selects which element types this build covers
typedef sd::default_grow_policy DG;
static Run* make(int k) {
  switch (k) {
#if BUF_PART == 0
    case 0: return new RunT<Elem, sd::store_n_objects<10>, DG>(); case 1: return new RunT<Elem, sd::store_n_objects<3>, Keep>(); case 2: return new RunT<Elem, sd::store_n_objects<1>, DG>(); case 3: return new RunT<Elem, sd::store_n_objects<0>, DG>(); case 4: return new RunT<Elem, sd::store_n_bytes<100>, DG>(); default: return new RunT<Elem, sd::store_n_bytes<8>, Keep>();
#elif BUF_PART == 1
    case 0: return new RunT<boost::shared_ptr<int>, sd::store_n_objects<10>, DG>(); case 1: return new RunT<boost::shared_ptr<int>, sd::store_n_objects<2>, DG>(); case 2: return new RunT<std::string, sd::store_n_objects<4>, Keep>(); case 3: return new RunT<std::string, sd::store_n_objects<0>, DG>(); case 4: return new RunT<std::string, sd::store_n_bytes<100>, DG>(); default: return new RunT<boost::shared_ptr<int>, sd::store_n_objects<1>, Keep>();
#else
    case 0: return new RunT<int, sd::store_n_objects<10>, DG>(); case 1: return new RunT<int, sd::store_n_objects<1>, Keep>(); case 2: return new RunT<int, sd::store_n_objects<0>, DG>(); case 3: return new RunT<Big, sd::store_n_objects<5>, DG>(); case 4: return new RunT<Big, sd::store_n_objects<0>, Keep>(); default: return new RunT<int, sd::store_n_bytes<30>, DG>();
#endif
  }
}
static Lines generate(uint64_t seed, const std::string&) {
  Rng r(seed); Lines l; l.push_back("!cfg " + std::to_string(r.below(6)));
  double w[NOPS]; for (int i = 0; i < NOPS; ++i) w[i] = r.chance(30) ? 0 : OPS[i].w; w[0] = 8; bool faults = r.chance(50); int n = r.range(6, 60), nb = r.range(1, NB), mv = r.chance(50) ? 4 : 16;
  for (int q = 0; q < n; ++q) { double t = 0; for (double x : w) t += x; double x = t * (r.below(1 << 20) / double(1 << 20)); int i = 0; for (; i < NOPS - 1; ++i) { if (x < w[i]) break; x -= w[i]; }
    if (faults && r.chance(25)) l.push_back("fault " + std::to_string(r.below(r.chance(50) ? 4 : 20)));
    std::string s = OPS[i].name; for (const char* a = OPS[i].args; *a; ++a) s += " " + std::to_string(*a == 'b' ? r.below(nb) : *a == 'v' ? 1 + r.below(90) : *a == 'n' ? r.below(mv * 3) : r.below(30)); l.push_back(s); }
  return l;
}
static Outcome run_case(const Lines& l) { int k = 0; for (auto& s : l) if (s[0] == '!') sscanf(s.c_str(), "!cfg %d", &k); std::unique_ptr<Run> r(make(k % 6)); return r->go(l); }
int main(int argc, char** argv) { vc::Harness h; h.gen = generate; h.run = run_case; return vc::main_loop(argc, argv, h); }
