// Large numbers: thousands of slots, groups, tracked objects and blocks, hundreds of nested invocations. A library that is right for ten may be wrong for three hundred (narrow counters, buffers that
// change their regime, recursion). The same history runs on the library and on a model; every call, result, count and handle is compared.
#include "core.hpp"
#include <boost/signals2.hpp>
#include <boost/signals2/shared_connection_block.hpp>
#include <boost/make_shared.hpp>
#include <memory>
#include <sys/resource.h>
vc::Progress* vc::g_progress;
namespace bs = boost::signals2; using vc::Rng; using vc::Outcome; using std::string; using std::vector;

enum { NOBJ = 3000 };
static long g_live;
struct Tok { Tok() { ++g_live; } ~Tok() { --g_live; } };
typedef vector<int> Log;
struct Op { string n; int a[5]; };
// how entry i of a fill is connected
static void place(int i, int n, int gp, int pp, int& g, bool& front) {
  g = -1; switch (gp % 7) { case 0: break; case 1: g = i % 7; break; case 2: g = n - i; break; case 3: g = int((i * 7919u) % unsigned(n + 1)); break; case 4: g = 5; break; case 5: g = i; break; case 6: g = i % 2 ? i / 3 : -1; break; }
  front = pp % 3 == 1 || (pp % 3 == 2 && i % 2);
}
struct Base { // what both sides share: the budget and the flags of the nested levels
  Log log; vector<char> nested; long budget = 400000; int act = 0, p = 0, q = 0; bool acted = false;
};

struct Model : Base {
  struct E { int id, type, g; bool conn = true, nest = false; int blocks = 0; vector<int> trk; };
  typedef std::shared_ptr<E> EP; typedef vector<EP> L;
  std::shared_ptr<L> l = std::make_shared<L>(); vector<EP> all; vector<char> owned; vector<int> locks; std::map<int, int> blk; int maxdepth = 0;
  Model() : owned(NOBJ, 1), locks(NOBJ, 0) {}
  bool dead(int o) { return !owned[o] && !locks[o]; }
  bool check(const EP& e) { if (e->conn) for (int o : e->trk) if (dead(o)) { e->conn = false; break; } return e->conn; }
  void own() { if (l.use_count() > 1) l = std::make_shared<L>(*l); }
  void con(int g, bool front, bool nest, int k, int o, int st) {
    EP e = std::make_shared<E>(); e->id = int(all.size()); e->g = g; e->type = g >= 0 ? 1 : front ? 0 : 2; e->nest = nest; for (int i = 0; i < k; ++i) e->trk.push_back((o + i * st) % NOBJ); all.push_back(e); own();
    auto key = [](const EP& x) { return std::make_pair(x->type, x->type == 1 ? x->g : 0); }; auto k0 = key(e);
    if (l->size() > 5000 && l->size() % 4096 == 0) { auto r = std::remove_if(l->begin(), l->end(), [](const EP& x) { return !x->conn; }); l->erase(r, l->end()); }
    if (front) l->insert(std::lower_bound(l->begin(), l->end(), e, [&](const EP& x, const EP&) { return key(x) < k0; }), e);
    else l->insert(std::upper_bound(l->begin(), l->end(), e, [&](const EP&, const EP& x) { return k0 < key(x); }), e); }
  size_t size() { return all.size(); }
  void disc(size_t i) { all[i]->conn = false; }
  void discg(int g) { for (auto& e : *l) if (e->type == 1 && e->g == g) e->conn = false; }
  void discall() { for (auto& e : *l) e->conn = false; }
  void blk1(size_t i) { ++all[i]->blocks; }
  void unb1(size_t i) { if (all[i]->blocks) --all[i]->blocks; }
  void drop(int o) { owned[o] = 0; }
  int num() { int n = 0; for (auto& e : *l) n += check(e); return n; }
  bool empty() { return num() == 0; }
  bool connected(size_t i) { return check(all[i]); }
  bool blocked(size_t i) { return !check(all[i]) || all[i]->blocks; }
  void other() {}
  void sobj(int k, int o, int st) { bool d = false; for (int i = 0; i < k; ++i) d |= dead((o + i * st) % NOBJ); log.push_back(d); if (d) { log.push_back(-7); log.push_back(-7); } else { log.push_back(k); log.push_back(-4); log.push_back(-4); } }
  void chain(int n, int cut) { log.push_back(-4); cut = cut % (n + 1); if (cut < n) log.push_back(-5); else log.push_back(-4); log.push_back(1); }
  int emit(int d, int depth); // last result, -1 if none
};
struct Real : Base {
  struct F { Real* w; int id; bool nest; boost::shared_ptr<Tok> t; int operator()(int depth) const; };
#if SC_CFG == 0
  typedef bs::signal<int(int)> Sig;
#else
  struct Last { typedef int result_type; template<class It> int operator()(It b, It e) const { int r = -1; for (; b != e; ++b) r = *b; return r; } };
  typedef bs::signal<int(int), Last, int, std::less<int>, boost::function<int(int)>, boost::function<int(const bs::connection&, int)>, bs::dummy_mutex> Sig;
#endif
  std::unique_ptr<Sig> s{new Sig}; vector<bs::connection> all; vector<boost::shared_ptr<int> > obj; std::map<size_t, vector<bs::shared_connection_block> > blk; int maxdepth = 0;
  Real() { obj.reserve(NOBJ); for (int i = 0; i < NOBJ; ++i) obj.push_back(boost::make_shared<int>(i)); }
  void con(int g, bool front, bool nest, int k, int o, int st) {
    F f; f.w = this; f.id = int(all.size()); f.nest = nest; f.t = boost::make_shared<Tok>(); bs::connect_position pos = front ? bs::at_front : bs::at_back;
    Sig::slot_type sl(f); static const boost::shared_ptr<int> gone; for (int i = 0; i < k; ++i) { const boost::shared_ptr<int>& x = obj[(o + i * st) % NOBJ]; if (x) sl.track(x); else { boost::shared_ptr<int> t = boost::make_shared<int>(0); sl.track(t); } }
    all.push_back(g >= 0 ? s->connect(g, sl, pos) : s->connect(sl, pos)); }
  size_t size() { return all.size(); }
  void disc(size_t i) { all[i].disconnect(); }
  void discg(int g) { s->disconnect(g); }
  void discall() { s->disconnect_all_slots(); }
  void blk1(size_t i) { vector<bs::shared_connection_block>& v = blk[i]; if (v.size() % 3 == 2) v.push_back(v.back()); else v.push_back(bs::shared_connection_block(all[i])); }
  void unb1(size_t i) { vector<bs::shared_connection_block>& v = blk[i]; if (!v.empty()) v.erase(v.begin()); }
  void drop(int o) { obj[o].reset(); }
  int num() { return int(s->num_slots()); }
  bool empty() { return s->empty(); }
  bool connected(size_t i) { return all[i].connected(); }
  bool blocked(size_t i) { return all[i].blocked(); }
  void other() { std::unique_ptr<Sig> t(new Sig(std::move(*s))); s.swap(t); }
  struct Note { Log* l; int operator()(int x) const { l->push_back(-4); return x; } };
  void sobj(int k, int o, int st) { // a slot object used directly
    Note nt = { &log }; Sig::slot_type sl(nt), sl2(nt); for (int i = 0; i < k; ++i) { const boost::shared_ptr<int>& x = obj[(o + i * st) % NOBJ]; if (x) sl2.track(x); else { boost::shared_ptr<int> t = boost::make_shared<int>(0); sl2.track_foreign(t); } }
    sl.track(sl2); log.push_back(sl.expired());
    try { log.push_back(int(sl.lock().size())); sl(1); } catch (const bs::expired_slot&) { log.push_back(-7); }
    const Sig::slot_type& cs = sl; try { cs(1); } catch (const bs::expired_slot&) { log.push_back(-7); } }
  void chain(int n, int cut) { // signals connected to signals
    typedef bs::signal<void(int)> S; Note nt = { &log }; vector<boost::shared_ptr<S> > v; for (int i = 0; i <= n; ++i) v.push_back(boost::make_shared<S>()); v[n]->connect(nt); for (int i = 0; i < n; ++i) v[i]->connect(*v[i + 1]);
    (*v[0])(1); cut = cut % (n + 1); if (cut < n) { v[cut + 1].reset(); log.push_back(-5); } (*v[0])(1); int z = 0; for (int i = 0; i <= cut && i < n; ++i) z += int(v[i]->num_slots()); log.push_back(cut < n ? z == cut : z == n); }
  int emit(int d, int) {
#if SC_CFG == 0
    boost::optional<int> r = (*s)(d); return r ? *r : -1;
#else
    return (*s)(d);
#endif
  }
};
// operations performed from the deepest invocation, and at top level
template<class W> void disc_some(W& w, int st, int off) { int n = int(w.size()); if (n) for (int i = off % n, c = 0; i < n && c < 200000; i += 1 + st, ++c) w.disc(i); }
template<class W> void fill(W& w, int n, int gp, int pp, int k, int nest) { for (int i = 0; i < n && w.budget > 0; ++i) { --w.budget; int g; bool f; place(i, n, gp, pp, g, f); w.con(g, f, nest > 0 && i % nest == 0, k, i * 3, 1 + gp % 3); } }
template<class W> void act(W& w) {
  if (w.acted) return; w.acted = true;
  switch (w.act % 9) { case 0: break; case 1: disc_some(w, w.p % 7, w.q); break; case 2: fill(w, w.p % 700, w.q, w.p, 0, 0); break; case 3: w.discall(); break; case 4: for (int i = w.p % NOBJ, c = 0; i < NOBJ && c < 500; i += 1 + w.q % 5, ++c) w.drop(i); break;
    case 5: for (size_t i = 0; i < w.size() && i < 3000; i += 1 + w.p % 5) w.blk1(i); break; case 6: w.log.push_back(w.num()); break; case 7: w.discg(w.p % 9); break; case 8: for (size_t i = w.p % 5; i < w.size() && i < 3000; i += 1 + w.q % 4) w.log.push_back(-10 - w.connected(i)); break; }
}
template<class W> void called(W& w, int id, bool nest, int d) { // body of every slot
  --w.budget; w.log.push_back(id); if (!nest) return;
  if (d == 0) { act(w); return; }
  if (w.nested[d] || w.budget < 0) return; w.nested[d] = 1; w.log.push_back(-2); int r = w.emit(d - 1, d); w.log.push_back(-3); w.log.push_back(r);
}
int Real::F::operator()(int d) const { called(*w, id, nest, d); return id; }
int Model::emit(int d, int) {
  std::shared_ptr<L> snap = l; int r = -1; maxdepth = std::max(maxdepth, d + 1); vector<int>* held = 0;
  auto let = [&]() { if (held) for (int o : *held) --locks[o]; held = 0; };
  for (size_t i = 0; i < snap->size(); ++i) { let(); EP e = (*snap)[i];
    bool alive = true; for (int o : e->trk) if (dead(o)) { alive = false; break; } if (!alive) { e->conn = false; continue; }
    if (!e->conn) continue; if (e->trk.size()) { held = &e->trk; for (int o : *held) ++locks[o]; }
    if (e->blocks) continue; called(*this, e->id, e->nest, d); r = e->id; }
  let(); return r;
}
template<class W> bool run_op(W& w, const Op& o) {
  const int* a = o.a; const string& n = o.n; w.log.clear();
  if (n == "fill") fill(w, a[0], a[1], a[2], 0, a[3]);
  else if (n == "trk") { if (long(a[0]) * a[1] < 200000) fill(w, a[0], a[2], a[3], a[1] % NOBJ, a[4]); }
  else if (n == "drop") for (int i = a[0] % NOBJ, c = 0; i < NOBJ && c < a[2]; i += 1 + a[1] % 50, ++c) w.drop(i);
  else if (n == "disc") disc_some(w, a[0], a[1]);
  else if (n == "rdisc") { for (int i = int(w.size()) - 1 - a[1] % 10; i >= 0; i -= 1 + a[0]) w.disc(i); }
  else if (n == "discg") w.discg(a[0]);
  else if (n == "discall") w.discall();
  else if (n == "blk") { if (w.size()) for (int c = 0; c < a[0]; ++c) for (size_t i = a[2] % w.size(), k = 0; i < w.size() && k < 40; i += 1 + a[1] % 50, ++k) w.blk1(i); }
  else if (n == "unb") { if (w.size()) for (int c = 0; c < a[0]; ++c) for (size_t i = a[2] % w.size(), k = 0; i < w.size() && k < 40; i += 1 + a[1] % 50, ++k) w.unb1(i); }
  else if (n == "emit") { w.act = a[1]; w.p = a[2]; w.q = a[3]; w.acted = false; w.nested.assign(a[0] + 2, 0); w.log.push_back(w.emit(a[0], 0)); }
  else if (n == "num") { w.log.push_back(w.num()); w.log.push_back(w.empty()); }
  else if (n == "move") w.other();
  else if (n == "sobj") w.sobj(std::min(a[0], 2999), a[1], 1 + a[2] % 5);
  else if (n == "chain") w.chain(std::min(a[0], 600), a[1]);
  else if (n == "chk") { int c = 0; for (size_t i = 0; i < w.size(); ++i) { w.log.push_back(w.connected(i) + 2 * w.blocked(i)); c += w.log.back() & 1; } w.log.push_back(c); return true; }
  return false;
}
static string trim(const Log& l, size_t i) { string s; for (size_t k = i > 3 ? i - 3 : 0; k < l.size() && k < i + 4; ++k) s += (k == i ? " >" : " ") + std::to_string(l[k]); return s; }
static Outcome run_case(const vc::Lines& ls) {
  Outcome out; auto& cnt = out.counters; g_live = 0; long calls = 0; uint64_t h = 0; int maxn = 0;
  {
    Model m; Real r;
    for (auto& line : ls) { char nm[32]; Op o; int* a = o.a; a[0] = a[1] = a[2] = a[3] = a[4] = 0; if (line[0] == '!' || sscanf(line.c_str(), "%31s %d %d %d %d %d", nm, a, a + 1, a + 2, a + 3, a + 4) < 1) continue; for (int i = 0; i < 5; ++i) if (a[i] < 0) a[i] = 0; o.n = nm;
      if (o.n == "emit") { a[0] = std::min(a[0], 700); if (m.budget < 0 || long(a[0] + 1) * (m.num() + 1) > 250000) continue; r.budget = m.budget; }
      Model* pm = &m; bool chk = run_op(*pm, o); if (o.n != "emit") r.budget = 1000000000; long before = r.budget; (void)before; if (o.n == "fill" || o.n == "trk") r.budget = 1000000000;
      run_op(r, o); r.budget = m.budget; ++cnt[o.n]; if (o.n == "emit") { calls += long(m.log.size()); if (m.maxdepth > 255) ++cnt["deep_emits"]; }
      if (m.log != r.log) { size_t i = 0; while (i < m.log.size() && i < r.log.size() && m.log[i] == r.log[i]) ++i; out.ok = false; out.msg = line + ": the library differs from the model at " + std::to_string(i) + " of " + std::to_string(m.log.size()) + "/" + std::to_string(r.log.size()) + ": expected" + trim(m.log, i) + ", got" + trim(r.log, i); return out; }
      if (chk && g_live != m.log.back()) { out.ok = false; out.msg = line + ": " + std::to_string(m.log.back()) + " connected slots, but " + std::to_string(g_live) + " slot functions are kept"; return out; }
      h = vc::hash_bytes(m.log.data(), m.log.size() * sizeof(int), h + 1); maxn = std::max(maxn, int(m.all.size()));
      if (m.size() != r.size()) { out.ok = false; out.msg = "harness: sizes"; return out; } }
    cnt["slot_calls"] += calls; if (maxn > 255) ++cnt["over_255_slots"]; if (maxn > 65535) ++cnt["over_65535_slots"]; cnt["max_depth_sum"] += m.maxdepth;
    out.nontrivial = (maxn > 255 || m.maxdepth > 255) && calls > 0; out.hash = h;
  }
  if (g_live) { out.ok = false; out.msg = std::to_string(g_live) + " slot functions leaked"; }
  return out;
}
static int lg(Rng& r, int max) { int b = 1; while ((1 << b) < max) ++b; int k = r.range(0, b); int v = (1 << k) - 1 + r.below(1 << k); return std::min(v, max); }
static vc::Lines gen(uint64_t seed, const string&) {
  Rng r(seed); vc::Lines l; char b[96]; bool huge = r.chance(2), deep = r.chance(30); int n = r.range(4, 14);
  if (huge) { snprintf(b, sizeof b, "fill %d %d %d %d", 65600 + r.below(3000), r.chance(50) ? 0 : 4, 0, r.chance(50) ? 66000 : 0); l.push_back(b); n = r.range(2, 5); }
  else if (deep) { snprintf(b, sizeof b, "fill %d %d %d 1", r.range(1, 3), r.below(7), r.below(3)); l.push_back(b); if (r.chance(40)) { snprintf(b, sizeof b, "trk %d %d %d %d 1", r.range(1, 3), lg(r, 40), r.below(7), r.below(3)); l.push_back(b); } }
  for (int i = 0; i < n; ++i) { int x = r.below(100);
    if (x < 18 && !huge) snprintf(b, sizeof b, "fill %d %d %d %d", deep ? r.range(1, 60) : lg(r, 3000), r.below(7), r.below(3), r.chance(40) ? 1 + lg(r, 800) : 0);
    else if (x < 27 && !huge) { int s = lg(r, 600); snprintf(b, sizeof b, "trk %d %d %d %d %d", deep ? r.range(1, 10) : s, lg(r, s > 60 ? 300 : 2999), r.below(7), r.below(3), r.chance(40) ? 1 + lg(r, 300) : 0); }
    else if (x < 33) snprintf(b, sizeof b, "drop %d %d %d", r.below(r.chance(50) ? 40 : NOBJ), r.below(50), lg(r, 500));
    else if (x < 43) snprintf(b, sizeof b, "%s %d %d", r.chance(60) ? "disc" : "rdisc", lg(r, 300), r.below(20));
    else if (x < 47) snprintf(b, sizeof b, "discg %d", r.chance(50) ? 5 : r.below(600));
    else if (x < 48) snprintf(b, sizeof b, "discall");
    else if (x < 53) snprintf(b, sizeof b, "blk %d %d %d", lg(r, 400), r.below(50), r.below(20));
    else if (x < 58) snprintf(b, sizeof b, "unb %d %d %d", lg(r, 400), r.below(50), r.below(20));
    else if (x < 84) snprintf(b, sizeof b, "emit %d %d %d %d", deep ? lg(r, 700) : r.chance(70) ? 0 : lg(r, 60), r.below(9), r.below(3000), r.below(3000));
    else if (x < 90) snprintf(b, sizeof b, "num");
    else if (x < 91) snprintf(b, sizeof b, "move");
    else if (x < 94) snprintf(b, sizeof b, "sobj %d %d %d", lg(r, 2999), r.below(NOBJ), r.below(5));
    else if (x < 96) snprintf(b, sizeof b, "chain %d %d", lg(r, 600), r.below(600));
    else snprintf(b, sizeof b, "chk");
    l.push_back(b); }
  snprintf(b, sizeof b, "emit %d %d %d %d", deep ? 260 + r.below(300) : 0, r.below(9), r.below(3000), r.below(3000)); l.push_back(b); l.push_back("num"); l.push_back("chk"); l.push_back("emit 0 0 0 0"); return l;
}
int main(int argc, char** argv) {
  struct rlimit rl; // deep recursion with AddressSanitizer needs stack; a larger limit takes effect for a new program only
  if (getrlimit(RLIMIT_STACK, &rl) == 0 && rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (64ul << 20) && !getenv("SC_STACK")) { rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (64ul << 20) : std::min<rlim_t>(rl.rlim_max, 64ul << 20); if (setrlimit(RLIMIT_STACK, &rl) == 0) { setenv("SC_STACK", "1", 1); execv("/proc/self/exe", argv); } }
  vc::Harness h; h.gen = gen; h.run = run_case; return vc::main_loop(argc, argv, h);
}
