// C12, memory growth: a generated round of connects, disconnects, invocations, blocks, moves ... is repeated many times; the memory a signal keeps must not grow with the number of rounds.
#include "core.hpp"
#include <boost/signals2.hpp>
#include <boost/signals2/shared_connection_block.hpp>
#include <boost/make_shared.hpp>
#include <new>
vc::Progress* vc::g_progress;
static long g_blocks, g_bytes, g_fns;
struct Hdr { size_t n; size_t pad; };
void* operator new(std::size_t n) { Hdr* h = (Hdr*)malloc(n + sizeof(Hdr)); if (!h) throw std::bad_alloc(); h->n = n; ++g_blocks; g_bytes += (long)n; return h + 1; }
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (p) { Hdr* h = (Hdr*)p - 1; --g_blocks; g_bytes -= (long)h->n; free(h); } }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
void operator delete[](void* p, std::size_t) noexcept { operator delete(p); }
namespace bs = boost::signals2; using vc::Rng; using vc::Outcome;

struct World;
static World* W;
struct Fn { World* w; int script, id; boost::shared_ptr<int> big; Fn(World* x, int s, int i) : w(x), script(s), id(i), big(boost::make_shared<int>(i)) { ++g_fns; } Fn(const Fn& o) : w(o.w), script(o.script), id(o.id), big(o.big) { ++g_fns; } ~Fn() { --g_fns; } int operator()(int) const; bool operator==(const Fn& o) const { return id == o.id; } };
struct Sum { typedef int result_type; template<class It> int operator()(It f, It l) const { int n = 0; for (; f != l; ++f) n += *f; return n; } };
#if CH_CFG == 0
typedef bs::signal<int(int), Sum> Sig;
#else
typedef bs::signal<int(int), Sum, int, std::less<int>, boost::function<int(int)>, boost::function<int(const bs::connection&, int)>, bs::dummy_mutex> Sig;
#endif
struct Op { int list; std::string name; int a[3]; };
struct World {
  boost::shared_ptr<Sig> sg[2]; std::vector<bs::connection> standing, churn; std::vector<Op> body[3]; int depth = 0; std::unique_ptr<bs::shared_connection_block> blk; boost::shared_ptr<int> tracked; long calls = 0; int cur = 0; std::vector<bs::connection> kept; long budget = 0;
  World() { sg[0].reset(new Sig); sg[1].reset(new Sig); tracked = boost::make_shared<int>(1); churn.reserve(4096); kept.resize(4); }
  Sig& s() { return *sg[cur]; }
  bs::connection con(int p, int g, int script, int id, bool trk) {
    Sig::slot_type sl((Fn(this, script, id))); if (trk) sl.track(tracked); bs::connect_position pos = p ? bs::at_front : bs::at_back;
    return g ? s().connect(g, sl, pos) : s().connect(sl, pos); }
  void run(int l) { for (size_t i = 0; i < body[l].size() && budget > 0; ++i) { --budget; step(body[l][i]); } }
  void step(const Op& o) {
    const std::string& n = o.name;
    if (n == "stand") standing.push_back(con(o.a[0] % 2, o.a[1] % 6, o.a[2] % 3, 1000, false));
    else if (n == "conn") { if (churn.size() < 4000) churn.push_back(con(o.a[0] % 2, o.a[1] % 6, 0, o.a[2], false)); }
    else if (n == "connt") { if (churn.size() < 4000) churn.push_back(con(o.a[0] % 2, o.a[1] % 6, 0, o.a[2], true)); }
    else if (n == "connx") { if (churn.size() < 4000) { struct X { Fn f; int operator()(const bs::connection&, int a) const { return f(a); } }; X x = { Fn(this, 0, o.a[2]) }; churn.push_back(o.a[1] % 6 ? s().connect_extended(o.a[1] % 6, x, o.a[0] % 2 ? bs::at_front : bs::at_back) : s().connect_extended(x, o.a[0] % 2 ? bs::at_front : bs::at_back)); } }
    else if (n == "sig") { if (churn.size() < 4000) churn.push_back(s().connect(*sg[1 - cur])); }
    else if (n == "disc") { if (!churn.empty()) { size_t k = o.a[0] % churn.size(); churn[k].disconnect(); churn.erase(churn.begin() + k); } }
    else if (n == "disclast") { if (!churn.empty()) { churn.back().disconnect(); churn.pop_back(); } }
    else if (n == "discf") s().disconnect(Fn(this, 0, o.a[0]));
    else if (n == "discg") s().disconnect(6 + o.a[0] % 3);
    else if (n == "emit") { if (depth < 2) { ++depth; s()(1); --depth; } }
    else if (n == "emit2") { if (depth < 2) { ++depth; (*sg[1 - cur])(1); --depth; } }
    else if (n == "num") s().num_slots();
    else if (n == "empty") s().empty();
    else if (n == "comb") s().set_combiner(Sum());
    else if (n == "block") { if (!standing.empty()) blk.reset(new bs::shared_connection_block(standing[o.a[0] % standing.size()])); }
    else if (n == "blockc") { if (!churn.empty()) blk.reset(new bs::shared_connection_block(churn[o.a[0] % churn.size()])); }
    else if (n == "unblock") { if (blk) blk->unblock(); }
    else if (n == "keep") { if (!churn.empty()) kept[o.a[0] % 4] = churn[o.a[1] % churn.size()]; }
    else if (n == "swap") { if (depth == 0) { sg[0]->swap(*sg[1]); sg[0]->swap(*sg[1]); } }
    else if (n == "move") { if (depth == 0) { boost::shared_ptr<Sig> t(new Sig(std::move(s()))); sg[cur] = t; } }
    else if (n == "expire") tracked = boost::make_shared<int>(2);
    else if (n == "query") { for (auto& c : standing) c.connected(); }
    else if (n == "many") { for (int i = 0; i < 2 + o.a[0] % 12 && churn.size() < 4000; ++i) churn.push_back(con(i * o.a[1] / 3 % 2, i * o.a[2] % 6, 0, i, false)); }
  }
  void end_round() { for (auto& c : churn) c.disconnect(); churn.clear(); }
};
int Fn::operator()(int a) const { ++w->calls; if (script && w->depth < 3 && w->budget > 0) { ++w->depth; w->run(script); --w->depth; } return a + id; }
static const char* const BODY[] = { "conn", "conn", "conn", "connt", "connx", "sig", "disc", "disclast", "disclast", "discf", "emit", "emit", "emit2", "num", "empty", "comb", "block", "blockc", "unblock", "keep", "swap", "move", "expire", "query", "many" };
static vc::Lines generate(uint64_t seed, const std::string&) {
  Rng r(seed); vc::Lines l; auto line = [&](int list, const std::string& n) { l.push_back(std::to_string(list) + " " + n + " " + std::to_string(r.below(12)) + " " + std::to_string(r.chance(40) ? 0 : r.below(6)) + " " + std::to_string(r.below(6))); };
  int ns = r.chance(25) ? 0 : r.chance(60) ? r.range(1, 12) : r.range(13, 40); for (int i = 0; i < ns; ++i) line(3, "stand");
  bool noemit = r.chance(35); if (!noemit) {} int kinds = r.range(1, 8); std::vector<std::string> pick; pick.push_back(r.chance(80) ? "conn" : "many"); for (int i = 0; i < kinds; ++i) { std::string n = BODY[r.below(sizeof BODY / sizeof *BODY)]; if (noemit && n.substr(0, 4) == "emit") continue; pick.push_back(n); }
  for (int list = 0; list < 3; ++list) { if (list && r.chance(45)) continue; if (!list && !noemit && r.chance(75)) pick.push_back("emit"); int k = r.range(1, list ? 4 : 7); int at = !list && !noemit && r.chance(60) ? r.below(k) : -1; for (int i = 0; i < k; ++i) { line(list, pick[r.below((int)pick.size())]); if (i == at) line(list, "emit"); } }
  return l;
}
static Outcome run_case(const vc::Lines& l) {
  Outcome o; long b0 = g_blocks, f0 = g_fns; long worst = 0; uint64_t h = 7; bool emits = false, conns = false;
  const int N1 = 400, N2 = 12000; long m1 = 0, m2 = 0, by1 = 0, by2 = 0;
  { World w; W = &w; std::vector<Op> setup;
    for (auto& s : l) { char nm[32]; Op x; memset(x.a, 0, sizeof x.a); int n = sscanf(s.c_str(), "%d %31s %d %d %d", &x.list, nm, &x.a[0], &x.a[1], &x.a[2]); if (n < 2) continue; x.name = nm; for (int& v : x.a) if (v < 0) v = 0; if (x.list == 3) setup.push_back(x); else if (x.list >= 0 && x.list < 3) w.body[x.list].push_back(x); h = vc::hash_bytes(s.data(), s.size(), h); }
    for (auto& x : setup) w.step(x);
    for (int round = 1; round <= N2; ++round) {
      w.budget = 60; w.run(0); w.end_round();
      if (round % 64 == 1 || round < 20) { long f = g_fns - f0; if (f > (long)w.standing.size()) { o.ok = false; o.msg = "after round " + std::to_string(round) + " " + std::to_string(f) + " slot functions are alive but only " + std::to_string(w.standing.size()) + " slots are connected"; break; } }
      if (round <= N1) { m1 = std::max(m1, g_blocks - b0); by1 = std::max(by1, g_bytes); } if (round > N2 - N1) { m2 = std::max(m2, g_blocks - b0); by2 = std::max(by2, g_bytes); }
    }
    worst = m2 - m1; o.counters["calls"] = w.calls; emits = w.calls > 0;
    if (o.ok && m2 - m1 > 200) { o.ok = false; o.msg = "memory grows with the number of rounds: " + std::to_string(m1) + " blocks within the first " + std::to_string(N1) + " rounds, " + std::to_string(m2) + " after " + std::to_string(N2); }
  }
  if (o.ok && (g_fns != f0 || g_blocks - b0 > 4)) { o.ok = false; o.msg = "left over after everything is gone: slot functions " + std::to_string(g_fns - f0) + ", blocks " + std::to_string(g_blocks - b0); }
  o.counters["worst_growth"] = 0; if (getenv("CH_SHOW")) printf("growth %ld (%ld -> %ld)\n", worst, m1, m2);
  conns = false; for (auto& s : l) if (s[0] != '3' && s.find(" conn") != std::string::npos) conns = true; o.hash = h; o.nontrivial = conns; if (emits) o.counters["with_calls"] = 1; return o;
}
int main(int argc, char** argv) { vc::Harness h; h.gen = generate; h.run = run_case; return vc::main_loop(argc, argv, h); }
