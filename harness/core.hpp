// Shared by all harnesses: random numbers, program text, command line, statistics, failure reporting.
#ifndef VERIF_CORE_HPP
#define VERIF_CORE_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <algorithm>
#include <sstream>
#include <fstream>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <time.h>

namespace vc {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t x = 1) : s(x) {}
  uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  int below(int n) { return n <= 1 ? 0 : int(next() % uint64_t(n)); }
  int range(int a, int b) { return a + below(b - a + 1); }
  bool chance(int pct) { return below(100) < pct; }
};
inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a * 0x9E3779B97F4A7C15ull + b + 0x1234567); r.next(); return r.next(); }
inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull) { const unsigned char* c = (const unsigned char*)p; for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; } return h; }
inline uint64_t hash_str(const std::string& s) { return hash_bytes(s.data(), s.size()); }

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// One case: header line(s) + one operation per line; every line can be deleted by the shrinker except header lines ("!...").
typedef std::vector<std::string> Lines;
inline std::string join(const Lines& l) { std::string s; for (size_t i = 0; i < l.size(); ++i) { s += l[i]; s += '\n'; } return s; }
inline Lines split(const std::string& t) { Lines l; std::istringstream is(t); std::string s; while (std::getline(is, s)) if (!s.empty() && s[0] != '#') l.push_back(s); return l; }

struct Outcome {
  bool ok = true;
  bool nontrivial = false;
  std::string msg;         // what failed
  uint64_t hash = 0;       // identity of the behaviour, for counting distinct cases
  std::map<std::string, long> counters;
};

struct Harness {
  std::function<Lines(uint64_t seed, const std::string& profile)> gen;
  std::function<Outcome(const Lines&)> run;
};

// Coverage-guided search (-DVC_GUIDED -fsanitize-coverage=inline-8bit-counters): cases that reach something new, in the library or in the model, are kept and mutated.
#ifdef VC_GUIDED
inline std::vector<std::pair<uint8_t*, uint8_t*> >& cov_regions() { static std::vector<std::pair<uint8_t*, uint8_t*> > r; return r; }
struct Guide {
  std::vector<uint8_t> seen; std::vector<Lines> corpus; long features = 0;
  static int bucket(uint8_t c) { return c < 4 ? c : c < 8 ? 4 : c < 16 ? 5 : c < 32 ? 6 : c < 128 ? 7 : 8; }
  void clear() { for (auto& r : cov_regions()) memset(r.first, 0, size_t(r.second - r.first)); }
  bool collect() { // true: the last run reached something new
    size_t n = 0, at = 0; for (auto& r : cov_regions()) n += size_t(r.second - r.first); if (seen.size() < n) seen.resize(n); long f = features;
    for (auto& r : cov_regions()) for (uint8_t* p = r.first; p != r.second; ++at) { if ((uintptr_t(p) & 7) == 0 && p + 8 <= r.second && *(uint64_t*)p == 0) { p += 8; at += 7; continue; } if (*p) { uint8_t b = uint8_t(1u << (bucket(*p) - 1)); if (!(seen[at] & b)) { seen[at] |= b; ++features; } } ++p; }
    return features != f; }
  static bool body(const std::string& s) { return s[0] != '!'; }
  static void number(std::string& s, Rng& r, const std::string& other) { // replaces one number of a line
    std::vector<std::pair<size_t, size_t> > w; auto scan = [](const std::string& t, std::vector<std::pair<size_t, size_t> >& o) { for (size_t i = 0; i < t.size();) { if (t[i] == ' ') { ++i; continue; } size_t j = i; while (j < t.size() && t[j] != ' ') ++j; bool num = true; for (size_t k = i + (t[i] == '-' && j > i + 1); k < j; ++k) num = num && t[k] >= '0' && t[k] <= '9'; if (num && j - i < 10) o.push_back({i, j - i}); i = j; } };
    scan(s, w); if (w.empty()) return; auto p = w[r.below(int(w.size()))]; long v = atol(s.substr(p.first, p.second).c_str());
    switch (r.below(6)) { case 0: v = r.below(8); break; case 1: v += 1; break; case 2: v = v > 0 ? v - 1 : 0; break; case 3: v = r.below(64); break; case 4: v = r.below(3); break; default: { std::vector<std::pair<size_t, size_t> > o; scan(other, o); if (!o.empty()) { auto q = o[r.below(int(o.size()))]; v = atol(other.substr(q.first, q.second).c_str()); } } }
    s.replace(p.first, p.second, std::to_string(v)); }
  Lines mutate(Rng& r, const Lines& fresh, size_t cap) {
    int k = int(corpus.size()); Lines l = corpus[r.chance(40) && k > 64 ? k - 1 - r.below(64) : r.below(k)]; const Lines& o = r.chance(50) ? fresh : corpus[r.below(k)];
    auto head = [](const Lines& x) { size_t h = 0; while (h < x.size() && !body(x[h])) ++h; return h; };
    for (int n = 1 + r.below(r.chance(50) ? 2 : 6); n-- > 0;) { size_t h = head(l), m = l.size() - h, ho = head(o), mo = o.size() - ho; if (!m) return fresh;
      size_t i = h + size_t(r.below(int(m))), len = std::min<size_t>(1 + size_t(r.below(r.chance(70) ? 3 : 12)), l.size() - i);
      switch (r.below(8)) {
      case 0: l.erase(l.begin() + i, l.begin() + i + len); break;
      case 1: { Lines b(l.begin() + i, l.begin() + i + len); l.insert(l.begin() + h + r.below(int(m) + 1), b.begin(), b.end()); break; }
      case 2: std::swap(l[i], l[h + r.below(int(m))]); break;
      case 3: if (mo) { size_t j = ho + size_t(r.below(int(mo))), q = std::min<size_t>(1 + size_t(r.below(8)), o.size() - j); l.insert(l.begin() + i, o.begin() + j, o.begin() + j + q); } break;
      case 4: if (mo) { size_t j = ho + size_t(r.below(int(mo))); l.erase(l.begin() + i, l.end()); l.insert(l.end(), o.begin() + j, o.end()); } break;
      case 5: if (h && l[0].compare(0, 4, "!cfg") && r.chance(15)) { number(l[r.below(int(h))], r, l[i]); break; } // fall through
      default: number(l[i], r, l[h + r.below(int(m))]); } }
    if (l.size() > cap) l.resize(cap); return l; }
};
} extern "C" __attribute__((used, no_sanitize("coverage"))) void __sanitizer_cov_8bit_counters_init(uint8_t* a, uint8_t* b) { vc::cov_regions().push_back({a, b}); } namespace vc {
#endif

// current case, for crash reports: written to an mmapped file so that it survives abort()
struct Progress { volatile uint64_t index; volatile uint64_t seed; volatile uint64_t done; };
extern Progress* g_progress;

inline int main_loop(int argc, char** argv, Harness& h) {
  uint64_t seed = 1; uint64_t from = 0, count = ~0ull, stride = 1; double time_s = 10; std::string profile = "default", replay, progress, stats_file; bool dump = false, guided = false; int samples = 2;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i]; auto v = [&]() { return std::string(argv[++i]); };
    if (a == "--seed") seed = strtoull(v().c_str(), 0, 10);
    else if (a == "--from") from = strtoull(v().c_str(), 0, 10);
    else if (a == "--stride") stride = strtoull(v().c_str(), 0, 10);
    else if (a == "--count") count = strtoull(v().c_str(), 0, 10);
    else if (a == "--time") time_s = atof(v().c_str());
    else if (a == "--profile") profile = v();
    else if (a == "--replay") replay = v();
    else if (a == "--progress") progress = v();
    else if (a == "--stats") stats_file = v();
    else if (a == "--dump") dump = true;
    else if (a == "--guided") guided = true;
  }
  static Progress local; g_progress = &local;
  if (!progress.empty()) {
    int fd = open(progress.c_str(), O_RDWR | O_CREAT, 0644);
    if (fd >= 0 && ftruncate(fd, sizeof(Progress)) == 0) { void* p = mmap(0, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (p != MAP_FAILED) g_progress = (Progress*)p; }
  }
  if (!replay.empty()) {
    std::ifstream f(replay); std::stringstream ss; ss << f.rdbuf();
    Outcome o = h.run(split(ss.str()));
    if (!o.ok) { printf("FAIL %s\n", o.msg.c_str()); fflush(stdout); _exit(3); }
    printf("PASS nontrivial=%d hash=%llx\n", int(o.nontrivial), (unsigned long long)o.hash); 
    for (auto& c : o.counters) printf("  %s=%ld\n", c.first.c_str(), c.second);
    fflush(stdout); _exit(0);
  }
  if (dump) { fputs(join(h.gen(mix(seed, from), profile)).c_str(), stdout); return 0; }
  double t0 = now(); uint64_t n = 0, nt = 0; std::set<uint64_t> distinct; std::map<std::string, long> tot; std::vector<std::string> samp;
#ifdef VC_GUIDED
  Guide guide; size_t longest = 0; enum { CASEMAX = 1 << 20 }; char* casebuf = 0;
  if (guided && !progress.empty()) { int fd = open((progress + ".case").c_str(), O_RDWR | O_CREAT, 0644); if (fd >= 0 && ftruncate(fd, CASEMAX) == 0) { void* p = mmap(0, CASEMAX, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (p != MAP_FAILED) casebuf = (char*)p; } }
#else
  if (guided) { printf("not built for guided search\n"); return 2; }
#endif
  int rc = 0; std::string failmsg; Lines failcase; uint64_t failidx = 0;
  for (uint64_t i = from; n < count; i += stride) {
    if ((n & 7) == 0 && now() - t0 > time_s) break;
    uint64_t cs = mix(seed, i);
    g_progress->index = i; g_progress->seed = cs;
    Lines l = h.gen(cs, profile);
#ifdef VC_GUIDED
    if (guided) { longest = std::max(longest, l.size()); Rng mr(mix(cs, 77)); if (!guide.corpus.empty() && !mr.chance(25)) l = guide.mutate(mr, l, longest + longest / 4); std::string t = join(l); if (casebuf && t.size() < CASEMAX) memcpy(casebuf, t.c_str(), t.size() + 1); guide.clear(); }
#endif
    Outcome o = h.run(l);
#ifdef VC_GUIDED
    if (guided && guide.collect()) guide.corpus.push_back(l);
#endif
    ++n; g_progress->done = n;
    for (auto& c : o.counters) tot[c.first] += c.second;
    if (!o.ok) { rc = 3; failmsg = o.msg; failcase = l; failidx = i; break; }
    if (o.nontrivial && distinct.size() < 2000000 && distinct.insert(o.hash).second) { ++nt; if ((int)samp.size() < samples || (nt == 200 && samp.size() == (size_t)samples)) samp.push_back(join(l)); }
  }
#ifdef VC_GUIDED
  if (guided) { tot["guided_corpus"] += long(guide.corpus.size()); tot["guided_features"] += guide.features; }
#endif
  std::string out = "{\"evaluations\":" + std::to_string(n) + ",\"nontrivial\":" + std::to_string(nt) + ",\"counters\":{";
  bool first = true; for (auto& c : tot) { out += (first ? "\"" : ",\"") + c.first + "\":" + std::to_string(c.second); first = false; }
  out += "},\"samples\":[";
  auto esc = [](const std::string& s) { std::string r = "\""; for (char ch : s) { if (ch == '\n') r += "\\n"; else if (ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if ((unsigned char)ch < 32) r += ' '; else r += ch; } return r + "\""; };
  for (size_t i = 0; i < samp.size(); ++i) out += (i ? "," : "") + esc(samp[i]);
  out += "],\"hashes\":[";
  { size_t k = 0; for (auto x : distinct) { if (k >= 400000) break; out += (k ? "," : "") + std::to_string(x >> 12); ++k; } }
  out += "]";
  if (rc) out += ",\"fail_index\":" + std::to_string(failidx) + ",\"fail_msg\":" + esc(failmsg) + ",\"fail_case\":" + esc(join(failcase));
  out += "}";
  if (!stats_file.empty()) { std::ofstream f(stats_file); f << out; } else { printf("%s\n", out.substr(0, 3000).c_str()); }
  fflush(stdout);
  _exit(rc);
}

} // namespace vc
#endif
