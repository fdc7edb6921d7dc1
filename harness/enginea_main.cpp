// Engine A driver: -DEA_CFG=n selects the signal type.
#include "enginea_real.hpp"
#include "enginea_model.hpp"
#include <new>
#ifndef EA_CFG
#define EA_CFG 0
#endif
vc::Progress* vc::g_progress;
namespace ea { Host* g_host; Faults g_faults; Census g_fn, g_ob; long g_live_blocks; long CheckedMutex::live, CheckedMutex::nheld, CheckedMutex::locks; const char* CheckedMutex::error; }
void* operator new(std::size_t n) { if (ea::g_faults.tick(1)) throw std::bad_alloc(); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); ++ea::g_live_blocks; return p; }
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (p) { --ea::g_live_blocks; free(p); } }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
void operator delete[](void* p, std::size_t) noexcept { operator delete(p); }

using namespace ea; using vc::Rng; using vc::Outcome;
typedef Cfg<EA_CFG> CF;

struct OpInfo { int code; const char* args; double wm, ws; };
static const OpInfo INFO[] = {
  {O_conn, "shfpg", 8, 4}, {O_connx, "shfpg", 2, 1}, {O_conno, "shlpg", 3, 1.5}, {O_connxo, "shxpg", 1, .6}, {O_connref, "shfpg", 1, .4}, {O_connbind, "shfoi", 1, .4}, {O_connsig, "shspg", 1.5, .3}, {O_bulk, "siif", .7, .15},
  {O_disch, "h", 3, 3}, {O_discg, "sg", 1, .8}, {O_discf, "sfp", 1, .8}, {O_discx, "sf", .5, .4}, {O_discs, "ss", .5, .3}, {O_discall, "s", .4, .3}, {O_discreg, "ii", 1, .8},
  {O_hcopy, "hhp", 1, .3}, {O_hmove, "hhp", .7, .3}, {O_hswap, "hhp", .7, .3}, {O_hclr, "h", .3, .1}, {O_heq, "hh", 1, .3}, {O_hst, "h", 1.5, 1}, {O_hfromb, "hb", .3, .1},
  {O_scnew, "khi", 1, .4}, {O_scasg, "khi", .6, .3}, {O_scmv, "kkp", .5, .2}, {O_scmc, "kk", .5, .2}, {O_scmvh, "khi", .4, .2}, {O_scsw, "kkp", .4, .2}, {O_screl, "khi", .4, .2}, {O_scdel, "k", .7, .4}, {O_scst, "k", .3, .2},
  {O_bnew, "bhi", 1.5, .8}, {O_bcp, "bb", .7, .3}, {O_basg, "bb", .5, .2}, {O_blk, "b", .7, .5}, {O_unb, "b", 1, .6}, {O_bdel, "b", .8, .4}, {O_bst, "b", .6, .3},
  {O_emit, "sii", 8, 2.5}, {O_sdel, "s", .4, .3}, {O_snew, "si", 1, .3}, {O_smv, "ss", .4, .2}, {O_smc, "ss", .4, .2}, {O_ssw, "ssi", .4, .3}, {O_snull, "s", .3, .1}, {O_snum, "s", 1, .7}, {O_sempty, "s", .7, .4}, {O_scomb, "si", .6, .4}, {O_gcomb, "s", .4, .2}, {O_seq, "ss", .2, .05},
  {O_onew, "oi", 2, .6}, {O_odrop, "o", 1.5, 1.2}, {O_odup, "oop", .5, .2},
  {O_slnew, "lf", 1.5, .4}, {O_xlnew, "xf", .6, .2}, {O_sltrk, "lop", 2, .6}, {O_slbulk, "lip", .3, .1}, {O_slsig, "ls", .4, .2}, {O_sltsl, "ll", .3, .1}, {O_slcp, "ll", .4, .2}, {O_slasg, "ll", .3, .1}, {O_slcall, "lip", .5, .3}, {O_slst, "l", .3, .1}, {O_sllock, "l", .3, .1}, {O_slfsig, "ls", .2, .1}, {O_slconv, "lfli", .2, .1}, {O_slbind, "lfoi", .3, .1}, {O_xltrk, "xop", .5, .2}, {O_xlsl, "xl", .25, .1},
  {O_thr, "ii", 0, .8}, {O_xdisc, "", 0, .7}, {O_xst, "", 0, .3}, {O_xsave, "h", 0, .4}, {O_xblk, "b", 0, .4}, {O_obs, "i", .8, .4}, {O_chk, "", .6, 0}, {O_fault, "ii", 0, 0},
};
struct Mult { const char* ops; double m; };
struct Profile { const char* name; std::vector<Mult> mult; int nmain0, nmain1; int nscr0, nscr1; const char* nontriv; };
// Short scenarios mixed into the random programs; capital letters are variables drawn per use, "F:" puts the operation into the script of function F.
struct Motif { const char* profs; const char* text; };
static const Motif MOTIFS[] = {
  {"track slots life conns", "onew O J;slnew L F;sltrk L O P;conno S H L P G;emit S I 0;odrop O;emit S I 0"},
  {"track slots", "onew O J;onew O2 J2;slnew L F;sltrk L O P;sltrk L O2 P2;conno S H L P G;emit S I 0;odrop O2;snum S;emit S I 0"},
  {"track reentry mutex", "onew O J;slnew L F;sltrk L O P;F:odrop O;conno S H L P G;emit S I 0;emit S I 0"},
  {"track reentry mutex", "onew O J;slnew L F;sltrk L O P;F2:odrop O;conn S H2 F2 P2 G2;conno S H L P G;emit S I 0;emit S I 0"},
  {"track", "slbulk L I 1;conno S H L P G;F:odrop O;F:odrop O2;emit S I 0;odrop O;emit S I 0"},
  {"track slots", "onew O J;xlnew X F;xltrk X O P;xltrk X O2 P2;connxo S H X P G;emit S I 0;odrop O;emit S I 0"},
  {"track ext", "onew O J;slnew L F2;sltrk L O P;xlnew X F;xlsl X L;connxo S H X P G;emit S I 0;odrop O;emit S I 0"},
  {"track match", "onew O 2;connbind S H F O I;emit S I 0;odrop O;hst H;emit S I 0"},
  {"track", "onew O 2;odup O2 O P;connbind S H F O2 I;odrop O;emit S I 0;odrop O2;emit S I 0"},
  {"track", "onew O 2;slbind L F O I;onew O2 J2;sltrk L O2 P;conno S H L P G;emit S I 0;odrop O;emit S I 0"},
  {"track sigobj match", "connsig S H S2 P G;conn S2 H2 F P2 G2;emit S I 0;sdel S2;emit S I 0;snew S2 I2"},
  {"track", "slnew L F;slsig L S2;conno S H L P G;emit S I 0;sdel S2;emit S I 0;snew S2 I2"},
  {"track slots", "onew O J;slnew L F;sltrk L O P;slnew L2 F2;sltsl L2 L;slcp L3 L2;conno S H L3 P G;emit S I 0;odrop O;emit S I 0;slst L2;slst L3"},
  {"slots", "onew O J;slnew L F;sltrk L O P;slcall L I P;odrop O;slcall L I P;slst L;sllock L"},
  {"slots", "onew O J;slnew L F;sltrk L O P;slconv L2 F2 L I;slcall L2 I P;conno S H L2 P G;emit S I 0;odrop O;slcall L2 I P;slst L2;emit S I 0"},
  {"slots", "onew O J;slnew L F;sltrk L O P;F:odrop O;slcall L I P;slst L"},
  {"slots", "slnew L F;conno S H L P G;conno S H2 L P2 G2;onew O J;sltrk L O P;odrop O;emit S I 0;slasg L2 L;slst L2"},
  {"block reentry", "conn S H F P G;bnew B H 1;emit S I 0;unb B;emit S I 0"},
  {"block", "conn S H F P G;bnew B H I;bcp B2 B;hst H;emit S I 0;bdel B;emit S I 0;unb B2;hst H;emit S I 0"},
  {"block", "conn S H F P G;bnew B H 1;hclr H;hfromb H2 B;disch H2;bst B;hst H2;unb B;bst B"},
  {"block reentry", "conn S H F P G;F2:blk B;conn S H2 F2 P2 G2;bnew B H 0;emit S I 0;hst H;unb B;emit S I 0"},
  {"block match", "conn S H F P G;bnew B H 1;snum S;discf S F P;snum S;bst B"},
  {"scoped", "conn S H F P G;scnew C H P;emit S I 0;scdel C;hst H;emit S I 0"},
  {"scoped", "conn S H F P G;scnew C H P;conn S H2 F2 P G;scnew C2 H2 P;scmv C C2;hst H;hst H2;emit S I 0;scdel C;emit S I 0"},
  {"scoped", "conn S H F P G;scnew C H P;screl C H2;scdel C;hst H2;emit S I 0"},
  {"order match", "conn S H F P G;conn S H2 F2 P2 G;disch H;conn S H F3 P3 G;emit S I 0"},
  {"order match", "conn S H F 0 G;conn S H2 F2 0 G2;conn S H3 F3 1 G;discg S G;conn S H F 1 G;emit S I 0"},
  {"order reentry", "conn S H F P G;conn S H2 F2 P2 G;F:conn S H3 F2 P3 G;F:disch H2;emit S I 0;conn S H4 F3 P2 G;emit S I 0"},
  {"match", "conn S H F P G;connx S H2 F P2 G2;discx S F;hst H2;discf S F P;hst H"},
  {"match sigobj", "connsig S H S2 P G;discs S S2;hst H;emit S I 0"},
  {"ext", "connx S H F P G;F:xdisc 0;emit S I 0;hst H;emit S I 0"},
  {"ext", "xlnew X F;connxo S H X P G;connxo S H2 X P2 G2;connxo S2 H3 X P G;F:xst 0;emit S I 0;disch H;emit S I 0;emit S2 I 0"},
  {"ext block", "connx S H F P G;F:xblk B;emit S I 0;emit S I 0;unb B;emit S I 0"},
  {"ext reentry", "connx S H F P G;F:emit S I2 0;F:xst 0;conn S H2 F2 P G;emit S I 0"},
  {"except reentry", "conn S H F P G;conn S H2 F2 P2 G2;F:thr I 0;emit S I 0;snum S;emit S I 0"},
  {"except", "onew O J;slnew L F;sltrk L O P;conno S H L P G;F:odrop O;F:thr I 0;emit S I 0;hst H;emit S I 0"},
  {"except life", "conn S H F P G;F:disch H;F:thr I 0;emit S I 0;hst H;chk 0"},
  {"life", "conn S H F P G;disch H;chk 0"},
  {"life combiner", "scomb S N;conn S H F P G;conn S H2 F2 P2 G2;conn S H3 F3 P3 G3;emit S I 0;disch H2;disch H3;chk 0;disch H;chk 0"},
  {"life reentry", "conn S H F P G;F:disch H;emit S I 0;chk 0"},
  {"sigobj reentry", "conn S H F P G;F:smv S2 S;conn S H2 F2 P2 G2;emit S I 0;hst H;emit S2 I 0;snew S I"},
  {"sigobj", "conn S H F P G;ssw S S2 I;disch H;snum S;snum S2;emit S2 I 0"},
  {"sigobj", "conn S H F P G;smv S2 S;snull S;discall S;snum S;hst H;emit S2 I 0;smv S S2;emit S I 0"},
  {"combiner", "scomb S N;bulk S I 0 F;F:scomb S N2;emit S I 0;emit S I 1;gcomb S"},
};
static const std::vector<Profile>& profiles() {
  static const std::vector<Profile> P = {
    {"mixed", {}, 8, 45, 0, 6, "slot_calls>3"},
    {"order", {{"conn connx conno connxo", 1.5}, {"bulk", 4}, {"disch discreg", 2.5}, {"sdel smv smc ssw bnew thr odrop", .2}, {"emit", 2}}, 10, 50, 0, 3, "group_connects>2 slot_calls>4"},
    {"conns", {{"disch hcopy hmove hswap hclr heq hst snum sempty obs", 2.5}, {"hfromb", 2}, {"onew odrop sltrk conno", 1.3}}, 10, 50, 0, 4, "handle_queries>1 connects>2"},
    {"match", {{"discg discf discx discs", 6}, {"discall", 3}, {"connsig connx connref conno connxo slconv slfsig", 2}, {"obs", 1.5}}, 10, 45, 0, 4, "connects>3 slot_calls>1"},
    {"reentry", {{"emit", 1.5}, {"sdel smv ssw scomb", 2}, {"snew", 1.5}}, 8, 30, 1, 7, "mid_any>1 slot_calls>4"},
    {"block", {{"bnew bcp basg blk unb bdel bst", 3}, {"hfromb xblk", 2}, {"sdel smv smc ssw thr", .5}}, 10, 45, 0, 4, "blocked_skips>0"},
    {"scoped", {{"scnew scasg scmv scmc scmvh scsw screl scdel scst", 4}, {"hcopy hmove", 1.5}, {"sdel smv smc thr", .4}}, 10, 45, 0, 3, "scoped>1 connects>1"},
    {"track", {{"onew odrop sltrk conno xltrk connxo", 3}, {"slbulk sltsl slsig odup slcp xlsl", 3}, {"connbind slbind connsig slfsig", 2.5}, {"slnew xlnew", 1.7}}, 12, 50, 0, 4, "tracked_calls>1 expiries_found>0"},
    {"combiner", {{"scomb gcomb", 6}, {"emit", 1.5}, {"bulk", 2}, {"thr", 1.5}}, 8, 35, 0, 4, "set_combiner>0 slot_calls>3"},
    {"except", {{"thr", 6}, {"emit", 1.5}, {"disch bnew sdel", 1.3}}, 8, 35, 1, 6, "exc_emits>0 slot_calls>3"},
    {"life", {{"chk", 8}, {"disch discreg discg discf scdel", 2}, {"sdel smv", 1.5}, {"onew odrop", 1.3}}, 10, 45, 0, 5, "lifetime_checks>1 connects>3"},
    {"mutex", {{"conno odrop onew sltrk slbulk", 2}, {"connx connxo", 2}, {"thr", 1.5}, {"bulk", 2}, {"discall discg discf discs discx", 2}}, 8, 40, 1, 6, "mid_any>0 slot_calls>3"},
    {"sigobj", {{"smv smc ssw snull seq sdel snew", 6}, {"gcomb scomb", 2}, {"obs", 1.5}}, 10, 45, 0, 5, "sig_moves>1 slot_calls>1"},
    {"ext", {{"connx connxo xlnew", 6}, {"xdisc xst xsave xblk", 4}, {"heq", 1.5}, {"conn conno connref", .5}}, 8, 40, 1, 6, "ext_connects>1 slot_calls>3"},
    {"slots", {{"slnew slcp slasg slcall slst sllock slfsig slconv slbind sltrk slsig sltsl slbulk xltrk xlsl", 4}, {"onew odrop odup", 2}, {"conno", 1.5}}, 14, 55, 0, 3, "slot_direct_calls>1"},
    {"faults", {{"fault", 1}, {"thr", .3}, {"connx conno connxo", 1.5}, {"bulk", 2}, {"onew odrop sltrk slbulk", 1.3}, {"scomb", 2}, {"emit", 1.3}}, 10, 45, 0, 5, "faults_hit>0"},
  };
  return P;
}
static bool in_list(const char* l, const char* n) { std::string s = std::string(" ") + l + " "; return s.find(std::string(" ") + n + " ") != std::string::npos; }

static vc::Lines generate(uint64_t seed, const std::string& prof) {
  const Profile* pf = &profiles()[0]; for (auto& p : profiles()) if (prof == p.name) pf = &p;
  Rng r(seed); bool faults = prof == "faults"; vc::Lines out; char hb[32]; snprintf(hb, sizeof hb, "!cfg %d %d", EA_CFG, int(faults)); out.push_back(hb);
  const int n = sizeof INFO / sizeof INFO[0]; double wm[128], ws[128]; bool sw = r.chance(80); int dropp = r.range(10, 55);
  for (int i = 0; i < n; ++i) { double m = 1; for (auto& x : pf->mult) if (in_list(x.ops, op_names[INFO[i].code])) m *= x.m; int c = INFO[i].code; bool keep = c == O_emit || (c == O_conn) || m > 2; int dp = keep ? (c == O_emit || m > 2 ? 8 : 20) : dropp; if (sw && r.chance(dp)) m = 0; wm[i] = INFO[i].wm * m; ws[i] = INFO[i].ws * m; }
  int ls = r.chance(45) ? 1 : r.range(1, 3), lh = r.chance(40) ? 3 : 10, lf = r.range(1, 6), lg = r.range(1, NG + 1), lk = r.range(1, 4), lb = r.range(1, 5), lo = r.chance(50) ? 3 : 16, ll = r.range(1, NSL), lx = r.range(1, NXS);
  auto gen_op = [&](int sc, const double* w) {
    double tot = 0; for (int i = 0; i < n; ++i) tot += w[i]; if (tot <= 0) return; double x = tot * (r.below(1000000) / 1e6); int i = 0; for (; i < n - 1; ++i) { if (x < w[i]) break; x -= w[i]; }
    Op o; memset(&o, 0, sizeof o); o.code = INFO[i].code; const char* a = INFO[i].args;
    for (int k = 0; a[k] && k < 5; ++k) switch (a[k]) { case 's': o.a[k] = r.below(ls); break; case 'h': o.a[k] = r.below(lh); break; case 'f': o.a[k] = r.below(lf); break; case 'p': o.a[k] = r.below(2); break; case 'g': o.a[k] = r.below(lg); break; case 'k': o.a[k] = r.below(lk); break; case 'b': o.a[k] = r.below(lb); break; case 'o': o.a[k] = r.below(lo); break; case 'l': o.a[k] = r.below(ll); break; case 'x': o.a[k] = r.below(lx); break; default: o.a[k] = r.below(64); }
    if (o.code == O_scomb || o.code == O_snew) o.a[1] = r.below(r.chance(55) ? 48 : NCOMB);
    if (o.code == O_conn || o.code == O_connx || o.code == O_conno || o.code == O_connxo || o.code == O_connref || o.code == O_connsig) o.a[4] = r.chance(45) ? 0 : r.below(lg + 1);
    if (faults && (sc == 0 || r.chance(60))) { static const int el[] = { O_conn, O_connx, O_conno, O_connxo, O_connref, O_connsig, O_emit, O_disch, O_discg, O_discf, O_discall, O_scomb, O_blk, O_bnew, O_snum }; bool e = false; for (int q : el) e |= q == o.code; if (e && r.chance(35)) { Op f; memset(&f, 0, sizeof f); f.code = O_fault; f.a[0] = r.chance(60) ? 0 : r.below(3); f.a[1] = r.chance(80) ? r.below(14) : r.below(24); out.push_back(show(sc, f)); } }
    out.push_back(show(sc, o));
  };
  // scripts first in the text, so that the main part reads last
  int active = r.range(0, lf); for (int s = 1; s <= lf; ++s) if (s <= active || r.chance(30)) { int k = r.range(pf->nscr0, pf->nscr1); for (int i = 0; i < k; ++i) gen_op(s, ws); }
  if (r.chance(70)) { // a useful population
    auto put = [&](int code, int a, int b, int c, int d, int e) { Op o; o.code = code; o.a[0] = a; o.a[1] = b; o.a[2] = c; o.a[3] = d; o.a[4] = e; out.push_back(show(0, o)); };
    bool tr = false; for (int i = 0; i < n; ++i) if (INFO[i].code == O_sltrk && wm[i] > 0) tr = true;
    if (tr) { int no = r.range(1, std::min(lo, 5)); for (int i = 0; i < no; ++i) put(O_onew, i, r.below(3), 0, 0, 0); for (int i = 0; i < ll; ++i) { put(O_slnew, i, r.below(lf), 0, 0, 0); if (r.chance(60)) put(O_sltrk, i, r.below(no), r.below(2), 0, 0); } if (r.chance(20)) put(O_slbulk, r.below(ll), r.below(64), 1, 0, 0); }
    bool xl = false; for (int i = 0; i < n; ++i) if (INFO[i].code == O_xlnew && wm[i] > 0) xl = true; if (xl) for (int i = 0; i < lx; ++i) put(O_xlnew, i, r.below(lf), 0, 0, 0);
    if (EA_CFG == 0 && r.chance(50)) put(O_scomb, r.below(ls), r.below(r.chance(55) ? 48 : NCOMB), 0, 0, 0);
  }
  auto motif = [&]() {
    std::vector<const char*> fit; bool any = r.chance(15); for (auto& m : MOTIFS) if (!faults && (any || in_list(m.profs, pf->name))) fit.push_back(m.text); if (fit.empty()) return;
    std::map<std::string, int> var; std::istringstream is(fit[r.below((int)fit.size())]); std::string one;
    static std::map<std::string, int> names; if (names.empty()) for (int i = 0; i < N_OPS; ++i) names[op_names[i]] = i;
    auto val = [&](const std::string& v) -> int { if (isdigit(v[0])) return atoi(v.c_str()); auto f = var.find(v); if (f != var.end()) return f->second; int x = 0;
      switch (v[0]) { case 'S': x = r.below(ls); break; case 'H': x = r.below(std::max(lh, 5)); break; case 'F': x = r.below(lf); break; case 'P': x = r.below(2); break; case 'G': x = r.chance(40) ? 0 : r.below(lg + 1); break; case 'O': x = r.below(lo); break; case 'L': x = r.below(NSL); break; case 'X': x = r.below(lx); break; case 'B': x = r.below(lb); break; case 'C': x = r.below(lk); break; case 'J': x = r.below(2); break; case 'N': x = r.below(NCOMB); break; default: x = r.below(64); }
      return var[v] = x; };
    while (std::getline(is, one, ';')) {
      int sc = 0; size_t c = one.find(':'); if (c != std::string::npos) { sc = 1 + val(one.substr(0, c)) % NFN; one = one.substr(c + 1); }
      std::istringstream w(one); std::string nm, t; w >> nm; Op o; memset(&o, 0, sizeof o); o.code = names.at(nm); int k = 0; while (w >> t && k < 5) o.a[k++] = val(t);
      out.push_back(show(sc, o)); if (sc == 0 && r.chance(12)) gen_op(0, wm);
    }
  };
  int k = r.range(pf->nmain0, pf->nmain1), mp = prof == "mixed" ? 4 : r.chance(30) ? 0 : r.range(2, 12); for (int i = 0; i < k; ++i) if (r.chance(mp)) { motif(); i += 4; } else gen_op(0, wm);
  return out;
}

static bool nontrivial(const std::map<std::string, long>& c, const char* rule) {
  std::istringstream is(rule); std::string t; auto get = [&](const std::string& k) -> long { if (k == "mid_any") { long s = 0; for (auto& x : c) if (x.first.compare(0, 4, "mid_") == 0 || x.first == "nested_emits") s += x.second; return s; } auto i = c.find(k); return i == c.end() ? 0 : i->second; };
  while (is >> t) { size_t p = t.find('>'); if (get(t.substr(0, p)) <= atol(t.c_str() + p + 1)) return false; } return true;
}
static const char* g_rule = "";
static std::string g_profile;

static Outcome run_case(const vc::Lines& l) {
  Prog p = parse(l); std::vector<char> outcomes; Outcome o;
  memset(&g_fn, 0, sizeof g_fn); memset(&g_ob, 0, sizeof g_ob);
  std::vector<Ev> tr, tm; bool unspec; size_t lim; std::map<std::string, long> cnt;
  { auto* i = new Interp<Real<CF> >(p, &outcomes); g_host = i; i->run(); i->finish(); tr.swap(i->trace); delete i; }
  { auto* i = new Interp<Model<CF> >(p, &outcomes); g_host = i; i->run(); i->finish(); tm.swap(i->trace); unspec = i->unspec; lim = i->unspec_at; cnt.swap(i->cnt); delete i; }
  g_host = 0;
  size_t n = unspec ? std::min(lim, tm.size()) : tm.size(); auto eq = [](int a, int b) { return a == ANY || b == ANY || a == b; };
  uint64_t hsh = 1469598103934665603ull;
  for (size_t i = 0; i < n; ++i) {
    if (i >= tr.size() || tr[i].t != tm[i].t || !eq(tm[i].a, tr[i].a) || !eq(tm[i].b, tr[i].b) || !eq(tm[i].c, tr[i].c)) {
      o.ok = false; std::string ctx; for (size_t k = i > 6 ? i - 6 : 0; k < i; ++k) ctx += show(tm[k]) + " ";
      o.msg = "event " + std::to_string(i) + ": model " + show(tm[i]) + " library " + (i < tr.size() ? show(tr[i]) : std::string("<end>")) + " after " + ctx; break; }
    hsh = vc::hash_bytes(&tm[i], sizeof(Ev), hsh);
  }
  if (o.ok && !unspec && tr.size() != tm.size()) { o.ok = false; o.msg = "library produced extra events: " + show(tr[n]); }
  cnt["unspecified_prefix"] = unspec; cnt["events"] = (long)n; o.counters = cnt; o.hash = hsh; o.nontrivial = nontrivial(cnt, g_rule);
  return o;
}
int main(int argc, char** argv) {
  for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], "--profile")) g_profile = argv[i + 1];
  g_rule = profiles()[0].nontriv; for (auto& p : profiles()) if (g_profile == p.name) g_rule = p.nontriv;
  vc::Harness h; h.gen = generate; h.run = run_case; return vc::main_loop(argc, argv, h);
}
