// P16: learning the weights of the log-linear combination with K-best MIRA
// SOURCES: stack_dec/KbMiraLlWu.cc stack_dec/MiraBleu.cc stack_dec/MiraChrF.cc stack_dec/MiraWer.cc stack_dec/bleu.cc stack_dec/chrf.cc nlp_common/AwkInputStream.cc nlp_common/StrProcUtils.cc nlp_common/mem_alloc_utils.cc
#include "mc.h"
#include "KbMiraLlWu.h"
#include "MiraBleu.h"
#include "MiraChrF.h"
#include "MiraWer.h"
#include <algorithm>
#include <cmath>
#include <map>
#include <memory>
using namespace mc;
static bool thorough() { const char* t = getenv("VERIF_TIER"); return t && std::string(t) == "thorough"; }
typedef std::vector<std::string> Str; typedef std::vector<double> Vec;
// the order in which the sentences are visited is up to rand(); here every outcome is explored
static Ctx* ctx; static int rands;
extern "C" int rand(void) { if (!ctx) return 0; int r = rands++ < (thorough() ? 4 : 3) ? ctx->choose(6) : 0; return r; }
extern "C" void srand(unsigned) {}
// a scorer with qualities given by a table, whose background matters, and which notes what it is asked
struct Table : BaseMiraScorer {
  std::map<std::string, double> q; double bg = 0; std::vector<std::string> log; bool note = false;
  double of(const std::string& c, const std::string& r) { auto i = q.find(c + "/" + r); return i == q.end() ? 0 : i->second; }
  void resetBackgroundCorpus() { bg = 0; }
  void updateBackgroundCorpus(const std::vector<unsigned>& s, double d) { bg = d * bg + s.at(0); }
  void sentBackgroundScore(const std::string& c, const std::string& r, double& s, std::vector<unsigned>& st) { s = of(c, r) * (1 + 0.25 * bg); st.assign(1, c.size()); if (note && (log.empty() || log.back() != r)) log.push_back(r); }
  void corpusScore(const Str& c, const Str& r, double& s) { s = 0; for (size_t i = 0; i < c.size(); ++i) s += of(c[i], r[i]); if (note) log.push_back("*"); }
  void sentScore(const std::string& c, const std::string& r, double& s) { s = of(c, r); }
};
struct Example { std::string ref; Str nb; std::vector<Vec> f; };
static double dotp(const Vec& a, const Vec& b) { double r = 0; for (size_t i = 0; i < a.size(); ++i) r += a[i] * b[i]; return r; }
struct Par { double C, gamma; unsigned J, patience, restarts; };
// one step of MIRA on one example: towards the candidate of high score and quality, away from that of high score and low quality
static bool mira(BaseMiraScorer& s, const Example& e, const Par& p, Vec& w) {
  size_t hope = 0, fear = 0; double hb = -HUGE_VAL, fb = -HUGE_VAL; Vec q(e.nb.size()); std::vector<std::vector<unsigned>> st(e.nb.size());
  for (size_t n = 0; n < e.nb.size(); ++n) { s.sentBackgroundScore(e.nb[n], e.ref, q[n], st[n]); double m = dotp(w, e.f[n]); if (m + q[n] > hb) { hb = m + q[n]; hope = n; } if (m - q[n] > fb) { fb = m - q[n]; fear = n; } }
  if (!(q[hope] > q[fear])) return false;
  Vec d(w.size()); for (size_t k = 0; k < d.size(); ++k) d[k] = e.f[hope][k] - e.f[fear][k];
  double loss = q[hope] - q[fear] - dotp(w, d); bool up = loss > 0; if (up) { double eta = std::min(p.C, loss / dotp(d, d)); for (size_t k = 0; k < d.size(); ++k) w[k] += eta * d[k]; }
  s.updateBackgroundCorpus(st[hope], p.gamma); return up;
}
static const std::string& top(const Example& e, const Vec& w) { size_t b = 0; double m = -HUGE_VAL; for (size_t n = 0; n < e.nb.size(); ++n) if (dotp(w, e.f[n]) > m) { m = dotp(w, e.f[n]); b = n; } return e.nb[b]; }
// the average weights of the epoch that translates best, if any translates at all well
static Vec learn(BaseMiraScorer& s, const std::vector<Example>& es, const Par& p, const Vec& init, const std::function<std::vector<size_t>()>& order, bool single, double& bestQ) {
  Vec best = init; bestQ = 0; s.resetBackgroundCorpus();
  for (unsigned r = 0; r < p.restarts; ++r) {
    Vec w = init, sum = init; double n = 1, epochQ = 0; unsigned at = 0;
    for (unsigned j = 0; j < p.J; ++j) {
      for (size_t i : order()) if (mira(s, es[i], p, w)) { for (size_t k = 0; k < w.size(); ++k) sum[k] += w[k]; ++n; }
      Vec avg(sum); for (auto& x : avg) x /= n; Str c, rf; for (auto& e : es) { c.push_back(top(e, avg)); rf.push_back(e.ref); } double q; if (single) s.sentScore(c[0], rf[0], q); else s.corpusScore(c, rf, q);
      if (q > epochQ) { epochQ = q; at = j; if (q > bestQ) { bestQ = q; best = avg; } }
      if (j - at > p.patience) break;
    }
  }
  return best;
}
static std::string show(const Example& e) { std::string r = "reference '" + e.ref + "':"; for (size_t i = 0; i < e.nb.size(); ++i) r += " '" + e.nb[i] + "' (" + join(e.f[i]) + ")"; return r; }
static void compare(Ctx& c, const Vec& got, const Vec& want, const std::string& what) {
  bool ok = got.size() == want.size(); for (size_t i = 0; ok && i < got.size(); ++i) ok = close(got[i], want[i], 1e-9, 1e-9);
  c.checkf(ok, [&] { return what + ": weights " + join(got) + " instead of " + join(want); }); c.outcome(join(got));
}
static Par par(Ctx& c) { return c.pick(std::vector<Par>{{0.01, 0.999, 60, 20, 1}, {0.5, 1, 5, 20, 2}, {100, 0.5, 8, 1, 1}, {0.1, 0.9, 1, 0, 3}}); }
static const std::vector<Vec>& feats() { static std::vector<Vec> f = {{1, 0}, {0, 1}, {-1, 2}, {-3, -3}}; return f; }
static void single(Ctx& c) {
  ctx = nullptr; Table a, b; Example e; e.ref = "r"; unsigned n = 1 + c.choose(3); static const double qs[] = {-0.5, 0, 0.3, 1};
  for (unsigned i = 0; i < n; ++i) { e.nb.push_back(std::string(i + 1, 'c')); e.f.push_back(feats()[c.choose(4)]); a.q[e.nb[i] + "/r"] = qs[c.choose(4)]; } b.q = a.q;
  Par p = par(c); Vec init = c.pick(std::vector<Vec>{{1, 1}, {0.2, -0.5}}), got; KbMiraLlWu k(p.C, p.gamma, p.J, p.patience, p.restarts); c.check(k.link_scorer(&a), "the scorer is refused");
  std::string what = show(e) + " qualities"; for (auto& x : a.q) what += str(" ", x.second); what += str(" C=", p.C, " J=", p.J, " from ", join(init)); c.state(what); double q;
  k.update(e.ref, e.nb, e.f, init, got); c.step(); Vec want = learn(b, {e}, p, init, [] { return std::vector<size_t>{0}; }, true, q); compare(c, got, want, what);
  // a second update starts afresh; a closed corpus of one sentence is the same thing
  if (c.flip()) { Vec again; k.update(e.ref, e.nb, e.f, init, again); compare(c, again, got, "again " + what); } else { Vec cl; k.updateClosedCorpus({e.ref}, {e.nb}, {e.f}, init, cl); compare(c, cl, got, "as a corpus " + what); }
}
static std::vector<Example> examples(Table& t) {
  std::vector<Example> v = {{"r1", {"a", "bb"}, {{1, 0}, {0, 1}}}, {"r2", {"a", "bb", "ccc"}, {{2, 0}, {1, 1}, {-1, 2}}}, {"r3", {"dd"}, {{1, 1}}}, {"r4", {"e", "f"}, {{-1, -1}, {1, 0.5}}}, {"r5", {"g", "h", "i", "j"}, {{0, 0}, {1, 0}, {0, 1}, {1, 1}}}, {"r6", {"k", "l"}, {{1, 0}, {1, 0}}}};
  double q = 0; for (auto& e : v) for (auto& n : e.nb) { q = std::fmod(q + 0.37, 1.1); t.q[n + "/" + e.ref] = q - 0.2; } return v;
}
static void corpus(Ctx& c) {
  ctx = nullptr; Table a, b; auto all = examples(a); b.q = a.q; std::vector<Example> es; unsigned n = 2 + c.choose(thorough() ? 3 : 2); for (unsigned i = 0; i < n; ++i) { auto e = all[c.choose(all.size())]; for (auto& x : es) if (x.ref == e.ref) throw Skip(); es.push_back(e); }
  Par p = par(c); Vec init = c.pick(std::vector<Vec>{{1, 1}, {0.2, -0.5}}), got; KbMiraLlWu k(p.C, p.gamma, p.J, p.patience, p.restarts); k.link_scorer(&a); Str refs; std::vector<Str> nbs; std::vector<std::vector<Vec>> fs; std::string what; for (auto& e : es) { refs.push_back(e.ref); nbs.push_back(e.nb); fs.push_back(e.f); what += show(e) + "; "; }
  what += str("C=", p.C, " J=", p.J, " from ", join(init)); a.note = true; rands = 0; ctx = &c; k.updateClosedCorpus(refs, nbs, fs, init, got); ctx = nullptr; c.step();
  // every epoch visits each sentence once, in some order
  size_t at = 0; double q; auto order = [&] { std::vector<size_t> o; for (; at < a.log.size() && a.log[at] != "*"; ++at) for (size_t i = 0; i < es.size(); ++i) if (es[i].ref == a.log[at]) o.push_back(i); ++at; auto s = o; std::sort(s.begin(), s.end()); bool ok = s.size() == es.size(); for (size_t i = 0; ok && i < s.size(); ++i) ok = s[i] == i; c.checkf(ok, [&] { return what + ": an epoch visits the sentences " + join(o); }); return o; };
  Vec want = learn(b, es, p, init, order, false, q); c.state(what + join(a.log)); c.checkf(at == a.log.size(), [&] { return what + str(": ", std::count(a.log.begin(), a.log.end(), "*"), " epochs, expected fewer"); }); compare(c, got, want, what);
}
// with the real scorers, including translations that share nothing with the reference
static void scorers(Ctx& c) {
  ctx = nullptr; std::unique_ptr<BaseMiraScorer> a, b; int w = c.choose(3); if (w == 0) { a.reset(new MiraBleu); b.reset(new MiraBleu); } else if (w == 1) { a.reset(new MiraChrF); b.reset(new MiraChrF); } else { a.reset(new MiraWer); b.reset(new MiraWer); }
  static const Str pool = {"a b c d e", "a b c d", "x y z u v w", "a x b", "", "a b c e d"}; static const std::vector<Vec> fv = {{-1, -2, -5}, {-2, -1, -4}, {-1.5, -3, -6}};
  unsigned n = 1 + c.choose(2); std::vector<Example> es; for (unsigned i = 0; i < n; ++i) { Example e; e.ref = c.pick(Str{"a b c d e", "a x", "q"}); for (unsigned k = 0; k < 3; ++k) { e.nb.push_back(n == 1 || k == 0 ? c.pick(pool) : pool[(i + k) % 6]); e.f.push_back(fv[(k + i) % 3]); } es.push_back(e); }
  Par p = par(c); Vec init = {1, 0.5, 0.1}, got; bool one = n == 1 && c.flip(); KbMiraLlWu k(p.C, p.gamma, p.J, p.patience, p.restarts); k.link_scorer(a.get()); Str refs; std::vector<Str> nbs; std::vector<std::vector<Vec>> fs; std::string what = str("scorer ", w, ": "); for (auto& e : es) { refs.push_back(e.ref); nbs.push_back(e.nb); fs.push_back(e.f); what += show(e) + "; "; }
  c.state(what + str(p.C)); if (one) k.update(refs[0], nbs[0], fs[0], init, got); else k.updateClosedCorpus(refs, nbs, fs, init, got);
  // rand() yields 0 here: the order is that of exchanging each position from the last one with the first
  std::vector<size_t> o; for (size_t i = 0; i < n; ++i) o.push_back(i); for (size_t i = n; i-- > 1;) std::swap(o[i], o[0]); double q; compare(c, got, learn(*b, es, p, init, [&] { return o; }, one, q), what);
}
int main(int argc, char** argv) {
  if (!getenv("MC_STDERR")) freopen("/dev/null", "w", stderr);
  return run(argc, argv, "P16", {{"single", "all n-best lists of up to 3 candidates with 4 feature vectors and 4 qualities (negative and zero ones too) x 4 settings x 2 initial weights, updated twice or as a corpus", single, 4},
    {"corpus", "all ordered choices of 2 to 3 (4 in the thorough tier) of 6 n-best lists x 4 settings x 2 initial weights x every outcome of the first 3 (4 in the thorough tier) random numbers that order the sentences", corpus, 3},
    {"scorers", "the BLEU, chrF and WER scorers over n-best lists from 6 candidate translations, one or two sentences, 4 settings", scorers, 3}});
}
