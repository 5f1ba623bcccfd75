// P05: word alignment models: sums and maxima over all alignments
// SOURCES: sw_models/IncrIbm1AligModel.cc sw_models/IncrIbm2AligModel.cc sw_models/SmoothedIncrIbm1AligModel.cc sw_models/SmoothedIncrIbm2AligModel.cc sw_models/_incrHmmAligModel.cc sw_models/_incrHmmP0AligModel.cc sw_models/IncrHmmAligModel.cc sw_models/IncrHmmP0AligModel.cc sw_models/IncrLevelDbHmmP0AligModel.cc sw_models/IncrLexTable.cc sw_models/IncrLexLevelDbTable.cc sw_models/IncrIbm2AligTable.cc sw_models/IncrHmmAligTable.cc sw_models/anjiMatrix.cc sw_models/anjm1ip_anjiMatrix.cc sw_models/LightSentenceHandler.cc sw_models/WeightedIncrNormSlm.cc sw_models/_sentLengthModel.cc sw_models/aSource.cc sw_models/aSourceHmm.cc sw_models/CachedHmmAligLgProb.cc sw_models/DoubleMatrix.cc nlp_common/WordAligMatrix.cc nlp_common/MathFuncs.cc nlp_common/SingleWordVocab.cc nlp_common/AwkInputStream.cc nlp_common/StrProcUtils.cc nlp_common/printAligFuncs.cc nlp_common/Prob.cc nlp_common/Count.cc nlp_common/LM_State.cc phrase_models/AlignmentExtractor.cc
#include "mc.h"
#include "prog.h"
#include "SmoothedIncrIbm1AligModel.h"
#include "SmoothedIncrIbm2AligModel.h"
#include "IncrHmmAligModel.h"
#include "IncrHmmP0AligModel.h"
#include "IncrLevelDbHmmP0AligModel.h"
#include "AlignmentExtractor.h"
#include "SwDefs.h"
using namespace mc;
static bool thorough() { const char* t = getenv("VERIF_TIER"); return t && std::string(t) == "thorough"; }
typedef std::vector<std::string> Str;
typedef std::vector<WordIndex> Idx;
struct Pair { Str s, t; double c; };
typedef std::vector<Pair> Corpus;
static std::string show(const Corpus& k) { std::string r; for (auto& p : k) r += "[" + join(p.s) + " | " + join(p.t) + " | " + mc::str(p.c) + "]"; return r; }
static std::vector<Str> sents(const Str& alpha, int lo, int hi) {
  std::vector<Str> r, level = {{}};
  for (int n = 0; n <= hi; ++n) { if (n >= lo) r.insert(r.end(), level.begin(), level.end()); std::vector<Str> nx; for (auto& l : level) for (auto& a : alpha) { Str x = l; x.push_back(a); nx.push_back(x); } level = nx; }
  return r;
}
static double lsum(double a, double b) { if (std::isinf(a) && a < 0) return b; if (std::isinf(b) && b < 0) return a; double m = std::max(a, b); return m + std::log1p(std::exp(std::min(a, b) - m)); }
static double lg(double p) { return p > 0 ? std::log(p) : -INFINITY; }
// probabilities that underflow are equal as long as both are hopeless
static bool eq(double a, double b) { if ((a < -5000 || std::isinf(a)) && (b < -5000 || std::isinf(b))) return true; return mc::close(a, b, 3e-5, 3e-5); }

enum Kind { IBM1, SIBM1, IBM2, SIBM2, HMM, P0, LP0, NKIND };
static const char* kindName[] = {"IBM1", "smoothed IBM1", "IBM2", "smoothed IBM2", "HMM", "HMM with fixed p0", "LevelDB HMM with fixed p0"};
static bool isHmm(int k) { return k >= HMM; }
static bool isIbm2(int k) { return k == IBM2 || k == SIBM2; }

// brute force over the alignments, given the model's own lexical and alignment parameters
template <class F, class A> static void ibmAll(const Idx& s, const Idx& t, F lex, A al, double& sum, double& best, std::map<std::vector<unsigned>, double>* each) {
  sum = -INFINITY; best = -INFINITY; std::vector<unsigned> a(t.size(), 0);
  while (true) {
    double lp = 0; for (size_t j = 0; j < t.size(); ++j) lp += lg(lex(a[j] ? s[a[j] - 1] : NULL_WORD, t[j])) + lg(al(j + 1, a[j]));
    sum = lsum(sum, lp); best = std::max(best, lp); if (each) (*each)[a] = lp;
    size_t k = 0; while (k < a.size() && ++a[k] > s.size()) a[k++] = 0; if (k == a.size()) break;
  }
}
// states 1..n are the source words, n+1..2n the empty word reached from each of them
template <class F, class A> static void hmmAll(const Idx& s, const Idx& t, F lex, A al, double& sum, double& best, std::map<std::vector<unsigned>, double>* each) {
  unsigned n = s.size(); sum = -INFINITY; best = -INFINITY; std::vector<unsigned> a(t.size(), 1);
  while (true) {
    double lp = 0; unsigned prev = 0;
    for (size_t j = 0; j < t.size() && !std::isinf(lp); ++j) {
      unsigned pw = prev > n ? prev - n : prev, cw = a[j] > n ? a[j] - n : a[j];
      if (a[j] > n && prev && cw != pw) lp = -INFINITY;    // the empty word keeps the position
      else lp += lg(al(prev, a[j])) + lg(lex(a[j] > n ? NULL_WORD : s[a[j] - 1], t[j]));
      prev = a[j];
    }
    sum = lsum(sum, lp); best = std::max(best, lp);
    if (each) { std::vector<unsigned> b = a; for (auto& x : b) if (x > n) x = 0; auto& v = each->insert({b, -INFINITY}).first->second; v = std::max(v, lp); }
    size_t k = 0; while (k < a.size() && ++a[k] > 2 * n) a[k++] = 1; if (k == a.size()) break;
  }
}
template <class M> struct Acc;   // uniform access to the parameters of both model families
static std::function<double(WordIndex, WordIndex)> lexOf(IncrIbm1AligModel& m) { return [&m](WordIndex s, WordIndex t) { return (double)m.pts(s, t); }; }
static std::function<double(WordIndex, WordIndex)> lexOf(_incrHmmAligModel& m) { return [&m](WordIndex s, WordIndex t) { return (double)m.pts(s, t); }; }

template <class M> static void trainModel(Ctx& c, M& m, const Corpus& k, int iters, bool batch) {
  std::pair<unsigned, unsigned> r;
  for (auto& p : k) { for (auto& w : p.s) m.addSrcSymbol(w); for (auto& w : p.t) m.addTrgSymbol(w); m.addSentPair(p.s, p.t, p.c, r); }
  for (int i = 0; i < iters; ++i) { if (batch) m.efficientBatchTrainingForRange({0, (unsigned)k.size() - 1}); else m.trainAllSents(); }
  m.clearTempVars(); c.step(iters);
}

// queries common to both families; al(j, slen, tlen, prev/0, i)
template <class M> static void checkPair(Ctx& c, M& m, int kind, const std::string& what, const Str& ss, const Str& ts) {
  Idx s = m.strVectorToSrcIndexVector(ss), t = m.strVectorToTrgIndexVector(ts);
  unsigned n = s.size(), l = t.size();
  std::string id = what + " for '" + join(ss) + "' / '" + join(ts) + "': ";
  auto lex = lexOf(m);
  double len = (double)m.sentLenLgProb(n, l), sum, best; std::map<std::vector<unsigned>, double> each;
  if constexpr (std::is_base_of<IncrIbm2AligModel, M>::value) ibmAll(s, t, lex, [&](unsigned j, unsigned i) { return (double)m.aProb(j, n, l, i); }, sum, best, &each);
  else if constexpr (std::is_base_of<IncrIbm1AligModel, M>::value) ibmAll(s, t, lex, [&](unsigned, unsigned) { return 1.0 / (n + 1); }, sum, best, &each);
  else hmmAll(s, t, lex, [&](unsigned p, unsigned i) { return (double)m.aProb(p, n, i); }, sum, best, &each);
  c.step(3);
  double got = (double)m.calcLgProb(s, t);
  c.checkf(eq(got, len + sum), [&] { return id + "log-probability " + str(got) + " but the alignments add up to " + str(len + sum); });
  WordAligMatrix w; double bl = (double)m.obtainBestAlignment(s, t, w);
  c.checkf(eq(bl, len + best), [&] { return id + "best alignment log-probability " + str(bl) + " but the maximum is " + str(len + best); });
  c.checkf(w.get_I() == n && w.get_J() == l, [&] { return id + "size of the alignment matrix"; });
  std::vector<unsigned> a(l, 0);
  for (unsigned j = 0; j < l; ++j) for (unsigned i = 0; i < n; ++i) if (w.getValue(i, j)) { c.checkf(!a[j], [&] { return id + "target word linked twice"; }); a[j] = i + 1; }
  c.checkf(each.count(a) && eq(each[a] + len, bl), [&] { return id + "the reported alignment " + join(a) + " has log-probability " + str(each[a] + len) + ", not " + str(bl); });
  c.checkf(got < -5000 || bl <= got + 1e-3, [&] { return id + "an alignment is more probable than all of them"; });
  // the same through strings
  WordAligMatrix w2; double b2 = (double)m.obtainBestAlignmentVecStr(ss, ts, w2);
  c.checkf(w2 == w && eq(b2, bl), [&] { return id + "alignment of the strings differs"; });
  WordAligMatrix w3; double b3 = (double)m.obtainBestAlignmentChar(join(ss).c_str(), join(ts).c_str(), w3);
  c.checkf(w3 == w && eq(b3, bl), [&] { return id + "alignment of the text differs"; });
  c.checkf(eq((double)m.calcLgProbChar(join(ss).c_str(), join(ts).c_str()), got), [&] { return id + "log-probability of the text differs"; });
  if constexpr (std::is_base_of<IncrIbm1AligModel, M>::value) {
    for (auto& x : each) {
      WordAligMatrix am(n, l); for (unsigned j = 0; j < l; ++j) if (x.first[j]) am.set(x.first[j] - 1, j);
      double lp = (double)m.calcLgProbForAlig(s, t, am);
      c.checkf(eq(lp, len + x.second), [&] { return id + "log-probability " + str(lp) + " of alignment " + join(x.first) + " instead of " + str(len + x.second); });
    }
    // phrase by phrase: every split of the source sentence in up to two parts
    for (unsigned cut = 0; cut <= n; ++cut) {
      typename M::PpInfo pp; m.initPpInfo(n, t, pp);
      Idx x(s.begin(), s.begin() + cut), y(s.begin() + cut, s.end());
      m.partialProbWithoutLen(0, n, x, t, pp);
      typename M::PpInfo q = pp; m.addHeurForNotAddedWords(2, t, q); m.sustHeurForNotAddedWords(2, t, q);
      m.partialProbWithoutLen(cut, n, y, t, pp); m.partialProbWithoutLen(cut, n, y, t, q);
      c.checkf(eq((double)m.lpFromPpInfo(pp), sum), [&] { return id + "partial probabilities of the parts give " + str((double)m.lpFromPpInfo(pp)) + " instead of " + str(sum); });
      c.checkf(pp.size() == l, [&] { return id + "partial probability size"; });
      for (unsigned j = 0; j < l; ++j) c.checkf(std::fabs((double)q[j] - (double)pp[j]) < 1e-5 || (double)pp[j] < 1e-30, [&] { return id + "heuristic is not undone"; });
    }
    c.checkf(eq((double)m.calcLgProbPhr(s, t), got), [&] { return id + "phrase probability"; });
  } else {
    double nor = 0; for (unsigned j = 0; j < l; ++j) { double q = 1; for (unsigned i = 0; i < n; ++i) q *= 1 - (double)m.pts(s[i], t[j]); nor += lg(1 - q); }
    c.checkf(eq((double)m.calcLgProbPhr(s, t), nor), [&] { return id + "noisy-or phrase probability " + str((double)m.calcLgProbPhr(s, t)) + " instead of " + str(nor); });
    CachedHmmAligLgProb cache; WordAligMatrix w4, w5;
    double b4 = (double)m.obtainBestAlignmentCached(s, t, cache, w4), b5 = (double)m.obtainBestAlignmentVecStrCached(ss, ts, cache, w5);
    c.checkf(w4 == w && w5 == w && eq(b4, bl) && eq(b5, bl), [&] { return id + "cached Viterbi alignment differs"; });
  }
}
template <class M> static void checkParams(Ctx& c, M& m, int kind, const std::string& what, const Corpus& k) {
  // lexical distributions of the seen source words add up to one over the target vocabulary
  std::set<std::string> sv; size_t tv = m.getTrgVocabSize(); std::set<std::pair<size_t, size_t>> lens;
  for (auto& p : k) { for (auto& w : p.s) sv.insert(w); lens.insert({p.s.size(), p.t.size()}); }
  Idx src = {NULL_WORD}; for (auto& w : sv) src.push_back(m.stringToSrcWordIndex(w));
  for (auto s : src) {
    double z = 0; for (WordIndex t = 0; t < tv; ++t) z += (double)m.pts(s, t);
    c.checkf(mc::close(z, 1, 3e-3, 0), [&] { return what + ": lexical distribution of source word " + str(s) + " adds up to " + str(z); });
    for (WordIndex t = 0; t < tv; ++t) { double a = (double)m.pts(s, t), b = (double)m.logpts(s, t); if (kind != SIBM1 && kind != SIBM2) c.checkf(eq(lg(a), b), [&] { return what + ": pts and logpts differ"; }); }
  }
  if constexpr (std::is_base_of<IncrIbm2AligModel, M>::value) {
    for (auto& l : lens) for (size_t j = 1; j <= l.second; ++j) {
      double z = 0; for (size_t i = 0; i <= l.first; ++i) z += (double)m.aProb(j, l.first, l.second, i);
      c.checkf(mc::close(z, 1, 3e-3, 0), [&] { return what + ": alignment distribution j=" + str(j) + " slen=" + str(l.first) + " adds up to " + str(z); });
    }
  } else if constexpr (std::is_base_of<_incrHmmAligModel, M>::value) {
    for (auto& l : lens) for (size_t p = 0; p <= 2 * l.first; ++p) {
      if (p && l.second < 2) continue;     // no transition was ever observed
      double z = 0; for (size_t i = 1; i <= 2 * l.first; ++i) z += (double)m.aProb(p, l.first, i);
      c.checkf(mc::close(z, 1, 3e-3, 0), [&] { return what + ": transition distribution from " + str(p) + " (slen=" + str(l.first) + ") adds up to " + str(z); });
    }
  }
}
template <class M> static void checkModel(Ctx& c, M& m, int kind, const Corpus& k, int iters, bool batch, const std::vector<Str>& qs, const std::vector<Str>& qt) {
  std::string what = std::string(kindName[kind]) + " trained on " + show(k) + " iterations=" + str(iters) + (batch ? " batch" : " incremental");
  c.log(what);
  checkParams(c, m, kind, what, k);
  for (auto& s : qs) for (auto& t : qt) checkPair(c, m, kind, what, s, t);
  Idx none, one = {m.stringToSrcWordIndex("a")};
  // empty sentences and sentences beyond the limit are refused
  if (!isIbm2(kind)) {
    unsigned lim = isHmm(kind) ? HMM_SWM_MAX_SENT_LENGTH : IBM_SWM_MAX_SENT_LENGTH; Idx big(lim + 1, one[0]);
    for (auto& x : {std::make_pair(none, one), std::make_pair(one, none), std::make_pair(big, one), std::make_pair(one, big)}) {
      WordAligMatrix w; double a = (double)m.calcLgProb(x.first, x.second), b = (double)m.obtainBestAlignment(x.first, x.second, w);
      c.checkf(a < -9e4 && b < -9e4 && w.get_I() == x.first.size() && w.get_J() == x.second.size(), [&] { return what + ": sentence lengths " + str(x.first.size()) + "," + str(x.second.size()) + " are not refused"; });
    }
  }
  double ll = 0, vl = 0; for (auto& p : k) { Idx s = m.strVectorToSrcIndexVector(p.s), t = m.strVectorToTrgIndexVector(p.t); WordAligMatrix w; ll += (double)m.calcLgProb(s, t); vl += (double)m.obtainBestAlignment(s, t, w); }
  auto r = m.loglikelihoodForAllSents(); c.checkf(eq(r.first, ll) && eq(r.second, ll / k.size()), [&] { return what + ": log-likelihood " + str(r.first) + " instead of " + str(ll); });
  auto r2 = m.loglikelihoodForPairRange({0, (unsigned)k.size() - 1}); c.checkf(eq(r2.first, ll) && eq(r2.second, ll / k.size()), [&] { return what + ": log-likelihood of the range"; });
  c.outcome(what + mc::str(ll)); c.state(mc::hashStr(show(k) + mc::str(kind, iters, batch)));
}
static void withModel(Ctx& c, int kind, const Corpus& k, int iters, bool batch, const std::vector<Str>& qs, const std::vector<Str>& qt) {
  auto go = [&](auto& m) { trainModel(c, m, k, iters, batch); checkModel(c, m, kind, k, iters, batch, qs, qt); };
  switch (kind) {
    case IBM1: { IncrIbm1AligModel m; go(m); break; }
    case SIBM1: { SmoothedIncrIbm1AligModel m; go(m); break; }
    case IBM2: { IncrIbm2AligModel m; go(m); break; }
    case SIBM2: { SmoothedIncrIbm2AligModel m; go(m); break; }
    case HMM: { IncrHmmAligModel m; go(m); break; }
    case P0: { IncrHmmP0AligModel m; go(m); break; }
    case LP0: { IncrLevelDbHmmP0AligModel m; if (m.init((c.scratch() + "/m").c_str()) != THOT_OK) c.fail("init of the LevelDB model failed"); go(m); break; }
  }
}
// every corpus of one or two small sentence pairs
static void small(Ctx& c, int kind, int pairs) {
  static const std::vector<Str> S = sents({"a", "b"}, 1, 2), T = sents({"x", "y"}, 1, 2), Q = sents({"a", "b", "u"}, 1, 2), R = sents({"x", "y", "v"}, 1, 2);
  Corpus k; int prev = 0, all = S.size() * T.size();
  for (int i = 0; i < pairs; ++i) { int p = prev + c.choose(all - prev); prev = p; k.push_back({S[p / T.size()], T[p % T.size()], i ? 2.0 : 1.0}); }
  int iters = 1 + c.choose(2); bool batch = c.flip();
  withModel(c, kind, k, iters, batch, pairs == 1 || thorough() ? Q : S, pairs == 1 || thorough() ? R : T);
}
// longer sentences: up to 4x4 words, parameters from a few structured corpora, smoothing factors and p0 varied
static void longer(Ctx& c, int kind) {
  static const std::vector<Corpus> K = {
    {{{"a", "b", "c"}, {"x", "y", "z"}, 1}, {{"a", "b"}, {"x", "y"}, 2}, {{"c"}, {"z"}, 1}},
    {{{"a", "b", "c", "d"}, {"x", "y", "z", "w"}, 1}, {{"b", "a"}, {"y", "x"}, 3}, {{"c", "d"}, {"z", "w"}, 0.5}},
    {{{"a", "a", "b"}, {"y", "x", "x"}, 1}, {{"b", "c", "a"}, {"x", "y", "z", "w"}, 1}, {{"d"}, {"w", "x"}, 1}, {{"a", "d"}, {"w"}, 4}},
    {{{"a", "b", "c", "d"}, {"x"}, 1}, {{"a"}, {"x", "y", "z", "w"}, 1}, {{"b", "c"}, {"z", "z"}, 2}}};
  const Corpus& k = c.pick(K); int iters = 1 + c.choose(3); int v = isHmm(kind) ? c.choose(3) : 0;
  std::vector<Str> qs = {{"a", "b", "c", "d"}, {"c", "a", "b"}, {"b", "a"}, {"d", "d", "a"}, {"a"}}, qt = {{"x", "y", "z", "w"}, {"z", "x", "y"}, {"w", "y"}, {"x", "x", "z"}, {"y"}};
  if (thorough()) { qs = sents({"a", "c", "d"}, 1, 4); qt = sents({"x", "y", "w"}, 1, 3); qt.push_back({"x", "y", "z", "w"}); }
  auto go = [&](auto& m) {
    if constexpr (std::is_base_of<_incrHmmAligModel, std::decay_t<decltype(m)>>::value) { if (v == 1) { m.setLexSmIntFactor(0.01); m.setAlSmIntFactor(0.6); } if (v == 2) { m.setLexSmIntFactor(0.5); m.setAlSmIntFactor(0.02); } }
    if constexpr (std::is_base_of<_incrHmmP0AligModel, std::decay_t<decltype(m)>>::value) { if (v == 1) m.set_hmm_p0(0.4); if (v == 2) m.set_hmm_p0(0.01); }
    trainModel(c, m, k, iters, false); checkModel(c, m, kind, k, iters, false, qs, qt);
  };
  switch (kind) {
    case IBM1: { IncrIbm1AligModel m; go(m); break; }
    case SIBM1: { SmoothedIncrIbm1AligModel m; go(m); break; }
    case IBM2: { IncrIbm2AligModel m; go(m); break; }
    case SIBM2: { SmoothedIncrIbm2AligModel m; go(m); break; }
    case HMM: { IncrHmmAligModel m; go(m); break; }
    case P0: { IncrHmmP0AligModel m; go(m); break; }
    case LP0: { IncrLevelDbHmmP0AligModel m; if (m.init((c.scratch() + "/m").c_str()) != THOT_OK) c.fail("init of the LevelDB model failed"); go(m); break; }
  }
}
int main(int argc, char** argv) {
  if (!getenv("MC_STDERR")) freopen("/dev/null", "w", stderr);
  std::vector<Scenario> s;
  for (int k = 0; k < NKIND; ++k) {
    std::string n = kindName[k]; for (auto& ch : n) if (ch == ' ') ch = '-';
    s.push_back({n + "-1pair", "every corpus of one pair of sentences of 1-2 words, 1-2 iterations, every query pair of 1-2 words with unknown words", [k](Ctx& c) { small(c, k, 1); }});
    if (k != LP0) s.push_back({n + "-2pairs", "every corpus of two such pairs (weights 1 and 2), incremental and batch", [k](Ctx& c) { small(c, k, 2); }});
    s.push_back({n + "-longer", "structured corpora of sentences of up to 4 words, 1-3 iterations, smoothing settings", [k](Ctx& c) { longer(c, k); }, 2, 60});
  }
  return run(argc, argv, "P05", s);
}
