// P06: training of the word alignment models
// SOURCES: sw_models/IncrIbm1AligModel.cc sw_models/IncrIbm2AligModel.cc sw_models/SmoothedIncrIbm1AligModel.cc sw_models/SmoothedIncrIbm2AligModel.cc sw_models/_incrHmmAligModel.cc sw_models/_incrHmmP0AligModel.cc sw_models/IncrHmmAligModel.cc sw_models/IncrHmmP0AligModel.cc sw_models/IncrLevelDbHmmP0AligModel.cc sw_models/IncrLexTable.cc sw_models/IncrLexLevelDbTable.cc sw_models/IncrIbm2AligTable.cc sw_models/IncrHmmAligTable.cc sw_models/anjiMatrix.cc sw_models/anjm1ip_anjiMatrix.cc sw_models/LightSentenceHandler.cc sw_models/WeightedIncrNormSlm.cc sw_models/_sentLengthModel.cc sw_models/aSource.cc sw_models/aSourceHmm.cc sw_models/CachedHmmAligLgProb.cc sw_models/DoubleMatrix.cc nlp_common/WordAligMatrix.cc nlp_common/MathFuncs.cc nlp_common/SingleWordVocab.cc nlp_common/AwkInputStream.cc nlp_common/StrProcUtils.cc nlp_common/printAligFuncs.cc nlp_common/Prob.cc nlp_common/Count.cc nlp_common/LM_State.cc phrase_models/AlignmentExtractor.cc
#include "mc.h"
#include "prog.h"
#include "SmoothedIncrIbm1AligModel.h"
#include "SmoothedIncrIbm2AligModel.h"
#include "IncrHmmAligModel.h"
#include "IncrHmmP0AligModel.h"
#include "IncrLevelDbHmmP0AligModel.h"
#include "SwDefs.h"
#include <deque>
using namespace mc;
static bool thorough() { const char* t = getenv("VERIF_TIER"); return t && std::string(t) == "thorough"; }
typedef std::vector<std::string> Str;
struct Pair { Str s, t; double c; };
typedef std::vector<Pair> Corpus;
static std::string show(const Corpus& k) { std::string r; for (auto& p : k) r += "[" + join(p.s) + " | " + join(p.t) + " | " + mc::str(p.c) + "]"; return r; }
enum Kind { IBM1, IBM2, HMM, P0, LP0, NKIND };
static const char* kindName[] = {"IBM1", "IBM2", "HMM", "HMM-p0", "LevelDB-HMM-p0"};
static bool isHmm(int k) { return k >= HMM; }

// normal length model
struct RefLen {
  struct L { unsigned k = 0; double sw = 0, sx = 0, sxx = 0; };
  std::map<unsigned, L> m; double n = 0, ss = 0, ts = 0;
  void add(const Pair& p) { n++; ss += p.s.size(); ts += p.t.size(); auto& l = m[p.s.size()]; l.k++; l.sw += p.c; l.sx += p.c * p.t.size(); l.sxx += p.c * p.t.size() * p.t.size(); }
  double cdf(unsigned sl, double x) const {
    double mean, sd; auto i = m.find(sl);
    if (i != m.end() && i->second.k >= 2) { auto& l = i->second; mean = l.sx / l.sw; double v = (l.sxx - l.sx * l.sx / l.sw) * l.k / ((l.k - 1) * l.sw); sd = std::sqrt(std::max(0.0, v)); if (sd < 1e-6) sd = 0; }
    else { mean = sl + (n ? ts / n - ss / n : 0); sd = mean * 0.25; }
    double z = sd == 0 ? (x > mean ? INFINITY : -INFINITY) : (x - mean) / sd; return 0.5 * std::erfc(-z / std::sqrt(2.0));
  }
  double lp(unsigned sl, unsigned tl) const { double p = cdf(sl, tl + 0.5) - cdf(sl, tl - 0.5); return std::log(std::max(p, 1e-7)); }
};
// the reference keeps the sufficient statistics of every sentence pair, in plain doubles
struct Ref {
  typedef std::pair<std::string, std::string> LK;          // source word ("" = NULL), target word
  typedef std::pair<std::vector<unsigned>, unsigned> AK;   // conditioning, position
  struct Stats { std::map<LK, double> lex; std::map<AK, double> al; };
  int kind; unsigned maxn = UINT_MAX; std::vector<std::string> tvoc; double lexSm = 0.1, alSm = 0.3, p0 = 0.1;
  std::map<LK, double> lex; std::map<AK, double> al; std::map<std::string, double> lexD; std::map<std::vector<unsigned>, double> alD;
  std::map<unsigned, Stats> kept; std::deque<unsigned> order; RefLen len; size_t trgVocab = 0;
  double pts(const std::string& s, const std::string& t) const {
    auto i = lex.find({s, t}); double u = i == lex.end() ? 0 : i->second / lexD.at(s);
    return isHmm(kind) ? (1 - lexSm) * u + lexSm / trgVocab : u;
  }
  double ratio(const std::vector<unsigned>& c, unsigned i) const { auto x = al.find({c, i}); return x == al.end() ? 0 : x->second / alD.at(c); }
  double aIbm2(unsigned j, unsigned sl, unsigned tl, unsigned i) const { return ratio({j, sl, tl}, i); }
  double aHmm(unsigned p, unsigned n, unsigned i) const {
    bool null = i > n; unsigned pw = p > n ? p - n : p; if (null && p && i - n != pw) return 0;
    double u;
    if (kind == HMM) u = null ? ratio({pw, n}, (pw ? pw : 1) + n) : ratio({pw, n}, i);
    else u = null ? (p ? p0 : p0 / n) : (1 - p0) * ratio({pw, n}, i);
    return (1 - alSm) * u + alSm / (p ? n + 1 : 2 * n);
  }
  // expected counts of one sentence pair under the current parameters
  Stats expect(const Pair& p) const {
    Stats st; unsigned n = p.s.size(), l = p.t.size();
    if (!isHmm(kind)) {
      for (unsigned j = 1; j <= l; ++j) {
        std::vector<double> d; double z = 0;
        for (unsigned i = 0; i <= n; ++i) {
          std::string s = i ? p.s[i - 1] : ""; double v = lex.count({s, p.t[j - 1]}) ? pts(s, p.t[j - 1]) : 0.1;
          if (kind == IBM2) v *= al.count({{j, n, l}, i}) ? aIbm2(j, n, l, i) : 0.1;
          d.push_back(std::max(v, 1e-6)); z += d.back();
        }
        for (unsigned i = 0; i <= n; ++i) { double v = std::max(p.c * d[i] / z, 1e-6); st.lex[{i ? p.s[i - 1] : "", p.t[j - 1]}] += v; if (kind == IBM2) st.al[{{j, n, l}, i}] += v; }
      }
      return st;
    }
    // all state sequences
    std::vector<std::vector<double>> g(l, std::vector<double>(2 * n + 1)); std::vector<std::vector<std::vector<double>>> x(l, std::vector<std::vector<double>>(2 * n + 1, std::vector<double>(2 * n + 1)));
    std::vector<unsigned> a(l, 1);
    while (true) {
      double q = 1; unsigned prev = 0; for (unsigned j = 0; j < l && q > 0; ++j) { q *= aHmm(prev, n, a[j]) * pts(a[j] > n ? "" : p.s[a[j] - 1], p.t[j]); prev = a[j]; }
      if (q > 0) for (unsigned j = 0; j < l; ++j) { g[j][a[j]] += q; x[j][j ? a[j - 1] : 0][a[j]] += q; }
      unsigned k = 0; while (k < l && ++a[k] > 2 * n) a[k++] = 1; if (k == l) break;
    }
    auto clip = [](double v) { return std::min(std::exp(-0.01), std::max(std::exp(-9.0), v)); };
    for (unsigned j = 0; j < l; ++j) {
      double z = 0; for (unsigned i = 1; i <= 2 * n; ++i) z += g[j][i];
      for (unsigned i = 1; i <= 2 * n; ++i) st.lex[{i > n ? "" : p.s[i - 1], p.t[j]}] += p.c * clip(g[j][i] / z);
      // transitions: with a fixed null probability only those among source words are parameters
      unsigned top = kind == HMM ? 2 * n : n; z = 0; std::vector<std::vector<double>> y = x[j];
      if (j == 0 && kind == HMM) for (unsigned i = n + 2; i <= 2 * n; ++i) y[0][i] = y[0][n + 1];   // tied to the first one
      auto valid = [&](unsigned q, unsigned i) { return i <= n || !q || i - n == (q > n ? q - n : q); };
      for (unsigned q = j ? 1 : 0; q <= (j ? top : 0); ++q) for (unsigned i = 1; i <= top; ++i) if (valid(q, i)) z += y[q][i];
      for (unsigned q = j ? 1 : 0; q <= (j ? top : 0); ++q) for (unsigned i = 1; i <= top; ++i) if (valid(q, i)) st.al[{{q, n}, i}] += p.c * clip(y[q][i] / z);
    }
    return st;
  }
  void remember(unsigned n, const Stats& s) {
    if (!maxn) return;
    if (!kept.count(n)) { if (order.size() == maxn) { kept.erase(order.front()); order.pop_front(); } order.push_back(n); }
    kept[n] = s;
  }
  void train(const Corpus& k, unsigned a, unsigned b, bool batch) {
    if (batch) { maxn = 0; kept.clear(); order.clear(); }
    for (unsigned n = a; n <= b; ++n) len.add(k[n]);
    Stats cur, nw;
    for (unsigned n = a; n <= b; ++n) {
      if (k[n].s.empty() || k[n].t.empty() || k[n].s.size() > HMM_SWM_MAX_SENT_LENGTH) continue;
      Stats s = expect(k[n]);
      auto i = kept.find(n); if (i != kept.end()) { for (auto& x : i->second.lex) cur.lex[x.first] += x.second; for (auto& x : i->second.al) cur.al[x.first] += x.second; }
      for (auto& x : s.lex) nw.lex[x.first] += x.second; for (auto& x : s.al) nw.al[x.first] += x.second;
      remember(n, s);
    }
    if (batch) { lex.clear(); al.clear(); }
    for (auto& x : nw.lex) lex[x.first] += x.second; for (auto& x : nw.al) al[x.first] += x.second;
    for (auto& x : cur.lex) lex[x.first] -= x.second; for (auto& x : cur.al) al[x.first] -= x.second;
    lexD.clear(); alD.clear(); for (auto& x : lex) lexD[x.first.first] += x.second; for (auto& x : al) alD[x.first.first] += x.second;
  }
};
template <class M> static void compare(Ctx& c, M& m, Ref& r, const std::vector<Pair>& k, const std::string& hist) {
  std::set<std::string> sv = {""}, tv; std::set<std::pair<unsigned, unsigned>> ls;
  for (auto& p : k) { sv.insert(p.s.begin(), p.s.end()); tv.insert(p.t.begin(), p.t.end()); if (!p.s.empty() && !p.t.empty()) ls.insert({p.s.size(), p.t.size()}); }
  r.trgVocab = m.getTrgVocabSize();
  auto same = [&](double a, double b, const std::string& what) { c.checkf(std::fabs(a - b) <= 1e-3 && !std::isnan(a), [&] { return hist + ": " + what + " is " + str(a) + " instead of " + str(b); }); };
  for (auto& s : sv) for (auto& t : tv) same((double)m.pts(s.empty() ? (WordIndex)NULL_WORD : m.stringToSrcWordIndex(s), m.stringToTrgWordIndex(t)), r.pts(s, t), "p(" + t + "|" + (s.empty() ? "NULL" : s) + ")");
  if constexpr (std::is_base_of<IncrIbm2AligModel, M>::value) { for (auto& l : ls) for (unsigned j = 1; j <= l.second; ++j) for (unsigned i = 0; i <= l.first; ++i) same((double)m.aProb(j, l.first, l.second, i), r.aIbm2(j, l.first, l.second, i), "alignment probability of j=" + str(j) + " i=" + str(i) + " lengths " + str(l.first) + "," + str(l.second)); }
  if constexpr (std::is_base_of<_incrHmmAligModel, M>::value) { std::set<unsigned> ns; for (auto& l : ls) ns.insert(l.first); for (unsigned n : ns) for (unsigned p = 0; p <= 2 * n; ++p) for (unsigned i = 1; i <= 2 * n; ++i) same((double)m.aProb(p, n, i), r.aHmm(p, n, i), "transition probability " + str(p) + "->" + str(i) + " slen=" + str(n)); }
  for (unsigned s = 1; s <= 3; ++s) for (unsigned t = 1; t <= 4; ++t) { double a = (double)m.sentLenLgProb(s, t), b = r.len.lp(s, t); c.checkf(mc::close(a, b, 2e-3, 2e-3) || (a < -9 && b < -9 && std::fabs(std::exp(a) - std::exp(b)) < 3e-6), [&] { return hist + ": sentence length log-probability " + str(t) + "|" + str(s) + " is " + str(a) + " instead of " + str(b); }); }
  std::string st; for (auto& x : r.lex) st += x.first.first + "," + x.first.second + mc::str((int)std::lround(x.second * 1e4)) + ";"; c.state(mc::hashStr(mc::str(r.kind) + st));
}
static const std::vector<Corpus>& corpora() {
  static const std::vector<Corpus> K = {
    {{{"a"}, {"x"}, 1}, {{"a", "b"}, {"x", "y"}, 1}, {{"b"}, {"y"}, 1}},
    {{{"a", "b"}, {"x", "y"}, 2}, {{"b", "a"}, {"x"}, 0.5}, {{"a", "a"}, {"y", "x", "x"}, 3}},
    {{{"a", "b", "c"}, {"x", "y"}, 1}, {{"c"}, {"x", "z"}, 1}, {{"a", "c"}, {"z", "y"}, 2}},
    {{{"a"}, {}, 1}, {{"a", "b"}, {"y"}, 1}, {{}, {"x"}, 2}},
    {{{"a", "b"}, {"x", "y"}, 1}, {{"a", "b"}, {"x", "y"}, 1}, {{"a", "b"}, {"y", "x"}, 1}}};
  return K;
}
// every history of additions, single-pair, range, complete and batch training steps
template <class M> static void history(Ctx& c, M& m, int kind, int depth, int small) {
  Ref r; r.kind = kind;
  const Corpus& k = corpora()[small >= 0 ? small : c.choose(corpora().size())];
  unsigned lim = c.choose(3); std::string hist = std::string(kindName[kind]) + " " + show(k);   // how many sentences keep their expected values
  if (lim) { m.set_expval_maxnsize(lim); r.maxn = lim; hist += " keeping " + str(lim); }
  std::pair<unsigned, unsigned> rg; unsigned have = 0;
  auto add = [&] { auto& p = k[have]; m.addSentPair(p.s, p.t, p.c, rg); c.check(rg.first == have && rg.second == have, hist + ": range of the added pair"); ++have; for (auto& w : p.s) m.addSrcSymbol(w); for (auto& w : p.t) m.addTrgSymbol(w); };
  bool files = c.flip();
  if (files) {   // the first two pairs are read from files
    std::string a, b, w; for (unsigned i = 0; i < 2; ++i) { a += join(k[i].s) + "\n"; b += join(k[i].t) + "\n"; w += mc::str(k[i].c) + "\n"; }
    std::string d = c.scratch(); writeFile(d + "/s", a); writeFile(d + "/t", b); writeFile(d + "/c", w);
    c.check(m.readSentencePairs((d + "/s").c_str(), (d + "/t").c_str(), (d + "/c").c_str(), rg) == THOT_OK && rg.first == 0 && rg.second == 1, hist + ": reading sentence pairs");
    for (unsigned i = 0; i < 2; ++i) { for (auto& x : k[i].s) m.addSrcSymbol(x); for (auto& x : k[i].t) m.addTrgSymbol(x); }
    have = 2; hist += " files";
  } else add();
  for (int d = 0; d < depth; ++d) {
    // train pair n | train all | batch all | add
    unsigned o = c.choose(have + 3 + (have >= 2 ? 1 : 0));
    if (o < have) { hist += " train" + str(o); m.trainSentPairRange({o, o}); r.trgVocab = m.getTrgVocabSize(); r.train(k, o, o, false); }
    else if (o == have) { hist += " trainall"; m.trainAllSents(); r.trgVocab = m.getTrgVocabSize(); r.train(k, 0, have - 1, false); }
    else if (o == have + 1) { hist += " batch"; m.efficientBatchTrainingForRange({0, have - 1}); r.trgVocab = m.getTrgVocabSize(); r.train(k, 0, have - 1, true); }
    else if (o == have + 2) { if (have == k.size()) throw Skip(); hist += " add"; add(); continue; }
    else { hist += " train-last-two"; m.trainSentPairRange({have - 2, have - 1}); r.trgVocab = m.getTrgVocabSize(); r.train(k, have - 2, have - 1, false); }
    c.step(); c.log(hist);
    compare(c, m, r, k, hist);
  }
  c.outcome(hist);
  m.clear();
  Ref e; e.kind = kind; Corpus none; c.check(m.numSentPairs() == 0, hist + ": clear keeps sentence pairs");
}
template <class F> static void withModel(Ctx& c, int kind, F f) {
  switch (kind) {
    case IBM1: { IncrIbm1AligModel m; f(m); break; }
    case IBM2: { IncrIbm2AligModel m; f(m); break; }
    case HMM: { IncrHmmAligModel m; f(m); break; }
    case P0: { IncrHmmP0AligModel m; f(m); break; }
    case LP0: { IncrLevelDbHmmP0AligModel m; c.check(m.init((c.scratch() + "/m").c_str()) == THOT_OK, "init of the LevelDB model failed"); f(m); break; }
  }
}
// the likelihood of the training data never decreases from one complete EM iteration to the next (IBM 1 and 2)
static void likelihood(Ctx& c, int kind) {
  static const std::vector<Pair> P = {{{"a"}, {"x"}, 1}, {{"b"}, {"y"}, 1}, {{"a", "b"}, {"x", "y"}, 1}, {{"a", "b"}, {"y", "x"}, 1}, {{"b", "a"}, {"x", "x"}, 1}, {{"a", "a"}, {"y"}, 1}, {{"a", "b", "c"}, {"x", "y", "z"}, 1}, {{"c"}, {"z", "x"}, 1}};
  int n = 2 + c.choose(thorough() ? 3 : 2), prev = 0; Corpus k; for (int i = 0; i < n; ++i) { int p = prev + c.choose(P.size() - prev); prev = p; k.push_back(P[p]); }
  bool batch = c.flip(); int iters = 6;
  withModel(c, kind, [&](auto& m) {
    std::pair<unsigned, unsigned> rg; for (auto& p : k) { for (auto& w : p.s) m.addSrcSymbol(w); for (auto& w : p.t) m.addTrgSymbol(w); m.addSentPair(p.s, p.t, p.c, rg); }
    double last = -INFINITY; std::string hist = std::string(kindName[kind]) + " " + show(k) + (batch ? " batch" : " incremental");
    for (int i = 0; i < iters; ++i) {
      if (batch) m.efficientBatchTrainingForRange({0, (unsigned)k.size() - 1}); else m.trainAllSents();
      c.step(); double ll = m.loglikelihoodForAllSents().first; for (auto& p : k) ll -= (double)m.sentLenLgProb(p.s.size(), p.t.size());
      c.checkf(ll >= last - 2e-3, [&] { return hist + ": log-likelihood fell from " + str(last) + " to " + str(ll) + " at iteration " + str(i + 1); });
      last = ll;
    }
    c.outcome(hist + mc::str(last)); c.state(hist);
  });
}
int main(int argc, char** argv) {
  if (!getenv("MC_STDERR")) freopen("/dev/null", "w", stderr);
  std::vector<Scenario> s;
  for (int k = 0; k < NKIND; ++k) {
    int d = k == LP0 ? (thorough() ? 3 : 2) : (thorough() ? 5 : 4);
    s.push_back({std::string(kindName[k]) + "-histories", "every history of " + str(d) + " steps: train one pair, the last two, all, batch, add a pair; 5 corpora, 3 limits on kept expectations, pairs from files or memory", [k, d](Ctx& c) { withModel(c, k, [&](auto& m) { history(c, m, k, d, -1); }); }, 4, 60});
    int dl = thorough() ? 7 : 5;
    if (k != LP0) s.push_back({std::string(kindName[k]) + "-long", "every history of " + str(dl) + " steps over the second corpus", [k, dl](Ctx& c) { withModel(c, k, [&](auto& m) { history(c, m, k, dl, 1); }); }, 4, 60});
    if (k <= IBM2) s.push_back({std::string(kindName[k]) + "-likelihood", "every corpus of 2-3 pairs out of 8, 6 iterations", [k](Ctx& c) { likelihood(c, k); }});
  }
  return run(argc, argv, "P06", s);
}
