// P04: n-gram language models: counts, interpolation, states, persistence, LevelDB twin
// SOURCES: incr_models/IncrJelMerNgramLM.cc incr_models/IncrJelMerLevelDbNgramLM.cc incr_models/IncrNgramLM.cc incr_models/LevelDbNgramTable.cc incr_models/lm_ienc.cc nlp_common/AwkInputStream.cc nlp_common/StrProcUtils.cc nlp_common/ModelDescriptorUtils.cc nlp_common/MathFuncs.cc nlp_common/Prob.cc nlp_common/getdelim.c nlp_common/getline.c downhill_simplex/step_by_step_dhs.c
// PROGRAM: thot_ngram_to_leveldb incr_models/thot_ngram_to_leveldb.cc incr_models/LevelDbNgramTable.cc nlp_common/AwkInputStream.cc nlp_common/StrProcUtils.cc nlp_common/options.cc nlp_common/MathFuncs.cc nlp_common/Prob.cc nlp_common/ctimer.c nlp_common/mem_alloc_utils.cc nlp_common/getdelim.c nlp_common/getline.c
#include "prog.h"
#include "IncrJelMerNgramLM.h"
#include "IncrJelMerLevelDbNgramLM.h"
#include "IncrNgramLM.h"
#include <memory>
using namespace mc;
typedef std::vector<std::string> Str;
typedef std::vector<Str> Corpus;
static bool thorough() { const char* t = getenv("VERIF_TIER"); return t && std::string(t) == "thorough"; }

// the reference: counts of the n-grams of "<s> sentence </s>"
struct Counts {
  std::map<Str, double> ng, hist;   // n-gram (history + word), history
  void sentence(const Str& s, int order, double c = 1) {
    Str w = {"<s>"}; for (auto& x : s) w.push_back(x); w.push_back("</s>");
    for (int n = 1; n <= order; ++n)
      for (size_t e = n; e <= w.size(); ++e) {
        Str g(w.begin() + (e - n), w.begin() + e);
        ng[g] += c; hist[Str(g.begin(), g.end() - 1)] += c;
      }
  }
  double N(const Str& g) const { auto i = ng.find(g); return i == ng.end() ? 0 : i->second; }
  double H(const Str& g) const { auto i = hist.find(g); return i == hist.end() ? 0 : i->second; }
  std::set<std::string> vocab() const { std::set<std::string> v = {"<unk>", "<s>", "</s>", "<sp_sym1>"}; for (auto& x : ng) for (auto& w : x.first) v.insert(w); return v; }
  std::string str() const { std::string r; for (auto& x : ng) r += join(x.first) + "=" + mc::str(x.second) + ";"; return r; }
  std::string file(bool rev) const {
    std::vector<std::string> l;
    for (auto& x : ng) { char b[64]; snprintf(b, sizeof b, " %.9g %.9g", H(Str(x.first.begin(), x.first.end() - 1)), x.second); l.push_back(join(x.first) + b); }
    if (rev) std::reverse(l.begin(), l.end());
    std::string r; for (auto& x : l) r += x + "\n";
    return r;
  }
};
struct Weights {
  int order, buckets; double size; std::vector<double> w;
  double of(size_t histLen, double c) const {
    if (buckets == 1) return w[histLen];
    unsigned i = std::min<unsigned>((unsigned)std::trunc(c / size), buckets - 1);
    return w[histLen * buckets + i];
  }
  std::string file() const { std::string r = mc::str(order, " ", buckets, " ", size); for (double x : w) r += " " + mc::str(x); return r + " \n"; }
};
static double refProb(const Counts& k, const Weights& w, Str h, const std::string& t) {
  if (h.size() >= 2) { size_t i = 0; while (i < h.size() && h[i] == "<s>") ++i; if (i) --i; h.erase(h.begin(), h.begin() + i); }
  double zero = 1.0 / k.vocab().size(), p = zero;
  for (int i = (int)h.size(); i >= 0; --i) {   // from the shortest history to the longest
    Str hh(h.begin() + i, h.end()), g = hh; g.push_back(t);
    double c = k.H(hh), ml = c > 0 ? k.N(g) / c : 0, wt = w.of(hh.size(), c);
    p = wt * ml + (1 - wt) * p;
  }
  return p;
}

template <class LM> static std::vector<WordIndex> idx(LM& lm, const Str& s) { std::vector<WordIndex> v; for (auto& x : s) v.push_back(lm.stringToWordIndex(x)); return v; }

// p=0 is log -inf
static bool eqlp(double lp, double p) { return p <= 0 ? (std::isinf(lp) && lp < 0) || lp < -1e5 : close(lp, std::log(p), 2e-5, 2e-5); }

template <class LM> static void checkModel(Ctx& c, const std::string& name, LM& lm, const Counts& k, const Weights& w, const Corpus& tests) {
  auto ctx = [&] { return name + " order=" + str(w.order) + " buckets=" + str(w.buckets) + " counts " + k.str() + ": "; };
  std::set<std::string> voc = k.vocab();
  c.checkf((int)lm.getNgramOrder() == w.order, [&] { return ctx() + "order " + str(lm.getNgramOrder()); });
  c.checkf(lm.getVocabSize() == voc.size(), [&] { return ctx() + "vocabulary size " + str(lm.getVocabSize()) + " instead of " + str(voc.size()); });
  for (auto& v : voc) {
    c.checkf(lm.existSymbol(v), [&] { return ctx() + "symbol " + v + " is not known"; });
    c.checkf(lm.wordIndexToString(lm.stringToWordIndex(v)) == v, [&] { return ctx() + "coding of " + v; });
  }
  bool f; WordIndex bos = lm.getBosId(f); c.checkf(f && bos == lm.stringToWordIndex("<s>"), [&] { return ctx() + "BOS"; });
  WordIndex eos = lm.getEosId(f); c.checkf(f && eos == lm.stringToWordIndex("</s>"), [&] { return ctx() + "EOS"; });
  c.checkf(lm.stringToWordIndex("zz") == lm.stringToWordIndex("<unk>"), [&] { return ctx() + "unknown word"; });
  c.checkf(close((double)lm.getZeroGramProb(), 1.0 / voc.size()), [&] { return ctx() + "zerogram"; });
  std::vector<Str> hs = {{}}, level = {{}};
  for (int n = 1; n < w.order; ++n) { std::vector<Str> nx; for (auto& h : level) for (auto& v : voc) if (v != "</s>" && v != "<sp_sym1>") { Str g = h; g.push_back(v); nx.push_back(g); } hs.insert(hs.end(), nx.begin(), nx.end()); level = nx; }
  for (auto& h : hs) {
    auto hi = idx(lm, h);
    c.checkf(close((double)lm.cHist(hi).get_c_s(), k.H(h)), [&] { return ctx() + "count of history [" + join(h) + "] is " + str((double)lm.cHist(hi).get_c_s()) + " instead of " + str(k.H(h)); });
    c.checkf(close((double)lm.cHistStr(h).get_c_s(), k.H(h)), [&] { return ctx() + "cHistStr [" + join(h) + "]"; });
    double sum = 0; bool seen = true;
    for (size_t i = 0; i <= h.size(); ++i) if (!(k.H(Str(h.begin() + i, h.end())) > 0)) seen = false;
    for (auto& t : voc) {
      Str g = h; g.push_back(t); WordIndex ti = lm.stringToWordIndex(t);
      c.checkf(close((double)lm.cNgram(ti, hi).get_c_s(), k.N(g)), [&] { return ctx() + "count of n-gram [" + join(g) + "] is " + str((double)lm.cNgram(ti, hi).get_c_s()) + " instead of " + str(k.N(g)); });
      c.checkf(close((double)lm.cNgramStr(t, h).get_c_s(), k.N(g)), [&] { return ctx() + "cNgramStr [" + join(g) + "]"; });
      double p = refProb(k, w, h, t), lp = (double)lm.getNgramLgProb(ti, hi);
      c.checkf(eqlp(lp, p), [&] { return ctx() + "P(" + t + " | " + join(h) + ") = " + str(std::exp(lp)) + " instead of " + str(p); });
      c.checkf(eqlp((double)lm.getNgramLgProbStr(t, h), p), [&] { return ctx() + "string P(" + t + " | " + join(h) + ")"; });
      sum += std::exp(lp);
      auto st = hi; double lps = (double)lm.getNgramLgProbGivenState(ti, st);
      auto want = hi; if (!want.empty()) { want.erase(want.begin()); want.push_back(ti); }
      c.checkf(eqlp(lps, p) && st == want, [&] { return ctx() + "state transition of [" + join(h) + "] by " + t; });
      auto st2 = hi; lm.addNextWordToState(ti, st2); c.checkf(st2 == want, [&] { return ctx() + "addNextWordToState"; });
      auto st3 = hi; double l3 = (double)lm.getNgramLgProbGivenStateStr(t, st3); c.checkf(eqlp(l3, p) && st3 == want, [&] { return ctx() + "string state transition of [" + join(h) + "] by " + t; });
      if (t == "</s>") {
        c.checkf(eqlp((double)lm.getLgProbEnd(hi), p) && eqlp((double)lm.getLgProbEndStr(h), p), [&] { return ctx() + "end probability given " + join(h); });
        auto st4 = hi; c.checkf(eqlp((double)lm.getLgProbEndGivenState(st4), p) && st4 == want, [&] { return ctx() + "end probability given the state " + join(h); });
      }
    }
    if (seen) c.checkf(close(sum, 1, 1e-4), [&] { return ctx() + "the probabilities given [" + join(h) + "] add up to " + str(sum); });
  }
  std::vector<WordIndex> st, want(w.order - 1, bos); lm.getStateForBeginOfSentence(st);
  c.checkf(st == want, [&] { return ctx() + "state of the sentence begin"; });
  std::vector<WordIndex> st2; c.checkf(lm.getStateForWordSeq(want, st2) && st2 == want, [&] { return ctx() + "state of a word sequence"; });
  std::string text; double total = 0; unsigned words = 0, sents = 0;
  for (auto& s : tests) {
    Str all(w.order - 1, "<s>"), known; for (auto& x : s) all.push_back(voc.count(x) ? x : "<unk>"); all.push_back("</s>");
    double lp = 0; for (size_t i = w.order - 1; i < all.size(); ++i) lp += std::log10(refProb(k, w, Str(all.begin() + (i - (w.order - 1)), all.begin() + i), all[i]));
    double got = (double)lm.getSentenceLog10ProbStr(s), got2 = (double)lm.getSentenceLog10Prob(idx(lm, s));
    auto ok = [&](double g) { return std::isinf(lp) ? g < -1e5 : close(g, lp, 3e-5, 3e-5); };
    c.checkf(ok(got) && ok(got2), [&] { return ctx() + "log10 probability of '" + join(s) + "' is " + str(got) + " instead of " + str(lp); });
    text += join(s) + "\n";
    if (!s.empty()) { total += lp; words += s.size(); ++sents; }
  }
  std::string cf = c.scratch() + "/corpus"; writeFile(cf, text);
  unsigned ns = 77, nw = 77; LgProb tl = 7; double perp = 7;
  c.check(lm.perplexity(cf.c_str(), ns, nw, tl, perp) == THOT_OK, ctx() + "perplexity failed");
  c.checkf(ns == sents && nw == words, [&] { return ctx() + "perplexity counted " + str(ns) + " sentences and " + str(nw) + " words instead of " + str(sents) + " and " + str(words); });
  if (!std::isinf(total)) c.checkf(close((double)tl, total, 3e-5, 3e-5) && close(perp, std::pow(10, -total / (words + sents)), 1e-3), [&] { return ctx() + "perplexity " + str(perp) + " of\n" + text; });
  c.step(hs.size() * voc.size());
}

static Corpus sentences(int maxlen, const Str& v) {
  Corpus r = {{}}; size_t b = 0;
  for (int l = 0; l < maxlen; ++l) { size_t e = r.size(); for (; b < e; ++b) for (auto& x : v) { Str s = r[b]; s.push_back(x); r.push_back(s); } }
  return r;
}
static Weights pickWeights(Ctx& c, int order) {
  int kind = c.choose(5);
  Weights w; w.order = order; w.buckets = kind < 3 ? 1 : 3; w.size = kind == 3 ? 1 : kind == 4 ? 2.5 : 0;
  for (int i = 0; i < order * w.buckets; ++i) w.w.push_back(kind == 0 ? 0.5 : kind == 1 ? 0.9 - 0.25 * i : kind == 2 ? (i % 2 ? 0.25 : 0.0) : 0.125 + 0.09 * ((i * 5) % 9));
  return w;
}
template <class LM> static void trainBoth(LM& lm, Counts& k, const Corpus& d, int order, bool asVec, double cnt = 1) {
  if (asVec) lm.trainSentenceVec(d, Count((float)cnt)); else for (auto& s : d) lm.trainSentence(s, Count((float)cnt));
  for (auto& s : d) k.sentence(s, order, cnt);
}

// order, training corpus, way of building it (batch file / sentence by sentence / mixed / reversed file)
static void memory(Ctx& c) {
  int order = 1 + c.choose(3);
  Corpus all = sentences(2, {"a", "b"});
  if (order == 3) { all.push_back({"a", "a", "a"}); all.push_back({"a", "b", "a"}); all.push_back({"b", "a", "b", "a"}); }
  int nb = 1 + c.choose(thorough() && order < 3 ? 3 : 2);
  Corpus d; for (int i = 0; i < nb; ++i) d.push_back(c.pick(all));
  int mode = c.choose(4);
  Weights w = pickWeights(c, order);
  Corpus first, rest = d; bool loadsFile = mode != 1;
  if (mode == 0 || mode == 3) { first = d; rest.clear(); } else if (mode == 2) { first = {d[0]}; rest.erase(rest.begin()); }
  std::string p = c.scratch() + "/lm"; writeFile(p + ".weights", w.file());
  Counts k; for (auto& s : first) k.sentence(s, order);
  IncrJelMerNgramLM lm;
  if (loadsFile) {
    writeFile(p, (mode == 3 ? "\n" : "") + k.file(mode == 3) + (mode == 3 ? "\n" : ""));
    c.check(lm.load(p.c_str()) == THOT_OK, "load failed");
  } else { c.check(lm.loadWeights(p.c_str()) == THOT_OK, "loadWeights failed"); lm.setNgramOrder(order); }
  double cnt = mode == 1 && nb == 1 ? 2.5 : 1;
  // a model whose file is of a lower order than requested keeps the order of the file
  int fileOrder = 0; for (auto& x : k.ng) fileOrder = std::max<int>(fileOrder, x.first.size());
  if (loadsFile && fileOrder != order) { c.checkf((int)lm.getNgramOrder() == fileOrder, [&] { return "order of the loaded model is " + str(lm.getNgramOrder()) + " instead of " + str(fileOrder); }); lm.setNgramOrder(order); }
  trainBoth(lm, k, rest, order, mode == 2, cnt);
  Corpus tests = sentences(order == 3 ? 2 : 3, {"a", "b", "zz"}); if (order == 3) tests.push_back({"b", "a", "b", "a"});
  c.state(k.str() + w.file()); c.outcome(k.str());
  checkModel(c, "memory model", lm, k, w, tests);
  // saving and loading again changes nothing
  std::string q = c.scratch() + "/lm2";
  c.check(lm.print(q.c_str()) == THOT_OK, "print failed");
  IncrJelMerNgramLM lm2; c.check(lm2.load(q.c_str()) == THOT_OK, "load of the printed model failed");
  lm2.setNgramOrder(order);
  checkModel(c, "reloaded model", lm2, k, w, tests);
  std::string v = c.scratch() + "/voc"; lm.printVocab(v.c_str());
  IncrJelMerNgramLM lm3; lm3.loadVocab(v.c_str());
  for (auto& x : k.vocab()) c.checkf(lm3.stringToWordIndex(x) == lm.stringToWordIndex(x) && lm3.getVocabSize() == lm.getVocabSize(), [&] { return "vocabulary round trip of " + x; });
  // the descriptor file gives the same model
  std::string ds = c.scratch() + "/desc"; writeFile(ds, "thot lm descriptor\nx lm2 1.0 main\n");
  lm.clear();
  Counts e; for (auto& x : k.ng) { Str h(x.first.begin(), x.first.end() - 1); auto hi = idx(lm, h); c.checkf((double)lm.cNgram(lm.stringToWordIndex(x.first.back()), hi).get_c_s() == 0 && (double)lm.cHist(hi).get_c_s() == 0, [&] { return "counts after clear()"; }); }
}

static void leveldbTwin(Ctx& c) {
  int order = 1 + c.choose(3);
  Corpus all = {{}, {"a"}, {"a", "b"}, {"b", "b", "a"}}, d;
  int nb = 1 + c.choose(2); for (int i = 0; i < nb; ++i) d.push_back(c.pick(all));
  Corpus more; int m = c.choose(3); if (m == 1) more = {{"a", "c"}}; if (m == 2) more = {{"b"}, {"c", "c", "a"}};
  Weights w = pickWeights(c, order);
  Counts k; for (auto& s : d) k.sentence(s, order);
  std::string p = c.scratch() + "/ldb"; runCmd(c, {"rm", "-rf", p});
  Result r = runCmd(c, {bin("thot_ngram_to_leveldb"), "-o", p}, k.file(c.flip()));
  c.check(r.ok(), "thot_ngram_to_leveldb failed: " + r.err);
  writeFile(p + ".weights", w.file());
  Corpus tests = sentences(2, {"a", "b", "zz"});
  {
    IncrJelMerLevelDbNgramLM lm; c.check(lm.load(p.c_str()) == THOT_OK, "load failed");
    checkModel(c, "LevelDB model", lm, k, w, tests);
    // words added by training live in the vocabulary of this object only
    trainBoth(lm, k, more, order, m == 2);
    checkModel(c, "LevelDB model after training", lm, k, w, tests);
    c.state(k.str() + w.file()); c.outcome(k.str());
    if (more.empty()) c.check(lm.print(p.c_str()) == THOT_OK, "print failed");
  }
  if (more.empty()) { IncrJelMerLevelDbNgramLM lm; c.check(lm.load(p.c_str()) == THOT_OK, "reload failed"); checkModel(c, "reopened LevelDB model", lm, k, w, tests); }
}

// arbitrary increments of n-grams, in the models and in the tables below them
typedef std::vector<WordIndex> VI;
template <class T> static void checkTable(Ctx& c, const std::string& name, T& t, const std::map<std::pair<VI, WordIndex>, double>& st, const std::map<VI, double>& s, const std::string& hist) {
  std::vector<VI> S; for (auto& x : s) S.push_back(x.first); S.push_back({9}); S.push_back({7, 9});
  std::set<WordIndex> T_; for (auto& x : st) T_.insert(x.first.second); T_.insert(9);
  auto cs = [&](const VI& a) { auto i = s.find(a); return i == s.end() ? 0 : i->second; };
  auto cst = [&](const VI& a, WordIndex b) { auto i = st.find({a, b}); return i == st.end() ? 0 : i->second; };
  auto where = [&] { return name + " after " + hist + ": "; };
  for (auto& a : S) {
    c.checkf(close(t.cSrc(a).get_c_s(), cs(a)), [&] { return where() + "cSrc[" + join(a) + "] = " + str(t.cSrc(a).get_c_s()) + " instead of " + str(cs(a)); });
    std::map<WordIndex, double> ent; for (auto& x : st) if (x.first.first == a) ent[x.first.second] = x.second;
    for (auto b : T_) {
      c.checkf(close(t.cSrcTrg(a, b).get_c_st(), cst(a, b)), [&] { return where() + "cSrcTrg[" + join(a) + "]," + str(b) + " = " + str(t.cSrcTrg(a, b).get_c_st()) + " instead of " + str(cst(a, b)); });
double p = cst(a, b) > 0 && cs(a) > 0 ? cst(a, b) / cs(a) : 0;
      c.checkf(close((double)t.pTrgGivenSrc(a, b), p), [&] { return where() + "p(" + str(b) + "|" + join(a) + ") = " + str((double)t.pTrgGivenSrc(a, b)) + " instead of " + str(p); });
    }
    if (!a.empty() && (ent.empty() || cs(a) > 0)) {
      typename T::TrgTableNode n; bool f = t.getEntriesForSource(a, n);
      c.checkf(f == !ent.empty() && n.size() == ent.size(), [&] { return where() + "getEntriesForSource[" + join(a) + "] has " + str(n.size()) + " entries instead of " + str(ent.size()); });
      for (auto& x : n) c.checkf(ent.count(x.first) && close(x.second.second.get_c_st(), ent[x.first]) && close(x.second.first.get_c_s(), cs(a)), [&] { return where() + "getEntriesForSource[" + join(a) + "] entry " + str(x.first); });
      NbestTableNode<WordIndex> nb; bool g = t.getNbestForSrc(a, nb); double last = 1e9; std::set<WordIndex> seen;
      c.checkf(g == !ent.empty() && nb.size() == ent.size(), [&] { return where() + "getNbestForSrc[" + join(a) + "]"; });
      for (auto i = nb.begin(); i != nb.end(); i++) { double want = std::log(ent[i->second] / cs(a)); c.checkf(i->first <= last && close(i->first, want, 1e-4, 1e-4) && seen.insert(i->second).second, [&] { return where() + "getNbestForSrc[" + join(a) + "] entry " + str(i->second) + " has score " + str((double)i->first); }); last = i->first; }
    }
  }
  for (auto b : T_) {
    std::map<VI, double> ent; double tot = 0; for (auto& x : st) if (x.first.second == b && !x.first.first.empty()) { ent[x.first.first] = x.second; tot += x.second; }
    c.checkf(close(t.cTrg(b).get_c_st(), tot), [&] { return where() + "cTrg(" + str(b) + ") = " + str(t.cTrg(b).get_c_st()) + " instead of " + str(tot); });
    typename T::SrcTableNode n; bool f = t.getEntriesForTarget(b, n);
    c.checkf(f == !ent.empty() && n.size() == ent.size(), [&] { return where() + "getEntriesForTarget(" + str(b) + ") has " + str(n.size()) + " entries instead of " + str(ent.size()); });
    for (auto& x : n) c.checkf(ent.count(x.first) && close(x.second.second.get_c_st(), ent[x.first]) && close(x.second.first.get_c_s(), cs(x.first)), [&] { return where() + "getEntriesForTarget(" + str(b) + ") entry " + join(x.first); });
    bool counted = true; for (auto& x : ent) if (!(cs(x.first) > 0)) counted = false;
    if (counted) for (int N : {-1, 0, 1, 2}) {   // scores are defined when the histories have counts
      NbestTableNode<VI> nb; bool g = t.getNbestForTrg(b, nb, N); double last = 1e9;
      c.checkf(g == !ent.empty() && nb.size() == (N < 0 ? ent.size() : std::min<size_t>(N, ent.size())), [&] { return where() + "getNbestForTrg(" + str(b) + "," + str(N) + ")"; });
      std::vector<double> sc; for (auto& x : ent) sc.push_back(std::log(x.second / cs(x.first))); std::sort(sc.rbegin(), sc.rend()); size_t k = 0;
      for (auto i = nb.begin(); i != nb.end(); i++, ++k) { c.checkf(ent.count(i->second) && i->first <= last && close(i->first, sc[k], 1e-4, 1e-4), [&] { return where() + "getNbestForTrg(" + str(b) + "," + str(N) + ") entry [" + join(i->second) + "]"; }); last = i->first; }
    }
  }
}
// histories of entries in prefix order: the count of a non-empty history is the count of the n-gram it is
static void tables(Ctx& c) {
  static const std::vector<std::pair<VI, WordIndex>> ops = {{{}, 5}, {{5}, 6}, {{5}, 5}, {{5, 6}, 5}, {{5, 6}, 300}, {{}, 300}, {{300}, 6}};
  int L = thorough() ? 4 : 3;
  bool ldb = c.flip();
  vecx_x_incr_cptable<WordIndex, Count, Count> mem; LevelDbNgramTable lt; std::string p = c.scratch() + "/tab";
  if (ldb) c.check(lt.init(p) == THOT_OK, "init failed");
  std::map<std::pair<VI, WordIndex>, double> st; std::map<VI, double> s; std::string hist;
  for (int i = 0; i < L; ++i) {
    unsigned o = c.choose(ops.size() * 2 + 2);
    if (o == ops.size() * 2) { if (ldb) lt.clear(); else mem.clear(); st.clear(); s.clear(); hist += "clear "; }
    else if (o == ops.size() * 2 + 1) { if (!ldb) throw Skip(); c.check(lt.load(p.c_str()) == THOT_OK, "reopening failed"); hist += "reopen "; }
    else {
      auto& e = ops[o / 2]; double k = o % 2 ? 0.5 : 3; VI full = e.first; full.push_back(e.second);
      if (o % 2) {   // increment by the log count
        if (ldb) { if (!e.first.empty() && !s.count(e.first)) { lt.addSrcInfo(e.first, Count(1.f)); st[{VI(e.first.begin(), e.first.end() - 1), e.first.back()}] = 1; s[e.first] = 1; }
          lt.incrCountsOfEntry(e.first, e.second, Count((float)k)); st[{e.first, e.second}] += k; s[full] = st[{e.first, e.second}]; if (e.first.empty()) s[{}] += k; }
        else { mem.incrCountsOfEntry(e.first, e.second, Count((float)k)); st[{e.first, e.second}] += k; s[e.first] += k; }
        hist += "incr[" + join(e.first) + "]" + str(e.second) + " ";
      } else {
        im_pair<Count, Count> inf; inf.first = Count(8.f); inf.second = Count((float)k);
        if (ldb) { lt.addTableEntry(e.first, e.second, inf); s[e.first] = 8; if (!e.first.empty()) st[{VI(e.first.begin(), e.first.end() - 1), e.first.back()}] = 8; st[{e.first, e.second}] = k; s[full] = k; }
        else { mem.addTableEntry(e.first, e.second, inf); s[e.first] = 8; st[{e.first, e.second}] = k; }
        hist += "add[" + join(e.first) + "]" + str(e.second) + " ";
      }
    }
    c.step(); c.state(hist);
    if (ldb) { checkTable(c, "LevelDB table", lt, st, s, hist);
      size_t n = 0; for (auto it = lt.begin(); it != lt.end(); it++) { auto x = *it; ++n; VI h(x.first.begin(), x.first.end() - 1); c.checkf(st.count({h, x.first.back()}) && close(x.second.get_c_st(), st[{h, x.first.back()}]), [&] { return "LevelDB iteration after " + hist + ": entry [" + join(x.first) + "]"; }); }
      c.checkf(n == st.size() && lt.size() == st.size(), [&] { return "LevelDB iteration after " + hist + ": " + str(n) + " entries, size() " + str(lt.size()) + " instead of " + str(st.size()); });
    } else checkTable(c, "memory table", mem, st, s, hist);
  }
  c.outcome(hist);
}
// many words (codes beyond one byte) and large counts
static void growth(Ctx& c) {
  int n = c.pick(std::vector<int>{3, 120, 260, 300}); bool big = c.flip(); int kind = c.choose(3);
  Weights w; w.order = 2; w.buckets = 1; w.size = 0; w.w = {0.5, 0.75};
  Counts k; Str s; for (int i = 0; i < n; ++i) s.push_back("w" + str(i)); k.sentence(s, 2);
  if (big) { k = Counts(); for (int i = 0; i < 2; ++i) k.sentence(s, 2, 1000003); }
  std::string p = c.scratch() + "/g"; writeFile(p, k.file(false)); writeFile(p + ".weights", w.file());
  auto look = [&](auto& lm, const std::string& name) {
    for (int i = 0; i + 1 < n; ++i) for (int j : {i, i + 1}) {
      Str h = {s[i]}; double pr = refProb(k, w, h, s[j]), lp = (double)lm.getNgramLgProb(lm.stringToWordIndex(s[j]), idx(lm, h)); c.step();
      c.checkf(eqlp(lp, pr), [&] { return name + " with " + str(n) + " words: P(" + s[j] + "|" + s[i] + ") = " + str(std::exp(lp)) + " instead of " + str(pr); });
      Str g = {s[i], s[j]}; double got = (double)lm.cNgram(lm.stringToWordIndex(s[j]), idx(lm, h)).get_c_s();
      c.checkf(close(got, k.N(g), 4e-6), [&] { return name + ": count of " + join(g) + " is " + str(got); });
    }
    lm.trainSentence(s); k.sentence(s, 2);
    Str h = {s[0]}; double got = (double)lm.cNgram(lm.stringToWordIndex(s[1]), idx(lm, h)).get_c_s(), hc = (double)lm.cHist({}).get_c_s();
    c.checkf(close(got, k.N({s[0], s[1]}), 4e-6), [&] { return name + ": count of the first bigram after one more sentence is " + std::to_string(got) + " instead of " + std::to_string(k.N({s[0], s[1]})); });
    c.checkf(close(hc, k.H({}), 4e-6), [&] { return name + ": total count after one more sentence is " + str(hc) + " instead of " + str(k.H({})); });
  };
  c.state(str(n, big, kind));
  if (kind == 2) {   // the tables keep large counts exactly
    double c0 = big ? 2000006 : n; LevelDbNgramTable lt; lt.init(c.scratch() + "/gt"); vecx_x_incr_cptable<WordIndex, Count, Count> mem; im_pair<Count, Count> inf; inf.first = Count((float)c0); inf.second = Count((float)c0);
    VI h = {(WordIndex)n}; lt.addTableEntry(h, n + 1, inf); mem.addTableEntry(h, n + 1, inf); lt.addTableEntry({}, n, inf); mem.addTableEntry({}, n, inf);
    for (int i = 1; i <= 20; ++i) {
      lt.incrCountsOfEntry(h, n + 1, Count(1.f)); mem.incrCountsOfEntry(h, n + 1, Count(1.f)); lt.incrCountsOfEntry({}, n, Count(1.f)); c.step(4);
      c.checkf(lt.cSrcTrg(h, n + 1).get_c_st() == c0 + i && mem.cSrcTrg(h, n + 1).get_c_st() == c0 + i && lt.cSrc({}).get_c_s() == c0 + i && lt.cSrc(h).get_c_s() == c0 + i, [&] { return "counts " + std::to_string(c0) + " incremented " + str(i) + " times are " + std::to_string(lt.cSrcTrg(h, n + 1).get_c_st()) + " " + std::to_string(mem.cSrcTrg(h, n + 1).get_c_st()); });
    }
  }
  else if (kind == 0) { IncrJelMerNgramLM lm; lm.load(p.c_str()); look(lm, "memory model"); }
  else {
    std::string q = c.scratch() + "/gl"; runCmd(c, {"rm", "-rf", q});
    c.check(runCmd(c, {bin("thot_ngram_to_leveldb"), "-o", q}, k.file(false)).ok(), "thot_ngram_to_leveldb failed"); writeFile(q + ".weights", w.file());
    IncrJelMerLevelDbNgramLM lm; c.check(lm.load(q.c_str()) == THOT_OK, "load"); look(lm, "LevelDB model");
  }
}
int main(int argc, char** argv) {
  if (freopen("/dev/null", "w", stderr)) {}
  return run(argc, argv, "P04", {
    {"memory", "orders 1-3, every corpus of up to two (thorough: three) sentences of up to two words over two words (order 3 also three longer ones), built from the count file (in two line orders), by incremental training, or mixed; five weight tables incl. buckets; every history and word incl. unknown ones, every test sentence; save/load", memory, 4},
    {"leveldb", "orders 1-3, corpora of one or two sentences, converted by thot_ngram_to_leveldb, optional further training, reopening", leveldbTwin, 4, 60},
    {"tables", "every sequence of three (thorough: four) additions, increments, clears and reopenings over seven n-grams on both n-gram tables", tables, 3, 60},
    {"growth", "vocabularies of 3 to 300 words, counts up to 2 million, both models", growth, 2, 60},
  });
}
