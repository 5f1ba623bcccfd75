// A complete log-linear decoder built from the library's own parts, and a reference that scores and enumerates all derivations
#ifndef VERIF_DECODER_H
#define VERIF_DECODER_H
#include <memory>
#include <functional>
#include "mc.h"
#include "prog.h"
#include "ins_op_pair.h"
#include "PbTransModel.h"
#include "PhrHypNumcovJumps01EqClassF.h"
#include "multi_stack_decoder_rec.h"
#include "TranslationMetadata.h"
#include "PhrScoreInfo.h"
#include "WordPenaltyFeat.h"
#include "SrcPosJumpFeat.h"
#include "SrcPhraseLenFeat.h"
#include "TrgPhraseLenFeat.h"
#include "LangModelFeat.h"
#include "DirectPhraseModelFeat.h"
#include "InversePhraseModelFeat.h"
#include "WordPenaltyModel.h"
#include "IncrJelMerNgramLM.h"
#include "WbaIncrPhraseModel.h"
#include "SmoothedIncrIbm1AligModel.h"
typedef PbTransModel<PhrHypNumcovJumps01EqClassF> Model;
typedef Model::Hypothesis Hyp;
typedef multi_stack_decoder_rec<Model> Decoder;
typedef std::vector<std::string> Str;
struct Entry { Str s, t; double n; };
typedef std::vector<Entry> Table;
// what the probabilities come from
struct World {
  Table table; WbaIncrPhraseModel pm; IncrJelMerNgramLM lm; WordPenaltyModel wp;
  std::map<Str, double> cs, ct; std::map<std::pair<Str, Str>, double> cst; std::map<Str, std::set<Str>> opts;
  World(mc::Ctx& c, const Table& t, const std::vector<Str>& corpus, int order) : table(t) {
    for (auto& e : t) { pm.strIncrCountsOfEntry(e.t, e.s, Count((float)e.n)); cs[e.s] += e.n; ct[e.t] += e.n; cst[{e.s, e.t}] += e.n; opts[e.s].insert(e.t); }
    std::string f = c.scratch() + "/lmw"; std::string w = mc::str(order, " 1 0"); for (int i = 0; i < order; ++i) w += mc::str(" ", 0.7 - 0.1 * i);
    mc::writeFile(f + ".weights", w + "\n"); lm.loadWeights(f.c_str()); lm.setNgramOrder(order);
    for (auto& s : corpus) lm.trainSentence(s, Count(1));
  }
  // single-word models trained on the phrase pairs, over the vocabulary of the phrase model
  std::unique_ptr<SmoothedIncrIbm1AligModel> swd, swi;
  void words() {
    if (swd) return;
    swd.reset(new SmoothedIncrIbm1AligModel); swi.reset(new SmoothedIncrIbm1AligModel);
    for (size_t i = 0; i < pm.getTrgVocabSize(); ++i) { std::string x = pm.wordIndexToTrgString(i); swd->addSrcSymbol(x); swi->addTrgSymbol(x); }
    for (size_t i = 0; i < pm.getSrcVocabSize(); ++i) { std::string x = pm.wordIndexToSrcString(i); swd->addTrgSymbol(x); swi->addSrcSymbol(x); }
    std::pair<unsigned, unsigned> rg; for (auto& e : table) { swd->addSentPair(e.s, e.t, Count(1), rg); swi->addSentPair(e.t, e.s, Count(1), rg); }
    for (int i = 0; i < 2; ++i) { swd->trainAllSents(); swi->trainAllSents(); }
  }
  std::vector<WordIndex> si(const Str& s) { std::vector<WordIndex> r; for (auto& x : s) r.push_back(pm.stringToTrgWordIndex(x)); return r; }
  std::vector<WordIndex> ti(const Str& s) { std::vector<WordIndex> r; for (auto& x : s) r.push_back(pm.stringToSrcWordIndex(x)); return r; }
  double mix(double lambda, double p, double sw) { double a = std::exp(p) * lambda; if (std::log(a) <= LOG_PHRASE_PROB_SMOOTH) a = 0; return std::log(a + (1 - lambda) * std::exp(sw)); }
  double direct(const Str& s, const Str& t, double lambda) { if (lambda == 1) return direct(s, t); words(); return mix(lambda, direct(s, t), (double)swd->calcLgProbPhr(si(s), ti(t))); }
  double inverse(const Str& s, const Str& t, double lambda) { if (lambda == 1) return inverse(s, t); words(); return mix(lambda, inverse(s, t), (double)swi->calcLgProbPhr(ti(t), si(s))); }
  double direct(const Str& s, const Str& t) { auto i = cst.find({s, t}); double p = i == cst.end() ? LOG_PHRASE_PROB_SMOOTH : std::log(i->second / cs[s]); return std::max<double>(p, LOG_PHRASE_PROB_SMOOTH); }
  double inverse(const Str& s, const Str& t) { auto i = cst.find({s, t}); double p = i == cst.end() ? LOG_PHRASE_PROB_SMOOTH : std::log(i->second / ct[t]); return std::max<double>(p, LOG_PHRASE_PROB_SMOOTH); }
  double langModel(const Str& t) { return (double)lm.getSentenceLog10ProbStr(t) * std::log(10.0); }
  double jump(int off) { return std::abs(off) * std::log((float)(1 - 0.999)) + std::log((float)0.999); }
};
struct Seg { unsigned l, r; Str t; };                    // source positions l..r (from 1) translated by t
typedef std::vector<Seg> Deriv;
struct Setup { unsigned U, A, S, I, E; float W; bool breadth; unsigned heur; std::vector<float> w; double lambda = 1; };
static std::string show(const Deriv& d) { std::string r; for (auto& s : d) r += mc::str("[", s.l, "-", s.r, " ", mc::join(s.t), "]"); return r; }
static Str target(const Deriv& d) { Str t; for (auto& s : d) t.insert(t.end(), s.t.begin(), s.t.end()); return t; }
// features of a complete derivation
static std::vector<double> features(World& w, const Str& src, const Deriv& d, double lambda = 1) {
  std::vector<double> f(7, 0.0); Str t = target(d); unsigned prev = 0, len = 0;
  f[0] = (double)w.wp.wordPenaltyScore(t.size()); f[1] = w.langModel(t);
  SentSegmentation segs; for (auto& s : d) segs.push_back({s.l, s.r});
  for (size_t i = 0; i < d.size(); ++i) {
    Str p(src.begin() + d[i].l - 1, src.begin() + d[i].r);
    f[2] += w.direct(p, d[i].t, lambda); f[3] += w.inverse(p, d[i].t, lambda); f[4] += w.jump((int)d[i].l - (int)(prev + 1)); prev = d[i].r;
    f[5] += (double)w.pm.trgSegmLenLgProb(i, segs, src.size(), d[i].t.size());
    f[6] += (double)w.pm.srcSegmLenLgProb(len + d[i].t.size(), len, 0); len += d[i].t.size();
  }
  return f;
}
static double dot(const std::vector<double>& f, const std::vector<float>& w) { double r = 0; for (size_t i = 0; i < f.size(); ++i) r += f[i] * w[i]; return r; }
// translations of positions l..r
typedef std::function<std::set<Str>(unsigned l, unsigned r, size_t done, unsigned cov)> Options;  // cov: what is covered after it
static std::set<Str> tableOptions(World& w, const Str& src, unsigned l, unsigned r) {
  Str p(src.begin() + l - 1, src.begin() + r); auto i = w.opts.find(p);
  if (i != w.opts.end()) return i->second;
  if (l == r) return {{UNK_WORD_STR}};
  return {};
}
static void derive(const Str& src, unsigned U, unsigned A, const Options& opt, Deriv& d, size_t done, unsigned cov, const std::function<void(const Deriv&)>& f) {
  unsigned n = src.size();
  if (cov == (1u << n) - 1) return f(d);
  for (unsigned l = 1; l <= n; ++l) {
    if (cov >> (l - 1) & 1) continue;
    unsigned g = l; while (g > 1 && !(cov >> (g - 2) & 1)) --g;
    if (l - g > U) continue;
    unsigned now = cov;
    for (unsigned r = l; r <= n && r - l < A && !(cov >> (r - 1) & 1); ++r) {
      now |= 1u << (r - 1);
      for (auto& t : opt(l, r, done, now)) { d.push_back({l, r, t}); derive(src, U, A, opt, d, done + t.size(), now, f); d.pop_back(); }
    }
  }
}
// the library's decoder
struct Engine {
  World& w; Model m; Decoder dec; TranslationMetadata<PhrScoreInfo> md; FeaturesInfo<PhrScoreInfo> std_, custom;
  WordPenaltyFeat<PhrScoreInfo> fwp; LangModelFeat<PhrScoreInfo> flm; DirectPhraseModelFeat<PhrScoreInfo> fd; InversePhraseModelFeat<PhrScoreInfo> fi;
  SrcPosJumpFeat<PhrScoreInfo> fj; SrcPhraseLenFeat<PhrScoreInfo> fs; TrgPhraseLenFeat<PhrScoreInfo> ft;
  Engine(mc::Ctx& c, World& w_, const Setup& s, bool wg = false) : w(w_) {
    fwp.link_wpm(&w.wp); flm.link_lm(&w.lm);
    if (s.lambda != 1) { w.words(); auto as = [](SmoothedIncrIbm1AligModel* m) { return (BaseSwAligModel<PpInfo>*)(void*)(BaseSwAligModel<std::vector<Prob>>*)m; }; fd.link_swm(as(w.swd.get())); fi.link_swm(as(w.swi.get()));  /* as the dynamically loaded models are */ }
    fd.link_pm(&w.pm); fd.set_lambda(s.lambda); fi.link_pm(&w.pm); fi.set_lambda(s.lambda); fj.link_pm(&w.pm); fs.link_pm(&w.pm); ft.link_pm(&w.pm);
    std_.featPtrVec = {&fwp, &flm, &fd, &fi, &fj, &fs, &ft};
    m.link_trans_metadata(&md); m.link_std_feats_info(&std_); m.link_custom_feats_info(&custom);
    m.setVerbosity(0); m.set_W_par(s.W); m.set_A_par(s.A); m.set_U_par(s.U); m.set_E_par(s.E); m.setHeuristic(s.heur); m.setWeights(s.w);
    c.check(dec.link_smt_model(&m) == THOT_OK, "the model cannot be linked to the decoder");
    dec.setVerbosity(0); dec.set_S_par(s.S); dec.set_I_par(s.I); dec.set_breadthFirst(s.breadth); dec.useBestScorePruning(false);
    if (wg) dec.enableWordGraph();
  }
  Deriv derivation(mc::Ctx& c, const Hyp& h, const Str& src, bool unk = true) {
    Deriv d; auto data = h.getData(); size_t p = 0; Str plain = m.getTransInPlainTextVec(h);
    c.checkf(data.sourceSegmentation.size() == data.targetSegmentCuts.size(), [&] { return std::string("source and target segmentations differ in length"); });
    for (size_t i = 0; i < data.sourceSegmentation.size(); ++i) {
      Seg s{data.sourceSegmentation[i].first, data.sourceSegmentation[i].second, {}};
      for (; p < data.targetSegmentCuts[i] && p < plain.size(); ++p) s.t.push_back(plain[p]);
      if (unk && s.l == s.r && s.l >= 1 && s.l <= src.size() && !w.opts.count({src[s.l - 1]}) && s.t == Str{src[s.l - 1]}) s.t = {UNK_WORD_STR};
      d.push_back(s);
    }
    c.checkf(p == plain.size(), [&] { return mc::str("the segments cover ", p, " of the ", plain.size(), " target words"); });
    return d;
  }
};
#endif
