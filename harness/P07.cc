// P07: word alignment models saved and reloaded
// SOURCES: sw_models/IncrIbm1AligModel.cc sw_models/IncrIbm2AligModel.cc sw_models/SmoothedIncrIbm1AligModel.cc sw_models/SmoothedIncrIbm2AligModel.cc sw_models/_incrHmmAligModel.cc sw_models/_incrHmmP0AligModel.cc sw_models/IncrHmmAligModel.cc sw_models/IncrHmmP0AligModel.cc sw_models/IncrLevelDbHmmP0AligModel.cc sw_models/IncrLexTable.cc sw_models/IncrLexLevelDbTable.cc sw_models/IncrIbm2AligTable.cc sw_models/IncrHmmAligTable.cc sw_models/anjiMatrix.cc sw_models/anjm1ip_anjiMatrix.cc sw_models/LightSentenceHandler.cc sw_models/WeightedIncrNormSlm.cc sw_models/_sentLengthModel.cc sw_models/aSource.cc sw_models/aSourceHmm.cc sw_models/CachedHmmAligLgProb.cc sw_models/DoubleMatrix.cc nlp_common/WordAligMatrix.cc nlp_common/MathFuncs.cc nlp_common/SingleWordVocab.cc nlp_common/AwkInputStream.cc nlp_common/StrProcUtils.cc nlp_common/printAligFuncs.cc nlp_common/Prob.cc nlp_common/Count.cc nlp_common/LM_State.cc phrase_models/AlignmentExtractor.cc
#include <memory>
#include "mc.h"
#include "prog.h"
#include "SmoothedIncrIbm1AligModel.h"
#include "SmoothedIncrIbm2AligModel.h"
#include "IncrHmmAligModel.h"
#include "IncrHmmP0AligModel.h"
#include "IncrLevelDbHmmP0AligModel.h"
#include "SwDefs.h"
using namespace mc;
static bool thorough() { const char* t = getenv("VERIF_TIER"); return t && std::string(t) == "thorough"; }
typedef std::vector<std::string> Str;
struct Pair { Str s, t; double c; };
typedef std::vector<Pair> Corpus;
static std::string show(const Corpus& k) { std::string r; for (auto& p : k) r += "[" + join(p.s) + " | " + join(p.t) + " | " + mc::str(p.c) + "]"; return r; }
enum Kind { IBM1, IBM2, S1, S2, HMM, P0, LP0, NKIND };
static const char* kindName[] = {"IBM1", "IBM2", "Smoothed-IBM1", "Smoothed-IBM2", "HMM", "HMM-p0", "LevelDB-HMM-p0"};
static const std::vector<Corpus>& corpora() {
  static const std::vector<Corpus> K = {
    {{{"a"}, {"x"}, 1}, {{"a", "b"}, {"x", "y"}, 1}, {{"b"}, {"y"}, 1}},
    {{{"a", "b"}, {"x", "y"}, 2}, {{"b", "a"}, {"x"}, 0.5}, {{"a", "a"}, {"y", "x", "x"}, 3}},
    {{{"\xc3\xb1", "NULL"}, {"|||", "."}, 0.1}, {{"a", "#"}, {"\xe6\x97\xa5", "x"}, 7}, {{"NULL", "a"}, {"UNKNOWN_WORD", "x", "."}, 1}},
    {{{"a"}, {}, 1}, {{"a", "b"}, {"y"}, 1}, {{}, {"x"}, 2}}};
  return K;
}
template <class M> static const bool isHmm = std::is_base_of<_incrHmmAligModel, M>::value;
// everything a user can ask a model, as text and numbers
struct View { std::map<std::string, double> num; std::map<std::string, std::string> txt; };
template <class M> static View view(M& m) {
  View v; unsigned n = m.numSentPairs(); v.txt["pairs"] = str(n); std::set<std::string> sv, tv;
  v.txt["vocabularies"] = str(m.getSrcVocabSize()) + " " + str(m.getTrgVocabSize());
  std::vector<Pair> ps;
  for (unsigned i = 0; i < n; ++i) {
    Str s, t; Count k; if (m.nthSentPair(i, s, t, k) == THOT_ERROR) v.txt["pair" + str(i)] = "error";
    else { v.txt["pair" + str(i)] = join(s) + " | " + join(t); v.num["count" + str(i)] = (double)(float)k; ps.push_back({s, t, 1}); }
  }
  for (WordIndex i = 0; i < m.getSrcVocabSize(); ++i) { std::string w = m.wordIndexToSrcString(i); v.txt["src" + str(i)] = w + "/" + str(m.stringToSrcWordIndex(w)) + str(m.existSrcSymbol(w)); }
  for (WordIndex i = 0; i < m.getTrgVocabSize(); ++i) { std::string w = m.wordIndexToTrgString(i); v.txt["trg" + str(i)] = w + "/" + str(m.stringToTrgWordIndex(w)) + str(m.existTrgSymbol(w)); }
  v.txt["unknown"] = str(m.existSrcSymbol("nosuchword")) + str(m.existTrgSymbol("nosuchword"));
  for (WordIndex s = 0; s < m.getSrcVocabSize(); ++s) for (WordIndex t = 0; t < m.getTrgVocabSize(); ++t) v.num["p(" + str(t) + "|" + str(s) + ")"] = (double)m.pts(s, t);
  if constexpr (!isHmm<M>) for (WordIndex t = 0; t < m.getTrgVocabSize(); ++t) {
    typename M::SrcTableNode tn; bool f = m.getEntriesForTarget(t, tn); std::string l; std::set<WordIndex> ws; for (auto i = tn.begin(); i != tn.end(); ++i) ws.insert(i->first);
    for (auto w : ws) l += str(w) + " "; v.txt["entries for " + str(t)] = f && !ws.empty() ? l : "none";
  }
  for (unsigned s = 1; s <= 3; ++s) for (unsigned t = 1; t <= 4; ++t) v.num["length " + str(t) + "|" + str(s)] = (double)m.sentLenProb(s, t);
  if constexpr (std::is_base_of<IncrIbm2AligModel, M>::value) for (unsigned s = 1; s <= 3; ++s) for (unsigned t = 1; t <= 3; ++t) for (unsigned j = 1; j <= t; ++j) for (unsigned i = 0; i <= s; ++i) v.num["a(" + str(i) + "|" + str(j) + "," + str(s) + "," + str(t) + ")"] = (double)m.aProb(j, s, t, i);
  if constexpr (isHmm<M>) for (unsigned s = 1; s <= 3; ++s) for (unsigned p = 0; p <= 2 * s; ++p) for (unsigned i = 1; i <= 2 * s; ++i) v.num["a(" + str(i) + "|" + str(p) + "," + str(s) + ")"] = (double)m.aProb(p, s, i);
  for (auto& p : ps) if (!p.s.empty() && !p.t.empty()) {
    std::string nm = join(p.s) + "|" + join(p.t); WordAligMatrix w; double b = (double)m.obtainBestAlignmentVecStr(p.s, p.t, w);
    v.num["best " + nm] = std::exp(b); v.num["sum " + nm] = std::exp((double)m.calcLgProbVecStr(p.s, p.t));
  }
  return v;
}
static void same(Ctx& c, const View& a, const View& b, const std::string& hist, double tol = 1e-4) {
  for (auto& x : a.txt) { auto i = b.txt.find(x.first); c.checkf(i != b.txt.end() && i->second == x.second, [&] { return hist + ": " + x.first + " is '" + (i == b.txt.end() ? "missing" : i->second) + "' instead of '" + x.second + "'"; }); }
  for (auto& x : a.num) { auto i = b.num.find(x.first); c.checkf(i != b.num.end() && std::fabs(i->second - x.second) <= tol && !std::isnan(i->second), [&] { return hist + ": " + x.first + " is " + (i == b.num.end() ? "missing" : str(i->second)) + " instead of " + str(x.second); }); }
  c.checkf(a.txt.size() == b.txt.size() && a.num.size() == b.num.size(), [&] { return hist + ": other things answered"; });
}
template <class M> static void symbols(M& m, const Pair& p) { for (auto& w : p.s) m.addSrcSymbol(w); for (auto& w : p.t) m.addTrgSymbol(w); }
template <class M> static void add(M& m, const Pair& p) { std::pair<unsigned, unsigned> rg; m.addSentPair(p.s, p.t, p.c, rg); symbols(m, p); }
// one training step out of the menu; the same on every model of the list
template <class M> static std::string step(std::vector<M*> ms, unsigned o, unsigned have, const Corpus& k, unsigned& added) {
  if (o < have) { for (auto m : ms) m->trainSentPairRange({o, o}); return " train" + str(o); }
  if (o == have) { for (auto m : ms) m->trainAllSents(); return " trainall"; }
  if (o == have + 1) { for (auto m : ms) m->efficientBatchTrainingForRange({0, have - 1}); return " batch"; }
  if (have == k.size()) throw Skip();
  for (auto m : ms) add(*m, k[have]); added = 1; return " add";
}
template <class M> static bool prepare(Ctx& c, M& m, const std::string& d) { if constexpr (std::is_base_of<IncrLevelDbHmmP0AligModel, M>::value) { c.check(m.init(d.c_str()) == THOT_OK, "init of the LevelDB model failed"); } return true; }
template <class M> static void roundTrip(Ctx& c, int kind, int before, int after) {
  const bool ldb = std::is_base_of<IncrLevelDbHmmP0AligModel, M>::value;
  std::string d = freshDir(c);
  std::unique_ptr<M> m(new M); prepare(c, *m, d + "/orig");
  const Corpus& k = corpora()[c.choose(corpora().size() - (isHmm<M> && !thorough() ? 2 : 0)) + (isHmm<M> && !thorough() ? 1 : 0)]; unsigned lim = c.choose(ldb ? 2 : 3); int pre = c.choose(3);
  std::string hist = std::string(kindName[kind]) + " " + show(k);
  if (lim) { m->set_expval_maxnsize(lim); hist += " keeping " + str(lim); }
  if (isHmm<M> && c.flip()) { if constexpr (isHmm<M>) { m->setLexSmIntFactor(0.25); m->setAlSmIntFactor(0.5); } if constexpr (std::is_base_of<_incrHmmP0AligModel, M>::value) m->set_hmm_p0(0.3); hist += " other smoothing"; }
  unsigned have = 0;
  if (c.flip()) {
    std::string a, b, w; for (unsigned i = 0; i < 2; ++i) { a += join(k[i].s) + "\n"; b += join(k[i].t) + "\n"; w += str(k[i].c) + "\n"; }
    writeFile(d + "/s", a); writeFile(d + "/t", b); writeFile(d + "/c", w); std::pair<unsigned, unsigned> rg;
    c.check(m->readSentencePairs((d + "/s").c_str(), (d + "/t").c_str(), (d + "/c").c_str(), rg) == THOT_OK, hist + ": reading sentence pairs"); symbols(*m, k[0]); symbols(*m, k[1]); have = 2; hist += " files";
  } else { add(*m, k[0]); have = 1; }
  for (int i = 0; i < before; ++i) { unsigned a = 0; hist += step<M>({m.get()}, c.choose(have + 3), have, k, a); have += a; c.step(); }
  View v = view(*m); std::string P = d + "/model"; hist += " print";
  if (pre == 2) {   // another model was saved there before
    hist += " over an older model"; std::unique_ptr<M> o(new M); prepare(c, *o, d + "/older"); if (!lim) o->set_expval_maxnsize(1); add(*o, {{"p", "q"}, {"x", "r", "s"}, 3}); add(*o, {{"a"}, {"x"}, 3}); o->trainAllSents();
    c.check(o->print(P.c_str()) == THOT_OK, hist + ": printing failed");
  }
  c.checkf(m->print(P.c_str()) == THOT_OK, [&] { return hist + ": printing failed"; });
  same(c, v, view(*m), hist + ": printing changed the model", 1e-9);
  if (ldb) { m.reset(); }
  M l; prepare(c, l, d + "/other");
  if (pre == 1) {   // loading replaces what the object held
    add(l, {{"p", "q"}, {"x", "r", "s"}, 3}); add(l, {{"a"}, {"x"}, 3}); l.trainAllSents(); if (!lim) l.set_expval_maxnsize(1); hist += " into a used model";
  }
  c.checkf(l.load(P.c_str()) == THOT_OK, [&] { return hist + " load: failed"; });
  hist += " load"; c.step(); c.log(hist); same(c, v, view(l), hist);
  // training goes on as it would have without the interruption
  for (int i = 0; i < after; ++i) {
    unsigned a = 0; std::vector<M*> ms = {&l}; if (m) ms.push_back(m.get());
    hist += step<M>(ms, c.choose(have + 3), have, k, a); have += a; c.step(); c.log(hist);
    View x = view(l); if (m) same(c, view(*m), x, hist, 1e-3);
  }
  // printing over the files the model was loaded from
  View x = view(l); hist += " print-again";
  c.checkf(l.print(P.c_str()) == THOT_OK, [&] { return hist + ": failed"; });
  same(c, x, view(l), hist + ": printing changed the model", 1e-9);
  if (!ldb) { M z; c.checkf(z.load(P.c_str()) == THOT_OK, [&] { return hist + " load: failed"; }); same(c, x, view(z), hist + " load"); }
  l.clear(); c.check(l.numSentPairs() == 0, hist + ": clear keeps sentence pairs");
  c.state(hashStr(hist)); c.outcome(hist);
}
// a file that is missing or a bad prefix is refused
template <class M> static void missing(Ctx& c, int kind) {
  std::string d = freshDir(c); static const char* ext[] = {"", ".src", ".trg", ".slmodel", ".anji"}; int e = c.choose(5);
  { M m; prepare(c, m, d + "/o"); add(m, corpora()[0][1]); m.trainAllSents(); c.check(m.print((d + "/m").c_str()) == THOT_OK, "printing failed"); }
  std::string pre = d + "/m"; if (e == 0) pre = d + "/nosuchdir/m"; else { std::ifstream t(pre + ext[e]); if (!t) throw Skip(); unlink((pre + ext[e]).c_str()); }
  M l; prepare(c, l, d + "/x"); c.step();
  if (e == 0 || e < 3) c.check(l.load(pre.c_str()) == THOT_ERROR, std::string(kindName[kind]) + ": loading without " + ext[e] + " was accepted");
  if (e == 0) c.check(l.print(pre.c_str()) == THOT_ERROR, std::string(kindName[kind]) + ": printing to a missing directory reported no error");
  c.outcome(str(kind) + ext[e]); c.state(str(kind) + ext[e]);
}
// a corpus larger than any buffer, saved over the files it was loaded from
template <class M> static void large(Ctx& c, int kind) {
  static const unsigned sizes[] = {10, 300, 3000}; unsigned n = sizes[c.choose(3)], extra = c.choose(2); std::string d = freshDir(c), P = d + "/m", hist = std::string(kindName[kind]) + " " + str(n) + " pairs";
  std::vector<Pair> k; for (unsigned i = 0; i < n + extra; ++i) k.push_back({{"word" + str(i % 7), "w" + str(i % 5)}, {"t" + str(i % 7), "other" + str(i % 5), "z" + str(i)}, 1 + i % 3});
  { M m; prepare(c, m, d + "/o"); for (unsigned i = 0; i < n; ++i) add(m, k[i]); c.check(m.print(P.c_str()) == THOT_OK, hist + ": printing failed"); }
  auto pairs = [&](M& m, unsigned cnt, const std::string& what) {
    c.checkf(m.numSentPairs() == cnt, [&] { return hist + what + ": " + str(m.numSentPairs()) + " pairs left"; });
    for (unsigned i = 0; i < cnt; ++i) { Str s, t; Count q = 0; m.nthSentPair(i, s, t, q); c.checkf(s == k[i].s && t == k[i].t && (double)(float)q == k[i].c, [&] { return hist + what + ": pair " + str(i) + " is " + join(s) + " | " + join(t) + " | " + str((double)(float)q); }); }
    for (unsigned i : {cnt - 1, 0u, cnt / 2}) { Str s, t; Count q; m.nthSentPair(i, s, t, q); c.checkf(s == k[i].s && t == k[i].t, [&] { return hist + what + ": pair " + str(i) + " asked for later"; }); }
  };
  M l; c.check(l.load(P.c_str()) == THOT_OK, hist + ": loading failed"); if (extra) add(l, k[n]);
  c.check(l.print(P.c_str()) == THOT_OK, hist + ": printing over the loaded files failed"); c.step(); pairs(l, n + extra, " after printing over its own files");
  c.check(l.print(P.c_str()) == THOT_OK, hist + ": printing over the loaded files failed"); c.step();
  if constexpr (!std::is_base_of<IncrLevelDbHmmP0AligModel, M>::value) { M z; c.check(z.load(P.c_str()) == THOT_OK, hist + ": loading failed"); pairs(z, n + extra, " loaded after printing over its own files"); }
  c.state(hist); c.outcome(hist);
}
template <class M> static void scenarios(std::vector<Scenario>& s, int k) {
  bool l = k == LP0; int b = l || (!thorough() && (k == S1 || k == S2)) ? 1 : thorough() ? 3 : 2, a = l ? 1 : thorough() ? 3 : 1;
  s.push_back({std::string(kindName[k]) + "-round-trip", "every history of " + str(b) + " training steps, print, load, " + str(a) + " more steps compared with the uninterrupted model, print over the loaded files, load; 4 corpora, 3 limits on kept expectations, fresh or used object, pairs from files or memory", [k, b, a](Ctx& c) { roundTrip<M>(c, k, b, a); }, 4, 60});
  if (k == IBM1 || k == HMM) s.push_back({std::string(kindName[k]) + "-large", "10, 300, 3000 sentence pairs printed, loaded, printed over the loaded files, loaded", [k](Ctx& c) { large<M>(c, k); }, 3, 60});
  s.push_back({std::string(kindName[k]) + "-missing-files", "each file missing", [k](Ctx& c) { missing<M>(c, k); }});
}
int main(int argc, char** argv) {
  if (!getenv("MC_STDERR")) freopen("/dev/null", "w", stderr);
  std::vector<Scenario> s;
  scenarios<IncrIbm1AligModel>(s, IBM1); scenarios<IncrIbm2AligModel>(s, IBM2); scenarios<SmoothedIncrIbm1AligModel>(s, S1); scenarios<SmoothedIncrIbm2AligModel>(s, S2);
  scenarios<IncrHmmAligModel>(s, HMM); scenarios<IncrHmmP0AligModel>(s, P0); scenarios<IncrLevelDbHmmP0AligModel>(s, LP0);
  return run(argc, argv, "P07", s);
}
