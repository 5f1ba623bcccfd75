// P13: word graphs and n-best lists of the decoder
// SOURCES: downhill_simplex/step_by_step_dhs.c error_correction/NbSearchStack.cc error_correction/WordGraph.cc incr_models/IncrJelMerNgramLM.cc incr_models/WordPenaltyModel.cc incr_models/lm_ienc.cc nlp_common/AwkInputStream.cc nlp_common/MathFuncs.cc nlp_common/ModelDescriptorUtils.cc nlp_common/SingleWordVocab.cc nlp_common/StrProcUtils.cc nlp_common/WordAligMatrix.cc nlp_common/printAligFuncs.cc phrase_models/AlignmentExtractor.cc phrase_models/BaseIncrPhraseModel.cc phrase_models/BasePhraseModel.cc phrase_models/BpSet.cc phrase_models/CategPhrasePairFilter.cc phrase_models/HatTriePhraseTable.cc phrase_models/PhraseExtractionTable.cc phrase_models/SegLenTable.cc phrase_models/SrcSegmLenTable.cc phrase_models/SrfNodeInfoMap.cc phrase_models/SrfNodeKey.cc phrase_models/TrgCutsTable.cc phrase_models/TrgSegmLenTable.cc phrase_models/WbaIncrPhraseModel.cc phrase_models/_incrPhraseModel.cc phrase_models/_wbaIncrPhraseModel.cc stack_dec/BaseHypState.cc stack_dec/DirectPhraseModelFeat.cc stack_dec/InversePhraseModelFeat.cc stack_dec/LangModelFeat.cc stack_dec/PhrHypNumcovJumpsEqClassF.cc stack_dec/PhrHypState.cc stack_dec/PhrNbestTransTablePrefKey.cc stack_dec/PhrNbestTransTableRefKey.cc stack_dec/PhrScoreInfo.cc stack_dec/SrcPhraseLenFeat.cc stack_dec/SrcPosJumpFeat.cc stack_dec/TrgPhraseLenFeat.cc stack_dec/WordPenaltyFeat.cc stack_dec/PhrHypNumcovJumps01EqClassF.cc error_correction/EditDistForStr.cc nlp_common/Prob.cc nlp_common/Count.cc nlp_common/LM_State.cc nlp_common/getdelim.c nlp_common/getline.c sw_models/IncrIbm1AligModel.cc sw_models/IncrLexTable.cc sw_models/anjiMatrix.cc sw_models/LightSentenceHandler.cc sw_models/SmoothedIncrIbm1AligModel.cc sw_models/WeightedIncrNormSlm.cc sw_models/_sentLengthModel.cc
// LIBS: -lleveldb -lgmp -ldb_cxx -lz
#include "decoder.h"
#include "WordGraph.h"
using namespace mc;
static bool thorough() { const char* t = getenv("VERIF_TIER"); return t && std::string(t) == "thorough"; }
static const std::vector<Table>& tables() {
  static std::vector<Table> t = {
    {{{"a"}, {"x"}, 3}, {{"a"}, {"y"}, 1}, {{"b"}, {"y"}, 2}, {{"a", "b"}, {"x", "y"}, 1}, {{"b", "a"}, {"x"}, 1}, {{"c"}, {"z"}, 1}, {{"c"}, {"z", "x"}, 1}},
    {{{"a"}, {"x"}, 1}, {{"b"}, {"x"}, 1}, {{"c"}, {"x"}, 1}, {{"a", "b"}, {"x", "x"}, 1}, {{"c", "a"}, {"x", "x"}, 2}},
    {{{"a"}, {"x", "y"}, 1}, {{"b"}, {"y"}, 1}, {{"b"}, {"z", "y"}, 2}, {{"c"}, {"y"}, 3}, {{"b", "c"}, {"z"}, 2}, {{"a", "b", "c"}, {"y", "y"}, 1}, {{"c", "b"}, {"x", "y", "z"}, 1}},
    {{{"a", "b"}, {"x"}, 2}, {{"c"}, {"y"}, 1}, {{"b", "c"}, {"x", "y"}, 1}, {{"a"}, {"z"}, 1}, {{"a"}, {"x"}, 5}}};
  return t;
}
static World& world(Ctx& c, unsigned t, int order) {
  static std::map<std::pair<unsigned, int>, std::unique_ptr<World>> ws; auto& p = ws[{t, order}];
  if (!p) p.reset(new World(c, tables()[t], {{"x", "y"}, {"y", "x", "z"}, {"z"}, {"x", "x", "y", "z"}, {"y"}}, order));
  return *p;
}
static const std::vector<std::vector<float>>& weights() { static std::vector<std::vector<float>> w = {{1, 1, 1, 1, 1, 1, 1}, {0.5, 3, 1, 0.25, 0.001f, 1, 1}, {0, 1, 0, 0.5, 0, 0, 0}, {3, 0, 1, 1, 0.05f, 0.5, 2}}; return w; }
static std::string name(const Str& s, const Setup& p) { return str("'", join(s), "' U=", p.U, " A=", p.A, " S=", p.S, " I=", p.I, " W=", p.W, p.breadth ? " breadth-first" : " best-first", " heuristic ", p.heur, " weights ", join(p.w), ": "); }
static bool near(double a, double b) { return close(a, b, 2e-4, 2e-4); }
// a complete path or derivation
struct Item { std::string w; double sc; std::vector<double> f; };
static std::vector<Item> derivations(Ctx& c, World& w, const Str& src, const Setup& p) {
  std::vector<Item> r; Deriv d;
  derive(src, p.U, p.A, [&](unsigned l, unsigned e, size_t, unsigned) { return tableOptions(w, src, l, e); }, d, 0, 0, [&](const Deriv& x) {
    Str t; for (auto& s : x) for (auto& y : s.t) t.push_back(y == UNK_WORD_STR ? src[s.l - 1] : y);
    auto f = features(w, src, x, p.lambda); r.push_back({join(t), dot(f, p.w), f}); });
  c.step(r.size()); return r;
}
struct Arc { unsigned p, s; Str w; double sc; bool pruned; };
static void walk(const std::vector<std::vector<Arc>>& out, const std::set<HypStateIndex>& fin, unsigned s, std::string cur, double sc, std::vector<Item>& r, unsigned depth = 0) {
  if (depth > 12) return;
  if (fin.count(s) && depth) r.push_back({cur, sc, {}});
  if (s < out.size()) for (auto& a : out[s]) if (!a.pruned) walk(out, fin, a.s, a.w.empty() ? cur : cur + (cur.empty() ? "" : " ") + join(a.w), sc + a.sc, r, depth + 1);
}
static std::vector<Item> paths(WordGraph& g) {
  std::vector<Item> r; if (g.empty()) return r; std::vector<std::vector<Arc>> out(g.numStates()); auto rg = g.getArcIndexRange();
  for (unsigned i = rg.first; i <= rg.second; ++i) { auto a = g.wordGraphArcId2WordGraphArc(i); unsigned p = a.predStateIndex; if (out.size() <= p) out.resize(p + 1); out[p].push_back({p, (unsigned)a.succStateIndex, a.words, (double)a.arcScore, g.arcPruned(i)}); }
  walk(out, g.getFinalStateSet(), INITIAL_STATE, "", (double)g.getInitialStateScore(), r); return r;
}
static void order(std::vector<Item>& v) { std::sort(v.begin(), v.end(), [](const Item& a, const Item& b) { return a.w != b.w ? a.w < b.w : a.sc < b.sc; }); }
static std::string list(const std::vector<Item>& v) { std::string r; for (size_t i = 0; i < v.size() && i < 12; ++i) r += str(" '", v[i].w, "' ", v[i].sc); return r; }
static bool same(std::vector<Item> a, std::vector<Item> b) { order(a); order(b); if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (a[i].w != b[i].w || !near(a[i].sc, b[i].sc)) return false; return true; }
static const Item* find(const std::vector<Item>& v, const Item& x, bool comps = false) {
  for (auto& y : v) if (y.w == x.w && near(y.sc, x.sc)) { bool ok = true; if (comps) { ok = x.f.size() == y.f.size(); for (size_t i = 0; ok && i < x.f.size(); ++i) ok = near(x.f[i], y.f[i]); } if (ok) return &y; }
  return nullptr;
}
static double top(const std::vector<Item>& v) { double b = -HUGE_VAL; for (auto& x : v) b = std::max(b, x.sc); return b; }
// the n-best list of the graph holds derivations with their scores and features, best first
static void nbest(Ctx& c, Engine& e, WordGraph& g, const std::vector<Item>& ps, const std::vector<Item>& ds, const Setup& p, const std::string& what) {
  std::vector<double> all; for (auto& x : ps) all.push_back(x.sc); std::sort(all.rbegin(), all.rend());
  std::vector<Score> null = e.m.scoreCompsForHyp(e.m.nullHypothesis());
  for (unsigned len : {1u, 3u, 100000u}) {
    std::vector<std::pair<Score, std::string>> nb; std::vector<NbSearchHighLevelHyp> hl; std::vector<std::vector<Score>> cv; g.obtainNbestList(len, nb, hl, cv); c.step();
    c.checkf(nb.size() == std::min<size_t>(len, all.size()), [&] { return what + str(nb.size(), " translations in a list of ", len, " although the graph has ", all.size(), " paths"); });
    bool comps = !cv.empty(); c.checkf(!comps || cv.size() == nb.size(), [&] { return what + "number of component vectors"; });
    for (size_t i = 0; i < nb.size(); ++i) {
      c.checkf(near(nb[i].first, all[i]), [&] { return what + str("position ", i, " of the n-best list has score ", nb[i].first, " instead of ", all[i]); });
      Item x{nb[i].second, (double)nb[i].first, {}}; if (comps) { for (auto s : cv[i]) x.f.push_back(s); c.checkf(x.f.size() == null.size(), [&] { return what + "number of components"; }); for (size_t k = 0; k < null.size(); ++k) x.f[k] += null[k]; }
      c.checkf(find(ds, x, comps), [&] { return what + "n-best entry '" + x.w + "' with score " + str(x.sc) + " and components " + join(x.f) + " is no derivation"; });
    }
  }
}
// the printed graph and the table of states
static void files(Ctx& c, Engine& e, WordGraph& g, const std::vector<Item>& ps, const Str& src, const Setup& p, const std::string& what) {
  std::string dir = freshDir(c), f = dir + "/g"; c.checkf(e.dec.printWordGraph(f.c_str()) == THOT_OK, [&] { return what + "the graph cannot be printed"; });
  WordGraph h; c.checkf(h.load((f + ".wg").c_str()) == THOT_OK, [&] { return what + "the printed graph cannot be read"; });
  std::vector<Item> q = ps, r = paths(h); std::vector<double> null; for (auto x : e.m.scoreCompsForHyp(e.m.nullHypothesis())) null.push_back(x); for (auto& x : q) x.sc -= dot(null, p.w); for (auto& x : r) x.sc -= (double)h.getInitialStateScore(); for (auto* v : {&q, &r}) order(*v);
  bool ok = q.size() == r.size(); for (size_t i = 0; ok && i < q.size(); ++i) ok = q[i].w == r[i].w && close(q[i].sc, r[i].sc, 1e-3, 1e-3);
  c.checkf(ok, [&] { return what + "the printed graph has paths" + list(r) + " instead of" + list(q); });
  std::vector<std::pair<std::string, float>> cw; h.getCompWeights(cw); c.checkf(cw.size() == p.w.size(), [&] { return what + str("the printed graph has ", cw.size(), " weights"); });
  for (size_t i = 0; i < cw.size(); ++i) c.checkf(close(cw[i].second, p.w[i], 1e-4, 1e-6), [&] { return what + str("printed weight ", i, " is ", cw[i].second, " instead of ", p.w[i]); });
  // one line per state with what it covers; arcs lead from a state to one that covers more, final states cover everything
  std::istringstream in(readFile(f + ".idx")); std::string line; std::map<unsigned, std::pair<std::string, double>> st; int head = 0;
  while (std::getline(in, line)) { if (line[0] == '#') { ++head; c.checkf(line.substr(line.size() - join(src).size()) == join(src), [&] { return what + "the sentence in the table of states is '" + line + "'"; }); continue; }
    std::istringstream ls(line); unsigned i; std::string cov; double sc; ls >> i >> cov >> sc; c.checkf(bool(ls) && !st.count(i), [&] { return what + "bad line '" + line + "' in the table of states"; }); st[i] = {cov, sc}; }
  c.checkf(head == 2 && !st.empty(), [&] { return what + "the table of states has no header or no states"; });
  auto covers = [&](std::string a, std::string b) { size_t m = std::max(a.size(), b.size()); a.insert(0, m - a.size(), (char)48); b.insert(0, m - b.size(), (char)48); for (size_t i = 0; i < a.size(); ++i) if (a[i] == '1' && b[i] != '1') return false; return a != b; };
  auto count = [&](const std::string& a) { return (size_t)std::count(a.begin(), a.end(), '1'); };
  auto rg = g.getArcIndexRange();
  for (unsigned i = rg.first; i <= rg.second; ++i) { auto a = g.wordGraphArcId2WordGraphArc(i); c.checkf(st.count(a.predStateIndex) && st.count(a.succStateIndex), [&] { return what + "a state of the graph is not in the table"; });
    c.checkf(covers(st[a.predStateIndex].first, st[a.succStateIndex].first), [&] { return what + "an arc leads from " + st[a.predStateIndex].first + " to " + st[a.succStateIndex].first; }); }
  size_t base = count(st[INITIAL_STATE].first);
  for (auto s : g.getFinalStateSet()) c.checkf(count(st[s].first) == src.size() + base, [&] { return what + "a final state covers " + st[s].first; });
  // the score of a state is the best score of a path to it (at most, where states are expanded more than once)
  if (p.heur == 0) { std::vector<Score> prev; std::vector<WordGraphArc> bp; g.calcPrevScores(INITIAL_STATE, {}, prev, bp);
    for (auto& x : st) if (x.first < prev.size() && prev[x.first] > SMALL_SCORE / 2) c.checkf(p.S > 1000 && p.W == 100 && p.I == 1 && p.U == 0 && p.breadth ? close(x.second.second, prev[x.first], 1e-3, 2e-2) : x.second.second < prev[x.first] + 2e-2 + 1e-3 * std::fabs(prev[x.first]), [&] { return what + str("state ", x.first, " has score ", x.second.second, " in the table but the best path to it has ", (double)prev[x.first]); }); }
}
// pruning keeps what is good enough
static void prune(Ctx& c, Engine& e, std::vector<Item>& ps, const std::string& what) {
  float th = c.pick(std::vector<float>{1, 0.1f, 1e-6f}); double best = top(ps); e.dec.pruneWordGraph(th); auto qs = paths(*e.dec.getWordGraphPtr());
  for (auto& x : ps) if (x.sc > best + std::log(th) - 1e-3) c.checkf(th == 1 || x.sc < best + std::log(th) + 1e-3 || find(qs, x), [&] { return what + str("pruning with ", th, " loses '", x.w, "' ", x.sc); });
  c.checkf(!qs.empty() && near(top(qs), best), [&] { return what + str("pruning with ", th, " loses the best path"); });
  for (auto& x : qs) c.checkf(find(ps, x), [&] { return what + "pruning adds '" + x.w + "'"; });
  ps = qs;
}
// monotone search that keeps everything: the graph holds exactly the derivations
static void whole(Ctx& c) {
  unsigned t = c.choose(tables().size()); Setup p; p.w = weights()[c.choose(weights().size())]; p.breadth = true; p.U = 0; p.A = c.pick(std::vector<unsigned>{1, 3}); p.S = 100000; p.E = 2; p.W = 100; p.heur = 0; p.I = 1; p.lambda = c.pick(std::vector<double>{1, 0.6});
  unsigned n = 1 + c.choose(thorough() ? 4 : 3); Str src; for (unsigned i = 0; i < n; ++i) src.push_back(c.pick(Str{"a", "b", "c", "u"}));
  World& w = world(c, t, 2 + t % 2); Engine e(c, w, p, true); bool comps = c.flip(); if (comps) e.dec.includeScoreCompsInWg(); else e.dec.excludeScoreCompsInWg();
  Hyp h = e.dec.translate(join(src)); WordGraph& g = *e.dec.getWordGraphPtr(); auto ds = derivations(c, w, src, p), ps = paths(g); auto what = name(src, p); c.state(what + str(t)); c.outcome(list(ps));
  c.checkf(same(ds, ps), [&] { return what + "the graph has " + str(ps.size()) + " paths" + list(ps) + " instead of the " + str(ds.size()) + " derivations" + list(ds); });
  c.checkf(near((double)h.getScore(), top(ps)), [&] { return what + str("the translation has score ", (double)h.getScore(), " but the best path ", top(ps)); });
  nbest(c, e, g, ps, ds, p, what); if (comps) files(c, e, g, ps, src, p, what);
  prune(c, e, ps, what);
}
// any search: every path is a derivation, the translation is among them and nothing in the list is better than the best
static void partial(Ctx& c) {
  unsigned t = c.choose(tables().size()); Setup p; p.w = weights()[thorough() ? c.choose(4) : c.choose(2)]; p.E = 2; p.breadth = c.flip(); p.U = c.choose(3); p.A = c.pick(std::vector<unsigned>{1, 3}); p.S = c.pick(std::vector<unsigned>{1, 3, 100000}); p.W = c.pick(std::vector<float>{1, 100}); p.heur = c.pick(std::vector<unsigned>{0, 4, 6}); p.I = c.pick(std::vector<unsigned>{1, 3});
  static const std::vector<Str> all = {{"a"}, {"u"}, {"a", "b"}, {"b", "a"}, {"a", "b", "c"}, {"c", "u", "a"}, {"b", "c", "a", "b"}, {"a", "a", "a"}, {"c", "b", "a"}, {"a", "b", "c", "a"}};
  Str src = all[c.choose(thorough() ? all.size() : 7)]; World& w = world(c, t, 2 + t % 2); Engine e(c, w, p, true); e.dec.includeScoreCompsInWg(); e.dec.useBestScorePruning(c.flip());
  Hyp h = e.dec.translate(join(src)); WordGraph& g = *e.dec.getWordGraphPtr(); auto ds = derivations(c, w, src, p), ps = paths(g); auto what = name(src, p); c.state(what + str(t)); c.outcome(list(ps));
  c.checkf(e.m.isComplete(h), [&] { return what + "no translation"; });
  Item r{join(e.m.getTransInPlainTextVec(h)), (double)h.getScore(), {}};
  c.checkf(find(ps, r), [&] { return what + "the translation '" + r.w + "' " + str(r.sc) + " is not a path of its graph:" + list(ps); });
  for (auto& x : ps) c.checkf(find(ds, x), [&] { return what + "the path '" + x.w + "' " + str(x.sc) + " is no derivation; they are" + list(ds); });
  if (ps.size() < 3000) nbest(c, e, g, ps, ds, p, what);
  if (c.flip()) { prune(c, e, ps, what); if (p.heur) return; }
  files(c, e, g, ps, src, p, what);
}
// searches with a prefix or a reference: every path of the graph respects them
static void guided(Ctx& c) {
  unsigned t = c.choose(tables().size()); Setup p; p.w = weights()[c.choose(2)]; p.E = c.choose(2); p.breadth = c.flip(); p.U = c.choose(2); p.A = c.pick(std::vector<unsigned>{1, 3}); p.S = c.pick(std::vector<unsigned>{3, 100000}); p.W = 100; p.heur = c.pick(std::vector<unsigned>{0, 4}); p.I = 1;
  Str src = c.pick(std::vector<Str>{{"a"}, {"a", "b"}, {"a", "b", "c"}, {"c", "a"}}); int way = c.choose(3); std::string text = c.pick(std::vector<std::string>{"x ", "x y ", "y x ", "z q ", "q"});
  World& w = world(c, t, 2 + t % 2); Engine e(c, w, p, true); e.dec.includeScoreCompsInWg(); std::string ref = text; while (!ref.empty() && ref.back() == ' ') ref.pop_back();
  Hyp h = way == 0 ? e.dec.translateWithPrefix(join(src), text) : way == 1 ? e.dec.translateWithRef(join(src), ref) : e.dec.verifyCoverageForRef(join(src), ref);
  WordGraph& g = *e.dec.getWordGraphPtr(); auto ps = paths(g); auto what = name(src, p) + (way == 0 ? "prefix '" : way == 1 ? "reference '" : "verification of '") + text + "': "; c.state(what + str(t)); c.outcome(list(ps));
  if (!e.m.isComplete(h)) return;
  Item r{join(e.m.getTransInPlainTextVec(h)), (double)h.getScore(), {}};
  c.checkf(find(ps, r), [&] { return what + "the translation '" + r.w + "' " + str(r.sc) + " is not a path of its graph:" + list(ps); });
  for (auto& x : ps) c.checkf(way ? x.w == ref : (x.w + " ").compare(0, text.size(), text) == 0, [&] { return what + "the path '" + x.w + "' does not respect it"; });
  std::vector<Item> none; std::vector<double> sc;
}
// a decoder used again: the graph is that of the last sentence
static void reuse(Ctx& c) {
  unsigned t = c.choose(2); Setup p; p.w = weights()[0]; p.E = 2; p.breadth = c.flip(); p.U = 1; p.A = 3; p.S = 1000; p.W = 100; p.heur = 0; p.I = 1;
  World& w = world(c, t, 2 + t % 2); Engine e(c, w, p, true); std::string hist; e.dec.includeScoreCompsInWg();
  for (int k = 0; k < (thorough() ? 4 : 3); ++k) {
    Str src = c.pick(std::vector<Str>{{"a", "b"}, {"c"}, {"b", "a", "u"}}); int way = c.choose(4); hist += str(" '", join(src), "' way ", way); if (way == 3) { e.dec.disableWordGraph(); }
    auto go = [&](Engine& x) { return way == 1 ? x.dec.translateWithPrefix(join(src), "x ") : way == 2 ? x.dec.translateWithRef(join(src), "x y") : x.dec.translate(join(src)); };
    go(e); Engine f(c, w, p, true); f.dec.includeScoreCompsInWg(); if (way == 3) f.dec.disableWordGraph(); go(f);
    auto a = paths(*e.dec.getWordGraphPtr()), b = paths(*f.dec.getWordGraphPtr()); c.state(hist); c.outcome(list(a));
    c.checkf(same(a, b), [&] { return "after" + hist + " the graph has paths" + list(a) + " but that of a new decoder has" + list(b); });
    if (way == 3) { c.checkf(a.empty(), [&] { return "after" + hist + " there is a graph although it was disabled"; }); e.dec.enableWordGraph(); }
  }
}
int main(int argc, char** argv) {
  if (!getenv("MC_STDERR")) freopen("/dev/null", "w", stderr);
  return run(argc, argv, "P13", {{"whole", "4 phrase tables x 4 weight vectors x phrase length limits 1 and 3 x with and without word models x with and without components x 3 pruning thresholds x every source sentence of up to 3 words (4 in the thorough tier) of {a,b,c,unknown}: the graph of a monotone search without limits", whole, 3},
    {"partial", "4 phrase tables x 2 weight vectors (4 in the thorough tier) x both search orders x jumps up to 0-2 words x phrase length limits x stack sizes 1, 3 and unlimited x translation limits x 3 heuristics x 1 or 3 hypotheses per iteration x best score pruning x 7 sentences (10)", partial, 3},
    {"guided", "4 phrase tables x 2 weight vectors x search orders and limits x 4 sentences x prefix, reference and verification searches with 5 texts", guided, 3},
    {"reuse", "every history of 3 (4) searches on one decoder over 3 sentences x 4 ways", reuse, 3}});
}
