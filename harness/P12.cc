// P12: the stack decoder
// SOURCES: downhill_simplex/step_by_step_dhs.c error_correction/NbSearchStack.cc error_correction/WordGraph.cc incr_models/IncrJelMerNgramLM.cc incr_models/WordPenaltyModel.cc incr_models/lm_ienc.cc nlp_common/AwkInputStream.cc nlp_common/MathFuncs.cc nlp_common/ModelDescriptorUtils.cc nlp_common/SingleWordVocab.cc nlp_common/StrProcUtils.cc nlp_common/WordAligMatrix.cc nlp_common/printAligFuncs.cc phrase_models/AlignmentExtractor.cc phrase_models/BaseIncrPhraseModel.cc phrase_models/BasePhraseModel.cc phrase_models/BpSet.cc phrase_models/CategPhrasePairFilter.cc phrase_models/HatTriePhraseTable.cc phrase_models/PhraseExtractionTable.cc phrase_models/SegLenTable.cc phrase_models/SrcSegmLenTable.cc phrase_models/SrfNodeInfoMap.cc phrase_models/SrfNodeKey.cc phrase_models/TrgCutsTable.cc phrase_models/TrgSegmLenTable.cc phrase_models/WbaIncrPhraseModel.cc phrase_models/_incrPhraseModel.cc phrase_models/_wbaIncrPhraseModel.cc stack_dec/BaseHypState.cc stack_dec/DirectPhraseModelFeat.cc stack_dec/InversePhraseModelFeat.cc stack_dec/LangModelFeat.cc stack_dec/PhrHypNumcovJumpsEqClassF.cc stack_dec/PhrHypState.cc stack_dec/PhrNbestTransTablePrefKey.cc stack_dec/PhrNbestTransTableRefKey.cc stack_dec/PhrScoreInfo.cc stack_dec/SrcPhraseLenFeat.cc stack_dec/SrcPosJumpFeat.cc stack_dec/TrgPhraseLenFeat.cc stack_dec/WordPenaltyFeat.cc stack_dec/PhrHypNumcovJumps01EqClassF.cc error_correction/EditDistForStr.cc nlp_common/Prob.cc nlp_common/Count.cc nlp_common/LM_State.cc nlp_common/getdelim.c nlp_common/getline.c sw_models/IncrIbm1AligModel.cc sw_models/IncrLexTable.cc sw_models/anjiMatrix.cc sw_models/LightSentenceHandler.cc sw_models/SmoothedIncrIbm1AligModel.cc sw_models/WeightedIncrNormSlm.cc sw_models/_sentLengthModel.cc
// LIBS: -lleveldb -lgmp -ldb_cxx -lz
#include "decoder.h"
using namespace mc;
static bool thorough() { const char* t = getenv("VERIF_TIER"); return t && std::string(t) == "thorough"; }
static const std::vector<Table>& tables() {
  static std::vector<Table> t = {
    {{{"a"}, {"x"}, 3}, {{"a"}, {"y"}, 1}, {{"b"}, {"y"}, 2}, {{"a", "b"}, {"x", "y"}, 1}, {{"b", "a"}, {"x"}, 1}, {{"c"}, {"z"}, 1}, {{"c"}, {"z", "x"}, 1}},
    {{{"a"}, {"x"}, 1}, {{"b"}, {"x"}, 1}, {{"c"}, {"x"}, 1}, {{"a", "b"}, {"x", "x"}, 1}, {{"c", "a"}, {"x", "x"}, 2}},
    {{{"a"}, {"x", "y"}, 1}, {{"b"}, {"y"}, 1}, {{"b"}, {"z", "y"}, 2}, {{"c"}, {"y"}, 3}, {{"b", "c"}, {"z"}, 2}, {{"a", "b", "c"}, {"y", "y"}, 1}, {{"c", "b"}, {"x", "y", "z"}, 1}},
    {{{"a", "b"}, {"x"}, 2}, {{"c"}, {"y"}, 1}, {{"b", "c"}, {"x", "y"}, 1}, {{"a"}, {"z"}, 1}, {{"a"}, {"x"}, 5}}};
  return t;
}
static World& world(Ctx& c, unsigned t, int order) {
  static std::map<std::pair<unsigned, int>, std::unique_ptr<World>> ws;
  auto& p = ws[{t, order}];
  if (!p) { Table tt = tables()[t % 10];
  // for prefixes: a word that starts like another
  if (t >= 10) for (auto& e : tt) for (auto& x : e.t) if (x == "z") x = "yy";
  p.reset(new World(c, tt, {{"x", "y"}, {"y", "x", "z"}, {"z"}, {"x", "x", "y", "z"}, {"y"}}, order)); }
  return *p;
}
static const std::vector<std::vector<float>>& weights() { static std::vector<std::vector<float>> w = {{1, 1, 1, 1, 1, 1, 1}, {0.5, 3, 1, 0.25, 0.001f, 1, 1}, {0, 1, 0, 0.5, 0, 0, 0}, {3, 0, 1, 1, 0.05f, 0.5, 2}, {0, 0, 1, 0, 0.01f, 0, 0}}; return w; }
static Str sentence(Ctx& c, unsigned maxlen, const Str& v) { unsigned n = 1 + c.choose(maxlen); Str s; for (unsigned i = 0; i < n; ++i) s.push_back(c.pick(v)); return s; }
static std::string name(const Str& s, const Setup& p) { return str("'", join(s), "' U=", p.U, " A=", p.A, " S=", p.S, " I=", p.I, " W=", p.W, " E=", p.E, p.breadth ? " breadth-first" : " best-first", " heuristic ", p.heur, ": "); }

// the derivation of a result is one the search may build, and its score is the sum of its weighted features
static void valid(Ctx& c, World& w, Engine& e, const Hyp& h, const Str& src, const Setup& p, const Options& opt, Deriv& d, bool unk = true) {
  d = e.derivation(c, h, src, unk);
  c.checkf(e.m.isComplete(h), [&] { return name(src, p) + "the result is not complete: " + show(d); });
  std::vector<bool> cov(src.size() + 1); size_t done = 0, n = src.size(), sum = 0; unsigned mask = 0;
  for (auto& s : d) {
    c.checkf(s.l >= 1 && s.l <= s.r && s.r <= n, [&] { return name(src, p) + "bad segment in " + show(d); });
    unsigned g = s.l; while (g > 1 && !cov[g - 1]) --g;
    for (unsigned i = s.l; i <= s.r; ++i) { c.checkf(!cov[i], [&] { return name(src, p) + "a word is translated twice: " + show(d); }); cov[i] = true; ++sum; if (i <= 32) mask |= 1u << (i - 1); }
    c.checkf(s.l - g <= p.U && s.r - s.l < p.A, [&] { return name(src, p) + "segment beyond the limits in " + show(d); });
    auto o = opt(s.l, s.r, done, mask);
    c.checkf(o.count(s.t), [&] { return name(src, p) + "'" + join(s.t) + "' is no translation of its segment in " + show(d); });
    done += s.t.size();
  }
  c.checkf(sum == n, [&] { return name(src, p) + "words left untranslated: " + show(d); });
  auto f = features(w, src, d, p.lambda); double want = dot(f, p.w), got = (double)h.getScore();
  c.checkf(close(got, want, 2e-4, 2e-4), [&] { return name(src, p) + "score " + str(got) + " instead of " + str(want) + " for " + show(d); });
  auto comps = e.m.scoreCompsForHyp(h);
  c.checkf(comps.size() == f.size(), [&] { return name(src, p) + str(comps.size(), " score components"); });
  for (size_t i = 0; i < f.size(); ++i) c.checkf(close(comps[i], f[i], 2e-4, 2e-4), [&] { return name(src, p) + str("component ", i, " is ", comps[i], " instead of ", f[i], " for ") + show(d); });
}
struct Best { double sc = -HUGE_VAL; Deriv d; size_t n = 0; };
static Best best(Ctx& c, World& w, const Str& src, const Setup& p, const Options& opt, const std::function<bool(const Str&)>& goal = nullptr) {
  Best b; Deriv d;
  derive(src, p.U, p.A, opt, d, 0, 0, [&](const Deriv& x) { if (goal && !goal(target(x))) return; ++b.n; double s = dot(features(w, src, x, p.lambda), p.w); if (s > b.sc) { b.sc = s; b.d = x; } });
  c.step(b.n); return b;
}
static Options plainOptions(World& w, const Str& src) { return [&w, src](unsigned l, unsigned r, size_t, unsigned) { return tableOptions(w, src, l, r); }; }

// with room for every hypothesis the search finds the best derivation
static void optimal(Ctx& c) {
  unsigned t = c.choose(tables().size()); Setup p; p.w = weights()[c.choose(weights().size())];
  p.breadth = c.flip(); p.U = p.breadth ? 0 : c.choose(3); p.A = c.pick(std::vector<unsigned>{1, 3}); p.S = 100000; p.E = 2; p.W = 100; p.heur = 0; p.I = 1; p.lambda = p.A == 3 ? c.pick(std::vector<double>{1, 0.01, 0.6}) : 1;
  Str src = sentence(c, thorough() ? 4 : 3, {"a", "b", "c", "u"}); World& w = world(c, t, 2 + t % 2);
  Engine e(c, w, p); Hyp h = e.dec.translate(join(src)); auto opt = plainOptions(w, src); Deriv d; valid(c, w, e, h, src, p, opt, d);
  Best b = best(c, w, src, p, opt); c.state(name(src, p) + str(t)); c.outcome(show(d));
  c.checkf((double)h.getScore() > b.sc - 2e-4 - 2e-4 * std::fabs(b.sc), [&] { return name(src, p) + "found " + show(d) + " of score " + str((double)h.getScore()) + " but the best is " + show(b.d) + " of score " + str(b.sc); });
}
// whatever the search is allowed to keep, its result is a complete derivation with the score it claims, never above the best one
static void pruned(Ctx& c) {
  // weights: all, skewed, translation model only
  unsigned t = c.choose(tables().size()); Setup p; p.w = weights()[thorough() ? c.choose(5) : c.pick(std::vector<int>{0, 1, 4})]; p.E = 2;
  p.breadth = c.flip(); p.U = c.choose(4); p.A = c.pick(std::vector<unsigned>{1, 2, 10}); p.S = c.pick(std::vector<unsigned>{1, 2, 3, 10}); p.W = c.pick(std::vector<float>{1, 100, 0.25f}); p.heur = c.pick(std::vector<unsigned>{0, 4, 6}); p.I = c.flip() ? 3 : 1;
  static const std::vector<Str> all = {{"a"}, {"u"}, {"a", "b"}, {"b", "a"}, {"a", "b", "c"}, {"c", "b", "a"}, {"a", "a", "a"}, {"u", "a", "u"}, {"b", "c", "a", "b"}, {"b", "a", "c"}, {"c", "u", "b", "a"}, {"a", "b", "c", "a", "b"}, {"c", "c", "c", "c", "c"}, {"b", "u", "a", "c", "b", "a"}};
  Str src = all[c.choose(thorough() ? all.size() : 12)]; World& w = world(c, t, 2 + t % 2);
  Engine e(c, w, p); e.dec.useBestScorePruning(c.flip()); Hyp h = e.dec.translate(join(src)); auto opt = plainOptions(w, src); Deriv d; valid(c, w, e, h, src, p, opt, d);
  c.state(name(src, p) + str(t)); c.outcome(show(d));
}
static unsigned gaps(unsigned cov, unsigned n) { unsigned g = 0; for (unsigned i = 0; i < n; ++i) if (!(cov >> i & 1) && (i == 0 || (cov >> (i - 1) & 1))) ++g; return g; }
static bool sizeOk(size_t s, size_t t, unsigned E) { return t + E >= s && t <= s + E; }
// translation with a reference: chunks of the reference of about the size of the source segment; verification: only what the table offers
static void reference(Ctx& c) {
  bool ver = c.flip(); unsigned t = c.choose(tables().size()); Setup p; p.w = weights()[c.choose(thorough() ? 5 : 2)]; p.breadth = false;
  p.U = c.choose(3); p.A = c.pick(std::vector<unsigned>{1, 3}); p.E = ver ? 2 : c.choose(3); p.S = c.pick(std::vector<unsigned>{100000, 2}); p.W = 100; p.I = 1; p.heur = p.S == 2 ? c.pick(std::vector<unsigned>{0, 4, 6}) : 0;
  Str src = c.pick(std::vector<Str>{{"a"}, {"a", "b"}, {"b", "a"}, {"a", "b", "c"}, {"c", "a", "b"}, {"u", "a"}}), ref = sentence(c, 4, ver ? Str{"x", "y", "z"} : Str{"x", "y", "q"});
  World& w = world(c, t, 2 + t % 2); Engine e(c, w, p);
  unsigned n = src.size(), full = (1u << n) - 1;
  Options opt = ver ? plainOptions(w, src) : Options([&, src, ref](unsigned l, unsigned r, size_t done, unsigned cov) {
    std::set<Str> o; size_t len = r - l + 1;
    if (cov == full) { if (done <= ref.size() && sizeOk(len, ref.size() - done, p.E)) o.insert(Str(ref.begin() + done, ref.end())); }
    else for (size_t k = 1; done + k + (p.U == 0 ? 1 : gaps(cov, n)) <= ref.size(); ++k) if (sizeOk(len, k, p.E)) o.insert(Str(ref.begin() + done, ref.begin() + done + k));
    return o; });
  Hyp h = ver ? e.dec.verifyCoverageForRef(join(src), join(ref)) : e.dec.translateWithRef(join(src), join(ref));
  Best b = best(c, w, src, p, opt, [&](const Str& x) { return x == ref; });
  auto what = [&] { return name(src, p) + (ver ? "verification of '" : "reference '") + join(ref) + "': "; };
  c.state(what() + str(t)); c.outcome(str(ver, e.m.isComplete(h), show(b.d)));
  if (p.S > 2) c.checkf(e.m.isComplete(h) == (b.n > 0), [&] { return what() + (b.n ? "not found although " + show(b.d) : "found although there is no derivation"); });
  if (!e.m.isComplete(h)) return;
  Deriv d; valid(c, w, e, h, src, p, opt, d);
  c.checkf(target(d) == ref, [&] { return what() + "the result is " + show(d); });
  if (p.S > 2) c.checkf((double)h.getScore() > b.sc - 2e-4 - 2e-4 * std::fabs(b.sc), [&] { return what() + "found " + show(d) + " of score " + str((double)h.getScore()) + " but the best is " + show(b.d) + " of score " + str(b.sc); });
}
// translation with a prefix typed by the user, whose last word may be unfinished
static void prefixed(Ctx& c) {
  unsigned t = c.choose(tables().size()); Setup p; p.w = weights()[c.choose(thorough() ? 5 : 2)]; p.breadth = false;
  p.U = c.choose(3); p.A = c.pick(std::vector<unsigned>{1, 3}); p.E = c.choose(3); p.S = c.pick(std::vector<unsigned>{100000, 2}); p.W = 100; p.I = 1; p.heur = p.S == 2 ? c.pick(std::vector<unsigned>{0, 4, 6}) : 0;
  Str src = c.pick(std::vector<Str>{{"a"}, {"a", "b"}, {"b", "a"}, {"a", "b", "c"}, {"c", "a", "b"}, {"u", "a"}}), pref = sentence(c, 3, {"x", "yy", "y", "q"}); bool blank = c.flip();
  World& w = world(c, t + 10, 2 + t % 2); Engine e(c, w, p);
  unsigned full = (1u << src.size()) - 1; Options plain = plainOptions(w, src);
  Options opt = [&, src, pref](unsigned l, unsigned r, size_t done, unsigned cov) {
    if (done >= pref.size()) return plain(l, r, done, cov);
    std::set<Str> o; Str rem(pref.begin() + done, pref.end());
    auto i = w.opts.find(Str(src.begin() + l - 1, src.begin() + r));
    if (i != w.opts.end()) for (auto& x : i->second) {
      bool ok = x.size() >= rem.size(); for (size_t k = 0; ok && k < rem.size(); ++k) ok = x[k] == rem[k] || (k + 1 == rem.size() && !blank && x[k].compare(0, rem[k].size(), rem[k]) == 0);
      if (ok) o.insert(x);
    }
    if (cov != full) for (size_t k = 1; k < rem.size(); ++k) if (sizeOk(r - l + 1, k, p.E)) o.insert(Str(rem.begin(), rem.begin() + k));
    o.insert(rem); return o; };
  std::string text = join(pref) + (blank ? " " : "");
  Hyp h = e.dec.translateWithPrefix(join(src), text);
  auto what = [&] { return name(src, p) + "prefix '" + text + "': "; };
  Deriv d; valid(c, w, e, h, src, p, opt, d);
  std::string out = join(e.m.getTransInPlainTextVec(h)) + (blank ? " " : "");
  c.checkf(out.compare(0, text.size(), text) == 0, [&] { return what() + "the result is '" + out + "'"; });
  c.state(what() + str(t)); c.outcome(show(d));
  if (p.S == 2) return;
  Best b = best(c, w, src, p, opt);
  c.checkf((double)h.getScore() > b.sc - 2e-4 - 2e-4 * std::fabs(b.sc), [&] { return what() + "found " + show(d) + " of score " + str((double)h.getScore()) + " but the best is " + show(b.d) + " of score " + str(b.sc); });
}
// long sentences, around the limits of the coverage sets; beyond the allowed length nothing is translated
static void longer(Ctx& c) {
  unsigned t = c.choose(tables().size()); Setup p; p.w = weights()[thorough() ? c.choose(3) : 0]; p.E = 2; p.breadth = c.flip(); p.U = p.breadth ? c.choose(2) : 0; p.A = 3; p.S = c.pick(std::vector<unsigned>{1, 4}); p.W = 10; p.heur = c.pick(std::vector<unsigned>{0, 6}); p.I = 1;
  unsigned n = c.pick(thorough() ? std::vector<unsigned>{8, 31, 32, 33, 63, 64, 65, 127, 128, 129, 158, 159, 160, 161} : std::vector<unsigned>{33, 65, 129, 159, 160}); unsigned step = c.pick(std::vector<unsigned>{1, 3}); static const Str v = {"a", "b", "c", "a", "u", "c", "b"};
  Str src; for (unsigned i = 0; i < n; ++i) src.push_back(v[(i * step + i / 5) % 7]);
  World& w = world(c, t, 2 + t % 2); Engine e(c, w, p);
  Hyp h = e.dec.translate(join(src)); c.state(name(src, p) + str(t));
  if (n >= MAX_SENTENCE_LENGTH_ALLOWED) { c.check(!e.m.isComplete(h) && e.m.getTransInPlainTextVec(h).empty(), "a sentence that is too long is translated"); return; }
  auto opt = plainOptions(w, src); Deriv d; valid(c, w, e, h, src, p, opt, d); c.outcome(show(d));
}
// one decoder used again and again, with other sentences, ways of translating, limits and weights, answers as a new one does
static void again(Ctx& c) {
  unsigned t = thorough() ? c.choose(tables().size()) : c.pick(std::vector<unsigned>{0, 2}); Setup p; p.w = weights()[0]; p.breadth = false; p.U = 1; p.A = 3; p.S = 1000; p.E = 1; p.W = 10; p.I = 1; p.heur = thorough() ? c.pick(std::vector<unsigned>{0, 4, 6}) : c.pick(std::vector<unsigned>{0, 6});
  World& w = world(c, t, 2 + t % 2); Engine e(c, w, p); std::string hist;
  static const std::vector<std::string> srcs = {"a b", "b a c", "u", "a b c"};
  int n = 2;
  for (int k = 0; k <= n; ++k) {
    int ch = k == 1 ? c.choose(8) : 0;
    if (ch == 1) { p.W = 1; e.m.set_W_par(1); } else if (ch == 2) { p.A = 1; e.m.set_A_par(1); } else if (ch == 3) { p.U = 0; e.m.set_U_par(0); } else if (ch == 4) { p.w = weights()[1]; e.m.setWeights(p.w); }
    else if (ch == 5) { p.S = 1; e.dec.set_S_par(1); } else if (ch == 6) { p.breadth = true; e.dec.set_breadthFirst(true); } else if (ch == 7) { p.heur = p.heur == 4 ? 0 : 4; e.m.setHeuristic(p.heur); }
    std::string src = c.pick(srcs); int way = c.choose(4); std::string other = way == 3 ? "x y " : "x y z";
    hist += str(" change ", ch, " way ", way, " '", src, "'");
    auto go = [&](Engine& g) { return way == 0 ? g.dec.translate(src) : way == 1 ? g.dec.translateWithRef(src, other) : way == 2 ? g.dec.verifyCoverageForRef(src, other) : g.dec.translateWithPrefix(src, other); };
    Hyp h = go(e); Engine f(c, w, p); Hyp g = go(f); c.step();
    c.checkf(e.m.isComplete(h) == f.m.isComplete(g) && close((double)h.getScore(), (double)g.getScore(), 1e-9, 1e-9) && e.m.getTransInPlainTextVec(h) == f.m.getTransInPlainTextVec(g),
             [&] { return "after" + hist + ": '" + join(e.m.getTransInPlainTextVec(h)) + "' " + str((double)h.getScore()) + " but a new decoder says '" + join(f.m.getTransInPlainTextVec(g)) + "' " + str((double)g.getScore()); });
    if (way == 0 && k > 0 && c.flip()) {
      // the next best translations
      Hyp h2 = e.dec.getNextTrans(), g2 = f.dec.getNextTrans(); hist += " next";
      c.checkf(e.m.getTransInPlainTextVec(h2) == f.m.getTransInPlainTextVec(g2) && close((double)h2.getScore(), (double)g2.getScore(), 1e-9, 1e-9), [&] { return "after" + hist + " other next translation"; });
      if (!p.breadth && p.heur == 0 && e.m.isComplete(h2)) c.checkf((double)h2.getScore() <= (double)h.getScore() + 1e-9, [&] { return "after" + hist + " the next translation is better"; });
    }
    c.state(hist); c.outcome(join(e.m.getTransInPlainTextVec(h)));
  }
}
int main(int argc, char** argv) {
  if (!getenv("MC_STDERR")) freopen("/dev/null", "w", stderr);
  return run(argc, argv, "P12", {{"optimal", "4 phrase tables x 5 weight vectors x best-first (jumps up to 2 words) or breadth-first (monotone) x phrase length limits 1 and 3 x every sentence of up to 3 words (4 in the thorough tier) over 3 known words and 1 unknown", optimal, 4},
    {"pruned", "4 phrase tables x 3 weight vectors (5 in the thorough tier) x both search orders x jumps up to 0-3 words x phrase length limits x stack sizes 1-10 x translation limits x 3 heuristics x 1 or 3 hypotheses per iteration x best score pruning x 12 sentences (14 of up to 6 words in the thorough tier)", pruned, 5},
    {"reference", "translation with a reference and verification: 4 phrase tables x weight vectors x jumps up to 0-2 words x phrase length limits x length slack 0-2 x unlimited or 2-hypothesis stacks x 6 sentences x every reference of up to 4 words over 3 words", reference, 4},
    {"prefixed", "4 phrase tables x weight vectors x jumps up to 0-2 words x phrase length limits x length slack 0-2 x unlimited or 2-hypothesis stacks x 6 sentences x every prefix of up to 3 words over 4 words (one unknown, one the beginning of another), last word finished or not", prefixed, 4},
    {"longer", "sentences of 33 to 160 words around the limits of the coverage sets (8 to 161 words at 14 lengths and 3 weight vectors in the thorough tier) x 2 word patterns x 4 tables x heuristics x small stacks x monotone or one jump", longer, 3},
    {"again", "every history of 3 uses of one decoder over 4 sentences x 4 ways of translating, with each of 8 changes of limits, weights, search order and heuristic after the first x next translation asked or not", again, 3}});
}
