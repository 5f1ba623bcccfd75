// P14: translation constraints
// SOURCES: downhill_simplex/step_by_step_dhs.c error_correction/NbSearchStack.cc error_correction/WordGraph.cc incr_models/IncrJelMerNgramLM.cc incr_models/WordPenaltyModel.cc incr_models/lm_ienc.cc nlp_common/AwkInputStream.cc nlp_common/MathFuncs.cc nlp_common/ModelDescriptorUtils.cc nlp_common/SingleWordVocab.cc nlp_common/StrProcUtils.cc nlp_common/WordAligMatrix.cc nlp_common/printAligFuncs.cc phrase_models/AlignmentExtractor.cc phrase_models/BaseIncrPhraseModel.cc phrase_models/BasePhraseModel.cc phrase_models/BpSet.cc phrase_models/CategPhrasePairFilter.cc phrase_models/HatTriePhraseTable.cc phrase_models/PhraseExtractionTable.cc phrase_models/SegLenTable.cc phrase_models/SrcSegmLenTable.cc phrase_models/SrfNodeInfoMap.cc phrase_models/SrfNodeKey.cc phrase_models/TrgCutsTable.cc phrase_models/TrgSegmLenTable.cc phrase_models/WbaIncrPhraseModel.cc phrase_models/_incrPhraseModel.cc phrase_models/_wbaIncrPhraseModel.cc stack_dec/BaseHypState.cc stack_dec/DirectPhraseModelFeat.cc stack_dec/InversePhraseModelFeat.cc stack_dec/LangModelFeat.cc stack_dec/PhrHypNumcovJumpsEqClassF.cc stack_dec/PhrHypState.cc stack_dec/PhrNbestTransTablePrefKey.cc stack_dec/PhrNbestTransTableRefKey.cc stack_dec/PhrScoreInfo.cc stack_dec/SrcPhraseLenFeat.cc stack_dec/SrcPosJumpFeat.cc stack_dec/TrgPhraseLenFeat.cc stack_dec/WordPenaltyFeat.cc stack_dec/PhrHypNumcovJumps01EqClassF.cc error_correction/EditDistForStr.cc nlp_common/Prob.cc nlp_common/Count.cc nlp_common/LM_State.cc nlp_common/getdelim.c nlp_common/getline.c sw_models/IncrIbm1AligModel.cc sw_models/IncrLexTable.cc sw_models/anjiMatrix.cc sw_models/LightSentenceHandler.cc sw_models/SmoothedIncrIbm1AligModel.cc sw_models/WeightedIncrNormSlm.cc sw_models/_sentLengthModel.cc
// FLAGS: -D_GLIBCXX_ASSERTIONS
// LIBS: -lleveldb -lgmp -ldb_cxx -lz
#include "decoder.h"
#include "JsonTranslationMetadata.h"
using namespace mc;
static bool thorough() { const char* t = getenv("VERIF_TIER"); return t && std::string(t) == "thorough"; }
typedef std::pair<PositionIndex, PositionIndex> Span;
struct Want { Str src; std::map<Span, Str> con; };
typedef BaseTranslationMetadata<PhrScoreInfo> Meta;
static std::string showW(const Want& w) { std::string r = "'" + join(w.src) + "'"; for (auto& x : w.con) r += str(" ", x.first.first, "-", x.first.second, " -> '", join(x.second), "'"); return r; }
static std::string showM(Meta& m) { Want w; w.src = m.getSrcSentVec(); for (auto& s : m.getConstrainedSrcPhrases()) w.con[s] = m.getTransForSrcPhr(s); return showW(w); }
// all ways to cover positions (in any order) with segments; f gets each partial one too
static void covers(unsigned n, unsigned cov, std::vector<Span>& segs, const std::function<void(bool)>& f) {
  f(cov == (1u << n) - 1);
  for (unsigned l = 1; l <= n; ++l) { if (cov >> (l - 1) & 1) continue; unsigned now = cov; for (unsigned r = l; r <= n && !(cov >> (r - 1) & 1); ++r) { now |= 1u << (r - 1); segs.push_back({l, r}); covers(n, now, segs, f); segs.pop_back(); } }
}
static void compare(Ctx& c, Meta& m, const Want& w, const std::string& what) {
  c.checkf(m.getSrcSentVec() == w.src && showM(m) == showW(w), [&] { return what + ": understood as " + showM(m) + " instead of " + showW(w); });
  unsigned n = w.src.size();
  for (unsigned l = 1; l <= n + 1; ++l) for (unsigned r = l; r <= n + 1; ++r) {
    bool over = false; for (auto& x : w.con) over = over || (l <= x.first.second && r >= x.first.first); auto i = w.con.find({l, r});
    c.checkf(m.srcPhrAffectedByConstraint({l, r}) == over, [&] { return what + str(": ", l, "-", r, over ? " is" : " is not", " affected by a constraint"); });
    c.checkf(m.getTransForSrcPhr({l, r}) == (i == w.con.end() ? Str() : i->second), [&] { return what + str(": translation of ", l, "-", r, " is '", join(m.getTransForSrcPhr({l, r})), "'"); });
  }
}
// every way to translate the sentence in segments is accepted if and only if the constrained segments have their translations
static void judge(Ctx& c, Meta& m, const Want& w, const std::string& what) {
  unsigned n = w.src.size(); if (n > 4) return; std::vector<Span> segs;
  covers(n, 0, segs, [&](bool complete) {
    // mode 0: constrained translations everywhere; 1, 2, 3: another word, one word less or more at one segment
    for (size_t bad = 0; bad <= segs.size() * 3; ++bad) {
      Str t; std::vector<PositionIndex> cuts; bool good = true, touched = false;
      for (size_t i = 0; i < segs.size(); ++i) {
        auto k = w.con.find(segs[i]); Str x = k == w.con.end() ? Str{"other"} : k->second; if (k == w.con.end()) for (auto& y : w.con) if (segs[i].first <= y.first.second && segs[i].second >= y.first.first) { touched = true; x = y.second; }
        if (bad && (bad - 1) / 3 == i) { int md = (bad - 1) % 3; if (md == 0) x.back() = x.back() == "q" ? "x" : "q"; else if (md == 1) { if (x.size() == 1) continue; x.pop_back(); } else x.push_back("q"); if (k != w.con.end()) good = false; }
        t.insert(t.end(), x.begin(), x.end()); cuts.push_back(t.size());
      }
      if (cuts.size() != segs.size()) continue;
      bool got = m.translationSatisfiesConstraints(segs, cuts, t), want = good && !touched; c.step();
      // a partial translation may only be found wrong later
      if (complete || want || !good) c.checkf(got == want, [&] { std::string s; for (size_t i = 0; i < segs.size(); ++i) s += str(" ", segs[i].first, "-", segs[i].second, ":", cuts[i]); return what + ": the translation '" + join(t) + "' by segments" + s + (got ? " is accepted" : " is refused"); });
    }
  });
}
// sentences with marked up phrases
static void xml(Ctx& c) {
  TranslationMetadata<PhrScoreInfo> m; std::string hist;
  // the same object may have seen another sentence
  if (c.flip()) { m.obtainTransConstraints("<phr_pair_annot> <src_segm> o p </src_segm> <trg_segm> t </trg_segm> </phr_pair_annot> u v w"); if (c.flip()) m.clear(); }
  Want w; std::string text; unsigned n = c.choose(thorough() ? 6 : 5); int glue = c.choose(3); bool prevTag = false;   // tags apart, tags glued to each other and to words, several blanks and tabs
  auto put = [&](const std::string& tok, bool tag) { if (!text.empty() && !(glue == 1 && (tag || prevTag))) text += glue == 2 ? " \t " : " "; text += tok; prevTag = tag; };
  for (unsigned i = 0; i < n; ++i) {
    int k = c.choose(n <= 3 ? 10 : 6); PositionIndex p = w.src.size() + 1;
    auto con = [&](Str s, Str t) { put("<phr_pair_annot>", true); put("<src_segm>", true); for (auto& x : s) put(x, false); put("</src_segm>", true); put("<trg_segm>", true); for (auto& x : t) put(x, false); put("</trg_segm>", true); put("</phr_pair_annot>", true); };
    auto ok = [&](Str s, Str t) { con(s, t); for (auto& x : s) w.src.push_back(x); w.con[{p, p + s.size() - 1}] = t; };
    auto words = [&](Str s) { for (auto& x : s) { bool tag = x[0] == '<' && x.back() == '>' && x != "<b>"; put(x, tag); w.src.push_back(x); } };
    switch (k) {
      case 0: words({"a"}); break;
      case 1: words({"b"}); break;
      case 2: ok({"a"}, {"x"}); break;
      case 3: ok({"a", "b"}, {"x", "y", "q"}); break;
      case 4: ok({"c"}, {"y", "q"}); break;
      case 5: ok({"b", "a"}, {"<unk>x"}); break;
      case 6: words({"<phr_pair_annot>"}); break;                                              // without what must follow
      case 7: words({"<src_segm>", "a", "</src_segm>"}); break;
      case 8: words({"<phr_pair_annot>", "<src_segm>", "</src_segm>", "<trg_segm>", "x", "</trg_segm>", "</phr_pair_annot>"}); break;   // nothing to translate
      case 9: put(glue == 1 ? "a<b>" : "<b>", false); w.src.push_back(glue == 1 ? "a<b>" : "<b>"); break;   // other tags are words; so are angle brackets
    }
  }
  // a stray tag right before a constraint starts no other constraint; nothing may swallow it
  if (n == 0) text = c.pick(std::vector<std::string>{"", " ", "   ", "\t"});
  m.obtainTransConstraints(text); c.state(text); c.outcome(showW(w)); compare(c, m, w, "'" + text + "'"); judge(c, m, w, "'" + text + "'");
}
// the same in JSON
static std::string quote(const std::string& s, int esc) { std::string r = "\""; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') r += '\\', r += ch; else if (esc && ch < 128 && isalpha(ch)) { char b[8]; snprintf(b, 8, "\\u%04x", ch); r += b; } else r += ch; } return r + "\""; }
static void json(Ctx& c) {
  JsonTranslationMetadata<PhrScoreInfo> m;
  if (c.flip()) { m.obtainTransConstraints("{\"src_title\": {\"preprocessed\": \"o p q\"}, \"tex_segmentation\": [{\"original\": \"p\", \"translation\": \"x\"}]}"); if (c.flip()) m.clear(); }
  Str src; unsigned n = c.choose(4); for (unsigned i = 0; i < n; ++i) src.push_back(c.pick(Str{"a", "b", "\xc3\xa9\"\\"}));
  // the phrases to be marked, in order: parts of the sentence or not
  std::vector<std::pair<Str, Str>> tr; unsigned k = c.choose(3); for (unsigned i = 0; i < k; ++i) tr.push_back({c.pick(std::vector<Str>{{"a"}, {"b"}, {"a", "b"}, {"b", "b"}, {"a", "a", "b"}, {"\xc3\xa9\"\\"}, {}}), c.pick(std::vector<Str>{{"x"}, {"y", "q"}, {}})});
  int esc = c.flip(), order = c.choose(2), bad = c.choose(k ? 6 : 2); std::string sp = esc ? "  " : " ";
  auto text = [&](const Str& v) { std::string r; for (size_t i = 0; i < v.size(); ++i) r += (i ? sp : std::string()) + v[i]; return r; };
  std::string a = "\"src_title\": {" + std::string(bad == 1 ? "\"other\": 3, " : "") + "\"preprocessed\" : " + quote(text(src), esc) + "}", b = "\"tex_segmentation\": [";
  for (size_t i = 0; i < tr.size(); ++i) { if (i) b += ", "; if (bad == 2 && i == 0) b += "1, null, [], "; if (bad == 3 && i == 0) b += "{\"original\": \"a\"}, {\"translation\": \"x\"}, {\"original\": 1, \"translation\": \"x\"}, {}, ";
    b += "{\"original\":" + quote(text(tr[i].first), esc) + ",\"translation\":" + quote(text(tr[i].second), esc) + "}"; }
  b += "]"; std::string js = "{" + (order ? a + ", " + b : b + " ,\n" + a) + "}"; if (bad == 4) js = "{" + b + "}"; if (bad == 5) js = "{" + a + ", \"tex_segmentation\": {\"original\": \"a\", \"translation\": \"x\"}}";
  Want w; if (bad != 4) w.src = src;
  if (bad != 5) { unsigned at = 0; bool lost = false;
    for (auto& t : tr) { if (t.first.empty() || t.second.empty() || lost) continue; unsigned p = at; while (p < w.src.size() && !(p + t.first.size() <= w.src.size() && std::equal(t.first.begin(), t.first.end(), w.src.begin() + p))) ++p;
      if (p >= w.src.size()) { lost = true; continue; } w.con[{p + 1, p + t.first.size()}] = t.second; at = p + t.first.size(); } }
  m.obtainTransConstraints(js); c.state(js); c.outcome(showW(w)); compare(c, m, w, js); judge(c, m, w, js);
}
// what is no JSON object is a sentence
static void plain(Ctx& c) {
  JsonTranslationMetadata<PhrScoreInfo> m; std::string t = c.pick(std::vector<std::string>{"", " ", "a", "a b", " a  b ", "{", "{a}", "[ 1 ]", "3", "\"a\" b", "{\"src_title\"", "null", "true story", "{\"a\" :", "{}x y", "\\"}); if (c.flip()) m.obtainTransConstraints("{\"src_title\": {\"preprocessed\": \"o\"}, \"tex_segmentation\": [{\"original\": \"o\", \"translation\": \"x\"}]}");
  m.obtainTransConstraints(t); Want w; std::istringstream in(t); std::string x; while (in >> x) w.src.push_back(x); c.state(t);
  if (t == "{}x y") w.src.clear();   // an object without a sentence; what follows it is not looked at
  compare(c, m, w, "'" + t + "'");
}
// the decoder translates the marked phrases as demanded, and the rest as well as possible
static const std::vector<Table>& tables() {
  static std::vector<Table> t = {
    {{{"a"}, {"x"}, 3}, {{"a"}, {"y"}, 1}, {{"b"}, {"y"}, 2}, {{"a", "b"}, {"x", "y"}, 1}, {{"b", "a"}, {"x"}, 1}, {{"c"}, {"z"}, 1}, {{"c"}, {"z", "x"}, 1}},
    {{{"a"}, {"x", "y"}, 1}, {{"b"}, {"y"}, 1}, {{"b"}, {"z", "y"}, 2}, {{"c"}, {"y"}, 3}, {{"b", "c"}, {"z"}, 2}, {{"a", "b", "c"}, {"y", "y"}, 1}, {{"c", "b"}, {"x", "y", "z"}, 1}}};
  return t;
}
static World& world(Ctx& c, unsigned t) { static std::map<unsigned, std::unique_ptr<World>> ws; auto& p = ws[t]; if (!p) p.reset(new World(c, tables()[t], {{"x", "y"}, {"y", "x", "z"}, {"z"}, {"x", "x", "y", "z"}, {"y"}}, 2 + t)); return *p; }
static void decode(Ctx& c) {
  unsigned t = c.choose(2); Setup p; p.w = c.pick(std::vector<std::vector<float>>{{1, 1, 1, 1, 1, 1, 1}, {0.5, 3, 1, 0.25, 0.001f, 1, 1}}); p.E = 2; bool exact = c.flip();
  p.breadth = exact ? false : c.flip(); p.U = c.choose(3); p.A = c.pick(std::vector<unsigned>{1, 3}); p.S = exact ? 100000 : c.pick(std::vector<unsigned>{1, 3}); p.W = exact ? 100 : 1; p.heur = exact ? 0 : c.pick(std::vector<unsigned>{0, 4, 6}); p.I = 1;
  // constraints: known and unknown words on both sides, longer than the phrase limit, two of them
  static const std::vector<std::vector<std::pair<Str, Str>>> sents = {
    {{{"a"}, {"y"}}}, {{{"a", "b"}, {"z"}}}, {{{"a"}, {"y"}}, {{"b"}, {}}}, {{{"b"}, {}}, {{"a", "u"}, {"new", "x"}}}, {{{"u"}, {"new"}}, {{"a"}, {}}, {{"b"}, {}}}, {{{"a"}, {}}, {{"b", "c"}, {"z", "z", "new"}}, {{"a"}, {}}},
    {{{"a"}, {"x"}}, {{"b"}, {"y"}}, {{"c"}, {"q"}}}, {{{"c"}, {}}, {{"u"}, {}}, {{"b"}, {"new", "new"}}}, {{{"a", "b", "c", "a"}, {"x", "new", "y"}}, {{"b"}, {}}}, {{{"a"}, {}}, {{"a"}, {"x", "y"}}, {{"a"}, {}}}};
  auto& s = c.pick(sents); Str src; std::string text; std::map<Span, Str> con;
  for (auto& x : s) { if (!text.empty()) text += " "; if (x.second.empty()) text += join(x.first); else { con[{src.size() + 1, src.size() + x.first.size()}] = x.second; text += "<phr_pair_annot><src_segm>" + join(x.first) + "</src_segm><trg_segm>" + join(x.second) + "</trg_segm></phr_pair_annot>"; } src.insert(src.end(), x.first.begin(), x.first.end()); }
  World& w = world(c, t); Engine e(c, w, p); if (c.flip()) e.dec.translate("<phr_pair_annot><src_segm>b</src_segm><trg_segm>x</trg_segm></phr_pair_annot> c");
  Hyp h = e.dec.translate(text); auto what = [&] { return str("'", text, "' U=", p.U, " A=", p.A, " S=", p.S, " heuristic ", p.heur, p.breadth ? " breadth-first" : "", " table ", t, ": "); }; c.state(what() + join(p.w));
  c.checkf(e.m.isComplete(h), [&] { return what() + "no translation"; });
  auto known = [&](Str x) { for (auto& y : x) if (y == "new" || y == "q") y = UNK_WORD_STR; return x; };
  auto options = [&](unsigned l, unsigned r, bool raw) { for (auto& x : con) if (l <= x.first.second && r >= x.first.first) return x.first == Span(l, r) ? std::set<Str>{raw ? x.second : known(x.second)} : std::set<Str>(); if (r - l + 1 > p.A) return std::set<Str>(); return tableOptions(w, src, l, r); };
  Deriv d = e.derivation(c, h, src); unsigned cov = 0; c.outcome(show(d)); Deriv k = d;
  for (size_t i = 0; i < d.size(); ++i) { auto& g = d[i]; unsigned gap = g.l; while (gap > 1 && !(cov >> (gap - 2) & 1)) --gap; bool twice = false; for (unsigned q = g.l; q <= g.r; ++q) { twice = twice || (cov >> (q - 1) & 1); cov |= 1u << (q - 1); }
    c.checkf(!twice && g.l - gap <= p.U && options(g.l, g.r, true).count(g.t), [&] { return what() + show(d) + " does not respect the constraints or the limits"; }); for (auto& x : con) if (x.first == Span(g.l, g.r)) k[i].t = known(g.t); }
  c.checkf(cov == (1u << src.size()) - 1, [&] { return what() + "words left untranslated: " + show(d); });
  double got = (double)h.getScore(), want = dot(features(w, src, k), p.w); c.checkf(close(got, want, 2e-4, 2e-4), [&] { return what() + show(d) + " has score " + str(got) + " instead of " + str(want); });
  if (!exact) return;
  double top = -HUGE_VAL; Deriv cur, bd; derive(src, p.U, 100, [&](unsigned l, unsigned r, size_t, unsigned) { return options(l, r, false); }, cur, 0, 0, [&](const Deriv& x) { double v = dot(features(w, src, x), p.w); c.step(); if (v > top) { top = v; bd = x; } });
  c.checkf(got > top - 2e-4 - 2e-4 * std::fabs(top), [&] { return what() + "found " + show(d) + " of score " + str(got) + " but the best is " + show(bd) + " of score " + str(top); });
}
int main(int argc, char** argv) {
  if (!getenv("MC_STDERR")) freopen("/dev/null", "w", stderr);
  return run(argc, argv, "P14", {{"xml", "every sentence of up to 4 items (5 in the thorough tier) out of words, phrase annotations with 1-2 source and 1-3 target words, stray and unknown tags, incomplete annotations x 3 spacings x used or new object; every segmentation of sentences of up to 4 words, in every order, with right and wrong translations", xml, 3},
    {"json", "every sentence of up to 3 words x up to 2 annotated phrases x escapes x order of the keys x 5 kinds of unexpected content x used or new object; every segmentation", json, 3},
    {"plain", "16 texts that are no JSON object", plain, 1},
    {"decode", "10 sentences with constraints x 2 phrase tables x 2 weight vectors x jumps up to 0-2 words x phrase length limits x exact search or limited stacks with 3 heuristics x used or new decoder", decode, 3}});
}
