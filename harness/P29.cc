// Translating and aligning texts in batches gives what the decoder gives for each sentence.
// SOURCES: downhill_simplex/step_by_step_dhs.c error_correction/BaseErrorCorrectionModel.cc error_correction/EditDistForStr.cc error_correction/EditDistForVecString.cc error_correction/NbSearchStack.cc error_correction/NonPbEcModelForNbUcat.cc error_correction/PfsmEcm.cc error_correction/PfsmEcmForWg.cc error_correction/WgHandler.cc error_correction/WordGraph.cc error_correction/_editDistBasedEcm.cc incr_models/IncrJelMerNgramLM.cc incr_models/WordPenaltyModel.cc incr_models/WordPredictor.cc incr_models/lm_ienc.cc nlp_common/AwkInputStream.cc nlp_common/DynClassFileHandler.cc nlp_common/MathFuncs.cc nlp_common/ModelDescriptorUtils.cc nlp_common/Prob.cc nlp_common/ThreadSafePrint.cc nlp_common/getline.c nlp_common/SingleWordVocab.cc nlp_common/StrProcUtils.cc nlp_common/WordAligMatrix.cc nlp_common/ctimer.c nlp_common/mem_alloc_utils.cc nlp_common/options.cc nlp_common/printAligFuncs.cc phrase_models/AlignmentExtractor.cc phrase_models/BaseIncrPhraseModel.cc phrase_models/BasePhraseModel.cc phrase_models/BpSet.cc phrase_models/CategPhrasePairFilter.cc phrase_models/HatTriePhraseTable.cc phrase_models/PhraseExtractUtils.cc phrase_models/PhraseExtractionTable.cc phrase_models/SegLenTable.cc phrase_models/SrcSegmLenTable.cc phrase_models/SrfNodeInfoMap.cc phrase_models/SrfNodeKey.cc phrase_models/StrictCategPhrasePairFilter.cc phrase_models/TrgCutsTable.cc phrase_models/TrgSegmLenTable.cc phrase_models/WbaIncrPhraseModel.cc phrase_models/_incrPhraseModel.cc phrase_models/_wbaIncrPhraseModel.cc stack_dec/BaseHypState.cc stack_dec/CustomFeatureHandler.cc stack_dec/DirectPhraseModelFeat.cc stack_dec/DynClassFactoryHandler.cc stack_dec/InversePhraseModelFeat.cc stack_dec/KbMiraLlWu.cc stack_dec/LangModelFeat.cc stack_dec/MiraBleu.cc stack_dec/bleu.cc stack_dec/PhrHypNumcovJumps01EqClassF.cc stack_dec/PhrHypNumcovJumpsEqClassF.cc stack_dec/PhrHypState.cc stack_dec/PhrNbestTransTablePrefKey.cc stack_dec/PhrNbestTransTableRefKey.cc stack_dec/PhrScoreInfo.cc stack_dec/SmtModelUtils.cc stack_dec/SrcPhraseLenFeat.cc stack_dec/SrcPosJumpFeat.cc stack_dec/StdFeatureHandler.cc stack_dec/TrgPhraseLenFeat.cc stack_dec/WeightUpdateUtils.cc stack_dec/WordPenaltyFeat.cc sw_models/CachedHmmAligLgProb.cc sw_models/IncrHmmAligTable.cc sw_models/IncrHmmP0AligModel.cc sw_models/IncrLexTable.cc sw_models/LightSentenceHandler.cc sw_models/WeightedIncrNormSlm.cc sw_models/_incrHmmAligModel.cc sw_models/_incrHmmP0AligModel.cc sw_models/_sentLengthModel.cc sw_models/anjiMatrix.cc sw_models/anjm1ip_anjiMatrix.cc
// FLAGS: -include svc_pre.h
// PROGRAM: thot_ms_dec stack_dec/thot_ms_dec.cc verif:batch_mods.cc verif:mc.cc downhill_simplex/step_by_step_dhs.c error_correction/BaseErrorCorrectionModel.cc error_correction/EditDistForStr.cc error_correction/EditDistForVecString.cc error_correction/NbSearchStack.cc error_correction/NonPbEcModelForNbUcat.cc error_correction/PfsmEcm.cc error_correction/PfsmEcmForWg.cc error_correction/WgHandler.cc error_correction/WordGraph.cc error_correction/_editDistBasedEcm.cc incr_models/IncrJelMerNgramLM.cc incr_models/WordPenaltyModel.cc incr_models/WordPredictor.cc incr_models/lm_ienc.cc nlp_common/AwkInputStream.cc nlp_common/DynClassFileHandler.cc nlp_common/MathFuncs.cc nlp_common/ModelDescriptorUtils.cc nlp_common/Prob.cc nlp_common/ThreadSafePrint.cc nlp_common/getline.c nlp_common/SingleWordVocab.cc nlp_common/StrProcUtils.cc nlp_common/WordAligMatrix.cc nlp_common/ctimer.c nlp_common/mem_alloc_utils.cc nlp_common/options.cc nlp_common/printAligFuncs.cc phrase_models/AlignmentExtractor.cc phrase_models/BaseIncrPhraseModel.cc phrase_models/BasePhraseModel.cc phrase_models/BpSet.cc phrase_models/CategPhrasePairFilter.cc phrase_models/HatTriePhraseTable.cc phrase_models/PhraseExtractUtils.cc phrase_models/PhraseExtractionTable.cc phrase_models/SegLenTable.cc phrase_models/SrcSegmLenTable.cc phrase_models/SrfNodeInfoMap.cc phrase_models/SrfNodeKey.cc phrase_models/StrictCategPhrasePairFilter.cc phrase_models/TrgCutsTable.cc phrase_models/TrgSegmLenTable.cc phrase_models/WbaIncrPhraseModel.cc phrase_models/_incrPhraseModel.cc phrase_models/_wbaIncrPhraseModel.cc stack_dec/BaseHypState.cc stack_dec/CustomFeatureHandler.cc stack_dec/DirectPhraseModelFeat.cc stack_dec/DynClassFactoryHandler.cc stack_dec/InversePhraseModelFeat.cc stack_dec/KbMiraLlWu.cc stack_dec/LangModelFeat.cc stack_dec/MiraBleu.cc stack_dec/bleu.cc stack_dec/PhrHypNumcovJumps01EqClassF.cc stack_dec/PhrHypNumcovJumpsEqClassF.cc stack_dec/PhrHypState.cc stack_dec/PhrNbestTransTablePrefKey.cc stack_dec/PhrNbestTransTableRefKey.cc stack_dec/PhrScoreInfo.cc stack_dec/SmtModelUtils.cc stack_dec/SrcPhraseLenFeat.cc stack_dec/SrcPosJumpFeat.cc stack_dec/StdFeatureHandler.cc stack_dec/TrgPhraseLenFeat.cc stack_dec/WeightUpdateUtils.cc stack_dec/WordPenaltyFeat.cc sw_models/CachedHmmAligLgProb.cc sw_models/IncrHmmAligTable.cc sw_models/IncrHmmP0AligModel.cc sw_models/IncrLexTable.cc sw_models/LightSentenceHandler.cc sw_models/WeightedIncrNormSlm.cc sw_models/_incrHmmAligModel.cc sw_models/_incrHmmP0AligModel.cc sw_models/_sentLengthModel.cc sw_models/anjiMatrix.cc sw_models/anjm1ip_anjiMatrix.cc 
// PROGRAM: thot_ms_alig stack_dec/thot_ms_alig.cc verif:batch_mods.cc verif:mc.cc downhill_simplex/step_by_step_dhs.c error_correction/BaseErrorCorrectionModel.cc error_correction/EditDistForStr.cc error_correction/EditDistForVecString.cc error_correction/NbSearchStack.cc error_correction/NonPbEcModelForNbUcat.cc error_correction/PfsmEcm.cc error_correction/PfsmEcmForWg.cc error_correction/WgHandler.cc error_correction/WordGraph.cc error_correction/_editDistBasedEcm.cc incr_models/IncrJelMerNgramLM.cc incr_models/WordPenaltyModel.cc incr_models/WordPredictor.cc incr_models/lm_ienc.cc nlp_common/AwkInputStream.cc nlp_common/DynClassFileHandler.cc nlp_common/MathFuncs.cc nlp_common/ModelDescriptorUtils.cc nlp_common/Prob.cc nlp_common/ThreadSafePrint.cc nlp_common/getline.c nlp_common/SingleWordVocab.cc nlp_common/StrProcUtils.cc nlp_common/WordAligMatrix.cc nlp_common/ctimer.c nlp_common/mem_alloc_utils.cc nlp_common/options.cc nlp_common/printAligFuncs.cc phrase_models/AlignmentExtractor.cc phrase_models/BaseIncrPhraseModel.cc phrase_models/BasePhraseModel.cc phrase_models/BpSet.cc phrase_models/CategPhrasePairFilter.cc phrase_models/HatTriePhraseTable.cc phrase_models/PhraseExtractUtils.cc phrase_models/PhraseExtractionTable.cc phrase_models/SegLenTable.cc phrase_models/SrcSegmLenTable.cc phrase_models/SrfNodeInfoMap.cc phrase_models/SrfNodeKey.cc phrase_models/StrictCategPhrasePairFilter.cc phrase_models/TrgCutsTable.cc phrase_models/TrgSegmLenTable.cc phrase_models/WbaIncrPhraseModel.cc phrase_models/_incrPhraseModel.cc phrase_models/_wbaIncrPhraseModel.cc stack_dec/BaseHypState.cc stack_dec/CustomFeatureHandler.cc stack_dec/DirectPhraseModelFeat.cc stack_dec/DynClassFactoryHandler.cc stack_dec/InversePhraseModelFeat.cc stack_dec/KbMiraLlWu.cc stack_dec/LangModelFeat.cc stack_dec/MiraBleu.cc stack_dec/bleu.cc stack_dec/PhrHypNumcovJumps01EqClassF.cc stack_dec/PhrHypNumcovJumpsEqClassF.cc stack_dec/PhrHypState.cc stack_dec/PhrNbestTransTablePrefKey.cc stack_dec/PhrNbestTransTableRefKey.cc stack_dec/PhrScoreInfo.cc stack_dec/SmtModelUtils.cc stack_dec/SrcPhraseLenFeat.cc stack_dec/SrcPosJumpFeat.cc stack_dec/StdFeatureHandler.cc stack_dec/TrgPhraseLenFeat.cc stack_dec/WeightUpdateUtils.cc stack_dec/WordPenaltyFeat.cc sw_models/CachedHmmAligLgProb.cc sw_models/IncrHmmAligTable.cc sw_models/IncrHmmP0AligModel.cc sw_models/IncrLexTable.cc sw_models/LightSentenceHandler.cc sw_models/WeightedIncrNormSlm.cc sw_models/_incrHmmAligModel.cc sw_models/_incrHmmP0AligModel.cc sw_models/_sentLengthModel.cc sw_models/anjiMatrix.cc sw_models/anjm1ip_anjiMatrix.cc 
// PROGRAM: thot_server stack_dec/thot_server.cc verif:batch_mods.cc verif:mc.cc downhill_simplex/step_by_step_dhs.c error_correction/BaseErrorCorrectionModel.cc error_correction/EditDistForStr.cc error_correction/EditDistForVecString.cc error_correction/NbSearchStack.cc error_correction/NonPbEcModelForNbUcat.cc error_correction/PfsmEcm.cc error_correction/PfsmEcmForWg.cc error_correction/WgHandler.cc error_correction/WordGraph.cc error_correction/_editDistBasedEcm.cc incr_models/IncrJelMerNgramLM.cc incr_models/WordPenaltyModel.cc incr_models/WordPredictor.cc incr_models/lm_ienc.cc nlp_common/AwkInputStream.cc nlp_common/DynClassFileHandler.cc nlp_common/MathFuncs.cc nlp_common/ModelDescriptorUtils.cc nlp_common/Prob.cc nlp_common/ThreadSafePrint.cc nlp_common/getline.c nlp_common/SingleWordVocab.cc nlp_common/StrProcUtils.cc nlp_common/WordAligMatrix.cc nlp_common/ctimer.c nlp_common/mem_alloc_utils.cc nlp_common/options.cc nlp_common/printAligFuncs.cc phrase_models/AlignmentExtractor.cc phrase_models/BaseIncrPhraseModel.cc phrase_models/BasePhraseModel.cc phrase_models/BpSet.cc phrase_models/CategPhrasePairFilter.cc phrase_models/HatTriePhraseTable.cc phrase_models/PhraseExtractUtils.cc phrase_models/PhraseExtractionTable.cc phrase_models/SegLenTable.cc phrase_models/SrcSegmLenTable.cc phrase_models/SrfNodeInfoMap.cc phrase_models/SrfNodeKey.cc phrase_models/StrictCategPhrasePairFilter.cc phrase_models/TrgCutsTable.cc phrase_models/TrgSegmLenTable.cc phrase_models/WbaIncrPhraseModel.cc phrase_models/_incrPhraseModel.cc phrase_models/_wbaIncrPhraseModel.cc stack_dec/BaseHypState.cc stack_dec/CustomFeatureHandler.cc stack_dec/DirectPhraseModelFeat.cc stack_dec/DynClassFactoryHandler.cc stack_dec/InversePhraseModelFeat.cc stack_dec/KbMiraLlWu.cc stack_dec/LangModelFeat.cc stack_dec/MiraBleu.cc stack_dec/bleu.cc stack_dec/PhrHypNumcovJumps01EqClassF.cc stack_dec/PhrHypNumcovJumpsEqClassF.cc stack_dec/PhrHypState.cc stack_dec/PhrNbestTransTablePrefKey.cc stack_dec/PhrNbestTransTableRefKey.cc stack_dec/PhrScoreInfo.cc stack_dec/SmtModelUtils.cc stack_dec/SrcPhraseLenFeat.cc stack_dec/SrcPosJumpFeat.cc stack_dec/StdFeatureHandler.cc stack_dec/TrgPhraseLenFeat.cc stack_dec/WeightUpdateUtils.cc stack_dec/WordPenaltyFeat.cc sw_models/CachedHmmAligLgProb.cc sw_models/IncrHmmAligTable.cc sw_models/IncrHmmP0AligModel.cc sw_models/IncrLexTable.cc sw_models/LightSentenceHandler.cc sw_models/WeightedIncrNormSlm.cc sw_models/_incrHmmAligModel.cc sw_models/_incrHmmP0AligModel.cc sw_models/_sentLengthModel.cc sw_models/anjiMatrix.cc sw_models/anjm1ip_anjiMatrix.cc stack_dec/ThotDecoder.cc nlp_common/BasicSocketUtils.cc
// SCRIPTS: utils/nlp_common/thot_general_lib.sh utils/nlp_common/thot_simple_sched_lib.sh utils/nlp_common/thot_adv_sched_lib.sh utils/stack_dec/thot_decoder.sh utils/stack_dec/thot_aligner.sh utils/exper/thot_gen_cfg_file.sh
// LIBS: -lgmp -lz -ldb_cxx -lleveldb -lpthread -ldl -lltdl
#include "service.h"
#include "multi_stack_decoder_rec.h"
#include "StdFeatureHandler.h"
#include "CustomFeatureHandler.h"
#include <functional>
using mc::Ctx;
using mc::str;
typedef std::vector<std::string> Strs;
static bool thorough() { const char* t = getenv("VERIF_TIER"); return t && std::string(t) == "thorough"; }

// ------------------------------------------------------------------ the options
struct Opts { int W = 10, A = 10, S = 10, nomon = 0, h = LOCAL_TD_HEURISTIC, be = 0; std::vector<float> w; };
static Strs args(const Opts& o) {
  Strs r = {"-W", str(o.W), "-A", str(o.A), "-S", str(o.S), "-nomon", str(o.nomon), "-h", str(o.h)};
  if (o.be) r.push_back("-be");
  if (!o.w.empty()) { r.push_back("-tmw"); for (float x : o.w) r.push_back(str(x)); }
  return r;
}
// ------------------------------------------------------------------ a decoder of the library that serves one sentence
struct Engine {
  StdFeatureHandler f; CustomFeatureHandler cf; TranslationMetadata<PhrScoreInfo> md; SmtModel* m = new SmtModel; multi_stack_decoder_rec<SmtModel>* d = new multi_stack_decoder_rec<SmtModel>;
  Engine(const std::string& dir, const Opts& o, bool graph) {
    f.setWordPenSoFile("/modules/word_penalty_model_factory.so"); f.setDefaultLangSoFile("/modules/incr_jel_mer_ngram_lm_factory.so");
    f.setDefaultTransSoFile("/modules/wba_incr_phrase_model_factory.so"); f.setDefaultSingleWordSoFile("/modules/incr_hmm_p0_alig_model_factory.so");
    m->link_trans_metadata(&md); m->link_std_feats_info(f.getFeatureInfoPtr());
    if (f.loadMonolingualFeats(dir + "/lm/lm", 0) || f.loadBilingualFeats(dir + "/tm/tm", 0)) throw mc::Failure{"", "the models cannot be loaded"};
    m->link_custom_feats_info(cf.getFeatureInfoPtr());
    m->setHeuristic(o.h); m->setWeights(o.w); m->set_W_par(o.W); m->set_A_par(o.A); m->set_U_par(o.nomon);
    d->link_smt_model(m); d->set_S_par(o.S); d->set_I_par(1); d->set_G_par(0); d->set_breadthFirst(!o.be);
    if (graph) d->enableWordGraph();
  }
  ~Engine() { delete d; delete m; f.clear(); cf.clear(); }
};
struct Quiet { std::streambuf *e, *o; std::ostringstream s; Quiet() { e = std::cerr.rdbuf(s.rdbuf()); o = std::cout.rdbuf(s.rdbuf()); } ~Quiet() { std::cerr.rdbuf(e); std::cout.rdbuf(o); } };

static const svc::Corpus corpus = {{svc::words("a b"), svc::words("x y")}, {svc::words("b"), svc::words("z")}, {svc::words("a c b"), svc::words("x w")}, {svc::words("c"), svc::words("w y")}, {svc::words("b a"), svc::words("x z")}};
static const std::string& models(Ctx& c) {                    // one set of models for all the executions of a process
  static std::string d;
  if (d != c.scratch() + "/models") { Quiet q; d = c.scratch() + "/models"; svc::makeModels(d, corpus); setenv("SVC_INI", svc::ini.c_str(), 1); }
  return d;
}
struct Res { std::string words, wg, idx; double score; Strs vec; std::vector<std::pair<PositionIndex, PositionIndex>> segs; std::vector<PositionIndex> cuts; };
enum Mode { TRANS, REF, PREF, COV };
static const Res& alone(Ctx& c, const Opts& o, Mode mode, const std::string& s, const std::string& t, bool graph = false, float thr = UNLIMITED_DENSITY) {
  static std::map<std::string, Res> memo; auto key = str(mc::join(args(o)), "|", mode, "|", s, "|", t, "|", graph, "|", thr);
  auto it = memo.find(key); if (it != memo.end()) return it->second;
  Res r; Quiet q; Engine e(models(c), o, graph);
  auto h = mode == TRANS ? e.d->translate(s) : mode == REF ? e.d->translateWithRef(s, t) : mode == PREF ? e.d->translateWithPrefix(s, t) : e.d->verifyCoverageForRef(s, t);
  r.words = e.m->getTransInPlainText(h); r.vec = e.m->getTransInPlainTextVec(h); r.score = h.getScore(); r.segs = h.getData().sourceSegmentation; r.cuts = h.getData().targetSegmentCuts;
  if (graph) { auto f = c.scratch() + "/reference"; e.d->pruneWordGraph(thr); e.d->printWordGraph(f.c_str()); r.wg = mc::readFile(f + ".wg"); r.idx = mc::readFile(f + ".idx"); }
  return memo[key] = r;
}
static std::string lines(const Strs& v, bool last = true) { std::string r; for (size_t i = 0; i < v.size(); ++i) r += v[i] + (i + 1 < v.size() || last ? "\n" : ""); return r; }
static std::string quoted(const Strs& v) { std::string r; for (auto& x : v) r += "[" + x + "]"; return r; }
static mc::Result run(Ctx& c, Strs a) { c.step(); auto r = mc::runCmd(c, a); c.checkf(r.ok(), [&] { return str(mc::join(a), " fails with status ", r.status, ": ", r.err.size() > 600 ? r.err.substr(r.err.size() - 600) : r.err); }); return r; }
static void mustEq(Ctx& c, const std::string& what, const std::string& got, const std::string& want) { c.checkf(got == want, [&] { return what + ": got\n" + got + "instead of\n" + want; }); }
static Strs withModels(Ctx& c, Strs a) { auto d = models(c); a.insert(a.end(), {"-tm", d + "/tm/tm", "-lm", d + "/lm/lm"}); return a; }

static const Strs pool = {"a b", "", "b a c", "c q b", "a", " c  b ", "a c b b"};
// ------------------------------------------------------------------ every text
static void texts(Ctx& c) {
  Strs t; int n = c.choose(thorough() ? 5 : 4); for (int i = 0; i < n; ++i) t.push_back(pool[c.choose(7)]);
  Opts o; int k = c.choose(2); if (k) { o.nomon = 2; o.A = 2; }
  bool nl = n == 0 || t.back().empty() || c.flip(), file = c.flip(); c.log(str(quoted(t), " newline=", nl, " file=", file, " options ", k));
  Strs want; for (auto& s : t) want.push_back(alone(c, o, TRANS, s, "").words);
  auto d = mc::freshDir(c); mc::writeFile(d + "/t", lines(t, nl));
  Strs a = {mc::bin("thot_ms_dec"), "-t", d + "/t"}; a = withModels(c, a); for (auto& x : args(o)) a.push_back(x);
  if (file) { a.push_back("-o"); a.push_back(d + "/o"); }
  auto r = run(c, a);
  c.outcome(r.out); mustEq(c, "translations of " + quoted(t), file ? mc::readFile(d + "/o") : r.out, lines(want));
}
// ------------------------------------------------------------------ every combination of options, given anywhere
static void options(Ctx& c) {
  Opts o, other;
  o.W = c.pick(std::vector<int>{1, 2, 10}); o.A = c.pick(std::vector<int>{1, 2, 10}); o.S = c.pick(std::vector<int>{1, 2, 10}); o.nomon = c.pick(std::vector<int>{0, 1, 2});
  o.h = c.pick(std::vector<int>{NO_HEURISTIC, LOCAL_T_HEURISTIC, LOCAL_TD_HEURISTIC}); o.be = c.choose(2); int w = c.choose(thorough() ? 4 : 2);
  static const std::vector<std::vector<float>> ws = {{}, {0, 1, -1, 0.5, 0.25, 2, 1, 0.5}, {1, 0, 1, 0}, {-1, 1, 1, 1, 1, 1, 1, 1}}; o.w = ws[w];
  int where = c.choose(3);                                     // command line, file, both
  other.W = 11 - o.W; other.A = 3; other.S = 3; other.nomon = 1; other.h = NO_HEURISTIC; if (!o.w.empty()) other.w = {0, 0, 1};
  c.log(str(mc::join(args(o)), where == 0 ? " on the command line" : where == 1 ? " in the file" : " on the command line, others in the file"));
  static const Strs t = {"a c b", "b a c b", "c c"};
  auto d = mc::freshDir(c); mc::writeFile(d + "/t", lines(t));
  Strs a = {mc::bin("thot_ms_dec"), "-t", d + "/t"}; auto m = models(c);
  if (where) {
    auto f = args(where == 1 ? o : other); std::string s = str("# models\n-tm ", m, "/tm/tm\n-lm ", where == 1 ? m : "/nowhere", "/lm/lm\n\n# search\n");
    for (size_t i = 0; i < f.size(); ++i) s += f[i] + (i + 1 == f.size() || isOption(f[i + 1].c_str()) ? "\n" : " ");
    mc::writeFile(d + "/c", s); a.push_back("-c"); a.push_back(d + "/c");
    if (where == 2) { a.push_back("-lm"); a.push_back(m + "/lm/lm"); }
  } else a = withModels(c, a);
  if (where != 1) for (auto& x : args(o)) a.push_back(x);
  Strs want; for (auto& s : t) want.push_back(alone(c, o, TRANS, s, "").words);
  auto r = run(c, a); c.outcome(r.out); mustEq(c, "translations with " + mc::join(args(o)), r.out, lines(want));
}
// ------------------------------------------------------------------ word graphs
static void graphs(Ctx& c) {
  Strs t; int n = 1 + c.choose(thorough() ? 3 : 2); for (int i = 0; i < n; ++i) t.push_back(pool[c.choose(7)]);
  float thr = c.pick(std::vector<float>{UNLIMITED_DENSITY, 0, 0.5, 1}); Opts o; o.nomon = c.choose(2);
  c.log(str(quoted(t), " threshold ", thr, " nomon ", o.nomon));
  Strs want; for (auto& s : t) want.push_back(alone(c, o, TRANS, s, "", true, thr).words);
  auto d = mc::freshDir(c); mc::writeFile(d + "/t", lines(t)); std::string w = "/w"; if (thr == UNLIMITED_DENSITY && c.flip()) { w += "/" + std::string(120, 'x') + "/" + std::string(120, 'y'); c.log("long path"); }
  std::filesystem::create_directories(d + w);
  auto a = withModels(c, {mc::bin("thot_ms_dec"), "-t", d + "/t", "-wg", d + w + "/g"}); for (auto& x : args(o)) a.push_back(x);
  if (thr != UNLIMITED_DENSITY) { a.push_back("-wgp"); a.push_back(str(thr)); }
  auto r = run(c, a); mustEq(c, "translations of " + quoted(t), r.out, lines(want));
  size_t files = 0; for (auto& e : std::filesystem::directory_iterator(d + w)) { (void)e; ++files; }
  c.check(files == 2 * t.size(), "number of word graph files");
  for (size_t i = 0; i < t.size(); ++i) {
    char b[32]; sprintf(b, "/g_%06d", int(i + 1)); auto& e = alone(c, o, TRANS, t[i], "", true, thr);
    mustEq(c, str("word graph of sentence ", i + 1, " of ", quoted(t)), mc::readFile(d + w + b + ".wg"), e.wg); mustEq(c, str("states of the word graph of sentence ", i + 1, " of ", quoted(t)), mc::readFile(d + w + b + ".idx"), e.idx);
    c.outcome(e.wg);
  }
}
// ------------------------------------------------------------------ alignments
static const std::vector<std::pair<std::string, std::string>> pairs = {{"a b", "x y"}, {"a b", "y x"}, {"b a c", "z x w y"}, {"c b", "w y z"}, {"a c b", "x w"}, {"a q", "x q"}, {"a", "z"}, {"", ""}, {"b", ""}, {"a b", "x"}, {" c  b ", "w y  z"}};
static Strs toks(const std::string& s) { return svc::words(s); }
struct Link { std::string w; std::vector<int> src; };
static std::vector<Link> parse(Ctx& c, const std::string& l) {                     // word ({ i j }) ...
  Strs t = toks(l); std::vector<Link> r;
  for (size_t i = 0; i < t.size();) { Link k; k.w = t[i++]; c.checkf(i < t.size() && t[i] == "({", [&] { return "not an alignment: " + l; }); ++i; while (i < t.size() && t[i] != "})") k.src.push_back(std::stoi(t[i++])); c.checkf(i < t.size(), [&] { return "not an alignment: " + l; }); ++i; r.push_back(k); }
  return r;
}
static void alignments(Ctx& c) {
  std::vector<std::pair<std::string, std::string>> t; int n = 1 + c.choose(2); for (int i = 0; i < n; ++i) t.push_back(pairs[c.choose(pairs.size())]);
  if (thorough()) t.push_back(pairs[c.choose(pairs.size())]);
  Mode mode = c.pick(std::vector<Mode>{REF, PREF, COV}); Opts o; o.nomon = c.pick(std::vector<int>{0, 2});
  bool nl = c.flip();
  Strs s, g; for (auto& p : t) { s.push_back(p.first); g.push_back(p.second); }
  if (!nl && (s.back().empty() || g.back().empty())) throw mc::Skip();
  c.log(str(quoted(s), " ", quoted(g), mode == REF ? " reference" : mode == PREF ? " prefix" : " coverage", " nomon ", o.nomon));
  auto d = mc::freshDir(c); mc::writeFile(d + "/s", lines(s, nl)); mc::writeFile(d + "/r", lines(g, nl));
  auto a = withModels(c, {mc::bin("thot_ms_alig"), "-t", d + "/s", "-r", d + "/r"}); if (mode == PREF) a.push_back("-p"); if (mode == COV) a.push_back("-cov"); for (auto& x : args(o)) a.push_back(x);
  auto r = run(c, a); std::istringstream in(r.out); std::string l; c.outcome(r.out);
  for (size_t k = 0; k < t.size(); ++k) {
    auto& e = alone(c, o, mode, s[k], g[k]); auto what = str("pair ", k + 1, " of ", quoted(s), quoted(g), ": ");
    std::ostringstream hd; hd << "# " << k + 1 << " ; Align. score= " << e.score;
    c.checkf(std::getline(in, l) && l == hd.str(), [&] { return what + "header " + l + " instead of " + hd.str(); });
    c.checkf(std::getline(in, l) && l == s[k], [&] { return what + "source " + l; });
    c.check(bool(std::getline(in, l)), what + "no alignment"); auto al = parse(c, l);
    c.checkf(!al.empty() && al[0].w == "NULL" && al[0].src.empty(), [&] { return what + l; });
    Strs got; for (size_t i = 1; i < al.size(); ++i) got.push_back(al[i].w);
    Strs src = toks(s[k]), trg = toks(g[k]); std::vector<int> all; for (size_t i = 0; i < src.size(); ++i) all.push_back(i + 1);
    bool full = e.vec == trg;
    if (mode != PREF) c.checkf(got == trg, [&] { return what + "the words of the alignment are " + mc::join(got); });
    else c.checkf(got.size() >= trg.size() && std::equal(trg.begin(), trg.end(), got.begin()) && got == e.vec, [&] { return what + "the words of the alignment are " + mc::join(got) + " instead of " + mc::join(e.vec); });
    if (mode != PREF && !full) { for (size_t i = 1; i < al.size(); ++i) c.check(al[i].src == all, what + "a target that cannot be generated is aligned with every word: " + l); continue; }
    size_t i = 1; std::vector<int> used(src.size() + 1, 0);
    for (size_t q = 0; q < e.cuts.size(); ++q) {                 // the words of a target segment carry the positions of its source segment
      std::vector<int> seg; for (PositionIndex j = e.segs[q].first; j <= e.segs[q].second; ++j) { seg.push_back(j); c.check(j >= 1 && j <= src.size() && !used[j], what + "source positions"); used[j] = 1; }
      for (; i <= e.cuts[q]; ++i) c.checkf(i < al.size() && al[i].src == seg, [&] { return what + "alignment " + l; });
    }
    c.check(i == al.size(), what + "words without alignment: " + l);
    if (!trg.empty()) for (size_t j = 1; j <= src.size(); ++j) c.check(used[j], str(what, "source word ", j, " is not aligned: ", l));
  }
  c.checkf(!std::getline(in, l), [&] { return "more output than pairs: " + l; });
}
// ------------------------------------------------------------------ several processors
static void chunks(Ctx& c) {
  bool align = c.choose(2); int n = 1 + c.choose(thorough() ? 6 : 4), pr = 1 + c.choose(std::min(n, 3)); bool wg = align ? false : c.flip();
  Strs s, g; for (int i = 0; i < n; ++i) { s.push_back(align ? pairs[i % 5].first : pool[(i * 2 + 2) % 7]); g.push_back(pairs[i % 5].second); }
  c.log(str(align ? "thot_aligner " : "thot_decoder ", quoted(s), " processors ", pr, " graphs ", wg));
  auto d = mc::freshDir(c); mc::writeFile(d + "/s", lines(s)); mc::writeFile(d + "/r", lines(g)); std::filesystem::create_directory(d + "/sd"); std::filesystem::create_directory(d + "/w");
  auto m = models(c); mc::writeFile(d + "/c", str("-tm ", m, "/tm/tm\n-lm ", m, "/lm/lm\n-W 10\n-S 10\n-A 10\n-nomon 1\n"));
  Opts o; o.nomon = 1; o.S = 9;
  Strs a = {"bash", mc::bin(align ? "thot_aligner" : "thot_decoder"), "-pr", str(pr), "-c", d + "/c", "-t", d + "/s", "-o", d + "/o", "-S", "9", "-sdir", d + "/sd"};
  if (align) { a.push_back("-r"); a.push_back(d + "/r"); }
  if (wg) { a.push_back("-wg"); a.push_back(d + "/w/g"); }
  setenv("TMPDIR", d.c_str(), 1); auto r = run(c, a); unsetenv("TMPDIR");
  std::string got = mc::readFile(d + "/o"); c.outcome(got);
  if (!align) {
    Strs want; for (auto& x : s) want.push_back(alone(c, o, TRANS, x, "", wg).words);
    mustEq(c, str("translations with ", pr, " processors"), got, lines(want));
    size_t files = 0; for (auto& e : std::filesystem::directory_iterator(d + "/w")) { (void)e; ++files; } c.check(files == (wg ? 2 * s.size() : 0), "number of word graph files");
    if (wg) for (size_t i = 0; i < s.size(); ++i) { char b[32]; sprintf(b, "/w/g_%06d", int(i + 1)); mustEq(c, str("word graph ", i + 1, " of ", quoted(s)), mc::readFile(d + b + ".wg"), alone(c, o, TRANS, s[i], "", true).wg); mustEq(c, "states", mc::readFile(d + b + ".idx"), alone(c, o, TRANS, s[i], "", true).idx); }
  } else {
    auto b = run(c, {mc::bin("thot_ms_alig"), "-c", d + "/c", "-t", d + "/s", "-r", d + "/r", "-S", "9"});
    auto body = [&](const std::string& x) { std::istringstream i(x); std::string l, q; while (std::getline(i, l)) q += (l.compare(0, 2, "# ") ? l : l.substr(l.find(';') + 1)) + "\n"; return q; };
    mustEq(c, str("alignments with ", pr, " processors"), body(got), body(b.out));
  }
  c.check(std::filesystem::is_empty(d + "/sd"), "temporary files are left");
}

int main(int argc, char** argv) {
  return mc::run(argc, argv, "P29", {
    {"texts", "every text of up to 3 (thorough 4) lines out of 7, empty and with unknown words, with and without final newline, to a file and to the output, two option sets", texts, 3, 60},
    {"options", "every combination of three values of each of W, A, S, nomon and h, of be and of weights, on the command line, in the configuration file and in both", options, 4, 60},
    {"graphs", "every text of up to 2 (thorough 3) lines out of 7, four pruning thresholds, short and long paths, two distortion limits", graphs, 3, 60},
    {"alignments", "every text of up to 2 (thorough 3) of 11 sentence pairs, three modes, two distortion limits, with and without final newline", alignments, 3, 60},
    {"chunks", "thot_decoder and thot_aligner: texts of 1 to 4 (thorough 6) lines on 1 to 3 processors, with and without word graphs", chunks, 4, 200},
  });
}
