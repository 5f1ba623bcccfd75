// Concurrent requests to one decoder: every schedule has the results of a serial order.
// SOURCES: downhill_simplex/step_by_step_dhs.c error_correction/BaseErrorCorrectionModel.cc error_correction/EditDistForStr.cc error_correction/EditDistForVecString.cc error_correction/NbSearchStack.cc error_correction/NonPbEcModelForNbUcat.cc error_correction/PfsmEcm.cc error_correction/PfsmEcmForWg.cc error_correction/WgHandler.cc error_correction/WordGraph.cc error_correction/_editDistBasedEcm.cc incr_models/IncrJelMerNgramLM.cc incr_models/WordPenaltyModel.cc incr_models/WordPredictor.cc incr_models/lm_ienc.cc nlp_common/AwkInputStream.cc nlp_common/DynClassFileHandler.cc nlp_common/MathFuncs.cc nlp_common/ModelDescriptorUtils.cc nlp_common/Prob.cc nlp_common/ThreadSafePrint.cc nlp_common/getline.c nlp_common/SingleWordVocab.cc nlp_common/StrProcUtils.cc nlp_common/WordAligMatrix.cc nlp_common/ctimer.c nlp_common/mem_alloc_utils.cc nlp_common/options.cc nlp_common/printAligFuncs.cc phrase_models/AlignmentExtractor.cc phrase_models/BaseIncrPhraseModel.cc phrase_models/BasePhraseModel.cc phrase_models/BpSet.cc phrase_models/CategPhrasePairFilter.cc phrase_models/HatTriePhraseTable.cc phrase_models/PhraseExtractUtils.cc phrase_models/PhraseExtractionTable.cc phrase_models/SegLenTable.cc phrase_models/SrcSegmLenTable.cc phrase_models/SrfNodeInfoMap.cc phrase_models/SrfNodeKey.cc phrase_models/StrictCategPhrasePairFilter.cc phrase_models/TrgCutsTable.cc phrase_models/TrgSegmLenTable.cc phrase_models/WbaIncrPhraseModel.cc phrase_models/_incrPhraseModel.cc phrase_models/_wbaIncrPhraseModel.cc stack_dec/BaseHypState.cc stack_dec/CustomFeatureHandler.cc stack_dec/DirectPhraseModelFeat.cc stack_dec/DynClassFactoryHandler.cc stack_dec/InversePhraseModelFeat.cc stack_dec/KbMiraLlWu.cc stack_dec/LangModelFeat.cc stack_dec/MiraBleu.cc stack_dec/bleu.cc stack_dec/PhrHypNumcovJumps01EqClassF.cc stack_dec/PhrHypNumcovJumpsEqClassF.cc stack_dec/PhrHypState.cc stack_dec/PhrNbestTransTablePrefKey.cc stack_dec/PhrNbestTransTableRefKey.cc stack_dec/PhrScoreInfo.cc stack_dec/SmtModelUtils.cc stack_dec/SrcPhraseLenFeat.cc stack_dec/SrcPosJumpFeat.cc stack_dec/StdFeatureHandler.cc stack_dec/ThotDecoder.cc stack_dec/TrgPhraseLenFeat.cc stack_dec/WeightUpdateUtils.cc stack_dec/WordPenaltyFeat.cc sw_models/CachedHmmAligLgProb.cc sw_models/IncrHmmAligTable.cc sw_models/IncrHmmP0AligModel.cc sw_models/IncrLexTable.cc sw_models/LightSentenceHandler.cc sw_models/WeightedIncrNormSlm.cc sw_models/_incrHmmAligModel.cc sw_models/_incrHmmP0AligModel.cc sw_models/_sentLengthModel.cc sw_models/anjiMatrix.cc sw_models/anjm1ip_anjiMatrix.cc
// FLAGS: -include svc_pre.h -fsanitize=thread
// LIBS: -lgmp -lz -ldb_cxx -lleveldb -lpthread -ldl -lltdl -fsanitize=thread
#define SCHED_INTERPOSE
#include "svc_ops.h"
#include "threads.h"
using mc::Ctx; using mc::str;
static bool thorough() { const char* t = getenv("VERIF_TIER"); return t && std::string(t) == "thorough"; }
static bool raced = false;
extern "C" void __tsan_on_report(void*) { raced = true; }
extern "C" const char* __tsan_default_options() { return "halt_on_error=0:report_thread_leaks=0:report_destroy_locked=0:report_mutex_bugs=0:detect_deadlocks=0:history_size=2:exitcode=66:report_signal_unsafe=0"; }

static const std::vector<Req>& requests() {
  static const std::vector<Req> R = {
    {"translate(1,'a b')", {tr(1, "a b")}},
    {"translate(2,'x b')", {tr(2, "x b")}},
    {"cat(1)", {start(1, "c b"), add(1, "Ca")}},
    {"cat(2)", {start(2, "x b"), add(2, "B")}},
    {"train('x b','XY B')", {train(1, "x b", "XY B")}},
    {"train-ecm", {ecm(2, "B", "A")}},
    {"coverage(2)", {cov(2, "a b", "B A")}},
    {"print", {print()}},
    {"user(3)", {user(3, 5, 2)}},
    {"translate(7,'x b') new user", {tr(7, "x b")}},
    {"cat(8) new user", {start(8, "c b"), setp(8, "B")}},
    {"release(1)", {release(1)}},
    {"user(4) with an absent case table", {badUser(4)}},
    {"reset(1)", {reset(1)}},
  };
  return R;
}
static const std::vector<Op>& probes() { static const std::vector<Op> P = {tr(1, "x b"), tr(2, "a b"), add(2, "B"), start(1, "x b"), add(1, "X"), print()}; return P; }
static void probe(Ctx& c, Dec& d, Strs& out) { for (auto& p : probes()) out.push_back(p(d)); out.push_back(printed(c)); }

// every serial order of the requests' operations
static void serial(Ctx& c, const std::vector<Req>& rs, std::set<Strs>& out, bool sessions) {
  std::vector<size_t> at(rs.size(), 0); std::vector<std::pair<size_t, size_t>> order;
  std::function<void()> rec = [&] {
    bool any = false;
    for (size_t i = 0; i < rs.size(); ++i) if (at[i] < rs[i].ops.size()) { any = true; order.push_back({i, at[i]++}); rec(); --at[i]; order.pop_back(); }
    if (any) return;
    Dec d(c); std::vector<Strs> res(rs.size());
    for (auto& o : order) res[o.first].push_back(rs[o.first].ops[o.second](d));
    Strs r; for (auto& x : res) r.insert(r.end(), x.begin(), x.end());
    probe(c, d, r);
    out.insert(r);
  };
  rec();
}
static std::string lastErr(const std::string& f) {
  std::string s = readAll(f), r; std::istringstream i(s); std::string l; int n = 0;
  while (std::getline(i, l) && n < 14) if (l.find("    #") == 0 || l.find("  Write of") == 0 || l.find("  Read of") == 0 || l.find("  Previous") == 0) { r += l.substr(0, 110) + ";"; ++n; }
  return r;
}
static void concurrent(Ctx& c, const std::vector<Req>& rs, int bound) {
  std::string names; for (auto& r : rs) names += (names.empty() ? "" : " || ") + r.name;
  static std::map<std::string, std::set<Strs>> memo; auto& allowed = memo[names];
  static std::string errFile; if (errFile.empty()) { errFile = c.scratch() + "/tsan"; int fd = open(errFile.c_str(), O_CREAT | O_RDWR | O_APPEND, 0600); if (!getenv("MC_STDERR")) dup2(fd, 2); }
  if (allowed.empty()) serial(c, rs, allowed, true);
  c.log(names);
  Dec d(c); std::vector<Strs> res(rs.size());
  raced = false; if (ftruncate(2, 0)) {}
  std::string failed;
  {
    sched::Run run(c, bound);
    for (size_t i = 0; i < rs.size(); ++i) run.spawn(str(char('A' + i)), [&, i] { for (auto& o : rs[i].ops) res[i].push_back(o(d)); });
    try { run.run(); } catch (mc::Failure& f) { c.fail(names + ": " + f.msg, f.key); }
  }
  if (raced) c.fail(names + ": data race: " + lastErr(errFile));
  Strs r; for (auto& x : res) r.insert(r.end(), x.begin(), x.end());
  probe(c, d, r);
  c.outcome(mc::join(r));
  c.checkf(allowed.count(r), [&] { return names + ": results of no serial order: " + mc::join(r) + "; serial: " + mc::join(*allowed.begin()) + (allowed.size() > 1 ? " or " + mc::join(*std::next(allowed.begin())) : ""); });
}
static void pairs(Ctx& c) {
  auto& R = requests(); size_t i = c.choose(R.size()), j = c.choose(R.size() - i) + i;
  concurrent(c, {R[i], R[j]}, thorough() ? 3 : 2);
}
// three requests at once: readers of both users with a request that excludes them, and two that exclude each other
static void triples(Ctx& c) {
  auto& R = requests();
  static const size_t T[][3] = {{0, 1, 4}, {0, 3, 4}, {4, 5, 1}, {4, 13, 7}, {9, 10, 4}, {9, 11, 0}, {8, 4, 6}, {3, 1, 11}, {9, 9, 10}, {0, 0, 11}, {11, 11, 0}, {7, 4, 5}};
  auto& t = T[c.choose(sizeof T / sizeof *T)];
  concurrent(c, {R[t[0]], R[t[1]], R[t[2]]}, thorough() ? 2 : 1);
}
int main(int argc, char** argv) {
  if (!getenv("MC_STDERR")) { freopen("/dev/null", "w", stderr); }
  return mc::run(argc, argv, "P22", {
    mc::Scenario{"pairs", "every pair (repetitions included) of 14 requests of users 1, 2 and of new users, each in its own thread of one decoder with tiny models; at most 2 preemptions (thorough: 3); data races by the thread sanitizer", pairs, 2, 60},
    mc::Scenario{"triples", "12 triples of those requests; at most 1 preemption (thorough: 2)", triples, 2, 60}});
}
