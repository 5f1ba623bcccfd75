// A decoder serves any history of requests: sessions, users, online training, restarts.
// SOURCES: downhill_simplex/step_by_step_dhs.c error_correction/BaseErrorCorrectionModel.cc error_correction/EditDistForStr.cc error_correction/EditDistForVecString.cc error_correction/NbSearchStack.cc error_correction/NonPbEcModelForNbUcat.cc error_correction/PfsmEcm.cc error_correction/PfsmEcmForWg.cc error_correction/WgHandler.cc error_correction/WordGraph.cc error_correction/_editDistBasedEcm.cc incr_models/IncrJelMerNgramLM.cc incr_models/WordPenaltyModel.cc incr_models/WordPredictor.cc incr_models/lm_ienc.cc nlp_common/AwkInputStream.cc nlp_common/DynClassFileHandler.cc nlp_common/MathFuncs.cc nlp_common/ModelDescriptorUtils.cc nlp_common/Prob.cc nlp_common/ThreadSafePrint.cc nlp_common/getline.c nlp_common/SingleWordVocab.cc nlp_common/StrProcUtils.cc nlp_common/WordAligMatrix.cc nlp_common/ctimer.c nlp_common/mem_alloc_utils.cc nlp_common/options.cc nlp_common/printAligFuncs.cc phrase_models/AlignmentExtractor.cc phrase_models/BaseIncrPhraseModel.cc phrase_models/BasePhraseModel.cc phrase_models/BpSet.cc phrase_models/CategPhrasePairFilter.cc phrase_models/HatTriePhraseTable.cc phrase_models/PhraseExtractUtils.cc phrase_models/PhraseExtractionTable.cc phrase_models/SegLenTable.cc phrase_models/SrcSegmLenTable.cc phrase_models/SrfNodeInfoMap.cc phrase_models/SrfNodeKey.cc phrase_models/StrictCategPhrasePairFilter.cc phrase_models/TrgCutsTable.cc phrase_models/TrgSegmLenTable.cc phrase_models/WbaIncrPhraseModel.cc phrase_models/_incrPhraseModel.cc phrase_models/_wbaIncrPhraseModel.cc stack_dec/BaseHypState.cc stack_dec/CustomFeatureHandler.cc stack_dec/DirectPhraseModelFeat.cc stack_dec/DynClassFactoryHandler.cc stack_dec/InversePhraseModelFeat.cc stack_dec/KbMiraLlWu.cc stack_dec/LangModelFeat.cc stack_dec/MiraBleu.cc stack_dec/bleu.cc stack_dec/PhrHypNumcovJumps01EqClassF.cc stack_dec/PhrHypNumcovJumpsEqClassF.cc stack_dec/PhrHypState.cc stack_dec/PhrNbestTransTablePrefKey.cc stack_dec/PhrNbestTransTableRefKey.cc stack_dec/PhrScoreInfo.cc stack_dec/SmtModelUtils.cc stack_dec/SrcPhraseLenFeat.cc stack_dec/SrcPosJumpFeat.cc stack_dec/StdFeatureHandler.cc stack_dec/ThotDecoder.cc stack_dec/TrgPhraseLenFeat.cc stack_dec/WeightUpdateUtils.cc stack_dec/WordPenaltyFeat.cc sw_models/CachedHmmAligLgProb.cc sw_models/IncrHmmAligTable.cc sw_models/IncrHmmP0AligModel.cc sw_models/IncrLexTable.cc sw_models/LightSentenceHandler.cc sw_models/WeightedIncrNormSlm.cc sw_models/_incrHmmAligModel.cc sw_models/_incrHmmP0AligModel.cc sw_models/_sentLengthModel.cc sw_models/anjiMatrix.cc sw_models/anjm1ip_anjiMatrix.cc
// FLAGS: -include svc_pre.h -fsanitize=address,undefined -fno-sanitize=vptr,bool
// LIBS: -lgmp -lz -ldb_cxx -lleveldb -lpthread -ldl -lltdl
#include "svc_ops.h"
static bool thorough() { const char* t = getenv("VERIF_TIER"); return t && std::string(t) == "thorough"; }

enum Kind { TRANS, TRAIN, START, EDIT, PARAM, PRINT };
struct R { std::string name; Kind kind; int user; Op op; std::string arg; bool set = false, reset = false, release = false; };
static R T(int u, std::string s) { return {str("translate(", u, ",'", s, "')"), TRANS, u, tr(u, s), s}; }
static R C(int u, std::string s, std::string r) { return {str("coverage(", u, ",'", s, "','", r, "')"), TRANS, u, cov(u, s, r), s}; }
static R S(int u, std::string s) { return {str("start(", u, ",'", s, "')"), START, u, start(u, s), s}; }
static R A(int u, std::string s) { return {str("add(", u, ",'", s, "')"), EDIT, u, add(u, s), s}; }
static R P(int u, std::string s) { R r{str("set(", u, ",'", s, "')"), EDIT, u, setp(u, s), s}; r.set = true; return r; }
static R Z(int u) { R r{str("reset(", u, ")"), EDIT, u, reset(u), ""}; r.reset = true; return r; }
static R L(int u, std::string s, std::string t) { return {str("train(", u, ",'", s, "','", t, "')"), TRAIN, u, train(u, s, t), s}; }
static R E(int u, std::string s, std::string t) { return {str("train-ecm(", u, ",'", s, "','", t, "')"), TRAIN, u, ecm(u, s, t), s}; }
static R U(int u, unsigned s, unsigned np) { return {str("user(", u, ",S=", s, ",np=", np, ")"), PARAM, u, user(u, s, np), ""}; }
static R D(int u) { R r{str("release(", u, ")"), PARAM, u, release(u), ""}; r.release = true; return r; }
static R W() { return {"print", PRINT, 0, print(), ""}; }
typedef std::vector<R> Hist;
static std::string names(const Hist& h) { std::string r; for (auto& x : h) r += (r.empty() ? "" : "; ") + x.name; return r; }

// the requests the result of the last one may depend on
static Hist projection(const Hist& h) {
  const R& o = h.back(); Hist r; std::set<int> trainers;
  for (auto& x : h) if (x.kind == TRAIN) trainers.insert(x.user);
  size_t from = h.size();
  if (o.kind == EDIT) for (size_t i = 0; i < h.size(); ++i) if (h[i].user == o.user && (h[i].kind == START || h[i].release)) from = i;
  if (from == h.size()) from = 0;
  for (size_t i = 0; i + 1 < h.size(); ++i) {
    auto& x = h[i];
    if (x.kind == TRAIN || (x.kind == PARAM && (x.user == o.user || trainers.count(x.user))) || (o.kind == EDIT && i >= from && x.user == o.user && (x.kind == START || x.kind == EDIT))) r.push_back(x);
  }
  r.push_back(o);
  return r;
}
static std::string afterPrint(Ctx& c, const R& o, const std::string& r) { return o.kind == PRINT ? r + " " + printed(c) : r; }
static const std::string& alone(Ctx& c, const Hist& h) {
  static std::map<std::string, std::string> memo; auto& r = memo[names(h)];
  if (r.empty()) { Dec d(c); for (auto& x : h) r = afterPrint(c, x, x.op(d)); }
  return r;
}
static std::string resultOf(const std::string& s) { size_t i = s.find('\''), j = s.rfind('\''); return i == std::string::npos || i == j ? s : s.substr(i + 1, j - i - 1); }

static void histories(Ctx& c, const Hist& alphabet, int maxLen) {
  Hist h; int n = c.choose(maxLen) + 1;
  for (int i = 0; i < n; ++i) h.push_back(alphabet[c.choose(alphabet.size())]);
  c.log(names(h));
  Strs res; { Dec d(c); for (auto& x : h) res.push_back(afterPrint(c, x, x.op(d))); c.step(h.size()); }
  std::map<int, std::string> pref; std::map<int, bool> on;
  for (size_t i = 0; i < h.size(); ++i) {                       // session semantics
    auto& x = h[i]; int u = x.user;
    if (x.kind == START) { pref[u] = ""; on[u] = true; }
    else if (x.release) { on[u] = false; pref[u] = ""; }
    else if (x.reset) pref[u] = "";
    else if (x.kind == EDIT) {
      pref[u] = x.set ? x.arg : pref[u] + x.arg;
      if (on[u]) { auto r = resultOf(res[i]); c.checkf(r.compare(0, pref[u].size(), pref[u]) == 0, [&] { return str("request ", i + 1, " of ", names(h), ": result '", r, "' does not continue the prefix '", pref[u], "'"); }); }
    }
  }
  c.outcome(mc::join(res));
  Hist done(h.begin(), h.end());                                 // independence, for the last request (the others are last of shorter histories)
  Hist p = projection(done);
  if (p.size() < done.size()) { auto& e = alone(c, p); c.checkf(res.back() == e, [&] { return str(names(h), ": the last result is ", res.back(), ", without the requests it does not depend on (", names(p), ") ", e); }); }
  if (h.back().kind == EDIT && !h.back().reset && on[h.back().user]) {   // the prefix counts, not the way it was entered
    Hist q; for (size_t i = 0; i < p.size(); ++i) if (p[i].kind != EDIT) q.push_back(p[i]);
    q.push_back(P(h.back().user, pref[h.back().user]));
    auto& e = alone(c, q); c.checkf(resultOf(res.back()) == resultOf(e), [&] { return str(names(h), ": the last result is ", res.back(), ", with the prefix given at once (", names(q), ") ", e); });
  }
}
static void anyHistory(Ctx& c) {
  static const Hist A1 = {T(1, "a b"), T(2, "x b"), T(1, ""), C(1, "a b", "B A"), S(1, "c b"), S(1, ""), A(1, "C"), A(1, "Cab "), P(1, "B"), Z(1), S(2, "a b"), A(2, "X"),
    L(1, "x b", "XY B"), L(2, "c b", "B Cab"), E(2, "B", "A"), W(), U(1, 2, 1), D(1), T(7, "c b"), A(7, "C")};
  histories(c, A1, thorough() ? 4 : 3);
}
static void sessions(Ctx& c) {
  static const Hist A2 = {S(1, "c b"), S(1, "x a"), A(1, "C"), A(1, "ab "), A(1, "B"), P(1, "Cab"), P(1, "B C"), P(1, ""), T(1, "a b"), L(1, "x a", "Cab C")};
  histories(c, A2, thorough() ? 5 : 4);
}
// A decoder started from printed models goes on as the one that printed them
static void restart(Ctx& c) {
  static const std::vector<R> tr1 = {L(1, "x b", "XY B"), L(1, "c b", "B Cab"), L(1, "x y", "X"), L(2, "a b", "B A"), E(1, "B", "A")};
  Hist h; int n = c.choose(thorough() ? 4 : 3) + 1;
  for (int i = 0; i < n; ++i) h.push_back(tr1[c.choose(tr1.size())]);
  c.log(names(h));
  static const Hist probes = {T(1, "x b"), T(2, "c b"), C(1, "a b", "B A"), S(1, "x b"), A(1, "X"), L(1, "x c", "XY Cab"), T(1, "x c"), S(2, "x c"), A(2, "Ca"), W()};
  Strs a, b; std::string f;
  { Dec d(c); for (auto& x : h) x.op(d); print()(d); f = printed(c);
    { Dec e(c, true); c.check(print()(e) == "print 0", "print"); c.checkf(printed(c) == f, [&] { return names(h) + "; print: the models printed again after loading differ"; }); for (auto& x : probes) b.push_back(afterPrint(c, x, x.op(e))); }
    for (auto& x : probes) a.push_back(afterPrint(c, x, x.op(d))); }
  for (size_t i = 0; i < a.size(); ++i) c.checkf(a[i] == b[i], [&] { return str(names(h), "; print, then ", probes[i].name, ": ", a[i], ", in a decoder started from the printed models: ", b[i]); });
  c.outcome(mc::join(a));
}
// Online training: every model gets what the same samples train, phrases counted once per sample
typedef std::map<std::pair<Strs, Strs>, double> Counts;
static Counts readTable(Ctx& c, const std::string& text, std::map<Strs, double>& ns) {
  Counts r; std::istringstream in(text); std::string l;
  while (std::getline(in, l)) {
    size_t i = l.find("|||"), j = l.find("|||", i + 3); c.check(i != std::string::npos && j != std::string::npos, "line of the printed table: " + l);
    auto n = svc::words(l.substr(j + 3)); c.check(n.size() == 2, "counts of the printed table: " + l);
    Strs t = svc::words(l.substr(0, i)), s = svc::words(l.substr(i + 3, j - i - 3));
    c.check(!r.count({t, s}), "printed twice: " + l);
    r[{t, s}] = atof(n[1].c_str()); ns[t] = atof(n[0].c_str());
  }
  return r;
}
static std::string show(const Counts& m) { std::string r; for (auto& e : m) r += str(mc::join(e.first.first), " ||| ", mc::join(e.first.second), " ", e.second, "; "); return r; }
static void online(Ctx& c) {
  struct Cfg { unsigned E, R; double step; };
  static const Cfg cfgs[] = {{1, 0, 1}, {2, 2, 1}, {1, 1, 1}, {2, 3, 1}, {3, 3, 1}, {2, 0, 1}, {2, 4, 0.5}, {0, 0, 1}, {0, 2, 1}};
  const Cfg& g = cfgs[c.choose(sizeof cfgs / sizeof *cfgs)];
  static const svc::Corpus L = {{{"x", "b"}, {"XY", "B"}}, {{"b", "a"}, {"A", "B"}}, {{"c", "y", "b"}, {"B", "Cab"}}, {{"a"}, {"A"}}};
  int n = c.choose(thorough() ? 4 : 3) + 1; std::vector<int> seq; for (int i = 0; i < n; ++i) seq.push_back(c.choose(L.size()));
  std::string what = str("-olp 0 0 ", g.step, " 5 ", g.E, " ", g.R, ", training ", mc::join(seq)); c.log(what);
  Dec d(c);                                                     // restores the files
  std::string dir = root(), cfg = dir + "/olp.cfg", text = mc::readFile(dir + "/server.cfg") + str("-olp 0 0 ", g.step, " 5 ", g.E, " ", g.R, "\n");
  mc::writeFile(cfg, text);
  ThotDecoder t; ThotDecoderUserPars p; c.check(t.initUsingCfgFile(cfg, p, 0) == THOT_OK, what + ": refused");
  std::unique_ptr<BaseSwAligModel<PpInfo>> pa((BaseSwAligModel<PpInfo>*)(void*)create_sw("")), pb((BaseSwAligModel<PpInfo>*)(void*)create_sw("")); auto &a = *pa, &b = *pb; std::pair<unsigned, unsigned> rg; std::map<Strs, double> ns, pns;
  c.check(a.load((dir + "/tm/tm_invswm").c_str()) == THOT_OK && b.load((dir + "/tm/tm_swm").c_str()) == THOT_OK, "models");
  IncrJelMerNgramLM lm; c.check(lm.load((dir + "/lm/lm").c_str()) == THOT_OK, "language model");
  Counts want = readTable(c, mc::readFile(dir + "/tm/tm.ttable"), ns);
  std::map<int, std::vector<PhrasePair>> latest;
  for (int x : seq) {
    auto& P = L[x];
    c.check(t.onlineTrainSentPair(1, mc::join(P.first).c_str(), mc::join(P.second).c_str()) == THOT_OK, what + ": training fails");
    for (auto& w : P.first) { a.addSrcSymbol(w); b.addTrgSymbol(w); }
    for (auto& w : P.second) { a.addTrgSymbol(w); b.addSrcSymbol(w); }
    lm.trainSentence(P.second, g.step);
    a.addSentPair(P.first, P.second, g.step, rg); b.addSentPair(P.second, P.first, g.step, rg);
    for (unsigned i = 1; i <= g.E; ++i) {
      int k = int(rg.second) - int(g.R) + int(i * (g.R / g.E)); if (k < 0) continue;
      a.trainSentPairRange({k, k}); b.trainSentPairRange({k, k});
      Strs s, r; Count n1; a.nthSentPair(k, s, r, n1);
      std::vector<PhrasePair> all; PhraseExtractUtils::extractConsistentPhrasePairs(&b, &a, r, s, all, 0); latest[k].clear(); PhraseExtractUtils::filterPhrasePairs(all, latest[k]);
    }
  }
  for (auto& e : latest) for (auto& q : e.second) { want[{q.s_, q.t_}] += 1; ns[q.s_] += 1; }
  c.check(t.printModels() == THOT_OK, what + ": printing fails");
  Counts got = readTable(c, mc::readFile(dir + "/tm/tm.ttable"), pns);
  for (auto it = got.begin(); it != got.end();) if (it->second == 0 && !want.count(it->first)) it = got.erase(it); else ++it;
  c.checkf(got == want, [&] { return str(what, ": the phrase table has ", show(got), " expected ", show(want)); });
  for (auto& e : ns) c.checkf(pns.count(e.first) && mc::close(pns[e.first], e.second, 1e-6, 1e-6), [&] { return str(what, ": count of phrase '", mc::join(e.first), "' is ", pns.count(e.first) ? pns[e.first] : -1, ", expected ", e.second); });
  auto same = [&](const char* printed, const std::string& own, const char* kind) {
    Strs fs; listFiles(dir + "/own", fs); c.check(!fs.empty(), "no own files");
    for (auto& f : fs) { std::string n1 = f.substr((dir + "/own/m").size()); c.checkf(mc::readFile(f) == mc::readFile(dir + printed + n1), [&] { return str(what, ": ", kind, " (", n1, ") differs from the one trained with the same samples"); }); unlink(f.c_str()); }
  };
  mkdir((dir + "/own").c_str(), 0700); std::string own = dir + "/own/m";
  a.print(own.c_str()); same("/tm/tm_invswm", own, "direct model");
  b.print(own.c_str()); same("/tm/tm_swm", own, "inverse model");
  lm.print(own.c_str()); same("/lm/lm", own, "language model");
  c.outcome(show(got));
}
// A configuration file says the same whatever the order of its lines, and a wrong one is refused
static std::string field(const std::string& s, const std::string& key) { size_t i = s.find(key); if (i == std::string::npos) return ""; std::istringstream in(s.substr(i + key.size())); std::string w; in >> w; return w; }
static void config(Ctx& c) {
  Dec keepFiles(c); std::string dir = root(), cfg = dir + "/other.cfg";
  int A = c.choose(2) + 1, nomon = c.choose(2), S = c.choose(2) ? 50 : 1, h = c.choose(2) ? 6 : 0, form = c.choose(4), bad = c.choose(7);
  std::vector<std::string> lines = {str("-tm ", dir, "/tm/tm"), str("-lm ", dir, "/lm/lm"), str("-W ", 0), str("-S ", S), str("-A ", A), "-E 4", str("-nomon ", nomon), str("-h ", h), "-np 3",
    "-tmw 0.5 2 1.5 0.75 1 1.25 0.25"};
  if (form == 1) std::reverse(lines.begin(), lines.end());
  if (form == 2) { lines.insert(lines.begin(), "-A 9"); lines.insert(lines.begin() + 3, "# -S 3"); lines.insert(lines.begin() + 5, "#-tm /nowhere"); }
  if (form == 3) { std::string all; for (auto& l : lines) all += (all.empty() ? "" : " ") + l; lines = {all}; }
  std::vector<std::string> wrong = lines; const char* what = "";
  if (bad == 1) { for (auto& l : wrong) if (l.find("-tm ") == 0 || form == 3) { size_t i = l.find("/tm/tm"); l.replace(i, 6, "/tm/absent"); } what = "absent translation model"; }
  if (bad == 2) { for (auto& l : wrong) if (l.find("-lm ") == 0 || form == 3) { size_t i = l.find("/lm/lm"); l.replace(i, 6, "/lm/absent"); } what = "absent language model"; }
  if (bad == 3) { wrong.push_back("-S"); what = "option without value at the end"; }
  if (bad == 4) { wrong.push_back("-tmw"); what = "option without values at the end"; }
  if (bad == 5) { wrong.push_back(str("-wgh ", dir, "/absent")); what = "absent word graph handler file"; }
  if (bad == 6) what = "absent configuration file";
  auto text = [](const std::vector<std::string>& v) { std::string r; for (auto& l : v) r += l + "\n"; return r; };
  std::string name = str("A=", A, " nomon=", nomon, " S=", S, " h=", h, " form=", form, " ", what); c.log(name);
  ThotDecoder t; ThotDecoderUserPars p;
  if (bad) {
    mc::writeFile(cfg, text(wrong)); ThotDecoder w; ThotDecoderUserPars q;
    c.check(w.initUsingCfgFile(bad == 6 ? dir + "/absent.cfg" : cfg, q, 0) == THOT_ERROR, name + ": accepted");
  }
  mc::writeFile(cfg, text(lines));
  c.check(t.initUsingCfgFile(cfg, p, 0) == THOT_OK && t.initUserPars(1, p, 0) == THOT_OK, name + ": refused");
  c.checkf(p.S == (unsigned)S && p.np == 3, [&] { return str(name, ": S=", p.S, " np=", p.np); });
  static std::map<std::string, std::string> memo; std::string key = str(A, nomon, S, h), all;
  for (const char* src : {"a b", "x b", "c b a", "b c"}) {
    std::string r, i; t.translateSentence(1, src, r, i); all += r + " | " + i + "\n";
    static const std::pair<const char*, const char*> w[] = {{"wpw:", "0.5"}, {"lmw:", "2"}, {"ptsw:", "1.5"}, {"pstw:", "0.75"}, {"src_phr_lenw:", "1"}, {"trg_phr_lenw:", "1.25"}, {"src_pos_jumpw:", "0.25"}};
    for (auto& x : w) c.checkf(field(i, x.first) == x.second, [&] { return str(name, ": weight ", x.first, " is ", field(i, x.first), ", expected ", x.second, ": ", i); });
    size_t b = i.find("Source Segmentation:"), e = i.find("| Target Segmentation"); c.check(b != std::string::npos && e != std::string::npos, "segmentation: " + i);
    int covered = 0; std::istringstream in(i.substr(b + 20, e - b - 20)); std::string tok;
    while (in >> tok) if (tok == "(") { int x, y; char comma; in >> x >> comma >> y; c.checkf(y - x + 1 <= A, [&] { return str(name, ": phrase longer than ", A, ": ", i); }); if (nomon == 0) c.checkf(x == covered + 1, [&] { return str(name, ": not monotone: ", i); }); covered = y; }
    std::string cat; t.startCat(1, src, cat); t.addStrToPref(1, "B", RejectedWordsSet(), cat); all += cat + "\n";
  }
  auto& m = memo[key];
  if (m.empty()) {
    std::vector<std::string> plain = {str("-tm ", dir, "/tm/tm"), str("-lm ", dir, "/lm/lm"), str("-W ", 0), str("-S ", S), str("-A ", A), "-E 4", str("-nomon ", nomon), str("-h ", h), "-np 3", "-tmw 0.5 2 1.5 0.75 1 1.25 0.25"};
    mc::writeFile(cfg, text(plain)); ThotDecoder u; ThotDecoderUserPars q; c.check(u.initUsingCfgFile(cfg, q, 0) == THOT_OK && u.initUserPars(1, q, 0) == THOT_OK, "plain form refused");
    for (const char* src : {"a b", "x b", "c b a", "b c"}) { std::string r, i, cat; u.translateSentence(1, src, r, i); u.startCat(1, src, cat); u.addStrToPref(1, "B", RejectedWordsSet(), cat); m += r + " | " + i + "\n" + cat + "\n"; }
  }
  c.checkf(m == all, [&] { return str(name, ": results ", all, " differ from the plain form's ", m); });
  c.outcome(all);
}
int main(int argc, char** argv) {
  if (!getenv("MC_STDERR")) { freopen("/dev/null", "w", stderr); }
  return mc::run(argc, argv, "P23", {
    mc::Scenario{"histories", "every history of up to 3 (thorough: 4) of 20 requests", anyHistory, 2, 60},
    mc::Scenario{"sessions", "every history of up to 4 (thorough: 5) of 10 requests of one user's sessions", sessions, 2, 60},
    mc::Scenario{"restart", "every history of up to 3 (thorough: 4) of 5 trainings, then printing and starting another decoder", restart, 2, 60},
    mc::Scenario{"online", "every sequence of up to 3 (thorough: 4) trainings of 4 sentence pairs, 9 settings of interlaced training", online, 2, 60},
    mc::Scenario{"config", "16 settings x 4 forms of the configuration file, directly and after 6 wrong ones", config, 2, 60}});
}
