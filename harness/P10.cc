// P10: error correction models and corrections that extend a prefix
// SOURCES: error_correction/EditDistForStr.cc error_correction/EditDistForVecString.cc error_correction/PfsmEcm.cc error_correction/PfsmEcmForWg.cc error_correction/_editDistBasedEcm.cc error_correction/BaseErrorCorrectionModel.cc error_correction/NonPbEcModelForNbUcat.cc nlp_common/StrProcUtils.cc nlp_common/AwkInputStream.cc nlp_common/Prob.cc nlp_common/MathFuncs.cc
#include "mc.h"
#include "edit.h"
#include "ecm.h"
#include "PfsmEcm.h"
#include "PfsmEcmForWg.h"
#include "NonPbEcModelForNbUcat.h"
using namespace mc;
static bool thorough() { const char* t = getenv("VERIF_TIER"); return t && std::string(t) == "thorough"; }
static const W DEF = {128, 0.8f, 1, 1, 1};
static const std::vector<W>& weights() { static const std::vector<W> K = {DEF, {128, 0.8f, 10, 1, 0.1f}, {10, 0.5f, 1, 2, 3}, {2, 0.9f, 1, 1, 5}, {256, 0.99f, 0.5f, 7, 1}}; return K; }
static const std::vector<W>& refused() { static const std::vector<W> K = {{0, 0.5f, 1, 1, 1}, {128, 1, 1, 1, 1}, {128, 0, 1, 1, 1}, {128, 0.8f, -1, 1, 1}, {128, 0.8f, 1, 0, 1}, {128, 0.8f, 1, 1, -0.5f}, {128, 0.8f, 1, 1}, {}, {128, 1.5f, 1, 1, 1}}; return K; }
static const Str& pool() { static const Str P = {"a", "b", "ab", "abb", "ba"}; return P; }
static Str genWords(Ctx& c, const Str& pool, unsigned lo, unsigned n) { Str s; unsigned l = lo + c.choose(n - lo + 1); for (unsigned i = 0; i < l; ++i) s.push_back(c.pick(pool)); return s; }
static std::string lastBlank(const Str& y, bool complete) { return join(y) + (complete ? " " : ""); }
template <class S> static std::string list(const S& s) { std::string r; for (auto& x : s) r += "[" + join(x) + "]"; return r; }
static W setUp(Ctx& c, PfsmEcm& m) {
  unsigned how = c.choose(3); if (how == 0) return DEF;
  W w = c.pick(weights()); m.setWeights(w); if (how == 1) m.setWeights(c.pick(refused())); c.step(how); return w;
}
static void models(Ctx& c) {
  PfsmEcm m; PfsmEcmForWg g; PfsmEcm& e = c.flip() ? (PfsmEcm&)g : m; W w = setUp(c, e); WordRef ref(costs(w)); Str x = genWords(c, pool(), 0, 2), y = genWords(c, pool(), 0, 2); bool complete = !y.empty() && c.flip(); Str p = y; if (complete) p.back() += " ";
  std::string what = "[" + join(x) + "] to [" + lastBlank(y, complete) + "] with weights " + join(w); c.state(what); c.check(e.getNumWeights() == 5, "number of weights");
  std::ostringstream o; e.printWeights(o); c.check(o.str() == str("vocSize: ", w[0], " , hProb: ", w[1], " , iFactor: ", w[2], " , sFactor: ", w[3], " , dFactor: ", w[4]), "printed weights are '" + o.str() + "' instead of " + join(w));
  if (!complete) c.checkf(near(e.similarity(x, y), -ref.dist2(x, y, false)), [&] { return what + ": similarity " + str(e.similarity(x, y)) + " instead of " + str(-ref.dist2(x, y, false)); });
  c.checkf(near(e.similarityGivenPrefix(x, p), -ref.pre(x, y, !complete)), [&] { return what + ": similarity given prefix " + str(e.similarityGivenPrefix(x, p)) + " instead of " + str(-ref.pre(x, y, !complete)); });
  c.step(2); c.outcome(str(e.similarity(x, y)));
}
static void checkExtends(Ctx& c, const Str& got, const Str& y, bool complete, const std::string& what) {
  bool ok = got.size() >= y.size(); for (size_t j = 0; ok && j + 1 < y.size(); ++j) ok = got[j] == y[j];
  if (ok && !y.empty()) ok = complete ? got[y.size() - 1] == y.back() : begins(got[y.size() - 1], y.back());
  c.checkf(ok, [&] { return what + ": the correction [" + join(got) + "] does not extend the prefix"; });
}
static void correct(Ctx& c) {
  PfsmEcmForWg e; unsigned wi = c.choose(weights().size() + 1); W w = wi ? weights()[wi - 1] : DEF; if (wi) e.setWeights(w); WordRef ref(costs(w));
  Str x = genWords(c, pool(), 0, thorough() ? 3 : 2), y = genWords(c, pool(), 1, thorough() ? 3 : 2); bool complete = c.flip(); Str p = y; if (complete) p.back() += " ";
  std::string what = "[" + join(x) + "] given [" + lastBlank(y, complete) + "] with weights " + join(w); c.state(what);
  for (int mode = 0; mode < 3; ++mode) {
    Str got; const char* nm[] = {": correction ", ": word graph correction ", ": n-best correction "}; bool whole = mode == 1;
    if (mode == 0) e.correctStrGivenPref(x, p, got); else if (mode == 1) e.correctStrGivenPrefWg(x, p, got);
    else {
      if (x.empty()) break;
      NonPbEcModelForNbUcat u; u.link_ecm(&e); std::vector<unsigned> cuts; for (unsigned i = 0; i < x.size(); ++i) cuts.push_back(i); NbestCorrections nb = u.correct(x, cuts, p, 1 + c.choose(2));
      c.checkf(nb.size() == 1 && close(nb.begin()->first, -ref.pre(x, y, !complete), 1e-5, 1e-4), [&] { return what + ": " + str(nb.size()) + " n-best corrections, the first with score " + str(nb.empty() ? 0 : nb.begin()->first) + " instead of " + str(-ref.pre(x, y, !complete)); });
      got = nb.begin()->second; if (!got.empty() && !got.back().empty() && got.back().back() == ' ') got.back().pop_back();
    }
    c.step(); checkExtends(c, got, y, complete, what + nm[mode]);
    auto all = corrections(ref, x, y, !complete, whole);
    c.checkf(all.count(got) > 0, [&] { return what + nm[mode] + "is [" + join(got) + "], the ones with minimal cost are " + list(all); }); c.outcome(join(got));
  }
  // without prefix the sentence stays as it is
  Str none, got; e.correctStrGivenPref(x, none, got); c.check(got == x, what + ": correction without prefix");
  if (!x.empty()) { NonPbEcModelForNbUcat u; u.link_ecm(&e); NbestCorrections nb = u.correct(x, {}, none, 1); c.check(nb.size() == 1 && nb.begin()->second == x && nb.begin()->first == 0, what + ": n-best correction without prefix"); }
}
// scores kept for a path of words while the prefix grows and shrinks
static void scores(Ctx& c) {
  PfsmEcmForWg e; unsigned wi = c.choose(3); W w = wi ? weights()[wi] : DEF; if (wi) e.setWeights(w); WordRef ref(costs(w));
  Str x = genWords(c, {"a", "b", "abb"}, 1, 2); typedef PfsmEcmForWg::EcmScoreInfo Esi; std::vector<Esi> col; std::string what = "[" + join(x) + "]:";
  col.push_back(e.constructInitEsi()); for (auto& s : x) { Esi prev = col.back(); col.push_back(e.constructEsi(prev, s)); }
  Str y; bool complete = true; unsigned ops = 1 + c.choose(thorough() ? 4 : 3);
  for (unsigned o = 0; o < ops; ++o) {
    if (o && c.choose(3) == 2 && !y.empty()) { for (auto& k : col) e.removeLastPosFromEsi(k); y.pop_back(); complete = true; what += " remove"; }
    else {
      if (!complete) throw Skip();       // an incomplete last word has to be removed first
      Str part = genWords(c, {"a", "ab", "ba"}, 1, 2); y.insert(y.end(), part.begin(), part.end()); complete = c.flip(); if (complete) part.back() += " "; what += " add " + join(part);
      Esi ini = col[0]; e.extendInitialEsi(part, ini, col[0]); for (size_t i = 0; i < x.size(); ++i) { Esi prev = col[i]; e.extendEsi(part, prev, x[i], col[i + 1]); }
    }
    c.step(); c.state(what);
    for (size_t i = 0; i <= x.size(); ++i) {
      c.check(e.numberOfPosInEsi(col[i]) == y.size() + 1, what + ": wrong number of positions"); std::vector<Score> v = e.obtainScrVecFromEsi(col[i]);
      for (size_t j = 0; j <= y.size(); ++j) { bool inc = j == y.size() && !complete; double want = -ref.dist2(Str(x.begin(), x.begin() + i), Str(y.begin(), y.begin() + j), inc); c.checkf(near(v[j], want), [&] { return what + str(" after ", i, " words and ", j, " prefix words ", v[j], " instead of ", want); }); }
      if (i) {
        std::vector<int> last = e.obtainLastInsPrefWordVecFromEsi(col[i]); std::vector<Score> pv = e.obtainScrVecFromEsi(col[i - 1]); c.check(last.size() == y.size() + 1, what + ": wrong number of predecessors");
        for (size_t j = 0; j <= y.size(); ++j) { int p = last[j]; c.check(p >= 0 && p <= (int)j, what + ": predecessor position out of range"); bool inc = j == y.size() && !complete; double want = pv[p] - ref.dist2({x[i - 1]}, Str(y.begin() + p, y.begin() + j), inc); c.checkf(near(v[j], want), [&] { return what + str(" the predecessor of position ", j, " after ", i, " words is ", p, ", which gives ", want, " instead of ", v[j]); }); }
      }
    }
    // copying positions
    Esi to; std::vector<unsigned> all; for (unsigned j = 0; j <= y.size(); ++j) all.push_back(j); e.updateEsiPositions(col.back(), all, to); c.check(to.scrVec == col.back().scrVec && to.opIdVec == col.back().opIdVec, what + ": copied positions differ");
    for (unsigned j = 0; j <= y.size(); ++j) { Esi t2 = col[1]; e.updateEsiPositions(col.back(), {j}, t2); for (unsigned q = 0; q <= y.size(); ++q) { auto& src = q == j ? col.back() : col[1]; c.check(t2.scrVec[q] == src.scrVec[q] && t2.opIdVec[q] == src.opIdVec[q], what + ": copying one position changes another"); } }
  }
  c.outcome(str(e.obtainScrVecFromEsi(col.back()).back()));
}
int main(int argc, char** argv) {
  if (!getenv("MC_STDERR")) (void)!freopen("/dev/null", "w", stderr);
  std::string n = thorough() ? "3" : "2";
  return run(argc, argv, "P10", {
    {"models", "both models, 5 weight vectors and the default one, 9 refused weight vectors after them, all pairs up to 2 words of 5, last word complete or not", models},
    {"correct", "6 weight vectors, all sentences up to " + n + " words against all prefixes up to " + n + " words of 5, last word complete or not: the three correction functions against the set of minimal corrections", correct},
    {"scores", std::string("all histories up to ") + (thorough() ? "4" : "3") + " additions and removals of prefix words over all sentences up to 2 words, 3 weight vectors", scores},
  });
}
