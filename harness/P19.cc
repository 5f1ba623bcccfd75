// P19: length, segmentation and word completion models, vocabularies and the arithmetic below them
// SOURCES: incr_models/WordPredictor.cc incr_models/WordPenaltyModel.cc sw_models/WeightedIncrNormSlm.cc sw_models/_sentLengthModel.cc phrase_models/SegLenTable.cc phrase_models/SrcSegmLenTable.cc phrase_models/TrgSegmLenTable.cc phrase_models/TrgCutsTable.cc nlp_common/SingleWordVocab.cc nlp_common/MathFuncs.cc nlp_common/AwkInputStream.cc nlp_common/Prob.cc nlp_common/Count.cc
// LIBS: -lgmp
#include "mc.h"
#include "prog.h"
#include "WordPredictor.h"
#include "WordPenaltyModel.h"
#include "WeightedIncrNormSlm.h"
#include "SegLenTable.h"
#include "SrcSegmLenTable.h"
#include "TrgSegmLenTable.h"
#include "TrgCutsTable.h"
#include "SingleWordVocab.h"
#include "MathFuncs.h"
#include <cmath>
#include <map>
#include <set>
using namespace mc;
static bool thorough() { const char* t = getenv("VERIF_TIER"); return t && std::string(t) == "thorough"; }
typedef std::vector<std::string> Vs;
// completions of word prefixes
static void predictor(Ctx& c) {
  static const Vs words = {"a", "ab", "abc", "abd", "b", "ba", "\xc3\xa9", "\xc3\xa8z"}; std::vector<Vs> sents = {{}, {"a"}, {"ab", "abc"}, {"abd", "ab", "ab"}, {"b", "ba", "a"}, {"\xc3\xa9", "\xc3\xa8z", "\xc3\xa9"}};
  WordPredictor p; std::map<std::string, double> m; std::vector<Vs> pending; unsigned retain = 1; std::string w; int steps = thorough() ? 4 : 3; auto dir = freshDir(c);
  auto add = [&](const Vs& s) { if (!retain) return; pending.push_back(s); if (pending.size() >= retain) { for (auto& x : pending) for (auto& y : x) ++m[y]; pending.clear(); } };
  for (int t = 0; t < steps; ++t) {
    int op = c.choose(4); if (op == 0) { int k = c.choose(sents.size()); p.addSentence(sents[k]); add(sents[k]); w += str(" add ", k); } else if (op == 1) { p.clear(); m.clear(); pending.clear(); retain = 1; w += " clear"; }
    else if (op == 2) { int k = 1 + c.choose(4), info = c.choose(5); std::string f = dir + "/words" + str(t), txt; for (int i = 0; i < k; ++i) txt += mc::join(sents[(i + k) % sents.size()], i % 2 ? "  " : " ") + "\n"; if (k == 3) txt.pop_back(); writeFile(f, txt); if (info) writeFile(f + ".addinfo", info == 4 ? std::string("some thing\n") : str(info == 3 ? 0 : info + 1, "\n")); bool err = p.load(f.c_str()); for (int i = 0; i < k; ++i) add(sents[(i + k) % sents.size()]); c.checkf(err == (info == 4), [&] { return w + str(": loading reports ", err); }); if (info && info < 4) retain = info == 3 ? 0 : info + 1; w += str(" load ", k, "/", info); }
    else { c.checkf(p.load((dir + "/none").c_str()), [&] { return w + ": a missing file is loaded"; }); w += " missing"; } c.step(); c.state(w);
  }
  std::set<std::string> prefixes = {"", "z", "abcd", "\xc3"}; for (auto& x : words) for (size_t i = 0; i <= x.size(); ++i) prefixes.insert(x.substr(0, i));
  for (auto& pre : prefixes) {
    std::map<double, std::set<std::string>> want; for (auto& x : m) if (x.first.compare(0, pre.size(), pre) == 0) want[x.second].insert(x.first.substr(pre.size()));
    WordPredictor::SuffixList l; l[Count(7.0)] = "stale"; p.getSuffixList(pre, l); std::string got; for (auto& x : l) got += str(" ", (double)x.first, ":", x.second); bool ok = l.size() == want.size(); auto it = l.begin(); for (auto r = want.rbegin(); ok && r != want.rend(); ++r, ++it) ok = (double)it->first == r->first && r->second.count(it->second);
    c.checkf(ok, [&] { return w + ": completions of '" + pre + "':" + got; }); auto b = p.getBestSuffix(pre); c.checkf(want.empty() ? (double)b.first == 0 && b.second.empty() : (double)b.first == want.rbegin()->first && want.rbegin()->second.count(b.second), [&] { return w + ": best completion of '" + pre + "': '" + b.second + "' " + str((double)b.first); });
  } c.outcome(str(m.size()));
}
// target lengths given source lengths
static double phi(double x) { return 0.5 * erfc(-x / sqrt(2.0)); }
static void lengths(Ctx& c) {
  struct Obs { unsigned s, t; double w; }; std::vector<Obs> h; WeightedIncrNormSlm m, loaded; int steps = thorough() ? 5 : 4; std::string w; auto dir = freshDir(c); bool reloaded = false;
  for (int t = 0; t < steps; ++t) {
    int op = c.choose(10); if (op < 8) { Obs o{(unsigned)(op < 3 ? 2 : op < 5 ? 1 : op < 7 ? 9 : 0), (unsigned)std::vector<int>{2, 4, 3, 1, 4, 1, 2, 1}[op], op % 2 ? 0.5 : 1.0}; m.trainSentPair(Vs(o.s, "x"), Vs(o.t, "y"), Count(o.w)); h.push_back(o); w += str(" (", o.s, ",", o.t, ")*", o.w); }
    else if (op == 8) { m.clear(); h.clear(); w += " clear"; } else { if (reloaded) throw Skip(); reloaded = true; std::string f = dir + "/slm"; c.checkf(!m.print(f.c_str()), [&] { return w + ": printing"; }); WeightedIncrNormSlm& n = m; n.clear(); c.checkf(!n.load(f.c_str()), [&] { return w + ": loading"; }); w += " reload"; } c.step(); c.state(w);
  }
  for (unsigned s : {0u, 1u, 2u, 3u, 5u, 9u, 12u, 100u}) {
    double n = 0, sw = 0, mean = 0, var = 0, ss = 0, st = 0; for (auto& o : h) { ss += o.s; st += o.t; if (o.s == s) { ++n; sw += o.w; mean += o.w * o.t; } } double sd;
    if (n >= 2) { mean /= sw; for (auto& o : h) if (o.s == s) var += o.w * (o.t - mean) * (o.t - mean); sd = sqrt(var * n / ((n - 1) * sw)); } else { mean = s + (h.empty() ? 0 : (st - ss) / h.size()); sd = fabs(mean) * 0.25; }
    auto cdf = [&](int t) { double d = t + 0.5 - mean; return sd < 1e-9 ? (d > 0 ? 1.0 : 0.0) : phi(d / sd); }; double sum = 0, prev = 0;
    for (int t = 0; t <= 24; ++t) { double p = t ? cdf(t) - cdf(t - 1) : cdf(0), g = (double)m.sentLenProb(s, t), cum = (double)m.sumSentLenProb(s, t); c.checkf(mc::close(g, std::max(p, 1e-7), 2e-3, 2e-5), [&] { return w + str(": probability of length ", t, " for source length ", s, " is ", g, " instead of ", p); }); c.checkf(mc::close((double)m.sentLenLgProb(s, t), log(g), 1e-4, 1e-4), [&] { return w + ": logarithm"; }); c.checkf(mc::close(cum, cdf(t), 2e-3, 2e-5) && cum >= prev - 1e-6 && (cum < 1e-30 || mc::close((double)m.sumSentLenLgProb(s, t), log(cum), 1e-3, 1e-4)), [&] { return w + str(": probability of at most ", t, " words for source length ", s, " is ", cum, " instead of ", cdf(t)); }); prev = cum; sum += g; }
    c.checkf(sum <= 1 + 1e-4, [&] { return w + str(": probabilities for source length ", s, " sum up to ", sum); });
  }
}
// segmentation models
static void segm(Ctx& c) {
  auto dir = freshDir(c); std::string f = dir + "/table"; int which = c.choose(4); std::string w; const double l9 = log(0.9), l1 = log(0.1);
  if (which == 0) {
    SegLenTable t; std::map<std::pair<int, int>, double> n; std::map<int, double> margin; bool constant = false, reload = false; static const std::vector<std::pair<int, int>> keys = {{1, 1}, {3, 1}, {3, 2}, {3, 3}, {100, 100}, {100, 1}, {0, 0}}; int steps = thorough() ? 6 : 4;
    for (int s = 0; s < steps; ++s) { int op = c.choose(keys.size() + 4); if (op < (int)keys.size()) { auto k = keys[op]; if (constant) throw Skip(); t.incrCountOf_tlenk(k.first, k.second); t.incrCountOf_tlen(k.first); ++n[k]; ++margin[k.first]; w += str(" ", k.first, "/", k.second); } else if (op == (int)keys.size()) { t.clear(); n.clear(); margin.clear(); constant = false; w += " clear"; } else if (op == (int)keys.size() + 1) { t.constantSegmLengthTable(); constant = true; n.clear(); margin.clear(); w += " constant"; }
      else if (op == (int)keys.size() + 2) { if (constant || reload) throw Skip(); reload = true; std::ostringstream o; t.printSegmLengthTable(o); writeFile(f, o.str() + "this is no entry\n101 4 5\n4 101 5\n"); c.check(!t.load_seglentable(f.c_str()), "loading the table"); w += " reload"; } else { if (constant) throw Skip(); c.check(!t.load_seglentable((dir + "/none").c_str()), "loading a missing table"); constant = true; n.clear(); margin.clear(); w += " missing"; } c.step(); c.state(w); }
    for (int l : {0, 1, 2, 3, 100, 101, 102}) for (int k : {0, 1, 2, 3, 4, 99, 100, 101, 102}) { double want = l > 100 || k > 100 ? 0 : constant ? 1 : margin[l] ? n[{l, k}] / margin[l] : 0, g = (double)t.pk_tlen(l, k); c.checkf(mc::close(g, want, 1e-5, 1e-6), [&] { return w + str(": p(", k, "|", l, ") = ", g, " instead of ", want); }); }
  } else if (which == 1) {
    SrcSegmLenTable t; int kind = 0; for (int s = 0; s < 2; ++s) { int k = c.choose(4); if (k == 3) c.check(t.load((dir + "/none").c_str()), "a missing file is loaded"); else { writeFile(f, k == 0 ? "Uniform\n" : k == 1 ? "Geometric distribution\n" : "Other\n"); c.check(!t.load(f.c_str()), "loading the table"); if (k < 2) kind = k; } w += str(" ", k); c.step(); c.state(w); }
    for (unsigned len = 0; len <= 8; ++len) for (unsigned a = 0; a < std::max(len, 3u); ++a) { double sum = 0; for (unsigned b = a + 1; b <= std::max(len, 4u); ++b) { double g = (double)t.srcSegmLenLgProb(b, a, len), want = kind ? l9 + (b - a) * l1 : len ? -log(len - (double)a) : -log(101.0); if (!kind && len && a >= len) continue; c.checkf(mc::close(g, want, 1e-4, 1e-4), [&] { return w + str(": segment ", a, "..", b, " of ", len, ": ", g, " instead of ", want); }); if (b <= len) sum += exp(g); } if (len && a < len) c.checkf(kind ? sum <= 1 : fabs(sum - 1) < 1e-4, [&] { return w + str(": probabilities sum up to ", sum); }); }
  } else if (which == 2) {
    TrgSegmLenTable t; int k = c.choose(4); double ratio = 1; bool err = false; if (k < 3) { std::string txt = k == 0 ? "Uniform\n" : k == 1 ? "Geometric\n" : ""; if (k == 2) { int v = c.choose(3); txt = v == 0 ? "Poisson 2 3 4 5 2.5\nb 2 3 4 5 5\n" : v == 1 ? "Poisson\n" : "Poisson 2 3 4 5 2.5\nb\n"; if (v == 0) ratio = 2; else err = true; } writeFile(f, txt); c.checkf(t.load(f.c_str()) == err, [&] { return str("loading kind ", k); }); } else c.check(t.load((dir + "/none").c_str()), "a missing file is loaded"); w = str("kind ", k, " ratio ", ratio); if (k == 3) k = 0;
    SentSegmentation seg; int n = 1 + c.choose(3); static const std::vector<std::vector<std::pair<int, int>>> orders = {{{1, 2}, {3, 3}, {4, 7}}, {{4, 7}, {1, 2}, {3, 3}}, {{7, 7}, {3, 6}, {1, 2}}}; auto& o = c.pick(orders); for (int i = 0; i < n; ++i) seg.push_back(std::make_pair(o[i].first, o[i].second)); unsigned q = n - 1; c.step(); c.state(w + str(seg.size(), seg[0].first));
    for (unsigned sl = 1; sl <= 5; ++sl) { int gapEnd = 8; for (unsigned j = 0; j < q; ++j) if (seg[j].first > seg[q].first) gapEnd = std::min<int>(gapEnd, seg[j].first); double sum = 0; for (int e = seg[q].first; e < gapEnd; ++e) { SentSegmentation s2 = seg; s2[q].second = e; int tl = e - seg[q].first + 1; double g = (double)t.trgSegmLenLgProb(q, s2, 7, sl); sum += exp(g); if (k == 0) { if (gapEnd == 8) c.checkf(mc::close(g, -log(gapEnd - (double)seg[q].first), 1e-4, 1e-4), [&] { return w + str(": uniform ", g); }); continue; } double want = k == 1 ? l9 + abs(tl - (int)sl) * l1 : -ratio * sl + tl * log(ratio * sl) - lgamma(tl + 1.0); c.checkf(mc::close(g, want, 1e-4, 1e-4), [&] { return w + str(": target length ", tl, " for source length ", sl, ": ", g, " instead of ", want); }); } if (k != 1) c.checkf(sum <= 1 + 1e-4, [&] { return w + str(": probabilities sum up to ", sum); }); }
  } else {
    TrgCutsTable t; int k = c.choose(4); double stop = 0.999; if (k < 3) { stop = std::vector<double>{0.5, 0.9, 0.25}[k]; writeFile(f, str(stop, "\n")); c.check(!t.load(f.c_str()), "loading the parameters"); } else if (c.flip()) c.check(t.load((dir + "/none").c_str()), "a missing file is loaded"); c.step(); c.state(str("cuts ", k)); for (int o = -6; o <= 6; ++o) { double g = (double)t.trgCutsLgProb(o), want = abs(o) * log(1 - stop) + log(stop); c.checkf(mc::close(g, want, 1e-3, 1e-3), [&] { return str("cut of ", o, " with parameter ", stop, ": ", g, " instead of ", want); }); }
  }
}
// vocabularies
static void vocab(Ctx& c) {
  static const Vs words = {"a", "b", "\xc3\xa9t\xc3\xa9", "NULL", "UNKNOWN_WORD", "x|y", "7"}; SingleWordVocab v; std::map<std::string, unsigned> src, trg; auto reset = [](std::map<std::string, unsigned>& m) { m.clear(); m[NULL_WORD_STR] = NULL_WORD; m[UNK_WORD_STR] = UNK_WORD; m[UNUSED_WORD_STR] = UNUSED_WORD; }; reset(src); reset(trg); auto dir = freshDir(c); std::string w; int steps = thorough() ? 4 : 3;
  auto used = [](const std::map<std::string, unsigned>& m, unsigned i) { for (auto& x : m) if (x.second == i) return true; return false; };
  for (int s = 0; s < steps; ++s) {
    bool t = c.flip(); auto& m = t ? trg : src; int op = c.choose(words.size() + 5), k = op - words.size(); w += t ? " t:" : " s:"; std::string f = dir + "/v" + str(s);
    if (k < 0) { unsigned i = t ? v.addTrgSymbol(words[op]) : v.addSrcSymbol(words[op]); w += words[op]; if (m.count(words[op])) c.checkf(i == m[words[op]], [&] { return w + ": the index of a known word changes"; }); else { c.checkf(!used(m, i), [&] { return w + str(": index ", i, " is given to two words"); }); m[words[op]] = i; } }
    else if (k == 0) { Vs l = {"b", "c", "b", "a"}; auto r = t ? v.strVectorToTrgIndexVector(l) : v.strVectorToSrcIndexVector(l); for (size_t i = 0; i < 4; ++i) { c.checkf(m.count(l[i]) ? m[l[i]] == r[i] : !used(m, r[i]), [&] { return w + str(" sentence: index ", r[i]); }); m[l[i]] = r[i]; } w += "sentence"; }
    else if (k == 1) { bool e = t ? v.printTrgVocab(f.c_str()) : v.printSrcVocab(f.c_str()); bool e2 = t ? v.loadTrgVocab(f.c_str()) : v.loadSrcVocab(f.c_str()); c.checkf(!e && !e2, [&] { return w + ": printing and loading"; }); w += "reload"; }
    else if (k == 2) { v.clear(); reset(src); reset(trg); w += "clear"; } else if (k == 3) { writeFile(f, "3 p 10\n7 q 2\n4 r\n\n"); bool e = t ? v.loadTrgVocab(f.c_str()) : v.loadSrcVocab(f.c_str()); c.checkf(!e, [&] { return w + ": loading"; }); reset(m); m["p"] = 3; m["q"] = 7; m["r"] = 4; w += "load"; }
    else { bool e = t ? v.loadTrgVocab((f + "none").c_str()) : v.loadSrcVocab((f + "none").c_str()); c.checkf(e, [&] { return w + ": a missing file is loaded"; }); w += "missing"; } c.step(); c.state(w);
  }
  for (int t = 0; t < 2; ++t) {
    auto& m = t ? trg : src; c.checkf((t ? v.getTrgVocabSize() : v.getSrcVocabSize()) == m.size(), [&] { return w + ": size"; }); for (auto& x : m) c.checkf((t ? v.existTrgSymbol(x.first) && v.stringToTrgWordIndex(x.first) == x.second && v.wordIndexToTrgString(x.second) == x.first : v.existSrcSymbol(x.first) && v.stringToSrcWordIndex(x.first) == x.second && v.wordIndexToSrcString(x.second) == x.first), [&] { return w + ": word '" + x.first + "'" + (t ? " (target)" : ""); });
    for (auto& x : {"zz", "", "aa"}) c.checkf(t ? !v.existTrgSymbol(x) && v.stringToTrgWordIndex(x) == UNK_WORD : !v.existSrcSymbol(x) && v.stringToSrcWordIndex(x) == UNK_WORD, [&] { return w + ": unknown word"; }); c.checkf((t ? v.wordIndexToTrgString(99) : v.wordIndexToSrcString(99)) == UNK_WORD_STR, [&] { return w + ": unknown index"; }); auto all = t ? v.getTrgVocab() : v.getSrcVocab(); c.checkf(all.size() == m.size(), [&] { return w + ": vocabulary"; });
  }
}
// logarithms, counting functions and distributions
static void maths(Ctx& c) {
  int which = c.choose(7); c.step(); c.state(str("maths ", which));
  if (which == 0) { unsigned n = c.choose(thorough() ? 400 : 120); double lf = 0; for (unsigned i = 2; i <= n; ++i) lf += log((double)i); c.checkf(mc::close(MathFuncs::logFactorial(n), lf, 1e-4, 1e-5), [&] { return str("log of ", n, "!: ", MathFuncs::logFactorial(n)); }); for (unsigned k = 0; k <= n; ++k) { double want = lgamma(n + 1.0) - lgamma(k + 1.0) - lgamma(n - k + 1.0), g = MathFuncs::logCombmn(n, k), h = MathFuncs::logNumbPermsOfTwoElems(n, k); c.checkf(mc::close(g, want, 1e-4, 1e-3) && mc::close(h, want, 1e-4, 1e-3), [&] { return str("log of ", n, " over ", k, ": ", g, " and ", h, " instead of ", want); }); } }
#ifdef THOT_HAVE_GMP
  else if (which == 1) { unsigned n = c.choose(thorough() ? 150 : 60); mpz_t r, want; mpz_init(r); mpz_init(want); MathFuncs::mp_factorial(n, r); mpz_fac_ui(want, n); c.checkf(mpz_cmp(r, want) == 0, [&] { return str(n, "!"); }); for (unsigned k = 0; k <= n + 1; ++k) { mpz_bin_uiui(want, n, k); MathFuncs::mp_numbPermsOfTwoElems(n, k, r); c.checkf(mpz_cmp(r, want) == 0, [&] { return str(n, " over ", k); }); if (k <= n) { MathFuncs::mp_logCombmn(n, k, r); c.checkf(mpz_cmp(r, want) == 0, [&] { return str(n, " over ", k, " (combinations)"); }); } if (n < 60) c.checkf(MathFuncs::bs_numbPermsOfTwoElems<101>(n, k).to_ulong() == mpz_get_ui(want), [&] { return str(n, " over ", k, " as bits"); }); } mpz_clear(r); mpz_clear(want); }
#endif
  else if (which == 2) {
    static const std::vector<double> l = {-99999, -800, -745, -100, -30, -2, -1e-3, 0, 1e-9, 1, 40, 700, 710, 1e4}; double x = c.pick(l), y = c.pick(l); long double hi = std::max(x, y), lo = std::min(x, y); double want = (double)(hi + log1pl(expl(lo - hi)));
    c.checkf(mc::close(MathFuncs::lns_sumlog(x, y), want, 1e-9, 1e-9), [&] { return str("log(e^", x, "+e^", y, ") = ", MathFuncs::lns_sumlog(x, y)); }); c.checkf(mc::close(MathFuncs::lns_sumlog_float(x, y), want, 1e-5, 1e-5), [&] { return str("log(e^", x, "+e^", y, ") = ", MathFuncs::lns_sumlog_float(x, y), " (float)"); });
    if (x > y) { want = (double)(hi + log1pl(-expl(lo - hi))); double g = MathFuncs::lns_sublog(x, y); float h = MathFuncs::lns_sublog_float(x, y); if (hi - lo > 1e-6) c.checkf(mc::close(g, want, 1e-6, 1e-6) && mc::close(h, want, 1e-2, 1e-2), [&] { return str("log(e^", x, "-e^", y, ") = ", g, " and ", h); }); } else if (x == y) c.checkf(MathFuncs::lns_sublog(x, y) == SMALL_LG_NUM && MathFuncs::lns_sublog_float(x, y) == SMALL_LG_NUM, [&] { return str("difference of equal numbers ", x); });
    double a = exp(std::min(x, 40.0)), b = exp(std::min(y, 40.0)); if (a > 0 && b > 0) { c.checkf(mc::close(MathFuncs::lns_sum(a, b), log(a + b), 1e-6, 1e-6), [&] { return str("log(", a, "+", b, ")"); }); if (a > b * 1.01) c.checkf(mc::close(MathFuncs::lns_sub(a, b), log(a - b), 1e-6, 1e-6), [&] { return str("log(", a, "-", b, ")"); }); }
  } else if (which == 3) { double lam = c.pick(std::vector<double>{0.1, 0.5, 1, 3, 20}); double cum = 0; for (int k = 0; k < 60; ++k) { double p = exp(-lam + k * log(lam) - lgamma(k + 1.0)); cum += p; c.checkf(mc::close((double)MathFuncs::poisson(k, lam), p, 1e-3, 1e-7) && mc::close((double)MathFuncs::log_poisson(k, lam), log(p), 1e-4, 1e-4) && mc::close((double)MathFuncs::poisson_cdf(k, lam), cum, 1e-3, 1e-6) && mc::close((double)MathFuncs::log_poisson_cdf(k, lam), log(cum), 1e-3, 1e-4), [&] { return str("Poisson ", k, " with mean ", lam); }); } }
  else if (which == 4) { double mean = c.pick(std::vector<double>{-2, 0, 1.5, 30}), sd = c.pick(std::vector<double>{0.1, 1, 7}); for (double z = -5; z <= 5; z += 0.25) { double x = mean + z * sd, p = phi(z); c.checkf(mc::close((double)MathFuncs::norm_cdf(mean, sd, x), p, 1e-2, 1e-6) && mc::close((double)MathFuncs::log_norm_cdf(mean, sd, x), log(p), 1e-2, 1e-2) && mc::close((double)MathFuncs::norm_std_cdf(z), p, 1e-2, 1e-6) && mc::close((double)MathFuncs::log_norm_std_cdf(z), log(p), 1e-2, 1e-2), [&] { return str("normal distribution at ", x, " with mean ", mean, " and deviation ", sd); }); } }
  else if (which == 5) { double p = c.pick(std::vector<double>{0.1, 0.5, 0.7, 0.99}); double cum = 0; for (unsigned n = 0; n < 30; ++n) { double q = p * pow(1 - p, n); cum += q; c.checkf(mc::close((double)MathFuncs::geom(p, n), q, 1e-3, 1e-12) && mc::close((double)MathFuncs::log_geom(p, n), log(q), 1e-5, 1e-5) && mc::close((double)MathFuncs::geom_cdf(p, n), cum, 1e-4, 1e-6) && mc::close((double)MathFuncs::log_geom_cdf(p, n), log(cum), 1e-3, 1e-5), [&] { return str("geometric distribution ", p, " at ", n); }); } WordPenaltyModel w; for (int r = 0; r < 2; ++r) { for (unsigned n = 0; n < 200; ++n) c.checkf(mc::close((double)w.wordPenaltyScore(n), log(0.7) + n * log(0.3), 1e-5, 1e-5) && mc::close((double)w.sumWordPenaltyScore(n), (double)w.wordPenaltyScore(n), 1e-5, 1e-5), [&] { return str("word penalty of ", n); }); w.clear(); } }
  else {
    double a = c.pick(std::vector<double>{0, 1, 4}), b = a + c.pick(std::vector<double>{1, 3, 50}), m = a + (b - a) * c.pick(std::vector<double>{0.25, 0.5, 1}); double prev = 0; for (double x = a - 2; x <= b + 2; x += 0.125) { double want = x <= a ? 0 : x >= b ? 1 : x <= m ? (x - a) * (x - a) / ((b - a) * (m - a)) : 1 - (b - x) * (b - x) / ((b - a) * (b - m)), g = (double)MathFuncs::triang_cdf(a, b, m, x); c.checkf(mc::close(g, want, 1e-4, 1e-6) && g >= prev - 1e-6, [&] { return str("triangular distribution on ", a, "..", m, "..", b, " at ", x, ": ", g, " instead of ", want); }); if (g > 0) c.checkf(mc::close((double)MathFuncs::log_triang_cdf(a, b, m, x), log(g), 1e-3, 1e-5), [&] { return "logarithm"; }); prev = g; }
    if (a > 0) { double l0 = 0; for (double x = a; x <= b; x += 0.25) { double f = [&](double v) { return v * (1 - log(v)); }(a), want = (f - x * (1 - log(x))) / (f - b * (1 - log(b))), g = (double)MathFuncs::logarithmic_cdf(a, b, x); if (a < 1 || fabs(f - b * (1 - log(b))) < 1e-9) break; c.checkf(mc::close(g, want, 1e-4, 1e-6) && g >= l0 - 1e-6, [&] { return str("logarithmic distribution at ", x); }); if (g > 1e-6) c.checkf(mc::close((double)MathFuncs::log_logarithmic_cdf(a, b, x), log(g), 1e-3, 1e-5), [&] { return "logarithm"; }); l0 = g; } }
  }
}
int main(int argc, char** argv) {
  if (!getenv("MC_STDERR")) freopen("/dev/null", "w", stderr);
  return run(argc, argv, "P19", {{"predictor", "all histories of 3 (4) additions, loads of files with and without retention information and clears", predictor, 3}, {"lengths", "all histories of 4 (5) sentence pairs of 8 kinds, reloads and clears, all lengths up to 24", lengths, 3}, {"segm", "all histories of 4 (6) updates of segmentation lengths, all kinds of segment length models and files", segm, 3},
    {"vocab", "all histories of 3 (4) additions, loads, reloads and clears of two vocabularies", vocab, 3}, {"maths", "grids of arguments of all functions", maths, 1}});
}
