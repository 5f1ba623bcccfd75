// P17: minimising functions with the step-by-step downhill simplex method
// SOURCES: downhill_simplex/step_by_step_dhs.c error_correction/NbSearchStack.cc error_correction/WordGraph.cc incr_models/IncrJelMerNgramLM.cc incr_models/WordPenaltyModel.cc incr_models/lm_ienc.cc nlp_common/AwkInputStream.cc nlp_common/MathFuncs.cc nlp_common/ModelDescriptorUtils.cc nlp_common/SingleWordVocab.cc nlp_common/StrProcUtils.cc nlp_common/WordAligMatrix.cc nlp_common/printAligFuncs.cc phrase_models/AlignmentExtractor.cc phrase_models/BaseIncrPhraseModel.cc phrase_models/BasePhraseModel.cc phrase_models/BpSet.cc phrase_models/CategPhrasePairFilter.cc phrase_models/HatTriePhraseTable.cc phrase_models/PhraseExtractUtils.cc phrase_models/PhraseExtractionTable.cc phrase_models/SegLenTable.cc phrase_models/SrcSegmLenTable.cc phrase_models/SrfNodeInfoMap.cc phrase_models/SrfNodeKey.cc phrase_models/StrictCategPhrasePairFilter.cc phrase_models/TrgCutsTable.cc phrase_models/TrgSegmLenTable.cc phrase_models/WbaIncrPhraseModel.cc phrase_models/_incrPhraseModel.cc phrase_models/_wbaIncrPhraseModel.cc stack_dec/DirectPhraseModelFeat.cc stack_dec/InversePhraseModelFeat.cc stack_dec/WeightUpdateUtils.cc sw_models/IncrIbm1AligModel.cc sw_models/IncrLexTable.cc sw_models/LightSentenceHandler.cc sw_models/WeightedIncrNormSlm.cc sw_models/_sentLengthModel.cc sw_models/anjiMatrix.cc sw_models/SmoothedIncrIbm1AligModel.cc
// LIBS: -lleveldb -lgmp -ldb_cxx -lz
// PROGRAM: thot_dhs_step_by_step_min downhill_simplex/thot_dhs_step_by_step_min.cc downhill_simplex/step_by_step_dhs.c nlp_common/options.cc nlp_common/StrProcUtils.cc nlp_common/AwkInputStream.cc nlp_common/ctimer.c nlp_common/getline.c nlp_common/mem_alloc_utils.cc
#include "decoder.h"
#include "step_by_step_dhs.h"
#include "WeightUpdateUtils.h"
#include "ErrorDefs.h"
#include <cfloat>
using namespace mc;
static bool thorough() { const char* t = getenv("VERIF_TIER"); return t && std::string(t) == "thorough"; }
typedef std::vector<double> Vec; typedef std::function<double(const Vec&)> Fun;
static double rounded(double x) { char b[64]; snprintf(b, sizeof b, "%g", x); return atof(b); }
// the method of Nelder and Mead with reflection 1, expansion 2, contraction and shrinkage 1/2
struct Simplex {
  std::vector<Vec> asked; Vec got, best; Fun f; bool converged = false; double value = 0;
  double ask(const Vec& x) { double y = f(x); asked.push_back(x); got.push_back(y); return y; }
  static Vec mix(const Vec& a, double t, const Vec& b) { Vec r(a); for (size_t i = 0; i < r.size(); ++i) r[i] = a[i] + t * (b[i] - a[i]); return r; }
  Simplex(const Vec& start, double scale, double tol, Fun f_, size_t iterations = 4000) : f(f_) {
    size_t n = start.size(); double q = scale * (std::sqrt(n + 1.0) - 1) / (n * std::sqrt(2.0)), p = q + scale / std::sqrt(2.0); std::vector<std::pair<Vec, double>> v(n + 1, {start, 0});
    for (size_t i = 1; i <= n; ++i) for (size_t j = 0; j < n; ++j) v[i].first[j] += i == j + 1 ? p : q;
    for (auto& x : v) x.second = ask(x.first);
    auto least = [&] { size_t b = 0; for (size_t i = 1; i <= n; ++i) if (v[i].second < v[b].second) b = i; return b; };
    for (size_t it = 0; it < iterations && !converged; ++it) {
      size_t lo = least(), hi = 0, second = lo; for (size_t i = 1; i <= n; ++i) if (v[i].second > v[hi].second) hi = i;
      for (size_t i = 0; i <= n; ++i) if (v[i].second > v[second].second && v[i].second < v[hi].second) second = i;
      Vec mid(n, 0); for (size_t i = 0; i <= n; ++i) if (i != hi) for (size_t j = 0; j < n; ++j) mid[j] += v[i].first[j] / n;
      Vec r = mix(mid, -1, v[hi].first); double fr = ask(r);
      if (hi == lo && fr < v[lo].second) throw Skip();  // a flat start: how the library goes on is not judged
      if (fr < v[lo].second) { Vec e = mix(mid, 2, r); double fe = ask(e); if (fe < fr) v[hi] = {e, fe}; else v[hi] = {r, fr}; }
      else if (fr < v[second].second) v[hi] = {r, fr};
      else {
        Vec k = mix(mid, 0.5, fr < v[hi].second ? r : v[hi].first); double fk = ask(k);
        if (fk < v[hi].second) v[hi] = {k, fk};
        else { for (size_t i = 0; i <= n; ++i) if (i != lo) v[i].first = mix(v[lo].first, 0.5, v[i].first); for (size_t i = 0; i <= n; ++i) if (i != lo) v[i].second = ask(v[i].first); }
      }
      double mean = 0, var = 0; for (auto& x : v) mean += x.second; mean /= n + 1; for (auto& x : v) var += (x.second - mean) * (x.second - mean) / n; converged = std::sqrt(var) < tol;
    }
    size_t b = least(); best = v[b].first; value = ask(best);
  }
};
// one call of the library with the function values known so far
struct Call { int ret; Vec start, x; double y = 0, tol = 0; int iterations = 0; };
static Call call(const Vec& start, double scale, double tol, const Vec& images, const std::string& sep = "\n") {
  std::string s; for (double y : images) { char b[64]; snprintf(b, sizeof b, "%.17g", y); s += b + sep; }
  FILE* f = s.empty() ? fopen("/dev/null", "r") : fmemopen((void*)s.data(), s.size(), "r"); Call r; r.start = start; r.x.assign(start.size(), 0);
  r.ret = step_by_step_simplex(r.start.data(), start.size(), tol, scale, nullptr, f, &r.iterations, &r.y, r.x.data(), &r.tol, 0); fclose(f); return r;
}
static bool same(const Vec& a, const Vec& b, double eps = 1e-9) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!close(a[i], b[i], eps, eps)) return false; return true; }
// the whole conversation: each call asks for the next point, until the minimum is returned
static void converse(Ctx& c, const Vec& start, double scale, double tol, Fun f, const std::string& what, unsigned from, const std::string& sep) {
  Simplex m(start, scale, tol, f); if (!m.converged) throw Skip(); c.state(what);
  for (size_t k = from; k <= m.asked.size(); ++k) {
    Vec im(m.got.begin(), m.got.begin() + k); Call r = call(start, scale, tol, im, sep); c.step();
    if (k < m.asked.size()) {
      c.checkf(r.ret == DSO_EVAL_FUNC && same(r.x, m.asked[k]), [&] { return what + str(": after ", k, " values ", join(im), " the return code is ", r.ret, " and the point asked for ", join(r.x), ", expected ", join(m.asked[k])); });
    } else c.checkf(r.ret == THOT_OK && same(r.start, m.best) && same(r.x, m.best) && r.y == m.value, [&] { return what + str(": with all values ", join(im), " the return code is ", r.ret, ", the point ", join(r.start), " with value ", r.y, ", expected ", join(m.best), " with ", m.value); });
  }
  double least = HUGE_VAL; for (double y : m.got) least = std::min(least, y); c.checkf(m.value == least, [&] { return what + str(": value ", m.value, " though ", least, " was found"); });
  // values beyond the end are not needed
  Vec im(m.got); im.push_back(-5); Call r = call(start, scale, tol, im, sep); c.checkf(r.ret == THOT_OK && same(r.start, m.best), [&] { return what + ": values after the last one change the result"; }); c.outcome(join(m.best) + str(m.asked.size()));
}
// the values are an adversary's
static void adversary(Ctx& c) {
  unsigned n = 1 + c.choose(thorough() ? 4 : 3); static const Vec vals = {2, 0, 1, 3}; unsigned k = n + 1 + (thorough() ? 6 : n == 3 ? 3 : 4), used = 0; if (thorough() && n > 2) k = 8;
  std::map<std::vector<long long>, double> known; std::string what; Vec start; for (unsigned i = 0; i < n; ++i) start.push_back(0.25 * i); double scale = c.flip() ? 1 : -0.5, tol = c.flip() ? 0.1 : 1.2;
  Fun f = [&](const Vec& x) { std::vector<long long> key; for (double v : x) key.push_back(std::llround(v * 1e7)); auto it = known.find(key); if (it != known.end()) return it->second; double y = used < k ? vals[c.choose(used < n + 1 ? 4 : 4)] : 1; ++used; known[key] = y; what += str(" ", y); return y; };
  Simplex m(start, scale, tol, f); if (!m.converged) throw Skip(); std::string w = str(n, " dimensions, values"); w += what + str(", scale ", scale, ", tolerance ", tol); converse(c, start, scale, tol, f, w, m.asked.size() > 14 ? m.asked.size() - 14 : 0, "\n");
}
// functions in earnest, in up to 4 dimensions
static const std::vector<std::pair<std::string, Fun>>& functions() {
  static std::vector<std::pair<std::string, Fun>> v = {
    {"sphere", [](const Vec& x) { double r = 0; for (double t : x) r += (t - 0.3) * (t - 0.3); return r; }}, {"banana", [](const Vec& x) { double r = 0; for (size_t i = 0; i + 1 < x.size(); ++i) r += (1 - x[i]) * (1 - x[i]) + 100 * (x[i + 1] - x[i] * x[i]) * (x[i + 1] - x[i] * x[i]); return r + (x.size() == 1 ? (1 - x[0]) * (1 - x[0]) : 0); }},
    {"absolute", [](const Vec& x) { double r = -7; for (size_t i = 0; i < x.size(); ++i) r += (i + 1) * std::abs(x[i] - 1.0 / (i + 1)); return r; }}, {"constant", [](const Vec&) { return 3.0; }}, {"steps", [](const Vec& x) { double r = 0; for (double t : x) r += std::abs(std::round(t * 4)); return r; }},
    {"box", [](const Vec& x) { double r = 0; for (double t : x) { if (t < 0 || t >= 1) return DBL_MAX; r += (t - 0.7) * (t - 0.7); } return r; }}, {"narrow", [](const Vec& x) { double r = 0, s = 1e-3; for (double t : x) { r += s * (t + 2) * (t + 2); s *= 30; } return r; }}, {"saddle", [](const Vec& x) { double r = 0; for (size_t i = 0; i < x.size(); ++i) r += std::sin(3 * x[i] + i); return r; }}};
  return v;
}
static void earnest(Ctx& c) {
  auto& f = c.pick(functions()); unsigned n = 1 + c.choose(thorough() ? 6 : 4); double s = c.pick(Vec{0.5, 0, 0.99, -3}), scale = c.pick(Vec{1, 0.1}), tol = c.pick(Vec{0.0001, 0.01, 1e-9}); Vec start(n, s); start[0] += 0.125; std::string what = str(f.first, " in ", n, " dimensions from ", join(start), ", scale ", scale, ", tolerance ", tol);
  Simplex m(start, scale, tol, f.second); converse(c, start, scale, tol, f.second, what, m.asked.size() > 60 ? m.asked.size() - 4 : 0, c.flip() ? "\n" : "\n\n"); c.checkf(m.value <= f.second(start), [&] { return what + ": worse than the start"; });
  if (f.first == "sphere" && tol < 1e-4 && n > 1) { Call r = call(start, scale, tol, m.got); for (double x : r.start) c.checkf(std::abs(x - 0.3) < 1e-2, [&] { return what + ": ends in " + join(r.start); }); }
}
// a tolerance that is never reached ends in an error, with the best point known
static void endless(Ctx& c) {
  auto& f = c.pick(functions()); unsigned n = 1 + c.choose(2); Vec start(n, 0.5); Simplex m(start, 1, 0, f.second, 5000); std::string what = f.first + str(" in ", n, " dimensions"); Call r = call(start, 1, 0, m.got); c.step(); c.state(what);
  c.checkf(r.ret == DSO_NMAX_ERROR && same(r.start, m.best), [&] { return what + str(" with tolerance 0: return code ", r.ret, " at ", join(r.start), ", best ", join(m.best)); });
}
static std::string line(const Vec& x) { std::string r; for (double v : x) { char b[64]; snprintf(b, sizeof b, "%g", v); r += b + std::string(" "); } return r + "\n"; }
static std::string images(const Vec& x) { std::string r; for (double v : x) { char b[64]; snprintf(b, sizeof b, "%.17g", v); r += b + std::string("\n"); } return r; }
// the program: fixed variables stay, values are printed
static void program(Ctx& c) {
  unsigned n = 1 + c.choose(3); std::vector<std::string> va; std::vector<int> free_; Vec all; static const Str opts = {"-0", "0", "0.5", "-2"}; for (unsigned i = 0; i < n; ++i) { va.push_back(opts[c.choose(4)]); if (va.back() == "-0") free_.push_back(i); all.push_back(atof(va.back().c_str())); } if (free_.empty()) throw Skip();
  bool iv = c.flip(); Str ivs = {"0.25", "-1", "3"}; Vec start; for (int i : free_) start.push_back(iv ? atof(ivs[i].c_str()) : (float)(1.0 / free_.size())); double tol = c.flip() ? 0.0001 : 0.3; auto& f = functions()[c.choose(2) * 2];
  auto full = [&](const Vec& x) { Vec r(all); for (size_t k = 0; k < x.size(); ++k) r[free_[k]] = x[k]; return r; };
  if (!iv) start.assign(free_.size(), 1.0 / free_.size()); Simplex m(start, 1, tol, [&](const Vec& x) { return f.second(full(x)); }); std::string d = freshDir(c), what = f.first + " -va " + join(va) + (iv ? " -iv" : "") + str(" -ftol ", tol); c.state(what);
  std::vector<size_t> ks = {0, 1, 2, free_.size() + 1, m.asked.size() / 2, m.asked.size() - 1, m.asked.size()};
  for (size_t k : ks) {
    writeFile(d + "/img", images(Vec(m.got.begin(), m.got.begin() + k))); Str cmd = {bin("thot_dhs_step_by_step_min"), "-va"}; for (auto& v : va) cmd.push_back(v); if (iv) { cmd.push_back("-iv"); for (unsigned i = 0; i < n; ++i) cmd.push_back(ivs[i]); } cmd.push_back("-i"); cmd.push_back(d + "/img"); if (tol != 0.0001) { cmd.push_back("-ftol"); cmd.push_back("0.3"); }
    Result r = runCmd(c, cmd); c.step(); bool end = k == m.asked.size(); std::string want = line(full(end ? m.best : m.asked[k])); c.checkf(r.out == want && r.ok() == end && (end || r.err.find("Image for x required!") != std::string::npos), [&] { return what + str(" after ", k, " values: '", r.out, "' instead of '", want, "', status ", r.status); });
  }
}
// the tool around it: a target function that fails after any number of evaluations, and resuming from what was found
static void resume(Ctx& c) {
  unsigned n = 1 + c.choose(2), which = c.choose(2); Vec start(n, 0.5); double tol = 0.2; auto of = [&](const Vec& x) { double r = 0; for (size_t i = 0; i < x.size(); ++i) r += which ? (x[i] - i) * (x[i] - i) : std::abs(x[i] - 0.125) * 4; return r; };
  Simplex m(start, 1, tol, [&](const Vec& x) { Vec y; for (double v : x) y.push_back(rounded(v)); return rounded(of(y)); }); size_t N = m.asked.size(), crash = c.choose(N + 1); bool give = c.flip(); std::string d = freshDir(c), what = str(which ? "squares" : "absolute", " in ", n, " dimensions, target function failing after ", crash, " of ", N, " values"); c.state(what);
  // the target function appends to a log, and fails when the log has reached a given length
  writeFile(d + "/f", "#!/bin/bash\nn=`wc -l < " + d + "/log`\nif [ -f " + d + "/max ]; then if [ $n -ge `cat " + d + "/max` ]; then exit 1; fi; fi\necho \"$@\" >> " + d + "/log\nshift\nawk -v v=\"$*\" 'BEGIN{n=split(v,a,\" \"); r=0; for(i=1;i<=n;++i){ if(" + (which ? "1" : "0") + ") r+=(a[i]-(i-1))*(a[i]-(i-1)); else { t=a[i]-0.125; if(t<0) t=-t; r+=t*4 } } printf \"%g\\n\", r}'\n"); std::filesystem::permissions(d + "/f", std::filesystem::perms::owner_all); writeFile(d + "/log", "");
  if (crash < N) writeFile(d + "/max", str(crash)); Str args = {"-va"}; for (unsigned i = 0; i < n; ++i) args.push_back("-0"); args.push_back("-iv"); for (unsigned i = 0; i < n; ++i) args.push_back("0.5"); for (auto& x : Str{"-u", d + "/f", "-o", d + "/o", "-ftol", "0.2", "-tdir", d}) args.push_back(x); if (give) { args.push_back("-a"); args.push_back("extra"); }
  Str a1(args); if (crash < N) a1.push_back("-debug"); Result r = runScript(c, "utils/downhill_simplex/thot_dhs_min.sh", a1); c.step(); std::string img; for (auto& e : std::filesystem::directory_iterator(d)) if (e.path().filename().string().rfind("thot_dhs_min_", 0) == 0) img = e.path().string() + "/adj.img";
  if (crash < N) {
    c.checkf(!r.ok() && !std::filesystem::exists(d + "/o.out") && !img.empty(), [&] { return what + ": the tool ends with status " + str(r.status); }); std::filesystem::remove(d + "/max"); args.push_back("-r"); args.push_back(d + "/first"); std::filesystem::copy_file(img, d + "/first"); r = runScript(c, "utils/downhill_simplex/thot_dhs_min.sh", args); c.step();
  } else c.checkf(img.empty(), [&] { return what + ": temporary files are left"; });
  std::string out = readFile(d + "/o.out"), want = line(m.best), log = readFile(d + "/log"), wl; for (auto& x : m.asked) { std::string l = line(x); l.pop_back(); l.pop_back(); wl += l + "\n"; }
  c.checkf(r.ok() && out == want, [&] { return what + ": result '" + out + "' instead of '" + want + "'"; }); std::string first; std::istringstream ls(log); std::string l, points; while (getline(ls, l)) { size_t p = l.find(' '); points += l.substr(p + 1) + "\n"; if (give) c.checkf(l.substr(0, p) == "extra", [&] { return what + ": the target function receives " + l; }); }
  c.checkf(points == wl, [&] { return what + ": evaluated at\n" + points + "instead of\n" + wl; }); c.checkf((size_t)std::count_if(m.got.begin(), m.got.end(), [](double) { return true; }) == (size_t)[&] { std::string s = readFile(d + "/o.img"); return std::count(s.begin(), s.end(), '\n'); }(), [&] { return what + ": o.img has other values"; });
}
// the users of the method in the library: weights never get worse
static const std::vector<Str>& sentences() { static std::vector<Str> v = {{"a", "b"}, {"b", "c", "a"}, {"a"}, {"c", "c", "b", "a"}, {"d", "e"}}; return v; }
static std::string text(const std::vector<Str>& v) { std::string r; for (auto& s : v) { for (size_t i = 0; i < s.size(); ++i) r += (i ? " " : "") + s[i]; r += "\n"; } return r; }
static void langmod(Ctx& c) {
  int order = 1 + c.choose(3); std::vector<Str> train, dev; unsigned n = 1 + c.choose(thorough() ? 3 : 2), k = 1 + c.choose(2); for (unsigned i = 0; i < n; ++i) train.push_back(sentences()[c.choose(4)]); for (unsigned i = 0; i < k; ++i) dev.push_back(sentences()[c.choose(5)]); auto ws = c.pick(std::vector<Vec>{{0.5, 0.5, 0.5}, {0.9, 0.1, 0.3}}); ws.resize(order);
  std::string d = freshDir(c), what = "train " + text(train) + "develop " + text(dev) + "weights " + join(ws); c.state(what); std::string wf = str(order, " 1 0"); for (double w : ws) wf += str(" ", w); writeFile(d + "/lm.weights", wf + "\n"); writeFile(d + "/dev", text(dev));
  auto make = [&](IncrJelMerNgramLM& lm, const Vec& w) { std::string s = str(order, " 1 0"); for (double x : w) { char b[64]; snprintf(b, sizeof b, " %.17g", x); s += b; } writeFile(d + "/w.weights", s + "\n"); lm.loadWeights((d + "/w").c_str()); lm.setNgramOrder(order); for (auto& t : train) lm.trainSentence(t, Count(1)); };
  auto perp = [&](IncrJelMerNgramLM& lm) { unsigned a, b; LgProb l; double p = -1; lm.perplexity((d + "/dev").c_str(), a, b, l, p); return p; };
  IncrJelMerNgramLM lm; make(lm, ws); double before = perp(lm); Simplex m(ws, 1, 0.01, [&](const Vec& x) { for (double v : x) if (v < 0 || v >= 1) return rounded(DBL_MAX); IncrJelMerNgramLM t; make(t, x); return rounded(perp(t)); });
  int ret = lm.updateModelWeights((d + "/dev").c_str()); c.step(); double after = perp(lm); c.checkf(ret == THOT_OK && after <= before * (1 + 1e-5), [&] { return what + str(": perplexity goes from ", before, " to ", after, ", return code ", ret); });
  lm.printWeights((d + "/out").c_str()); std::istringstream o(readFile(d + "/out.weights")); int x; double y; o >> x >> x >> y; Vec got; while (o >> y) got.push_back(y); c.checkf(same(got, m.best, 1e-4), [&] { return what + ": weights " + join(got) + " instead of " + join(m.best); }); c.outcome(join(got));
}
static void phrases(Ctx& c) {
  static const std::vector<Table> tables = {{{{"a"}, {"x"}, 3}, {{"a"}, {"y"}, 1}, {{"b"}, {"y"}, 2}, {{"a", "b"}, {"x", "y"}, 1}, {{"c"}, {"z"}, 1}}, {{{"a"}, {"x"}, 1}, {{"b"}, {"x", "y"}, 1}, {{"c"}, {"y"}, 2}}};
  World w(c, c.pick(tables), {{"x"}}, 2); w.words(); std::vector<Str> src, trg; unsigned n = 1 + c.choose(2); static const std::vector<std::pair<Str, Str>> pairs = {{{"a"}, {"x"}}, {{"a", "b"}, {"x", "y"}}, {{"c", "a"}, {"y", "x"}}, {{"b", "c", "a"}, {"y", "z"}}, {{"a", "q"}, {"x", "r"}}}; for (unsigned i = 0; i < n; ++i) { auto& p = pairs[c.choose(pairs.size())]; src.push_back(p.first); trg.push_back(p.second); }
  float ld = c.pick(std::vector<float>{0.5f, 0.9f}), li = c.pick(std::vector<float>{0.5f, 0.2f}); std::string d = freshDir(c), what = "source " + text(src) + "target " + text(trg) + str("weights ", ld, " ", li); c.state(what); writeFile(d + "/s", text(src)); writeFile(d + "/t", text(trg));
  auto as = [](SmoothedIncrIbm1AligModel* m) { return (BaseSwAligModel<PpInfo>*)(void*)(BaseSwAligModel<std::vector<Prob>>*)m; }; DirectPhraseModelFeat<PhrScoreInfo> df; InversePhraseModelFeat<PhrScoreInfo> inf; df.link_pm(&w.pm); df.link_swm(as(w.swd.get())); inf.link_pm(&w.pm); inf.link_swm(as(w.swi.get())); df.set_lambda(ld); inf.set_lambda(li);
  std::vector<std::vector<PhrasePair>> all; PhraseExtractUtils::extractPhrPairsFromCorpusFiles(as(w.swi.get()), as(w.swd.get()), d + "/t", d + "/s", all); std::vector<PhrasePair> ps; for (auto& v : all) { std::vector<PhrasePair> f; PhraseExtractUtils::filterPhrasePairs(v, f); ps.insert(ps.end(), f.begin(), f.end()); } if (ps.empty()) throw Skip();
  auto value = [&](float a, float b) { double s = 0; for (auto& p : ps) s += w.direct(p.t_, p.s_, a) + w.inverse(p.t_, p.s_, b); return -s / ps.size(); };
  Simplex m({ld, li}, PHRSWLITM_DHS_SCALE_PAR, PHRSWLITM_DHS_FTOL, [&](const Vec& x) { for (double v : x) if (v < 0 || v >= 1) return rounded(DBL_MAX); return rounded(value(x[0], x[1])); });
  int ret = WeightUpdateUtils::updatePmLinInterpWeights(d + "/s", d + "/t", &df, &inf, 0); c.step(); Vec got = {df.get_lambda(), inf.get_lambda()}; double after = value(got[0], got[1]), before = value(ld, li);
  c.checkf(ret == THOT_OK && after <= before + 1e-5 * std::abs(before) && got[0] >= 0 && got[0] < 1 && got[1] >= 0 && got[1] < 1, [&] { return what + str(": the measure goes from ", before, " to ", after, " with weights ", join(got), ", return code ", ret); }); c.checkf(same(got, m.best, 1e-3), [&] { return what + ": weights " + join(got) + " instead of " + join(m.best); }); c.outcome(join(got));
}
int main(int argc, char** argv) {
  if (!getenv("MC_STDERR")) freopen("/dev/null", "w", stderr);
  return run(argc, argv, "P17", {{"adversary", "all values from {0,1,2,3} of the first evaluations in 1 to 3 (4) dimensions, then constant; 2 scales, 2 tolerances; the conversation replayed with every number of known values", adversary, 4},
    {"earnest", "8 functions in 1 to 4 (6) dimensions from 4 starting points with 2 scales and 3 tolerances", earnest, 3}, {"endless", "a tolerance of zero", endless, 2},
    {"program", "all patterns of free and fixed variables of length up to 3, with and without initial values", program, 3}, {"resume", "the tool with a target function that fails at every point, resumed", resume, 3},
    {"langmod", "all small training and development corpora, orders 1 to 3: weights of the n-gram model", langmod, 3}, {"phrases", "all small development corpora over 2 phrase tables: interpolation weights of the phrase models", phrases, 3}});
}
