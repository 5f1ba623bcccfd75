// P25: estimating, merging, filtering and converting phrase tables
// SOURCES: nlp_common/AwkInputStream.cc nlp_common/MathFuncs.cc nlp_common/ModelDescriptorUtils.cc nlp_common/SingleWordVocab.cc nlp_common/StrProcUtils.cc nlp_common/WordAligMatrix.cc nlp_common/printAligFuncs.cc phrase_models/AlignmentExtractor.cc phrase_models/BaseIncrPhraseModel.cc phrase_models/BasePhraseModel.cc phrase_models/BpSet.cc phrase_models/CategPhrasePairFilter.cc phrase_models/FastBdbPhraseModel.cc phrase_models/FastBdbPhraseTable.cc phrase_models/HatTriePhraseTable.cc phrase_models/LevelDbPhraseModel.cc phrase_models/LevelDbPhraseTable.cc phrase_models/PhraseExtractUtils.cc phrase_models/PhraseExtractionTable.cc phrase_models/SegLenTable.cc phrase_models/SrcSegmLenTable.cc phrase_models/SrfNodeInfoMap.cc phrase_models/SrfNodeKey.cc phrase_models/StrictCategPhrasePairFilter.cc phrase_models/TrgCutsTable.cc phrase_models/TrgSegmLenTable.cc phrase_models/WbaIncrPhraseModel.cc phrase_models/_incrPhraseModel.cc phrase_models/_wbaIncrPhraseModel.cc 
// LIBS: -lleveldb -lgmp -ldb_cxx -lz
// PROGRAM: thot_gen_phr_model phrase_models/thot_gen_phr_model.cc phrase_models/IncrPhraseModel.cc phrase_models/_wbaIncrPhraseModel.cc nlp_common/options.cc nlp_common/ctimer.c nlp_common/getline.c nlp_common/getdelim.c nlp_common/mem_alloc_utils.cc nlp_common/AwkInputStream.cc nlp_common/MathFuncs.cc nlp_common/ModelDescriptorUtils.cc nlp_common/SingleWordVocab.cc nlp_common/StrProcUtils.cc nlp_common/WordAligMatrix.cc nlp_common/printAligFuncs.cc phrase_models/AlignmentExtractor.cc phrase_models/BaseIncrPhraseModel.cc phrase_models/BasePhraseModel.cc phrase_models/BpSet.cc phrase_models/CategPhrasePairFilter.cc phrase_models/HatTriePhraseTable.cc phrase_models/PhraseExtractUtils.cc phrase_models/PhraseExtractionTable.cc phrase_models/SegLenTable.cc phrase_models/SrcSegmLenTable.cc phrase_models/SrfNodeInfoMap.cc phrase_models/SrfNodeKey.cc phrase_models/StrictCategPhrasePairFilter.cc phrase_models/TrgCutsTable.cc phrase_models/TrgSegmLenTable.cc phrase_models/_incrPhraseModel.cc
// PROGRAM: thot_ttable_to_leveldb phrase_models/thot_ttable_to_leveldb.cc phrase_models/LevelDbPhraseTable.cc nlp_common/options.cc nlp_common/StrProcUtils.cc nlp_common/AwkInputStream.cc nlp_common/MathFuncs.cc nlp_common/ctimer.c nlp_common/getline.c nlp_common/getdelim.c nlp_common/mem_alloc_utils.cc nlp_common/SingleWordVocab.cc
// PROGRAM: thot_ttable_to_fbdb phrase_models/thot_ttable_to_fbdb.cc phrase_models/FastBdbPhraseTable.cc nlp_common/options.cc nlp_common/StrProcUtils.cc nlp_common/AwkInputStream.cc nlp_common/MathFuncs.cc nlp_common/ctimer.c nlp_common/getline.c nlp_common/getdelim.c nlp_common/mem_alloc_utils.cc nlp_common/SingleWordVocab.cc
// SCRIPTS: utils/nlp_common/thot_general_lib.sh utils/phrase_models/thot_gen_phr_model_mr.sh utils/phrase_models/thot_merge_counts.sh utils/phrase_models/thot_cut_ttable.sh utils/phrase_models/thot_merge_seglen_counts.sh
// SCRIPTS: utils/phrase_models/thot_flip_phr.sh utils/phrase_models/thot_sort_ttable.sh utils/phrase_models/thot_get_nbest_for_trg.sh utils/phrase_models/thot_filter_ttable.sh utils/phrase_models/thot_filter_ttable_given_corpus.sh
// SCRIPTS: utils/phrase_models/thot_gen_leveldb_ttable.sh utils/phrase_models/thot_gen_fbdb_ttable.sh
#include "prog.h"
#include "AlignmentExtractor.h"
#include "PhraseExtractUtils.h"
#include "WbaIncrPhraseModel.h"
#include "LevelDbPhraseModel.h"
#include "FastBdbPhraseModel.h"
#include <cmath>
#include <cstring>
#include <map>
#include <set>
#include <algorithm>
using namespace mc;
static bool thorough() { const char* t = getenv("VERIF_TIER"); return t && std::string(t) == "thorough"; }
typedef std::vector<std::string> Words;
static Words words(const std::string& s) { std::istringstream q(s); Words w; std::string x; while (q >> x) w.push_back(x); return w; }
static std::string joined(const Words& w) { std::string s; for (auto& x : w) s += (s.empty() ? "" : " ") + x; return s; }
struct Row { std::string s, t; double cs = 0, ct = 0; };
typedef std::vector<Row> Rows;
static std::string num(double x) { char b[40]; snprintf(b, sizeof b, "%.9g", x); return b; }
static std::string line(const Row& r) { return r.s + " ||| " + r.t + " ||| " + num(r.cs) + " " + num(r.ct); }
static std::string lines(const Rows& t) { std::string s; for (auto& r : t) s += line(r) + "\n"; return s; }
static Rows parse(Ctx& c, const std::string& text) {
  std::istringstream in(text); std::string l; Rows t;
  while (std::getline(in, l)) {
    Words w = words(l), a, b; size_t i = 0; while (i < w.size() && w[i] != "|||") a.push_back(w[i++]); ++i; while (i < w.size() && w[i] != "|||") b.push_back(w[i++]); ++i;
    c.checkf(i + 2 == w.size() && !a.empty() && !b.empty(), [&] { return "not a line of a phrase table: '" + l + "'"; }); Row r; r.s = joined(a); r.t = joined(b); r.cs = atof(w[i].c_str()); r.ct = atof(w[i + 1].c_str()); t.push_back(r);
  }
  return t;
}
static bool eq(double a, double b) { return mc::close(a, b, 1e-5, 2e-8); }
static bool same(const Row& a, const Row& b) { return a.s == b.s && a.t == b.t && eq(a.cs, b.cs) && eq(a.ct, b.ct); }
// the same entries in any order
static bool sameSet(Rows a, Rows b) {
  if (a.size() != b.size()) return false; auto lt = [](const Row& x, const Row& y) { return std::tie(x.s, x.t, x.ct) < std::tie(y.s, y.t, y.ct); }; std::sort(a.begin(), a.end(), lt); std::sort(b.begin(), b.end(), lt);
  for (size_t i = 0; i < a.size(); ++i) if (!same(a[i], b[i])) return false; return true;
}
static bool sameList(const Rows& a, const Rows& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!same(a[i], b[i])) return false; return true; }
static Result tool(Ctx& c, const std::string& name, Words args, const std::string& in = "") { args.insert(args.begin(), bin(name)); return runCmd(c, args, in); }
// ---- estimation -----------------------------------------------------------------------------------------
static const std::vector<std::string> pairs = {"# 1\na b\nNULL ({ }) x ({ 1 }) y ({ 2 })\n", "# 1\na b\nNULL ({ }) y ({ 2 }) x ({ 1 })\n", "# 3\na\nNULL ({ }) x ({ 1 })\n", "# 1\na c b\nNULL ({ 2 }) x ({ 1 }) y ({ 3 })\n", "# 1\nb 1.0 b\nNULL ({ }) z ({ }) y ({ 1 2 }) 1 ({ 3 })\n", "# 0.25\nc\nNULL ({ 1 }) z ({ })\n", "# 1\na 1.0 c\nNULL ({ }) x ({ 2 }) x ({ 1 3 })\n"};
struct Options { int m = 0; bool mon = false, brf = false; };
static Rows estimate(const std::string& file, const Options& o) {
  PhraseExtractParameters p; p.maxTrgPhraseLength = o.m ? o.m : MAX_SENTENCE_LENGTH; p.monotone = o.mon; AlignmentExtractor a; a.open(file.c_str(), GIZA_ALIG_FILE_FORMAT); std::map<std::pair<std::string, std::string>, double> n; std::map<std::string, double> total;
  while (a.getNextAlignment()) {
    std::vector<PhrasePair> all, kept; Words ns = a.get_ns(), t = a.get_t(); if (o.brf) PhraseExtractUtils::extractPhrasesFromPairPlusAligBrf(p, ns, t, a.get_wamatrix(), all); else PhraseExtractUtils::extractPhrasesFromPairPlusAlig(p, ns, t, a.get_wamatrix(), all);
    PhraseExtractUtils::filterPhrasePairs(all, kept); for (auto& x : kept) { double w = a.get_numReps() * x.weight; n[{joined(x.s_), joined(x.t_)}] += w; total[joined(x.s_)] += w; }
  }
  a.close(); Rows r; for (auto& x : n) r.push_back({x.first.first, x.first.second, total[x.first.first], x.second}); return r;
}
static Words parameters(Ctx& c, Options& o, int max) { Words a; switch (c.choose(max)) { case 0: break; case 1: o.m = 1; a = {"-m", "1"}; break; case 2: o.brf = true; a = {"-brf"}; break; case 3: o.m = 2; a = {"-m", "2"}; break; case 4: o.mon = true; a = {"-mon"}; break; case 5: o.brf = true; o.m = 2; a = {"-brf", "-m", "2"}; } return a; }
static std::string corpus(Ctx& c, int max) { int n = c.choose(max + 1); std::string s; for (int i = 0; i < n; ++i) s += pairs[c.choose(n > 2 && !thorough() ? 3 : pairs.size())]; return s; }
static std::map<std::pair<int, int>, double> seglens(const std::string& text) { std::map<std::pair<int, int>, double> m; std::istringstream in(text); int a, b; double x; while (in >> a >> b >> x) m[{a, b}] += x; return m; }
static void genBody(Ctx& c) {
  Options o; Words a = parameters(c, o, 6); std::string d = freshDir(c), text = corpus(c, thorough() ? 3 : 2); writeFile(d + "/a", text); a.insert(a.end(), {"-g", d + "/a", "-o", d + "/m"}); Result r = tool(c, "thot_gen_phr_model", a); c.step(); c.state(join(a) + text);
  c.check(r.ok(), "thot_gen_phr_model failed for {" + text + "}"); Rows got = parse(c, readFile(d + "/m.ttable")), want = estimate(d + "/a", o); c.checkf(sameSet(got, want), [&] { return "thot_gen_phr_model " + join(a) + " of {" + text + "} gives {" + lines(got) + "}, expected {" + lines(want) + "}"; });
}
// map-reduce: the corpus is split into chunks of a sentence pair each
static void mrBody(Ctx& c) {
  Options o; Words a = parameters(c, o, 3), b = a; int cut = c.choose(3); std::string d = freshDir(c), text = corpus(c, 3); if (text.empty()) throw Skip(); writeFile(d + "/a", text); c.state(join(a) + str(cut) + text);
  writeFile(d + "/split", "#!/bin/bash\na=(); while [ $# -gt 0 ]; do if [ \"$1\" = -l ]; then shift; a+=(-l $(($1/30000))); else a+=(\"$1\"); fi; shift; done; exec split \"${a[@]}\"\n"); std::filesystem::permissions(d + "/split", std::filesystem::perms::all); setenv("VERIF_SPLIT", (d + "/split").c_str(), 1);
  b.insert(b.end(), {"-g", d + "/a", "-o", d + "/m", "-T", d, "-c", std::to_string(cut)}); Result r = tool(c, "thot_gen_phr_model_mr", b); c.step(); unsetenv("VERIF_SPLIT"); c.check(r.ok(), "thot_gen_phr_model_mr failed for {" + text + "}: " + r.err);
  a.insert(a.end(), {"-g", d + "/a", "-o", d + "/n"}); tool(c, "thot_gen_phr_model", a);
  Rows got = parse(c, readFile(d + "/m.ttable")), want; for (auto& x : parse(c, readFile(d + "/n.ttable"))) { if (cut && std::fabs(x.cs - cut) < 1e-4 && o.brf) throw Skip();  // a sum of fractions
    if (x.cs > cut) want.push_back(x); }
  c.checkf(sameSet(got, want), [&] { return "thot_gen_phr_model_mr " + join(b) + " of {" + text + "} gives {" + lines(got) + "}, expected {" + lines(want) + "}"; });
  if (o.brf) c.checkf(seglens(readFile(d + "/m.seglentable")) == seglens(readFile(d + "/n.seglentable")), [&] { return "the segmentation lengths of {" + text + "} are {" + readFile(d + "/m.seglentable") + "}, expected {" + readFile(d + "/n.seglentable") + "}"; });
  Words left; for (auto& e : std::filesystem::directory_iterator(d)) if (e.is_directory()) left.push_back(e.path().filename()); c.checkf(left.empty(), [&] { return "temporary files are left: " + join(left); });
}
// ---- tables -----------------------------------------------------------------------------------------------
// phrases that are equal as numbers, prefixes of each other, or sorted differently as bytes and as text
static const std::vector<std::pair<std::string, std::string>> entries = {{"x", "1"}, {"y", "1"}, {"1", "1.0"}, {"1.0", "1.0"}, {"x y", "1.0"}, {"1 x", "a b"}, {"y", "a b"}, {"1", "a !"}};
static const double counts[4][8] = {{1, 3, 2, 5, 4, 10, 9, 1}, {0.5, 0.05, 0.5, 20, 0.0625, 0.2, 0.04, 1.5}, {2, 1, 1, 1, 100, 1, 2, 12}, {0.01, 1000, 0.3, 0.03, 3, 1, 0.125, 7}};
static Rows table(unsigned mask, int values) { Rows t; std::map<std::string, double> total; for (int i = 0; i < 8; ++i) if (mask >> i & 1) { t.push_back({entries[i].first, entries[i].second, 0, counts[values][i]}); total[t.back().s] += t.back().ct; } for (auto& r : t) r.cs = total[r.s]; return t; }
static std::string flipped(const Rows& t) { Rows u = t; for (auto& r : u) std::swap(r.s, r.t); return lines(u); }
static void nbestBody(Ctx& c) {
  int values = c.choose(thorough() ? 4 : 2), n = 1 + c.choose(3); bool p = c.flip(); unsigned mask = c.choose(256); if (!thorough() && __builtin_popcount(mask) > 5) throw Skip(); Rows t = table(mask, values), got; std::string d = c.scratch(); bool file = mask % 2; writeFile(d + "/t", lines(t));
  Words a = {"-n", std::to_string(n), "-T", d}; if (p) a.push_back("-p"); if (file) a.insert(a.end(), {"-t", d + "/t"}); Result r = tool(c, "thot_get_nbest_for_trg", a, file ? "" : lines(t)); c.step(); c.state(lines(t) + join(a)); got = parse(c, r.out);
  auto what = [&] { return "thot_get_nbest_for_trg " + join(a) + " of {" + lines(t) + "} gives {" + r.out + "}" + r.err; }; std::map<std::string, Rows> by, out; for (auto& x : t) by[x.t].push_back(x); for (auto& x : got) out[x.t].push_back(x);
  for (auto& x : out) c.checkf(by.count(x.first), what);
  for (auto& x : by) {
    std::sort(x.second.begin(), x.second.end(), [](const Row& a, const Row& b) { return a.ct > b.ct; }); Rows& o = out[x.first]; double rest = 0; for (size_t i = n; i < x.second.size(); ++i) rest += x.second[i].ct; size_t keep = std::min<size_t>(n, x.second.size());
    c.checkf(o.size() == keep + (p && rest > 0), what); std::set<std::string> seen;
    for (size_t i = 0; i < keep; ++i) c.checkf(eq(o[i].ct, x.second[i].ct) && seen.insert(o[i].s).second && std::any_of(x.second.begin(), x.second.end(), [&](const Row& e) { return same(e, o[i]); }), what);
    if (p && rest > 0) c.checkf(o[keep].s == "<UNUSED_WORD>" && o[keep].cs == 0 && eq(o[keep].ct, rest), what);
  }
}
// in groups of equal first phrases, each in the order of decreasing counts
static void sortBody(Ctx& c) {
  int values = c.choose(4); unsigned mask = c.choose(256); if (!thorough() && __builtin_popcount(mask) > 5) throw Skip(); Rows t = table(mask, values), u = t; if (c.flip()) std::reverse(u.begin(), u.end()); std::string d = c.scratch(); bool file = mask % 2; writeFile(d + "/t", flipped(u));
  Words a = {"-T", d}; if (file) a.insert(a.end(), {"-t", d + "/t"}); Result r = tool(c, "thot_sort_ttable", a, file ? "" : flipped(u)); Rows got = parse(c, r.out), want = parse(c, flipped(t)); c.step(); c.state(flipped(t)); std::set<std::string> done; bool good = sameSet(got, want);
  for (size_t i = 1; i < got.size(); ++i) { if (got[i].s != got[i - 1].s) { if (!done.insert(got[i - 1].s).second) good = false; if (done.count(got[i].s)) good = false; if (words(got[i].s).size() < words(got[i - 1].s).size()) good = false; } else if (got[i].ct > got[i - 1].ct) good = false; }
  c.checkf(good, [&] { return "thot_sort_ttable of {" + flipped(u) + "} gives {" + r.out + "}" + r.err; });
  Result f = tool(c, "thot_flip_phr", file ? Words{d + "/t"} : Words{}, file ? "" : flipped(u)); c.checkf(sameList(parse(c, f.out), u), [&] { return "thot_flip_phr of {" + flipped(u) + "} gives {" + f.out + "}"; });
}
static const std::vector<std::string> tests = {"", "1", "1.0", "a b", "b a", "a 1 !", "1 a b 1.0", "a !"};
static void filterBody(Ctx& c) {
  int values = c.choose(2); unsigned mask = c.choose(256); if (!thorough() && __builtin_popcount(mask) > 3 && mask != 255) throw Skip(); Words test; for (int n = c.choose(3); n > 0; --n) test.push_back(c.pick(tests)); Rows t = table(mask, values), want; std::string d = c.scratch(), text; for (auto& x : test) text += x + "\n"; writeFile(d + "/t", lines(t)); writeFile(d + "/c", text);
  std::set<std::string> in; for (auto& x : test) { Words w = words(x); for (size_t i = 0; i < w.size(); ++i) for (size_t j = i; j < w.size(); ++j) in.insert(joined(Words(w.begin() + i, w.begin() + j + 1))); }
  for (auto& r : t) if (in.count(r.t)) want.push_back(r); bool file = (mask + test.size()) % 2; Words a; if (file) a.push_back(d + "/t"); a.push_back(d + "/c"); Result r = tool(c, "thot_filter_ttable_given_corpus", a, file ? "" : lines(t)); c.step(); c.state(lines(t) + text);
  c.checkf(r.ok() && sameList(parse(c, r.out), want), [&] { return "thot_filter_ttable_given_corpus of {" + lines(t) + "} for {" + text + "} gives {" + r.out + "}" + r.err; });
  if (test.size() == 2 || values) return;
  // the whole filter: the same as selecting and keeping the best ones afterwards
  for (int n : {1, 2}) {
    Words b = {"-c", d + "/c", "-n", std::to_string(n)}; if (file) b.insert(b.end(), {"-t", d + "/t"}); Result f = tool(c, "thot_filter_ttable", b, file ? "" : lines(t)); std::map<std::string, double> total, kept; for (auto& x : want) total[x.t] += x.ct; std::map<std::string, Rows> by; for (auto& x : want) by[x.t].push_back(x); Rows best;
    for (auto& x : by) { std::sort(x.second.begin(), x.second.end(), [](const Row& a, const Row& b) { return a.ct > b.ct; }); double rest = 0; for (size_t i = 0; i < x.second.size(); ++i) if ((int)i < n) best.push_back(x.second[i]); else rest += x.second[i].ct; if (rest > 0) best.push_back({"<UNUSED_WORD>", x.first, 0, rest}); }
    c.checkf(f.ok() && sameSet(parse(c, f.out), best), [&] { return "thot_filter_ttable " + join(b) + " of {" + lines(t) + "} for {" + text + "} gives {" + f.out + "}" + f.err + ", expected {" + lines(best) + "}"; });
  }
}
static void mergeBody(Ctx& c) {
  int values = c.choose(2); unsigned m[2]; for (auto& x : m) x = c.choose(thorough() ? 64 : 32); bool number = c.flip(); std::map<std::pair<std::string, std::string>, double> n; std::map<std::string, double> total; Words l;
  for (int k = 0; k < 2; ++k) { std::set<std::string> seen; for (auto& r : table(m[k], values + 2 * k)) { n[{r.s, r.t}] += r.ct; if (seen.insert(r.s).second) total[r.s] += r.cs; l.push_back(line(r) + (number ? " " + std::to_string(k + 1) : k ? " 1.0" : " 1")); } }
  std::sort(l.begin(), l.end()); std::string in; for (auto& x : l) in += x + "\n"; Rows want; for (auto& x : n) want.push_back({x.first.first, x.first.second, total[x.first.first], x.second}); std::string d = c.scratch(); writeFile(d + "/t", in); Result r = tool(c, "thot_merge_counts", m[0] % 2 ? Words{d + "/t"} : Words{}, m[0] % 2 ? "" : in); c.step(); c.state(in);
  Rows got = parse(c, r.out); c.checkf(r.ok() && sameSet(got, want), [&] { return "thot_merge_counts of {" + in + "} gives {" + r.out + "}, expected {" + lines(want) + "}"; });
  int cut = m[1] % 4; Result k = tool(c, "thot_cut_ttable", {"-c", std::to_string(cut)}, r.out); Rows left; for (auto& x : got) if (x.cs > cut) left.push_back(x); c.checkf(sameList(parse(c, k.out), left), [&] { return str("thot_cut_ttable -c ", cut, " of {", r.out, "} gives {", k.out, "}"); });
}
// ---- the same table in text form and in a database --------------------------------------------------------
static std::map<std::string, double> options(BasePhraseModel& m, const Words& w, bool inverse) {
  NbestTableNode<PhraseTransTableNodeData> n; if (inverse) m.strGetNbestTransFor_t_(w, n); else m.strGetNbestTransFor_s_(w, n); std::map<std::string, double> o;
  for (auto i = n.begin(); i != n.end(); ++i) { std::string s; for (auto x : i->second) s += (s.empty() ? "" : " ") + (inverse ? m.wordIndexToSrcString(x) : m.wordIndexToTrgString(x)); o[s] = i->first; } return o;
}
static void databaseBody(Ctx& c, bool leveldb) {
  // the LevelDB table keeps whole counts
  int values = leveldb ? 2 * c.choose(2) : c.choose(thorough() ? 4 : 2); unsigned mask = c.choose(256); if (!thorough() && __builtin_popcount(mask) > 4 && mask != 255) throw Skip(); if (!mask) throw Skip(); Rows t = table(mask, values); std::string d = freshDir(c), p = d + "/m", q = d + "/d"; writeFile(p + ".ttable", lines(t)); c.state(lines(t));
  bool again = mask % 2; std::string conv = leveldb ? "thot_gen_leveldb_ttable" : "thot_gen_fbdb_ttable"; for (int i = 0; i <= again; ++i) { Result r = tool(c, conv, {"-p", p, "-o", q}); c.step(); c.checkf(r.ok(), [&] { return conv + " failed: " + r.err; }); }  // converting again replaces the result
  WbaIncrPhraseModel a; LevelDbPhraseModel l; FastBdbPhraseModel f; BasePhraseModel& b = leveldb ? (BasePhraseModel&)l : (BasePhraseModel&)f; c.check(a.load(p.c_str()) == THOT_OK && b.load(q.c_str()) == THOT_OK, "the converted table cannot be loaded");
  for (auto& s : {"x", "y", "1", "1.0", "x y", "1 x", "a", "zz"}) { Words w = words(s); auto o1 = options(a, w, false), o2 = options(b, w, false); (void)o1; (void)o2;
    for (auto& u : {"1", "1.0", "a b", "a !", "a", "zz"}) {
      Words v = words(u); double p1 = a.strPt_s_(w, v), p2 = b.strPt_s_(w, v), r1 = a.strLogps_t_(w, v), r2 = b.strLogps_t_(w, v);
      bool known = std::any_of(t.begin(), t.end(), [&](const Row& r) { return r.s == s && r.t == u; }); if (known) c.checkf(eq(p1, p2) && mc::close(r1, r2, 1e-5, 1e-5), [&] { return str(conv, " of {", lines(t), "}: p(", u, "|", s, ") is ", p1, " in the text table and ", p2, " in the database, the inverse logarithms ", r1, " and ", r2); });
      else c.checkf((p1 < 1e-6) == (p2 < 1e-6) && (r1 < -12) == (r2 < -12), [&] { return str(conv, " of {", lines(t), "}: the unknown pair ", s, "|", u, " has ", p1, " in the text table and ", p2, " in the database, the inverse logarithms ", r1, " and ", r2); });
    } }
  for (auto& u : {"1", "1.0", "a b", "a !", "a", "zz"}) { auto o1 = options(a, words(u), true), o2 = options(b, words(u), true); bool good = o1.size() == o2.size(); for (auto& x : o1) if (!o2.count(x.first) || !mc::close(x.second, o2[x.first], 1e-5, 1e-5)) good = false;
    c.checkf(good, [&] { std::string m = conv + " of {" + lines(t) + "}: translations of '" + u + "' in the text table"; for (auto& x : o1) m += " " + x.first + "=" + num(x.second); m += ", in the database"; for (auto& x : o2) m += " " + x.first + "=" + num(x.second); return m; }); }
}
int main(int argc, char** argv) {
  if (!getenv("MC_STDERR")) freopen("/dev/null", "w", stderr);
  return mc::run(argc, argv, "P25", {
    {"estimate", "corpora of at most 2 (thorough 3) of 7 aligned sentence pairs, 6 sets of options", genBody, 2},
    {"map-reduce", "corpora of up to 3 pairs (quick: 3 of only 3 kinds), each a chunk of its own, 3 sets of options, 3 cut-offs", mrBody, 3, 60},
    {"merge", "two chunks with any subset of 5 (thorough 6) entries, 2 sets of counts, two ways of naming chunks; cut-offs", mergeBody, 3},
    {"nbest", "tables of any (quick: at most 5) of 8 entries, 2 (thorough 4) sets of counts, the best 1 to 3 with and without remainder", nbestBody, 3},
    {"sort", "tables of any (quick: at most 5) of 8 entries, 4 sets of counts, two orders; flipping", sortBody, 2},
    {"filter", "tables of any (quick: at most 3, or all) of 8 entries, test corpora of at most 2 of 8 sentences", filterBody, 3},
    {"leveldb", "tables of any (quick: at most 4, or all) of 8 entries, 2 (thorough 4) sets of counts, converted once or twice", [](Ctx& c) { databaseBody(c, true); }, 2, 60},
    {"fbdb", "the same for the Berkeley database", [](Ctx& c) { databaseBody(c, false); }, 2, 60},
  });
}
