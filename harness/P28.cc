// P28: n-gram counts of texts
// SOURCES: incr_models/IncrJelMerNgramLM.cc incr_models/IncrNgramLM.cc incr_models/lm_ienc.cc nlp_common/AwkInputStream.cc nlp_common/MathFuncs.cc nlp_common/ModelDescriptorUtils.cc nlp_common/SingleWordVocab.cc nlp_common/StrProcUtils.cc nlp_common/getline.c nlp_common/getdelim.c nlp_common/mem_alloc_utils.cc nlp_common/ctimer.c nlp_common/options.cc downhill_simplex/step_by_step_dhs.c
// LIBS: -lleveldb -lgmp -ldb_cxx -lz
// PROGRAM: thot_ilm_perp incr_models/thot_ilm_perp.cc incr_models/IncrJelMerNgramLM.cc incr_models/IncrNgramLM.cc incr_models/lm_ienc.cc nlp_common/AwkInputStream.cc nlp_common/MathFuncs.cc nlp_common/ModelDescriptorUtils.cc nlp_common/SingleWordVocab.cc nlp_common/StrProcUtils.cc nlp_common/getline.c nlp_common/getdelim.c nlp_common/mem_alloc_utils.cc nlp_common/ctimer.c nlp_common/options.cc downhill_simplex/step_by_step_dhs.c
// SCRIPTS: utils/nlp_common/thot_general_lib.sh utils/incr_models/thot_get_ngram_counts.sh utils/incr_models/thot_get_ngram_counts_mr.sh utils/incr_models/thot_merge_ngram_counts.sh utils/incr_models/thot_repetition_rate.sh utils/nlp_common/thot_corpus_length.sh
// SCRIPTS: utils/incr_models/thot_corpus_represent.sh utils/nlp_common/thot_shuffle.sh
#include "prog.h"
#include "IncrJelMerNgramLM.h"
#include <algorithm>
#include <cmath>
#include <map>
#include <set>
using namespace mc;
static bool thorough() { const char* t = getenv("VERIF_TIER"); return t && std::string(t) == "thorough"; }
typedef std::vector<std::string> Words;
typedef std::map<std::string, std::pair<long, long>> Counts;   // n-gram: count of its history, own count
static Words words(const std::string& s) { std::istringstream q(s); Words w; std::string x; while (q >> x) w.push_back(x); return w; }
static std::string joined(const Words& w, const std::string& sep = " ") { std::string s; bool first = true; for (auto& x : w) { if (!first) s += sep; first = false; s += x; } return s; }
static Words linesOf(const std::string& s) { std::istringstream q(s); Words w; std::string x; while (std::getline(q, x)) w.push_back(x); return w; }
static std::string text(const Words& l) { std::string s; for (auto& x : l) s += x + "\n"; return s; }
static std::string tail(const std::string& s) { return s.size() > 400 ? s.substr(s.size() - 400) : s; }
static Result tool(Ctx& c, const std::string& name, Words args, const std::string& in = "") { args.insert(args.begin(), bin(name)); Result r = runCmd(c, args, in, 240); c.checkf(r.ok(), [&] { return name + " failed: " + tail(r.out + r.err); }); return r; }
static std::string show(const Counts& m) { std::string s; for (auto& x : m) s += "[" + x.first + "]=" + str(x.second.first) + "/" + str(x.second.second) + " "; return s; }
static Counts counted(const std::vector<Words>& l, int n) {
  std::map<std::string, long> f; long all = 0; for (auto& w0 : l) { Words w = w0; w.insert(w.begin(), "<s>"); w.push_back("</s>"); all += w.size(); for (size_t i = 0; i < w.size(); ++i) for (int k = 1; k <= n && i + k <= w.size(); ++k) ++f[joined(Words(w.begin() + i, w.begin() + i + k))]; }
  Counts m; for (auto& x : f) { Words w = words(x.first); w.pop_back(); m[x.first] = {w.empty() ? all : f[joined(w)], x.second}; } return m;
}
static Counts table(Ctx& c, const std::string& out) { Counts m; for (auto& l : linesOf(out)) { Words w = words(l); c.checkf(w.size() >= 3, [&] { return "not a line of n-gram counts: '" + l + "'"; }); long b = atol(w.back().c_str()); w.pop_back(); long a = atol(w.back().c_str()); w.pop_back(); c.checkf(!m.count(joined(w)), [&] { return "two lines for '" + joined(w) + "'"; }); m[joined(w)] = {a, b}; } return m; }
static void same(Ctx& c, const Counts& got, const Counts& exp, const std::string& what) { c.checkf(got == exp, [&] { return what + ": " + show(got) + ", not " + show(exp); }); }
static const Words pool = {"a b", "a", "1 1.0 1", "", "b a b a", "a b c a", "1.0 1"};
static Words corpus(Ctx& c, int max) { int n = 1 + c.choose(max); Words l; for (int i = 0; i < n; ++i) l.push_back(c.pick(pool)); return l; }
static std::vector<Words> split(const Words& l, bool unk) { std::vector<Words> r; std::set<std::string> seen; for (auto& x : l) { r.push_back(words(x)); if (unk) for (auto& w : r.back()) if (seen.insert(w).second) w = "<unk>"; } return r; }
static std::string what(const Words& l, int n, bool unk) { return "the counts of '" + joined(l, "|") + "', order " + str(n) + (unk ? " with unknown words" : ""); }
static void direct(Ctx& c) {
  Words l = corpus(c, thorough() ? 4 : 3); int n = 1 + c.choose(4); bool unk = c.flip(); std::string d = freshDir(c) + "/"; writeFile(d + "c", text(l)); Words a = {"-c", d + "c", "-n", str(n)}; if (unk) a.push_back("-unk");
  Result r = tool(c, "thot_get_ngram_counts", a); c.step(); c.state(hashStr(what(l, n, unk))); same(c, table(c, r.out), counted(split(l, unk), n), what(l, n, unk));
}
static void mapReduce(Ctx& c) {
  Words l = corpus(c, 3); int n = thorough() ? 1 + c.choose(4) : c.pick(std::vector<int>{1, 2, 4}), f = 1 + c.choose(2); bool unk = c.flip(); std::string d = freshDir(c) + "/"; writeFile(d + "c", text(l)); std::filesystem::create_directory(d + "tmp"); Words a = {"-c", d + "c", "-n", str(n), "-f", str(f), "-tdir", d + "tmp"}; if (unk) a.push_back("-unk");
  Result r = tool(c, "thot_get_ngram_counts_mr", a); c.step(); c.state(hashStr(what(l, n, unk))); same(c, table(c, r.out), counted(split(l, unk), n), what(l, n, unk) + " in chunks of " + str(f)); c.check(std::filesystem::is_empty(d + "tmp"), "temporary files remain");
}
// the merged counts are those of the longer text; n-grams and chunks in any number
static void merge(Ctx& c) {
  int n = 1 + c.choose(3); std::vector<Words> all; std::vector<std::string> sorted; int chunks = 2 + c.choose(thorough() ? 3 : 2); for (int k = 1; k <= chunks; ++k) { std::vector<Words> part; int m = c.choose(pool.size() + 1); part.push_back(words(pool[m % pool.size()])); if (m == (int)pool.size()) part.push_back({"z"}); for (auto& x : part) all.push_back(x); for (auto& x : counted(part, n)) sorted.push_back(str(words(x.first).size()) + " " + x.first + " " + str(x.second.first) + " " + str(x.second.second) + " " + str(k)); }
  std::sort(sorted.begin(), sorted.end()); std::string in; for (auto& x : sorted) in += x.substr(2) + "\n"; Result r = tool(c, "thot_merge_ngram_counts", {}, in); c.step(); c.state(hashStr(in)); same(c, table(c, r.out), counted(all, n), "merging '" + in + "'");
}
// ---- language models from counts ------------------------------------------------------------------------
static std::string weights(int order) { std::string w = str(order, " 1 0"); for (int i = 0; i < order; ++i) w += str(" ", 0.7 - 0.1 * i); return w + "\n"; }
static std::vector<Words> sentences(const Words& p, size_t n) { std::vector<Words> l = {{}}; for (size_t i = 0; i < l.size(); ++i) if (l[i].size() < n) for (auto& x : p) { Words y = l[i]; y.push_back(x); l.push_back(y); } return l; }
static void load(Ctx& c) {
  Words l = corpus(c, thorough() ? 4 : 3); int n = 1 + c.choose(3); std::string d = freshDir(c) + "/"; writeFile(d + "c", text(l)); Result r = tool(c, "thot_get_ngram_counts", {"-c", d + "c", "-n", str(n)}); writeFile(d + "lm", r.out); writeFile(d + "lm.weights", weights(n)); c.state(hashStr(joined(l, "#") + str(n)));
  IncrJelMerNgramLM a, b; c.check(a.load((d + "lm").c_str()) == THOT_OK, "a model of n-gram counts is not loaded"); c.check(b.loadWeights((d + "lm").c_str()) == THOT_OK, "weights are not loaded"); b.setNgramOrder(n); for (auto& x : l) b.trainSentence(words(x), Count(1));
  c.checkf((int)a.getNgramOrder() <= n, [&] { return "the loaded model has order " + str(a.getNgramOrder()); }); a.setNgramOrder(n);
  for (auto& s : sentences({"a", "b", "1", "1.0"}, 3)) { double x = (double)a.getSentenceLog10ProbStr(s), y = (double)b.getSentenceLog10ProbStr(s); c.step(); c.checkf(close(x, y, 1e-5, 1e-5), [&] { return what(l, n, false) + ": loaded they give '" + joined(s) + "' the log-probability " + str(x) + ", the model trained with the text gives " + str(y); }); }
}
static void perplexity(Ctx& c) {
  Words l = corpus(c, 2); int n = 1 + c.choose(3); std::string d = freshDir(c) + "/"; writeFile(d + "c", text(l)); Result r = tool(c, "thot_get_ngram_counts", {"-c", d + "c", "-n", str(n)}); writeFile(d + "lm", r.out); writeFile(d + "lm.weights", weights(n)); IncrJelMerNgramLM m; m.load((d + "lm").c_str());
  Words t; int k = 1 + c.choose(2); for (int i = 0; i < k; ++i) t.push_back(c.pick(Words{"a", "b q a", "1", ""})); writeFile(d + "t", text(t)); double sum = 0; size_t nw = 0; if (std::all_of(t.begin(), t.end(), [](const std::string& x) { return x.empty(); })) throw Skip(); k = 0; m.setNgramOrder(n); for (auto& x : t) if (!x.empty()) { ++k; sum += (double)m.getSentenceLog10ProbStr(words(x)); nw += words(x).size(); }
  Result p = tool(c, "thot_ilm_perp", {"-c", d + "t", "-lm", d + "lm", "-n", str(n)}); c.step(); c.state(hashStr(joined(l, "#") + joined(t, "#") + str(n))); std::map<std::string, double> v; for (auto& x : linesOf(p.out)) { size_t i = x.find(':'); if (i != std::string::npos) v[x.substr(0, i)] = atof(x.c_str() + i + 1); }
  auto is = [&](const std::string& key, double e) { c.checkf(v.count(key) && close(v[key], e, 1e-4, 1e-4), [&] { return "for '" + joined(t, "|") + "' thot_ilm_perp prints\n" + p.out + "instead of " + key + ": " + str(e); }); };
  is("* Number of sentences", k); is("* Number of words", nw); is("* Total log10 prob", sum); is("* Perplexity", std::pow(10, -sum / (nw + k)));
}
// ---- statistics -----------------------------------------------------------------------------------------
static const Words longer = {"a b a b a b a b", "a b c d a b c d", "a a a a a", "c d e f g", "1 1.0 1 1.0 1 1.0", "a b c d e"};
static std::string field(const std::string& out, const std::string& start) { for (auto& l : linesOf(out)) if (l.compare(0, start.size(), start) == 0) return l.substr(start.size()); return ""; }
static Counts ofOrder(const Counts& m, size_t n) { Counts r; for (auto& x : m) if (words(x.first).size() == n) r.insert(x); return r; }
static void repetition(Ctx& c) {
  auto gen = [&](int max) { int n = 1 + c.choose(max); Words l; for (int i = 0; i < n; ++i) l.push_back(c.pick(longer)); return l; }; Words l = gen(2), t; bool train = c.flip(); std::string d = freshDir(c) + "/"; writeFile(d + "c", text(l)); Words a = {"-c", d + "c"}; if (train) { t = gen(thorough() ? 2 : 1); writeFile(d + "t", text(t)); a.insert(a.end(), {"-t", d + "t"}); }
  Result r = tool(c, "thot_repetition_rate", a); c.step(); c.state(hashStr(joined(l, "#") + "|" + joined(t, "#"))); Counts m = counted(split(l, false), 4), k = counted(split(t, false), 4); double prod = 1, unf = 1, rprod = 1; auto bad = [&] { return "for '" + joined(l, "|") + "' and '" + joined(t, "|") + "' thot_repetition_rate prints\n" + r.out; };
  for (size_t n = 1; n <= 4; ++n) { double dist = 0, sing = 0, total = 0, nt = 0, nd = 0, ns = 0; for (auto& x : ofOrder(m, n)) { ++dist; sing += x.second.second == 1; total += x.second.second; if (!k.count(x.first)) { nt += x.second.second; ++nd; ns += x.second.second == 1; } } prod *= (dist - sing) / dist; unf *= nt / total; rprod *= nd ? (nd - ns) / nd : 0; }
  auto near = [&](const std::string& s, double e) { return !s.empty() && std::fabs(atof(s.c_str()) - e) < 2e-3; }; c.checkf(near(field(r.out, "* RR(" + d + "c)= "), std::pow(prod, 0.25)), [&] { return bad() + "instead of a repetition rate of " + str(std::pow(prod, 0.25)); });
  if (train) { std::string both = d + "c," + d + "t)= "; c.checkf(near(field(r.out, "* UNF(" + both), std::pow(unf, 0.25)), [&] { return bad() + "instead of an unseen fraction of " + str(std::pow(unf, 0.25)); }); c.checkf(near(field(r.out, "* RRR(" + both), std::pow(rprod, 0.25)), [&] { return bad() + "instead of a restricted repetition rate of " + str(std::pow(rprod, 0.25)); });
    double four = 0, seen = 0; for (auto& x : ofOrder(m, 4)) { four += x.second.second; if (!k.count(x.first)) seen += x.second.second; } std::string f = field(r.out, "* UNF(" + both); size_t i = f.rfind('/'); c.checkf(i != std::string::npos && near(f.substr(i + 1), seen / four), [&] { return bad() + "instead of an unseen fraction of " + str(seen / four) + " for n-grams of order 4"; }); }
}
// the samples that are compared have the asked sizes; a text whose n-grams are all in the other one has no unseen ones
static void represent(Ctx& c) {
  Words l, s; int n = 1 + c.choose(thorough() ? 4 : 3); std::string line = c.pick(longer); for (int i = 0; i < n + 2; ++i) l.push_back(line); s.push_back(c.pick(longer)); if (n > 1) s.push_back(s[0]); bool byWords = c.flip(), add = c.flip(); std::string d = freshDir(c) + "/"; writeFile(d + "p", text(l)); writeFile(d + "s", text(s)); Words a = {"-p", d + "p", "-s", d + "s"}; if (byWords) a.push_back("-w"); if (add) { writeFile(d + "a", text(l)); a.insert(a.end(), {"-a", d + "a"}); }
  size_t per = words(line).size(), sw = s.size() * words(s[0]).size(); size_t num = 0, sum = 0; if (byWords) { for (size_t i = 0; i < l.size() && !num; ++i) { if (sum > sw) num = i + 1; sum += per; } if (!num) num = l.size(); } else num = s.size(); if (num >= l.size()) throw Skip();
  Result r = tool(c, "thot_corpus_represent", a); c.step(); c.state(hashStr(joined(l, "#") + "|" + joined(s, "#") + str(byWords, add))); Words got; for (auto& x : linesOf(r.out)) { size_t i = x.find("Length in words"), j = x.find("Unseen"); if (i != std::string::npos || j != std::string::npos) got.push_back(joined(words(x.substr(x.find(':') + 1)))); }
  auto bad = [&] { return "for a population of '" + joined(l, "|") + "' and a sample '" + joined(s, "|") + "'" + (byWords ? " (by words)" : "") + " thot_corpus_represent prints\n" + r.out; }; c.checkf(got.size() == (add ? 6u : 4u) && got[0] == str(sw) && got[2] == str(num * per) && (!add || got[4] == str(num * per)), bad);
  Counts m = counted(split(s, false), 4), k = counted(split({line}, false), 4); double unf = 1; for (size_t o = 1; o <= 4; ++o) { double t = 0, u = 0; for (auto& x : ofOrder(m, o)) { t += x.second.second; if (!k.count(x.first)) u += x.second.second; } unf *= u / t; } c.checkf(std::fabs(atof(got[1].c_str()) - std::pow(unf, 0.25)) < 2e-3 && atof(got[3].c_str()) == 0 && !got[3].empty() && (!add || atof(got[5].c_str()) == 0), bad);
}
static void lengths(Ctx& c) {
  Words l = corpus(c, thorough() ? 5 : 4); std::string d = freshDir(c) + "/"; writeFile(d + "c", text(l)); Result r = tool(c, "thot_corpus_length", {"-c", d + "c"}); std::map<int, int> f; int sum = 0; for (auto& x : l) { ++f[words(x).size()]; sum += words(x).size(); } auto bad = [&] { return "for '" + joined(l, "|") + "' thot_corpus_length prints\n" + r.out; }; c.step(); c.state(hashStr(joined(l, "#")));
  int seen = 0, cum = 0; for (auto& x : linesOf(r.out)) { Words w = words(x); if (w.size() == 5 && isdigit((unsigned char)w[0][0])) { int k = atoi(w[0].c_str()); cum += f[k]; ++seen; c.checkf(atoi(w[1].c_str()) == f[k] && atoi(w[3].c_str()) == cum && std::fabs(atof(w[2].c_str()) - 100.0 * f[k] / l.size()) < 0.06 && std::fabs(atof(w[4].c_str()) - 100.0 * cum / l.size()) < 0.06, bad); } }
  c.checkf(seen == f.rbegin()->first + 1 && cum == (int)l.size() && atoi(field(r.out, "# Total: ").c_str()) == (int)l.size() && std::fabs(atof(field(r.out, "# Mean length: ").c_str()) - double(sum) / l.size()) < 1e-5, bad);
}
int main(int argc, char** argv) {
  if (!getenv("MC_STDERR")) { FILE* e = freopen("/dev/null", "w", stderr); (void)e; }
  return mc::run(argc, argv, "P28", {
    {"direct", "every text of up to 3 of 7 lines (thorough: 4), orders 1 to 4, with and without unknown words", direct, 3, 60},
    {"map-reduce", "every text of up to 3 of 7 lines, orders 1, 2 and 4 (thorough: 1 to 4), chunks of 1 and 2 lines, with and without unknown words", mapReduce, 3, 60},
    {"merge", "every 2 or 3 (thorough: 4) of 8 chunks, orders 1 to 3", merge, 3, 60},
    {"load", "every text of up to 3 of 7 lines (thorough: 4), orders 1 to 3, all sentences of up to 3 of 4 words", load, 3, 60},
    {"perplexity", "every text of up to 2 of 7 lines, orders 1 to 3, every test text of up to 2 of 4 lines", perplexity, 3, 60},
    {"repetition", "every text of up to 2 of 6 lines, alone and with every training text of 1 line (thorough: 2)", repetition, 3, 60},
    {"represent", "every population of 3 to 5 equal lines of 6 (thorough: 6), every sample of 1 or 2 of them, by lines and by words, with and without an additional sample", represent, 3, 60},
    {"lengths", "every text of up to 4 of 7 lines (thorough: 5)", lengths, 3, 60},
  });
}
