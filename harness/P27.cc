// P27: detokenizing and recasing
// SOURCES:
// SCRIPTS: utils/smt_preproc/thot_smt_preproc.py utils/smt_preproc/thot_tokenize.py utils/smt_preproc/thot_train_detok_model.py utils/smt_preproc/thot_detok_translator.py utils/smt_preproc/thot_detokenize.sh
// SCRIPTS: utils/smt_preproc/thot_train_rec_tm.py utils/smt_preproc/thot_train_rec_lm.py utils/smt_preproc/thot_train_rec_lm_mr.sh utils/smt_preproc/thot_rec_translator.py utils/smt_preproc/thot_recase.sh
#include "prog.h"
#include <algorithm>
#include <cmath>
#include <map>
#include <set>
using namespace mc;
static bool thorough() { const char* t = getenv("VERIF_TIER"); return t && std::string(t) == "thorough"; }
typedef std::vector<std::string> Words;
typedef std::map<std::string, int> Counts;
static Words words(const std::string& s) { std::istringstream q(s); Words w; std::string x; while (q >> x) w.push_back(x); return w; }
static std::string joined(const Words& w, const std::string& sep = " ") { std::string s; bool first = true; for (auto& x : w) { if (!first) s += sep; first = false; s += x; } return s; }
static Words linesOf(const std::string& s) { std::istringstream q(s); Words w; std::string x; while (std::getline(q, x)) w.push_back(x); return w; }
static std::string text(const Words& l) { std::string s; for (auto& x : l) s += x + "\n"; return s; }
static std::string lower(std::string s) { for (auto& x : s) x = tolower(x); return s; }
static std::string show(const Counts& m) { std::string s; for (auto& x : m) s += "[" + x.first + "]=" + str(x.second) + " "; return s; }
static std::string tail(const std::string& s) { return s.size() > 400 ? s.substr(s.size() - 400) : s; }
static Result tool(Ctx& c, const std::string& name, Words args, const std::string& in = "") { args.insert(args.begin(), bin(name)); Result r = runCmd(c, args, in, 240); c.checkf(r.ok(), [&] { return name + " failed: " + tail(r.err); }); return r; }
// ---- models ---------------------------------------------------------------------------------------------
static Counts table(Ctx& c, const std::string& file) {   // lines that end in a count; no line twice
  Counts m; for (auto& l : linesOf(readFile(file))) { Words w = words(l); c.checkf(w.size() >= 2, [&] { return "not a line of a model: '" + l + "'"; }); std::string n = w.back(); w.pop_back(); c.checkf(!m.count(joined(w)), [&] { return "a line with '" + joined(w) + "' is repeated"; }); m[joined(w)] = atoi(n.c_str()); }
  return m;
}
static void addNgrams(Counts& m, Words w, int n) { w.insert(w.begin(), "<bos>"); w.push_back("<eos>"); for (size_t i = 0; i < w.size(); ++i) { std::string s; for (size_t j = i; j < w.size() && j < i + n; ++j) { s += (j > i ? " " : "") + w[j]; if (s != "<bos>") ++m[s]; } } }
static std::string category(const std::string& w) {   // numbers are grouped, so are long words
  bool all = true, d = false; size_t dots = 0; for (unsigned char x : w) { if (isdigit(x)) d = true; else { if (x == '.') ++dots; else dots = 9; all = false; } }
  if (all) return w.size() == 1 ? "<digit>" : "<number>"; if (d && dots == 1) return "<number>"; if (d && isalnum((unsigned char)w[0])) return "<alfanum>"; return w.size() > 5 ? "<common_word>" : w;
}
static bool isCategory(const std::string& w) { return w == "<digit>" || w == "<number>" || w == "<alfanum>" || w == "<common_word>"; }
typedef std::vector<Words> Tokenized;   // the tokens of every word
static void addDetok(Counts& tm, Counts& lm, const Tokenized& t, int n) {
  Words raw; for (auto& w : t) { Words k; bool ok = true; for (auto& x : w) { k.push_back(category(x)); if (k.size() > 1 && isCategory(k[k.size() - 2]) && isCategory(k.back())) ok = false; } raw.push_back(joined(k, "")); if (ok) ++tm[joined(k) + " ||| " + raw.back()]; } if (!raw.empty()) addNgrams(lm, raw, n);
}
struct Scorer {
  std::map<std::string, std::map<std::string, int>> opts; Counts lm; int n = 1; double zero = 0, ip, w[4];
  Scorer(const Counts& tm, const Counts& l, const double* weights, double interp) : lm(l), ip(interp > 0.99 ? 0.99 : interp < 0 ? 0 : interp) {
    for (auto& x : tm) { size_t p = x.first.find(" ||| "); opts[x.first.substr(0, p)][x.first.substr(p + 5)] += x.second; }
    for (auto& x : lm) { int k = words(x.first).size(); n = std::max(n, k); if (k == 1) zero += x.second; } for (int i = 0; i < 4; ++i) w[i] = weights[i];
  }
  double count(const Words& g) const { if (g.empty()) return zero; auto i = lm.find(joined(g)); return i == lm.end() ? 0 : i->second; }
  double prob(const Words& g) const { if (g.empty()) return 1 / zero; double h = count(Words(g.begin(), g.end() - 1)); return ip * (h ? count(g) / h : 0) + (1 - ip) * prob(Words(g.begin() + 1, g.end())); }
  double word(const Words& before, const std::string& x) const { Words h = before; h.insert(h.begin(), "<bos>"); if ((int)h.size() > n - 1) h.erase(h.begin(), h.end() - (n - 1)); h.push_back(x); return std::log(prob(h)); }
  double step(const std::string& src, const std::string& opt, const Words& before, bool last) const {   // one phrase of one (possibly joined) word
    double tm = 1e-6; auto i = opts.find(src); if (i != opts.end()) { double s = 0; for (auto& x : i->second) s += x.second; tm = (1 - 1e-6) * i->second.at(opt) / s; }
    double r = w[0] * std::log(tm) - w[1] - w[2] + w[3] * word(before, opt); if (last) { Words b = before; b.push_back(opt); r += w[3] * word(b, "<eos>"); } return r;
  }
  Words options(const Words& t, size_t i, size_t j) const { std::string s = joined(Words(t.begin() + i, t.begin() + j)); Words o; auto x = opts.find(s); if (x != opts.end()) for (auto& y : x->second) o.push_back(y.first); else if (j == i + 1) o.push_back(s); return o; }
  // best score of every segmentation of the tokens
  void all(const Words& t, size_t i, std::vector<size_t>& cut, Words& before, double score, std::map<std::vector<size_t>, double>& best) const {
    if (i == t.size()) { auto x = best.find(cut); if (x == best.end() || x->second < score) best[cut] = score; return; }
    for (size_t j = i + 1; j <= t.size() && j <= i + 7; ++j) for (auto& o : options(t, i, j)) { double s = step(joined(Words(t.begin() + i, t.begin() + j)), o, before, j == t.size()); cut.push_back(j); before.push_back(o); all(t, j, cut, before, score + s, best); cut.pop_back(); before.pop_back(); }
  }
};
static void checkDetok(Ctx& c, const Scorer& m, const Words& in, const Words& out) {
  c.checkf(in.size() == out.size(), [&] { return str(out.size()) + " lines for " + str(in.size()); });
  for (size_t i = 0; i < in.size(); ++i) {
    Words t = words(in[i]), o = words(out[i]), k; for (auto& x : t) k.push_back(category(x)); auto bad = [&](const std::string& why) { return "'" + in[i] + "' is detokenized as '" + out[i] + "': " + why; };
    c.checkf(joined(t, "") == joined(o, "") && out[i] == joined(o), [&] { return bad("the text is changed"); }); if (t.empty()) continue;
    std::vector<size_t> cut; size_t p = 0; for (auto& x : o) { std::string s; while (s.size() < x.size()) s += t[p++]; c.checkf(s == x, [&] { return bad("a token is split"); }); cut.push_back(p); }
    std::map<std::vector<size_t>, double> best; std::vector<size_t> cc; Words b; m.all(k, 0, cc, b, 0, best); double top = -1e300; for (auto& x : best) top = std::max(top, x.second);
    c.checkf(best.count(cut), [&] { return bad("it joins tokens the model does not"); }); c.checkf(best[cut] >= top - 1e-9, [&] { return bad("its score is " + str(best[cut]) + ", the best is " + str(top)); }); c.state(hashStr(in[i] + "#" + str(top)));
  }
  c.step(in.size());
}
static void bestRecase(const Scorer& m, const Words& t, size_t i, Words& before, double score, double& top) { if (i == t.size()) { top = std::max(top, score); return; } for (auto& o : m.options(t, i, i + 1)) { double s = m.step(t[i], o, before, i + 1 == t.size()); before.push_back(o); bestRecase(m, t, i + 1, before, score + s, top); before.pop_back(); } }
static void checkRecase(Ctx& c, const Scorer& m, const Words& in, const Words& out) {
  c.checkf(in.size() == out.size(), [&] { return str(out.size()) + " lines for " + str(in.size()); });
  for (size_t i = 0; i < in.size(); ++i) {
    Words t = words(in[i]), o = words(out[i]); auto bad = [&](const std::string& why) { return "'" + in[i] + "' is recased as '" + out[i] + "': " + why; }; c.checkf(o.size() == t.size() && lower(out[i]) == joined(t), [&] { return bad("the text is changed"); }); if (t.empty()) continue;
    double s = 0, top = -1e300; Words b; for (size_t k = 0; k < t.size(); ++k) { Words x = m.options(t, k, k + 1); c.checkf(std::count(x.begin(), x.end(), o[k]), [&] { return bad("'" + o[k] + "' is no option of '" + t[k] + "'"); }); s += m.step(t[k], o[k], b, k + 1 == t.size()); b.push_back(o[k]); }
    b.clear(); bestRecase(m, t, 0, b, 0, top); c.checkf(s >= top - 1e-9, [&] { return bad("its score is " + str(s) + ", the best is " + str(top)); }); c.state(hashStr(in[i] + "#" + str(top)));
  }
  c.step(in.size());
}
// every sentence of at most n words
static Words sentences(const Words& p, int n) { std::vector<Words> l = {{}}; for (size_t i = 0; i < l.size(); ++i) if ((int)l[i].size() < n) for (auto& x : p) { Words y = l[i]; y.push_back(x); l.push_back(y); } Words r; for (auto& x : l) r.push_back(joined(x)); return r; }
struct Weights { const char* s; double w[4]; };
static const std::vector<Weights> weights = {{"1 0 0 1", {1, 0, 0, 1}}, {"0 0 0 1", {0, 0, 0, 1}}, {"0.5 1 2 0.25", {0.5, 1, 2, 0.25}}, {"1 1 1 1", {1, 1, 1, 1}}};
static const std::vector<std::string> interps = {"", "0.9", "0.2", "0", "1"};
static double value(const std::string& i) { return i.empty() ? 0.5 : atof(i.c_str()); }
static void same(Ctx& c, const Counts& got, const Counts& exp, const std::string& what) { c.checkf(got == exp, [&] { return what + " has " + show(got) + ", not " + show(exp); }); }
// ---- recasing -------------------------------------------------------------------------------------------
static const Words recLines = {"The cat", "the CAT the", "1 1.0", "The", "a 1 the", "cat Cat", ""};
static Words recCorpus(Ctx& c, int max) { int n = 1 + c.choose(max); Words l; for (int i = 0; i < n; ++i) l.push_back(c.pick(recLines)); return l; }
static void rec(const Words& l, int n, Counts& tm, Counts& lm) { for (auto& x : l) { for (auto& w : words(x)) ++tm[lower(w) + " ||| " + w]; addNgrams(lm, words(x), n); } }
static void recTrain(Ctx& c) {
  Words l = recCorpus(c, thorough() ? 4 : 3); int n = 1 + c.choose(thorough() ? 4 : 3); std::string d = freshDir(c) + "/"; writeFile(d + "r", text(l)); Counts tm, lm; rec(l, n, tm, lm); c.step(); c.state(hashStr(joined(l, "#") + str(n)));
  tool(c, "thot_train_rec_lm", {"-r", d + "r", "-n", str(n), "-o", d + "o"}); same(c, table(c, d + "o.lm"), lm, "the language model of '" + joined(l, "|") + "'");
  if (n == 1) { tool(c, "thot_train_rec_tm", {"-r", d + "r", "-o", d + "o"}); same(c, table(c, d + "o.tm"), tm, "the translation model of '" + joined(l, "|") + "'"); }
}
static void recMapReduce(Ctx& c) {
  Words l = recCorpus(c, thorough() ? 4 : 3); int n = 1 + c.choose(thorough() ? 3 : 2); std::string d = freshDir(c) + "/"; writeFile(d + "r", text(l)); Counts tm, lm; rec(l, n, tm, lm); c.step(); c.state(hashStr(joined(l, "#") + str(n))); writeFile(d + "split", "#!/bin/bash\nshift 2\nexec split -l " + str(1 + c.choose(2)) + " \"$@\"\n"); std::filesystem::permissions(d + "split", std::filesystem::perms::all);
  setenv("VERIF_SPLIT", (d + "split").c_str(), 1); std::filesystem::create_directory(d + "tmp"); tool(c, "thot_train_rec_lm_mr", {"-r", d + "r", "-n", str(n), "-o", d + "o", "-tdir", d + "tmp"}); unsetenv("VERIF_SPLIT");
  same(c, table(c, d + "o.lm"), lm, "the language model of '" + joined(l, "|") + "', estimated in chunks,"); c.check(std::filesystem::is_empty(d + "tmp"), "temporary files remain");
}
static void recase(Ctx& c) {
  Words l = recCorpus(c, thorough() ? 3 : 2); if (std::all_of(l.begin(), l.end(), [](const std::string& s) { return s.empty(); })) throw Skip(); int n = 1 + c.choose(3); auto& w = c.pick(weights); std::string ip = interps[c.choose(thorough() ? 5 : 2)]; bool file = n == 2, rev = c.flip(); Counts tm, lm; rec(l, n, tm, lm); std::string d = freshDir(c) + "/", a, b; for (auto& x : tm) a = rev ? x.first + " " + str(x.second) + "\n" + a : a + x.first + " " + str(x.second) + "\n"; for (auto& x : lm) b = rev ? x.first + " " + str(x.second) + "\n" + b : b + x.first + " " + str(x.second) + "\n"; writeFile(d + "m.tm", a); writeFile(d + "m.lm", b);
  Words in = sentences({"the", "cat", "1", "dog"}, thorough() ? 4 : 3), args = {"-m", d + "m", "-w", w.s}; if (file) { writeFile(d + "in", text(in)); args.insert(args.end(), {"-f", d + "in"}); } if (!ip.empty()) args.insert(args.end(), {"-i", ip});
  checkRecase(c, Scorer(tm, lm, w.w, value(ip)), in, linesOf(tool(c, "thot_rec_translator", args, file ? "" : text(in)).out));
}
static void recaseWhole(Ctx& c) {
  Words l = recCorpus(c, thorough() ? 3 : 2); if (std::all_of(l.begin(), l.end(), [](const std::string& s) { return s.empty(); })) throw Skip(); Counts tm, lm; rec(l, 3, tm, lm); std::string d = freshDir(c) + "/"; writeFile(d + "r", text(l)); Words in = sentences({"the", "cat", "1", "dog"}, 3); writeFile(d + "in", text(in)); std::filesystem::create_directory(d + "tmp");
  checkRecase(c, Scorer(tm, lm, weights[1].w, 0.5), in, linesOf(tool(c, "thot_recase", {"-f", d + "in", "-r", d + "r", "-tdir", d + "tmp"}).out)); c.check(std::filesystem::is_empty(d + "tmp"), "temporary files remain");
}
// ---- detokenizing ---------------------------------------------------------------------------------------
static const std::vector<Tokenized> detLines = {{{"a", ","}, {"b"}}, {{"(", "a", ")"}, {"a"}}, {{"a"}, {","}, {"b", "."}}, {{"1"}, {"12", "%"}}, {{"sixsix", "."}, {"a"}}, {{"2", "x7"}, {"b"}}, {{"3.5", ","}}, {}, {{"b", ",", "12"}, {"1", "7"}}};
static std::vector<Tokenized> detCorpus(Ctx& c, int max) { int n = 1 + c.choose(max); std::vector<Tokenized> l; for (int i = 0; i < n; ++i) l.push_back(c.pick(detLines)); return l; }
static Words rawLines(const std::vector<Tokenized>& l) { Words r; for (auto& t : l) { Words w; for (auto& x : t) w.push_back(joined(x, "")); r.push_back(joined(w)); } return r; }
static Words tokLines(const std::vector<Tokenized>& l) { Words r; for (auto& t : l) { Words w; for (auto& x : t) w.push_back(joined(x)); r.push_back(joined(w)); } return r; }
static void detTrain(Ctx& c) {
  auto l = detCorpus(c, thorough() ? 3 : 2); int n = c.choose(thorough() ? 5 : 4); bool verbose = c.flip(), own = c.flip(); std::string d = freshDir(c) + "/"; writeFile(d + "r", text(rawLines(l))); writeFile(d + "t", text(tokLines(l))); Words args = {"-r", d + "r", "-o", d + "o"}; if (n) args.insert(args.end(), {"-n", str(n)}); if (verbose) args.push_back("-v");
  if (own) { Words tok = linesOf(tool(c, "thot_tokenize", {}, text(rawLines(l))).out); for (size_t i = 0; i < l.size(); ++i) { Words t = words(tok[i]); size_t k = 0; Tokenized x; for (auto& w : l[i]) { std::string s; x.push_back({}); while (s.size() < joined(w, "").size() && k < t.size()) { s += t[k]; x.back().push_back(t[k++]); } } l[i] = x; } } else args.insert(args.end(), {"-t", d + "t"});   // with its own tokens, which thot_tokenize shows
  Counts tm, lm; for (auto& t : l) addDetok(tm, lm, t, n ? n : 3); tool(c, "thot_train_detok_model", args); c.step(); c.state(hashStr(joined(rawLines(l), "#") + joined(tokLines(l), "#") + str(n) + str(verbose))); same(c, table(c, d + "o.tm"), tm, "the translation model of '" + joined(tokLines(l), "|") + "'"); same(c, table(c, d + "o.lm"), lm, "the language model of '" + joined(rawLines(l), "|") + "'");
}
static const Words detTokens = {"a", ",", "b", "12", ")", "sevenup"};
static void detok(Ctx& c) {
  auto l = detCorpus(c, thorough() ? 3 : 2); int n = 1 + c.choose(3); auto& w = weights[c.choose(thorough() ? 4 : 3)]; std::string ip = interps[c.choose(thorough() ? 5 : 2)]; bool file = n == 2; Counts tm, lm; for (auto& t : l) addDetok(tm, lm, t, n); if (lm.empty()) throw Skip(); std::string d = freshDir(c) + "/", a, b; for (auto& x : tm) a += x.first + " " + str(x.second) + "\n"; for (auto& x : lm) b += x.first + " " + str(x.second) + "\n"; writeFile(d + "m.tm", a); writeFile(d + "m.lm", b);
  Words in = sentences(detTokens, thorough() ? 4 : 3), args = {"-m", d + "m", "-w", w.s}; for (auto x : {"( a ) , b .", "a , b , 12 1 7 .", "b , 3 8 , a )", "a a a a a a a a"}) in.push_back(x); if (file) { writeFile(d + "in", text(in)); args.insert(args.end(), {"-f", d + "in"}); } if (!ip.empty()) args.insert(args.end(), {"-i", ip});
  checkDetok(c, Scorer(tm, lm, w.w, value(ip)), in, linesOf(tool(c, "thot_detok_translator", args, file ? "" : text(in)).out));
}
static void detokOptions(Ctx& c) {   // tables with several options for a phrase
  static const Words entries = {"a ||| a", "a ||| A", "a , ||| a,", "a , ||| A,", ", b ||| ,b", "a , b ||| a,b", "b ||| B"}; Counts tm, lm; int any = 0; for (size_t i = 0; i < entries.size(); ++i) if (int k = c.choose(i < 4 || thorough() ? 3 : 2)) { tm[entries[i]] = k == 2 ? 5 : 1; ++any; } int n = 1 + c.choose(2); auto& w = weights[c.choose(thorough() ? 4 : 2)]; addNgrams(lm, {"A,", "b", "a"}, n); addNgrams(lm, {"a,b"}, n);
  std::string d = freshDir(c) + "/", a, b; for (auto& x : tm) a += x.first + " " + str(x.second) + "\n"; for (auto& x : lm) b += x.first + " " + str(x.second) + "\n"; writeFile(d + "m.tm", a); writeFile(d + "m.lm", b); Words in = sentences({"a", ",", "b"}, 4); checkDetok(c, Scorer(tm, lm, w.w, 0.5), in, linesOf(tool(c, "thot_detok_translator", {"-m", d + "m", "-w", w.s}, text(in)).out));
}
static void detokWhole(Ctx& c) {
  auto l = detCorpus(c, thorough() ? 3 : 2); Counts tm, lm; for (auto& t : l) addDetok(tm, lm, t, 3); if (lm.empty()) throw Skip(); std::string d = freshDir(c) + "/"; writeFile(d + "r", text(rawLines(l))); writeFile(d + "t", text(tokLines(l))); Words in = sentences(detTokens, 3); writeFile(d + "in", text(in)); std::filesystem::create_directory(d + "tmp");
  checkDetok(c, Scorer(tm, lm, weights[0].w, 0.5), in, linesOf(tool(c, "thot_detokenize", {"-f", d + "in", "-r", d + "r", "-t", d + "t", "-tdir", d + "tmp"}).out)); c.check(std::filesystem::is_empty(d + "tmp"), "temporary files remain");
}
int main(int argc, char** argv) {
  if (!getenv("MC_STDERR")) { FILE* e = freopen("/dev/null", "w", stderr); (void)e; }
  return mc::run(argc, argv, "P27", {
    {"recase-train", "every corpus of up to 3 of 7 lines (thorough: 4), orders 1 to 3 (thorough: 4)", recTrain, 3, 60},
    {"recase-map-reduce", "every corpus of up to 3 of 7 lines (thorough: 4), orders 1 and 2 (thorough: 3), chunks of 1 and 2 lines", recMapReduce, 3, 60},
    {"recase", "models of every corpus of up to 2 of 7 lines (thorough: 3), orders 1 to 3, 4 sets of weights, 2 interpolations (thorough: 5), all sentences of up to 3 of 4 words (thorough: 4)", recase, 3, 240},
    {"recase-whole", "thot_recase on every raw text of up to 2 of 7 lines (thorough: 3), all sentences of up to 3 of 4 words", recaseWhole, 3, 240},
    {"detokenize-train", "every corpus of up to 2 of 9 lines (thorough: 3), tokenized by thot or otherwise, the default order and orders 1 to 3 (thorough: 4), verbose or not", detTrain, 3, 60},
    {"detokenize", "models of every corpus of up to 2 of 9 lines (thorough: 3), orders 1 to 3, 3 sets of weights (thorough: 4), 2 interpolations (thorough: 5), all sentences of up to 3 of 6 tokens (thorough: 4) and 4 longer ones", detok, 3, 240},
    {"detokenize-options", "every table over 7 entries with counts 0, 1 and (for 4 of them) 5, orders 1 and 2, 2 sets of weights (thorough: 4), all sentences of up to 4 of 3 tokens", detokOptions, 3, 240},
    {"detokenize-whole", "thot_detokenize on every raw text of up to 2 of 9 lines (thorough: 3), all sentences of up to 3 of 6 tokens", detokWhole, 3, 240},
  });
}
