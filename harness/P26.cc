// P26: preparing text
// SOURCES:
// SCRIPTS: utils/smt_preproc/thot_smt_preproc.py utils/smt_preproc/thot_tokenize.py utils/smt_preproc/thot_lowercase.py utils/smt_preproc/thot_remove_xml_annotations.py utils/smt_preproc/thot_categorize.py utils/smt_preproc/thot_decategorize.py utils/smt_preproc/thot_clean_corpus_ln.py
// SCRIPTS: utils/smt_preproc/thot_gen_rtfile.sh utils/nlp_common/thot_shuffle.sh utils/nlp_common/thot_extract_sents_by_ln.sh utils/nlp_common/thot_replace_oov_with_unk.sh
#include "prog.h"
#include <algorithm>
#include <cmath>
#include <map>
#include <set>
using namespace mc;
static bool thorough() { const char* t = getenv("VERIF_TIER"); return t && std::string(t) == "thorough"; }
typedef std::vector<std::string> Words;
static Words words(const std::string& s) { std::istringstream q(s); Words w; std::string x; while (q >> x) w.push_back(x); return w; }
static std::string joined(const Words& w, const std::string& sep = " ") { std::string s; bool first = true; for (auto& x : w) { if (!first) s += sep; first = false; s += x; } return s; }
static Words linesOf(const std::string& s) { std::istringstream q(s); Words w; std::string x; while (std::getline(q, x)) w.push_back(x); return w; }
static std::string text(const Words& l) { std::string s; for (auto& x : l) s += x + "\n"; return s; }
static Result tool(Ctx& c, const std::string& name, Words args, const std::string& in = "") { args.insert(args.begin(), bin(name)); return runCmd(c, args, in, 120); }
// the tool is given the lines, through a file or its standard input, and prints one line for each
static Words each(Ctx& c, const std::string& name, const Words& in, bool file) {
  Words args; if (file) { writeFile(c.scratch() + "/in.txt", text(in)); args = {"-f", c.scratch() + "/in.txt"}; }
  Result r = tool(c, name, args, file ? "" : text(in));
  c.checkf(r.ok(), [&] { return name + " failed: " + r.err.substr(r.err.size() > 300 ? r.err.size() - 300 : 0); });
  Words out = linesOf(r.out);
  c.checkf(out.size() == in.size(), [&] { return name + " printed " + str(out.size()) + " lines for " + str(in.size()); });
  c.step(in.size()); for (auto& l : in) c.state(hashStr(name + l));
  return out;
}
// every sequence of at most n pieces
static void sequences(const Words& pieces, int n, const std::string& prefix, Words& out) { out.push_back(prefix); if (n) for (auto& p : pieces) sequences(pieces, n - 1, prefix + p, out); }
// ---- tokenize -------------------------------------------------------------------------------------------
static const std::string LEN = "<length_limit>", LEN2 = "</length_limit>", GRP = "<phr_pair_annot>", GRP2 = "</phr_pair_annot>", SRC = "<src_segm>", SRC2 = "</src_segm>", TRG = "<trg_segm>", TRG2 = "</trg_segm>", FOR = "<forbidden_words>", FOR2 = "</forbidden_words>";
static void tokens(Ctx& c, const Words& in, const Words& out) {
  for (size_t i = 0; i < in.size(); ++i) {
    auto bad = [&](const std::string& why) { return "'" + in[i] + "' is tokenized as '" + out[i] + "': " + why; };
    Words w = words(in[i]), t = words(out[i]); c.checkf(out[i] == joined(t), [&] { return bad("the tokens are not separated by one blank"); });
    size_t k = 0;
    for (auto& x : w) {
      std::string s; size_t first = k; while (s.size() < x.size() && k < t.size()) s += t[k++];
      c.checkf(s == x, [&] { return bad("the tokens do not make up the text"); });
      bool letters = true, digits = true; size_t sep = 0; for (unsigned char y : x) { letters = letters && isalpha(y); if (y == '.' || y == ',') ++sep; else digits = digits && isdigit(y); }
      if (letters || (digits && (sep == 0 || (sep == 1 && isdigit(x[0]) && isdigit(x.back()))))) c.checkf(k == first + 1, [&] { return bad("the word or number '" + x + "' is split"); });
    }
    c.checkf(k == t.size(), [&] { return bad("there are more tokens than text"); });
  }
}
static void tokenizeChars(Ctx& c) {
  static const Words q = {"a", "S", "1", ".", ",", "'", "-", " ", "$", "é"}, th = {"a", "S", "m", "1", "0", ".", ",", "'", "-", "&", " ", "\t", "$", "é", "¿"};
  const Words& p = thorough() ? th : q; std::string pre = c.pick(p); pre += c.pick(p); Words in; sequences(p, 4, pre, in); if (pre == p[0] + p[0]) { in.push_back(""); for (auto& x : p) in.push_back(x); }
  tokens(c, in, each(c, "thot_tokenize", in, false));
}
static void tokenizePieces(Ctx& c) {
  static const Words p = {"Mr.", "a.m.", "10", ".", "'s", "e.g.", " ", "x", "?!", "b-c", "3,5", "Inc.", LEN + " 3 " + LEN2, GRP + SRC + "a b" + SRC2 + " " + TRG + "x'y" + TRG2 + GRP2, FOR + "c d" + FOR2, LEN, "<", "1am", "'em"};
  std::string pre = c.pick(p); bool file = c.flip(); Words in; sequences(p, thorough() ? 4 : 3, pre, in);
  Words out = each(c, "thot_tokenize", in, file); tokens(c, in, out);
  for (size_t i = 0; i < in.size(); ++i) for (auto& tag : {GRP2, SRC2, TRG, FOR2}) {   // the tags of a whole annotation are tokens
    size_t n = 0; for (size_t x = in[i].find(tag); x != std::string::npos; x = in[i].find(tag, x + 1)) ++n;
    Words t = words(out[i]); c.checkf((size_t)std::count(t.begin(), t.end(), tag) == n, [&] { return "the annotation of '" + in[i] + "' is broken: '" + out[i] + "'"; });
  }
}
// ---- lowercase ------------------------------------------------------------------------------------------
static std::string lower(std::string s) { std::string r; for (size_t i = 0; i < s.size(); ++i) { unsigned char x = s[i]; if (x == 0xc3 && i + 1 < s.size()) { unsigned char y = s[++i]; r += s[i - 1]; r += (y >= 0x80 && y <= 0x9e && y != 0x97) ? (char)(y + 0x20) : (char)y; } else r += (char)tolower(x); } return r; }
static std::string squeeze(const std::string& s) { return joined(words(s), ""); }
static void lowercaseText(Ctx& c) {
  static const Words p = {"A", "b", "É", "ñ", " ", ".", "1", "Z", "×"}; static const Words x = {"A", " ", "É b", LEN + "3" + LEN2, GRP + " " + SRC + "A É" + SRC2 + TRG + "B C" + TRG2 + GRP2, FOR + " C D " + FOR2};
  bool ann = c.flip(), file = c.flip(); std::string pre = c.pick(ann ? x : p); Words in; sequences(ann ? x : p, ann ? (thorough() ? 5 : 4) : (thorough() ? 5 : 4), pre, in); Words out = each(c, "thot_lowercase", in, file);
  for (size_t i = 0; i < in.size(); ++i) {
    auto bad = [&] { return "'" + in[i] + "' is lowercased as '" + out[i] + "'"; };
    if (!ann) c.checkf(words(out[i]) == words(lower(in[i])), bad);
    else { Words w = words(lower(in[i])), t = words(out[i]); size_t k = 0; for (auto& y : w) { std::string s; while (s.size() < y.size() && k < t.size()) s += t[k++]; c.checkf(s == y, bad); } c.checkf(k == t.size(), bad); }
  }
}
// ---- annotations ----------------------------------------------------------------------------------------
struct Piece { std::string s, plain; };
static void removeXml(Ctx& c) {
  static const std::vector<Piece> p = {{"a", "a"}, {"b <c>", "b <c>"}, {GRP + SRC + "d e" + SRC2 + TRG + "x" + TRG2 + GRP2, "d e"}, {LEN + "2" + LEN2, ""}, {FOR + "y z" + FOR2, ""}, {GRP + " " + SRC + " f " + SRC2 + " " + TRG + " y " + TRG2 + " " + GRP2, "f"}};
  int n = thorough() ? 6 : 5; std::vector<Piece> all; bool file = c.flip(); Piece first = p[c.choose(p.size())]; all.push_back(first);
  for (size_t i = 0, lev = 1, from = 0; (int)lev < n; ++lev) { size_t to = all.size(); for (i = from; i < to; ++i) for (auto& x : p) all.push_back({all[i].s + " " + x.s, all[i].plain + " " + x.plain}); from = to; }
  Words in; for (auto& x : all) in.push_back(x.s); Words out = each(c, "thot_remove_xml_annotations", in, file);
  for (size_t i = 0; i < in.size(); ++i) c.checkf(words(out[i]) == words(all[i].plain), [&] { return "'" + in[i] + "' without its annotations is '" + out[i] + "'"; });
}
// ---- categories -----------------------------------------------------------------------------------------
static bool number(const std::string& s) {   // a decimal number, with or without sign and exponent
  size_t i = 0, d = 0; if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i; while (i < s.size() && isdigit(s[i])) { ++i; ++d; } if (i < s.size() && s[i] == '.') { ++i; while (i < s.size() && isdigit(s[i])) { ++i; ++d; } } if (!d) return false;
  if (i < s.size() && s[i] == 'e') { ++i; if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i; size_t e = 0; while (i < s.size() && isdigit(s[i])) { ++i; ++e; } if (!e) return false; } return i == s.size();
}
static std::string category(const std::string& w) {
  if (w.size() == 1 && isdigit((unsigned char)w[0])) return "<digit>"; if (number(w)) return "<number>";
  bool d = false; for (unsigned char x : w) d = d || isdigit(x); return d && isalnum((unsigned char)w[0]) ? "<alfanum>" : w;
}
static const std::set<std::string> cats = {"<digit>", "<number>", "<alfanum>"};
static std::string categorized(const std::string& s) { Words w = words(s); for (auto& x : w) x = category(x); return joined(w); }
static void categorizeWords(Ctx& c) {
  static const Words p = {"1", "0", "a", "e", ".", "-", "+", "$", " "}; bool file = c.flip(); std::string pre = c.pick(p); Words in; sequences(p, 5, pre, in); if (thorough() && pre != " ") { Words more = in; for (auto& x : more) if (x.size() == 6) for (auto& y : p) in.push_back(x + y); } Words out = each(c, "thot_categorize", in, file);
  for (size_t i = 0; i < in.size(); ++i) c.checkf(out[i] == categorized(in[i]), [&] { return "'" + in[i] + "' is categorized as '" + out[i] + "', not '" + categorized(in[i]) + "'"; });
}
static void categorizeAnnotations(Ctx& c) {
  static const Words p = {"a", "5", "12", "x7"}; Words ph; for (auto& x : p) { ph.push_back(x); for (auto& y : p) { ph.push_back(x + " " + y); if (thorough()) for (auto& z : p) ph.push_back(x + " " + y + " " + z); } }
  static const Words around = {"", "3 ", LEN + "15" + LEN2 + " ", FOR + "7 y" + FOR2 + " "}, aroundOut = {"", "<digit> ", LEN + " 15 " + LEN2 + " ", FOR + " 7 y " + FOR2 + " "};
  int a = c.choose(around.size()); std::string s = c.pick(ph); Words in, exp;
  auto count = [&](const std::string& t) { std::map<std::string, int> m; for (auto& w : words(t)) if (cats.count(category(w))) ++m[category(w)]; return m; };
  for (auto& t : ph) { in.push_back(around[a] + GRP + SRC + s + SRC2 + TRG + t + TRG2 + GRP2 + " 12"); bool same = count(s) == count(t); exp.push_back(aroundOut[a] + GRP + " " + SRC + " " + (same ? categorized(s) : s) + " " + SRC2 + " " + TRG + " " + (same ? categorized(t) : t) + " " + TRG2 + " " + GRP2 + " <number>"); }
  Words out = each(c, "thot_categorize", in, true); for (size_t i = 0; i < in.size(); ++i) c.checkf(out[i] == exp[i], [&] { return "'" + in[i] + "' is categorized as '" + out[i] + "'"; });
}
// ---- undoing the categories -----------------------------------------------------------------------------
struct Alig { std::vector<std::pair<int, int>> seg; std::vector<int> cut; };
static std::string hypothesis(const std::string& t, const Alig& a) { std::string s = t + " | Score: -1.5 | Weights: 1 | Source Segmentation:"; for (auto& x : a.seg) s += " ( " + str(x.first) + " , " + str(x.second) + " )"; s += " | Target Segmentation:"; for (auto x : a.cut) s += " " + str(x); return s + " | hypkey: 1"; }
static std::string undone(const Words& s, const Words& t, const Alig& a) {
  Words r = t; int from = 0; for (size_t k = 0; k < a.cut.size(); from = a.cut[k++]) { std::map<std::string, int> seen; for (int j = from; j < a.cut[k]; ++j) if (cats.count(t[j])) { int n = seen[t[j]]++; for (int i = a.seg[k].first - 1; i < a.seg[k].second; ++i) if (category(s[i]) == t[j] && n-- == 0) { r[j] = s[i]; break; } } } return joined(r);
}
static void undo(Ctx& c) {
  static const Words p = {"a", "5", "12", "8", "x7"}; int n = 1 + c.choose(thorough() ? 4 : 3); Words s; for (int i = 0; i < n; ++i) s.push_back(c.pick(p));
  static const Words tw = {"w", "<number>", "<digit>"}, tl = {"w", "<number>", "<digit>", "<alfanum>", "4"};
  std::vector<std::vector<std::pair<int, int>>> cov; for (int m = 0; m < (1 << (n - 1)); ++m) { std::vector<std::pair<int, int>> x; int from = 1; for (int i = 1; i <= n; ++i) if (i == n || (m >> (i - 1) & 1)) { x.push_back({from, i}); from = i + 1; } std::sort(x.begin(), x.end()); do cov.push_back(x); while (std::next_permutation(x.begin(), x.end())); }
  int len = n == 1 ? 3 : 3; const Words& al = n <= 2 || thorough() ? tl : tw; std::vector<Words> ts = {{}}; for (size_t i = 0; i < ts.size(); ++i) if ((int)ts[i].size() < len) for (auto& x : al) { Words y = ts[i]; y.push_back(x); ts.push_back(y); }
  Words S, T, H, E; S.push_back(joined(s)); T.push_back("w <digit>"); H.push_back("w <digit>"); E.push_back("w <digit>");   // without an alignment the words remain
  for (auto& seg : cov) for (auto& t : ts) { int k = seg.size(), L = t.size(); if (L < k) continue; for (int m = 0; m < (1 << (L - 1)); ++m) if (__builtin_popcount(m) == k - 1) { Alig a; a.seg = seg; for (int i = 1; i <= L; ++i) if (i == L || (m >> (i - 1) & 1)) a.cut.push_back(i); S.push_back(joined(s)); T.push_back(joined(t)); H.push_back(hypothesis(joined(t), a)); E.push_back(undone(s, t, a)); } }
  { Words cs; Alig a; for (int i = 0; i < n; ++i) { cs.push_back(category(s[i])); a.seg.push_back({i + 1, i + 1}); a.cut.push_back(i + 1); } for (int one = 0; one < 2; ++one) { if (one) { a.seg = {{1, n}}; a.cut = {n}; } S.push_back(joined(s)); T.push_back(joined(cs)); H.push_back(hypothesis(joined(cs), a)); E.push_back(joined(s)); } }   // undoing the categories of a text gives the text
  std::string d = c.scratch() + "/"; writeFile(d + "s", text(S)); writeFile(d + "t", text(T)); writeFile(d + "h", text(H)); Result r = tool(c, "thot_decategorize", {"-s", d + "s", "-t", d + "t", "-i", d + "h"}); c.checkf(r.ok(), [&] { return "thot_decategorize failed: " + r.err.substr(r.err.size() > 300 ? r.err.size() - 300 : 0); });
  Words out = linesOf(r.out); c.checkf(out.size() == T.size(), [&] { return "thot_decategorize printed " + str(out.size()) + " lines for " + str(T.size()); }); c.step(T.size()); for (size_t i = 0; i < T.size(); ++i) { c.state(hashStr(S[i] + "#" + H[i])); c.checkf(out[i] == E[i], [&] { return "source '" + S[i] + "', translation '" + H[i] + "': the categories become '" + out[i] + "', not '" + E[i] + "'"; }); }
}
// ---- cleaning a corpus ----------------------------------------------------------------------------------
static void clean(Ctx& c) {
  static const std::vector<std::pair<int, int>> type = {{2, 2}, {2, 5}, {1, 1}, {4, 0}, {3, 1}}; static const std::vector<int> times = {0, 1, 9, 10}; std::vector<std::pair<int, int>> l; int np = thorough() ? 5 : 4; std::vector<int> left(np); for (auto& x : left) x = c.pick(times);
  while (true) { bool any = false; for (int k = 0; k < np; ++k) if (left[k]) { --left[k]; l.push_back(type[k]); any = true; } if (!any) break; } if (l.empty()) throw Skip();
  Words args; int lo = 1, hi = 80, d = 4; switch (c.choose(4)) { case 0: break; case 1: d = 1; args = {"-d", "1"}; break; case 2: lo = 0; hi = 3; d = 2; args = {"-i", "0", "-a", "3", "-d", "2"}; break; case 3: lo = 2; hi = 4; d = 1; args = {"-i", "2", "-a", "4", "-d", "1"}; }
  Words S, T; for (size_t i = 0; i < l.size(); ++i) { S.push_back(joined(Words(l[i].first, "s" + str(i)))); T.push_back(joined(Words(l[i].second, "t" + str(i)))); }
  std::string dir = freshDir(c) + "/"; writeFile(dir + "s", text(S)); writeFile(dir + "t", text(T)); Words a = {"-s", dir + "s", "-t", dir + "t"}; a.insert(a.end(), args.begin(), args.end()); Result r = tool(c, "thot_clean_corpus_ln", a); c.checkf(r.ok(), [&] { return "thot_clean_corpus_ln failed: " + r.err.substr(r.err.size() > 300 ? r.err.size() - 300 : 0); });
  auto stat = [&](int len, double& mean, double& sd) { double n = 0, m = 0, v = 0; for (auto& x : l) if (len < 0 || x.first == len) { ++n; m += x.first - x.second; } m /= n; for (auto& x : l) if (len < 0 || x.first == len) { double e = x.first - x.second - m; v += e * e; } mean = m; sd = std::sqrt(v / n); return (int)n; };
  Words out = linesOf(r.out); std::set<std::string> kept(out.begin(), out.end()); c.check(kept.size() == out.size(), "a line number is printed twice"); for (size_t i = 1; i < out.size(); ++i) c.check(atoi(out[i - 1].c_str()) < atoi(out[i].c_str()), "the line numbers are not in order");
  Words ks, kt; for (size_t i = 0; i < l.size(); ++i) {
    double m, s; if (stat(l[i].first, m, s) < 10) stat(-1, m, s); double diff = l[i].first - l[i].second, e = d * s - std::fabs(diff - m); bool in = l[i].first >= lo && l[i].second >= lo && l[i].first <= hi && l[i].second <= hi, k = kept.count(str(i + 1)); if (k) { ks.push_back(S[i]); kt.push_back(T[i]); }
    if (std::fabs(e) < 1e-9 && s > 1e-9) { c.checkf(in || !k, [&] { return "the pair with " + str(l[i].first) + " and " + str(l[i].second) + " words is kept"; }); continue; }
    c.checkf(k == (in && e > -1e-9), [&] { return std::string("a pair with ") + str(l[i].first) + " and " + str(l[i].second) + " words, limits " + str(lo) + " and " + str(hi) + ", mean difference " + str(m) + ", deviation " + str(s) + (k ? " is kept" : " is removed"); });
  }
  writeFile(dir + "ln", r.out); for (int side = 0; side < 2; ++side) { Result x = tool(c, "thot_extract_sents_by_ln", {"-n", dir + "ln", "-f", dir + (side ? "t" : "s")}); c.checkf(x.ok() && linesOf(x.out) == (side ? kt : ks), [&] { return "the sentences extracted by their line numbers are '" + x.out + "'"; }); }
  c.step(l.size()); c.state(hashStr(joined(args) + joined(S, "#") + "|" + joined(T, "#")));
}
// ---- tools for lines ------------------------------------------------------------------------------------
static const Words some = {"a b", "", "c", "1", "1 2", "x  y"};
static Words anyLines(Ctx& c, int max) { int n = c.choose(max + 1); Words l; for (int i = 0; i < n; ++i) l.push_back(c.pick(some)); return l; }
static Words norm(Words l) { for (auto& x : l) x = joined(words(x)); return l; }
static Words sorted(Words l) { std::sort(l.begin(), l.end()); return l; }
static void shuffle(Ctx& c) {
  Words l = anyLines(c, thorough() ? 5 : 4), k; std::string seed = c.pick(Words{"1", "31415"}); for (size_t i = 0; i < l.size(); ++i) k.push_back("line " + str(i)); std::string d = freshDir(c) + "/"; writeFile(d + "l", text(l)); writeFile(d + "k", text(k));
  Result r = tool(c, "thot_shuffle", {seed, d, d + "l"}), q = tool(c, "thot_shuffle", {seed, d}, text(k)); c.check(r.ok() && q.ok(), "thot_shuffle failed"); Words o = linesOf(r.out), p = linesOf(q.out); c.step(); c.state(hashStr(seed + "#" + joined(l, "#")));
  c.checkf(sorted(o) == sorted(norm(l)), [&] { return "shuffling '" + joined(l, "|") + "' gives '" + joined(o, "|") + "'"; });
  c.check(sorted(p) == sorted(k), "shuffling numbered lines loses some"); for (size_t i = 0; i < p.size(); ++i) c.checkf(o[i] == norm(l)[atoi(p[i].c_str() + 5)], [&] { return "files shuffled with one seed are ordered differently: '" + joined(o, "|") + "' and '" + joined(p, "|") + "'"; });
}
static void extract(Ctx& c) {
  Words l = anyLines(c, thorough() ? 4 : 3); int n = l.size(), rev = c.choose(2); Words ln; int m = c.choose(1 << n), order = c.choose(2); for (int i = 0; i < n; ++i) if (m >> i & 1) ln.push_back(str(i + 1)); if (order) std::reverse(ln.begin(), ln.end());
  std::string d = freshDir(c) + "/"; writeFile(d + "l", text(l)); writeFile(d + "n", text(ln)); Words a = {"-n", d + "n", "-f", d + "l"}; if (rev) a.push_back("-r"); Result r = tool(c, "thot_extract_sents_by_ln", a); Words e; for (int i = 0; i < n; ++i) if ((m >> i & 1) != rev) e.push_back(l[i]);
  c.step(); c.state(hashStr(joined(ln) + str(rev) + joined(l, "#"))); c.checkf(r.ok() && linesOf(r.out) == e, [&] { return "extracting lines '" + joined(ln) + (rev ? "' (reverse)" : "'") + " of '" + joined(l, "|") + "' gives '" + r.out + "'"; });
}
static void oov(Ctx& c) {
  static const Words voc = {"a", "b", "1", "<unk>"}; Words v, l; for (auto& x : voc) if (c.flip()) v.push_back(x); Words p = {"a", "b", "1", "1.0", "c", "<unk>"}; int n = c.choose(thorough() ? 4 : 3); for (auto& x : p) { for (auto& y : p) { if (n == 0) l.push_back(x + " " + y); else l.push_back(p[n] + "  " + x + " " + y + " "); } } l.push_back("");
  std::string d = freshDir(c) + "/"; writeFile(d + "v", text(v)); Result r = tool(c, "thot_replace_oov_with_unk", {"-v", d + "v"}, text(l)); Words o = linesOf(r.out); c.checkf(r.ok() && o.size() == l.size(), [&] { return "thot_replace_oov_with_unk prints " + str(o.size()) + " lines for " + str(l.size()); });
  for (size_t i = 0; i < l.size(); ++i) { Words w = words(l[i]); for (auto& x : w) if (std::find(v.begin(), v.end(), x) == v.end()) x = "<unk>"; c.checkf(words(o[i]) == w, [&] { return "with the vocabulary '" + joined(v) + "' the line '" + l[i] + "' becomes '" + o[i] + "'"; }); c.state(hashStr(joined(v) + "#" + l[i])); } c.step(l.size());
}
static void rawText(Ctx& c) {
  std::string d = freshDir(c) + "/"; Words tr; int n0 = c.choose(3); for (int i = 0; i < n0; ++i) tr.push_back(some[c.choose(3)]); Words e = tr, args = {"-t", d + "t", "-tdir", d}; writeFile(d + "t.train", text(tr)); auto add = [&](const std::string& f) { Words x; int n = c.choose(thorough() ? 4 : 2); for (int i = 0; i <= n && i < 2; ++i) x.push_back(some[(n + i) % 4]); writeFile(f, text(x)); e.insert(e.end(), x.begin(), x.end()); };
  if (c.flip()) add(d + "t.dev"); if (c.flip()) { add(d + "s.test"); args.insert(args.end(), {"-s", d + "s"}); } if (c.flip()) { add(d + "e"); args.insert(args.end(), {"-e", d + "e"}); } if (c.flip()) args.push_back("--no-lim");
  Result r = tool(c, "thot_gen_rtfile", args); c.step(); c.state(hashStr(joined(args) + joined(e, "#"))); c.checkf(r.ok() && sorted(norm(linesOf(r.out))) == sorted(norm(e)), [&] { return "the raw text of '" + joined(e, "|") + "' (" + joined(args) + ") is '" + r.out + "'"; });
}
int main(int argc, char** argv) {
  if (!getenv("MC_STDERR")) { FILE* e = freopen("/dev/null", "w", stderr); (void)e; }
  return mc::run(argc, argv, "P26", {
    {"tokenize", "every text of up to 6 of 10 characters (thorough: of 15), letters, digits, punctuation, blanks and a letter outside ASCII", tokenizeChars, 2, 120},
    {"pieces", "every text of up to 4 of 19 pieces (thorough: 5): abbreviations, numbers, punctuation, annotations, tags alone; read from a file and from the standard input", tokenizePieces, 2, 120},
    {"lowercase", "every text of up to 5 of 9 characters or 5 of 6 pieces with annotations (thorough: 6); read from a file and from the standard input", lowercaseText, 2, 120},
    {"annotations", "every text of up to 5 of 6 pieces (thorough: 6) with annotations of phrases, lengths and forbidden words", removeXml, 2, 120},
    {"categorize", "every text of up to 6 of 9 characters (thorough: 7), from a file and from the standard input", categorizeWords, 2, 120},
    {"categorize-annotations", "every annotated phrase pair of up to 2 of 4 words a side (thorough: 3), within 4 contexts", categorizeAnnotations, 2, 120},
    {"decategorize", "source sentences of up to 3 of 5 words (thorough: 4), every phrase segmentation and order, translations of up to 3 of 5 words (of 3 for sentences of 3 words), every segmentation", undo, 2, 120},
    {"clean", "parallel corpora of 0, 1, 9 or 10 pairs of each of 4 lengths (thorough: 5), 4 sets of limits", clean, 3, 60},
    {"shuffle", "files of up to 4 of 6 lines (thorough: 5), 2 seeds", shuffle, 3, 60},
    {"extract", "files of up to 3 of 6 lines (thorough: 4), every set of line numbers in 2 orders, both modes", extract, 3, 60},
    {"vocabulary", "every vocabulary of 4 words, sentences of 2 or 3 of 6 words", oov, 3, 60},
    {"raw-text", "training texts of up to 2 of 3 lines, with and without 2 texts (thorough: 4) of development, test and other sources, limited or not", rawText, 3, 60},
  });
}
