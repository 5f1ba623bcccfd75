// P15: translation quality measures
// SOURCES: stack_dec/bleu.cc stack_dec/chrf.cc stack_dec/MiraBleu.cc stack_dec/MiraChrF.cc stack_dec/MiraWer.cc nlp_common/AwkInputStream.cc nlp_common/StrProcUtils.cc
// PROGRAM: thot_calc_bleu stack_dec/thot_calc_bleu.cc stack_dec/bleu.cc nlp_common/options.cc nlp_common/AwkInputStream.cc nlp_common/StrProcUtils.cc nlp_common/mem_alloc_utils.cc
#include "mc.h"
#include "prog.h"
#include "bleu.h"
#include "chrf.h"
#include "MiraBleu.h"
#include "MiraChrF.h"
#include "MiraWer.h"
using namespace mc;
static bool thorough() { const char* t = getenv("VERIF_TIER"); return t && std::string(t) == "thorough"; }
typedef std::vector<std::string> Str;
// the reference: multisets of n-grams
template<class T> static std::map<T, int> grams(const T& s, size_t n) { std::map<T, int> m; for (size_t i = 0; i + n <= s.size(); ++i) ++m[T(s.begin() + i, s.begin() + i + n)]; return m; }
template<class T> static int common(const T& a, const T& b, size_t n) { auto x = grams(a, n), y = grams(b, n); int r = 0; for (auto& k : x) { auto i = y.find(k.first); if (i != y.end()) r += std::min(k.second, i->second); } return r; }
static int total(size_t len, size_t n) { return len < n ? 0 : len - n + 1; }
struct Stats { double v[10] = {0}; };
static Stats stats(const Str& cand, const Str& ref) { Stats s; s.v[0] = cand.size(); s.v[1] = ref.size(); for (int n = 1; n <= 4; ++n) { s.v[2 * n] = common(cand, ref, n); s.v[2 * n + 1] = total(cand.size(), n); } return s; }
// a measure for files takes the precision of n-grams longer than all candidates as zero, the scorer for learning as one
static double bleuOf(const Stats& s, double none = 1) { double r = 1; for (int n = 1; n <= 4; ++n) r *= s.v[2 * n + 1] == 0 ? none : s.v[2 * n] / s.v[2 * n + 1]; r = std::pow(r, 0.25); return s.v[0] < s.v[1] ? (s.v[0] == 0 ? 0 : r * std::exp(1 - s.v[1] / s.v[0])) : r; }
static double chrfOf(const std::string& a, const std::string& b) {   // candidate, reference, blanks squeezed
  if (a.empty() || b.empty()) return a.empty() && b.empty();
  double p = 0, r = 0; for (size_t n = 1; n <= 4; ++n) { double k = common(a, b, n); if (total(a.size(), n)) p += k / total(a.size(), n); if (total(b.size(), n)) r += k / total(b.size(), n); }
  p /= std::min<size_t>(4, a.size()); r /= std::min<size_t>(4, b.size()); return p == 0 || r == 0 ? 0 : 10 * p * r / (9 * p + r);
}
static unsigned edits(const Str& a, const Str& b) { std::map<std::pair<size_t, size_t>, unsigned> memo; std::function<unsigned(size_t, size_t)> f = [&](size_t i, size_t j) -> unsigned { if (i == a.size()) return b.size() - j; if (j == b.size()) return a.size() - i; auto k = memo.find({i, j}); if (k != memo.end()) return k->second; unsigned r = std::min(std::min(f(i + 1, j), f(i, j + 1)) + 1, f(i + 1, j + 1) + (a[i] != b[j])); memo[{i, j}] = r; return r; }; return f(0, 0); }
static Str words(const std::string& s) { Str r; std::istringstream in(s); std::string x; while (in >> x) r.push_back(x); return r; }
static Str seq(Ctx& c, unsigned maxlen, const Str& v) { unsigned n = c.choose(maxlen + 1); Str s; for (unsigned i = 0; i < n; ++i) s.push_back(c.pick(v)); return s; }
static void same(Ctx& c, double got, double want, const std::string& what) { c.checkf(close(got, want, 2e-6, 2e-6), [&] { return what + str(" is ", got, " instead of ", want); }); }
static void pair(Ctx& c, const Str& cand, const Str& ref, const std::string& cs, const std::string& rs) {
  std::string what = "candidate '" + cs + "', reference '" + rs + "': "; Stats s = stats(cand, ref), one = s; for (auto& x : one.v) ++x;
  for (unsigned n = 1; n <= 4; ++n) { unsigned p, t; prec_n(ref, cand, n, p, t); c.checkf(p == s.v[2 * n] && t == s.v[2 * n + 1], [&] { return what + str(p, " of ", t, " ", n, "-grams found instead of ", s.v[2 * n], " of ", s.v[2 * n + 1]); }); }
  MiraBleu b; MiraWer w; double x; std::vector<unsigned> st, st2; b.sentScore(cs, rs, x); same(c, x, bleuOf(one), what + "smoothed BLEU"); c.checkf(x >= 0 && x <= 1 + 1e-9, [&] { return what + "BLEU outside [0,1]"; });
  b.sentBackgroundScore(cs, rs, x, st2); same(c, x, bleuOf(one) * one.v[1], what + "background BLEU"); st = st2; bool eq = st.size() == 10; for (int i = 0; eq && i < 10; ++i) eq = st[i] == s.v[i]; c.checkf(eq, [&] { return what + "statistics are " + join(st); });
  double e = edits(cand, ref); w.sentScore(cs, rs, x); same(c, x, ref.empty() ? 0 : 1 - e / ref.size(), what + "WER"); w.sentBackgroundScore(cs, rs, x, st2); same(c, x, ref.empty() ? 0 : ref.size() - e, what + "background WER");
  b.corpusScore({cs}, {rs}, x); same(c, x, bleuOf(s), what + "BLEU of the corpus of this sentence"); w.corpusScore({cs}, {rs}, x); same(c, x, ref.empty() ? 0 : 1 - e / ref.size(), what + "WER of the corpus of this sentence");
  c.step(4);
}
static void sentences(Ctx& c) { Str a = seq(c, thorough() ? 6 : 5, {"a", "b"}), r = seq(c, thorough() ? 6 : 5, {"a", "b"}); c.state(join(a) + "|" + join(r)); pair(c, a, r, join(a), join(r)); }
// three words, short, and long structured pairs
static void structured(Ctx& c) {
  if (c.flip()) { Str a = seq(c, 3, {"a", "b", "cc"}), r = seq(c, thorough() ? 4 : 3, {"a", "b", "cc"}); bool sp = c.flip(); auto t = [&](const Str& v) { if (!sp) return join(v); std::string x = " "; for (auto& y : v) x += y + "\t "; return x; }; c.state(t(a) + "|" + t(r)); return pair(c, a, r, t(a), t(r)); }
  unsigned n = c.pick(std::vector<unsigned>{7, 40, 200}), k = 2 + c.choose(4), way = c.choose(6); Str r, a; for (unsigned i = 0; i < n; ++i) r.push_back(str("w", i * i % k)); a = r;
  if (way == 1) std::reverse(a.begin(), a.end()); else if (way == 2) a.erase(a.begin() + n / 2); else if (way == 3) a.insert(a.begin() + n / 3, {"w0", "x"}); else if (way == 4) std::rotate(a.begin(), a.begin() + n / 4, a.end()); else if (way == 5) { a.resize(n / 2); }
  c.state(str(n, " ", k, " ", way)); pair(c, a, r, join(a), join(r));
}
static void characters(Ctx& c) {
  auto gen = [&](unsigned m) { unsigned n = c.choose(m + 1); std::string s; for (unsigned i = 0; i < n; ++i) s += "ab "[c.choose(3)]; return s; };
  std::string a, r; bool big = c.choose(8) == 7;
  if (big) { static const Str v = {"a", "colourless green ideas", "\xc3\xa1\xc3\xa9 \xd0\xbc\xd0\xb0\xd1\x80", "aaaaaaaaaaaaaaaa", "ideas green", "x  y"}; a = c.pick(v); r = c.pick(v); if (c.flip()) a += a; if (c.flip()) r += " " + a; }
  else { a = gen(4); r = gen(thorough() ? 5 : 4); }
  c.state(a + "|" + r); double want = chrfOf(join(words(a)), join(words(r))), x; MiraChrF m; std::string what = "candidate '" + a + "', reference '" + r + "': ";
  m.sentScore(a, r, x); same(c, x, want, what + "chrF"); c.checkf(x >= 0 && x <= 1 + 1e-6, [&] { return what + "chrF outside [0,1]"; }); std::vector<unsigned> st; m.sentBackgroundScore(a, r, x, st); same(c, x, want * words(r).size(), what + "background chrF");
  for (size_t n = 1; n <= 4; ++n) { std::string A = join(words(a)), R = join(words(r)); if (n > A.size() || n > R.size()) break; float p, q; unsigned k; count_ngrams(R, A, n, p, q, k); double w = common(A, R, n); c.checkf(k == w && close(p, w / total(A.size(), n), 1e-5, 1e-5) && close(q, w / total(R.size(), n), 1e-5, 1e-5), [&] { return what + str(n, "-grams: ", k, " common, precision ", p, ", recall ", q); }); }
}
// corpora, from memory and from files
static void corpus(Ctx& c) {
  static const Str v = {"", "a", "a b", "b a b", "a b a b", "a b c a b", "c c", "a b c d e f"}; unsigned n = 1 + c.choose(thorough() ? 3 : 2); Str cand, ref; Stats s; double e = 0, rw = 0, ch = 0;
  for (unsigned i = 0; i < n; ++i) { cand.push_back(c.pick(v)); ref.push_back(c.pick(v)); Stats t = stats(words(cand[i]), words(ref[i])); for (int k = 0; k < 10; ++k) s.v[k] += t.v[k]; e += edits(words(cand[i]), words(ref[i])); rw += words(ref[i]).size(); ch += chrfOf(cand[i], ref[i]); }
  std::string what = "candidates '" + join(cand, "', '") + "', references '" + join(ref, "', '") + "': "; c.state(what); double x; MiraBleu b; MiraWer w; MiraChrF m;
  b.corpusScore(cand, ref, x); same(c, x, bleuOf(s), what + "BLEU"); w.corpusScore(cand, ref, x); same(c, x, rw ? 1 - e / rw : 0, what + "WER"); m.corpusScore(cand, ref, x); same(c, x, ch / n, what + "chrF");
  std::string dir = c.scratch(), C, R; for (auto& y : cand) C += y + "\n"; for (auto& y : ref) R += y + "\n"; mc::writeFile(dir + "/c", C); mc::writeFile(dir + "/r", R);
  float bl, bp; std::vector<float> bn; c.check(calc_bleu((dir + "/r").c_str(), (dir + "/c").c_str(), bl, bp, bn, 0) == THOT_OK, what + "calc_bleu fails"); same(c, bl, bleuOf(s, 0), what + "BLEU of files"); same(c, bp, s.v[0] < s.v[1] ? (s.v[0] ? std::exp(1 - s.v[1] / s.v[0]) : 0) : 1, what + "brevity penalty"); c.check(bn.size() == 4, what + "precisions");
  for (int k = 1; k <= 4; ++k) same(c, bn[k - 1], s.v[2 * k + 1] ? s.v[2 * k] / s.v[2 * k + 1] : 0, what + str(k, "-gram precision"));
  std::vector<double> cn; c.check(calculate_chrf_file_name((dir + "/r").c_str(), (dir + "/c").c_str(), x, cn, 0) == THOT_OK, what + "chrF of files fails"); same(c, x, ch / n, what + "chrF of files"); c.check(cn.size() == n, what + "number of chrF values"); for (unsigned i = 0; i < n; ++i) same(c, cn[i], chrfOf(cand[i], ref[i]), what + "chrF of a line");
  // too few translations
  if (n > 1) { mc::writeFile(dir + "/c", cand[0] + "\n"); c.check(calc_bleu((dir + "/r").c_str(), (dir + "/c").c_str(), bl, bp, bn, 0) == THOT_ERROR && calculate_chrf_file_name((dir + "/r").c_str(), (dir + "/c").c_str(), x, cn, 0) == THOT_ERROR, what + "missing translations are not noticed"); }
}
// the background of earlier sentences in online learning
static void background(Ctx& c) {
  MiraBleu b; Stats bg; for (auto& x : bg.v) x = 1; std::string hist; static const std::vector<std::pair<std::string, std::string>> v = {{"a b c d e", "a b c d e"}, {"a b", "b a a b"}, {"", "a"}, {"a b a b a b", "a b c"}};
  for (int k = 0; k < (thorough() ? 5 : 4); ++k) {
    unsigned op = c.choose(v.size() + 1); hist += str(" ", op); if (op == v.size()) { b.resetBackgroundCorpus(); for (auto& x : bg.v) x = 1; continue; }
    Stats s = stats(words(v[op].first), words(v[op].second)), sum = s; for (int i = 0; i < 10; ++i) sum.v[i] = std::floor(sum.v[i] + bg.v[i]); double x; std::vector<unsigned> st; b.sentBackgroundScore(v[op].first, v[op].second, x, st);
    same(c, x, bleuOf(sum) * sum.v[1], "after" + hist + " background BLEU"); double decay = c.pick(std::vector<double>{1, 0.999, 0.5}); hist += str("*", decay); b.updateBackgroundCorpus(st, decay); for (int i = 0; i < 10; ++i) bg.v[i] = decay * bg.v[i] + s.v[i]; c.state(hist);
  }
}
static void programs(Ctx& c) {
  static const std::vector<std::pair<Str, Str>> v = {{{"a b c d e"}, {"a b c d e"}}, {{"a b c d", "x"}, {"a b c d e", "y z"}}, {{"a b c d x", "", "b c d e"}, {"a b c d", "q", "b c d e f g"}}, {{"a b"}, {"a b"}}, {{"\xc3\xa1 b c d e f g", "h"}, {"\xc3\xa1 b c d f g", "h i"}}};
  auto& t = c.pick(v); int prog = c.choose(3); Stats s; double e = 0, rw = 0; std::string C, R; for (size_t i = 0; i < t.first.size(); ++i) { Stats u = stats(words(t.first[i]), words(t.second[i])); for (int k = 0; k < 10; ++k) s.v[k] += u.v[k]; e += edits(words(t.first[i]), words(t.second[i])); rw += words(t.second[i]).size(); C += t.first[i] + "\n"; R += t.second[i] + "\n"; }
  std::string d = freshDir(c); mc::writeFile(d + "/c", C); mc::writeFile(d + "/r", R); c.state(str(prog, C, R));
  if (prog == 2) { auto r = runCmd(c, {"python3", repo("utils/stack_dec/thot_calc_wer.py"), "-r", d + "/r", "-t", d + "/c"}); double w = -1, a = -1, b = -1; c.checkf(r.ok() && sscanf(r.out.c_str(), "WER: %lf ( %lf / %lf )", &w, &a, &b) == 3, [&] { return "thot_calc_wer prints '" + r.out + "'"; }); c.checkf(close(w, e / rw, 1e-4, 1e-4) && a == e && b == rw, [&] { return "thot_calc_wer prints " + r.out; }); return; }
  std::vector<std::string> args = {bin("thot_calc_bleu"), "-r", d + "/r", "-t", d + "/c"}; if (prog == 1) args.push_back("-sm"); auto r = runCmd(c, args); c.checkf(r.ok(), [&] { return "thot_calc_bleu fails: " + r.err; });
  double p[4], want = 0; for (int n = 1; n <= 4; ++n) { p[n - 1] = s.v[2 * n + 1] ? s.v[2 * n] / s.v[2 * n + 1] : 0; want += p[n - 1] / std::pow(2.0, 5 - n); }
  double x, bp, q[4]; if (prog == 1) { c.checkf(sscanf(r.out.c_str(), "Smoothed BLEU= %lf", &x) == 1 && close(x, want, 1e-4, 1e-4), [&] { return "thot_calc_bleu -sm prints " + r.out + " instead of " + str(want); }); return; }
  c.checkf(sscanf(r.out.c_str(), "BLEU= %lf , BP= %lf , %lf / %lf / %lf / %lf", &x, &bp, q, q + 1, q + 2, q + 3) == 6 && close(x, bleuOf(s, 0), 1e-4, 1e-4) && close(q[0], p[0], 1e-4, 1e-4) && close(q[1], p[1], 1e-4, 1e-4) && close(q[2], p[2], 1e-4, 1e-4) && close(q[3], p[3], 1e-4, 1e-4), [&] { return "thot_calc_bleu prints " + r.out + " instead of BLEU " + str(bleuOf(s, 0)); });
}
int main(int argc, char** argv) {
  if (!getenv("MC_STDERR")) freopen("/dev/null", "w", stderr);
  return run(argc, argv, "P15", {{"sentences", "all pairs of sentences of up to 5 words (6 in the thorough tier) over 2 words", sentences, 4},
    {"structured", "all pairs of up to 3 (4) words over 3 words with plain and irregular blanks; periodic sentences of 7, 40 and 200 words with 6 kinds of changes", structured, 3},
    {"characters", "all pairs of strings of up to 4 characters (references of 5 in the thorough tier) over two letters and a blank; longer and non-ASCII texts", characters, 4},
    {"corpus", "all corpora of up to 2 (3) sentence pairs out of 8 x 8, in memory and in files", corpus, 3},
    {"background", "all histories of 4 (5) background updates or resets over 4 sentence pairs and 3 decays", background, 3},
    {"programs", "thot_calc_bleu, its smoothed form and thot_calc_wer over 5 corpora", programs, 1}});
}
