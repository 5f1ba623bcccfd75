// P08: edit distances between strings, word sequences and prefixes
// SOURCES: error_correction/EditDistForStr.cc error_correction/EditDistForVecString.cc nlp_common/StrProcUtils.cc nlp_common/AwkInputStream.cc
#include "mc.h"
#include "edit.h"
#include "EditDistForStr.h"
#include "EditDistForVec.h"
#include "EditDistForVecString.h"
using namespace mc;
static bool thorough() { const char* t = getenv("VERIF_TIER"); return t && std::string(t) == "thorough"; }
static std::string show(const Err& e) { return str("hit ", e.h, " insertion ", e.i, " substitution ", e.s, " deletion ", e.d); }
static const std::vector<Err>& models() {
  static const std::vector<Err> M = {{0, 1, 1, 1}, {0, 1, 2, 1}, {0, 2, 3, 1}, {0.5, 1, 1.5, 2}, {1, 1, 1, 1}, {0, 3, 1, 1}, {0.105, 4.5, 2.25, 7}, {0, 1, 1, 5}};
  return M;
}
static std::string genStr(Ctx& c, const std::string& al, unsigned n) { std::string s; unsigned l = c.choose(n + 1); for (unsigned i = 0; i < l; ++i) s += al[c.choose(al.size())]; return s; }
static Str genWords(Ctx& c, const Str& pool, unsigned n) { Str s; unsigned l = c.choose(n + 1); for (unsigned i = 0; i < l; ++i) s.push_back(c.pick(pool)); return s; }
static void opCheck(Ctx& c, double d, double want, unsigned h, unsigned i, unsigned s, unsigned dl, size_t nx, size_t ny, double cost, const std::string& what) {
  c.checkf(close(d, want, 1e-9, 1e-9), [&] { return what + ": distance " + str(d) + " instead of " + str(want); });
  c.checkf(h + s + dl == nx && h + s + i == ny, [&] { return what + str(": ", h, " hits, ", i, " insertions, ", s, " substitutions and ", dl, " deletions do not turn one into the other"); });
  c.checkf(close(cost, want, 1e-9, 1e-9), [&] { return what + ": the operations cost " + str(cost) + " instead of " + str(want); });
}
static void strings(Ctx& c) {
  Err e = c.pick(models()); unsigned n = thorough() ? 7 : 5; std::string x = genStr(c, "ab", n), y = genStr(c, "abc", thorough() ? 5 : 4);
  EditDistForStr ed; ed.setErrorModel(e.h, e.i, e.s, e.d); std::string what = "'" + x + "' to '" + y + "' with " + show(e); c.state(what);
  double want = dist(x, y, e); unsigned h, i, s, d;
  c.checkf(close(ed.calculateEditDist(x, y), want, 1e-9, 1e-9), [&] { return what + ": distance " + str(ed.calculateEditDist(x, y)) + " instead of " + str(want); });
  double r = ed.calculateEditDistOps(x, y, h, i, s, d); opCheck(c, r, want, h, i, s, d, x.size(), y.size(), h * e.h + i * e.i + s * e.s + d * e.d, what);
  std::vector<unsigned> hits; c.step(3);
  {
    std::vector<unsigned> ops; double p = ed.calculateEditDistPrefixOps(x, y, ops), wp = prefDist(x, y, e); unsigned cnt[5] = {0, 0, 0, 0, 0}; double cost = 0; size_t px = 0, py = 0;
    for (auto o : ops) { c.check(o < 4, what + ": unknown operation"); ++cnt[o]; if (o == HIT_OP || o == SUBST_OP) { c.check(px < x.size() && py < y.size(), what + ": operations run over the end"); c.check((x[px] == y[py]) == (o == HIT_OP), what + ": an operation is mislabelled"); ++px; ++py; } else if (o == INS_OP) ++py; else ++px; }
    cost = cnt[HIT_OP] * e.h + cnt[INS_OP] * e.i + cnt[DEL_OP] * e.d + cnt[SUBST_OP] * e.s;
    c.checkf(close(p, wp, 1e-9, 1e-9) && close(ed.calculateEditDistPrefix(x, y), wp, 1e-9, 1e-9), [&] { return what + ": prefix distance " + str(p) + " instead of " + str(wp); });
    c.checkf(py == y.size() && px <= x.size() && close(cost, wp, 1e-9, 1e-9), [&] { return what + ": prefix operations cost " + str(cost) + " instead of " + str(wp); });
    ops.clear(); p = ed.calculateEditDistPrefixOpsNoPrefDel(x, y, ops); cost = 0; px = py = 0;
    for (auto o : ops) { cost += o == HIT_OP ? e.h : o == INS_OP ? e.i : o == DEL_OP ? e.d : e.s; px += o != INS_OP; py += o != DEL_OP; }
    c.checkf(close(p, want, 1e-9, 1e-9) && close(cost, want, 1e-9, 1e-9) && px == x.size() && py == y.size(), [&] { return what + ": prefix distance without free deletions " + str(p) + " by operations that cost " + str(cost) + " instead of " + str(want); });
    c.step(3);
  }
  c.outcome(str(want));
}
static void vectors(Ctx& c) {
  Err e = c.pick(models()); unsigned n = thorough() ? 7 : 5; std::vector<int> x(c.choose(n + 1)), y(c.choose(n)); for (auto& v : x) v = c.choose(2); for (auto& v : y) v = c.choose(3);
  EditDistForVec<int> ed; ed.setErrorModel(e.h, e.i, e.s, e.d); std::string what = "[" + join(x) + "] to [" + join(y) + "] with " + show(e); c.state(what);
  double want = dist(x, y, e); unsigned h, i, s, d; c.check(close(ed.calculateEditDist(x, y), want, 1e-9, 1e-9), what + ": wrong distance");
  double r = ed.calculateEditDistOps(x, y, h, i, s, d); opCheck(c, r, want, h, i, s, d, x.size(), y.size(), h * e.h + i * e.i + s * e.s + d * e.d, what); c.step(2); c.outcome(str(want));
}
static const Str& pool() { static const Str P = {"a", "b", "ab", "ba", "abb"}; return P; }
static void replayWords(Ctx& c, WordRef& ref, const Str& x, const Str& y, bool inc, const std::vector<unsigned>& ops, const std::vector<unsigned>& chars, bool whole, double want, const std::string& what) {
  size_t i = 0, j = 0; double cost = 0;
  for (auto o : ops) {
    c.check(o < 4, what + ": unknown operation");
    bool ux = o != INS_OP, uy = o != DEL_OP; c.check((!ux || i < x.size()) && (!uy || j < y.size()), what + ": operations run over the end");
    bool last = inc && j + 1 == y.size();
    if (ux && uy) cost += ref.sub(x[i], y[j], last); else if (ux) cost += ref.e.d * x[i].size(); else cost += ref.e.i * y[j].size();
    if (o == HIT_OP && last) { std::string w = x[i]; c.checkf(chars.size() == y[j].size() && std::count(chars.begin(), chars.end(), (unsigned)HIT_OP) == (long)chars.size() && w.substr(0, y[j].size()) == y[j], [&] { return what + ": character operations of the last word are wrong"; }); }
    i += ux; j += uy;
  }
  c.checkf(j == y.size() && (!whole || i == x.size()) && close(cost, want, 1e-9, 1e-9), [&] { return what + ": the operations consume " + str(i, " and ", j, " words and cost ", cost, " instead of ", want); });
}
static void words(Ctx& c) {
  Err e = c.pick(models()); unsigned nx = thorough() ? 4 : 3; Str x = genWords(c, pool(), nx), y = genWords(c, pool(), thorough() ? 3 : 2); bool complete = !y.empty() && c.flip();
  EditDistForVecString ed; ed.setErrorModel(e.h, e.i, e.s, e.d); WordRef ref(e); std::string what = "[" + join(x) + "] to [" + join(y) + (complete ? " ]" : "]") + " with " + show(e); c.state(what);
  double full = ref.dist2(x, y, false);
  if (!complete) {
    c.checkf(close(ed.calculateEditDist(x, y), full, 1e-9, 1e-9), [&] { return what + ": distance " + str(ed.calculateEditDist(x, y)) + " instead of " + str(full); });
    unsigned h, i, s, d; double r = ed.calculateEditDistOps(x, y, h, i, s, d); c.check(close(r, full, 1e-9, 1e-9) && h + s + d == x.size() && h + s + i == y.size(), what + ": wrong operation counts");
  }
  Str p = y; if (complete) p.back() += " "; std::vector<unsigned> w, ch; bool inc = !complete;
  {
    double want = ref.pre(x, y, inc), got = ed.calculateEditDistPrefixOps(x, p, w, ch);
    c.checkf(close(got, want, 1e-9, 1e-9) && close(ed.calculateEditDistPrefix(x, p), want, 1e-9, 1e-9), [&] { return what + ": prefix distance " + str(got) + " instead of " + str(want); });
    replayWords(c, ref, x, y, inc, w, ch, false, want, what + " as prefix");
  }
  w.clear(); ch.clear(); double want = ref.dist2(x, y, inc), got = ed.calculateEditDistPrefixOpsNoPrefDel(x, p, w, ch);
  c.checkf(close(got, want, 1e-9, 1e-9), [&] { return what + ": prefix distance without free deletions " + str(got) + " instead of " + str(want); });
  replayWords(c, ref, x, y, inc, w, ch, true, want, what + " as whole prefix"); c.step(5); c.outcome(str(full));
}
// columns extended word by word of x and increment by increment of y equal the distance computed at once
static void increments(Ctx& c) {
  Err e = c.pick(models()); Str x = genWords(c, pool(), 2), y; unsigned n = 1 + c.choose(3); for (unsigned i = 0; i < n; ++i) y.push_back(c.pick(thorough() ? pool() : Str{"a", "ba", "abb"}));
  bool complete = c.flip(); std::vector<unsigned> cut; for (unsigned i = 1; i < n; ++i) if (c.flip()) cut.push_back(i); cut.push_back(n);
  bool cached = c.flip(); EditDistForVecString ed; ed.setErrorModel(e.h, e.i, e.s, e.d); WordRef ref(e); SubstCostMap cache;
  std::string what = "[" + join(x) + "] to [" + join(y) + (complete ? " ]" : "]") + " in steps to " + join(cut) + " with " + show(e); c.state(what);
  // one column per word of x; the words before the last one are complete, and are handed over as such when they close an increment
  std::vector<std::vector<double>> col(x.size() + 1); Str none; col[0].push_back(0);
  for (size_t i = 0; i < x.size(); ++i) col[i + 1].push_back(col[i][0] + ref.e.d * x[i].size());
  unsigned from = 0;
  for (size_t k = 0; k < cut.size(); ++k) {
    Str part(y.begin() + from, y.begin() + cut[k]); bool lastPart = k + 1 == cut.size(); if (!lastPart || complete) part.back() += " ";
    std::vector<Score> row; ed.incrEditDistPrefixFirstRow(part, col[0], row); col[0] = row; c.step();
    for (size_t i = 0; i < x.size(); ++i) { std::vector<int> ops; if (cached) ed.incrEditDistPrefixCached(x[i], part, col[i], cache, col[i + 1], ops); else ed.incrEditDistPrefix(x[i], part, col[i], col[i + 1], ops); c.step(); c.checkf(ops.size() == part.size(), [&] { return what + ": " + str(ops.size()) + " operations for " + str(part.size()) + " words"; }); }
    from = cut[k]; Str yk(y.begin(), y.begin() + from); bool inc = lastPart && !complete;
    for (size_t i = 0; i <= x.size(); ++i) { c.check(col[i].size() == from + 1, what + ": wrong number of positions"); double want = ref.dist2(Str(x.begin(), x.begin() + i), yk, inc); c.checkf(close(col[i][from], want, 1e-9, 1e-9), [&] { return what + ": after " + str(i) + " and " + str(from) + " words " + str(col[i][from]) + " instead of " + str(want); }); }
  }
  c.outcome(str(col.back().back()));
}
// long and unusual sequences
static void sizes(Ctx& c) {
  static const unsigned S[] = {1, 17, 64, 255, 256, 300}; unsigned nx = S[c.choose(6)], ny = S[c.choose(6)], kind = c.choose(3); Err e = c.pick(models()); std::string x, y;
  for (unsigned i = 0; i < nx; ++i) x += (char)(kind == 0 ? 'a' + i % 3 : kind == 1 ? 128 + i % 128 : i * 7 % 5 + '0'); for (unsigned i = 0; i < ny; ++i) y += (char)(kind == 0 ? 'a' + i % 2 : kind == 1 ? 130 + i % 126 : i * 3 % 5 + '0');
  std::string what = str("strings of ", nx, " and ", ny, " characters of kind ", kind, " with ", show(e)); c.state(what); EditDistForStr ed; ed.setErrorModel(e.h, e.i, e.s, e.d); unsigned h, i, s, d; double want = dist(x, y, e), r = ed.calculateEditDistOps(x, y, h, i, s, d);
  opCheck(c, r, want, h, i, s, d, x.size(), y.size(), h * e.h + i * e.i + s * e.s + d * e.d, what); c.step();
  if (nx <= 64 && ny <= 64) { Str a, b; for (unsigned k = 0; k < nx; ++k) a.push_back(str("w", k % 11)); for (unsigned k = 0; k < ny; ++k) b.push_back(str("w", (k * 3) % 13)); EditDistForVecString v; v.setErrorModel(e.h, e.i, e.s, e.d); WordRef ref(e); c.check(close(v.calculateEditDist(a, b), ref.dist2(a, b, false), 1e-9, 1e-9), what + ": wrong word distance"); c.check(close(v.calculateEditDistPrefix(a, b), ref.pre(a, b, true), 1e-9, 1e-9), what + ": wrong word prefix distance"); }
  c.outcome(str(r));
}
int main(int argc, char** argv) {
  if (!getenv("MC_STDERR")) (void)!freopen("/dev/null", "w", stderr);
  std::string n = thorough() ? "7" : "5";
  return run(argc, argv, "P08", {
    {"strings", "all pairs of strings over two and three letters up to " + n + " and " + (thorough() ? "5" : "4") + " characters, 8 error models: distance, operation counts, prefix distance and operations", strings},
    {"vectors", "all pairs of integer sequences up to " + n + " elements, 8 error models", vectors},
    {"words", std::string("all pairs of word sequences up to ") + (thorough() ? "4 and 3" : "3 and 2") + " words of 5, last word complete or not, 8 error models", words},
    {"increments", "all splits of all prefixes up to 3 words into increments against all sentences up to 2 words, 8 error models, with and without cache", increments},
    {"sizes", "strings and sentences of up to 300 units in 3 alphabets", sizes},
  });
}
