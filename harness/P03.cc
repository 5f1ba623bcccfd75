// P03: word alignment matrices, their symmetrisation and the alignment file operations
// SOURCES: nlp_common/WordAligMatrix.cc nlp_common/printAligFuncs.cc phrase_models/AlignmentExtractor.cc phrase_models/AlignmentContainer.cc nlp_common/AwkInputStream.cc nlp_common/StrProcUtils.cc
#include "mc.h"
#include "WordAligMatrix.h"
#include "AlignmentExtractor.h"
#include "AlignmentContainer.h"
#include "printAligFuncs.h"
#include <fstream>
#include <sstream>
using namespace mc;
static bool thorough() { const char* t = getenv("VERIF_TIER"); return t && std::string(t) == "thorough"; }
typedef std::vector<std::vector<unsigned>> Mat;
static std::string show(const Mat& m) { std::string r; for (auto& x : m) { for (auto v : x) r += std::to_string(v); r += "/"; } return r; }
static WordAligMatrix toW(const Mat& m, int I, int J) { WordAligMatrix w(I, J); for (int i = 0; i < I; ++i) for (int j = 0; j < J; ++j) w.setValue(i, j, m[i][j]); return w; }
static Mat ofW(const WordAligMatrix& w) { Mat m(w.get_I(), std::vector<unsigned>(w.get_J())); for (unsigned i = 0; i < w.get_I(); ++i) for (unsigned j = 0; j < w.get_J(); ++j) m[i][j] = w.getValue(i, j); return m; }

struct O {   // the reference operations
  static bool row(const Mat& m, int i) { for (auto v : m[i]) if (v) return true; return false; }
  static bool col(const Mat& m, int j) { for (auto& r : m) if (r[j]) return true; return false; }
  static bool at(const Mat& m, int i, int j) { return i >= 0 && j >= 0 && i < (int)m.size() && j < (int)m[0].size() && m[i][j]; }
  template <class F> static Mat map2(const Mat& a, const Mat& b, F f) { Mat r = a; for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < a[0].size(); ++j) r[i][j] = f(a[i][j], b[i][j]); return r; }
  static Mat And(const Mat& a, const Mat& b) { return map2(a, b, [](unsigned x, unsigned y) { return x && y ? x : 0u; }); }
  static Mat Or(const Mat& a, const Mat& b) { return map2(a, b, [](unsigned x, unsigned y) { return x || y ? 1u : 0u; }); }
  static Mat Xor(const Mat& a, const Mat& b) { return map2(a, b, [](unsigned x, unsigned y) { return !x != !y ? 1u : 0u; }); }
  static Mat Sub(const Mat& a, const Mat& b) { return map2(a, b, [](unsigned x, unsigned y) { return x && !y ? 1u : 0u; }); }
  static Mat Sum(const Mat& a, const Mat& b) { return map2(a, b, [](unsigned x, unsigned y) { return x + y; }); }
  static Mat tr(const Mat& a) { Mat r(a[0].size(), std::vector<unsigned>(a.size())); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < a[0].size(); ++j) r[j][i] = a[i][j]; return r; }
  // links of the union are added to the intersection, scanning row by row until nothing changes, if both words are
  // still free or the link touches a link horizontally or vertically (refined: but not both)
  static Mat sym(const Mat& a, const Mat& b, bool refined) {
    Mat r = And(a, b), u = Or(a, b); bool ch = true;
    while (ch) {
      ch = false;
      for (int i = 0; i < (int)r.size(); ++i) for (int j = 0; j < (int)r[0].size(); ++j) if (u[i][j] && !r[i][j]) {
        bool h = at(r, i, j - 1) || at(r, i, j + 1), v = at(r, i - 1, j) || at(r, i + 1, j);
        if ((!row(r, i) && !col(r, j)) || ((h || v) && !(refined && h && v))) { r[i][j] = 1; ch = true; }
      }
    }
    return r;
  }
  static Mat gdf(const Mat& a, const Mat& b) {
    Mat r = And(a, b), u = Or(a, b); bool ch = true;
    while (ch) {
      ch = false;
      for (int i = 0; i < (int)r.size(); ++i) for (int j = 0; j < (int)r[0].size(); ++j) if (r[i][j])
        for (int di = -1; di <= 1; ++di) for (int dj = -1; dj <= 1; ++dj) {
          int p = i + di, q = j + dj;
          if ((di || dj) && at(u, p, q) && !r[p][q] && (!row(r, p) || !col(r, q))) { r[p][q] = 1; ch = true; }
        }
    }
    for (const Mat* m : {&a, &b}) for (int i = 0; i < (int)r.size(); ++i) for (int j = 0; j < (int)r[0].size(); ++j) if ((*m)[i][j] && !r[i][j] && (!row(r, i) || !col(r, j))) r[i][j] = 1;
    return r;
  }
};
static Mat chooseMat(Ctx& c, int I, int J, unsigned mx) { Mat m(I, std::vector<unsigned>(J)); for (auto& r : m) for (auto& v : r) v = c.choose(mx + 1); return m; }

static void algebra(Ctx& c, int I, int J, unsigned mx) {
  Mat a = chooseMat(c, I, J, mx), b = chooseMat(c, I, J, mx);
  std::string id = "a=" + show(a) + " b=" + show(b); c.log(id);
  auto same = [&](const char* op, WordAligMatrix& r, const Mat& e) {
    c.step();
    c.checkf(ofW(r) == e, [&] { return std::string(op) + " of " + id + " is " + show(ofW(r)) + " instead of " + show(e); });
  };
  WordAligMatrix wb = toW(b, I, J), w;
  Mat s1 = O::sym(a, b, false), s2 = O::sym(a, b, true), gd = O::gdf(a, b);
  w = toW(a, I, J); w &= wb; same("&=", w, O::And(a, b));
  w = toW(a, I, J); w |= wb; same("|=", w, O::Or(a, b));
  w = toW(a, I, J); w ^= wb; same("^=", w, O::Xor(a, b));
  w = toW(a, I, J); w -= wb; same("-=", w, O::Sub(a, b));
  w = toW(a, I, J); w += wb; same("+=", w, O::Sum(a, b));
  w = toW(a, I, J); w.symmetr1(wb); same("symmetr1", w, s1);
  w = toW(a, I, J); w.symmetr2(wb); same("symmetr2", w, s2);
  w = toW(a, I, J); w.growDiagFinal(wb); same("growDiagFinal", w, gd);
  same("argument", wb, b);
  for (auto* m : {&s1, &s2, &gd}) for (int i = 0; i < I; ++i) for (int j = 0; j < J; ++j)
    c.check(!(a[i][j] && b[i][j]) || (*m)[i][j], "oracle: symmetrisation lost an intersection link");
  w = toW(a, I, J); c.check((w == wb) == (a == b), "operator== of " + id);
  w.transpose(); same("transpose", w, O::tr(a)); w.transpose(); same("transpose twice", w, a);
  w.flip(); Mat f = a; for (auto& r : f) for (auto& v : r) v = !v; same("flip", w, f);
  WordAligMatrix cp(w); same("copy", cp, f); w.reset(); same("copy after the original was reset", cp, f);
  WordAligMatrix other(J + 1, I + 2); other.set(); Mat before = ofW(other);       // other dimensions: not combined
  other &= wb; other |= wb; other ^= wb; other += wb; other -= wb; other.symmetr1(wb); other.symmetr2(wb); other.growDiagFinal(wb); same("operations with a matrix of other dimensions", other, before);
  other = wb; same("assignment", other, b);
  w = toW(a, I, J);
  for (int j = 0; j < J; ++j) c.check(w.jAligned(j) == O::col(a, j), "jAligned of " + id);
  for (int i = 0; i < I; ++i) c.check(w.iAligned(i) == O::row(a, i), "iAligned of " + id);
  for (int i = 0; i < I; ++i) for (int j = 0; j < J; ++j) {
    bool h = O::at(a, i, j - 1) || O::at(a, i, j + 1), v = O::at(a, i - 1, j) || O::at(a, i + 1, j);
    c.check(w.ijHasHorizNeighbours(i, j) == h && w.ijHasVertNeighbours(i, j) == v && w.ijInNeighbourhood(i, j) == (h || v), "neighbours in " + id);
  }
  c.state(id); c.outcome(show(s1) + show(s2) + show(gd));
}
// the alignment vector form: every vector of links survives put and get
static void vectors(Ctx& c) {
  int I = 1 + c.choose(3), J = 1 + c.choose(4);
  std::vector<PositionIndex> v; for (int j = 0; j < J; ++j) v.push_back(c.choose(I + 1));
  c.log("vector " + join(v)); c.step(2);
  WordAligMatrix w(I, J); w.putAligVec(v);
  for (int j = 0; j < J; ++j) for (int i = 0; i < I; ++i) c.checkf(w.getValue(i, j) == (v[j] == (unsigned)i + 1 ? 1 : 0), [&] { return "putAligVec " + join(v); });
  std::vector<PositionIndex> r = {9}; bool ok = w.getAligVec(r);
  c.checkf(ok && r == v, [&] { return "getAligVec gives " + join(r) + " for " + join(v); });
  if (I >= 2) { w.set(0, 0); w.set(1, 0); c.step(); c.checkf(!w.getAligVec(r), [&] { return str("getAligVec must fail when a target word has two links"); }); }
  c.state(join(v) + str(I)); c.outcome(join(v));
}

struct Pair { std::vector<std::string> s, t; Mat m; };
static void writeGiza(const std::string& f, const std::vector<Pair>& ps, bool transposed, int header) {
  std::ofstream o(f); int n = 0;
  for (auto& p : ps) {
    ++n; const auto &s = transposed ? p.t : p.s, &t = transposed ? p.s : p.t; Mat m = transposed ? O::tr(p.m) : p.m;
    if (header == 0) o << "# Sentence pair (" << n << ") source length " << s.size() << " target length " << t.size() << " alignment score : 0.5\n";
    else if (header == 1) o << "# 3\n"; else o << "#\n";
    o << join(t) << "\nNULL ({ ";
    for (size_t j = 0; j < t.size(); ++j) if (!O::col(m, j)) o << j + 1 << " ";
    o << "}) ";
    for (size_t i = 0; i < s.size(); ++i) { o << s[i] << " ({ "; for (size_t j = 0; j < t.size(); ++j) for (unsigned k = 0; k < m[i][j]; ++k) o << j + 1 << " "; o << "}) "; }
    o << "\n";
  }
}
static std::vector<std::string> words(const char* p, int n) { std::vector<std::string> r; for (int i = 1; i <= n; ++i) r.push_back(p + std::to_string(i)); return r; }

static void checkFile(Ctx& c, const std::string& what, const std::string& f, const std::vector<Pair>& exp, const std::vector<float>& reps) {
  AlignmentExtractor ex; c.check(ex.open(f.c_str()) == THOT_OK, what + ": the output file cannot be opened");
  size_t n = 0;
  while (ex.getNextAlignment()) {
    c.step();
    c.checkf(n < exp.size(), [&] { return what + ": more sentence pairs than expected"; });
    auto ns = ex.get_ns(); auto s = exp[n].s; s.insert(s.begin(), "NULL");
    c.checkf(ns == s && ex.get_t() == exp[n].t && ex.get_s() == exp[n].s, [&] { return what + ": sentence pair " + str(n + 1) + " is " + join(ns) + " ||| " + join(ex.get_t()); });
    Mat m = ofW(ex.get_wamatrix());
    c.checkf(m == exp[n].m, [&] { return what + ": alignment of pair " + str(n + 1) + " is " + show(m) + " instead of " + show(exp[n].m); });
    if (reps.size()) c.checkf(ex.get_numReps() == reps[n], [&] { return what + ": repetitions of pair " + str(n + 1) + " are " + str(ex.get_numReps()); });
    ++n;
  }
  c.checkf(n == exp.size(), [&] { return what + ": " + str(n) + " sentence pairs instead of " + str(exp.size()); });
  ex.close();
}
// alignment files: reading, printing, and combining two files (the second one in the opposite direction)
static void files(Ctx& c) {
  int op = c.choose(6); bool transpose = c.flip(); int header = c.choose(3);
  int shape = c.choose(thorough() ? 4 : 3); int I = shape == 0 ? 1 : shape == 3 ? 3 : 2, J = shape == 1 ? 1 : 2;
  if (header && (shape == 0 || shape == 3)) { c.log("skip"); return; }
  Mat a = chooseMat(c, I, J, 1), b = chooseMat(c, I, J, 1);
  Pair p1{words("s", I), words("t", J), a}, q1{p1.s, p1.t, b};
  Pair p2{words("u", 1), words("v", 2), {{1, 0}}}, q2{p2.s, p2.t, {{0, 1}}};
  std::string f1 = c.scratch() + "/f1", f2 = c.scratch() + "/f2", out = c.scratch() + "/out";
  writeGiza(f1, {p1, p2}, false, header); writeGiza(f2, {q1, q2}, transpose, 0);
  static const char* names[] = {"and", "or", "sum", "sym1", "sym2", "grow-diag-final"};
  auto apply = [&](const Mat& x, const Mat& y) { switch (op) { case 0: return O::And(x, y); case 1: return O::Or(x, y); case 2: return O::Sum(x, y); case 3: return O::sym(x, y, false); case 4: return O::sym(x, y, true); default: return O::gdf(x, y); } };
  std::string id = str(names[op], transpose ? " transposed" : "", " header ", header, " a=", show(a), " b=", show(b)); c.log(id);
  float rep = header == 1 ? 3 : 1;
  checkFile(c, "reading, " + id, f1, {p1, p2}, {rep, rep});
  std::vector<Pair> exp = {{p1.s, p1.t, apply(a, b)}, {p2.s, p2.t, apply(p2.m, q2.m)}};
  {
    AlignmentExtractor e; c.check(e.open(f1.c_str()) == THOT_OK, "open"); int r = 0; c.step();
    switch (op) { case 0: r = e.intersect(f2.c_str(), out.c_str(), transpose, false); break; case 1: r = e.join(f2.c_str(), out.c_str(), transpose, false); break; case 2: r = e.sum(f2.c_str(), out.c_str(), transpose, false); break;
      case 3: r = e.symmetr1(f2.c_str(), out.c_str(), transpose, false); break; case 4: r = e.symmetr2(f2.c_str(), out.c_str(), transpose, false); break; default: r = e.growDiagFinal(f2.c_str(), out.c_str(), transpose, false); }
    c.check(r == THOT_OK, "AlignmentExtractor operation failed, " + id); e.close();
  }
  checkFile(c, "AlignmentExtractor " + id, out, exp, {rep, rep});
  {
    AlignmentContainer k; c.check(k.extractAlignmentsFromGIZAFile(f1.c_str(), false) == THOT_OK, "container"); int r = 0; c.step();
    switch (op) { case 0: r = k.intersect(f2.c_str(), transpose); break; case 1: r = k.join(f2.c_str(), transpose); break; case 2: r = k.sum(f2.c_str(), transpose); break;
      case 3: r = k.symmetr1(f2.c_str(), transpose); break; case 4: r = k.symmetr2(f2.c_str(), transpose); break; default: r = k.growDiagFinal(f2.c_str(), transpose); }
    c.check(r == THOT_OK, "AlignmentContainer operation failed, " + id);
    std::ofstream o(out); k.printNoCompact(o); o.close();
    checkFile(c, "AlignmentContainer (not compact) " + id, out, exp, {});
    std::ofstream o2(out); o2 << k; o2.close();
    AlignmentExtractor e; e.open(out.c_str()); size_t n = 0;
    while (e.getNextAlignment()) { ++n; const Pair& x = e.get_t() == exp[0].t && e.get_s() == exp[0].s ? exp[0] : exp[1]; c.checkf(e.get_s() == x.s && e.get_t() == x.t && ofW(e.get_wamatrix()) == x.m && e.get_numReps() == 1, [&] { return "AlignmentContainer (compact) " + id; }); }
    c.check(n == 2, "AlignmentContainer (compact): number of pairs, " + id); e.close();
  }
  c.state(id); c.outcome(show(exp[0].m));
}

int main(int argc, char** argv) {
  std::vector<Scenario> s;
  auto alg = [&](int I, int J, unsigned mx) { s.push_back({str("algebra", I, "x", J, mx > 1 ? "-sums" : ""), str("all pairs of ", I, "x", J, " matrices with values 0..", mx, ", every operation and predicate"), [=](Ctx& c) { algebra(c, I, J, mx); }, 6}); };
  alg(1, 1, 3); alg(1, 2, 2); alg(2, 1, 2); alg(2, 2, 2); alg(1, 4, 1); alg(4, 1, 1); alg(2, 3, 1); alg(3, 2, 1); alg(3, 3, 1); alg(2, 4, 1);
  if (thorough()) { alg(2, 5, 1); alg(4, 2, 1); alg(5, 2, 1); }
  s.push_back({"vectors", "all alignment vectors of up to 4 target words over up to 3 source words", vectors, 3});
  s.push_back({"files", "every operation, direction and header form on two files with all pairs of matrices of up to 2x2 (thorough 3x2) and a second fixed pair", files, 4});
  return run(argc, argv, "P03", s);
}
