// P02: phrase extraction yields exactly the phrase pairs consistent with the alignment matrix
// SOURCES: phrase_models/PhraseExtractionTable.cc phrase_models/BpSet.cc phrase_models/SrfNodeInfoMap.cc phrase_models/SrfNodeKey.cc phrase_models/TrgCutsTable.cc nlp_common/WordAligMatrix.cc nlp_common/MathFuncs.cc nlp_common/AwkInputStream.cc nlp_common/StrProcUtils.cc
#include "mc.h"
#include "PhraseExtractionTable.h"
using namespace mc;
static bool thorough() { const char* t = getenv("VERIF_TIER"); return t && std::string(t) == "thorough"; }

typedef std::vector<std::vector<unsigned>> Mat;   // [source][target]
struct Params { int maxT; bool constrain, spurious, mono; };
struct Span { int x1, x2, y1, y2; bool operator<(const Span& o) const { return std::tie(x1, x2, y1, y2) < std::tie(o.x1, o.x2, o.y1, o.y2); } };

// The oracle.  Positions are 1-based, spans inclusive.
// Each target word carries the source interval spanned by its links, possibly widened over the whole run of
// unaligned source words at its left or at its right; the source side of a target span is the union over its words.
static std::map<Span, double> oracle(const Mat& m, int I, int J, const Params& p, bool& ambiguous) {
  std::vector<bool> zf(I + 2, false), sp(J + 1, false);
  for (int i = 1; i <= I; ++i) { bool any = false; for (int j = 1; j <= J; ++j) any |= m[i - 1][j - 1] != 0; zf[i] = !any; }
  for (int j = 1; j <= J; ++j) { bool any = false; for (int i = 1; i <= I; ++i) any |= m[i - 1][j - 1] != 0; sp[j] = !any; }
  std::vector<std::set<unsigned>> var(J + 1);
  for (int j = 1; j <= J; ++j) {
    unsigned base = 0; int lo = 0, hi = 0;
    for (int i = 1; i <= I; ++i) if (m[i - 1][j - 1]) { base |= 1u << i; if (!lo) lo = i; hi = i; }
    for (int i = lo + 1; i < hi; ++i) if (zf[i]) base |= 1u << i;
    var[j].insert(base);
    if (lo) {
      unsigned l = base; for (int i = lo - 1; i >= 1 && zf[i]; --i) l |= 1u << i;
      unsigned r = base; for (int i = hi + 1; i <= I && zf[i]; ++i) r |= 1u << i;
      var[j].insert(l); var[j].insert(r);
    }
  }
  std::map<Span, double> out;
  for (int y1 = 1; y1 <= J; ++y1) {
    std::set<unsigned> cov = {0};
    for (int y2 = y1; y2 <= J; ++y2) {
      std::set<unsigned> n; for (unsigned c : cov) for (unsigned v : var[y2]) n.insert(c | v);
      cov = n;
      int len = 0; for (int j = y1; j <= y2; ++j) if (p.spurious || !sp[j]) ++len;
      if (len > p.maxT) continue;
      for (unsigned c : cov) {
        if (!c) continue;
        int lo = 0, hi = 0, cnt = 0; for (int i = 1; i <= I; ++i) if (c >> i & 1) { if (!lo) lo = i; hi = i; ++cnt; }
        if (cnt != hi - lo + 1) continue;                                  // contiguous
        if (y1 == 1 && y2 == J && cnt != I) continue;                       // the whole target goes with the whole source
        if (p.constrain && cnt > p.maxT) continue;
        bool ok = true; double w = 0; int links = 0;
        for (int j = 1; j <= J; ++j) for (int i = 1; i <= I; ++i) if (m[i - 1][j - 1]) {
          bool in = c >> i & 1, inT = j >= y1 && j <= y2;
          if (in && !inT) ok = false;
          if (in && inT) { w += m[i - 1][j - 1]; ++links; }
          if (p.mono && !in && !inT) { if (i < lo ? j > y2 : j < y1) ok = false; }
        }
        if (!ok) continue;
        Span s{lo, hi, y1, y2};
        if (out.count(s)) ambiguous = true;
        out[s] = w / links;
      }
    }
  }
  return out;
}

// all bisegmentations built with the pairs of bp
static void biseg(const std::map<Span, double>& bp, int I, int J, int next, unsigned trg, std::vector<Span>& cur, std::map<Span, double>& uses, double& total) {
  if (next > I) { if (trg == (2u << J) - 2) { total += 1; for (auto& s : cur) uses[s] += 1; } return; }
  for (auto& x : bp) {
    const Span& s = x.first; if (s.x1 != next) continue;
    unsigned t = 0; for (int j = s.y1; j <= s.y2; ++j) t |= 1u << j;
    if (t & trg) continue;
    cur.push_back(s); biseg(bp, I, J, s.x2 + 1, trg | t, cur, uses, total); cur.pop_back();
  }
}

static std::string show(const Mat& m) { std::string r; for (auto& row : m) { for (auto v : row) r += std::to_string(v); r += "/"; } return r; }
static std::string show(const Span& s) { return str("(", s.x1, "-", s.x2, "|", s.y1, "-", s.y2, ")"); }

static void one(Ctx& c, const Mat& m, int I, int J, const Params& p) {
  static PhraseExtractionTable tab;          // reused, as the estimation tools do
  std::vector<std::string> ns = {"NULL"}, t; for (int i = 1; i <= I; ++i) ns.push_back("s" + std::to_string(i)); for (int j = 1; j <= J; ++j) t.push_back("t" + std::to_string(j));
  WordAligMatrix w(I, J); for (int i = 0; i < I; ++i) for (int j = 0; j < J; ++j) w.setValue(i, j, m[i][j]);
  PhraseExtractParameters ph; ph.maxTrgPhraseLength = p.maxT; ph.constraintSrcLen = p.constrain; ph.countSpurious = p.spurious; ph.monotone = p.mono;
  std::string id = str("matrix ", show(m), " max=", p.maxT, " constrainSrc=", p.constrain, " countSpurious=", p.spurious, " monotone=", p.mono);
  c.log(id);
  bool amb = false; auto exp = oracle(m, I, J, p, amb);
  auto spanOf = [&](const PhrasePair& pp, Span& s) {
    auto num = [](const std::string& x) { return std::stoi(x.substr(1)); };
    if (pp.s_.empty() || pp.t_.empty() || pp.s_[0][0] != 's' || pp.t_[0][0] != 't') return false;
    s = Span{num(pp.s_.front()), num(pp.s_.back()), num(pp.t_.front()), num(pp.t_.back())};
    for (size_t i = 0; i < pp.s_.size(); ++i) if (num(pp.s_[i]) != s.x1 + (int)i) return false;
    for (size_t i = 0; i < pp.t_.size(); ++i) if (num(pp.t_[i]) != s.y1 + (int)i) return false;
    return true;
  };
  std::vector<PhrasePair> out; PhrasePair junk; junk.weight = 9; out.push_back(junk);
  c.step(); tab.extractConsistentPhrases(ph, ns, t, w, out);
  std::map<Span, double> got;
  for (auto& pp : out) {
    Span s; c.checkf(spanOf(pp, s), [&] { return id + ": extracted phrases are not contiguous: " + join(pp.s_) + " ||| " + join(pp.t_); });
    c.checkf(!got.count(s), [&] { return id + ": pair " + show(s) + " extracted twice"; });
    got[s] = pp.weight;
    c.checkf(exp.count(s), [&] { return id + ": extracted pair " + show(s) + " is not a consistent pair"; });
    c.checkf(close(pp.weight, exp[s]), [&] { return id + ": weight of " + show(s) + " is " + str(pp.weight) + " instead of " + str(exp[s]); });
  }
  for (auto& x : exp) c.checkf(got.count(x.first), [&] { return id + ": consistent pair " + show(x.first) + " was not extracted"; });
  // bisegmentation based extraction
  std::map<Span, double> uses; double total = 0; std::vector<Span> cur;
  biseg(exp, I, J, 1, 0, cur, uses, total);
  out.assign(1, junk); c.step();
  double lg = tab.segmBasedExtraction(ph, ns, t, w, out);
  if (total == 0) c.checkf(out.empty() && lg < 0, [&] { return id + ": there is no bisegmentation, but " + str(out.size()) + " pairs were extracted, log count " + str(lg); });
  else {
    c.checkf(close(std::exp(lg), total, 1e-3), [&] { return id + ": number of bisegmentations " + str(std::exp(lg)) + " instead of " + str(total); });
    std::map<Span, double> g2;
    for (auto& pp : out) {
      Span s; c.checkf(spanOf(pp, s), [&] { return id + ": bisegmentation pair is not contiguous"; });
      c.checkf(!g2.count(s), [&] { return id + ": bisegmentation pair " + show(s) + " extracted twice"; });
      g2[s] = pp.weight;
      c.checkf(uses.count(s) && close(pp.weight, uses[s] / total, 1e-3), [&] { return id + ": bisegmentation weight of " + show(s) + " is " + str(pp.weight) + " instead of " + str(uses.count(s) ? uses[s] / total : 0.0); });
    }
    for (auto& x : uses) c.checkf(g2.count(x.first), [&] { return id + ": pair " + show(x.first) + " of a bisegmentation is missing"; });
  }
  std::string o; for (auto& x : exp) o += show(x.first);
  c.outcome(o); c.state(id);
}

static void body(Ctx& c, int I, int J, bool allParams, unsigned maxVal) {
  Params p{J, false, true, false};
  if (allParams) { p.maxT = 1 + c.choose(J); p.constrain = c.flip(); p.spurious = !c.flip(); p.mono = c.flip(); }
  else c.choose(1);
  Mat m(I, std::vector<unsigned>(J, 0));
  for (auto& r : m) for (auto& v : r) v = c.choose(maxVal + 1);
  one(c, m, I, J, p);
}

int main(int argc, char** argv) {
  std::vector<Scenario> s;
  auto add = [&](int I, int J, bool all, unsigned mv = 1) {
    s.push_back({str("grid", I, "x", J, all ? "-params" : "", mv > 1 ? "-sums" : ""), str("all alignment matrices with ", I, " source and ", J, " target words, link values 0..", mv, all ? ", every maximum target length, source length constraint, spurious word counting and monotone setting" : ", default parameters"),
                 [=](Ctx& c) { body(c, I, J, all, mv); }, 6});
  };
  add(1, 1, true, 2); add(1, 3, true); add(3, 1, true); add(4, 1, true); add(2, 2, true, 2); add(2, 3, true); add(3, 2, true); add(3, 3, true); add(4, 2, true); add(2, 4, true); add(3, 4, true); add(4, 3, true); add(4, 4, false); add(5, 3, false); add(3, 5, false); add(3, 3, false, 2); add(6, 2, false); add(2, 6, false);
  if (thorough()) { add(4, 4, true); add(5, 4, false); add(4, 5, false); add(6, 3, false); add(3, 6, false); add(4, 3, false, 2); add(8, 2, false); }
  return run(argc, argv, "P02", s);
}
