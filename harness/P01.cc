// P01: phrase tables (Stl, HatTrie, LevelDb) are exact maps of counts, and agree with each other
// SOURCES: phrase_models/StlPhraseTable.cc phrase_models/HatTriePhraseTable.cc phrase_models/LevelDbPhraseTable.cc
#include "mc.h"
#include "StlPhraseTable.h"
#include "HatTriePhraseTable.h"
#include "LevelDbPhraseTable.h"
#include <memory>
#include <cfloat>
using namespace mc;
typedef std::vector<WordIndex> Ph;

static bool thorough() { const char* t = getenv("VERIF_TIER"); return t && std::string(t) == "thorough"; }
static std::string pv(const Ph& p) { return "[" + join(p) + "]"; }

struct Model {
  std::map<Ph, float> s, t; std::map<std::pair<Ph, Ph>, float> st;
  float S(const Ph& a) const { auto i = s.find(a); return i == s.end() ? 0 : i->second; }
  float T(const Ph& a) const { auto i = t.find(a); return i == t.end() ? 0 : i->second; }
  float ST(const Ph& a, const Ph& b) const { auto i = st.find({a, b}); return i == st.end() ? 0 : i->second; }
  void incr(const Ph& a, const Ph& b, float c) { s[a] += c; t[b] += c; st[{a, b}] += c; }
  void add(const Ph& a, const Ph& b, float cs, float cst) { s[a] = cs; t[b] += cst; st[{a, b}] = cst; }
  void clear() { s.clear(); t.clear(); st.clear(); }
  size_t size() const { return s.size() + t.size() + st.size(); }
  std::string str() const {
    std::ostringstream o;
    for (auto& x : s) o << "s" << pv(x.first) << "=" << x.second << ";";
    for (auto& x : t) o << "t" << pv(x.first) << "=" << x.second << ";";
    for (auto& x : st) o << pv(x.first.first) << pv(x.first.second) << "=" << x.second << ";";
    return o.str();
  }
};

static bool eq(double a, double b) { return close(a, b, 1e-5, 1e-6); }

static void checkNbest(Ctx& c, const std::string& w, bool found, NbestTableNode<PhraseTransTableNodeData>& nb, std::map<Ph, double> exp, int N) {
  c.checkf(found == !exp.empty(), [&] { return w + ": found=" + str(found) + " although the map holds " + str(exp.size()) + " entries"; });
  size_t want = N >= 0 && (size_t)N < exp.size() ? N : exp.size();
  c.checkf(nb.size() == want, [&] { return w + ": " + str(nb.size()) + " entries instead of " + str(want); });
  std::vector<double> sc; for (auto& x : exp) sc.push_back(x.second);
  std::sort(sc.rbegin(), sc.rend());
  std::set<Ph> seen; size_t i = 0;
  for (auto it = nb.begin(); it != nb.end(); it++, ++i) {
    Ph p = it->second; double s = it->first;
    c.checkf(exp.count(p) && seen.insert(p).second, [&] { return w + ": unexpected or repeated entry " + pv(p); });
    c.checkf(eq(s, exp[p]), [&] { return w + ": score of " + pv(p) + " is " + str(s) + " instead of " + str(exp[p]); });
    c.checkf(eq(s, sc[i]), [&] { return w + ": entry " + str(i) + " does not have the next best score"; });
  }
}

static void checkTable(Ctx& c, const std::string& name, BasePhraseTable& tab, const Model& m, const std::vector<Ph>& S, const std::vector<Ph>& T, bool forSource) {
  c.checkf(tab.size() == m.size(), [&] { return name + ": size() is " + str(tab.size()) + " instead of " + str(m.size()) + " in " + m.str(); });
  for (auto& s : S) {
    bool found; double v = tab.getSrcInfo(s, found).get_c_s();
    c.checkf(found == (bool)m.s.count(s) && eq(v, m.S(s)), [&] { return name + ": getSrcInfo" + pv(s) + " = " + str(v) + "," + str(found) + " in " + m.str(); });
    c.checkf(eq(tab.cSrc(s).get_c_s(), m.S(s)), [&] { return name + ": cSrc" + pv(s) + " = " + str(tab.cSrc(s).get_c_s()) + " in " + m.str(); });
  }
  for (auto& t : T) c.checkf(eq(tab.cTrg(t).get_c_st(), m.T(t)), [&] { return name + ": cTrg" + pv(t) + " = " + str(tab.cTrg(t).get_c_st()) + " in " + m.str(); });
  for (auto& s : S) for (auto& t : T) {
    bool found; double v = tab.getSrcTrgInfo(s, t, found).get_c_st();
    c.checkf(found == (bool)m.st.count({s, t}) && eq(v, m.ST(s, t)), [&] { return name + ": getSrcTrgInfo" + pv(s) + pv(t) + " = " + str(v) + "," + str(found) + " in " + m.str(); });
    c.checkf(eq(tab.cSrcTrg(s, t).get_c_st(), m.ST(s, t)), [&] { return name + ": cSrcTrg" + pv(s) + pv(t) + " in " + m.str(); });
    PhrasePairInfo ppi = tab.infSrcTrg(s, t, found);
    c.checkf(found == (m.s.count(s) && m.st.count({s, t})) && eq(ppi.first.get_c_s(), m.S(s)) && eq(ppi.second.get_c_st(), m.ST(s, t)), [&] { return name + ": infSrcTrg" + pv(s) + pv(t) + " in " + m.str(); });
    double st = m.ST(s, t), ptgs = st > 0 && m.S(s) > 0 ? st / m.S(s) : 1e-10, psgt = st > 0 && m.T(t) > 0 ? st / m.T(t) : 1e-10;
    auto smooth = [](double a, double b) { return b == 1e-10 ? std::fabs(a - 1e-10) < 1e-12 : eq(a, b); };
    c.checkf(smooth((double)tab.pTrgGivenSrc(s, t), ptgs), [&] { return name + ": pTrgGivenSrc" + pv(s) + pv(t) + " = " + str((double)tab.pTrgGivenSrc(s, t)) + " instead of " + str(ptgs) + " in " + m.str(); });
    c.checkf(smooth((double)tab.pSrcGivenTrg(s, t), psgt), [&] { return name + ": pSrcGivenTrg" + pv(s) + pv(t) + " = " + str((double)tab.pSrcGivenTrg(s, t)) + " instead of " + str(psgt) + " in " + m.str(); });
    c.checkf(eq((double)tab.logpTrgGivenSrc(s, t), std::log(ptgs)) && eq((double)tab.logpSrcGivenTrg(s, t), std::log(psgt)), [&] { return name + ": log probabilities of " + pv(s) + pv(t) + " in " + m.str(); });
  }
  for (auto& t : T) {
    std::map<Ph, double> exp;
    for (auto& x : m.st) if (x.first.second == t && x.second > EPSILON && m.S(x.first.first) > EPSILON) exp[x.first.first] = std::log(x.second / m.T(t));
    BasePhraseTable::SrcTableNode node; node[{77}] = PhrasePairInfo();
    bool found = tab.getEntriesForTarget(t, node);
    c.checkf(found == !exp.empty() && node.size() == exp.size(), [&] { return name + ": getEntriesForTarget" + pv(t) + " returned " + str(found) + " and " + str(node.size()) + " entries instead of " + str(exp.size()) + " in " + m.str(); });
    for (auto& x : node) c.checkf(exp.count(x.first) && eq(x.second.first.get_c_s(), m.S(x.first)) && eq(x.second.second.get_c_st(), m.ST(x.first, t)), [&] { return name + ": getEntriesForTarget" + pv(t) + " entry " + pv(x.first) + " in " + m.str(); });
    for (int N : {-1, 0, 1, 2}) {
      NbestTableNode<PhraseTransTableNodeData> nb;
      bool f = tab.getNbestForTrg(t, nb, N);
      checkNbest(c, name + ": getNbestForTrg" + pv(t) + " N=" + str(N) + " in " + m.str(), f, nb, exp, N);
    }
  }
  if (forSource) for (auto& s : S) {
    std::map<Ph, double> exp;
    for (auto& x : m.st) if (x.first.first == s && x.second > EPSILON && m.T(x.first.second) > EPSILON) exp[x.first.second] = m.S(s) > 0 ? std::log(x.second / m.S(s)) : INFINITY;
    BasePhraseTable::TrgTableNode node; node[{77}] = PhrasePairInfo();
    bool found = tab.getEntriesForSource(s, node);
    c.checkf(found == !exp.empty() && node.size() == exp.size(), [&] { return name + ": getEntriesForSource" + pv(s) + " returned " + str(found) + " and " + str(node.size()) + " entries instead of " + str(exp.size()) + " in " + m.str(); });
    for (auto& x : node) c.checkf(exp.count(x.first) && eq(x.second.first.get_c_s(), m.T(x.first)) && eq(x.second.second.get_c_st(), m.ST(s, x.first)), [&] { return name + ": getEntriesForSource" + pv(s) + " entry " + pv(x.first) + " in " + m.str(); });
    NbestTableNode<PhraseTransTableNodeData> nb;
    bool f = tab.getNbestForSrc(s, nb);
    checkNbest(c, name + ": getNbestForSrc" + pv(s) + " in " + m.str(), f, nb, exp, -1);
  }
  c.checkf(tab.size() == m.size(), [&] { return name + ": queries changed size() from " + str(m.size()) + " to " + str(tab.size()) + " in " + m.str(); });
}

static void checkIterStl(Ctx& c, StlPhraseTable& tab, const Model& m) {
  size_t n = 0; Model seen;
  for (auto it = tab.begin(); it != tab.end(); it++) {
    auto e = *it; ++n;
    c.check(n <= m.size(), "StlPhraseTable: iteration yields more elements than size()");
    auto& s = e.first.first; auto& t = e.first.second;
    if (t.empty()) { c.checkf(m.s.count(s) && e.second == (int)m.S(s) && !seen.s.count(s), [&] { return "Stl iteration, source " + pv(s) + " in " + m.str(); }); seen.s[s] = 1; }
    else if (s.empty()) { c.checkf(m.t.count(t) && e.second == (int)m.T(t) && !seen.t.count(t), [&] { return "Stl iteration, target " + pv(t) + " in " + m.str(); }); seen.t[t] = 1; }
    else { c.checkf(m.st.count({s, t}) && e.second == (int)m.ST(s, t) && !seen.st.count({s, t}), [&] { return "Stl iteration, pair " + pv(s) + pv(t) + " in " + m.str(); }); seen.st[{s, t}] = 1; }
  }
  c.checkf(n == m.size(), [&] { return "StlPhraseTable: iteration yields " + str(n) + " elements in " + m.str(); });
}
static void checkIterHat(Ctx& c, HatTriePhraseTable& tab, const Model& m) {
  std::set<Ph> seen;
  for (auto it = tab.begin(); it != tab.end(); it++) {
    auto e = *it;
    c.checkf(m.t.count(e.first) && eq(e.second.get_c_s(), m.T(e.first)) && seen.insert(e.first).second, [&] { return "HatTrie iteration yields " + pv(e.first) + "=" + str(e.second.get_c_s()) + " in " + m.str(); });
  }
  for (auto& x : m.t) c.checkf(x.second < EPSILON || seen.count(x.first), [&] { return "HatTrie iteration misses target " + pv(x.first) + " in " + m.str(); });
}
static void checkIterLdb(Ctx& c, LevelDbPhraseTable& tab, const Model& m) {
  size_t n = 0; Model seen;
  for (auto it = tab.begin(); it != tab.end(); it++) { auto e = *it; (void)e; ++n; c.check(n <= m.size(), "LevelDb: iteration yields more elements than stored"); }
  c.checkf(n == m.size(), [&] { return "LevelDb: iteration yields " + str(n) + " elements in " + m.str(); });
}

// one operation, chosen, on the model and on every table
struct Tables { std::vector<BasePhraseTable*> t; };
static void op(Ctx& c, const std::vector<Ph>& S, const std::vector<Ph>& T, const std::vector<float>& counts, Model& m, const Tables& tabs, bool queries) {
  const unsigned nPair = S.size() * T.size(), nCnt = counts.size();
  unsigned total = nPair * nCnt          // incrCountsOfEntry
                 + nPair * 2             // addTableEntry
                 + S.size()              // addSrcInfo
                 + nPair                 // addSrcTrgInfo (of known phrases)
                 + 1;                    // clear
  unsigned o = c.choose(total);
  c.step();
  if (o < nPair * nCnt) {
    const Ph &s = S[o / nCnt / T.size()], &t = T[o / nCnt % T.size()]; float n = counts[o % nCnt];
    c.log("incrCountsOfEntry " + pv(s) + pv(t) + " " + str(n));
    for (auto x : tabs.t) x->incrCountsOfEntry(s, t, Count(n));
    m.incr(s, t, n); return;
  }
  o -= nPair * nCnt;
  if (o < nPair * 2) {
    const Ph &s = S[o / 2 / T.size()], &t = T[o / 2 % T.size()]; float cs = o % 2 ? 5 : 3, cst = o % 2 ? 0 : 2;
    c.log("addTableEntry " + pv(s) + pv(t) + " src=" + str(cs) + " joint=" + str(cst));
    for (auto x : tabs.t) x->addTableEntry(s, t, PhrasePairInfo(Count(cs), Count(cst)));
    m.add(s, t, cs, cst); return;
  }
  o -= nPair * 2;
  if (o < S.size()) {
    c.log("addSrcInfo " + pv(S[o]) + " 4");
    for (auto x : tabs.t) x->addSrcInfo(S[o], Count(4));
    m.s[S[o]] = 4; return;
  }
  o -= S.size();
  if (o < nPair) {
    const Ph &s = S[o / T.size()], &t = T[o % T.size()];
    if (!m.s.count(s) || !m.t.count(t)) { c.log("addSrcTrgInfo not applicable"); return; }
    c.log("addSrcTrgInfo " + pv(s) + pv(t) + " 7");
    for (auto x : tabs.t) x->addSrcTrgInfo(s, t, Count(7));
    m.st[{s, t}] = 7; return;
  }
  c.log("clear");
  for (auto x : tabs.t) x->clear();
  m.clear();
}

static void memOps(Ctx& c) {
  static const std::vector<Ph> S = {{3}, {3, 4}}, T = {{3}, {3, 4}};
  static const std::vector<Ph> QS = {{3}, {3, 4}, {4}}, QT = {{3}, {3, 4}, {4}};
  StlPhraseTable stl; HatTriePhraseTable hat; Model m;
  unsigned len = c.choose(thorough() ? 5 : 4);
  bool early = len >= 1 && len <= 2 ? c.flip() : false;   // queries between the operations
  for (unsigned i = 0; i < len; ++i) {
    op(c, S, T, {1, 2.5f, 0}, m, {{&stl, &hat}}, false);
    if (early) { checkTable(c, "StlPhraseTable", stl, m, QS, QT, true); checkTable(c, "HatTriePhraseTable", hat, m, QS, QT, true); }
  }
  c.state(m.str());
  checkTable(c, "StlPhraseTable", stl, m, QS, QT, true); checkIterStl(c, stl, m);
  checkTable(c, "HatTriePhraseTable", hat, m, QS, QT, true); checkIterHat(c, hat, m);
  checkTable(c, "StlPhraseTable", stl, m, QS, QT, true);
  c.outcome(m.str());
}

static LevelDbPhraseTable& ldbTable(Ctx& c) {
  static std::map<std::string, std::unique_ptr<LevelDbPhraseTable>> tabs;
  auto& p = tabs[c.scratch()];
  if (!p) { p.reset(new LevelDbPhraseTable()); if (p->init(c.scratch() + "/db") != THOT_OK) c.fail("LevelDbPhraseTable::init failed"); }
  else p->clear();
  return *p;
}
static void ldbOps(Ctx& c) {
  static const std::vector<Ph> S = {{3}, {3, 4}}, T = {{3}, {3, 4}};
  static const std::vector<Ph> QS = {{3}, {3, 4}, {4}}, QT = {{3}, {3, 4}, {4}};
  LevelDbPhraseTable& db = ldbTable(c); Model m;
  unsigned len = c.choose(thorough() ? 5 : 4);
  for (unsigned i = 0; i < len; ++i) op(c, S, T, {1, 2, 0}, m, {{&db}}, false);
  bool reopen = len < 3 ? c.flip() : true;
  c.state(m.str() + str(reopen));
  if (reopen) { c.log("reopen"); c.step(); c.check(db.load(c.scratch() + "/db") == THOT_OK, "LevelDbPhraseTable::load failed on the database it wrote"); }
  checkTable(c, "LevelDbPhraseTable", db, m, QS, QT, false); checkIterLdb(c, db, m);
  c.outcome(m.str());
}

// keys: no two phrase pairs may collide and none may be lost, whatever the word indices are
static std::vector<Ph> keyPhrases(bool wide) {
  std::vector<WordIndex> w = wide ? std::vector<WordIndex>{0, 1, 3, 252, 253, 254, 255, 507, 508, 64515, 64516, 64517, 16387063} : std::vector<WordIndex>{0, 1, 3, 253, 254, 64516, 16387063};
  std::vector<Ph> r; for (auto a : w) { r.push_back({a}); for (auto b : w) if (b == w[0] || b == w[1] || b == 254 || b == a || b == 64516) r.push_back({a, b}); }
  return r;
}
static void keyBody(Ctx& c, bool ldb) {
  static const std::vector<Ph> P1 = keyPhrases(false), P2 = keyPhrases(true);
  const std::vector<Ph>& P = ldb && !thorough() ? P1 : P2;
  unsigned i = c.choose(P.size()), j = c.choose(P.size());
  const Ph &a = P[i], &b = P[j];
  std::vector<Ph> Q = {a}; if (a != b) Q.push_back(b);
  Ph ab = a; ab.insert(ab.end(), b.begin(), b.end());
  if (ab != a && ab != b) Q.push_back(ab);
  Model m; m.incr(a, b, 1); m.incr(b, a, 2); m.incr(a, a, 4); m.incr(ab, b, 8); m.incr(a, ab, 16);
  c.log("phrases " + pv(a) + pv(b));
  auto fill = [&](BasePhraseTable& t) { t.incrCountsOfEntry(a, b, Count(1)); t.incrCountsOfEntry(b, a, Count(2)); t.incrCountsOfEntry(a, a, Count(4)); t.incrCountsOfEntry(ab, b, Count(8)); t.incrCountsOfEntry(a, ab, Count(16)); };
  c.step(5); c.state(m.str());
  if (ldb) { LevelDbPhraseTable& t = ldbTable(c); fill(t); checkTable(c, "LevelDbPhraseTable", t, m, Q, Q, false); }
  else {
    HatTriePhraseTable h; fill(h); checkTable(c, "HatTriePhraseTable", h, m, Q, Q, true); checkIterHat(c, h, m);
    StlPhraseTable s; fill(s); checkTable(c, "StlPhraseTable", s, m, Q, Q, true);
  }
  c.outcome(m.str());
}
// growth: tables with many entries (hash-array buckets burst, LevelDB blocks)
static void growth(Ctx& c) {
  static const std::vector<unsigned> sizes = {1, 100, 1000};
  unsigned n = c.pick(sizes); unsigned stride = c.pick(std::vector<unsigned>{1, 7, 253, 4099}); unsigned which = c.choose(3);
  std::unique_ptr<BasePhraseTable> own; BasePhraseTable* t;
  if (which == 0) own.reset(t = new StlPhraseTable()); else if (which == 1) own.reset(t = new HatTriePhraseTable()); else t = &ldbTable(c);
  Model m; std::vector<Ph> S, T;
  for (unsigned i = 0; i < n; ++i) {
    Ph s = {3 + i % 17 * stride, 3 + i * stride}, u = {3 + i / 5 * stride};
    if (i % 3 == 0) s.pop_back();
    t->incrCountsOfEntry(s, u, Count(1 + (int)(i % 4))); m.incr(s, u, 1 + i % 4); c.step();
  }
  for (auto& x : m.s) if (S.size() < 12) S.push_back(x.first);
  S.push_back(m.s.rbegin()->first);
  for (auto& x : m.t) if (T.size() < 12) T.push_back(x.first);
  T.push_back(m.t.rbegin()->first);
  c.log("table " + str(which) + " entries " + str(n)); c.state(str(n, "/", stride)); c.outcome(str(n, "/", stride));
  checkTable(c, which == 0 ? "Stl" : which == 1 ? "HatTrie" : "LevelDb", *t, m, S, T, which != 2);
}

int main(int argc, char** argv) {
  return run(argc, argv, "P01", {
    {"memory", "all operation sequences (increment, add entry, set source count, clear; counts 0/1/2.5) of length <=3 (thorough 4) over 2 nested sources x 2 nested targets on the Stl and HatTrie tables, every query checked after the sequence and, for length <=2, after every operation", memOps, 2},
    {"leveldb", "all operation sequences of length <=3 (thorough 4) with (shorter than 3: also without) closing and reopening the database", ldbOps, 2},
    {"keys-memory", "all pairs of phrases of length 1..2 over word indices at the boundaries of the key encoding", [](Ctx& c) { keyBody(c, false); }, 1},
    {"keys-leveldb", "the same for the LevelDB table", [](Ctx& c) { keyBody(c, true); }, 1},
    {"growth", "tables of 1, 100 and 1000 pairs with 4 key spacings in each of the three tables", growth, 3},
  });
}
