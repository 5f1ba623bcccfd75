// P11: corrections of a word graph given what the user typed
// SOURCES: error_correction/WordGraph.cc error_correction/NbSearchStack.cc error_correction/EditDistForStr.cc error_correction/EditDistForVecString.cc error_correction/PfsmEcm.cc error_correction/PfsmEcmForWg.cc error_correction/_editDistBasedEcm.cc error_correction/BaseErrorCorrectionModel.cc error_correction/WgHandler.cc nlp_common/StrProcUtils.cc nlp_common/AwkInputStream.cc nlp_common/Prob.cc nlp_common/MathFuncs.cc nlp_common/ctimer.c
#include "mc.h"
#include "prog.h"
#include "ecm.h"
#include "PfsmEcmForWg.h"
#include "WgProcessorForAnlp.h"
#include "WgHandler.h"
using namespace mc;
static bool thorough() { const char* t = getenv("VERIF_TIER"); return t && std::string(t) == "thorough"; }
typedef WgProcessorForAnlp<PfsmEcmForWg> Proc;
struct Arc { unsigned p, s; Str w; double sc; };
struct Graph { std::vector<Arc> arcs; std::set<unsigned> fin; double init = 0; };
static std::string show(const Graph& g) { std::string r; for (auto& a : g.arcs) r += str("[", a.p, " ", a.s, " ", a.sc, " '", join(a.w), "']"); return r + (g.init != 0 ? str(" init ", g.init) : ""); }
static void build(const Graph& g, WordGraph& wg) { for (auto& a : g.arcs) wg.addArc(a.p, a.s, a.w, a.sc); for (auto f : g.fin) wg.addFinalState(f); if (g.init != 0) wg.setInitialStateScore(g.init); }
static bool allowed(const std::string& w, const RejectedWordsSet& rej) { for (auto& r : rej) if (!begins(w, r.first) || w == r.first + r.second) return false; return true; }
// best ways to go on from a state: score and words
struct Rest { double sc; std::set<Str> w; };
static Rest restOf(const Graph& g, unsigned s, const RejectedWordsSet* rej) {
  Rest b{-HUGE_VAL, {}}; if (!rej && g.fin.count(s)) b = {0, {Str()}};
  for (auto& a : g.arcs) if (a.p == s && (!rej || allowed(a.w.at(0), *rej))) { Rest r = restOf(g, a.s, nullptr); double sc = r.sc + a.sc; if (sc > b.sc + 1e-9) b = {sc, {}}; if (sc > b.sc - 1e-9) for (auto& w : r.w) { Str x = a.w; x.insert(x.end(), w.begin(), w.end()); b.w.insert(x); } }
  return b;
}
struct Cand { Str head; double sc; Rest rest; };
// every place of the graph where the correction of the prefix may end
static void places(const Graph& g, unsigned s, const Str& head, double sc, const RejectedWordsSet* rej, std::vector<Cand>& out) {
  Rest r = restOf(g, s, rej); if (r.sc != -HUGE_VAL) out.push_back({head, sc, r});
  for (auto& a : g.arcs) if (a.p == s) {
    Str h = head;
    for (size_t i = 0; i < a.w.size(); ++i) { h.push_back(a.w[i]); if (i + 1 == a.w.size() || (rej && !allowed(a.w[i + 1], *rej))) continue; Rest t = restOf(g, a.s, nullptr), u{t.sc + a.sc, {}}; for (auto& w : t.w) { Str x(a.w.begin() + i + 1, a.w.end()); x.insert(x.end(), w.begin(), w.end()); u.w.insert(x); } out.push_back({h, sc, u}); }
    places(g, a.s, h, sc + a.sc, rej, out);
  }
}
struct Typed { Str y; bool complete; std::string text() const { return join(y) + (complete ? " " : ""); } };
static void checkCorrections(Ctx& c, WordRef& ref, const Graph& g, const Typed& t, unsigned n, const RejectedWordsSet& rej, float wgw, float ecw, const NbestCorrections& nb, const std::string& what, bool optimal) {
  std::vector<Cand> cand; places(g, 0, {}, g.init, rej.empty() ? nullptr : &rej, cand);
  std::vector<double> sc; for (auto& k : cand) sc.push_back(wgw * (k.sc + k.rest.sc + g.init) - ecw * ref.dist2(k.head, t.y, !t.complete)); std::vector<double> best = sc; std::sort(best.rbegin(), best.rend());
  // a state is also the place after the last word of the arcs that reach it: only one of them is counted in a tree
  size_t want = std::min<size_t>(n, cand.size()), pos = 0; auto near4 = [](double a, double b) { return close(a, b, 1e-5, 1e-4); };
  if (optimal) c.checkf(nb.size() == want, [&] { return what + str(": ", nb.size(), " corrections instead of ", want); }); else c.check(nb.size() <= n && (nb.empty() == cand.empty()), what + ": number of corrections");
  double last = HUGE_VAL;
  for (auto& k : nb) {
    c.check(k.first <= last, what + ": corrections are not sorted"); last = k.first;
    if (optimal) c.checkf(near4(k.first, best[pos]), [&] { return what + str(": correction ", pos, " [", join(k.second), "] has score ", k.first, " instead of ", best[pos]); });
    bool ok = k.second.size() >= t.y.size(); for (size_t j = 0; ok && j + 1 < t.y.size(); ++j) ok = k.second[j] == t.y[j]; if (ok) ok = t.complete ? k.second[t.y.size() - 1] == t.y.back() : begins(k.second[t.y.size() - 1], t.y.back());
    c.checkf(ok, [&] { return what + ": the correction [" + join(k.second) + "] does not extend the prefix"; });
    bool found = false;
    for (size_t i = 0; i < cand.size() && !found; ++i) {
      if (optimal && !near4(sc[i], k.first)) continue;
      for (auto& h : corrections(ref, cand[i].head, t.y, !t.complete, true)) for (auto& r : cand[i].rest.w) { Str x = h; x.insert(x.end(), r.begin(), r.end()); if (x == k.second) found = true; }
    }
    c.checkf(found, [&] { return what + ": [" + join(k.second) + "] with score " + str(k.first) + " is no minimal correction of a path of the graph followed by its best rest"; }); ++pos;
  }
  c.step();
}
static const float HP = 0.8f;
static PfsmEcmForWg& model() { static PfsmEcmForWg e; return e; }
static WordRef& reference() { static WordRef r(costs({128, HP, 1, 1, 1})); return r; }
static Typed genTyped(Ctx& c, unsigned n, const Str& pool) { Typed t; unsigned l = 1 + c.choose(n); for (unsigned i = 0; i < l; ++i) t.y.push_back(c.pick(pool)); t.complete = c.flip(); return t; }
static const std::vector<Str>& arcWords() { static const std::vector<Str> W = {{"a"}, {"ab"}, {"b", "a"}, {"a", "b", "ab"}}; return W; }
static Graph genTree(Ctx& c, unsigned maxArcs) {
  Graph g; unsigned n = 1 + c.choose(maxArcs), from = 0; for (unsigned i = 0; i < n; ++i) { from += c.choose(i + 1 - from); g.arcs.push_back({from, i + 1, c.pick(arcWords()), i == 0 ? -0.5 : c.choose(2) ? -1.25 : -0.25 * i}); }
  for (unsigned s = 1; s <= n; ++s) { bool leaf = true; for (auto& a : g.arcs) leaf = leaf && a.p != s; if (leaf) g.fin.insert(s); }
  return g;
}
static Graph genDag(Ctx& c, unsigned maxArcs) {
  static const std::pair<unsigned, unsigned> P[] = {{0, 1}, {0, 2}, {0, 3}, {1, 2}, {1, 3}, {2, 3}}; Graph g; unsigned n = 2 + c.choose(maxArcs - 1), at = 0; for (unsigned i = 0; i < n; ++i) { at += c.choose(6 - at); g.arcs.push_back({P[at].first, P[at].second, arcWords()[c.choose(3)], i % 2 ? -1.25 : -0.5 * i}); }
  // every state but the first is reached, every state but the last is left, states have consecutive numbers
  std::set<unsigned> used; for (auto& a : g.arcs) { used.insert(a.p); used.insert(a.s); } if (used.size() != *used.rbegin() + 1) throw Skip();
  for (auto s : used) { bool in = s == 0, out = s == *used.rbegin(); for (auto& a : g.arcs) { in |= a.s == s; out |= a.p == s; } if (!in || !out) throw Skip(); }
  g.fin = {*used.rbegin()}; return g;
}
static const std::vector<RejectedWordsSet>& rejections() { static const std::vector<RejectedWordsSet> R = {{}, {{"", "a"}}, {{"a", ""}}, {{"a", "b"}}, {{"", "ab"}, {"a", ""}}, {{"b", ""}}}; return R; }
static const std::vector<std::pair<float, float>>& mixes() { static const std::vector<std::pair<float, float>> M = {{1, 1}, {2, 0.5f}, {0, 1}, {1, 3}}; return M; }
// one request on a fresh processor over trees
static void trees(Ctx& c) {
  Graph g = genTree(c, thorough() ? 4 : 3); g.init = g.arcs.size() == 2 && c.flip() ? -0.75 : 0; Typed t = genTyped(c, 2, {"a", "b", "ab"}); WordGraph wg; build(g, wg); auto& m = mixes()[g.arcs.size() < 3 ? c.choose(4) : 0]; auto& rej = rejections()[c.choose(g.arcs.size() < 3 || thorough() ? 6 : 3)];
  std::string what = show(g) + " given '" + t.text() + "' weights " + str(m.first, " ", m.second) + " rejections"; for (auto& r : rej) what += " " + r.first + "|" + r.second; c.state(what);
  for (unsigned n : {1u, 3u, 100u}) { Proc p; c.check(p.link_ecm_wg(&model()), "link"); p.link_wg(&wg); p.set_wgw(m.first); p.set_ecmw(m.second); NbestCorrections nb = p.correct(t.text(), n, rej); checkCorrections(c, reference(), g, t, n, rej, m.first, m.second, nb, what + str(" n=", n), true); c.outcome(nb.empty() ? "" : join(nb.begin()->second)); }
}
static std::string listed(const NbestCorrections& nb) { std::multiset<std::string> s; for (auto& k : nb) s.insert(str(std::round(k.first * 1000) / 1000, " ", join(k.second))); return join(s); }
// requests one after another on the same processor
static void sessions(Ctx& c, bool tree) {
  Graph g = tree ? genTree(c, 2) : genDag(c, thorough() ? 5 : 4); WordGraph wg; build(g, wg); Proc p; c.check(p.link_ecm_wg(&model()), "link"); p.link_wg(&wg); p.set_wgw(1); p.set_ecmw(1); std::string what = show(g) + ":"; unsigned ops = tree ? 2 + c.choose(2) : 1 + c.choose(thorough() ? 3 : 2);
  Typed t;
  for (unsigned o = 0; o < ops; ++o) {
    if (o == 0) t = genTyped(c, 2, tree ? Str{"a", "b"} : Str{"a", "b", "ab"});
    else switch (c.choose(6)) {
      case 0: if (!t.complete) t.y.back() += "b"; else { t.y.push_back("a"); t.complete = false; } break;     // one more character
      case 1: if (t.complete) throw Skip(); t.complete = true; break;
      case 2: t.y.push_back("ab"); t.complete = c.flip(); break;
      case 3: if (t.y.size() < 2) throw Skip(); t.y.pop_back(); t.complete = c.flip(); break;
      case 4: t.y[0] = t.y[0] == "b" ? "ab" : "b"; break;                                                    // another first word
      case 5: t.y.insert(t.y.begin(), "b"); break;
    }
    what += " '" + t.text() + "'"; c.state(what); NbestCorrections nb = p.correct(t.text(), 4, {}), all = p.correct(t.text(), 100, {}); c.step();
    if (tree) checkCorrections(c, reference(), g, t, 4, {}, 1, 1, nb, what, true); else checkCorrections(c, reference(), g, t, 4, {}, 1, 1, nb, what, false);
    Proc f; f.link_ecm_wg(&model()); f.link_wg(&wg); f.set_wgw(1); f.set_ecmw(1); NbestCorrections fresh = f.correct(t.text(), 100, {}); c.checkf(listed(fresh) == listed(all), [&] { return what + ": corrections " + listed(all) + ", a fresh processor gives " + listed(fresh); });
    c.outcome(nb.empty() ? "" : join(nb.begin()->second));
  }
}
static void treeSessions(Ctx& c) { sessions(c, true); }
static void dagSessions(Ctx& c) { sessions(c, false); }
// the best path into a state has to be scored with its own score, whatever order its arcs are in
static void recombined(Ctx& c) {
  unsigned bad = c.choose(2); Graph g; g.arcs = {{0, 1, {"a"}, -1}, {0, 1, {"b"}, -3}}; if (bad) std::swap(g.arcs[0], g.arcs[1]); g.arcs.push_back({1, 2, {"ab"}, -1}); g.arcs.push_back({1, 2, {"ba"}, -1.5}); g.fin = {2};
  WordGraph wg; build(g, wg); Proc p; p.link_ecm_wg(&model()); p.link_wg(&wg); p.set_wgw(1); p.set_ecmw(1); Typed t{{"a", "ab"}, true}; std::string what = show(g) + " given 'a ab '"; c.state(what); NbestCorrections nb = p.correct("a ab ", 1, {}); c.step(); c.outcome(str(nb.begin()->first));
  double want = -2 - reference().dist2({"a", "ab"}, {"a", "ab"}, false);
  if (!(nb.size() == 1 && close(nb.begin()->first, want, 1e-4, 1e-4))) c.failKeyed("recombined-state-score", what + str(": the best correction has score ", nb.begin()->first, " instead of ", want));
}
// replacing the word graph
static void relink(Ctx& c) {
  std::vector<Graph> G; for (int i = 0; i < 2; ++i) { Graph g; g.arcs = {{0, 1, {"a"}, -1}, {1, 2, {i ? "b" : "ab", "a"}, -0.5}}; if (i) { g.arcs.push_back({0, 3, {"ba"}, -2}); g.fin.insert(3); } g.fin.insert(2); G.push_back(g); }
  std::vector<WordGraph> W(2); for (int i = 0; i < 2; ++i) build(G[i], W[i]); Proc p; p.link_ecm_wg(&model()); p.set_wgw(1); p.set_ecmw(1); std::string what; unsigned ops = 2 + c.choose(2), at = 0; static const std::vector<Typed> TY = {{{"a"}, false}, {{"a", "b"}, true}, {{"b"}, true}, {{"a", "b"}, false}};
  for (unsigned o = 0; o < ops; ++o) {
    if (o == 0 || c.flip()) { at = c.choose(2); p.link_wg(&W[at]); what += str(" graph ", at); }
    Typed t = c.pick(TY); if (c.flip()) { p.clear(); what += " clear"; p.link_wg(&W[at]); } what += " '" + t.text() + "'"; NbestCorrections nb = p.correct(t.text(), 5, {}); checkCorrections(c, reference(), G[at], t, 5, {}, 1, 1, nb, what, true); c.state(what);
  }
  c.outcome(str(at));
}
// the list of word graphs of a set of sentences
static void handler(Ctx& c) {
  static const std::vector<std::pair<Str, std::string>> F = {{{"a", "b"}, "g1"}, {{"c"}, "/tmp/x.wg"}, {{"a"}, "g3"}, {{"a", "b"}, "later"}, {{"|||", "d"}, "g5"}}; unsigned mask = 1 + c.choose(31); std::string d = freshDir(c), body; std::map<Str, std::string> want;
  for (unsigned i = 0; i < F.size(); ++i) if (mask >> i & 1) { body += join(F[i].first) + (i == 2 ? "  ||| " : " ||| ") + F[i].second + "\n"; want[F[i].first] = F[i].second; } if (c.flip()) body += "\n"; if (c.flip()) body.pop_back(); c.state(body); writeFile(d + "/l", body); WgHandler h; unsigned mode = c.choose(4);
  if (mode & 1) { writeFile(d + "/old", "a ||| old\nold ||| old\n"); c.check(h.load((d + "/old").c_str()) == THOT_OK, "load"); } c.check(h.load((d + "/l").c_str()) == THOT_OK, "load"); c.step();
  if (mode & 2) { c.check(h.print((d + "/copy").c_str()) == THOT_OK, "print"); WgHandler g; c.check(g.load((d + "/copy").c_str()) == THOT_OK, "load of the copy"); h = g; }
  c.check(h.size() == want.size() && !h.empty(), "'" + body + "': " + str(h.size()) + " sentences instead of " + str(want.size()));
  for (auto& s : std::vector<Str>{{"a", "b"}, {"c"}, {"a"}, {"|||", "d"}, {"old"}, {"b"}, {}, {"a", "b", "c"}}) { bool f = s.size() != 1; std::string p = h.pathAssociatedToSentence(s, f); auto w = want.find(s); c.checkf(f == (w != want.end()) && (!f || p == w->second), [&] { return "'" + body + "': the word graph of [" + join(s) + "] is '" + p + "'"; }); }
  c.outcome(str(h.size()));
}
int main(int argc, char** argv) {
  if (!getenv("MC_STDERR")) (void)!freopen("/dev/null", "w", stderr);
  bool t = thorough();
  return run(argc, argv, "P11", {
    {"trees", std::string("all word graphs that are trees of up to ") + (t ? "4" : "3") + " arcs of 1-3 words, all prefixes up to 2 words of 3, last word complete or not, 4 weightings, 6 sets of rejected words, lists of 1, 3 and 100 corrections: scores and corrections are the best ones", trees},
    {"tree-sessions", "all histories of up to 3 requests (6 ways to change what was typed) over trees of up to 2 arcs", treeSessions},
    {"dag-sessions", std::string("all histories of up to ") + (t ? "3" : "2") + " requests over all graphs over 4 states with up to " + (t ? "5" : "4") + " arcs: corrections extend the prefix, stem from a path, equal those of a fresh processor", dagSessions},
    {"recombined", "state reached by two arcs, in both orders", recombined},
    {"relink", "all histories of up to 3 requests with changes of the word graph", relink},
    {"handler", "all lists of word graphs with up to 5 sentences, loaded, loaded over others, printed", handler},
  });
}
