// P09: word graphs
// SOURCES: error_correction/WordGraph.cc error_correction/NbSearchStack.cc nlp_common/AwkInputStream.cc nlp_common/StrProcUtils.cc nlp_common/MathFuncs.cc
// PROGRAM: thot_wg_proc error_correction/thot_wg_proc.cc error_correction/WordGraph.cc error_correction/NbSearchStack.cc nlp_common/AwkInputStream.cc nlp_common/StrProcUtils.cc nlp_common/MathFuncs.cc nlp_common/options.cc nlp_common/ctimer.c nlp_common/mem_alloc_utils.cc
#include "mc.h"
#include "prog.h"
#include "WordGraph.h"
using namespace mc;
static bool thorough() { const char* t = getenv("VERIF_TIER"); return t && std::string(t) == "thorough"; }
typedef std::vector<std::string> Str;
struct Arc { unsigned p, s; Str w; double sc; std::vector<double> comp; bool pruned; };
struct Graph { std::vector<Arc> arcs; std::set<unsigned> fin; double init = 0; unsigned n = 0; };
static std::string show(const Graph& g) { std::string r = "init " + str(g.init) + " finals " + join(g.fin); for (auto& a : g.arcs) r += str(" [", a.p, " ", a.s, " ", a.sc, " '", join(a.w), "'", a.comp.empty() ? "" : " comps " + join(a.comp), a.pruned ? " pruned" : "", "]"); return r; }
// reads the graph back through its interface, checking that the views of it agree
static Graph extract(Ctx& c, const WordGraph& wg, const std::vector<std::vector<double>>& comps, const std::string& what) {
  Graph g; g.init = wg.getInitialStateScore(); g.n = wg.numStates(); if (wg.numArcs() == 0) { c.check(wg.empty(), what + ": empty"); return g; }
  auto r = wg.getArcIndexRange(); c.check(r.first == 0 && r.second + 1 == wg.numArcs(), what + ": arc range"); unsigned np = 0;
  for (unsigned i = 0; i < wg.numArcs(); ++i) { auto a = wg.wordGraphArcId2WordGraphArc(i); g.arcs.push_back({a.predStateIndex, a.succStateIndex, a.words, a.arcScore, i < comps.size() ? comps[i] : std::vector<double>(), wg.arcPruned(i)}); np += wg.arcPruned(i); c.check(a.predStateIndex < g.n && a.succStateIndex < g.n, what + ": an arc between states that do not exist"); }
  c.check(wg.getNumberOfPrunedAndNonPrunedArcs() == g.arcs.size() && wg.getNumberOfNonPrunedArcs() == g.arcs.size() - np, what + ": numbers of arcs");
  c.checkf(close(wg.calculateDensity(4), (g.arcs.size() - np) / 4.0), [&] { return what + ": density " + str(wg.calculateDensity(4)); });
  for (auto f : wg.getFinalStateSet()) g.fin.insert(f);
  for (unsigned s = 0; s < g.n; ++s) {
    c.check(wg.stateIsFinal(s) == (g.fin.count(s) > 0), what + ": final states");
    std::vector<unsigned> out, in, eo, ei; wg.getArcIdsToSuccStates(s, out); wg.getArcIdsToPredStates(s, in);
    for (unsigned i = 0; i < g.arcs.size(); ++i) { if (g.arcs[i].pruned) continue; if (g.arcs[i].p == s) eo.push_back(i); if (g.arcs[i].s == s) ei.push_back(i); }
    std::vector<unsigned> so = out, si = in; std::sort(so.begin(), so.end()); std::sort(si.begin(), si.end());
    c.checkf(so == eo && si == ei, [&] { return what + str(": arcs leaving state ", s, " are ", join(so), " instead of ", join(eo), ", arcs reaching it ", join(si), " instead of ", join(ei)); });
    std::vector<WordGraphArc> ao, ai; wg.getArcsToSuccStates(s, ao); wg.getArcsToPredStates(s, ai); c.check(ao.size() == out.size() && ai.size() == in.size(), what + ": arcs of a state");
    for (size_t k = 0; k < ao.size(); ++k) c.check(ao[k].predStateIndex == s && ao[k].words == g.arcs[out[k]].w && ao[k].succStateIndex == g.arcs[out[k]].s, what + ": successor arcs of a state");
    for (size_t k = 0; k < ai.size(); ++k) c.check(ai[k].succStateIndex == s && ai[k].words == g.arcs[in[k]].w && ai[k].predStateIndex == g.arcs[in[k]].p, what + ": predecessor arcs of a state");
  }
  return g;
}
typedef std::vector<unsigned> Path;
struct Complete { Path p; double sc; std::string w; std::vector<double> comp; };
// all paths from a state to a final state; excluded arcs are not used
static void walk(const Graph& g, unsigned s, Path& cur, const std::set<unsigned>& ex, std::vector<Path>& out) {
  if (g.fin.count(s)) out.push_back(cur);
  for (unsigned i = 0; i < g.arcs.size(); ++i) if (g.arcs[i].p == s && !g.arcs[i].pruned && !ex.count(i)) { cur.push_back(i); walk(g, g.arcs[i].s, cur, ex, out); cur.pop_back(); }
}
static std::vector<Path> paths(const Graph& g, unsigned s, const std::set<unsigned>& ex = {}) { std::vector<Path> o; Path c; walk(g, s, c, ex, o); return o; }
static double score(const Graph& g, const Path& p, const std::vector<float>* alt = nullptr) { double r = 0; for (auto i : p) if (alt) { for (size_t k = 0; k < alt->size(); ++k) r += (double)(*alt)[k] * g.arcs[i].comp[k]; } else r += g.arcs[i].sc; return r; }
static std::string words(const Graph& g, const Path& p) { std::string r; for (size_t i = 0; i < p.size(); ++i) { if (i) r += " "; r += join(g.arcs[p[i]].w); } return r; }
static std::vector<Complete> complete(const Graph& g) {
  std::vector<Complete> r; for (auto& p : paths(g, 0)) if (!p.empty()) { Complete k; k.p = p; k.sc = g.init + score(g, p); k.w = words(g, p); for (auto i : p) { if (k.comp.empty()) k.comp = g.arcs[i].comp; else { k.comp.resize(std::max(k.comp.size(), g.arcs[i].comp.size())); for (size_t q = 0; q < g.arcs[i].comp.size(); ++q) k.comp[q] += g.arcs[i].comp[q]; } } r.push_back(k); }
  return r;
}
static std::multiset<std::string> language(const Graph& g, int digits = 9) { std::multiset<std::string> r; for (auto& k : complete(g)) { std::ostringstream o; o.precision(digits); o << k.w << " = " << k.sc - g.init << " /" << join(k.comp); r.insert(o.str()); } return r; }
static bool near(double a, double b) { return close(a, b, 1e-9, 1e-7); }
static void queries(Ctx& c, WordGraph& wg, const Graph& g, const std::string& what, bool excl) {
  if (g.arcs.empty()) return;
  auto bestOf = [&](unsigned s, const std::set<unsigned>& ex, const std::vector<float>* alt) { double b = SMALL_SCORE; for (auto& p : paths(g, s, ex)) b = std::max(b, score(g, p, alt)); return b; };
  std::vector<std::set<unsigned>> exs = {{}}; if (excl) { for (unsigned i = 0; i < g.arcs.size(); ++i) exs.push_back({i}); exs.push_back({0, (unsigned)g.arcs.size() - 1}); }
  bool comps = true; for (auto& a : g.arcs) comps = comps && a.comp.size() == 2; std::vector<float> alt = {0.5f, 2}; std::vector<std::pair<std::string, float>> cw; wg.getCompWeights(cw); bool reweigh = comps && cw.size() == 2;
  for (unsigned s = 0; s < g.n; ++s) for (auto& ex : exs) for (int w = 0; w < (reweigh ? 2 : 1); ++w) {
    std::vector<WordGraphArc> av; std::set<WordGraphArcId> e(ex.begin(), ex.end()); double want = bestOf(s, ex, w ? &alt : nullptr); if (want != SMALL_SCORE && s == 0) want += g.init;
    double got = w ? wg.bestPathFromFinalStateToIdxWeights(s, e, alt, av) : wg.bestPathFromFinalStateToIdx(s, e, av); c.step();
    if (want == SMALL_SCORE) { c.checkf(got <= SMALL_SCORE / 2, [&] { return what + str(": score ", got, " from state ", s, " without paths"); }); continue; }
    c.checkf(near(got, want), [&] { return what + str(": best score from state ", s, " without arcs {", join(ex), "} is ", got, " instead of ", want, w ? " with other weights" : ""); });
    double sum = s == 0 ? g.init : 0; unsigned at = s; bool ok = true;
    for (auto i = av.rbegin(); i != av.rend(); ++i) { ok = ok && i->predStateIndex == at; at = i->succStateIndex; if (!w) sum += i->arcScore; }
    c.checkf(ok && g.fin.count(at) && (w || near(sum, want)), [&] { return what + str(": the best path from state ", s, " is no path with its score"); });
  }
  std::vector<Score> rest, prev; std::vector<WordGraphArc> bp; wg.calcRestScores(rest); wg.calcPrevScores(0, {}, prev, bp); c.check(rest.size() == g.n && prev.size() == g.n, what + ": score vectors");
  for (unsigned s = 0; s < g.n; ++s) {
    double want = bestOf(s, {}, nullptr); c.checkf(want == SMALL_SCORE ? rest[s] <= SMALL_SCORE / 2 : near(rest[s], want + g.init), [&] { return what + str(": rest score of state ", s, " is ", rest[s], " instead of ", want + g.init); });
    Graph h = g; h.fin = {s}; double b = SMALL_SCORE; for (auto& p : paths(h, 0)) b = std::max(b, g.init + score(g, p)); c.checkf(b == SMALL_SCORE ? prev[s] <= SMALL_SCORE / 2 : near(prev[s], b), [&] { return what + str(": previous score of state ", s, " is ", prev[s], " instead of ", b); });
  }
  // n-best lists
  auto all = complete(g); std::vector<double> sc; for (auto& k : all) sc.push_back(k.sc); std::sort(sc.rbegin(), sc.rend());
  for (unsigned len : {1u, 2u, 3u, 1000u}) {
    std::vector<std::pair<Score, std::string>> nb; std::vector<NbSearchHighLevelHyp> hl; std::vector<std::vector<Score>> cv; wg.obtainNbestList(len, nb, hl, cv); c.step();
    size_t want = std::min<size_t>(len, sc.size()); c.checkf(nb.size() == want && hl.size() == want, [&] { return what + str(": ", nb.size(), " results of ", want, " in a list of ", len); });
    std::vector<bool> used(all.size(), false); bool cs = comps && want; if (cs) c.check(cv.size() == want, what + ": number of component vectors");
    for (size_t i = 0; i < nb.size(); ++i) {
      c.checkf(near(nb[i].first, sc[i]), [&] { return what + str(": score ", nb[i].first, " at position ", i, " instead of ", sc[i]); });
      bool found = false;
      for (size_t k = 0; k < all.size() && !found; ++k) if (!used[k] && near(all[k].sc, nb[i].first) && all[k].w == nb[i].second && all[k].p.size() == hl[i].size()) {
        bool ok = true; for (size_t q = 0; q < hl[i].size(); ++q) { auto& a = g.arcs[all[k].p[q]]; ok = ok && a.p == hl[i][q].predStateIndex && a.s == hl[i][q].succStateIndex && a.w == hl[i][q].words && near(a.sc, hl[i][q].arcScore); }
        if (cs) { ok = ok && cv[i].size() == 2; for (size_t q = 0; ok && q < 2; ++q) ok = near(cv[i][q], all[k].comp[q]); }
        if (ok) { used[k] = true; found = true; }
      }
      c.checkf(found, [&] { return what + ": '" + nb[i].second + "' with score " + str(nb[i].first) + (cs ? " and components " + join(cv[i]) : "") + " is no path of the graph, or is listed twice"; });
    }
  }
}
static const double logs[] = {0.5, 0.2, 1, 0.01};
enum Op { QUERY, PRUNE, USEFUL, ORDER, WEIGHTS, FILE_, NOPS };
static void operate(Ctx& c, WordGraph& wg, Graph& g, Op op, std::string& what) {
  auto comps = [&] { std::vector<std::vector<double>> r; for (auto& a : g.arcs) r.push_back(a.comp); return r; };
  if (op == PRUNE) {
    unsigned t = c.choose(6); what += t == 5 ? " prune unlimited" : t == 4 ? " prune 0" : str(" prune ", logs[t]);
    double best = -HUGE_VAL; for (auto& k : complete(g)) best = std::max(best, k.sc); if (best == -HUGE_VAL) throw Skip();
    Graph h = g; unsigned np = 0; double thr = t >= 4 ? SMALL_SCORE : std::log((float)logs[t]);
    for (unsigned i = 0; i < g.arcs.size(); ++i) {
      // best complete path through the arc, over arcs that are not pruned yet
      Graph f = g; f.fin = {g.arcs[i].p}; double a = -HUGE_VAL, b = -HUGE_VAL; for (auto& p : paths(f, 0)) a = std::max(a, g.init + score(g, p)); for (auto& p : paths(g, g.arcs[i].s)) b = std::max(b, score(g, p));
      double through = a + g.arcs[i].sc + b; h.arcs[i].pruned = t == 5 ? false : !(through >= best + thr - 1e-6) ; if (t == 4 && through == -HUGE_VAL) h.arcs[i].pruned = true; np += h.arcs[i].pruned;
    }
    unsigned got = wg.prune(t == 5 ? UNLIMITED_DENSITY : t == 4 ? 0 : (float)logs[t]); c.step(); Graph r = extract(c, wg, comps(), what);
    for (unsigned i = 0; i < g.arcs.size(); ++i) c.checkf(r.arcs[i].pruned == h.arcs[i].pruned || (t == 4 && h.arcs[i].pruned), [&] { return what + ": arc " + str(i) + (r.arcs[i].pruned ? " was pruned" : " was not pruned"); });
    if (t != 4) c.check(got == np, what + ": number of pruned arcs"); else h = r;
    g = h;
  } else if (op == USEFUL) {
    what += " useful states"; auto before = language(g); wg.obtainWgComposedOfUsefulStates(); c.step();
    // arcs keep their order, so that the components can be told apart
    std::vector<std::vector<double>> cv; std::set<unsigned> useful; for (auto& k : complete(g)) for (auto i : k.p) useful.insert(i); for (auto i : useful) cv.push_back(g.arcs[i].comp);
    Graph r = extract(c, wg, cv, what); c.checkf(language(r) == before && near(r.init, g.init), [&] { return what + ": the paths of the graph changed to " + show(r); });
    std::set<unsigned> on; for (auto& k : complete(r)) for (auto i : k.p) { on.insert(r.arcs[i].p); on.insert(r.arcs[i].s); }
    c.checkf(r.arcs.size() == useful.size() && on.size() == r.n, [&] { return what + ": useless states or arcs in " + show(r); });
    for (auto f : r.fin) c.checkf(f < r.n || r.arcs.empty(), [&] { return what + ": final state " + str(f) + " does not exist"; });
    g = r;
  } else if (op == ORDER) {
    what += " order"; auto before = language(g); auto pairs = [](const Graph& g) { std::multiset<std::string> s; for (auto& a : g.arcs) s.insert(str(a.p, " ", a.s, " ", a.sc, " ", join(a.w), " ", a.pruned)); return s; }; auto arcs = pairs(g);
    std::vector<Arc> old = g.arcs; wg.orderArcsTopol(); c.step();
    // components follow their arcs; every arc is told apart by its components' second value
    std::vector<std::vector<double>> cv; for (unsigned i = 0; i < wg.numArcs(); ++i) { auto a = wg.wordGraphArcId2WordGraphArc(i); for (auto& o : old) if (o.p == a.predStateIndex && o.s == a.succStateIndex && o.w == a.words && o.sc == a.arcScore) { cv.push_back(o.comp); o.sc = 1e9; break; } }
    Graph r = extract(c, wg, cv, what); c.checkf(pairs(r) == arcs && r.fin == g.fin && near(r.init, g.init), [&] { return what + ": the arcs changed to " + show(r); });
    for (size_t i = 0; i < r.arcs.size(); ++i) for (size_t j = i + 1; j < r.arcs.size(); ++j) c.checkf(r.arcs[i].pruned || r.arcs[j].pruned || r.arcs[j].s != r.arcs[i].p, [&] { return what + ": arcs are not topologically ordered in " + show(r); });
    c.check(language(r) == before, what + ": the paths changed"); g = r;
  } else if (op == WEIGHTS) {
    static const std::vector<std::vector<std::pair<std::string, float>>> K = {{{"x", 0.5f}, {"y", 1}}, {{"x", 2}, {"y", 0}}, {{"x", 1}}};
    auto& k = c.pick(K); what += " weights of " + str(k.size()) + " components " + str(k[0].second); wg.setCompWeights(k); c.step(); for (auto& a : g.arcs) if (a.comp.size() == k.size()) { a.sc = 0; for (size_t i = 0; i < k.size(); ++i) a.sc += k[i].second * a.comp[i]; }
    std::vector<std::pair<std::string, float>> got; wg.getCompWeights(got); c.check(got == k, what + ": weights");
  } else if (op == FILE_) {
    bool useful = c.flip(); what += useful ? " print useful and load" : " print and load"; std::string f = c.scratch() + "/wg"; c.check(wg.print(f.c_str(), useful) == THOT_OK, what + ": print"); c.step();
    WordGraph other; other.addArc(0, 5, {"old"}, -3); other.addFinalState(5); WordGraph fresh; WordGraph& l = c.flip() ? other : fresh; c.check(l.load(f.c_str()) == THOT_OK, what + ": load");
    std::vector<std::vector<double>> cv; std::set<unsigned> st; for (auto& k : complete(g)) for (auto i : k.p) { st.insert(g.arcs[i].p); st.insert(g.arcs[i].s); } for (auto& a : g.arcs) if (!a.pruned && (!useful || (st.count(a.p) && st.count(a.s)))) cv.push_back(a.comp);
    std::vector<std::pair<std::string, float>> w1, w2; wg.getCompWeights(w1); l.getCompWeights(w2); c.check(w1 == w2, what + ": component weights");
    c.checkf(l.numArcs() == cv.size(), [&] { return what + str(": ", l.numArcs(), " arcs instead of ", cv.size()); });
    Graph r = extract(c, l, cv, what); if (r.arcs.size()) { c.checkf(language(r) == language(g) && r.arcs.size() == cv.size(), [&] { return what + ": loaded " + show(r); }); }
    else c.check(cv.empty(), what + ": nothing loaded");
    r.init = 0; wg = l; g = r;
  }
}
static const std::vector<std::vector<Str>>& wordSets() {
  static const std::vector<std::vector<Str>> W = {{{"a"}, {"b"}, {"c"}, {"d"}, {"e"}, {"f"}}, {{"a", "b"}, {"a"}, {"b"}, {"c", "|||"}, {"b", "a"}, {"\xc3\xb1"}}, {{"a"}, {"a"}, {"a"}, {"a"}, {"a"}, {"a"}}};
  return W;
}
static Graph genGraph(Ctx& c, unsigned states, unsigned maxArcs, bool shuffle, std::vector<unsigned>& order) {
  Graph g; std::vector<std::pair<unsigned, unsigned>> pr; for (unsigned p = 0; p < states; ++p) for (unsigned s = p + 1; s < states; ++s) pr.push_back({p, s});
  unsigned n = 1 + c.choose(maxArcs), at = 0; auto& ws = c.pick(wordSets()); bool comps = c.flip(); static const double S[] = {-1, -0.5, -2.25};
  for (unsigned i = 0; i < n; ++i) {
    at += c.choose(pr.size() - at); double s = S[c.choose(i < 3 ? 2 : 1) + (i > 2)]; Arc a{pr[at].first, pr[at].second, ws[i], s, {}, false}; if (comps) a.comp = {s * 2, -0.25 * (i + 1)}; g.arcs.push_back(a);
    if (a.p >= g.n || a.s >= g.n) g.n = std::max(a.p, a.s) + 1;
  }
  // final states: without successors; any state of the graph may be one
  std::vector<unsigned> ends; for (unsigned s = 1; s < states; ++s) { bool out = false, in = false; for (auto& a : g.arcs) { out |= a.p == s; in |= a.s == s; } if (!out && in) ends.push_back(s); }
  if (ends.empty()) throw Skip(); unsigned mask = 1 + c.choose((1u << ends.size()) - 1); for (unsigned k = 0; k < ends.size(); ++k) if (mask >> k & 1) g.fin.insert(ends[k]);
  if (shuffle) { std::vector<unsigned> left; for (unsigned i = 0; i < n; ++i) left.push_back(i); while (!left.empty()) { unsigned k = c.choose(left.size()); order.push_back(left[k]); left.erase(left.begin() + k); } }
  else for (unsigned i = 0; i < n; ++i) order.push_back(i);
  return g;
}
static void build(WordGraph& wg, Graph& g, const std::vector<unsigned>& order) {
  std::vector<Arc> a; for (auto i : order) a.push_back(g.arcs[i]); g.arcs = a; g.n = 0;
  for (auto& x : g.arcs) { if (x.comp.empty()) wg.addArc(x.p, x.s, x.w, x.sc); else wg.addArcWithScrComps(x.p, x.s, x.w, x.sc, x.comp); g.n = std::max(g.n, std::max(x.p, x.s) + 1); }
  for (auto f : g.fin) wg.addFinalState(f); if (g.init != 0) wg.setInitialStateScore(g.init);
}
static std::vector<std::vector<double>> compsOf(const Graph& g) { std::vector<std::vector<double>> r; for (auto& a : g.arcs) r.push_back(a.comp); return r; }
static void graphs(Ctx& c) {
  std::vector<unsigned> order; Graph g = genGraph(c, 4, thorough() ? 5 : 4, false, order); g.init = c.flip() ? -0.5 : 0; WordGraph wg; build(wg, g, order); std::string what = show(g) + ":"; c.state(what);
  Graph r = extract(c, wg, compsOf(g), what); if (!g.arcs[0].comp.empty()) wg.setCompWeights({{"x", 0.5f}, {"y", 0}}); c.check(show(r) == show(g), what + " reads back as " + show(r)); queries(c, wg, g, what, true); c.outcome(str(complete(g).size()));
}
static void histories(Ctx& c) {
  std::vector<unsigned> order; Graph g = genGraph(c, 4, thorough() ? 4 : 3, false, order); g.init = thorough() ? (c.flip() ? -0.5 : 0) : (g.arcs[0].comp.empty() ? 0 : -0.5); WordGraph wg; build(wg, g, order); std::string what = show(g) + ":"; unsigned ops = 1 + c.choose(thorough() ? 3 : 2);
  for (unsigned i = 0; i < ops; ++i) { operate(c, wg, g, (Op)(1 + c.choose(NOPS - 1)), what); c.state(what); }
  queries(c, wg, g, what, false); c.outcome(show(g));
}
static void unordered(Ctx& c) {
  std::vector<unsigned> order; Graph g = genGraph(c, 4, thorough() ? 5 : 4, true, order); WordGraph wg; build(wg, g, order); std::string what = show(g) + ":"; c.state(what);
  operate(c, wg, g, ORDER, what); queries(c, wg, g, what, false); if (c.flip()) { operate(c, wg, g, c.flip() ? USEFUL : PRUNE, what); queries(c, wg, g, what, false); } c.outcome(show(g));
}
// decimal scores whose sums depend on the order of the additions, and words that must survive a file
static void decimals(Ctx& c) {
  static const double S[] = {-0.1, -0.2, -0.3, -0.7, -1.1, -3.3}; unsigned n = 2 + c.choose(thorough() ? 5 : 4); Graph g; for (unsigned i = 0; i < n; ++i) { g.arcs.push_back({i, i + 1, {str("w", i)}, S[c.choose(6)], {}, false}); if (i == 1) g.arcs.push_back({1, 2, {"worse"}, -9.3, {}, false}); }
  g.fin = {n}; WordGraph wg; std::vector<unsigned> o; for (unsigned i = 0; i < g.arcs.size(); ++i) o.push_back(i); if (c.flip()) g.init = -0.7; build(wg, g, o); std::string what = show(g) + ": prune 1"; c.state(what);
  unsigned np = wg.prune(1); c.step(); Graph r = extract(c, wg, compsOf(g), what); c.checkf(np == 1, [&] { return what + ": " + str(np) + " pruned arcs leave " + show(r); }); g = r; queries(c, wg, g, what, false); c.outcome(str(g.arcs.size()));
}
// larger graphs: chains of alternatives
static void lattices(Ctx& c) {
  unsigned len = 2 + c.choose(thorough() ? 9 : 7), alt = 1 + c.choose(3), skip = c.choose(3); Graph g; for (unsigned i = 0; i < len; ++i) { for (unsigned a = 0; a < alt; ++a) g.arcs.push_back({i, i + 1, {str("w", i, "_", a), "x"}, -1.0 - (a * 7 + i * 3) % 5 * 0.25, {-1.0 * a, -0.5 * i}, false}); if (skip && i + 1 + skip <= len) g.arcs.push_back({i, i + 1 + skip, {}, -2.5, {0, -3}, false}); }
  double all = std::pow(alt + 1, len); if (all > 3000) throw Skip(); std::stable_sort(g.arcs.begin(), g.arcs.end(), [](const Arc& a, const Arc& b) { return a.p < b.p; });
  g.fin = {len}; std::vector<unsigned> o; for (unsigned i = 0; i < g.arcs.size(); ++i) o.push_back(i); if (c.flip()) std::reverse(o.begin(), o.end()); bool rev = o[0] != 0; WordGraph wg; build(wg, g, o); std::string what = str("lattice of ", len, " positions with ", alt, " alternatives and skips over ", skip, rev ? " in reverse order:" : ":"); c.state(what);
  if (rev) operate(c, wg, g, ORDER, what); queries(c, wg, g, what, false); operate(c, wg, g, c.flip() ? PRUNE : USEFUL, what); queries(c, wg, g, what, false); c.outcome(str(complete(g).size()));
}
static std::vector<std::string> lines(const std::string& s) { std::vector<std::string> r; std::istringstream i(s); std::string l; while (std::getline(i, l)) r.push_back(l); return r; }
static void program(Ctx& c) {
  static std::vector<Graph> G; if (G.empty()) {
    Graph a; a.arcs = {{0, 1, {"a"}, -1, {}, false}, {0, 1, {"b", "c"}, -2, {}, false}, {1, 2, {"d"}, -0.5, {}, false}, {0, 2, {"e"}, -5, {}, false}, {1, 3, {"dead"}, -0.1, {}, false}}; a.fin = {2}; G.push_back(a);
    Graph b; b.arcs = {{2, 3, {"z"}, -1, {}, false}, {0, 2, {"x"}, -1.5, {}, false}, {0, 1, {"y"}, -1, {}, false}, {1, 3, {"w", "v"}, -0.25, {}, false}}; b.fin = {3}; G.push_back(b);
    Graph d = a; for (unsigned i = 0; i < d.arcs.size(); ++i) d.arcs[i].comp = {-1.0 * i, d.arcs[i].sc}; G.push_back(d);
  }
  unsigned gi = c.choose(G.size()); Graph g = G[gi]; for (auto& x : g.arcs) g.n = std::max(g.n, x.s + 1); WordGraph wg; std::vector<unsigned> o; for (unsigned i = 0; i < g.arcs.size(); ++i) o.push_back(i);
  { Graph t = g; build(wg, t, o); } if (gi == 2) wg.setCompWeights({{"p", 0}, {"q", 1}});
  std::string d = freshDir(c), f = d + "/in.wg", out = d + "/out"; c.check(wg.print(f.c_str()) == THOT_OK, "print"); std::string what = "thot_wg_proc on " + show(g);
  std::vector<std::string> cmd = {bin("thot_wg_proc"), "-w", f, "-o", out}; unsigned mode = c.choose(6); double thr = 0; unsigned n = 0;
  if (mode == 0) { n = 1 + c.choose(4); cmd.push_back("-n"); cmd.push_back(str(n)); } else if (mode == 1) cmd.push_back("-t"); else if (mode == 2) cmd.push_back("-u"); else if (mode == 3) { cmd.push_back("-wgp"); thr = c.flip() ? 0.1 : 0.5; cmd.push_back(str(thr)); } else if (mode == 4) { cmd.push_back("-wgp"); thr = 0.1; cmd.push_back("0.1"); cmd.push_back("-n"); n = 3; cmd.push_back("3"); } else { cmd.push_back("-bp"); cmd.push_back("0"); if (gi == 2 && c.flip()) { cmd.push_back("0.5"); cmd.push_back("2"); } }
  for (size_t i = 5; i < cmd.size(); ++i) what += " " + cmd[i];
  if (gi == 1 && mode != 1) throw Skip();   // the other options take topologically ordered graphs
  auto r = runCmd(c, cmd); c.step(); c.state(what); c.checkf(r.ok(), [&] { return what + ": fails with " + str(r.status) + " " + r.err.substr(0, 300); });
  std::vector<std::string> files = lines(runCmd(c, {"/bin/ls", d}).out); std::string got; for (auto& x : files) if (x != "in.wg") got += x + " "; c.outcome(got);
  if (thr > 0) { double best = -HUGE_VAL; for (auto& k : complete(g)) best = std::max(best, k.sc); std::set<unsigned> keep; for (auto& k : complete(g)) if (k.sc >= best + std::log(thr)) for (auto i : k.p) keep.insert(i); for (unsigned i = 0; i < g.arcs.size(); ++i) g.arcs[i].pruned = !keep.count(i); }
  auto nbest = [&](const std::string& file) {
    auto l = lines(readFile(file)); std::vector<Complete> all = complete(g); std::sort(all.begin(), all.end(), [](const Complete& a, const Complete& b) { return a.sc > b.sc; }); size_t k = 0;
    for (auto& x : l) { if (x.empty() || x[0] == '#') continue; c.checkf(k < all.size() && x.find(all[k].w) != std::string::npos && close(atof(x.c_str()), all[k].sc, 1e-4, 1e-4), [&] { return what + ": entry '" + x + "' of the n-best list"; }); ++k; }
    c.checkf(k == std::min<size_t>(n, all.size()), [&] { return what + ": " + str(k) + " n-best entries"; });
  };
  auto wgFile = [&](const std::string& file, bool ordered, bool useful) {
    WordGraph l; c.check(l.load(file.c_str()) == THOT_OK, what + ": no word graph " + file + " among " + got); std::vector<std::vector<double>> none; Graph h = extract(c, l, none, what), g2 = g; for (auto& a : g2.arcs) a.comp.clear();
    c.checkf(language(h) == language(g2), [&] { return what + ": the graph written is " + show(h); });
    if (ordered) { c.check(h.arcs.size() == g.arcs.size(), what + ": arcs lost"); for (size_t i = 0; i < h.arcs.size(); ++i) for (size_t j = i + 1; j < h.arcs.size(); ++j) c.check(h.arcs[j].s != h.arcs[i].p, what + ": not ordered"); }
    if (useful) { std::set<unsigned> on; for (auto& k : complete(h)) for (auto i : k.p) on.insert(i); c.check(on.size() == h.arcs.size(), what + ": useless arcs written"); }
  };
  if (mode == 0) nbest(out + ".nbl"); else if (mode == 4) nbest(out + ".nbl_pruned"); else if (mode == 1) wgFile(out + ".wg_arcs_top_order", true, false); else if (mode == 2) wgFile(out + ".wg_useful", false, true);
  else if (mode == 5) { std::string b = readFile(out + ".bp"); double sc = SMALL_SCORE; std::string w; std::vector<float> alt = {0.5f, 2}; bool a = cmd.size() > 7; for (auto& p : paths(g, 0)) { double s = score(g, p, a ? &alt : nullptr); if (s > sc) { sc = s; w = words(g, p); } } c.checkf(b.find(w) != std::string::npos && b.find(str(sc)) != std::string::npos, [&] { return what + ": best path file '" + b + "' does not tell '" + w + "' " + str(sc); }); }
  else c.log(got);
}
int main(int argc, char** argv) {
  if (!getenv("MC_STDERR")) (void)!freopen("/dev/null", "w", stderr);
  bool t = thorough();
  return run(argc, argv, "P09", {
    {"graphs", std::string("all acyclic graphs over 4 states with up to ") + (t ? "5" : "4") + " arcs (2-3 scores, 3 word patterns, with and without components, every set of final states, initial score 0 or not): adjacency, best paths from every state with every excluded arc and other weights, rest and previous scores, n-best lists of 4 lengths", graphs},
    {"histories", std::string("all sequences of up to ") + (t ? "3 of 5 operations (prune, keep useful states, order, reweight, print and load) over graphs with up to 4 arcs" : "2 of 5 operations (prune, keep useful states, order, reweight, print and load) over graphs with up to 3 arcs"), histories, 5},
    {"unordered", std::string("all orders of adding up to ") + (t ? "5" : "4") + " arcs to graphs over 4 states: ordering, queries, pruning and reduction", unordered, 5},
    {"decimals", "chains of 2-6 arcs with scores that are no sums of powers of two: pruning with threshold 1 keeps the best path", decimals},
    {"lattices", "lattices of up to 10 positions with up to 3 alternatives and skips without words, in both orders", lattices},
    {"program", "thot_wg_proc over 3 word graphs: n-best, order, useful states, pruning, best path", program},
  });
}
