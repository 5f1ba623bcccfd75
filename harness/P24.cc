// P24: sorting, merging, filtering and pruning word alignment tables
// SOURCES: sw_models/IncrLexLevelDbTable.cc nlp_common/MathFuncs.cc
// LIBS: -lleveldb
// PROGRAM: thot_sort_bin_ilextable sw_models/thot_sort_bin_ilextable.cc nlp_common/options.cc nlp_common/StrProcUtils.cc nlp_common/AwkInputStream.cc nlp_common/MathFuncs.cc nlp_common/ctimer.c nlp_common/getline.c nlp_common/getdelim.c nlp_common/mem_alloc_utils.cc
// PROGRAM: thot_sort_bin_ihmmatable sw_models/thot_sort_bin_ihmmatable.cc nlp_common/options.cc nlp_common/StrProcUtils.cc nlp_common/AwkInputStream.cc nlp_common/MathFuncs.cc nlp_common/ctimer.c nlp_common/getline.c nlp_common/getdelim.c nlp_common/mem_alloc_utils.cc
// PROGRAM: thot_sort_bin_iibm2atable sw_models/thot_sort_bin_iibm2atable.cc nlp_common/options.cc nlp_common/StrProcUtils.cc nlp_common/AwkInputStream.cc nlp_common/MathFuncs.cc nlp_common/ctimer.c nlp_common/getline.c nlp_common/getdelim.c nlp_common/mem_alloc_utils.cc
// PROGRAM: thot_merge_bin_ilextable sw_models/thot_merge_bin_ilextable.cc nlp_common/options.cc nlp_common/StrProcUtils.cc nlp_common/AwkInputStream.cc nlp_common/MathFuncs.cc nlp_common/ctimer.c nlp_common/getline.c nlp_common/getdelim.c nlp_common/mem_alloc_utils.cc
// PROGRAM: thot_merge_bin_ihmmatable sw_models/thot_merge_bin_ihmmatable.cc nlp_common/options.cc nlp_common/StrProcUtils.cc nlp_common/AwkInputStream.cc nlp_common/MathFuncs.cc nlp_common/ctimer.c nlp_common/getline.c nlp_common/getdelim.c nlp_common/mem_alloc_utils.cc
// PROGRAM: thot_merge_bin_iibm2atable sw_models/thot_merge_bin_iibm2atable.cc nlp_common/options.cc nlp_common/StrProcUtils.cc nlp_common/AwkInputStream.cc nlp_common/MathFuncs.cc nlp_common/ctimer.c nlp_common/getline.c nlp_common/getdelim.c nlp_common/mem_alloc_utils.cc
// PROGRAM: thot_prune_bin_ilextable sw_models/thot_prune_bin_ilextable.cc nlp_common/options.cc nlp_common/StrProcUtils.cc nlp_common/AwkInputStream.cc nlp_common/MathFuncs.cc nlp_common/ctimer.c nlp_common/getline.c nlp_common/getdelim.c nlp_common/mem_alloc_utils.cc
// PROGRAM: thot_filter_bin_ilextable sw_models/thot_filter_bin_ilextable.cc nlp_common/options.cc nlp_common/StrProcUtils.cc nlp_common/AwkInputStream.cc nlp_common/MathFuncs.cc nlp_common/ctimer.c nlp_common/getline.c nlp_common/getdelim.c nlp_common/mem_alloc_utils.cc
// PROGRAM: thot_gen_bin_lex_filter_info sw_models/thot_gen_bin_lex_filter_info.cc nlp_common/options.cc nlp_common/StrProcUtils.cc nlp_common/AwkInputStream.cc nlp_common/MathFuncs.cc nlp_common/ctimer.c nlp_common/getline.c nlp_common/getdelim.c nlp_common/mem_alloc_utils.cc
// PROGRAM: thot_lextable_to_leveldb sw_models/thot_lextable_to_leveldb.cc sw_models/IncrLexLevelDbTable.cc nlp_common/options.cc nlp_common/StrProcUtils.cc nlp_common/AwkInputStream.cc nlp_common/MathFuncs.cc nlp_common/ctimer.c nlp_common/getline.c nlp_common/getdelim.c nlp_common/mem_alloc_utils.cc
#include "prog.h"
#include "IncrLexLevelDbTable.h"
#include <cmath>
#include <cstring>
#include <map>
#include <set>
#include <algorithm>
using namespace mc;
static bool thorough() { const char* t = getenv("VERIF_TIER"); return t && std::string(t) == "thorough"; }
typedef std::vector<unsigned> Key;
struct Rec { Key k; float n = 0, d = 0; bool operator==(const Rec& o) const { return k == o.k && n == o.n && d == o.d; } bool operator<(const Rec& o) const { return std::tie(k, n, d) < std::tie(o.k, o.n, o.d); } };
typedef std::vector<Rec> Table;
// the three kinds of table: lexical (s,t), HMM alignment (prev_i,slen,i), IBM 2 alignment (j,slen,tlen,i); the last field is the event, the others the condition
struct Kind { std::string name, option; std::vector<Key> keys; size_t given() const { return keys[0].size() - 1; } };
static const std::vector<Kind> kinds = {
  {"ilextable", "-l", {{0, 1}, {0, 256}, {1, 3}, {256, 1}, {256, 3}, {65537, 2}}},
  {"ihmmatable", "-a", {{0, 2, 1}, {0, 2, 256}, {0, 256, 1}, {1, 2, 1}, {1, 3, 256}, {256, 2, 1}}},
  {"iibm2atable", "-a", {{1, 2, 2, 0}, {1, 2, 2, 256}, {1, 2, 256, 0}, {1, 3, 2, 0}, {2, 2, 2, 1}, {256, 2, 2, 0}}}};
static Key cond(const Key& k) { return Key(k.begin(), k.end() - 1); }
static std::string enc(const Table& t) { std::string s; for (auto& r : t) { for (unsigned x : r.k) s.append((char*)&x, 4); s.append((char*)&r.n, 4); s.append((char*)&r.d, 4); } return s; }
static Table dec(Ctx& c, const std::string& s, size_t arity) {
  size_t w = 4 * arity + 8; c.check(s.size() % w == 0, "a table of " + std::to_string(s.size()) + " bytes, not a whole number of records"); Table t;
  for (size_t p = 0; p < s.size(); p += w) { Rec r; for (size_t i = 0; i < arity; ++i) { unsigned x; memcpy(&x, &s[p + 4 * i], 4); r.k.push_back(x); } memcpy(&r.n, &s[p + 4 * arity], 4); memcpy(&r.d, &s[p + 4 * arity + 4], 4); t.push_back(r); }
  return t;
}
static std::string g(float x) { char b[40]; snprintf(b, sizeof b, "%g", x); return b; }
static std::string lines(const Table& t, const std::string& chunk = "") { std::string s; for (auto& r : t) { for (unsigned x : r.k) s += std::to_string(x) + " "; s += g(r.n) + " " + g(r.d) + (chunk.empty() ? "" : " " + chunk) + "\n"; } return s; }
static Table parse(Ctx& c, const std::string& s, size_t arity) {
  std::istringstream in(s); std::string l; Table t;
  while (std::getline(in, l)) { std::istringstream q(l); Rec r; r.k.resize(arity); for (auto& x : r.k) q >> x; std::string a, b, e; q >> a >> b; c.check(!q.fail() && !(q >> e), "not a line of a table: '" + l + "'"); r.n = atof(a.c_str()); r.d = atof(b.c_str()); t.push_back(r); }
  return t;
}
static std::string show(const Table& t) { return "{" + lines(t) + "}"; }
static bool sameTable(const Table& a, const Table& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (a[i].k != b[i].k || !mc::close(a[i].n, b[i].n, 2e-5, 2e-5) || !mc::close(a[i].d, b[i].d, 2e-5, 2e-5)) return false; return true; }
static double lsum(double a, double b) { return std::max(a, b) + log1p(exp(-fabs(a - b))); }
static std::string script(const std::string& tool) { return "utils/sw_models/" + tool + ".sh"; }
static Result sh(Ctx& c, const std::string& tool, const std::vector<std::string>& args, const std::string& in = "") { return runScript(c, script(tool), args, in); }
// a table with the chosen keys; the denominators belong to the condition
static Table make(const std::vector<Key>& keys, unsigned mask, int chunk, int values) {
  Table t; for (size_t i = 0; i < keys.size(); ++i) if (mask >> i & 1) {
    Rec r; r.k = keys[i]; Key s = cond(keys[i]); unsigned h = 7 * chunk; for (unsigned x : s) h = h * 5 + x % 7;
    // the values range from plain ones to those that are far apart, and counts of (almost) nothing
    if (values == 0) { r.n = -0.25f * (1 + (i * 5 + chunk * 3) % 7); r.d = 0.5f + 0.25f * (h % 9); }
    else { static const float far[] = {-99999, 0, 850, -800, 12.5f}; r.n = far[(i + 2 * chunk) % 5]; r.d = far[(h + chunk) % 5]; }
    t.push_back(r);
  }
  return t;
}
static Table merged(const std::vector<Table>& chunks) {
  std::map<Key, double> n, d; for (auto& t : chunks) { std::set<Key> seen; for (auto& r : t) { if (n.count(r.k)) n[r.k] = lsum(n[r.k], r.n); else n[r.k] = r.n; Key s = cond(r.k); if (seen.insert(s).second) { if (d.count(s)) d[s] = lsum(d[s], r.d); else d[s] = r.d; } } }
  Table o; for (auto& x : n) { Rec r; r.k = x.first; r.n = x.second; r.d = d[cond(x.first)]; o.push_back(r); } return o;
}
static void sortBody(Ctx& c) {
  const Kind& k = c.pick(kinds); int n = c.choose(5); Table t; for (int i = 0; i < n; ++i) { Rec r; r.k = c.pick(k.keys); r.n = -1.5f * i; r.d = i; t.push_back(r); }
  std::string f = c.scratch() + "/t"; writeFile(f, enc(t)); Result r = runCmd(c, {bin("thot_sort_bin_" + k.name), k.option, f}); c.step();
  Table o = dec(c, r.out, k.given() + 1), a = o, b = t; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); c.state(str(k.name, lines(t)));
  bool ordered = true; for (size_t i = 1; i < o.size(); ++i) if (o[i].k < o[i - 1].k) ordered = false;
  c.checkf(r.ok() && ordered && a == b, [&] { return "thot_sort_bin_" + k.name + " of " + show(t) + " gives " + show(o); });
}
static void mergeBin(Ctx& c, const Kind& k, const std::vector<Table>& in) {
  std::vector<std::string> a = {bin("thot_merge_bin_" + k.name)}; for (size_t i = 0; i < in.size(); ++i) { a.push_back(c.scratch() + "/c" + std::to_string(i)); writeFile(a.back(), enc(in[i])); }
  Result r = runCmd(c, a); c.step(); Table o = dec(c, r.out, k.given() + 1), want = merged(in); std::string s = k.name; for (auto& t : in) s += " " + show(t); c.state(s);
  c.checkf(r.ok() && sameTable(o, want), [&] { return "thot_merge_bin_" + s + " gives " + show(o) + str(" (status ", r.status, "), expected ") + show(want); });
}
static void mergeBody(Ctx& c) {
  const Kind& k = c.pick(kinds); unsigned a = c.choose(64), b = c.choose(64); int values = c.choose(thorough() ? 2 : 1); mergeBin(c, k, {make(k.keys, a, 0, values), make(k.keys, b, 1, values)});
}
static void merge3Body(Ctx& c) {
  const Kind& k = c.pick(kinds); int values = c.choose(2), m = thorough() ? 16 : 8; std::vector<Table> in; for (int i = 0; i < 3; ++i) in.push_back(make(k.keys, c.choose(m), i, values)); mergeBin(c, k, in);
}
static void mergeTextBody(Ctx& c) {
  const Kind& k = c.pick(kinds); int mode = c.choose(4), values = c.choose(2), m = thorough() ? 32 : 16; std::vector<Table> in = {make(k.keys, c.choose(m) << 1, 0, values), make(k.keys, c.choose(m) << 1, 1, values)};
  std::vector<std::pair<Key, std::string>> l; std::string all; for (int i = 0; i < 2; ++i) for (auto& r : in[i]) l.push_back({r.k, lines({r}, "chunk_" + std::to_string(i))});
  // 0: unsorted file, 1: sorted standard input, 2: unsorted standard input, 3: sorted file
  if (mode % 2) std::sort(l.begin(), l.end()); else std::reverse(l.begin(), l.end()); for (auto& x : l) all += x.second;
  std::vector<std::string> a; bool file = mode == 0 || mode == 3; std::string f = c.scratch() + "/t"; if (file) { writeFile(f, all); a = {"-t", f}; } if (mode % 2) a.push_back("-ns"); a.push_back("-T"); a.push_back(c.scratch());
  Result r = sh(c, "thot_merge_text_" + k.name, a, file ? "" : all); c.step(); Table o = parse(c, r.out, k.given() + 1), want = merged(in); c.state(str(k.name, mode, all));
  c.checkf(sameTable(o, want), [&] { return "thot_merge_text_" + k.name + " " + join(a) + " of {" + all + "} gives " + show(o) + r.err + ", expected " + show(want); });
}
static void filterBody(Ctx& c) {
  const Kind& k = kinds[0]; unsigned a = c.choose(64), b = c.choose(64); Table t = make(k.keys, a, 0, 0), f = make(k.keys, b, 1, 0), want = make(k.keys, a & b, 0, 0); std::string d = c.scratch(); writeFile(d + "/t", enc(t)); writeFile(d + "/f", enc(f));
  Result i = runCmd(c, {bin("thot_gen_bin_lex_filter_info"), "-l", d + "/f"}); std::string keys; for (auto& r : f) for (unsigned x : r.k) keys.append((char*)&x, 4);
  c.checkf(i.ok() && i.out == keys, [&] { return "thot_gen_bin_lex_filter_info does not list the entries of " + show(f); }); writeFile(d + "/i", i.out);
  Result r = runCmd(c, {bin("thot_filter_bin_ilextable"), "-l", d + "/t", "-f", d + "/i"}); c.step(2); Table o = dec(c, r.out, 2); c.state(str(a, " ", b));
  c.checkf(r.ok() && o == want, [&] { return "thot_filter_bin_ilextable of " + show(t) + " by " + show(f) + " gives " + show(o); });
}
static const std::vector<Key> pruneKeys = {{0, 1}, {0, 2}, {0, 256}, {3, 1}, {3, 2}, {300, 1}};
static void pruneBody(Ctx& c, bool text) {
  unsigned mask = c.choose(64); int n = c.choose(4), rot = c.choose(thorough() && !text ? 4 : 3); double cut = c.pick(std::vector<double>{0, 0.05, 0.3, 0.6});
  static const float v[4][6] = {{-0.5f, -1.25f, -3, -2, -0.75f, -1}, {-3, -0.5f, -0.5f, -0.75f, -0.75f, -99999}, {800, 2, 799.5f, -99999, -0.5f, 0}, {-1.25f, -3, -0.5f, -2.5f, -0.25f, 5}};
  Table t; for (int i = 0; i < 6; ++i) if (mask >> i & 1) { Rec r; r.k = pruneKeys[i]; r.n = v[rot][i]; r.d = 3; t.push_back(r); }
  std::map<unsigned, Table> by; for (auto& r : t) by[r.k[0]].push_back(r); std::string d = c.scratch(); Table o; Result r;
  if (text) { bool reversed = c.flip(), in = thorough() ? c.flip() : reversed; Table u = t; if (reversed) std::reverse(u.begin(), u.end()); writeFile(d + "/t", lines(u)); std::vector<std::string> a = {"-n", std::to_string(n), "-c", g(cut)}; if (!in) { a.push_back("-t"); a.push_back(d + "/t"); } a.push_back("-T"); a.push_back(d); r = sh(c, "thot_prune_text_ilextable", a, in ? lines(u) : ""); o = parse(c, r.out, 2); }
  else { writeFile(d + "/t", enc(t)); r = runCmd(c, {bin("thot_prune_bin_ilextable"), "-l", d + "/t", "-n", std::to_string(n), "-c", g(cut)}); o = dec(c, r.out, 2); c.check(r.ok(), "thot_prune_bin_ilextable failed"); }
  c.step(); c.state(str(mask, n, rot, cut)); auto what = [&] { return str(text ? "thot_prune_text_ilextable" : "thot_prune_bin_ilextable", " -n ", n, " -c ", cut, " of ", show(t), " gives ", show(o), r.err); };
  // for each word the n best translations whose probability reaches the cut, the best first; entries of the same count are interchangeable
  std::set<Key> seen; size_t p = 0;
  for (auto& x : by) {
    Table s = x.second; std::stable_sort(s.begin(), s.end(), [](const Rec& a, const Rec& b) { return a.n > b.n; }); double total = -1e30; for (auto& e : s) total = lsum(total, e.n); size_t keep = 0; double left = -99999;
    while (keep < s.size() && (n == 0 || (int)keep < n) && exp(s[keep].n - total) >= cut) { left = lsum(left, s[keep].n); ++keep; }
    for (size_t i = 0; i < keep; ++i, ++p) c.checkf(p < o.size() && o[p].k[0] == x.first && mc::close(o[p].n, s[i].n, 1e-5, 1e-5) && mc::close(o[p].d, left, 2e-5, 2e-5) && seen.insert(o[p].k).second && std::any_of(s.begin(), s.end(), [&](const Rec& e) { return e.k == o[p].k && e.n == s[i].n; }), what);
  }
  c.checkf(p == o.size(), what);
}
static void filterTextBody(Ctx& c) {
  // words 0: NULL 3: a 4: b and target words 3: x 4: y
  unsigned mask = c.choose(64); int n = c.choose(3); bool in = n == 2 && !thorough() ? mask % 2 : c.flip(); static const std::vector<std::string> ss = {"a", "b a", "b"}, ts = {"x", "y", "y x", ""}; std::string sc, tc; std::set<std::pair<std::string, std::string>> pairs;
  for (int i = 0; i < n; ++i) { std::string s = c.pick(ss), t = c.pick(ts); sc += s + "\n"; tc += t + "\n"; std::istringstream q(t); std::string y; while (q >> y) { pairs.insert({"NULL", y}); std::istringstream p(s); std::string x; while (p >> x) pairs.insert({x, y}); } }
  std::string d = c.scratch(); writeFile(d + "/sv", "0 NULL 0\n1 UNKNOWN_WORD 0\n2 <UNUSED_WORD> 0\n3 a 1\n4 b 1\n"); writeFile(d + "/tv", "0 NULL 0\n1 UNKNOWN_WORD 0\n2 <UNUSED_WORD> 0\n3 x 1\n4 y 1\n"); writeFile(d + "/s", sc); writeFile(d + "/t", tc);
  std::map<unsigned, std::string> sv = {{0, "NULL"}, {3, "a"}, {4, "b"}}, tv = {{3, "x"}, {4, "y"}}; std::string table, want; int i = 0;
  for (unsigned s : {0, 3, 4}) for (unsigned t : {3, 4}) { if (mask >> i & 1) { std::string l = str(s, " ", t, " -", i, ".5 1.25\n"); table += l; if (pairs.count({sv[s], tv[t]})) want += l; } ++i; }
  writeFile(d + "/l", table); std::vector<std::string> a = {d + "/sv", d + "/tv", d + "/s", d + "/t"}; if (!in) a.push_back(d + "/l"); Result r = sh(c, "thot_filter_text_ilextable", a, in ? table : ""); c.step(); c.state(str(mask, sc, tc));
  c.checkf(r.out == want, [&] { return "thot_filter_text_ilextable of {" + table + "} for {" + sc + "} and {" + tc + "} gives {" + r.out + "} " + r.err; });
}
static void leveldbBody(Ctx& c) {
  Table t = make(pruneKeys, c.choose(64), 0, 0); std::string d = freshDir(c); writeFile(d + "/t", enc(t)); Result r = runCmd(c, {bin("thot_lextable_to_leveldb"), "-i", d + "/t", "-o", d + "/db"}); c.check(r.ok(), "thot_lextable_to_leveldb failed: " + r.err); c.step(); c.state(lines(t));
  IncrLexLevelDbTable db; c.check(db.load((d + "/db").c_str()) == THOT_OK, "the converted table cannot be loaded"); std::map<Key, Rec> m; std::map<unsigned, float> den; for (auto& e : t) { m[e.k] = e; den[e.k[0]] = e.d; }
  for (unsigned s : {0u, 1u, 3u, 44u, 300u}) {
    bool f; float x = db.getLexDenom(s, f); c.checkf(f == (den.count(s) > 0) && (!f || x == den[s]), [&] { return str("denominator of ", s, " is ", x, " found ", f, " after converting ", show(t)); });
    for (unsigned w : {1u, 2u, 3u, 256u}) { float y = db.getLexNumer(s, w, f); auto i = m.find({s, w}); c.checkf(f == (i != m.end()) && (!f || y == i->second.n), [&] { return str("numerator of ", s, ",", w, " is ", y, " found ", f, " after converting ", show(t)); }); }
  }
}
// a missing table is an error, never an empty result that looks like success
static void missingBody(Ctx& c) {
  std::string d = freshDir(c), no = d + "/none", e = d + "/e"; writeFile(e, ""); std::vector<std::vector<std::string>> a; for (auto& k : kinds) { a.push_back({"thot_sort_bin_" + k.name, k.option, no}); a.push_back({"thot_merge_bin_" + k.name, no}); a.push_back({"thot_merge_bin_" + k.name, e, no}); }
  a.push_back({"thot_prune_bin_ilextable", "-l", no, "-n", "1", "-c", "0"}); a.push_back({"thot_filter_bin_ilextable", "-l", no, "-f", e}); a.push_back({"thot_filter_bin_ilextable", "-l", e, "-f", no}); a.push_back({"thot_gen_bin_lex_filter_info", "-l", no}); a.push_back({"thot_lextable_to_leveldb", "-i", no, "-o", d + "/db"});
  std::vector<std::string> x = c.pick(a), y = x; x[0] = bin(x[0]); Result r = runCmd(c, x); c.step(); c.state(join(y)); c.checkf(WIFEXITED(r.status) && WEXITSTATUS(r.status) != 0 && r.out.empty(), [&] { return join(y) + " does not report the missing file"; });
}
int main(int argc, char** argv) {
  if (!getenv("MC_STDERR")) freopen("/dev/null", "w", stderr);
  return mc::run(argc, argv, "P24", {
    {"sort", "the three kinds of binary table with every sequence of at most 4 of 6 entries, repeated ones included", sortBody, 2},
    {"merge", "the three kinds of binary table; two chunks, each any subset of 6 entries", mergeBody, 2},
    {"merge3", "three chunks with any subset of 3 (thorough 4) entries, ordinary and extreme counts", merge3Body, 2},
    {"merge-text", "the text tools: two chunks with any subset of 4 (thorough 5) entries, ordinary and extreme counts, from a file or the standard input, sorted or not", mergeTextBody, 3},
    {"filter", "tables of any subset of 6 entries, filtered by any subset", filterBody, 1},
    {"filter-text", "tables of any subset of 6 entries; corpora of at most 2 sentence pairs", filterTextBody, 1},
    {"prune", "tables of any subset of 6 entries with 3 (thorough 4) sets of counts, n from 0 to 3, 4 cut-offs", [](Ctx& c) { pruneBody(c, false); }, 2},
    {"prune-text", "the same for the text tool, from a file or the standard input in two orders", [](Ctx& c) { pruneBody(c, true); }, 2},
    {"leveldb", "binary tables of any subset of 6 entries, converted to LevelDB", leveldbBody, 1},
    {"missing", "every tool with a missing file", missingBody, 1},
  });
}
