// P18: the containers under the models behave as maps, sets of sequences, bit sets and sorted lists
// SOURCES: nlp_common/Count.cc nlp_common/Prob.cc
#include "mc.h"
#include "OrderedVector.h"
#include "Trie.h"
#include "TrieVecs.h"
#include "Bitset.h"
#include "NbestTransTable.h"
#include "Count.h"
#include "hat_trie/htrie_map.h"
#include <bitset>
#include <algorithm>
#include <map>
#include <set>
using namespace mc;
static bool thorough() { const char* t = getenv("VERIF_TIER"); return t && std::string(t) == "thorough"; }
// ordered vectors
template <class D> struct OvModel {
  typedef OrderedVector<int, D> Ov; typedef std::map<int, D> M;
  static void same(Ctx& c, Ov& o, const M& m, const std::string& w) {
    c.checkf(o.size() == m.size() && o.empty() == m.empty(), [&] { return w + str(": size ", o.size(), " instead of ", m.size()); });
    auto i = m.begin(); for (auto it = o.begin(); it != o.end(); ++it, ++i) c.checkf(i != m.end() && it->first == i->first && it->second == i->second && (*it).first == i->first, [&] { return w + str(": iteration yields key ", it->first); });
    c.checkf(i == m.end(), [&] { return w + ": iteration ends early"; });
    for (int k = -1; k < 6; ++k) { auto f = m.find(k); D* p = o.findPtr(k); auto it = o.find(k); c.checkf((p != nullptr) == (f != m.end()) && (it != o.end()) == (f != m.end()) && (!p || (*p == f->second && it->second == f->second && it->first == k)), [&] { return w + str(": looking up ", k); }); }
    if (!m.empty()) c.checkf(o.top().first == m.rbegin()->first && o.top().second == m.rbegin()->second, [&] { return w + ": last element"; });
  }
};
template <class D> static void ovHistory(Ctx& c, const std::function<D(int)>& mk) {
  typename OvModel<D>::Ov a, b; typename OvModel<D>::M m, n; std::string w; int steps = thorough() ? 7 : 5;
  for (int t = 0; t < steps; ++t) {
    int op = c.choose(10); if (op < 5) { D* p = op % 2 ? a.insert(op, mk(t)) : a.push(op, mk(t)); m[op] = mk(t); w += str(" insert ", op); c.checkf(p && *p == mk(t), [&] { return w + ": the returned data"; }); }
    else if (op == 5) { int k = c.choose(2) * 3 + 1; a[k] = mk(10 + t); m[k] = mk(10 + t); w += str(" [", k, "]"); }
    else if (op == 6) { if (m.empty()) throw Skip(); a.pop(); m.erase(std::prev(m.end())); w += " pop"; }
    else if (op == 7) { a.clear(); m.clear(); w += " clear"; }
    else if (op == 8) { b = a; n = m; w += " copy"; }
    else { typename OvModel<D>::Ov x(a); a = b; b = x; auto y = m; m = n; n = y; a = *&a; w += " swap"; }
    c.step(); c.state(w);
  }
  OvModel<D>::same(c, a, m, w); OvModel<D>::same(c, b, n, w + " (other)"); c.outcome(w.substr(w.size() / 2));
}
static void ordvec(Ctx& c) {
  switch (c.choose(3)) { case 0: ovHistory<float>(c, [](int t) { return t + 0.5f; }); break; case 1: ovHistory<std::pair<float, float>>(c, [](int t) { return std::make_pair(1.f * t, -2.f * t); }); break; default: ovHistory<std::vector<int>>(c, [](int t) { return std::vector<int>(t % 4, t); }); }
}
// tries of both kinds: every prefix of an inserted sequence is a node
typedef std::vector<int> Seq; typedef std::map<Seq, int> Nodes;
static void put(Nodes& m, const Seq& k, int d) { for (size_t i = 1; i < k.size(); ++i) m.insert({Seq(k.begin(), k.begin() + i), 0}); m[k] = d; }
struct Box { int v; Box(int x = 0) : v(x) {} bool operator==(const Box& o) const { return v == o.v; } };
template <class T> static void trieSame(Ctx& c, T& t, const Nodes& m, size_t root, const std::string& w) {
  c.checkf(t.size() == m.size() + root, [&] { return w + str(": size ", t.size(), " instead of ", m.size() + root); });
  std::multiset<std::pair<Seq, int>> got, want; for (auto& x : m) want.insert(x); for (auto it = t.begin(); it != t.end(); ++it) if (!it->first.empty()) got.insert({it->first, it->second.v}); c.checkf(got == want, [&] { std::string g; for (auto& x : got) g += "(" + join(x.first) + ")=" + str(x.second) + " "; return w + ": iteration yields " + g; });
  std::vector<unsigned long> per; for (auto& x : m) { if (per.size() < x.first.size()) per.resize(x.first.size(), 0); ++per[x.first.size() - 1]; } c.checkf(t.height() == per.size() && t.branchingFactor() == per, [&] { return w + str(": height ", t.height(), ", nodes per level ", join(t.branchingFactor()), " instead of ", join(per)); });
  for (auto& k : std::vector<Seq>{{1}, {2}, {1, 1}, {1, 2}, {2, 1}, {1, 2, 1}, {2, 2, 2}, {3}, {1, 1, 1, 1}}) { auto f = m.find(k); auto* p = t.find(k); c.checkf((p != nullptr) == (f != m.end()) && (!p || p->v == f->second), [&] { return w + ": looking up (" + join(k) + ")" + (p ? str(" gives ", p->v) : std::string(" fails")); }); }
}
static const std::vector<Seq>& seqs() { static std::vector<Seq> v = {{1}, {2}, {1, 2}, {1, 1}, {2, 1}, {1, 2, 1}, {2, 2, 2}, {3}}; return v; }
static void trie(Ctx& c) {
  typedef Trie<int, Box> T; T t, o; Nodes m, n; std::string w; int steps = thorough() ? 6 : 4;
  for (int s = 0; s < steps; ++s) {
    unsigned op = c.choose(seqs().size() + 4); if (op < seqs().size()) { auto& k = seqs()[op]; w += " insert (" + join(k) + ")"; T* r = t.insert(k, Box(s + 1)); put(m, k, s + 1); c.checkf(r && r->getData().v == s + 1 && t.getState(k) == r, [&] { return w + ": the returned node"; }); }
    else if (op == seqs().size()) { Seq k = c.pick(std::vector<Seq>{{1, 1}, {2}, {3, 1}}); w += " [" + join(k) + "]"; int old = m.count(k) ? m[k] : 0; c.checkf(t[k].v == old, [&] { return w + ": holds " + str(t[k].v); }); t[k] = Box(old + 100); put(m, k, old + 100); }
    else if (op == seqs().size() + 1) { t.clear(); m.clear(); w += " clear"; } else if (op == seqs().size() + 2) { o = t; n = m; w += " copy"; } else { T x(t); t = o; o = x; std::swap(m, n); t = *&t; w += " swap"; }
    c.step(); c.state(w);
  }
  trieSame(c, t, m, 0, w); trieSame(c, o, n, 0, w + " (other)"); Seq q = {1, 2, 1}; auto v = t.findV(q); size_t d = 0; while (d < q.size() && m.count(Seq(q.begin(), q.begin() + d + 1))) ++d; c.checkf(v.size() == d, [&] { return w + str(": the path has ", v.size(), " nodes"); }); for (size_t i = 0; i < d; ++i) c.checkf(v[i]->v == m[Seq(q.begin(), q.begin() + i + 1)], [&] { return w + ": data along the path"; });
  for (auto& x : m) { std::multiset<std::pair<Seq, int>> got, want; auto* st = t.getState(x.first); c.check(st != nullptr, "no node"); for (auto it = st->begin(); it != st->end(); ++it) { if (it->first[0] != x.first.back()) break; got.insert({it->first, it->second.v}); } for (auto& y : m) if (y.first.size() >= x.first.size() && std::equal(x.first.begin(), x.first.end(), y.first.begin())) want.insert({Seq(y.first.begin() + x.first.size() - 1, y.first.end()), y.second}); c.checkf(got == want, [&] { return w + ": iteration below (" + join(x.first) + ")"; }); }
}
static void trievecs(Ctx& c) {
  typedef TrieVecs<int, Box> T; T t, o; Nodes m, n; std::string w; int steps = thorough() ? 6 : 4;
  for (int s = 0; s < steps; ++s) {
    unsigned op = c.choose(seqs().size() + 3); if (op < seqs().size()) { auto& k = seqs()[op]; w += " insert (" + join(k) + ")"; c.checkf(t.insert(k, Box(s + 1)) != nullptr, [&] { return w; }); put(m, k, s + 1); }
    else if (op == seqs().size()) { t.clear(); m.clear(); w += " clear"; } else if (op == seqs().size() + 1) { o = t; n = m; w += " copy"; } else { T x(t); t = o; o = x; std::swap(m, n); w += " swap"; }
    c.step(); c.state(w);
  }
  trieSame(c, t, m, 1, w); trieSame(c, o, n, 1, w + " (other)"); c.check(t.find(Seq()) == nullptr && t.insert(Seq(), Box(1)) == nullptr, "the empty sequence");
}
// bit sets
template <size_t N> static void bits(Ctx& c) {
  std::vector<size_t> pos; for (size_t p : {0, 1, 30, 31, 32, 33, 63, 64, 65, 95, 96}) if (p < N) pos.push_back(p); if (std::find(pos.begin(), pos.end(), N - 1) == pos.end()) pos.push_back(N - 1);
  typedef Bitset<N> B; typedef std::bitset<N> S; B a, b; S x, y; std::string w = str(N, " bits:"); int steps = thorough() ? 4 : 3; unsigned words = (N + 31) / 32;
  auto same = [&](const B& p, const S& q, const std::string& what) { for (size_t i = 0; i < N; ++i) c.checkf(p.test(i) == q.test(i), [&] { return w + what + str(": bit ", i, " is ", p.test(i)); }); size_t k = 0; for (unsigned j = 0; j <= N; ++j) { c.checkf(p.count(j) == k, [&] { return w + what + str(": ", p.count(j), " of the first ", j, " bits"); }); if (j < N) k += q.test(j); } c.checkf(p.count() == q.count(), [&] { return w + what + ": count"; }); };
  for (int s = 0; s < steps; ++s) {
    int op = c.choose(14); switch (op) {
      case 0: { size_t p = c.pick(pos); a.set(p); x.set(p); w += str(" set ", p); break; } case 1: { size_t p = c.pick(pos); a.reset(p); x.reset(p); w += str(" reset ", p); break; } case 2: { size_t p = c.pick(pos); a.set(p, 0); x.set(p, 0); w += str(" set 0 ", p); break; }
      case 3: a.set(); x.set(); w += " set all"; break; case 4: a.reset(); x.reset(); w += " reset all"; break; case 5: b &= a; y &= x; w += " and"; break; case 6: b |= a; y |= x; w += " or"; break; case 7: b ^= a; y ^= x; w += " xor"; break; case 8: std::swap(a, b); std::swap(x, y); w += " swap"; break;
      case 9: { size_t p = c.pick(pos); w += str(" shift ", p); c.checkf((a >> p) == [&] { B r; S t = x >> p; for (size_t i = 0; i < N; ++i) if (t.test(i)) r.set(i); return r; }(), [&] { return w; }); a >>= p; x >>= p; break; }
      case 10: { unsigned long v = c.pick(std::vector<unsigned long>{0, 1, 0xffffffffUL, 0x123456789abcdef0UL, 0x8000000000000001UL}); if (N < 64) v &= (1UL << (N % 64)) - 1; a = B(v); x = S(v); w += str(" from ", v); break; } case 11: { unsigned v = c.pick(std::vector<unsigned>{0, 5, 0x80000000u}); if (N < 32) v &= (1u << (N % 32)) - 1; a = B(v); x = S(v); w += str(" from int ", v); break; }
      case 12: { if (x.all()) throw Skip(); ++a; for (size_t i = 0; i < N; ++i) { x.flip(i); if (x.test(i)) break; } w += " increment"; break; }
      case 13: { S sum; bool carry = false; for (size_t i = 0; i < N; ++i) { int v = x.test(i) + y.test(i) + carry; sum.set(i, v & 1); carry = v > 1; } if (carry) throw Skip(); B r = a; r = r + b; a = r; x = sum; w += " sum"; break; }
    }
    c.step(); c.state(w);
  }
  same(a, x, ""); same(b, y, " (other)"); bool less = false, greater = false; for (size_t i = N; i-- > 0;) if (x.test(i) != y.test(i)) { less = y.test(i); greater = x.test(i); break; } c.checkf((a < b) == less && (a > b) == greater && (a == b) == (x == y) && (a != b) == (x != y), [&] { return w + ": comparison"; });
  if (N >= 64) c.checkf(a.to_ulong() == (x & S(~0UL)).to_ulong(), [&] { return w + str(": as number ", a.to_ulong()); }); else c.checkf(a.to_ulong() == x.to_ulong(), [&] { return w + str(": as number ", a.to_ulong()); }); c.checkf(a.to_uint() == (unsigned)(x & S(0xffffffffUL)).to_ulong(), [&] { return w + ": as int"; });
  std::ostringstream o; o << a; std::string t = x.to_string(); size_t f = t.find('1'); t = f == std::string::npos ? "0" : t.substr(f); c.checkf(o.str() == t, [&] { return w + ": printed as " + o.str(); }); unsigned arr[16] = {0}; for (size_t i = 0; i < N; ++i) if (x.test(i)) arr[i / 32] |= 1u << (i % 32); (void)words; c.checkf(B(arr) == a, [&] { return w + ": from words"; }); c.outcome(t);
}
static void bitset(Ctx& c) { switch (c.choose(6)) { case 0: bits<5>(c); break; case 1: bits<32>(c); break; case 2: bits<33>(c); break; case 3: bits<64>(c); break; case 4: bits<70>(c); break; default: bits<101>(c); } }
// sorted lists of translations
static void nbest(Ctx& c) {
  NbestTableNode<int> t; std::vector<std::pair<double, int>> m; std::string w; int steps = thorough() ? 6 : 5; auto sorted = [&] { std::stable_sort(m.begin(), m.end(), [](auto& a, auto& b) { return a.first > b.first; }); };
  NbestTransTable<std::vector<int>, int> table; std::map<std::vector<int>, std::vector<std::pair<double, int>>> tm;
  for (int s = 0; s < steps; ++s) {
    int op = c.choose(7); if (op < 3) { double sc = -1.0 - op; int v = 100 - s; if (s % 2) t.insert(sc, v); else t.insert(std::make_pair((Score)sc, v)); m.push_back({sc, v}); sorted(); w += str(" insert ", sc); }
    else if (op == 3) { if (m.empty()) throw Skip(); t.removeLastElement(); m.pop_back(); w += " remove last"; } else if (op == 4) { double th = -1.5 - c.choose(3); t.pruneGivenThreshold(th); while (!m.empty() && m.back().first < th) m.pop_back(); w += str(" prune ", th); }
    else if (op == 5) { t.stableSort(); std::stable_sort(m.begin(), m.end(), [](auto& a, auto& b) { return a.first > b.first || (a.first == b.first && a.second < b.second); }); w += " sort"; } else { std::vector<int> k(1 + c.choose(2), 7); table.insertEntry(k, t); tm.insert({k, m}); w += str(" store ", k.size()); if (c.flip()) { t.clear(); m.clear(); w += " clear"; } }
    c.step(); c.state(w);
  }
  auto same = [&](NbestTableNode<int>& n, const std::vector<std::pair<double, int>>& v, const std::string& what) { size_t i = 0; bool ok = n.size() == v.size(); for (auto it = n.begin(); ok && it != n.end(); ++it, ++i) ok = i < v.size() && (double)it->first == v[i].first && it->second == v[i].second; c.checkf(ok && i == v.size(), [&] { return w + what; }); if (!v.empty()) c.checkf(n.getBestElem() == v[0].second && (double)n.getScoreOfBestElem() == v[0].first, [&] { return w + what + ": best element"; }); };
  same(t, m, ""); c.checkf(table.size() == tm.size(), [&] { return w + ": entries"; }); for (int l = 1; l <= 3; ++l) { auto* p = table.getTranslationsForKey(std::vector<int>(l, 7)); auto f = tm.find(std::vector<int>(l, 7)); c.checkf((p != nullptr) == (f != tm.end()), [&] { return w + str(": entry ", l); }); if (p) same(*p, f->second, str(" (entry ", l, ")")); } size_t i = 0; for (auto it = table.begin(); it != table.end(); ++it) ++i; c.checkf(i == tm.size(), [&] { return w + ": entries visited"; });
}
// hat tries: keys are arbitrary bytes, nodes burst when they have many keys
typedef tsl::htrie_map<char, Count> Hat; typedef std::map<std::string, double> Sm;
static void hatSame(Ctx& c, Hat& h, const Sm& m, const std::vector<std::string>& prefixes, const std::string& w) {
  c.checkf(h.size() == m.size() && h.empty() == m.empty(), [&] { return w + str(": size ", h.size(), " instead of ", m.size()); }); Sm got; std::string key; for (auto it = h.begin(); it != h.end(); ++it) { it.key(key); got[key] = (double)it.value(); } c.checkf(got == m, [&] { return w + str(": iteration yields ", got.size(), " entries"); });
  for (auto& x : m) { auto it = h.find(x.first); c.checkf(it != h.end() && (double)it.value() == x.second && it.key() == x.first && h.count(x.first) == 1 && (double)h.at(x.first) == x.second, [&] { return w + ": looking up '" + x.first + "'"; }); }
  for (auto& p : prefixes) {
    Sm want; for (auto& x : m) if (x.first.compare(0, p.size(), p) == 0) want.insert(x); Sm g; auto r = h.equal_prefix_range(p); size_t n = 0; for (auto it = r.first; it != r.second; ++it, ++n) { it.key(key); g[key] = (double)it.value(); } c.checkf(g == want && n == want.size(), [&] { return w + ": entries below '" + p + "': " + str(n) + " instead of " + str(want.size()); });
    c.checkf(m.count(p) || (h.find(p) == h.end() && h.count(p) == 0), [&] { return w + ": '" + p + "' is found"; });
  }
}
static std::vector<std::string> pool(int which) {
  if (which == 0) return {"", "a", "b", "ab", "aa", "aba", "abb", "bb", "abab", "c"};
  if (which == 1) return {std::string(1, '\0'), std::string(2, '\0'), "\xff", "\xff\xff", "a", std::string("a\0b", 3), std::string("a\0", 2), "\x80\x01", "\x7f", "\xff\x01"};
  std::string l(300, 'x'); return {l, l + "a", l + "b", l.substr(1), std::string(65000, 'y'), std::string(65000, 'y') + "z", "x", "xx", std::string(254, 'x'), std::string(255, 'x')};
}
static void hat(Ctx& c) {
  int which = c.choose(3); auto keys = pool(which); Hat h, other; Sm m, om; h.burst_threshold(c.flip() ? 4 : 6); std::string w = str("pool ", which, ", threshold ", h.burst_threshold(), ":"); bool reverse = c.flip(); unsigned mask = 0; size_t n = which == 2 ? 8 : keys.size();
  for (size_t i = 0; i < n; ++i) if (c.flip()) mask |= 1u << i;
  for (size_t j = 0; j < n; ++j) { size_t i = reverse ? n - 1 - j : j; if (mask >> i & 1) { auto r = h.insert(keys[i], Count((double)i)); c.checkf(r.second && (double)r.first.value() == i, [&] { return w + ": insertion"; }); m[keys[i]] = i; } } w += str(" keys of mask ", mask, reverse ? " in reverse" : "");
  for (int s = 0; s < (thorough() ? 2 : 1); ++s) {
    int op = c.choose(7); size_t k = op < 4 ? c.choose(n) : 0; auto& key = keys[k]; switch (op) {
      case 0: { auto r = h.insert(key, Count(50.0)); bool nw = m.insert({key, 50}).second; c.checkf(r.second == nw && (double)r.first.value() == m[key], [&] { return w + str(": inserting key ", k, " again"); }); w += str(" insert ", k); break; }
      case 1: { size_t e = h.erase(key); c.checkf(e == m.erase(key), [&] { return w + str(": erasing key ", k); }); w += str(" erase ", k); break; }
      case 2: { size_t e = h.erase_prefix(key), x = 0; for (auto it = m.begin(); it != m.end();) if (it->first.compare(0, key.size(), key) == 0) { it = m.erase(it); ++x; } else ++it; c.checkf(e == x, [&] { return w + str(": erasing below key ", k); }); w += str(" erase prefix ", k); break; }
      case 3: { h[key] = Count((double)h[key] + 1); m[key] += 1; w += str(" [", k, "]"); break; }
      case 4: { Hat x(h); h.clear(); c.check(h.empty() && h.begin() == h.end(), "entries after clearing"); h = x; w += " copy"; break; } case 5: { Hat x(std::move(h)); Hat y; y = std::move(x); h = y; w += " move"; break; }
      case 6: { auto it = h.begin(); size_t i = 0; while (it != h.end()) if (i++ % 2 == 0) { m.erase(it.key()); it = h.erase(it); } else ++it; w += " erase every other"; break; }
    }
    c.step(); c.state(w);
  }
  std::vector<std::string> ps = {"", "a", "ab", "x", "\xff", "q", std::string(1, '\0'), std::string(301, 'x')}; hatSame(c, h, m, ps, w); c.outcome(str(m.size()));
}
// many keys, so that several levels burst
static void crowd(Ctx& c) {
  Hat h; h.burst_threshold(c.pick(std::vector<int>{4, 16, 300})); Sm m; int n = c.pick(std::vector<int>{100, 1000, thorough() ? 40000 : 6000}), pattern = c.choose(3); std::string w = str(n, " keys of pattern ", pattern, ", threshold ", h.burst_threshold());
  for (int i = 0; i < n; ++i) { int v = (i * 7919) % n; std::string k = pattern == 0 ? std::to_string(v) : pattern == 1 ? std::string(v % 40, 'p') + std::to_string(v) : std::string(1, (char)(v & 255)) + std::string(1, (char)(v >> 8 & 255)) + std::string(1, (char)(v * 31)); h[k] = Count((double)v); m[k] = v; if (i % 11 == 5) { h.erase(k); m.erase(k); } }
  c.step(); hatSame(c, h, m, {"", "1", "12", "pp", "999", std::string(1, '\1')}, w); size_t e = h.erase_prefix("1"), x = 0; for (auto it = m.begin(); it != m.end();) if (!it->first.empty() && it->first[0] == '1') { it = m.erase(it); ++x; } else ++it; c.checkf(e == x, [&] { return w + ": erased below 1"; }); hatSame(c, h, m, {"", "1", "2"}, w + " after erasing"); c.state(w);
}
int main(int argc, char** argv) {
  if (!getenv("MC_STDERR")) freopen("/dev/null", "w", stderr);
  return run(argc, argv, "P18", {{"ordvec", "all histories of 5 (7) operations on ordered vectors of 3 types", ordvec, 4}, {"trie", "all histories of 4 (6) operations on tries", trie, 3}, {"trievecs", "all histories of 4 (6) operations on tries of vectors", trievecs, 3},
    {"bitset", "all histories of 3 (4) operations on two bit sets of 5, 32, 33, 64, 70 or 101 bits, positions around the word boundaries", bitset, 4}, {"nbest", "all histories of 5 (6) operations on lists of translations", nbest, 4},
    {"hat", "all subsets of 10 keys (short ones, arbitrary bytes, very long ones) in 2 orders with 2 burst thresholds, then all operations", hat, 5}, {"crowd", "up to 6000 (40000) keys in 3 patterns", crowd, 2}});
}
