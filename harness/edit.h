// Reference edit distances, computed from their definitions
#ifndef VERIF_EDIT_H
#define VERIF_EDIT_H
#include <cmath>
#include <map>
#include <string>
#include <vector>
typedef std::vector<std::string> Str;
struct Err { double h, i, s, d; };
// the distance by its definition: cheapest way to consume x and y from the front
template <class GS, class GI, class GD> static std::vector<std::vector<double>> table(size_t n, size_t m, GS sub, GI ins, GD del) {
  std::vector<std::vector<double>> D(n + 1, std::vector<double>(m + 1, 0));   // D[i][j]: cost of turning x[i..) into y[j..)
  for (int i = n; i >= 0; --i) for (int j = m; j >= 0; --j) {
    if (i == (int)n && j == (int)m) continue;
    double b = HUGE_VAL;
    if (i < (int)n) b = std::min(b, del(i) + D[i + 1][j]);
    if (j < (int)m) b = std::min(b, ins(j) + D[i][j + 1]);
    if (i < (int)n && j < (int)m) b = std::min(b, sub(i, j) + D[i + 1][j + 1]);
    D[i][j] = b;
  }
  return D;
}
template <class X> static double dist(const X& x, const X& y, const Err& e) {
  return table(x.size(), y.size(), [&](int i, int j) { return x[i] == y[j] ? e.h : e.s; }, [&](int) { return e.i; }, [&](int) { return e.d; })[0][0];
}
static double prefDist(const std::string& x, const std::string& y, const Err& e) {
  double b = HUGE_VAL; for (size_t k = 0; k <= x.size(); ++k) b = std::min(b, dist(x.substr(0, k), y, e)); return b;
}
struct WordRef {
  Err e; std::map<std::pair<std::string, std::string>, double> full, pref;
  explicit WordRef(const Err& e) : e(e) {}
  double sub(const std::string& a, const std::string& b, bool p) {
    auto& m = p ? pref : full; auto k = std::make_pair(a, b); auto i = m.find(k); if (i != m.end()) return i->second;
    return m[k] = p ? prefDist(a, b, e) : dist(a, b, e);
  }
  // distance of x to y; incomplete: the last word of y is the beginning of a word
  double dist2(const Str& x, const Str& y, bool incomplete) {
    return table(x.size(), y.size(), [&](int i, int j) { return sub(x[i], y[j], incomplete && j + 1 == (int)y.size()); }, [&](int j) { return e.i * y[j].size(); }, [&](int i) { return e.d * x[i].size(); })[0][0];
  }
  double pre(const Str& x, const Str& y, bool incomplete) {
    double b = HUGE_VAL; for (size_t k = 0; k <= x.size(); ++k) b = std::min(b, dist2(Str(x.begin(), x.begin() + k), y, incomplete)); return b;
  }
};
#endif
