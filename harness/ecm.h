// reference for the error correction models
#ifndef VERIF_ECM_H
#define VERIF_ECM_H
#include "mc.h"
#include "edit.h"
#include <set>
typedef std::vector<float> W;
static Err costs(const W& w) {
  double V = w[0], h = w[1], e = V == 0 ? (1 - h) / (w[2] + w[3] + w[4]) : (1 - h) / (w[2] * V + w[3] * (V - 1) + w[4]);
  return {-std::log(h), -std::log(e * w[2]), -std::log(e * w[3]), -std::log(e * w[4])};
}
static bool begins(const std::string& w, const std::string& p) { return w.compare(0, p.size(), p) == 0; }
static bool near(double a, double b) { return mc::close(a, b, 1e-5, 1e-5); }
// every sentence that corrects x with minimal cost so that it extends y; whole: y has to account for all of x
static std::set<Str> corrections(WordRef& r, const Str& x, const Str& y, bool inc, bool whole) {
  std::set<Str> out; size_t m = y.size(); if (!m) { if (!whole) out.insert(x); return out; }
  double best = whole ? r.dist2(x, y, inc) : r.pre(x, y, inc); Str y1(y.begin(), y.end() - 1);
  for (size_t k = whole ? x.size() : 0; k <= x.size(); ++k) {
    // what happens to the last word of y: aligned to x[q-1], the rest of x[..k) deleted, or inserted
    for (size_t q = 0; q <= k; ++q) {
      if (!whole && q != k) continue;
      double del = 0; for (size_t d = q; d < k; ++d) del += r.e.d * x[d].size();
      Str head(x.begin(), x.begin() + q), tail(x.begin() + k, x.end());
      if (near(r.dist2(head, y1, false) + r.e.i * y.back().size() + del, best)) { Str s = y; s.insert(s.end(), tail.begin(), tail.end()); out.insert(s); }
      if (q && near(r.dist2(Str(x.begin(), x.begin() + q - 1), y1, false) + r.sub(x[q - 1], y.back(), inc) + del, best)) { Str s = y; if (inc && begins(x[q - 1], y.back())) s.back() = x[q - 1]; s.insert(s.end(), tail.begin(), tail.end()); out.insert(s); }
    }
  }
  return out;
}
#endif
