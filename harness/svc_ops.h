// Requests to a decoder with tiny models (harnesses of the whole decoder)
#ifndef VERIF_SVC_OPS_H
#define VERIF_SVC_OPS_H
#include "service.h"
#include <dirent.h>
#include <fcntl.h>
using mc::Ctx; using mc::str;
typedef std::vector<std::string> Strs;
static const svc::Corpus K = {{{"a"}, {"A"}}, {{"b"}, {"B"}}, {{"a", "b"}, {"B", "A"}}, {{"c"}, {"Cab"}}, {{"c", "b"}, {"Cab", "B"}}};
static std::string readAll(const std::string& f) { return mc::readFile(f); }
static void listFiles(const std::string& d, Strs& out) {
  DIR* p = opendir(d.c_str()); if (!p) return;
  while (dirent* e = readdir(p)) { std::string n = e->d_name; if (n == "." || n == "..") continue; if (e->d_type == DT_DIR) listFiles(d + "/" + n, out); else out.push_back(d + "/" + n); }
  closedir(p); std::sort(out.begin(), out.end());
}
// The models as files, made once per process
static std::string& root() { static std::string d; return d; }
static const std::vector<std::pair<std::string, std::string>>& pristine(Ctx& c) {
  static std::vector<std::pair<std::string, std::string>> files;
  if (files.empty()) { std::string d = root() = mc::freshDir(c); svc::makeModels(d, K); svc::makeCfg(d); Strs fs; listFiles(d, fs); for (auto& f : fs) files.push_back({f, readAll(f)}); }
  return files;
}
struct Dec {
  struct Files {
    Files(Ctx& c, bool keep) {
      if (keep) return;
      auto& p = pristine(c); Strs there; listFiles(root(), there);
      for (auto& f : there) { bool ours = false; for (auto& q : p) ours |= q.first == f; if (!ours) unlink(f.c_str()); }
      for (auto& f : p) mc::writeFile(f.first, f.second);
    }
  } files;
  ThotDecoder t; ThotDecoderUserPars p;
  explicit Dec(Ctx& c, bool keep = false) : files(c, keep) {
    std::string cfg; for (auto& f : pristine(c)) if (f.first.size() > 11 && f.first.substr(f.first.size() - 11) == "/server.cfg") cfg = f.first;
    c.check(t.initUsingCfgFile(cfg, p, 0) == THOT_OK, "the decoder does not start");
    c.check(t.initUserPars(1, p, 0) == THOT_OK && t.initUserPars(2, p, 0) == THOT_OK, "a user is not accepted");
  }
};
static std::string printed(Ctx& c) { std::string r; Strs fs; listFiles(root(), fs); for (auto& f : fs) r += str(f, " ", mc::hashStr(readAll(f)), " "); return str(mc::hashStr(r)); }

// ------------------------------------------------------------------ requests
typedef std::function<std::string(Dec&)> Op;
struct Req { std::string name; std::vector<Op> ops; };
static Op tr(int u, std::string s) { return [=](Dec& d) { std::string r, i; d.t.translateSentence(u, s.c_str(), r, i); return "translation '" + r + "' (" + i + ")"; }; }
static Op cov(int u, std::string s, std::string ref) { return [=](Dec& d) { std::string r; d.t.sentPairVerCov(u, s.c_str(), ref.c_str(), r); return "coverage '" + r + "'"; }; }
static Op start(int u, std::string s) { return [=](Dec& d) { std::string r; d.t.startCat(u, s.c_str(), r); return "cat '" + r + "'"; }; }
static Op add(int u, std::string s) { return [=](Dec& d) { std::string r; d.t.addStrToPref(u, s.c_str(), RejectedWordsSet(), r); return "add '" + r + "'"; }; }
static Op setp(int u, std::string s) { return [=](Dec& d) { std::string r; d.t.setPref(u, s.c_str(), RejectedWordsSet(), r); return "set '" + r + "'"; }; }
static Op reset(int u) { return [=](Dec& d) { d.t.resetPrefix(u); return std::string("reset"); }; }
static Op train(int u, std::string s, std::string t) { return [=](Dec& d) { return str("train ", d.t.onlineTrainSentPair(u, s.c_str(), t.c_str())); }; }
static Op ecm(int u, std::string s, std::string t) { return [=](Dec& d) { return str("train ecm ", d.t.trainEcm(u, s.c_str(), t.c_str())); }; }
static Op print() { return [](Dec& d) { return str("print ", d.t.printModels()); }; }
static Op user(int u, unsigned S, unsigned np) { return [=](Dec& d) { ThotDecoderUserPars p = d.p; p.S = S; p.np = np; return str("user ", d.t.initUserPars(u, p, 0)); }; }
static Op badUser(int u) { return [=](Dec& d) { ThotDecoderUserPars p = d.p; p.sp = 1; p.uc_str = "/nonexistent/table"; return str("user ", d.t.initUserPars(u, p, 0)); }; }
static Op release(int u) { return [=](Dec& d) { d.t.release_user_data(u); return std::string("release"); }; }

#endif
