// P20: lines, fields, words, options, parameter files and model descriptors are read as written
// SOURCES: nlp_common/AwkInputStream.cc nlp_common/StrProcUtils.cc nlp_common/options.cc nlp_common/ModelDescriptorUtils.cc nlp_common/mem_alloc_utils.cc
#include "mc.h"
#include "prog.h"
#include "AwkInputStream.h"
#include "StrProcUtils.h"
#include "options.h"
#include "ModelDescriptorUtils.h"
#include <cmath>
#include <map>
using namespace mc;
static bool thorough() { const char* t = getenv("VERIF_TIER"); return t && std::string(t) == "thorough"; }
typedef std::vector<std::string> Vs;
static Vs split(const std::string& s, const std::string& seps) { Vs r; std::string w; for (char ch : s) if (seps.find(ch) != std::string::npos) { if (!w.empty()) r.push_back(w); w.clear(); } else w += ch; if (!w.empty()) r.push_back(w); return r; }
static std::string show(const std::string& s) { std::string r; for (unsigned char ch : s) r += ch == '\n' ? "\\n" : ch == '\t' ? "\\t" : ch == '\r' ? "\\r" : ch < 32 || ch > 126 ? str("\\", (int)ch) : std::string(1, ch); return r; }
static Vs linesOf(const std::string& t) { Vs r; std::string l; bool any = false; for (char ch : t) if (ch == '\n') { r.push_back(l); l.clear(); any = false; } else { l += ch; any = true; } if (any) r.push_back(l); return r; }
static void checkLine(Ctx& c, AwkInputStream& a, const std::string& line, char fs, const std::string& w) {
  Vs f = split(line, std::string(1, fs)); c.checkf(a.NF == f.size() && a.dollar(0) == line, [&] { return w + str(": ", a.NF, " fields in '", show(a.dollar(0)), "'"); });
  for (size_t i = f.size() + 2; i >= 1; --i) { std::string g = a.dollar(i); c.checkf(g == (i <= f.size() ? f[i - 1] : ""), [&] { return w + str(": field ", i, " of '", show(line), "' is '", show(g), "'"); }); c.checkf(a.NF == f.size(), [&] { return w + ": asking for a field changes their number"; }); }
}
// every small file, read from start to end
static void files(Ctx& c) {
  int len = c.choose(thorough() ? 9 : 8); std::string t; static const char alpha[] = {'a', ' ', '\n', '\t', 'b'}; for (int i = 0; i < len; ++i) t += alpha[c.choose(len > 6 ? 4 : 5)]; auto dir = c.scratch(); std::string f = dir + "/in"; writeFile(f, t);
  std::string w = "'" + show(t) + "'"; Vs lines = linesOf(t); AwkInputStream a; FILE* fp = nullptr; if (len <= 5 && c.flip()) { fp = fopen(f.c_str(), "r"); c.checkf(!a.open_stream(fp), [&] { return w + ": opening a stream"; }); } else c.checkf(!a.open(f.c_str()), [&] { return w + ": opening"; });
  char fs = ' '; if (len <= 6 && c.flip()) a.FS = fs = '\t'; for (size_t i = 0; i < lines.size(); ++i) { c.checkf(a.getln() && a.FNR == i + 1, [&] { return w + str(": line ", i + 1); }); checkLine(c, a, lines[i], fs, w); c.step(); } c.checkf(!a.getln() && !a.getln() && a.FNR == lines.size(), [&] { return w + ": lines beyond the end"; }); a.close(); if (fp) fclose(fp); c.state(w); c.outcome(str(lines.size()));
}
// streams opened, copied, rewound and closed
static void streams(Ctx& c) {
  static const Vs texts = {"", "one\n", "a b\n  c \n\nd", "x:y z\n:\n"}; auto dir = freshDir(c); for (int i = 0; i < 4; ++i) writeFile(dir + str("/", i), texts[i]); struct M { int file = -1; size_t at = 0; std::string line; char fs = ' '; bool has = false; bool owned = true; } m[2]; AwkInputStream s[2]; std::string w; int steps = thorough() ? 6 : 5, i = 0; bool copied = false;
  for (int t = 0; t < steps; ++t) {
    int op = c.choose(11); if (op < 4) { if (op == 3 && t > 2) throw Skip(); c.checkf(!s[i].open((dir + str("/", op)).c_str()), [&] { return w + ": opening"; }); m[i] = M(); m[i].file = op; w += str(" open ", op); } else if (op == 4) { c.checkf(s[i].open((dir + "/none").c_str()), [&] { return w + ": a missing file is opened"; }); m[i] = M(); w += " missing"; }
    else if (op == 5) { Vs l; if (m[i].file >= 0) l = linesOf(texts[m[i].file]); bool want = m[i].at < l.size(), g = s[i].getln(); w += " getln"; c.checkf(g == want, [&] { return w + str(": returned ", g); }); if (want) { m[i].line = l[m[i].at++]; m[i].has = true; checkLine(c, s[i], m[i].line, m[i].fs, w); c.checkf(s[i].FNR == m[i].at, [&] { return w + ": line number"; }); } else if (m[i].file >= 0) m[i].has = false; }
    else if (op == 6) { c.checkf(s[i].rwd() == (m[i].file < 0), [&] { return w + ": rewinding"; }); m[i].at = 0; w += " rewind"; m[i].has = false; } else if (op == 7) { s[i].close(); m[i] = M(); w += " close"; } else if (op == 8) { if (m[i].file < 0) throw Skip(); s[i].FS = m[i].fs = ':'; m[i].has = false; w += " FS"; }
    else if (op == 9) { if (copied && !thorough()) throw Skip(); copied = true; s[1 - i] = s[i]; if (m[i].file >= 0) { m[1 - i] = m[i]; m[1 - i].has = m[i].at > 0; if (m[i].at) m[1 - i].line = linesOf(texts[m[i].file])[m[i].at - 1]; } else m[1 - i] = M(); if (m[1 - i].has) checkLine(c, s[1 - i], m[1 - i].line, m[i].fs, w + " copy"); w += " copy"; i = 1 - i; } else { i = 1 - i; w += " other"; }
    for (int k = 0; k < 2; ++k) { if (m[k].has) checkLine(c, s[k], m[k].line, m[k].fs, w); else if (m[k].file < 0) c.checkf(s[k].dollar(1) == "" && s[k].dollar(0) == "", [&] { return w + ": fields of a closed stream"; }); } c.step(); c.state(w);
  }
}
// words of strings
static void words(Ctx& c) {
  int len = c.choose(thorough() ? 9 : 8); std::string s; for (int i = 0; i < len; ++i) s += c.pick(std::vector<char>{'a', ' ', '\t', 'b'}); std::string w = "'" + show(s) + "'"; c.step(); c.state(w); using namespace StrProcUtils;
  Vs v = split(s, " \t"), b = split(s, " "); c.checkf(stringToStringVector(s) == v && charItemsToVector(s.c_str()) == b, [&] { return w + ": words"; }); c.checkf(stringVectorToString(v) == mc::join(v, " ") && stringVectorToStringWithoutSpaces(v) == mc::join(v, "") && stringToStringVector(stringVectorToString(v)) == v, [&] { return w + ": joined"; });
  if (s.find('\t') == std::string::npos) c.checkf(getLastWord(s) == (b.empty() ? "" : b.back()), [&] { return w + ": last word '" + getLastWord(s) + "'"; }); bool lb = !s.empty() && s.back() == ' '; c.checkf(lastCharIsBlank(s) == lb && removeLastBlank(s) == (lb ? s.substr(0, s.size() - 1) : s) && addBlank(s) == s + " ", [&] { return w + ": last blank"; });
  for (size_t k = 0; k <= s.size(); ++k) { std::string p = s.substr(0, k), q = s.substr(s.size() - k); c.checkf(isPrefix(p, s) && isPrefix(q, s) == (s.compare(0, k, q) == 0) && isPrefix(s, p) == (k == s.size()), [&] { return w + ": prefix"; }); Vs pv = split(p, " \t"), qv = split(q, " \t"); auto pre = [](const Vs& x, const Vs& y) { if (x.size() > y.size()) return false; for (size_t i = 0; i < x.size(); ++i) if (i + 1 < x.size() ? x[i] != y[i] : y[i].compare(0, x[i].size(), x[i]) != 0) return false; return true; }; c.checkf(isPrefixStrVec(pv, v) && isPrefixStrVec(qv, v) == pre(qv, v) && isPrefixStrVec(v, qv) == pre(v, qv), [&] { return w + ": prefix of words"; }); }
  std::string lib = getLibDirVarNameValue(); c.checkf(expandLibDirIfFound(lib + s) == getLibDir() + s && expandLibDirIfFound(s) == s && expandLibDirIfFound("x" + lib + s) == "x" + lib + s && expandLibDirIfFound(lib.substr(0, lib.size() - 1) + s) == lib.substr(0, lib.size() - 1) + s, [&] { return w + ": library directory"; });
  if (len == 0) { auto f = strVecToFloatVec({"1", "-2.5", "1e-3", "x", "0"}); c.check(f.size() == 5 && f[0] == 1 && f[1] == -2.5f && f[2] == 1e-3f && f[4] == 0, "numbers of words"); }
}
// command line options
static void args(Ctx& c) {
  static const Vs pool = {"-a", "-b", "3", "-2", "x y", "-.5", "1.5", ""}; int n = c.choose(thorough() ? 6 : 5); Vs a = {"prog"}; for (int i = 0; i < n; ++i) a.push_back(c.pick(pool)); std::vector<char*> av; for (auto& x : a) av.push_back(&x[0]); av.push_back(nullptr); int argc = a.size(); char** argv = av.data(); std::string w = mc::join(a, "|"); c.step(); c.state(w); auto stl = argv2argv_stl(argc, argv); c.checkf(stl == a, [&] { return w + ": as strings"; });
  auto opt = [](const std::string& s) { return s.size() > 1 && s[0] == '-' && !(isdigit((unsigned char)s[1]) || (s[1] == '.' && s.size() > 2 && isdigit((unsigned char)s[2]))); };
  for (auto& x : a) c.checkf((isOption(x.c_str()) != 0) == opt(x), [&] { return "'" + x + "' is an option: " + str(isOption(x.c_str())); });
  for (std::string l : {"-a", "-b", "-c"}) {
    size_t at = 0; for (size_t i = 1; i < a.size() && !at; ++i) if (a[i] == l) at = i; std::string lw = w + " " + l; c.checkf(existParam(argc, argv, l.c_str()) == (at > 0) && (readOption(argc, argv, l.c_str()) == 0) == (at > 0), [&] { return lw + ": presence"; }); bool val = at && at + 1 < a.size(), two = at && at + 2 < a.size(); std::string v = val ? a[at + 1] : "";
    std::string s = "unset", s1 = "unset", s2 = "unset"; c.checkf((readSTLstring(argc, argv, l.c_str(), &s) == 0) == val && s == (val ? v : "unset"), [&] { return lw + ": string '" + s + "'"; }); char buf[64] = "unset", buf2[64] = "unset"; c.checkf((readString(argc, argv, l.c_str(), buf) == 0) == val && std::string(buf) == s, [&] { return lw + ": string"; });
    c.checkf((readTwoSTLstrings(argc, argv, l.c_str(), &s1, &s2) == 0) == two && s1 == (two ? v : "unset") && s2 == (two ? a[at + 2] : "unset"), [&] { return lw + ": two strings"; }); buf[0] = 0; c.checkf((readTwoStrings(argc, argv, l.c_str(), buf, buf2) == 0) == two && (!two || (buf == v && buf2 == s2)), [&] { return lw + ": two strings"; });
    char *p = (char*)malloc(1), *p1 = (char*)malloc(1), *p2 = (char*)malloc(1); c.checkf((readStringSafe(argc, argv, l.c_str(), &p) == 0) == val && (!val || v == p), [&] { return lw + ": string of any size"; }); c.checkf((readTwoStringsSafe(argc, argv, l.c_str(), &p1, &p2) == 0) == two && (!two || (v == p1 && s2 == p2)), [&] { return lw + ": two strings of any size"; }); free(p); free(p1); free(p2);
    int i = 77; unsigned u = 77; float f = 77; double d = 77; bool b = false; bool num = val && (v == "3" || v == "-2" || v == "1.5" || v == "-.5"); double nv = num ? atof(v.c_str()) : 77; bool intOk = v == "3" || v == "-2" || v == "1.5";
    c.checkf((readInt(argc, argv, l.c_str(), &i) == 0) == val && (!intOk || i == (int)nv) && (val || i == 77), [&] { return lw + str(": integer ", i); }); c.checkf((readUnsignedInt(argc, argv, l.c_str(), &u) == 0) == val && (v != "3" || u == 3) && (val || u == 77), [&] { return lw + str(": unsigned ", u); }); c.checkf((readFloat(argc, argv, l.c_str(), &f) == 0) == val && (float)nv == f && (readDouble(argc, argv, l.c_str(), &d) == 0) == val && nv == d, [&] { return lw + str(": number ", f, " ", d); });
    if (!val || intOk) c.checkf((readBool(argc, argv, l.c_str(), &b) == 0) == val && b == val, [&] { return lw + ": boolean"; });
    Vs sv = {"unset"}, ws; std::vector<float> fv = {77}, wf; bool seqNum = true; for (size_t k = at + 1; at && k < a.size() && !opt(a[k]); ++k) { ws.push_back(a[k]); wf.push_back(atof(a[k].c_str())); if (a[k] == "x y" || a[k].empty()) seqNum = false; } c.checkf((readStringSeq(argc, argv, l.c_str(), sv) == 0) == val && (val ? sv == ws : sv == Vs{"unset"}), [&] { return lw + ": sequence of strings"; }); int e = readFloatSeq(argc, argv, l.c_str(), fv); c.checkf((e == 0) == val && (val ? !seqNum || fv == wf : fv.size() == 1), [&] { return lw + ": sequence of numbers"; });
  }
  bool known = true; for (size_t i = 1; i < a.size(); ++i) if (!a[i].empty() && a[i][0] == '-' && a[i] != "-a") known = false; c.checkf(verifyParams(argc, argv, {{"-a", true}}) == known, [&] { return w + ": verification"; });
}
// parameter files and descriptors
static void pars(Ctx& c) {
  static const Vs lines = {"-a 3", "# -b 4", "  -c   x y  ", "", "#-d", "   # z", "-e #f", " "}; int n = c.choose(thorough() ? 6 : 5); std::string t; Vs want; for (int i = 0; i < n; ++i) { auto& l = c.pick(lines); t += l + "\n"; auto f = split(l, " "); if (!f.empty() && f[0][0] != '#') want.insert(want.end(), f.begin(), f.end()); } if (n && c.flip()) t.pop_back();
  auto dir = c.scratch(); std::string f = dir + "/pars"; writeFile(f, t); int argc = 99; Vs a = {"stale"}; bool err = extractParsFromFile(f.c_str(), argc, a, "#"); want.insert(want.begin(), f); c.step(); c.state(t); c.checkf(!err && argc == (int)want.size() && a == want, [&] { return "'" + show(t) + "': " + mc::join(a, "|"); }); c.check(extractParsFromFile((dir + "/none").c_str(), argc, a, "#"), "a missing file is read");
}
static void descriptors(Ctx& c) {
  static const Vs heads = {"thot tm descriptor", "thot lm descriptor # x", " thot  cf descriptor", "thot xx descriptor", "thot tm", "", "tm thot descriptor"}; static const Vs lines = {"$(THOT_LIBDIR)a.so main/m main", "b.so /abs/m2 x", "# old/m main", "# c.so d main", "old/m main comment", "", "f.so -p $(THOT_LIBDIR)q dir/g y # note", "only two", "h # i", "k l # m"};
  int h = c.choose(heads.size()), n = c.choose(thorough() ? 5 : 4); std::string t = heads[h] + "\n"; Vs ls; for (int i = 0; i < n; ++i) { ls.push_back(c.pick(lines)); t += ls.back() + "\n"; } if (c.flip()) t.pop_back(); auto dir = c.scratch(); std::string f = dir + "/desc", w = "'" + show(t) + "'"; writeFile(f, t); bool is = h < 3; c.step(); c.state(t); std::string lib = StrProcUtils::getLibDir(), var = StrProcUtils::getLibDirVarNameValue(); auto ex = [&](const std::string& s) { return s.compare(0, var.size(), var) == 0 ? lib + s.substr(var.size()) : s; };
  c.checkf(fileIsDescriptor(f) == is, [&] { return w + ": is a descriptor"; }); std::string mainF = "stale"; bool r = fileIsDescriptor(f, mainF); std::string wantMain; for (auto& l : ls) { if (l.empty() || l[0] == '#') continue; auto x = split(l, " "); if (x.size() >= 3 && x[2] == "main") { wantMain = x[1]; break; } if (x.size() >= 3 && x[1] == "main") { wantMain = x[0]; break; } } c.checkf(r == is && (!is || mainF == wantMain), [&] { return w + ": main file '" + mainF + "' instead of '" + wantMain + "'"; });
  std::vector<ModelDescriptorEntry> v; bool err = extractModelEntryInfo(f, v); c.checkf(err == !is, [&] { return w + ": entries"; }); if (!is) return; size_t k = 0;
  for (auto& l : ls) { auto x = split(l, " "); for (size_t i = 0; i < x.size(); ++i) if (x[i] == "#") x.resize(i); if (x.size() < 3) continue; c.checkf(k < v.size(), [&] { return w + str(": ", v.size(), " entries"); }); auto& e = v[k++]; std::string init; for (size_t i = 0; i + 2 < x.size(); ++i) init += (i ? " " : "") + ex(x[i]); std::string file = x[x.size() - 2]; c.checkf(e.modelInitInfo == init && e.modelFileName == file && e.statusStr == x.back() && e.absolutizedModelFileName == (file[0] == '/' ? file : dir + "/" + file), [&] { return w + ": entry '" + e.modelInitInfo + "' '" + e.modelFileName + "' '" + e.statusStr + "' '" + e.absolutizedModelFileName + "'"; }); } c.checkf(k == v.size(), [&] { return w + str(": ", v.size(), " entries instead of ", k, ": '", v.back().modelInitInfo, "' '", v.back().modelFileName, "'"); });
  std::string g = dir + "/again"; c.checkf(!printModelDescriptor(v, g), [&] { return w + ": printing"; }); std::vector<ModelDescriptorEntry> v2; c.checkf(!extractModelEntryInfo(g, v2) && v2.size() == v.size(), [&] { return w + ": printed descriptor"; }); for (size_t i = 0; i < v2.size(); ++i) c.checkf(v2[i].modelInitInfo == v[i].modelInitInfo && v2[i].modelFileName == v[i].modelFileName && v2[i].statusStr == v[i].statusStr && v2[i].absolutizedModelFileName == v[i].absolutizedModelFileName, [&] { return w + ": printed entry"; });
  c.check(extractDirName("") == "" && extractDirName("a") == "" && extractDirName("/a") == "/" && extractDirName("a/b/") == "a/b/" && absolutizeModelFileName("", "x") == "x" && absolutizeModelFileName("d", "x") == "x" && absolutizeModelFileName("q/d", "") == "", "directories");
}
int main(int argc, char** argv) {
  if (!getenv("MC_STDERR")) freopen("/dev/null", "w", stderr);
  return run(argc, argv, "P20", {{"files", "all files of up to 7 (8) characters out of two letters, blank, tab and newline; streams and files; two separators", files, 4}, {"streams", "all histories of 5 (6) operations on two streams", streams, 3}, {"words", "all strings of up to 7 (8) characters out of two letters, blank and tab", words, 3},
    {"args", "all command lines of up to 4 (5) words out of 8", args, 2}, {"pars", "all parameter files of up to 4 (5) lines out of 8", pars, 2}, {"descriptors", "all descriptors of up to 3 (4) lines out of 10 after 7 headings", descriptors, 2}});
}
