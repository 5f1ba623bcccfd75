// running the programs and shell tools of /repo from a harness, inside the scratch directory
#ifndef PROG_H
#define PROG_H
#include "mc.h"
#include <filesystem>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fstream>
namespace mc {
inline std::string freshDir(mc::Ctx& c) { std::string d = c.scratch() + "/fresh"; std::error_code e; std::filesystem::remove_all(d, e); std::filesystem::create_directories(d); return d; }
inline std::string readFile(const std::string& f) { std::ifstream i(f, std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }
inline void writeFile(const std::string& f, const std::string& s) { std::ofstream o(f, std::ios::binary); o << s; }
inline std::string bin(const std::string& name) { return std::string(getenv("VERIF_BUILD")) + "/bin/" + name; }
inline std::string repo(const std::string& p) { const char* r = getenv("THOT_REPO"); return std::string(r ? r : "/repo") + "/" + p; }
struct Result { int status = -1; std::string out, err; bool ok() const { return WIFEXITED(status) && WEXITSTATUS(status) == 0; } };
inline Result runCmd(Ctx& c, const std::vector<std::string>& argv, const std::string& input = "", int timeout = 60) {
  std::string d = c.scratch(), fi = d + "/.in", fo = d + "/.out", fe = d + "/.err";
  writeFile(fi, input);
  pid_t p = fork();
  if (p == 0) {
    int i = open(fi.c_str(), O_RDONLY), o = open(fo.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), e = open(fe.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    dup2(i, 0); dup2(o, 1); dup2(e, 2);
    for (int k = 3; k < 64; ++k) ::close(k);
    if (chdir(d.c_str())) _exit(126);
    alarm(timeout);
    std::vector<char*> a; for (auto& s : argv) a.push_back((char*)s.c_str()); a.push_back(nullptr);
    execvp(a[0], a.data()); _exit(127);
  }
  Result r; waitpid(p, &r.status, 0);
  r.out = readFile(fo); r.err = readFile(fe);
  return r;
}
// the shell tools get these variables from the build when they are installed
inline Result runScript(Ctx& c, const std::string& script, std::vector<std::string> args, const std::string& input = "", int timeout = 60) {
  std::vector<std::string> a = {"bash", "-c", "AWK=awk; SORT=sort; sortT=yes; sortpars=\"-S 131072\"; SED=sed; GREP=grep; BASENAME=basename; HEAD=head; TAIL=tail; MKTEMP=mktemp; SPLIT=split; TMPDIR=" + c.scratch() + "; version=0; bindir=" + std::string(getenv("VERIF_BUILD")) + "/bin; . " + repo(script), "script"};
  for (auto& x : args) a.push_back(x);
  return runCmd(c, a, input, timeout);
}
}  // namespace mc
#endif
