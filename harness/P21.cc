// Messages between client and server: framing over a byte stream and the request protocol.
// SOURCES: nlp_common/BasicSocketUtils.cc nlp_common/StrProcUtils.cc nlp_common/ThreadSafePrint.cc nlp_common/options.cc nlp_common/ctimer.c nlp_common/mem_alloc_utils.cc nlp_common/AwkInputStream.cc nlp_common/getline.c stack_dec/ThotDecoderClient.cc
// LIBS: -lpthread -ldl
#define SCHED_INTERPOSE
#include "threads.h"
#include <algorithm>
#include <arpa/inet.h>
#include <climits>
#include <deque>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <sys/socket.h>

using mc::Ctx;
using mc::str;
static bool thorough() { const char* t = getenv("VERIF_TIER"); return t && std::string(t) == "thorough"; }

// ------------------------------------------------------------------ the network
namespace net {
struct Conn { std::string c2s, s2c; size_t c2sRead = 0, s2cRead = 0; bool clientClosed = false, serverClosed = false, reset = false, connected = false; };
enum Fault { NONE, END, RESET, INTR };
static const int BASE = 10000, LISTEN = 9999, DIRECT_IN = 9000, DIRECT_OUT = 9001;
static bool sim = false;
static std::deque<Conn> conns;
static std::deque<int> pending;
static bool listening = false;
static int acceptFailures = 0;
// direct streams
static std::string in, out; static size_t inRead = 0;
static Fault inFault = NONE, outFault = NONE; static size_t inFaultAt = 0, outFaultAt = 0;
// how much of n>=1 available bytes is transferred by one call
static std::function<size_t(size_t)> part;
static void reset() {
  conns.clear(); pending.clear(); listening = false; acceptFailures = 0; in.clear(); out.clear(); inRead = 0; inFault = outFault = NONE; inFaultAt = outFaultAt = 0;
  part = [](size_t n) { return n; };
}
static bool mine(int fd) { return sim && (fd == DIRECT_IN || fd == DIRECT_OUT || fd >= LISTEN); }

static ssize_t directRead(char* buf, size_t n) {
  size_t avail = in.size() - inRead;
  if (inFault != NONE) {
    if (inRead >= inFaultAt) {
      if (inFault == END) return 0;
      if (inFault == RESET) { errno = ECONNRESET; return -1; }
      inFault = NONE; errno = EINTR; return -1;
    }
    avail = std::min(avail, inFaultAt - inRead);
  }
  if (n == 0) return 0;
  if (!avail) throw mc::Failure{"", "the code reads beyond the end of the message"};
  size_t k = part(std::min(n, avail));
  memcpy(buf, in.data() + inRead, k); inRead += k;
  return k;
}
static ssize_t directWrite(const char* buf, size_t n) {
  size_t room = n;
  if (outFault != NONE) {
    if (out.size() >= outFaultAt) {
      if (outFault == INTR) { outFault = NONE; errno = EINTR; return -1; }
      errno = EPIPE; return -1;
    }
    room = std::min(room, outFaultAt - out.size());
  }
  if (n == 0) return 0;
  size_t k = part(room);
  out.append(buf, k);
  return k;
}
static ssize_t readFd(int fd, char* buf, size_t n, int flags) {
  size_t done = 0;
  for (;;) {
    ssize_t r;
    if (fd == DIRECT_IN) r = directRead(buf + done, n - done);
    else {
      Conn& k = conns[(fd - BASE) / 2]; bool client = (fd - BASE) % 2 == 0;
      std::string& s = client ? k.s2c : k.c2s; size_t& p = client ? k.s2cRead : k.c2sRead; bool& closed = client ? k.serverClosed : k.clientClosed;
      Conn* kp = &k; std::string* sp = &s; size_t* pp = &p; bool* cp = &closed;
      if (n) sched::point("recv", [=] { return *pp < sp->size() || *cp || kp->reset; });
      if (n == done) r = 0;
      else if (p < s.size()) { r = part(std::min(n - done, s.size() - p)); memcpy(buf + done, s.data() + p, r); p += r; }
      else if (k.reset && !client) { errno = ECONNRESET; r = -1; }
      else r = 0;
    }
    if (r > 0) { done += r; if ((flags & MSG_WAITALL) && done < n) continue; return done; }
    return done ? done : r;
  }
}
static ssize_t writeFd(int fd, const char* buf, size_t n) {
  if (fd == DIRECT_OUT) return directWrite(buf, n);
  Conn& k = conns[(fd - BASE) / 2]; bool client = (fd - BASE) % 2 == 0;
  if (client ? k.serverClosed : (k.clientClosed || k.reset)) { errno = EPIPE; return -1; }
  if (!n) return 0;
  size_t w = part(n);
  (client ? k.c2s : k.s2c).append(buf, w);
  return w;
}
}  // namespace net

extern "C" {
ssize_t recv(int fd, void* buf, size_t n, int flags) { return net::mine(fd) ? net::readFd(fd, (char*)buf, n, flags) : syscall(SYS_recvfrom, fd, buf, n, flags, nullptr, nullptr); }
ssize_t read(int fd, void* buf, size_t n) { return net::mine(fd) ? net::readFd(fd, (char*)buf, n, 0) : syscall(SYS_read, fd, buf, n); }
ssize_t send(int fd, const void* buf, size_t n, int flags) { return net::mine(fd) ? net::writeFd(fd, (const char*)buf, n) : syscall(SYS_sendto, fd, buf, n, flags, nullptr, 0); }
ssize_t write(int fd, const void* buf, size_t n) { return net::mine(fd) ? net::writeFd(fd, (const char*)buf, n) : syscall(SYS_write, fd, buf, n); }
int socket(int d, int t, int p) noexcept {
  if (!net::sim || !sched::controlled()) return syscall(SYS_socket, d, t, p);
  if (sched::self->name == "server") return net::LISTEN;
  net::conns.emplace_back();
  return net::BASE + 2 * (net::conns.size() - 1);
}
int setsockopt(int fd, int l, int o, const void* v, socklen_t n) noexcept { return net::mine(fd) ? 0 : syscall(SYS_setsockopt, fd, l, o, v, n); }
int bind(int fd, const sockaddr* a, socklen_t n) noexcept { return net::mine(fd) ? 0 : syscall(SYS_bind, fd, a, n); }
int listen(int fd, int n) noexcept { if (net::mine(fd)) { net::listening = true; return 0; } return syscall(SYS_listen, fd, n); }
int connect(int fd, const sockaddr* a, socklen_t n) {
  if (!net::mine(fd)) return syscall(SYS_connect, fd, a, n);
  if (!net::listening) { errno = ECONNREFUSED; return -1; }
  net::conns[(fd - net::BASE) / 2].connected = true;
  net::pending.push_back((fd - net::BASE) / 2);
  return 0;
}
int accept(int fd, sockaddr* a, socklen_t* n) {
  if (!net::mine(fd)) return syscall(SYS_accept, fd, a, n);
  sched::point("accept", [] { return !net::pending.empty(); });
  if (net::acceptFailures > 0) { --net::acceptFailures; errno = ECONNABORTED; return -1; }
  int k = net::pending.front(); net::pending.pop_front();
  if (a && n && *n >= sizeof(sockaddr_in)) { sockaddr_in in{}; in.sin_family = AF_INET; in.sin_addr.s_addr = htonl(INADDR_LOOPBACK); memcpy(a, &in, sizeof in); }
  return net::BASE + 2 * k + 1;
}
int close(int fd) {
  if (!net::mine(fd)) return syscall(SYS_close, fd);
  if (fd == net::LISTEN) { net::listening = false; return 0; }
  if (fd >= net::BASE) { auto& k = net::conns[(fd - net::BASE) / 2]; ((fd - net::BASE) % 2 ? k.serverClosed : k.clientClosed) = true; }
  return 0;
}
int shutdown(int fd, int how) noexcept { return net::mine(fd) ? 0 : syscall(SYS_shutdown, fd, how); }
}

// ------------------------------------------------------------------ the real code
#include "BasicSocketUtils.h"
#include "ThotDecoderClient.h"
namespace BasicSocketUtils { int recvFloat(int s, float& f); }

// the decoder behind the server: records what it is asked for
#define _ThotDecoder_h
#include "BasePbTransModel.h"
#include "RejectedWordsSet.h"
#include "StdCerrThreadSafePrint.h"
#include "StdCerrThreadSafeTidPrint.h"
#include "ThotDecoderUserPars.h"
#define THOTDEC_NON_VERBOSE_MODE 0
#define THOTDEC_NORMAL_VERBOSE_MODE 1
#define THOTDEC_DEBUG_VERBOSE_MODE 2
namespace stub {
static std::vector<std::string> calls;
static std::function<int(const std::string&)> answer;   // for calls with a status
static std::string result(const std::string& in) { return "<" + in + ">"; }
static int call(const std::string& what) { calls.push_back(what); return answer ? answer(what) : THOT_OK; }
}
struct ThotDecoder {
  int initUsingCfgFile(std::string, ThotDecoderUserPars&, int) { return THOT_OK; }
  int initUserPars(int u, const ThotDecoderUserPars&, int) { return stub::call(str("init ", u)); }
  int testSoftwareModulesInModelDescriptors(std::string, int) { return THOT_OK; }
  int printModelWeights() { return THOT_OK; }
  int onlineTrainSentPair(int u, const char* s, const char* t, int = 0) { return stub::call(str("train ", u, " [", s, "] [", t, "]")); }
  int trainEcm(int u, const char* s, const char* t, int = 0) { return stub::call(str("ecm ", u, " [", s, "] [", t, "]")); }
  void translateSentence(int u, const char* s, std::string& r, std::string& h, int = 0) { stub::call(str("translate ", u, " [", s, "]")); r = stub::result(s); h = stub::result(r); }
  void sentPairVerCov(int u, const char* s, const char* t, std::string& r, int = 0) { stub::call(str("cover ", u, " [", s, "] [", t, "]")); r = stub::result(std::string(s) + t); }
  void startCat(int u, const char* s, std::string& r, int = 0) { stub::call(str("startcat ", u, " [", s, "]")); r = stub::result(s); }
  void addStrToPref(int u, const char* s, const RejectedWordsSet& rej, std::string& r, int = 0) { stub::call(str("addpref ", u, " [", s, "]", rej.size() ? " rejected" : "")); r = stub::result(s); }
  void resetPrefix(int u, int = 0) { stub::call(str("reset ", u)); }
  int printModels(int = 0) { return stub::call("print"); }
  void clearTrans(int = 0) { stub::call("clear"); }
};
#undef DEFAULT_USER_ID
#define main thot_server_main
#include "thot_server.cc"
#undef main

// ------------------------------------------------------------------ framing
static std::string be(int v) { unsigned u = v; std::string s; for (int i = 3; i >= 0; --i) s += char(u >> (8 * i)); return s; }
static std::string frame(const std::string& s) { return be(s.size()) + s; }
static std::string show(const std::string& s) {
  std::string o; char b[8];
  for (unsigned char ch : s.substr(0, 60)) { if (ch < 32 || ch > 126) { snprintf(b, sizeof b, "\\x%02x", ch); o += b; } else o += ch; }
  return "\"" + o + (s.size() > 60 ? str("\"... (", s.size(), " bytes)") : "\"");
}
struct Sim { Sim() { net::reset(); net::sim = true; } ~Sim() { net::sim = false; } };
static void enumerateParts(Ctx& c) { net::part = [&c](size_t n) -> size_t { return n == 1 ? 1 : n - c.choose(n); }; }

static void ints(Ctx& c) {
  static const std::vector<int> V = {0, 1, -1, 2, 127, 128, 255, 256, 65535, 65536, 0x01020304, (int)0x80000001, INT_MAX, INT_MIN};
  Sim s; int v = c.pick(V);
  enumerateParts(c);
  int w = BasicSocketUtils::writeInt(net::DIRECT_OUT, v);
  c.checkf(net::out == be(v), [&] { return str("writeInt(", v, ") put ", show(net::out), " on the wire"); });
  c.checkf(w == 4, [&] { return str("writeInt(", v, ") returned ", w); });
  net::in = net::out;
  int r = BasicSocketUtils::recvInt(net::DIRECT_IN);
  c.checkf(r == v, [&] { return str("sent ", v, ", received ", r); });
  c.step(2); c.outcome(str(r));
}
static void strings(Ctx& c) {
  static const std::vector<std::string> V = {"", "a", "\x80", "a b", "\n", "\xc3\xa9", "abcd", " x ", "\xff\x01"};
  Sim s; const std::string& v = c.pick(V); bool stl = c.flip();
  enumerateParts(c);
  int w = BasicSocketUtils::writeStr(net::DIRECT_OUT, v.c_str());
  c.checkf(net::out == frame(v), [&] { return str("writeStr(", show(v), ") put ", show(net::out), " on the wire"); });
  c.checkf(w == (int)v.size() + 4, [&] { return str("writeStr(", show(v), ") returned ", w); });
  net::in = net::out + "more";
  std::string r = "old contents"; int n;
  if (stl) n = BasicSocketUtils::recvStlStr(net::DIRECT_IN, r);
  else { char buf[64]; memset(buf, 'z', sizeof buf); n = BasicSocketUtils::recvStr(net::DIRECT_IN, buf); r = buf; }
  c.checkf(r == v && n == (int)v.size(), [&] { return str("sent ", show(v), ", received ", show(r), " with length ", n); });
  c.checkf(net::inRead == v.size() + 4, [&] { return str("receiving ", show(v), " consumed ", net::inRead, " bytes"); });
  c.step(2); c.outcome(r);
}
static void sequence(Ctx& c) {
  Sim s; enumerateParts(c);
  net::in = be(-7) + frame("q") + frame("") + be(300) + frame("xy");
  std::string a, b = "z", d; int i = BasicSocketUtils::recvInt(net::DIRECT_IN);
  BasicSocketUtils::recvStlStr(net::DIRECT_IN, a); BasicSocketUtils::recvStlStr(net::DIRECT_IN, b);
  int j = BasicSocketUtils::recvInt(net::DIRECT_IN); BasicSocketUtils::recvStlStr(net::DIRECT_IN, d);
  c.checkf(i == -7 && a == "q" && b == "" && j == 300 && d == "xy", [&] { return str("received ", i, " ", show(a), " ", show(b), " ", j, " ", show(d), " instead of -7 \"q\" \"\" 300 \"xy\""); });
  c.step(5); c.outcome(str(net::inRead));
}
static void floats(Ctx& c) {
  // the sender's format: exponent, sign, five digits
  Sim s; int dp = (int)c.choose(11) - 5, sign = c.choose(2); const char* d = c.pick(std::vector<const char*>{"12345", "10000", "99999", "0"});
  net::in = be(dp) + be(sign) + frame(d);
  size_t k = c.pick(std::vector<size_t>{1, 3, 100}); net::part = [k](size_t n) { return std::min(n, k); };
  float f = 0; int n = BasicSocketUtils::recvFloat(net::DIRECT_IN, f);
  double want = dp >= 0 ? atof(d) / pow(10, 5 - dp) : atof(d) * pow(10, dp - 5);
  if (sign) want = -want;
  c.checkf(mc::close(f, want, 1e-6, 1e-20) && n == 8 + (int)strlen(d), [&] { return str("float ", d, " exponent ", dp, " sign ", sign, ": received ", f, " (", n, " bytes)"); });
  c.step(); c.outcome(str(f));
}
static void longStrings(Ctx& c) {
  std::vector<size_t> L = {127, 128, 255, 256, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 70000, 1000000};
  if (thorough()) for (size_t i = 1; i < 2100; i += 13) L.push_back(i);
  Sim s; size_t len = c.pick(L), k = c.pick(std::vector<size_t>{1u << 30, 65536, 4096, 1460, 513, 512, 511, 7, 1});
  if (k < 512 && len > 70000) throw mc::Skip();
  unsigned first = c.choose(3);   // size of the first part: as the others, one byte, all but one
  std::string v; for (size_t i = 0; i < len; ++i) v += char(1 + (i * 7 + i / 255) % 255);
  size_t calls = 0;
  net::part = [&](size_t n) -> size_t { ++calls; if (first == 1 && calls % 5 == 1) return 1; if (first == 2 && calls % 3 == 2 && n > 1) return n - 1; return std::min(n, k); };
  BasicSocketUtils::writeStr(net::DIRECT_OUT, v.c_str());
  c.checkf(net::out == frame(v), [&] { return str("writeStr() of ", len, " bytes put ", net::out.size(), " bytes on the wire, or others"); });
  net::in = net::out; calls = 0;
  std::string r; int n;
  if (c.flip()) { std::vector<char> buf(len + 16, 'z'); n = BasicSocketUtils::recvStr(net::DIRECT_IN, buf.data()); r = buf.data(); c.check(buf[len + 1] == 'z', "recvStr() wrote beyond the string"); }
  else n = BasicSocketUtils::recvStlStr(net::DIRECT_IN, r);
  c.checkf(r == v && n == (int)len, [&] { return str("a string of ", len, " bytes arrived as ", r.size(), " bytes, returned length ", n); });
  c.step(2); c.outcome(str(len, " ", k));
}
// the connection ends, fails or is interrupted at every byte
static void readFaults(Ctx& c) {
  Sim s;
  net::in = be(77) + frame("ab") + frame("c");
  net::inFaultAt = c.choose(net::in.size()); net::inFault = c.pick(std::vector<net::Fault>{net::END, net::RESET, net::INTR});
  net::Fault kind = net::inFault; size_t at = net::inFaultAt;
  enumerateParts(c);
  bool stl = true; std::string got, want; bool thrown = false; size_t ends[] = {4, 10, 15};
  try {
    int i = BasicSocketUtils::recvInt(net::DIRECT_IN); got += str(i); if (at >= ends[0] || kind == net::INTR) want += "77";
    std::string a; BasicSocketUtils::recvStlStr(net::DIRECT_IN, a); got += " " + show(a); if (at >= ends[1] || kind == net::INTR) want += " \"ab\"";
    char buf[32]; memset(buf, 'z', sizeof buf); BasicSocketUtils::recvStr(net::DIRECT_IN, buf); got += " " + show(buf); if (at >= ends[2] || kind == net::INTR) want += " \"c\"";
  } catch (std::exception& e) { thrown = true; }
  (void)stl;
  c.checkf(got == want, [&] { return str("the connection ", kind == net::END ? "ended" : kind == net::RESET ? "failed" : "was interrupted", " after ", at, " of 15 bytes: received ", got); });
  c.checkf(thrown || kind == net::INTR, [&] { return str("no error although the connection ", kind == net::END ? "ended" : "failed", " after ", at, " of 15 bytes"); });
  c.step(3); c.outcome(str(got, thrown));
}
static void writeFaults(Ctx& c) {
  Sim s;
  std::string all = be(77) + frame("ab") + frame("");
  net::outFaultAt = c.choose(all.size()); net::outFault = c.flip() ? net::INTR : net::RESET;
  net::Fault kind = net::outFault; size_t at = net::outFaultAt;
  enumerateParts(c);
  bool thrown = false;
  try { BasicSocketUtils::writeInt(net::DIRECT_OUT, 77); BasicSocketUtils::writeStr(net::DIRECT_OUT, "ab"); BasicSocketUtils::writeStr(net::DIRECT_OUT, ""); }
  catch (std::exception&) { thrown = true; }
  c.checkf(net::out == all.substr(0, net::out.size()), [&] { return "wrong bytes on the wire: " + show(net::out); });
  c.checkf(thrown || net::out == all, [&] { return str("no error although only ", net::out.size(), " of ", all.size(), " bytes were sent"); });
  c.checkf(thrown || kind == net::INTR, [&] { return str("no error although the connection failed after ", at, " bytes"); });
  c.step(3); c.outcome(str(net::out.size(), thrown));
}
static void lengths(Ctx& c) {
  Sim s;
  int len = c.pick(std::vector<int>{-1, -2, -4, -5, -513, INT_MIN, INT_MIN + 1, INT_MAX, INT_MAX - 1, 1 << 30, 1 << 24, 601, 6});
  size_t have = c.pick(std::vector<size_t>{0, 1, 5, 511, 512, 600});
  if (len > 0 && have >= (size_t)len) throw mc::Skip();
  net::in = be(len) + std::string(have, 'x'); net::inFault = c.flip() ? net::RESET : net::END; net::inFaultAt = net::in.size();
  std::string r; bool thrown = false;
  try { BasicSocketUtils::recvStlStr(net::DIRECT_IN, r); } catch (std::exception&) { thrown = true; }
  c.checkf(thrown, [&] { return str("a string with length field ", len, " and ", have, " bytes was received as ", show(r)); });
  c.step(); c.outcome(str(len));
}

// ------------------------------------------------------------------ client and server
enum Kind { TRAIN, ECM, TRANSLATE, COVER, STARTCAT, ADDPREF, RESETPREF, PRINT, KINDS };
struct Req { int kind; int user; std::string a, b; };
static std::string expectedCall(const Req& r) {
  switch (r.kind) {
    case TRAIN: return str("train ", r.user, " [", r.a, "] [", r.b, "]");
    case ECM: return str("ecm ", r.user, " [", r.a, "] [", r.b, "]");
    case TRANSLATE: return str("translate ", r.user, " [", r.a, "]");
    case COVER: return str("cover ", r.user, " [", r.a, "] [", r.b, "]");
    case STARTCAT: return str("startcat ", r.user, " [", r.a, "]");
    case ADDPREF: return str("addpref ", r.user, " [", r.a, "]");
    case RESETPREF: return str("reset ", r.user);
    default: return "print";
  }
}
static bool hasStatus(int k) { return k == TRAIN || k == ECM || k == PRINT; }
static std::string expectedReply(const Req& r, bool error) {
  using stub::result;
  if (hasStatus(r.kind)) return error ? "exception" : "ok";
  switch (r.kind) {
    case TRANSLATE: return result(r.a) + " " + result(result(r.a));
    case COVER: return result(r.a + r.b);
    case STARTCAT: case ADDPREF: return result(r.a);
    default: return "ok";
  }
}
static std::string doRequest(const Req& r) {
  ThotDecoderClient cl; std::string x = "?", y = "?";
  try {
    cl.connectToTransServer("127.0.0.1", 4550);
    switch (r.kind) {
      case TRAIN: cl.sendSentPairForOlTrain(r.user, r.a.c_str(), r.b.c_str()); return "ok";
      case ECM: cl.sendStrPairForTrainEcm(r.user, r.a.c_str(), r.b.c_str()); return "ok";
      case TRANSLATE: cl.sendSentToTranslate(r.user, r.a.c_str(), x, y); return x + " " + y;
      case COVER: cl.sendSentPairVerCov(r.user, r.a.c_str(), r.b.c_str(), x); return x;
      case STARTCAT: cl.startCat(r.user, r.a.c_str(), x); return x;
      case ADDPREF: cl.addStrToPref(r.user, r.a.c_str(), x); return x;
      case RESETPREF: cl.resetPref(r.user); return "ok";
      default: cl.sendPrintRequest(r.user); return "ok";
    }
  } catch (std::exception&) { return "exception"; }
}
static std::string endServer(int user) {
  try { ThotDecoderClient cl; cl.connectToTransServer("127.0.0.1", 4550); cl.sendEndServerRequest(user); return "ok"; } catch (std::exception&) { return "exception"; }
}
static std::string wire(const Req& r) {
  switch (r.kind) {
    case TRAIN: return be(OL_TRAIN_PAIR) + be(r.user) + frame(r.a) + frame(r.b);
    case ECM: return be(TRAIN_ECM) + be(r.user) + frame(r.a) + frame(r.b);
    case TRANSLATE: return be(TRANSLATE_SENT) + be(r.user) + frame(r.a);
    case COVER: return be(VERIFY_COV) + be(r.user) + frame(r.a) + frame(r.b);
    case STARTCAT: return be(START_CAT) + be(r.user) + frame(r.a);
    case ADDPREF: return be(ADD_STR_TO_PREF) + be(r.user) + frame(r.a);
    case RESETPREF: return be(RESET_PREF) + be(r.user);
    default: return be(PRINT_MODELS) + be(r.user);
  }
}
// a client which sends some bytes and goes away
static int rawClient(const std::string& bytes) {
  int fd = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a{}; a.sin_family = AF_INET;
  if (connect(fd, (sockaddr*)&a, sizeof a)) throw mc::Failure{"", "the server does not listen"};
  auto& k = net::conns[(fd - net::BASE) / 2]; k.c2s = bytes;
  return fd;
}
static std::vector<std::string> g_argv;
struct Session {
  Ctx& c; Sim sim; sched::Run run; int status = -1; bool clientDone = false;
  explicit Session(Ctx& c_) : c(c_), run(c_, 0, true) {
    stub::calls.clear(); stub::answer = nullptr; sched::createFails = false;
    user_set.clear(); ts_pars = thot_server_pars(); tdu_pars = ThotDecoderUserPars(); thotDecoderPtr = nullptr; num_threads = 0;
  }
  void go(std::function<void()> client, std::vector<const char*> extra = {}) {
    run.spawn("server", [this, extra] {
      std::vector<const char*> a = {"thot_server", "-c", "cfg", "-p", "4550"}; for (auto e : extra) a.push_back(e);
      status = thot_server_main(a.size(), (char**)a.data());
    });
    run.spawn("client", [this, client] { sched::point("start of the client", [] { return net::listening; }); client(); clientDone = true; });
    run.run();
    sched::createFails = false;
    c.checkf(status == THOT_OK, [&] { return str("the server ended with status ", status); });
    for (auto& k : net::conns) c.check(!k.connected || k.serverClosed, "the server left a connection open");
  }
};
static std::string callsSoFar() { std::string s; for (auto& x : stub::calls) s += "\n    " + x.substr(0, 200); return s; }

static void requests(Ctx& c) {
  static const std::string LONG = [] { std::string s; for (int i = 0; i < 3000; ++i) s += char(33 + i % 90); return s; }();
  static const std::vector<std::string> A = {"", "a b", "x\ny\t ", LONG, "\xc3\xa9\xff"};
  Session s(c);
  Req r1, r2;
  r1.kind = c.choose(KINDS); r1.user = c.pick(std::vector<int>{0, 7, -1, INT_MAX});
  if (r1.kind < RESETPREF) r1.a = c.pick(A);
  if (r1.kind == TRAIN || r1.kind == ECM || r1.kind == COVER) r1.b = c.pick(A);
  bool err = hasStatus(r1.kind) && c.flip();
  r2.kind = thorough() ? c.choose(KINDS) : (r1.kind + 1 + 3 * c.choose(2)) % KINDS; r2.user = c.flip() ? 5 : r1.user; r2.a = "second one"; r2.b = "t";
  if (r2.kind >= RESETPREF) r2.a = r2.b = "";
  size_t k = c.pick(std::vector<size_t>{1u << 30, 1, 3, 512});
  net::part = [k](size_t n) { return std::min(n, k); };
  bool verbose = r1.user == 7;
  bool armed = err; stub::answer = [&](const std::string& what) { if (armed && what.compare(0, 4, "init")) { armed = false; return THOT_ERROR; } return THOT_OK; };
  std::string g1, g2, ge;
  s.go([&] { g1 = doRequest(r1); g2 = doRequest(r2); ge = endServer(r1.user); }, verbose ? std::vector<const char*>{"-v"} : std::vector<const char*>{});
  std::vector<std::string> want = {str("init ", r1.user), expectedCall(r1)};
  if (r2.user != r1.user) want.push_back(str("init ", r2.user));
  want.push_back(expectedCall(r2)); want.push_back("clear");
  c.checkf(stub::calls == want, [&] { return str("requests ", expectedCall(r1).substr(0, 200), " and ", expectedCall(r2), " reached the decoder as ", callsSoFar()); });
  c.checkf(g1 == expectedReply(r1, err), [&] { return str("reply of ", expectedCall(r1).substr(0, 200), " was ", show(g1)); });
  c.checkf(g2 == expectedReply(r2, false), [&] { return str("reply of ", expectedCall(r2).substr(0, 200), " was ", show(g2)); });
  c.checkf(ge == "ok", [] { return std::string("ending the server was not acknowledged"); });
  c.step(3); c.outcome(g1 + g2); c.state(str(r1.kind, r1.user, r1.a.size(), r1.b.size(), err));
}
// users are initialised before their first request, once, also after failures
static void users(Ctx& c) {
  Session s(c);
  unsigned n = thorough() ? 6 : 4; struct U { int user; bool ok; int kind; }; std::vector<U> q;
  for (unsigned i = 0; i < n; ++i) q.push_back({(int)c.choose(2) * 3, !c.flip(), c.flip() ? TRANSLATE : RESETPREF});
  bool ok = true; stub::answer = [&](const std::string& what) { return what.compare(0, 4, "init") ? THOT_OK : ok ? THOT_OK : THOT_ERROR; };
  std::vector<std::string> want; std::string replies, wantReplies, ge; std::set<int> ready;
  s.go([&] {
    for (auto& u : q) {
      ok = u.ok; Req r{u.kind, u.user, u.kind == TRANSLATE ? "s" : "", ""};
      if (!ready.count(u.user)) { want.push_back(str("init ", u.user)); if (ok) ready.insert(u.user); }
      bool served = ready.count(u.user); if (served) want.push_back(expectedCall(r));
      replies += doRequest(r) + ";"; wantReplies += (served ? expectedReply(r, false) : "exception") + ";";
    }
    ok = true; if (!ready.count(0)) want.push_back("init 0"); want.push_back("clear"); ge = endServer(0);
  });
  c.checkf(stub::calls == want, [&] { return str("the decoder was called as ", callsSoFar(), "\n  instead of\n    ", mc::join(want, "\n    ")); });
  c.checkf(replies == wantReplies, [&] { return str("replies ", replies, " instead of ", wantReplies); });
  c.check(ge == "ok", "ending the server was not acknowledged");
  c.step(n); c.outcome(replies); c.state(str(mc::join(ready)));
}
// clients that go away or send nonsense
static void badClients(Ctx& c) {
  Session s(c);
  Req bad{(int)c.choose(KINDS), c.flip() ? 4 : 0, "one", "tw"}; if (bad.kind >= RESETPREF) bad.a = bad.b = "";
  std::string w = wire(bad); unsigned mode = c.choose(3);   // 0: cut, 1: reset after the cut, 2: complete, but gone before the reply
  size_t cut = mode == 2 ? w.size() : c.choose(w.size());
  size_t k = c.pick(std::vector<size_t>{1u << 30, 1}); net::part = [k](size_t n) { return std::min(n, k); };
  unsigned times = 1 + c.choose(thorough() ? 3 : 2);
  Req good{TRANSLATE, 0, "fine", ""}; std::string g, ge;
  s.go([&] {
    for (unsigned i = 0; i < times; ++i) { int fd = rawClient(w.substr(0, cut)); if (mode == 1) net::conns[(fd - net::BASE) / 2].reset = true; close(fd); }
    g = doRequest(good); ge = endServer(0);
  });
  std::vector<std::string> calls, want; for (auto& x : stub::calls) if (x.compare(0, 4, "init")) calls.push_back(x);
  if (cut == w.size()) for (unsigned i = 0; i < times; ++i) want.push_back(expectedCall(bad));
  want.push_back(expectedCall(good)); want.push_back("clear");
  c.checkf(calls == want, [&] { return str("a client sent ", cut, " of the ", w.size(), " bytes of \"", expectedCall(bad), "\" and went away: the decoder was called as ", callsSoFar()); });
  c.checkf(g == expectedReply(good, false), [&] { return str("after a client went away another got ", show(g)); });
  c.check(ge == "ok", "ending the server was not acknowledged");
  c.step(times + 2); c.outcome(str(mode, cut == w.size()));
}
static void badEnd(Ctx& c) {
  Session s(c);
  std::string w = be(END_SERVER) + be(0); size_t cut = c.choose(8); bool rst = c.flip();
  Req good{TRANSLATE, 0, "fine", ""}; std::string g, ge;
  s.go([&] { int fd = rawClient(w.substr(0, cut)); if (rst) net::conns[(fd - net::BASE) / 2].reset = true; close(fd); g = doRequest(good); ge = endServer(0); });
  c.checkf(g == expectedReply(good, false) && ge == "ok", [&] { return str("after ", cut, " of the 8 bytes of a request to end the server another client got ", show(g)); });
  c.step(3); c.outcome(str(cut));
}
static void nonsense(Ctx& c) {
  Session s(c);
  int type = c.pick(std::vector<int>{0, -1, 10, 12, 100, INT_MIN, INT_MAX, TRANSLATE_SENT, OL_TRAIN_PAIR, START_CAT});
  int len = c.pick(std::vector<int>{-1, INT_MIN, INT_MAX, 1 << 30, 4}); std::string rest = c.pick(std::vector<std::string>{"", "x", "xyz"});
  size_t k = c.pick(std::vector<size_t>{1u << 30, 1}); net::part = [k](size_t n) { return std::min(n, k); };
  Req good{COVER, 0, "fine", "t"}; std::string g, ge;
  s.go([&] { int fd = rawClient(be(type) + be(0) + be(len) + rest); close(fd); g = doRequest(good); ge = endServer(0); });
  std::vector<std::string> want = {"init 0", expectedCall(good), "clear"};
  c.checkf(stub::calls == want, [&] { return str("request type ", type, " with length ", len, ": the decoder was called as ", callsSoFar()); });
  c.checkf(g == expectedReply(good, false) && ge == "ok", [&] { return str("after a request of type ", type, " another client got ", show(g)); });
  c.step(3); c.outcome(str(type));
}
// accept() and pthread_create() fail, the decoder throws
static void serverFaults(Ctx& c) {
  Session s(c);
  net::acceptFailures = c.choose(3);
  unsigned throwAt = c.choose(4); unsigned n = 0;   // the n-th decoder call raises an exception
  stub::answer = [&](const std::string& what) -> int { if (what.compare(0, 4, "init") && what != "clear" && throwAt && ++n == throwAt) throw std::runtime_error("decoder"); return THOT_OK; };
  unsigned creates = c.choose(8);                   // which of the first three requests get no thread
  std::vector<std::string> got; std::string ge; std::vector<Req> q = {{TRANSLATE, 0, "a", ""}, {TRAIN, 0, "b", "c"}, {RESETPREF, 2, "", ""}};
  s.run.s.c = &c;
  s.go([&] {
    for (unsigned i = 0; i < 3; ++i) { sched::createFails = creates >> i & 1; got.push_back(doRequest(q[i])); sched::createFails = false; }
    ge = endServer(0);
  });
  unsigned m = 0;
  for (unsigned i = 0; i < 3; ++i) {
    // with createFails the choice of failing is the explorer's: both outcomes are legal replies
    bool may = creates >> i & 1; bool called = false; for (auto& x : stub::calls) called |= x == expectedCall(q[i]);
    if (!may) c.checkf(called, [&] { return "a request did not reach the decoder: " + expectedCall(q[i]); });
    if (called) ++m;
    std::string want = called && m != throwAt ? expectedReply(q[i], false) : "exception";
    c.checkf(got[i] == want, [&] { return str("request ", expectedCall(q[i]), " was answered ", show(got[i]), " instead of ", show(want)); });
  }
  c.check(ge == "ok", "ending the server was not acknowledged");
  c.step(4); c.outcome(mc::join(got, ";"));
}
// a client object: one connection at a time, errors when there is none
static void clientStates(Ctx& c) {
  Session s(c);
  std::string got, want;
  unsigned ops[3]; for (auto& o : ops) o = c.choose(3);
  bool up = c.flip();
  s.go([&] {
    ThotDecoderClient cl; bool con = false; unsigned port = 4550;
    auto attempt = [&](std::function<void()> f) { try { f(); got += "ok;"; } catch (std::exception&) { got += "ex;"; } };
    for (auto o : ops) {
      if (o == 0) { bool was = net::listening; net::listening = up; attempt([&] { cl.connectToTransServer("127.0.0.1", port); }); net::listening = was; want += !con && up ? "ok;" : "ex;"; con |= up; }
      if (o == 1) { if (con) continue; attempt([&] { cl.resetPref(1); }); want += "ex;"; }
      if (o == 2) { attempt([&] { cl.disconnect(1); }); want += "ok;"; con = false; }
    }
    if (con) cl.disconnect(1);
    endServer(0);
  });
  c.checkf(got == want, [&] { return str("client operations ", ops[0], ops[1], ops[2], " (0 connect, 1 request, 2 disconnect): ", got, " instead of ", want); });
  for (auto& x : stub::calls) c.checkf(x == "clear" || !x.compare(0, 4, "init"), [&] { return "unexpected decoder call " + x; });
  c.step(3); c.outcome(got);
}

int main(int argc, char** argv) {
  if (!getenv("MC_STDERR")) if (!freopen("/dev/null", "w", stderr)) return 2;
  return mc::run(argc, argv, "P21", {
    {"ints", "14 integers, every fragmentation of their sending and receiving", ints},
    {"strings", "9 strings of up to 4 bytes, every fragmentation of their sending and receiving, with more data behind", strings},
    {"sequence", "a sequence of integers and strings, every fragmentation of its receiving", sequence},
    {"floats", "11 exponents, signs, 4 mantissas, 3 fragmentations", floats},
    {"long", "strings of 127 to 1000000 bytes around powers of two, 9 transfer sizes, 3 patterns of short transfers", longStrings},
    {"read-faults", "end, failure or interruption of the connection at every byte of a message, every fragmentation", readFaults},
    {"write-faults", "failure or interruption of the connection at every byte of what is sent, every fragmentation", writeFaults},
    {"lengths", "negative and huge length fields followed by 0 to 600 bytes", lengths},
    {"requests", "every request of a client with 4 users, 5 values per argument and both outcomes, followed by another request and the end of the server; 4 transfer sizes", requests},
    {"users", "all histories of 4 (thorough: 6) requests of 2 users with succeeding and failing initialisations", users},
    {"bad-clients", "clients that go away after every byte of each request or before the reply, once or twice, before a good client", badClients},
    {"bad-end", "clients that go away after every byte of a request to end the server", badEnd},
    {"nonsense", "unknown request types and wrong length fields before a good client", nonsense},
    {"server-faults", "failing accept() and pthread_create() calls and decoder exceptions during three requests", serverFaults},
    {"client-states", "all histories of 3 operations of a client object, with the server up and down", clientStates},
  });
}
