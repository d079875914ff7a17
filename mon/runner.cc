#include "runner.h"
#include <cerrno>
#include <csignal>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace {
struct Req {
  int64_t stepLimit, baseSec, baseUsec, stepUsec, jumpAt, jumpUsec, outAt;
  int32_t cpuSec, perturb, uid, memMB, nstr, ioUsec;
  MvlFault fault;
};
struct Resp {
  int64_t reads, cpuUsec, maxrssKB;
  int32_t status, limitHit;
  MvlFaultSeen seen;
  MvlMem mem;
};
bool readAll(int fd, void *p, size_t n) {
  char *c = (char *)p;
  while (n) {
    ssize_t k = read(fd, c, n);
    if (k <= 0) { if (k < 0 && errno == EINTR) continue; return false; }
    c += k; n -= k;
  }
  return true;
}
}

bool RunRes::exited() const { return !serverDied && WIFEXITED(status); }
int RunRes::code() const { return exited() ? WEXITSTATUS(status) : -1; }
int RunRes::sig() const { return !serverDied && WIFSIGNALED(status) ? WTERMSIG(status) : 0; }
bool RunRes::cpuKilled() const { return sig() == SIGXCPU || (sig() == SIGKILL && cpuUsec > 1000000); }
bool RunRes::wallKilled() const { return sig() == SIGALRM; }
bool RunRes::sanitizer() const {
  return err.find("Sanitizer") != str::npos || err.find("runtime error:") != str::npos ||
         err.find("Assertion '") != str::npos || err.find("Error: attempt to") != str::npos ||
         err.find("ERROR SUMMARY: ") != str::npos;
}
str RunRes::describe() const {
  if (serverDied) return "fork server died";
  str s;
  if (stepLimitHit) s = fmt("step limit reached after %lld clock reads", reads);
  else if (exited()) s = fmt("exit status %d", code());
  else s = fmt("killed by signal %d (%s), cpu %.2f s", sig(), strsignal(sig()), cpuUsec / 1e6);
  if (sanitizer()) s += ", sanitizer report";
  return s;
}

Runner::Runner(const str &binary, const str &workdir, const str &tag) : bin_(binary), dir_(workdir), tag_(tag) {}
Runner::~Runner() { stop(); }

bool Runner::start() {
  int sv[2];
  if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) return false;
  pid_t p = fork();
  if (p == 0) {
    dup2(sv[1], 198);
    if (sv[0] != 198) close(sv[0]);
    if (sv[1] != 198) close(sv[1]);
    int n = open("/dev/null", O_RDWR);
    dup2(n, 0); dup2(n, 1);
    str e = dir_ + "/server_" + tag_ + ".err";
    int f = open(e.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (f >= 0) dup2(f, 2);
    setenv("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=0:exitcode=86:allocator_may_return_null=0:hard_rss_limit_mb=3500:detect_stack_use_after_return=1:handle_abort=0:strict_string_checks=0:check_initialization_order=1:fast_unwind_on_malloc=1:malloc_context_size=4", 1);
    setenv("UBSAN_OPTIONS", "print_stacktrace=1:halt_on_error=1:exitcode=86", 1);
    setenv("MSAN_OPTIONS", "halt_on_error=0:exitcode=0:symbolize=0:poison_in_dtor=1:hard_rss_limit_mb=3500", 1);
    size_t h = tag_.find('#');
    if (h != str::npos) {
      Rng r(hashStr(tag_) ^ (u64)getpid());
      for (int i = 0; i < 60; i++) setenv(fmt("MVL_JUNK_%d", i).c_str(), str(r.range(0, 700), (char)r.range(33, 126)).c_str(), 1);
      setenv("LC_ALL", "C", 1); setenv("TZ", "Asia/Kathmandu", 1); setenv("HOME", "/nonexistent", 1); unsetenv("PATH");
      struct rlimit rl; rl.rlim_cur = 16u << 20; rl.rlim_max = RLIM_INFINITY; setrlimit(RLIMIT_STACK, &rl);
    }
    execl(bin_.c_str(), bin_.c_str(), (char *)nullptr);
    _exit(127);
  }
  close(sv[1]);
  fcntl(sv[0], F_SETFD, FD_CLOEXEC);
  fd_ = sv[0];
  pid_ = p;
  return p > 0;
}
void Runner::stop() {
  if (fd_ >= 0) close(fd_);
  fd_ = -1;
  if (pid_ > 0) { int st; waitpid(pid_, &st, 0); }
  pid_ = -1;
}

RunRes Runner::run(const RunReq &r) {
  RunRes res;
  runs++;
  if (fd_ < 0 && !start()) { res.serverDied = true; return res; }
  str outP = dir_ + "/out_" + tag_, errP = dir_ + "/err_" + tag_;
  std::vector<str> ss = {dir_, r.stdinPath, outP, errP, "mvl-solver"};
  for (auto &a : r.args) ss.push_back(a);
  Req q;
  memset(&q, 0, sizeof q);
  q.stepLimit = r.stepLimit; q.baseSec = r.baseSec; q.baseUsec = r.baseUsec; q.stepUsec = r.stepUsec;
  q.jumpAt = r.jumpAt; q.jumpUsec = r.jumpUsec; q.cpuSec = r.cpuSec; q.perturb = r.perturb;
  q.uid = r.uid; q.memMB = r.memMB; q.nstr = (int)ss.size();
  q.ioUsec = r.ioUsec; q.outAt = r.outAt;
  q.fault = r.fault;
  str msg((const char *)&q, sizeof q);
  for (auto &s : ss) { int32_t n = (int)s.size(); msg.append((const char *)&n, 4); msg += s; }
  // valgrind writes its reports where the server's stderr was when it started
  str srvErr = dir_ + "/server_" + tag_ + ".err";
  struct stat sb;
  off_t before = stat(srvErr.c_str(), &sb) == 0 ? sb.st_size : 0;
  Resp rs;
  if (send(fd_, msg.data(), msg.size(), MSG_NOSIGNAL) != (ssize_t)msg.size() || !readAll(fd_, &rs, sizeof rs)) {
    stop();
    res.serverDied = true;
    return res;
  }
  res.status = rs.status; res.reads = rs.reads; res.cpuUsec = rs.cpuUsec; res.maxrssKB = rs.maxrssKB;
  res.stepLimitHit = rs.limitHit;
  res.seen = rs.seen;
  res.mem = rs.mem;
  readFile(outP, res.out);
  readFile(errP, res.err);
  if (stat(srvErr.c_str(), &sb) == 0 && sb.st_size > before) {
    FILE *f = fopen(srvErr.c_str(), "r");
    if (f) {
      str t((size_t)std::min<off_t>(sb.st_size - before, 1 << 20), 0);
      fseeko(f, before, SEEK_SET);
      t.resize(fread(&t[0], 1, t.size(), f));
      fclose(f);
      res.err += t;
    }
  }
  return res;
}

const char *verdictName(int v) {
  static const char *n[] = {"NONE", "SAT", "UNSAT", "TIMEOUT", "SEVERAL"};
  return n[v];
}

static bool numAfter(const str &line, const char *key, long long &dst) {
  size_t k = strlen(key);
  if (line.compare(0, k, key)) return false;
  size_t i = k;
  while (i < line.size() && line[i] == ' ') i++;
  if (i >= line.size() || line[i] != ':') return false;
  dst = atoll(line.c_str() + i + 1);
  return true;
}

SolveOut parseSolve(const str &out, bool bitvec) {
  SolveOut o;
  size_t i = 0;
  bool inModel = false;
  int verdicts = 0;
  while (i < out.size()) {
    size_t e = out.find('\n', i);
    if (e == str::npos) e = out.size();
    str line = out.substr(i, e - i);
    i = e + 1;
    while (!line.empty() && line[0] == '\a') line.erase(0, 1);
    if (line == "SAT" || line == "UNSAT" || line == "TIMEOUT") {
      int v = line == "SAT" ? V_SAT : line == "UNSAT" ? V_UNSAT : V_TIMEOUT;
      o.verdictLines++;
      // the verbose log of the watched-literal search announces UNSAT itself; a repeated verdict is one verdict
      if (verdicts && v != o.verdict) verdicts++;
      if (!verdicts) verdicts = 1;
      o.verdict = v;
      inModel = false;
      continue;
    }
    if (verdicts) {
      if (numAfter(line, "Decisions", o.decisions)) { o.hasStats = true; continue; }
      if (numAfter(line, "Units", o.units) || numAfter(line, "Backtracks", o.backtracks) || numAfter(line, "Entails", o.entails) ||
          numAfter(line, "Variables", o.vars) || numAfter(line, "Clauses", o.clauses) || numAfter(line, "Restarts", o.restarts))
        continue;
      if (line.compare(0, 10, "The model:") == 0) { o.hasModel = true; inModel = true; continue; }
      if (line.compare(0, 15, "Verifying model") == 0) {
        inModel = false;
        o.verifyLines++;
        if (line.find("INCORRECT") != str::npos) o.verified = 0;
        else if (line.find("CORRECT") != str::npos) o.verified = 1;
        continue;
      }
      if (inModel && !line.empty()) {
        int v; char rest[128];
        if (!bitvec) {
          int d; char tail;
          if (sscanf(line.c_str(), "%d=%d%c", &v, &d, &tail) == 2) o.model.push_back({v, d, true});
          else o.modelGarbage = true;
        } else {
          if (sscanf(line.c_str(), "%d=%127s", &v, rest) == 2 && strspn(rest, "01") == strlen(rest) && strlen(rest) <= 64) {
            u64 b = 0;
            for (char *c = rest; *c; c++) b = b * 2 + (*c == '1');
            o.bvModel.push_back({v, b});
          } else o.modelGarbage = true;
        }
      }
    }
  }
  if (verdicts > 1) o.verdict = V_MANY;
  return o;
}

str SolveOut::stats() const {
  return fmt("dec=%lld units=%lld back=%lld ent=%lld vars=%lld cls=%lld rest=%lld", decisions, units, backtracks, entails, vars, clauses, restarts);
}
str SolveOut::canonical() const {
  str s = str(verdictName(verdict)) + " " + stats() + fmt(" model=%d garbage=%d verified=%d/%d :", hasModel, modelGarbage, verified, verifyLines);
  for (auto &l : model) s += " " + litStr(l);
  for (auto &b : bvModel) s += fmt(" %d:%llx", b.first, (unsigned long long)b.second);
  return s;
}
