// Runner: see pbt.h
#include "pbt.h"
#include "pbt_core.inc"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <cstdlib>
#include <cstdio>
#include <cstring>
#include <map>
#include <algorithm>

using namespace pbt;

namespace {

constexpr size_t NHASH = 1 << 18;
constexpr int NSAMP = 3;
constexpr size_t SAMP = 3000;
constexpr int NLAB = 96;

struct Shared {
  volatile uint32_t tape_len;
  uint8_t tape[TAPE_MAX];
  volatile uint64_t cases, discards, nontriv, hash_n;
  volatile uint32_t failed;              // Failure thrown
  char msg[4000];
  uint64_t hashes[NHASH];
  volatile uint32_t nsamp;
  char samp[NSAMP][SAMP];
  char lab[NLAB][40]; volatile uint64_t labn[NLAB];
  volatile uint64_t next_index;
  volatile uint32_t done;
};

double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec*1e-9; }

Shared *map_shared() {
  void *p = mmap(nullptr, sizeof(Shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
  if(p == MAP_FAILED) { perror("mmap"); exit(3); }
  return (Shared *)p;
}

void set_cpu_timer(double s) {
  itimerval it{}; it.it_value.tv_sec = (long)s; it.it_value.tv_usec = (long)((s - (long)s)*1e6);
  setitimer(ITIMER_PROF, &it, nullptr);
}

Shared *g_sh;
void label_hook(const char *l) {
  if(!g_sh) return;
  for(int i = 0; i < NLAB; i++) {
    if(!g_sh->lab[i][0]) strncpy(g_sh->lab[i], l, sizeof g_sh->lab[i]-1);
    if(!strncmp(g_sh->lab[i], l, sizeof g_sh->lab[i]-1)) { g_sh->labn[i] = g_sh->labn[i]+1; return; }
  }
}

std::string g_stderr;     // where workers send stderr

void redirect_stderr(const std::string &path) {
  int fd = open(path.c_str(), O_WRONLY|O_CREAT|O_TRUNC|O_APPEND, 0644);
  if(fd >= 0) { dup2(fd, 2); close(fd); }
}

enum { EX_FAIL = 77 };

// ---------------------------------------------------------------- worker
[[noreturn]] void worker(const Prop &p, Shared *sh, uint64_t seed, int w, int nw, uint64_t ncases, double deadline, const std::string &errfile) {
  redirect_stderr(errfile);
  g_sh = sh; label_sink = label_hook;
  harness_setup();
  std::unordered_set<uint64_t> seen;
  for(uint64_t i = 0; i < sh->hash_n; i++) seen.insert(sh->hashes[i]);
  for(uint64_t i = sh->next_index; i < ncases; i += nw) {
    sh->next_index = i;
    if((sh->cases & 7) == 0 && now() > deadline) break;
    if((sh->cases & 255) == 0 && ftruncate(2, 0)) {}   // diagnostics of passing cases are not kept
    Case c;
    sh->tape_len = 0;
    c.shared_len = &sh->tape_len;
    c.start_random(mix64(seed * 0x9E3779B97F4A7C15ull + i * 0xD1B54A32D192ED03ull + 12345), sh->tape);
    bool want_sample = (i / nw) == 5 || (i/nw) == 60 || (i/nw) == 700 || (sh->nsamp == 0 && (i/nw) > 5);
    c.tracing = want_sample && sh->nsamp < NSAMP;
    set_cpu_timer(p.cpu_limit);
    try {
      p.fn(c);
    } catch(const Failure &f) {
      snprintf(sh->msg, sizeof sh->msg, "%s", f.msg.c_str());
      sh->failed = 1;
      _exit(EX_FAIL);
    } catch(const Discard &) { sh->discards = sh->discards + 1; }
    sh->cases = sh->cases + 1;
    if(c.is_nontrivial()) {
      sh->nontriv = sh->nontriv + 1;
      if(sh->hash_n < NHASH && seen.insert(c.hash()).second) { sh->hashes[sh->hash_n] = c.hash(); sh->hash_n = sh->hash_n + 1; }
      if(c.tracing && sh->nsamp < NSAMP) { snprintf(sh->samp[sh->nsamp], SAMP, "%s", c.trace.c_str()); sh->nsamp = sh->nsamp+1; }
    }
  }
  set_cpu_timer(0);
  sh->done = 1;
  _exit(0);
}

struct Outcome { bool failed = false; std::string what; std::string log; std::string trace; };

std::string slurp(const std::string &path, size_t max = 6000) {
  std::string s; FILE *f = fopen(path.c_str(), "rb"); if(!f) return s;
  char b[4096]; size_t n;
  while((n = fread(b, 1, sizeof b, f)) > 0) { s.append(b, n); if(s.size() > 4*max) s.erase(0, s.size() - 4*max); }
  fclose(f);
  // keep the sanitizer report when there is one
  for(const char *k : {"ERROR: AddressSanitizer", "runtime error:", "WARNING: ThreadSanitizer"}) {
    size_t at = s.find(k);
    if(at != std::string::npos) { at = at > 120 ? at - 120 : 0; return s.substr(at, max); }
  }
  if(s.size() > max) s.erase(0, s.size() - max);
  return s;
}

std::string describe_status(int st) {
  if(WIFSIGNALED(st)) {
    int s = WTERMSIG(st);
    if(s == SIGPROF) return "HANG: CPU time limit for one case exceeded";
    return std::string("CRASH: signal ") + strsignal(s);
  }
  return "CRASH: abnormal exit status " + std::to_string(WEXITSTATUS(st)) + " (sanitizer report or exit)";
}

// Run one tape in a child.
Outcome run_tape(const Prop &p, const std::vector<uint8_t> &tape, const std::string &tmp, bool tracing) {
  static Shared *sh = nullptr; if(!sh) sh = map_shared();
  sh->failed = 0; sh->msg[0] = 0; sh->done = 0; sh->tape_len = 0;
  std::string err = tmp + "/replay.err", trc = tmp + "/replay.trace";
  fflush(stdout);
  pid_t pid = fork();
  if(pid == 0) {
    redirect_stderr(err);
    trace_fd = tracing ? open(trc.c_str(), O_WRONLY|O_CREAT|O_TRUNC|O_APPEND, 0644) : -1;
    setenv("PBT_ROLE", "replay", 1); harness_setup();
    Case c; c.start_replay(tape.data(), tape.size()); c.tracing = tracing;
    set_cpu_timer(p.cpu_limit);
    int rc = 0;
    try { p.fn(c); }
    catch(const Failure &f) { snprintf(sh->msg, sizeof sh->msg, "%s", f.msg.c_str()); sh->failed = 1; rc = EX_FAIL; }
    catch(const Discard &) {}
    sh->tape_len = c.used();
    sh->done = 1;
    _exit(rc);
  }
  Outcome o;
  double t0 = now(); int st = 0; bool hung = false;
  for(int spin = 0;; spin++) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if(r == pid) break;
    if(now() - t0 > p.wall_limit) { kill(pid, SIGKILL); waitpid(pid, &st, 0); hung = true; break; }
    usleep(spin < 50 ? 200 : 2000);
  }
  if(hung) { o.failed = true; o.what = "HANG: no progress (deadlock or endless loop)"; }
  else if(WIFEXITED(st) && WEXITSTATUS(st) == 0) { o.failed = false; }
  else if(sh->failed) { o.failed = true; o.what = sh->msg; }
  else { o.failed = true; o.what = describe_status(st); }
  if(o.failed) o.log = slurp(err);
  if(tracing) o.trace = slurp(trc, 60000);
  return o;
}

std::vector<uint8_t> shrink(const Prop &p, std::vector<uint8_t> t, const std::string &tmp, double budget) {
  double end = now() + budget;
  auto bad = [&](const std::vector<uint8_t> &c) { return now() < end && run_tape(p, c, tmp, false).failed; };
  // drop trailing zero bytes: a replay reads zeros past the end
  auto trim = [](std::vector<uint8_t> v) { while(!v.empty() && v.back() == 0) v.pop_back(); return v; };
  t = trim(t);
  bool progress = true;
  while(progress && now() < end) {
    progress = false;
    // truncate
    for(size_t k = t.size()/2; k >= 1 && now() < end; k /= 2)
      while(t.size() > k) { auto c = t; c.resize(t.size()-k); if(bad(c)) { t = trim(c); progress = true; } else break; }
    // delete blocks
    for(size_t k : {64, 32, 16, 8, 6, 5, 4, 3, 2, 1}) {
      for(size_t i = 0; i + k <= t.size() && now() < end;) {
        auto c = t; c.erase(c.begin()+i, c.begin()+i+k);
        if(bad(c)) { t = trim(c); progress = true; } else i += (k > 8 ? k/2 : 1);
      }
    }
    // zero blocks
    for(size_t k : {16, 4, 1})
      for(size_t i = 0; i + k <= t.size() && now() < end; i += k) {
        auto c = t; bool any = false; for(size_t j = i; j < i+k; j++) { any |= c[j] != 0; c[j] = 0; }
        if(any && bad(c)) { t = c; progress = true; }
      }
    // reduce bytes
    for(size_t i = 0; i < t.size() && now() < end; i++) {
      if(!t[i]) continue;
      uint8_t lo = 0, hi = t[i];
      while(lo + 1 < hi && now() < end) {
        uint8_t mid = lo + (hi - lo)/2; auto c = t; c[i] = mid;
        if(bad(c)) hi = mid; else lo = mid;
      }
      if(hi < t[i]) { auto c = t; c[i] = hi; if(bad(c)) { t = c; progress = true; } }
    }
    t = trim(t);
  }
  return t;
}

std::string json_str(const std::string &s) {
  std::string o = "\"";
  for(unsigned char ch : s) {
    char b[8];
    if(ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if(ch == '\n') o += "\\n";
    else if(ch < 0x20 || ch >= 0x7f) { snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
    else o += ch;
  }
  return o + "\"";
}

void write_replay(const std::string &path, const Prop &p, const std::vector<uint8_t> &t, const Outcome &o) {
  FILE *f = fopen(path.c_str(), "w"); if(!f) return;
  fprintf(f, "property=%s\ntape=", p.id);
  for(uint8_t b : t) fprintf(f, "%02x", b);
  fprintf(f, "\nwhat=%s\n\n---- trace ----\n%s\n---- log ----\n%s\n", o.what.c_str(), o.trace.c_str(), o.log.c_str());
  fclose(f);
}

bool read_replay(const std::string &path, std::string &id, std::vector<uint8_t> &t) {
  FILE *f = fopen(path.c_str(), "rb"); if(!f) return false;
  std::string s; char b[65536]; size_t n; while((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
  fclose(f);
  if(s.compare(0, 9, "property=")) { t.assign(s.begin(), s.end()); return true; } // raw fuzzer artifact
  id = s.substr(9, s.find('\n') - 9);
  size_t a = s.find("\ntape="); if(a == std::string::npos) return false;
  a += 6;
  auto hex = [](char c) { return c <= '9' ? c-'0' : c-'a'+10; };
  while(a+1 < s.size() && s[a] != '\n') { t.push_back(hex(s[a])*16 + hex(s[a+1])); a += 2; }
  return true;
}

} // namespace

int main(int argc, char **argv) {
  std::map<std::string, std::string> opt;
  for(int i = 1; i + 1 < argc; i += 2) opt[argv[i]] = argv[i+1];
  auto get = [&](const char *k, const char *d) { return opt.count(k) ? opt[k] : std::string(d); };
  std::string id = get("--prop", "");
  std::string tmp = get("--tmp", "/tmp");
  std::string replay = get("--replay", "");
  std::vector<uint8_t> rt;
  if(!replay.empty()) {
    std::string rid;
    if(!read_replay(replay, rid, rt)) { fprintf(stderr, "cannot read %s\n", replay.c_str()); return 3; }
    if(id.empty()) id = rid;
  }
  const Prop *p = nullptr;
  for(const Prop *q = props; q->id; q++) if(id == q->id) p = q;
  static Prop alt;   // the same property in another build of the sources, with fewer cases
  if(!p && id.size() > 5 && id.substr(id.size() - 5) == ".wide")
    for(const Prop *q = props; q->id; q++) if(id.substr(0, id.size() - 5) == q->id) { alt = *q; alt.id = id.c_str(); alt.quick = q->quick / 4; alt.thorough = q->thorough / 4; p = &alt; }
  if(!p) { fprintf(stderr, "no property '%s'\n", id.c_str()); return 3; }

  if(!replay.empty()) {
    if(get("--shrink", "") == "1") {
      if(run_tape(*p, rt, tmp, false).failed) rt = shrink(*p, rt, tmp, atof(get("--shrink-time", "60").c_str()));
    }
    int bad = 0; Outcome o;
    for(int i = 0; i < 3; i++) { Outcome x = run_tape(*p, rt, tmp, true); if(x.failed) { bad++; o = x; } else if(!bad) o = x; }
    printf("%s\n%s\n%s\nreplays_failed=%d/3\n", o.trace.c_str(), o.what.c_str(), o.log.c_str(), bad);
    if(opt.count("--save") && bad == 3) write_replay(opt["--save"], *p, rt, o);
    return bad == 3 ? 1 : 0;
  }

  uint64_t seed = strtoull(get("--seed", "1").c_str(), 0, 0);
  bool thorough = get("--tier", "quick") == "thorough";
  uint64_t n = opt.count("--cases") ? strtoull(opt["--cases"].c_str(), 0, 0) : thorough ? p->thorough : p->quick;
  int W = atoi(get("--workers", "8").c_str());
  double limit = atof(get("--time", thorough ? "600" : "240").c_str());
  std::string save = get("--save", (tmp + "/violation.txt").c_str());
  std::string out = get("--out", "");
  double t0 = now();

  struct WS { pid_t pid = 0; Shared *sh = nullptr; uint64_t last = 0; double last_t = 0; int unrepro = 0; std::string err; };
  std::vector<WS> ws(W);
  auto spawn = [&](int w) {
    fflush(stdout);
    ws[w].err = tmp + "/w" + std::to_string(w) + ".err";
    pid_t pid = fork();
    if(pid == 0) worker(*p, ws[w].sh, seed, w, W, n, t0 + limit, ws[w].err);
    ws[w].pid = pid; ws[w].last = ws[w].sh->cases; ws[w].last_t = now();
  };
  for(int w = 0; w < W; w++) { ws[w].sh = map_shared(); ws[w].sh->next_index = w; spawn(w); }

  bool violated = false; Outcome vo; std::vector<uint8_t> vt; int unreproduced = 0; std::string unrepro_msg;
  int running = W;
  while(running > 0 && !violated) {
    int st; pid_t r = waitpid(-1, &st, WNOHANG);
    int w = -1; std::string what; bool abnormal = false;
    if(r > 0) {
      for(int i = 0; i < W; i++) if(ws[i].pid == r) w = i;
      if(w < 0) continue;
      ws[w].pid = 0; running--;
      if(WIFEXITED(st) && WEXITSTATUS(st) == 0 && ws[w].sh->done) continue;
      abnormal = true;
      what = ws[w].sh->failed ? ws[w].sh->msg : describe_status(st);
    } else {
      usleep(3000);
      double t = now();
      for(int i = 0; i < W; i++) if(ws[i].pid) {
        if(ws[i].sh->cases != ws[i].last) { ws[i].last = ws[i].sh->cases; ws[i].last_t = t; }
        else if(t - ws[i].last_t > p->wall_limit) {
          kill(ws[i].pid, SIGKILL); int s2; waitpid(ws[i].pid, &s2, 0);
          ws[i].pid = 0; running--; w = i; abnormal = true; what = "HANG: no progress"; break;
        }
      }
    }
    if(!abnormal) continue;
    std::vector<uint8_t> t(ws[w].sh->tape, ws[w].sh->tape + std::min<size_t>(ws[w].sh->tape_len, TAPE_MAX));
    // A failure counts only when it replays three times out of three.
    int bad = 0; for(int i = 0; i < 3; i++) bad += run_tape(*p, t, tmp, false).failed;
    if(bad == 3) {
      violated = true; vt = t; vo.what = what;
    } else {
      unreproduced++; unrepro_msg = what + "\n" + slurp(ws[w].err, 1500);
      ws[w].sh->failed = 0; ws[w].sh->next_index = ws[w].sh->next_index + W;
      if(++ws[w].unrepro < 20) { spawn(w); running++; }
    }
  }
  for(auto &x : ws) if(x.pid) { kill(x.pid, SIGKILL); int st; waitpid(x.pid, &st, 0); x.pid = 0; }

  if(violated) {
    auto s = shrink(*p, vt, tmp, atof(get("--shrink-time", "40").c_str()));
    Outcome o; int bad = 0;
    for(int i = 0; i < 3; i++) { Outcome x = run_tape(*p, s, tmp, true); bad += x.failed; if(x.failed) o = x; }
    if(bad != 3) { s = vt; o = run_tape(*p, s, tmp, true); if(!o.failed) o.what = vo.what; }
    write_replay(save, *p, s, o);
    if(o.what != vo.what) printf("first seen as: %s\n", vo.what.substr(0, 1500).c_str());
    printf("violated: %s\n", o.what.c_str());
    printf("%s\n", o.trace.substr(0, 4000).c_str());
    printf("%s\n", o.log.substr(0, 3000).c_str());
  }

  uint64_t cases = 0, disc = 0, nontriv = 0; std::unordered_set<uint64_t> all; std::vector<std::string> samples;
  std::map<std::string, uint64_t> labels;
  for(auto &x : ws) {
    cases += x.sh->cases; disc += x.sh->discards; nontriv += x.sh->nontriv;
    for(uint64_t i = 0; i < x.sh->hash_n; i++) all.insert(x.sh->hashes[i]);
    if(samples.size() < 3) for(uint32_t i = 0; i < x.sh->nsamp && samples.size() < 3; i++) samples.push_back(x.sh->samp[i]);
    for(int i = 0; i < NLAB && x.sh->lab[i][0]; i++) labels[x.sh->lab[i]] += x.sh->labn[i];
  }
  if(!out.empty()) {
    FILE *f = fopen(out.c_str(), "w"); if(!f) return 3;
    fprintf(f, "{\"id\":%s,\"evaluations\":%llu,\"discards\":%llu,\"nontrivial\":%llu,\"distinct_nontrivial\":%zu,\"unreproduced\":%d,\"unrepro_msg\":%s,\"requested\":%llu,\"violated\":%s,\"what\":%s,\"rule\":%s,\"samples\":[",
      json_str(p->id).c_str(), (unsigned long long)cases, (unsigned long long)disc, (unsigned long long)nontriv, all.size(), unreproduced, json_str(unrepro_msg).c_str(),
      (unsigned long long)n, violated ? "true" : "false", json_str(vo.what).c_str(), json_str(p->rule).c_str());
    for(size_t i = 0; i < samples.size(); i++) fprintf(f, "%s%s", i ? "," : "", json_str(samples[i]).c_str());
    fprintf(f, "],\"labels\":{");
    bool first = true;
    for(auto &l : labels) { fprintf(f, "%s%s:%llu", first ? "" : ",", json_str(l.first).c_str(), (unsigned long long)l.second); first = false; }
    fprintf(f, "},\"wall_s\":%.3f}\n", now() - t0);
    fclose(f);
  }
  return violated ? 1 : 0;
}
