#include "engine.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <csignal>
#include <cerrno>
#include <atomic>
#include <map>
#include <set>
#include <unordered_set>
#include <algorithm>
#include <string>
#include <sstream>
#include <fstream>
#include <chrono>
#include <malloc.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/stat.h>

namespace vp {

uint64_t mix64(uint64_t z) {
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}

static double now_s() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

// ---------------------------------------------------------------- Case
uint64_t Case::draw(uint64_t n) {
  if (n == 0) n = 1;
  uint64_t v;
  if (replay) v = pos < rn ? rchoices[pos] % n : 0;
  else v = n == 1 ? 0 : rng.below(n);
  pos++;
  if (out && *outn < outcap) { out[*outn] = v; (*outn)++; }
  h = mix64(h ^ (v + 0x9e3779b97f4a7c15ULL + pos));
  return v;
}
uint64_t Case::draw_size(uint64_t n) {
  // favours small values: pick a bit width first
  unsigned bits = 0;
  while ((1ULL << bits) < n && bits < 62) bits++;
  uint64_t w = draw(bits + 1);
  uint64_t m = std::min<uint64_t>(n, 1ULL << w);
  return draw(m);
}
int Case::weighted(std::initializer_list<int> w) {
  int sum = 0;
  for (int x : w) sum += x;
  int64_t r = (int64_t)draw(sum);
  int i = 0;
  for (int x : w) { if (r < x) return i; r -= x; i++; }
  return i - 1;
}
void Case::note(const char* fmt, ...) {
  char buf[1024];
  va_list a; va_start(a, fmt); vsnprintf(buf, sizeof buf, fmt, a); va_end(a);
  if (text.size() < 6000) { if (!text.empty()) text += "; "; text += buf; if (shtext) snprintf(shtext, shcap, "%s", text.c_str()); }
}
void Case::label(const std::string& l) { labels.push_back(l); }
void Case::fail(const char* fmt, ...) {
  char buf[1024];
  va_list a; va_start(a, fmt); vsnprintf(buf, sizeof buf, fmt, a); va_end(a);
  throw Failure{"", buf};
}

// ---------------------------------------------------------------- shared memory
static const int MAXLAB = 160, LABLEN = 64, NSAMPLE = 4, SAMPLELEN = 900;
static const size_t MAXHASH = 1 << 19, MAXCHOICE = 1 << 20, MAXHIST = 1 << 20;

struct WorkerShm {
  volatile int64_t cur;            // running case, -1 when none
  volatile uint64_t evals, nontriv, discards, known;
  volatile int failed; volatile int64_t fail_case; char fail_msg[1024];
  volatile int nlab; char lab[MAXLAB][LABLEN]; volatile uint64_t labcount[MAXLAB];
  volatile int nsample; char sample[NSAMPLE][SAMPLELEN];
  volatile uint64_t nhash; uint64_t hash[MAXHASH];
  volatile uint64_t nhist; uint32_t hist[MAXHIST];
};
struct EvalShm {
  volatile int status;             // 0 running/crashed, 1 pass, 2 fail, 3 discard
  char msg[1024]; char text[8192];
  size_t n; uint64_t choices[MAXCHOICE];
};
struct Global { std::atomic<uint64_t> next; std::atomic<int> stop; };

template <class S> static S* shm() {
  void* p = mmap(nullptr, sizeof(S), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
  return (S*)p;
}

static const Check* C; static uint64_t g_seed; static int g_tier;
static uint64_t hash_str(const char* s) { uint64_t h = 1469598103934665603ULL; while (*s) h = (h ^ (unsigned char)*s++) * 1099511628211ULL; return h; }
static Rng case_rng(uint64_t idx) { return Rng(mix64(g_seed * 0x2545F4914F6CDD1DULL + 77) ^ hash_str(C->id) ^ mix64(idx + 12345)); }

static void silence() {
  int fd = open("/dev/null", O_WRONLY);
  if (fd >= 0) { dup2(fd, 1); if (!getenv("VP_STDERR")) dup2(fd, 2); close(fd); }
}
static void limit_case(double s) {
  itimerval it; memset(&it, 0, sizeof it);
  it.it_value.tv_sec = (long)s; it.it_value.tv_usec = (long)((s - (long)s) * 1e6);
  setitimer(ITIMER_PROF, &it, nullptr);
}
static void child_setup() {
  silence();
  setpgid(0, 0);
  rlimit r; r.rlim_cur = r.rlim_max = 0; setrlimit(RLIMIT_CORE, &r);
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
  r.rlim_cur = r.rlim_max = (rlim_t)C->mem_limit_mb << 20; setrlimit(RLIMIT_AS, &r);
#endif
}
static void run_one(Case& cs) {
  if (C->fixed && cs.index < C->n_fixed) C->fixed(cs); else C->prop(cs);
}
static int exec_case(Case& cs, std::string& msg) {
  try { run_one(cs); return 1; }
  catch (Failure& f) { msg = f.msg; return 2; }
  catch (Discard&) { return 3; }
  catch (std::exception& e) { msg = std::string("uncaught C++ exception: ") + e.what(); return 2; }
}

static void one_case(WorkerShm* w, Global* g, uint64_t i) {
  Case cs; cs.index = i; cs.tier = g_tier; cs.rng = case_rng(i);
  std::string msg;
  limit_case(C->cpu_limit_s);
  int st = exec_case(cs, msg);
  limit_case(0);
  if (st == 2) {
    w->fail_case = (int64_t)i; snprintf(w->fail_msg, sizeof w->fail_msg, "%s", msg.c_str()); w->failed = 1; g->stop = 1;
    _exit(0);
  }
  if (st == 3) w->discards = w->discards + 1;
  else {
    w->evals = w->evals + 1;
    if (cs.nontriv) {
      w->nontriv = w->nontriv + 1;
      if (w->nhash < MAXHASH) { w->hash[w->nhash] = cs.h; w->nhash = w->nhash + 1; }
      if (w->nsample < NSAMPLE && (w->nsample == 0 || cs.h % 7 == 0)) {
        snprintf(w->sample[w->nsample], SAMPLELEN, "case %llu: %s", (unsigned long long)i, cs.text.c_str());
        w->nsample = w->nsample + 1;
      }
    }
    for (auto& l : cs.labels) {
      int k = 0; for (; k < w->nlab; k++) if (!strncmp(w->lab[k], l.c_str(), LABLEN - 1)) break;
      if (k == w->nlab) { if (k == MAXLAB) continue; snprintf(w->lab[k], LABLEN, "%s", l.c_str()); w->nlab = k + 1; }
      w->labcount[k] = w->labcount[k] + 1;
    }
  }
}

static void worker(WorkerShm* w, Global* g, uint64_t total, double deadline) {
  child_setup();
  while (!g->stop) {
    if (now_s() > deadline) break;
    uint64_t i = g->next++;
    if (i >= total) break;
    if (w->nhist < MAXHIST) w->hist[w->nhist] = (uint32_t)i;
    w->nhist = w->nhist + 1;
    w->cur = (int64_t)i;
    if (!C->fresh_process) one_case(w, g, i);
    else {
      pid_t p = fork();
      if (p == 0) { one_case(w, g, i); w->cur = -1; _exit(0); }
      int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
      if (w->failed) _exit(0);
      if (w->cur != -1) {                     // it died: so does this process, in the same way
        if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); }
        _exit(WIFEXITED(st) ? WEXITSTATUS(st) : 77);
      }
    }
    w->cur = -1;
  }
  w->cur = -2;   // finished normally
  _exit(0);
}

// evaluate one candidate in a child: 1 pass, 2 fail, 3 discard, 4 crash, 5 hang
static EvalShm* ES;
static std::string describe_status(int st) {
  char b[200];
  if (WIFSIGNALED(st)) {
    int s = WTERMSIG(st);
    snprintf(b, sizeof b, "the process died with signal %d (%s)", s, strsignal(s));
  } else snprintf(b, sizeof b, "the library ended the process with exit status %d", WEXITSTATUS(st));
  return b;
}
static int eval(const std::function<int(std::string&)>& body, std::string& msg, double cpu) {
  ES->status = 0; ES->msg[0] = 0; ES->text[0] = 0; ES->n = 0;
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p == 0) {
    child_setup();
    limit_case(cpu);
    std::string m; int st = body(m);
    limit_case(0);
    snprintf(ES->msg, sizeof ES->msg, "%s", m.c_str());
    ES->status = st;
    _exit(0);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (ES->status == 2) msg = ES->msg;
  if (ES->status) return ES->status;
  if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGPROF)) { msg = "the call did not terminate within its CPU limit"; return 5; }
  msg = describe_status(st);
  return 4;
}
static int eval_case(uint64_t idx, const std::vector<uint64_t>* ch, std::string& msg, double cpu) {
  return eval([&](std::string& m) {
    Case cs; cs.index = idx; cs.tier = g_tier; cs.rng = case_rng(idx);
    if (ch) { cs.replay = true; cs.rchoices = ch->data(); cs.rn = ch->size(); }
    cs.out = ES->choices; cs.outn = &ES->n; cs.outcap = MAXCHOICE; cs.shtext = ES->text; cs.shcap = sizeof ES->text;
    int st = exec_case(cs, m);
    snprintf(ES->text, sizeof ES->text, "%s", cs.text.c_str());
    return st;
  }, msg, cpu);
}
static int eval_history(const std::vector<uint32_t>& h, std::string& msg) {
  return eval([&](std::string& m) {
    int st = 1;
    for (uint32_t i : h) {
      Case cs; cs.index = i; cs.tier = g_tier; cs.rng = case_rng(i);
      limit_case(C->cpu_limit_s * 1.5);
      st = exec_case(cs, m);
      if (st == 2) return 2;
    }
    return 1;
  }, msg, C->cpu_limit_s * 1.5);
}
static bool bad(int s) { return s == 2 || s == 4 || s == 5; }

static std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}

static std::vector<uint64_t> shrink(uint64_t idx, std::vector<uint64_t> cur, double budget_s, int& steps) {
  double end = now_s() + budget_s; steps = 0; int evals = 0;
  auto attempt = [&](const std::vector<uint64_t>& cand) {
    if (now_s() > end) return false;
    std::string m; int st = eval_case(idx, &cand, m, C->cpu_limit_s);
    evals++;
    if (!bad(st)) return false;
    // what was really drawn (modulo, missing tail) is the canonical form
    std::vector<uint64_t> got(ES->choices, ES->choices + ES->n);
    if (st != 2 && got.size() < cand.size()) { /* crashed before drawing all */ }
    if (got.size() > cur.size()) return false;
    if (got.size() == cur.size() && !(got < cur)) return false;
    cur = got; steps++;
    return true;
  };
  bool progress = true;
  while (progress && now_s() < end) {
    progress = false;
    for (size_t k = std::max<size_t>(1, cur.size() / 2); k >= 1; k /= 2) {      // delete chunks
      for (size_t i = 0; i + k <= cur.size();) {
        std::vector<uint64_t> c(cur); c.erase(c.begin() + i, c.begin() + i + k);
        if (attempt(c)) progress = true; else i += k;
        if (now_s() > end) break;
      }
      if (k == 1 || now_s() > end) break;
    }
    for (size_t k = 8; k >= 1; k /= 2) {                                         // zero chunks
      for (size_t i = 0; i < cur.size(); i += k) {
        std::vector<uint64_t> c(cur); bool any = false;
        for (size_t j = i; j < std::min(cur.size(), i + k); j++) { any |= c[j] != 0; c[j] = 0; }
        if (any && attempt(c)) progress = true;
        if (now_s() > end) break;
      }
    }
    for (size_t i = 0; i < cur.size() && now_s() < end; i++) {                    // lower single values
      uint64_t lo = 0;
      while (i < cur.size() && cur[i] > lo) {
        std::vector<uint64_t> c(cur); uint64_t mid = lo + (cur[i] - lo) / 2;
        c[i] = mid;
        if (attempt(c)) { progress = true; } else { lo = mid + 1; }
        if (now_s() > end) break;
      }
    }
  }
  return cur;
}

int run_check(int argc, char** argv, const Check& chk) {
  C = &chk;
  std::string tier = getenv("VERIF_TIER") ? getenv("VERIF_TIER") : "quick", replay, evidence, outdir = ".";
  g_seed = getenv("VERIF_SEED") ? strtoull(getenv("VERIF_SEED"), nullptr, 10) : 1;
  uint64_t cases = 0; double scale = 1; int64_t only = -1; int workers = chk.workers; double cap = 0;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto next = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--tier") tier = next(); else if (a == "--seed") g_seed = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--cases") cases = strtoull(next().c_str(), nullptr, 10); else if (a == "--scale") scale = atof(next().c_str());
    else if (a == "--replay") replay = next(); else if (a == "--evidence") evidence = next();
    else if (a == "--out") outdir = next(); else if (a == "--case") only = atoll(next().c_str());
    else if (a == "--workers") workers = atoi(next().c_str()); else if (a == "--cap") cap = atof(next().c_str());
  }
  g_tier = tier == "thorough";
  setvbuf(stdout, nullptr, _IOLBF, 0);
  signal(SIGPIPE, SIG_IGN);
  ES = shm<EvalShm>();

  if (!replay.empty()) {
    std::ifstream f(replay); std::string line; std::vector<uint64_t> ch; std::vector<uint32_t> hist; uint64_t idx = 1 << 30; std::string mode;
    if (!f) { fprintf(stderr, "cannot read %s\n", replay.c_str()); return 2; }
    while (std::getline(f, line)) {
      std::istringstream s(line); std::string k; s >> k;
      if (k == "choices:") { mode = "choices"; uint64_t v; while (s >> v) ch.push_back(v); }
      else if (k == "history:") { mode = "history"; uint32_t v; while (s >> v) hist.push_back(v); }
      else if (k == "seed:") s >> g_seed; else if (k == "case:") s >> idx; else if (k == "tier:") { s >> tier; g_tier = tier == "thorough"; }
    }
    std::string m; int st = mode == "history" ? eval_history(hist, m) : eval_case(idx, &ch, m, chk.cpu_limit_s * 1.5);
    if (ES->text[0]) printf("input: %s\n", ES->text);
    if (bad(st)) { printf("%s\nVIOLATION property=%s replay=%s\n", m.c_str(), chk.id, replay.c_str()); return 1; }
    printf("the replayed case passes\n"); return 0;
  }
  if (only >= 0) {
    std::string m; int st = eval_case((uint64_t)only, nullptr, m, chk.cpu_limit_s * 1.5);
    printf("case %lld status %d %s\ninput: %s\n", (long long)only, st, m.c_str(), ES->text); return bad(st);
  }

  uint64_t total = cases ? cases : (uint64_t)((g_tier ? chk.thorough_cases : chk.quick_cases) * scale);
  total += chk.n_fixed;
  if (!cap) cap = g_tier ? chk.thorough_cap_s : chk.quick_cap_s;
  double t0 = now_s(), deadline = t0 + cap;
  Global* g = shm<Global>(); g->next = 0; g->stop = 0;
  std::vector<WorkerShm*> ws; std::vector<pid_t> pid(workers); std::vector<std::vector<uint32_t>> hist_start(workers);
  std::vector<uint64_t> hstart(workers, 0);
  struct Cand { int64_t idx; std::string msg; std::vector<uint32_t> hist; };
  std::vector<Cand> cands; int unreproduced = 0; std::vector<std::string> unrep;
  for (int w = 0; w < workers; w++) { ws.push_back(shm<WorkerShm>()); ws[w]->cur = -1; }
  auto spawn = [&](int w) {
    ws[w]->cur = -1; ws[w]->failed = 0; hstart[w] = ws[w]->nhist;
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) worker(ws[w], g, total, deadline);
    pid[w] = p;
  };
  for (int w = 0; w < workers; w++) spawn(w);
  int violation = 0; std::string vmsg, vpath, vtext; int shrink_steps = 0;
  int alive = workers;
  auto take = [&](int w, const std::string& m, int64_t idx) {
    Cand c; c.idx = idx; c.msg = m;
    uint64_t e = std::min<uint64_t>((uint64_t)ws[w]->nhist, (uint64_t)MAXHIST);
    for (uint64_t k = hstart[w]; k < e; k++) c.hist.push_back(ws[w]->hist[k]);
    cands.push_back(c);
  };
  while (alive > 0 || !cands.empty()) {
    if (cands.empty()) {
      int st; pid_t p = waitpid(-1, &st, 0);
      if (p < 0) { if (errno == EINTR) continue; break; }
      int w = -1; for (int k = 0; k < workers; k++) if (pid[k] == p) w = k;
      if (w < 0) continue;
      pid[w] = -1; alive--;
      if (ws[w]->failed) take(w, ws[w]->fail_msg, ws[w]->fail_case);
      else if (ws[w]->cur != -2) {
        std::string m = WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF ? "the call did not terminate within its CPU limit" : describe_status(st);
        if (ws[w]->cur >= 0) take(w, m, ws[w]->cur);
        else take(w, m + " between cases", -1);
        g->stop = 1;
      }
      continue;
    }
    // stop the others, then confirm
    g->stop = 1;
    while (alive > 0) {
      int st; pid_t p = waitpid(-1, &st, 0); if (p < 0) { if (errno == EINTR) continue; break; }
      for (int k = 0; k < workers; k++) if (pid[k] == p) {
        pid[k] = -1; alive--;
        if (ws[k]->failed) take(k, ws[k]->fail_msg, ws[k]->fail_case);
        else if (ws[k]->cur >= 0) take(k, describe_status(st), ws[k]->cur);
      }
    }
    std::sort(cands.begin(), cands.end(), [](const Cand& a, const Cand& b) { return a.idx < b.idx; });
    for (auto& c : cands) {
      int rep = 0; std::vector<uint64_t> ch; std::string m;
      if (c.idx >= 0) for (int r = 0; r < chk.replays; r++) {
        std::string mm; int st = eval_case((uint64_t)c.idx, nullptr, mm, chk.cpu_limit_s * 1.5);
        if (bad(st)) { rep++; m = mm; ch.assign(ES->choices, ES->choices + ES->n); }
        if (rep >= chk.min_reproductions) break;
      }
      mkdir(outdir.c_str(), 0777);
      char name[600];
      if (rep >= chk.min_reproductions) {
        std::vector<uint64_t> best = shrink((uint64_t)c.idx, ch, 45, shrink_steps);
        std::string mm; int st = 0;
        for (int r = 0; r < 5 && !bad(st); r++) st = eval_case((uint64_t)c.idx, &best, mm, chk.cpu_limit_s * 1.5);
        if (bad(st)) m = mm; else best = ch;
        vtext = ES->text;
        uint64_t hh = 7; for (uint64_t v : best) hh = mix64(hh ^ v);
        snprintf(name, sizeof name, "%s/%s-%016llx.txt", outdir.c_str(), chk.id, (unsigned long long)hh);
        FILE* f = fopen(name, "w");
        if (f) {
          fprintf(f, "property: %s\nwhat: %s\ninput: %s\nseed: %llu\ntier: %s\ncase: %lld\nchoices:", chk.id, m.c_str(), vtext.c_str(), (unsigned long long)g_seed, tier.c_str(), (long long)c.idx);
          for (uint64_t v : best) fprintf(f, " %llu", (unsigned long long)v);
          fprintf(f, "\n"); fclose(f);
        }
        violation = 1; vmsg = m; vpath = name; break;
      }
      // not on its own: maybe the history of calls before it matters
      std::vector<uint32_t> h = c.hist; rep = 0;
      for (int r = 0; r < 2; r++) { std::string mm; if (bad(eval_history(h, mm))) { rep++; m = mm; } }
      if (rep == 2) {
        for (size_t k = h.size() / 2; k >= 1; k /= 2) {
          for (size_t i = 0; i + k < h.size();) {
            std::vector<uint32_t> t(h); t.erase(t.begin() + i, t.begin() + i + k); std::string mm;
            if (bad(eval_history(t, mm))) { h = t; m = mm; } else i += k;
          }
          if (k == 1) break;
        }
        snprintf(name, sizeof name, "%s/%s-history-%llu.txt", outdir.c_str(), chk.id, (unsigned long long)c.idx);
        FILE* f = fopen(name, "w");
        if (f) {
          fprintf(f, "property: %s\nwhat: %s (after %zu earlier cases in one process)\nseed: %llu\ntier: %s\nhistory:", chk.id, m.c_str(), h.size() - 1, (unsigned long long)g_seed, tier.c_str());
          for (uint32_t v : h) fprintf(f, " %u", v);
          fprintf(f, "\n"); fclose(f);
        }
        violation = 1; vmsg = m; vpath = name; break;
      }
      unreproduced++; unrep.push_back(c.msg);
      fprintf(stderr, "note: case %lld failed once and did not reproduce: %s\n", (long long)c.idx, c.msg.c_str());
    }
    cands.clear();
    if (violation) break;
    if (unreproduced > 20) break;
    // continue after unreproduced failures
    g->stop = 0;
    if (g->next < total && now_s() < deadline) for (int w = 0; w < workers; w++) { spawn(w); alive++; }
  }
  double wall = now_s() - t0;
  uint64_t ev = 0, nt = 0, disc = 0; std::map<std::string, uint64_t> lab; std::unordered_set<uint64_t> hs; std::vector<std::string> samples;
  for (auto w : ws) {
    ev += w->evals; nt += w->nontriv; disc += w->discards;
    for (int k = 0; k < w->nlab; k++) lab[w->lab[k]] += w->labcount[k];
    for (uint64_t k = 0; k < w->nhash; k++) hs.insert(w->hash[k]);
    for (int k = 0; k < w->nsample && k < NSAMPLE; k++) if (samples.size() < 12) samples.push_back(w->sample[k]);
  }
  if (!evidence.empty()) {
    std::string tmp = evidence + ".tmp"; FILE* f = fopen(tmp.c_str(), "w");
    if (f) {
      fprintf(f, "{\n \"property\": %s,\n \"tier\": %s,\n \"seed\": %llu,\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %llu,\n  \"rule\": %s,\n",
        jstr(chk.id).c_str(), jstr(tier).c_str(), (unsigned long long)g_seed, (unsigned long long)ev, (unsigned long long)hs.size(), jstr(chk.rule).c_str());
      fprintf(f, "  \"planned_cases\": %llu,\n  \"nontrivial\": %llu,\n  \"discarded\": %llu,\n  \"unreproduced_failures\": %d,\n  \"labels\": {", (unsigned long long)total, (unsigned long long)nt, (unsigned long long)disc, unreproduced);
      bool first = true; for (auto& kv : lab) { fprintf(f, "%s\n   %s: %llu", first ? "" : ",", jstr(kv.first).c_str(), (unsigned long long)kv.second); first = false; }
      fprintf(f, "\n  },\n  \"samples\": [");
      first = true; for (auto& s : samples) { fprintf(f, "%s\n   %s", first ? "" : ",", jstr(s).c_str()); first = false; }
      fprintf(f, "\n  ]\n },\n \"wall_s\": %.3f,\n \"violations\": %d,\n", wall, violation);
      if (violation) fprintf(f, " \"violation\": {\"what\": %s, \"input\": %s, \"replay\": %s, \"shrink_steps\": %d},\n", jstr(vmsg).c_str(), jstr(vtext).c_str(), jstr(vpath).c_str(), shrink_steps);
      fprintf(f, " \"assumptions\": [");
      first = true; for (auto& s : chk.assumptions) { fprintf(f, "%s%s", first ? "" : ", ", jstr(s).c_str()); first = false; }
      fprintf(f, "]\n}\n"); fclose(f); rename(tmp.c_str(), evidence.c_str());
    }
  }
  printf("%s tier=%s seed=%llu: %llu cases (%llu non-trivial, %zu distinct), %llu discarded, %.1f s\n", chk.id, tier.c_str(), (unsigned long long)g_seed,
    (unsigned long long)ev, (unsigned long long)nt, hs.size(), (unsigned long long)disc, wall);
  if (violation) {
    printf("%s\ninput: %s\nVIOLATION property=%s replay=%s\n", vmsg.c_str(), vtext.c_str(), chk.id, vpath.c_str());
    return 1;
  }
  return 0;
}
}  // namespace vp
