// C22: concurrent calls on separate data give each thread what it would get alone.  Built with ThreadSanitizer.
#include "engine.hpp"
#include "ops.hpp"
#include <thread>
#include <atomic>
#include <sched.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace vp;

struct Sent { size_t size; size_t stream, decoded; };
static bool put(int fd, const void* p, size_t n) { const char* q = (const char*)p; while (n) { ssize_t k = write(fd, q, n); if (k <= 0) return false; q += k; n -= k; } return true; }
static bool get(int fd, void* p, size_t n) { char* q = (char*)p; while (n) { ssize_t k = read(fd, q, n); if (k <= 0) return false; q += k; n -= k; } return true; }

struct Task { std::unique_ptr<Job> j; size_t size = 0; Bytes decoded, stream; std::string error; int repeats = 1; unsigned spin = 0; bool dec_only = false; };
static void run_task(Task& t, std::atomic<int>& ready, int n) {
  ready++; while (ready < n) sched_yield();
  for (unsigned i = 0; i < t.spin; i++) { volatile int x = 0; (void)x; }
  for (int r = 0; r < t.repeats && t.error.empty(); r++) {
    Bytes d;
    if (t.dec_only && !t.j->sided) d = t.j->decompress(t.stream.data());
    else {
      size_t z = 0; unsigned char* p = t.j->compress(z);
      if (!p) { t.error = "no stream"; return; }
      if (z != t.size) t.error = "the stream has another size than when run alone";
      if (!t.j->sided && t.error.empty()) d = t.j->decompress(p);
      free(p);
    }
    if (t.error.empty() && !t.j->sided && d != t.decoded) t.error = "the decompressed values differ from those of the same call run alone";
  }
}
// what the job gives when it runs alone
static bool alone(Task& t) {
  unsigned char* p = t.j->compress(t.size);
  if (!p) return false;
  t.stream.assign(p, p + t.size);
  if (!t.j->sided) t.decoded = t.j->decompress(p);
  free(p); return true;
}
// the same in another process, so that the threads are the first in theirs to call the library
static void alone_elsewhere(Case& c, std::vector<Task>& t) {
  int fd = memfd_create("reference", MFD_CLOEXEC); if (fd < 0) { perror("memfd_create"); _exit(3); }
  pid_t p = fork();
  if (p == 0) {
    for (auto& x : t) {
      if (!alone(x)) _exit(9);
      Sent s = {x.size, x.stream.size(), x.decoded.size()};
      if (!put(fd, &s, sizeof s) || !put(fd, x.stream.data(), s.stream) || !put(fd, x.decoded.data(), s.decoded)) _exit(8);
    }
    _exit(0);
  }
  int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  lseek(fd, 0, SEEK_SET);
  if (!WIFEXITED(st) || WEXITSTATUS(st)) { close(fd); c.fail("the jobs run one after another in one process: %s %d", WIFSIGNALED(st) ? "signal" : "exit status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)); }
  for (auto& x : t) {
    Sent s; bool ok = get(fd, &s, sizeof s);
    if (ok) { x.size = s.size; x.stream.resize(s.stream); x.decoded.resize(s.decoded); ok = get(fd, x.stream.data(), s.stream) && get(fd, x.decoded.data(), s.decoded); }
    if (!ok) { perror("reference"); _exit(3); }
    x.j->will_decompress(x.stream.size());
  }
  close(fd);
}
static void prop(Case& c) {
  size_t n = 2 + c.draw(c.tier ? 7 : 5); std::vector<Task> t(n);
  JobOpts o; o.cap2 = 700; o.cap3 = 500;
  int same = c.chance(3) ? -2 : -1;       // all threads in the same family of functions
  if (same == -2) { same = (int)c.draw(F_COUNT); c.label("threads:same family"); }
  bool cold = c.chance(2);
  for (size_t i = 0; i < n; i++) {
    Task& x = t[i]; memset(o.like, 0, sizeof o.like);
    if (i && c.chance(3)) memcpy(o.like, t[c.draw(i)].j->shape, sizeof o.like);
    o.only = same; x.j = gen_job(c, o); x.repeats = 1 + (int)c.draw(3); x.spin = (unsigned)c.draw(4) * 2000; x.dec_only = c.chance(3);
    if (cold && x.j->tag / 2 == F_PWR_EB) x.dec_only = false;     // its reader needs what the writer hands over
    if (!cold && !alone(x)) c.fail("%s: no stream", x.j->name.c_str());
  }
  if (cold) { c.label("library:cold"); alone_elsewhere(c, t); }
  c.note("%zu threads%s", n, cold ? ", first use" : "");
  std::atomic<int> ready{0}; std::vector<std::thread> th;
  for (auto& x : t) { Task* q = &x; th.emplace_back([q, &ready, n] { run_task(*q, ready, (int)n); }); }
  for (auto& x : th) x.join();
  for (auto& x : t) if (!x.error.empty()) c.fail("%s in a thread next to %zu others: %s", x.j->name.c_str(), n - 1, x.error.c_str());
  c.nontrivial();
}
int main(int argc, char** argv) {
  Check k{"C22", "2-6 (thorough: 2-8) threads started together, each compressing and/or decompressing its own generated job up to 3 times, compared with the serial results; half of the time these threads are the first of their process to call the library; under ThreadSanitizer; every case is non-trivial", prop, 2500, 40000};
  k.cpu_limit_s = 120; k.fresh_process = true; k.min_reproductions = 1; k.replays = 6;
  k.assumptions = {"interleavings are those the scheduler produces; ThreadSanitizer's happens-before analysis finds unsynchronised access to shared state in any of them", "libzstd itself is not instrumented"};
  return run_check(argc, argv, k);
}
