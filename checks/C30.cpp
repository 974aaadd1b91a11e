// C30: a call leaves the process as it found it, and the state of the process does not change what it returns.
#include "engine.hpp"
#include "ops.hpp"
#include "utils.hpp"
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <csignal>
#include <cfenv>
#include <clocale>
#include <locale>
#include <new>
#include <exception>
#include <xmmintrin.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>
using namespace vp;
extern char** environ;

typedef std::vector<std::pair<std::string, std::string>> State;   // what, value
static std::string hex(const void* p, size_t n) { std::string s; char b[4]; for (size_t i = 0; i < n; i++) { snprintf(b, sizeof b, "%02x", ((const unsigned char*)p)[i]); s += b; } return s; }
static std::string format_of(std::ostream& o) { char b[64]; snprintf(b, sizeof b, "flags %x precision %d fill %d exceptions %x ", (unsigned)o.flags(), (int)o.precision(), (int)o.fill(), (unsigned)o.exceptions()); void* u = o.rdbuf(); return b + o.getloc().name() + " " + hex(&u, sizeof u); }
static State look() {
  State s; char b[4200];
  auto num = [&](const char* k, long long v) { s.push_back({k, std::to_string(v)}); };
  num("rounding mode", fegetround());
  num("control bits of the vector unit", _mm_getcsr() & ~0x3fu);
  { unsigned short w; asm volatile("fnstcw %0" : "=m"(w)); num("control word of the floating-point unit", w); }
  s.push_back({"C locale", setlocale(LC_ALL, nullptr)}); s.push_back({"C++ locale", std::locale().name()});
  s.push_back({"working directory", getcwd(b, sizeof b) ? b : "?"});
  { mode_t m = umask(0); umask(m); num("umask", m); }
  { sigset_t m; sigprocmask(SIG_BLOCK, nullptr, &m); long long v = 0; for (int i = 1; i < 32; i++) v |= (long long)(sigismember(&m, i) > 0) << i; num("signal mask", v); }
  for (int i = 1; i < 32; i++) { struct sigaction a; if (!sigaction(i, nullptr, &a)) s.push_back({"handler of signal " + std::to_string(i), hex(&a.sa_handler, sizeof a.sa_handler) + " " + std::to_string(a.sa_flags)}); }
  { std::string f; for (int i = 0; i < 128; i++) { int v = fcntl(i, F_GETFD); if (v >= 0) f += std::to_string(i) + (v ? "c " : " "); } s.push_back({"open files", f}); }
  num("position of standard input", lseek(0, 0, SEEK_CUR));
  { int n = 0; DIR* d = opendir("/proc/self/task"); if (d) { while (dirent* e = readdir(d)) n += e->d_name[0] != '.'; closedir(d); num("threads", n); } }
  for (int w : {ITIMER_REAL, ITIMER_VIRTUAL, ITIMER_PROF}) { itimerval v; getitimer(w, &v); num("timer", v.it_interval.tv_sec || v.it_interval.tv_usec || v.it_value.tv_sec || v.it_value.tv_usec); }
  { std::string e; for (char** p = environ; p && *p; p++) { e += *p; e += '\n'; } s.push_back({"environment", e}); }
  s.push_back({"format of std::cout", format_of(std::cout)}); s.push_back({"format of std::cerr", format_of(std::cerr)}); s.push_back({"format of std::clog", format_of(std::clog)});
  { auto h = std::get_new_handler(); auto t = std::get_terminate(); s.push_back({"new handler", hex(&h, sizeof h)}); s.push_back({"terminate handler", hex(&t, sizeof t)}); }
  for (int i = 0; i < RLIM_NLIMITS; i++) { rlimit l; if (!getrlimit((__rlimit_resource_t)i, &l)) s.push_back({"resource limit " + std::to_string(i), hex(&l, sizeof l)}); }
  num("priority", getpriority(PRIO_PROCESS, 0));
  { pid_t p = waitpid(-1, nullptr, WNOHANG); num("child processes", p != -1); }
  { std::string f; DIR* d = opendir("."); if (d) { while (dirent* e = readdir(d)) if (e->d_name[0] != '.' || strlen(e->d_name) > 2) f += std::string(e->d_name) + " "; closedir(d); } s.push_back({"files in the working directory", f}); }
  return s;
}
// the numbers the C generators give next, after being seeded with k
static std::string numbers() { std::string s; for (int i = 0; i < 3; i++) s += std::to_string(rand()) + " " + std::to_string(lrand48()) + " "; return s; }
static void seed(unsigned k) { srand(k); srand48(k); }

// a call in a process whose state was drawn
template <class F> static void watched(Case& c, const std::string& name, const char* what, unsigned k, F f) {
  seed(k); std::string expect = numbers(); seed(k);
  State a = look(); f(); State b = look(); std::string got = numbers();
  if (got != expect) c.fail("%s: the %s call changes the sequence of rand() or lrand48()", name.c_str(), what);
  if (a.size() != b.size()) c.fail("%s: the %s call changes the state of the process", name.c_str(), what);
  for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i]) c.fail("%s: the %s call changes the %s from '%.200s' to '%.200s'", name.c_str(), what, a[i].first.c_str(), a[i].second.c_str(), b[i].second.c_str());
}
struct Surroundings {     // scratch working directory and a drawn state, undone at the end
  char dir[32]; char back[4096]; mode_t um; std::ios_base::fmtflags fl; std::streamsize pr; char fi;
  bool ok = false;
  Surroundings(Case& c) {
    strcpy(dir, "/tmp/vp-c30-XXXXXX"); if (!getcwd(back, sizeof back) || !mkdtemp(dir)) throw Discard(); if (chdir(dir)) throw Discard();
    um = umask(c.chance(2) ? 022 : 077);
    fl = std::cout.flags(); pr = std::cout.precision(); fi = std::cout.fill();
    if (c.chance(2)) { std::cout.precision(1 + c.draw(20)); if (c.chance(2)) std::cout.setf(c.chance(2) ? std::ios::fixed : std::ios::scientific, std::ios::floatfield); if (c.chance(2)) std::cout.setf(std::ios::hex, std::ios::basefield); if (c.chance(2)) std::cout.fill('#'); c.label("cout:formatted"); }
    if (c.chance(2) && setlocale(LC_ALL, "C.UTF-8")) c.label("locale:not C");
    if (c.chance(2)) { char v[32]; snprintf(v, sizeof v, "%d", (int)c.draw(100)); setenv("OMP_NUM_THREADS", v, 1); } else unsetenv("OMP_NUM_THREADS");
    if (c.chance(4)) { struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = SIG_IGN; sigaction(SIGFPE, &a, nullptr); c.label("SIGFPE:ignored"); }
    ok = true;
  }
  ~Surroundings() {
    std::cout.flags(fl); std::cout.precision(pr); std::cout.fill(fi); setlocale(LC_ALL, "C"); umask(um); unsetenv("OMP_NUM_THREADS"); signal(SIGFPE, SIG_DFL);
    if (chdir(back)) abort();
    if (DIR* d = opendir(dir)) { while (dirent* e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) unlinkat(dirfd(d), e->d_name, 0); closedir(d); }
    rmdir(dir);
  }
};
template <class T> static void files(Case& c) {
  size_t n = c.draw_size(4000); Rng r(c.seed()); std::vector<T> v(n + 1); for (auto& x : v) x = (T)r.next();
  c.label("codec:files"); c.nontrivial(n > 1);
  Surroundings s(c); unsigned k = (unsigned)c.draw(1000);
  writefile("a.dat", v.data(), n);       // the file exists from now on
  size_t m = 0; T* w = nullptr; char name[] = "a.dat"; bool missing = c.chance(4);
  watched(c, "files", "writing", k, [&] { writefile("a.dat", v.data(), n); });
  watched(c, "files", "reading", k, [&] { w = readfile<T>(missing ? "none.dat" : "a.dat", m); }); free(w);
  std::vector<T> buf(n + 1); if (!missing) watched(c, "files", "reading into a buffer", k, [&] { readfile_to_buffer(name, m, buf.data()); });
  if (n) watched(c, "quality report", "report", k, [&] { verify(v.data(), buf.data(), n); });
}
static void prop(Case& c) {
  if (c.chance(20)) { if (c.chance(2)) files<float>(c); else files<double>(c); return; }
  JobOpts o; if (c.tier) { o.cap2 = 12000; o.cap3 = 10000; } else { o.cap2 = 1200; o.cap3 = 1000; }
  if (c.chance(8)) { o.wide = true; c.label("range:wide"); }
  auto j = gen_job(c, o); c.nontrivial(j->values >= 8);
  size_t n = 0, m = 0; unsigned char* p = nullptr, *q = nullptr; Bytes x, y;
  p = j->compress(n); if (!p) c.fail("%s: no stream", j->name.c_str());
  if (!j->sided) x = j->decompress(p);
  {
    Surroundings s(c); unsigned k = (unsigned)c.draw(1000);
    watched(c, j->name, "compression", k, [&] { q = j->compress(m); });
    if (!j->sided) watched(c, j->name, "decompression", k, [&] { y = j->decompress(q); });
  }
  if (!q || n != m) c.fail("%s: the size of the stream depends on the state of the process", j->name.c_str());
  if (x.size() != y.size() || (x.size() && memcmp(x.data(), y.data(), x.size()))) c.fail("%s: the decompressed values depend on the state of the process", j->name.c_str());
  free(p); free(q);
}
int main(int argc, char** argv) {
  Check k{"C30", "random entry point (all compressors and decompressors, the coders, file helpers and the report), input, shape and bound, in a process with a drawn state (working directory, umask, locale, stream format, environment, signal disposition, seeds of the C generators), which is compared before and after; non-trivial when at least 8 values", prop, 9000, 200000};
  k.cpu_limit_s = 60;
  k.assumptions = {"not compared: what is printed to standard output, errno, and the sticky floating-point exception flags", "compressed sizes and decoded values are compared, not stream bytes: structure padding in a stream is not a result"};
  return run_check(argc, argv, k);
}
