// C25: the command-line programs, end to end, in a scratch directory.
// tool: sz_compress_test
// tool: sz_compress_2d_with_eb
// tool: sz_compress_cp_preserve_2d_test
// tool: sz_compress_cp_preserve_3d_test
// tool: sz_compress_cp_preserve_3d_unstructured_test
#include "engine.hpp"
#include "cpgen.hpp"
#include "cporacle.hpp"
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <spawn.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <map>
#include <set>
extern char** environ;
using namespace vp;

struct Scratch {
  std::string dir; std::map<std::string, std::string> in;
  Scratch() { char d[] = "/tmp/vp-c25-XXXXXX"; if (!mkdtemp(d)) throw Discard(); dir = d; }
  ~Scratch() { for (auto& f : list()) unlink((dir + "/" + f).c_str()); rmdir(dir.c_str()); }
  std::set<std::string> list() { std::set<std::string> s; DIR* d = opendir(dir.c_str()); if (d) { while (dirent* e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) s.insert(e->d_name); closedir(d); } return s; }
  std::string path(const std::string& n) { return dir + "/" + n; }
  template <class T> void put(const std::string& n, const std::vector<T>& v) { std::string b((const char*)v.data(), v.size() * sizeof(T)); in[n] = b; FILE* f = fopen(path(n).c_str(), "wb"); if (!f) throw Discard(); fwrite(b.data(), 1, b.size(), f); fclose(f); }
  std::string get(const std::string& n) { std::string s; FILE* f = fopen(path(n).c_str(), "rb"); if (!f) return s; char b[65536]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k); fclose(f); return s; }
};
// sometimes the output files of an earlier run are still there: shorter, longer or of the same length
static void leftovers(Case& c, Scratch& s, const std::vector<std::string>& names, size_t bytes) {
  if (!c.chance(3)) return;
  size_t n = c.draw(3) == 0 ? bytes : c.draw_size(3 * bytes + 8); Rng r(c.seed()); std::string b(n, 0); for (auto& x : b) x = (char)r.next();
  for (auto& m : names) { FILE* f = fopen(s.path(m).c_str(), "wb"); if (!f) throw Discard(); fwrite(b.data(), 1, n, f); fclose(f); }
  c.label(n > bytes ? "longer outputs present" : n < bytes ? "shorter outputs present" : "equal outputs present"); c.note("outputs of %zu bytes present", n);
}
// runs the program with its output in `out`; fails when it does not end normally
static std::string run(Case& c, Scratch& s, const char* tool, const std::vector<std::string>& args) {
  const char* exe = getenv((std::string("VP_TOOL_") + tool).c_str());
  if (!exe) c.fail("program %s not built", tool);
  std::vector<char*> a; a.push_back((char*)tool); for (auto& x : args) a.push_back((char*)x.c_str()); a.push_back(nullptr);
  std::string out = s.path("stdout");
  posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa);
  posix_spawn_file_actions_addopen(&fa, 1, out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  posix_spawn_file_actions_adddup2(&fa, 1, 2);
  pid_t p; int e = posix_spawn(&p, exe, &fa, nullptr, a.data(), environ); posix_spawn_file_actions_destroy(&fa);
  if (e) { unlink(out.c_str()); throw Discard(); }
  int st = 0; double t = 0; bool hung = false;
  for (;;) { pid_t w = waitpid(p, &st, WNOHANG); if (w == p) break; usleep(t < 0.05 ? 300 : 5000); t += t < 0.05 ? 0.0003 : 0.005; if (t > 120) { kill(p, 9); waitpid(p, &st, 0); hung = true; break; } }
  std::string text; FILE* f = fopen(out.c_str(), "rb"); if (f) { char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) text.append(b, k); fclose(f); } unlink(out.c_str());
  if (hung) c.fail("%s does not finish", tool);
  if (WIFSIGNALED(st)) c.fail("%s died with signal %d", tool, WTERMSIG(st));
  if (WEXITSTATUS(st)) c.fail("%s exits with status %d", tool, WEXITSTATUS(st));
  for (auto& kv : s.in) if (s.get(kv.first) != kv.second) c.fail("%s changed its input file %s", tool, kv.first.c_str());
  return text;
}
static double number_after(Case& c, const std::string& t, const char* key, size_t from = 0, size_t* at = nullptr) {
  size_t p = t.find(key, from); if (p == std::string::npos) c.fail("no \"%s\" in the output: %.300s", key, t.c_str());
  if (at) *at = p + 1;
  return strtod(t.c_str() + p + strlen(key), nullptr);
}
static void check_size_line(Case& c, const std::string& t, size_t raw, const char* key) {
  size_t at; double z = number_after(c, t, key, 0, &at), ratio = number_after(c, t, "ratio = ", at);
  if (!(z > 0) || !(std::fabs(ratio - raw / z) <= 1e-4 * ratio + 1e-6)) c.fail("the output claims %g bytes and ratio %g for %zu bytes of input", z, ratio, raw);
}
template <class T> static std::vector<T> result(Case& c, Scratch& s, const std::string& n, size_t elems) {
  std::string b = s.get(n);
  if (b.size() != elems * sizeof(T)) c.fail("%s holds %zu bytes, %zu expected", n.c_str(), b.size(), elems * sizeof(T));
  std::vector<T> v(elems); memcpy(v.data(), b.data(), b.size()); return v;
}
static void only_files(Case& c, Scratch& s, std::set<std::string> expect) {
  for (auto& kv : s.in) expect.insert(kv.first);
  for (auto& f : s.list()) if (!expect.count(f)) c.fail("an unexpected file %s appeared", f.c_str());
}
static std::string num(double x) { char b[40]; snprintf(b, 40, "%.17g", x); return b; }
// the report of verify() must agree with the files
static void check_report(Case& c, const std::string& t, size_t& from, const std::vector<float>& a, const std::vector<float>& d, const char* what) {
  size_t at; double v = number_after(c, t, "Max absolute error = ", from, &at); from = at; double m = 0;
  for (size_t i = 0; i < a.size(); i++) m = std::max(m, std::fabs((double)a[i] - (double)d[i]));
  if (!(std::fabs(v - m) <= 1e-9 + 1e-6 * m)) c.fail("%s: the report states a maximum error of %.10g, the file written has %.10g", what, v, m);
}

static void cp2d(Case& c) {
  Scratch s; Shape2 h = gen_vshape2(c, size_cap(c, c.tier ? 20000 : 4000, 500));
  if (c.chance(40)) { int k = 10 + (int)c.draw(8), b = 1 + (int)c.draw(k - 1); h.r1 = (size_t)1 << b; h.r2 = (size_t)1 << (k - b); c.label("shape:power of two"); }   // whole blocks of a file
  VecOpts vo; vo.min_mag = 1e-15; vo.max_mag = 1e12;
  auto w = gen_vec<float>(c, 2, h.r1, h.r2, 1, vo); double eb = gen_vec_abs_eb(c, w);
  s.put("u.dat", w[0]); s.put("v.dat", w[1]);
  leftovers(c, s, {"u.dat.out", "v.dat.out"}, 4 * h.n());
  std::string t = run(c, s, "sz_compress_cp_preserve_2d_test", {s.path("u.dat"), s.path("v.dat"), std::to_string(h.r1), std::to_string(h.r2), num(eb)});
  auto U = result<float>(c, s, "u.dat.out", h.n()), V = result<float>(c, s, "v.dat.out", h.n());
  only_files(c, s, {"u.dat.out", "v.dat.out"});
  size_t exact = check_component(c, w[0], U, ABS, eb, "U"); exact += check_component(c, w[1], V, ABS, eb, "V");
  check_size_line(c, t, 8 * h.n(), "Compressed size = ");
  size_t from = 0; check_report(c, t, from, w[0], U, "U"); check_report(c, t, from, w[1], V, "V");
  // critical points: exact values at the vertices of triangles that have one, none elsewhere
  size_t with = 0;
  for (size_t i = 0; i + 1 < h.r1; i++) for (size_t j = 0; j + 1 < h.r2; j++) for (int k = 0; k < 2; k++) {
    size_t v[3]; tri_vertices(i, j, k, h.r2, v);
    LD au[3], av[3], bu[3], bv[3]; bool same = true;
    for (int q = 0; q < 3; q++) { au[q] = w[0][v[q]]; av[q] = w[1][v[q]]; bu[q] = U[v[q]]; bv[q] = V[v[q]]; same = same && au[q] == bu[q] && av[q] == bv[q]; }
    if (same) continue;
    int before = tri_has_cp(au, av, 1e-5L), after = tri_has_cp(bu, bv, 1e-5L);
    with += before == 1;
    if (before >= 0 && after >= 0 && before != after) c.fail("triangle %d of cell (%zu,%zu) %s a critical point", k, i, j, before ? "lost" : "gained");
  }
  c.nontrivial(h.n() >= 4 && exact < 2 * h.n());
}
static void cp3d(Case& c) {
  Scratch s; Shape3 h = gen_vshape3(c, c.tier ? 8000 : 2000);
  VecOpts vo; vo.min_mag = 1e-9; vo.max_mag = 1e9;
  auto w = gen_vec<float>(c, 3, h.r1, h.r2, h.r3, vo); double eb = gen_vec_abs_eb(c, w);
  s.put("u.dat", w[0]); s.put("v.dat", w[1]); s.put("w.dat", w[2]);
  leftovers(c, s, {"u.dat.out", "v.dat.out", "w.dat.out"}, 4 * h.n());
  std::string t = run(c, s, "sz_compress_cp_preserve_3d_test", {s.path("u.dat"), s.path("v.dat"), s.path("w.dat"), std::to_string(h.r1), std::to_string(h.r2), std::to_string(h.r3), num(eb)});
  size_t exact = 0, from = 0; static const char* nm[] = {"u.dat.out", "v.dat.out", "w.dat.out"};
  for (int k = 0; k < 3; k++) { auto d = result<float>(c, s, nm[k], h.n()); exact += check_component(c, w[k], d, ABS, eb, nm[k]); check_report(c, t, from, w[k], d, nm[k]); }
  only_files(c, s, {nm[0], nm[1], nm[2]});
  check_size_line(c, t, 12 * h.n(), "Compressed size = ");
  c.nontrivial(h.n() >= 8 && exact < 3 * h.n());
}
static void unstructured(Case& c) {
  Scratch s; int n = 4 + (int)c.draw(c.chance(3) ? 400 : 14), m = 1 + (int)c.draw(2 * n); Rng r(c.seed()); std::vector<int> tets;
  for (int e = 0; e < m; e++) { int v[4]; for (int q = 0; q < 4; q++) { bool dup; do { v[q] = (int)r.below(n); dup = false; for (int p = 0; p < q; p++) dup = dup || v[p] == v[q]; } while (dup); } tets.insert(tets.end(), v, v + 4); }
  VecOpts vo; vo.min_mag = 1e-9; vo.max_mag = 1e9; auto w = gen_vec<float>(c, 3, 1, 1, n, vo); double eb = gen_rel_eb(c);
  std::vector<float> data(3 * n), pts(3 * n); for (int i = 0; i < n; i++) for (int k = 0; k < 3; k++) { data[3 * i + k] = w[k][i]; pts[3 * i + k] = (float)r.unit(); }
  s.put("p.dat", pts); s.put("d.dat", data); s.put("t.dat", tets);
  leftovers(c, s, {"d.dat.out"}, 12 * (size_t)n);
  std::string t = run(c, s, "sz_compress_cp_preserve_3d_unstructured_test", {s.path("p.dat"), s.path("d.dat"), s.path("t.dat"), num(eb)});
  auto d = result<float>(c, s, "d.dat.out", 3 * (size_t)n); only_files(c, s, {"d.dat.out"});
  size_t exact = check_component(c, data, d, LOG, eb, "data"), from = 0; check_report(c, t, from, data, d, "data");
  check_size_line(c, t, 12 * (size_t)n, "Compressed size = ");
  c.nontrivial(exact < data.size());
}
static void per_point(Case& c) {
  Scratch s; Shape2 h = gen_shape2(c, size_cap(c, c.tier ? 20000 : 5000, 500)); auto a = gen_field<float>(c, h.r1, h.r2, 1); double base = gen_abs_eb(c, a, -6, 0);
  std::vector<double> eb(h.n()); int kind = (int)c.draw(3); unsigned one_in = 1 + (unsigned)c.draw(12); Rng r(c.seed());
  for (auto& x : eb) { x = kind == 0 ? base : base * pow10i(4 * (r.unit() - 0.5)); if (kind == 2 && r.below(one_in) == 0) x = 0; }
  // the program's own buffer for coded bounds needs some points per distinct index
  bool quant = h.n() >= 2000 && kind != 1 && c.chance(2);
  if (quant) for (auto& x : eb) x = x == 0 ? 0 : base;
  s.put("a.dat", a); s.put("e.dat", eb);
  std::vector<std::string> args = {s.path("a.dat"), s.path("e.dat"), std::to_string(h.r1), std::to_string(h.r2), quant ? "1" : "0"};
  if (quant && c.chance(2)) { args.push_back(num(base * 1e-3)); }
  std::string t = run(c, s, "sz_compress_2d_with_eb", args);
  if (t.find("not respected") != std::string::npos) c.fail("the program reports that a bound is not respected: %.200s", t.c_str() + t.find("Error bound"));
  double range = range_of(a), m = number_after(c, t, "Max absolute error = "), mb = *std::max_element(eb.begin(), eb.end());
  if (!(m <= mb * (1 + 1e-6) + 1e-9)) c.fail("the program reports a maximum error of %g, the largest bound is %g", m, mb);
  only_files(c, s, {}); check_size_line(c, t, 4 * h.n(), "Data compressed size = ");
  c.label(quant ? "bounds quantised" : "bounds as given"); c.nontrivial(h.n() >= 4 && m > 0 && range > 0);
}
static void pwr(Case& c) {
  Scratch s; Shape3 h{1, 1, 1}; Shape2 g = gen_shape2(c, size_cap(c, c.tier ? 20000 : 5000, 500)); h.r2 = g.r1; h.r3 = g.r2; h.r1 = 1 + c.draw(3); if (h.n() > 20000) h.r1 = 1;
  FieldOpts fo; fo.min_mag = 1e-12; fo.max_mag = 1e12; auto a = gen_field<float>(c, h.r1, h.r2, h.r3, fo);
  double eb = c.chance(2) ? 0.1 : pow10i(-3.3 * c.unit()); c.note("rel eb=%.9g", eb);
  s.put("a.dat", a);
  std::string t = run(c, s, "sz_compress_test", {s.path("a.dat"), std::to_string(h.r1), std::to_string(h.r2), std::to_string(h.r3), num(eb)});
  double pw = number_after(c, t, "Max pw relative error = ");
  if (!(pw <= eb * (1 + 1e-6) + 3e-6)) c.fail("the program reports a pointwise relative error of %g at bound %g", pw, eb);
  double rel = number_after(c, t, "Max absolute error = "), am = absmax_of(a);
  if (!(rel <= am * eb * (1 + 1e-6) + am * 1e-6 + 1e-9)) c.fail("the program reports a maximum error of %g for values up to %g at relative bound %g", rel, am, eb);
  only_files(c, s, {}); check_size_line(c, t, 4 * h.n(), "Compressed size = ");
  c.nontrivial(h.n() >= 4 && am > 0);
}
static void prop(Case& c) {
  static const char* names[] = {"cp2d", "cp3d", "unstructured", "per-point", "pwr"};
  int k = c.weighted({4, 2, 2, 3, 2}); c.label(std::string("program:") + names[k]); c.note("%s", names[k]);
  switch (k) { case 0: cp2d(c); break; case 1: cp3d(c); break; case 2: unstructured(c); break; case 3: per_point(c); break; default: pwr(c); }
}
int main(int argc, char** argv) {
  Check k{"C25", "random program (five command-line programs), input files, shape and bound, run in a scratch directory; its output files, report and exit status are checked; non-trivial when some value is not stored bit for bit", prop, 6000, 60000};
  k.cpu_limit_s = 60;
  k.assumptions = {"the 3D and unstructured programs are linked with a stand-in for the one FTK header they need", "sz_test_with_eb reads a fixed path of its author's machine and the cp_extraction programs need all of FTK: neither can run here", "coded bounds are requested only for inputs of at least 2000 points with few distinct bounds (the program's own buffer for them has 4 bytes per point)"};
  return run_check(argc, argv, k);
}
