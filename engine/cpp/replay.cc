// Uninstrumented replay of one assignment of a harness' inputs against the real code.
#include <math.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <map>
#include <string>
#include "vp.h"
static std::map<std::string, std::string> A; static std::map<std::string, int> C; static std::string obs;
static std::string key(const char* n0) { std::string nn(n0); for (char& ch : nn) if (ch == ' ') ch = '_'; const char* n = nn.c_str(); int k = C[n]++; return k ? std::string(n) + "#" + std::to_string(k) : std::string(n); }
static long num(const char* n, long lo, long hi, const char* kind) { std::string k = key(n); auto it = A.find(k); long v = it == A.end() ? lo : strtol(it->second.c_str(), 0, 10); if (v < lo) v = lo; if (v > hi) v = hi; if (getenv("VP_SHOW")) printf("  %s = %ld\n", k.c_str(), v); return v; }
extern "C" {
unsigned long vp_hash_salt = 0;
int vp_int(const char* n, int lo, int hi) { return num(n, lo, hi, "int"); }
long vp_long(const char* n, long lo, long hi) { return num(n, lo, hi, "long"); }
bool vp_bool(const char* n) { return num(n, 0, 1, "bool"); }
double vp_grid(const char* n, int lo, int hi, int fb) { return ldexp((double)num(n, lo, hi, "grid"), -fb); }
float vp_gridf(const char* n, int lo, int hi, int fb) { return (float)ldexp((double)num(n, lo, hi, "grid"), -fb); }
double vp_real(const char* n, double lo, double hi) { std::string k = key(n); auto it = A.find(k); double v = lo; if (it != A.end()) { uint64_t x = strtoull(it->second.c_str() + 1, 0, 16); memcpy(&v, &x, 8); } if (getenv("VP_SHOW")) printf("  %s = %.17g\n", k.c_str(), v); return v; }
int vp_choice(const char* n, int m) { return num(n, 0, m - 1, "choice"); }
int vp_conc(int v) { return v; }
bool vp_and(bool a, bool b) { return a & b; }
bool vp_or(bool a, bool b) { return a | b; }
double vp_ite(bool c, double a, double b) { return c ? a : b; }
int vp_itei(bool c, int a, int b) { return c ? a : b; }
void vp_assume(bool c) { if (!c) { printf("VP_ASSUME\n"); fflush(0); _exit(20); } }
void vp_assert_(bool c, const char* id) { if (!c) { printf("VP_FAIL %s\n", id); fflush(0); _exit(10); } }
void vp_reach(const char*) {}
void vp_note(const char*) {}
void vp_observe(const char* n, double v) { char b[100]; snprintf(b, sizeof b, "%s:%.9g,", n, v == 0 ? 0.0 : v); obs += b; }
void __attribute__((weak)) vp_setup() {}
}
// one process, many assignments (one per line on stdin) when argv[1] == "-batch"; otherwise argv[1] is a file holding one
#include <sys/wait.h>
#include <sys/resource.h>
#include <iostream>
static void parse(const std::string& s) { A.clear(); C.clear(); obs.clear(); size_t p = 0; while (p < s.size()) { size_t e = s.find('=', p), q = s.find(';', p); if (e == std::string::npos || q == std::string::npos) break; A[s.substr(p, e - p)] = s.substr(e + 1, q - e - 1); p = q + 1; } }
int main(int argc, char** argv) {
  vp_setup();
  if (argc > 1 && !strcmp(argv[1], "-batch")) {
    std::string line; while (std::getline(std::cin, line)) {
      fflush(0); pid_t p = fork();
      if (!p) { struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl); freopen("/dev/null", "w", stderr); alarm(20); parse(line); vp_property(); printf("VP_END %s\n", obs.c_str()); fflush(0); _exit(0); }
      int st; waitpid(p, &st, 0); if (WIFSIGNALED(st)) printf("VP_CRASH %d\n", WTERMSIG(st)); fflush(0);
    }
    return 0;
  }
  std::string all; if (FILE* f = fopen(argv[1], "r")) { char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) all.append(b, n); fclose(f); }
  // the replay file may carry comment lines
  std::string s; size_t p = 0; while (p < all.size()) { size_t e = all.find('\n', p); if (e == std::string::npos) e = all.size(); std::string l = all.substr(p, e - p); if (!l.empty() && l[0] != '#') s += l; p = e + 1; }
  parse(s); vp_property(); printf("VP_END %s\n", obs.c_str()); return 0;
}
