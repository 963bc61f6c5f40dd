// Native runtime of the harness API: replays recorded values (or random ones) against the compiled real code.
#include "hsx.h"
#include <dlfcn.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
struct Shared { int expectAbort; char msg[400]; int done; int reach; };
static Shared* SH;
static std::map<std::string, std::string> vals;
static std::map<std::string, int> cnt;
static bool randomMode = false;
static uint64_t rs = 1;
static uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
static std::map<std::string, std::string>* drawn;
static std::string uq(const char* n) { int k = cnt[n]++; return k ? std::string(n) + "#" + std::to_string(k) : n; }
static FILE* drawnFile;
static void note(const std::string& k, const std::string& v) { if (drawnFile) { fprintf(drawnFile, "%s\t%s\n", k.c_str(), v.c_str()); fflush(drawnFile); } }
extern "C" {
int hsx_native(void) { return 1; }
double hsx_real(const char* name, double lo, double hi) {
    std::string n = uq(name);
    auto it = vals.find(n);
    double v = it != vals.end() ? strtod(it->second.c_str(), nullptr) : 0.5 * (lo + hi);
    if (it == vals.end() && randomMode) { v = lo + (hi - lo) * ((rnd() >> 11) * (1.0 / 9007199254740992.0)); }
    if (v < lo) v = lo;
    if (v > hi) v = hi;
    char b[64];
    snprintf(b, 64, "%.17g", v);
    note(n, b);
    return v;
}
uint64_t hsx_uint(const char* name, uint64_t lo, uint64_t hi) {
    std::string n = uq(name);
    auto it = vals.find(n);
    uint64_t v = it != vals.end() ? strtoull(it->second.c_str(), nullptr, 10) : lo;
    if (it == vals.end() && randomMode) v = hi - lo == ~0ull ? rnd() : lo + (rnd() >> 3) % (hi - lo + 1);
    note(n, std::to_string(v));
    return v;
}
unsigned char hsx_byte(const char* name) { return (unsigned char)hsx_uint(name, 0, 255); }
uint64_t hsx_choice(const char* name, uint64_t n) { if (!n) _exit(45); return hsx_uint(name, 0, n - 1) % n; }
uint64_t hsx_concrete(uint64_t v) { return v; }
void hsx_assume_(int c) { if (!c) _exit(45); }
static void fail(const char* m) { snprintf(SH->msg, sizeof SH->msg, "%s", m); _exit(42); }
void hsx_assert_(int c, const char* msg) { if (!c) fail(msg); }
void hsx_close(double a, double b, double tol, const char* msg) {
    if (!(std::fabs(a - b) <= tol)) { char m[400]; snprintf(m, 400, "%s [%.17g vs %.17g, tol %g]", msg, a, b, tol); fail(m); }
}
void hsx_reach(const char*) { SH->reach++; }
void hsx_expect_abort(int on) { SH->expectAbort = on; }
void hsx_end(void) { _exit(0); }
double hsx_diff(double, double) { return NAN; }
int hsx_is_symbolic(double) { return 0; }
void hsx_print(const char* m, double v) { fprintf(stderr, "%s %.17g\n", m, v); }
}
static bool inCase = false;
static void onExit() { if (inCase) _exit(43); }
// replay CASE [values-file | @random:N:seed]
int main(int argc, char** argv) {
    SH = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::string cn = argv[1], src = argc > 2 ? argv[2] : "";
    auto fn = (void (*)())dlsym(RTLD_DEFAULT, ("hsx_case_" + cn).c_str());
    if (!fn) { fprintf(stderr, "no case %s\n", cn.c_str()); return 5; }
    long N = 1;
    uint64_t seed = 1;
    double budget = argc > 4 ? atof(argv[4]) : 20;
    if (src.compare(0, 8, "@random:") == 0) {
        randomMode = true;
        N = atol(src.c_str() + 8);
        size_t p = src.find(':', 8);
        if (p != std::string::npos) seed = strtoull(src.c_str() + p + 1, nullptr, 10);
    } else if (!src.empty()) {
        std::ifstream f(src);
        std::string l;
        while (std::getline(f, l)) { size_t t = l.find('\t'); if (t != std::string::npos) vals[l.substr(0, t)] = l.substr(t + 1); }
    }
    const char* df = argc > 3 ? argv[3] : nullptr;
    atexit(onExit);
    long ran = 0, skipped = 0;
    time_t t0 = time(nullptr);
    for (long i = 0; i < N; i++) {
        if (time(nullptr) - t0 > budget) break;
        memset(SH, 0, sizeof *SH);
        pid_t p = fork();
        if (!p) {
            rs = (seed * 0x9E3779B97F4A7C15ull) ^ ((i + 1) * 0xBF58476D1CE4E5B9ull);
            if (!rs) rs = 1;
            rnd(); rnd();
            if (df) drawnFile = fopen(df, "w");
            alarm(60);
            inCase = true;
            try { fn(); } catch (std::exception& e) { snprintf(SH->msg, sizeof SH->msg, "uncaught exception %s", e.what()); _exit(44); } catch (...) { _exit(44); }
            _exit(0);
        }
        int st;
        waitpid(p, &st, 0);
        ran++;
        bool bad = false;
        std::string why;
        if (WIFEXITED(st)) {
            int c = WEXITSTATUS(st);
            if (c == 45) { skipped++; continue; }
            if (c == 42) { bad = true; why = SH->msg; }
            else if (c == 43 || c == 44) { bad = !SH->expectAbort; why = std::string("terminated: ") + SH->msg; }
            else if (c == 43 || c == 44 || c == 99) { bad = !SH->expectAbort; why = "exit status " + std::to_string(c); }
        } else if (WIFSIGNALED(st)) {
            if (WTERMSIG(st) == SIGALRM) { why = "timeout"; bad = false; skipped++; }
            else { bad = !(SH->expectAbort && WTERMSIG(st) == SIGABRT); why = "signal " + std::to_string(WTERMSIG(st)); }
        }
        if (bad) { printf("REPRODUCED %s\n", why.c_str()); fflush(stdout); _exit(1); }
    }
    printf("PASSED ran=%ld skipped=%ld\n", ran, skipped);
    fflush(stdout);
    _exit(0);
}
