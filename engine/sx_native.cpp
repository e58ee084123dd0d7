// Native replay runtime: feeds recorded values to a harness compiled against the real code.
// usage: prog ENTRY FILE ; FILE: one unsigned integer per line (inputs in call order)
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <unistd.h>
#include <vector>
#include <exception>
static std::vector<uint64_t> g_in;
static size_t g_pos = 0;
static int g_allow = 0;
static bool g_exhausted = false;
static uint64_t g_rand = 0;   // SX_RANDOM=seed: pseudo-random inputs
static uint64_t rnd_() { g_rand += 0x9e3779b97f4a7c15ull; uint64_t z = g_rand; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static uint64_t next_() { if (g_pos >= g_in.size()) { g_exhausted = true; return 0; } return g_in[g_pos++]; }
static void finish(int rc) { fflush(stdout); fflush(stderr); _exit(rc); }
extern "C" {
uint32_t sx_choice(const char*, uint32_t n) { if (g_rand && n) return (uint32_t)(rnd_() % n); uint64_t v = next_(); if (n == 0) finish(79); return (uint32_t)(v < n ? v : n - 1); }
uint64_t sx_any(const char*, int, int) { return next_(); }
void sx_assume(int c) { if (!c) { printf("ASSUME\n"); finish(78); } }
void sx_assert(int c, const char* label) { if (!c) { printf("ASSERT %s\n", label); finish(77); } }
void sx_possible(int c, const char* label) { if (c) printf("POSSIBLE %s\n", label); }
void sx_reach(const char*) {}
void sx_emit(uint64_t v) { printf("EMIT %llu\n", (unsigned long long)v); }
void sx_allow_throw(int on) { g_allow = on; }
uint64_t sx_concretize(uint64_t v) { return v; }
}
int main(int argc, char** argv) {
    if (argc < 3) return 2;
    FILE* f = fopen(argv[2], "r");
    if (!f) return 2;
    char line[256];
    while (fgets(line, sizeof line, f)) if (line[0] >= '0' && line[0] <= '9') g_in.push_back(strtoull(line, 0, 10));
    fclose(f);
    if (const char* r = getenv("SX_RANDOM")) g_rand = strtoull(r, 0, 10) * 7919 + 1;
    void* h = dlopen(nullptr, RTLD_NOW);
    auto fn = (void (*)())dlsym(h, argv[1]);
    if (!fn) { fprintf(stderr, "no entry %s\n", argv[1]); return 2; }
    try { fn(); }
    catch (const std::exception& e) { printf("THROW %s\n", e.what()); finish(g_allow ? 0 : 76); }
    catch (...) { printf("THROW\n"); finish(g_allow ? 0 : 76); }
    printf("OK%s\n", g_exhausted ? " (ran out of recorded inputs)" : "");
    finish(0);
}
