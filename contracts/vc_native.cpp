// native replay runtime: runs one proof entry of the same contract text on the real code (real libstdc++, sanitizers)
//   prog ENTRY replay FILE      inputs from FILE (name=value lines)
//   prog ENTRY search SEED SECS random inputs until an obligation fails
#include <dlfcn.h>
#include <setjmp.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>
#include <map>
#include <string>
#include <utility>
#include <vector>
#include <cstdint>
static std::multimap<std::string, std::string> g_in;
static std::map<std::string, size_t> g_pos;
static std::map<std::string, std::vector<std::string>> g_vals;
static bool g_search = false, g_end = false;
static sigjmp_buf g_jmp;
static char* g_log; static size_t g_logn;
static uint64_t rs;
static std::map<std::string, std::map<uint64_t, uint64_t>> g_ghost;
static uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1DULL; }
static void logv(const char* n, const std::string& v) {
    size_t k = strlen(n) + v.size() + 3;
    if (g_logn + k < (1 << 20)) { g_logn += sprintf(g_log + g_logn, "%s=", n); memcpy(g_log + g_logn, v.data(), v.size()); g_logn += v.size(); g_log[g_logn++] = '\n'; g_log[g_logn] = 0; }
}
static bool next(const char* n, std::string& v) {
    auto i = g_vals.find(n);
    if (i == g_vals.end()) return false;
    size_t& p = g_pos[n];
    if (p >= i->second.size()) return false;
    v = i->second[p++];
    return true;
}
static uint64_t pool[64]; static int pooln = 0;
static uint64_t gen(int w) {
    uint64_t m = w == 64 ? ~0ULL : (1ULL << w) - 1, r = rnd();
    switch (r % 8) {
        case 0: return (rnd() % 5) & m;
        case 1: return (m - rnd() % 3) & m;
        case 2: return (1ULL << (rnd() % w)) - (rnd() & 1) & m;
        case 3: { static const uint64_t magic[] = {0x80, 0x7f, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0xd7ff, 0xd800, 0xdfff, 0xe000, 127, 255, 256, 1ULL << 60, (1ULL << 60) - 1, 1ULL << 63, 1ULL << 30, (1ULL<<30)-1, 10, 19, 20, 24}; return magic[rnd() % (sizeof(magic) / 8)] & m; }
        case 4: if (pooln) return (pool[rnd() % (pooln < 64 ? pooln : 64)] + (rnd() % 3) - 1) & m; return rnd() & m;
        case 5: return (rnd() & rnd() & rnd()) & m;
        case 6: if (pooln) return pool[rnd() % (pooln < 64 ? pooln : 64)] & m; return rnd() & m;
        default: return rnd() & m;
    }
}
static const char ALPHA[] = "0123456789abcdefghijXYZ~_@:#*+-%$;,!?.'>=^() \n\t\\u/\"AZ09";
template <typename T> static T get(const char* n, int w) {
    std::string v; uint64_t x;
    if (!g_search) { x = next(n, v) ? strtoull(v.c_str(), 0, 10) : 0; }
    else { x = gen(w); pool[pooln++ % 64] = x; logv(n, std::to_string(x)); }
    return (T)x;
}
extern "C" {
uint8_t vc_u8(const char* n) { return get<uint8_t>(n, 8); }
uint16_t vc_u16(const char* n) { return get<uint16_t>(n, 16); }
uint32_t vc_u32(const char* n) { return get<uint32_t>(n, 32); }
uint64_t vc_u64(const char* n) { return get<uint64_t>(n, 64); }
void vc_forall(bool) {}
uint64_t vc_any(const char* n) { return 0; }
bool vc_bool(const char* n) { return get<uint8_t>(n, 1) & 1; }
static void reject() { if (g_search) siglongjmp(g_jmp, 1); printf("REJECTED: the inputs violate an assumption of the entry\n"); fflush(stdout); _exit(77); }
void* vc_buf(const char* n, size_t len) {
    if (len > (1 << 20)) reject();
    unsigned char* p = (unsigned char*)malloc(len ? len : 1);
    if (len == 0) { free(p); p = (unsigned char*)malloc(0); }
    std::string v;
    if (!g_search) {
        memset(p, 0, len);
        if (next(n, v)) for (size_t i = 0; i < len && 2 * i + 2 < v.size(); ++i) { unsigned b; sscanf(v.c_str() + 1 + 2 * i, "%2x", &b); p[i] = b; }
    } else {
        std::string h = "x"; char t[3];
        int kind = rnd() % 4;
        for (size_t i = 0; i < len; ++i) { p[i] = kind == 0 ? rnd() : kind == 1 ? ALPHA[rnd() % (sizeof(ALPHA) - 1)] : kind == 2 ? "0123456789"[rnd() % 10] : ("ab019~Zz"[rnd() % 8]); }
        for (size_t i = 0; i < len; ++i) { sprintf(t, "%02x", p[i]); h += t; }
        logv(n, h);
    }
    return p;
}
void vc_assume(bool c) { if (!c) reject(); }
void vc_assert(bool c, const char* name) {
    if (c) return;
    printf("FAILED: %s\n", name); fflush(stdout);
    if (g_search) { if (g_logn + strlen(name) + 16 < (1 << 20)) g_logn += sprintf(g_log + g_logn, "#FAILED=%s\n", name); }
    _exit(1);
}
void vc_cover(const char*) {}
bool vc_checking() { return true; }
void vc_begin_check(void*) {}
bool vc_native() { return true; }
uint64_t vc_concretize(uint64_t v) { return v; }
uint64_t vc_quot(uint64_t d, uint64_t n) { return (int64_t)d / (int64_t)n; }
uint64_t vc_split(const char*, uint64_t v) { return v; }
static uint64_t mix(uint64_t h, uint64_t x) { h ^= x + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; return h ^ (h >> 33); }
uint64_t vc_uf1(const char* n, uint64_t a) { uint64_t h = 7; for (; *n; ++n) h = mix(h, *n); return mix(h, a); }
uint64_t vc_uf2(const char* n, uint64_t a, uint64_t b) { return mix(vc_uf1(n, a), b); }
uint64_t vc_uf3(const char* n, uint64_t a, uint64_t b, uint64_t c) { return mix(vc_uf2(n, a, b), c); }
bool vc_rank_lt(const char* n, uint64_t a, uint64_t b) { return vc_uf1(n, a) < vc_uf1(n, b); }
uint64_t vc_gread(const char* n, uint64_t i) { return g_ghost[n][i]; }
void vc_gwrite(const char* n, uint64_t i, uint64_t v) { g_ghost[n][i] = v; }
void vc_havoc_obj(const void*, size_t) {}
void vc_debug(const char*, ...) {}
void vc_cut(bool) {}
void* vc_new(size_t) { return malloc(4096); }
void* vc_alloc(size_t n, size_t) { return malloc(n); }
void* vc_copy(void* d, const void* s, size_t n) { return memmove(d, s, n); }
int vc_memcmp(const void* a, const void* b, size_t n) { return memcmp(a, b, n); }
}
std::string vc_string(const char* name, size_t n) {
    if (n > (1 << 20)) reject();
    char* p = (char*)vc_buf(name, n + 1);
    if (g_search) p[n] = 0;
    return std::string(p, n);
}
static void onalrm(int) { _exit(3); }
int main(int argc, char** argv) {
    g_log = (char*)mmap(0, 1 << 20, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
    if (!fn) { printf("no entry %s\n", argv[1]); return 2; }
    if (!strcmp(argv[2], "replay")) {
        FILE* f = fopen(argv[3], "r"); char* l = 0; size_t n = 0; ssize_t k;
        while (f && (k = getline(&l, &n, f)) > 0) {
            if (l[k - 1] == '\n') l[--k] = 0;
            char* e = strchr(l, '=');
            if (l[0] == '#' || !e) continue;
            g_vals[std::string(l, e - l)].push_back(e + 1);
        }
        signal(SIGALRM, onalrm); alarm(20);
        fn(); printf("PASSED\n"); return 0;
    }
    uint64_t seed = strtoull(argv[3], 0, 10); double secs = atof(argv[4]);
    time_t end = time(0) + (time_t)secs;
    // each batch runs in a child so that crashes are contained
    for (uint64_t b = 0; time(0) < end; ++b) {
        g_logn = 0; g_log[0] = 0;
        fflush(stdout);
        pid_t c = fork();
        if (!c) {
            g_search = true; signal(SIGALRM, onalrm); alarm(20);
            for (volatile int i = 0; i < 2000; ++i) {
                rs = (seed * 1000003 + b * 7919 + i) * 0x9E3779B97F4A7C15ULL | 1; rnd(); rnd();
                g_logn = 0; g_log[0] = 0; pooln = 0; g_ghost.clear();
                if (sigsetjmp(g_jmp, 0) == 0) fn();
                if (time(0) >= end) break;
            }
            _exit(0);
        }
        int stt; 
        extern int wait_for(pid_t, int*); wait_for(c, &stt);
        if (stt != 0 && !(WIFEXITED(stt) && WEXITSTATUS(stt) == 3)) { printf("FOUND\n%s", g_log); return 1; }
    }
    printf("NOTHING\n");
    return 0;
}
#include <sys/wait.h>
int wait_for(pid_t c, int* s) { return waitpid(c, s, 0); }
