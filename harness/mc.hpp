// Bounded exhaustive explorer: runs every case of a finite space in a forked worker, so that a crash,
// sanitizer report or endless loop of the code under test is attributed to one case and the exploration
// carries on behind it. No sampling anywhere: the case numbers of a family are 0..total-1 and all are run.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <vector>
#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc {

struct violation { char kind[32]; char sig[96]; char text[480]; long index; };

struct shared {
    long cur;            // case being run (-1: none)
    long ticks_cur;      // case seen by the watchdog
    long ticks;          // CPU ticks spent in it
    long done;           // cases completed
    long nontrivial;     // cases whose preconditions were met
    long transitions;    // harness-defined step count
    long restarts;
    long nviol;          // violations seen (all)
    long nrec;           // violations recorded
    violation rec[64];
    long nout;           // distinct outcomes (hash set)
    uint64_t out[1 << 16];
    char samples[6][400];
    long nsamples;
    long counters[64];
    char tag[8];         // appended to the kind of a report if the case ends the worker
};

inline shared* sh = nullptr;
inline int  g_shard = 0, g_shards = 1;
inline long g_replay = -1;
inline long g_limit_cpu_ticks = 16;     // x 250 ms of CPU time in one case = endless
inline std::string g_only;              // family filter
inline std::string g_tier = "quick";

inline long g_hangs = 0;                // endless cases seen by this process, over all families

inline bool thorough() { return g_tier == "thorough"; }

inline long g_statm = -1;               // /proc/self/statm of the worker
inline long g_limit_pages = 400000;     // a case that holds more memory than this (1.6 GB) counts as endless

inline void on_tick(int) {
    char b[64]; const ssize_t n = pread(g_statm, b, sizeof b - 1, 0);
    if (n > 0) { b[n] = 0; const char* p = strchr(b, ' '); if (p && atol(p) > g_limit_pages) { _exit(98); } }
    if (sh->cur != sh->ticks_cur) { sh->ticks_cur = sh->cur; sh->ticks = 0; }
    else if (++sh->ticks >= g_limit_cpu_ticks) { _exit(99); }
}

inline void outcome(uint64_t h) {
    h |= 1;
    for (size_t i = 0, k = (h * 0x9E3779B97F4A7C15ull) >> 48; i < 64; ++i, k = (k + 1) & 0xFFFF) {
        if (sh->out[k] == h) { return; }
        if (sh->out[k] == 0) { sh->out[k] = h; sh->nout++; return; }
    }
}
inline uint64_t mix(uint64_t h, uint64_t v) { return (h ^ v) * 1099511628211ull + 0x9E37; }

inline void report(const char* kind, const std::string& sig, const std::string& text) {
    sh->nviol++;
    long per = 0;
    for (long i = 0; i < sh->nrec; ++i) { if (!strcmp(sh->rec[i].kind, kind)) { per++; } }
    if (sh->nrec < 64 && per < 12) {
        auto& v = sh->rec[sh->nrec++];
        snprintf(v.kind, sizeof v.kind, "%s", kind);
        snprintf(v.sig,  sizeof v.sig,  "%s", sig.c_str());
        snprintf(v.text, sizeof v.text, "%s", text.c_str());
        v.index = sh->cur;
    }
}
inline void tag(const char* t) { snprintf(sh->tag, sizeof sh->tag, "%s", t); }
inline void sample(const std::string& s) {
    if (sh->nsamples < 6) { snprintf(sh->samples[sh->nsamples++], 400, "%s", s.c_str()); }
}

inline std::string json(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else { r += (char)c; }
    }
    return r + "\"";
}

inline void init(int argc, char** argv) {
    sh = static_cast<shared*>(mmap(nullptr, sizeof(shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (const char* t = getenv("MC_TICKS")) { g_limit_cpu_ticks = atol(t); }
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if      (a == "--shard")  { sscanf(argv[++i], "%d/%d", &g_shard, &g_shards); }
        else if (a == "--tier")   { g_tier = argv[++i]; }
        else if (a == "--family") { g_only = argv[++i]; }
        else if (a == "--replay") { g_replay = atol(argv[++i]); }
    }
}

// Runs all cases of a family. `describe(i)` renders case i; `run(i)` executes it, reporting violations itself.
inline void explore(const std::string& family, long total,
                    const std::function<std::string(long)>& describe,
                    const std::function<void(long)>& run) {

    if (!g_only.empty() && g_only != family) { return; }
    if (g_hangs >= 8) { return; }
    memset(sh, 0, sizeof *sh);

    long lo = g_replay >= 0 ? g_replay     : total / g_shards * g_shard + std::min<long>(total % g_shards, g_shard);
    long hi = g_replay >= 0 ? g_replay + 1 : total / g_shards * (g_shard + 1) + std::min<long>(total % g_shards, g_shard + 1);
    long at = lo;
    long deaths = 0, hangs = 0;
    bool aborted = false;

    fflush(stdout);
    while (at < hi) {
        sh->cur = -1; sh->ticks = 0; sh->ticks_cur = -2;
        char errname[] = "/tmp/mcerrXXXXXX";
        int ef = mkstemp(errname); unlink(errname);
        pid_t pid = fork();
        if (pid == 0) {
            if (g_replay < 0) { dup2(ef, 2); }
            g_statm = open("/proc/self/statm", O_RDONLY);
            struct rlimit rl { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
            struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_tick; sa.sa_flags = SA_RESTART;
            sigaction(SIGVTALRM, &sa, nullptr);
            struct itimerval tv { { 0, 250000 }, { 0, 250000 } };
            setitimer(ITIMER_VIRTUAL, &tv, nullptr);
            for (long i = at; i < hi; ++i) { sh->cur = i; sh->tag[0] = 0; run(i); sh->done++; }
            sh->cur = -1;
            _exit(0);
        }
        int st = 0; waitpid(pid, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { close(ef); break; }

        // Attribute the death to the case that was running.
        std::string why; const char* kind = "crash";
        if (WIFEXITED(st) && WEXITSTATUS(st) == 98) { kind = "hang"; why = "memory use grows beyond bounds"; }
        else if (WIFEXITED(st) && WEXITSTATUS(st) == 99) { kind = "hang"; why = "no answer within the CPU-time bound"; }
        else {
            char buf[8192]; ssize_t n = pread(ef, buf, sizeof buf - 1, 0); if (n < 0) { n = 0; } buf[n] = 0;
            why = buf;
            size_t p = why.find("ERROR: "); if (p == std::string::npos) { p = why.find("runtime error: "); }
            if (p == std::string::npos) { p = why.find("Assertion"); }
            why = p == std::string::npos ? why.substr(0, 200) : why.substr(p, 200);
            if (why.empty()) { why = WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st)); }
        }
        close(ef);
        if (sh->cur < 0) { fprintf(stderr, "worker died outside any case\n"); exit(3); }
        report((std::string(kind) + sh->tag).c_str(), "", describe(sh->cur) + " :: " + why);
        at = sh->cur + 1;
        sh->restarts++;
        if (!strcmp(kind, "hang")) { ++hangs; ++g_hangs; } else { ++deaths; }
        if (deaths >= 12 || hangs >= 3 || g_hangs >= 8) { aborted = at < hi; break; }
    }

    printf("{\"family\":%s,\"total\":%ld,\"shard\":[%d,%d],\"done\":%ld,\"nontrivial\":%ld,\"transitions\":%ld,\"aborted\":%s,\"nviol\":%ld,",
           json(family).c_str(), total, g_shard, g_shards, sh->done, sh->nontrivial, sh->transitions, aborted ? "true" : "false", sh->nviol);
    printf("\"outcomes\":[");
    bool first = true;
    for (auto h : sh->out) { if (h) { printf("%s\"%llx\"", first ? "" : ",", (unsigned long long)h); first = false; } }
    printf("],\"noutcomes\":%ld,\"samples\":[", sh->nout);
    for (long i = 0; i < sh->nsamples; ++i) { printf("%s%s", i ? "," : "", json(sh->samples[i]).c_str()); }
    printf("],\"violations\":[");
    for (long i = 0; i < sh->nrec; ++i) {
        auto& v = sh->rec[i];
        printf("%s{\"kind\":%s,\"index\":%ld,\"sig\":%s,\"text\":%s}", i ? "," : "", json(v.kind).c_str(), v.index, json(v.sig).c_str(), json(v.text).c_str());
    }
    printf("],\"counters\":[");
    for (int i = 0; i < 64; ++i) { printf("%s%ld", i ? "," : "", sh->counters[i]); }
    printf("]}\n");
    fflush(stdout);
}

} // namespace mc
