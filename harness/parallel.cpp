// Queries that run at the same time, each in a thread of its own with pools of its own, over one maze they share. The
// threads run under the scheduler and race detector of sched_rt.cpp; every schedule at synchronisation operations is run.
#define HEAP_SUPPRESS_EXCEPTION_WARNING
#include "mc.hpp"
#include "sched_rt.hpp"
#include <chdr.hpp>
#include <array>
#include <memory>
#include <sched.h>
#include <thread>

#define STR2(x) #x
#define STR(x) STR2(x)
static const std::string NAME = STR(SOLVER);
#ifndef OCT
#define OCT false
#endif

struct pools { chdr::monotonic_pool<> m; chdr::heterogeneous_pool<> he; chdr::homogeneous_pool<> ho; };

template <class M, class C, class W, class S> struct params {
    using weight_type = W; using scalar_type = S; using index_type = typename C::value_type; using coord_type = C;
    using lazy_sorting = std::false_type; using no_cleanup = std::false_type; using reverse_equivalence = std::true_type; using octile_neighbours = std::bool_constant<OCT>;
    const M& maze; const C start; const C end; const C size; scalar_type (*h)(const C&, const C&) noexcept;
    chdr::monotonic_pool<>* monotonic_pmr; chdr::heterogeneous_pool<>* heterogeneous_pmr; chdr::homogeneous_pool<>* homogeneous_pmr;
    const S weight = 1; const size_t capacity = 0; const size_t memory_limit = 1000;
};
template <class C, class S> S zero(const C&, const C&) noexcept { return S(0); }

// Runs the jobs in threads under every schedule. After each execution `check` tells whether its results are wrong; it may
// run queries of its own, as they only come second. `cold`: each execution in a process that never ran a query.
struct execution { int points; rt::point at[2000]; long steps; int threads; char trouble[300], wrong[300]; };
template <size_t N, class F, class J, class D> static void concurrently(const std::array<F, N>& jobs, unsigned cores, bool cold, const J& check, const D& desc) {
    static execution* const x = (execution*)mmap(nullptr, sizeof(execution), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<int> prefix; long execs = 0;
    const auto once = [&] {
        rt::begin(prefix, cores);
        { std::thread t[N]; for (size_t k = 0; k < N; ++k) { t[k] = std::thread(jobs[k]); } for (auto& r : t) { r.join(); } }
        rt::end();
        x->points = (int)std::min<size_t>(rt::trace().size(), 2000); std::copy_n(rt::trace().begin(), x->points, x->at); x->steps = rt::steps(); x->threads = rt::threads(); x->wrong[0] = 0;
        snprintf(x->trouble, sizeof x->trouble, "%s", rt::trouble().c_str()); if (!x->trouble[0]) { snprintf(x->wrong, sizeof x->wrong, "%s", check().c_str()); }
    };
    for (;;) {
        mc::sh->ticks = 0; alarm(120);
        if (!cold) { once(); }
        else {
            const pid_t p = fork(); if (p == 0) { mc::sh->ticks = 0; struct itimerval tv { { 0, 250000 }, { 0, 250000 } }; setitimer(ITIMER_VIRTUAL, &tv, nullptr); alarm(60); once(); _exit(0); }
            int st = 0; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { mc::report(WIFEXITED(st) && WEXITSTATUS(st) >= 98 ? "hang" : "crash", "", desc() + " :: the process that runs the queries ends"); return; }
        }
        const auto path = [&] { std::string t = " :: schedule"; for (int k = 0; k < x->points && t.size() < 120; ++k) { t += " " + std::to_string(x->at[k].chosen); } return t; };
        ++execs; mc::sh->transitions += x->steps; mc::sh->counters[0] = std::max<long>(mc::sh->counters[0], x->threads); mc::sh->counters[32]++;
        if (x->trouble[0]) { mc::report("race", "", desc() + path() + " :: " + x->trouble); return; }
        if (x->wrong[0]) { mc::report("disturbed", "", desc() + path() + " :: " + x->wrong); return; }
        prefix.clear(); int d = x->points - 1; for (; d >= 0; --d) { if (x->at[d].chosen + 1 < x->at[d].enabled) { break; } }
        if (d < 0) { break; }
        for (int k = 0; k < d; ++k) { prefix.push_back(x->at[k].chosen); } prefix.push_back(x->at[d].chosen + 1);
    }
    alarm(0); mc::sh->counters[1] = std::max<long>(mc::sh->counters[1], execs);
}

#ifdef SOLVER
template <class M, class C, class W, class S> struct asking {
    using P = params<M, C, W, S>; using SV = chdr::solvers::solver<chdr::solvers::SOLVER, P>; using route = std::vector<C>;
    static std::string show(const route& r) { std::string t; for (auto& c : r) { t += "("; for (auto x : c) { t += std::to_string(x) + ","; } t.back() = ')'; } return t.empty() ? "none" : t; }
    // A query, and the same query the other way around, over the same pools.
    static void ask(const M& maze, C s, C e, C size, S (*h)(const C&, const C&) noexcept, route* out) { pools p; for (int k = 0; k < 2; ++k) { out[k] = SV::solve(P { maze, k ? e : s, k ? s : e, size, h, &p.m, &p.he, &p.ho }); } }
    // `ends`: one query per thread. Threads may use different mazes.
    template <size_t N, class D> static void run(const std::array<const M*, N>& mazes, const std::array<std::pair<C, C>, N>& ends, C size, S (*h)(const C&, const C&) noexcept, bool cold, const D& desc) {
        route want[N][2], got[N][2]; bool any = cold, alone = false; std::string threw[N];
        std::array<std::function<void()>, N> jobs;
        for (size_t k = 0; k < N; ++k) { jobs[k] = [&, k] { try { ask(*mazes[k], ends[k].first, ends[k].second, size, h, got[k]); } catch (const std::exception& x) { threw[k] = x.what(); } }; }
        uint64_t hash = 7;
        concurrently(jobs, 2, cold, [&]() -> std::string {
            if (!alone) { alone = true; for (size_t k = 0; k < N; ++k) { ask(*mazes[k], ends[k].first, ends[k].second, size, h, want[k]); any |= !want[k][0].empty(); } }
            for (size_t k = 0; k < N; ++k) {
                if (!threw[k].empty()) { return "query " + std::to_string(k) + " throws " + threw[k]; }
                for (int r = 0; r < 2; ++r) { if (got[k][r].empty() != want[k][r].empty() || got[k][r].size() != want[k][r].size()) { return "query " + std::to_string(k) + (r ? " (reversed)" : "") + " answers " + show(got[k][r]) + ", alone " + show(want[k][r]); } for (auto& c : got[k][r]) { for (auto x : c) { hash = mc::mix(hash, (uint64_t)x); } } hash = mc::mix(hash, 99); got[k][r].clear(); }
            }
            return "";
        }, desc);
        mc::outcome(mc::mix(hash, cold ? (uint64_t)mc::sh->cur : 0)); mc::sh->nontrivial += any;
    }
};
template <size_t K, class W, class S, class I, size_t N = 2> static void grids(const char* name, std::array<unsigned, K> dims, int obstacles, bool cold = false) {
    using C = chdr::coord<I, K>; using M = chdr::mazes::grid<C, W>;
    unsigned n = 1; for (auto d : dims) { n *= d; } C size; for (size_t k = 0; k < K; ++k) { size[k] = (I)dims[k]; }
    std::vector<unsigned> pats; for (unsigned p = 0; p < 1u << n; ++p) { if (__builtin_popcount(p) <= obstacles) { pats.push_back(p); } }
    const auto cell = [=](unsigned i) { C c {}; for (size_t k = 0; k < K; ++k) { c[k] = (I)(i % dims[k]); i /= dims[k]; } return c; };
    // queries: the first thread's any two cells, the others' the same query, the reversed one, or one moved by a cell
    const long total = (long)pats.size() * n * n * 3;
    const auto desc = [&](long i) { std::string t = NAME + " " + name + " dims="; for (auto d : dims) { t += std::to_string(d) + "x"; } t.back() = ' '; t += "cells="; const unsigned p = pats[(size_t)(i / (3l * n * n))]; for (unsigned j = 0; j < n; ++j) { t += p >> j & 1 ? '#' : '.'; } return t + " start=" + std::to_string(i / 3 % n) + " end=" + std::to_string(i / 3 / n % n) + " with " + std::to_string(N - 1) + " queries " + (i % 3 == 0 ? "equal" : i % 3 == 1 ? "reversed" : "moved"); };
    mc::explore(name, total, desc, [&](long i) {
        const unsigned p = pats[(size_t)(i / (3l * n * n))], s = (unsigned)(i / 3 % n), e = (unsigned)(i / 3 / n % n);
        std::vector<W> cells(n); for (unsigned j = 0; j < n; ++j) { cells[j] = p >> j & 1 ? std::numeric_limits<W>::max() : W(0); }
        const M maze(size, cells); std::array<const M*, N> mazes; mazes.fill(&maze); std::array<std::pair<C, C>, N> ends; ends.fill({ cell(s), cell(e) });
        for (size_t k = 1; k < N; ++k) { if (i % 3 == 1 && k == 1) { ends[k] = { cell(e), cell(s) }; } else if (i % 3 == 2) { ends[k] = { cell((s + (unsigned)k) % n), cell((e + (unsigned)k) % n) }; } }
        asking<M, C, W, S>::run(mazes, ends, size, OCT ? &chdr::heuristics::chebyshev_distance<S, C> : &chdr::heuristics::manhattan_distance<S, C>, cold, [&] { return desc(i); });
        if (i == total / 2) { mc::sample(desc(i)); }
    });
}
template <class S, size_t N = 2> static void graphs(const char* name, unsigned V, bool cold = false) {
    using C = chdr::coord<uint32_t, 1>; using M = chdr::mazes::graph<uint32_t, S>;
    std::vector<std::pair<unsigned, unsigned>> slots; for (unsigned a = 0; a < V; ++a) { for (unsigned b = a + 1; b < V; ++b) { slots.push_back({ a, b }); } }
    long graphs_ = 1; for (size_t k = 0; k < slots.size(); ++k) { graphs_ *= 3; } const long total = graphs_ * V * V * V * V;
    const auto desc = [&](long i) { std::string t = NAME + " " + name + " edges:"; long g = i / (V * V * V * V); for (auto [a, b] : slots) { if (g % 3) { t += " " + std::to_string(a) + "-" + std::to_string(b) + "=" + std::to_string(g % 3); } g /= 3; } return t + " queries " + std::to_string(i % V) + ">" + std::to_string(i / V % V) + " and " + std::to_string(i / V / V % V) + ">" + std::to_string(i / V / V / V % V); };
    mc::explore(name, total, desc, [&](long i) {
        M maze; for (unsigned v = 0; v < V; ++v) { maze.add(v); } long g = i / (V * V * V * V);
        for (auto [a, b] : slots) { if (g % 3) { maze.add(a, { b, (S)(g % 3) }); maze.add(b, { a, (S)(g % 3) }); } g /= 3; }
        const auto at = [&](long d) { return C { (uint32_t)(i / d % V) }; }; std::array<const M*, N> mazes; mazes.fill(&maze); std::array<std::pair<C, C>, N> ends { { { at(1), at(V) }, { at(V * V), at(V * V * V) } } };
        asking<M, C, uint32_t, S>::run(mazes, ends, C { V }, &zero<C, S>, cold, [&] { return desc(i); });
        if (i == total / 2) { mc::sample(desc(i)); }
    });
}
static void families() {
    const bool T = mc::thorough();
    if constexpr (OCT) { // jump point searches
        grids<2, char, double, uint32_t>("3x3 at once", { 3, 3 }, T ? 9 : 3); grids<2, char, double, uint32_t, 3>("3x2 three at once", { 3, 2 }, T ? 6 : 3); grids<2, bool, uint32_t, int32_t>("4x2 bits at once", { 4, 2 }, T ? 8 : 2);
        grids<2, char, double, uint32_t>("3x2 cold", { 3, 2 }, T ? 3 : 1, true);
    }
    else {
        grids<2, char, uint32_t, uint32_t>("3x2 at once", { 3, 2 }, T ? 6 : 3); grids<2, char, uint32_t, uint32_t, 3>("2x2 three at once", { 2, 2 }, 4); if (T) { grids<2, char, uint32_t, uint32_t>("3x3 at once", { 3, 3 }, 9); }
        grids<3, bool, double, size_t>("2x2x2 bits at once", { 2, 2, 2 }, T ? 8 : 1); 
        graphs<uint32_t>("graphs at once", 3);
        grids<2, char, uint32_t, uint32_t>("2x2 cold", { 2, 2 }, T ? 4 : 1, true); graphs<double>("graphs cold", T ? 3 : 2, true);
    }
}
#else
// Graphs built from one grid at the same time, by constructors that start threads themselves.
static void families() {
    const unsigned cores = mc::thorough() ? 2 : 1; using C = chdr::coord<uint32_t, 2>; using M = chdr::mazes::grid<C, char>; using G = chdr::mazes::graph<uint32_t, uint32_t>;
    for (auto d : std::vector<std::array<unsigned, 2>> { { 3, 1 }, { 2, 2 } }) {
        const unsigned n = d[0] * d[1]; const long total = 1l << n; const std::string name = "two graphs of " + std::to_string(d[0]) + "x" + std::to_string(d[1]);
        const auto desc = [&](long i) { std::string t = name + " cells="; for (unsigned j = 0; j < n; ++j) { t += i >> j & 1 ? '#' : '.'; } return t; };
        mc::explore(name, total, desc, [&](long i) {
            std::vector<char> cells(n); for (unsigned j = 0; j < n; ++j) { cells[j] = i >> j & 1 ? std::numeric_limits<char>::max() : char(0); }
            const M maze(C { d[0], d[1] }, cells); const auto list = [&] { pools p; std::vector<uint32_t> r; G g(maze, &p.he); for (auto& [id, out] : g) { uint32_t x = id * 100, y = 0; for (auto& e : out) { y += e.first * 7 + e.second; } r.push_back(x + y); } std::sort(r.begin(), r.end()); return r; };
            std::vector<uint32_t> got[2], want; bool alone = false; std::array<std::function<void()>, 2> jobs { [&] { got[0] = list(); }, [&] { got[1] = list(); } };
            concurrently(jobs, cores, false, [&]() -> std::string { if (!alone) { alone = true; rt::begin({}, 1); want = list(); rt::end(); } return got[0] == want && got[1] == want ? "" : "a graph differs from one built alone"; }, [&] { return desc(i); });
            mc::outcome((uint64_t)i + 1); mc::sh->nontrivial += !want.empty();
        });
    }
}
#endif

int main(int argc, char** argv) {
    signal(SIGALRM, [](int) { _exit(99); }); mc::init(argc, argv);
    cpu_set_t one; CPU_ZERO(&one); CPU_SET((unsigned)getpid() % std::max(1l, sysconf(_SC_NPROCESSORS_ONLN)), &one); sched_setaffinity(0, sizeof one, &one); // only one thread runs at a time anyway
    families(); return 0;
}
