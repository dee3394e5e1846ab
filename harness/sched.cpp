// Explores every interleaving of the threads that build a graph from a grid, on the real code, for every obstacle layout
// of small grids, and checks every execution for data races and the resulting graph against the grid.
#include "mc.hpp"
#include "sched_rt.hpp"
#include <chdr.hpp>
#include <array>
#include <map>
#include <memory_resource>
#include <set>
#include <sched.h>

// A caller's resource that, like the library's own pools, may not be used by two threads at once.
struct single_user final : std::pmr::memory_resource {
    long uses = 0;
    void* do_allocate(size_t n, size_t a) override { ++uses; return ::operator new(n, std::align_val_t(a)); }
    void do_deallocate(void* p, size_t n, size_t a) override { ++uses; ::operator delete(p, n, std::align_val_t(a)); }
    bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
};

template <size_t K, class W, class I, class S> struct building {
    using C = chdr::coord<uint32_t, K>; using M = chdr::mazes::grid<C, W>; using G = chdr::mazes::graph<I, S>;
    using D = std::array<unsigned, K>;
    struct wanted { std::vector<std::vector<int>> dist; std::map<int, std::vector<std::pair<int, int>>> corridors; }; // junction: corridors to others

    static void run(const char* name, D dims, std::vector<unsigned> cores, int bound) { // bound: preemptions, -1 none at all, 1000 any number
        int n = 1; for (auto x : dims) { n *= (int)x; }
        std::vector<std::vector<int>> adj((size_t)n);
        for (int i = 0; i < n; ++i) { int m = 1, r = i; for (size_t k = 0; k < K; ++k) { const int x = r % (int)dims[k]; r /= (int)dims[k]; if (x > 0) { adj[(size_t)i].push_back(i - m); } if (x + 1 < (int)dims[k]) { adj[(size_t)i].push_back(i + m); } m *= (int)dims[k]; } }
        const long V = (long)cores.size(); const auto spread = [=](long i) { return i * 7919 % ((1l << n) * V); }; // deals dense layouts out evenly
        const auto desc = [&](long i) { i = spread(i); std::string t = std::string("graph from grid ") + name + " dims="; for (auto d : dims) { t += std::to_string(d) + "x"; } t.back() = ' '; t += "cells="; for (int j = 0; j < n; ++j) { if (K > 1 && j && j % (int)dims[0] == 0) { t += '/'; } t += ((i / V) >> j & 1) ? '#' : '.'; } return t + " cores=" + std::to_string(cores[(size_t)(i % V)]); };
        mc::explore(name, (1l << n) * V, desc, [&](long i) {
            const long pat = spread(i) / V; const unsigned c = cores[(size_t)(spread(i) % V)];
            std::vector<W> cells((size_t)n); for (int j = 0; j < n; ++j) { cells[(size_t)j] = (pat >> j & 1) ? std::numeric_limits<W>::max() : W(0); }
            C size; for (size_t k = 0; k < K; ++k) { size[k] = dims[k]; }
            const M maze(size, cells); single_user res;

            wanted w; w.dist.assign((size_t)n, std::vector<int>((size_t)n, -1)); std::vector<std::vector<int>> nb((size_t)n);
            for (int a = 0; a < n; ++a) { if (!(pat >> a & 1)) { for (int b : adj[(size_t)a]) { if (!(pat >> b & 1)) { nb[(size_t)a].push_back(b); } } } }
            for (int a = 0; a < n; ++a) { if (pat >> a & 1) { continue; } auto& d = w.dist[(size_t)a]; d[(size_t)a] = 0; std::vector<int> q { a }; for (size_t h = 0; h < q.size(); ++h) { for (int b : nb[(size_t)q[h]]) { if (d[(size_t)b] < 0) { d[(size_t)b] = d[(size_t)q[h]] + 1; q.push_back(b); } } } }
            for (int a = 0; a < n; ++a) { if (nb[(size_t)a].size() != 2) { for (int b : nb[(size_t)a]) { int prev = a, cur = b, len = 1; while (nb[(size_t)cur].size() == 2) { const int next = nb[(size_t)cur][0] == prev ? nb[(size_t)cur][1] : nb[(size_t)cur][0]; prev = cur; cur = next; ++len; } if (cur != a) { w.corridors[a].push_back({ cur, len }); } } } }

            std::set<std::multiset<std::array<int, 3>>> seen; std::vector<int> prefix; long execs = 0;
            for (;;) {
                mc::sh->ticks = 0; alarm(120);
                std::multiset<std::array<int, 3>> edges; std::multiset<int> vertices;
                const auto path = [&] { std::string t = " :: schedule"; for (auto& p : rt::trace()) { t += " " + std::to_string(p.chosen); if (t.size() > 120) { t += "..."; break; } } return t; };
                bool threw = false;
                rt::begin(prefix, c);
                try {
                    G g(maze, &res); 
                    rt::end();
                    for (const auto& [id, out] : g) { vertices.insert((int)id); for (const auto& e : out) { edges.insert({ (int)id, (int)e.first, (int)e.second }); } }
                } catch (const std::exception& x) { rt::end(); threw = true; mc::report("exception", "", desc(i) + path() + " :: " + x.what()); }
                ++execs; mc::sh->transitions += rt::steps(); mc::sh->counters[0] = std::max<long>(mc::sh->counters[0], rt::threads()); mc::sh->counters[32]++;
                if (!rt::trouble().empty()) { mc::report("race", "", desc(i) + path() + " :: " + rt::trouble()); return; }
                if (threw) { return; }
                auto key = edges; for (int v : vertices) { key.insert({ v, -1, -1 }); }
                if (seen.insert(key).second) {
                    const std::string bad = judge(w, n, pat, vertices, edges);
                    uint64_t h = 1469598103934665603ull; for (auto& e : key) { for (int x : e) { h = mc::mix(h, (uint64_t)(x + 1)); } } mc::outcome(h);
                    if (!bad.empty()) { std::string t; for (auto& e : edges) { t += " " + std::to_string(e[0]) + ">" + std::to_string(e[1]) + "=" + std::to_string(e[2]); } mc::report("graph", "", desc(i) + path() + " :: " + bad + ", holds" + t); return; }
                }
                // the next schedule
                prefix.clear(); const auto& tr = rt::trace(); 
                if (bound < 0) { break; }
                std::vector<int> cost { 0 }; for (auto& p : tr) { cost.push_back(cost.back() + (!p.free && p.chosen > 0)); }
                int d = (int)tr.size() - 1; for (; d >= 0; --d) { const auto& p = tr[(size_t)d]; if (p.chosen + 1 < p.enabled && cost[(size_t)d] + (p.free ? 0 : 1) <= bound) { break; } }
                if (d < 0) { break; }
                for (int k = 0; k < d; ++k) { prefix.push_back(tr[(size_t)k].chosen); } prefix.push_back(tr[(size_t)d].chosen + 1);
            }
            alarm(0);
            mc::sh->counters[1] = std::max<long>(mc::sh->counters[1], execs); mc::sh->nontrivial += !w.corridors.empty();
            if (execs > 10 && mc::sh->nsamples < 2) { mc::sample(desc(i) + ": " + std::to_string(execs) + " schedules, " + std::to_string(seen.size()) + " results"); }
        });
    }
    static std::string judge(const wanted& w, int n, long pat, const std::multiset<int>& vs, const std::multiset<std::array<int, 3>>& es) {
        std::vector<std::vector<int>> d((size_t)n, std::vector<int>((size_t)n, 1000000)); std::map<int, size_t> degree;
        for (int v : vs) { if (v < 0 || v >= n || (pat >> v & 1)) { return "vertex " + std::to_string(v) + " is not a free cell"; } d[(size_t)v][(size_t)v] = 0; }
        for (auto& e : es) { if (!vs.count(e[1])) { return "an edge leads to vertex " + std::to_string(e[1]) + ", which is missing"; } if (es.count(e) != es.count({ e[1], e[0], e[2] })) { return "an edge has no counterpart"; } auto& x = d[(size_t)e[0]][(size_t)e[1]]; x = std::min(x, e[2]); degree[e[0]]++; }
        for (int m : vs) { for (int a : vs) { for (int b : vs) { d[(size_t)a][(size_t)b] = std::min(d[(size_t)a][(size_t)b], d[(size_t)a][(size_t)m] + d[(size_t)m][(size_t)b]); } } }
        for (auto& [v, out] : w.corridors) { if (!out.empty() && out.size() != 2) { if (!vs.count(v)) { return "junction " + std::to_string(v) + " is missing"; } if (degree[v] != out.size()) { return "junction " + std::to_string(v) + " has " + std::to_string(degree[v]) + " edges"; } } }
        for (int a : vs) { for (int b : vs) { const int want = w.dist[(size_t)a][(size_t)b]; if ((want < 0 ? 1000000 : want) != d[(size_t)a][(size_t)b]) { return "the distance from " + std::to_string(a) + " to " + std::to_string(b) + " is " + std::to_string(d[(size_t)a][(size_t)b]) + " instead of " + std::to_string(want); } } }
        return "";
    }
};

static void families() {
    const bool T = mc::thorough(); constexpr int ALL = 1000; using U = uint32_t;
    building<2, char, U, U>::run("all schedules 3x2", { 3, 2 }, { 0, 1, 2, 3, 4, 5, 6 }, ALL);
    building<2, bool, size_t, double>::run("all schedules 2x3", { 2, 3 }, { 1, 2, 3, 6, 64 }, ALL);
    building<1, char, U, U>::run("all schedules 1d", { 9 }, { 1, 2, 3, 4, 6 }, ALL);
    building<2, char, U, U>::run("4x2", { 4, 2 }, { 2, 3, 4, 6 }, T ? ALL : 3);
    building<2, char, U, U>::run("3x3", { 3, 3 }, { 2, 3, 4, 6 }, T ? 3 : 1);
    building<3, char, U, U>::run("2x2x2", { 2, 2, 2 }, { 2, 3, 6 }, T ? 3 : 1);
    building<2, char, U, U>::run("layouts 4x4", { 4, 4 }, T ? std::vector<unsigned>{ 1, 2, 3, 4, 5, 6, 64 } : std::vector<unsigned>{ 1, 4, 6 }, -1);
    building<2, bool, uint16_t, float>::run("layouts 7x2", { 7, 2 }, { 3, 6 }, -1);
    building<3, char, U, U>::run("layouts 3x2x2", { 3, 2, 2 }, { 1, 5, 6 }, -1);
    building<2, char, U, U>::run("layouts 5x3", { 5, 3 }, { 2, 6 }, -1);
    if (T) { building<2, char, U, U>::run("layouts 5x4", { 5, 4 }, { 6 }, -1); building<2, char, U, U>::run("layouts 3x5", { 3, 5 }, { 2, 3, 4, 6 }, 1); }
}

int main(int argc, char** argv) {
    signal(SIGALRM, [](int) { _exit(99); }); mc::init(argc, argv);
    cpu_set_t one; CPU_ZERO(&one); CPU_SET((unsigned)mc::g_shard % std::max(1l, sysconf(_SC_NPROCESSORS_ONLN)), &one); sched_setaffinity(0, sizeof one, &one); // only one thread runs at a time anyway
    families(); return 0;
}
