// Every sequence of queries, by any mix of searches, over one shared set of memory pools and mazes. PART 1: pools with
// tiny blocks, 2: pools with their default geometry.
#define HEAP_SUPPRESS_EXCEPTION_WARNING
#include "mc.hpp"
#include <chdr.hpp>
#include <algorithm>
#include <array>
#include <map>
#include <memory>
#include <set>
#ifndef PART
#define PART 1
#endif
#ifndef UNIT
#define UNIT 0 // 0: the explorer, 1..5: some of the searches (compiled side by side)
#endif

using U = uint32_t; using C = chdr::coord<U, 2>;
template <class M> static constexpr bool is_grid = !std::is_same_v<M, chdr::mazes::graph<U, U>>;
using grid_t = chdr::mazes::grid<C, char>; using graph_t = chdr::mazes::graph<U, U>;

struct pools {
#if PART == 1
    using mono_t = chdr::monotonic_pool<64, ~size_t(0), 512>; using hete_t = chdr::heterogeneous_pool<64, ~size_t(0), 512>; using homo_t = chdr::homogeneous_pool<64, ~size_t(0), 512>;
    std::unique_ptr<mono_t> m = std::make_unique<mono_t>(256); std::unique_ptr<hete_t> he = std::make_unique<hete_t>(256, 1); std::unique_ptr<homo_t> ho = std::make_unique<homo_t>(256, 1);
#else
    using mono_t = chdr::monotonic_pool<>; using hete_t = chdr::heterogeneous_pool<>; using homo_t = chdr::homogeneous_pool<>;
    std::unique_ptr<mono_t> m = std::make_unique<mono_t>(); std::unique_ptr<hete_t> he = std::make_unique<hete_t>(); std::unique_ptr<homo_t> ho = std::make_unique<homo_t>();
#endif
    void move() { m = std::make_unique<mono_t>(std::move(*m)); he = std::make_unique<hete_t>(std::move(*he)); ho = std::make_unique<homo_t>(std::move(*ho)); }
    void reset() { m->reset(); he->reset(); ho->reset(); }
    void release() { m->release(); he->release(); ho->release(); }
};

template <class M, class S, bool NOCLEAN, bool OCT, bool REV> struct params {
    using weight_type = std::conditional_t<is_grid<M>, char, U>; using scalar_type = S; using index_type = U; using coord_type = C;
    using lazy_sorting = std::false_type; using no_cleanup = std::bool_constant<NOCLEAN>; using reverse_equivalence = std::bool_constant<REV>; using octile_neighbours = std::bool_constant<OCT>;
    const M& maze; const C start; const C end; const C size;
    S (*h)(const C&, const C&) noexcept;
    pools::mono_t* monotonic_pmr; pools::hete_t* heterogeneous_pmr; pools::homo_t* homogeneous_pmr;
    const S weight = 1; const size_t capacity = 0; const size_t memory_limit = 1000;
};
template <class S> static S zero(const C&, const C&) noexcept { return 0; }

struct query { int maze; C start, end; }; // maze 0: a winding grid, 1: a grid of another shape, 2: a weighted graph
static const grid_t& grid(int i) {
    static const char X = std::numeric_limits<char>::max();
    static const grid_t g0(C { 4, 3 }, std::vector<char> { 0, 0, 0, 0, X, X, X, 0, 0, 0, 0, 0 });
    static const grid_t g1(C { 2, 5 }, std::vector<char> { 0, 0, X, 0, 0, 0, 0, X, 0, 0 });
    return i == 0 ? g0 : g1;
}
static const graph_t& net() {
    static const graph_t g = [] { graph_t r; const U e[][3] = { { 0, 1, 1 }, { 1, 2, 1 }, { 0, 2, 5 }, { 2, 3, 2 }, { 1, 3, 7 }, { 3, 4, 1 }, { 5, 6, 1 } }; for (U i = 0; i < 7; ++i) { r.add(i); } for (auto& x : e) { r.add(x[0], { x[1], x[2] }); r.add(x[1], { x[0], x[2] }); } return r; }();
    return g;
}
static const std::vector<query> Q = { { 0, { 0, 0 }, { 0, 2 } }, { 1, { 1, 0 }, { 0, 4 } }, { 0, { 3, 2 }, { 3, 2 } }, { 2, { 0, 0 }, { 4, 0 } }, { 2, { 4, 0 }, { 6, 0 } } };

template <template <class> class SOLVER, bool NOCLEAN, bool REV = true> static std::vector<C> ask(const query& q, pools& p) {
    const auto run = [&](const auto& maze, auto scalar, auto oct, C size) {
        using M = std::decay_t<decltype(maze)>; using S = decltype(scalar); using P = params<M, S, NOCLEAN, decltype(oct)::value, REV>;
        const P pr { maze, q.start, q.end, size, decltype(oct)::value || !is_grid<M> ? &zero<S> : &chdr::heuristics::manhattan_distance<S, C>, p.m.get(), p.he.get(), p.ho.get() };
        return chdr::solvers::solver<SOLVER, P>::solve(pr);
    };
    if (q.maze == 2) { return run(net(), U {}, std::false_type {}, C { 7, 1 }); }
    return run(grid(q.maze), U {}, std::false_type {}, grid(q.maze).size());
}
template <template <class> class SOLVER> static std::vector<C> jump(const query& q, pools& p) {
    using P = params<grid_t, double, false, true, true>;
    const P pr { grid(q.maze), q.start, q.end, grid(q.maze).size(), &chdr::heuristics::octile_distance<double, C>, p.m.get(), p.he.get(), p.ho.get() };
    return chdr::solvers::solver<SOLVER, P>::solve(pr);
}

struct op { std::string name; std::function<std::vector<C>(pools&)> run; int q; std::vector<C> alone; bool optimal; };
extern std::vector<op> ops; void searches1(); void searches2(); void searches3(); void searches4(); void searches5();
#if UNIT == 0
std::vector<op> ops;
#endif

static const char* legal(const query& q, const std::vector<C>& path) { // adjacent free cells or joined vertices, none twice
    std::set<C> seen;
    for (size_t i = 0; i < path.size(); ++i) {
        if (!seen.insert(path[i]).second) { return "repeats a cell"; }
        if (q.maze == 2) { if (path[i][0] > 6 || path[i][1] > 0) { return "holds an unknown vertex"; } if (i) { bool ok = false; for (auto& e : net().get_neighbours(path[i - 1][0])) { ok |= e.first == path[i][0]; } if (!ok) { return "follows no edge"; } } }
        else { const auto& g = grid(q.maze); if (path[i][0] >= g.size()[0] || path[i][1] >= g.size()[1] || !g[path[i]].is_active()) { return "holds no free cell"; } if (i) { const int dx = (int)path[i][0] - (int)path[i - 1][0], dy = (int)path[i][1] - (int)path[i - 1][1]; if (dx * dx + dy * dy != 1) { return "jumps"; } } }
    }
    return nullptr;
}

#if UNIT > 0
#define JOIN2(a, b) a##b
#define JOIN(a, b) JOIN2(a, b)
void JOIN(searches, UNIT)() {
    const bool T = mc::thorough();
    const auto put = [](const std::string& name, int q, bool opt, auto f) { ops.push_back({ name + " " + (Q[(size_t)q].maze == 2 ? "graph" : "grid " + std::to_string(Q[(size_t)q].maze)) + " query " + std::to_string(q), [q, f](pools& p) { return f(Q[(size_t)q], p); }, q, {}, opt }); };
    #define S(name, opt) { namespace c = chdr::solvers; \
        put(#name, 0, opt, [](const query& q, pools& p) { return ask<c::name, false>(q, p); }); \
        put(#name, 3, opt, [](const query& q, pools& p) { return ask<c::name, false>(q, p); }); \
        if (T || PART == 2) { put(#name, 1, opt, [](const query& q, pools& p) { return ask<c::name, false>(q, p); }); put(#name, 2, opt, [](const query& q, pools& p) { return ask<c::name, false>(q, p); }); put(#name, 4, opt, [](const query& q, pools& p) { return ask<c::name, false>(q, p); }); } \
        else if (PART == 1) { put(#name, 4, opt, [](const query& q, pools& p) { return ask<c::name, false>(q, p); }); } \
        put(#name " without clean-up, then reset,", 0, opt, [](const query& q, pools& p) { auto r = ask<c::name, true>(q, p); p.reset(); return r; }); \
        if (T || PART == 2) { put(#name " twice without clean-up, then release,", 3, opt, [](const query& q, pools& p) { (void)ask<c::name, true>(q, p); auto r = ask<c::name, true>(q, p); p.release(); return r; }); } }
#if UNIT == 1
    S(astar, true) S(bfs, false) S(dijkstra, true) S(flood, false)
    put("jps", 0, false, [](const query& q, pools& p) { return jump<chdr::solvers::jps>(q, p); });
    put("gjps", 1, false, [](const query& q, pools& p) { return jump<chdr::solvers::gjps>(q, p); });
#elif UNIT == 2
    S(best_first, false) S(dfs, false) S(fringe, true) S(gstar, true)
#elif UNIT == 3
    S(gbest_first, false) S(gbfs, false) S(gdfs, false) S(mgstar, true)
#elif UNIT == 4
    S(osmastar, true) S(smastar, true) S(eidastar, true) S(eidbest_first, false)
#elif UNIT == 5
    S(eiddfs, false) S(idastar, true) S(idbest_first, false) S(iddfs, false)
#endif
    #undef S
}
#else
static void alphabet() {
    searches1(); searches2(); searches3(); searches4(); searches5();
    const auto act = [](const char* name, auto f) { ops.push_back({ name, [f](pools& p) { f(p); return std::vector<C> {}; }, -1, {}, false }); };
    act("reset the pools", [](pools& p) { p.reset(); });
    act("release the pools", [](pools& p) { p.release(); });
    act("move the pools", [](pools& p) { p.move(); });
}

static void explore(const char* name, int len, std::vector<size_t> use) {
    const long A = (long)use.size(); long total = 1; for (int k = 0; k < len; ++k) { total *= A; }
    const auto at = [&](long i, int k) -> op& { while (k-- > 0) { i /= A; } return ops[use[(size_t)(i % A)]]; };
    const auto desc = [&](long i) { std::string t = std::string(name) + ": "; for (int k = 0; k < len; ++k) { t += (k ? "; " : "") + at(i, k).name; } return t; };
    mc::explore(name, total, desc, [&](long i) {
        pools p; bool some = false; uint64_t h = 1469598103934665603ull;
        for (int k = 0; k < len; ++k) {
            op& o = at(i, k); std::vector<C> path; mc::sh->transitions++;
            try { path = o.run(p); } catch (const std::exception& x) { mc::report("exception", "", desc(i) + " :: step " + std::to_string(k + 1) + ": " + x.what()); return; }
            if (o.q < 0) { continue; }
            some |= !path.empty(); for (auto& c : path) { h = mc::mix(h, c[0] * 8 + c[1] + 1); }
            if (path == o.alone) { continue; }
            const bool jumping = o.name.find("jps") != std::string::npos; const char* bad = nullptr; // another route may be as good
            if (path.empty() != o.alone.empty()) { bad = path.empty() ? "finds no route, though it does alone" : "finds a route, though none exists"; }
            else if (!jumping && (bad = legal(Q[(size_t)o.q], path))) {}
            else if (!jumping && o.optimal && path.size() != o.alone.size() && Q[(size_t)o.q].maze != 2) { bad = "finds a longer or shorter route than alone"; }
            else { const auto ends = [](const std::vector<C>& v) { return std::set<C> { v.front(), v.back() }; }; if (ends(path) != ends(o.alone) && (jumping || path.size() == o.alone.size())) { bad = "answers with other end points than alone"; } }
            if (bad) { std::string t; for (auto& c : path) { t += " " + std::to_string(c[0]) + "," + std::to_string(c[1]); } mc::report("history", "", desc(i) + " :: step " + std::to_string(k + 1) + " " + bad + ":" + t); return; }
        }
        mc::outcome(h); mc::sh->nontrivial += some; if (some && mc::sh->nsamples < 1) { mc::sample(desc(i)); }
    });
}

int main(int argc, char** argv) {
    mc::init(argc, argv); alphabet();
    { // what each query answers with pools of its own
        (void)grid(0); (void)grid(1); (void)net();
        for (auto& o : ops) { pools p; o.alone = o.run(p); if (o.q >= 0 && o.alone.empty() != (o.q == 4)) { printf("{\"family\":\"alone\",\"total\":1,\"shard\":[%d,%d],\"done\":1,\"nontrivial\":1,\"transitions\":1,\"aborted\":false,\"nviol\":1,\"outcomes\":[],\"noutcomes\":0,\"samples\":[],\"violations\":[{\"kind\":\"history\",\"index\":0,\"sig\":\"\",\"text\":%s}],\"counters\":[0]}\n", mc::g_shard, mc::g_shards, mc::json(o.name + " answers wrongly with pools of its own").c_str()); fflush(stdout); return 0; } }
    }
    std::vector<size_t> all; for (size_t i = 0; i < ops.size(); ++i) { all.push_back(i); }
    const bool T = mc::thorough();
    explore("pairs", 2, all);
    if (PART == 1 || T) { explore("triples", 3, all); }
    std::vector<size_t> repeat; for (size_t i = 0; i < ops.size(); ++i) { repeat.push_back(i); }
    mc::explore("again and again", (long)ops.size(), [&](long i) { return ops[(size_t)i].name + " forty times"; }, [&](long i) { // one query repeated
        pools p; op& o = ops[(size_t)i]; for (int k = 0; k < 40; ++k) { mc::sh->transitions++; const auto r = o.run(p); if (r.empty() != o.alone.empty() || (o.q >= 0 && r != o.alone && legal(Q[(size_t)o.q], r) && o.name.find("jps") == std::string::npos)) { mc::report("history", "", o.name + " :: answers differently the " + std::to_string(k + 1) + "th time"); return; } } mc::sh->nontrivial++;
    });
    return 0;
}
#endif
