// Exhaustive search-space exploration of one solver (-DSOLVER=...): every obstacle pattern, every query,
// every weighted graph up to the stated bounds, executed on the real code and compared with a reference.
#define HEAP_SUPPRESS_EXCEPTION_WARNING
#include "mc.hpp"
#include <algorithm>
#include <array>
#include <bitset>
#include <cmath>
#include <condition_variable>
#include <deque>
#include <future>
#include <map>
#include <memory_resource>
#include <memory>
#include <queue>
#include <set>
#include <sstream>
#include <string_view>
#include <unordered_map>
#include <unordered_set>
#if PART == 6
#define final // the mazes below are derived from the library's
#endif
#include <chdr.hpp>

#ifndef SOLVER
#define SOLVER astar
#endif
#define STR2(x) #x
#define STR(x) STR2(x)

static const std::string NAME = STR(SOLVER);
using bits = std::bitset<640>; // the obstructed cells of a grid

static bool is(std::initializer_list<const char*> l) { for (auto* x : l) { if (NAME == x) { return true; } } return false; }
static constexpr bool IS_JPS_ = std::string_view(STR(SOLVER)) == "jps" || std::string_view(STR(SOLVER)) == "gjps";
static const bool IS_JPS   = IS_JPS_;
static const bool IS_FLOOD = is({"flood"});
static const bool IS_MEM   = is({"mgstar", "smastar", "osmastar"});
static const bool OPT_GRID = is({"astar","gstar","fringe","idastar","eidastar","bfs","gbfs","iddfs","eiddfs","dijkstra","mgstar","smastar","osmastar"});
static const bool OPT_GRAPH= is({"astar","gstar","fringe","idastar","eidastar","dijkstra","mgstar","smastar","osmastar"});

#if PART == 6
#undef final
// Mazes that note which of their cells or vertices a search looks around at: grids of signed char behave as grids of char,
// graphs indexed by unsigned long long as graphs indexed by unsigned long.
namespace work { static long looks[640], total = 0, guesses = 0; static void clear() { std::fill_n(looks, 640, 0l); total = guesses = 0; } static void look(size_t i) { ++total; if (i < 640) { ++looks[i]; } } }
namespace chdr::mazes {
    template <class C> class grid<C, signed char> : public grid<C, char> {
    public:
        using base = grid<C, char>; using base::base;
        template <bool D = false> auto get_neighbours(const C& id) const noexcept { work::look((size_t)utils::to_1d(id, base::size())); return base::template get_neighbours<D>(id); }
        template <bool D = false> auto get_neighbours(typename C::value_type id) const noexcept { work::look((size_t)id); return base::template get_neighbours<D>(id); }
    };
    template <class S> class graph<unsigned long long, S> : public graph<unsigned long, S> {
    public:
        using base = graph<unsigned long, S>; using base::base;
        template <bool D = false> const auto& get_neighbours(unsigned long id) const { work::look(id); return base::template get_neighbours<D>(id); }
    };
}
// The heuristic in use, with its calls counted.
template <class S, class C> struct guess { static inline S (*of)(const C&, const C&) noexcept = nullptr; static S call(const C& a, const C& b) noexcept { ++work::guesses; return of(a, b); } };
#endif

// Reported order and end-point inclusion: forwards?, start included?, goal included?
struct convention { bool fwd, s, e; };
static convention conv_of(bool rev, bool graph) {
    if (is({"smastar","osmastar"})) { return { true, true, false }; }
    if (is({"eidastar"})) { return { !(graph && rev), true, true }; }
    if (is({"dijkstra"})) { return { true, true, true }; }
    if (is({"best_first","dfs","gbest_first","gdfs"})) { return { true, false, true }; }
    if (is({"idastar","iddfs","eiddfs","idbest_first","eidbest_first"})) { return { false, true, true }; }
    if (!rev)   { return { false, false, true }; }
    if (graph || is({"astar"})) { return { true,  false, true }; }
    return { false, true, false };
}

// Faults: while armed, the n-th allocation (or every one from the n-th on) fails.
namespace fault { static long seen = 0, at = -1, upstream = 0, blocks = 0; static bool armed = false, lasting = false, hit = false;
    static bool strikes() { if (!armed) { return false; } ++seen; if (at < 0 || !(lasting ? seen >= at : seen == at)) { return false; } return hit = true; } }
#if PART == 5
#include <malloc.h>
static void* obtain(size_t n, size_t a) { if (fault::upstream && fault::strikes()) { throw std::bad_alloc(); } void* p = a > 16 ? aligned_alloc(a, (n + a - 1) / a * a) : malloc(n ? n : 1); if (!p) { throw std::bad_alloc(); } ++fault::blocks; return p; }
static void give_back(void* p) { if (p) { --fault::blocks; free(p); } }
void* operator new(size_t n) { return obtain(n, 0); }
void* operator new(size_t n, std::align_val_t a) { return obtain(n, (size_t)a); }
void operator delete(void* p) noexcept { give_back(p); }
void operator delete(void* p, size_t) noexcept { give_back(p); }
void operator delete(void* p, std::align_val_t) noexcept { give_back(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { give_back(p); }
#endif

// Memory resources handed to the solvers: the library's pools, either with their default geometry or with stack
// blocks of 64 bytes and heap blocks of 256, so that small searches leave the stack block and span several blocks.
struct ledger final : std::pmr::memory_resource { // counts live allocations of node size, and checks that frees match
    static inline long live = 0, peak = 0, total = 0; static inline std::string wrong;
    std::map<void*, std::pair<size_t, size_t>> held;
    explicit ledger(size_t = 0, size_t = 0) { live = peak = 0; }
    ~ledger() override { for (auto& [p, x] : held) { ::operator delete(p, std::align_val_t(x.second)); } }
    static void note(size_t n, long d) { if (n <= 96) { total += d > 0; live += d; peak = std::max(peak, live); } }
    void* do_allocate(size_t n, size_t a) override { if (!fault::upstream && fault::strikes()) { throw std::bad_alloc(); } void* p = ::operator new(n, std::align_val_t(a)); held[p] = { n, a }; note(n, 1); return p; }
    void do_deallocate(void* p, size_t n, size_t a) override {
        auto it = held.find(p);
        if (it == held.end()) { wrong = "memory returned that was not allocated"; return; }
        if (it->second != std::make_pair(n, a)) { wrong = "memory returned with another size or alignment"; return; }
        held.erase(it); note(n, -1); ::operator delete(p, std::align_val_t(a));
    }
    bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
};
template <int MODE> struct pools { // 0: default geometry, 1: small blocks, 2: ledger
    static constexpr bool SMALL = MODE != 0;
    template <class D, class S> using pick = std::conditional_t<MODE == 0, D, std::conditional_t<MODE == 1, S, ledger>>;
    using mono_t = pick<chdr::monotonic_pool<>,     chdr::monotonic_pool<64, ~size_t(0), 512>>;
    using hete_t = pick<chdr::heterogeneous_pool<>, chdr::heterogeneous_pool<64, ~size_t(0), 512>>;
    using homo_t = pick<chdr::homogeneous_pool<>,   chdr::homogeneous_pool<64, ~size_t(0), 512>>;
    std::unique_ptr<mono_t> m; std::unique_ptr<hete_t> he; std::unique_ptr<homo_t> ho;
    pools() {
        if constexpr (SMALL) { m = std::make_unique<mono_t>(256); he = std::make_unique<hete_t>(256, 1); ho = std::make_unique<homo_t>(256, 1); }
        else                 { m = std::make_unique<mono_t>();    he = std::make_unique<hete_t>();       ho = std::make_unique<homo_t>(); }
    }
};

template <class W, class S, class C, bool LAZY, bool NOCLEAN, bool REV, bool OCT, class M, int SMALL>
struct params {
    using weight_type = W; using scalar_type = S; using index_type = typename C::value_type; using coord_type = C;
    using lazy_sorting = std::bool_constant<LAZY>; using no_cleanup = std::bool_constant<NOCLEAN>;
    using reverse_equivalence = std::bool_constant<REV>; using octile_neighbours = std::bool_constant<OCT>;
    const M& maze; const C start; const C end; const C size;
    scalar_type (*h)(const C&, const C&) noexcept;
    typename pools<SMALL>::mono_t* monotonic_pmr; typename pools<SMALL>::hete_t* heterogeneous_pmr; typename pools<SMALL>::homo_t* homogeneous_pmr;
    const S weight = 1; const size_t capacity = 0; const size_t memory_limit = 1000;
};

template <class C> static std::string cs(const C& c) { std::string r = "("; for (size_t i = 0; i < c.size(); ++i) { r += (i ? "," : "") + std::to_string((long long)c[i]); } return r + ")"; }

static void budget(const std::string& what, long limit);
// Which violation kinds this run reports (a property's checks ask for the kinds its statement covers).
static std::string circumstances;
static void flag(const char* kind, const std::string& sig, const std::string& text) { mc::report(kind, sig, text + circumstances); }

// Live nodes of a memory-bounded search: never more than its limit allows (a node is held twice while inserted).
static constexpr long SLACK = 3;
static void budget(const std::string& what, long limit) {
    if (!ledger::wrong.empty()) { flag("memory", "", what + " :: " + ledger::wrong); ledger::wrong.clear(); }
    if (IS_MEM && limit >= 0 && ledger::peak > std::max(limit, 1l) + SLACK) { flag("overrun", "", what + " :: " + std::to_string(ledger::peak) + " nodes alive"); }
    if (IS_MEM && limit >= 0 && limit < 1000) { mc::sh->counters[0] = std::max(mc::sh->counters[0], ledger::peak - limit); mc::sh->counters[1] = std::max(mc::sh->counters[1], ledger::peak); }
    ledger::peak = ledger::live = 0;
}

// Runs a query once per allocation it makes, failing that allocation (alone, or with all that follow), and then again
// without a fault on the same resources. `query` answers over the pools it is given, `judge` checks an answer.
template <int SMALL, class Q, class J> static void inject(const std::string& what, Q&& query, J&& judge) {
    circumstances.reserve(256);
    for (int lasting = 0; lasting < 2; ++lasting) {
        for (long k = 1; k < 4000; ++k) {
            const long before = fault::blocks; bool hit = false;
            circumstances = std::string(" [allocation ") + std::to_string(k) + (lasting ? " and all later ones fail]" : " fails]");
            {
                pools<SMALL> p; auto path = query(p, false); decltype(path) none; bool answered = false; path = none;
                fault::seen = 0; fault::at = k; fault::lasting = lasting; fault::upstream = SMALL != 2; fault::hit = false;
                try { path = query(p, true); answered = true; }
                catch (const std::bad_alloc&) { if (!fault::hit) { fault::armed = false; flag("exception", "", what + " :: bad_alloc although no allocation failed"); } }
                catch (const std::exception& x) { fault::armed = false; flag("exception", "", what + " :: " + x.what()); }
                fault::armed = false; fault::at = -1; hit = fault::hit; mc::sh->transitions++; mc::sh->counters[32] += hit;
                if (hit) {
                    if (answered) { judge(path); }
                    circumstances += " and the query is repeated";
                    if constexpr (SMALL != 2) { p.m->reset(); p.he->reset(); p.ho->reset(); }
                    try { path = query(p, false); judge(path); } catch (const std::exception& x) { flag("exception", "", what + " :: " + x.what()); }
                }
                if (SMALL == 2 && !ledger::wrong.empty()) { flag("memory", "", what + " :: " + ledger::wrong); ledger::wrong.clear(); }
            }
            if (SMALL != 2 && fault::blocks != before) { flag("leak", "", what + " :: " + std::to_string(fault::blocks - before) + " blocks of memory are lost"); }
            circumstances.clear();
            if (!hit) { break; }
        }
    }
}

#if PART == 6
// What a search may look at, given the maze as a net: once per vertex for those that remember where they have been, not
// beyond the goal for those that are led by costs, and every loop-free walk once per bound for iterative deepening.
namespace work {
    struct net { std::vector<std::vector<std::pair<unsigned, double>>> out; std::vector<double> guess[2]; bool undirected = false; unsigned width = 0; std::vector<unsigned> labels; };
    static const bool ONCE = is({"astar","best_first","bfs","dfs","dijkstra","flood","gbest_first","gbfs","gdfs","gstar"}), LED = is({"astar","gstar","fringe"}), LEVELS = is({"bfs","gbfs","flood"});
    static const bool DEPTHS = is({"iddfs","eiddfs"}), SUMS = is({"idastar","eidastar"}), GUESSES = is({"idbest_first","eidbest_first"});
    static std::vector<double> distances(const net& g, unsigned from, bool moves) {
        std::vector<double> d(g.out.size(), 1e18); std::deque<unsigned> q { from }; d[from] = 0;
        while (!q.empty()) { const unsigned b = q.front(); q.pop_front(); for (auto [x, c] : g.out[b]) { const double t = d[b] + (moves ? 1 : c); if (t < d[x] - 1e-9) { d[x] = t; q.push_back(x); } } }
        return d;
    }
    // The loop-free walks from s that end at or before e, by the greatest value on the way to their last vertex.
    static double walks(const net& g, unsigned s, unsigned e, const std::vector<double>& guess) {
        std::vector<double> before; std::set<double> bounds; double last = 1e18; uint64_t on = 0;
        const std::function<void(unsigned, double, double, double)> walk = [&](unsigned v, double depth, double cost, double worst) {
            const double value = DEPTHS ? depth : (GUESSES ? 0 : cost) + guess[v]; before.push_back(worst); bounds.insert(value);
            if (v == e) { last = std::min(last, SUMS ? std::max(worst, value) : worst); return; }
            on |= 1ull << v; for (auto [x, c] : g.out[v]) { if (!(on >> x & 1)) { walk(x, depth + 1, cost + c, std::max(worst, value)); } } on &= ~(1ull << v);
        };
        walk(s, 0, 0, -1); std::sort(before.begin(), before.end()); double sum = 0; const double first = DEPTHS ? 0 : guess[s];
        for (double t : bounds) { if (t >= first && t <= last) { sum += (double)(std::upper_bound(before.begin(), before.end(), t) - before.begin()); } }
        return sum;
    }
    template <class D> static void judge(const net& g, unsigned s, unsigned e, bool unled, const D& describe) {
        const auto N = (unsigned)g.out.size(); auto& x = mc::sh->counters; const auto up = [&](int j, double v) { x[j] = std::max(x[j], (long)v); };
        const auto ds = distances(g, s, false), de = g.undirected ? distances(g, e, false) : ds, ms = distances(g, s, true), me = g.undirected ? distances(g, e, true) : ms;
        long reach = 0, degrees = 0; mc::sh->transitions += total;
        for (unsigned v = 0; v < N; ++v) { reach += ds[v] < 1e17 || de[v] < 1e17; degrees += ds[v] < 1e17 || de[v] < 1e17 ? (long)g.out[v].size() : 0; }
        const auto wrong = [&](const std::string& what) { flag("work", "", describe() + " :: " + what); };
        for (unsigned v = 0; v < N; ++v) {
            const long l = looks[g.labels[v]]; if (l == 0) { continue; } up(0, (double)l); const auto at = std::to_string(g.labels[v]);
            if (ONCE && l > 1) { return wrong("looks around at " + at + " " + std::to_string(l) + " times"); }
            const bool back = g.undirected; const double f = ds[v] + g.guess[0][v], b = back ? de[v] + g.guess[1][v] : f;
            if (LED && !unled && std::min(f, b) > ds[e] + 1e-6) { return wrong("looks around at " + at + ", which no shortest route can lead through"); }
            if (LEVELS && std::min(ms[v], me[v]) > ms[e]) { return wrong("looks around at " + at + ", which is farther away than the goal"); }
        }
        if (IS_JPS) { up(1, (double)total / (double)reach); if (total > 8 * (long)g.width * reach) { return wrong(std::to_string(total) + " looks at " + std::to_string(reach) + " cells"); } }
        if (ONCE || IS_JPS) {
            up(2, (double)(guesses - degrees)); if (guesses > 2 * degrees + 4) { return wrong(std::to_string(guesses) + " estimates for " + std::to_string(degrees) + " moves"); }
            up(3, (double)(ledger::total - degrees)); if (ledger::total > 2 * degrees + 16) { return wrong(std::to_string(ledger::total) + " allocations for " + std::to_string(degrees) + " moves"); }
        }
        if (NAME == "fringe") { // costs are whole numbers, and so every bound is greater than the one before by at least 1
            double costs = 0; for (auto& o : g.out) { for (auto [v, c] : o) { costs += c; } } const double most = (double)reach * (1 + (ds[e] < 1e17 ? ds[e] - std::min(g.guess[0][s], g.undirected ? g.guess[1][e] : 1e18) : costs));
            up(4, (double)total * 100 / most); if ((double)total > most) { return wrong(std::to_string(total) + " looks although " + std::to_string((long)most) + " suffice"); }
        }
        if (DEPTHS || SUMS || GUESSES) {
            const double most = std::max(walks(g, s, e, g.guess[0]), g.undirected && NAME == "eidastar" ? walks(g, e, s, g.guess[1]) : 0);
            up(4, (double)total * 100 / most); if ((double)total > most) { return wrong(std::to_string(total) + " looks although " + std::to_string((long)most) + " suffice"); }
        }
    }
}
#endif

// ---------------------------------------------------------------------------------------------------------
// Grids
// ---------------------------------------------------------------------------------------------------------
template <size_t K, class W, class S, class I, bool LAZY, bool NOCLEAN, bool REV, bool OCT, int SMALL = 0>
struct grid_family {
    using C = chdr::coord<I, K>;
    using G = chdr::mazes::grid<C, W>;
    using P = params<W, S, C, LAZY, NOCLEAN, REV, OCT, G, SMALL>;
    using SV = chdr::solvers::solver<chdr::solvers::SOLVER, P>;

    std::string name; std::array<unsigned, K> dims; unsigned n = 1; C size;
    std::vector<long> variants;      // memory limits / capacities, one per sub-case
    enum vkind { NONE, CAP, MEM } vk = NONE;
    unsigned fixed_s = ~0u;          // restrict the start cell (symmetry), all starts otherwise
    unsigned fixed_e = ~0u;          // restrict the goal
    using scalar = S;
    std::vector<C> far;              // end points beyond those in and next to the grid
    bool oob = false;                // let end points run one cell past the grid on every axis
    unsigned q = 0;                  // number of query positions
    S wt = 1;                        // heuristic weight
    size_t roomy = ~size_t(0);       // memory limits from here on must not degrade the answer
    S (*hf)(const C&, const C&) noexcept = nullptr;
    bool check_opt = true;
    bool styles = false;             // ask in every way there is to ask
    long pat_filter_max = -1;        // only patterns with at most this many obstacles
    std::function<bits(uint64_t)> layout; // obstacles of a pattern (bit i: cell i, by default)
    std::vector<unsigned> ends;      // restrict start and goal to these cells
    struct trip { uint64_t pat; unsigned s, e; }; std::vector<trip> list; // these queries only

    std::vector<std::vector<unsigned>> adj;

    C decode(unsigned i) const { C c{}; for (size_t k = 0; k < K; ++k) { if (k + 1 == K) { c[k] = (I)i; } else { c[k] = (I)(i % dims[k]); i /= dims[k]; } } return c; }
    int index(const C& c) const { long r = 0, m = 1; for (size_t k = 0; k < K; ++k) { if ((long)c[k] < 0 || (unsigned long)c[k] >= dims[k]) { return -1; } r += (long)c[k] * m; m *= dims[k]; } return (int)r; }
    bool near(unsigned a, unsigned b) const { C x = decode(a), y = decode(b); int d = 0, mx = 0; for (size_t k = 0; k < K; ++k) { int t = std::abs((int)x[k] - (int)y[k]); d += t; mx = std::max(mx, t); } return OCT || IS_JPS ? mx == 1 : d == 1; }

    std::vector<uint64_t> pats;

    void prepare() {
        n = 1; for (size_t i = 0; i < K; ++i) { size[i] = (I)dims[i]; n *= dims[i]; }
        q = 1; for (size_t i = 0; i < K; ++i) { q *= dims[i] + (oob ? 1 : 0); }
        q += (unsigned)far.size();
        adj.assign(n, {});
        for (unsigned a = 0; a < n; ++a) { for (unsigned b = 0; b < n; ++b) { if (near(a, b)) { adj[a].push_back(b); } } }
        if (hf == nullptr) { hf = OCT || IS_JPS ? &chdr::heuristics::chebyshev_distance<S, C> : &chdr::heuristics::manhattan_distance<S, C>; }
        if (variants.empty()) { variants = { 0 }; }
        if (!layout) { layout = [](uint64_t p) { return bits(p); }; }
        if (!list.empty() || !pats.empty()) { return; }
        if (pat_filter_max < 0) { for (uint64_t p = 0; p < (1ull << n); ++p) { pats.push_back(p); } return; }
        const std::function<void(uint64_t, unsigned, long)> add = [&](uint64_t p, unsigned from, long left) { pats.push_back(p); if (left > 0) { for (unsigned c = from; c < n; ++c) { add(p | 1ull << c, c + 1, left - 1); } } };
        add(0, 0, pat_filter_max);
    }

    C query(unsigned i) const { if (i >= q - far.size()) { return far[i - (q - far.size())]; } C c{}; for (size_t k = 0; k < K; ++k) { const unsigned d = dims[k] + (oob ? 1 : 0); c[k] = (I)(i % d); i /= d; } return c; }

    struct kase { bits pat; unsigned s, e; C sc, ec; long var; uint64_t key; }; // s, e: cell indices, n if out of bounds
    kase at(long i) const {
        kase k; const long V = (long)variants.size();
        k.var = variants[(size_t)(i % V)]; i /= V;
        if (!list.empty()) { const auto& t = list[(size_t)i]; k.key = t.pat; k.pat = layout(t.pat); k.sc = decode(k.s = t.s); k.ec = decode(k.e = t.e); return k; }
        if (!ends.empty()) {
            const long E = (long)ends.size(); k.e = ends[(size_t)(i % E)]; i /= E; k.s = ends[(size_t)(i % E)]; i /= E;
            k.sc = decode(k.s); k.ec = decode(k.e); k.pat = layout(k.key = pats[(size_t)i]); return k;
        }
        if (fixed_e != ~0u) { k.ec = query(fixed_e); } else { k.ec = query((unsigned)(i % q)); i /= q; }
        if (fixed_s != ~0u) { k.sc = query(fixed_s); } else { k.sc = query((unsigned)(i % q)); i /= q; }
        k.s = index(k.sc) < 0 ? n : (unsigned)index(k.sc); k.e = index(k.ec) < 0 ? n : (unsigned)index(k.ec);
        k.pat = layout(k.key = pats[(size_t)i]);
        return k;
    }
    long total() const { if (!list.empty()) { return (long)(list.size() * variants.size()); } if (!ends.empty()) { return (long)(pats.size() * ends.size() * ends.size() * variants.size()); } return (long)pats.size() * (fixed_s != ~0u ? 1 : (long)q) * (fixed_e != ~0u ? 1 : (long)q) * (long)variants.size(); }

    std::string describe(long i) const {
        auto k = at(i); std::string t = NAME + " " + name + " dims="; for (auto d : dims) { t += std::to_string(d) + "x"; } t.back() = ' ';
        t += "cells="; for (unsigned j = 0; j < n; ++j) { t += k.pat[j] ? '#' : '.'; if (K > 1 && j % dims[0] == dims[0] - 1 && j + 1 < n) { t += '/'; } }
        t += " start=" + cs(k.sc) + " end=" + cs(k.ec);
        if (vk != NONE) { t += (vk == MEM ? " memory_limit=" : " capacity=") + std::to_string(k.var); }
        return t;
    }

    // Can b be entered from a (jump-point movement does not squeeze between two obstacles)?
    bool passable(const bits& pat, unsigned a, unsigned b) const {
        if (pat[a] || pat[b]) { return false; }
        if (IS_JPS) {
            C x = decode(a), y = decode(b);
            if (x[0] != y[0] && x[1] != y[1]) {
                C u = x, v = x; u[0] = y[0]; v[1] = y[1];
                if (pat[(size_t)index(u)] && pat[(size_t)index(v)]) { return false; }
            }
        }
        return true;
    }
    double step(unsigned a, unsigned b) const {
        if (!IS_JPS) { return 1.0; }
        C x = decode(a), y = decode(b);
        return x[0] != y[0] && x[1] != y[1] ? (std::is_integral_v<S> ? 1.0 : std::sqrt(2.0)) : 1.0;
    }
    double reference(const kase& k) const { // distances from a start are kept for the queries that follow
        if (k.s >= n || k.e >= n || k.pat[k.s] || k.pat[k.e]) { return -1.0; }
        static uint64_t at = 0; static unsigned from = ~0u; static const void* whose = nullptr; static std::vector<double> d;
        if (from != k.s || at != k.key || whose != this) {
            at = k.key; from = k.s; whose = this; d.assign(n, 1e18); d[k.s] = 0;
            using E = std::pair<double, unsigned>; static std::vector<E> heap; heap.assign(1, { 0.0, k.s }); const auto later = [](const E& a, const E& b) { return a.first > b.first; };
            while (!heap.empty()) {
                std::pop_heap(heap.begin(), heap.end(), later); const auto [c, b] = heap.back(); heap.pop_back(); if (c > d[b]) { continue; }
                for (auto x : adj[b]) { if (passable(k.pat, b, x)) { const double t = c + step(b, x); if (t < d[x]) { d[x] = t; heap.push_back({ t, x }); std::push_heap(heap.begin(), heap.end(), later); } } }
            }
        }
        return d[k.e] > 1e17 ? -1.0 : d[k.e];
    }

    // Validates one answer; returns a description of what is wrong ("" if nothing).
    void judge(long i, const kase& k, const std::vector<C>& path, double ref, bool may_fail, bool opt) const {
        auto show = [&] { std::string t = describe(i) + " answer="; for (auto& c : path) { t += cs(c); } return t + " reference=" + std::to_string(ref); };
        if (ref < 0) { if (!path.empty()) { flag("ghost", "", show() + " :: route reported although none exists"); } return; }
        mc::sh->nontrivial++;
        if (path.empty()) { if (!may_fail) { flag("missed", "", show() + " :: no route reported although one exists"); } return; }
        mc::sh->transitions += (long)path.size();
        uint64_t h = 1469598103934665603ull; for (auto& c : path) { h = mc::mix(h, (uint64_t)index(c)); } mc::outcome(h);
        if (k.s == k.e || IS_FLOOD) { if (path.size() != 1 || index(path[0]) != (int)k.e) { flag("malformed", "", show() + " :: expected exactly the goal"); } return; }
        const auto cv = conv_of(REV, false);
        std::vector<unsigned> r; 
        for (auto& c : path) { int x = index(c); if (x < 0) { flag("malformed", "", show() + " :: cell outside the grid"); return; } r.push_back((unsigned)x); }
        if (!cv.fwd) { std::reverse(r.begin(), r.end()); }
        if (!cv.s) { r.insert(r.begin(), k.s); }
        if (!cv.e) { r.push_back(k.e); }
        if (r.front() != k.s || r.back() != k.e) { flag("malformed", "", show() + " :: wrong end points or order"); return; }
        std::vector<char> seen(n, 0); double cost = 0;
        for (size_t j = 0; j < r.size(); ++j) {
            if (k.pat[r[j]]) { flag("malformed", "", show() + " :: obstructed cell"); return; }
            if (j > 0) {
                if (!IS_JPS) { if (!near(r[j - 1], r[j])) { flag("malformed", "", show() + " :: cells not adjacent"); return; } cost += 1; }
                else { // straight or diagonal free run
                    C a = decode(r[j - 1]), b = decode(r[j]);
                    int dx = (int)b[0] - (int)a[0], dy = (int)b[1] - (int)a[1];
                    if ((dx == 0 && dy == 0) || (dx != 0 && dy != 0 && std::abs(dx) != std::abs(dy))) { flag("malformed", "", show() + " :: not a straight run"); return; }
                    int sx = (dx > 0) - (dx < 0), sy = (dy > 0) - (dy < 0); unsigned p = r[j - 1];
                    for (int t = 0; t < std::max(std::abs(dx), std::abs(dy)); ++t) {
                        C c = decode(p); c[0] = (I)((int)c[0] + sx); c[1] = (I)((int)c[1] + sy); unsigned nx = (unsigned)index(c);
                        if (!passable(k.pat, p, nx)) { flag("malformed", "", show() + " :: run is obstructed"); return; }
                        cost += step(p, nx); p = nx;
                    }
                }
            }
            if (seen[r[j]]++) { flag("repeat", "", show() + " :: cell visited twice"); return; }
        }
        if (opt && cost > ref * std::max(1.0, (double)wt) + 1e-6) { flag("suboptimal", "", show() + " :: longer than the shortest route"); }
    }

#if PART == 6
    void labour(long i, const kase& k) const {
        if (k.s >= n || k.e >= n || k.pat[k.s] || k.pat[k.e]) { return; }
        work::net g; g.out.resize(n); g.guess[0].resize(n); g.guess[1].resize(n); g.undirected = true; g.width = *std::max_element(dims.begin(), dims.end());
        for (unsigned c = 0; c < n; ++c) { g.guess[0][c] = (double)hf(decode(c), k.ec); g.guess[1][c] = (double)hf(decode(c), k.sc); if (!k.pat[c]) { for (auto x : adj[c]) { if (passable(k.pat, c, x)) { g.out[c].push_back({ x, step(c, x) }); } } } }
        g.labels.resize(n); for (unsigned c = 0; c < n; ++c) { g.labels[c] = c; }
        work::judge(g, k.s, k.e, LAZY || wt > 1, [&] { return describe(i); });
    }
#endif

    void run() {
        prepare();
        mc::explore(name, total(), [this](long i) { return describe(i); }, [this](long i) {
            auto k = at(i);
            std::vector<std::conditional_t<std::is_same_v<W, signed char>, char, W>> cells(n); for (unsigned j = 0; j < n; ++j) { cells[j] = k.pat[j] ? std::numeric_limits<W>::max() : W(0); }
            G g(size, cells);
            pools<SMALL> p;
            const auto asked = [&] {
#if PART == 6
                guess<S, C>::of = hf; work::clear(); ledger::total = 0; return &guess<S, C>::call;
#else
                return hf;
#endif
            };
            P pr { g, k.sc, k.ec, size, asked(), p.m.get(), p.he.get(), p.ho.get(), wt, vk == CAP ? (size_t)k.var : 0u, vk == MEM ? (size_t)k.var : 100000u };
            const double ref = reference(k); if (ref >= 0) { mc::tag("!"); } const char* const threw = ref >= 0 ? "exception!" : "exception";
            std::vector<C> path; 
#if PART == 5
            const long counted = mc::sh->nontrivial;
            inject<SMALL>(describe(i), [&](pools<SMALL>& o, bool arm) {
                P at { g, k.sc, k.ec, size, hf, o.m.get(), o.he.get(), o.ho.get(), wt, 0u, 100000u };
                struct guard { guard(bool a) { fault::armed = a; } ~guard() { fault::armed = false; } } armed(arm); return SV::solve(static_cast<const P&>(at));
            }, [&](const std::vector<C>& r) { judge(i, k, r, ref, false, (OPT_GRID || (IS_JPS && !std::is_integral_v<S>)) && !LAZY); });
            mc::sh->nontrivial = counted + (ref >= 0);
            if (ref > 2 && mc::sh->nsamples < 2) { mc::sample(describe(i)); }
            return;
#endif
            try { path = SV::solve(static_cast<const P&>(pr)); }
            catch (const std::exception& x) { flag(threw, "", describe(i) + " :: " + x.what()); return; }
#if PART == 1
            if (styles) {
                SV asker; std::vector<C> other[5];
                try { other[0] = asker(static_cast<const P&>(pr)); other[1] = asker(pr); other[2] = SV::solve(pr); other[3] = SV::solve(g, k.sc, k.ec, size, hf, p.m.get(), p.he.get(), p.ho.get(), wt, size_t(0), size_t(100000)); other[4] = asker(g, k.sc, k.ec, size, hf, p.m.get(), p.he.get(), p.ho.get(), wt, size_t(0), size_t(100000)); }
                catch (const std::exception& x) { flag(threw, "", describe(i) + " :: asked in another way: " + x.what()); return; }
                for (auto& o : other) { if (o != path) { flag("malformed", "", describe(i) + " :: the answer depends on the way of asking"); return; } }
            }
#endif
            const bool tight = vk == MEM && IS_MEM && (size_t)k.var < roomy;
            if constexpr (SMALL == 2) { budget(describe(i), vk == MEM ? k.var : 100000); }
#if PART == 6
            labour(i, k);
#endif
            judge(i, k, path, ref, tight, check_opt && !tight && (OPT_GRID || (IS_JPS && !std::is_integral_v<S>)) && !LAZY);
            if (ref > 2 && mc::sh->nsamples < 2) { std::string t = describe(i) + " -> "; for (auto& c : path) { t += cs(c); } mc::sample(t); }
        });
    }
};

// ---------------------------------------------------------------------------------------------------------
// Weighted graphs
// ---------------------------------------------------------------------------------------------------------
static unsigned HT[64][64]; // heuristic table: lower bound on the distance between two vertices
static unsigned HDIM = 2; static double HUNIT = 1;
template <class S, class C> S table_h(const C& a, const C& b) noexcept { return (S)(HT[a[0] + a[1] * HDIM][b[0] + b[1] * HDIM] * HUNIT); }

template <class S, bool LAZY, bool REV, int SMALL = 0>
struct graph_family {
    using I = std::conditional_t<PART == 6, unsigned long long, uint32_t>; using C = chdr::coord<I, 2>;
    using G = chdr::mazes::graph<I, S>;
    using P = params<uint32_t, S, C, LAZY, false, REV, false, G, SMALL>;
    using SV = chdr::solvers::solver<chdr::solvers::SOLVER, P>;

    std::string name; unsigned N = 4; bool directed = false; std::vector<int> weights; // -1: no edge
    std::vector<unsigned> caps;       // heuristic = min(true distance, cap)
    std::vector<int> given;           // the weights of the edges, of one graph
    bool check_opt = true;
    bool holes = false;               // caps are sets: heuristic = true distance from the vertices in it, 0 from others (admissible, not consistent)
    bool all_pairs = true; unsigned w = 4, hgt = 1;
    std::vector<long> limits; bool rev_order = false; size_t roomy = ~size_t(0);
    bool loops = false;               // directed: edges from a vertex to itself
    bool stray = false;               // end points may name a vertex the graph does not have
    std::vector<std::pair<unsigned, unsigned>> only; // the vertex pairs that may have an edge (all by default)
    std::vector<unsigned> ids;        // identifiers of the vertices (0, 1, 2, ... by default)
    S wt = 1;
    double unit = 1;                  // what a weight of 1 stands for

    std::vector<std::pair<unsigned, unsigned>> slots;
    long ngraphs = 1;
    void prepare() {
        if (!only.empty()) { slots = only; } else for (unsigned a = 0; a < N; ++a) { for (unsigned b = 0; b < N; ++b) { if (directed ? loops || a != b : a < b) { slots.push_back({ a, b }); } } }
        ngraphs = 1; for (size_t i = 0; i < slots.size(); ++i) { ngraphs *= (long)weights.size(); } if (!given.empty()) { ngraphs = 1; }
        if (limits.empty()) { limits = { 0 }; }
        if (ids.empty()) { for (unsigned a = 0; a < N; ++a) { ids.push_back(a); } }
        if (stray) { unsigned x = 0; while (std::find(ids.begin(), ids.end(), x) != ids.end()) { ++x; } ids.push_back(x); }
    }
    long Q() const { return (long)N + (stray ? 1 : 0); }
    long queries() const { return all_pairs ? Q() * Q() : 1; }
    long total() const { return ngraphs * queries() * (long)caps.size() * (long)limits.size(); }
    struct kase { std::vector<int> ew; unsigned s, e, cap; long limit; };
    kase at(long i) const {
        kase k;
        k.limit = limits[(size_t)(i % (long)limits.size())]; i /= (long)limits.size();
        k.cap = caps[(size_t)(i % (long)caps.size())]; i /= (long)caps.size();
        if (all_pairs) { k.e = (unsigned)(i % Q()); i /= Q(); k.s = (unsigned)(i % Q()); i /= Q(); } else { k.s = 0; k.e = N - 1; }
        if (!given.empty()) { k.ew = given; return k; }
        for (size_t j = 0; j < slots.size(); ++j) { k.ew.push_back(weights[(size_t)(i % (long)weights.size())]); i /= (long)weights.size(); }
        return k;
    }
    std::string describe(long i) const {
        auto k = at(i); std::string t = NAME + " " + name + " vertices=" + std::to_string(N) + (directed ? " directed" : " undirected") + " edges:";
        for (size_t j = 0; j < slots.size(); ++j) { if (k.ew[j] >= 0) { t += " " + std::to_string(ids[slots[j].first]) + (directed ? ">" : "-") + std::to_string(ids[slots[j].second]) + "=" + std::to_string(k.ew[j]); } }
        t += " start=" + std::to_string(ids[k.s]) + " end=" + std::to_string(ids[k.e]) + (holes ? " heuristic=d from vertices in set " + std::to_string(k.cap) + ", 0 from others" : " heuristic=min(d," + std::to_string(k.cap) + ")"); if (unit != 1) { t += " in units of " + std::to_string(unit); }
        if (limits.size() > 1) { t += " memory_limit=" + std::to_string(k.limit); }
        return t;
    }
    void run() {
        prepare();
        mc::explore(name, total(), [this](long i) { return describe(i); }, [this](long i) {
            auto k = at(i);
            const long INF = 1000000; const unsigned X = (unsigned)ids.size();
            std::vector<std::vector<long>> w_(X, std::vector<long>(X, INF)), d;
            for (size_t j = 0; j < slots.size(); ++j) { if (k.ew[j] >= 0) { w_[slots[j].first][slots[j].second] = k.ew[j]; if (!directed) { w_[slots[j].second][slots[j].first] = k.ew[j]; } } }
            d = w_; for (unsigned a = 0; a < N; ++a) { d[a][a] = 0; } auto id = [&](unsigned v) { return ids[v]; };
            for (unsigned m = 0; m < N; ++m) { for (unsigned a = 0; a < N; ++a) { for (unsigned b = 0; b < N; ++b) { d[a][b] = std::min(d[a][b], d[a][m] + d[m][b]); } } }
            HDIM = w; HUNIT = unit;
            const bool reachable = d[k.s][k.e] < INF; if (reachable) { mc::tag("!"); } const char* const threw = reachable ? "exception!" : "exception";
            for (unsigned a = 0; a < N; ++a) { for (unsigned b = 0; b < N; ++b) { HT[id(a)][id(b)] = (unsigned)(holes ? (k.cap >> a & 1 ? d[a][b] : 0) : std::min<long>(d[a][b], k.cap)); } }
            G g; for (unsigned a = 0; a < N; ++a) { g.add(id(a)); }
            for (unsigned a = 0; a < N; ++a) { for (unsigned t = 0; t < N; ++t) { unsigned b = rev_order ? N - 1 - t : t; if (w_[a][b] < INF) { g.add(id(a), std::make_pair((I)id(b), (S)((double)w_[a][b] * unit))); } } }
            pools<SMALL> p; auto nd = [&](unsigned x) { return C { id(x) % w, id(x) / w }; };
#if PART == 6
            const auto asked = &guess<S, C>::call; guess<S, C>::of = &table_h<S, C>; work::clear(); ledger::total = 0;
#else
            const auto asked = &table_h<S, C>;
#endif
            P pr { g, nd(k.s), nd(k.e), C { w, hgt }, asked, p.m.get(), p.he.get(), p.ho.get(), wt, 0u, limits.size() > 1 ? (size_t)k.limit : 100000u };
            const auto judge = [&](const std::vector<C>& path, bool tight) {
                auto show = [&] { std::string t = describe(i) + " answer="; for (auto& c : path) { t += std::to_string(c[0] + c[1] * w) + " "; } return t + "shortest=" + std::to_string(d[k.s][k.e]); };
                if (d[k.s][k.e] >= INF) { if (!path.empty()) { flag("ghost", "", show() + " :: route reported although none exists"); } return; }
                mc::sh->nontrivial++;
                if (path.empty()) { if (!tight) { flag("missed", "", show() + " :: no route reported although one exists"); } return; }
                mc::sh->transitions += (long)path.size();
                if (k.s != k.e && mc::sh->nsamples < 2) { mc::sample(show()); }
                std::vector<unsigned> r; uint64_t h = 1469598103934665603ull;
                for (auto& c : path) {
                    const auto it = std::find(ids.begin(), ids.begin() + N, c[0] + c[1] * w);
                    if (c[0] >= w || c[1] >= hgt || it == ids.begin() + N) { flag("malformed", "", show() + " :: unknown vertex"); return; }
                    r.push_back((unsigned)(it - ids.begin())); h = mc::mix(h, r.back());
                }
                mc::outcome(h);
                if (k.s == k.e || IS_FLOOD) { if (r.size() != 1 || r[0] != k.e) { flag("malformed", "", show() + " :: expected exactly the goal"); } return; }
                const auto cv = conv_of(REV, true);
                if (!cv.fwd) { std::reverse(r.begin(), r.end()); }
                if (!cv.s) { r.insert(r.begin(), k.s); }
                if (!cv.e) { r.push_back(k.e); }
                if (r.front() != k.s || r.back() != k.e) { flag("malformed", "", show() + " :: wrong end points or order"); return; }
                long cost = 0; std::vector<char> seen(N, 0);
                for (size_t j = 0; j < r.size(); ++j) {
                    if (j > 0) { if (w_[r[j - 1]][r[j]] >= INF) { flag("malformed", "", show() + " :: missing edge"); return; } cost += w_[r[j - 1]][r[j]]; }
                    if (seen[r[j]]++) { flag("repeat", "", show() + " :: vertex visited twice"); return; }
                }
                if (OPT_GRAPH && check_opt && !tight && !LAZY && cost > d[k.s][k.e] * std::max<long>(1, (long)wt)) { flag("suboptimal", "", show() + " cost=" + std::to_string(cost)); }
            };
#if PART == 5
            const long counted = mc::sh->nontrivial;
            inject<SMALL>(describe(i), [&](pools<SMALL>& o, bool arm) {
                P at { g, nd(k.s), nd(k.e), C { w, hgt }, &table_h<S, C>, o.m.get(), o.he.get(), o.ho.get(), wt, 0u, 100000u };
                struct guard { guard(bool a) { fault::armed = a; } ~guard() { fault::armed = false; } } armed(arm); return SV::solve(static_cast<const P&>(at));
            }, [&](const std::vector<C>& r) { judge(r, false); });
            mc::sh->nontrivial = counted + (d[k.s][k.e] < INF); return;
#endif
            std::vector<C> path;
            try { path = SV::solve(static_cast<const P&>(pr)); }
            catch (const std::exception& x) { flag(threw, "", describe(i) + " :: " + x.what()); return; }
            const bool tight = limits.size() > 1 && IS_MEM && (size_t)k.limit < roomy;
            if constexpr (SMALL == 2) { budget(describe(i), limits.size() > 1 ? k.limit : 100000); }
#if PART == 6
            if (k.s < N && k.e < N) {
                work::net net; net.labels = ids; net.out.resize(N); net.guess[0].resize(N);
                for (unsigned a = 0; a < N; ++a) { net.guess[0][a] = HT[id(a)][id(k.e)]; for (unsigned b = 0; b < N; ++b) { if (w_[a][b] < INF) { net.out[a].push_back({ b, (double)w_[a][b] }); } } }
                work::judge(net, k.s, k.e, LAZY || wt > 1, [&] { return describe(i); });
            }
#endif
            judge(path, tight);
        });
    }
};

// A hub with many leaves, one of which leads on to the goal: the only route is known whatever the search.
template <bool REV, int SMALL> struct star_family {
    using I = uint32_t; using C = chdr::coord<I, 2>; using G = chdr::mazes::graph<I, I>;
    using P = params<uint32_t, I, C, false, false, REV, false, G, SMALL>; using SV = chdr::solvers::solver<chdr::solvers::SOLVER, P>;
    static void run(const char* name, std::vector<unsigned> sizes, std::vector<unsigned> tails = { 1, 3 }) {
        struct kase { unsigned n, leaf, tail, query; }; std::vector<kase> all; // tail: vertices behind the leaf
        for (unsigned n : sizes) { std::set<unsigned> at { 1, (n + 1) / 2, n }; for (unsigned leaf : at) { for (unsigned tail : tails) { for (unsigned q = 0; q < 3; ++q) { all.push_back({ n, leaf, tail, q }); } } } }
        const auto desc = [&](long i) { const auto& k = all[(size_t)i]; return NAME + " " + name + " hub with " + std::to_string(k.n) + " leaves, " + std::to_string(k.tail) + " more vertices behind leaf " + std::to_string(k.leaf) + (k.query == 0 ? ", from the hub to their end" : k.query == 1 ? ", from their end to the hub" : ", from the last leaf to their end"); };
        mc::explore(name, (long)all.size(), desc, [&](long i) {
            mc::tag("!"); const auto& k = all[(size_t)i]; const unsigned N = 1 + k.n + k.tail; G g; for (unsigned v = 0; v < N; ++v) { g.add(v); }
            const auto link = [&](unsigned a, unsigned b) { g.add(a, { b, 1 }); g.add(b, { a, 1 }); };
            for (unsigned v = 1; v <= k.n; ++v) { link(0, v); } for (unsigned t = 0; t < k.tail; ++t) { link(t == 0 ? k.leaf : k.n + t, k.n + 1 + t); }
            std::vector<unsigned> want; for (unsigned t = k.tail; t > 0; --t) { want.push_back(k.n + t); } want.push_back(k.leaf); want.push_back(0); // from the end to the hub
            if (k.query != 1) { std::reverse(want.begin(), want.end()); } if (k.query == 2) { if (k.leaf == k.n) { want.erase(want.begin()); } else { want.insert(want.begin(), k.n); } }
            pools<SMALL> p; P pr { g, C { want.front(), 0 }, C { want.back(), 0 }, C { N, 1 }, [](const C&, const C&) noexcept -> I { return 0; }, p.m.get(), p.he.get(), p.ho.get(), 1, 0u, 1000000u };
            std::vector<C> path; try { path = SV::solve(static_cast<const P&>(pr)); } catch (const std::exception& x) { flag("exception!", "", desc(i) + " :: " + x.what()); return; }
            if constexpr (SMALL == 2) { budget(desc(i), 1000000); }
            std::vector<unsigned> got; for (auto& c : path) { got.push_back(c[0] + c[1] * N); } mc::sh->nontrivial++; mc::sh->transitions += k.n; mc::outcome(mc::mix(k.n * 64 + k.tail * 8 + k.query, k.leaf));
            const auto cv = conv_of(REV, true); if (IS_FLOOD) { want = { want.back() }; } else { if (!cv.e) { want.pop_back(); } if (!cv.s) { want.erase(want.begin()); } if (!cv.fwd) { std::reverse(want.begin(), want.end()); } }
            if (got != want) { std::string t; for (size_t j = 0; j < got.size() && j < 12; ++j) { t += " " + std::to_string(got[j]); } flag(got.empty() ? "missed" : "malformed", "", desc(i) + " :: answer" + t); }
        });
    }
};

// A lane of many cells along one axis: again the only route is known.
template <class W, class S, bool REV, bool OCT, int SMALL> struct lane_family {
    using I = uint32_t; using C = chdr::coord<I, 2>; using G = chdr::mazes::grid<C, W>;
    using P = params<W, S, C, false, false, REV, OCT, G, SMALL>; using SV = chdr::solvers::solver<chdr::solvers::SOLVER, P>;
    static void run(const char* name, std::vector<unsigned> lengths) {
        struct kase { unsigned n, axis, query; }; std::vector<kase> all; for (unsigned n : lengths) { for (unsigned a = 0; a < 2; ++a) { for (unsigned q = 0; q < 4; ++q) { all.push_back({ n, a, q }); } } }
        const auto ends = [](const kase& k) { const unsigned z = k.n - 1; return k.query == 0 ? std::make_pair(0u, z) : k.query == 1 ? std::make_pair(z, 0u) : k.query == 2 ? std::make_pair(z / 2, z) : std::make_pair(z, z / 3); };
        const auto desc = [&](long i) { const auto& k = all[(size_t)i]; return NAME + " " + name + " lane of " + std::to_string(k.n) + " cells along axis " + std::to_string(k.axis) + " from cell " + std::to_string(ends(k).first) + " to " + std::to_string(ends(k).second); };
        mc::explore(name, (long)all.size(), desc, [&](long i) {
            mc::tag("!"); const auto& k = all[(size_t)i]; const auto [s, e] = ends(k); const auto at = [&](unsigned x) { return k.axis ? C { 0, x } : C { x, 0 }; }; const C size = k.axis ? C { 1, k.n } : C { k.n, 1 };
            G g(size, std::vector<W>(k.n)); pools<SMALL> p; P pr { g, at(s), at(e), size, &chdr::heuristics::chebyshev_distance<S, C>, p.m.get(), p.he.get(), p.ho.get(), 1, 0u, 1000000u };
            std::vector<C> path; try { path = SV::solve(static_cast<const P&>(pr)); } catch (const std::exception& x) { flag("exception!", "", desc(i) + " :: " + x.what()); return; }
            mc::sh->nontrivial++; mc::sh->transitions += k.n; mc::outcome(mc::mix(k.n * 64 + k.axis * 8 + k.query, path.size()));
            if (IS_JPS) { if (path.size() != 1 || path[0] != at(conv_of(REV, false).s ? s : e)) { flag(path.empty() ? "missed" : "malformed", "", desc(i) + " :: answer of " + std::to_string(path.size()) + " cells"); } return; }
            std::vector<unsigned> want; for (unsigned x = s;; x += s < e ? 1 : -1) { want.push_back(x); if (x == e) { break; } }
            const auto cv = conv_of(REV, false); if (IS_FLOOD) { want = { want.back() }; } else { if (!cv.e) { want.pop_back(); } if (!cv.s) { want.erase(want.begin()); } if (!cv.fwd) { std::reverse(want.begin(), want.end()); } }
            bool ok = want.size() == path.size(); for (size_t j = 0; ok && j < want.size(); ++j) { ok = path[j] == at(want[j]); }
            if (!ok) { flag(path.empty() ? "missed" : "malformed", "", desc(i) + " :: answer of " + std::to_string(path.size()) + " cells"); }
        });
    }
};

#include "families.hpp"

int main(int argc, char** argv) { mc::init(argc, argv); families(); return 0; }
