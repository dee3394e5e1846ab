// The bounded spaces: PART 1 grids, 2 graphs, 3 memory limits, 4 memory safety (small pools, sanitizers), 5 faults.
#ifndef PART
#define PART 1
#endif

template <class F, class D, class G> static void go(const char* name, D dims, G&& tweak) {
    F f; f.name = name; f.dims = dims; tweak(f); f.run();
}
template <class F, class D> static void go(const char* name, D dims) { go<F>(name, dims, [](F&) {}); }

// Mazes of rooms: cells whose coordinates are all even are rooms, the cells between two rooms are walls that may be there
// or not, and all other cells are obstructed. A pattern's bits tell which walls are missing.
template <size_t K> struct lattice {
    std::array<unsigned, K> dims; unsigned n = 1; std::vector<unsigned> rooms; bits solid;
    struct wall { unsigned cell, a, b; }; std::vector<wall> walls; // a and b: numbers of the rooms on either side
    explicit lattice(std::array<unsigned, K> count) {
        for (size_t k = 0; k < K; ++k) { dims[k] = count[k] * 2 - 1; n *= dims[k]; }
        const auto at = [&](unsigned i) { std::array<unsigned, K> c; for (size_t k = 0; k < K; ++k) { c[k] = i % dims[k]; i /= dims[k]; } return c; };
        std::map<unsigned, unsigned> number;
        for (unsigned i = 0; i < n; ++i) { auto c = at(i); unsigned odd = 0; for (auto x : c) { odd += x % 2; } solid[i] = odd != 0; if (odd == 0) { number[i] = (unsigned)rooms.size(); rooms.push_back(i); } }
        for (unsigned i = 0; i < n; ++i) { auto c = at(i); unsigned odd = 0, axis = 0, stride = 1, m = 1; for (size_t k = 0; k < K; ++k) { if (c[k] % 2) { ++odd; stride = m; } m *= dims[k]; } (void)axis; if (odd == 1) { walls.push_back({ i, number[i - stride], number[i + stride] }); } }
    }
    std::function<bits(uint64_t)> layout() const { return [this](uint64_t p) { bits b = solid; for (size_t w = 0; w < walls.size(); ++w) { if (p >> w & 1) { b[walls[w].cell] = false; } } return b; }; }
    std::vector<uint64_t> perfect() const { // every maze with exactly one way between any two rooms
        std::vector<uint64_t> r; std::vector<unsigned> group(rooms.size()); for (unsigned i = 0; i < group.size(); ++i) { group[i] = i; }
        const std::function<void(size_t, uint64_t, size_t, std::vector<unsigned>)> grow = [&](size_t w, uint64_t p, size_t left, std::vector<unsigned> g) {
            if (left == 0) { r.push_back(p); return; } if (walls.size() - w < left) { return; }
            if (g[walls[w].a] != g[walls[w].b]) { auto h = g; const unsigned from = h[walls[w].a], to = h[walls[w].b]; for (auto& x : h) { if (x == from) { x = to; } } grow(w + 1, p | 1ull << w, left - 1, h); }
            grow(w + 1, p, left, std::move(g));
        };
        grow(0, 0, rooms.size() - 1, group); return r;
    }
    template <class F> void set(F& f) const { f.dims = dims; f.layout = layout(); f.ends = rooms; }
};
template <size_t K> static std::vector<uint64_t> all_of(const lattice<K>& l) { std::vector<uint64_t> r; for (uint64_t p = 0; p < 1ull << l.walls.size(); ++p) { r.push_back(p); } return r; }
// A corridor that winds through the rows of a grid of the given width: pattern k frees its first k cells.
template <class F> static void serpent(F& f, unsigned width, std::vector<unsigned> lengths) {
    std::vector<unsigned> path; for (unsigned y = 0; path.size() <= lengths.back() + width; y += 2) { for (unsigned t = 0; t < width; ++t) { path.push_back(y * width + (y % 4 ? width - 1 - t : t)); } path.push_back((y + 1) * width + (y % 4 ? 0 : width - 1)); }
    unsigned rows = 0; for (unsigned i = 0; i < lengths.back(); ++i) { rows = std::max(rows, path[i] / width + 1); }
    f.dims[0] = width; f.dims[1] = rows; const unsigned n = width * rows;
    f.layout = [path, n](uint64_t k) { bits b; for (unsigned i = 0; i < n; ++i) { b[i] = true; } for (unsigned i = 0; i < k; ++i) { b[path[i]] = false; } return b; };
    for (unsigned k : lengths) { const unsigned last = path[k - 1]; f.list.push_back({ k, path[0], last }); f.list.push_back({ k, last, path[0] }); f.list.push_back({ k, path[k / 2], last }); f.list.push_back({ k, last, path[k] < n ? path[k] : path[k + 1 - 2] }); }
}
static std::vector<unsigned> span(unsigned lo, unsigned hi) { std::vector<unsigned> v; for (unsigned i = lo; i <= hi; ++i) { v.push_back(i); } return v; }

// End points far outside a grid, each component at a limit of its type or such that sums and products wrap around.
template <class F> static void remote(F& f) {
    using C = typename F::C; using I = typename C::value_type; constexpr size_t K = std::tuple_size_v<C>; constexpr I lo = std::numeric_limits<I>::min(), hi = std::numeric_limits<I>::max();
    const std::vector<I> v { lo, hi, I(hi / 2), I(hi - 1), I(lo + 1), I(hi / 2 + 1) };
    for (I x : v) { C c; c.fill(x); if (f.index(c) < 0) { f.far.push_back(c); } for (size_t k = 0; k < K; ++k) { for (I y : { I(0), I(1) }) { C d; d.fill(y); d[k] = x; if (f.index(d) < 0) { f.far.push_back(d); } } } }
}

// A square that is open but for at most one obstacle, between its corners and its centre.
template <class F> static void open_square(F& f, unsigned n) {
    f.dims = { n, n }; f.layout = [](uint64_t p) { bits b; if (p) { b[p - 1] = true; } return b; }; for (uint64_t p = 0; p <= n * n; ++p) { f.pats.push_back(p); }
    f.ends = { 0, n - 1, n * (n - 1), n * n - 1, n * n / 2 };
}
static const bool REVISITS = is({ "idastar", "eidastar", "smastar", "osmastar", "dijkstra" }); // optimal with every admissible heuristic
static const bool DEEPENS = is({ "idastar", "eidastar", "iddfs", "eiddfs", "idbest_first", "eidbest_first" });

static void families() {
    using U = uint32_t; using Z = size_t;
    const bool T = mc::thorough();
    (void)T;

#if PART == 1
    constexpr bool J = IS_JPS_;
    lane_family<char, std::conditional_t<J, double, U>, true, J, 0>::run("lanes", is({ "iddfs", "eiddfs" }) ? std::vector<unsigned> { 400 } : DEEPENS || IS_MEM ? std::vector<unsigned> { 400, 5000 } : std::vector<unsigned> { 400, 70000, 300000 });
    using D2 = std::array<unsigned, 2>; using D3 = std::array<unsigned, 3>; using D4 = std::array<unsigned, 4>; using D5 = std::array<unsigned, 5>;
    using A = grid_family<2, char, U, U, false, false, true, J>;
    using B = grid_family<2, char, U, U, false, false, false, J>;
    go<A>("2d", D2{3, 3});
    go<B>("2d-norev", D2{3, 3});
    go<A>("2d-wide", D2{4, 2});
    go<B>("2d-norev-tall", D2{2, 4});
    go<A>("2d-h0", D2{3, 2}, [](auto& f) { f.styles = true; f.hf = [](const auto&, const auto&) noexcept -> U { return 0; }; });
    go<B>("2d-norev-h0", D2{2, 3}, [](auto& f) { f.styles = true; f.hf = [](const auto&, const auto&) noexcept -> U { return 0; }; });
    go<A>("2d-outside", D2{2, 3}, [](auto& f) { f.oob = true; });
    go<A>("2d-remote", D2{2, 3}, [](auto& f) { remote(f); });
    go<grid_family<2, bool, double, int32_t, false, false, false, J>>("2d-remote-signed", D2{3, 2}, [](auto& f) { remote(f); });
    go<grid_family<2, uint8_t, U, int8_t, false, false, true, J>>("2d-remote-narrow", D2{3, 1}, [](auto& f) { remote(f); });
    go<A>("2d-capacity", D2{3, 2}, [](auto& f) { f.vk = f.CAP; f.variants = {1, 2, 5, 64}; });
    go<A>("2d-weight3", D2{3, 3}, [](auto& f) { f.wt = 3; });
    go<grid_family<2, bool, U, U, false, false, true, J>>("2d-bits", D2{3, 3});
    go<grid_family<2, char, U, U, true, false, true, J>>("2d-lazy", D2{3, 3});
    go<grid_family<2, int32_t, double, int32_t, false, false, true, J>>("2d-double", D2{3, 3}, [](auto& f) { f.hf = &chdr::heuristics::euclidean_distance<double, chdr::coord<int32_t, 2>>; });
    // Heuristics that are admissible but not consistent.
    const auto uneven = [](auto& f) {
        f.hf = [](const auto& a, const auto& b) noexcept { using F = std::decay_t<decltype(f)>; using X = typename F::scalar; return (a[0] + 2 * a[1]) % 3 == 1 ? X(0) : J ? chdr::heuristics::octile_distance<X, typename F::C>(a, b) : chdr::heuristics::manhattan_distance<X, typename F::C>(a, b); };
        f.check_opt = REVISITS;
    };
    if constexpr (!J) { go<A>("2d-uneven", D2{3, 3}, uneven); go<B>("2d-uneven-norev", D2{4, 2}, uneven); if (T) { go<B>("2d-uneven-43", D2{4, 3}, uneven); } }
    else {
        using O = grid_family<2, bool, double, U, false, false, true, true>;
        go<O>("2d-uneven", D2{3, 3}, uneven); if (T) { go<O>("2d-uneven-sparse", D2{6, 5}, [&](auto& f) { uneven(f); f.pat_filter_max = 3; }); }
        go<O>("2d-uneven-once", D2{6, 5}, [&](auto& f) { uneven(f); f.check_opt = true; f.list = { { 0x203, 6, 5 }, { 0x203, 7, 5 } }; }); // recorded as findings
    }
    if constexpr (!J) {
        { static const lattice<2> l({ 3, 3 }); go<A>("2d-rooms", l.dims, [](auto& f) { l.set(f); f.pats = all_of(l); }); }
        { static const lattice<2> l({ 4, 3 }); go<B>("2d-mazes", l.dims, [&](auto& f) { l.set(f); f.pats = l.perfect(); }); }
        go<A>("2d-corridors", D2{17, 1}, [](auto& f) { serpent(f, 17, span(2, 300)); });
        if (!DEEPENS) { go<B>("2d-open", D2{17, 17}, [](auto& f) { open_square(f, 17); }); }
        go<A>("2d-sparse", D2{5, 5}, [&](auto& f) { f.fixed_s = 0; f.pat_filter_max = 3; f.fixed_e = 24; });
        go<A>("2d-sparse-back", D2{5, 5}, [&](auto& f) { f.fixed_s = 24; f.pat_filter_max = 3; f.fixed_e = 5; });
        if (T) {
            { static const lattice<2> l({ 4, 4 }); go<A>("2d-mazes-16", l.dims, [](auto& f) { l.set(f); f.pats = l.perfect(); f.ends = { f.ends[0], f.ends[5], f.ends[15] }; }); }
            { static const lattice<2> l({ 4, 3 }); go<A>("2d-rooms-12", l.dims, [](auto& f) { l.set(f); f.pats = all_of(l); f.ends = { f.ends[0], f.ends[5], f.ends[11] }; }); }
        }
    }
    if constexpr (J) {
        go<A>("2d-corridors", D2{17, 1}, [](auto& f) { serpent(f, 17, span(2, 300)); });
        { static const lattice<2> l({ 3, 3 }); go<A>("2d-rooms", l.dims, [](auto& f) { l.set(f); f.pats = all_of(l); }); }
        using V = grid_family<2, char, double, U, false, false, false, true>;
        go<V>("2d-octileh", D2{3, 3}, [](auto& f) { f.hf = &chdr::heuristics::octile_distance<double, chdr::coord<U, 2>>; });
        go<V>("2d-wide-h0", D2{5, 2}, [](auto& f) { f.hf = [](const auto&, const auto&) noexcept -> double { return 0; }; });
        go<V>("2d-open", D2{17, 17}, [](auto& f) { f.hf = &chdr::heuristics::octile_distance<double, chdr::coord<U, 2>>; open_square(f, 17); });
        go<grid_family<2, bool, double, U, false, false, true, true>>("2d-43", D2{4, 3});
        go<V>("2d-sparse-65", D2{6, 5}, [](auto& f) { f.pat_filter_max = 3; f.hf = &chdr::heuristics::octile_distance<double, chdr::coord<U, 2>>; });
        go<V>("2d-sparse-28", D2{2, 8}, [](auto& f) { f.pat_filter_max = 5; f.hf = &chdr::heuristics::octile_distance<double, chdr::coord<U, 2>>; });
        go<grid_family<2, bool, double, U, false, false, true, true>>("2d-sparse-92", D2{9, 2}, [](auto& f) { f.pat_filter_max = 4; f.hf = &chdr::heuristics::octile_distance<double, chdr::coord<U, 2>>; });
        if (T) {
            go<V>("2d-44", D2{4, 4}, [](auto& f) { f.hf = &chdr::heuristics::octile_distance<double, chdr::coord<U, 2>>; });
            go<V>("2d-sparse-77", D2{7, 7}, [](auto& f) { f.pat_filter_max = 3; f.hf = &chdr::heuristics::octile_distance<double, chdr::coord<U, 2>>; });
            go<V>("2d-53", D2{5, 3}, [](auto& f) { f.hf = &chdr::heuristics::octile_distance<double, chdr::coord<U, 2>>; });
        }
    }
    go<grid_family<2, uint8_t, int32_t, uint8_t, false, false, false, J>>("2d-narrow", D2{3, 3});
    if constexpr (!J) {
        using E = grid_family<1, char, U, Z, false, false, true, false>;
        using F = grid_family<3, char, U, U, false, false, true, false>;
        using H = grid_family<4, char, U, U, false, false, true, false>;
        using O = grid_family<2, char, U, U, false, false, true, true>;
        go<E>("1d", std::array<unsigned, 1>{6});
        go<E>("1d-outside", std::array<unsigned, 1>{4}, [](auto& f) { f.oob = true; });
        go<F>("3d", D3{2, 2, 2});
        go<F>("3d-flat", D3{3, 2, 1});
        go<F>("3d-deep", D3{1, 2, 4});
        go<grid_family<3, bool, U, U, false, false, false, false>>("3d-bits", D3{1, 2, 3});
        go<grid_family<3, bool, U, U, false, false, false, false>>("3d-bits-322", D3{3, 2, 2});
        { static const lattice<3> l({ 2, 2, 2 }); go<F>("3d-rooms", l.dims, [](auto& f) { l.set(f); f.pats = all_of(l); }); }
        go<grid_family<3, char, U, int16_t, false, false, true, false>>("3d-remote", D3{2, 2, 1}, [](auto& f) { remote(f); });
        go<F>("3d-outside", D3{2, 1, 2}, [](auto& f) { f.oob = true; });
        go<H>("4d", D4{2, 1, 2, 2});
        go<H>("4d-long", D4{1, 3, 1, 2});
        go<grid_family<5, char, U, Z, false, false, true, false>>("5d", D5{2, 1, 2, 1, 2});
        go<grid_family<5, char, U, Z, false, false, true, false>>("5d-long", D5{1, 2, 1, 3, 1});
        go<O>("2d-octile", D2{3, 3});
        go<grid_family<3, bool, U, U, false, false, true, true>>("3d-octile", D3{2, 2, 2});
        if (T) {
            go<F>("3d-232", D3{2, 3, 2});
            go<H>("4d-2222", D4{2, 2, 2, 2}, [](auto& f) { f.fixed_s = 0; });
            go<O>("2d-octile-43", D2{4, 3});
            go<E>("1d-11", std::array<unsigned, 1>{11});
        }
    }
    if (T) {
        go<A>("2d-43", D2{4, 3});
        go<B>("2d-norev-34", D2{3, 4});
        go<A>("2d-44", D2{4, 4}, [](auto& f) { f.fixed_s = 0; });
        go<A>("2d-44-inner", D2{4, 4}, [](auto& f) { f.fixed_s = 5; });
        go<A>("2d-62", D2{6, 2});
    }
#elif PART == 2
    using A = graph_family<U, false, true>;
    using B = graph_family<U, false, false>;
    const auto graph = [](auto f, const char* name, unsigned n, std::vector<int> ws, std::vector<unsigned> caps, auto&& tweak) {
        f.name = name; f.N = n; f.weights = std::move(ws); f.caps = std::move(caps); f.w = n; f.hgt = 1; tweak(f); f.run();
    };
    const auto ladder = [](unsigned across, unsigned down) { std::vector<std::pair<unsigned, unsigned>> e; for (unsigned v = 0; v < across * down; ++v) { if (v % across + 1 < across) { e.push_back({ v, v + 1 }); } if (v + across < across * down) { e.push_back({ v, v + across }); } } return e; };
    constexpr bool DIRECTED = std::string_view(STR(SOLVER)) != "dijkstra"; // documented: undirected graphs only
    const auto none = [](auto&) {};
    const auto square = [](auto& f) { f.w = 2; f.hgt = 2; };
    graph(A{}, "4", 4, {-1, 1, 2, 5}, {0, 2, 100}, square);
    graph(B{}, "4-norev", 4, {-1, 1, 2, 5}, {0, 100}, none);
    graph(A{}, "4-zero", 4, {-1, 0, 1, 3}, {0, 100}, none);
    graph(B{}, "3-zero-norev", 3, {-1, 0, 2}, {0, 100}, none);
    graph(A{}, "3-sparse", 3, {-1, 1, 4}, {0, 100}, [](auto& f) { f.ids = {0, 2, 5}; f.stray = true; f.w = 3; f.hgt = 2; });
    graph(graph_family<double, false, true>{}, "4-double", 4, {-1, 1, 3}, {0, 100}, none);
    graph(graph_family<double, false, false>{}, "4-fractions", 4, {-1, 1, 3, 4}, {0, 2, 100}, [](auto& f) { f.unit = 0.125; });
    graph(graph_family<double, false, true>{}, "4-tenths", 4, {-1, 1, 2, 7}, {0, 100}, [](auto& f) { f.unit = 0.1; });
    graph(graph_family<float, false, true>{}, "ladder-6-tenths", 6, {-1, 1, 2}, {0, 100}, [&](auto& f) { f.unit = 0.1; f.only = ladder(3, 2); });
    graph(A{}, "4-large", 4, {-1, 1, 255, 65536}, {0, 1000000}, none);
    graph(graph_family<U, true, true>{}, "4-lazy", 4, {-1, 1, 3}, {0, 100}, none);
    graph(A{}, "4-weight3", 4, {-1, 1, 3}, {1, 100}, [](auto& f) { f.wt = 3; });
    // Heuristics that are admissible but not consistent: searches that never look at a vertex again may return costlier routes
    // (recorded for one graph; elsewhere they are only asked for a route).
    const auto sets = [](unsigned n) { std::vector<unsigned> v; for (unsigned i = 0; i < 1u << n; ++i) { v.push_back(i); } return v; };
    graph(A{}, "4-uneven", 4, {-1, 1, 2, 5}, sets(4), [](auto& f) { f.holes = true; f.all_pairs = false; f.check_opt = REVISITS; });
    graph(B{}, "5-uneven", 5, {-1, 1, 4}, {1, 2, 4, 8, 6, 10, 12, 14}, [](auto& f) { f.holes = true; f.all_pairs = false; f.check_opt = REVISITS; });
    if (!REVISITS && OPT_GRAPH) { graph(A{}, "uneven-once", 4, {}, {4, 5, 12, 13}, [](auto& f) { f.holes = true; f.all_pairs = false; f.only = { { 0, 1 }, { 0, 2 }, { 1, 2 }, { 1, 3 } }; f.given = { 5, 2, 2, 2 }; }); }
    if constexpr (DIRECTED) {
        graph(A{}, "4-directed", 4, {-1, 1, 3}, {0}, [](auto& f) { f.directed = true; f.all_pairs = false; });
        graph(B{}, "3-directed-norev", 3, {-1, 1, 3}, {0, 100}, [](auto& f) { f.directed = true; });
        graph(A{}, "3-directed-loops", 3, {-1, 0, 2}, {0, 100}, [](auto& f) { f.directed = true; f.loops = true; f.all_pairs = false; });
    }
    graph(A{}, "ladder-6", 6, {-1, 1, 2, 5}, {0, 100}, [&](auto& f) { f.only = ladder(3, 2); f.all_pairs = false; });
    graph(A{}, "ladder-6-unit", 6, {-1, 0, 2}, {3}, [&](auto& f) { f.only = ladder(2, 3); });
    graph(B{}, "5-unit", 5, {-1, 1}, {0, 100}, none);
    graph(A{}, "9-lattice", 9, {1, 4}, {0, 5, 100}, [&](auto& f) { f.only = ladder(3, 3); f.all_pairs = false; });
    if (!DEEPENS && !IS_MEM) { star_family<true, 0>::run("chains", { 2 }, { 100000 }); }
    star_family<true, 0>::run("stars", { 1, 2, 3, 8, 64, 300 }, { 1, 3, 60, 300 });
    star_family<false, 0>::run("stars-norev", { 1, 5, 256 }, { 2, 255 });
    if (T) {
        graph(B{}, "9-lattice-holes", 9, {-1, 1, 4}, {0, 100}, [&](auto& f) { f.only = ladder(3, 3); f.all_pairs = false; });
        graph(A{}, "4-rich", 4, {-1, 1, 2, 4, 9}, {0, 3, 100}, none);
        graph(A{}, "5", 5, {-1, 1, 4}, {0, 100}, [](auto& f) { f.all_pairs = false; });
        graph(A{}, "5-unit", 5, {-1, 1}, {0, 100}, none);
        graph(B{}, "5-norev", 5, {-1, 2, 3}, {0, 100}, [](auto& f) { f.all_pairs = false; });
        if constexpr (DIRECTED) {
            graph(A{}, "4-directed-all", 4, {-1, 1, 3}, {0, 100}, [](auto& f) { f.directed = true; });
            graph(A{}, "ladder-6-directed", 6, {-1, 1, 4}, {0, 100}, [&](auto& f) { f.directed = true; f.only = ladder(3, 2); const auto e = f.only; for (auto [a, b] : e) { f.only.push_back({ b, a }); } f.all_pairs = false; });
            graph(B{}, "4-directed-norev", 4, {-1, 1, 3}, {100}, [](auto& f) { f.directed = true; f.all_pairs = false; });
        }
    }
#elif PART == 3
    using D2 = std::array<unsigned, 2>;
    using M = grid_family<2, char, U, U, false, false, true, false, 2>;
    using N = grid_family<2, char, U, U, false, false, false, false, 2>;
    const auto upto = [](long lo, long hi) { std::vector<long> v; for (long i = lo; i <= hi; ++i) { v.push_back(i); } return v; };
    go<M>("mem-33", D2{3, 3}, [&](auto& f) { f.vk = f.MEM; f.variants = upto(0, 20); f.roomy = 64; f.variants.push_back(64); });
    go<N>("mem-32-norev", D2{3, 2}, [&](auto& f) { f.vk = f.MEM; f.variants = upto(0, 14); f.roomy = 48; f.variants.push_back(48); f.variants.push_back(-1); });
    go<M>("mem-44", D2{4, 4}, [&](auto& f) { f.fixed_s = 0; f.pat_filter_max = T ? 16 : 3; f.vk = f.MEM; f.variants = upto(3, 24); });
    { static const lattice<2> l({ 3, 3 }); go<M>("mem-rooms", l.dims, [&](auto& f) { l.set(f); f.pats = all_of(l); if (!T) { f.ends = { f.ends[0], f.ends[1], f.ends[4], f.ends[8] }; } f.vk = f.MEM; f.variants = upto(0, 20); f.roomy = 64; f.variants.push_back(64); }); }
    go<M>("mem-corridors", D2{9, 1}, [&](auto& f) { serpent(f, 9, span(2, 60)); f.vk = f.MEM; f.variants = { 3, 10, 20, 40 }; });
    go<grid_family<2, char, U, U, false, false, true, false, 1>>("mem-33-pools", D2{3, 3}, [&](auto& f) { f.fixed_s = 0; f.vk = f.MEM; f.variants = upto(0, 20); });
    const auto graph = [](auto f, const char* name, unsigned n, std::vector<int> ws, std::vector<long> lim, auto&& tweak) {
        f.name = name; f.N = n; f.weights = std::move(ws); f.caps = {0, 100}; f.limits = std::move(lim); f.w = n; f.hgt = 1; f.all_pairs = false; tweak(f); f.run();
    };
    graph(graph_family<U, false, true, 2>{}, "mem-g4", 4, {-1, 1, 2, 5}, upto(0, 12), [](auto& f) { f.roomy = 64; f.limits.push_back(64); });
    graph(graph_family<U, false, true, 2>{}, "mem-g4-uneven", 4, T ? std::vector<int> {-1, 1, 2, 5} : std::vector<int> {-1, 1, 5}, upto(0, 10), [](auto& f) { f.holes = true; f.caps = {1, 2, 4, 5, 6, 9, 10, 14}; f.check_opt = REVISITS; f.roomy = 64; f.limits.push_back(64); });
    graph(graph_family<U, false, false, 2>{}, "mem-ladder-uneven", 6, {1, 5}, upto(1, 12), [&](auto& f) { f.only = { { 0, 1 }, { 1, 2 }, { 3, 4 }, { 4, 5 }, { 0, 3 }, { 1, 4 }, { 2, 5 } }; f.holes = true; f.caps.clear(); for (unsigned i = 0; i < 32; ++i) { f.caps.push_back(i); } f.check_opt = REVISITS; f.roomy = 64; f.limits.push_back(64); });
    graph(graph_family<U, false, false, 2>{}, "mem-g4-directed", 4, {-1, 1}, upto(0, 10), [](auto& f) { f.directed = true; f.all_pairs = true; });
    const std::vector<std::pair<unsigned, unsigned>> ladder { { 0, 1 }, { 1, 2 }, { 3, 4 }, { 4, 5 }, { 0, 3 }, { 1, 4 }, { 2, 5 } };
    graph(graph_family<U, false, true, 2>{}, "mem-g5", 5, {-1, 1, 5}, T ? upto(0, 16) : upto(2, 8), [](auto& f) { f.roomy = 64; f.limits.push_back(64); });
    graph(graph_family<U, false, true, 2>{}, "mem-ladder", 6, {-1, 1, 2, 5}, upto(1, 12), [&](auto& f) { f.only = ladder; f.roomy = 64; f.limits.push_back(64); });
    graph(graph_family<U, false, false, 2>{}, "mem-g4-directed-3", 4, {-1, 1, 5}, T ? upto(0, 12) : upto(1, 4), [](auto& f) { f.directed = true; });
    if (T) {
        graph(graph_family<U, false, true, 2>{}, "mem-g6", 6, {-1, 1}, upto(1, 12), [](auto& f) { f.all_pairs = true; });
        { static const lattice<2> l({ 4, 3 }); go<N>("mem-mazes", l.dims, [&](auto& f) { l.set(f); f.pats = l.perfect(); f.vk = f.MEM; f.variants = upto(1, 24); }); }
        go<N>("mem-44-norev", D2{4, 4}, [&](auto& f) { f.fixed_s = 5; f.pat_filter_max = 6; f.vk = f.MEM; f.variants = upto(3, 24); });
    }
#elif PART == 4
    constexpr bool J = IS_JPS_;
    using D2 = std::array<unsigned, 2>;
    go<grid_family<2, char, U, U, false, false, true, J, 1>>("safe-33", D2{3, 3}, [&](auto& f) { if (!T) { f.fixed_s = 0; } });
    go<grid_family<2, bool, U, U, false, false, false, J, 1>>("safe-capacity", D2{3, 2}, [](auto& f) { f.vk = f.CAP; f.variants = {1, 3, 40}; });
    go<grid_family<2, bool, double, int32_t, false, false, false, J, 1>>("safe-remote", D2{2, 2}, [](auto& f) { remote(f); });
    go<grid_family<2, char, U, U, true, false, false, J, 2>>("safe-ledger", D2{3, 3}, [&](auto& f) { if (!T) { f.fixed_s = 4; } });
    go<grid_family<2, char, U, U, false, false, true, J, 1>>("safe-44", D2{4, 4}, [&](auto& f) { f.fixed_s = 0; f.pat_filter_max = T ? 4 : 1; });
#ifndef JPS
    {
        go<grid_family<3, char, double, size_t, false, false, true, true, 1>>("safe-3d", std::array<unsigned, 3>{2, 2, 2}, [&](auto& f) { f.fixed_s = 0; f.hf = [](const auto&, const auto&) noexcept -> double { return 0; }; });
        const auto graph = [&](auto f, const char* name, unsigned n, std::vector<int> ws, auto&& tweak) {
            f.name = name; f.N = n; f.weights = std::move(ws); f.caps = {0, 100}; f.w = n; f.hgt = 1; tweak(f); f.run();
        };
        graph(graph_family<U, false, true, 1>{}, "safe-g4", 4, {-1, 1, 3}, [&](auto& f) { f.all_pairs = T; });
        star_family<true, 1>::run("safe-star", T ? [] { std::vector<unsigned> v; for (unsigned n = 1; n <= 1030; ++n) { v.push_back(n); } return v; }() : std::vector<unsigned> { 1, 2, 3, 7, 8, 9, 15, 16, 17, 127, 128, 129, 254, 255, 256, 257, 258, 510, 511, 512, 513 });
        star_family<false, 2>::run("safe-star-ledger", { 1, 2, 4, 8, 100, 254, 255, 256, 257, 300 });
        if constexpr (std::string_view(STR(SOLVER)) != "dijkstra") {
            graph(graph_family<U, false, false, 2>{}, "safe-g3", 3, {-1, 1, 3}, [](auto& f) { f.directed = true; });
            if (T) { graph(graph_family<U, false, false, 1>{}, "safe-g4-directed", 4, {-1, 1}, [](auto& f) { f.directed = true; }); }
        }
    }
#endif
#elif PART == 5
    constexpr bool J = IS_JPS_;
    using D2 = std::array<unsigned, 2>; using SC = std::conditional_t<J, double, U>;
    const auto corner = [](auto& f) { f.fixed_s = 0; f.fixed_e = f.dims[0] * f.dims[1] - 1; if (J) { f.hf = &chdr::heuristics::octile_distance<typename std::decay_t<decltype(f)>::scalar, typename std::decay_t<decltype(f)>::C>; } };
    go<grid_family<2, char, SC, U, false, false, true, J, 1>>("faults-pools-33", D2{3, 3}, corner);
    go<grid_family<2, char, SC, U, false, false, false, J, 2>>("faults-resource-33", D2{3, 3}, corner);
    go<grid_family<2, bool, SC, U, false, false, false, J, 1>>("faults-pools-42", D2{4, 2}, corner);
    go<grid_family<2, char, SC, U, false, false, true, J, 0>>("faults-default-32", D2{3, 2}, corner);
    go<grid_family<2, char, SC, U, false, false, true, J, 1>>("faults-pools-43", D2{4, 3}, corner);
    go<grid_family<2, char, SC, U, false, false, true, J, 2>>("faults-resource-23", D2{2, 3}, [](auto& f) { if (J) { f.hf = &chdr::heuristics::octile_distance<typename std::decay_t<decltype(f)>::scalar, typename std::decay_t<decltype(f)>::C>; } });
    if (T) { go<grid_family<2, char, SC, U, false, false, true, J, 1>>("faults-pools-44", D2{4, 4}, corner); go<grid_family<2, char, SC, U, false, false, true, J, 2>>("faults-resource-43", D2{4, 3}, corner); }
#ifndef JPS
    {
        const auto graph = [&](auto f, const char* name, unsigned n, std::vector<int> ws) { f.name = name; f.N = n; f.weights = std::move(ws); f.caps = {100}; f.w = n; f.hgt = 1; f.all_pairs = false; f.run(); };
        graph(graph_family<U, false, true, 1>{}, "faults-pools-g4", 4, T ? std::vector<int> {-1, 1, 2, 5} : std::vector<int> {-1, 1, 3});
        graph(graph_family<U, false, false, 2>{}, "faults-resource-g4", 4, T ? std::vector<int> {-1, 1, 2, 5} : std::vector<int> {-1, 1, 3});
    }
#endif
#elif PART == 6
    constexpr bool J = IS_JPS_;
    using D2 = std::array<unsigned, 2>; using SC = std::conditional_t<J, double, U>;
    using A = grid_family<2, signed char, SC, U, false, false, true, J, 2>;
    using B = grid_family<2, signed char, SC, U, false, false, false, J, 2>;
    const auto metric = [](auto& f) { if (J) { f.hf = &chdr::heuristics::octile_distance<typename std::decay_t<decltype(f)>::scalar, typename std::decay_t<decltype(f)>::C>; } };
    go<A>("work-33", D2{3, 3}, metric);
    go<B>("work-42", D2{4, 2}, metric);
    go<B>("work-33-h0", D2{3, 3}, [](auto& f) { f.hf = [](const auto&, const auto&) noexcept -> SC { return 0; }; });
    if (T) { go<B>("work-43", D2{4, 3}, metric); }
    if (DEEPENS) { go<A>("work-coarse", D2{3, 3}, [](auto& f) { f.check_opt = false; f.hf = [](const auto& a, const auto& b) noexcept -> SC { return 50 * chdr::heuristics::manhattan_distance<SC, std::decay_t<decltype(a)>>(a, b); }; }); }
    if (!DEEPENS) {
        go<A>("work-44", D2{4, 4}, [&](auto& f) { metric(f); f.pat_filter_max = T ? 6 : 4; f.fixed_s = 0; });
        go<B>("work-17", D2{17, 17}, [&](auto& f) { metric(f); open_square(f, 17); });
    }
#ifndef JPS
    {
        const auto graph = [&](auto f, const char* name, unsigned n, std::vector<int> ws, auto&& tweak) {
            f.name = name; f.N = n; f.weights = std::move(ws); f.caps = {0, 2, 100}; f.w = n; f.hgt = 1; tweak(f); f.run();
        };
        const auto ladder = [](unsigned across, unsigned down) { std::vector<std::pair<unsigned, unsigned>> e; for (unsigned v = 0; v < across * down; ++v) { if (v % across + 1 < across) { e.push_back({ v, v + 1 }); } if (v + across < across * down) { e.push_back({ v, v + across }); } } return e; };
        const auto none = [](auto&) {};
        go<grid_family<2, signed char, U, U, true, false, true, false, 2>>("work-lazy", D2{3, 3});
        go<grid_family<2, signed char, U, U, false, false, true, true, 2>>("work-octile", D2{3, 3}, [](auto& f) { f.fixed_s = 4; });
        go<grid_family<3, signed char, U, U, false, false, true, false, 2>>("work-3d", std::array<unsigned, 3>{2, 2, 2});
        graph(graph_family<U, false, true, 2>{}, "work-g4", 4, {-1, 1, 2, 5}, [](auto& f) { f.all_pairs = false; });
        graph(graph_family<U, false, false, 2>{}, "work-g4-zero", 4, {-1, 0, 3}, none);
        graph(graph_family<U, false, true, 2>{}, "work-ladder", 6, {-1, 1, 2, 5}, [&](auto& f) { f.only = ladder(3, 2); f.all_pairs = false; });
        graph(graph_family<U, false, true, 2>{}, "work-lattice", 9, {1, 4}, [&](auto& f) { f.only = ladder(3, 3); f.all_pairs = false; });
        graph(graph_family<U, false, false, 2>{}, "work-g5", 5, {-1, 1}, [&](auto& f) { f.all_pairs = T; });
        if constexpr (std::string_view(STR(SOLVER)) != "dijkstra") { graph(graph_family<U, false, false, 2>{}, "work-g4-directed", 4, {-1, 1}, [](auto& f) { f.directed = true; }); }
    }
#endif
#endif
}
