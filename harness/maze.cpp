// Exhaustive exploration of the mazes. PART 1: neighbours of grid cells, 2: coordinates and indices, 3: heuristics,
// 4: graph edits (operation sequences against a reference model), 5: pruning of graphs.
#include "mc.hpp"
#include <chdr.hpp>
#include <algorithm>
#include <array>
#include <cmath>
#include <map>
#include <queue>
#include <set>

#ifndef PART
#define PART 1
#endif

template <size_t K> using dims_t = std::array<int, K>;
template <size_t K> static std::string show(const dims_t<K>& d) { std::string t; for (size_t i = 0; i < K; ++i) { t += (i ? "x" : "") + std::to_string(d[i]); } return t; }
template <size_t K> static int cells(const dims_t<K>& d) { int n = 1; for (int x : d) { n *= x; } return n; }
template <size_t K> static dims_t<K> at(const dims_t<K>& d, int i) { dims_t<K> c{}; for (size_t k = 0; k < K; ++k) { c[k] = i % d[k]; i /= d[k]; } return c; }
template <class C, size_t K> static C as(const dims_t<K>& d) { C c{}; for (size_t k = 0; k < K; ++k) { c[k] = (typename C::value_type)d[k]; } return c; }
template <class C> static auto ints(const C& c) { constexpr size_t K = std::tuple_size_v<C>; dims_t<K> d{}; for (size_t k = 0; k < K; ++k) { d[k] = (int)c[k]; } return d; }
template <size_t K> static bool inside(const dims_t<K>& d, const dims_t<K>& c) { for (size_t k = 0; k < K; ++k) { if (c[k] < 0 || c[k] >= d[k]) { return false; } } return true; }
template <size_t K> static int index(const dims_t<K>& d, const dims_t<K>& c) { int r = 0, m = 1; for (size_t k = 0; k < K; ++k) { r += c[k] * m; m *= d[k]; } return r; }

#if PART == 1
template <size_t K, class W, class I> struct neighbours {
    using C = chdr::coord<I, K>; using G = chdr::mazes::grid<C, W>;
    // full: every obstacle layout; otherwise none, a single obstacle, a single free cell, and all obstructed
    static void run(const char* name, std::vector<dims_t<K>> shapes, bool full) {
        std::vector<long> base { 0 }; for (auto& d : shapes) { base.push_back(base.back() + (full ? 1l << cells(d) : 2l * cells(d) + 2)); }
        const auto layout = [&](long i, dims_t<K>& d) {
            size_t s = 0; while (i >= base[s + 1]) { ++s; } i -= base[s]; d = shapes[s]; const int n = cells(d); std::vector<bool> wall((size_t)n);
            for (int j = 0; j < n; ++j) { wall[(size_t)j] = full ? i >> j & 1 : i == 0 ? false : i <= n ? j == i - 1 : i <= 2 * n ? j != i - n - 1 : true; }
            return wall;
        };
        const auto desc = [&](long i) { dims_t<K> d; auto w = layout(i, d); std::string t = std::string("neighbours ") + name + " " + show(d) + " cells="; for (bool b : w) { t += b ? '#' : '.'; } return t; };
        mc::explore(name, base.back(), desc, [&](long i) {
            dims_t<K> d; auto wall = layout(i, d); const int n = cells(d);
            std::vector<W> v((size_t)n); for (int j = 0; j < n; ++j) { v[(size_t)j] = wall[(size_t)j] ? std::numeric_limits<W>::max() : W(0); }
            const G g(as<C>(d), v); uint64_t h = 17;
            for (int j = 0; j < n; ++j) {
                const auto c = at<K>(d, j); const C cc = as<C>(c);
                for (int diag = 0; diag < 2; ++diag) {
                    std::multiset<int> want; int dirs = 1; for (size_t k = 0; k < K; ++k) { dirs *= 3; }
                    for (int q = 0; q < dirs; ++q) {
                        dims_t<K> x = c; int moved = 0, t = q; C dir{}; for (size_t k = 0; k < K; ++k) { const int s = t % 3 - 1; t /= 3; x[k] += s; moved += s != 0; dir[k] = (I)(s + 1); }
                        const bool free = inside<K>(d, x) && !wall[(size_t)index<K>(d, x)];
                        if (!diag) { // the same question, asked for one direction
                            const auto one = g.check_neighbour(cc, dir);
                            if (one.first != free || (free && ints(one.second) != x)) { mc::report("neighbour", "", desc(i) + " cell=" + show<K>(c) + " :: wrong answer for direction " + std::to_string(q)); return; }
                        }
                        if (moved && (diag || moved == 1) && free) { want.insert(index<K>(d, x)); }
                    }
                    int wanted = (int)want.size();
                    for (int by_index = 0; by_index < 2; ++by_index) {
                        std::multiset<int> got; bool out = false;
                        const auto take = [&](const auto& list) { for (const auto& [active, nc] : list) { mc::sh->transitions++; if (active) { const auto x = ints(nc); if (!inside<K>(d, x)) { out = true; } else { got.insert(index<K>(d, x)); } } } };
                        if (by_index) { if (diag) { take(g.template get_neighbours<true>((I)j)); } else { take(g.template get_neighbours<false>((I)j)); } }
                        else          { if (diag) { take(g.template get_neighbours<true>(cc));  } else { take(g.template get_neighbours<false>(cc)); } }
                        if (out || got != want) {
                            std::string t; for (int x : got) { t += " " + std::to_string(x); } t += " instead of"; for (int x : want) { t += " " + std::to_string(x); }
                            mc::report("neighbour", "", desc(i) + " cell=" + show<K>(c) + (diag ? " with diagonals" : "") + (by_index ? " by index" : "") + " :: free neighbours" + t + (out ? " and cells outside" : "")); return;
                        }
                    }
                    if (!diag && g.is_transitory((size_t)j) != (wanted == 2)) { mc::report("neighbour", "", desc(i) + " cell=" + show<K>(c) + " :: wrongly told to be (or not to be) a corridor"); return; }
                    h = mc::mix(h, (uint64_t)wanted);
                }
            }
            mc::sh->nontrivial++; mc::outcome(h);
            if (mc::sh->nsamples < 1 && i == base.back() / 2) { mc::sample(desc(i)); }
        });
    }
};
static void families() {
    const bool T = mc::thorough();
    const auto all = [](auto k, int most, int side) { // every shape with sides up to `side` and at most `most` cells
        constexpr size_t K = decltype(k)::value; std::vector<dims_t<K>> r; dims_t<K> box; box.fill(side);
        for (int i = 0; i < cells<K>(box); ++i) { auto d = at<K>(box, i); for (auto& x : d) { ++x; } if (cells<K>(d) <= most) { r.push_back(d); } } return r;
    };
    using k1 = std::integral_constant<size_t, 1>; using k2 = std::integral_constant<size_t, 2>; using k3 = std::integral_constant<size_t, 3>; using k4 = std::integral_constant<size_t, 4>; using k5 = std::integral_constant<size_t, 5>;
    neighbours<1, char, size_t>::run("1d", all(k1{}, 10, 10), true);
    neighbours<2, char, uint32_t>::run("2d", all(k2{}, T ? 16 : 12, 6), true);
    neighbours<2, bool, uint32_t>::run("2d bits", all(k2{}, 12, 6), true);
    neighbours<2, int32_t, int32_t>::run("2d signed", all(k2{}, 12, 4), true);
    neighbours<2, bool, int32_t>::run("2d signed bits", all(k2{}, 9, 3), true);
    neighbours<2, uint8_t, uint8_t>::run("2d narrow", all(k2{}, 12, 4), true);
    neighbours<2, uint64_t, size_t>::run("2d wide", all(k2{}, 9, 3), true);
    neighbours<3, char, uint32_t>::run("3d", all(k3{}, T ? 12 : 8, 3), true);
    neighbours<3, bool, size_t>::run("3d bits", all(k3{}, 8, 3), true);
    neighbours<3, char, int32_t>::run("3d signed sparse", all(k3{}, 64, 4), false);
    neighbours<3, bool, uint8_t>::run("3d narrow sparse", all(k3{}, 64, 4), false);
    neighbours<4, char, uint32_t>::run("4d", all(k4{}, T ? 12 : 8, 3), true);
    neighbours<4, bool, int32_t>::run("4d signed sparse", all(k4{}, T ? 81 : 36, 3), false);
    neighbours<5, char, uint32_t>::run("5d sparse", all(k5{}, T ? 72 : 24, 3), false);
    neighbours<5, bool, int32_t>::run("5d signed sparse", all(k5{}, T ? 72 : 16, 2), false);
    neighbours<2, char, uint32_t>::run("2d large sparse", { {17, 9}, {1, 40}, {40, 1}, {16, 16}, {31, 3} }, false);
}
#endif

#if PART == 2
template <size_t K, class I, class W> struct coordinates {
    using C = chdr::coord<I, K>; using G = chdr::mazes::grid<C, W>;
    static W value(int i) { if constexpr (std::is_same_v<W, bool>) { return (i * 7 % 3) == 1; } else { return (W)(i % 120); } }
    static void run(const char* name, int side, int most) {
        std::vector<dims_t<K>> shapes; dims_t<K> box; box.fill(side);
        for (int i = 0; i < cells<K>(box); ++i) { auto d = at<K>(box, i); for (auto& x : d) { ++x; } if (cells<K>(d) <= most) { shapes.push_back(d); } }
        const auto desc = [&](long i) { return std::string("coordinates ") + name + " " + show<K>(shapes[(size_t)i]); };
        mc::explore(name, (long)shapes.size(), desc, [&](long i) {
            const auto d = shapes[(size_t)i]; const int n = cells<K>(d); const C size = as<C>(d);
            const auto fail = [&](const std::string& what) { mc::report("coordinate", "", desc(i) + " :: " + what); };
            std::vector<W> v((size_t)n); for (int j = 0; j < n; ++j) { v[(size_t)j] = value(j); }
            G a(size, v); G b(size, std::vector<W>(v)); G c(std::move(b)); G g(size); g = std::move(c); G z(size); const G& cg = g;
            if (g.count() != (size_t)n || z.count() != (size_t)n || ints(g.size()) != d) { fail("wrong size"); return; }
            if (g.nodes() != v || a.nodes() != v) { fail("cells differ from those given"); return; }
            std::set<long> seen;
            dims_t<K> wide; for (size_t k = 0; k < K; ++k) { wide[k] = d[k] + 3; } // coordinates from -1 to one beyond the far side
            for (int j = 0; j < cells<K>(wide); ++j) {
                auto x = at<K>(wide, j); bool neg = false; for (auto& t : x) { --t; neg |= t < 0; }
                const C cc = as<C>(x); const bool in = inside<K>(d, x); mc::sh->transitions++;
                if (cg.contains(cc) != in) { fail("(" + show<K>(x) + ") is " + (in ? "not " : "") + "reported as contained"); return; }
                if (!in) { continue; }
                const auto one = chdr::utils::to_1d(cc, size);
                if ((long)one < 0 || (long)one >= n || !seen.insert((long)one).second) { fail("(" + show<K>(x) + ") has index " + std::to_string((long)one)); return; }
                if (ints(chdr::utils::to_nd(one, size)) != x) { fail("index " + std::to_string((long)one) + " does not lead back to (" + show<K>(x) + ")"); return; }
                if (!cg.contains(one)) { fail("index " + std::to_string((long)one) + " is not contained"); return; }
                const W want = v[(size_t)one];
                if (cg[cc].value() != want || cg[one].value() != want || cg[cc].is_active() != (want != std::numeric_limits<W>::max())) { fail("cell (" + show<K>(x) + ") has another value than its index"); return; }
            }
            if ((int)seen.size() != n || cg.contains((size_t)n) || cg.contains(~size_t(0))) { fail("not every index is used, or one beyond the last is contained"); return; }
            int j = 0; for (auto it = cg.begin(); it != cg.end(); ++it, ++j) { if (*it != v[(size_t)j]) { fail("iteration differs"); return; } } if (j != n) { fail("iteration is incomplete"); return; }
            for (auto it = g.rbegin(); it != g.rend(); ++it) { --j; if (*it != v[(size_t)j]) { fail("reverse iteration differs"); return; } }
            z.nodes(v); if (z.nodes() != v) { fail("cells set anew differ"); return; }
            mc::sh->nontrivial += n > 1; uint64_t h = 3; for (auto t : d) { h = mc::mix(h, (uint64_t)t); } mc::outcome(h);
            if (i == 30) { mc::sample(desc(i)); }
        });
    }
};
static void families() {
    const bool T = mc::thorough();
    coordinates<1, uint32_t, char>::run("1d", 120, 120);
    coordinates<1, int8_t, uint8_t>::run("1d narrow", 120, 120);
    coordinates<2, uint32_t, char>::run("2d", T ? 40 : 20, 10000);
    coordinates<2, uint8_t, uint16_t>::run("2d narrow", 15, 250);
    coordinates<2, int32_t, bool>::run("2d signed bits", 20, 10000);
    coordinates<2, size_t, int32_t>::run("2d wide", 20, 10000);
    coordinates<3, uint32_t, char>::run("3d", T ? 12 : 8, 10000);
    coordinates<3, int16_t, bool>::run("3d signed bits", 8, 10000);
    coordinates<3, uint8_t, char>::run("3d narrow", 8, 250);
    coordinates<4, uint32_t, uint8_t>::run("4d", T ? 7 : 5, 10000);
    coordinates<4, int32_t, bool>::run("4d signed bits", 4, 10000);
    coordinates<5, uint32_t, char>::run("5d", T ? 5 : 3, 10000);
    coordinates<5, int32_t, bool>::run("5d signed bits", 3, 10000);
    coordinates<6, size_t, char>::run("6d", 3, 10000);
    coordinates<7, uint16_t, char>::run("7d", 2, 10000);
}
#endif

#if PART == 3
// Least costs of unobstructed movement from the origin, by relaxation over a box: axis moves of cost 1, king's moves of
// cost 1, and king's moves whose cost is their Euclidean length.
template <size_t K, int R> struct truth {
    static constexpr int S = 2 * R + 1; int n = 1; std::array<std::vector<double>, 3> d; dims_t<K> box;
    truth() {
        box.fill(S); n = cells<K>(box); int dirs = 1; for (size_t k = 0; k < K; ++k) { dirs *= 3; }
        for (int m = 0; m < 3; ++m) {
            d[m].assign((size_t)n, 1e9); dims_t<K> o; o.fill(R); std::priority_queue<std::pair<double, int>> q; d[m][(size_t)index<K>(box, o)] = 0; q.push({ 0, index<K>(box, o) });
            while (!q.empty()) {
                auto [c, v] = q.top(); q.pop(); c = -c; if (c > d[m][(size_t)v] + 1e-12) { continue; } const auto x = at<K>(box, v);
                for (int t = 0; t < dirs; ++t) { dims_t<K> y = x; int u = t, moved = 0; for (size_t k = 0; k < K; ++k) { const int s = u % 3 - 1; u /= 3; y[k] += s; moved += s != 0; }
                    if (!moved || (m == 0 && moved > 1) || !inside<K>(box, y)) { continue; }
                    const double nc = c + (m == 2 ? std::sqrt((double)moved) : 1.0); auto& e = d[m][(size_t)index<K>(box, y)]; if (nc < e - 1e-12) { e = nc; q.push({ -nc, index<K>(box, y) }); } }
            }
        }
    }
    double operator()(int m, const dims_t<K>& a, const dims_t<K>& b) const { dims_t<K> x; for (size_t k = 0; k < K; ++k) { x[k] = b[k] - a[k] + R; } return d[m][(size_t)index<K>(box, x)]; }
};
template <size_t K, class S, class I, int R> struct metrics { // coordinates 0..R (unsigned) or centred (signed)
    using C = chdr::coord<I, K>; using H = chdr::heuristics;
    static void run(const char* name, bool triples) {
        static const truth<K, R> tr; dims_t<K> box; box.fill(R + 1); const long n = cells<K>(box); const int off = std::is_signed_v<I> ? R / 2 : 0;
        const auto point = [&](long i) { auto x = at<K>(box, (int)i); for (auto& t : x) { t -= off; } return x; };
        const auto desc = [&](long i) { std::string t = std::string("heuristics ") + name; for (int k = 0; k < (triples ? 3 : 2); ++k) { t += " (" + show<K>(point(i % n)) + ")"; i /= n; } return t; };
        mc::explore(name, triples ? n * n * n : n * n, desc, [&](long i) {
            const auto x = point(i % n), y = point(i / n % n); const C a = as<C>(x), b = as<C>(y); const double eps = std::is_same_v<S, float> ? 1e-5 : 1e-9; mc::sh->transitions++;
            const auto fail = [&](const std::string& w) { mc::report("heuristic", "", desc(i) + " :: " + w); };
            const auto f = [](S v) { return (double)v; };
            const auto all = [](const C& p, const C& q) { return std::array<double, 5> { (double)H::manhattan_distance<S>(p, q), (double)H::chebyshev_distance<S>(p, q), (double)H::octile_distance<S>(p, q), (double)H::euclidean_distance<S>(p, q), (double)H::sqr_euclidean_distance<S>(p, q) }; };
            const auto v = all(a, b), w = all(b, a); static const char* names[] = { "Manhattan", "Chebyshev", "octile", "Euclidean", "squared Euclidean" };
            if (triples) {
                const auto z = point(i / n / n); const C c = as<C>(z); const auto p = all(a, c), q = all(c, b);
                if (!std::is_integral_v<S> ) { for (int k = 0; k < 4; ++k) { if (v[k] > p[k] + q[k] + 1e-9 * 9 + (std::is_same_v<S, float> ? 1e-4 : 0)) { fail(std::string(names[k]) + " distance breaks the triangle inequality"); return; } } }
                else { for (int k = 0; k < 2; ++k) { if (v[k] > p[k] + q[k]) { fail(std::string(names[k]) + " distance breaks the triangle inequality"); return; } } }
                mc::sh->nontrivial++; return;
            }
            double sq = 0; for (size_t k = 0; k < K; ++k) { sq += double(x[k] - y[k]) * (x[k] - y[k]); }
            for (int k = 0; k < 5; ++k) {
                if (v[k] != w[k]) { fail(std::string(names[k]) + " distance is not symmetric"); return; }
                if ((v[k] == 0) != (x == y)) { fail(std::string(names[k]) + " distance is wrongly zero or not zero"); return; }
                if (v[k] < 0 || v[k] != v[k]) { fail(std::string(names[k]) + " distance is negative"); return; }
                // every order of axes
                auto px = x, py = y; std::array<int, K> perm; for (size_t t = 0; t < K; ++t) { perm[t] = (int)t; }
                do { for (size_t t = 0; t < K; ++t) { px[t] = x[(size_t)perm[t]]; py[t] = y[(size_t)perm[t]]; } const auto u = all(as<C>(px), as<C>(py)); if (std::fabs(u[k] - v[k]) > eps * (1 + v[k])) { fail(std::string(names[k]) + " distance depends on the order of axes"); return; } } while (std::next_permutation(perm.begin(), perm.end()));
                px = x; py = y; for (size_t t = 0; t < K; ++t) { px[t] += 3 + (int)t; py[t] += 3 + (int)t; } const auto u = all(as<C>(px), as<C>(py)); if (u[k] != v[k]) { fail(std::string(names[k]) + " distance is affected by translation"); return; }
            }
            const auto is = [&](double got, double want) { return std::is_integral_v<S> ? got <= want + 1e-9 && got > want - 1 - 1e-9 : std::fabs(got - want) <= eps * (1 + want); };
            if (v[0] != tr(0, x, y)) { fail("Manhattan distance is not the number of axis moves"); return; }
            if (v[1] != tr(1, x, y)) { fail("Chebyshev distance is not the number of king's moves"); return; }
            if (v[4] != sq) { fail("squared Euclidean distance is wrong"); return; }
            if (!is(v[3], std::sqrt(sq))) { fail("Euclidean distance is wrong"); return; }
            for (int k = 1; k < 4; ++k) { if (v[k] > tr(2, x, y) + eps * 10) { fail(std::string(names[k]) + " distance overestimates"); return; } }
            if (K <= 2 && !std::is_integral_v<S> && std::fabs(v[2] - tr(2, x, y)) > eps * 10) { fail("octile distance is not the cost of octile movement"); return; }
            if (v[2] + eps < v[1]) { fail("octile distance is below Chebyshev distance"); return; }
            if constexpr (!std::is_integral_v<S>) {
                const double c1 = (double)H::canberra_distance<S>(a, b), c2 = (double)H::canberra_distance<S>(b, a), o1 = (double)H::cosine_distance<S>(a, b), o2 = (double)H::cosine_distance<S>(b, a);
                double want = 0, dot = 0, na = 0, nb = 0; for (size_t k = 0; k < K; ++k) { if (x[k] || y[k]) { want += std::fabs(double(x[k] - y[k])) / (std::abs(x[k]) + std::abs(y[k])); } dot += x[k] * y[k]; na += x[k] * x[k]; nb += y[k] * y[k]; }
                if (c1 != c2 || std::fabs(c1 - want) > eps * 10) { fail("Canberra distance is wrong or not symmetric"); return; }
                const double wo = na > 0 && nb > 0 ? 1 - dot / (std::sqrt(na) * std::sqrt(nb)) : 1;
                if (o1 != o2 || std::fabs(o1 - wo) > eps * 10) { fail("cosine distance is wrong or not symmetric"); return; }
            }
            (void)f; mc::sh->nontrivial++; uint64_t h = 1; for (double t : v) { h = mc::mix(h, (uint64_t)(t * 4096)); } mc::outcome(h);
            if (i == n * n / 2 + 3) { mc::sample(desc(i)); }
        });
    }
};
static void families() {
    const bool T = mc::thorough();
    metrics<1, double, uint32_t, 12>::run("1d", false); metrics<1, int32_t, int32_t, 12>::run("1d integral", false);
    metrics<2, double, uint32_t, 8>::run("2d", false);  metrics<2, double, uint32_t, 8>::run("2d triples", true);
    metrics<2, float, int32_t, 8>::run("2d signed float", false); metrics<2, uint32_t, uint32_t, 8>::run("2d integral", false);
    metrics<2, uint32_t, uint8_t, 6>::run("2d integral narrow", false); metrics<2, int32_t, int8_t, 6>::run("2d integral triples", true);
    metrics<2, double, size_t, 6>::run("2d wide", false); metrics<2, float, uint16_t, 5>::run("2d float triples", true);
    metrics<3, double, uint32_t, 4>::run("3d", false); metrics<3, int32_t, int32_t, 4>::run("3d signed integral", false); metrics<3, double, int32_t, 3>::run("3d triples", true);
    metrics<4, double, uint32_t, 3>::run("4d", false); metrics<4, uint32_t, uint32_t, 3>::run("4d integral", false);
    if (T) { metrics<3, double, uint32_t, 5>::run("3d triples more", true); metrics<4, double, int32_t, 4>::run("4d signed", false); }
}
#endif

#if PART == 4 || PART == 5
template <class I, class S> struct reference { // vertices with their outgoing edges, as multisets
    std::map<I, std::multiset<std::pair<I, S>>> v;
    bool operator==(const reference& o) const { return v == o.v; }
};
template <class I, class S> static reference<I, S> contents(const chdr::mazes::graph<I, S>& g) { reference<I, S> r; for (const auto& [id, out] : g) { auto& m = r.v[id]; for (const auto& e : out) { m.insert(e); } } return r; }
template <class I, class S> static std::string show(const reference<I, S>& r) { std::string t; for (auto& [id, out] : r.v) { t += " " + std::to_string(id) + ":{"; for (auto& e : out) { t += std::to_string(e.first) + "=" + std::to_string((int)e.second) + ","; } t += "}"; } return t; }
#endif

#if PART == 4
template <class I, class S> struct edits {
    using G = chdr::mazes::graph<I, S>; using M = reference<I, S>;
    struct world { G g, other; M m, mo; std::string bad; };
    struct op { std::string name; std::function<void(world&)> run; };
    static std::vector<op> alphabet(std::vector<I> ids, bool two) {
        std::vector<op> r;
        for (I a : ids) { r.push_back({ "add " + std::to_string(a), [a](world& w) { w.g.add(a); w.m.v[a]; } }); }
        for (I a : ids) { for (I b : ids) { for (int s : { 1, 2 }) { if (s == 2 && (a == b || a != ids[0])) { continue; }
            r.push_back({ "add " + std::to_string(a) + ">" + std::to_string(b) + "=" + std::to_string(s), [a, b, s](world& w) { w.g.add(a, std::make_pair(b, (S)s)); w.m.v[a].insert({ b, (S)s }); } });
            r.push_back({ "remove " + std::to_string(a) + ">" + std::to_string(b) + "=" + std::to_string(s), [a, b, s](world& w) {
                w.g.remove(a, std::make_pair(b, (S)s)); auto it = w.m.v.find(a); if (it != w.m.v.end() && it->second.erase({ b, (S)s }) > 0 && it->second.empty()) { w.m.v.erase(it); } } });
        } } }
        r.push_back({ "clear", [](world& w) { w.g.clear(); w.m.v.clear(); } });
        r.push_back({ "move", [](world& w) { G t(std::move(w.g)); w.g = std::move(t); } });
        if (two) { r.push_back({ "exchange", [](world& w) { G t(std::move(w.g)); w.g = std::move(w.other); w.other = std::move(t); std::swap(w.m, w.mo); } }); }
        return r;
    }
    static void check(world& w, const std::vector<I>& ids) {
        const G& g = w.g; auto got = contents<I, S>(g);
        if (!(got == w.m)) { w.bad = "holds" + show(got) + " instead of" + show(w.m); return; }
        if (g.count() != w.m.v.size()) { w.bad = "wrong count"; return; }
        for (I a : ids) {
            if (g.contains(a) != (w.m.v.count(a) > 0)) { w.bad = "wrong membership of " + std::to_string(a); return; }
            if (g.contains(a)) { std::multiset<std::pair<I, S>> n; for (auto& e : g.get_neighbours(a)) { n.insert(e); } if (n != w.m.v[a]) { w.bad = "wrong neighbours of " + std::to_string(a); return; } if (g[a].id() != a) { w.bad = "wrong vertex " + std::to_string(a); return; } }
        }
        if (g.contains((I)99)) { w.bad = "contains an unknown vertex"; }
        uint64_t h = 7; for (auto& [id, out] : w.m.v) { h = mc::mix(h, (uint64_t)id + 1000); for (auto& e : out) { h = mc::mix(h, (uint64_t)e.first * 10 + (uint64_t)e.second); } } mc::outcome(h);
    }
    static void run(const char* name, std::vector<I> ids, int len, bool two) {
        const auto ops = alphabet(ids, two); const long A = (long)ops.size(); long total = 1; for (int k = 0; k < len; ++k) { total *= A; }
        const auto desc = [&](long i) { std::string t = std::string("graph ") + name + ": "; for (int k = 0; k < len; ++k) { t += (k ? "; " : "") + ops[(size_t)(i % A)].name; i /= A; } return t; };
        mc::explore(name, total, desc, [&](long i) {
            world w; long c = i; bool some = false;
            for (int k = 0; k < len && w.bad.empty(); ++k) { ops[(size_t)(c % A)].run(w); c /= A; mc::sh->transitions++; check(w, ids); some |= !w.m.v.empty(); }
            mc::sh->nontrivial += some;
            if (!w.bad.empty()) { mc::report("graph", "", desc(i) + " :: " + w.bad); }
            if (some && mc::sh->nsamples < 1) { mc::sample(desc(i)); }
        });
    }
};
static void families() {
    const bool T = mc::thorough();
    edits<uint32_t, uint32_t>::run("three vertices", { 0, 1, 5 }, T ? 5 : 4, true);
    edits<size_t, double>::run("two vertices", { 0, 7 }, T ? 6 : 5, false);
    mc::explore("lists", 4096, [](long i) { return "graph from lists, layout " + std::to_string(i); }, [](long i) { // adjacency lists of three vertices
        using G = chdr::mazes::graph<uint32_t, uint32_t>; using E = std::pair<uint32_t, uint32_t>; reference<uint32_t, uint32_t> want; want.v[0]; want.v[1]; want.v[2];
        E e[6] = { { 0, 1 }, { 1, 2 }, { 2, 3 }, { 0, 4 }, { 1, 1 }, { 2, 2 } }; int pick[6]; for (int k = 0; k < 6; ++k) { pick[k] = (int)(i >> (2 * k) & 3); }
        // vertex k/2 has edge e[pick] listed unless pick is 3
        const auto lists = [&](int k) { return pick[k] < 3; };
        const auto put = [&](int k) { if (lists(k)) { want.v[(uint32_t)k / 2].insert(e[(pick[k] + k) % 6]); } };
        for (int k = 0; k < 6; ++k) { put(k); }
        std::vector<E> l[3]; for (int k = 0; k < 6; ++k) { if (lists(k)) { l[k / 2].push_back(e[(pick[k] + k) % 6]); } }
        const auto build = [&]() -> G { // an initializer list's length is fixed at compile time
            using L = std::initializer_list<E>;
            const auto third  = [&](L x, L y) -> G { const auto& z = l[2]; return z.empty() ? G({ x, y, L{} }) : z.size() == 1 ? G({ x, y, L{ z[0] } }) : G({ x, y, L{ z[0], z[1] } }); };
            const auto second = [&](L x) -> G { const auto& y = l[1]; return y.empty() ? third(x, L{}) : y.size() == 1 ? third(x, L{ y[0] }) : third(x, L{ y[0], y[1] }); };
            const auto& x = l[0]; return x.empty() ? second(L{}) : x.size() == 1 ? second(L{ x[0] }) : second(L{ x[0], x[1] });
        };
        const G g = build(); const auto got = contents<uint32_t, uint32_t>(g); mc::sh->transitions += 6; mc::sh->nontrivial++;
        if (!(got == want)) { mc::report("graph", "", "graph from lists, layout " + std::to_string(i) + " :: holds" + show(got) + " instead of" + show(want)); }
    });
}
#endif

#if PART == 5
// Every undirected weighted graph (parallel edges included), pruned.
template <class I, class S> struct pruning {
    using G = chdr::mazes::graph<I, S>;
    static void run(const char* name, int N, std::vector<int> ws, int extra, bool rev, bool consolidate) { // extra: vertex pairs that may have a second edge
        std::vector<std::pair<int, int>> slots; for (int a = 0; a < N; ++a) { for (int b = a + 1; b < N; ++b) { slots.push_back({ a, b }); } } for (int k = 0; k < extra; ++k) { slots.push_back(slots[(size_t)k]); }
        long total = 1; for (size_t k = 0; k < slots.size(); ++k) { total *= (long)ws.size(); }
        const auto edges = [&](long i) { std::vector<std::array<int, 3>> e; for (auto& s : slots) { const int w = ws[(size_t)(i % (long)ws.size())]; i /= (long)ws.size(); if (w >= 0) { e.push_back({ s.first, s.second, w }); } } return e; };
        const auto desc = [&](long i) { std::string t = std::string("prune ") + name + " vertices=" + std::to_string(N) + " edges:"; for (auto& e : edges(i)) { t += " " + std::to_string(e[0]) + "-" + std::to_string(e[1]) + "=" + std::to_string(e[2]); } return t; };
        mc::explore(name, total, desc, [&](long i) {
            const auto E = edges(i); G g; for (int a = 0; a < N; ++a) { g.add((I)(rev ? N - 1 - a : a)); }
            std::vector<int> degree((size_t)N); 
            for (auto& e : E) { g.add((I)e[0], std::make_pair((I)e[1], (S)e[2])); g.add((I)e[1], std::make_pair((I)e[0], (S)e[2])); degree[(size_t)e[0]]++; degree[(size_t)e[1]]++; }
            const auto distances = [&](const reference<I, S>& r) { std::vector<std::vector<double>> d((size_t)N, std::vector<double>((size_t)N, 1e9)); for (int a = 0; a < N; ++a) { d[(size_t)a][(size_t)a] = 0; }
                for (auto& [a, out] : r.v) { for (auto& e : out) { if (e.first < (I)N) { auto& x = d[(size_t)a][(size_t)e.first]; x = std::min(x, (double)e.second); } } }
                for (int m = 0; m < N; ++m) { for (int a = 0; a < N; ++a) { for (int b = 0; b < N; ++b) { d[(size_t)a][(size_t)b] = std::min(d[(size_t)a][(size_t)b], d[(size_t)a][(size_t)m] + d[(size_t)m][(size_t)b]); } } } return d; };
            const auto before = contents<I, S>(g); const auto d0 = distances(before);
            if (consolidate) { g.prune(); } else { g.template prune<false>(); }
            const auto after = contents<I, S>(g); const auto d1 = distances(after); mc::sh->transitions += (long)E.size();
            const auto fail = [&](const std::string& what) { mc::report("prune", "", desc(i) + " :: " + what + ", left:" + show(after)); };
            for (auto& [a, out] : after.v) { 
                if (!before.v.count(a)) { fail("invented a vertex"); return; }
                for (auto& e : out) { if (!after.v.count(e.first)) { fail("an edge leads to a removed vertex"); return; } const auto& back = after.v.at(e.first); if (back.count({ a, e.second }) != out.count(e)) { fail("an edge has no counterpart"); return; } }
                for (auto& [b, o2] : after.v) { if (d0[(size_t)a][(size_t)b] != d1[(size_t)a][(size_t)b]) { fail("distance from " + std::to_string(a) + " to " + std::to_string(b) + " changed"); return; } }
            }
            for (auto& [a, out] : before.v) { if (!after.v.count(a) && degree[(size_t)a] != 2) { fail("vertex " + std::to_string(a) + " of degree " + std::to_string(degree[(size_t)a]) + " was removed"); return; } }
            if (after.v.size() > 2) { for (auto& [a, out] : after.v) { if (out.size() == 2 && out.begin()->first != std::next(out.begin())->first && out.begin()->first != a && std::next(out.begin())->first != a) { fail("vertex " + std::to_string(a) + " could still be removed"); return; } } }
            mc::sh->nontrivial += after.v.size() < before.v.size(); uint64_t h = 5; for (auto& [id, out] : after.v) { h = mc::mix(h, (uint64_t)id + 77); for (auto& e : out) { h = mc::mix(h, (uint64_t)e.first * 64 + (uint64_t)e.second); } } mc::outcome(h);
            if (after.v.size() < before.v.size() && mc::sh->nsamples < 2) { mc::sample(desc(i) + " -> " + show(after)); }
        });
    }
};
static void families() {
    const bool T = mc::thorough();
    pruning<uint32_t, uint32_t>::run("triangles", 3, { -1, 0, 1, 2, 5 }, 3, false, true);
    pruning<uint32_t, uint32_t>::run("four", 4, { -1, 1, 2, 5 }, 0, false, false);
    pruning<size_t, double>::run("four parallel", 4, { -1, 1, 3 }, 3, true, false);
    pruning<uint32_t, uint32_t>::run("five", 5, { -1, 1, 3 }, 0, false, false);
    pruning<uint32_t, uint32_t>::run("five reversed", 5, { -1, 2, 3 }, 0, true, false);
    pruning<uint32_t, uint32_t>::run("six", 6, { -1, 1 }, 0, false, false);
    if (T) { pruning<uint32_t, uint32_t>::run("five rich", 5, { -1, 1, 2, 4 }, 0, false, false); pruning<uint32_t, uint32_t>::run("seven", 7, { -1, 1 }, 0, false, false); pruning<uint32_t, float>::run("five parallel", 5, { -1, 1 }, 10, true, false); }
}
#endif

int main(int argc, char** argv) { mc::init(argc, argv); families(); return 0; }
