// Exhaustive exploration of the value-like parts. PART 1: arithmetic helpers (CONSTANT: as evaluated in constant expressions),
// PART 2: contents of grids under every sequence of operations.
#include "mc.hpp"
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <limits>
#include <memory_resource>
#include <string>
#include <vector>

#ifndef PART
#define PART 1
#endif

#if PART == 1
#ifdef CONSTANT // evaluate at run time what the library evaluates in constant expressions
#define __builtin_is_constant_evaluated() true
#endif
#include <include/utils/utils.hpp>
using U = chdr::utils;
using wide = __int128;

template <class F> static void each(const std::string& name, long total, F&& f) { // f(i, fail)
    mc::explore(name, total, [&](long i) { return "arithmetic " + name + " case " + std::to_string(i); }, [&](long i) {
        f(i, [&](const std::string& w) { mc::report("arithmetic", "", "arithmetic " + name + " case " + std::to_string(i) + " :: " + w); });
        mc::sh->transitions++; mc::sh->nontrivial += i != 0; if (i == total / 2) { mc::sample("arithmetic " + name + " case " + std::to_string(i)); }
    });
}
static std::string str(wide v) { return v < 0 ? "-" + str(-v) : v > 9 ? str(v / 10) + char('0' + (int)(v % 10)) : std::string(1, char('0' + (int)v)); }

#ifndef CONSTANT
// the values worth trying of a type: all of a narrow one, else those around powers of two and the limits
template <class T> static std::vector<T> values() {
    using L = std::numeric_limits<T>; std::vector<T> r;
    if constexpr (sizeof(T) == 1) { for (int i = L::min(); i <= L::max(); ++i) { r.push_back((T)i); } }
    else if constexpr (std::is_integral_v<T>) {
        std::vector<wide> w; for (int b = 0; b <= L::digits; b += b < L::digits - 1 && b > 2 ? (b + 7 < L::digits - 1 ? 7 : L::digits - 1 - b) : 1) { for (int d = -2; d <= 2; ++d) { w.push_back(((wide)1 << b) + d); w.push_back(-((wide)1 << b) + d); } } 
        std::sort(w.begin(), w.end()); w.erase(std::unique(w.begin(), w.end()), w.end()); for (wide v : w) { if (v >= (wide)L::min() && v <= (wide)L::max()) { r.push_back((T)v); } }
    }
    else { for (int e = -20; e <= 20; e += 4) { for (T m : { T(1), T(1.9375) }) { r.push_back(std::ldexp(m, e)); r.push_back(-std::ldexp(m, e)); } } r.push_back(0); r.push_back(-T(0)); for (T x : { L::max(), L::min(), L::denorm_min(), L::infinity() }) { r.push_back(x); r.push_back(-x); } }
    return r;
}
template <class T> static void of(const std::string& name) {
    using L = std::numeric_limits<T>; const auto v = values<T>(); const long n = (long)v.size(); const auto w = [](T x) { return (long double)x; };
    each(name + " ordering", n * n * (sizeof(T) == 1 ? 1 : n), [&](long i, auto fail) {
        const T a = v[(size_t)(i % n)], b = v[(size_t)(i / n % n)];
        const std::string at = std::to_string(a) + ", " + std::to_string(b);
        if (U::min<T>(a, b) != std::min(a, b) || U::min<T>(b, a) != std::min(a, b)) { fail("least of " + at); return; }
        if (U::max<T>(a, b) != std::max(a, b) || U::max<T>(b, a) != std::max(a, b)) { fail("greatest of " + at); return; }
        const auto one = [&](T c) { const T lo = std::min(a, b), hi = std::max(a, b), got = U::clamp<T>(c, lo, hi); if (got != std::min(std::max(c, lo), hi)) { fail("limiting " + std::to_string(c) + " to " + at); return false; } return true; };
        if (sizeof(T) == 1) { for (T c : v) { if (!one(c)) { return; } } } else { if (!one(v[(size_t)(i / n / n)])) { return; } }
        mc::outcome((uint64_t)(a < b) * 2 + (a == b) + 77);
    });
    each(name + " sign and size", n, [&](long i, auto fail) {
        const T a = v[(size_t)i]; const int s = a > 0 ? 1 : a == 0 ? 0 : -1;
        if (U::sign<int>(a) != s) { fail("sign of " + std::to_string(a) + " is " + std::to_string(U::sign<int>(a))); return; }
        if ((long double)U::sign<long>(a) != s) { fail("sign of " + std::to_string(a)); return; }
        if (std::is_integral_v<T> && std::is_signed_v<T> && a == L::min()) { return; } // has no positive counterpart
        if (w(U::abs<T>(a)) != (a < 0 ? -w(a) : w(a))) { fail("absolute value of " + std::to_string(a) + " is " + std::to_string(U::abs<T>(a))); return; }
        mc::outcome((uint64_t)(s + 5));
    });
}
template <class T> static void powers(const std::string& name) {
    using L = std::numeric_limits<T>; const long most = sizeof(T) == 1 ? 256 : 1000;
    each(name + " powers", most * 80, [&](long i, auto fail) {
        const T base = (T)(i % most < most - 3 ? i % most : (long)(L::max() - (T)(most - 1 - i % most))); const unsigned e = (unsigned)(i / most);
        wide want = 1; bool fits = true; for (unsigned k = 0; k < e && fits; ++k) { fits = base == 0 || want <= (wide)L::max() / (wide)base; want *= fits ? (wide)base : 1; }
        if (!fits) { return; } // outside the contract
        const T got = U::powui<T>(base, (T)e); if ((wide)got != want) { fail(str((wide)base) + " to the power of " + std::to_string(e) + " is " + str((wide)got)); }
        mc::outcome((uint64_t)want);
    });
}
template <class T, size_t K> static void products(const std::string& name) {
    std::vector<long> v { 0, 1, 2, 3, 15, 16, 17, 85, 127, 128, 129, 254, 255, 256, 257, 32767, 32768, 65535, 65536, 65537 }; if (K < 4) { for (long x : { 2147483647l, 2147483648l, 4294967295l, 4294967296l, 4611686018427387904l }) { v.push_back(x); } }
    const long n = (long)v.size(); long total = 1; for (size_t k = 0; k < K; ++k) { total *= n; }
    each(name + " products", total, [&](long i, auto fail) {
        std::array<uint64_t, K> c {}; std::string at; std::vector<long double> x; bool zero = false;
        for (size_t k = 0; k < K; ++k) { c[k] = (uint64_t)v[(size_t)(i % n)]; i /= n; at += (k ? "x" : "") + std::to_string(c[k]); if ((wide)c[k] > (wide)std::numeric_limits<T>::max()) { return; } zero |= c[k] == 0; }
        wide want = 1; bool over = false; const wide max = std::numeric_limits<T>::max();
        for (auto t : c) { want *= (wide)t; if (want > max) { over = true; want = max; } }
        if (zero && over) { return; } // saturation may or may not come before the zero
        const T got = U::product<T>(c); if ((wide)got != want) { fail("product of " + at + " is " + str((wide)got)); }
        mc::outcome((uint64_t)want);
    });
}
static void strings() {
    const bool T = mc::thorough();
    // every numeric string of the form [-]digits[.digits] with up to D digits in all
    const int D = T ? 6 : 5; const std::string alphabet = "0135"; std::vector<std::string> s;
    for (int k = 1; k <= D; ++k) { long n = 1; for (int j = 0; j < k; ++j) { n *= (long)alphabet.size(); }
        for (long i = 0; i < n; ++i) { std::string t; long x = i; for (int j = 0; j < k; ++j) { t += alphabet[(size_t)(x % (long)alphabet.size())]; x /= (long)alphabet.size(); }
            for (int dot = 0; dot < k; ++dot) { std::string u = t; if (dot) { u.insert((size_t)dot, "."); } s.push_back(u); s.push_back("-" + u); } } }
    each("trimmed numbers", (long)s.size(), [&](long i, auto fail) {
        const auto& t = s[(size_t)i]; const std::string got = U::trim_trailing_zeros(t);
        if (got.empty() || std::stold(got) != std::stold(t)) { fail(t + " becomes '" + got + "', which has another value"); return; }
        if (got.find('.') != std::string::npos && (got.back() == '0' || got.back() == '.')) { fail(t + " becomes " + got + ", which still has trailing zeros"); return; }
        mc::outcome(got.size() * 16 + t.size());
    });
    // durations: every multiple of a unit step over all units, both signs
    const long steps = T ? 12000 : 3000;
    each("durations", steps * 12, [&](long i, auto fail) {
        const int unit = (int)(i / steps % 6); const bool neg = i / steps / 6; const long k = i % steps; long double d = (long double)k; for (int u = 0; u < unit; ++u) { d /= 1000.0L; } if (neg) { d = -d; }
        const std::string got = U::to_string(d); size_t used = 0; long double val = 0; try { val = std::stold(got, &used); } catch (...) { fail("duration " + std::to_string((double)d) + " is not shown as a number: " + got); return; }
        const std::string rest = got.substr(used); const long double scale = rest == "s" ? 1 : rest == "ms" ? 1e-3L : rest == "\xC2\xB5s" ? 1e-6L : rest == "ns" ? 1e-9L : 0;
        if (scale == 0) { fail("duration of " + std::to_string(k) + " / 1000^" + std::to_string(unit) + " s has no unit: " + got); return; }
        if (fabsl(val * scale - d) > 0.51e-6L * scale + fabsl(d) * 1e-15L) { fail("duration of " + std::to_string(k) + " / 1000^" + std::to_string(unit) + " s is shown as " + got); return; }
        if (d != 0 && scale != 1e-9L && fabsl(val) < 0.9999995L) { fail("duration is shown in too large a unit: " + got); return; }
        if (scale != 1 && fabsl(val) > 1000.0L) { fail("duration is shown in too small a unit: " + got); return; }
        mc::outcome((uint64_t)(scale * 1e9L) + 1);
    });
    // rounding: to multiples of a scale, in the unit shown
    static const long double scales[] = { 0.0L, 1e-3L, 0.01L, 0.05L, 0.1L, 0.25L, 0.5L, 1.0L, 2.0L, -1.0L };
    each("rounded durations", 10 * 8000, [&](long i, auto fail) {
        const long double scale = scales[i / 8000], d = (i / 4000 % 2 ? -1.0L : 1.0L) * (long double)(i % 4000 + 1000) / 1000.0L; // 1 .. 5 s, so that the unit is known
        const std::string got = U::to_string(d, scale); size_t used = 0; long double val = 0; try { val = std::stold(got, &used); } catch (...) { fail("not a number: " + got); return; }
        const long double step = std::min(std::max(scale, 0.0L), 1.0L);
        if (got.substr(used) != "s" || !(fabsl(val - d) <= step / 2 + 1.1e-6L)) { fail(std::to_string((double)d) + " s rounded to " + std::to_string((double)scale) + " is shown as " + got); return; }
        if (step > 0 && fabsl(val / step - roundl(val / step)) > 1e-4L) { fail(std::to_string((double)d) + " s rounded to " + std::to_string((double)scale) + " is shown as " + got); return; }
        mc::outcome((uint64_t)(val * 1000));
    });
}
#endif
template <class T> static void roots(const std::string& name, long most) {
    each(name + " roots", most, [&](long i, auto fail) {
        if constexpr (std::is_integral_v<T>) {
            const T x = (T)i; const T got = U::sqrt<T>(x); const wide g = (wide)got;
            if (g * g > (wide)x || (g + 1) * (g + 1) <= (wide)x) { fail("root of " + std::to_string(i) + " is " + str(g)); }
            mc::outcome((uint64_t)got);
        }
        else {
            static const T step[] = { T(1), T(0.125), T(0.1), T(1e-6), T(12345.678) }; const T x = (T)(i / 5) * step[i % 5]; const T got = U::sqrt<T>(x);
            const T want = std::sqrt(x); if (!(std::fabs(got - want) <= want * std::numeric_limits<T>::epsilon() * 2)) { fail("root of " + std::to_string(x) + " is " + std::to_string(got)); }
            mc::outcome((uint64_t)(got * 16));
        }
    });
}
static void families() {
    const bool T = mc::thorough();
    roots<uint8_t>("uint8", 256); roots<int8_t>("int8", 128); roots<uint16_t>("uint16", 65536); roots<int16_t>("int16", 32768);
    roots<int>("int", T ? 2000000 : 200000); roots<unsigned>("unsigned", T ? 2000000 : 200000); roots<uint64_t>("uint64", T ? 2000000 : 200000);
    roots<float>("float", T ? 1000000 : 100000); roots<double>("double", T ? 1000000 : 100000);
    each("roots at the limits", 64 * 5, [&](long i, auto fail) {
        const int b = (int)(i / 5), d = (int)(i % 5) - 2; const wide x = ((wide)1 << b) + d; if (x < 0) { return; }
        const auto check = [&](auto t) { using W = decltype(t); if (x > (wide)std::numeric_limits<W>::max() || x > ((wide)1 << 50)) { return; } const wide g = (wide)U::sqrt<W>((W)x); if (g * g > x || (g + 1) * (g + 1) <= x) { fail("root of " + str(x) + " is " + str(g)); } };
        check(uint32_t{}); check(int32_t{}); check(uint64_t{}); check(int64_t{}); mc::outcome((uint64_t)x);
    });
#ifndef CONSTANT
    of<uint8_t>("uint8"); of<int8_t>("int8"); of<uint16_t>("uint16"); of<int16_t>("int16"); of<int>("int"); of<unsigned>("unsigned"); of<int64_t>("int64"); of<uint64_t>("uint64"); of<float>("float"); of<double>("double");
    powers<uint8_t>("uint8"); powers<uint16_t>("uint16"); powers<unsigned>("unsigned"); powers<uint64_t>("uint64");
    products<uint8_t, 2>("uint8 2"); products<uint16_t, 2>("uint16 2"); products<uint32_t, 2>("uint32 2"); products<uint64_t, 1>("uint64 1"); products<uint64_t, 2>("uint64 2"); products<uint64_t, 3>("uint64 3"); products<int32_t, 3>("int32 3"); products<int64_t, 2>("int64 2"); products<uint64_t, 4>("uint64 4");
    if (T) { products<uint32_t, 4>("uint32 4"); products<int64_t, 4>("int64 4"); }
    strings();
#endif
}
#endif

#if PART == 2
#include <chdr.hpp>
template <size_t K> using dims_t = std::array<int, K>;
template <size_t K> static int cells(const dims_t<K>& d) { int n = 1; for (int x : d) { n *= x; } return n; }
// Two grids undergo every sequence of operations; after each one everything they tell about themselves is compared with the model.
template <size_t K, class I, class W> struct contents {
    using C = chdr::coord<I, K>; using G = chdr::mazes::grid<C, W>; using V = std::vector<W>;
    struct model { dims_t<K> d {}; V v; bool moved = false; };
    struct pair { std::unique_ptr<G> g[2]; model m[2]; };
    std::vector<dims_t<K>> shapes; const char* name;
    static C as(const dims_t<K>& d) { C c {}; for (size_t k = 0; k < K; ++k) { c[k] = (I)d[k]; } return c; }
    static W value(int i) { if constexpr (std::is_same_v<W, bool>) { return i % 3 == 1; } else { const W x[] = { W(0), W(1), std::numeric_limits<W>::max(), W(std::numeric_limits<W>::max() - 1), std::numeric_limits<W>::min(), W(7) }; return x[i % 6]; } }
    static V some(int n, int salt) { V v((size_t)n); for (int j = 0; j < n; ++j) { v[(size_t)j] = value(j * j + j * salt + salt); } return v; }
    static constexpr int OPS = 12;
    static const char* opname(int o) { static const char* n[] = { "construct by size", "construct from cells", "construct from moved cells", "set cells", "write first", "write last backwards", "write all", "move-construct from other", "move-assign from other", "swap", "set other cells", "write one in the middle" }; return n[o]; }
    void apply(pair& p, int op, int who, int step) const {
        auto& g = p.g[who]; auto& m = p.m[who]; auto& og = p.g[1 - who]; auto& om = p.m[1 - who]; const auto d = shapes[(size_t)((step + who) % (int)shapes.size())]; const int n = cells<K>(d), have = (int)m.v.size(); const W x = value(step + 1);
        switch (op) {
            case 0: g = std::make_unique<G>(as(d)); m = { d, V((size_t)n), false }; break;
            case 1: { const V v = some(n, step); g = std::make_unique<G>(as(d), v); m = { d, v, false }; break; }
            case 2: { V v = some(n, step); m = { d, v, false }; g = std::make_unique<G>(as(d), std::move(v)); break; }
            case 3: if (!m.moved) { m.v = some(have, step + 3); g->nodes(m.v); } break;
            case 4: if (!m.moved) { *g->begin() = x; m.v[0] = x; } break;
            case 5: if (!m.moved) { *g->rbegin() = x; m.v[(size_t)have - 1] = x; } break;
            case 6: if (!m.moved) { int j = 0; for (auto&& c : *g) { c = value(j + step); m.v[(size_t)j] = value(j + step); ++j; } } break;
            case 7: if (!om.moved) { g = std::make_unique<G>(std::move(*og)); m = om; om.moved = true; } break;
            case 8: if (!om.moved) { *g = std::move(*og); m = om; om.moved = true; } break;
            case 9: std::swap(*g, *og); std::swap(m, om); break;
            case 10: if (!m.moved) { V v = some(have, step + 9); g->nodes(std::as_const(v)); m.v = v; v.assign(v.size(), W(0)); } break;
            case 11: if (!m.moved) { *(g->begin() + have / 2) = x; m.v[(size_t)have / 2] = x; } break;
        }
    }
    static std::string differs(const G& g, G& mut, const model& m) {
        const size_t n = m.v.size(); constexpr W obstructed = std::numeric_limits<W>::max();
        if (g.count() != n || g.nodes() != m.v) { return "cells"; }
        for (size_t k = 0; k < K; ++k) { if ((int)g.size()[k] != m.d[k]) { return "size"; } }
        if (!std::equal(g.begin(), g.end(), m.v.begin(), m.v.end()) || !std::equal(g.cbegin(), g.cend(), m.v.begin(), m.v.end()) || !std::equal(mut.begin(), mut.end(), m.v.begin(), m.v.end())) { return "iteration"; }
        if (!std::equal(g.rbegin(), g.rend(), m.v.rbegin(), m.v.rend()) || !std::equal(g.crbegin(), g.crend(), m.v.rbegin(), m.v.rend()) || !std::equal(mut.rbegin(), mut.rend(), m.v.rbegin(), m.v.rend())) { return "reverse iteration"; }
        const auto inside = [&](auto id) { return (long double)id >= 0 && (long double)id < (long double)n; };
        for (long j = 0; j <= (long)n + 3; ++j) {
            if (g.contains((size_t)j) != inside(j) || g.contains((int)j) != inside(j) || g.contains((unsigned)j) != inside(j) || g.contains((I)j) != inside((I)j) || g.contains((unsigned short)j) != inside(j) || g.contains((unsigned char)j) != inside((unsigned char)j) || g.contains((signed char)j) != inside((signed char)j)) { return "containment of index " + std::to_string(j); }
            if (j >= (long)n) { continue; }
            const W w = m.v[(size_t)j]; dims_t<K> x {}; long r = j; for (size_t k = 0; k < K; ++k) { x[k] = (int)(r % m.d[k]); r /= m.d[k]; }
            const auto same = [&](const auto& c) { return c.value() == w && c.is_active() == (w != obstructed); };
            if (!same(g[(size_t)j]) || !same(g[(int)j]) || !same(g[(I)j]) || !same(g[as(x)])) { return "cell " + std::to_string(j); }
        }
        for (int j : { -1, -2, -1000, std::numeric_limits<int>::min() }) { if (g.contains(j) || g.contains((long)j)) { return "containment of a negative index"; } }
        for (size_t j : { ~size_t(0), ~size_t(0) / 2, size_t(1) << 32, (size_t(1) << 32) + 1, (size_t(1) << 8) + 1 }) { if (j >= n && g.contains(j)) { return "containment of a huge index"; } }
        return "";
    }
    void run(int depth) const {
        long total = 1; for (int k = 0; k < depth; ++k) { total *= OPS * 2; }
        const auto desc = [&](long i) { std::string t = std::string("grid ") + name + ":"; for (int k = 0; k < depth; ++k) { t += std::string(k ? "; " : " ") + opname((int)(i % (OPS * 2) / 2)) + (i % 2 ? " (second)" : " (first)"); i /= OPS * 2; } return t; };
        mc::explore(name, total, desc, [&](long i) {
            const long id = i; pair p; for (int w = 0; w < 2; ++w) { apply(p, w ? 1 : 2, w, w); }
            uint64_t h = 5;
            for (int k = 0; k <= depth; ++k) {
                for (int w = 0; w < 2; ++w) { if (!p.m[w].moved) { const auto t = differs(*p.g[w], *p.g[w], p.m[w]); mc::sh->transitions++; if (!t.empty()) { mc::report("contents", "", desc(id) + " :: wrong " + t + " after step " + std::to_string(k)); return; } } }
                if (k == depth) { break; }
                apply(p, (int)(i % (OPS * 2) / 2), (int)(i % 2), k + 2); i /= OPS * 2;
            }
            for (auto& m : p.m) { h = mc::mix(h, m.moved); for (int x : m.d) { h = mc::mix(h, (uint64_t)x); } for (W x : m.v) { h = mc::mix(h, (uint64_t)x); } }
            mc::outcome(h); mc::sh->nontrivial++; if (id == total / 3) { mc::sample(desc(id)); }
        });
    }
    // every content of every shape with at most `most` cells, over {free, free, obstructed}
    static void all(const char* name, int side, int most) {
        std::vector<dims_t<K>> s; std::vector<long> base { 0 }; dims_t<K> box; box.fill(side);
        for (int i = 0; i < cells<K>(box); ++i) { dims_t<K> d; int r = i; for (auto& x : d) { x = r % side + 1; r /= side; } if (cells<K>(d) > most) { continue; } s.push_back(d); long n = 1; for (int j = 0; j < cells<K>(d); ++j) { n *= std::is_same_v<W, bool> ? 2 : 3; } base.push_back(base.back() + n); }
        const auto make = [&](long i, model& m) { size_t k = 0; while (i >= base[k + 1]) { ++k; } i -= base[k]; m.d = s[k]; m.v.assign((size_t)cells<K>(s[k]), W(0)); const int b = std::is_same_v<W, bool> ? 2 : 3; for (size_t j = 0; j < m.v.size(); ++j) { const int x = (int)(i % b); m.v[j] = x == 0 ? W(0) : x == b - 1 ? std::numeric_limits<W>::max() : W(std::numeric_limits<W>::max() - 1); i /= b; } };
        const auto desc = [&](long i) { model m; make(i, m); std::string t = std::string("grid ") + name + " "; for (size_t k = 0; k < K; ++k) { t += (k ? "x" : "") + std::to_string(m.d[k]); } t += " cells="; for (W x : m.v) { t += x == std::numeric_limits<W>::max() ? '#' : x == W(0) ? '.' : 'o'; } return t; };
        mc::explore(name, base.back(), desc, [&](long i) {
            model m; make(i, m); V copy = m.v; G a(as(m.d), m.v), b(as(m.d), std::move(copy)); mc::sh->transitions += 2; mc::sh->nontrivial++;
            for (G* g : { &a, &b }) { const auto t = differs(*g, *g, m); if (!t.empty()) { mc::report("contents", "", desc(i) + " :: wrong " + t); return; } }
            mc::outcome((uint64_t)i + 1);
        });
    }
};
static void families() {
    const bool T = mc::thorough(); const int D = T ? 4 : 3;
    contents<1, size_t, char>      { { { 3 }, { 1 }, { 70 } }, "1d" }.run(D);
    contents<2, uint32_t, bool>    { { { 3, 2 }, { 1, 1 }, { 9, 8 }, { 2, 5 } }, "2d bits" }.run(D);
    contents<2, int32_t, int32_t>  { { { 3, 2 }, { 1, 1 }, { 4, 4 } }, "2d signed" }.run(D);
    contents<2, uint8_t, uint8_t>  { { { 3, 2 }, { 1, 4 }, { 15, 16 } }, "2d narrow" }.run(D);
    contents<3, size_t, uint64_t>  { { { 3, 2, 1 }, { 2, 2, 3 } }, "3d wide" }.run(D);
    contents<3, int16_t, bool>     { { { 3, 2, 1 }, { 4, 4, 5 } }, "3d signed bits" }.run(D);
    contents<4, uint16_t, int16_t> { { { 2, 3, 1, 2 }, { 1, 1, 1, 1 } }, "4d" }.run(D);
    contents<5, int32_t, int8_t>   { { { 2, 1, 2, 1, 3 }, { 1, 1, 1, 1, 1 } }, "5d" }.run(D);
    contents<1, uint16_t, char>    { { { 256 }, { 300 } }, "1d many" }.run(1);
    contents<2, uint32_t, bool>    { { { 16, 16 }, { 17, 19 } }, "2d many bits" }.run(1);
    contents<1, uint8_t, int8_t>::all("1d contents", 8, T ? 9 : 8);
    contents<2, int16_t, uint16_t>::all("2d contents", 8, T ? 9 : 8);
    contents<2, uint32_t, bool>::all("2d bit contents", 12, T ? 16 : 12);
    contents<3, uint32_t, int64_t>::all("3d contents", 3, 8);
    contents<3, int8_t, bool>::all("3d bit contents", 3, 12);
    contents<4, size_t, char>::all("4d contents", 2, 8);
}
#endif

int main(int argc, char** argv) { mc::init(argc, argv); families(); return 0; }
