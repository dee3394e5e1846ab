// Exhaustive exploration of operation sequences on the memory pools against a shadow model of the memory in use.
// PART 1: monotonic, 2: homogeneous, 3: heterogeneous. Every block handed out is filled with a pattern of its own, and
// every upstream block is accounted for.
#include "mc.hpp"
#include <chdr.hpp>
#include <algorithm>
#include <map>
#include <memory>
#include <memory_resource>

#ifndef PART
#define PART 1
#endif

// Upstream: the pools take their blocks from the aligned operator new. Each is recorded; a run can make one fail.
namespace up {
    struct blk { size_t n, a; long serial; };
    static std::map<uintptr_t, blk>* live = nullptr;
    static long serial = 0, draws = 0; static const char* wrong = nullptr;
    static bool on = false;
}
void* operator new(size_t n, std::align_val_t a) {
    if (n > (size_t(1) << 40)) { throw std::bad_alloc(); }
    void* p = nullptr; if (posix_memalign(&p, std::max(sizeof(void*), (size_t)a), n ? n : 1)) { throw std::bad_alloc(); }
    if (up::on) { up::on = false; (*up::live)[(uintptr_t)p] = { n, (size_t)a, up::serial++ }; up::draws++; up::on = true; }
    return p;
}
void operator delete(void* p, std::align_val_t a) noexcept {
    if (up::on && p) {
        up::on = false; auto it = up::live->find((uintptr_t)p);
        if (it == up::live->end()) { up::wrong = "upstream memory returned that is not held"; up::on = true; return; }
        if (it->second.a != (size_t)a) { up::wrong = "upstream memory returned with another alignment"; }
        up::live->erase(it); up::on = true;
    }
    free(p);
}
void operator delete(void* p, size_t, std::align_val_t a) noexcept { operator delete(p, a); }

struct use { unsigned char* p = nullptr; size_t n = 0, a = 1; unsigned char mark = 0; };

template <class P> struct pool_space {
    static constexpr bool MONO = PART == 1, HOMO = PART == 2;
    struct world {
        std::unique_ptr<P> pool[2]; std::vector<use> live[2]; unsigned char mark = 1; std::string bad; bool just = false; size_t jn = 0, ja = 0;
        size_t width;
        explicit world(size_t w) : width(w) { for (auto& p : pool) { p = make(w); } }
        static std::unique_ptr<P> make(size_t w) { if constexpr (MONO) { return std::make_unique<P>(w); } else { return std::make_unique<P>(w, size_t(1)); } }
    };
    static bool inside(const P* pool, const unsigned char* p, size_t n) { // in the pool's own buffer or in one upstream block
        const auto x = (uintptr_t)p, b = (uintptr_t)pool;
        if (x >= b && x + n <= b + sizeof(P)) { return true; }
        auto it = up::live->upper_bound(x); if (it == up::live->begin()) { return false; } --it;
        return x + n <= it->first + it->second.n;
    }
    static void intact(world& w) {
        for (auto& l : w.live) { for (auto& u : l) { for (size_t i = 0; i < u.n; ++i) { if (u.p[i] != u.mark) { w.bad = "contents of a block in use changed"; return; } } } }
    }
    static void alloc(world& w, int k, size_t n, size_t a) {
        bool had = false; if (HOMO) { had = w.just; } else { had = w.just && w.jn == n && w.ja == a; } // a block of this shape was returned and not handed out again
        const long draws = up::draws; unsigned char* p;
        try { p = static_cast<unsigned char*>(w.pool[k]->allocate(n, a)); }
        catch (const std::bad_alloc&) { if (n < (size_t(1) << 40)) { w.bad = "allocation failed although memory is left"; } return; }
        w.just = false;
        if (n >= (size_t(1) << 40)) { w.bad = "an impossible allocation succeeded"; return; }
        if (p == nullptr) { w.bad = "null block"; return; }
        if ((uintptr_t)p % a) { w.bad = "misaligned block"; return; }
        if (!inside(w.pool[k].get(), p, n)) { w.bad = "block reaches beyond the memory of the pool"; return; }
        for (auto& l : w.live) { for (auto& u : l) { if (p < u.p + u.n && u.p < p + n) { w.bad = "block overlaps one in use"; return; } } }
        if (!MONO && had && k == 0 && up::draws != draws) { w.bad = "new memory drawn although a returned block fits"; return; }
        memset(p, w.mark, n); w.live[k].push_back({ p, n, a, w.mark++ });
    }
    static void dealloc(world& w, int k, size_t i) {
        if (i >= w.live[k].size()) { return; }
        intact(w); use u = w.live[k][i]; memset(u.p, 0xEE, u.n); w.live[k].erase(w.live[k].begin() + (long)i);
        w.pool[k]->deallocate(u.p, u.n, u.a); if (k == 0) { w.just = true; w.jn = u.n; w.ja = u.a; }
    }
    // What lies in the pool's own buffer stays behind when the pool moves.
    static void leave(world& w, int k, const P* old) {
        auto& l = w.live[k]; const auto b = (uintptr_t)old;
        l.erase(std::remove_if(l.begin(), l.end(), [&](const use& u) { const auto x = (uintptr_t)u.p; return x >= b && x < b + sizeof(P); }), l.end());
    }
    struct op { std::string name; std::function<void(world&)> run; };
    static void check(world& w) {
        if (!w.bad.empty()) { return; }
        if (up::wrong) { w.bad = up::wrong; up::wrong = nullptr; return; }
        intact(w);
        uint64_t h = 9; for (int k = 0; k < 2; ++k) { for (auto& u : w.live[k]) {
            const auto x = (uintptr_t)u.p, b = (uintptr_t)w.pool[k].get();
            if (x >= b && x < b + sizeof(P)) { h = mc::mix(h, x - b); } else { auto it = std::prev(up::live->upper_bound(x)); h = mc::mix(h, (uint64_t)it->second.serial * 100003 + (x - it->first)); }
        } h = mc::mix(h, 1234567); } mc::outcome(h);
    }
    static std::vector<op> alphabet(std::vector<std::pair<size_t, size_t>> shapes) {
        std::vector<op> r;
        for (auto [n, a] : shapes) { r.push_back({ "take " + std::to_string(n) + "/" + std::to_string(a), [n = n, a = a](world& w) { alloc(w, 0, n, a); } }); }
        const auto s0 = shapes[0];
        r.push_back({ "take from other", [s0](world& w) { alloc(w, 1, s0.first, s0.second); } });
        r.push_back({ "return oldest", [](world& w) { dealloc(w, 0, 0); } });
        r.push_back({ "return second", [](world& w) { dealloc(w, 0, 1); } });
        r.push_back({ "return newest", [](world& w) { if (!w.live[0].empty()) { dealloc(w, 0, w.live[0].size() - 1); } } });
        r.push_back({ "reset", [](world& w) { intact(w); w.pool[0]->reset(); w.live[0].clear(); w.just = false; } });
        r.push_back({ "release", [](world& w) { intact(w); w.pool[0]->release(); w.live[0].clear(); w.just = false; } });
        r.push_back({ "move into new", [s0](world& w) { // what the source hands out afterwards goes down with it
            leave(w, 0, w.pool[0].get()); auto fresh = std::make_unique<P>(std::move(*w.pool[0])); intact(w); w.just = false;
            const size_t before = w.live[0].size();
            alloc(w, 0, s0.first, s0.second); alloc(w, 0, s0.first, s0.second); intact(w);
            w.live[0].resize(std::min(before, w.live[0].size())); w.pool[0] = std::move(fresh); } });
        r.push_back({ "move into other", [](world& w) {
            leave(w, 0, w.pool[0].get()); *w.pool[1] = std::move(*w.pool[0]); w.live[1] = std::move(w.live[0]); w.live[0].clear(); w.just = false; intact(w); } });
        return r;
    }
    template <class F> static void guarded(world*& w, size_t width, F&& f) {
        std::map<uintptr_t, up::blk> m; up::live = &m; up::serial = up::draws = 0; up::wrong = nullptr; up::on = true;
        w = new world(width); f(*w);
        std::string bad = w->bad; delete w; up::on = false;
        if (bad.empty() && up::wrong) { bad = up::wrong; }
        if (bad.empty() && !m.empty()) { bad = "upstream memory was never returned"; }
        for (auto& [p, b] : m) { free((void*)p); }
        w = nullptr; last = bad;
    }
    static inline std::string last;

    static void words(const std::string& name, size_t width, std::vector<std::pair<size_t, size_t>> shapes, int len) {
        const auto ops = alphabet(shapes); const long A = (long)ops.size(); long total = 1; for (int k = 0; k < len; ++k) { total *= A; }
        const auto desc = [&](long i) { std::string t = name + " width " + std::to_string(width) + ": "; for (int k = 0; k < len; ++k) { t += (k ? "; " : "") + ops[(size_t)(i % A)].name; i /= A; } return t; };
        mc::explore(name, total, desc, [&](long i) {
            world* w; long c = i; bool some = false;
            guarded(w, width, [&](world& x) { for (int k = 0; k < len && x.bad.empty(); ++k) { ops[(size_t)(c % A)].run(x); c /= A; mc::sh->transitions++; check(x); some |= x.live[0].size() > 1; } });
            if (some) { mc::sh->nontrivial++; }
            if (!last.empty()) { mc::report("pool", "", desc(i) + " :: " + last); }
            if (some && mc::sh->nsamples < 1) { mc::sample(desc(i)); }
        });
    }
    // Take n blocks of every combination of shapes, return some of them in every order, take further blocks.
    static void churn(const std::string& name, size_t width, std::vector<std::pair<size_t, size_t>> first, std::vector<std::pair<size_t, size_t>> then, int n, int back, int m, bool reset_between = false) {
        std::vector<std::vector<int>> orders; std::vector<int> pick(n); for (int i = 0; i < n; ++i) { pick[i] = i; }
        std::function<void(std::vector<int>&, unsigned)> rec = [&](std::vector<int>& cur, unsigned used) { if ((int)cur.size() == back) { orders.push_back(cur); return; } for (int i = 0; i < n; ++i) { if (!(used >> i & 1)) { cur.push_back(i); rec(cur, used | 1u << i); cur.pop_back(); } } };
        std::vector<int> cur; rec(cur, 0);
        long F = 1, G = 1; for (int k = 0; k < n; ++k) { F *= (long)first.size(); } for (int k = 0; k < m; ++k) { G *= (long)then.size(); }
        const auto desc = [&](long i) {
            std::string t = name + " width " + std::to_string(width) + ": take"; long f = i % F; i /= F; auto& o = orders[(size_t)(i % (long)orders.size())]; i /= (long)orders.size();
            for (int k = 0; k < n; ++k) { t += " " + std::to_string(first[(size_t)(f % (long)first.size())].first) + "/" + std::to_string(first[(size_t)(f % (long)first.size())].second); f /= (long)first.size(); }
            t += "; return"; for (int x : o) { t += " #" + std::to_string(x); } if (reset_between) { t += "; reset"; } t += "; take"; for (int k = 0; k < m; ++k) { t += " " + std::to_string(then[(size_t)(i % (long)then.size())].first) + "/" + std::to_string(then[(size_t)(i % (long)then.size())].second); i /= (long)then.size(); }
            return t;
        };
        mc::explore(name, F * (long)orders.size() * G, desc, [&](long i0) {
            long i = i0; world* w; long f = i % F; i /= F; auto& o = orders[(size_t)(i % (long)orders.size())]; i /= (long)orders.size();
            guarded(w, width, [&](world& x) {
                std::vector<unsigned char*> at;
                for (int k = 0; k < n && x.bad.empty(); ++k) { auto s = first[(size_t)(f % (long)first.size())]; f /= (long)first.size(); alloc(x, 0, s.first, s.second); if (x.bad.empty()) { at.push_back(x.live[0].back().p); } mc::sh->transitions++; check(x); }
                if (!x.bad.empty()) { return; }
                std::vector<std::pair<size_t, size_t>> returned;
                for (int q : o) { size_t idx = 0; while (idx < x.live[0].size() && x.live[0][idx].p != at[(size_t)q]) { ++idx; } if (idx < x.live[0].size()) { returned.emplace_back(x.live[0][idx].n, x.live[0][idx].a); } dealloc(x, 0, idx); mc::sh->transitions++; check(x); if (!x.bad.empty()) { return; } }
                if (reset_between) { x.pool[0]->reset(); x.live[0].clear(); x.just = false; }
                const long held = (long)up::live->size();
                for (int k = 0; k < m && x.bad.empty(); ++k) { auto s = then[(size_t)(i % (long)then.size())]; i /= (long)then.size(); alloc(x, 0, s.first, s.second); mc::sh->transitions++; check(x); }
                if (HOMO && x.bad.empty() && !reset_between && m <= back && (long)up::live->size() > held) { x.bad = "new memory drawn although returned blocks are left"; }
                intact(x);
            });
            mc::sh->nontrivial++;
            if (!last.empty()) { mc::report("pool", "", desc(i0) + " :: " + last); }
            if (mc::sh->nsamples < 1) { mc::sample(desc(i0)); }
        });
    }
};

int main(int argc, char** argv) {
    mc::init(argc, argv);
    constexpr size_t ANY = ~size_t(0);
    const bool T = mc::thorough();
    using shapes = std::vector<std::pair<size_t, size_t>>;
#if PART == 1
    const shapes mixed { { 8, 8 }, { 1, 1 }, { 24, 8 }, { 16, 32 }, { 100, 16 }, { 40, 64 }, { ANY - 7, 8 } };
    pool_space<chdr::monotonic_pool<64, ANY, 512>>::words("small", 64, mixed, T ? 6 : 5);
    pool_space<chdr::monotonic_pool<64, 16, 128>>::words("big to heap", 16, mixed, T ? 6 : 5);
    pool_space<chdr::monotonic_pool<>>::words("default", 4096, { { 8, 8 }, { 4000, 16 }, { 70000, 64 }, { 300, 4 }, { 1, 1 } }, T ? 6 : 5);
    pool_space<chdr::monotonic_pool<32, ANY, 256>>::churn("refill", 32, { { 8, 8 }, { 3, 1 }, { 20, 4 }, { 48, 16 } }, { { 8, 8 }, { 64, 32 }, { 300, 2 } }, 6, 0, 3, true);
#elif PART == 2
    using small = chdr::homogeneous_pool<64, ANY, 512>; using odd = chdr::homogeneous_pool<40, ANY, 128>; using heap_only = chdr::homogeneous_pool<64, 4, 256>;
    pool_space<small>::words("8/8", 64, { { 8, 8 } }, T ? 8 : 7);
    pool_space<odd>::words("24/8", 48, { { 24, 8 } }, T ? 8 : 7);
    pool_space<odd>::words("5/1", 12, { { 5, 1 } }, T ? 8 : 6);
    pool_space<heap_only>::words("16/16", 32, { { 16, 16 } }, T ? 8 : 7);
    pool_space<small>::words("40/64", 128, { { 40, 64 } }, T ? 8 : 6);
    pool_space<small>::words("12/4", 12, { { 12, 4 } }, T ? 8 : 6);
    pool_space<chdr::homogeneous_pool<>>::words("default", 4096, { { 4096, 8 } }, T ? 7 : 6);
    pool_space<odd>::churn("churn 24/8", 48, { { 24, 8 } }, { { 24, 8 } }, T ? 8 : 7, T ? 7 : 6, 6);
    pool_space<heap_only>::churn("churn 12/4", 40, { { 12, 4 } }, { { 12, 4 } }, 7, 5, 7);
    pool_space<odd>::churn("reset 12/4", 40, { { 12, 4 } }, { { 12, 4 } }, 12, 2, 14, true);
    pool_space<small>::churn("reset 40/64", 64, { { 40, 64 } }, { { 40, 64 } }, 12, 2, 12, true);
#else
    const shapes mixed { { 8, 8 }, { 1, 1 }, { 24, 8 }, { 16, 32 }, { 100, 16 }, { ANY - 7, 8 } };
    using small = chdr::heterogeneous_pool<64, ANY, 512>; using tiny = chdr::heterogeneous_pool<32, 16, 128>; using plain = chdr::heterogeneous_pool<64, ANY, 256, false>;
    pool_space<small>::words("small", 64, mixed, T ? 6 : 5);
    pool_space<tiny>::words("big to heap", 24, mixed, T ? 6 : 5);
    pool_space<plain>::words("no coalescing", 40, mixed, T ? 6 : 5);
    pool_space<chdr::heterogeneous_pool<>>::words("default", 4096, { { 8, 8 }, { 4000, 16 }, { 70000, 64 }, { 300, 4 } }, T ? 6 : 5);
    pool_space<tiny>::churn("churn", 64, { { 8, 8 }, { 16, 8 }, { 24, 8 } }, { { 8, 8 }, { 24, 8 }, { 48, 16 }, { 72, 8 } }, 5, T ? 5 : 4, T ? 3 : 2);
    pool_space<small>::churn("churn aligned", 96, { { 4, 4 }, { 16, 32 }, { 10, 2 } }, { { 10, 2 }, { 16, 32 }, { 64, 64 } }, 5, 4, T ? 3 : 2);
    pool_space<plain>::churn("churn apart", 64, { { 8, 8 }, { 24, 8 } }, { { 8, 8 }, { 16, 16 }, { 24, 8 } }, 5, 5, 3);
    pool_space<tiny>::churn("reset", 24, { { 8, 8 }, { 40, 4 }, { 3, 1 } }, { { 8, 8 }, { 16, 32 }, { 60, 4 } }, 5, 1, 4, true);
#endif
    return 0;
}
