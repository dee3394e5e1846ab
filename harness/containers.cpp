// Exhaustive exploration of operation sequences on the containers, each replayed on the real container next to a
// reference model. PART 1: heap, PART 2: stack and queue, PART 3: existence_set.
#define HEAP_SUPPRESS_EXCEPTION_WARNING
#include "mc.hpp"
#include <chdr.hpp>
#include <algorithm>
#include <array>
#include <deque>
#include <map>
#include <memory_resource>
#include <set>

#ifndef PART
#define PART 1
#endif

// A resource that tells memory of one instance from that of another: returning memory to the wrong one is reported.
struct audit final : std::pmr::memory_resource {
    static inline std::string wrong;
    std::map<void*, std::pair<size_t, size_t>> held;
    ~audit() override { for (auto& [p, x] : held) { ::operator delete(p, std::align_val_t(x.second)); } }
    void* do_allocate(size_t n, size_t a) override { void* p = ::operator new(n, std::align_val_t(a)); held[p] = { n, a }; return p; }
    void do_deallocate(void* p, size_t n, size_t a) override {
        auto it = held.find(p);
        if (it == held.end()) { wrong = "memory returned to a resource it was not taken from"; return; }
        if (it->second != std::make_pair(n, a)) { wrong = "memory returned with another size or alignment"; return; }
        held.erase(it); ::operator delete(p, std::align_val_t(a));
    }
    bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
};

// An element that notices when it is used after having been moved from.
struct item {
    int p = -9, id = -9; bool dead = false;
    static inline bool misuse = false;
    item() = default;
    item(int p_, int i) : p(p_), id(i) {}
    item(const item& o) : p(o.p), id(o.id), dead(o.dead) { misuse |= o.dead; }
    item(item&& o) noexcept : p(o.p), id(o.id), dead(o.dead) { misuse |= o.dead; o.dead = true; }
    item& operator=(const item& o) { misuse |= o.dead; p = o.p; id = o.id; dead = o.dead; return *this; }
    item& operator=(item&& o) noexcept { if (this != &o) { misuse |= o.dead; p = o.p; id = o.id; dead = o.dead; o.dead = true; } return *this; }
    bool operator<(const item& o) const { misuse |= dead || o.dead; return p < o.p; }
    bool operator>(const item& o) const { misuse |= dead || o.dead; return p > o.p; }
    bool operator==(const item& o) const { return p == o.p && id == o.id; }
};

template <class Op> static std::string word(const std::vector<Op>& ops, long i, int len) {
    std::string t; for (int k = 0; k < len; ++k) { t += (k ? "; " : "") + std::string(ops[(size_t)(i % (long)ops.size())].name); i /= (long)ops.size(); } return t;
}
static long power(long b, int e) { long r = 1; while (e-- > 0) { r *= b; } return r; }

#if PART == 1
template <size_t Kd, class Cmp> struct heap_space {
    using H = chdr::heap<item, Cmp, std::pmr::vector<item>, Kd>;
    struct world { H h; std::vector<std::pair<int, int>> model; int next = 0; std::string bad;
        int rank(int p) const { return std::is_same_v<Cmp, std::less<item>> ? p : -p; } // greater: more urgent
    };
    static void check(world& w) {
        if (!w.bad.empty()) { return; }
        H& h = w.h; const H& ch = h; auto& m = w.model;
        if (item::misuse) { w.bad = "element used after it was moved from"; item::misuse = false; return; }
        if (h.size() != m.size() || h.empty() != m.empty()) { w.bad = "size " + std::to_string(h.size()) + " instead of " + std::to_string(m.size()); return; }
        std::vector<std::pair<int, int>> a, b, c, d;
        uint64_t st = 77;
        for (size_t i = 0; i < h.size(); ++i) { a.emplace_back(h.at(i).p, h.at(i).id); if (!(h[i] == h.at(i))) { w.bad = "at and [] disagree"; } st = mc::mix(st, (uint64_t)(h.at(i).p + 7)); }
        mc::outcome(st);
        for (auto it = ch.begin(); it != ch.end(); ++it) { b.emplace_back(it->p, it->id); }
        for (auto it = h.rbegin(); it != h.rend(); ++it) { c.emplace_back(it->p, it->id); if (c.size() > a.size()) { break; } }
        for (auto& x : h) { d.emplace_back(x.p, x.id); }
        std::reverse(c.begin(), c.end());
        if (a != b || a != c || a != d) { w.bad = "iteration and indexing disagree"; return; }
        auto sa = a, sm = m; std::sort(sa.begin(), sa.end()); std::sort(sm.begin(), sm.end());
        if (sa != sm) { w.bad = "contents differ from those of the model"; return; }
        if (!m.empty()) {
            int best = -1000; for (auto& x : m) { best = std::max(best, w.rank(x.first)); }
            if (w.rank(h.top().p) != best || w.rank(ch.top().p) != best || w.rank(h.front().p) != best || w.rank(ch.front().p) != best) { w.bad = "top is not the most urgent element"; return; }
            if (!(h.back() == h.at(h.size() - 1)) || !(ch.back() == h.back())) { w.bad = "back is not the last element"; return; }
            for (auto& x : h) { if (!h.contains(x)) { w.bad = "an element is not reported as contained"; return; } }
            for (int v = -1; v < 5; ++v) { // the first element not less (not more) urgent than a value is the top or there is none
                const int r = w.rank(v);
                if ((h.lower_bounds(item(v, 0)) == h.end()) != (best < r) || (h.upper_bounds(item(v, 0)) == h.end()) != (best <= r)) { w.bad = "bounds are wrong"; return; }
            }
        }
    }
    static void drain(world& w) {
        if (!w.bad.empty()) { return; }
        H copy(w.h); H moved(std::move(copy)); int last = 1000; auto m = w.model; size_t k = 0;
        while (!moved.empty()) {
            std::pair<int, int> t { moved.top().p, moved.top().id };
            if (k++ % 2) { moved.pop(); } else { item x = moved.dequeue(); if (!(x == item(t.first, t.second))) { w.bad = "dequeue returned something else than the top"; return; } }
            if (w.rank(t.first) > last) { w.bad = "elements leave out of order"; return; }
            last = w.rank(t.first);
            auto it = std::find(m.begin(), m.end(), t); if (it == m.end()) { w.bad = "an element left twice or was never put in"; return; } m.erase(it);
            if (k > 64) { w.bad = "does not run empty"; return; }
        }
        if (!m.empty()) { w.bad = "elements are missing"; }
        mc::sh->transitions += (long)k;
        if (item::misuse) { w.bad = "element used after it was moved from"; item::misuse = false; }
    }
    static void gone(world& w, const item& x) { auto it = std::find(w.model.begin(), w.model.end(), std::make_pair(x.p, x.id)); if (it == w.model.end()) { w.bad = "unknown element"; } else { w.model.erase(it); } }

    struct op { const char* name; void (*run)(world&); };
    static void add(world& w, int p, int how) {
        item x(p, w.next++); w.model.emplace_back(p, x.id);
        switch (how) {
            case 0: w.h.push(x); break;
            case 1: w.h.push(std::move(x)); break;
            case 2: w.h.emplace(p, x.id); break;
            case 3: w.h.enqueue(static_cast<const item&>(x)); break;
            case 4: { auto it = w.h.insert(w.h.begin(), x); if (!(*it == x)) { w.bad = "insert returned another position"; } } break;
            case 5: { std::array<item, 1> r { x }; w.h.insert(r.begin(), r.end()); } break;
            case 6: w.h.push_nosort(x); w.h.sort_up(w.h.back()); break;
            case 7: w.h.enqueue(p, x.id); break;
            case 8: { item y = x; auto it = w.h.insert(w.h.end(), std::move(y)); if (!(*it == x)) { w.bad = "insert returned another position"; } } break;
            case 9: w.h.emplace_nosort(p, x.id); w.h.sort_up(w.h.back()); break;
            default: break;
        }
    }
    static void erase_at(world& w, size_t i, bool by_iterator) {
        if (i >= w.h.size()) { return; }
        item x = w.h.at(i); gone(w, x);
        if (by_iterator) { w.h.erase(w.h.begin() + (long)i); } else { w.h.erase(w.h[i]); }
    }
    static void change(world& w, size_t i, int to) { // raise or lower one element, then restore the order the way the searches do
        if (i >= w.h.size()) { return; }
        item& x = *(w.h.begin() + (long)i); const int from = w.rank(x.p);
        for (auto& m : w.model) { if (m.second == x.id) { m.first = to; } }
        x.p = to;
        if (w.rank(to) > from) { w.h.sort_up(x); } else { w.h.sort_down(x); }
    }
    static std::vector<op> alphabet() {
        return {
            { "push 0",      [](world& w) { add(w, 0, 0); } },
            { "push 1",      [](world& w) { add(w, 1, 1); } },
            { "emplace 2",   [](world& w) { add(w, 2, 2); } },
            { "insert 3",    [](world& w) { add(w, 3, 4); } },
            { "insert range 1", [](world& w) { add(w, 1, 5); } },
            { "push unsorted 3, sort it up", [](world& w) { add(w, 3, 6); } },
            { "pop",         [](world& w) { if (!w.h.empty()) { item x = w.h.top(); gone(w, x); w.h.pop(); } } },
            { "dequeue",     [](world& w) { if (!w.h.empty()) { item x = w.h.top(); gone(w, x); item y = w.h.dequeue(); if (!(x == y)) { w.bad = "dequeue returned something else than the top"; } } } },
            { "pop back",    [](world& w) { if (!w.h.empty()) { item x = w.h.back(); gone(w, x); w.h.pop_back(); } } },
            { "erase first", [](world& w) { erase_at(w, 0, false); } },
            { "erase second",[](world& w) { erase_at(w, 1, true); } },
            { "erase last",  [](world& w) { if (!w.h.empty()) { erase_at(w, w.h.size() - 1, true); } } },
            { "clear",       [](world& w) { w.h.clear(); w.model.clear(); } },
            { "copy",        [](world& w) { H c(w.h); w.h = c; w.h = static_cast<H&>(w.h); } },
            { "move",        [](world& w) { H c(std::move(w.h)); w.h = std::move(c); } },
            { "swap twice",  [](world& w) { H o(size_t(3)); o.push(item(2, 99)); o.swap(w.h); if (w.h.size() != 1 || w.h.top().id != 99 || o.size() != w.model.size()) { w.bad = "swap lost elements"; } w.h.swap(o); w.h.swap(w.h); } },
            { "shrink",      [](world& w) { w.h.shrink_to_fit(); } },
        };
    }
    static std::string name(const char* n) { return std::string(n) + "/arity " + std::to_string(Kd) + (std::is_same_v<Cmp, std::less<item>> ? " max" : " min"); }

    // Every word over the alphabet, from the empty heap.
    static void words(int len) {
        const auto ops = alphabet();
        mc::explore(name("words"), power((long)ops.size(), len), [&](long i) { return name("heap words") + ": " + word(ops, i, len); }, [&](long i) {
            world w; item::misuse = false; long c = i; int pushes = 0;
            for (int k = 0; k < len && w.bad.empty(); ++k) { auto& o = ops[(size_t)(c % (long)ops.size())]; c /= (long)ops.size(); pushes += &o - &ops[0] < 6; o.run(w); mc::sh->transitions++; check(w); }
            drain(w);
            if (pushes > 1) { mc::sh->nontrivial++; }
            if (!w.bad.empty()) { mc::report("heap", "", name("heap words") + ": " + word(ops, i, len) + " :: " + w.bad); }
            if (mc::sh->nsamples < 1 && i % 1000003 == 77777 % power((long)ops.size(), len)) { mc::sample(word(ops, i, len)); }
        });
    }
    // Every priority sequence of n elements, brought in by one of several ways, then every single change at every position.
    static void single(unsigned n, unsigned prios) {
        const long contents = power(prios, (int)n); const unsigned ways = 6, P = n;
        const unsigned changes = 1 + 2 * P + (P + 1) * (P + 2) / 2 + P * (prios + 1) + 10 * prios;
        const auto desc = [=](long i) {
            long ch = i % changes; i /= changes; long way = i % ways; i /= ways; std::string t = name("heap") + " of";
            for (unsigned k = 0; k < n; ++k) { t += " " + std::to_string(i % prios); i /= prios; }
            return t + " built way " + std::to_string(way) + ", then change " + std::to_string(ch);
        };
        mc::explore(name("single") + "/" + std::to_string(n), contents * ways * changes, desc, [=](long i) {
            const long i0 = i; long ch = i % changes; i /= changes; long way = i % ways; i /= ways;
            world w; item::misuse = false; std::pmr::vector<item> init;
            for (unsigned k = 0; k < n; ++k) { const int p = (int)(i % prios); i /= prios; init.emplace_back(p, (int)k); w.model.emplace_back(p, (int)k); }
            w.next = (int)n;
            switch (way) {
                case 0: for (auto& x : init) { w.h.push(x); } break;
                case 1: w.h = H(init); break;
                case 2: { auto c = init; w.h = H(std::move(c)); } break;
                case 3: w.h.insert(init.begin(), init.end()); break;
                case 4: { H o(size_t(2)); for (auto& x : init) { o.push(x); } o.push(item(9, 77)); o.erase(o.begin() + (std::is_same_v<Cmp, std::less<item>> ? 0 : (long)o.size() - 1)); 
                          // whatever was erased, end with the wanted content
                          w.model.clear(); for (auto& x : o) { w.model.emplace_back(x.p, x.id); } w.h = std::move(o); } break;
                case 5: { w.h.reserve(20); for (auto& x : init) { w.h.enqueue(static_cast<const item&>(x)); } H c(w.h); H d(std::move(c)); w.h.swap(d); } break;
                default: break;
            }
            check(w);
            if (w.bad.empty()) {
                unsigned c = (unsigned)ch;
                if (c == 0) {}
                else if ((c -= 1) < 2 * P) { erase_at(w, c / 2, c % 2); }
                else if ((c -= 2 * P) < (P + 1) * (P + 2) / 2) {
                    unsigned a = 0; while (c >= P + 1 - a) { c -= P + 1 - a; ++a; } const unsigned b = a + c; // [a, b)
                    if (b <= w.h.size()) { for (unsigned k = a; k < b; ++k) { item x = w.h.at(k); gone(w, x); } w.h.erase(w.h.begin() + a, w.h.begin() + b); }
                }
                else if ((c -= (P + 1) * (P + 2) / 2) < P * (prios + 1)) { change(w, c / (prios + 1), (int)(c % (prios + 1))); }
                else { c -= P * (prios + 1); add(w, (int)(c / 10), (int)(c % 10)); }
            }
            mc::sh->transitions++; check(w); drain(w);
            if (n > 2) { mc::sh->nontrivial++; }
            if (!w.bad.empty()) { mc::report("heap", "", desc(i0) + " :: " + w.bad); }
        });
    }
    // Every two consecutive changes on every heap of n elements with few priorities.
    static void pairs(unsigned n, unsigned prios) {
        const long contents = power(prios, (int)n); const unsigned P = n, changes = P + P * prios + prios + 1; 
        const auto desc = [=](long i) { std::string t = name("heap") + ":"; long j = i / ((long)changes * changes); for (unsigned k = 0; k < n; ++k) { t += " " + std::to_string(j % prios); j /= prios; } return t + ", then changes " + std::to_string(i % changes) + " and " + std::to_string(i / changes % changes); };
        mc::explore(name("pairs") + "/" + std::to_string(n), contents * changes * changes, desc, [=](long i) {
            world w; item::misuse = false; long j = i / ((long)changes * changes);
            for (unsigned k = 0; k < n; ++k) { add(w, (int)(j % prios), 0); j /= prios; }
            for (int t = 0; t < 2 && w.bad.empty(); ++t) {
                unsigned c = (unsigned)(t ? i / changes % changes : i % changes);
                if (c < P) { erase_at(w, c, c % 2); } else if ((c -= P) < P * prios) { change(w, c / prios, (int)(c % prios)); }
                else if ((c -= P * prios) < prios) { add(w, (int)c, 0); } else if (!w.h.empty()) { item x = w.h.top(); gone(w, x); w.h.pop(); }
                mc::sh->transitions++; check(w);
            }
            drain(w); mc::sh->nontrivial++;
            if (!w.bad.empty()) { mc::report("heap", "", desc(i) + " :: " + w.bad); }
        });
    }
    static void all() {
        const bool T = mc::thorough();
        words(T ? 6 : 5);
        for (unsigned n = 0; n <= (T ? 8u : 7u); ++n) { single(n, 3); }
        if (T) { single(10, 2); single(12, 2); } else { single(9, 2); }
        pairs(T ? 8 : 6, 2);
        if (T) { pairs(6, 3); }
    }
};
// Heaps of plain values and of pointers.
struct by_value { bool operator()(const int* a, const int* b) const { return *a < *b; } };
static void pointers() {
    static int v[4] = { 0, 1, 2, 3 };
    mc::explore("pointers", 256, [](long i) { return "heap of pointers, word " + std::to_string(i); }, [](long i) {
        chdr::heap<int*, by_value> h; std::multiset<int> m; const long i0 = i; bool ok = true;
        for (int k = 0; k < 4; ++k) { h.push(&v[i % 4]); m.insert((int)(i % 4)); i /= 4; ok &= *h.top() == *m.rbegin() && *std::as_const(h).top() == *m.rbegin(); }
        while (!m.empty()) { ok &= *h.top() == *m.rbegin(); m.erase(std::prev(m.end())); h.pop(); mc::sh->transitions++; }
        mc::sh->nontrivial++;
        if (!ok || !h.empty()) { mc::report("heap", "", "heap of pointers, word " + std::to_string(i0) + " :: wrong order"); }
    });
}
#endif

#if PART == 2
template <template <class> class Q, bool LIFO> struct line_space {
    using C = Q<item>;
    struct world { audit r[2]; C q[2] { C(&r[0]), C(&r[1]) }; std::deque<int> m[2]; int next = 0; std::string bad; };
    static void check(world& w) {
        for (int k = 0; k < 2 && w.bad.empty(); ++k) {
            C& q = w.q[k]; const C& cq = q; auto& m = w.m[k];
            if (q.size() != m.size() || q.empty() != m.empty()) { w.bad = "size is " + std::to_string(q.size()) + " instead of " + std::to_string(m.size()); return; }
            if (!m.empty()) {
                const int want = LIFO ? m.back() : m.front();
                if (q.top().id != want || cq.top().id != want || q.front().id != want || cq.front().id != want) { w.bad = "wrong element on top"; return; }
            }
            std::vector<int> a, b, c; for (auto& x : q) { a.push_back(x.id); } for (auto it = cq.begin(); it != cq.end(); ++it) { b.push_back(it->id); }
            for (auto it = q.rbegin(); it != q.rend(); ++it) { c.push_back(it->id); } std::reverse(c.begin(), c.end());
            if (a != b || a != c || a != std::vector<int>(m.begin(), m.end())) { w.bad = "iteration yields other elements"; return; }
        }
        if (item::misuse) { item::misuse = false; w.bad = "element used after it was moved from"; }
        if (!audit::wrong.empty()) { w.bad = audit::wrong; audit::wrong.clear(); }
        uint64_t h = 5; for (auto& m : w.m) { for (int x : m) { h = mc::mix(h, (uint64_t)x + 1); } h = mc::mix(h, 99); } mc::outcome(h);
    }
    struct op { std::string name; std::function<void(world&)> run; };
    static std::vector<op> alphabet() {
        std::vector<op> r;
        for (int k = 0; k < 2; ++k) {
            const std::string n = k ? " b" : " a"; const int o = 1 - k;
            r.push_back({ "push" + n, [k](world& w) { item x(1, w.next++); w.q[k].push(x); if (x.dead) { w.bad = "push of a constant moved from it"; } w.m[k].push_back(x.id); } });
            r.push_back({ "emplace" + n, [k](world& w) { int i = w.next++; w.q[k].emplace(1, i); w.m[k].push_back(i); } });
            if (k == 0) { r.push_back({ "push moved" + n, [k](world& w) { item x(1, w.next++); int i = x.id; w.q[k].push(std::move(x)); w.m[k].push_back(i); } }); }
            r.push_back({ "pop" + n, [k](world& w) { if (!w.q[k].empty()) { w.q[k].pop(); if (LIFO) { w.m[k].pop_back(); } else { w.m[k].pop_front(); } } } });
            r.push_back({ "clear" + n, [k](world& w) { w.q[k].clear(); w.m[k].clear(); } });
            r.push_back({ "assign other to" + n, [k, o](world& w) { w.q[k] = w.q[o]; w.m[k] = w.m[o]; } });
            r.push_back({ "move other to" + n, [k, o](world& w) { w.q[k] = std::move(w.q[o]); w.m[k] = w.m[o]; w.q[o].clear(); w.m[o].clear(); } });
            r.push_back({ "copy of" + n, [k](world& w) { C c(w.q[k]); if (c.size() != w.m[k].size() || (!c.empty() && c.top().id != w.q[k].top().id)) { w.bad = "copy differs"; } C d(std::move(c)); w.q[k] = std::move(d); w.q[k] = static_cast<C&>(w.q[k]); } });
        }
        return r;
    }
    static void all(const char* what) {
        const auto ops = alphabet(); const int len = mc::thorough() ? 6 : 5; const long A = (long)ops.size();
        mc::explore(what, power(A, len), [&](long i) { return std::string(what) + ": " + word_(ops, i, len); }, [&](long i) {
            world w; item::misuse = false; audit::wrong.clear(); long c = i; const long i0 = i; bool two = false;
            for (int k = 0; k < len && w.bad.empty(); ++k) { ops[(size_t)(c % A)].run(w); c /= A; mc::sh->transitions++; check(w); two |= w.m[0].size() + w.m[1].size() > 1; }
            for (int k = 0; k < 2; ++k) { // take everything out in order
                while (w.bad.empty() && !w.m[k].empty()) { int want = LIFO ? w.m[k].back() : w.m[k].front(); if (w.q[k].top().id != want) { w.bad = "elements leave out of order"; } w.q[k].pop(); if (LIFO) { w.m[k].pop_back(); } else { w.m[k].pop_front(); } check(w); }
            }
            if (two) { mc::sh->nontrivial++; }
            if (!w.bad.empty()) { mc::report(what, "", std::string(what) + ": " + word_(ops, i0, len) + " :: " + w.bad); }
            if (mc::sh->nsamples < 1 && two) { mc::sample(word_(ops, i0, len)); }
        });
    }
    static std::string word_(const std::vector<op>& ops, long i, int len) { std::string t; for (int k = 0; k < len; ++k) { t += (k ? "; " : "") + ops[(size_t)(i % (long)ops.size())].name; i /= (long)ops.size(); } return t; }
};
#endif

#if PART == 3
struct hashed { int v; };
namespace std { template <> struct hash<hashed> { size_t operator()(const hashed& x) const noexcept { return (size_t)x.v; } }; }
template <class W> struct set_space {
    using S = chdr::existence_set<W>;
    struct world { audit r; S s { &r }; S other { size_t(5) }; std::set<size_t> m; std::string bad; };
    static void check(world& w) {
        S& s = w.s; const S& cs = s;
        uint64_t h = 3;
        for (size_t x = 0; x < 160; ++x) { if (cs.contains(x) != (w.m.count(x) > 0)) { w.bad = std::to_string(x) + (w.m.count(x) ? " is missing" : " was never put in"); return; } }
        for (size_t x : { size_t(1000), ~size_t(0), ~size_t(0) - 63, size_t(1) << 32 }) { if (cs.contains(x)) { w.bad = "contains an absurd number"; return; } }
        for (size_t x : w.m) { h = mc::mix(h, x); }
        h = mc::mix(h, s.size()); mc::outcome(h);
        if (s.empty() != (s.size() == 0) || s.capacity() < s.size()) { w.bad = "size and capacity disagree"; return; }
        if (!w.m.empty() && s.size() <= *w.m.rbegin()) { w.bad = "size does not cover its members"; return; }
        size_t i = 0; for (auto it = s.begin(); it != s.end(); ++it, ++i) { if ((bool)*it != (w.m.count(i) > 0)) { w.bad = "iteration disagrees at " + std::to_string(i); return; } }
        i = s.size(); for (auto it = cs.rbegin(); it != cs.rend(); ++it) { --i; if ((bool)*it != (w.m.count(i) > 0)) { w.bad = "reverse iteration disagrees"; return; } }
        if (!audit::wrong.empty()) { w.bad = audit::wrong; audit::wrong.clear(); }
    }
    struct op { std::string name; std::function<void(world&)> run; };
    static std::vector<op> alphabet() {
        std::vector<op> r;
        for (size_t x : { 0, 7, 8, 63, 64, 127 }) { r.push_back({ "push " + std::to_string(x), [x](world& w) { w.s.push(x); w.m.insert(x); } }); }
        for (int x : { 1, 65 }) { r.push_back({ "emplace " + std::to_string(x), [x](world& w) { w.s.emplace(x); w.m.insert((size_t)x); } }); }
        r.push_back({ "push and emplace numbers too great to be stored", [](world& w) {
            for (size_t x : { ~size_t(0), ~size_t(0) - 1, (size_t(1) << 63) + 1 }) { try { w.s.push(x); w.bad = "a number too great to be stored was put in"; } catch (const std::length_error&) { } }
            try { w.s.emplace(-1); w.bad = "-1 was put in"; } catch (const std::length_error&) { } } });
        r.push_back({ "push hash of 63", [](world& w) { w.s.push(hashed { 63 }); w.m.insert(63); } });
        for (size_t x : { 0, 8, 64, 130 }) { r.push_back({ "erase " + std::to_string(x), [x](world& w) { w.s.erase(x); w.m.erase(x); } }); }
        r.push_back({ "allocate 64 by 64", [](world& w) { w.s.allocate(64, 64); } });
        r.push_back({ "allocate 150 by 1, at most 8", [](world& w) { w.s.allocate(150, 1, 8); } });
        r.push_back({ "allocate 7 by 1, at most 8", [](world& w) { w.s.allocate(7, 1, 8); } });
        r.push_back({ "reserve 100", [](world& w) { w.s.reserve(100); if (w.s.capacity() < 100) { w.bad = "reserved too little"; } } });
        r.push_back({ "trim", [](world& w) { w.s.trim(); if (w.m.empty() ? w.s.size() != 0 : w.s.size() != *w.m.rbegin() + 1) { w.bad = "trim kept trailing entries"; } } });
        r.push_back({ "shrink", [](world& w) { w.s.shrink_to_fit(); } });
        r.push_back({ "clear", [](world& w) { w.s.clear(); w.m.clear(); if (!w.s.empty()) { w.bad = "not empty once cleared"; } } });
        r.push_back({ "resize 65", [](world& w) { w.s.resize(65); w.m.erase(w.m.lower_bound(65), w.m.end()); if (w.s.size() != 65) { w.bad = "wrong size"; } } });
        r.push_back({ "resize 9 set", [](world& w) { for (size_t i = w.s.size(); i < 9; ++i) { w.m.insert(i); } w.s.resize(9, W(1)); w.m.erase(w.m.lower_bound(9), w.m.end()); if (w.s.size() != 9) { w.bad = "wrong size"; } } });
        r.push_back({ "copy", [](world& w) { S c(w.s); w.other = c; w.s = w.other; w.s = static_cast<S&>(w.s); } });
        r.push_back({ "move", [](world& w) { S c(std::move(w.s)); w.s = std::move(c); } });
        return r;
    }
    static void all(const char* what) {
        const auto ops = alphabet(); const int len = mc::thorough() ? 5 : 4; const long A = (long)ops.size();
        const auto desc = [&](long i) { std::string t = std::string("set ") + what + ": "; for (int k = 0; k < len; ++k) { t += (k ? "; " : "") + ops[(size_t)(i % A)].name; i /= A; } return t; };
        mc::explore(what, power(A, len), desc, [&](long i) {
            world w; audit::wrong.clear(); long c = i; bool some = false;
            for (int k = 0; k < len && w.bad.empty(); ++k) { ops[(size_t)(c % A)].run(w); c /= A; mc::sh->transitions++; if (w.bad.empty()) { check(w); } some |= !w.m.empty(); }
            if (some) { mc::sh->nontrivial++; }
            if (!w.bad.empty()) { mc::report("set", "", desc(i) + " :: " + w.bad); }
            if (mc::sh->nsamples < 1 && w.m.size() > 2) { mc::sample(desc(i)); }
        });
    }
};
#endif

int main(int argc, char** argv) {
    mc::init(argc, argv);
#if PART == 1
    heap_space<2, std::less<item>>::all();
    heap_space<3, std::less<item>>::all();
    heap_space<4, std::greater<item>>::all();
    heap_space<2, std::greater<item>>::all();
    pointers();
#elif PART == 2
    line_space<chdr::stack, true>::all("stack");
    line_space<chdr::queue, false>::all("queue");
#else
    set_space<char>::all("bytes");
    set_space<bool>::all("bits");
    set_space<uint64_t>::all("words");
#endif
    return 0;
}
