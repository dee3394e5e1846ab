// Every short sequence of operations on the containers and mazes, times every allocation it makes as the one that fails
// (or the first of all that fail). PART 1: heap, 2: stack and queue, 3: existence_set, 4: graph and grid, 5: graph built by threads, 6: pools.
#define HEAP_SUPPRESS_EXCEPTION_WARNING
#include "mc.hpp"
#include <chdr.hpp>
#include <algorithm>
#include <array>
#include <atomic>
#include <map>
#include <memory_resource>
#include <new>
#include <set>

#ifndef PART
#define PART 1
#endif

// While armed, the n-th request for memory (or every one from the n-th on) fails.
namespace fault {
    static std::atomic<bool> armed { false }; static std::atomic<long> seen { 0 }, blocks { 0 }; static long at = -1; static bool lasting = false; static std::atomic<bool> hit { false };
    static std::atomic<bool> upstream { true }; // operator new fails, or only the callers' own resources
    static bool strikes() { if (!armed) { return false; } const long k = ++seen; if (at < 0 || !(lasting ? k >= at : k == at)) { return false; } return hit = true; }
    static void* obtain(size_t n, size_t a) { if (upstream && strikes()) { throw std::bad_alloc(); } void* p = a > 16 ? aligned_alloc(a, (n + a - 1) / a * a) : malloc(n ? n : 1); if (!p) { throw std::bad_alloc(); } ++blocks; return p; }
    static void give_back(void* p) { if (p) { --blocks; free(p); } }
}
void* operator new(size_t n) { return fault::obtain(n, 0); }
void* operator new(size_t n, std::align_val_t a) { return fault::obtain(n, (size_t)a); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return fault::obtain(n, 0); } catch (...) { return nullptr; } }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { try { return fault::obtain(n, (size_t)a); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { fault::give_back(p); }
void operator delete(void* p, size_t) noexcept { fault::give_back(p); }
void operator delete(void* p, std::align_val_t) noexcept { fault::give_back(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { fault::give_back(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { fault::give_back(p); }
void operator delete(void* p, std::align_val_t, const std::nothrow_t&) noexcept { fault::give_back(p); }

// A resource of its own identity, whose memory comes from operator new.
struct ledger final : std::pmr::memory_resource {
    static inline std::string wrong; long live = 0;
    struct head { ledger* owner; size_t n, a; };
    void* do_allocate(size_t n, size_t a) override { if (!fault::upstream && fault::strikes()) { throw std::bad_alloc(); } const size_t pad = std::max<size_t>(a, 32); char* p = (char*)::operator new(n + pad, std::align_val_t(pad)); new (p) head { this, n, a }; ++live; return p + pad; }
    void do_deallocate(void* q, size_t n, size_t a) override {
        const size_t pad = std::max<size_t>(a, 32); char* p = (char*)q - pad; const head h = *(head*)p;
        if (h.owner != this) { wrong = "memory returned to a resource it was not taken from"; } else if (h.n != n || h.a != a) { wrong = "memory returned with another size or alignment"; }
        --h.owner->live; ::operator delete(p, std::align_val_t(std::max<size_t>(h.a, 32)));
    }
    bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
};

// The library's part of an operation: only there memory runs out.
static bool g_arm = false;
template <class F> static void lib(F&& f) { struct guard { guard() { fault::armed = g_arm; } ~guard() { fault::armed = false; } } g; f(); }

template <class W> struct operation { const char* name; std::function<void(W&)> run; std::function<void(W&)> recover; };

template <class W> static void words(const char* family, const char* kind, const std::vector<operation<W>>& ops, int len) {
    long total = 1; for (int k = 0; k < len; ++k) { total *= (long)ops.size(); }
    const auto name = [&](long i, int upto = 99) { std::string t; for (int k = 0; k < len && k < upto; ++k) { t += (k ? "; " : "") + std::string(ops[(size_t)(i % (long)ops.size())].name); i /= (long)ops.size(); } return t; };
    mc::explore(family, total, [&](long i) { return std::string(family) + ": " + name(i); }, [&](long i) {
        std::vector<size_t> w; for (long k = 0, r = i; k < len; ++k) { w.push_back((size_t)(r % (long)ops.size())); r /= (long)ops.size(); }
        std::vector<long> count(w.size(), 0);
        const auto once = [&](int j, long n, bool lasting) -> std::string {
            std::string bad; ledger::wrong.clear();
            {
                W world;
                for (int k = 0; k < len && bad.empty(); ++k) {
                    const auto& op = ops[w[(size_t)k]]; bool thrown = false;
                    fault::seen = 0; fault::at = k == j ? n : -1; fault::lasting = lasting; fault::hit = false; g_arm = true;
                    try { op.run(world); } catch (const std::bad_alloc&) { thrown = true; } catch (const std::exception& x) { bad = std::string("unexpected exception ") + x.what(); }
                    g_arm = false; if (j < 0) { count[(size_t)k] = fault::seen; }
                    if (!bad.empty()) { break; }
                    if (thrown) {
                        if (!fault::hit) { bad = "bad_alloc although no allocation failed"; break; }
                        if (op.recover) { op.recover(world); }
                        bad = world.check(); if (!bad.empty()) { bad = "after the failure: " + bad; break; }
                        try { op.run(world); } catch (const std::bad_alloc&) { bad = "fails again although there is memory"; break; }
                    }
                    if (k == j || k == len - 1) { bad = world.check(); if (!bad.empty() && thrown) { bad = "once repeated: " + bad; } }
                    if (bad.empty() && !ledger::wrong.empty()) { bad = ledger::wrong; }
                }
                if (bad.empty()) { mc::sh->transitions += len; }
                world.finish(); if (bad.empty()) { bad = world.lost(); }
                if (bad.empty() && !ledger::wrong.empty()) { bad = ledger::wrong; }
            }
            return bad;
        };
        const auto tell = [&](const std::string& bad, int j, long n, bool lasting) {
            mc::report(kind, "", std::string(family) + ": " + name(i) + (j < 0 ? "" : std::string(" with ") + (lasting ? "every allocation from number " : "allocation number ") + std::to_string(n) + " of operation " + std::to_string(j + 1) + " failing") + " :: " + bad); };
        const long before = fault::blocks; { const std::string bad = once(-1, 0, false); if (!bad.empty()) { tell(bad, -1, 0, false); return; } }
        uint64_t h = 1469598103934665603ull; bool some = false;
        for (int j = 0; j < len; ++j) { for (long n = 1; n <= count[(size_t)j]; ++n) { for (int l = 0; l < 2; ++l) {
            if (l && n == count[(size_t)j]) { continue; }
            const long held = fault::blocks; std::string bad = once(j, n, l); if (bad.empty()) { bad.shrink_to_fit(); }
            if (bad.empty() && fault::blocks != held) { bad = std::to_string(fault::blocks - held) + " blocks of memory were lost"; }
            some = true; mc::sh->counters[32]++; h = mc::mix(h, (uint64_t)(j * 64 + n));
            if (!bad.empty()) { tell(bad, j, n, l); return; }
        } } }
        (void)before; if (some) { mc::sh->nontrivial++; if (mc::sh->nsamples < 1) { mc::sample(std::string(family) + ": " + name(i)); } } mc::outcome(mc::mix(h, (uint64_t)i));
    });
}

template <class T> static std::string show(const T& v) { std::string t; for (auto& x : v) { t += " " + std::to_string(x); } return t; }

// Two containers, the second on memory of its own, the default resource a third one.
template <class C, class M> struct pair_world {
    ledger a, b, d; std::pmr::memory_resource* old; C* x; C* y; M mx, my;
    pair_world() : old(std::pmr::set_default_resource(&d)), x(new C(&a)), y(new C(&b)) {}
    ~pair_world() { finish(); }
    void finish() { delete x; delete y; x = y = nullptr; if (old) { std::pmr::set_default_resource(old); old = nullptr; } }
    std::string lost() const { return a.live || b.live || d.live ? "memory was not returned" : ""; }
    void fresh(C*& c, M& m, ledger& r) { delete c; c = nullptr; c = new C(&r); m = M {}; }
};

#if PART == 1
template <size_t Kd> struct heap_world : pair_world<chdr::heap<int, std::less<int>, std::pmr::vector<int>, Kd>, std::multiset<int>> {
    using H = chdr::heap<int, std::less<int>, std::pmr::vector<int>, Kd>; int next = 0;
    static std::string compare(const char* who, const H& h, const std::multiset<int>& m) {
        std::vector<int> all(h.begin(), h.end()); std::sort(all.begin(), all.end());
        if (h.size() != m.size() || !std::equal(all.begin(), all.end(), m.begin(), m.end())) { return std::string(who) + " heap holds" + show(all) + " instead of" + show(m); }
        H c(h); for (auto it = m.rbegin(); it != m.rend(); ++it) { if (c.top() != *it) { return std::string(who) + " heap out of order"; } c.pop(); } return "";
    }
    std::string check() { auto t = compare("first", *this->x, this->mx); return t.empty() ? compare("second", *this->y, this->my) : t; }
};
template <size_t Kd> static void heaps(const char* name, int len) {
    using W = heap_world<Kd>; using H = typename W::H;
    const auto val = [](W& w) { static const int v[] = { 3, 7, 5, 9, 1, 8 }; return v[w.next++ % 6]; };
    std::vector<operation<W>> ops {
        { "push", [=](W& w) { const int v = val(w); lib([&] { w.x->push(v); }); w.mx.insert(v); }, [](W& w) { --w.next; } },
        { "emplace", [=](W& w) { const int v = val(w); lib([&] { w.x->emplace(v); }); w.mx.insert(v); }, [](W& w) { --w.next; } },
        { "enqueue moved", [=](W& w) { int v = val(w); lib([&] { w.x->push(std::move(v)); }); w.mx.insert(v); }, [](W& w) { --w.next; } },
        { "push three to second", [=](W& w) { for (int k = 0; k < 3; ++k) { const int v = 4 + k; lib([&] { w.y->push(v); }); w.my.insert(v); } }, {} },
        { "insert list", [=](W& w) { const std::vector<int> l { 6, 2, 4 }; lib([&] { w.x->insert(l.begin(), l.end()); }); w.mx.insert(l.begin(), l.end()); },
            [](W& w) { const std::vector<int> l { 6, 2, 4 }; for (size_t k = 0, n = w.x->size() - w.mx.size(); k < n && k < 3; ++k) { w.mx.insert(l[k]); } } }, // the first of them may stay
        { "pop", [](W& w) { if (w.x->empty()) { return; } lib([&] { w.x->pop(); }); w.mx.erase(std::prev(w.mx.end())); }, {} },
        { "dequeue", [](W& w) { if (w.x->empty()) { return; } int v = 0; lib([&] { v = w.x->dequeue(); }); w.mx.erase(w.mx.find(v)); }, {} },
        { "reserve", [](W& w) { lib([&] { w.x->reserve(w.x->size() + 5); }); }, {} },
        { "shrink", [](W& w) { lib([&] { w.x->shrink_to_fit(); }); }, {} },
        { "clear", [](W& w) { lib([&] { w.x->clear(); }); w.mx.clear(); }, {} },
        { "copy", [](W& w) { H* c = nullptr; lib([&] { c = new H(*w.x); }); delete w.x; w.x = c; }, {} },
        { "move", [](W& w) { alignas(H) unsigned char raw[sizeof(H)]; H* c = nullptr; lib([&] { c = new (raw) H(std::move(*w.x)); }); auto m = w.mx; auto t = W::compare("moved", *c, m); c->~H(); w.fresh(w.x, w.mx, w.a); if (!t.empty()) { throw std::runtime_error(t); } }, {} },
        { "assign copy", [](W& w) { lib([&] { *w.x = *w.y; }); w.mx = w.my; }, {} },
        { "assign moved", [](W& w) { lib([&] { *w.x = std::move(*w.y); }); w.mx = w.my; w.fresh(w.y, w.my, w.b); }, [](W& w) { w.fresh(w.x, w.mx, w.a); w.fresh(w.y, w.my, w.b); } },
        { "from container", [](W& w) { std::pmr::vector<int> l({ 5, 1, 6 }, &w.a); H* c = nullptr; lib([&] { c = new H(l); }); delete w.x; w.x = c; w.mx = { 1, 5, 6 }; }, {} },
        { "from moved container", [](W& w) { std::pmr::vector<int> l({ 5, 1, 6 }, &w.a); H* c = nullptr; lib([&] { c = new H(std::move(l)); }); delete w.x; w.x = c; w.mx = { 1, 5, 6 }; }, {} },
        { "with capacity", [](W& w) { H* c = nullptr; lib([&] { c = new H(3, &w.a); }); delete w.x; w.x = c; w.mx.clear(); }, {} },
    };
    words<W>(name, "fault", ops, len);
}
#endif

#if PART == 2
struct big { int v = 0; char pad[508] {}; big() = default; big(int i) : v(i) {} };
template <class C> struct line_world : pair_world<C, std::vector<int>> {
    int next = 0;
    static std::string compare(const char* who, const C& c, const std::vector<int>& m) { std::vector<int> all; for (auto& e : c) { all.push_back(e.v); } return c.size() == m.size() && all == m && (m.empty() || c.top().v == (std::is_same_v<C, chdr::stack<big>> ? m.back() : m.front())) ? "" : std::string(who) + " holds" + show(all) + " instead of" + show(m); }
    std::string check() { auto t = compare("first", *this->x, this->mx); return t.empty() ? compare("second", *this->y, this->my) : t; }
};
template <class C> static void lines(const char* name, int len) {
    using W = line_world<C>; const bool lifo = std::is_same_v<C, chdr::stack<big>>;
    const auto anew = [](W& w) { w.fresh(w.x, w.mx, w.a); w.fresh(w.y, w.my, w.b); };
    std::vector<operation<W>> ops {
        { "push", [](W& w) { const big v(w.next); lib([&] { w.x->push(v); }); w.mx.push_back(w.next++); }, {} },
        { "push moved", [](W& w) { big v(w.next); lib([&] { w.x->push(std::move(v)); }); w.mx.push_back(w.next++); }, {} },
        { "emplace three", [](W& w) { for (int k = 0; k < 3; ++k) { lib([&] { w.x->emplace(w.next); }); w.mx.push_back(w.next++); } }, {} },
        { "push to second", [](W& w) { const big v(w.next); lib([&] { w.y->push(v); }); w.my.push_back(w.next++); }, {} },
        { "ten to second", [](W& w) { for (int k = 0; k < 10; ++k) { const big v(w.next); lib([&] { w.y->push(v); }); w.my.push_back(w.next++); } }, {} },
        { "pop", [=](W& w) { if (w.x->empty()) { return; } lib([&] { w.x->pop(); }); w.mx.erase(lifo ? w.mx.end() - 1 : w.mx.begin()); }, {} },
        { "clear", [](W& w) { lib([&] { w.x->clear(); }); w.mx.clear(); }, {} },
        { "copy", [](W& w) { C* c = nullptr; lib([&] { c = new C(*w.x); }); delete w.x; w.x = c; }, {} },
        { "move", [](W& w) { alignas(C) unsigned char raw[sizeof(C)]; C* c = nullptr; lib([&] { c = new (raw) C(std::move(*w.x)); }); auto m = w.mx; auto t = W::compare("moved", *c, m); c->~C(); w.fresh(w.x, w.mx, w.a); if (!t.empty()) { throw std::runtime_error(t); } }, {} },
        { "assign copy", [](W& w) { lib([&] { *w.x = *w.y; }); w.mx = w.my; }, {} },
        { "assign moved", [](W& w) { lib([&] { *w.x = std::move(*w.y); }); w.mx = w.my; w.fresh(w.y, w.my, w.b); }, anew },
        { "assign empty", [](W& w) { lib([&] { *w.x = C {}; }); w.mx.clear(); }, anew },
        { "assign moved from same memory", [](W& w) { C c(&w.a); c.push(big(77)); c.push(big(78)); lib([&] { *w.x = std::move(c); }); w.mx = { 77, 78 }; }, anew },
    };
    words<W>(name, "fault", ops, len);
}
#endif

#if PART == 3
template <class T> struct set_world : pair_world<chdr::existence_set<T>, std::set<size_t>> {
    using S = chdr::existence_set<T>;
    static std::string compare(const char* who, const S& s, const std::set<size_t>& m) { for (size_t k = 0; k < 200; ++k) { if (s.contains(k) != (m.count(k) > 0)) { return std::string(who) + " set is wrong about " + std::to_string(k); } } return ""; }
    std::string check() { auto t = compare("first", *this->x, this->mx); return t.empty() ? compare("second", *this->y, this->my) : t; }
};
template <class T> static void sets(const char* name, int len) {
    using W = set_world<T>; using S = typename W::S;
    const auto add = [](size_t k) { return [=](W& w) { lib([&] { w.x->push(k); }); w.mx.insert(k); }; };
    std::vector<operation<W>> ops {
        { "push 0", add(0), {} }, { "push 3", add(3), {} }, { "push 70", add(70), {} },
        { "emplace 130", [](W& w) { lib([&] { w.x->emplace(130); }); w.mx.insert(130); }, {} },
        { "push 9 to second", [](W& w) { lib([&] { w.y->push(9); }); w.my.insert(9); }, {} },
        { "erase 3", [](W& w) { lib([&] { w.x->erase(3); }); w.mx.erase(3); }, {} }, { "erase 70", [](W& w) { lib([&] { w.x->erase(70); }); w.mx.erase(70); }, {} },
        { "allocate for 40", [](W& w) { lib([&] { w.x->allocate(40, 50); }); }, {} }, { "reserve", [](W& w) { lib([&] { w.x->reserve(w.x->capacity() + 1); }); }, {} },
        { "resize to 90", [](W& w) { lib([&] { w.x->resize(90); }); w.mx.erase(w.mx.lower_bound(90), w.mx.end()); }, {} },
        { "trim", [](W& w) { lib([&] { w.x->trim(); }); }, {} }, { "shrink", [](W& w) { lib([&] { w.x->shrink_to_fit(); }); }, {} }, { "clear", [](W& w) { lib([&] { w.x->clear(); }); w.mx.clear(); }, {} },
        { "copy", [](W& w) { S* c = nullptr; lib([&] { c = new S(*w.x); }); delete w.x; w.x = c; }, {} },
        { "move", [](W& w) { S* c = nullptr; lib([&] { c = new S(std::move(*w.x)); }); delete w.x; w.x = c; }, {} },
        { "assign copy", [](W& w) { lib([&] { *w.x = *w.y; }); w.mx = w.my; }, {} },
        { "assign moved", [](W& w) { lib([&] { *w.x = std::move(*w.y); }); w.mx = w.my; w.fresh(w.y, w.my, w.b); }, [](W& w) { w.fresh(w.x, w.mx, w.a); w.fresh(w.y, w.my, w.b); } },
        { "assign empty", [](W& w) { lib([&] { *w.x = S {}; }); w.mx.clear(); }, [](W& w) { w.fresh(w.x, w.mx, w.a); } },
        { "with capacity", [](W& w) { S* c = nullptr; lib([&] { c = new S(33, &w.a); }); delete w.x; w.x = c; w.mx.clear(); }, {} },
    };
    words<W>(name, "fault", ops, len);
}
#endif

#if PART == 4
using G = chdr::mazes::graph<uint32_t, int>; using edges = std::map<uint32_t, std::multiset<std::pair<uint32_t, int>>>;
static edges read(const G& g) { edges m; for (auto& [v, l] : g) { auto& s = m[v]; for (auto& e : l) { s.insert(e); } } return m; }
static std::string tell(const edges& m) { std::string t; for (auto& [v, l] : m) { t += " " + std::to_string(v) + ":{"; for (auto& [n, c] : l) { t += std::to_string(n) + "/" + std::to_string(c) + " "; } t += "}"; } return t; }
struct graph_world : pair_world<G, edges> {
    static std::string compare(const char* who, const G& g, const edges& m) { const edges r = read(g); return g.count() == m.size() && r == m ? "" : std::string(who) + " graph is" + tell(r) + " instead of" + tell(m); }
    std::string check() { auto t = compare("first", *x, mx); return t.empty() ? compare("second", *y, my) : t; }
};
static void graphs(const char* name, int len) {
    using W = graph_world;
    const auto edge = [](uint32_t u, uint32_t v, int c) { return operation<W> { strdup(("edge " + std::to_string(u) + "-" + std::to_string(v)).c_str()), [=](W& w) { lib([&] { w.x->add(u, { v, c }); }); w.mx[u].insert({ v, c }); },
        [=](W& w) { if (!w.mx.count(u) && w.x->contains(u) && w.x->get_neighbours(u).empty()) { w.mx[u]; } } }; }; // a new vertex may stay
    const auto anew = [](W& w) { w.fresh(w.x, w.mx, w.a); w.fresh(w.y, w.my, w.b); };
    std::vector<operation<W>> ops {
        { "vertex 1", [](W& w) { lib([&] { w.x->add(1); }); w.mx[1]; }, {} }, { "vertex 9", [](W& w) { lib([&] { w.x->add(9); }); w.mx[9]; }, {} },
        edge(1, 2, 3), edge(2, 1, 3), edge(1, 9, 1), edge(5, 5, 2),
        { "star to second", [](W& w) { for (uint32_t v = 1; v < 15; ++v) { lib([&] { w.y->add(v); }); w.my[v]; } lib([&] { w.y->add(3, { 4, 1 }); }); w.my[3].insert({ 4, 1 }); }, {} },
        { "remove edge", [](W& w) { lib([&] { w.x->remove(1, { 2, 3 }); }); if (auto it = w.mx.find(1); it != w.mx.end() && it->second.count({ 2, 3 })) { it->second.erase({ 2, 3 }); if (it->second.empty()) { w.mx.erase(it); } } }, {} },
        { "clear", [](W& w) { lib([&] { w.x->clear(); }); w.mx.clear(); }, {} },
        { "move", [](W& w) { G* c = nullptr; lib([&] { c = new G(std::move(*w.x)); }); delete w.x; w.x = c; }, {} },
        { "assign moved", [](W& w) { lib([&] { *w.x = std::move(*w.y); }); w.mx = w.my; w.fresh(w.y, w.my, w.b); }, anew },
        { "assign moved from same memory", [](W& w) { G c(&w.a); c.add(7, { 8, 1 }); c.add(8); lib([&] { *w.x = std::move(c); }); w.mx = { { 7, { { 8, 1 } } }, { 8, {} } }; }, anew },
        { "ring with a tail", [](W& w) { G* c = nullptr; lib([&] { c = new G({ { { 1, 1 }, { 4, 1 } }, { { 0, 1 }, { 2, 1 } }, { { 1, 1 }, { 3, 1 }, { 5, 1 } }, { { 2, 1 }, { 4, 1 } }, { { 3, 1 }, { 0, 1 } }, { { 2, 1 } } }, &w.a); }); delete w.x; w.x = c; w.mx = read(*c); }, {} },
        { "prune", [](W& w) { lib([&] { w.x->prune(); }); if (w.mx.size() == 6 && w.mx[2].size() == 3 && w.x->count() == 6) { throw std::runtime_error("nothing was pruned"); } w.mx = read(*w.x); }, {} },
        { "from list", [](W& w) { G* c = nullptr; lib([&] { c = new G({ { { 1, 2 }, { 2, 1 } }, { { 0, 2 } }, {} }, &w.a); }); delete w.x; w.x = c; w.mx = { { 0, { { 1, 2 }, { 2, 1 } } }, { 1, { { 0, 2 } } }, { 2, {} } }; }, {} },
    };
    words<W>(name, "fault", ops, len);
}

template <class T> struct grid_world {
    using C = chdr::coord<uint32_t, 2>; using M = chdr::mazes::grid<C, T>; M* x; M* y; std::vector<T> mx, my; C sx, sy;
    grid_world() : x(new M(C { 2, 2 })), y(new M(C { 3, 30 })), mx(4), my(90), sx { 2, 2 }, sy { 3, 30 } {}
    ~grid_world() { finish(); }
    void finish() { delete x; delete y; x = y = nullptr; }
    std::string lost() const { return ""; }
    static std::string compare(const char* who, const M& g, const std::vector<T>& m, const C& s) { return g.nodes() == m && g.size() == s && g.count() == m.size() ? "" : std::string(who) + " grid has changed"; }
    std::string check() { auto t = compare("first", *x, mx, sx); return t.empty() ? compare("second", *y, my, sy) : t; }
};
template <class T> static void grids(const char* name, int len) {
    using W = grid_world<T>; using M = typename W::M; using C = typename W::C;
    const auto cells = [](size_t n, size_t k) { std::vector<T> v(n); for (size_t i = k; i < n; i += 3) { v[i] = T(1); } return v; };
    std::vector<operation<W>> ops {
        { "of size", [](W& w) { M* c = nullptr; lib([&] { c = new M(C { 5, 20 }); }); delete w.x; w.x = c; w.sx = { 5, 20 }; w.mx.assign(100, T(0)); }, {} },
        { "of cells", [=](W& w) { const auto v = cells(100, 1); M* c = nullptr; lib([&] { c = new M(C { 5, 20 }, v); }); delete w.x; w.x = c; w.sx = { 5, 20 }; w.mx = v; }, {} },
        { "of moved cells", [=](W& w) { auto v = cells(100, 2); const auto m = v; M* c = nullptr; lib([&] { c = new M(C { 5, 20 }, std::move(v)); }); delete w.x; w.x = c; w.sx = { 5, 20 }; w.mx = m; }, {} },
        { "cells", [=](W& w) { const auto v = cells(w.mx.size(), 0); lib([&] { w.x->nodes(v); }); w.mx = v; }, {} },
        { "move", [](W& w) { M* c = nullptr; lib([&] { c = new M(std::move(*w.x)); }); delete w.x; w.x = c; }, {} },
        { "assign moved", [](W& w) { lib([&] { *w.x = std::move(*w.y); }); w.mx = w.my; w.sx = w.sy; delete w.y; w.y = new M(w.sy = C { 3, 30 }); w.my.assign(90, T(0)); }, {} },
        { "shrink cells", [](W& w) { std::vector<T> v(4, T(1)); lib([&] { *w.y = M(C { 1, 4 }, v); }); w.my = v; w.sy = { 1, 4 }; }, {} },
    };
    words<W>(name, "fault", ops, len);
}
#endif

#if PART == 5
static unsigned g_cores = 1;
extern "C" unsigned cores_() asm("_ZNSt6thread20hardware_concurrencyEv"); extern "C" unsigned cores_() { return g_cores; }
template <class T> static void built(const char* name, unsigned w, unsigned h, std::vector<unsigned> cores) {
    using C = chdr::coord<uint32_t, 2>; using M = chdr::mazes::grid<C, T>; using G = chdr::mazes::graph<uint32_t, int>;
    const long layouts = 1l << (w * h); const long total = layouts * (long)cores.size();
    const auto desc = [&](long i) { std::string t = std::string(name) + ": graph of a grid of " + std::to_string(w) + "x" + std::to_string(h) + " with " + std::to_string(cores[(size_t)(i / layouts)]) + " cores, cells "; for (unsigned k = 0; k < w * h; ++k) { t += (i % layouts) >> k & 1 ? '#' : '.'; } return t; };
    using edges = std::map<uint32_t, std::multiset<std::pair<uint32_t, int>>>;
    const auto read = [](const G& g) { edges m; for (auto& [v, l] : g) { auto& s = m[v]; for (auto& e : l) { s.insert(e); } } return m; };
    mc::explore(name, total, desc, [&](long i) {
        g_cores = cores[(size_t)(i / layouts)]; std::vector<T> v(w * h); for (unsigned k = 0; k < w * h; ++k) { v[k] = T((i % layouts) >> k & 1); }
        const M m(C { w, h }, v); ledger a; edges want; g_arm = true; long count = 0; fault::upstream = false; // libstdc++'s own pool resource does not survive failures below it
        { fault::at = -1; fault::seen = 0; { G* g = nullptr; lib([&] { g = new G(m, &a); }); count = fault::seen; want = read(*g); delete g; } } bool some = false;
        for (int lasting = 0; lasting < 2; ++lasting) { for (long n = 1; n <= count + 2; ++n) {
            G* g = nullptr; bool thrown = false; fault::hit = false; fault::seen = 0; fault::at = n; fault::lasting = lasting; const long held = fault::blocks; const char* bad = nullptr;
            try { lib([&] { g = new G(m, &a); }); } catch (const std::bad_alloc&) { thrown = true; } catch (const std::exception& x) { bad = "another exception than bad_alloc"; }
            if (g && read(*g) != want) { bad = "another graph"; } if (thrown && !fault::hit) { bad = "bad_alloc although no allocation failed"; }
            delete g; if (!bad && a.live) { bad = "memory was not returned"; } if (!bad && fault::blocks != held) { bad = "blocks of memory were lost"; }
            mc::sh->transitions++; mc::sh->counters[32]++; some |= thrown; mc::outcome(mc::mix((uint64_t)i * 4096 + (uint64_t)n, thrown));
            if (bad) { mc::report("fault", "", desc(i) + (lasting ? ", every allocation from number " : ", allocation number ") + std::to_string(n) + " failing :: " + bad); return; }
        } }
        if (some) { mc::sh->nontrivial++; if (mc::sh->nsamples < 1) { mc::sample(desc(i)); } }
    });
}
#endif

#if PART == 6
struct use { unsigned char* p; size_t n, a; unsigned char mark; };
template <class P, bool MONO> struct pool_world {
    P* x; P* y; std::vector<use> lx, ly; unsigned char mark = 1; std::string bad;
    static P* make(size_t w) { if constexpr (MONO) { return new P(w); } else { return new P(w, size_t(1)); } }
    pool_world() : x(make(64)), y(make(64)) { lx.reserve(64); ly.reserve(64); }
    ~pool_world() { finish(); }
    void finish() { delete x; delete y; x = y = nullptr; }
    std::string lost() const { return ""; }
    std::string check() {
        std::vector<use> all(lx); all.insert(all.end(), ly.begin(), ly.end());
        for (size_t i = 0; i < all.size(); ++i) { for (size_t k = 0; k < all[i].n; ++k) { if (all[i].p[k] != all[i].mark) { return "contents of a block in use changed"; } }
            for (size_t j = 0; j < i; ++j) { if (all[i].p < all[j].p + all[j].n && all[j].p < all[i].p + all[i].n) { return "blocks overlap"; } } }
        return bad;
    }
    void take(P* from, std::vector<use>& l, size_t n, size_t a) { unsigned char* p = nullptr; lib([&] { p = (unsigned char*)from->allocate(n, a); }); if (!p) { bad = "null block"; return; } if ((uintptr_t)p % a) { bad = "misaligned block"; } memset(p, mark, n); l.push_back({ p, n, a, mark++ }); }
    void give(size_t i) { if (i >= lx.size()) { return; } const use u = lx[i]; memset(u.p, 0xEE, u.n); lx.erase(lx.begin() + (long)i); lib([&] { x->deallocate(u.p, u.n, u.a); }); }
    void leave() { const auto b = (uintptr_t)x; lx.erase(std::remove_if(lx.begin(), lx.end(), [&](const use& u) { const auto q = (uintptr_t)u.p; return q >= b && q < b + sizeof(P); }), lx.end()); }
};
template <class P, bool MONO> static void pools(const char* name, std::vector<std::pair<size_t, size_t>> shapes, int len) {
    using W = pool_world<P, MONO>; std::vector<operation<W>> ops;
    for (auto [n, a] : shapes) { ops.push_back({ strdup(("take " + std::to_string(n) + "/" + std::to_string(a)).c_str()), [n = n, a = a](W& w) { w.take(w.x, w.lx, n, a); }, {} }); }
    const auto s0 = shapes[0];
    ops.push_back({ "take three", [s0](W& w) { for (int k = 0; k < 3; ++k) { w.take(w.x, w.lx, s0.first, s0.second); } }, {} });
    ops.push_back({ "take from other", [s0](W& w) { w.take(w.y, w.ly, s0.first, s0.second); }, {} });
    ops.push_back({ "return oldest", [](W& w) { w.give(0); }, {} });
    ops.push_back({ "return newest", [](W& w) { if (!w.lx.empty()) { w.give(w.lx.size() - 1); } }, {} });
    ops.push_back({ "reset", [](W& w) { w.lx.clear(); lib([&] { w.x->reset(); }); }, {} });
    ops.push_back({ "release", [](W& w) { w.lx.clear(); lib([&] { w.x->release(); }); }, {} });
    ops.push_back({ "move into new", [](W& w) { w.leave(); P* c = nullptr; lib([&] { c = new P(std::move(*w.x)); }); delete w.x; w.x = c; }, {} });
    ops.push_back({ "move into other", [](W& w) { w.leave(); w.ly.clear(); lib([&] { *w.y = std::move(*w.x); }); w.ly = w.lx; w.lx.clear(); w.ly.reserve(64); w.lx.reserve(64); }, {} });
    ops.push_back({ "another pool", [](W& w) { P* c = nullptr; lib([&] { c = W::make(128); }); w.lx.clear(); delete w.x; w.x = c; }, {} });
    words<W>(name, "fault", ops, len);
}
#endif

int main(int argc, char** argv) {
    mc::init(argc, argv); const int more = mc::thorough() ? 1 : 0; (void)more;
#if PART == 1
    heaps<2>("heap", 3 + more); heaps<4>("heap-of-arity-4", 3 + more);
#elif PART == 2
    lines<chdr::stack<big>>("stack", 3 + more); lines<chdr::queue<big>>("queue", 3 + more);
#elif PART == 3
    sets<char>("set", 3 + more); sets<bool>("bit-set", 3 + more);
#elif PART == 4
    graphs("graph", 3);  grids<char>("byte-grid", 4 + more); grids<bool>("bit-grid", 4 + more); grids<int>("weighted-grid", 4 + more);
#elif PART == 6
    using S = std::vector<std::pair<size_t, size_t>>;
    pools<chdr::monotonic_pool<64>, true>("monotonic", S { { 24, 8 }, { 100, 16 }, { 700, 32 } }, 3 + more);
    pools<chdr::homogeneous_pool<64>, false>("homogeneous", S { { 24, 8 } }, 4 + more);
    pools<chdr::heterogeneous_pool<64>, false>("heterogeneous", S { { 24, 8 }, { 100, 16 }, { 700, 32 } }, 3 + more);
#else
    built<char>("built-2x2", 2, 2, { 1, 2, 3, 6 }); built<char>("built-3x2", 3, 2, { 1, 2 }); built<bool>("built-bits-3x2", 3, 2, { 1 }); if (more) { built<char>("built-3x3", 3, 3, { 1, 2, 6 }); }
#endif
    return 0;
}
