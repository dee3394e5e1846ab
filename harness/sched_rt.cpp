// Runs the threads of the code under test one at a time, switching only where the explorer says so, and checks every
// memory access it is told about (the code under test is compiled with -fsanitize=thread, whose run-time is replaced by
// this file) for a conflicting access by another thread that is not ordered by synchronisation. In an execution
// without such a race, switching at synchronisation operations alone covers all interleavings.
#include "sched_rt.hpp"
#include <cerrno>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <link.h>
#include <malloc.h>
#include <map>
#include <memory_resource>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <set>
#include <sys/mman.h>
#include <thread>
#include <unistd.h>

namespace {

constexpr int MAXT = 16; constexpr size_t STACK = 1 << 18;
using clocks = uint32_t[MAXT];

template <class T> struct raw { // allocator that bypasses the instrumented operator new
    using value_type = T; raw() = default; template <class U> raw(const raw<U>&) {}
    T* allocate(size_t n) { return (T*)malloc(n * sizeof(T)); } void deallocate(T* p, size_t) { free(p); }
    bool operator==(const raw&) const { return true; } bool operator!=(const raw&) const { return false; }
};
template <class K, class V> using mapped = std::map<K, V, std::less<K>, raw<std::pair<const K, V>>>;

enum state { UNUSED, START, READY, LOCK, JOIN, COND, DONE };
struct thread {
    state st = UNUSED; pthread_t id{}; sem_t sem; clocks vc; void* (*fn)(void*) = nullptr; void* arg = nullptr; void* result = nullptr;
    const void* waits = nullptr; int joins = -1; bool shared = false; bool detached = false; bool fresh = false;
    bool running = false, dirty = false; // the real thread behind it exists; it cannot be used again
};
struct mutex { int owner = -1; int depth = 0; int readers = 0; clocks vc{}; };
struct access { uint32_t clk; uint8_t tid, mask; bool write, atomic; };
struct granule { uintptr_t key = 0; uint32_t run = 0; int n = 0; access a[12]; };

thread T[MAXT]; int n_threads = 1; int current = 0; bool active = false; unsigned g_cores = 1;
__thread int self = -1;
char* stacks = nullptr;
mapped<const void*, mutex>* mutexes = nullptr; mapped<const void*, mutex>* atomics = nullptr;
mapped<const void*, int>* touched = nullptr; std::set<const void*, std::less<const void*>, raw<const void*>>* hot = nullptr; // atomics used by several workers: code addresses
std::vector<int> prefix; rt::point points[20001]; size_t n_points = 0; std::vector<rt::point> traced; std::string bad; long n_steps = 0; long spins = 0;

constexpr size_t CELLS = 1 << 17; granule* cells = nullptr; uint32_t run_no = 0;
granule* cell(uintptr_t a) {
    const uintptr_t key = a >> 3; size_t i = (key * 0x9E3779B97F4A7C15ull) >> 47;
    for (size_t k = 0; k < CELLS; ++k, i = (i + 1) & (CELLS - 1)) {
        if (cells[i].run != run_no) { cells[i].run = run_no; cells[i].key = key; cells[i].n = 0; return &cells[i]; }
        if (cells[i].key == key) { return &cells[i]; }
    }
    fprintf(stderr, "ERROR: shadow memory exhausted\n"); abort();
}
void join(clocks& a, const clocks& b) { for (int i = 0; i < MAXT; ++i) { if (b[i] > a[i]) { a[i] = b[i]; } } }

bool on() { return active && self >= 0; }

void trouble(const std::string& s) { if (bad.empty()) { bad = s; } }

void touch(uintptr_t a, size_t n, bool write, bool atomic = false) {
    while (n > 0) {
        const size_t off = a & 7, k = n < 8 - off ? n : 8 - off; const uint8_t mask = (uint8_t)(((1u << k) - 1u) << off);
        granule* g = cell(a); thread& t = T[self]; access* mine = nullptr;
        for (int i = 0; i < g->n; ++i) {
            access& x = g->a[i];
            if (x.tid == self) { if (x.mask == mask && x.write == write && x.atomic == atomic) { mine = &x; } continue; }
            if ((x.mask & mask) && (x.write || write) && !(x.atomic && atomic) && x.clk > t.vc[x.tid]) {
                trouble("data race: thread " + std::to_string(self) + (write ? " writes" : " reads") + " what thread " + std::to_string((int)x.tid) + (x.write ? " wrote" : " read") + " without synchronisation");
            }
        }
        if (!mine) {
            if (g->n == 12) { // forget what happened before
                int m = 0; for (int i = 0; i < g->n; ++i) { if (g->a[i].clk > t.vc[g->a[i].tid]) { g->a[m++] = g->a[i]; } } g->n = m < 12 ? m : 11;
            }
            mine = &g->a[g->n++];
        }
        *mine = { t.vc[self], (uint8_t)self, mask, write, atomic };
        a += k; n -= k;
    }
}
void forget(void* p, size_t n) { // memory fresh from the allocator has no history
    if (!on() || n > (1 << 16)) { return; }
    for (uintptr_t a = (uintptr_t)p & ~7ull, e = (uintptr_t)p + n; a < e; a += 8) { cell(a)->n = 0; }
}

mutex& lock_of(const void* m) { return (*mutexes)[m]; }
bool can_run(int i) {
    thread& t = T[i];
    switch (t.st) {
        case READY: return true;
        case LOCK: { mutex& m = lock_of(t.waits); return t.shared ? m.owner < 0 : m.owner < 0 && m.readers == 0; }
        case JOIN: return T[t.joins].st == DONE;
        default: return false;
    }
}
void pass_to(int next) { // a thread that is done must not touch anything once it has passed on
    if (next != current) { const int me = self; const bool done = T[me].st == DONE; current = next; sem_post(&T[next].sem); if (done) { return; } while (sem_wait(&T[me].sem) != 0) {} }
    T[self].fresh = false;
}
[[noreturn]] void stuck() { fprintf(stderr, "ERROR: deadlock of the threads\n"); _exit(97); }

// Chooses who runs next; called by the running thread once its own state is set. Threads run up to their first
// synchronisation without a choice: nothing they do before it can be told apart.
void choose(bool yield = false) {
    ++n_steps;
    for (int i = 1; i < n_threads; ++i) { if (T[i].st == START) { T[i].st = READY; pass_to(i); return; } } // returns once chosen
    int list[MAXT], n = 0; const bool me = can_run(self) && !yield;
    if (me) { list[n++] = self; }
    for (int k = 1; k < n_threads; ++k) { const int i = (self + k) % n_threads; if (can_run(i)) { list[n++] = i; } }
    if (n == 0 && can_run(self)) { list[n++] = self; }
    if (n == 0) { stuck(); }
    int pick = 0;
    if (n > 1 && !yield) {
        const size_t d = n_points; pick = d < prefix.size() ? prefix[d] : 0;
        if (pick >= n) { trouble("the execution is not reproducible"); pick = 0; }
        points[n_points++] = { n, pick, !me || T[self].fresh };
        if (n_points > 20000) { fprintf(stderr, "ERROR: the threads do not get on\n"); _exit(98); }
    }
    pass_to(list[pick]);
}
template <class F> F real(const char* name) { return (F)dlsym(RTLD_NEXT, name); }

// Real threads are used again and again, with the thread-local variables of the program as they are in a new thread.
int renew(dl_phdr_info* i, size_t, void*) { // called for the program itself first
    for (int k = 0; k < i->dlpi_phnum; ++k) { const auto& h = i->dlpi_phdr[k]; if (h.p_type == PT_TLS && i->dlpi_tls_data) { char* d = (char*)i->dlpi_tls_data; const char* s = (const char*)(i->dlpi_addr + h.p_vaddr); for (size_t b = 0; b < h.p_memsz; ++b) { d[b] = b < h.p_filesz ? s[b] : 0; } } }
    return 1;
}
void* trampoline(void* p) {
    thread& t = *(thread*)p;
    for (;;) {
        while (sem_wait(&t.sem) != 0) {}
        dl_iterate_phdr(renew, nullptr); self = (int)(&t - T);
        t.result = t.fn(t.arg);
        t.vc[self]++; t.st = DONE; const bool dirty = t.dirty; choose();
        if (dirty) { self = -1; return nullptr; }
    }
}

void acquire(const void* p, bool shared) {
    thread& t = T[self]; mutex& m0 = lock_of(p);
    if (m0.owner == self && !shared) { m0.depth++; return; }
    t.st = LOCK; t.waits = p; t.shared = shared; spins = 0; choose(); while (!can_run(self)) { choose(); }
    t.st = READY; mutex& m = lock_of(p); if (shared) { m.readers++; } else { m.owner = self; m.depth = 1; } join(t.vc, m.vc);
}
void release(const void* p, bool) {
    thread& t = T[self]; mutex& m = lock_of(p);
    if (m.owner == self) { if (--m.depth > 0) { return; } m.owner = -1; } else if (m.readers > 0) { m.readers--; } else { trouble("a lock is released by a thread that does not hold it"); }
    join(m.vc, t.vc); t.vc[self]++;
}

void atomic_op(const void* pc, const volatile void* a, size_t n, bool write, int order) {
    if (!on()) { return; }
    if (self > 0) { int& who = touched->try_emplace((const void*)a, self).first->second; if (who != self) { hot->insert(pc); } }
    if (hot->count(pc)) { if (++spins > 40) { spins = 0; choose(true); } else { choose(); } }
    touch((uintptr_t)a, n, write, true);
    mutex& m = (*atomics)[(const void*)a]; thread& t = T[self];
    if (order != __ATOMIC_RELAXED) { join(t.vc, m.vc); if (write) { join(m.vc, t.vc); } }
    t.vc[self]++;
}

} // namespace

namespace rt {
void begin(const std::vector<int>& p, unsigned cores) {
    if (!stacks) {
        stacks = (char*)mmap(nullptr, STACK * MAXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        cells = (granule*)mmap(nullptr, CELLS * sizeof(granule), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        mutexes = new (malloc(sizeof *mutexes)) mapped<const void*, mutex>; atomics = new (malloc(sizeof *atomics)) mapped<const void*, mutex>;
        touched = new (malloc(sizeof *touched)) mapped<const void*, int>; hot = new (malloc(sizeof *hot)) std::set<const void*, std::less<const void*>, raw<const void*>>;
    }
    ++run_no; mutexes->clear(); atomics->clear(); touched->clear(); prefix = p; n_points = 0; bad.clear(); n_steps = 0; spins = 0; g_cores = cores;
    for (auto& t : T) { t.st = UNUSED; memset(t.vc, 0, sizeof t.vc); t.waits = nullptr; t.detached = false; }
    n_threads = 1; current = 0; self = 0; T[0].st = READY; T[0].vc[0] = 1; sem_init(&T[0].sem, 0, 0); active = true;
}
void end() {
    for (int i = 1; i < n_threads; ++i) { if (T[i].st != DONE) { ::trouble("a thread is still running after the construction"); T[0].st = JOIN; T[0].joins = i; choose(); while (!can_run(0)) { choose(); } T[0].st = READY; } }
    active = false; self = -1; traced.assign(points, points + n_points);
}
const std::vector<point>& trace() { return traced; }
const std::string& trouble() { return bad; }
long steps() { return n_steps; }
int threads() { return n_threads - 1; }
}

unsigned std::thread::hardware_concurrency() noexcept { return g_cores; }

extern "C" {

int pthread_create(pthread_t* id, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
    static auto f = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
    if (!on()) { return f(id, attr, fn, arg); }
    if (n_threads == MAXT) { return EAGAIN; }
    const int i = n_threads++; thread& t = T[i];
    t.fn = fn; t.arg = arg; t.detached = false; memset(t.vc, 0, sizeof t.vc); join(t.vc, T[self].vc); t.vc[i] = 1; t.fresh = true; T[self].vc[self]++;
    if (t.running && t.dirty) { real<int (*)(pthread_t, void**)>("pthread_join")(t.id, nullptr); t.running = false; }
    if (!t.running) {
        sem_init(&t.sem, 0, 0); t.dirty = false;
        pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a, stacks + STACK * (size_t)i, STACK);
        const int r = f(&t.id, &a, trampoline, &t); pthread_attr_destroy(&a);
        if (r != 0) { n_threads--; return r; }
        t.running = true;
    }
    t.st = START; *id = t.id; return 0;
}
int pthread_join(pthread_t id, void** result) {
    static auto f = real<int (*)(pthread_t, void**)>("pthread_join");
    if (!on()) { return f(id, result); }
    for (int i = 1; i < n_threads; ++i) {
        if (pthread_equal(T[i].id, id) && !T[i].detached) {
            T[self].st = JOIN; T[self].joins = i; spins = 0;
            while (!can_run(self)) { choose(); }
            T[self].st = READY; join(T[self].vc, T[i].vc); T[i].detached = true; if (result) { *result = T[i].result; } return 0;
        }
    }
    return f(id, result);
}
int pthread_detach(pthread_t id) { static auto f = real<int (*)(pthread_t)>("pthread_detach"); if (!on()) { return f(id); } return 0; }
int __cxa_thread_atexit(void (*d)(void*), void* o, void* h) { // its real thread has to end for the destructor to run
    static auto f = real<int (*)(void (*)(void*), void*, void*)>("__cxa_thread_atexit"); if (on() && self > 0) { T[self].dirty = true; } return f(d, o, h);
}
int pthread_mutex_lock(pthread_mutex_t* m) {
    static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock"); if (!on()) { return f(m); } acquire(m, false); return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock"); if (!on()) { return f(m); }
    if (++spins > 40) { spins = 0; choose(true); } else { choose(); }
    mutex& x = lock_of(m); if (x.owner >= 0 || x.readers > 0) { return EBUSY; }
    x.owner = self; x.depth = 1; join(T[self].vc, x.vc); return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock"); if (!on()) { return f(m); } release(m, false); return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
    static auto f = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock"); if (!on()) { return f(m); } acquire(m, true); return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
    static auto f = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock"); if (!on()) { return f(m); } acquire(m, false); return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
    static auto f = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_unlock"); if (!on()) { return f(m); } release(m, true); return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    static auto f = real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait"); if (!on()) { return f(c, m); }
    release(m, false); T[self].st = COND; T[self].waits = c; choose(); while (!can_run(self)) { choose(); }
    T[self].st = READY; acquire(m, false); return 0;
}
static void wake(const void* c, bool all) { for (int i = 0; i < n_threads; ++i) { if (T[i].st == COND && T[i].waits == c) { T[i].st = READY; if (!all) { return; } } } }
int pthread_cond_signal(pthread_cond_t* c) { static auto f = real<int (*)(pthread_cond_t*)>("pthread_cond_signal"); if (!on()) { return f(c); } wake(c, false); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { static auto f = real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast"); if (!on()) { return f(c); } wake(c, true); return 0; }
int sched_yield() { static auto f = real<int (*)()>("sched_yield"); if (!on()) { return f(); } choose(true); return 0; }

// Waiting for a future that no thread completes by being joined: let the others run.
bool _ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(void*, unsigned*, unsigned, bool, long, long) {
    if (on()) { choose(true); } else { sched_yield(); } return true;
}

// Initialisation of local statics orders its thread before those that see it done.
int __cxa_guard_acquire(uint64_t* g) {
    static int (*volatile f)(uint64_t*) = nullptr; if (!f) { f = real<int (*)(uint64_t*)>("__cxa_guard_acquire"); }
    const int r = f(g); if (r == 0 && on()) { join(T[self].vc, (*atomics)[g].vc); } return r;
}
void __cxa_guard_release(uint64_t* g) {
    static void (*volatile f)(uint64_t*) = nullptr; if (!f) { f = real<void (*)(uint64_t*)>("__cxa_guard_release"); }
    if (on()) { join((*atomics)[g].vc, T[self].vc); T[self].vc[self]++; } f(g);
}

// The interface the compiler instruments for.
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
#define ACCESS(n) \
    void __tsan_read##n(void* a) { if (on()) { touch((uintptr_t)a, n, false); } } \
    void __tsan_write##n(void* a) { if (on()) { touch((uintptr_t)a, n, true); } } \
    void __tsan_unaligned_read##n(void* a) { if (on()) { touch((uintptr_t)a, n, false); } } \
    void __tsan_unaligned_write##n(void* a) { if (on()) { touch((uintptr_t)a, n, true); } } \
    void __tsan_volatile_read##n(void* a) { if (on()) { touch((uintptr_t)a, n, false); } } \
    void __tsan_volatile_write##n(void* a) { if (on()) { touch((uintptr_t)a, n, true); } }
ACCESS(1) ACCESS(2) ACCESS(4) ACCESS(8) ACCESS(16)
void __tsan_read_range(void* a, size_t n) { if (on()) { touch((uintptr_t)a, n, false); } }
void __tsan_write_range(void* a, size_t n) { if (on()) { touch((uintptr_t)a, n, true); } }
#define PC __builtin_return_address(0)
#define ATOMIC(bits, type) \
    type __tsan_atomic##bits##_load(const volatile type* a, int o) { atomic_op(PC, a, sizeof *a, false, o); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##bits##_store(volatile type* a, type v, int o) { atomic_op(PC, a, sizeof *a, true, o); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    type __tsan_atomic##bits##_exchange(volatile type* a, type v, int o) { atomic_op(PC, a, sizeof *a, true, o); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    type __tsan_atomic##bits##_fetch_add(volatile type* a, type v, int o) { atomic_op(PC, a, sizeof *a, true, o); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    type __tsan_atomic##bits##_fetch_sub(volatile type* a, type v, int o) { atomic_op(PC, a, sizeof *a, true, o); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    type __tsan_atomic##bits##_fetch_and(volatile type* a, type v, int o) { atomic_op(PC, a, sizeof *a, true, o); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    type __tsan_atomic##bits##_fetch_or(volatile type* a, type v, int o) { atomic_op(PC, a, sizeof *a, true, o); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    type __tsan_atomic##bits##_fetch_xor(volatile type* a, type v, int o) { atomic_op(PC, a, sizeof *a, true, o); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile type* a, type* e, type v, int o, int) { atomic_op(PC, a, sizeof *a, true, o); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile type* a, type* e, type v, int o, int) { atomic_op(PC, a, sizeof *a, true, o); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// Library calls that access memory for the code under test (linked with --wrap).
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (on()) { touch((uintptr_t)s, n, false); touch((uintptr_t)d, n, true); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (on()) { touch((uintptr_t)s, n, false); touch((uintptr_t)d, n, true); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int v, size_t n) { if (on()) { touch((uintptr_t)d, n, true); } return __real_memset(d, v, n); }
}

// Memory: fresh blocks have no history, and releasing a block conflicts with any unordered access to it.
static void* fresh(size_t n, size_t a) { void* p = a > 16 ? aligned_alloc(a, (n + a - 1) / a * a) : malloc(n ? n : 1); if (!p) { throw std::bad_alloc(); } forget(p, malloc_usable_size(p)); return p; }
static void gone(void* p) { if (p && on()) { const size_t n = malloc_usable_size(p); touch((uintptr_t)p, n < 512 ? n : 512, true); } free(p); }
void* operator new(size_t n) { return fresh(n, 0); }
void* operator new(size_t n, std::align_val_t a) { return fresh(n, (size_t)a); }
void operator delete(void* p) noexcept { gone(p); }
void operator delete(void* p, size_t) noexcept { gone(p); }
void operator delete(void* p, std::align_val_t) noexcept { gone(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { gone(p); }

// The standard library's unsynchronised pool lives in uninstrumented code: using it counts as writing to it.
namespace std::pmr {
void* unsynchronized_pool_resource::do_allocate(size_t n, size_t a) {
    static auto f = real<void* (*)(void*, size_t, size_t)>("_ZNSt3pmr28unsynchronized_pool_resource11do_allocateEmm");
    if (on()) { touch((uintptr_t)this, 8, true); } void* p = f(this, n, a); forget(p, n); return p;
}
void unsynchronized_pool_resource::do_deallocate(void* p, size_t n, size_t a) {
    static auto f = real<void (*)(void*, void*, size_t, size_t)>("_ZNSt3pmr28unsynchronized_pool_resource13do_deallocateEPvmm");
    if (on()) { touch((uintptr_t)this, 8, true); touch((uintptr_t)p, n, true); } f(this, p, n, a);
}
}
