// Systematic exploration of thread schedules of the field registry, without
// changes to the code: the library is compiled with -fsanitize=thread but
// linked against the runtime below, so that every atomic operation, lock and
// memory access of the library ends up here. Exactly one thread runs at a
// time; a switch may happen before every atomic operation and every lock or
// unlock. All schedules with a bounded number of preemptions are executed,
// each in a process of its own; the distinct histories (calls, returns,
// destruction of fields, data races, use after free, deadlocks, crashes) are
// written as JSON, one per line, for spec/RegistryTrace.tla.
//
//   mt HISTORIES BOUND MAXRUNS PROGRAM...      PROGRAM = [!]ops/ops[/ops..], see step()
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <new>
#include <random>
#include <set>
#include <string>
#include <unordered_map>
#include <variant>
#include <vector>
#include <dlfcn.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

#include <e-antic/renfxx.h>

using eantic::renf_class;
using eantic::renf_elem_class;
using Handle = boost::intrusive_ptr<const renf_class>;

// ---------------------------------------------------------------- shared with the parent process
constexpr int MAXT = 4, MAXSTEP = 60000, MAXEV = 4000;
struct StepRec { uint8_t cur, enabled, chosen, blocked; };
struct Ev { char type; int8_t t; char op; int obj; };   // I call, R return, O handle from the start, D destroyed, X race, U use after free, L deadlock, V livelock, E end
struct Shared { int nstep, nev; bool done; StepRec step[MAXSTEP]; Ev ev[MAXEV]; char info[400]; };
static Shared* sh;
static void event(char type, int t, char op, int obj) { if (sh->nev < MAXEV) sh->ev[sh->nev++] = {type, (int8_t)t, op, obj}; }
[[noreturn]] static void finish() { sh->done = true; _exit(0); }

// ---------------------------------------------------------------- real allocation
extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); }
template <class X> struct Raw { // containers of the runtime itself
    using value_type = X; Raw() {} template <class Y> Raw(const Raw<Y>&) {}
    X* allocate(size_t n) { return static_cast<X*>(__libc_malloc(n * sizeof(X))); } void deallocate(X* p, size_t) { __libc_free(p); }
    bool operator==(const Raw&) const { return true; } bool operator!=(const Raw&) const { return false; }
};
template <class X> using vec = std::vector<X, Raw<X>>;
template <class K, class V> using umap = std::unordered_map<K, V, std::hash<K>, std::equal_to<K>, Raw<std::pair<const K, V>>>;

// ---------------------------------------------------------------- threads
static thread_local int me = -1;          // controlled thread
static thread_local int inside = 0;       // in this runtime
static int nthreads, owner = -1;
static sem_t sem[MAXT];
static bool finished[MAXT]; static const void* blocked[MAXT];
static vec<std::pair<int, int>>* deviations; static size_t nextdev; static int stint;
struct In { In() { inside++; } ~In() { inside--; } };

static int enabled() { int m = 0; for (int i = 0; i < nthreads; i++) if (!finished[i] && !blocked[i]) m |= 1 << i; return m; }
static int choose(bool force) { // the next thread to run; force: not the current one, if possible
    int en = enabled(), cur = me;
    if (!en) return -1;
    if (sh->nstep >= MAXSTEP) { event('V', me, ' ', 0); finish(); }
    int def = cur;
    if (!(en >> cur & 1) || (force && (en & ~(1 << cur)))) { def = (cur + 1) % nthreads; while (!(en >> def & 1) || (force && def == cur)) def = (def + 1) % nthreads; }
    int k = sh->nstep++, c = def;
    if (nextdev < deviations->size() && (*deviations)[nextdev].first == k) { c = (*deviations)[nextdev].second; nextdev++; if (!(en >> c & 1)) c = def; }
    sh->step[k] = {uint8_t(cur), uint8_t(en), uint8_t(c), uint8_t(!(en >> cur & 1) || force)};
    return c;
}
static void to(int t) { if (t == me) return; stint = 0; owner = t; sem_post(&sem[t]); while (sem_wait(&sem[me])) {} }
static void point() { // a switch may happen here
    if (me < 0) return;
    In in;
    // threads that wait by trying again and again make room for the others
    bool force = ++stint > 400;
    if (force) stint = 0;
    to(choose(force));
}
static void yield() { if (me >= 0) { In in; to(choose(true)); } }
static void block(const void* what) { // until somebody wakes this thread
    In in;
    blocked[me] = what;
    int t = choose(false);
    if (t < 0) { event('L', me, ' ', 0); finish(); }
    to(t);
}
static void wake(const void* what) { for (int i = 0; i < nthreads; i++) if (blocked[i] == what) blocked[i] = nullptr; }

// ---------------------------------------------------------------- vector clocks, races
struct Clock { unsigned c[MAXT] = {0, 0, 0, 0}; void join(const Clock& o) { for (int i = 0; i < MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } void clear() { *this = Clock(); } };
static Clock now[MAXT], pendacq[MAXT], relfence[MAXT];
static umap<uintptr_t, Clock>* sync_; // of atomics, mutexes
struct Access { unsigned clk; uint8_t t, mask; bool write, atomic; };
static umap<uintptr_t, vec<Access>>* shadow;
struct Block { size_t n; bool freed; int id; };
static umap<uintptr_t, Block>* blocks; // fields
static umap<uintptr_t, bool>* dead;    // words of freed memory
static bool raced, uafed;
static void report(char type, const void* p, const void* pc) {
    Dl_info a; bool s = dladdr(pc, &a) && a.dli_sname;
    snprintf(sh->info, sizeof sh->info, "%s at %p by thread %d in %s (offset %lx of the program)", type == 'X' ? "data race" : "use after free", p, me, s ? a.dli_sname : "?", (unsigned long)((const char*)pc - (const char*)(a.dli_fbase ? a.dli_fbase : 0)));
    bool& b = type == 'X' ? raced : uafed;
    if (!b) { b = true; event(type, me, ' ', 0); }
}
static void touch(const void* p, size_t n, bool write, bool atomic, const void* pc) {
    if (me < 0 || inside || !shadow) return;
    In in;
    uintptr_t a = (uintptr_t)p, e = a + n;
    while (a < e) {
        uintptr_t w = a & ~7ul; uint8_t mask = 0;
        for (; a < e && (a & ~7ul) == w; a++) mask |= 1 << (a & 7);
        if (dead->count(w)) report('U', p, pc);
        auto& l = (*shadow)[w]; bool put = false;
        for (auto& x : l) {
            if (x.t == me) { if (x.mask == mask && x.write == write && x.atomic == atomic) { x.clk = now[me].c[me]; put = true; } continue; }
            if (!(x.mask & mask) || (!x.write && !write) || (x.atomic && atomic)) continue;
            if (x.clk > now[me].c[x.t]) report('X', p, pc);
        }
        if (!put) { if (l.size() > 12) l.erase(l.begin()); l.push_back({now[me].c[me], (uint8_t)me, mask, write, atomic}); }
    }
}
static void tick() { now[me].c[me]++; }
static void acquire(const void* p) { now[me].join((*sync_)[(uintptr_t)p]); }
static void release(const void* p) { (*sync_)[(uintptr_t)p].join(now[me]); tick(); }

// ---------------------------------------------------------------- memory
static int nextid; static int livefields; static vec<bool>* returned;
static void retire(void* q) { // the memory is not used again in this run
    size_t n = malloc_usable_size(q);
    touch(q, n, true, false, __builtin_return_address(0));
    In in;
    for (uintptr_t w = (uintptr_t)q & ~7ul; w < (uintptr_t)q + n; w += 8) (*dead)[w] = true;
}
static bool tracking() { return me >= 0 && !inside; }
extern "C" {
void* malloc(size_t n) { return __libc_malloc(n); }
void free(void* q) { if (!q) return; if (tracking()) retire(q); else if (me < 0 && !shadow) __libc_free(q); /* otherwise: kept until the process ends */ else if (inside) __libc_free(q); }
void* calloc(size_t n, size_t m) { return __libc_calloc(n, m); }
void* realloc(void* q, size_t n) {
    if (!tracking() || !q) return __libc_realloc(q, n);
    void* r = __libc_malloc(n); size_t o = malloc_usable_size(q); memcpy(r, q, o < n ? o : n); retire(q); return r;
}
}
void* operator new(size_t n) {
    void* q = __libc_malloc(n ? n : 1);
    if (!q) throw std::bad_alloc();
    if (n == sizeof(renf_class) && blocks && !inside) { In in; (*blocks)[(uintptr_t)q] = {n, false, ++nextid}; livefields++; }
    return q;
}
void operator delete(void* q) noexcept {
    if (!q) return;
    if (blocks && !inside) {
        In in; auto i = blocks->find((uintptr_t)q);
        if (i != blocks->end()) {
            if (i->second.freed) { snprintf(sh->info, sizeof sh->info, "double free of a field"); event('U', me, ' ', 0); }
            else livefields--;
            i->second.freed = true;
            event('D', me, ' ', i->second.id);
        }
    }
    free(q);
}
void operator delete(void* q, size_t) noexcept { operator delete(q); }
void* operator new[](size_t n) { return operator new(n); }
void operator delete[](void* q) noexcept { operator delete(q); }
void operator delete[](void* q, size_t) noexcept { operator delete(q); }
static int idof(const renf_class* k) { In in; auto i = blocks->find((uintptr_t)k); return i == blocks->end() ? 0 : i->second.id; }

// ---------------------------------------------------------------- locks
template <class F> static F real(const char* n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }
struct Lock { int owner = -1, depth = 0, readers = 0; };
static umap<uintptr_t, Lock>* locks;
static bool ctl() { return me >= 0 && !inside; }
static int lock_(void* m, bool recursive) {
    point(); In in;
    auto& l = (*locks)[(uintptr_t)m];
    if (recursive && l.owner == me) { l.depth++; return 0; }
    while ((*locks)[(uintptr_t)m].owner >= 0 || (*locks)[(uintptr_t)m].readers) block(m);
    (*locks)[(uintptr_t)m].owner = me; (*locks)[(uintptr_t)m].depth = 1; acquire(m); return 0;
}
static int trylock_(void* m, bool recursive) { point(); In in; auto& l = (*locks)[(uintptr_t)m]; if (recursive && l.owner == me) { l.depth++; return 0; } if (l.owner >= 0 || l.readers) return EBUSY; l.owner = me; l.depth = 1; acquire(m); return 0; }
static int unlock_(void* m) { point(); In in; auto& l = (*locks)[(uintptr_t)m]; if (l.readers && l.owner < 0) { l.readers--; release(m); } else if (--l.depth <= 0) { l.owner = -1; l.depth = 0; release(m); } wake(m); return 0; }
static int rdlock_(void* m) { point(); In in; while ((*locks)[(uintptr_t)m].owner >= 0) block(m); (*locks)[(uintptr_t)m].readers++; acquire(m); return 0; }
static bool rec(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) { if (ctl()) return lock_(m, rec(m)); static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock"); return f(m); }
int pthread_mutex_trylock(pthread_mutex_t* m) { if (ctl()) return trylock_(m, rec(m)); static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock"); return f(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (ctl()) return unlock_(m); static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock"); return f(m); }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (ctl()) return rdlock_(m); static auto f = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock"); return f(m); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (ctl()) return lock_(m, false); static auto f = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock"); return f(m); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { if (ctl()) return unlock_(m); static auto f = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_unlock"); return f(m); }
int pthread_spin_lock(pthread_spinlock_t* m) { if (ctl()) return lock_((void*)m, false); static auto f = real<int (*)(pthread_spinlock_t*)>("pthread_spin_lock"); return f(m); }
int pthread_spin_unlock(pthread_spinlock_t* m) { if (ctl()) return unlock_((void*)m); static auto f = real<int (*)(pthread_spinlock_t*)>("pthread_spin_unlock"); return f(m); }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (!ctl()) { static auto f = real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait"); return f(c, m); }
    unlock_(m); block(c); return lock_(m, false);
}
int pthread_cond_signal(pthread_cond_t* c) { if (ctl()) { point(); In in; wake(c); return 0; } static auto f = real<int (*)(pthread_cond_t*)>("pthread_cond_signal"); return f(c); }
int pthread_cond_broadcast(pthread_cond_t* c) { if (ctl()) { point(); In in; wake(c); return 0; } static auto f = real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast"); return f(c); }
int sched_yield(void) { if (ctl()) { yield(); return 0; } static auto f = real<int (*)(void)>("sched_yield"); return f(); }
int nanosleep(const struct timespec* a, struct timespec* b) { if (ctl()) { yield(); return 0; } static auto f = real<int (*)(const struct timespec*, struct timespec*)>("nanosleep"); return f(a, b); }
int clock_nanosleep(clockid_t c, int fl, const struct timespec* a, struct timespec* b) { if (ctl()) { yield(); return 0; } static auto f = real<int (*)(clockid_t, int, const struct timespec*, struct timespec*)>("clock_nanosleep"); return f(c, fl, a, b); }
int pthread_once(pthread_once_t* o, void (*init)(void)) {
    if (!ctl()) { static auto f = real<int (*)(pthread_once_t*, void (*)(void))>("pthread_once"); return f(o, init); }
    point();
    { In in; while ((*locks)[(uintptr_t)o].owner >= 0) block(o); if (*(volatile int*)o == 2) { acquire(o); return 0; } (*locks)[(uintptr_t)o].owner = me; }
    try { init(); } catch (...) { In in; (*locks)[(uintptr_t)o].owner = -1; wake(o); throw; }
    { In in; *(volatile int*)o = 2; (*locks)[(uintptr_t)o].owner = -1; release(o); wake(o); }
    return 0;
}
// local static variables
int __cxa_guard_acquire(long long* g0) {
    char* g = (char*)g0;
    if (!ctl()) return *g ? 0 : 1; // before there are threads
    point(); In in;
    while ((*locks)[(uintptr_t)g].owner >= 0) block(g);
    if (*g) { acquire(g); return 0; }
    (*locks)[(uintptr_t)g].owner = me; return 1;
}
void __cxa_guard_release(long long* g0) { char* g = (char*)g0; if (!ctl()) { *g = 1; return; } In in; *g = 1; (*locks)[(uintptr_t)g].owner = -1; release(g); wake(g); }
void __cxa_guard_abort(long long* g0) { char* g = (char*)g0; if (!ctl()) return; In in; (*locks)[(uintptr_t)g].owner = -1; wake(g); }
}

// ---------------------------------------------------------------- instrumentation by the compiler
#define PC __builtin_return_address(0)
// memory orders: 0 relaxed, 1 consume, 2 acquire, 3 release, 4 acq_rel, 5 seq_cst
static bool isacq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static bool isrel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
static void sync_load(const void* p, int mo) { auto& s = (*sync_)[(uintptr_t)p]; pendacq[me].join(s); if (isacq(mo)) now[me].join(s); }
static void sync_store(const void* p, int mo, bool rmw) {
    auto& s = (*sync_)[(uintptr_t)p];
    if (!rmw) s.clear();
    if (isrel(mo)) s.join(now[me]); else s.join(relfence[me]);
    tick();
}
template <class X> static X a_load(const volatile X* p, int mo, const void* pc) { if (!ctl()) return *p; point(); touch((const void*)p, sizeof(X), false, true, pc); In in; sync_load((const void*)p, mo); return *p; }
template <class X> static void a_store(volatile X* p, X v, int mo, const void* pc) { if (!ctl()) { *p = v; return; } point(); touch((const void*)p, sizeof(X), true, true, pc); In in; sync_store((const void*)p, mo, false); *p = v; }
template <class X, class F> static X a_rmw(volatile X* p, int mo, const void* pc, F f) {
    if (!ctl()) { X o = *p; *p = f(o); return o; }
    point(); touch((const void*)p, sizeof(X), true, true, pc); In in; sync_load((const void*)p, mo); sync_store((const void*)p, mo, true); X o = *p; *p = f(o); return o;
}
template <class X> static int a_cas(volatile X* p, X* exp, X v, int mo, int fmo, const void* pc) {
    if (!ctl()) { if (*p == *exp) { *p = v; return 1; } *exp = *p; return 0; }
    point(); In in0; inside--; 
    X o = *p; bool ok = o == *exp;
    touch((const void*)p, sizeof(X), ok, true, pc); inside++;
    if (ok) { sync_load((const void*)p, mo); sync_store((const void*)p, mo, true); *p = v; return 1; }
    sync_load((const void*)p, fmo); *exp = o; return 0;
}
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { touch(p, 8, true, false, PC); }
void __tsan_vptr_read(void** p) { touch(p, 8, false, false, PC); }
void __tsan_read_range(void* p, size_t n) { touch(p, n, false, false, PC); }
void __tsan_write_range(void* p, size_t n) { touch(p, n, true, false, PC); }
#define RW(n) void __tsan_read##n(void* p) { touch(p, n, false, false, PC); } void __tsan_write##n(void* p) { touch(p, n, true, false, PC); } \
    void __tsan_unaligned_read##n(void* p) { touch(p, n, false, false, PC); } void __tsan_unaligned_write##n(void* p) { touch(p, n, true, false, PC); } \
    void __tsan_volatile_read##n(void* p) { touch(p, n, false, false, PC); } void __tsan_volatile_write##n(void* p) { touch(p, n, true, false, PC); } \
    void __tsan_unaligned_volatile_read##n(void* p) { touch(p, n, false, false, PC); } void __tsan_unaligned_volatile_write##n(void* p) { touch(p, n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void* __tsan_memcpy(void* d, const void* s, size_t n) { touch(s, n, false, false, PC); touch(d, n, true, false, PC); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { touch(s, n, false, false, PC); touch(d, n, true, false, PC); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { touch(d, n, true, false, PC); return memset(d, c, n); }
void __tsan_atomic_thread_fence(int mo) { if (!ctl()) return; point(); In in; if (isacq(mo)) now[me].join(pendacq[me]); if (isrel(mo)) { relfence[me] = now[me]; tick(); } }
void __tsan_atomic_signal_fence(int) {}
#define AT(n, X) X __tsan_atomic##n##_load(const volatile X* p, int mo) { return a_load(p, mo, PC); } \
    void __tsan_atomic##n##_store(volatile X* p, X v, int mo) { a_store(p, v, mo, PC); } \
    X __tsan_atomic##n##_exchange(volatile X* p, X v, int mo) { return a_rmw(p, mo, PC, [=](X) { return v; }); } \
    X __tsan_atomic##n##_fetch_add(volatile X* p, X v, int mo) { return a_rmw(p, mo, PC, [=](X o) { return X(o + v); }); } \
    X __tsan_atomic##n##_fetch_sub(volatile X* p, X v, int mo) { return a_rmw(p, mo, PC, [=](X o) { return X(o - v); }); } \
    X __tsan_atomic##n##_fetch_and(volatile X* p, X v, int mo) { return a_rmw(p, mo, PC, [=](X o) { return X(o & v); }); } \
    X __tsan_atomic##n##_fetch_or(volatile X* p, X v, int mo) { return a_rmw(p, mo, PC, [=](X o) { return X(o | v); }); } \
    X __tsan_atomic##n##_fetch_xor(volatile X* p, X v, int mo) { return a_rmw(p, mo, PC, [=](X o) { return X(o ^ v); }); } \
    X __tsan_atomic##n##_fetch_nand(volatile X* p, X v, int mo) { return a_rmw(p, mo, PC, [=](X o) { return X(~(o & v)); }); } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile X* p, X* e, X v, int mo, int fmo) { return a_cas(p, e, v, mo, fmo, PC); } \
    int __tsan_atomic##n##_compare_exchange_weak(volatile X* p, X* e, X v, int mo, int fmo) { return a_cas(p, e, v, mo, fmo, PC); } \
    X __tsan_atomic##n##_compare_exchange_val(volatile X* p, X e, X v, int mo, int fmo) { a_cas(p, &e, v, mo, fmo, PC); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
}

// ---------------------------------------------------------------- programs
static renf_t nfA, nfB; static Handle initial;
static void init_fields() {
    fmpq_poly_t p; arb_t e; fmpq_poly_init(p); arb_init(e);
    fmpq_poly_set_coeff_si(p, 0, -2); fmpq_poly_set_coeff_si(p, 2, 1);
    arb_set_str(e, "1.41 +/- 0.1", 64); renf_init(nfA, p, e, 64);
    arb_set_str(e, "-1.41 +/- 0.1", 64); renf_init(nfB, p, e, 64);
    fmpq_poly_clear(p); arb_clear(e);
}
struct Thread { std::string ops; std::vector<std::variant<Handle, renf_elem_class>> slots; };
static Thread* T;
static const renf_class* of(const std::variant<Handle, renf_elem_class>& s) { return s.index() ? &std::get<1>(s).parent() : std::get<0>(s).get(); }
static bool is(const renf_class& k, char f) { // the field asked for
    In in; return k.gen_name() == "x" && k.degree() == 2 && (arf_sgn(arb_midref(k.renf_t()->emb)) > 0) == (f == 'A');
}
// A, B: make the field; c: copy the last handle; d: drop it; u: use its field; e: turn it into an
// element; m: an element of the field, times itself; q: an element of the rationals; s: a handle to A from the start
static void step(int t, char op) {
    auto& s = T[t].slots; int o = s.empty() ? 0 : idof(of(s.back()));
    event('I', t, op, op == 'A' || op == 'B' || op == 'q' ? 0 : o);
    switch (op) {
    case 'A': case 'B': { s.emplace_back(renf_class::make(op == 'A' ? nfA : nfB, "x")); o = idof(of(s.back())); if (o && !is(*of(s.back()), op)) o = -1; break; }
    case 'c': { auto c = s.back(); s.push_back(std::move(c)); break; }
    case 'd': s.pop_back(); break;
    case 'u': { auto* k = of(s.back()); volatile long x = k->degree(); x += k->gen_name().size(); x += k->zero().is_zero(); (void)x; break; }
    case 'e': { auto x = renf_elem_class(of(s.back())->gen()); s.back() = std::move(x); break; }
    case 'm': { auto x = renf_elem_class(of(s.back())->gen()); x *= x; break; }
    case 'q': { renf_elem_class x; renf_elem_class y(3); x += y; o = idof(&x.parent()); break; }
    }
    event('R', t, op, o);
}
static void* body(void* arg) {
    int t = int(intptr_t(arg));
    while (sem_wait(&sem[t])) {}
    me = t;
    try { for (char op : T[t].ops) if (op != 's') step(t, op); while (!T[t].slots.empty()) step(t, 'd'); }
    catch (...) { event('C', t, ' ', 0); finish(); }
    In in;
    { vec<int> nothing; std::vector<std::variant<Handle, renf_elem_class>> none; T[t].slots.swap(none); }
    finished[t] = true;
    int c = choose(false);
    if (c < 0) {
        for (int i = 0; i < nthreads; i++) if (!finished[i]) { event('L', t, ' ', 0); finish(); }
        event('E', -1, ' ', livefields); finish();
    }
    stint = 0; owner = c; sem_post(&sem[c]);
    for (;;) pause(); // finish() ends the process
}
static void child(const std::vector<std::string>& prog, bool first, const std::vector<std::pair<int, int>>& dev) {
    alarm(20);
    if (!getenv("MT_SCHEDULE")) { if (!freopen("/dev/null", "w", stderr)) {} }
    static vec<std::pair<int, int>> d(dev.begin(), dev.end()); deviations = &d; nextdev = 0;
    static umap<uintptr_t, Block> b; blocks = &b;
    if (!first) renf_class::make();
    static Thread ts[MAXT]; T = ts; nthreads = (int)prog.size();
    bool share = false; for (auto& p : prog) share = share || p.find('s') != std::string::npos;
    { Handle a; if (share) a = renf_class::make(nfA, "x");
      for (int t = 0; t < nthreads; t++) { T[t].ops = prog[t]; T[t].slots.reserve(8); if (prog[t].find('s') != std::string::npos) { event('O', t, 's', idof(a.get())); T[t].slots.emplace_back(a); } } }
    if (!first) event('Q', -1, ' ', idof(&renf_class::make()));
    static umap<uintptr_t, vec<Access>> s0; static umap<uintptr_t, bool> s1; static umap<uintptr_t, Clock> s2; static umap<uintptr_t, Lock> s3;
    shadow = &s0; dead = &s1; sync_ = &s2; locks = &s3;
    for (int t = 0; t < nthreads; t++) { sem_init(&sem[t], 0, 0); now[t].c[t] = 1; }
    pthread_t th[MAXT];
    for (int t = 0; t < nthreads; t++) pthread_create(&th[t], nullptr, body, (void*)intptr_t(t));
    me = 0; int c; { In in; c = choose(false); } me = -1; // the first thread to run
    owner = c; sem_post(&sem[c]);
    for (;;) pause();
}

// ---------------------------------------------------------------- exploration
static std::string history() {
    std::string r; std::map<int, int> name; // objects by first appearance
    auto nm = [&](int o) { if (o <= 0) return o; auto i = name.find(o); if (i != name.end()) return i->second; int n = (int)name.size() + 1; name[o] = n; return n; };
    std::set<int> known; for (int i = 0; i < sh->nev; i++) if (sh->ev[i].type == 'R' || sh->ev[i].type == 'O' || sh->ev[i].type == 'Q') known.insert(sh->ev[i].obj);
    for (int i = 0; i < sh->nev; i++) {
        Ev e = sh->ev[i];
        if (e.type == 'D' && !known.count(e.obj)) continue; // never handed out
        int ret = 0;
        if (e.type == 'I') for (int j = i + 1; j < sh->nev; j++) if (sh->ev[j].type == 'R' && sh->ev[j].t == e.t) { ret = nm(sh->ev[j].obj); break; }
        int o = e.type == 'E' ? e.obj : e.type == 'I' && e.obj == 0 ? ret : nm(e.obj);
        r += (r.empty() ? "" : ",") + std::string("{\"e\":\"") + e.type + "\",\"t\":" + std::to_string(e.t) + ",\"op\":\"" + (e.op == ' ' ? "-" : std::string(1, e.op)) + "\",\"o\":" + std::to_string(o) + "}";
    }
    return r;
}
int main(int argc, char** argv) {
    if (argc < 5) return 3;
    sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    init_fields();
    FILE* out = fopen(argv[1], "w"); if (!out) return 3;
    int bound = atoi(argv[2]); long maxruns = atol(argv[3]);
    bool one = getenv("MT_SCHEDULE") != nullptr; // replay a single schedule
    for (int a = 4; a < argc; a++) {
        std::string p = argv[a], full = p; bool first = p[0] == '!'; if (first) p = p.substr(1);
        std::vector<std::string> prog; { std::string t; for (char c : p + "/") if (c == '/') { prog.push_back(t); t.clear(); } else t += c; }
        if (prog.size() > MAXT) return 3;
        struct Item { std::vector<std::pair<int, int>> dev; int cost; };
        std::vector<std::deque<Item>> todo(bound + 1);
        Item start{{}, 0};
        if (one) { int s, t; for (const char* q = getenv("MT_SCHEDULE"); sscanf(q, "%d:%d", &s, &t) == 2;) { start.dev.push_back({s, t}); q = strchr(q, ','); if (!q) break; q++; } }
        todo[0].push_back(start);
        std::mt19937 rng(12345); long runs = 0, points = 0, left = 0; std::map<std::string, std::string> seen; bool complete = true;
        for (int c = 0; c <= bound; c++) {
            while (!todo[c].empty()) {
                if (runs >= maxruns) { complete = false; break; }
                size_t k = c < 2 ? 0 : rng() % todo[c].size(); std::swap(todo[c][k], todo[c].front());
                Item it = todo[c].front(); todo[c].pop_front();
                sh->nstep = sh->nev = 0; sh->done = false; sh->info[0] = 0;
                fflush(out);
                pid_t pid = fork();
                if (pid == 0) { child(prog, first, it.dev); _exit(9); }
                int st; waitpid(pid, &st, 0); runs++;
                if (!sh->done) { if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) event('V', -1, ' ', 0); else event('C', -1, ' ', 0); snprintf(sh->info + strlen(sh->info), 80, " (the process ended with status %d)", st); }
                points = std::max(points, (long)sh->nstep);
                std::string h = history();
                if (!seen.count(h)) {
                    std::string sc; for (auto& d : it.dev) sc += (sc.empty() ? "" : ",") + std::to_string(d.first) + ":" + std::to_string(d.second);
                    std::string info; for (char* q = sh->info; *q; q++) if (*q != '"' && *q != '\\') info += *q;
                    seen[h] = sc;
                    fprintf(out, "{\"prog\":\"%s\",\"sched\":\"%s\",\"info\":\"%s\",\"h\":[%s]}\n", full.c_str(), sc.c_str(), info.c_str(), h.c_str());
                }
                if (one) continue;
                int from = it.dev.empty() ? 0 : it.dev.back().first + 1;
                for (int i = from; i < sh->nstep; i++)
                    for (int t = 0; t < (int)prog.size(); t++)
                        if ((sh->step[i].enabled >> t & 1) && t != sh->step[i].chosen) {
                            int cost = it.cost + (sh->step[i].blocked ? 0 : 1);
                            if (i == 0) cost = it.cost;
                            if (cost > bound) continue;
                            Item n = it; n.dev.push_back({i, t}); n.cost = cost;
                            if (cost == c) todo[c].push_back(n); else todo[cost].push_back(n);
                        }
            }
            if (!complete) { for (auto& q : todo) left += (long)q.size(); break; }
        }
        printf("{\"prog\":\"%s\",\"runs\":%ld,\"points\":%ld,\"histories\":%zu,\"complete\":%s,\"left\":%ld}\n", full.c_str(), runs, points, seen.size(), complete ? "true" : "false", left);
        fflush(stdout);
    }
    fclose(out);
    return 0;
}
