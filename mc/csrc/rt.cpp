// Runtime of the C13 check. The extension is compiled with -fsanitize=thread, which turns every memory access of its
// code into a call of one of the __tsan_* functions; these are defined here instead of in libtsan. OpenMP entry points
// of its object files are renamed to the __wrap_* functions (objcopy): the threads of a parallel region are coroutines, and this file decides, at every
// access to memory they share, which of them goes on. Choices are enumerated depth first over repeated executions.
//  - race: two threads of a region touch the same byte, at least one writes, not both under a lock / atomically
//  - bounds: every access to tensor memory lies inside a live allocation (tensors come from the allocator below)
//  - inputs: no write to memory that was marked read-only
#include <c10/core/Allocator.h>
#include <c10/core/CPUAllocator.h>
#include <omp.h>
#include <sys/mman.h>
#include <ucontext.h>

#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>

using uptr = uintptr_t;

// ------------------------------------------------------------------ reports
static std::string g_viol;
static int g_nviol = 0;
static void report(const char *fmt, ...)
{
    char buf[400];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (g_nviol++ == 0)
        g_viol = buf;
}

// ------------------------------------------------------------------ tensor memory
static const size_t SLOT = 1 << 20, NSLOT = 4096;
static char *g_arena = nullptr;
struct Slot
{
    char *lo = nullptr;
    size_t n = 0;
    bool live = false, ro = false;
};
static Slot g_slot[NSLOT];
static size_t g_next = 0;

static void slot_free(void *p)
{
    if (!p)
        return;
    size_t i = ((char *)p - g_arena) / SLOT;
    g_slot[i].live = false;
}

static void slot_free_big(void *p) { free(p); }

struct Arena : c10::Allocator
{
    at::DataPtr allocate(size_t n) override
    {
        if (n > SLOT / 2)
        {
            void *p = aligned_alloc(64, (n + 63) / 64 * 64);
            return {p, p, &slot_free_big, at::Device(at::kCPU)};
        }
        size_t tries = 0;
        do
        {
            g_next = (g_next + 1) % NSLOT;
            if (++tries > NSLOT)
                throw std::bad_alloc();
        } while (g_slot[g_next].live);
        Slot &s = g_slot[g_next];
        s.lo = g_arena + g_next * SLOT + SLOT / 4;
        s.n = n;
        s.live = true;
        s.ro = false;
        memset(s.lo, 0x7b, n); // whatever is read before it is written is not a small integer
        return {s.lo, s.lo, &slot_free, at::Device(at::kCPU)};
    }
    void copy_data(void *d, const void *s, size_t n) const override { default_copy_data(d, s, n); }
};
static Arena g_alloc;

// ------------------------------------------------------------------ threads, choices
struct Loop
{
    bool init = false;
    bool up = true;
    __int128 next = 0, end = 0, incr = 1, chunk = 1;
    int kind = 0; // 0 dynamic, 1 guided, 2 static
    bool single_taken = false;
};
enum State
{
    READY,
    AT_BARRIER,
    AT_LOCK,
    DONE
};
struct Thread
{
    ucontext_t ctx;
    char *stack = nullptr;
    State st = READY;
    int locked = 0;
    size_t ws = 0; // work-sharing constructs entered so far
};
static const size_t STACK = 512 << 10;
static const int MAXT = 8;
static Thread g_th[MAXT];
static int g_team = 1;  // threads that a region gets
static int g_max = 1;   // threads that it could get at most: a runtime may give fewer (thread limit, nesting, dynamic teams)
static int g_bound = 0; // preemptions per execution
static bool g_in = false;
static int g_cur = -1, g_k = 0, g_preempt = 0, g_owner = -1;
static ucontext_t g_main;
static void (*g_fn)(void *);
static void *g_data;
static std::vector<Loop> g_ws;

static std::vector<std::pair<int, int>> g_path; // (options, choice)
static size_t g_pos = 0;
static long g_choices = 0, g_access = 0, g_regions = 0, g_maxteam = 0;

static int choose(int n)
{
    if (n <= 1)
        return 0;
    g_choices++;
    if (g_pos < g_path.size())
    {
        auto &p = g_path[g_pos++];
        if (p.first != n)
        {
            report("the execution is not a function of its schedule: %d options instead of %d", n, p.first);
            p.first = n;
            p.second %= n;
        }
        return p.second;
    }
    g_path.push_back({n, 0});
    g_pos++;
    return 0;
}

// ------------------------------------------------------------------ shadow memory of the running region
struct Cell
{
    uint8_t r = 0, w = 0, lr = 0, lw = 0; // threads that read / wrote, and did so under a lock
};
static std::unordered_map<uptr, Cell> g_shadow;

static inline bool own_stack(uptr a)
{
    auto s = (uptr)g_th[g_cur].stack;
    return a >= s && a < s + STACK;
}

static void point()
{
    if (g_preempt >= g_bound)
        return;
    int opt[MAXT], n = 0;
    opt[n++] = g_cur;
    for (int i = 0; i < g_k; i++)
        if (i != g_cur && g_th[i].st == READY)
            opt[n++] = i;
    int c = choose(n);
    if (c)
    {
        g_preempt++;
        int me = g_cur;
        g_cur = opt[c];
        swapcontext(&g_th[me].ctx, &g_th[opt[c]].ctx);
    }
}

static void access(const void *p, size_t n, bool write, bool atomic = false)
{
    uptr a = (uptr)p;
    if (n == 0)
        return;
    uptr off = a - (uptr)g_arena;
    if (g_arena && off < SLOT * NSLOT)
    {
        Slot &s = g_slot[off / SLOT];
        long rel = (long)(a - (uptr)s.lo);
        if (!s.live || rel < 0 || rel + n > s.n)
            report("%s of %zu bytes at offset %ld of %s of %zu bytes", write ? "write" : "read", n, rel,
                   s.live ? "a tensor" : "freed memory", s.n);
        else if (write && s.ro)
            report("write of %zu bytes to an input (offset %ld)", n, rel);
    }
    if (!g_in || g_cur < 0)
        return;
    if (own_stack(a))
        return;
    g_access++;
    point();
    uint8_t me = 1 << g_cur;
    bool lk = atomic || g_th[g_cur].locked;
    for (size_t i = 0; i < n; i++)
    {
        Cell &c = g_shadow[a + i];
        uint8_t other = ~me;
        uint8_t w = c.w | (lk ? 0 : c.lw), r = c.r | (lk ? 0 : c.lr);
        if ((w & other) || (write && (r & other)))
        {
            report("data race: %s by thread %d of memory that another thread of the team of %d %s", write ? "write" : "read",
                   g_cur, g_k, (w & other) ? "writes" : "reads");
            break;
        }
        (write ? (lk ? c.lw : c.w) : (lk ? c.lr : c.r)) |= me;
    }
}

// ------------------------------------------------------------------ regions
static void entry(int i)
{
    g_fn(g_data);
    g_th[i].st = DONE;
    g_cur = -1;
    swapcontext(&g_th[i].ctx, &g_main);
}

static void region(void (*fn)(void *), void *data, unsigned num)
{
    if (g_in)
    { // nested: a team of one
        fn(data);
        return;
    }
    g_regions++;
    g_k = num ? ((int)num < g_team ? (int)num : g_team) : g_team;
    if (g_k > g_maxteam)
        g_maxteam = g_k;
    g_in = true;
    g_fn = fn;
    g_data = data;
    g_preempt = 0;
    g_owner = -1;
    g_shadow.clear();
    for (int i = 0; i < g_k; i++)
    {
        Thread &t = g_th[i];
        if (!t.stack)
            t.stack = (char *)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        getcontext(&t.ctx);
        t.ctx.uc_stack.ss_sp = t.stack;
        t.ctx.uc_stack.ss_size = STACK;
        t.ctx.uc_link = &g_main;
        t.st = READY;
        t.locked = 0;
        t.ws = 0;
        makecontext(&t.ctx, (void (*)())entry, 1, i);
    }
    for (;;)
    {
        int opt[MAXT], n = 0, done = 0, bar = 0;
        for (int i = 0; i < g_k; i++)
        {
            if (g_th[i].st == READY)
                opt[n++] = i;
            done += g_th[i].st == DONE;
            bar += g_th[i].st == AT_BARRIER;
        }
        if (done == g_k)
            break;
        if (n == 0)
        {
            if (bar && bar + done == g_k)
            {
                if (done)
                    report("%d threads wait at a barrier that the others never reach", bar);
                for (int i = 0; i < g_k; i++)
                    if (g_th[i].st == AT_BARRIER)
                        g_th[i].st = READY;
                g_shadow.clear(); // everything before the barrier happens before everything after it
                continue;
            }
            report("deadlock");
            fprintf(stderr, "deadlock\n");
            abort();
        }
        g_cur = opt[choose(n)];
        swapcontext(&g_main, &g_th[g_cur].ctx);
    }
    g_in = false;
    g_cur = -1;
    g_ws.clear();
}

static void block(State s)
{
    int me = g_cur;
    g_th[me].st = s;
    g_cur = -1;
    swapcontext(&g_th[me].ctx, &g_main);
}

static void lock()
{
    if (!g_in)
        return;
    point();
    while (g_owner >= 0)
        block(AT_LOCK);
    g_owner = g_cur;
    g_th[g_cur].locked++;
}

static void unlock()
{
    if (!g_in)
        return;
    g_th[g_cur].locked--;
    g_owner = -1;
    for (int i = 0; i < g_k; i++)
        if (g_th[i].st == AT_LOCK)
            g_th[i].st = READY;
}

static Loop &share(bool enter)
{
    size_t &w = g_th[g_cur < 0 ? 0 : g_cur].ws;
    if (enter)
        w++;
    if (g_ws.size() < w + 1)
        g_ws.resize(w + 1);
    return g_ws[w];
}

static void loop_init(Loop &l, bool up, __int128 start, __int128 end, __int128 incr, __int128 chunk, int kind)
{
    if (l.init)
        return;
    l.init = true;
    l.up = up;
    l.next = start;
    l.end = end;
    l.incr = incr;
    l.kind = kind;
    if (kind == 2 && chunk <= 0)
    {
        __int128 n = up ? (end - start + incr - 1) / incr : (start - end - incr - 1) / -incr;
        chunk = (n + g_k - 1) / (g_k ? g_k : 1);
    }
    l.chunk = chunk > 0 ? chunk : 1;
}

template <class I>
static bool loop_next(Loop &l, I *a, I *b)
{
    if (g_in && g_cur >= 0)
        point();
    if (l.up ? l.next >= l.end : l.next <= l.end)
        return false;
    __int128 c = l.chunk;
    if (l.kind == 1)
    {
        __int128 n = (l.end - l.next) / l.incr, k = g_k ? g_k : 1;
        __int128 q = (n + k - 1) / k;
        if (q > c)
            c = q;
    }
    *a = (I)l.next;
    l.next += c * l.incr;
    if (l.up ? l.next > l.end : l.next < l.end)
        l.next = l.end;
    *b = (I)l.next;
    return true;
}

extern "C"
{
    void __wrap_GOMP_parallel(void (*fn)(void *), void *data, unsigned num, unsigned) { region(fn, data, num); }
    void __wrap_GOMP_barrier()
    {
        if (g_in && g_cur >= 0)
            block(AT_BARRIER);
    }
    void __wrap_GOMP_critical_start() { lock(); }
    void __wrap_GOMP_critical_end() { unlock(); }
    void __wrap_GOMP_critical_name_start(void **) { lock(); }
    void __wrap_GOMP_critical_name_end(void **) { unlock(); }
    void __wrap_GOMP_atomic_start() { lock(); }
    void __wrap_GOMP_atomic_end() { unlock(); }
    bool __wrap_GOMP_single_start()
    {
        if (!g_in)
            return true;
        point();
        Loop &l = share(true);
        bool mine = !l.single_taken;
        l.single_taken = true;
        return mine;
    }
    void __wrap_GOMP_loop_end()
    {
        if (g_in && g_cur >= 0)
            block(AT_BARRIER);
    }
    void __wrap_GOMP_loop_end_nowait() {}

#define PLOOP(name, kind)                                                                                             \
    void __wrap_GOMP_parallel_loop_##name(void (*fn)(void *), void *data, unsigned num, long s, long e, long i,       \
                                          long chunk, unsigned)                                                      \
    {                                                                                                                 \
        g_ws.assign(1, Loop());                                                                                       \
        g_k = g_team;                                                                                                 \
        loop_init(g_ws[0], i > 0, s, e, i, chunk, kind);                                                              \
        region(fn, data, num);                                                                                        \
    }
#define PLOOPR(name, kind)                                                                                            \
    void __wrap_GOMP_parallel_loop_##name(void (*fn)(void *), void *data, unsigned num, long s, long e, long i,       \
                                          unsigned)                                                                  \
    {                                                                                                                 \
        g_ws.assign(1, Loop());                                                                                       \
        g_k = g_team;                                                                                                 \
        loop_init(g_ws[0], i > 0, s, e, i, 0, kind);                                                                  \
        region(fn, data, num);                                                                                        \
    }
    PLOOP(static, 2)
    PLOOP(dynamic, 0)
    PLOOP(guided, 1)
    PLOOP(nonmonotonic_dynamic, 0)
    PLOOP(nonmonotonic_guided, 1)
    PLOOPR(runtime, 0)
    PLOOPR(nonmonotonic_runtime, 0)
    PLOOPR(maybe_nonmonotonic_runtime, 0)

    typedef unsigned long long ull;
#define LOOPN(name)                                                                                                   \
    bool __wrap_GOMP_loop_##name##_next(long *a, long *b) { return loop_next(share(false), a, b); }                   \
    bool __wrap_GOMP_loop_ull_##name##_next(ull *a, ull *b) { return loop_next(share(false), a, b); }
#define LOOPS(name, kind)                                                                                             \
    bool __wrap_GOMP_loop_##name##_start(long s, long e, long i, long c, long *a, long *b)                            \
    {                                                                                                                 \
        Loop &l = share(true);                                                                                        \
        loop_init(l, i > 0, s, e, i, c, kind);                                                                        \
        return loop_next(share(false), a, b);                                                                         \
    }                                                                                                                 \
    bool __wrap_GOMP_loop_ull_##name##_start(bool up, ull s, ull e, ull i, ull c, ull *a, ull *b)                     \
    {                                                                                                                 \
        Loop &l = share(true);                                                                                        \
        loop_init(l, up, s, e, up ? (__int128)i : (__int128)(long long)i, c, kind);                                   \
        return loop_next(share(false), a, b);                                                                         \
    }
#define LOOPSR(name, kind)                                                                                            \
    bool __wrap_GOMP_loop_##name##_start(long s, long e, long i, long *a, long *b)                                    \
    {                                                                                                                 \
        Loop &l = share(true);                                                                                        \
        loop_init(l, i > 0, s, e, i, 0, kind);                                                                        \
        return loop_next(share(false), a, b);                                                                         \
    }                                                                                                                 \
    bool __wrap_GOMP_loop_ull_##name##_start(bool up, ull s, ull e, ull i, ull *a, ull *b)                            \
    {                                                                                                                 \
        Loop &l = share(true);                                                                                        \
        loop_init(l, up, s, e, up ? (__int128)i : (__int128)(long long)i, 0, kind);                                   \
        return loop_next(share(false), a, b);                                                                         \
    }
    LOOPN(static)
    LOOPN(dynamic)
    LOOPN(guided)
    LOOPN(runtime)
    LOOPN(nonmonotonic_dynamic)
    LOOPN(nonmonotonic_guided)
    LOOPN(nonmonotonic_runtime)
    LOOPN(maybe_nonmonotonic_runtime)
    LOOPS(static, 2)
    LOOPS(dynamic, 0)
    LOOPS(guided, 1)
    LOOPS(nonmonotonic_dynamic, 0)
    LOOPS(nonmonotonic_guided, 1)
    LOOPSR(runtime, 0)
    LOOPSR(nonmonotonic_runtime, 0)
    LOOPSR(maybe_nonmonotonic_runtime, 0)

    int __wrap_omp_get_thread_num() { return g_in && g_cur >= 0 ? g_cur : 0; }
    int __wrap_omp_get_num_threads() { return g_in ? g_k : 1; }
    int __wrap_omp_get_max_threads() { return g_max; }
    int __wrap_omp_get_num_procs() { return g_max; }
    int __wrap_omp_in_parallel() { return g_in && g_k > 1; }

    // memory that gets a new owner carries no history
    static void fresh(void *p, size_t n)
    {
        if (g_in && g_cur >= 0 && p)
            for (size_t i = 0; i < n; i++)
                g_shadow.erase((uptr)p + i);
    }
    void *__wrap_malloc(size_t n)
    {
        void *p = malloc(n);
        fresh(p, n);
        return p;
    }
    void *__wrap_calloc(size_t m, size_t n)
    {
        void *p = calloc(m, n);
        fresh(p, m * n);
        return p;
    }
    void *__wrap__Znwm(size_t n)
    {
        void *p = ::operator new(n);
        fresh(p, n);
        return p;
    }
    void *__wrap__Znam(size_t n)
    {
        void *p = ::operator new[](n);
        fresh(p, n);
        return p;
    }
    void *__wrap_memcpy(void *d, const void *s, size_t n)
    {
        access(s, n, false);
        access(d, n, true);
        return memcpy(d, s, n);
    }
    void *__wrap_memmove(void *d, const void *s, size_t n)
    {
        access(s, n, false);
        access(d, n, true);
        return memmove(d, s, n);
    }
    void *__wrap_memset(void *d, int c, size_t n)
    {
        access(d, n, true);
        return memset(d, c, n);
    }

    // -------------------------------------------------------------- callbacks of the instrumentation
    void __tsan_init() {}
    void __tsan_func_entry(void *) {}
    void __tsan_func_exit() {}
    void __tsan_vptr_update(void **, void *) {}
    void __tsan_vptr_read(void **) {}
    void __tsan_read_range(void *p, size_t n) { access(p, n, false); }
    void __tsan_write_range(void *p, size_t n) { access(p, n, true); }
#define RW(n)                                                                                                         \
    void __tsan_read##n(void *p) { access(p, n, false); }                                                             \
    void __tsan_write##n(void *p) { access(p, n, true); }                                                             \
    void __tsan_unaligned_read##n(void *p) { access(p, n, false); }                                                   \
    void __tsan_unaligned_write##n(void *p) { access(p, n, true); }                                                   \
    void __tsan_volatile_read##n(void *p) { access(p, n, false); }                                                    \
    void __tsan_volatile_write##n(void *p) { access(p, n, true); }                                                    \
    void __tsan_unaligned_volatile_read##n(void *p) { access(p, n, false); }                                          \
    void __tsan_unaligned_volatile_write##n(void *p) { access(p, n, true); }                                          \
    void __tsan_read##n##_pc(void *p, void *) { access(p, n, false); }                                                \
    void __tsan_write##n##_pc(void *p, void *) { access(p, n, true); }
    RW(1)
    RW(2)
    RW(4)
    RW(8)
    RW(16)
#define AT(bits, T)                                                                                                   \
    T __tsan_atomic##bits##_load(const volatile T *p, int) { access((void *)p, bits / 8, false, true); return *p; }   \
    void __tsan_atomic##bits##_store(volatile T *p, T v, int) { access((void *)p, bits / 8, true, true); *p = v; }    \
    T __tsan_atomic##bits##_exchange(volatile T *p, T v, int) { access((void *)p, bits / 8, true, true); return __atomic_exchange_n(p, v, 5); } \
    T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int) { access((void *)p, bits / 8, true, true); return __atomic_fetch_add(p, v, 5); } \
    T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int) { access((void *)p, bits / 8, true, true); return __atomic_fetch_sub(p, v, 5); } \
    T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int) { access((void *)p, bits / 8, true, true); return __atomic_fetch_and(p, v, 5); } \
    T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int) { access((void *)p, bits / 8, true, true); return __atomic_fetch_or(p, v, 5); } \
    T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int) { access((void *)p, bits / 8, true, true); return __atomic_fetch_xor(p, v, 5); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *c, T v, int, int) { access((void *)p, bits / 8, true, true); return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *c, T v, int, int) { access((void *)p, bits / 8, true, true); return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T c, T v, int, int) { access((void *)p, bits / 8, true, true); __atomic_compare_exchange_n(p, &c, v, 0, 5, 5); return c; }
    AT(8, uint8_t)
    AT(16, uint16_t)
    AT(32, uint32_t)
    AT(64, uint64_t)
    void __tsan_atomic_thread_fence(int) {}
    void __tsan_atomic_signal_fence(int) {}

    // -------------------------------------------------------------- interface of the worker
    void rt_install()
    {
        if (g_arena)
            return;
        g_arena = (char *)mmap(nullptr, SLOT * NSLOT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        c10::SetAllocator(c10::DeviceType::CPU, &g_alloc, 255);
    }
    void rt_start(int team, int max, int bound)
    {
        g_team = team;
        g_max = max;
        g_bound = bound;
        g_path.clear();
        g_pos = 0;
        g_nviol = 0;
        g_viol.clear();
    }
    int rt_mark(void *p, int ro)
    {
        uptr off = (uptr)p - (uptr)g_arena;
        if (off >= SLOT * NSLOT)
            return 0;
        g_slot[off / SLOT].ro = ro;
        return 1;
    }
    // end of an execution: moves to the next schedule, 0 when all have been seen
    int rt_next()
    {
        while (!g_path.empty() && g_path.back().second + 1 >= g_path.back().first)
            g_path.pop_back();
        g_pos = 0;
        if (g_path.empty())
            return 0;
        g_path.back().second++;
        return 1;
    }
    int rt_path(int *out, int n)
    {
        int i = 0;
        for (auto &p : g_path)
            if (i < n)
                out[i++] = p.second;
        return i;
    }
    int rt_violations() { return g_nviol; }
    const char *rt_violation() { return g_viol.c_str(); }
    void rt_stats(long *o)
    {
        o[0] = g_choices;
        o[1] = g_access;
        o[2] = g_regions;
        o[3] = g_maxteam;
    }
}
