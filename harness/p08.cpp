// P08: log statements allocate nothing, make no system call and take no lock
//
// While a statement runs, the calling thread's system calls are trapped by
// syscall user dispatch, and malloc and the pthread locks are interposed.
#include "engine.hpp"
#include "cmd.hpp"

#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <ucontext.h>

#ifndef PR_SET_SYSCALL_USER_DISPATCH
#define PR_SET_SYSCALL_USER_DISPATCH 59
#define PR_SYS_DISPATCH_ON 1
#endif

using namespace vp;

static constexpr std::size_t cap = XTR_SINK_CAPACITY;

namespace
{
    thread_local volatile char selector __attribute__((tls_model("initial-exec"))) = 0; // 0: allow, 1: trap
    thread_local volatile int stmt __attribute__((tls_model("initial-exec"))) = 0;      // statement being observed, or 0
    bool clock_is_syscall = false; // this kernel has no vDSO clock
    thread_local volatile bool clock_used __attribute__((tls_model("initial-exec"))) = false;

    // Called with anything held: no allocation, no locks
    [[noreturn]] void caught(const char* what, long n, void* addr)
    {
        selector = 0;
        const int k = stmt;
        stmt = 0;
        char b[512];
        Dl_info di{};
        ::dladdr(addr, &di);
        const int len = std::snprintf(b, sizeof b,
            "VP-VIOLATION seed=%llu case=%d statement %d (p08.cpp line) made a %s (%ld) at %p (%s)\n",
            (unsigned long long)opt.seed, current_case.load(), k, what, n, addr, di.dli_sname ? di.dli_sname : "?");
        (void)!::write(saved_stderr, b, std::size_t(len));
        ::_exit(10);
    }

    void on_sigsys(int, siginfo_t* si, void* ctx)
    {
        selector = 0;
        const long nr = si->si_syscall;
        if (clock_is_syscall && nr == SYS_clock_gettime)
        {
            // the vDSO itself falls back to a system call on this machine
            auto& g = static_cast<ucontext_t*>(ctx)->uc_mcontext.gregs;
            g[REG_RAX] = ::syscall(SYS_clock_gettime, g[REG_RDI], g[REG_RSI]);
            selector = 1;
            // returning makes a system call, so it goes unobserved
            selector = 0;
            clock_used = true;
            return;
        }
        caught("system call", nr, si->si_call_addr);
    }

    bool dispatch_on()
    {
        return ::prctl(PR_SET_SYSCALL_USER_DISPATCH, PR_SYS_DISPATCH_ON, 0, 0, &selector) == 0;
    }
}

// --- interposed functions -----------------------------------------------------
extern "C"
{
    void* __libc_malloc(std::size_t);
    void* __libc_calloc(std::size_t, std::size_t);
    void* __libc_realloc(void*, std::size_t);
    void* __libc_memalign(std::size_t, std::size_t);
    void __libc_free(void*);

#define VP_SEEN(WHAT) do { if (stmt) [[unlikely]] caught(WHAT, 0, __builtin_return_address(0)); } while (0)
    void* malloc(std::size_t n) noexcept { VP_SEEN("heap allocation"); return __libc_malloc(n); }
    void* calloc(std::size_t n, std::size_t m) noexcept { VP_SEEN("heap allocation"); return __libc_calloc(n, m); }
    void* realloc(void* p, std::size_t n) noexcept { VP_SEEN("heap allocation"); return __libc_realloc(p, n); }
    void* memalign(std::size_t a, std::size_t n) noexcept { VP_SEEN("heap allocation"); return __libc_memalign(a, n); }
    void* aligned_alloc(std::size_t a, std::size_t n) noexcept { VP_SEEN("heap allocation"); return __libc_memalign(a, n); }
    int posix_memalign(void** p, std::size_t a, std::size_t n) noexcept { VP_SEEN("heap allocation"); *p = __libc_memalign(a, n); return *p ? 0 : ENOMEM; }
    void free(void* p) noexcept { if (p) VP_SEEN("heap deallocation"); __libc_free(p); }

#define VP_LOCK(NAME, ARG) \
    int NAME(ARG* m) noexcept \
    { \
        VP_SEEN(#NAME); \
        static std::atomic<int (*)(ARG*)> real{nullptr}; \
        auto f = real.load(std::memory_order_relaxed); \
        if (!f) { f = reinterpret_cast<int (*)(ARG*)>(::dlsym(RTLD_NEXT, #NAME)); real = f; } \
        return f(m); \
    }
    VP_LOCK(pthread_mutex_lock, pthread_mutex_t)
    VP_LOCK(pthread_mutex_trylock, pthread_mutex_t)
    VP_LOCK(pthread_rwlock_rdlock, pthread_rwlock_t)
    VP_LOCK(pthread_rwlock_wrlock, pthread_rwlock_t)
    int pthread_spin_lock(pthread_spinlock_t* m) noexcept
    {
        VP_SEEN("pthread_spin_lock");
        static auto f = reinterpret_cast<int (*)(pthread_spinlock_t*)>(::dlsym(RTLD_NEXT, "pthread_spin_lock"));
        return f(m);
    }
}

namespace
{
    struct pod { std::uint64_t a, b, c; };

    std::atomic<long long> n_observed{0};
    // for the watchdog: the start of the statement each worker is in
    struct alignas(64) slot { std::atomic<double> start{0}; };
    slot slots[8];

    struct watched
    {
        int id;
        bool syscalls;
        bool stalled = false;
    };

    constexpr int n_stmts = 40;

    struct ctx
    {
        int id = 0;
        bool sud = false;
        bool timed = false;
        std::size_t used = 0;
    };

#define OBS(...) do { \
        if (c.timed) slots[c.id].start = now_s(); \
        stmt = __LINE__; \
        if (c.sud) selector = 1; \
        __VA_ARGS__; \
        selector = 0; \
        stmt = 0; \
        if (c.timed) slots[c.id].start = 0; \
    } while (0)

    // Upper bound of the size of the record of each statement
    std::size_t bound(int k, std::size_t len)
    {
        switch (k)
        {
        case 5: case 6: case 7: case 8: case 12: case 13: case 14: case 15: case 23: case 32: case 33: case 36: return 200 + len;
        case 11: return 200 + 2 * len;
        case 9: return 64 + 300;
        case 10: return 64 + 1100;
        default: return 200;
        }
    }

    void one_stmt(ctx& c, xtr::sink& s, int k, std::size_t len, rng& r)
    {
        std::string x(len, char(r.range(1, 255)));
        const std::string y(len, 'y');
        switch (k)
        {
        case 0: OBS(XTR_LOG(s, "nothing")); break;
        case 1: { int a = int(r()); OBS(XTR_LOG(s, "{}", a)); break; }
        case 2: { double a = double(r.below(99)); long b = 5; char d = 'd'; OBS(XTR_LOG(s, "{} {} {}", a, b, d)); break; }
        case 3: { OBS(XTR_LOG(s, "{} {} {} {} {} {}", 1, 2u, 3l, 4.0f, true, 'x')); break; }
        case 4: { const void* p = &x; OBS(XTR_LOG(s, "{}", p)); break; }
        case 5: { OBS(XTR_LOG(s, "{}", x)); break; }
        case 6: { const char* p = x.c_str(); OBS(XTR_LOG(s, "{}", p)); break; }
        case 7: { std::string_view v = x; OBS(XTR_LOG(s, "{}", v)); break; }
        case 8: { OBS(XTR_LOG(s, "{}", y)); break; }
        case 9: { blob<300> b(1, 2); OBS(XTR_LOG(s, "{}", b)); break; }
        case 10: { auto b = std::make_unique<blob<1000, 64>>(1, 2); OBS(XTR_LOG(s, "{}", *b)); break; }
        case 11: { OBS(XTR_LOG(s, "{} {} {}", x, 7, y)); break; }
        case 12: { OBS(XTR_LOG(s, "{} {}", 1.5, x)); break; }
        case 13: { OBS(XTR_LOGL(error, s, "{} {}", x.c_str(), 1)); break; }
        case 14: { long double d = 5; OBS(XTR_LOG(s, "{} {}", d, x)); break; }
        case 15: { blob<56, 64> b(1, 2); OBS(XTR_LOG(s, "{} {}", b, x)); break; }
        case 16: { OBS(XTR_LOG(s, "{}", std::move(x))); break; }
        case 17: { move_only m(5); OBS(XTR_LOG(s, "{}", std::move(m))); break; }
        case 18: { std::vector<int> v(len, 1); OBS(XTR_LOG(s, "{}", std::move(v))); break; }
        case 19: { static const std::string keep(100, 'k'); OBS(XTR_LOG(s, "{}", nocopy(keep))); break; }
        case 20: { OBS(XTR_LOG(s, "{}", "a literal")); break; }
        case 21: { char arr[16] = "array"; OBS(XTR_LOG(s, "{}", arr)); break; }
        case 22: { colour cl = colour::red; OBS(XTR_LOG(s, "{}", cl)); break; }
        case 23: { OBS(XTR_LOGL(debug, s, "{}", x)); break; }
        case 24: { OBS(XTR_LOGL(warning, s, "{}", 1)); break; }
        case 25: { OBS(XTR_LOG_TSC(s, "{}", 1)); break; }
        case 26: { OBS(XTR_LOGL_TSC(error, s, "nothing")); break; }
        case 27: { OBS(XTR_LOG_RTC(s, "{}", 1)); break; }
        case 28: { OBS(XTR_LOGL_RTC(info, s, "nothing")); break; }
        case 29: { xtr::timespec ts(std::timespec{5, 6}); OBS(XTR_LOG_TS(s, ts, "{}", 1)); break; }
        case 30: { xtr::timespec ts(std::timespec{5, 6}); OBS(XTR_LOGL_TS(error, s, ts, "nothing")); break; }
        case 31: { std::tuple<int, long> t{1, 2}; OBS(XTR_LOG(s, "{}", t)); break; }
        case 32: { OBS(XTR_LOG_TSC(s, "{}", x)); break; }
        case 33: { OBS(XTR_LOG_RTC(s, "{} {}", x, 1)); break; }
        case 34: { OBS(s.set_level(xtr::log_level_t::info)); break; }
        case 35: { volatile int z; OBS(z = int(s.level())); break; }
        case 36: { xtr::timespec ts(std::timespec{5, 6}); OBS(XTR_LOGL_TS(warning, s, ts, "{} {}", x, y.c_str() + y.size())); break; }
        case 38: case 39: { OBS(XTR_LOGL(info, s, "{:>10} {:#x} {:.3f}", 1, 255, 1.25)); break; }
        }
        c.used += bound(k, len);
        ++n_observed;
    }

    // Non-blocking statements must behave in any state of the queue
    void one_try(ctx& c, xtr::sink& s, int k, std::size_t len, rng& r)
    {
        std::string x(len, char(r.range(1, 255)));
        switch (k)
        {
        case 0: OBS(XTR_TRY_LOG(s, "nothing")); break;
        case 1: OBS(XTR_TRY_LOG(s, "{}", 1)); break;
        case 2: OBS(XTR_TRY_LOG(s, "{}", x)); break;
        case 3: OBS(XTR_TRY_LOG(s, "{}", x.c_str())); break;
        case 4: { std::string_view v = x; OBS(XTR_TRY_LOGL(error, s, "{} {} {}", v, 1, v)); break; }
        case 5: { auto b = std::make_unique<blob<1000>>(1, 2); OBS(XTR_TRY_LOG(s, "{}", *b)); break; }
        case 6: OBS(XTR_TRY_LOG_TSC(s, "{}", x)); break;
        case 7: OBS(XTR_TRY_LOGL_RTC(info, s, "{}", 1)); break;
        case 8: { xtr::timespec ts(std::timespec{5, 6}); OBS(XTR_TRY_LOG_TS(s, ts, "{}", x)); break; }
        case 9: { std::vector<int> v(10); bool full = false; (void)full; OBS(XTR_TRY_LOGL(warning, s, "{} {}", 2.5, 'c')); break; }
        case 10: { static const std::string keep(100, 'k'); OBS(XTR_TRY_LOG(s, "{}", nocopy(keep))); break; }
        case 11: { auto b = std::make_unique<blob<cap - 64>>(1, 2); OBS(XTR_TRY_LOG(s, "{}", *b)); break; }
        }
        ++n_observed;
    }
}

#undef OBS

static void one(rng& r, int)
{
    gate g;
    auto mem = std::make_shared<mem_state>();
    std::uint64_t h = 0;
    long long stalled_phases = 0;
    {
        const std::string path = cmd_path();
        std::unique_ptr<output> out;
        xtr::logger* lg;
        std::unique_ptr<xtr::logger> ml;
        if (r.chance(50))
        {
            ml = std::make_unique<xtr::logger>(std::make_unique<mem_storage>(mem, r(), 64, 8192), std::chrono::system_clock(), path);
            lg = ml.get();
        }
        else
        {
            out = std::make_unique<output>(store(r.below(5)), r, path);
            lg = out->log.get();
        }
        {
            xtr::sink holder = lg->get_sink("holder");
            const int n_threads = int(r.range(1, 3));
            std::atomic<int> arrived{0}, phase{0};
            std::atomic<bool> stop{false};
            const int n_phases = int(r.range(2, 4));
            std::vector<std::thread> th;
            std::vector<std::uint64_t> hs(std::size_t(n_threads), 0);
            for (int t = 0; t < n_threads; ++t)
                th.emplace_back([&, t, rr = rng(r())]() mutable {
                    ctx c;
                    c.id = t;
                    c.sud = dispatch_on();
                    if (c.sud)
                        count("threads_with_syscalls_trapped");
                    // sinks of different origins
                    auto s = std::make_unique<xtr::sink>();
                    auto fresh = [&] {
                        switch (rr.below(4))
                        {
                        case 0: s = std::make_unique<xtr::sink>(lg->get_sink("w")); break;
                        case 1: { xtr::sink o = lg->get_sink("o"); s = std::make_unique<xtr::sink>(o); break; }
                        case 2: s = std::make_unique<xtr::sink>(); lg->register_sink(*s, "reg"); break;
                        case 3: { xtr::sink o = lg->get_sink("o"); if (!s->is_open()) s = std::make_unique<xtr::sink>(lg->get_sink("x")); *s = o; break; }
                        }
                        if (rr.chance(30))
                            s->set_name("renamed" + std::string(rr.below(40), 'n'));
                        if (rr.chance(30))
                            s->set_level(xtr::log_level_t::debug);
                        c.used = 0;
                        if (rr.chance(50))
                            s->sync();
                        else
                            c.used = 200;
                    };
                    fresh();
                    for (int p = 0; p < n_phases; ++p)
                    {
                        if (rr.chance(40))
                            fresh();
                        s->sync();
                        c.used = 100;
                        ++arrived;
                        while (phase.load() <= p)
                            ::usleep(50);
                        // in odd phases the background thread is stopped and other
                        // threads hold whatever they can hold
                        const bool stalled = p % 2 == 1;
                        c.timed = stalled;
                        for (int i = 0; i < 60; ++i)
                        {
                            const std::size_t len = rr.chance(10) ? rr.below(cap / 2) : rr.below(80);
                            int k = int(rr.below(n_stmts));
                            if (k == 37)
                                k = 0;
                            if (c.used + bound(k, len) > cap - 64)
                            {
                                if (stalled)
                                {
                                    for (int q = 0; q < 30; ++q)
                                        one_try(c, *s, int(rr.below(12)), rr.below(rr.chance(20) ? 2 * cap : 200), rr);
                                    break;
                                }
                                s->sync();
                                c.used = 100;
                                if (bound(k, len) > cap - 200)
                                    continue;
                            }
                            one_stmt(c, *s, k, len, rr);
                            hs[std::size_t(t)] = mix(hs[std::size_t(t)] ^ std::uint64_t(k));
                            if (!stalled && rr.chance(20))
                            {
                                s->sync();
                                for (int q = int(rr.below(10)); q > 0; --q)
                                    one_try(c, *s, int(rr.below(12)), rr.below(rr.chance(20) ? 2 * cap : 200), rr);
                                s->sync();
                                c.used = 100;
                            }
                        }
                        ++arrived;
                        while (phase.load() <= p && !stop)
                            ::usleep(50);
                        // wait for the end of the phase
                        const int target = (p + 1) * 1000;
                        (void)target;
                        if (stalled)
                            while (g.closed)
                                ::usleep(50);
                    }
                });
            for (int p = 0; p < n_phases; ++p)
            {
                while (arrived.load() < n_threads * (2 * p + 1))
                    ::usleep(50);
                std::vector<std::thread> blockers;
                if (p % 2 == 1)
                {
                    g.closed = true;
                    XTR_LOG(holder, "{}", stall{&g});
                    if (!eventually([&] { return g.waiting > 0; }))
                        violation("the background thread did not process a message within 40 s");
                    // these hold the logger's lock, or wait for the background thread
                    blockers.emplace_back([&] { lg->set_log_level_style(xtr::default_log_level_style); });
                    blockers.emplace_back([&] { xtr::sink z = lg->get_sink("z"); z.sync(); });
                    blockers.emplace_back([&] { holder.sync(); });
                    blockers.emplace_back([&] { ::usleep(200); lg->set_default_log_level(xtr::log_level_t::info); xtr::sink q = lg->get_sink("q"); xtr::sink q2 = q; });
                    ::usleep(1000);
                    ++stalled_phases;
                }
                else
                    blockers.emplace_back([&] {
                        for (int i = 0; i < 3; ++i)
                        {
                            xtr::sink z = lg->get_sink("z");
                            cmd_status(path);
                            cmd_level(path, xtr::log_level_t::info, xd::pattern_type_t::wildcard, "z");
                        }
                    });
                ++phase;
                while (arrived.load() < n_threads * (2 * p + 2))
                    ::usleep(50);
                g.closed = false;
                for (auto& b : blockers)
                    b.join();
            }
            stop = true;
            for (auto& t : th)
                t.join();
            for (auto x : hs)
                h = mix(h ^ x);
        }
    }
    note_distinct(h);
    count("statements_observed", n_observed.exchange(0));
    count("phases_with_background_thread_stopped", stalled_phases);
    sample(fmt::format("case {}: statements with system calls trapped, allocations and locks interposed", current_case.load()));
}

int main(int argc, char** argv)
{
    parse_args(argc, argv);
    struct sigaction sa{};
    sa.sa_sigaction = on_sigsys;
    sa.sa_flags = SA_SIGINFO;
    ::sigaction(SIGSYS, &sa, nullptr);
    // Does this machine's vDSO make system calls for the clocks?
    if (dispatch_on())
    {
        clock_is_syscall = true;
        for (auto id : {CLOCK_REALTIME, CLOCK_REALTIME_COARSE})
        {
            struct ::timespec ts;
            selector = 1;
            ::clock_gettime(id, &ts);
            selector = 0;
        }
        clock_is_syscall = clock_used;
        count("clock_reads_are_system_calls", clock_is_syscall);
        // The monitor must be able to see what it is for
        const pid_t p = ::fork();
        if (p == 0)
        {
            ::close(saved_stderr);
            dispatch_on(); // not inherited
            stmt = 1;
            selector = 1;
            (void)::syscall(SYS_getppid);
            ::_exit(0);
        }
        int st = 0;
        ::waitpid(p, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 10)
            inconclusive("system calls are not trapped");
        count("monitor_self_test");
    }
    else
        inconclusive("syscall user dispatch is not available");
    std::thread watchdog([] {
        for (;;)
        {
            sched_snapshot snap;
            double before[8];
            for (int i = 0; i < 8; ++i)
                before[i] = slots[i].start;
            ::usleep(1000000);
            for (int i = 0; i < 8; ++i)
                if (before[i] != 0 && slots[i].start.load() == before[i] && now_s() - before[i] > 15.0)
                {
                    if (snap.starved())
                        inconclusive("threads are not being scheduled");
                    violation("a statement with room in the queue had not returned after 15 s while the background thread was stopped");
                }
        }
    });
    watchdog.detach();
    const int rc = run_cases(one);
    ::_exit(rc);
}
