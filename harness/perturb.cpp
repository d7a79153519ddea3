// Schedule perturbation and edge-coverage recording.
//
// Compiled WITHOUT instrumentation and linked into variants whose code (the
// library's and the harness's) was compiled with
// -fsanitize-coverage=trace-pc-guard[,trace-loads,trace-stores].
// Every basic block (and, in the "sched" variant, every load and store) calls
// into this file, which now and then delays the calling thread. No source hook
// in the library is needed, so the injection follows any refactoring.
#include "perturb.hpp"

#include <atomic>
#include <cstdint>
#include <cstring>
#include <sched.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>

namespace
{
    constexpr std::uint32_t max_guards = 1u << 18;
    std::uint32_t n_guards = 0;
    unsigned char hit[max_guards];

    std::atomic<bool> enabled{false};
    std::atomic<std::uint32_t> mean_gap{20000};
    std::atomic<std::uint32_t> sleep_pct{20};
    std::atomic<std::uint32_t> max_sleep_us{200};
    std::atomic<std::uint64_t> epoch{1};
    std::atomic<std::uint64_t> base_seed{1};
    std::atomic<std::uint32_t> target[4]{};
    std::atomic<std::uint32_t> target_us{0};
    std::atomic<std::uint64_t> n_delays{0};
    std::atomic<std::uint64_t> n_target_delays{0};
    std::atomic<std::int64_t> crash_countdown{-1};
    std::atomic<std::uint32_t> next_tid{1};

    struct tls_t
    {
        std::uint64_t rng;
        std::uint64_t epoch;
        std::uint32_t countdown;
        std::uint32_t tid;
        std::uint32_t target_budget;
        bool off;
    };
    thread_local tls_t tls __attribute__((tls_model("initial-exec")));

    inline std::uint64_t next(std::uint64_t& s)
    {
        s += 0x9e3779b97f4a7c15ull;
        std::uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }

    void nap(std::uint32_t us)
    {
        struct timespec ts{0, us ? long(us) * 1000 : 1};
        const int e = errno;
        nanosleep(&ts, nullptr);
        errno = e;
    }

    void spin(std::uint32_t n)
    {
        for (std::uint32_t i = 0; i < n; ++i)
            asm volatile("" ::: "memory");
    }

    void reseed()
    {
        if (tls.tid == 0)
            tls.tid = next_tid.fetch_add(1, std::memory_order_relaxed);
        tls.epoch = epoch.load(std::memory_order_relaxed);
        tls.rng = base_seed.load(std::memory_order_relaxed) * 1000003u + tls.tid;
        next(tls.rng);
        tls.target_budget = 200;
    }

    __attribute__((noinline)) void slow_path()
    {
        if (!enabled.load(std::memory_order_relaxed) || tls.off)
        {
            tls.countdown = 5000;
            return;
        }
        if (tls.epoch != epoch.load(std::memory_order_relaxed))
            reseed();
        const std::uint64_t r = next(tls.rng);
        const std::uint32_t gap = mean_gap.load(std::memory_order_relaxed);
        tls.countdown = 1 + std::uint32_t((r >> 20) % (2ull * gap));
        n_delays.fetch_add(1, std::memory_order_relaxed);
        if (r % 100 < sleep_pct.load(std::memory_order_relaxed))
            nap(1 + std::uint32_t((r >> 8) % max_sleep_us.load(std::memory_order_relaxed)));
        else if (r % 100 < 60)
            nap(0); // not sched_yield: repeated yields starve the thread on Linux 6.18
        else
            spin(std::uint32_t((r >> 8) % 3000));
    }

    inline void tick()
    {
        if (tls.countdown-- == 0) [[unlikely]]
            slow_path();
    }

    __attribute__((noinline)) void target_path()
    {
        if (!enabled.load(std::memory_order_relaxed) || tls.off)
            return;
        if (tls.epoch != epoch.load(std::memory_order_relaxed))
            reseed();
        if (tls.target_budget == 0)
            return;
        --tls.target_budget;
        n_target_delays.fetch_add(1, std::memory_order_relaxed);
        const std::uint64_t r = next(tls.rng);
        if (r % 4 != 0)
            nap(1 + std::uint32_t((r >> 8) % target_us.load(std::memory_order_relaxed)));
    }
}

namespace vp
{
    void perturb_set(const perturb_config& c)
    {
        mean_gap = c.mean_gap ? c.mean_gap : 1;
        sleep_pct = c.sleep_pct;
        max_sleep_us = c.max_sleep_us ? c.max_sleep_us : 1;
        base_seed = c.seed;
        std::uint64_t s = c.seed ^ 0x5bd1e995u;
        static std::uint32_t pool[max_guards];
        std::uint32_t n_pool = 0;
        if (c.n_targets)
            for (std::uint32_t i = 1; i <= n_guards && i < max_guards; ++i)
                if (hit[i])
                    pool[n_pool++] = i;
        for (auto& t : target)
            t = n_pool ? pool[next(s) % n_pool] : 0;
        for (std::uint32_t i = c.n_targets; i < 4; ++i)
            target[i] = 0;
        target_us = c.target_us ? c.target_us : 1;
        epoch.fetch_add(1);
        enabled = c.on;
    }
    void perturb_off() { enabled = false; }
    void perturb_thread_off(bool off) { tls.off = off; }
    void crash_after(long long n_edges) { crash_countdown = n_edges; }
    std::uint64_t perturb_delays() { return n_delays; }
    std::uint64_t perturb_target_delays() { return n_target_delays; }
    std::uint32_t edges_total() { return n_guards; }
    std::uint32_t edges_hit()
    {
        std::uint32_t n = 0;
        for (std::uint32_t i = 0; i <= n_guards && i < max_guards; ++i)
            n += hit[i] != 0;
        return n;
    }
}

extern "C"
{
    void __sanitizer_cov_trace_pc_guard_init(std::uint32_t* start, std::uint32_t* stop)
    {
        if (start == stop || *start)
            return;
        for (std::uint32_t* x = start; x < stop; ++x)
            *x = (n_guards + 1 < max_guards) ? ++n_guards : n_guards;
    }

    void __sanitizer_cov_trace_pc_guard(std::uint32_t* guard)
    {
        const std::uint32_t g = *guard;
        if (!hit[g])
            hit[g] = 1;
        if (crash_countdown.load(std::memory_order_relaxed) >= 0) [[unlikely]]
        {
            if (!tls.off && crash_countdown.fetch_sub(1, std::memory_order_relaxed) == 0)
                kill(getpid(), SIGKILL);
        }
        if (g == target[0].load(std::memory_order_relaxed) ||
            g == target[1].load(std::memory_order_relaxed) ||
            g == target[2].load(std::memory_order_relaxed) ||
            g == target[3].load(std::memory_order_relaxed)) [[unlikely]]
        {
            if (g != 0)
                target_path();
        }
        tick();
    }

    void __sanitizer_cov_load1(std::uint8_t*) { tick(); }
    void __sanitizer_cov_load2(std::uint16_t*) { tick(); }
    void __sanitizer_cov_load4(std::uint32_t*) { tick(); }
    void __sanitizer_cov_load8(std::uint64_t*) { tick(); }
    void __sanitizer_cov_load16(__int128*) { tick(); }
    void __sanitizer_cov_store1(std::uint8_t*) { tick(); }
    void __sanitizer_cov_store2(std::uint16_t*) { tick(); }
    void __sanitizer_cov_store4(std::uint32_t*) { tick(); }
    void __sanitizer_cov_store8(std::uint64_t*) { tick(); }
    void __sanitizer_cov_store16(__int128*) { tick(); }
}
