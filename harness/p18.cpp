// P18: timestamps
#include "common.hpp"

#include <algorithm>
#include <cmath>

#include <csignal>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <ucontext.h>
using namespace vp;

namespace
{
    using i128 = __int128;

    // Independent conversion of time to text (proleptic Gregorian calendar)
    std::string model(std::int64_t sec, long nsec)
    {
        std::int64_t days = sec / 86400, rem = sec % 86400;
        if (rem < 0) { rem += 86400; --days; }
        // from 0001-01-01
        std::int64_t d = days + 719162;
        const std::int64_t n400 = d / 146097; d %= 146097;
        std::int64_t n100 = d / 36524; if (n100 == 4) n100 = 3; d -= n100 * 36524;
        const std::int64_t n4 = d / 1461; d %= 1461;
        std::int64_t n1 = d / 365; if (n1 == 4) n1 = 3; d -= n1 * 365;
        const std::int64_t year = 400 * n400 + 100 * n100 + 4 * n4 + n1 + 1;
        const bool leap = year % 4 == 0 && (year % 100 != 0 || year % 400 == 0);
        static constexpr int len[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
        int month = 0;
        while (d >= len[month] + (month == 1 && leap))
            d -= len[month] + (month == 1 && leap), ++month;
        char b[64];
        std::snprintf(b, sizeof b, "%04d-%02d-%02d %02d:%02d:%02d.%06ld", int(year), month + 1, int(d) + 1,
            int(rem / 3600), int(rem / 60 % 60), int(rem % 60), nsec / 1000);
        return b;
    }

    constexpr std::int64_t first = -62135596800; // 0001-01-01
    constexpr std::int64_t last = 253402300799;  // 9999-12-31 23:59:59

    std::string text_of(i128 ns)
    {
        i128 s = ns / 1000000000, n = ns % 1000000000;
        if (n < 0) { n += 1000000000; --s; }
        return model(std::int64_t(s), long(n));
    }

    i128 ns_of(const std::timespec& t) { return i128(t.tv_sec) * 1000000000 + t.tv_nsec; }

    // The inverse, to microseconds
    i128 parse_ts(std::string_view s)
    {
        int Y, M, D, h, m, x;
        long u;
        if (std::sscanf(std::string(s).c_str(), "%d-%d-%d %d:%d:%d.%ld", &Y, &M, &D, &h, &m, &x, &u) != 7)
            violation("not a timestamp: \"%s\"", quote(s).c_str());
        const int y = M <= 2 ? Y - 1 : Y;
        const std::int64_t era = y / 400, yoe = y - era * 400, doy = (153 * (M + (M > 2 ? -3 : 9)) + 2) / 5 + D - 1;
        const std::int64_t doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
        const std::int64_t days = era * 146097 + doe - 719468;
        return ((i128(days) * 86400 + h * 3600 + m * 60 + x) * 1000000 + u);
    }

    std::int64_t random_sec(rng& r)
    {
        static constexpr std::int64_t edges[] = {first, last, 0, -1, 1, 951782400 /* 2000-02-29 */, 951868799, 951868800,
            -2203891200 /* 1900-03-01 */, -2203891201, 4107542400 /* 2100-03-01 */, 4107542399, 1704067199, 1704067200,
            2147483647, 2147483648, -2147483648ll, -2147483649ll, 4294967295, 4294967296, 68169600 /* 1972-02-29 */};
        switch (r.below(4))
        {
        case 0: return std::clamp<std::int64_t>(edges[r.below(std::size(edges))] + std::int64_t(r.range(0, 2)) - 1, first, last);
        case 1: return std::int64_t(r.range(0, 4000000000));
        case 2: return -std::int64_t(r.range(1, 4000000000));
        default: return first + std::int64_t(r.below(std::uint64_t(last - first + 1)));
        }
    }

    long random_nsec(rng& r)
    {
        static constexpr long edges[] = {0, 1, 999, 1000, 1001, 999999, 1000000, 500000000, 999999000, 999998999, 999999999};
        return r.chance(40) ? edges[r.below(std::size(edges))] : long(r.below(1000000000));
    }

    struct my_stamp { int a; };

    // A copy of the value may fail, so it can only be made by the statement
    struct rare_stamp
    {
        int a;
        pthread_t by = ::pthread_self();
        explicit rare_stamp(int x) : a(x) {}
        rare_stamp(const rare_stamp& o) : a(o.a), by(o.by)
        {
            if (!::pthread_equal(by, ::pthread_self()))
                throw std::bad_alloc();
        }
        rare_stamp& operator=(const rare_stamp&) = delete;
    };
}

template<>
struct fmt::formatter<rare_stamp>
{
    template<typename C> constexpr auto parse(C& c) { return c.begin(); }
    template<typename C> auto format(const rare_stamp& s, C& c) const { return fmt::format_to(c.out(), "[{}]", s.a); }
};

template<>
struct fmt::formatter<my_stamp>
{
    template<typename C> constexpr auto parse(C& c) { return c.begin(); }
    template<typename C> auto format(const my_stamp& s, C& c) const { return fmt::format_to(c.out(), "@{}@", s.a); }
};

namespace
{
    std::unique_ptr<mem_storage> memory(std::shared_ptr<mem_state> st, rng& r)
    {
        static constexpr std::size_t szs[][2] = {{1, 50}, {64, 64}, {4096, 4096}, {65536, 65536}};
        const auto* sz = szs[r.below(4)];
        return std::make_unique<mem_storage>(std::move(st), r(), sz[0], sz[1]);
    }

    // "X <ts> name file:line: text"; ts may be anything without " s"
    struct entry { std::string ts, name, text; };

    std::vector<entry> entries(const std::string& out)
    {
        std::vector<entry> v;
        bool complete = false;
        for (auto l : split_lines(out, &complete))
        {
            const auto n = l.find(" s");
            if (l.size() < 3 || n == l.npos)
                violation("unexpected line \"%s\"", quote(l).c_str());
            const auto e = l.find(' ', n + 1);
            const auto c = l.find(": ", n);
            if (e == l.npos || c == l.npos)
                violation("unexpected line \"%s\"", quote(l).c_str());
            std::string name(l.substr(n + 1, std::min(e, c) - n - 1));
            v.push_back({std::string(l.substr(2, n - 2)), name, std::string(l.substr(c + 2))});
        }
        if (!complete)
            violation("the last line is not whole");
        return v;
    }

    // --- TS statements -------------------------------------------------------------
    void given(rng& r)
    {
        auto st = std::make_shared<mem_state>();
        std::vector<std::pair<std::string, std::string>> want;
        {
            xtr::logger log(memory(st, r), std::chrono::system_clock(), xtr::null_command_path);
            auto s = log.get_sink("s");
            const int n = int(r.range(20, 200));
            for (int i = 0; i < n; ++i)
            {
                xtr::timespec t(std::timespec{random_sec(r), random_nsec(r)});
                std::string ts = model(t.tv_sec, t.tv_nsec);
                const std::string arg = "x" + std::to_string(i);
                const auto k = r.below(13);
                if (k == 6)
                    ts = fmt::format("@{}@", i);
                // any type that can be formatted, strings included
                std::string str(r.range(1, 60), ' ');
                for (char& c : str)
                    c = char(r.chance(20) ? r.range(1, 31) : r.range(33, 255));
                str[0] = '<';
                if (k == 8)
                    ts = fmt::format("[{}]", i);
                else if (k == 9)
                    ts = std::to_string(i);
                else if (k > 9)
                    ts = model_sanitize(str);
                want.push_back({ts, k < 3 ? fmt::format("m{}", i) : fmt::format("m{} {}", i, arg)});
                switch (k)
                {
                case 0: XTR_LOG_TS(s, t, "m{}", i); break;
                case 1: XTR_LOGL_TS(error, s, t, "m{}", i); break;
                case 2: { const xtr::timespec& c = t; XTR_LOG_TS(s, c, "m{}", i); break; }
                case 3: XTR_LOG_TS(s, xtr::timespec(t), "m{} {}", i, arg); break;
                case 4: XTR_LOGL_TS(warning, s, t, "m{} {}", i, arg.c_str()); break;
                case 5: s.sync(); XTR_TRY_LOG_TS(s, t, "m{} {}", i, arg); break;
                case 6: XTR_LOG_TS(s, my_stamp{i}, "m{} {}", i, std::string_view(arg)); break;
                case 8: { const rare_stamp q(i); XTR_LOG_TS(s, q, "m{} {}", i, arg); break; }
                case 9: XTR_LOG_TS(s, i, "m{} {}", i, arg); break;
                case 10: XTR_LOG_TS(s, str, "m{} {}", i, arg); break;
                case 11: XTR_LOGL_TS(info, s, str.c_str(), "m{} {}", i, arg); break;
                case 12: { std::string m = str; XTR_LOG_TS(s, std::move(m), "m{} {}", i, arg); break; }
                case 7: s.sync(); XTR_TRY_LOGL_TS(info, s, t, "m{} {}", i, arg); break;
                }
                // not read later
                t.tv_sec = 0;
                t.tv_nsec = 0;
                std::fill(str.begin(), str.end(), '!');
                note_distinct(hash(ts));
            }
        }
        const auto e = entries(st->get());
        if (e.size() != want.size())
            violation("%zu lines for %zu messages", e.size(), want.size());
        for (std::size_t i = 0; i < e.size(); ++i)
        {
            if (e[i].text != want[i].second)
                violation("expected \"%s\", found \"%s\"", want[i].second.c_str(), quote(e[i].text).c_str());
            if (e[i].ts != want[i].first)
                violation("the given time %s was printed as \"%s\"", want[i].first.c_str(), quote(e[i].ts).c_str());
            count("given_timestamps_checked");
        }
    }

    // --- basic statements with a recorded clock --------------------------------------
    struct record
    {
        std::mutex m;
        rng r{1};
        bool monotone = false;
        std::int64_t base = 0;      // in units of the clock
        std::int64_t lo = 0, hi = 0;
        std::vector<std::int64_t> readings;   // in units
        std::atomic<pthread_t> thread{};
        std::atomic<bool> wrong_thread{false};

        std::int64_t read()
        {
            std::scoped_lock l{m};
            std::int64_t v;
            if (monotone)
                v = base += std::int64_t(r.chance(20) ? 0 : r.below(3000));
            else
            {
                v = std::int64_t(std::uint64_t(lo) + r.below(std::uint64_t(hi) - std::uint64_t(lo) + 1));
                if (r.chance(30))
                    v = std::clamp<std::int64_t>(std::int64_t(r.range(0, 4000)) - 2000, lo, hi);
            }
            readings.push_back(v);
            return v;
        }
        std::size_t n() { std::scoped_lock l{m}; return readings.size(); }
    };

    template<typename Dur>
    struct rec_clock
    {
        using duration = Dur;
        using rep = typename Dur::rep;
        using period = typename Dur::period;
        using time_point = std::chrono::time_point<rec_clock, Dur>;
        static constexpr bool is_steady = false;
        record* rec;
        time_point now() const
        {
            const auto v = rec->read();
            if constexpr (std::is_floating_point_v<rep>)
                return time_point(Dur(rep(v) / 1024));   // exact
            else
                return time_point(Dur(rep(v)));
        }
    };

    // the nanoseconds of one unit as a fraction
    struct unit { i128 num, den; std::int64_t lo, hi; const char* name; };

    i128 floor_div(i128 a, i128 b) { return a / b - (a % b < 0); }

    std::string text_of_reading(const unit& u, std::int64_t v)
    {
        // rounded down to microseconds
        return text_of(floor_div(i128(v) * u.num, u.den * 1000) * 1000);
    }

    template<typename Dur>
    void basic(rng& r, const unit& u)
    {
        auto st = std::make_shared<mem_state>();
        record rec;
        rec.r = rng(r());
        rec.monotone = r.chance(50);
        rec.lo = u.lo;
        rec.hi = u.hi;
        if (rec.monotone)
            rec.base = std::int64_t(std::uint64_t(u.lo) + r.below(std::uint64_t(u.hi / 2) - std::uint64_t(u.lo)));
        struct sent { std::size_t at_least; bool alone; };
        const int n_threads = int(r.range(1, 3));
        std::vector<std::vector<sent>> log_of(static_cast<std::size_t>(n_threads));
        std::vector<std::size_t> at_most(std::size_t(n_threads), 0);
        gate g;
        {
            xtr::logger log(memory(st, r), rec_clock<Dur>{&rec}, xtr::null_command_path);
            std::vector<xtr::sink> sinks;
            sinks.reserve(std::size_t(n_threads));
            for (int t = 0; t < n_threads; ++t)
                sinks.push_back(log.get_sink("s" + std::to_string(t)));
            std::vector<std::thread> ts;
            const int n = int(r.range(5, 60));
            for (int t = 0; t < n_threads; ++t)
                ts.emplace_back([&, t, q = rng(r())]() mutable {
                    auto& s = sinks[std::size_t(t)];
                    auto& lo = log_of[std::size_t(t)];
                    for (int i = 0; i < n; ++i)
                    {
                        bool alone = false;
                        if (q.chance(15))
                        {
                            s.sync();
                            alone = n_threads == 1;
                        }
                        if (q.chance(20))
                            ::usleep(useconds_t(q.below(300)));
                        // Reading i is the last one made before the statement; if
                        // nothing else is being processed a new one has to be made
                        lo.push_back({rec.n(), alone});
                        switch (q.below(4))
                        {
                        case 0: XTR_LOG(s, "{}", i); break;
                        case 1: XTR_LOG(s, "{}", std::to_string(i)); break;
                        case 2: XTR_LOGL(error, s, "{}", i); break;
                        case 3: s.sync(); lo.back() = {rec.n(), n_threads == 1}; XTR_TRY_LOG(s, "{}", i); break;
                        }
                    }
                    s.sync();
                    at_most[std::size_t(t)] = rec.n();
                });
            for (auto& t : ts)
                t.join();
        }
        const auto e = entries(st->get());
        std::vector<std::size_t> next(std::size_t(n_threads), 0);
        // the smallest possible index of the reading of the line before
        std::size_t floor = 0;
        std::string before;
        std::vector<std::string> text;
        for (auto v : rec.readings)
            text.push_back(text_of_reading(u, v));
        for (auto& x : e)
        {
            const auto t = std::size_t(std::atoi(x.name.c_str() + 1));
            if (t >= next.size() || next[t] >= log_of[t].size() || x.text != std::to_string(next[t]))
                violation("unexpected message \"%s\" of %s", quote(x.text).c_str(), x.name.c_str());
            const auto& s = log_of[t][next[t]++];
            // The last reading before the statement, or a later one
            std::size_t from = s.alone ? s.at_least : s.at_least ? s.at_least - 1 : 0;
            from = std::max(from, floor);
            std::size_t k = from;
            while (k < at_most[t] && text[k] != x.ts)
                ++k;
            if (k >= at_most[t])
            {
                bool ever = std::find(text.begin(), text.end(), x.ts) != text.end();
                violation("the timestamp \"%s\" (clock in %s) is %s", quote(x.ts).c_str(), u.name,
                    ever ? "that of a reading of the clock which was made too early or too late" : "not one that the clock gave");
            }
            floor = k;
            if (rec.monotone && x.ts < before)
                violation("the timestamps go backwards from %s to %s while the clock does not", before.c_str(), x.ts.c_str());
            before = x.ts;
            count(s.alone ? "fresh_basic_timestamps_checked" : "basic_timestamps_checked");
            note_distinct(hash(x.ts));
        }
        for (std::size_t t = 0; t < next.size(); ++t)
            if (next[t] != log_of[t].size())
                violation("messages are missing");
    }

    void basic_any(rng& r)
    {
        using namespace std::chrono;
        constexpr std::int64_t max64 = std::numeric_limits<std::int64_t>::max();
        switch (r.below(7))
        {
        case 0: basic<nanoseconds>(r, {1, 1, -9000000000000000000, 9000000000000000000, "nanoseconds"}); break;
        case 1: basic<microseconds>(r, {1000, 1, first * 1000000, last * 1000000, "microseconds"}); break;
        case 2: basic<milliseconds>(r, {1000000, 1, first * 1000, last * 1000, "milliseconds"}); break;
        case 3: basic<seconds>(r, {1000000000, 1, first, last, "seconds"}); break;
        case 4: basic<minutes>(r, {60000000000, 1, first / 60, last / 60, "minutes"}); break;
        case 5: basic<duration<double>>(r, {1000000000, 1024, -4000000000ll * 1024, 4000000000ll * 1024, "double seconds"}); break;
        case 6: basic<duration<std::int64_t, std::ratio<1, 10000000>>>(r, {100, 1, first * 10000000, last / 4 * 10000000, "100 ns"}); break;
        }
        (void)max64;
    }

    // --- statements which read a clock, with the background thread delayed -------------
    i128 coarse() { std::timespec t; ::clock_gettime(CLOCK_REALTIME_COARSE, &t); return ns_of(t); }
    i128 wall() { std::timespec t; ::clock_gettime(CLOCK_REALTIME, &t); return ns_of(t); }

    // Returns a description of what is wrong, or nothing
    std::string clocks(rng& r, double hold_s, double spread_s)
    {
        auto st = std::make_shared<mem_state>();
        gate g;
        struct sent { int kind; i128 lo, hi; };
        std::vector<sent> v;
        std::string bad;
        {
            // The clock is read at most once per loop over the sinks, so it may have
            // been read last for the first of the operations below
            const i128 h0 = wall();
            xtr::logger log(memory(st, r), std::chrono::system_clock(), xtr::null_command_path);
            auto s = log.get_sink("s");
            auto holder = log.get_sink("shold");
            if (r.chance(50))
            {
                // the TSC is related to the wall clock at the first such statement
                XTR_LOG_TSC(s, "first");
                s.sync();
            }
            g.closed = hold_s > 0;
            XTR_LOG(holder, "{}", stall{&g});
            if (g.closed && !eventually([&] { return g.waiting.load() > 0; }))
                inconclusive("the background thread did not reach the gate");
            const int n = int(r.range(3, 12));
            for (int i = 0; i < n; ++i)
            {
                const int kind = int(r.below(9));
                std::string arg(r.below(30), 'a');
                const i128 c0 = coarse(), w0 = wall();
                switch (kind)
                {
                case 0: XTR_LOG_RTC(s, "{}", i); break;
                case 1: XTR_LOGL_RTC(info, s, "{}", i); break;
                case 2: XTR_TRY_LOG_RTC(s, "{} {}", i, arg); break;
                case 3: XTR_TRY_LOGL_RTC(error, s, "{} {}", i, arg.c_str()); break;
                case 4: XTR_LOG_TSC(s, "{}", i); break;
                case 5: XTR_LOGL_TSC(info, s, "{}", i); break;
                case 6: XTR_TRY_LOG_TSC(s, "{} {}", i, arg); break;
                case 7: XTR_TRY_LOGL_TSC(error, s, "{} {}", i, arg.c_str()); break;
                case 8: XTR_LOG(s, "{}", i); break;
                }
                const i128 c1 = coarse(), w1 = wall();
                if (kind < 4)
                    v.push_back({kind, c0, c1});
                else if (kind < 8)
                    v.push_back({kind, w0, w1});
                else
                    v.push_back({kind, h0, 0});
                ::usleep(useconds_t(r.below(std::uint64_t(spread_s * 2e6 / n) + 2)));
            }
            ::usleep(useconds_t(hold_s * 1e6));
            g.closed = false;
            s.sync();
            const i128 end = wall();
            for (auto& x : v)
                if (x.kind == 8)
                    x.hi = end;
        }
        std::size_t k = 0;
        for (auto& x : entries(st->get()))
        {
            if (x.name != "s" || x.text == "first")
                continue;
            if (k >= v.size() || x.text.substr(0, x.text.find(' ')) != std::to_string(k))
                violation("unexpected message \"%s\"", quote(x.text).c_str());
            const auto& y = v[k++];
            const i128 t = parse_ts(x.ts) * 1000;
            if (text_of(t) != x.ts)
                violation("not a valid date: %s", x.ts.c_str());
            const i128 tolerance = y.kind >= 4 && y.kind < 8 ? 60000000 : 0;
            // rounded down to microseconds
            if (t < floor_div(y.lo - tolerance, 1000) * 1000 || t > y.hi + tolerance)
            {
                const auto what = fmt::format("the timestamp of {} statement {} is {}, but it was made between {} and {}",
                    y.kind < 4 ? "RTC" : y.kind < 8 ? "TSC" : "basic", k - 1, x.ts, text_of(y.lo), text_of(y.hi));
                if (y.kind >= 4 && y.kind < 8)
                    bad = what;
                else
                    violation("%s", what.c_str());
            }
            count(y.kind < 4 ? "rtc_timestamps_checked" : y.kind < 8 ? "tsc_timestamps_checked" : "default_clock_timestamps_checked");
        }
        if (k != v.size())
            violation("messages are missing");
        return bad;
    }

    // --- other processors ----------------------------------------------------------------
    // How the frequency of the TSC is found depends on the processor. In a fresh
    // process CPUID is made to fault, and is emulated by a signal handler, so that
    // the library sees another processor whose TSC has the frequency of this one.
    struct processor
    {
        std::uint32_t max_leaf, model, den, num, ccc;
        bool drift; // the frequency claimed is 1/2000 of the real one
    };
    processor cpu;

    long set_cpuid(bool on) { return ::syscall(SYS_arch_prctl, 0x1012 /* ARCH_SET_CPUID */, on ? 1 : 0); }

    void emulate_cpuid(int sig, siginfo_t*, void* c)
    {
        auto* g = static_cast<ucontext_t*>(c)->uc_mcontext.gregs;
        const auto* ip = reinterpret_cast<const unsigned char*>(g[REG_RIP]);
        if (ip[0] != 0x0F || ip[1] != 0xA2)
        {
            ::signal(sig, SIG_DFL);
            return;
        }
        const std::uint32_t leaf = std::uint32_t(g[REG_RAX]), sub = std::uint32_t(g[REG_RCX]);
        std::uint32_t a = leaf, b = 0, x = sub, d = 0;
        set_cpuid(true);
        asm volatile("cpuid" : "+a"(a), "=b"(b), "+c"(x), "=d"(d));
        set_cpuid(false);
        if (leaf == 0)
            a = cpu.max_leaf;
        else if (leaf == 1)
            a = (cpu.model >> 4) << 16 | 0x600 | (cpu.model & 15) << 4 | 3; // family 6
        else if (leaf == 0x15)
            a = cpu.den, b = cpu.num, x = cpu.ccc, d = 0;
        g[REG_RAX] = a; g[REG_RBX] = b; g[REG_RCX] = x; g[REG_RDX] = d;
        g[REG_RIP] += 2;
    }

    // The fresh process. Prints pairs of timestamps and the bounds known for them
    int cpu_child(char** v)
    {
        cpu = {std::uint32_t(std::atol(v[0])), std::uint32_t(std::atol(v[1])), std::uint32_t(std::atol(v[2])),
            std::uint32_t(std::atol(v[3])), std::uint32_t(std::atol(v[4])), v[5][0] == '1'};
        struct sigaction sa{};
        sa.sa_sigaction = emulate_cpuid;
        sa.sa_flags = SA_SIGINFO | SA_NODEFER;
        ::sigaction(SIGSEGV, &sa, nullptr);
        if (set_cpuid(false) != 0)
            return 77;
        auto st = std::make_shared<mem_state>();
        rng r(7);
        std::vector<std::pair<i128, i128>> w;
        {
            xtr::logger log(memory(st, r), std::chrono::system_clock(), xtr::null_command_path);
            auto s = log.get_sink("s");
            const int n = cpu.drift ? 60 : 2;
            for (int i = 0; i < n; ++i)
            {
                const i128 a = wall();
                XTR_LOG_TSC(s, "{}", i);
                w.push_back({a, wall()});
                s.sync();
                if (i + 1 < n)
                    ::usleep(cpu.drift ? 5000 : 400000);
            }
        }
        std::size_t k = 0;
        for (auto& x : entries(st->get()))
        {
            std::printf("%lld %lld %lld\n", (long long)(parse_ts(x.ts)), (long long)(w[k].first / 1000), (long long)(w[k].second / 1000));
            ++k;
        }
        std::fflush(stdout);
        return 0;
    }

    double tsc_per_second()
    {
        static const double hz = [] {
            double best = 0, spread = 1e18;
            for (int i = 0; i < 5; ++i)
            {
                // the reading of the clock that took the shortest is used
                const auto read = [](double& t, double& c) {
                    std::uint64_t d = ~0ull;
                    for (int j = 0; j < 50; ++j)
                    {
                        const std::uint64_t a = __builtin_ia32_rdtsc();
                        const double x = now_s();
                        const std::uint64_t b = __builtin_ia32_rdtsc();
                        if (b - a < d)
                            d = b - a, t = x, c = double(a);
                    }
                    return double(d);
                };
                double t0, c0, t1, c1;
                double e = read(t0, c0);
                ::usleep(50000);
                e += read(t1, c1);
                if (e < spread)
                    spread = e, best = (c1 - c0) / (t1 - t0);
            }
            return best;
        }();
        return hz;
    }

    void processors(rng& r, unsigned which, unsigned model)
    {
        static constexpr struct { std::uint32_t model, ccc; } known[] = {
            {0x4E, 24000000}, {0x5E, 24000000}, {0x8E, 24000000}, {0x9E, 24000000}, {0xA5, 24000000}, {0xA6, 24000000},
            {0x86, 25000000}, {0x5F, 25000000}, {0x5C, 19200000}, {0x7A, 19200000}};
        static constexpr std::uint32_t unknown[] = {0x55, 0x6A, 0x97, 0x1E, 0x2A, 0xCF};
        const auto any = [&] { return r.chance(50) ? known[r.below(10)].model : unknown[r.below(6)]; };
        const double hz = tsc_per_second();
        processor p{0x20, any(), 0, 0, 0, false};
        // num / den * ccc is the frequency
        const auto ratio = [&](double f, std::uint32_t ccc) {
            p.den = std::uint32_t(r.range(2000, 40000));
            p.num = std::uint32_t(std::llround(f / ccc * p.den));
        };
        std::string kind;
        switch (which)
        {
        case 0: p.max_leaf = std::uint32_t(r.range(1, 0x14)); kind = "no leaf 0x15"; break;
        case 1: kind = "nothing enumerated"; break;
        case 2: p.model = known[r.below(10)].model; kind = "nothing enumerated, known crystal"; break;
        case 3: p.ccc = std::uint32_t(r.range(10000000, 100000000)); ratio(hz, p.ccc); kind = "everything enumerated"; break;
        case 4:
        {
            const auto& k = known[model % std::size(known)];
            p.model = k.model;
            ratio(hz, k.ccc);
            kind = "ratio enumerated, known crystal";
            break;
        }
        case 5: p.model = unknown[r.below(6)]; ratio(hz, std::uint32_t(r.range(10000000, 100000000))); kind = "ratio enumerated, unknown crystal"; break;
        case 6:
            p.ccc = std::uint32_t(r.range(10000000, 100000000));
            (r.chance(50) ? p.den : p.num) = std::uint32_t(r.range(0, 1000));
            kind = "no ratio enumerated";
            break;
        case 7:
            p.ccc = 100000;
            ratio(hz / 2000, p.ccc);
            p.drift = true;
            kind = "drift";
            break;
        }
        std::string bad;
        for (int attempt = 0; attempt < 4; ++attempt)
        {
            bad.clear();
            int fd[2];
            if (::pipe(fd) != 0)
                inconclusive("pipe");
            std::fflush(stdout);
            const pid_t pid = ::fork();
            if (pid == 0)
            {
                ::dup2(fd[1], 1);
                ::close(fd[0]);
                ::close(fd[1]);
                ::alarm(120);
                std::string a[6] = {std::to_string(p.max_leaf), std::to_string(p.model), std::to_string(p.den), std::to_string(p.num), std::to_string(p.ccc), p.drift ? "1" : "0"};
                const char* argv[] = {"p18", "cpu-child", a[0].c_str(), a[1].c_str(), a[2].c_str(), a[3].c_str(), a[4].c_str(), a[5].c_str(), nullptr};
                ::execv("/proc/self/exe", const_cast<char**>(argv));
                ::_exit(78);
            }
            ::close(fd[1]);
            std::string out;
            char b[4096];
            for (ssize_t n; (n = ::read(fd[0], b, sizeof b)) > 0;)
                out.append(b, std::size_t(n));
            ::close(fd[0]);
            int status = 0;
            ::waitpid(pid, &status, 0);
            const auto what = fmt::format("processor with {} (leaves up to {:#x}, model {:#x}, ratio {}/{}, crystal {} Hz; the TSC has {:.0f} Hz)",
                kind, p.max_leaf, p.model, p.num, p.den, p.ccc, hz);
            if (WIFEXITED(status) && WEXITSTATUS(status) == 77)
            {
                count("cpuid_cannot_be_emulated");
                return;
            }
            if (WIFSIGNALED(status) && WTERMSIG(status) == SIGALRM)
            {
                bad = fmt::format("no result within 120 s on a {}", what);
                continue;
            }
            if (WIFSIGNALED(status))
                violation("the process was ended by signal %d (%s) when logging with XTR_LOG_TSC on a %s", WTERMSIG(status), ::strsignal(WTERMSIG(status)), what.c_str());
            if (!WIFEXITED(status) || WEXITSTATUS(status) != 0)
                inconclusive("the child process failed");
            struct row { long long t, lo, hi; };
            std::vector<row> v;
            const char* c = out.c_str();
            row x;
            int len;
            while (std::sscanf(c, "%lld %lld %lld\n%n", &x.t, &x.lo, &x.hi, &len) == 3)
                v.push_back(x), c += len;
            if (v.size() != (p.drift ? 60u : 2u))
                violation("%zu messages are in the log on a %s", v.size(), what.c_str());
            if (p.drift)
            {
                // related to the wall clock at least once per (claimed) minute
                for (auto& y : v)
                    if (y.t > y.hi + 75000000 && bad.empty())
                        bad = fmt::format("a TSC timestamp is {} s ahead though the clocks should be related to each other every minute, on a {}", double(y.t - y.hi) / 1e6, what);
            }
            else
            {
                const double d = double(v[1].t - v[0].t), lo = double(v[1].lo - v[0].hi), hi = double(v[1].hi - v[0].lo);
                if (d < lo * 0.995 - 4000 || d > hi * 1.005 + 4000)
                    bad = fmt::format("TSC timestamps differ by {:.0f} us for statements between {:.0f} and {:.0f} us apart on a {}", d, lo, hi, what);
                else if (v[0].t < v[0].lo - 60000 || v[0].t > v[0].hi + 60000)
                    bad = fmt::format("a TSC timestamp is {} us off on a {}", v[0].t - v[0].lo, what);
            }
            note_distinct(hash(fmt::format("{} {}", kind, p.model)));
            if (bad.empty())
            {
                count("processors_emulated");
                count(p.drift ? "drifting_processors" : "processor_" + std::string(kind));
                return;
            }
            count("processor_cases_repeated");
        }
        violation("%s, and so in four attempts", bad.c_str());
    }

    void one(rng& r, int i)
    {
        if (opt.mode == "cpu")
        {
            // every kind, every known crystal, then anything
            const unsigned k = unsigned(i);
            return processors(r, k < 8 ? k : k < 18 ? 4 : unsigned(r.below(8)), k);
        }
        const auto k = r.below(10);
        if (k < 3)
            given(r);
        else if (k < 8)
            basic_any(r);
        else
        {
            // The TSC is related to the wall clock by reading both. If the thread
            // is not run between these its timestamps are off, which is within
            // the accuracy promised. This is not so repeatedly.
            std::string bad;
            bool good = false;
            for (int a = 0; a < 4 && !good; ++a)
            {
                rng q = r;
                if (a)
                    perturb_off();
                bad = clocks(q, r.chance(30) ? 0 : double(r.range(70, 300)) / 1e3, r.chance(50) ? 0 : 0.1);
                good = bad.empty();
                if (!good)
                    count("tsc_cases_repeated");
            }
            if (!good)
                violation("%s, and so in four attempts", bad.c_str());
            count("clock_cases");
            (void)r();
        }
        // related to the wall clock again every minute
        if (i == 0 && opt.thorough && !VP_COV)
        {
            auto st = std::make_shared<mem_state>();
            std::vector<std::pair<i128, i128>> v;
            {
                xtr::logger log(memory(st, r), std::chrono::system_clock(), xtr::null_command_path);
                auto s = log.get_sink("s");
                const double end = now_s() + 150;
                while (now_s() < end)
                {
                    const i128 a = wall();
                    XTR_LOG_TSC(s, "m");
                    v.push_back({a, wall()});
                    ::usleep(100000);
                }
            }
            std::size_t j = 0, off = 0;
            for (auto& x : entries(st->get()))
            {
                const i128 t = parse_ts(x.ts) * 1000;
                if (t < v[j].first - 60000000 || t > v[j].second + 60000000)
                    ++off;
                ++j;
            }
            if (off > v.size() / 4)
                violation("%zu of %zu TSC timestamps over 150 s are wrong", off, v.size());
            count("tsc_timestamps_over_minutes", (long long)v.size());
        }
    }
}

int main(int argc, char** argv)
{
    if (argc == 8 && std::string_view(argv[1]) == "cpu-child")
        return cpu_child(argv + 2);
    parse_args(argc, argv);
    return run_cases(one, opt.mode != "cpu", opt.mode != "cpu");
}
