#ifndef VP_COMMON_HPP
#define VP_COMMON_HPP
// Shared by all harnesses: arguments, random numbers, statistics, violation
// reporting, storages and output parsing.
#include "perturb.hpp"

#include <xtr/logger.hpp>
#include <xtr/io/fd_storage.hpp>
#include <xtr/io/io_uring_fd_storage.hpp>
#include <xtr/io/posix_fd_storage.hpp>
#include <xtr/io/storage_interface.hpp>

#include <atomic>
#include <cctype>
#include <chrono>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <set>
#include <span>
#include <string>
#include <string_view>
#include <thread>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#include <dirent.h>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define VP_TSAN 1
#endif
#if __has_feature(address_sanitizer)
#define VP_ASAN 1
#endif
#endif
#if defined(__SANITIZE_THREAD__)
#define VP_TSAN 1
#endif
#if defined(__SANITIZE_ADDRESS__)
#define VP_ASAN 1
#endif
#ifndef VP_TSAN
#define VP_TSAN 0
#endif
#ifndef VP_ASAN
#define VP_ASAN 0
#endif
#ifndef VP_COV
#define VP_COV 0
#endif

namespace vp
{
    inline std::uint64_t mix(std::uint64_t z)
    {
        z += 0x9e3779b97f4a7c15ull;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }

    inline std::uint64_t hash(std::string_view s, std::uint64_t h = 1469598103934665603ull)
    {
        for (unsigned char c : s)
            h = (h ^ c) * 1099511628211ull;
        return h;
    }

    struct rng
    {
        std::uint64_t s;
        explicit rng(std::uint64_t seed) : s(mix(seed)) {}
        std::uint64_t operator()() { return mix(s += 0x632be59bd9b4e019ull); }
        // uniform in [0, n)
        std::uint64_t below(std::uint64_t n) { return n ? (*this)() % n : 0; }
        // uniform in [lo, hi]
        std::uint64_t range(std::uint64_t lo, std::uint64_t hi) { return lo + below(hi - lo + 1); }
        bool chance(unsigned pct) { return below(100) < pct; }
    };

    struct options
    {
        std::uint64_t seed = 1;
        int cases = 10;
        int only = -1;      // run just this case
        int shard = 0;
        bool thorough = false;
        std::string stats;  // path of the statistics file to write
        std::string dir;    // scratch directory, private to this process
        std::string mode;   // harness specific
        std::string xtrctl; // path of an xtrctl binary, if built
    };
    inline options opt;

    // --- statistics -------------------------------------------------------
    inline std::mutex stats_mutex;
    inline std::map<std::string, long long> counters;
    inline std::map<std::string, long long> maxima;
    inline std::set<std::uint64_t> distinct;
    inline std::vector<std::string> samples;
    inline std::atomic<int> current_case{-1};

    inline void count(const std::string& k, long long n = 1)
    {
        std::scoped_lock l{stats_mutex};
        counters[k] += n;
    }
    inline void maximum(const std::string& k, long long n)
    {
        std::scoped_lock l{stats_mutex};
        auto& m = maxima[k];
        if (n > m)
            m = n;
    }
    inline void note_distinct(std::uint64_t h)
    {
        std::scoped_lock l{stats_mutex};
        if (distinct.size() < 200000)
            distinct.insert(h);
    }
    inline void sample(std::string s)
    {
        std::scoped_lock l{stats_mutex};
        if (samples.size() < 4)
            samples.push_back(std::move(s));
    }

    inline std::string json_str(std::string_view s)
    {
        std::string r = "\"";
        for (unsigned char c : s)
        {
            char b[8];
            if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
            else if (c < 0x20 || c > 0x7e) { std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
            else r += char(c);
        }
        return r + "\"";
    }

    inline void write_stats()
    {
        if (opt.stats.empty())
            return;
        std::scoped_lock l{stats_mutex};
        FILE* f = std::fopen(opt.stats.c_str(), "w");
        if (!f)
            return;
        std::fprintf(f, "{\"counters\":{");
        const char* sep = "";
        for (auto& [k, v] : counters) { std::fprintf(f, "%s%s:%lld", sep, json_str(k).c_str(), v); sep = ","; }
        std::fprintf(f, "},\"maxima\":{");
        sep = "";
        for (auto& [k, v] : maxima) { std::fprintf(f, "%s%s:%lld", sep, json_str(k).c_str(), v); sep = ","; }
        std::fprintf(f, "},\"distinct\":[");
        sep = "";
        for (auto h : distinct) { std::fprintf(f, "%s%llu", sep, (unsigned long long)h); sep = ","; }
        std::fprintf(f, "],\"samples\":[");
        sep = "";
        for (auto& s : samples) { std::fprintf(f, "%s%s", sep, json_str(s).c_str()); sep = ","; }
        std::fprintf(f, "],\"edges_hit\":%u,\"edges_total\":%u,\"delays\":%llu,\"target_delays\":%llu}\n",
            edges_hit(), edges_total(),
            (unsigned long long)perturb_delays(), (unsigned long long)perturb_target_delays());
        std::fclose(f);
    }

    // --- verdicts ---------------------------------------------------------
    inline int saved_stderr = 2;

    [[noreturn]] inline void violation(const char* format, ...)
    {
        char msg[4096];
        va_list ap;
        va_start(ap, format);
        std::vsnprintf(msg, sizeof msg, format, ap);
        va_end(ap);
        std::string s = "VP-VIOLATION seed=" + std::to_string(opt.seed) +
            " case=" + std::to_string(current_case.load()) + " " + msg + "\n";
        (void)!::write(saved_stderr, s.data(), s.size());
        write_stats();
        ::_exit(10);
    }

    // Something which breaks the property in a way that may be listed in
    // KNOWN_FINDINGS.txt under this key; if it is not, it is a violation
    inline void finding(const char* key, const std::string& what)
    {
        std::string s = "VP-FINDING seed=" + std::to_string(opt.seed) +
            " case=" + std::to_string(current_case.load()) + " key=" + key + " " + what + "\n";
        (void)!::write(saved_stderr, s.data(), s.size());
    }

    // The harness itself could not do its work: no verdict
    [[noreturn]] inline void inconclusive(const char* format, ...)
    {
        char msg[2048];
        va_list ap;
        va_start(ap, format);
        std::vsnprintf(msg, sizeof msg, format, ap);
        va_end(ap);
        std::string s = std::string("VP-INCONCLUSIVE ") + msg + "\n";
        (void)!::write(saved_stderr, s.data(), s.size());
        ::_exit(20);
    }

    inline std::string quote(std::string_view s, std::size_t max = 300)
    {
        std::string r;
        for (unsigned char c : s.substr(0, max))
        {
            char b[8];
            if (c >= ' ' && c <= '~') r += char(c);
            else { std::snprintf(b, sizeof b, "<%02x>", c); r += b; }
        }
        if (s.size() > max)
            r += "...(" + std::to_string(s.size()) + " bytes)";
        return r;
    }

    // --- main loop --------------------------------------------------------
    inline void parse_args(int argc, char** argv)
    {
        for (int i = 1; i + 1 < argc; i += 2)
        {
            const std::string a = argv[i], v = argv[i + 1];
            if (a == "--seed") opt.seed = std::strtoull(v.c_str(), nullptr, 10);
            else if (a == "--cases") opt.cases = std::atoi(v.c_str());
            else if (a == "--case") opt.only = std::atoi(v.c_str());
            else if (a == "--shard") opt.shard = std::atoi(v.c_str());
            else if (a == "--tier") opt.thorough = v == "thorough";
            else if (a == "--stats") opt.stats = v;
            else if (a == "--dir") opt.dir = v;
            else if (a == "--mode") opt.mode = v;
            else if (a == "--xtrctl") opt.xtrctl = v;
        }
        if (opt.dir.empty())
        {
            char t[] = "/tmp/vph.XXXXXX";
            opt.dir = ::mkdtemp(t);
        }
        saved_stderr = ::dup(2);
        ::signal(SIGPIPE, SIG_IGN);
    }

    // Random schedule perturbation for one case
    inline void perturb_case(rng& r)
    {
#if VP_COV
        perturb_config c;
        c.seed = r();
        static constexpr std::uint32_t gaps[] = {200, 1000, 5000, 20000, 100000, 400000};
        c.mean_gap = gaps[r.below(6)];
        c.sleep_pct = std::uint32_t(c.mean_gap < 2000 ? r.range(0, 5) : r.range(5, 60));
        c.max_sleep_us = std::uint32_t(r.chance(20) ? 800 : 100);
        c.n_targets = std::uint32_t(r.chance(60) ? r.range(1, 3) : 0);
        c.target_us = std::uint32_t(r.chance(30) ? 1000 : 150);
        c.on = !r.chance(15);
        perturb_set(c);
#else
        (void)r;
#endif
    }

    // CPU placement is another source of distinct schedules: all threads of the
    // case on one CPU, on two, or anywhere
    inline void place_case(rng& r)
    {
        static cpu_set_t all;
        static const bool once = (::sched_getaffinity(0, sizeof all, &all), true);
        (void)once;
        std::vector<int> cpus;
        for (int i = 0; i < CPU_SETSIZE; ++i)
            if (CPU_ISSET(i, &all))
                cpus.push_back(i);
        cpu_set_t s = all;
        const auto k = ::getenv("VP_NOPLACE") ? 3 : r.below(4);
        if (k < 2 && !cpus.empty())
        {
            CPU_ZERO(&s);
            CPU_SET(cpus[r.below(cpus.size())], &s);
            if (k == 1)
                CPU_SET(cpus[r.below(cpus.size())], &s);
        }
        ::sched_setaffinity(0, sizeof s, &s);
        count(k == 0 ? "cases_on_one_cpu" : k == 1 ? "cases_on_two_cpus" : "cases_on_all_cpus");
    }

    inline int run_cases(const std::function<void(rng&, int)>& f, bool perturbed = true, bool placed = true)
    {
        for (int i = 0; i < opt.cases; ++i)
        {
            if (opt.only >= 0 && i != opt.only)
                continue;
            current_case = i;
            rng r(opt.seed * 1000003ull + std::uint64_t(i) * 7919u + 17u);
            if (placed)
                place_case(r);
            if (perturbed)
                perturb_case(r);
            f(r, i);
            count("cases");
        }
        perturb_off();
        write_stats();
        return 0;
    }

    // --- output parsing ---------------------------------------------------
    // Timestamp as printed by the logger: "YYYY-MM-DD HH:MM:SS.uuuuuu"
    inline bool is_timestamp(std::string_view s)
    {
        static constexpr std::string_view pat = "dddd-dd-dd dd:dd:dd.dddddd";
        if (s.size() != pat.size())
            return false;
        for (std::size_t i = 0; i < s.size(); ++i)
            if (pat[i] == 'd' ? !std::isdigit(static_cast<unsigned char>(s[i])) : s[i] != pat[i])
                return false;
        return true;
    }

    struct line
    {
        std::string_view raw, level, ts, rest; // rest: "name file:line: message"
        bool ok = false;
    };

    // Parses "X <timestamp> <rest>"
    inline line parse_line(std::string_view raw)
    {
        line l;
        l.raw = raw;
        if (raw.size() < 2 + 26 + 1 || raw[1] != ' ')
            return l;
        l.level = raw.substr(0, 2);
        l.ts = raw.substr(2, 26);
        if (!is_timestamp(l.ts) || raw[28] != ' ')
            return l;
        l.rest = raw.substr(29);
        l.ok = true;
        return l;
    }

    // The final line must be complete
    inline std::vector<std::string_view> split_lines(std::string_view data, bool* complete = nullptr)
    {
        std::vector<std::string_view> r;
        std::size_t pos = 0;
        while (pos < data.size())
        {
            const auto e = data.find('\n', pos);
            if (e == data.npos)
                break;
            r.push_back(data.substr(pos, e - pos));
            pos = e + 1;
        }
        if (complete)
            *complete = pos >= data.size();
        else if (pos < data.size())
            r.push_back(data.substr(pos));
        return r;
    }

    inline std::string slurp(const std::string& path)
    {
        std::string s;
        const int fd = ::open(path.c_str(), O_RDONLY|O_CLOEXEC);
        if (fd == -1)
            return s;
        char b[65536];
        ::ssize_t n;
        while ((n = ::read(fd, b, sizeof b)) > 0)
            s.append(b, std::size_t(n));
        ::close(fd);
        return s;
    }

    // Independent model of string sanitizing: printable ASCII except backslash
    // is unchanged, anything else becomes \xHH
    inline std::string model_sanitize(std::string_view in)
    {
        std::string r;
        for (unsigned char c : in)
        {
            if (c > 0x1f && c < 0x7f && c != 0x5c)
                r.push_back(char(c));
            else
            {
                char b[8];
                std::snprintf(b, sizeof b, "%cx%02X", 0x5c, unsigned(c));
                r += b;
            }
        }
        return r;
    }

    // --- waiting ----------------------------------------------------------
    inline double now_s()
    {
        return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
    }

    // The kernel here sometimes leaves a runnable thread waiting for a CPU for
    // minutes. A bounded wait must not take that for a hang of the library.
    struct sched_snapshot
    {
        struct t { std::uint64_t ran, waited; };
        std::map<int, t> tasks;
        double at = now_s();
        std::string proc;

        explicit sched_snapshot(int pid = 0)
        : proc(pid ? "/proc/" + std::to_string(pid) : "/proc/self")
        {
            DIR* d = ::opendir((proc + "/task").c_str());
            if (!d)
                return;
            while (auto* e = ::readdir(d))
            {
                const int tid = std::atoi(e->d_name);
                if (tid <= 0)
                    continue;
                char path[64], b[128] = {};
                std::snprintf(path, sizeof path, "%s/task/%d/schedstat", proc.c_str(), tid);
                const int fd = ::open(path, O_RDONLY|O_CLOEXEC);
                if (fd == -1)
                    continue;
                if (::read(fd, b, sizeof b - 1) > 0)
                {
                    unsigned long long x = 0, y = 0;
                    if (std::sscanf(b, "%llu %llu", &x, &y) == 2)
                        tasks[tid] = {x, y};
                }
                ::close(fd);
            }
            ::closedir(d);
        }

        sched_snapshot(const sched_snapshot& o, int)
        : sched_snapshot(o.proc == "/proc/self" ? 0 : std::atoi(o.proc.c_str() + 6))
        {
        }

        // Whether a thread wanted to run for most of the time since then, but
        // hardly could
        bool starved() const
        {
            sched_snapshot now(*this, 0);
            const double wall = (now.at - at) * 1e9;
            for (auto& [tid, x] : now.tasks)
            {
                const auto it = tasks.find(tid);
                if (it == tasks.end())
                    continue;
                const double ran = double(x.ran - it->second.ran), waited = double(x.waited - it->second.waited);
                if (ran < 0.08 * wall && waited > 0.3 * wall)
                    return true;
                // a thread waiting since before the snapshot is not accounted
                // for until it runs
                if (ran == 0 && waited == 0 && runnable(tid))
                    return true;
            }
            return false;
        }

        bool runnable(int tid) const
        {
            char path[64], b[512] = {};
            std::snprintf(path, sizeof path, "%s/task/%d/stat", proc.c_str(), tid);
            const int fd = ::open(path, O_RDONLY|O_CLOEXEC);
            if (fd == -1)
                return false;
            const auto n = ::read(fd, b, sizeof b - 1);
            ::close(fd);
            const char* p = n > 0 ? std::strrchr(b, ')') : nullptr;
            return p && p[1] == ' ' && p[2] == 'R';
        }
    };

    // Waits for something the specification says happens eventually. The bound
    // is far beyond any scheduling delay, and extended if threads are starved.
    template<typename F>
    bool eventually(F&& f, double timeout = 40.0)
    {
        for (int k = 0;; ++k)
        {
            const double end = now_s() + timeout;
            std::optional<sched_snapshot> snap;
            for (unsigned i = 0; now_s() < end; ++i)
            {
                if (f())
                    return true;
                if (i == 50)
                    snap.emplace();
                ::usleep(i < 50 ? 200 : 5000);
            }
            if (f())
                return true;
            if (!snap || !snap->starved())
                return false;
            if (k == 4)
                inconclusive("threads are not being scheduled");
            count("waits_extended_by_starvation");
        }
    }

    // --- storages ---------------------------------------------------------
    // An in-memory back-end. The state outlives the logger.
    struct mem_state
    {
        std::mutex m;
        std::string data;           // submitted bytes
        std::size_t synced = 0;     // bytes submitted when sync() was last called
        std::size_t flushed = 0;    // bytes submitted when flush() was last called
        long flushes = 0, syncs = 0, submits = 0, allocs = 0, reopens = 0;
        bool destroyed = false;
        int reopen_result = 0;
        std::function<void()> on_submit;   // called before data is accepted

        std::string get() { std::scoped_lock l{m}; return data; }
    };

    class mem_storage : public xtr::storage_interface
    {
    public:
        explicit mem_storage(std::shared_ptr<mem_state> st, std::uint64_t seed = 1,
            std::size_t minbuf = 4096, std::size_t maxbuf = 4096)
        : st_(std::move(st)), r_(seed), min_(minbuf), max_(maxbuf)
        {
        }
        ~mem_storage() override { std::scoped_lock l{st_->m}; st_->destroyed = true; }
        std::span<char> allocate_buffer() override
        {
            // a fresh exactly-sized heap block each time, so that ASan sees any
            // write outside of it or after it was submitted
            buf_.reset(new char[cap_ = r_.range(min_, max_)]);
            std::scoped_lock l{st_->m};
            ++st_->allocs;
            return {buf_.get(), cap_};
        }
        void submit_buffer(char* p, std::size_t n) override
        {
            std::function<void()> f;
            {
                std::scoped_lock l{st_->m};
                f = st_->on_submit;
            }
            if (f)
                f();
            std::scoped_lock l{st_->m};
            st_->data.append(p, n);
            ++st_->submits;
            buf_.reset();
        }
        void flush() override { std::scoped_lock l{st_->m}; ++st_->flushes; st_->flushed = st_->data.size(); }
        void sync() noexcept override { std::scoped_lock l{st_->m}; ++st_->syncs; st_->synced = st_->data.size(); }
        int reopen() noexcept override { std::scoped_lock l{st_->m}; ++st_->reopens; return st_->reopen_result; }

    private:
        std::shared_ptr<mem_state> st_;
        rng r_;
        std::size_t min_, max_, cap_ = 0;
        std::unique_ptr<char[]> buf_;
    };

    // --- a gate which can hold the background thread -----------------------
    struct gate
    {
        std::atomic<bool> closed{false};
        std::atomic<int> waiting{0};
        void pass()
        {
            if (!closed)
                return;
            ++waiting;
            while (closed)
                ::usleep(50);
            --waiting;
        }
    };

    // A logger argument which stops the background thread at a gate while it is
    // being formatted
    struct stall { gate* g; };

    inline int count_fds()
    {
        int n = 0;
        DIR* d = ::opendir("/proc/self/fd");
        if (!d)
            return -1;
        while (::readdir(d))
            ++n;
        ::closedir(d);
        return n - 3; // ".", "..", and the directory
    }
}

template<>
struct fmt::formatter<vp::stall>
{
    template<typename C>
    constexpr auto parse(C& c) { return c.begin(); }
    template<typename C>
    auto format(const vp::stall& s, C& c) const
    {
        s.g->pass();
        return fmt::format_to(c.out(), "stall");
    }
};

#endif
