// P07: when sync() returns, or a fatal statement aborts, everything before it is
// in the file and fsync has been called after it was written
#include "engine.hpp"
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/resource.h>
using namespace vp;

static constexpr std::size_t cap = XTR_SINK_CAPACITY;

namespace
{
    // --- fsync monitor ------------------------------------------------------
    struct fs_event
    {
        ino_t ino;
        std::size_t size;     // when fsync was called
        std::uint64_t sum;    // of the contents then
    };
    std::mutex fs_mutex;
    std::vector<fs_event> fs_events; // in order of return
    std::atomic<bool> fs_record{false};

    int do_sync(int fd, long nr)
    {
        fs_event e{};
        if (fs_record)
        {
            struct stat st;
            if (::fstat(fd, &st) == 0 && S_ISREG(st.st_mode))
            {
                const std::string d = slurp("/proc/self/fd/" + std::to_string(fd));
                e = {st.st_ino, d.size(), hash(d)};
            }
        }
        const int rc = int(::syscall(nr, fd));
        if (e.ino && rc == 0)
        {
            std::scoped_lock l{fs_mutex};
            fs_events.push_back(e);
        }
        return rc;
    }
}

extern "C" int fsync(int fd) { return do_sync(fd, SYS_fsync); }
extern "C" int fdatasync(int fd) { return do_sync(fd, SYS_fdatasync); }

namespace
{
    // --- shared with the child ------------------------------------------------
    struct shared
    {
        std::atomic<std::uint32_t> acked[4];   // messages of thread t known to be durable
        std::atomic<std::uint32_t> logged[4];
        std::atomic<std::uint32_t> syncs;
        std::atomic<std::uint32_t> fatal_level_ok;
    };
    shared* sh;

    std::string body(int t, std::uint32_t q)
    {
        rng r(std::uint64_t(t) * 1000 + q);
        return random_text(r, r.chance(3) ? r.below(cap / 2) : r.below(80), false);
    }

    void log_one(xtr::sink& s, int t, std::uint32_t q)
    {
        const std::string b = body(t, q);
        if (q % 5 == 0)
            XTR_LOG_TSC(s, "T{} {} {} end", t, q, b);
        else if (q % 7 == 0)
            XTR_LOG(s, "T{} {} {} end", t, q, std::string(b));
        else
            XTR_LOG(s, "T{} {} {} end", t, q, b);
    }

    std::string expected(int t, std::uint32_t q) { return fmt::format("T{} {} {} end", t, q, body(t, q)); }

    // Where each message of each thread ends in the file; the messages of each
    // thread must be in order
    std::vector<std::vector<std::size_t>> positions(const std::string& data, std::size_t limit, const char* what)
    {
        std::vector<std::vector<std::size_t>> r(4);
        std::size_t pos = 0;
        while (pos < data.size())
        {
            const auto e = data.find('\n', pos);
            if (e == data.npos)
                break;
            const std::string_view raw(data.data() + pos, e - pos);
            pos = e + 1;
            const auto at = raw.find(": T");
            const line l = parse_line(raw);
            if (!l.ok || at == raw.npos)
            {
                if (pos <= limit)
                    violation("%s: damaged line \"%s\"", what, quote(raw).c_str());
                continue;
            }
            const auto m = raw.substr(at + 2);
            const int t = m[1] - '0';
            if (t < 0 || t > 3)
                violation("%s: damaged line \"%s\"", what, quote(raw).c_str());
            const auto q = std::uint32_t(r[std::size_t(t)].size());
            if (m != expected(t, q))
                violation("%s: thread %d: expected message %u, found \"%s\"", what, t, q, quote(raw).c_str());
            r[std::size_t(t)].push_back(pos);
        }
        return r;
    }

    // Any file back-end
    std::unique_ptr<xtr::logger> make_log(rng& r, const std::string& path, int& fd, std::string& desc)
    {
        using clock = std::chrono::system_clock;
        const auto cmd = xtr::null_command_path;
        switch (r.below(4))
        {
        case 0:
            desc = "path";
            return std::make_unique<xtr::logger>(path.c_str(), clock(), cmd);
        case 1:
        {
            fd = ::open(path.c_str(), O_CREAT|O_RDWR|O_CLOEXEC|(r.chance(50) ? O_APPEND : 0), 0666);
            static constexpr std::size_t szs[] = {1, 33, 512, 4096, 65536};
            const auto sz = szs[r.below(5)];
            desc = fmt::format("posix({})", sz);
            return std::make_unique<xtr::logger>(std::make_unique<xtr::posix_fd_storage>(fd, path, sz), clock(), cmd);
        }
        default:
        {
            fd = ::open(path.c_str(), O_CREAT|O_RDWR|O_CLOEXEC|(r.chance(50) ? O_APPEND : 0), 0666);
            static constexpr std::size_t szs[] = {64, 100, 512, 4096, 65536};
            static constexpr std::size_t qs[] = {1, 2, 4, 16, 64};
            static constexpr std::size_t bs[] = {1, 2, 3, 8, 32};
            const auto sz = szs[r.below(5)], q = qs[r.below(5)], b = bs[r.below(5)];
            desc = fmt::format("io_uring({},{},{})", sz, q, b);
            return std::make_unique<xtr::logger>(std::make_unique<xtr::io_uring_fd_storage>(fd, path, sz, q, b), clock(), cmd);
        }
        }
    }

    void no_core()
    {
        rlimit l{0, 0};
        ::setrlimit(RLIMIT_CORE, &l);
    }

    [[noreturn]] void crash_child(rng r, const std::string& path)
    {
        no_core();
        int fd = -1;
        std::string desc;
        auto log = make_log(r, path, fd, desc);
        const int n_threads = int(r.range(1, 3));
        const int how = int(r.below(3)); // 0: killed as sync returns, 1: killed at an edge soon after, 2: at any edge or by the parent
        const auto kill_at = r.range(1, 12);
        std::vector<std::thread> th;
        if (how == 2 && VP_COV)
            crash_after((long long)(std::uint64_t(1) << r.range(6, 17)));
        std::atomic<std::uint32_t> n_acks{0};
        std::uint32_t edge = std::uint32_t(r.below(400));
        for (int t = 0; t < n_threads; ++t)
        {
            th.emplace_back([&, t, rr = rng(r())]() mutable {
                xtr::sink s = log->get_sink("s" + std::to_string(t));
                std::uint32_t q = 0;
                for (;;)
                {
                    for (auto n = rr.below(30); n > 0; --n)
                    {
                        log_one(s, t, q++);
                        sh->logged[t] = q;
                    }
                    s.sync();
                    sh->acked[t].store(q);
                    ++sh->syncs;
                    if (++n_acks == kill_at || q > 2000)
                    {
                        if (how == 0 || !VP_COV || q > 2000)
                            ::kill(::getpid(), SIGKILL);
                        else if (how == 1)
                            crash_after(edge);
                    }
                }
            });
        }
        for (auto& t : th)
            t.join();
        ::_exit(0);
    }

    // A fatal statement in each of its forms
    [[noreturn]] void fatal_child(rng r, const std::string& path, int form, int level)
    {
        no_core();
        int fd = -1;
        std::string desc;
        auto log = make_log(r, path, fd, desc);
        xtr::sink s = log->get_sink("s");
        xtr::sink other = log->get_sink("o");
        s.set_level(xtr::log_level_t(level));
        std::uint32_t q = 0;
        for (auto n = r.below(60); n > 0; --n)
        {
            log_one(s, 0, q++);
            sh->logged[0] = q;
        }
        if (form >= 4)
        {
            // non-blocking: make room, so that it is not dropped
            s.sync();
            s.sync();
            for (auto n = r.below(3); n > 0; --n)
            {
                XTR_LOG(s, "T{} {} {} end", 0, q, body(0, q));
                sh->logged[0] = ++q;
            }
        }
        const std::string b = body(0, q);
        const std::string x = b.substr(0, form >= 4 ? 0 : b.size());
        const xtr::timespec ts(std::timespec{1600000000, 0});
        switch (form)
        {
        case 0: XTR_LOGL(fatal, s, "fatal {} {} end", q, b); break;
        case 1: XTR_LOGL_TS(fatal, s, ts, "fatal {} {} end", q, b); break;
        case 2: XTR_LOGL_RTC(fatal, s, "fatal {} {} end", q, b); break;
        case 3: XTR_LOGL_TSC(fatal, s, "fatal {} {} end", q, b); break;
        case 4: XTR_TRY_LOGL(fatal, s, "fatal {} {} end", q, "-"); break;
        case 5: XTR_TRY_LOGL_TS(fatal, s, ts, "fatal {} {} end", q, "-"); break;
        case 6: XTR_TRY_LOGL_RTC(fatal, s, "fatal {} {} end", q, "-"); break;
        case 7: XTR_TRY_LOGL_TSC(fatal, s, "fatal {} {} end", q, "-"); break;
        case 8: XTR_LOGL(fatal, s, "fatal"); break;
        }
        ::_exit(77); // did not abort
    }

    int wait_child(pid_t pid, double timeout)
    {
        int st = 0;
        double end = now_s() + timeout;
        const sched_snapshot snap(pid);
        int extended = 0;
        for (unsigned i = 0;; ++i)
        {
            const auto p = ::waitpid(pid, &st, WNOHANG);
            if (p == pid)
                return st;
            if (now_s() > end)
            {
                if (++extended < 4 && snap.starved())
                {
                    end = now_s() + timeout;
                    continue;
                }
                const bool starved = snap.starved();
                ::kill(pid, SIGKILL);
                if (starved)
                    inconclusive("threads are not being scheduled");
                ::waitpid(pid, &st, 0);
                return -1;
            }
            ::usleep(i < 200 ? 100 : 2000);
        }
    }

    void reset_shared()
    {
        for (int i = 0; i < 4; ++i)
        {
            sh->acked[i] = 0;
            sh->logged[i] = 0;
        }
        sh->syncs = 0;
    }
}

static void crash_case(rng& r)
{
    const std::string path = opt.dir + "/crash.log";
    ::unlink(path.c_str());
    reset_shared();
    const rng r2(r());
    const bool by_parent = r.chance(25) || !VP_COV;
    const auto us = r.below(20000);
    const pid_t pid = ::fork();
    if (pid == -1)
        inconclusive("fork failed");
    if (pid == 0)
        crash_child(r2, path);
    int st;
    if (by_parent)
    {
        ::usleep(useconds_t(us));
        if (r.chance(50))
            ::kill(pid, SIGKILL);
    }
    st = wait_child(pid, 60);
    if (st == -1)
        violation("the process neither finished nor was killed within 60 s: sync() did not return");
    if (!WIFSIGNALED(st) || WTERMSIG(st) != SIGKILL)
        violation("the process died with status 0x%x before it was killed", st);
    const std::string data = slurp(path);
    std::size_t acked = 0;
    const auto pos = positions(data, 0, "after a crash");
    std::string d;
    for (int t = 0; t < 4; ++t)
    {
        const auto a = sh->acked[t].load();
        if (pos[std::size_t(t)].size() < a)
            violation("thread %d: sync() had returned after %u messages, but after the crash the file has only %zu of them",
                t, a, pos[std::size_t(t)].size());
        acked += a;
        d += fmt::format(" {}/{}/{}", a, pos[std::size_t(t)].size(), sh->logged[t].load());
    }
    // nothing before the last acknowledged message is damaged
    std::size_t limit = 0;
    for (int t = 0; t < 4; ++t)
        if (const auto a = sh->acked[t].load())
            limit = std::max(limit, pos[std::size_t(t)][a - 1]);
    positions(data, limit, "after a crash, in the synced part");
    count("crashes");
    count("acked_messages", (long long)acked);
    count("syncs_before_crash", sh->syncs);
    note_distinct(hash(d));
    sample(fmt::format("case {}: killed; acknowledged/found/logged per thread:{}", current_case.load(), d));
    ::unlink(path.c_str());
}

static void fatal_case(rng& r)
{
    const std::string path = opt.dir + "/fatal.log";
    ::unlink(path.c_str());
    reset_shared();
    const int form = int(r.below(9));
    const int level = int(r.below(6));
    const rng r2(r());
    const pid_t pid = ::fork();
    if (pid == -1)
        inconclusive("fork failed");
    if (pid == 0)
        fatal_child(r2, path, form, level);
    const int st = wait_child(pid, 60);
    if (st == -1)
        violation("a fatal statement (form %d) did not end the process within 60 s", form);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77)
        violation("a fatal statement (form %d, sink level %d) did not abort", form, level);
    if (!WIFSIGNALED(st) || WTERMSIG(st) != SIGABRT)
        violation("a fatal statement (form %d, sink level %d) ended the process with status 0x%x instead of SIGABRT", form, level, st);
    const std::string data = slurp(path);
    const bool logs = level >= int(xtr::log_level_t::fatal);
    const auto n = sh->logged[0].load();
    std::size_t seen = 0;
    bool fatal_seen = false;
    bool complete = false;
    for (auto raw : split_lines(data, &complete))
    {
        const auto at = raw.find(": ");
        const auto m = at == raw.npos ? raw : raw.substr(raw.find(": ") + 2);
        if (m == expected(0, std::uint32_t(seen)))
            ++seen;
        else if (m.substr(0, 5) == "fatal" && !fatal_seen)
        {
            fatal_seen = true;
            const std::string want = form == 8 ? "fatal" : form >= 4 ? fmt::format("fatal {} - end", n) : fmt::format("fatal {} {} end", n, body(0, n));
            if (m != want || raw[0] != 'F')
                violation("fatal statement (form %d) logged as \"%s\"", form, quote(raw).c_str());
        }
        else
            violation("unexpected line \"%s\"", quote(raw).c_str());
    }
    if (!complete)
        violation("the last line is incomplete after a fatal statement (form %d): \"%s\"", form, quote(data.substr(data.size() - std::min<std::size_t>(data.size(), 100))).c_str());
    if (seen != n)
        violation("%zu of %u messages before a fatal statement (form %d, sink level %d) are in the file", seen, n, form, level);
    if (fatal_seen != logs)
        violation("fatal message (form %d) %s with sink level %d", form, fatal_seen ? "logged" : "missing", level);
    count("fatal_statements");
    note_distinct(hash(fmt::format("fatal {} {} {}", form, level, n)));
    ::unlink(path.c_str());
}

static void order_case(rng& r)
{
    const std::string path = opt.dir + "/order.log";
    ::unlink(path.c_str());
    struct ack { int t; std::uint32_t n; std::size_t from, to; };
    std::vector<ack> acks;
    std::mutex m;
    {
        std::scoped_lock l{fs_mutex};
        fs_events.clear();
    }
    fs_record = true;
    int fd = -1;
    std::string desc;
    struct stat st{};
    {
        auto log = make_log(r, path, fd, desc);
        std::vector<std::thread> th;
        const int n_threads = int(r.range(1, 3));
        for (int t = 0; t < n_threads; ++t)
            th.emplace_back([&, t, rr = rng(r())]() mutable {
                xtr::sink s = log->get_sink("s");
                std::uint32_t q = 0;
                for (int i = 0; i < 12; ++i)
                {
                    for (auto n = rr.below(rr.chance(20) ? 150 : 20); n > 0; --n)
                        log_one(s, t, q++);
                    ack a{t, q, 0, 0};
                    {
                        std::scoped_lock l{fs_mutex};
                        a.from = fs_events.size();
                    }
                    s.sync();
                    {
                        std::scoped_lock l{fs_mutex};
                        a.to = fs_events.size();
                    }
                    std::scoped_lock l{m};
                    acks.push_back(a);
                }
            });
        for (auto& t : th)
            t.join();
    }
    fs_record = false;
    ::stat(path.c_str(), &st);
    const std::string data = slurp(path);
    const auto pos = positions(data, data.size(), "complete file");
    std::map<std::size_t, std::uint64_t> sums;
    for (auto& a : acks)
    {
        const std::size_t end = a.n ? pos[std::size_t(a.t)].at(a.n - 1) : 0;
        bool ok = false;
        std::size_t best = 0;
        for (auto i = a.from; i < a.to && !ok; ++i)
        {
            const auto& e = fs_events[i];
            if (e.ino != st.st_ino || e.size > data.size())
                continue;
            best = std::max(best, e.size);
            auto [it, fresh] = sums.try_emplace(e.size, 0);
            if (fresh)
                it->second = hash(std::string_view(data).substr(0, e.size));
            ok = e.size >= end && it->second == e.sum;
        }
        if (!ok && a.from == a.to)
            violation("sync() returned without an fsync of the file [%s]", desc.c_str());
        if (!ok)
            violation("sync() returned but what it covers (up to byte %zu) was not completely written when fsync was called (%zu bytes then) [%s]", end, best, desc.c_str());
        count("syncs_with_fsync_order_checked");
    }
    count("order_cases");
    note_distinct(hash(fmt::format("{} {} {}", desc, data.size(), acks.size())));
    if (fd != -1)
        ::close(fd);
    ::unlink(path.c_str());
}

// The same for a custom back-end
static void custom_case(rng& r)
{
    auto mem = std::make_shared<mem_state>();
    struct ack { int t; std::uint32_t n; std::size_t synced, flushed; long syncs0, syncs1; };
    std::vector<ack> acks;
    std::mutex m;
    {
        xtr::logger log(std::make_unique<mem_storage>(mem, r(), 1, r.range(1, 10000)), std::chrono::system_clock(), xtr::null_command_path);
        std::vector<std::thread> th;
        for (int t = 0; t < int(r.range(1, 3)); ++t)
            th.emplace_back([&, t, rr = rng(r())]() mutable {
                xtr::sink s = log.get_sink("s");
                std::uint32_t q = 0;
                for (int i = 0; i < 12; ++i)
                {
                    for (auto n = rr.below(20); n > 0; --n)
                        log_one(s, t, q++);
                    ack a{t, q, 0, 0, 0, 0};
                    { std::scoped_lock l{mem->m}; a.syncs0 = mem->syncs; }
                    s.sync();
                    { std::scoped_lock l{mem->m}; a.synced = mem->synced; a.flushed = mem->flushed; a.syncs1 = mem->syncs; }
                    std::scoped_lock l{m};
                    acks.push_back(a);
                }
            });
        for (auto& t : th)
            t.join();
    }
    const std::string data = mem->get();
    const auto pos = positions(data, data.size(), "custom back-end");
    for (auto& a : acks)
    {
        const std::size_t end = a.n ? pos[std::size_t(a.t)].at(a.n - 1) : 0;
        if (a.syncs1 == a.syncs0 || a.synced < end || a.flushed < end)
            violation("sync() returned: %zu bytes had been synced and %zu flushed, but it covers %zu (%ld calls of sync)", a.synced, a.flushed, end, a.syncs1 - a.syncs0);
        count("syncs_of_custom_backend_checked");
    }
}

static void one(rng& r, int c)
{
    switch (c % 6)
    {
    case 0: case 1: case 2: crash_case(r); break;
    case 3: fatal_case(r); break;
    case 4: order_case(r); break;
    case 5: custom_case(r); break;
    }
}

int main(int argc, char** argv)
{
    parse_args(argc, argv);
    sh = static_cast<shared*>(::mmap(nullptr, sizeof(shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0));
    new (sh) shared{};
    return run_cases(one);
}
