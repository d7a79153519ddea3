// P17: errors of back-ends and formatters
#include "common.hpp"

#include <algorithm>
#include <csignal>
#include <system_error>
#include <sys/resource.h>
#include <sys/syscall.h>
using namespace vp;

#if VP_ASAN || VP_TSAN
extern "C" void __sanitizer_set_report_fd(void*);
#endif

namespace
{
    // --- fault plan, used by all kinds of storages ---------------------------
    struct plan
    {
        std::mutex m;
        rng r{1};
        bool armed = false;
        unsigned soft = 0, hard = 0;         // percent
        int soft_budget = 0, hard_budget = 0;
        bool no_resubmit = false;            // only faults that do not make a write be repeated
        long long n_short = 0, n_zero = 0, n_eintr = 0, n_eagain = 0, n_submit = 0, n_wait = 0;
        long long n_hard = 0;
        std::vector<std::string> failed;     // what was to be written
        std::uint64_t shape = 0;

        bool soft_now() { if (!armed || soft_budget <= 0 || !r.chance(soft)) return false; --soft_budget; return true; }
        bool hard_now() { if (!armed || hard_budget <= 0 || !r.chance(hard)) return false; --hard_budget; return true; }
        void see(int k) { shape = shape * 37 + std::uint64_t(k) + 1; }
    };
    plan* P = nullptr;

    // --- posix: write(2) interposed -------------------------------------------
    std::atomic<dev_t> watch_dev{0};
    std::atomic<ino_t> watch_ino{0};

    bool watched(int fd)
    {
        if (!watch_ino)
            return false;
        struct stat st;
        return ::fstat(fd, &st) == 0 && st.st_ino == watch_ino && st.st_dev == watch_dev;
    }

    void watch(int fd)
    {
        struct stat st{};
        if (fd != -1)
            ::fstat(fd, &st);
        watch_dev = st.st_dev;
        watch_ino = st.st_ino;
    }

    ::ssize_t faulty_write(int fd, const void* p, std::size_t n)
    {
        if (P && n > 0 && watched(fd))
        {
            std::scoped_lock l{P->m};
            if (P->soft_now())
            {
                switch (P->r.below(3))
                {
                case 0: ++P->n_eintr; P->see(1); errno = EINTR; return -1;
                case 1: ++P->n_short; P->see(2); n = P->r.range(1, n); break;
                default:
                    // as when a signal arrives after part was written
                    ++P->n_short; P->see(3); n = (n + 1) / 2; break;
                }
            }
            else if (P->hard_now())
            {
                static constexpr int es[] = {EIO, ENOSPC, EAGAIN, EDQUOT, EFBIG};
                ++P->n_hard;
                P->see(4);
                P->failed.emplace_back(static_cast<const char*>(p), n);
                errno = es[P->r.below(5)];
                return -1;
            }
            else
                P->see(0);
        }
        return ::syscall(SYS_write, fd, p, n);
    }
}

#if !VP_ASAN && !VP_TSAN
#define VP_INTERPOSE 1
extern "C" ::ssize_t write(int fd, const void* p, std::size_t n) { return faulty_write(fd, p, n); }
#else
#define VP_INTERPOSE 0
#endif

namespace
{
    // --- io_uring: through the functions the class can be constructed with -----
    struct ring_state
    {
        std::map<std::uint64_t, int> fake;   // user_data -> result to show
    } R;

    int f_submit(io_uring* ring)
    {
        std::scoped_lock l{P->m};
        if (P->soft_now())
        {
            ++P->n_submit;
            P->see(5);
            return P->r.chance(50) ? -EAGAIN : -EINTR;
        }
        for (unsigned i = ring->sq.sqe_head; i != ring->sq.sqe_tail; ++i)
        {
            io_uring_sqe& q = ring->sq.sqes[i & *ring->sq.kring_mask];
            if (q.opcode != IORING_OP_WRITE_FIXED && q.opcode != IORING_OP_WRITE)
                continue;
            if (!P->no_resubmit && P->soft_now())
            {
                switch (P->r.below(4))
                {
                case 0: case 1:
                    ++P->n_short; P->see(6);
                    q.len = unsigned(P->r.range(1, q.len));
                    break;
                case 2:
                {
                    ++P->n_eagain; P->see(7);
                    const auto ud = q.user_data;
                    ::io_uring_prep_nop(&q);
                    q.user_data = ud;
                    R.fake[ud] = -EAGAIN;
                    break;
                }
                case 3:
                {
                    ++P->n_zero; P->see(8);
                    const auto ud = q.user_data;
                    ::io_uring_prep_nop(&q);
                    q.user_data = ud;
                    R.fake[ud] = 0;
                    break;
                }
                }
            }
            else if (P->hard_now())
            {
                ++P->n_hard; P->see(9);
                P->failed.emplace_back(reinterpret_cast<const char*>(q.addr), q.len);
                static constexpr int es[] = {EIO, ENOSPC, EDQUOT, EFBIG};
                const auto ud = q.user_data;
                ::io_uring_prep_nop(&q);
                q.user_data = ud;
                R.fake[ud] = -es[P->r.below(4)];
            }
            else
                P->see(0);
        }
        return ::io_uring_submit(ring);
    }

    int f_wait_cqe(io_uring* ring, io_uring_cqe** out)
    {
        {
            std::scoped_lock l{P->m};
            if (P->soft_now())
            {
                ++P->n_wait;
                P->see(11);
                return -EINTR;
            }
        }
        const int rc = ::io_uring_wait_cqe(ring, out);
        if (rc == 0)
        {
            std::scoped_lock l{P->m};
            const auto it = R.fake.find((*out)->user_data);
            if (it != R.fake.end() && (*out)->user_data)
            {
                (*out)->res = it->second;
                R.fake.erase(it);
            }
        }
        return rc;
    }

    struct faulty_uring : xtr::io_uring_fd_storage
    {
        faulty_uring(int fd, std::string path, std::size_t cap, std::size_t q, std::size_t b)
        : xtr::io_uring_fd_storage(fd, std::move(path), cap, q, b, f_submit, ::io_uring_get_sqe, f_wait_cqe,
              ::io_uring_sqring_wait, ::io_uring_peek_cqe)
        {
        }
    };

    // --- a custom back-end which throws -----------------------------------------
    struct thrower_state
    {
        std::string data;
        std::vector<std::string> thrown;
        bool destroyed = false;
    };

    struct my_error : std::exception
    {
        std::string w;
        explicit my_error(std::string s) : w(std::move(s)) {}
        const char* what() const noexcept override { return w.c_str(); }
    };

    // Part of the text of an exception, which is text and nothing else
    const char* tail(std::size_t n)
    {
        static const char* const t[] = {"", " {}", " {:d} %s%n", " }{", " {0} {9} {{", " %d"};
        return t[n % 6];
    }

    [[noreturn]] void throw_one(rng& r, const std::string& what)
    {
        switch (r.below(3))
        {
        case 0: throw std::runtime_error(what);
        case 1: throw my_error(what);
        default: throw std::system_error(EIO, std::generic_category(), what);
        }
    }

    class thrower : public xtr::storage_interface
    {
    public:
        thrower(std::shared_ptr<thrower_state> st, std::size_t lo, std::size_t hi, int which)
        : st_(std::move(st)), lo_(lo), hi_(hi), which_(which)
        {
        }
        ~thrower() override { st_->destroyed = true; }
        std::span<char> allocate_buffer() override
        {
            std::scoped_lock l{P->m};
            fail("allocate_buffer", 1);
            buf_.reset(new char[cap_ = P->r.range(lo_, hi_)]);
            return {buf_.get(), cap_};
        }
        void submit_buffer(char* p, std::size_t n) override
        {
            std::scoped_lock l{P->m};
            if (!buf_ || p != buf_.get() || n > cap_ || n == 0)
                violation("submit_buffer was called with a wrong buffer");
            fail("submit_buffer", 2);
            st_->data.append(p, n);
            buf_.reset();
        }
        void flush() override { std::scoped_lock l{P->m}; fail("flush", 4); }
        void sync() noexcept override {}
        int reopen() noexcept override { return 0; }

    private:
        void fail(const char* where, int bit)
        {
            P->see(bit);
            if (!(which_ & bit) || !P->hard_now())
                return;
            ++P->n_hard;
            P->see(13);
            st_->thrown.push_back(fmt::format("{} failure <{}>{}", where, st_->thrown.size(), tail(st_->thrown.size())));
            count(std::string("throws_of_") + where);
            throw_one(P->r, st_->thrown.back());
        }
        std::shared_ptr<thrower_state> st_;
        std::size_t lo_, hi_, cap_ = 0;
        int which_;
        std::unique_ptr<char[]> buf_;
    };

    // --- arguments whose formatter throws ----------------------------------------
    struct grenade
    {
        int id;
        int after;      // characters printed first
        int kind;
    };
}

template<>
struct fmt::formatter<grenade>
{
    template<typename C> constexpr auto parse(C& c) { return c.begin(); }
    template<typename C> auto format(const grenade& g, C& c) const
    {
        auto o = c.out();
        for (int i = 0; i < g.after; ++i)
            *o++ = "abc\n"[i % 4];
        rng r{std::uint64_t(g.kind)};
        throw_one(r, fmt::format("grenade <{}>{}", g.id, tail(std::size_t(g.id))));
        return o;
    }
};

namespace
{
    struct msg { int tokens; bool lost_by_formatter; int line; };

    // With a check sum, so that parts of two tokens put together are not taken
    // for a third one
    std::string token(const std::string& id) { return fmt::format("<{}.{:08x}>", id, std::uint32_t(mix(hash(id)))); }

    bool is_token(std::string_view t)
    {
        const auto e = t.rfind('.');
        return t.size() > 2 && e != t.npos && token(std::string(t.substr(1, e - 1))) == t;
    }

    // what one thread logs: tokens, each of which occurs once in all the log
    struct script
    {
        int sink;
        std::string name;
        std::vector<msg> msgs;
        std::vector<int> grenades;

        std::string text(std::size_t q) const
        {
            std::string s;
            for (int k = 0; k < msgs[q].tokens; ++k)
                s += token(fmt::format("{}.{}.{}", sink, q, k));
            return s + token(fmt::format("{}.{}.E", sink, q));
        }
    };

    constexpr std::timespec fixed{1234567890, 123456789};
    constexpr const char* fixed_text = "2009-02-13 23:31:30.123456";

    std::string line_of(const script& s, std::size_t q)
    {
        return fmt::format("I {} {} p17.cpp:{}: {}", fixed_text, s.name, s.msgs[q].line, s.text(q));
    }

    void log_one(xtr::sink& s, script& sc, rng& r, unsigned grenades)
    {
        const std::size_t q = sc.msgs.size();
        const int tokens = int(r.chance(4) ? r.range(30, 120) : r.range(0, 6));
        xtr::timespec ts(fixed);
        if (r.chance(grenades))
        {
            sc.msgs.push_back({tokens, true, 0});
            static std::atomic<int> n{0};
            const grenade g{n++, int(r.chance(50) ? 0 : r.below(300)), int(r.below(100))};
            sc.grenades.push_back(g.id);
            switch (r.below(3))
            {
            case 0: XTR_LOG_TS(s, ts, "{}{}", sc.text(q), g); break;
            case 1: XTR_LOG(s, "{}{}", g, 5); break;
            case 2: XTR_LOG_RTC(s, "{}{}", sc.text(q).c_str(), g); break;
            }
            return;
        }
        switch (r.below(3))
        {
        case 0: sc.msgs.push_back({tokens, false, __LINE__}); XTR_LOG_TS(s, ts, "{}", sc.text(q)); break;
        case 1: sc.msgs.push_back({tokens, false, __LINE__}); { const std::string t = sc.text(q); XTR_LOG_TS(s, ts, "{}", t.c_str()); } break;
        case 2: sc.msgs.push_back({0, false, __LINE__}); XTR_LOG_TS(s, ts, "<{}.{}.E.{:08x}>", sc.sink, q, std::uint32_t(mix(hash(fmt::format("{}.{}.E", sc.sink, q))))); break;
        }
    }

    // --- stderr ------------------------------------------------------------------
    struct capture
    {
        std::string path = opt.dir + "/stderr";
        int old;
        capture()
        {
            std::fflush(stderr);
            old = ::dup(2);
            const int fd = ::open(path.c_str(), O_CREAT|O_TRUNC|O_WRONLY|O_APPEND|O_CLOEXEC, 0666);
            if (fd == -1 || old == -1)
                inconclusive("cannot capture stderr");
            ::dup2(fd, 2);
            ::close(fd);
        }
        std::string finish()
        {
            if (old == -1)
                return {};
            std::fflush(stderr);
            ::dup2(old, 2);
            ::close(old);
            old = -1;
            return slurp(path);
        }
        ~capture() { finish(); }
    };

    // --- the judge ----------------------------------------------------------------
    struct verdict_in
    {
        std::string out, err, desc;
        std::vector<script>* scripts;
        plan* p;
        // messages may be lost if they have a part in a write that failed, or
        // otherwise up to this number
        long long slack;
        bool tail_may_be_cut = false;
    };

    void judge(const verdict_in& v)
    {
        auto& scripts = *v.scripts;
        // No part of a message is written twice
        std::unordered_set<std::string> tokens;
        for (std::size_t i = 0; i < v.out.size(); ++i)
        {
            if (v.out[i] != '<')
                continue;
            const auto e = v.out.find_first_of(std::string_view("<>\n\0", 4), i + 1);
            if (e == v.out.npos || v.out[e] != '>')
                continue;
            if (!is_token(std::string_view(v.out).substr(i, e - i + 1)))
                continue;
            if (!tokens.insert(v.out.substr(i, e - i + 1)).second)
                violation("%s was written twice (%s)", v.out.substr(i, e - i + 1).c_str(), v.desc.c_str());
            count("tokens_checked");
        }
        // Whole lines, in order
        std::map<std::string, std::pair<int, std::size_t>> where;
        for (std::size_t s = 0; s < scripts.size(); ++s)
            for (std::size_t q = 0; q < scripts[s].msgs.size(); ++q)
                if (!scripts[s].msgs[q].lost_by_formatter)
                    where[line_of(scripts[s], q)] = {int(s), q};
        std::vector<std::size_t> next(scripts.size(), 0);
        std::vector<std::vector<bool>> found(scripts.size());
        for (std::size_t s = 0; s < scripts.size(); ++s)
            found[s].resize(scripts[s].msgs.size());
        long long fragments = 0, dropped_lines = 0;
        std::string_view rest = v.out;
        while (!rest.empty())
        {
            const auto e = rest.find_first_of(std::string_view("\n\0", 2));
            const std::string l(rest.substr(0, e));
            const bool ended = e != rest.npos && rest[e] == '\n';
            rest.remove_prefix(e == rest.npos ? rest.size() : e + 1);
            if (l.empty() && !ended)
                continue; // a gap
            const auto it = ended ? where.find(l) : where.end();
            if (it == where.end())
            {
                ++fragments;
                if (v.p->n_hard == 0)
                    violation("a line that was not logged, or not so: \"%s\" (%s)", quote(l).c_str(), v.desc.c_str());
                continue;
            }
            const auto [s, q] = it->second;
            if (q < next[std::size_t(s)])
                violation("message %zu of %s is after message %zu (%s)", q, scripts[std::size_t(s)].name.c_str(), next[std::size_t(s)] - 1, v.desc.c_str());
            next[std::size_t(s)] = q + 1;
            found[std::size_t(s)][q] = true;
            count("messages_checked");
        }
        // What is missing has to be explained
        std::set<std::pair<int, std::size_t>> concerned;
        for (auto& f : v.p->failed)
            for (std::size_t i = f.find('<'); i != f.npos; i = f.find('<', i + 1))
            {
                unsigned s = 0, q = 0;
                if (std::sscanf(f.c_str() + i, "<%u.%u.", &s, &q) == 2)
                    concerned.insert({int(s), q});
            }
        long long unexplained = 0;
        std::string example;
        for (std::size_t s = 0; s < scripts.size(); ++s)
            for (std::size_t q = 0; q < found[s].size(); ++q)
            {
                if (scripts[s].msgs[q].lost_by_formatter)
                {
                    if (found[s][q])
                        violation("internal: message without text found");
                    continue;
                }
                if (found[s][q])
                    continue;
                ++dropped_lines;
                if (concerned.count({scripts[s].sink, q}))
                    continue;
                ++unexplained;
                example = line_of(scripts[s], q);
            }
        if (unexplained > v.slack)
            violation("%lld messages are lost which were not concerned by the %lld errors, e.g. \"%s\" (%s)",
                unexplained, v.p->n_hard, quote(example).c_str(), v.desc.c_str());
        if (v.p->n_hard && v.err.empty())
            violation("errors occurred but nothing was printed to stderr (%s)", v.desc.c_str());
        for (auto& s : scripts)
            for (int g : s.grenades)
            {
                const auto t = fmt::format("grenade <{}>{}", g, tail(std::size_t(g)));
                const auto at = v.err.find(t);
                if (at == v.err.npos)
                    violation("a formatter threw \"%s\", which was not printed to stderr (%s)", t.c_str(), v.desc.c_str());
                if (v.err.find(t, at + 1) != v.err.npos)
                    violation("a formatter threw \"%s\", which was printed to stderr twice (%s)", t.c_str(), v.desc.c_str());
                count("formatter_errors_checked");
            }
        count("messages_lost_to_errors", dropped_lines);
        count("fragments", fragments);
        count("short_writes", v.p->n_short);
        count("empty_writes", v.p->n_zero);
        count("interrupted_writes", v.p->n_eintr);
        count("eagain_writes", v.p->n_eagain);
        count("failed_submissions", v.p->n_submit);
        count("interrupted_waits", v.p->n_wait);
        count("hard_errors", v.p->n_hard);
        std::uint64_t h = hash(v.desc) ^ v.p->shape;
        note_distinct(h);
    }

    // Threads log while faults are armed; then, with no more faults, more
    // messages are logged which have all to arrive
    struct run_options
    {
        unsigned grenades = 0;
        int threads = 1;
        int n = 100;
    };

    void drive(xtr::logger& log, plan& p, std::vector<script>& scripts, rng& r, const run_options& o)
    {
        std::vector<xtr::sink> sinks;
        sinks.reserve(std::size_t(o.threads));
        for (int t = 0; t < o.threads; ++t)
        {
            scripts.push_back({t, "s" + std::to_string(t), {}, {}});
            sinks.push_back(log.get_sink(scripts.back().name));
        }
        { std::scoped_lock l{p.m}; p.armed = true; }
        std::vector<std::thread> ts;
        for (int t = 0; t < o.threads; ++t)
            ts.emplace_back([&, t, q = rng(r())]() mutable {
                for (int i = 0; i < o.n; ++i)
                {
                    log_one(sinks[std::size_t(t)], scripts[std::size_t(t)], q, o.grenades);
                    if (q.chance(3))
                        sinks[std::size_t(t)].sync();
                    if (q.chance(5))
                        ::usleep(useconds_t(q.below(300)));
                }
                if (q.chance(50))
                    sinks[std::size_t(t)].sync();
            });
        for (auto& t : ts)
            t.join();
        { std::scoped_lock l{p.m}; p.armed = false; }
        for (int t = 0; t < o.threads; ++t)
            for (int i = 0; i < 3; ++i)
                log_one(sinks[std::size_t(t)], scripts[std::size_t(t)], r, 0);
        for (auto& s : sinks)
            s.sync();
    }

    // the last messages, logged after the errors, must be there
    void check_last(const std::string& out, std::vector<script>& scripts, const std::string& desc)
    {
        for (auto& s : scripts)
            for (std::size_t k = 1; k <= 3; ++k)
            {
                const std::string l = line_of(s, s.msgs.size() - k) + "\n";
                if (out.find(l) == out.npos)
                    violation("message \"%s\", logged after the last error, was not delivered (%s)", quote(l).c_str(), desc.c_str());
            }
    }

    int open_log(const std::string& path, int flags)
    {
        const int fd = ::open(path.c_str(), O_CREAT|O_TRUNC|O_RDWR|O_CLOEXEC|flags, 0666);
        if (fd == -1)
            inconclusive("open failed");
        return fd;
    }

    struct pipe_reader
    {
        int rd = -1, wr = -1;
        std::string data;
        std::thread t;
        pipe_reader(rng& r)
        {
            int p[2];
            if (::pipe2(p, O_CLOEXEC) != 0)
                inconclusive("pipe failed");
            rd = p[0];
            wr = p[1];
            ::fcntl(wr, F_SETPIPE_SZ, 4096);
            t = std::thread([this, q = rng(r())]() mutable {
                perturb_thread_off(true);
                std::vector<char> b(8192);
                for (int i = 0;; ++i)
                {
                    const auto n = ::read(rd, b.data(), q.range(1, b.size()));
                    if (n == 0)
                        break;
                    if (n < 0)
                    {
                        if (errno == EINTR)
                            continue;
                        break;
                    }
                    data.append(b.data(), std::size_t(n));
                    if (i < 200)
                        ::usleep(useconds_t(q.below(150)));
                }
            });
        }
        // once the logger is gone
        std::string finish()
        {
            if (wr != -1)
                ::close(wr);
            wr = -1;
            t.join();
            ::close(rd);
            return std::move(data);
        }
    };

    std::atomic<long long> signals{0};
    void on_signal(int) { ++signals; }

    // A write which is repeated while later writes to a file opened for appending
    // are already in flight
    void repeated_append()
    {
        plan p;
        P = &p;
        R = {};
        static int n_subs;
        n_subs = 0;
        struct once
        {
            static int submit(io_uring* ring)
            {
                for (unsigned i = ring->sq.sqe_head; i != ring->sq.sqe_tail; ++i)
                {
                    io_uring_sqe& q = ring->sq.sqes[i & *ring->sq.kring_mask];
                    if (q.opcode == IORING_OP_WRITE_FIXED && n_subs++ == 0)
                        q.len /= 2;
                }
                return ::io_uring_submit(ring);
            }
        };
        struct storage : xtr::io_uring_fd_storage
        {
            explicit storage(int fd)
            : xtr::io_uring_fd_storage(fd, "", 64, 4, 4, once::submit, ::io_uring_get_sqe, ::io_uring_wait_cqe, ::io_uring_sqring_wait, ::io_uring_peek_cqe)
            {
            }
        };
        const std::string path = opt.dir + "/log";
        const int fd = open_log(path, O_APPEND);
        std::string want;
        {
            storage st(fd);
            for (int k = 0; k < 8; ++k)
            {
                auto b = st.allocate_buffer();
                std::memset(b.data(), 'a' + k, b.size());
                want.append(b.data(), b.size());
                st.submit_buffer(b.data(), b.size());
            }
            st.flush();
            st.sync();
        }
        ::close(fd);
        const std::string out = slurp(path);
        ::unlink(path.c_str());
        if (out != want)
        {
            // nothing may be lost or repeated all the same
            std::string a = out, b = want;
            std::sort(a.begin(), a.end());
            std::sort(b.begin(), b.end());
            if (a != b)
                violation("a short write to a file opened for appending lost or repeated something");
            finding("io_uring-append-reordered", "the rest of a short write was written after the writes which followed it");
        }
        count("repeated_appends");
        P = nullptr;
    }

    void one(rng& r, int i)
    {
        if (i == 0)
            repeated_append();
        plan p;
        p.r = rng(r());
        P = &p;
        R = {};
        std::vector<script> scripts;
        run_options o;
        o.threads = int(r.range(1, 3));
        o.n = int(r.range(10, opt.thorough ? 300 : 120));
        o.grenades = unsigned(r.chance(30) ? r.range(1, 30) : 0);
        const std::string path = opt.dir + "/log";
        static constexpr std::size_t caps[] = {1, 20, 64, 100, 333, 1000, 4096, 65536};
        using clock = std::chrono::system_clock;
        capture cap;
        verdict_in v;
        v.scripts = &scripts;
        v.p = &p;
        v.slack = 0;

        const auto kind = r.below(10);
        const bool hard = r.chance(40);
        p.soft = unsigned(r.range(1, 60));
        p.soft_budget = int(r.range(1, 300));
        if (hard)
        {
            p.hard = unsigned(r.range(1, 30));
            p.hard_budget = int(r.range(1, r.chance(50) ? 3 : 30));
        }

        if (kind < 2 && VP_INTERPOSE)
        {
            const std::size_t c = caps[r.below(8)];
            v.desc = fmt::format("posix storage, buffer of {} bytes{}", c, hard ? ", hard errors" : "");
            const int fd = open_log(path, r.chance(50) ? O_APPEND : 0);
            watch(fd);
            {
                xtr::logger log(std::make_unique<xtr::posix_fd_storage>(fd, path, c), clock(), xtr::null_command_path);
                drive(log, p, scripts, r, o);
            }
            watch(-1);
            ::close(fd);
            v.out = slurp(path);
            // the one which could not be put in a buffer
            v.slack = p.n_hard;
            count("posix_cases");
        }
        else if (kind < 5)
        {
            static constexpr std::size_t qs[] = {1, 2, 4, 16, 64};
            static constexpr std::size_t bs[] = {1, 2, 3, 8, 32};
            const std::size_t c = caps[r.range(2, 7)], q = qs[r.below(5)], b = bs[r.below(5)];
            const auto target = r.below(3);
            const bool append = target == 1;
            // see KNOWN_FINDINGS.txt
            p.no_resubmit = append && q > 1;
            v.desc = fmt::format("io_uring storage ({}, {}, {}) on a {}{}", c, q, b, target == 0 ? "file" : target == 1 ? "file opened for appending" : "pipe", hard ? ", hard errors" : "");
            std::optional<pipe_reader> pr;
            if (target == 2)
                pr.emplace(r);
            const int fd = pr ? ::dup(pr->wr) : open_log(path, append ? O_APPEND : 0);
            {
                xtr::logger log(std::make_unique<faulty_uring>(fd, path, c, q, b), clock(), xtr::null_command_path);
                ::close(fd);
                drive(log, p, scripts, r, o);
            }
            v.out = pr ? pr->finish() : slurp(path);
            // those of which only the start or the end is in a failed write
            v.slack = 2 * p.n_hard;
            count("io_uring_cases");
        }
        else if (kind < 8 || !VP_INTERPOSE && kind < 9)
        {
            p.soft_budget = 0;
            const int which = int(r.chance(60) ? 7 : 1 << r.below(3));
            static constexpr std::size_t szs[][2] = {{1, 1}, {1, 3}, {1, 200}, {64, 64}, {4096, 4096}, {100, 20000}};
            const auto* sz = szs[r.below(6)];
            p.hard = unsigned(r.range(1, 50));
            p.hard_budget = int(r.range(1, r.chance(50) ? 4 : 60));
            v.desc = fmt::format("throwing back-end ({}), buffers of {} to {} bytes", which, sz[0], sz[1]);
            auto st = std::make_shared<thrower_state>();
            {
                xtr::logger log(std::make_unique<thrower>(st, sz[0], sz[1], which), clock(), xtr::null_command_path);
                drive(log, p, scripts, r, o);
            }
            v.out = st->data;
            v.slack = p.n_hard;
            v.err = cap.finish();
            for (auto& t : st->thrown)
                if (v.err.find(t) == v.err.npos)
                    violation("\"%s\" was thrown but not printed to stderr (%s)", t.c_str(), v.desc.c_str());
            count("backend_exceptions_checked", (long long)st->thrown.size());
            if (!st->destroyed)
                violation("the back-end was not destroyed");
            count("throwing_backend_cases");
            // Exceptions lose whole messages only
            bool complete = false;
            for (auto l : split_lines(v.out, &complete))
                if (const auto x = parse_line(l); !x.ok || x.rest.size() < 12 || x.rest.substr(x.rest.size() - 12, 3) != ".E.")
                    violation("a line was torn: \"%s\" (%s)", quote(l).c_str(), v.desc.c_str());
            if (!complete)
                violation("the last line was torn (%s)", v.desc.c_str());
        }
        else if (kind < 9)
        {
            // nothing can ever be written
            const bool ring = r.chance(50);
            v.desc = fmt::format("/dev/full with {}", ring ? "io_uring" : "posix");
            const int fd = ::open("/dev/full", O_WRONLY|O_CLOEXEC);
            if (fd == -1)
                inconclusive("/dev/full cannot be opened");
            {
                std::unique_ptr<xtr::storage_interface> st;
                if (ring)
                    st = std::make_unique<xtr::io_uring_fd_storage>(fd, path, 100, 4, 2);
                else
                    st = std::make_unique<xtr::posix_fd_storage>(fd, path, 100);
                xtr::logger log(std::move(st), clock(), xtr::null_command_path);
                drive(log, p, scripts, r, o);
            }
            ::close(fd);
            v.err = cap.finish();
            if (v.err.empty())
                violation("all writes failed but nothing was printed to stderr (%s)", v.desc.c_str());
            count("always_failing_cases");
            P = nullptr;
            return;
        }
        else
        {
            // real signals while writing to a pipe
            p.soft_budget = p.hard_budget = 0;
            struct sigaction sa{}, old{};
            sa.sa_handler = on_signal;
            ::sigaction(SIGUSR1, &sa, &old);
            pipe_reader pr(r);
            const bool ring = r.chance(50);
            const std::size_t c = caps[r.range(2, 7)];
            v.desc = fmt::format("signals with {} ({} bytes) on a pipe", ring ? "io_uring" : "posix", c);
            {
                std::unique_ptr<xtr::storage_interface> st;
                if (ring)
                    st = std::make_unique<xtr::io_uring_fd_storage>(pr.wr, path, c, 4, 2);
                else
                    st = std::make_unique<xtr::posix_fd_storage>(pr.wr, path, c);
                xtr::logger log(std::move(st), clock(), xtr::null_command_path);
                const pthread_t th = log.consumer_thread_native_handle();
                std::atomic<bool> stop{false};
                std::thread killer([&, q = rng(r())]() mutable {
                    while (!stop)
                    {
                        ::pthread_kill(th, SIGUSR1);
                        ::usleep(useconds_t(q.below(400)));
                    }
                });
                drive(log, p, scripts, r, o);
                stop = true;
                killer.join();
            }
            v.out = pr.finish();
            ::sigaction(SIGUSR1, &old, nullptr);
            count("signal_cases");
            count("signals", signals.exchange(0));
        }
        if (v.err.empty())
            v.err = cap.finish();
        judge(v);
        check_last(v.out, scripts, v.desc);
        P = nullptr;
        ::unlink(path.c_str());
    }
}

int main(int argc, char** argv)
{
    parse_args(argc, argv);
#if VP_ASAN || VP_TSAN
    __sanitizer_set_report_fd(reinterpret_cast<void*>(std::intptr_t(saved_stderr)));
#endif
    return run_cases(one);
}
