// P19: messages reach the output without anything else being done
#include "cmd.hpp"

#include <algorithm>
using namespace vp;

namespace
{
    // Where messages become visible to others
    struct target
    {
        int kind;
        std::string path, desc;
        std::shared_ptr<mem_state> mem;
        std::mutex m;
        std::string piped;
        int rd = -1;
        std::thread reader;
        std::unique_ptr<xtr::logger> log;

        target(rng& r, const std::string& cmd)
        {
            using clock = std::chrono::system_clock;
            path = opt.dir + "/log";
            ::unlink(path.c_str());
            kind = int(r.below(6));
            static constexpr std::size_t szs[] = {64, 200, 4096, 65536};
            static constexpr std::size_t qs[] = {1, 2, 8, 64};
            static constexpr std::size_t bs[] = {1, 2, 8, 32};
            const std::size_t sz = szs[r.below(4)], q = qs[r.below(4)], b = bs[r.below(4)];
            switch (kind)
            {
            case 0: case 1:
            {
                mem = std::make_shared<mem_state>();
                desc = fmt::format("memory, {} byte buffers", sz);
                log = std::make_unique<xtr::logger>(std::make_unique<mem_storage>(mem, r(), sz, sz), clock(), cmd);
                break;
            }
            case 2: case 3:
            {
                const int fd = ::open(path.c_str(), O_CREAT|O_TRUNC|O_RDWR|O_CLOEXEC|(r.chance(50) ? O_APPEND : 0), 0666);
                if (fd == -1)
                    inconclusive("open failed");
                if (kind == 2)
                {
                    desc = fmt::format("posix, {} byte buffer", sz);
                    log = std::make_unique<xtr::logger>(std::make_unique<xtr::posix_fd_storage>(fd, path, sz), clock(), cmd);
                }
                else
                {
                    desc = fmt::format("io_uring({}, {}, {})", sz, q, b);
                    log = std::make_unique<xtr::logger>(std::make_unique<xtr::io_uring_fd_storage>(fd, path, sz, q, b), clock(), cmd);
                }
                ::close(fd);
                break;
            }
            case 4:
                desc = "logger(path)";
                log = std::make_unique<xtr::logger>(path.c_str(), clock(), cmd);
                break;
            case 5:
            {
                int p[2];
                if (::pipe2(p, O_CLOEXEC))
                    inconclusive("pipe failed");
                rd = p[0];
                reader = std::thread([this] {
                    perturb_thread_off(true);
                    std::vector<char> b(65536);
                    for (;;)
                    {
                        const auto n = ::read(rd, b.data(), b.size());
                        if (n <= 0)
                            break;
                        std::scoped_lock l{m};
                        piped.append(b.data(), std::size_t(n));
                    }
                });
                desc = "pipe";
                if (r.chance(50))
                    log = std::make_unique<xtr::logger>(xtr::make_fd_storage(p[1]), clock(), cmd);
                else
                    log = std::make_unique<xtr::logger>(std::make_unique<xtr::posix_fd_storage>(p[1], "", sz), clock(), cmd);
                ::close(p[1]);
                break;
            }
            }
            count("backend_" + desc.substr(0, desc.find_first_of(",( ")));
        }

        ~target()
        {
            log.reset();
            if (reader.joinable())
                reader.join();
            if (rd != -1)
                ::close(rd);
            ::unlink(path.c_str());
        }

        // flushed
        std::string visible()
        {
            if (mem)
            {
                std::scoped_lock l{mem->m};
                return mem->data.substr(0, mem->flushed);
            }
            if (reader.joinable())
            {
                std::scoped_lock l{m};
                return piped;
            }
            return slurp(path);
        }
    };

    std::size_t lines(const std::string& s) { return std::size_t(std::count(s.begin(), s.end(), '\n')); }

    void burst(xtr::sink& s, rng& r, int n, std::atomic<long long>& logged)
    {
        for (int i = 0; i < n; ++i)
        {
            switch (r.below(4))
            {
            case 0: XTR_LOG(s, "m {}", i); break;
            case 1: XTR_LOG(s, "m {}", std::string(r.below(r.chance(10) ? 1500 : 40), 'x')); break;
            case 2: XTR_LOG_TSC(s, "m"); break;
            case 3: XTR_LOGL(error, s, "m {}", i); break;
            }
            ++logged;
        }
    }

    // Bursts, each followed by nothing
    void quiet(rng& r)
    {
        const std::string cmd = r.chance(40) ? cmd_path() : std::string(xtr::null_command_path);
        target t(r, cmd);
        std::atomic<long long> logged{0};
        static constexpr unsigned counts[] = {1, 2, 3, 8, 30};
        std::vector<std::unique_ptr<xtr::sink>> sinks;
        for (auto n = counts[r.below(5)]; n > 0; --n)
            sinks.emplace_back(new xtr::sink(t.log->get_sink("s" + std::to_string(n))));
        const int rounds = int(r.range(1, 12));
        std::string what;
        for (int k = 0; k < rounds; ++k)
        {
            what.clear();
            std::vector<std::thread> ts;
            const int n_threads = int(r.range(1, 3));
            for (int i = 0; i < n_threads && i < int(sinks.size()); ++i)
                ts.emplace_back([&, i, q = rng(r())]() mutable {
                    auto& s = sinks[std::size_t(i)];
                    burst(*s, q, int(q.chance(60) ? 1 : q.range(2, 60)), logged);
                    // what happens to the sink directly afterwards
                    switch (q.below(9))
                    {
                    case 0: s->close(); break;
                    case 1: s.reset(new xtr::sink); break;
                    case 2: s->set_name("renamed"); break;
                    case 3: { xtr::sink copy(*s); burst(copy, q, 1, logged); } break;
                    case 4: s->set_level(xtr::log_level_t::debug); break;
                    case 5: { xtr::sink copy(*s); } break;
                    case 6: *s = xtr::sink(*s); break;
                    default: break;
                    }
                });
            for (auto& x : ts)
                x.join();
            switch (r.below(6))
            {
            case 0: sinks.emplace_back(new xtr::sink(t.log->get_sink("new"))); what += " after a new sink"; break;
            case 1: if (!cmd.empty()) { (void)cmd_status(cmd); what += " after a status command"; } break;
            case 2: if (!cmd.empty()) { (void)cmd_level(cmd, xtr::log_level_t::info); what += " after a level command"; } break;
            case 3: if (sinks.size() > 1) { sinks.pop_back(); what += " after an idle sink was destroyed"; } break;
            default: break;
            }
            const double t0 = now_s();
            std::size_t n = 0;
            if (!eventually([&] { return (n = lines(t.visible())) >= std::size_t(logged); }))
                violation("%zu of %lld messages are in the output though the logger was left alone for %.0f s%s (%s, %zu sinks)",
                    n, logged.load(), now_s() - t0, what.c_str(), t.desc.c_str(), sinks.size());
            if (n > std::size_t(logged))
                violation("more lines than messages");
            maximum("longest_wait_us", (long long)((now_s() - t0) * 1e6));
            count("quiet_rounds_checked");
            count("messages_awaited", logged);
            for (auto& s : sinks)
                if (!s->is_open())
                    t.log->register_sink(*s, "again");
        }
        note_distinct(hash(t.desc) ^ mix(std::uint64_t(logged)) ^ sinks.size());
        // the logger is destroyed after its sinks
        sinks.clear();
    }

    // Keeps only what the probes wrote
    struct probe_state
    {
        std::atomic<long long> probes{0}, bytes{0};
    };

    class probe_storage : public xtr::storage_interface
    {
    public:
        probe_storage(std::shared_ptr<probe_state> st, std::size_t n) : st_(std::move(st)), b_(n) {}
        std::span<char> allocate_buffer() override { return b_; }
        void submit_buffer(char* p, std::size_t n) override
        {
            st_->bytes += (long long)n;
            tail_.append(p, n);
            for (std::size_t at = 0; (at = tail_.find("PROBE", at)) != tail_.npos; at += 5)
                ++st_->probes;
            // what a probe cut in two could begin in
            const std::size_t keep = std::min<std::size_t>(tail_.size(), 4);
            std::string x = tail_.substr(tail_.size() - keep);
            tail_.swap(x);
        }
        void flush() override {}
        void sync() noexcept override {}
        int reopen() noexcept override { return 0; }

    private:
        std::shared_ptr<probe_state> st_;
        std::vector<char> b_;
        std::string tail_;
    };

    // Other sinks always have something to log
    void busy(rng& r)
    {
        auto st = std::make_shared<probe_state>();
        const std::string cmd = cmd_path();
        static constexpr std::size_t szs[] = {64, 4096, 65536};
        xtr::logger log(std::make_unique<probe_storage>(st, szs[r.below(3)]), std::chrono::system_clock(), cmd);
        const int n_idle = int(r.chance(50) ? r.below(4) : r.below(60));
        std::vector<xtr::sink> idle;
        idle.reserve(std::size_t(n_idle));
        const bool probe_first = r.chance(50);
        std::optional<xtr::sink> probe;
        if (probe_first)
            probe.emplace(log.get_sink("probe"));
        for (int i = 0; i < n_idle; ++i)
            idle.push_back(log.get_sink("idle"));
        std::atomic<bool> stop{false};
        std::atomic<long long> n_busy{0};
        std::vector<std::thread> ts;
        const int n_threads = int(r.range(1, 3));
        for (int i = 0; i < n_threads; ++i)
            ts.emplace_back([&, q = rng(r())]() mutable {
                auto s = log.get_sink("busy");
                const std::size_t len = q.below(300);
                const auto kind = q.below(3);
                while (!stop)
                {
                    for (int k = 0; k < 20; ++k)
                        if (kind == 0)
                            XTR_LOG(s, "{}", k);
                        else if (kind == 1)
                            XTR_LOG(s, "{}", std::string(len, 'b'));
                        else
                            XTR_TRY_LOG(s, "{} {}", k, len);
                    n_busy += 20;
                }
            });
        if (!probe)
            probe.emplace(log.get_sink("probe"));
        std::atomic<bool> done{false};
        long long want = 0;
        const int rounds = int(r.range(1, 6));
        for (int k = 0; k < rounds; ++k)
        {
            const int n = int(r.range(1, 5));
            std::thread th([&] {
                for (int i = 0; i < n; ++i)
                    XTR_LOG(*probe, "PROBE");
            });
            want += n;
            const double t0 = now_s();
            const bool arrived = eventually([&] { return st->probes >= want; });
            if (!arrived)
                violation("%lld of %lld messages were written after %.0f s while other sinks are busy (%lld messages, %lld bytes)", st->probes.load(), want, now_s() - t0, n_busy.load(), st->bytes.load());
            th.join();
            maximum("longest_wait_while_busy_us", (long long)((now_s() - t0) * 1e6));
            count("busy_rounds_checked");
            // sync, renaming, closing and commands are not kept waiting either
            switch (r.below(5))
            {
            case 0: probe->sync(); count("syncs_while_busy"); break;
            case 1:
            {
                const auto a = cmd_status(cmd, xd::pattern_type_t::wildcard, "probe");
                if (!a.eof || a.r.size() != 1)
                    violation("a status command was not answered while sinks are busy: %s", a.str().c_str());
                count("commands_while_busy");
                break;
            }
            case 2: probe->close(); log.register_sink(*probe, "probe"); break;
            case 3: { xtr::sink c(*probe); XTR_LOG(c, "PROBE"); ++want; } break;
            default: break;
            }
        }
        stop = true;
        for (auto& t : ts)
            t.join();
        note_distinct(mix(std::uint64_t(st->bytes)));
        count("busy_messages", n_busy);
    }

    // Sinks come and go all the time
    void churn(rng& r)
    {
        target t(r, xtr::null_command_path);
        std::atomic<long long> logged{0};
        const int rounds = int(r.range(1, 4));
        std::vector<xtr::sink> idle;
        idle.reserve(20);
        for (auto n = r.below(20); n > 0; --n)
            idle.push_back(t.log->get_sink("idle"));
        for (int k = 0; k < rounds; ++k)
        {
            std::vector<std::thread> ts;
            const int n_threads = int(r.range(1, 4));
            for (int i = 0; i < n_threads; ++i)
                ts.emplace_back([&, q = rng(r())]() mutable {
                    for (auto n = q.range(1, 30); n > 0; --n)
                    {
                        auto s = t.log->get_sink("c");
                        if (q.chance(70))
                            burst(s, q, int(q.range(1, 4)), logged);
                        if (q.chance(30))
                            s.close();
                    }
                });
            for (auto& x : ts)
                x.join();
            std::size_t n = 0;
            if (!eventually([&] { return (n = lines(t.visible())) >= std::size_t(logged); }))
                violation("%zu of %lld messages are in the output though the logger was left alone after sinks were closed (%s)", n, logged.load(), t.desc.c_str());
            count("churn_rounds_checked");
            count("messages_awaited", logged);
        }
        note_distinct(hash(t.desc) ^ mix(std::uint64_t(logged)) ^ 77);
    }

    void one(rng& r, int)
    {
        const auto k = r.below(10);
        if (k < 6)
            quiet(r);
        else if (k < 8)
            busy(r);
        else
            churn(r);
    }
}

int main(int argc, char** argv)
{
    parse_args(argc, argv);
    return run_cases(one);
}
