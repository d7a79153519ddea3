// P16: how a custom back-end is called
#include "cmd.hpp"
#include "engine.hpp"

#include <algorithm>
#include <csignal>
#include <sys/mman.h>
using namespace vp;

namespace
{
    // What the back-end has seen. Outlives it.
    struct seen
    {
        std::mutex m;
        std::string data;            // submitted
        bool outstanding = false;
        bool flushed = true;         // a flush since the last submission
        bool destroyed = false;
        long long allocs = 0, submits = 0, flushes = 0, syncs = 0, reopens = 0;
        int reopen_result = 0;
        std::atomic<int> inside{0};
        std::atomic<bool> have_thread{false};
        pthread_t expected{};
        std::uint64_t shape = 0;
    };

    // Buffers are the last bytes before an inaccessible page, and become
    // inaccessible themselves when they are submitted
    struct region
    {
        char* base = nullptr;
        std::size_t bytes = 0;
        explicit region(std::size_t n) : bytes(n)
        {
            void* p = ::mmap(nullptr, n + 8192, PROT_NONE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
            if (p == MAP_FAILED)
                inconclusive("mmap failed");
            base = static_cast<char*>(p) + 4096;
        }
        ~region() { ::munmap(base - 4096, bytes + 8192); }
        region(const region&) = delete;
        void open() { if (::mprotect(base, bytes, PROT_READ|PROT_WRITE)) inconclusive("mprotect failed"); }
        void shut() { if (::mprotect(base, bytes, PROT_NONE)) inconclusive("mprotect failed"); }
    };

    std::atomic<bool> ranges_on{false};
    struct { std::atomic<char*> a, b; } ranges[64];
    std::atomic<int> n_ranges{0};

    void on_fault(int sig, siginfo_t* si, void*)
    {
        char* p = static_cast<char*>(si->si_addr);
        for (int i = 0; i < n_ranges.load(); ++i)
            if (p >= ranges[i].a && p < ranges[i].b)
                violation("memory outside of the allocated buffer, or of a submitted one, was accessed");
        ::signal(sig, SIG_DFL);
    }

    class strict : public xtr::storage_interface
    {
    public:
        strict(std::shared_ptr<seen> s, rng r, std::size_t lo, std::size_t hi, unsigned slow)
        : s_(std::move(s)), r_(r), lo_(lo), hi_(hi), slow_(slow)
        {
            n_ranges = 0;
            for (int i = 0; i < 4; ++i)
            {
                pool_.emplace_back(new region((hi + 4096 + 4095) / 4096 * 4096));
                ranges[i].a = pool_.back()->base - 4096;
                ranges[i].b = pool_.back()->base + pool_.back()->bytes + 4096;
                n_ranges = i + 1;
            }
        }

        ~strict() override
        {
            call c(*this, "the destructor", false);
            std::scoped_lock l{s_->m};
            if (s_->outstanding)
                violation("the back-end was destroyed before a buffer was submitted");
            if (!s_->flushed)
                violation("the back-end was destroyed without a flush after the last submission");
            s_->destroyed = true;
            n_ranges = 0;
        }

        std::span<char> allocate_buffer() override
        {
            call c(*this, "allocate_buffer");
            std::scoped_lock l{s_->m};
            if (s_->outstanding)
                violation("a buffer was allocated while another one was outstanding");
            s_->outstanding = true;
            ++s_->allocs;
            cap_ = r_.range(lo_, hi_);
            cur_ = pool_[std::size_t(s_->allocs) % pool_.size()].get();
            cur_->open();
            ptr_ = cur_->base + cur_->bytes - cap_;
            fill_ = static_cast<unsigned char>(r_());
            std::memset(cur_->base, fill_, cur_->bytes);
            return {ptr_, cap_};
        }

        void submit_buffer(char* p, std::size_t n) override
        {
            call c(*this, "submit_buffer");
            std::scoped_lock l{s_->m};
            if (!s_->outstanding)
                violation("a buffer was submitted that was not allocated, or was submitted before");
            if (p != ptr_)
                violation("a buffer was submitted with a wrong pointer (%td bytes off)", p - ptr_);
            if (n == 0 || n > cap_)
                violation("a buffer of %zu bytes was submitted with size %zu", cap_, n);
            for (char* q = cur_->base; q < ptr_; ++q)
                if (static_cast<unsigned char>(*q) != fill_)
                    violation("memory before the allocated buffer was written");
            for (char* q = ptr_ + n; q < ptr_ + cap_; ++q)
                if (static_cast<unsigned char>(*q) != fill_)
                    violation("a buffer was submitted with size %zu, but byte %td was written", n, q - ptr_);
            s_->data.append(p, n);
            ++s_->submits;
            s_->outstanding = false;
            s_->flushed = false;
            cur_->shut();
            ptr_ = nullptr;
        }

        void flush() override
        {
            call c(*this, "flush");
            std::scoped_lock l{s_->m};
            ++s_->flushes;
            s_->flushed = true;
        }

        void sync() noexcept override
        {
            call c(*this, "sync");
            std::scoped_lock l{s_->m};
            settled("sync");
            ++s_->syncs;
        }

        int reopen() noexcept override
        {
            call c(*this, "reopen");
            std::scoped_lock l{s_->m};
            settled("reopen");
            ++s_->reopens;
            return s_->reopen_result;
        }

    private:
        struct call
        {
            strict& x;
            call(strict& s, const char* what, bool thread = true) : x(s)
            {
                if (s.s_->inside.exchange(1) != 0)
                    violation("%s was called while another call was being made", what);
                if (s.s_->destroyed)
                    violation("%s was called after the back-end was destroyed", what);
                if (thread && s.s_->have_thread && !::pthread_equal(::pthread_self(), s.s_->expected))
                    violation("%s was called from a thread that is not the logger's", what);
                s.s_->shape = s.s_->shape * 31 + static_cast<unsigned char>(what[0]);
                count("calls_checked");
                // for at most 0.2 s in total
                if (s.slow_ && s.slept_ < 200000 && s.r_.chance(s.slow_))
                {
                    const auto us = useconds_t(s.r_.below(s.r_.chance(5) ? 2000 : 150));
                    s.slept_ += us + 60;
                    ::usleep(us);
                }
            }
            ~call() { x.s_->inside = 0; }
        };

        void settled(const char* what)
        {
            if (s_->outstanding)
                violation("%s was called before a buffer with data was submitted", what);
            if (!s_->flushed)
                violation("%s was called without a flush after the last submission", what);
        }

        std::shared_ptr<seen> s_;
        rng r_;
        std::size_t lo_, hi_, cap_ = 0;
        unsigned slow_;
        long slept_ = 0;
        unsigned char fill_ = 0;
        char* ptr_ = nullptr;
        region* cur_ = nullptr;
        std::vector<std::unique_ptr<region>> pool_;
    };

    void one(rng& r, int)
    {
        const std::string path = cmd_path();
        auto s = std::make_shared<seen>();
        static constexpr std::size_t szs[][2] = {{1, 1}, {1, 3}, {1, 200}, {50, 64}, {4096, 4096}, {1, 20000}, {65536, 65536}};
        // with big queues there are big messages, too many for tiny buffers
        const auto* sz = szs[XTR_SINK_CAPACITY > 10000 ? r.range(2, 6) : r.below(7)];
        workload wl;
        std::string desc = fmt::format("buffers of {} to {} bytes", sz[0], sz[1]);
        std::atomic<long long> reopens{0}, syncs{0};
        std::atomic<bool> stop{false};
        const bool early = r.chance(25);
        {
            auto log = std::make_unique<xtr::logger>(
                std::make_unique<strict>(s, rng(r()), sz[0], sz[1], unsigned(r.chance(50) ? 0 : r.chance(50) ? 3 : 30)),
                std::chrono::system_clock(), path);
            s->expected = log->consumer_thread_native_handle();
            s->have_thread = true;
            std::vector<std::vector<owned>> sinks(r.range(1, 3));
            for (auto& v : sinks)
                v.push_back(make_owned(wl, *log, r));
            profile p;
            p.sync = unsigned(r.below(12));
            p.pause = unsigned(r.below(30));
            p.may_register = !early;
            std::vector<std::thread> ts;
            const int n = int(r.range(5, sz[1] < 10 ? 40 : 150));
            xtr::logger& lg = *log;
            for (auto& v : sinks)
                ts.emplace_back([&wl, &lg, &v, &p, n, early, q = rng(r())] {
                    run_program(wl, lg, v, q, n, p);
                    if (early)
                        v.clear();
                });
            std::thread client;
            if (!early)
                client = std::thread([&, q0 = rng(r())] {
                    rng q = q0;
                    for (int k = 0; !stop || k < 3; ++k)
                    {
                        ::usleep(useconds_t(q.below(1500)));
                        switch (q.below(3))
                        {
                        case 0: (void)cmd_status(path); break;
                        case 1: (void)cmd_level(path, xtr::log_level_t::info); break;
                        case 2:
                        {
                            static constexpr int es[] = {0, 0, EBADF, ENOSPC, EACCES};
                            const int e = es[q.below(5)];
                            long long before;
                            {
                                std::scoped_lock l{s->m};
                                s->reopen_result = e;
                                before = s->reopens;
                            }
                            const auto a = cmd_reopen(path);
                            if (e == 0 ? !a.ok() : !a.failed())
                                violation("reopen returned %d, but the command was answered with: %s", e, a.str().c_str());
                            if (e && a.r[0].reason != std::strerror(e))
                                violation("reopen failed with \"%s\", but the command was answered with: %s", std::strerror(e), a.str().c_str());
                            std::scoped_lock l{s->m};
                            if (s->reopens != before + 1)
                                violation("one reopen command made %lld calls of reopen", s->reopens - before);
                            ++reopens;
                            break;
                        }
                        }
                    }
                });
            if (early)
            {
                ::usleep(useconds_t(r.below(3000)));
                log.reset(); // waits for the sinks to be closed
            }
            for (auto& t : ts)
                t.join();
            stop = true;
            if (client.joinable())
                client.join();
            if (!early)
            {
                std::size_t logged = 0;
                for (auto& st : wl.streams)
                    logged += st.expected.size();
                // Idle: what has been written is submitted and flushed
                if (!eventually([&] { std::scoped_lock l{s->m}; return s->flushed && !s->outstanding && std::size_t(std::count(s->data.begin(), s->data.end(), '\n')) == logged; }))
                    violation("data was not submitted and flushed though the logger is idle (%s)", desc.c_str());
                count("idle_flushes_checked");
                if (r.chance(50))
                {
                    auto& o = sinks[0][0];
                    emit(o.w, int(r.below(30)), r);
                    long long before;
                    { std::scoped_lock l{s->m}; before = s->syncs; }
                    o.s->sync();
                    std::scoped_lock l{s->m};
                    if (s->syncs == before)
                        violation("sync returned but the back-end was not synced");
                    if (!s->flushed || s->outstanding)
                        violation("sync returned with data not submitted and flushed");
                    const std::string& last = o.w.st->expected.back();
                    const auto at = last.find(": ");
                    if (s->data.find(last.substr(at)) == s->data.npos && last.size() < 3000)
                        violation("sync returned with the message not submitted");
                    count("syncs_checked");
                }
                if (r.chance(50))
                    for (auto& v : sinks)
                        v.clear();
                else
                {
                    std::thread closer([&] { ::usleep(200); for (auto& v : sinks) v.clear(); });
                    log.reset();
                    closer.join();
                }
                log.reset();
            }
            if (!s->destroyed)
                violation("the logger was destroyed but its back-end was not");
        }
        // The concatenation of what was submitted is the log
        bool complete = false;
        std::map<std::string, std::pair<std::vector<std::string>*, std::size_t>, std::less<>> by;
        for (auto& st : wl.streams)
            by[st.name] = {&st.expected, 0};
        for (auto l : split_lines(s->data, &complete))
        {
            const auto x = parse_line(l);
            const auto it = x.ok ? by.find(name_of(x)) : by.end();
            if (it == by.end())
                violation("a line that was not logged (%s): \"%s\"", desc.c_str(), quote(l).c_str());
            auto& [e, k] = it->second;
            if (k >= e->size() || (*e)[k] != strip_ts(x))
                violation("expected \"%s\" but the next line of the sink is \"%s\" (%s)", k < e->size() ? quote((*e)[k]).c_str() : "nothing", quote(l).c_str(), desc.c_str());
            ++k;
            count("lines_checked");
        }
        if (!complete)
            violation("the last line is not whole (%s)", desc.c_str());
        for (auto& [name, v] : by)
            if (v.second != v.first->size())
                violation("%zu of %zu messages of %s were submitted (%s)", v.second, v.first->size(), name.c_str(), desc.c_str());
        count("reopen_commands", reopens);
        count("buffers", s->submits);
        note_distinct(s->shape);
    }
}

int main(int argc, char** argv)
{
    parse_args(argc, argv);
    struct sigaction sa{};
    sa.sa_sigaction = on_fault;
    sa.sa_flags = SA_SIGINFO;
    if (!VP_ASAN && !VP_TSAN)
    {
        ::sigaction(SIGSEGV, &sa, nullptr);
        ::sigaction(SIGBUS, &sa, nullptr);
    }
    return run_cases(one);
}
