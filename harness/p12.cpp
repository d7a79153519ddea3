// P12: conservation of argument objects, memory, mappings, descriptors, threads
// and socket files
#include "cmd.hpp"
#include "engine.hpp"

#include <dlfcn.h>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
using namespace vp;

#define INTERPOSE (!VP_ASAN && !VP_TSAN)

namespace
{
    // --- argument objects ----------------------------------------------------
    // Every live object by address
    struct registry
    {
        static constexpr std::size_t n = 64;
        struct shard { std::mutex m; std::unordered_map<const void*, std::uint64_t> live; };
        shard s[n];
        std::atomic<long long> made{0}, gone{0}, printed{0};
        shard& of(const void* p) { return s[(std::uintptr_t(p) >> 4) % n]; }
        void ctor(const void* p, std::uint64_t v)
        {
            auto& x = of(p);
            std::scoped_lock l{x.m};
            if (!x.live.emplace(p, v).second)
                violation("an argument object was constructed on top of one that still lives");
            ++made;
        }
        void dtor(const void* p, std::uint64_t v)
        {
            auto& x = of(p);
            std::scoped_lock l{x.m};
            const auto it = x.live.find(p);
            if (it == x.live.end())
                violation("an argument object (%llu) was destroyed twice, or never constructed", (unsigned long long)v);
            if (it->second != v)
                violation("an argument object was overwritten while it lived");
            x.live.erase(it);
            ++gone;
        }
        void use(const void* p, std::uint64_t v)
        {
            auto& x = of(p);
            std::scoped_lock l{x.m};
            const auto it = x.live.find(p);
            if (it == x.live.end())
                violation("an argument object (%llu) was used after its destruction", (unsigned long long)v);
            if (it->second != v)
                violation("an argument object was overwritten while it lived");
            ++printed;
        }
        long long alive() const { return made - gone; }
    };
    registry reg;

    template<std::size_t Pad, bool Throwing = false>
    struct tracked
    {
        std::uint64_t v;
        unsigned char pad[Pad];
        std::unique_ptr<std::uint64_t> heap; // LeakSanitizer sees a lost one
        static inline thread_local bool throw_next = false;

        explicit tracked(std::uint64_t x) : v(x), heap(new std::uint64_t(x)) { reg.ctor(this, v); }
        tracked(const tracked& o) noexcept(!Throwing) : v(o.v), heap(copy_heap(o)) { reg.ctor(this, v); }
        tracked(tracked&& o) noexcept : v(o.v), heap(o.heap ? new std::uint64_t(*o.heap) : nullptr) { reg.ctor(this, v); }
        ~tracked() { reg.dtor(this, v); }
        tracked& operator=(const tracked&) = delete;
        static std::uint64_t* copy_heap(const tracked& o)
        {
            if constexpr (Throwing)
                if (throw_next)
                {
                    throw_next = false;
                    throw std::runtime_error("copy");
                }
            return new std::uint64_t(*o.heap);
        }
    };
}

template<std::size_t P, bool T>
struct fmt::formatter<tracked<P, T>>
{
    template<typename C> constexpr auto parse(C& c) { return c.begin(); }
    template<typename C> auto format(const tracked<P, T>& b, C& c) const
    {
        reg.use(&b, b.v);
        return fmt::format_to(c.out(), "T{}", *b.heap);
    }
};

// --- system resources --------------------------------------------------------
namespace
{
    std::atomic<long long> fail_at{-1};      // the n-th call from now on fails
    std::atomic<long long> interposed_calls{0};
    std::atomic<bool> watching{false};
    std::atomic<bool> injected{false};
}

#if INTERPOSE
namespace
{
    std::mutex pages_m;
    std::set<std::uintptr_t>* pages; // pages mapped by the library
    long long n_pages() { std::scoped_lock l{pages_m}; return pages ? (long long)pages->size() : 0; }

    bool inject()
    {
        ++interposed_calls;
        if (fail_at.load() < 0)
            return false;
        if (fail_at.fetch_sub(1) == 0)
        {
            injected = true;
            return true;
        }
        return false;
    }
    template<typename F> F next_fn(const char* n) { return reinterpret_cast<F>(::dlsym(RTLD_NEXT, n)); }

    void add(void* p, std::size_t n)
    {
        if (!watching)
            return;
        std::scoped_lock l{pages_m};
        for (std::size_t i = 0; i < n; i += 4096)
            pages->insert(std::uintptr_t(p) + i);
    }
}

extern "C" void* mmap(void* a, std::size_t n, int prot, int flags, int fd, off_t off) noexcept
{
    if (watching && inject())
    {
        errno = ENOMEM;
        return MAP_FAILED;
    }
    void* p = reinterpret_cast<void*>(::syscall(SYS_mmap, a, n, prot, flags, fd, off));
    if (p != MAP_FAILED)
        add(p, n);
    return p;
}
extern "C" int munmap(void* a, std::size_t n) noexcept
{
    if (watching)
    {
        std::scoped_lock l{pages_m};
        for (std::size_t i = 0; i < n; i += 4096)
            if (pages->erase(std::uintptr_t(a) + i) == 0 && !injected)
                violation("munmap of memory that was not mapped");
    }
    return int(::syscall(SYS_munmap, a, n));
}
extern "C" void* mremap(void* a, std::size_t on, std::size_t nn, int flags, ...) noexcept
{
    va_list ap;
    va_start(ap, flags);
    void* fixed = (flags & MREMAP_FIXED) ? va_arg(ap, void*) : nullptr;
    va_end(ap);
    if (watching && inject())
    {
        errno = ENOMEM;
        return MAP_FAILED;
    }
    void* p = reinterpret_cast<void*>(::syscall(SYS_mremap, a, on, nn, flags, fixed));
    if (p != MAP_FAILED)
        add(p, nn);
    return p;
}
extern "C" int dup(int fd) noexcept
{
    if (watching && inject())
    {
        errno = EMFILE;
        return -1;
    }
    return int(::syscall(SYS_dup, fd));
}
extern "C" int socket(int d, int t, int p) noexcept
{
    if (watching && inject())
    {
        errno = EMFILE;
        return -1;
    }
    return int(::syscall(SYS_socket, d, t, p));
}
extern "C" int close(int fd)
{
    const int r = int(::syscall(SYS_close, fd));
    if (r == -1 && errno == EBADF && fd >= 0 && watching)
        violation("close of a descriptor that was not open (%d)", fd);
    return r;
}
#else
namespace
{
    long long n_pages() { return 0; }
}
#endif

namespace
{
    int count_entries(const std::string& dir)
    {
        int n = 0;
        DIR* d = ::opendir(dir.c_str());
        if (!d)
            return -1;
        while (::readdir(d))
            ++n;
        ::closedir(d);
        return n;
    }

    // Mappings shared with nothing but ourselves: queues of sinks and io_urings
    int shared_maps()
    {
        const std::string m = slurp("/proc/self/maps");
        int n = 0;
        for (auto l : split_lines(m))
        {
            const auto sp = l.find(' ');
            if (sp != l.npos && l.size() > sp + 4 && l[sp + 4] == 's')
                ++n;
        }
        return n;
    }

    struct resources
    {
        int fds = count_fds();
        int threads = count_entries("/proc/self/task");
        int maps = shared_maps();
        long long pages = n_pages();
        int files = count_entries(opt.dir);
        long long objects = reg.alive();

        std::string str() const
        {
            return fmt::format("descriptors {}, threads {}, shared mappings {}, mapped pages {}, files {}, argument objects {}",
                fds, threads, maps, pages, files, objects);
        }
        bool operator==(const resources&) const = default;
    };

    void conserved(const resources& before, const char* what)
    {
        // The kernel tears down a thread or a ring a little after its owner is
        // told, so give it time
        resources now;
        const bool ok = eventually([&] { now = resources(); return now == before; }, 5);
        if (!ok)
            violation("%s: before: %s; after: %s", what, before.str().c_str(), now.str().c_str());
        count("conservation_checks");
    }

    // --- workloads -----------------------------------------------------------
    struct tally
    {
        long long blocking = 0;   // blocking statements with a tracked argument
        long long tries = 0;
    };

    void statements(xtr::sink& s, rng& r, int n, tally& t)
    {
        for (int i = 0; i < n; ++i)
        {
            const std::uint64_t v = r() >> 8;
            switch (r.below(12))
            {
            case 0: { tracked<8> a(v); XTR_LOG(s, "B {}", a); ++t.blocking; break; }
            case 1: { XTR_LOG(s, "B {}", tracked<8>(v)); ++t.blocking; break; }
            case 2: { tracked<300> a(v); std::string x = random_text(r, r.below(200), false); XTR_LOG(s, "B {} {}", a, x); ++t.blocking; break; }
            case 3: { auto p = std::make_shared<tracked<8>>(v); XTR_LOG(s, "B {}", *p); t.blocking += 1; break; }
            case 4: { tracked<8> a(v); XTR_LOG_TSC(s, "B {} {}", a, tracked<8>(v + 1)); ++t.blocking; break; }
            case 5: { tracked<8> a(v); XTR_TRY_LOG(s, "T {}", a); ++t.tries; break; }
            case 6: { XTR_TRY_LOG(s, "T {}", tracked<100>(v)); ++t.tries; break; }
            case 7: { tracked<64> a(v); std::string x = random_text(r, r.below(XTR_SINK_CAPACITY / 4), false); XTR_TRY_LOG(s, "T {} {}", a, x); ++t.tries; break; }
            case 8: { std::string x = random_text(r, r.below(100), false); XTR_TRY_LOGL_RTC(error, s, "T {} {}", std::move(x), tracked<8>(v)); ++t.tries; break; }
            case 9: { std::vector<tracked<8>> a; a.reserve(3); for (int k = 0; k < 3; ++k) a.emplace_back(v + std::uint64_t(k)); XTR_LOG(s, "B {}", a); ++t.blocking; break; }
            case 10: { // a copy constructor that throws
                tracked<8> a(v);
                tracked<8, true> b(v + 1);
                tracked<8, true>::throw_next = true;
                bool thrown = false;
                try { XTR_LOG(s, "X {} {}", a, b); } catch (const std::runtime_error&) { thrown = true; }
                if (!thrown)
                    violation("the exception of an argument's copy constructor did not reach the log statement");
                count("throwing_copies");
                break; }
            case 11: { tracked<8> a(v); tracked<8, true> b(v + 1); std::string x = random_text(r, r.below(50), false);
                tracked<8, true>::throw_next = true;
                bool thrown = false;
                try { XTR_LOG(s, "X {} {} {}", a, x, b); } catch (const std::runtime_error&) { thrown = true; }
                if (!thrown)
                    violation("the exception of an argument's copy constructor did not reach the log statement");
                count("throwing_copies");
                break; }
            }
        }
    }

    void use_logger(output& out, rng& r, tally& t, const std::string& path)
    {
        std::vector<std::thread> th;
        std::mutex m;
        const int n_threads = int(r.range(1, 3));
        for (int k = 0; k < n_threads; ++k)
            th.emplace_back([&, rr = rng(r())]() mutable {
                tally mine;
                std::vector<std::unique_ptr<xtr::sink>> v;
                v.emplace_back(new xtr::sink(out.log->get_sink("s")));
                gate g;
                for (auto n = rr.range(1, 25); n > 0; --n)
                {
                    auto& s = v[rr.below(v.size())];
                    switch (rr.below(9))
                    {
                    case 0: v.emplace_back(new xtr::sink(*s)); if (v.size() > 5) v.erase(v.begin()); break;
                    case 1: s->set_name(std::string(rr.below(100), 'n')); break;
                    case 2: s->close(); out.log->register_sink(*s, "again"); break;
                    case 3: *s = *v[rr.below(v.size())]; break;
                    case 4: // fill the queue while the background thread is held
                        g.closed = true;
                        XTR_LOG(*s, "S {}", stall{&g});
                        // only non-blocking statements, which may be dropped
                        for (int i = 0; i < 60; ++i)
                        {
                            if (rr.chance(50))
                                XTR_TRY_LOG(*s, "T {}", tracked<200>(rr() >> 8));
                            else
                            {
                                std::string x = random_text(rr, rr.below(300), false);
                                XTR_TRY_LOG(*s, "T {} {}", tracked<8>(rr() >> 8), x);
                            }
                            ++mine.tries;
                        }
                        g.closed = false;
                        s->sync();
                        break;
                    case 5: s->sync(); break;
                    default: statements(*s, rr, int(rr.below(20)), mine);
                    }
                }
                std::scoped_lock l{m};
                t.blocking += mine.blocking;
                t.tries += mine.tries;
            });
        // clients come and go meanwhile, some of them without waiting
        if (!path.empty())
            for (auto n = r.below(8); n > 0; --n)
                switch (r.below(4))
                {
                case 0: (void)cmd_status(path); break;
                case 1: { const int fd = cmd_connect(path); if (fd != -1) ::close(fd); break; }
                case 2: { const int fd = cmd_connect(path); if (fd != -1) { xd::frame<xd::status> f; (void)!::send(fd, &f, sizeof f, MSG_NOSIGNAL); ::close(fd); } break; }
                case 3: (void)cmd_reopen(path); break;
                }
        for (auto& x : th)
            x.join();
    }

    void lifecycle(rng& r)
    {
        const resources before;
        tally t;
        long long printed0 = reg.printed;
        {
            const std::string path = r.chance(50) ? cmd_path() : std::string();
            std::deque<int> idle; // clients that are connected when the logger goes away
            std::string data, desc;
            {
                output out(random_store(r), r, path.empty() ? std::string(xtr::null_command_path) : path);
                use_logger(out, r, t, path);
                if (!path.empty() && r.chance(50))
                    for (auto n = r.below(4); n > 0; --n)
                    {
                        const int fd = cmd_connect(path);
                        if (fd != -1)
                            idle.push_back(fd);
                    }
                if (r.chance(30))
                    out.log->set_command_path(r.chance(50) ? std::string(xtr::null_command_path) : cmd_path());
                desc = out.desc; data = out.finish();
            }
            for (int fd : idle)
                ::close(fd);
            long long nb = 0, nt = 0;
            for (auto l : split_lines(data))
            {
                if (l.find(": B T") != l.npos || l.find(": B [T") != l.npos)
                    ++nb;
                else if (l.find(": T ") != l.npos)
                    ++nt;
                else if (l.find(": X ") != l.npos)
                    violation("a message whose arguments could not be copied was logged: \"%s\"", quote(l).c_str());
            }
            if (nb != t.blocking)
                violation("%lld of %lld messages with argument objects are in the output", nb, t.blocking);
            if (nt > t.tries)
                violation("more non-blocking messages in the output than were logged");
            count("delivered", nb + nt);
            count("dropped", t.tries - nt);
            note_distinct(hash(fmt::format("{} {} {}", nb, nt, t.tries)));
        }
        conserved(before, "after a logger was used and destroyed");
        count("objects_formatted", reg.printed - printed0);
        sample(fmt::format("case {}: {} blocking and {} non-blocking statements, {} objects so far, {}", current_case.load(), t.blocking, t.tries, reg.made.load(), before.str()));
    }

    template<typename F>
    void expect_throw(F&& f, const char* what)
    {
        const resources before;
        bool thrown = false;
        try { f(); } catch (const std::exception&) { thrown = true; }
        if (!thrown)
            violation("%s did not fail", what);
        conserved(before, what);
        count("failed_constructions");
    }

    // Constructions that fail by themselves
    void failing(rng& r)
    {
        const std::string f = opt.dir + "/failing.log";
        const int fd = ::open(f.c_str(), O_CREAT|O_RDWR|O_APPEND|O_CLOEXEC, 0666);
        using clock = std::chrono::system_clock;
        switch (r.below(8))
        {
        case 0: expect_throw([&] { xtr::logger l("/nonexistent-directory/log", clock(), cmd_path()); }, "a logger with a path that cannot be opened"); break;
        case 1: expect_throw([&] { (void)xtr::make_fd_storage(-1); }, "make_fd_storage(-1)"); break;
        case 2: expect_throw([&] { xtr::posix_fd_storage s(-1); }, "posix_fd_storage(-1)"); break;
        case 3: expect_throw([&] { xtr::io_uring_fd_storage s(-1); }, "io_uring_fd_storage(-1)"); break;
        case 4: expect_throw([&] { xtr::io_uring_fd_storage s(fd, "", 64, 1u << 20); }, "an io_uring_fd_storage with too large a queue"); break;
        case 5: expect_throw([&] { xtr::io_uring_fd_storage s(fd, "", std::size_t(1) << 32, 4); }, "an io_uring_fd_storage with too large a buffer"); break;
        case 6: expect_throw([&] { xtr::io_uring_fd_storage s(fd, "", 64, std::size_t(1) << 33); }, "an io_uring_fd_storage with far too large a queue"); break;
        case 7: // registering the buffers fails
            expect_throw([&] { xtr::io_uring_fd_storage s(fd, "", 64, 20000); }, "an io_uring_fd_storage with more buffers than can be registered");
            break;
        }
        ::close(fd);
        ::unlink(f.c_str());
    }

    // Constructions in which the n-th request to the system fails
    void injecting(rng& r)
    {
#if INTERPOSE
        const std::string f = opt.dir + "/inject.log";
        const std::string cp = cmd_path();
        const auto kind = r.below(6);
        const int fd = ::open(f.c_str(), O_CREAT|O_RDWR|O_APPEND|O_CLOEXEC, 0666);
        using clock = std::chrono::system_clock;
        auto st = std::make_shared<mem_state>();
        bool done = false;
        for (int n = 0; n < 60 && !done; ++n)
        {
            const resources before;
            injected = false;
            fail_at = n;
            bool thrown = false;
            try
            {
                switch (kind)
                {
                case 0: { xtr::logger l(f.c_str(), clock(), cp); auto s = l.get_sink("a"); auto s2 = s; XTR_LOG(s, "hello {}", tracked<8>(1)); break; }
                case 1: { xtr::logger l(xtr::make_fd_storage(fd), clock(), cp); fail_at = -1; auto s = l.get_sink("a"); fail_at = n; auto s2 = s; (void)s2; break; }
                case 2: { xtr::logger l(std::make_unique<mem_storage>(st), clock(), cp); fail_at = -1; xtr::sink s; fail_at = n; l.register_sink(s, "x"); XTR_LOG(s, "hello {}", tracked<8>(1)); break; }
                case 3: { xtr::io_uring_fd_storage s(fd, "", 512, 4, 2); break; }
                case 4: { std::vector<xtr::sink> v(3); break; }
                case 5: { xtr::logger l(std::make_unique<mem_storage>(st), clock(), xtr::null_command_path); l.set_command_path(cp); l.set_command_path(cp); break; }
                }
            }
            catch (const std::exception&)
            {
                thrown = true;
            }
            done = fail_at >= 0 || !injected; // nothing was left to fail
            fail_at = -1;
            conserved(before, fmt::format("after construction {} with request {} failing", int(kind), n).c_str());
            if (injected)
                count("injected_failures");
            if (thrown)
                count("constructions_failed_by_injection");
        }
        ::close(fd);
        ::unlink(f.c_str());
#else
        (void)r;
#endif
    }

    // No descriptors left: the n-th new one cannot be had
    void starving(rng& r)
    {
        // The sanitizers' own checks need descriptors
        if (VP_ASAN || VP_TSAN)
            return;
        const std::string f = opt.dir + "/starve.log";
        const std::string cp = cmd_path();
        using clock = std::chrono::system_clock;
        rlimit old{};
        ::getrlimit(RLIMIT_NOFILE, &old);
        // fill the gaps
        std::vector<int> gaps;
        const int top = ::dup(2);
        gaps.push_back(top);
        const bool mem = r.chance(50);
        for (int n = 0; n < 8; ++n)
        {
            const resources before;
            rlimit lim = old;
            int highest = 0;
            {
                DIR* d = ::opendir("/proc/self/fd");
                while (auto* e = ::readdir(d))
                    highest = std::max(highest, std::atoi(e->d_name));
                ::closedir(d);
            }
            lim.rlim_cur = rlim_t(highest + n);
            ::setrlimit(RLIMIT_NOFILE, &lim);
            try
            {
                if (mem)
                {
                    auto st = std::make_shared<mem_state>();
                    {
                        xtr::logger l(std::make_unique<mem_storage>(st), clock(), cp);
                        auto s = l.get_sink("a");
                        XTR_LOG(s, "hello {}", tracked<8>(1));
                        s.sync();
                    }
                    if (st->data.find("hello T1") == std::string::npos)
                        violation("a message was lost when no descriptors were left");
                }
                else
                {
                    {
                        xtr::logger l(f.c_str(), clock(), cp);
                        auto s = l.get_sink("a");
                        XTR_LOG(s, "hello {}", tracked<8>(1));
                    }
                    // the log exists, so the message must be in it
                    ::setrlimit(RLIMIT_NOFILE, &old);
                    if (slurp(f).find("hello T1") == std::string::npos)
                        violation("a message was lost when few descriptors were left");
                }
            }
            catch (const std::system_error&)
            {
                count("constructions_failed_without_descriptors");
            }
            ::setrlimit(RLIMIT_NOFILE, &old);
            ::unlink(f.c_str());
            conserved(before, "after running out of descriptors");
        }
        for (int g : gaps)
            ::close(g);
    }

    // A long-lived logger must not grow
    void growth(rng& r)
    {
        if (VP_ASAN || VP_TSAN)
            return;
        const std::string path = cmd_path();
        output out(store(r.below(5)), r, path);
        xtr::sink keep = out.log->get_sink("keep");
        xtr::sink sp;
        auto round = [&] {
            xtr::sink a = out.log->get_sink("abcdefghijklmnopqrstuvwxyz-long-name");
            xtr::sink b(a);
            b.set_name("another-rather-long-name-for-a-sink");
            XTR_LOG(a, "B {}", tracked<8>(1));
            b = keep;
            XTR_LOG(b, "B {} {}", tracked<8>(2), std::string(50, 'x'));
            (void)cmd_status(path);
            (void)cmd_level(path, xtr::log_level_t::info, xd::pattern_type_t::extended_regex, "a|b");
            (void)cmd_status(path, xd::pattern_type_t::extended_regex, "(");
            { const int fd = cmd_connect(path); if (fd != -1) { (void)!::send(fd, "xx", 2, MSG_NOSIGNAL); ::close(fd); } }
            { const int fd = cmd_connect(path); if (fd != -1) { xd::frame<xd::status> f; (void)!::send(fd, &f, sizeof f, MSG_NOSIGNAL); ::close(fd); } }
            { const int fd = cmd_connect(path); if (fd != -1) ::close(fd); }
            if (out.mem)
            {
                std::scoped_lock l{out.mem->m};
                out.mem->data.clear();
                out.mem->data.shrink_to_fit();
            }
            out.log->register_sink(sp, "sp");
            sp.close();
        };
        auto in_use = [] { return (long long)::mallinfo2().uordblks + (long long)::mallinfo2().hblkhd; };
        for (int i = 0; i < 30; ++i)
            round();
        keep.sync();
        eventually([&] { return cmd_status(path).eof; });
        const int fds = count_fds(), maps = shared_maps();
        const long long pages0 = n_pages();
        const long long before = in_use();
        const int rounds = opt.thorough ? 1500 : 400;
        for (int i = 0; i < rounds; ++i)
            round();
        keep.sync();
        // what was disconnected last may take a moment to be noticed
        const bool ok = eventually([&] { return count_fds() <= fds + 2 && shared_maps() == maps && n_pages() == pages0; }, 5);
        if (!ok)
            violation("after %d rounds of making sinks and sending commands there are %d descriptors (before: %d) and %d mappings (before: %d)",
                rounds, count_fds(), fds, shared_maps(), maps);
        const long long after = in_use();
        // The allocator and the storage keep some memory whatever the number of
        // rounds: a leak is what grows with it
        if (after - before > 20000 + 80ll * rounds)
            violation("memory in use grew by %lld bytes in %d rounds of making sinks and sending commands", after - before, rounds);
        maximum("heap_growth_per_1000_rounds", (after - before) * 1000 / rounds);
        count("growth_rounds", rounds);
        sp.close();
        keep.close();
        (void)out.finish();
    }
}

static void one(rng& r, int i)
{
    switch (i % 8)
    {
    case 5: failing(r); injecting(r); break;
    case 6: injecting(r); injecting(r); break;
    case 7: if (i % 16 == 7) starving(r); else if (i % 64 == 15) growth(r); else failing(r); break;
    default: lifecycle(r);
    }
}

int main(int argc, char** argv)
{
    parse_args(argc, argv);
    // Errors of the library are expected here
    const int n = ::open("/dev/null", O_WRONLY|O_CLOEXEC);
    if (!VP_ASAN && !VP_TSAN)
        ::dup2(n, 2);
    ::close(n);
    // Things that are made once and kept
    {
        rng r(1);
        mem_state st;
        (void)is_timestamp("");
        xtr::logger l(std::make_unique<mem_storage>(std::make_shared<mem_state>()), std::chrono::system_clock(), xtr::null_command_path);
        std::thread([] {}).join();
    }
#if INTERPOSE
    pages = new std::set<std::uintptr_t>;
    watching = true;
#endif
    return run_cases(one);
}
