#ifndef VP_ENGINE_HPP
#define VP_ENGINE_HPP
// A generator of logging workloads which records what it logged, so that the
// output can be compared with it.
#include "common.hpp"
#include <xtr/formatters.hpp>

#include <memory>
#include <optional>
#include <poll.h>

namespace vp
{
    template<std::size_t N, std::size_t Align = 4>
    struct alignas(Align) blob
    {
        std::uint32_t sid, seq;
        unsigned char fill[N];
        blob(std::uint32_t a, std::uint32_t b) : sid(a), seq(b)
        {
            for (std::size_t i = 0; i < N; ++i)
                fill[i] = static_cast<unsigned char>(a * 31 + b * 7 + i);
        }
        bool good() const
        {
            for (std::size_t i = 0; i < N; ++i)
                if (fill[i] != static_cast<unsigned char>(sid * 31 + seq * 7 + i))
                    return false;
            return std::uintptr_t(this) % Align == 0;
        }
        void scramble() { sid = seq = 0xdeadbeef; std::memset(fill, 0xee, N); }
    };

    struct move_only
    {
        std::unique_ptr<std::uint64_t> p;
        explicit move_only(std::uint64_t v) : p(new std::uint64_t(v)) {}
        move_only(move_only&&) noexcept = default;
    };

    enum class colour { red = 3, green = 77 };
}

template<std::size_t N, std::size_t A>
struct fmt::formatter<vp::blob<N, A>>
{
    template<typename C> constexpr auto parse(C& c) { return c.begin(); }
    template<typename C> auto format(const vp::blob<N, A>& b, C& c) const
    {
        return fmt::format_to(c.out(), "blob{}:{}.{}{}", N, b.sid, b.seq, b.good() ? "" : " CORRUPT");
    }
};
template<>
struct fmt::formatter<vp::move_only>
{
    template<typename C> constexpr auto parse(C& c) { return c.begin(); }
    template<typename C> auto format(const vp::move_only& b, C& c) const
    {
        return fmt::format_to(c.out(), "mo{}", *b.p);
    }
};
template<>
struct fmt::formatter<vp::colour>
{
    template<typename C> constexpr auto parse(C& c) { return c.begin(); }
    template<typename C> auto format(vp::colour b, C& c) const
    {
        return fmt::format_to(c.out(), "c{}", int(b));
    }
};

namespace vp
{
    // One logged message: what its line must be, apart from the timestamp
    struct message
    {
        std::string text; // "I name engine.hpp:123: ..."
    };

    // The messages logged by one sink while it had one name
    struct stream
    {
        std::string name;
        std::vector<std::string> expected;
    };

    struct writer
    {
        xtr::sink* s = nullptr;
        stream* st = nullptr;
        std::uint32_t id = 0, seq = 0;

        void rec(char level, int line, std::string_view msg)
        {
            st->expected.push_back(
                fmt::format("{} {} engine.hpp:{}: {}", level, st->name, line, msg));
        }
    };

    inline std::string random_text(rng& r, std::size_t len, bool nasty)
    {
        std::string s;
        s.reserve(len);
        while (s.size() < len)
        {
            if (nasty)
                s.push_back(char(r.range(1, 255)));
            else
                s.push_back("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 {}%"[r.below(65)]);
        }
        return s;
    }

    inline std::size_t random_len(rng& r)
    {
        constexpr std::size_t cap = XTR_SINK_CAPACITY;
        switch (r.below(12))
        {
        case 0: return 0;
        case 1: return r.range(0, 9);
        case 2: return r.range(60, 70);
        case 3: return r.range(100, 1200);
        case 4: return r.chance(20) ? r.range(cap / 4, cap / 2) : r.range(1, 64);
        case 5: return r.chance(10) && cap > 200000 ? r.range(65500, 65600) : r.range(240, 270);
        default: return r.range(1, 40);
        }
    }

    constexpr std::size_t half_cap = XTR_SINK_CAPACITY / 2 - 64;
    constexpr std::size_t full_cap = XTR_SINK_CAPACITY - 128;

    inline constexpr int n_kinds = 37;

    // Logs one message of the given kind. Arguments are destroyed or overwritten
    // after the log statement, so what is printed must have been captured by it.
#define VP_SANE(X) vp::model_sanitize(X)
#define VP_I (w.id)
#define VP_Q (w.seq)
    inline void emit(writer& w, int kind, rng& r)
    {
        xtr::sink& s = *w.s;
        ++w.seq;
        const std::uint32_t id = w.id, q = w.seq;
        switch (kind)
        {
        case 0: { w.rec('I', __LINE__, "no arguments"); XTR_LOG(s, "no arguments"); break; }
        case 1: { w.rec('I', __LINE__, "also no arguments {}"); XTR_LOG(s, "also no arguments {{}}"); break; }
        case 2: { int a = int(r()); w.rec('I', __LINE__, fmt::format("k {} {} {}", id, q, a)); XTR_LOG(s, "k {} {} {}", id, q, a); a = 0; break; }
        case 3: { char c = char(r.range('a', 'z')); w.rec('I', __LINE__, fmt::format("k {} {} {}", id, q, c)); XTR_LOG(s, "k {} {} {}", id, q, c); break; }
        case 4: { double d = double(std::int64_t(r())) / 1000.0; float f = float(r.below(1000)) / 8; w.rec('I', __LINE__, fmt::format("k {} {} {} {:.3f}", id, q, d, f)); XTR_LOG(s, "k {} {} {} {:.3f}", id, q, d, f); break; }
        case 5: { std::int64_t a = std::int64_t(r()); std::uint8_t b = std::uint8_t(r()); bool c = r.chance(50); std::int16_t d = std::int16_t(r());
            w.rec('I', __LINE__, fmt::format("k {} {} {} {} {} {}", id, q, a, b, c, d)); XTR_LOG(s, "k {} {} {} {} {} {}", id, q, a, b, c, d); break; }
        case 6: { std::string x = random_text(r, random_len(r), true); w.rec('I', __LINE__, fmt::format("k {} {} {}", id, q, VP_SANE(x))); XTR_LOG(s, "k {} {} {}", id, q, x); std::fill(x.begin(), x.end(), '#'); break; }
        case 7: { std::string x = random_text(r, random_len(r), true); w.rec('I', __LINE__, fmt::format("k {} {} {}", id, q, VP_SANE(x))); { std::vector<char> z(x.begin(), x.end()); z.push_back(0); XTR_LOG(s, "k {} {} {}", id, q, static_cast<const char*>(z.data())); } break; }
        case 8: { std::string x = random_text(r, random_len(r), true); if (!x.empty()) x[x.size() / 2] = '\0'; w.rec('I', __LINE__, fmt::format("k {} {} {}", id, q, VP_SANE(x))); std::string_view v = x; XTR_LOG(s, "k {} {} {}", id, q, v); x.assign(x.size(), '!'); break; }
        case 9: { std::string x = random_text(r, random_len(r), false); w.rec('I', __LINE__, fmt::format("k {} {} {}", id, q, VP_SANE(x))); XTR_LOG(s, "k {} {} {}", id, q, std::move(x)); break; }
        case 10: { std::string x = random_text(r, r.range(0, 60), true), y = random_text(r, random_len(r) / 2, true), z = random_text(r, r.range(0, 20), false); w.rec('I', __LINE__, fmt::format("{} k {} {} {} {}", VP_SANE(x), id, VP_SANE(y), q, VP_SANE(z)));
            x.shrink_to_fit(); w.st->expected.pop_back(); w.rec('I', __LINE__, fmt::format("{} k {} {} {} {}", VP_SANE(x), id, VP_SANE(y), q, VP_SANE(z))); XTR_LOG(s, "{} k {} {} {} {}", x, id, y.c_str(), q, std::string_view(z)); x.assign(x.size(), '?'); y.assign(y.size(), '?'); z.assign(z.size(), '?'); break; }
        case 11: { static const char arr[] = "char\tarray"; w.rec('I', __LINE__, fmt::format("k {} {} {}", id, q, VP_SANE(arr))); XTR_LOG(s, "k {} {} {}", id, q, arr); break; }
        case 12: { static const std::string keep = "kept\x1b[1mreference"; w.rec('I', __LINE__, fmt::format("k {} {} {}", id, q, VP_SANE(keep))); XTR_LOG(s, "k {} {} {}", id, q, nocopy(keep)); break; }
        case 13: { blob<24> b(id, q); w.rec('I', __LINE__, fmt::format("k {}", b)); XTR_LOG(s, "k {}", b); b.scramble(); break; }
        case 14: { blob<200> b(id, q); w.rec('I', __LINE__, fmt::format("k {} {}", b, q)); XTR_LOG(s, "k {} {}", b, q); b.scramble(); break; }
        case 15: { blob<1000, 16> b(id, q); w.rec('I', __LINE__, fmt::format("k {}", b)); XTR_LOG(s, "k {}", b); b.scramble(); break; }
        case 16: { blob<56, 64> b(id, q); w.rec('I', __LINE__, fmt::format("k {}", b)); XTR_LOG(s, "k {}", b); b.scramble(); break; }
        case 17: { long double d = static_cast<long double>(r.below(100000)) / 4; w.rec('I', __LINE__, fmt::format("k {} {} {}", id, q, d)); XTR_LOG(s, "k {} {} {}", id, q, d); break; }
        case 18: { long double d = static_cast<long double>(r.below(100000)) / 4; std::string x = random_text(r, r.range(0, 50), true); w.rec('I', __LINE__, fmt::format("k {} {} {} {}", id, q, d, VP_SANE(x))); XTR_LOG(s, "k {} {} {} {}", id, q, d, x); x.clear(); break; }
        case 19: { blob<56, 64> b(id, q); std::string x = random_text(r, random_len(r), true); w.rec('I', __LINE__, fmt::format("k {} {}", b, VP_SANE(x))); XTR_LOG(s, "k {} {}", b, x); b.scramble(); x.assign(x.size(), '.'); break; }
        case 20: { w.rec('I', __LINE__, fmt::format("k mo{} {}", q * 1000ull + id, q)); XTR_LOG(s, "k {} {}", move_only(q * 1000ull + id), q); break; }
        case 21: { std::string x = random_text(r, r.range(0, 30), true); w.rec('I', __LINE__, fmt::format("k mo{} {}", q * 1000ull + id, VP_SANE(x))); XTR_LOG(s, "k {} {}", move_only(q * 1000ull + id), x); x.assign(x.size(), '.'); break; }
        case 22: { std::vector<int> v; for (auto n = r.below(6); n > 0; --n) v.push_back(int(r.below(100))); std::string e = "["; for (std::size_t i = 0; i < v.size(); ++i) e += (i ? ", " : "") + std::to_string(v[i]); e += "]"; w.rec('I', __LINE__, fmt::format("k {} {} {}", id, q, e)); XTR_LOG(s, "k {} {} {}", id, q, v); std::fill(v.begin(), v.end(), -1); break; }
        case 23: { std::pair<int, long> p{int(r.below(9)), long(r.below(1000))}; w.rec('I', __LINE__, fmt::format("k {} {} ({}, {})", id, q, p.first, p.second)); XTR_LOG(s, "k {} {} {}", id, q, p); break; }
        case 24: { std::map<int, int> m; for (auto n = r.below(4); n > 0; --n) m[int(r.below(50))] = int(r.below(50)); std::string e = "{"; for (auto& [a, b] : m) e += (e.size() > 1 ? ", " : "") + std::to_string(a) + ": " + std::to_string(b); e += "}"; w.rec('I', __LINE__, fmt::format("k {} {} {}", id, q, e)); XTR_LOG(s, "k {} {} {}", id, q, m); m.clear(); break; }
        case 25: { colour c = r.chance(50) ? colour::red : colour::green; w.rec('I', __LINE__, fmt::format("k {} {} c{:d}", id, q, int(c))); XTR_LOG(s, "k {} {} {}", id, q, c); break; }
        case 26: { w.rec('E', __LINE__, fmt::format("k {} {}", id, q)); XTR_LOGL(error, s, "k {} {}", id, q); break; }
        case 27: { std::string x = random_text(r, r.range(0, 80), true); w.rec('W', __LINE__, fmt::format("k {} {} {}", id, q, VP_SANE(x))); XTR_LOGL(warning, s, "k {} {} {}", id, q, x); x.assign(x.size(), '.'); break; }
        case 28: { w.rec('I', __LINE__, fmt::format("k {} {}", id, q)); XTR_LOG_RTC(s, "k {} {}", id, q); break; }
        case 29: { w.rec('I', __LINE__, fmt::format("k {} {}", id, q)); XTR_LOG_TSC(s, "k {} {}", id, q); break; }
        case 30: { std::string x = random_text(r, r.range(0, 80), true); xtr::timespec ts(std::timespec{long(r.below(4000000000)), long(r.below(1000000000))}); w.rec('E', __LINE__, fmt::format("k {} {} {}", id, q, VP_SANE(x))); XTR_LOGL_TS(error, s, ts, "k {} {} {}", id, q, x); x.assign(x.size(), '.'); break; }
        case 31: { auto b = std::make_unique<blob<half_cap>>(id, q); w.rec('I', __LINE__, fmt::format("k {}", *b)); XTR_LOG(s, "k {}", *b); b->scramble(); break; }
        case 32: { auto b = std::make_unique<blob<full_cap>>(id, q); w.rec('I', __LINE__, fmt::format("k {}", *b)); XTR_LOG(s, "k {}", *b); b->scramble(); break; }
        case 33: { w.rec('I', __LINE__, fmt::format("k {} {} ", id, q)); XTR_LOG_TSC(s, "k {} {} {}", id, q, ""); break; }
        case 34: { std::string x = random_text(r, r.range(0, 60), true); w.rec('I', __LINE__, fmt::format("k {} {} {:>30}|{:.7}|", id, q, VP_SANE(x), VP_SANE(x))); XTR_LOG(s, "k {} {} {:>30}|{:.7}|", id, q, x, x.c_str()); x.assign(x.size(), '.'); break; }
        case 35: { std::string x = random_text(r, random_len(r), true); w.rec('W', __LINE__, fmt::format("k {0} {1} {2} {1:x}", id, q, VP_SANE(x))); XTR_LOGL(warning, s, "k {1} {2} {0} {2:x}", x, id, q); x.assign(x.size(), '.'); break; }
        case 36: { const int wd = int(r.below(30)); w.rec('I', __LINE__, fmt::format("k {:{}} {:#x}", id, wd, q)); XTR_LOG(s, "k {:{}} {:#x}", id, wd, q); break; }
        }
    }

    // weighted choice of kind; the biggest records are rare
    inline int random_kind(rng& r)
    {
        for (;;)
        {
            const int k = int(r.below(n_kinds));
            if ((k == 31 || k == 32) && !r.chance(XTR_SINK_CAPACITY > 100000 ? 3 : 25))
                continue;
            return k;
        }
    }

    // --- where the output goes ---------------------------------------------
    enum class store { memory, posix_file, uring_file, auto_file, path_ctor, pipe, n };

    inline const char* store_name(store k)
    {
        static const char* n[] = {"memory", "posix_file", "uring_file", "auto_file", "path", "pipe"};
        return n[int(k)];
    }

    struct output
    {
        store kind;
        std::string path, desc;
        std::shared_ptr<mem_state> mem;
        int fd = -1, rd = -1;
        std::thread reader;
        std::string piped;
        std::unique_ptr<xtr::logger> log;

        output(store k, rng& r, std::string command_path = xtr::null_command_path) : kind(k)
        {
            count(std::string("storage_") + store_name(k));
            static std::atomic<int> n{0};
            path = opt.dir + "/log." + std::to_string(n++);
            using clock = std::chrono::system_clock;
            switch (k)
            {
            case store::memory:
            {
                mem = std::make_shared<mem_state>();
                static constexpr std::size_t szs[][2] = {{1, 1}, {1, 40}, {64, 64}, {100, 700}, {4096, 4096}, {65536, 65536}};
                const auto* sz = szs[r.below(6)];
                desc = fmt::format("memory({}-{})", sz[0], sz[1]);
                log = std::make_unique<xtr::logger>(std::make_unique<mem_storage>(mem, r(), sz[0], sz[1]), clock(), command_path);
                break;
            }
            case store::posix_file:
            {
                open_file(r);
                static constexpr std::size_t szs[] = {1, 33, 512, 4096, 65536};
                const auto sz = szs[r.below(5)];
                desc = fmt::format("posix({})", sz);
                log = std::make_unique<xtr::logger>(std::make_unique<xtr::posix_fd_storage>(fd, path, sz), clock(), command_path);
                break;
            }
            case store::uring_file:
            {
                open_file(r);
#if XTR_USE_IO_URING
                static constexpr std::size_t szs[] = {64, 100, 512, 4096, 65536};
                static constexpr std::size_t qs[] = {1, 2, 4, 16, 64};
                static constexpr std::size_t bs[] = {1, 2, 3, 8, 32};
                const auto sz = szs[r.below(5)], q = qs[r.below(5)], b = bs[r.below(5)];
                desc = fmt::format("io_uring({},{},{})", sz, q, b);
                log = std::make_unique<xtr::logger>(std::make_unique<xtr::io_uring_fd_storage>(fd, path, sz, q, b), clock(), command_path);
                break;
#else
                [[fallthrough]];
#endif
            }
            case store::auto_file:
                if (fd == -1)
                    open_file(r);
                desc = "make_fd_storage(fd)";
                log = std::make_unique<xtr::logger>(xtr::make_fd_storage(fd, path), clock(), command_path);
                break;
            case store::path_ctor:
                desc = "logger(path)";
                log = std::make_unique<xtr::logger>(path.c_str(), clock(), command_path);
                break;
            case store::pipe:
            case store::n:
            {
                int p[2];
                if (::pipe2(p, O_CLOEXEC) != 0)
                    inconclusive("pipe failed");
                rd = p[0];
                desc = "pipe";
                if (r.chance(70))
                    ::fcntl(p[1], F_SETPIPE_SZ, 4096);
                const int slow = int(r.below(3));
                const auto seed = r();
                reader = std::thread(
                    [this, slow, seed]
                    {
                        perturb_thread_off(true);
                        rng rr(seed);
                        std::vector<char> b(70000);
                        for (int i = 0;; ++i)
                        {
                            const auto n = ::read(rd, b.data(), slow ? rr.range(1, slow == 1 ? 200 : 60000) : b.size());
                            if (n <= 0)
                                break;
                            piped.append(b.data(), std::size_t(n));
                            if (slow && i < 300)
                                ::usleep(useconds_t(rr.below(200)));
                        }
                    });
                if (r.chance(50))
                    log = std::make_unique<xtr::logger>(xtr::make_fd_storage(p[1]), clock(), command_path);
                else
                    log = std::make_unique<xtr::logger>(std::make_unique<xtr::posix_fd_storage>(p[1], "", r.range(1, 5000)), clock(), command_path);
                ::close(p[1]);
                break;
            }
            }
        }

        void open_file(rng& r)
        {
            fd = ::open(path.c_str(), O_CREAT|O_TRUNC|O_RDWR|O_CLOEXEC|(r.chance(50) ? O_APPEND : 0), 0666);
            if (fd == -1)
                inconclusive("open %s failed", path.c_str());
        }

        // destroys the logger and returns everything it wrote
        std::string finish()
        {
            log.reset();
            std::string d;
            if (reader.joinable())
            {
                reader.join();
                d = std::move(piped);
            }
            else if (mem)
                d = mem->get();
            else
                d = slurp(path);
            cleanup();
            return d;
        }

        void cleanup()
        {
            if (fd != -1)
                ::close(fd);
            if (rd != -1)
                ::close(rd);
            fd = rd = -1;
            ::unlink(path.c_str());
        }
    };

    inline store random_store(rng& r)
    {
        // memory more often, as it is the fastest and has the strictest buffers
        if (r.chance(40))
            return store::memory;
        return store(r.below(unsigned(store::n)));
    }

    // --- a workload of threads with sinks -----------------------------------
    struct workload
    {
        std::mutex m;
        std::deque<stream> streams;   // stable addresses
        std::atomic<std::uint32_t> next_id{0};
        std::atomic<long long> n_sync{0}, n_copy{0}, n_close{0}, n_rename{0}, n_msgs{0};

        stream* new_stream(const std::string& name)
        {
            std::scoped_lock l{m};
            streams.push_back(stream{name, {}});
            return &streams.back();
        }
    };

    struct owned
    {
        std::unique_ptr<xtr::sink> s;
        writer w;
    };

    struct profile
    {
        unsigned sync = 2, pause = 3, copy = 2, reopen_sink = 2, rename = 2; // percent
        int kind = -1; // a fixed kind, or -1
        bool may_register = true;
    };

    inline owned make_owned(workload& wl, xtr::logger& log, rng& r)
    {
        owned o;
        o.w.id = wl.next_id++;
        const std::string name = "s" + std::to_string(o.w.id);
        if (r.chance(50))
            o.s.reset(new xtr::sink(log.get_sink(name)));
        else
        {
            o.s.reset(new xtr::sink);
            log.register_sink(*o.s, name);
        }
        o.w.s = o.s.get();
        o.w.st = wl.new_stream(name);
        return o;
    }

    inline void run_program(workload& wl, xtr::logger& log, std::vector<owned>& mine, rng r, int n_msgs, const profile& p)
    {
        for (int i = 0; i < n_msgs; ++i)
        {
            auto& o = mine[r.below(mine.size())];
            const auto x = r.below(1000);
            unsigned t = 0;
            if (x < (t += p.sync * 10))
            {
                o.s->sync();
                ++wl.n_sync;
            }
            else if (x < (t += p.pause * 10))
                ::usleep(useconds_t(r.below(100)));
            else if (x < (t += p.copy * 5))
            {
                if (mine.size() < 6)
                {
                    owned c;
                    c.w.id = wl.next_id++;
                    c.s.reset(new xtr::sink(*o.s));
                    const std::string name = "c" + std::to_string(c.w.id);
                    c.s->set_name(name);
                    c.w.s = c.s.get();
                    c.w.st = wl.new_stream(name);
                    mine.push_back(std::move(c));
                }
                else
                {
                    // assignment closes the target and re-registers it
                    auto& d = mine[r.below(mine.size())];
                    if (&d != &o)
                    {
                        *d.s = *o.s;
                        d.w.id = wl.next_id++;
                        const std::string name = "a" + std::to_string(d.w.id);
                        d.s->set_name(name);
                        d.w.st = wl.new_stream(name);
                    }
                }
                ++wl.n_copy;
            }
            else if (x < (t += p.reopen_sink * 5))
            {
                if (p.may_register)
                {
                    o.s->close();
                    o.w.id = wl.next_id++;
                    const std::string name = "r" + std::to_string(o.w.id);
                    log.register_sink(*o.s, name);
                    o.w.st = wl.new_stream(name);
                }
                else if (mine.size() > 1)
                    mine.erase(mine.begin() + std::ptrdiff_t(r.below(mine.size())));
                ++wl.n_close;
                continue;
            }
            else if (x < (t += p.rename * 5))
            {
                o.w.id = wl.next_id++;
                const std::string name = "n" + std::to_string(o.w.id);
                o.s->set_name(name);
                o.w.st = wl.new_stream(name);
                ++wl.n_rename;
            }
            auto& e = mine[r.below(mine.size())];
            emit(e.w, p.kind >= 0 ? p.kind : random_kind(r), r);
            ++wl.n_msgs;
        }
    }

    struct result
    {
        std::string data;
        std::string desc;
    };

    // Runs a whole random workload and returns the output
    inline result run_workload(workload& wl, rng& r, int max_msgs, profile p = {})
    {
        result res;
        output out(random_store(r), r);
        const int n_threads = int(r.range(1, 4));
        const int n = int(r.range(5, unsigned(max_msgs)));
        const bool early = r.chance(25); // destroy the logger while sinks are in use
        if (r.chance(20))
            p.kind = int(r.below(31)); // but not the biggest
        p.may_register = !early;
        std::vector<std::vector<owned>> sinks(static_cast<std::size_t>(n_threads));
        for (auto& v : sinks)
            for (auto k = r.range(1, 2); k > 0; --k)
                v.push_back(make_owned(wl, *out.log, r));
        std::vector<std::thread> threads;
        xtr::logger& lg = *out.log;
        for (int t = 0; t < n_threads; ++t)
        {
            threads.emplace_back(
                [&wl, &lg, &sinks, &p, n, t, r2 = rng(r())]
                {
                    rng r3 = r2;
                    auto& mine = sinks[std::size_t(t)];
                    run_program(wl, lg, mine, r3, n, p);
                    // closed by destruction or explicitly
                    if (r3.chance(50))
                        for (auto& o : mine)
                            o.s->close();
                    mine.clear();
                });
        }
        res.desc = fmt::format("{} threads={} msgs={} kind={} early={}", out.desc, n_threads, n, p.kind, early);
        if (early)
            res.data = out.finish();
        for (auto& t : threads)
            t.join();
        if (!early)
            res.data = out.finish();
        count("messages_logged", wl.n_msgs);
        count("syncs", wl.n_sync);
        count("sink_copies", wl.n_copy);
        count("sink_closes", wl.n_close);
        count("sink_renames", wl.n_rename);
        count("output_bytes", (long long)res.data.size());
        return res;
    }

    // A line reduced to what must match: the timestamp removed
    inline std::string strip_ts(const line& l)
    {
        return std::string(l.level) + std::string(l.rest);
    }

    inline std::string_view name_of(const line& l)
    {
        return l.rest.substr(0, l.rest.find(' '));
    }
}
#endif
