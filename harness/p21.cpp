// P21: the bytes written by the file back-ends, for every kind of descriptor
#include "cmd.hpp"

#include <algorithm>
#include <cstddef>

#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/syscall.h>
using namespace vp;

namespace
{
    // --- what should have been written ----------------------------------------------
    struct item
    {
        bool user;         // written by the user through their own descriptor
        std::string text;  // all of it, or a message's text
    };

    const char* const sink_name = "s";
    int log_line = 0;

    void log_one(xtr::sink& s, const std::string& text)
    {
        log_line = __LINE__; XTR_LOG(s, "{}", text);
    }

    // Where data differs from what was expected
    std::string compare(std::string_view data, const std::vector<item>& want)
    {
        const std::string head = fmt::format(" {} p21.cpp:{}: ", sink_name, log_line);
        std::size_t pos = 0, n = 0;
        for (auto& i : want)
        {
            const std::string_view rest = data.substr(pos);
            if (i.user)
            {
                if (rest.substr(0, i.text.size()) != i.text)
                    return fmt::format("at byte {} (item {} of {}) the user's \"{}\" was expected, but \"{}\" found", pos, n, want.size(), quote(i.text, 60), quote(rest, 200));
                pos += i.text.size();
            }
            else
            {
                const std::string tail = head + i.text + "\n";
                const std::size_t len = 2 + 26 + tail.size();
                if (rest.size() < len || rest.substr(0, 2) != "I " || !is_timestamp(rest.substr(2, 26)) || rest.substr(28, tail.size()) != tail)
                    return fmt::format("at byte {} (item {} of {}) a line with{} was expected, but \"{}\" found", pos, n, want.size(), quote(tail, 60), quote(rest, 200));
                pos += len;
            }
            ++n;
        }
        if (pos != data.size())
            return fmt::format("{} more bytes than expected: \"{}\"", data.size() - pos, quote(data.substr(pos)));
        return {};
    }

    // --- making io_uring unavailable, for the calling thread and those it starts --------
    bool deny(int nr, int err)
    {
        sock_filter f[] = {
            BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, nr)),
            BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, unsigned(nr), 0, 1),
            BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ERRNO | (unsigned(err) & SECCOMP_RET_DATA)),
            BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW)};
        sock_fprog p{};
        p.len = sizeof f / sizeof *f;
        p.filter = f;
        return ::prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) == 0 && ::prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p) == 0;
    }

    int rings()
    {
        int n = 0;
        DIR* d = ::opendir("/proc/self/fd");
        while (auto* e = d ? ::readdir(d) : nullptr)
        {
            char b[64] = {};
            const std::string p = std::string("/proc/self/fd/") + e->d_name;
            if (::readlink(p.c_str(), b, sizeof b - 1) > 0 && std::strstr(b, "io_uring"))
                ++n;
        }
        if (d)
            ::closedir(d);
        return n;
    }

    // --- the user's descriptor ---------------------------------------------------------
    struct descriptor
    {
        enum kind_t { file, append_file, pipe_, fifo, socket_, n_kinds };
        kind_t kind;
        std::string path;
        int fd = -1;
        FILE* fp = nullptr;
        bool huge = false;
        std::string existing;     // what was in the file
        std::size_t base = 0;     // where the log starts, relative to existing
        ::off_t start = 0;        // where existing is in the file
        int flags = 0;
        // streams
        int rd = -1;
        std::string received;
        std::thread reader;
        std::string desc;

        void read_from(int from, rng rr)
        {
            rd = from;
            const int style = int(rr.below(3));
            reader = std::thread([this, rr, style]() mutable {
                std::vector<char> b(65536);
                for (;;)
                {
                    const auto n = ::read(rd, b.data(), style == 0 ? b.size() : style == 1 ? rr.range(1, 5000) : rr.range(1, 300));
                    if (n <= 0)
                        break;
                    received.append(b.data(), std::size_t(n));
                    if (style == 1 ? rr.chance(5) : style == 2 && rr.chance(3))
                        ::usleep(useconds_t(rr.below(1000)));
                }
            });
        }

        descriptor(rng& r, const std::string& p) : path(p)
        {
            kind = kind_t(r.below(n_kinds));
            if (r.chance(50))
                kind = r.chance(60) ? file : append_file;
            ::unlink(path.c_str());
            switch (kind)
            {
            case file: case append_file:
            {
                const bool append = kind == append_file;
                fd = ::open(path.c_str(), O_CREAT|O_EXCL|O_CLOEXEC|(r.chance(50) ? O_WRONLY : O_RDWR)|(append ? O_APPEND : 0), 0666);
                if (fd == -1)
                    inconclusive("open: %s", std::strerror(errno));
                huge = r.chance(10);
                if (huge)
                {
                    // a hole of several GiB, so that offsets do not fit 32 bits
                    start = ::off_t(r.chance(50) ? (1ull << 31) - 50 : (1ull << 32) - 50) + ::off_t(r.below(5000));
                    if (::ftruncate(fd, start) != 0)
                    {
                        huge = false;
                        start = 0;
                    }
                }
                existing = std::string(r.chance(40) ? 0 : r.chance(50) ? r.range(1, 200) : r.range(1000, 40000), ' ');
                for (auto& c : existing)
                    c = char('A' + r.below(26));
                if (::pwrite(fd, existing.data(), existing.size(), start) != ::ssize_t(existing.size()))
                    inconclusive("pwrite: %s", std::strerror(errno));
                const auto where = r.below(4);
                base = where == 0 ? 0 : where == 1 ? r.below(existing.size() + 1) : where == 2 ? existing.size() : existing.size() + r.below(5000);
                ::lseek(fd, start + ::off_t(base), SEEK_SET);
                desc = fmt::format("file{} with {} bytes{}, position {}", append ? " opened for appending" : "", existing.size(), huge ? " after a large hole" : "", base);
                if (append)
                    base = existing.size();
                count(append ? "append_files" : "files");
                count(where == 1 ? "positions_inside" : where == 3 ? "positions_beyond" : "positions_at_ends");
                if (huge)
                    count("large_offsets");
                break;
            }
            case pipe_:
            {
                int p2[2];
                if (::pipe2(p2, O_CLOEXEC) != 0)
                    inconclusive("pipe: %s", std::strerror(errno));
                fd = p2[1];
                if (r.chance(60))
                    ::fcntl(fd, F_SETPIPE_SZ, 4096);
                read_from(p2[0], rng(r()));
                desc = "pipe";
                count("pipes");
                break;
            }
            case fifo:
            {
                if (::mkfifo(path.c_str(), 0666) != 0)
                    inconclusive("mkfifo: %s", std::strerror(errno));
                const int in = ::open(path.c_str(), O_RDONLY|O_NONBLOCK|O_CLOEXEC);
                fd = ::open(path.c_str(), O_WRONLY|O_CLOEXEC|(r.chance(50) ? O_APPEND : 0));
                if (in == -1 || fd == -1)
                    inconclusive("open: %s", std::strerror(errno));
                ::fcntl(in, F_SETFL, 0);
                if (r.chance(60))
                    ::fcntl(fd, F_SETPIPE_SZ, 4096);
                read_from(in, rng(r()));
                desc = "FIFO";
                count("fifos");
                break;
            }
            case socket_: default:
            {
                int sv[2];
                if (::socketpair(AF_UNIX, SOCK_STREAM|SOCK_CLOEXEC, 0, sv) != 0)
                    inconclusive("socketpair: %s", std::strerror(errno));
                fd = sv[0];
                if (r.chance(60))
                {
                    const int sz = 4608;
                    ::setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &sz, sizeof sz);
                }
                read_from(sv[1], rng(r()));
                desc = "socket";
                count("sockets");
                break;
            }
            }
            flags = ::fcntl(fd, F_GETFL);
            if (r.chance(30))
            {
                fp = ::fdopen(fd, kind == append_file || (flags & O_APPEND) ? "a" : "w");
                if (!fp)
                    inconclusive("fdopen: %s", std::strerror(errno));
                desc += ", with a FILE*";
            }
        }

        bool stream() const { return kind >= pipe_; }

        void write_all(const std::string& s, const char* when)
        {
            if (fp)
            {
                if (std::fwrite(s.data(), 1, s.size(), fp) != s.size() || std::fflush(fp) != 0)
                    violation("the user's FILE* is not usable %s: %s (%s)", when, std::strerror(errno), desc.c_str());
                return;
            }
            for (std::size_t n = 0; n < s.size();)
            {
                const auto k = ::write(fd, s.data() + n, s.size() - n);
                if (k < 0 && errno == EINTR)
                    continue;
                if (k <= 0)
                    violation("the user's descriptor is not usable %s: %s (%s)", when, std::strerror(errno), desc.c_str());
                n += std::size_t(k);
            }
        }

        void check_open(const std::string& what)
        {
            const int f = ::fcntl(fd, F_GETFL);
            if (f == -1)
                violation("the user's descriptor was closed (%s, %s)", desc.c_str(), what.c_str());
            if (f != flags)
                violation("the flags of the user's descriptor changed from %o to %o (%s, %s)", flags, f, desc.c_str(), what.c_str());
        }

        void close_it()
        {
            if (fp)
                std::fclose(fp);
            else
                ::close(fd);
            fp = nullptr;
            fd = -1;
        }

        // Everything written from where the log should start
        void check(const std::vector<item>& want, const std::string& what)
        {
            close_it();
            std::string data;
            if (stream())
            {
                // the other end is at its end when all duplicates were closed
                std::atomic<bool> done{false};
                std::thread j([&] { reader.join(); done = true; });
                if (!eventually([&] { return done.load(); }))
                    violation("a duplicate of the user's descriptor is still open, or its data stuck (%s, %s)", desc.c_str(), what.c_str());
                j.join();
                ::close(rd);
                data = std::move(received);
            }
            else
            {
                const int in = ::open(path.c_str(), O_RDONLY|O_CLOEXEC);
                if (in == -1)
                    inconclusive("open: %s", std::strerror(errno));
                struct ::stat st{};
                ::fstat(in, &st);
                std::string all(std::size_t(std::max<::off_t>(st.st_size - start, 0)), 0);
                std::size_t got = 0;
                for (::ssize_t n; got < all.size() && (n = ::pread(in, all.data() + got, all.size() - got, start + ::off_t(got))) > 0;)
                    got += std::size_t(n);
                all.resize(got);
                if (start > 0)
                {
                    // nothing may have been written to the hole
                    const auto d = ::lseek(in, 0, SEEK_DATA);
                    if (d != -1 && d < start - 70000)
                        violation("data at offset %lld was written, the log starts at %lld (%s, %s)", (long long)d, (long long)start, desc.c_str(), what.c_str());
                }
                ::close(in);
                if (want.empty() && all != existing)
                    violation("an unused file was changed (%s, %s)", desc.c_str(), what.c_str());
                std::string before = existing;
                before.resize(std::max(before.size(), want.empty() ? existing.size() : base), 0);
                if (all.substr(0, std::min(base, before.size())) != before.substr(0, base))
                    violation("data before the log was changed (%s, %s)", desc.c_str(), what.c_str());
                std::size_t len = 0;
                for (auto& i : want)
                    len += i.user ? i.text.size() : 2 + 26 + fmt::format(" {} p21.cpp:{}: ", sink_name, log_line).size() + i.text.size() + 1;
                if (base + len < existing.size())
                {
                    if (all.size() < existing.size() || all.substr(base + len) != existing.substr(base + len))
                        violation("data after the log was changed (%s, %s)", desc.c_str(), what.c_str());
                    all.resize(base + len);
                    count("overwritten_inside");
                }
                data = want.empty() ? std::string() : all.substr(std::min(base, all.size()));
            }
            const auto e = compare(data, want);
            if (!e.empty())
                violation("%s; %s, %s", e.c_str(), desc.c_str(), what.c_str());
            count("bytes_checked", (long long)data.size());
            count("items_checked", (long long)want.size());
        }
    };

    // A file to which the log is reopened
    struct reopened
    {
        std::string path;
        std::string before;
        std::vector<item> want;
        bool fifo = false;
        int rd = -1;
        std::string received;
        std::thread reader;
    };

    struct world
    {
        descriptor d;
        std::vector<item> want;
        std::vector<std::unique_ptr<reopened>> files;
        std::string history;
        unsigned seq = 0;
        world(rng& r, const std::string& p) : d(r, p) {}
    };

    std::string user_text(rng& r, world& w)
    {
        return fmt::format("<user {} {}>\n", w.seq++, std::string(r.chance(10) ? r.below(3000) : r.below(60), 'u'));
    }

    // One logger's life
    void round(rng& r, world& w, int k)
    {
        using clock = std::chrono::system_clock;
        auto& d = w.d;
        const bool may_deny = r.chance(35);
        if (may_deny)
        {
            static constexpr int errs[] = {ENOSYS, EPERM, ENOMEM, EINVAL, EMFILE};
            const int err = errs[r.below(5)];
            const bool reg = r.chance(35);
            if (!deny(reg ? 427 : 425, err))
                inconclusive("seccomp is not available: %s", std::strerror(errno));
            w.history += fmt::format(" [io_uring_{}: {}]", reg ? "register" : "setup", std::strerror(err));
            count("rounds_without_io_uring");
        }
        std::string desc;
        const std::string cmd = cmd_path();
        std::string reopen_path;
        const bool reopening = r.chance(30);
        if (reopening)
            reopen_path = d.path + ".r" + std::to_string(k);
        std::unique_ptr<xtr::logger> log;
        const int before = rings();
        static constexpr std::size_t szs[] = {1, 7, 64, 100, 512, 4096, 16384, 65536};
        static constexpr std::size_t qs[] = {1, 2, 3, 4, 16, 64, 100};
        static constexpr std::size_t bs[] = {0, 1, 2, 3, 8, 32, 128};
        std::size_t sz = szs[r.below(8)];
        std::size_t budget = 400000;
        const auto kind = may_deny ? r.range(4, 7) : r.below(8);
        try
        {
            switch (kind)
            {
            case 0:
                desc = fmt::format("posix({})", sz);
                log.reset(new xtr::logger(std::make_unique<xtr::posix_fd_storage>(d.fd, reopen_path, sz), clock(), cmd));
                budget = std::min(budget, sz * 2000);
                break;
            case 1: case 2: case 3:
            {
                const auto q = qs[r.below(7)], b = bs[r.below(7)];
                desc = fmt::format("io_uring({}, {}, {})", sz, q, b);
                log.reset(new xtr::logger(std::make_unique<xtr::io_uring_fd_storage>(d.fd, reopen_path, sz, q, b), clock(), cmd));
                budget = std::min(budget, sz * 2000);
                if (b > q)
                    count("batch_larger_than_queue");
                count("rounds_io_uring");
                break;
            }
            case 4:
                desc = "posix by default";
                log.reset(new xtr::logger(std::make_unique<xtr::posix_fd_storage>(d.fd, reopen_path), clock(), cmd));
                break;
            case 5:
                desc = "make_fd_storage(fd)";
                log.reset(new xtr::logger(xtr::make_fd_storage(d.fd, reopen_path), clock(), cmd));
                break;
            case 6:
                if (d.fp)
                {
                    desc = "make_fd_storage(FILE*)";
                    log.reset(new xtr::logger(xtr::make_fd_storage(d.fp, reopen_path), clock(), cmd));
                    break;
                }
                [[fallthrough]];
            default:
                if (d.fp)
                {
                    desc = "logger(FILE*)";
                    if (reopening)
                        log.reset(new xtr::logger(reopen_path.c_str(), d.fp, clock(), cmd));
                    else
                        log.reset(new xtr::logger(d.fp, clock(), cmd));
                }
                else
                {
                    desc = "make_fd_storage(fd)";
                    log.reset(new xtr::logger(xtr::make_fd_storage(d.fd, reopen_path), clock(), cmd));
                }
                break;
            }
        }
        catch (const std::exception& e)
        {
            violation("%s on a %s: %s (%s)", desc.c_str(), d.desc.c_str(), e.what(), w.history.c_str());
        }
        w.history += (w.history.empty() ? "" : ", then ") + desc;
        if (kind >= 5)
            count(rings() > before ? "automatic_io_uring" : "automatic_posix");
        if (may_deny && kind >= 5 && rings() == before)
            count("fallbacks");
        auto* to = &w.want;
        {
            xtr::sink s = log->get_sink(sink_name);
            const int n = int(r.range(1, 8));
            std::size_t written = 0;
            for (int i = 0; i < n; ++i)
            {
                const auto c = r.below(10);
                if (c < 6)
                {
                    const int style = int(r.below(4));
                    for (auto m = style == 0 ? 1 : r.range(1, 200); m > 0 && written < budget; --m)
                    {
                        std::string t = fmt::format("{}:{}", w.seq++, std::string(style == 3 ? r.below(2000) : r.below(100), char('a' + r.below(26))));
                        log_one(s, t);
                        written += t.size() + 50;
                        to->push_back({false, std::move(t)});
                        if (style == 2 && r.chance(5))
                            ::usleep(useconds_t(r.below(300)));
                    }
                }
                else if (c < 8)
                {
                    s.sync();
                    count("syncs");
                }
                else if (c == 8 || !reopening)
                {
                    // Others write after sync
                    s.sync();
                    const auto t = user_text(r, w);
                    d.write_all(t, "after sync");
                    w.want.push_back({true, t});
                    count("user_writes_after_sync");
                }
                else
                {
                    auto f = std::make_unique<reopened>();
                    f->path = reopen_path;
                    for (auto& o : w.files)
                        if (o->path == f->path)
                        {
                            o->path += ".old" + std::to_string(w.seq++);
                            if (::rename(f->path.c_str(), o->path.c_str()) != 0)
                                inconclusive("rename: %s", std::strerror(errno));
                        }
                    s.sync();
                    if (r.chance(25))
                    {
                        f->fifo = true;
                        if (::mkfifo(f->path.c_str(), 0666) != 0)
                            inconclusive("mkfifo: %s", std::strerror(errno));
                        f->rd = ::open(f->path.c_str(), O_RDONLY|O_NONBLOCK|O_CLOEXEC);
                    }
                    else if (r.chance(50))
                    {
                        f->before = std::string(r.below(500), 'O');
                        FILE* p = std::fopen(f->path.c_str(), "w");
                        if (!p || std::fwrite(f->before.data(), 1, f->before.size(), p) != f->before.size() || std::fclose(p) != 0)
                            inconclusive("cannot write %s", f->path.c_str());
                    }
                    const auto a = cmd_reopen(cmd);
                    if (!a.ok())
                        violation("reopen was answered with %s; %s, %s", a.str().c_str(), d.desc.c_str(), w.history.c_str());
                    w.history += f->fifo ? " reopened to a FIFO" : " reopened";
                    if (f->fifo)
                    {
                        ::fcntl(f->rd, F_SETFL, 0);
                        ::fcntl(f->rd, F_SETPIPE_SZ, 4096);
                        auto* p = f.get();
                        f->reader = std::thread([p, rr = rng(r())]() mutable {
                            char b[3000];
                            for (::ssize_t n; (n = ::read(p->rd, b, rr.range(1, sizeof b))) > 0;)
                            {
                                p->received.append(b, std::size_t(n));
                                if (rr.chance(5))
                                    ::usleep(useconds_t(rr.below(500)));
                            }
                        });
                        count("reopened_to_fifo");
                    }
                    to = &f->want;
                    w.files.push_back(std::move(f));
                    count(may_deny ? "reopens_without_io_uring" : "reopens");
                }
            }
            if (r.chance(50))
                s.sync();
        }
        log.reset();
        d.check_open(w.history);
        if (r.chance(70))
        {
            const auto t = user_text(r, w);
            d.write_all(t, "after the logger was destroyed");
            w.want.push_back({true, t});
            count("user_writes_after_destruction");
        }
        note_distinct(hash(d.desc + w.history));
    }

    void one(rng& r, int i)
    {
        const std::string path = opt.dir + "/f" + std::to_string(i);
        auto w = std::make_unique<world>(r, path);
        if (r.chance(30))
        {
            const auto t = user_text(r, *w);
            w->d.write_all(t, "before anything else");
            w->want.push_back({true, t});
        }
        const int n = int(r.range(1, 3));
        for (int k = 0; k < n; ++k)
        {
            // A thread of its own, as denying system calls cannot be undone
            std::atomic<bool> done{false};
            std::thread t([&, rr = rng(r())]() mutable {
                round(rr, *w, k);
                done = true;
            });
            if (!eventually([&] { return done.load(); }, 60))
                violation("a logger did not finish its work (%s, %s)", w->d.desc.c_str(), w->history.c_str());
            t.join();
            count("rounds");
        }
        if (i < 4)
            sample(w->d.desc + ": " + w->history);
        w->d.check(w->want, w->history);
        for (auto& f : w->files)
        {
            std::string data;
            if (f->fifo)
            {
                f->reader.join();
                ::close(f->rd);
                data = f->received;
            }
            else
                data = slurp(f->path);
            if (data.substr(0, f->before.size()) != f->before)
                violation("reopening changed what was in the file (%s)", w->history.c_str());
            const auto e = compare(std::string_view(data).substr(f->before.size()), f->want);
            if (!e.empty())
                violation("%s; after reopening%s, %s, %s", e.c_str(), f->fifo ? " a FIFO" : "", w->d.desc.c_str(), w->history.c_str());
            count("items_checked", (long long)f->want.size());
            ::unlink(f->path.c_str());
        }
        ::unlink(path.c_str());
    }
}

int main(int argc, char** argv)
{
    parse_args(argc, argv);
    return run_cases(one);
}
