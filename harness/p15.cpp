// P15: reopening the log while it is in use
#include "cmd.hpp"
#include "engine.hpp"

#include <sys/stat.h>
using namespace vp;

namespace
{
    using lv = xtr::log_level_t;

    struct segment
    {
        std::string file;    // where it is now
        std::string initial; // what was in it before
    };

    struct range_ { int lo, hi; }; // segments in which a message may be

    struct logging
    {
        std::uint32_t id = 0;
        std::vector<range_> where; // by sequence number - 1
        std::size_t bounded = 0;   // messages with an upper bound
    };

    struct world
    {
        std::string path, cmd;
        std::unique_ptr<xtr::logger> log;
        std::string desc;
        std::atomic<int> at_least{0}; // messages logged from now on are in this segment or a later one
        std::atomic<int> at_most{0};  // and so far no later one than this exists
        std::atomic<bool> stop{false};
        std::vector<segment> segs;
    };

    void logger_thread(world& w, logging& l, rng r, int style)
    {
        xtr::sink s = w.log->get_sink("t" + std::to_string(l.id));
        auto bound = [&] {
            s.sync();
            // everything has been written, so not to a file made later than now
            const int hi = w.at_most;
            for (; l.bounded < l.where.size(); ++l.bounded)
                l.where[l.bounded].hi = hi;
        };
        for (int z = 0; !w.stop || z < 50; ++z)
        {
            const auto seq = l.where.size() + 1;
            l.where.push_back({w.at_least, INT_MAX});
            if (r.chance(50))
                XTR_LOG(s, "m {} {} #end", l.id, seq);
            else
            {
                std::string x = random_text(r, r.below(style == 1 ? 1500 : 200), false);
                XTR_LOG(s, "m {} {} {} #end", l.id, seq, x);
            }
            if (r.chance(1))
                bound();
            if (style == 0 ? r.chance(30) : style == 1 ? r.chance(4) : r.chance(90))
                ::usleep(useconds_t(r.below(style == 2 ? 3000 : 300)));
            // no more than is useful
            if (l.where.size() > 6000)
                ::usleep(2000);
        }
        bound();
        s.close();
    }

    void move(const std::string& a, const std::string& b)
    {
        if (::rename(a.c_str(), b.c_str()) != 0)
            inconclusive("rename %s: %s", a.c_str(), std::strerror(errno));
    }

    void put(const std::string& f, const std::string& text)
    {
        FILE* p = std::fopen(f.c_str(), "w");
        if (!p || std::fwrite(text.data(), 1, text.size(), p) != text.size() || std::fclose(p) != 0)
            inconclusive("cannot write %s", f.c_str());
    }

    void must(const answer& a, bool ok, const world& w, const char* what)
    {
        if (ok ? !a.ok() : !a.failed())
            violation("reopen (%s, %s) was answered with: %s", what, w.desc.c_str(), a.str().c_str());
    }

    void rotations(rng& r, int i)
    {
        world w;
        static std::atomic<int> n{0};
        const int k = n++;
        const std::string dir = opt.dir + "/d" + std::to_string(k), dir2 = dir + ".moved";
        ::mkdir(dir.c_str(), 0777);
        w.path = dir + "/log";
        w.cmd = cmd_path();
        const int fds0 = count_fds();
        int fd = -1;
        std::string initial;
        if (r.chance(30))
        {
            initial = "there before\n";
            put(w.path, initial);
        }
        const auto kind = r.below(5);
        if (kind != 0)
        {
            fd = ::open(w.path.c_str(), O_CREAT|O_RDWR|O_CLOEXEC|(r.chance(50) ? O_APPEND : 0), 0666);
            if (fd == -1)
                inconclusive("open failed");
            ::lseek(fd, 0, SEEK_END);
        }
        using clock = std::chrono::system_clock;
        switch (kind)
        {
        case 0:
            w.desc = "logger(path)";
            w.log = std::make_unique<xtr::logger>(w.path.c_str(), clock(), w.cmd);
            break;
        case 1:
        {
            static constexpr std::size_t szs[] = {1, 60, 512, 4096, 65536};
            const auto sz = szs[r.below(5)];
            w.desc = fmt::format("posix({})", sz);
            w.log = std::make_unique<xtr::logger>(std::make_unique<xtr::posix_fd_storage>(fd, w.path, sz), clock(), w.cmd);
            break;
        }
        case 2: case 3:
        {
            static constexpr std::size_t szs[] = {64, 100, 512, 4096, 65536};
            static constexpr std::size_t qs[] = {1, 2, 4, 16, 64};
            static constexpr std::size_t bs[] = {1, 2, 3, 8, 32};
            const auto sz = szs[r.below(5)], q = qs[r.below(5)], b = bs[r.below(5)];
            w.desc = fmt::format("io_uring({},{},{})", sz, q, b);
            w.log = std::make_unique<xtr::logger>(std::make_unique<xtr::io_uring_fd_storage>(fd, w.path, sz, q, b), clock(), w.cmd);
            break;
        }
        case 4:
            w.desc = "make_fd_storage(fd, path)";
            w.log = std::make_unique<xtr::logger>(xtr::make_fd_storage(fd, w.path), clock(), w.cmd);
            break;
        }
        if (r.chance(50) && fd != -1)
        {
            ::close(fd);
            fd = -1;
        }
        count("storage_" + w.desc.substr(0, w.desc.find('(')));
        w.segs.push_back({w.path, initial});

        const bool second = r.chance(20); // another client which reopens all the time
        const int nt = int(r.range(1, 3)), style = int(r.below(3));
        std::vector<logging> ls(static_cast<std::size_t>(nt));
        std::vector<std::thread> ts;
        for (int t = 0; t < nt; ++t)
        {
            ls[std::size_t(t)].id = std::uint32_t(t);
            ts.emplace_back([&, t, q = rng(r())] { logger_thread(w, ls[std::size_t(t)], q, style); });
        }
        std::thread other;
        if (second)
            other = std::thread([&, q0 = rng(r())] {
                rng q = q0;
                while (!w.stop)
                {
                    must(cmd_reopen(w.cmd), true, w, "second client");
                    count("reopened");
                    ::usleep(useconds_t(q.below(2000)));
                }
            });
        const auto rounds = r.range(1, opt.thorough ? 30 : 12);
        int moved = 0;
        for (std::uint64_t z = 0; z < rounds; ++z)
        {
            ::usleep(useconds_t(r.chance(40) ? r.below(200) : r.below(6000)));
            auto& cur = w.segs.back();
            const auto x = second ? r.below(4) : r.below(10);
            if (x < 2) // nothing has happened to the file
            {
                if (cur.file != w.path)
                    continue;
                must(cmd_reopen(w.cmd), true, w, "same file");
                count("reopened_same_file");
                count("reopened");
            }
            else if (x < 8) // rotated
            {
                ++w.at_most;
                std::string init;
                if (cur.file == w.path)
                {
                    const std::string to = dir + "/old." + std::to_string(moved++);
                    if (r.chance(70))
                        move(w.path, to);
                    else
                    {
                        (void)!::link(w.path.c_str(), to.c_str());
                        ::unlink(w.path.c_str());
                    }
                    cur.file = to;
                }
                if (!second && r.chance(35))
                {
                    init = fmt::format("existing contents {}\n{}", z, r.chance(50) ? "" : "second line\n");
                    put(w.path, init);
                    count("appended_to_existing");
                }
                w.segs.push_back({w.path, init});
                must(cmd_reopen(w.cmd), true, w, "rotated");
                ++w.at_least;
                count("rotations");
                count("reopened");
            }
            else // fails
            {
                const bool was_here = cur.file == w.path;
                std::string to;
                if (was_here)
                {
                    to = dir + "/old." + std::to_string(moved++);
                    move(w.path, to);
                    cur.file = to;
                }
                answer a;
                switch (r.below(3))
                {
                case 0: // a directory in its place
                    ::mkdir(w.path.c_str(), 0777);
                    a = cmd_reopen(w.cmd);
                    ::rmdir(w.path.c_str());
                    break;
                case 1: // no directory for it
                    move(dir, dir2);
                    a = cmd_reopen(w.cmd);
                    move(dir2, dir);
                    break;
                case 2: // a link to itself
                    (void)!::symlink(w.path.c_str(), w.path.c_str());
                    a = cmd_reopen(w.cmd);
                    ::unlink(w.path.c_str());
                    break;
                }
                must(a, false, w, "impossible");
                if (was_here && r.chance(50))
                {
                    move(to, w.path);
                    cur.file = w.path;
                }
                count("failed_reopens");
            }
        }
        ::usleep(useconds_t(r.below(3000)));
        w.stop = true;
        if (other.joinable())
            other.join();
        for (auto& t : ts)
            t.join();
        w.log.reset();
        if (fd != -1)
        {
            if (::fcntl(fd, F_GETFD) == -1)
                violation("the user's descriptor was closed (%s)", w.desc.c_str());
            ::close(fd);
        }
        // (ThreadSanitizer may start a symbolizer)
        if (!VP_TSAN && !eventually([&] { return count_fds() == fds0; }, 20))
            violation("descriptors were leaked: %d, before %d (%s)", count_fds(), fds0, w.desc.c_str());

        // All files together
        std::vector<std::size_t> next(ls.size());
        std::string shape;
        for (std::size_t g = 0; g < w.segs.size(); ++g)
        {
            const auto& sg = w.segs[g];
            const std::string data = slurp(sg.file);
            if (data.compare(0, sg.initial.size(), sg.initial) != 0)
                violation("what was in the file before was overwritten (%s): \"%s\"", w.desc.c_str(), quote(data).c_str());
            bool complete = false;
            long long lines = 0;
            for (auto l : split_lines(std::string_view(data).substr(sg.initial.size()), &complete))
            {
                const auto p = parse_line(l);
                unsigned id = 0, seq = 0;
                const auto c = p.ok ? p.rest.find(": m ") : p.rest.npos;
                if (!p.ok || c == p.rest.npos || std::sscanf(std::string(p.rest.substr(c, 40)).c_str(), ": m %u %u", &id, &seq) != 2 ||
                    id >= ls.size() || seq == 0 || seq > ls[id].where.size() || !l.ends_with(" #end") || l.find(" #end", c) != l.size() - 5)
                    violation("file %zu of %zu has a line that was not logged, or not whole (%s): \"%s\"", g, w.segs.size(), w.desc.c_str(), quote(l).c_str());
                if (seq != ++next[id])
                    violation("message %u of thread %u is where message %zu must be, in file %zu of %zu (%s)", seq, id, next[id], g, w.segs.size(), w.desc.c_str());
                const auto& rg = ls[id].where[seq - 1];
                if (int(g) < rg.lo)
                    violation("message %u of thread %u is in file %zu, but was logged after the reply to the reopen command which opened file %d (%s)", seq, id, g, rg.lo, w.desc.c_str());
                if (int(g) > rg.hi)
                    violation("message %u of thread %u is in file %zu, but was synced before file %d was replaced (%s)", seq, id, g, rg.hi, w.desc.c_str());
                ++lines;
            }
            if (!complete)
                violation("file %zu of %zu does not end with a whole line (%s)", g, w.segs.size(), w.desc.c_str());
            count("messages_checked", lines);
            shape += std::to_string(lines) + ",";
        }
        for (std::size_t t = 0; t < ls.size(); ++t)
            if (next[t] != ls[t].where.size())
                violation("%zu of %zu messages of thread %zu are in the %zu files (%s)", next[t], ls[t].where.size(), t, w.segs.size(), w.desc.c_str());
        count("files_checked", (long long)w.segs.size());
        note_distinct(hash(w.desc + shape));
        for (auto& sg : w.segs)
            ::unlink(sg.file.c_str());
        ::rmdir(dir.c_str());
        (void)i;
    }

    // Storages which have no path
    void pathless(rng& r)
    {
        const std::string f = opt.dir + "/pathless", cmd = cmd_path();
        int fd = ::open(f.c_str(), O_CREAT|O_TRUNC|O_RDWR|O_CLOEXEC, 0666);
        if (fd == -1)
            inconclusive("open failed");
        std::unique_ptr<xtr::logger> log;
        FILE* fp = nullptr;
        std::string desc;
        using clock = std::chrono::system_clock;
        switch (r.below(5))
        {
        case 0: desc = "posix"; log = std::make_unique<xtr::logger>(std::make_unique<xtr::posix_fd_storage>(fd), clock(), cmd); break;
        case 1: desc = "io_uring"; log = std::make_unique<xtr::logger>(std::make_unique<xtr::io_uring_fd_storage>(fd), clock(), cmd); break;
        case 2: desc = "make_fd_storage"; log = std::make_unique<xtr::logger>(xtr::make_fd_storage(fd), clock(), cmd); break;
        case 3: desc = "FILE*"; fp = ::fdopen(::dup(fd), "w"); log = std::make_unique<xtr::logger>(xtr::null_reopen_path, fp, clock(), cmd); break;
        case 4: desc = "null_reopen_path"; log = std::make_unique<xtr::logger>(xtr::make_fd_storage(fd, xtr::null_reopen_path), clock(), cmd); break;
        }
        const unsigned n = 200;
        {
            xtr::sink s = log->get_sink("s");
            std::atomic<bool> done{false};
            std::thread t([&] {
                do
                {
                    const auto a = cmd_reopen(cmd);
                    if (!a.failed())
                        violation("reopening a log without a path (%s) was answered with: %s", desc.c_str(), a.str().c_str());
                    count("reopens_without_path");
                } while (!done);
            });
            for (unsigned k = 1; k <= n; ++k)
            {
                XTR_LOG(s, "m {} #end", k);
                if (r.chance(20))
                    ::usleep(useconds_t(r.below(100)));
            }
            done = true;
            t.join();
        }
        log.reset();
        if (fp)
            std::fclose(fp);
        ::close(fd);
        unsigned k = 0;
        const std::string data = slurp(f);
        for (auto l : split_lines(data))
        {
            unsigned q = 0;
            const auto c = l.find(": m ");
            if (c == l.npos || std::sscanf(std::string(l.substr(c)).c_str(), ": m %u", &q) != 1 || q != ++k)
                violation("after a failed reopen (%s) there is \"%s\" where message %u must be", desc.c_str(), quote(l).c_str(), k);
        }
        if (k != n)
            violation("after a failed reopen (%s) %u of %u messages are in the file", desc.c_str(), k, n);
        count("messages_checked", k);
        ::unlink(f.c_str());
    }

    void one(rng& r, int i)
    {
        if (i % 10 == 9)
            pathless(r);
        else
            rotations(r, i);
    }
}

int main(int argc, char** argv)
{
    parse_args(argc, argv);
    return run_cases(one);
}
