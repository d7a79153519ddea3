// P14: hostile clients of the command socket
#include "cmd.hpp"
#include "engine.hpp"

#include <sys/resource.h>
#include <sys/wait.h>
using namespace vp;

namespace
{
    using lv = xtr::log_level_t;
    using pt = xd::pattern_type_t;

    struct world
    {
        std::string path;
        xtr::logger* log = nullptr;
        std::vector<std::unique_ptr<xtr::sink>> good, many, victims;
        std::atomic<int> levels[8] = {};
        std::atomic<bool> stop{false};
        std::atomic<int> parked{0};
    };

    void must_answer(const answer& a, const char* what)
    {
        if (!a.connected)
            violation("a well-behaved client could not connect (%s): %s", std::strerror(a.err), what);
        if (!a.eof)
            violation("a well-behaved client's %s was not answered completely: %s", what, a.str().c_str());
        for (auto& x : a.r)
            if (x.kind == reply::bad)
                violation("a well-behaved client's %s was answered with garbage", what);
    }

    // The reply to a status command for all of a known set of sinks
    void check_set(const answer& a, const std::string& prefix, std::size_t n, const char* what)
    {
        std::set<std::string> names;
        for (auto& x : a.r)
            if (x.kind != reply::info || x.name.compare(0, prefix.size(), prefix) != 0 || !names.insert(x.name).second ||
                x.si.buf_capacity != XTR_SINK_CAPACITY || x.si.dropped_count != 0)
                violation("wrong reply to a status command (%s): %s", what, a.str().c_str());
        if (names.size() != n)
            violation("%zu of %zu sinks in the reply to a status command (%s): %s", names.size(), n, what, a.str().c_str());
    }

    // --- well-behaved clients ------------------------------------------------
    // me: the good sink which belongs to this client
    void polite(world& w, std::size_t me, rng r)
    {
        const std::string mine = "good" + std::to_string(me);
        for (int i = 0; !w.stop || i < 5; ++i)
        {
            switch (r.below(4))
            {
            case 0: case 1:
            {
                const auto a = cmd_status(w.path, pt::wildcard, mine);
                must_answer(a, "status command");
                if (a.r.size() != 1 || a.r[0].kind != reply::info || a.r[0].name != mine || int(a.r[0].si.level) != w.levels[me])
                    violation("a well-behaved client got a wrong reply about its sink (level %d): %s", w.levels[me].load(), a.str().c_str());
                break;
            }
            case 2:
            {
                const int v = int(r.below(6));
                const auto a = cmd_level(w.path, lv(v), pt::extended_regex, "^" + mine + "$");
                must_answer(a, "level command");
                if (!a.ok())
                    violation("a well-behaved client's level command failed: %s", a.str().c_str());
                w.levels[me] = v;
                if (int(w.good[me]->level()) != v)
                    violation("a level command was answered with success but did not set the level");
                break;
            }
            case 3:
            {
                const auto a = cmd_status(w.path, pt::basic_regex, "^many");
                must_answer(a, "status command");
                check_set(a, "many", w.many.size(), "well-behaved client");
                break;
            }
            }
            count("polite_commands");
            if (r.chance(30))
                ::usleep(useconds_t(r.below(500)));
        }
    }

    // --- hostile clients -------------------------------------------------------
    struct bytes
    {
        std::string b;
        bool malformed = false; // certainly not a valid request
        bool status_many = false;
    };

    bytes random_request(rng& r)
    {
        bytes x;
        auto put = [&](const void* p, std::size_t n) { x.b.assign(static_cast<const char*>(p), n); };
        switch (r.below(9))
        {
        case 0: // noise. The first bytes can be an id by chance, the length then is not right
        {
            std::size_t n = r.chance(30) ? r.range(0, 5) : r.chance(80) ? r.range(0, 700) : r.range(0, 60000);
            if (n == sizeof(xd::frame<xd::set_level>) || n == sizeof(xd::frame<xd::reopen>))
                ++n;
            x.b = random_text(r, n, true);
            x.malformed = n > 0 && n != sizeof(xd::frame<xd::status>);
            break;
        }
        case 1: // an id with the wrong length
        {
            static constexpr std::uint32_t ids[] = {xd::status::frame_id, xd::set_level::frame_id, xd::reopen::frame_id};
            const auto id = ids[r.below(3)];
            put(&id, sizeof id);
            const std::size_t right = id == xd::status::frame_id ? sizeof(xd::frame<xd::status>) :
                id == xd::set_level::frame_id ? sizeof(xd::frame<xd::set_level>) : sizeof(xd::frame<xd::reopen>);
            std::size_t n;
            do n = r.chance(50) ? right + r.range(0, 4) - 2 : r.range(4, 800); while (n == right || n < 4);
            while (x.b.size() < n)
                x.b.push_back(char(r()));
            x.malformed = true;
            break;
        }
        case 2: // an unknown id, replies included
        {
            std::uint32_t id;
            do id = std::uint32_t(r.chance(50) ? r.below(12) : r()); while (id == xd::status::frame_id || id == xd::set_level::frame_id || id == xd::reopen::frame_id);
            put(&id, sizeof id);
            const std::size_t n = r.chance(30) ? sizeof(xd::frame<xd::sink_info>) : r.range(4, 600);
            while (x.b.size() < n)
                x.b.push_back(char(r()));
            x.malformed = true;
            break;
        }
        case 3: // a status command with anything in its pattern
        {
            xd::frame<xd::status> f;
            std::memset(static_cast<void*>(&f->pattern), int(r.below(256)), sizeof f->pattern);
            f->pattern.ignore_case = static_cast<unsigned char>(r());
            f->pattern.type = pt(int(r.below(5)));
            const auto fill = random_text(r, r.below(257), true);
            std::memcpy(f->pattern.text, fill.data(), std::min(fill.size(), sizeof f->pattern.text));
            // stacked repetitions take all memory: see explosive_pattern
            int plus = 0;
            for (char& c : f->pattern.text)
                if (c == '{' || (c == '+' && ++plus > 3))
                    c = 'x';
            put(&f, sizeof f);
            break;
        }
        case 4: // a level command for nobody who minds
        {
            xd::frame<xd::set_level> f;
            f->level = lv(int(r.below(6)));
            set_pattern(f->pattern, pt::wildcard, "victim*", int(r.below(256)));
            put(&f, sizeof f);
            break;
        }
        case 5: // an invalid level, with a pattern that is not terminated
        {
            xd::frame<xd::set_level> f;
            const int bad = r.chance(50) ? int(6 + r.below(1000000)) : -int(1 + r.below(1000000));
            std::memcpy(&f->level, &bad, sizeof bad);
            std::memset(f->pattern.text, '*', sizeof f->pattern.text);
            f->pattern.type = pt(int(r.below(4)));
            f->pattern.ignore_case = static_cast<unsigned char>(r());
            put(&f, sizeof f);
            x.malformed = true;
            break;
        }
        case 6: // a pattern that is invalid or does not exist
        {
            const bool st = r.chance(50);
            xd::frame<xd::status> f;
            xd::frame<xd::set_level> g;
            g->level = lv::none;
            auto& p = st ? f->pattern : g->pattern;
            if (r.chance(50))
            {
                static const char* bad[] = {"[", "\\", "[z-a]", "[[:foo:]]", "*[[.x.", "\\(", "a\\{2,1\\}"};
                set_pattern(p, pt::basic_regex, bad[r.below(std::size(bad))], int(r.below(256)));
            }
            else
            {
                set_pattern(p, pt::none, "x");
                const int t = r.chance(50) ? int(4 + r.below(1000000)) : -int(1 + r.below(1000000));
                std::memcpy(&p.type, &t, sizeof t);
            }
            if (st)
                put(&f, sizeof f);
            else
                put(&g, sizeof g);
            x.malformed = true;
            break;
        }
        default:
        {
            xd::frame<xd::status> f;
            set_pattern(f->pattern, pt::wildcard, "many*");
            put(&f, sizeof f);
            x.status_many = true;
        }
        }
        return x;
    }

    bool send_bytes(int fd, const std::string& b, rng& r)
    {
        if (r.chance(15))
        {
            // with descriptors attached, which nobody asked for
            int p[2];
            if (::pipe2(p, O_CLOEXEC) == 0)
            {
                msghdr h{};
                iovec v{const_cast<char*>(b.data()), b.size()};
                alignas(cmsghdr) char c[CMSG_SPACE(2 * sizeof(int))] = {};
                h.msg_iov = &v;
                h.msg_iovlen = 1;
                h.msg_control = c;
                h.msg_controllen = sizeof c;
                auto* m = CMSG_FIRSTHDR(&h);
                m->cmsg_level = SOL_SOCKET;
                m->cmsg_type = SCM_RIGHTS;
                m->cmsg_len = CMSG_LEN(2 * sizeof(int));
                std::memcpy(CMSG_DATA(m), p, sizeof p);
                const auto n = ::sendmsg(fd, &h, MSG_NOSIGNAL|MSG_DONTWAIT);
                ::close(p[0]);
                ::close(p[1]);
                count("requests_with_descriptors");
                return n == ::ssize_t(b.size());
            }
        }
        return ::send(fd, b.data(), b.size(), MSG_NOSIGNAL|MSG_DONTWAIT) == ::ssize_t(b.size());
    }

    void hostile(world& w, rng r, int n_ops)
    {
        struct conn { int fd; std::vector<bytes> sent; };
        std::vector<conn> parked;
        auto finish_one = [&](conn c) {
            // reads late, and slowly: the answer still has to be complete
            if (c.sent.empty() || r.chance(40))
            {
                ::close(c.fd);
                return;
            }
            answer a;
            a.connected = true;
            if (r.chance(50))
                cmd_read(c.fd, a, 40.0, int(r.range(1, 5)));
            if (r.chance(60))
            {
                ::usleep(useconds_t(r.below(2000)));
                cmd_read(c.fd, a);
                const auto& q = c.sent[0];
                for (auto& x : a.r)
                    if (x.kind == reply::bad)
                        violation("a client was answered with garbage");
                if (!a.eof && a.err == 0)
                    violation("a client was neither answered nor disconnected: %s", a.str().c_str());
                if (a.eof && q.malformed && !(a.r.empty() || (a.r.size() == 1 && a.r[0].kind == reply::error)))
                    violation("a malformed request of %zu bytes (%s) was answered with %s", q.b.size(), quote(q.b, 12).c_str(), a.str().c_str());
                if (q.malformed)
                    count("malformed_requests_checked");
                // more than one request is not promised to be answered
                if (a.eof && q.status_many && c.sent.size() == 1)
                {
                    check_set(a, "many", w.many.size(), "slow client");
                    count("slow_complete_replies");
                }
            }
            ::close(c.fd);
        };
        for (int i = 0; i < n_ops; ++i)
        {
            if (!parked.empty() && (parked.size() > 12 || r.chance(30)))
            {
                const auto k = r.below(parked.size());
                conn c = std::move(parked[k]);
                parked.erase(parked.begin() + std::ptrdiff_t(k));
                finish_one(std::move(c));
                continue;
            }
            if (r.chance(5))
            {
                // many at once, gone before they are accepted
                std::vector<int> v;
                for (auto n = r.range(1, 40); n > 0; --n)
                {
                    const int fd = ::socket(AF_LOCAL, SOCK_SEQPACKET|SOCK_CLOEXEC|SOCK_NONBLOCK, 0);
                    sockaddr_un a{};
                    a.sun_family = AF_LOCAL;
                    std::memcpy(a.sun_path, w.path.data(), w.path.size());
                    if (fd != -1 && ::connect(fd, reinterpret_cast<sockaddr*>(&a), sizeof a) == 0 && r.chance(50))
                        (void)send_bytes(fd, random_request(r).b, r);
                    if (fd != -1)
                        v.push_back(fd);
                }
                for (int fd : v)
                    ::close(fd);
                count("floods");
                continue;
            }
            conn c{cmd_connect(w.path), {}};
            if (c.fd == -1)
                violation("a client could not connect: %s", std::strerror(errno));
            count("hostile_connections");
            const auto n = r.chance(70) ? 1 : r.below(r.chance(20) ? 400 : 5);
            for (std::uint64_t k = 0; k < n; ++k)
            {
                auto x = random_request(r);
                if (x.b.size() > 4000 && n > 5)
                    continue;
                note_distinct(hash(x.b));
                if (!send_bytes(c.fd, x.b, r))
                    break;
                c.sent.push_back(std::move(x));
                count("hostile_requests");
            }
            switch (r.below(6))
            {
            case 0: ::close(c.fd); break;                                     // without reading
            case 1: ::shutdown(c.fd, SHUT_WR); parked.push_back(std::move(c)); break;
            case 2: ::shutdown(c.fd, r.chance(50) ? SHUT_RD : SHUT_RDWR); c.sent.clear(); parked.push_back(std::move(c)); break;
            default: parked.push_back(std::move(c));
            }
            maximum("parked_connections", ++w.parked);
            --w.parked;
        }
        w.parked += int(parked.size());
        // idle connections stay for the rest of the run
        while (!w.stop)
            ::usleep(1000);
        for (auto& c : parked)
            finish_one(std::move(c));
    }

    // A regular expression for which regcomp() needs exponential time and memory.
    // In a process of its own, whose memory is limited.
    void explosive_pattern()
    {
        const auto path = cmd_path();
        std::fflush(nullptr);
        const pid_t pid = ::fork();
        if (pid == 0)
        {
            ::alarm(300);
            const rlimit l{2ull << 30, 2ull << 30};
            ::setrlimit(RLIMIT_AS, &l);
            auto st = std::make_shared<mem_state>();
            xtr::logger log(std::make_unique<mem_storage>(st), std::chrono::system_clock(), path);
            auto s = log.get_sink("s");
            s.sync();
            const auto a = cmd_status(path, pt::extended_regex, "a" + std::string(60, '+'));
            s.sync();
            rusage u{};
            ::getrusage(RUSAGE_SELF, &u);
            ::_exit(u.ru_maxrss > 512 * 1024 ? 42 : a.eof ? 0 : 43);
        }
        int status = 0;
        ::waitpid(pid, &status, 0);
        if (WIFEXITED(status) && WEXITSTATUS(status) == 0)
            count("explosive_patterns_withstood");
        else
            finding("regex-explosion", "a pattern of stacked repetitions takes all time and memory there is");
        count("explosive_patterns");
        ::unlink(path.c_str());
    }

    void one(rng& r, int i)
    {
        if (i == 0 && opt.shard == 0 && !VP_ASAN && !VP_TSAN && !VP_COV)
            explosive_pattern();
        world w;
        w.path = cmd_path();
        const int fds0 = count_fds();
        std::vector<std::pair<std::uint32_t, std::uint32_t>> logged; // id, messages
        std::string data, desc;
        {
            output out(random_store(r), r, w.path);
            desc = out.desc;
            w.log = out.log.get();
            const std::size_t n_good = r.range(1, 2);
            for (std::size_t k = 0; k < n_good; ++k)
            {
                w.good.emplace_back(new xtr::sink(out.log->get_sink("good" + std::to_string(k))));
                w.levels[k] = int(lv::info);
            }
            // enough of them to fill a socket's buffer with one reply
            static constexpr int ns[] = {0, 3, 40, 400, 700};
            const int n_many = ns[r.below(XTR_SINK_CAPACITY > 100000 ? 4 : 5)];
            for (int k = 0; k < n_many; ++k)
                w.many.emplace_back(new xtr::sink(out.log->get_sink("many" + std::to_string(k))));
            for (int k = 0; k < 2; ++k)
                w.victims.emplace_back(new xtr::sink(out.log->get_sink("victim" + std::to_string(k))));
            if (n_many)
                w.many.back()->sync();
            w.victims.back()->sync();
            const int fds1 = count_fds();
            std::vector<std::thread> hs, ps, ls;
            std::atomic<int> logging{0};
            const int nl = int(r.range(1, 2)), nh = int(r.range(1, 3));
            logged.resize(std::size_t(nl));
            for (int k = 0; k < nh; ++k)
                hs.emplace_back([&w, q = rng(r()), n = int(r.range(20, opt.thorough ? 200 : 80))] { hostile(w, q, n); });
            for (std::size_t k = 0; k < n_good; ++k)
                ps.emplace_back([&w, k, q = rng(r())] { polite(w, k, q); });
            logging = nl;
            for (int k = 0; k < nl; ++k)
                ls.emplace_back([&, k, q0 = rng(r())] {
                    rng q = q0;
                    xtr::sink s = out.log->get_sink("log" + std::to_string(k));
                    auto& n = logged[std::size_t(k)].second;
                    for (int z = 0; z < (opt.thorough ? 900 : 300) || !w.stop; ++z)
                    {
                        const auto seq = ++n;
                        if (q.chance(50))
                            XTR_LOG(s, "m {} {}", k, seq);
                        else
                        {
                            std::string x = random_text(q, q.below(300), false);
                            XTR_LOG(s, "m {} {} {}", k, seq, x);
                        }
                        if (q.chance(2))
                            s.sync();
                        if (q.chance(10))
                            ::usleep(useconds_t(q.below(400)));
                        if (z == (opt.thorough ? 900 : 300))
                            --logging;
                    }
                    s.close();
                });
            // Logging goes on meanwhile
            if (!eventually([&] { return logging == 0; }, 60))
                violation("logging does not go on while clients use the command socket (%s)", desc.c_str());
            w.stop = true;
            std::atomic<int> left{int(hs.size() + ps.size() + ls.size())};
            std::thread joiner([&] {
                for (auto* v : {&hs, &ps, &ls})
                    for (auto& t : *v)
                    {
                        t.join();
                        --left;
                    }
            });
            if (!eventually([&] { return left == 0; }, 120))
                violation("logging, or the answer to a command, hangs (%s)", desc.c_str());
            joiner.join();
            // every client is gone
            const bool released = eventually([&] { return count_fds() <= fds1; }, 30);
            if (!released)
                violation("%d descriptors after all clients disconnected, %d before", count_fds(), fds1);
            // and commands are still served
            const auto a = cmd_status(w.path, pt::wildcard, "many*");
            must_answer(a, "last status command");
            check_set(a, "many", w.many.size(), "after the hostile clients");
            for (std::size_t k = 0; k < n_good; ++k)
                if (int(w.good[k]->level()) != w.levels[k])
                    violation("the level of a sink was changed by a client who did not ask for it");
            for (auto& s : w.many)
                if (s->level() != lv::info)
                    violation("the level of a sink was changed by a client who did not ask for it");
            w.good.clear();
            w.many.clear();
            w.victims.clear();
            data = out.finish();
        }
        if (!eventually([&] { return count_fds() == fds0; }, 30))
            violation("descriptors were leaked: %d, before %d", count_fds(), fds0);
        bool complete = false;
        std::vector<std::uint32_t> got(logged.size());
        for (auto l : split_lines(data, &complete))
        {
            const auto x = parse_line(l);
            unsigned k = 0, seq = 0;
            const auto p = x.ok ? x.rest.find(": m ") : x.rest.npos;
            if (!x.ok || p == x.rest.npos || std::sscanf(std::string(x.rest.substr(p, 40)).c_str(), ": m %u %u", &k, &seq) != 2 || k >= got.size())
                violation("a line in the output that was not logged: \"%s\"", quote(l).c_str());
            if (seq != ++got[k])
                violation("message %u of log%u is where message %u must be (%s)", seq, k, got[k], desc.c_str());
            count("messages_checked");
        }
        if (!complete)
            violation("the output ends in the middle of a line");
        for (std::size_t k = 0; k < got.size(); ++k)
            if (got[k] != logged[k].second)
                violation("%u of %u messages of log%zu are in the output (%s)", got[k], logged[k].second, k, desc.c_str());
        (void)i;
    }
}

int main(int argc, char** argv)
{
    parse_args(argc, argv);
    // The library must not make the process die of a client that went away
    ::signal(SIGPIPE, SIG_DFL);
    if (!VP_ASAN && !VP_TSAN)
    {
        // errors of clients are reported there
        const int n = ::open("/dev/null", O_WRONLY|O_CLOEXEC);
        ::dup2(n, 2);
        ::close(n);
    }
    return run_cases(one);
}
