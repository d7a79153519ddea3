// P20: xtrctl, run as a process against real loggers and scripted servers
#include "cmd.hpp"

#include <algorithm>
#include <spawn.h>
using namespace vp;

extern char** environ;

namespace
{
    // a tenth of a queue
    struct padding { char c[XTR_SINK_CAPACITY / 10]; };
}

template<>
struct fmt::formatter<padding>
{
    template<typename C> constexpr auto parse(C& c) { return c.begin(); }
    template<typename C> auto format(const padding&, C& c) const { return c.out(); }
};

namespace
{
    struct ran
    {
        bool exited = false;
        int status = 0, sig = 0;
        std::string out, err;
        std::string str() const
        {
            return fmt::format("{} {}, stdout \"{}\", stderr \"{}\"", exited ? "exit" : "signal", exited ? status : sig, quote(out, 500), quote(err, 500));
        }
        bool ok() const { return exited && status == 0; }
    };

    std::string show(const std::vector<std::string>& args)
    {
        std::string s = "xtrctl";
        for (auto& a : args)
            s += " '" + quote(a, 60) + "'";
        return s;
    }

    ran run(const std::vector<std::string>& args)
    {
        const std::string o = opt.dir + "/out", e = opt.dir + "/err";
        ::posix_spawn_file_actions_t fa;
        ::posix_spawn_file_actions_init(&fa);
        ::posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0);
        ::posix_spawn_file_actions_addopen(&fa, 1, o.c_str(), O_CREAT|O_TRUNC|O_WRONLY, 0666);
        ::posix_spawn_file_actions_addopen(&fa, 2, e.c_str(), O_CREAT|O_TRUNC|O_WRONLY, 0666);
        ::posix_spawnattr_t at;
        ::posix_spawnattr_init(&at);
        sigset_t def;
        ::sigemptyset(&def);
        ::sigaddset(&def, SIGPIPE);
        ::posix_spawnattr_setsigdefault(&at, &def);
        ::posix_spawnattr_setflags(&at, POSIX_SPAWN_SETSIGDEF);
        std::vector<char*> v;
        std::string name = "xtrctl";
        v.push_back(name.data());
        std::vector<std::string> copy = args;
        for (auto& a : copy)
            v.push_back(a.data());
        v.push_back(nullptr);
        ::pid_t pid = -1;
        const int rc = ::posix_spawn(&pid, opt.xtrctl.c_str(), &fa, &at, v.data(), environ);
        ::posix_spawn_file_actions_destroy(&fa);
        ::posix_spawnattr_destroy(&at);
        if (rc)
            inconclusive("xtrctl cannot be run: %s", std::strerror(rc));
        ran r;
        int st = 0;
        for (int k = 0;; ++k)
        {
            const double end = now_s() + 30;
            std::optional<sched_snapshot> snap;
            ::pid_t w = 0;
            for (unsigned i = 0; now_s() < end; ++i)
            {
                w = ::waitpid(pid, &st, WNOHANG);
                if (w == pid)
                    break;
                if (i == 200)
                    snap.emplace(pid);
                ::usleep(i < 200 ? 100 : 2000);
            }
            if (w == pid)
                break;
            const bool starved = (snap && snap->starved()) || k == 0;
            if (!starved || k == 6)
            {
                ::kill(pid, SIGKILL);
                ::waitpid(pid, &st, 0);
                if (k == 6)
                    inconclusive("xtrctl was not being scheduled");
                violation("%s did not finish", show(args).c_str());
            }
        }
        r.exited = WIFEXITED(st);
        r.status = WIFEXITED(st) ? WEXITSTATUS(st) : 0;
        r.sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
        r.out = slurp(o);
        r.err = slurp(e);
        if (r.err.find("Sanitizer") != r.err.npos || r.err.find("runtime error:") != r.err.npos)
        {
            (void)!::write(saved_stderr, r.err.data(), r.err.size());
            violation("%s: memory error or undefined behaviour", show(args).c_str());
        }
        if (!r.exited)
            violation("%s died of signal %d, stderr: %.500s", show(args).c_str(), r.sig, r.err.c_str());
        count("xtrctl_runs");
        return r;
    }

    // --- a command and how to write it ---------------------------------------------
    enum class what { status, level, reopen };

    struct command
    {
        what w = what::status;
        xtr::log_level_t level = xtr::log_level_t::none;
        xd::pattern_type_t type = xd::pattern_type_t::none;
        std::string pattern;

        std::string str() const
        {
            return fmt::format("{} level={} type={} pattern=\"{}\"", w == what::status ? "status" : w == what::level ? "level" : "reopen", int(level), int(type), quote(pattern));
        }
    };

    constexpr const char* level_names[] = {"none", "fatal", "error", "warning", "info", "debug"};

    const char* pick_option(rng& r, xd::pattern_type_t t)
    {
        switch (t)
        {
        case xd::pattern_type_t::extended_regex: return r.chance(50) ? "-E" : "--extended-regexp";
        case xd::pattern_type_t::basic_regex: return r.chance(50) ? "-G" : r.chance(50) ? "--basic-regex" : "--basic-regexp";
        default: return r.chance(50) ? "-W" : "--wildcard";
        }
    }

    std::vector<std::string> args_of(const command& c, const std::string& path, rng& r)
    {
        std::vector<std::string> v;
        v.push_back(c.w == what::status ? "status" : c.w == what::level ? "level" : "reopen");
        if (c.w == what::level)
            v.push_back(level_names[int(c.level)]);
        if (c.type == xd::pattern_type_t::none)
        {
            v.push_back(path);
            return v;
        }
        const bool dash = !c.pattern.empty() && c.pattern[0] == '-';
        std::vector<std::string> rest{c.pattern, path};
        if (c.type != xd::pattern_type_t::basic_regex || r.chance(50))
        {
            // The last of several options counts
            if (r.chance(10))
                rest.insert(rest.begin(), pick_option(r, xd::pattern_type_t(r.range(1, 3))));
            // Options may be anywhere after the command
            const auto at = dash ? std::size_t(rest.size() == 3) : std::size_t(r.range(rest.size() - 2, rest.size()));
            rest.insert(rest.begin() + std::ptrdiff_t(at), pick_option(r, c.type));
        }
        if (dash)
            rest.insert(rest.end() - 2, "--");
        v.insert(v.end(), rest.begin(), rest.end());
        return v;
    }

    std::string random_name(rng& r)
    {
        static const char* stems[] = {"alpha", "Alpha", "beta", "b.t", "a+b", "x*y", "[q]", "sink one", "s(1)", "z|z", "-dash", "", "^a$", "back\\slash", "{2}", "?"};
        std::string s = stems[r.below(std::size(stems))];
        if (r.chance(50))
            s += std::to_string(r.below(30));
        if (r.chance(4))
            s += std::string(r.range(100, 140), 'n');
        return s;
    }

    command random_command(rng& r, const std::vector<std::string>& names)
    {
        command c;
        c.w = what(r.below(10) < 5 ? 0 : r.below(3));
        if (c.w == what::level)
            c.level = xtr::log_level_t(r.below(6));
        if (c.w == what::reopen || r.chance(25))
            return c;
        c.type = xd::pattern_type_t(r.range(1, 3));
        static const char* res[] = {"a", "^a", "t$", ".", ".*", "", "[ab]", "a.*[0-9]", "b\\.t", "x\\*y", "^[^a]", "sink one", "-dash", "a+", "(a|b)", "a\\|b", "x{1,2}", "\\[q\\]", "$", "[0-9][0-9]", "z", "qqqq",
            "[", "(", "*", "\\", "a{", "[[:alpha:]]", "[[:digit:]", "(a", "a)", "\\(", "{1}"};
        static const char* wild[] = {"*", "?", "a*", "*t", "[ab]*", "", "*[0-9]", "b.t*", "x\\*y*", "[!a]*", "-dash*", "sink one", "*a*", "[", "qqqq", "A*", "\\", "[[]q]*"};
        if (!names.empty() && r.chance(25))
            c.pattern = names[r.below(names.size())];
        else if (c.type == xd::pattern_type_t::wildcard)
            c.pattern = wild[r.below(std::size(wild))];
        else
            c.pattern = res[r.below(std::size(res))];
        if (r.chance(5))
            c.pattern = std::string(r.range(200, 255), 'a');
        else if (r.chance(5))
            c.pattern = std::string(r.range(100, 127), 'n') + ".*";
        if (c.pattern.size() > 255)
            c.pattern.resize(255);
        return c;
    }

    // --- a real logger ------------------------------------------------------------
    void real(rng& r)
    {
        const std::string path = cmd_path();
        auto st = std::make_shared<mem_state>();
        xtr::logger log(std::make_unique<mem_storage>(st), std::chrono::system_clock(), path);
        struct known { std::unique_ptr<xtr::sink> s; std::string name; long long dropped = 0; };
        std::vector<known> sinks;
        std::vector<std::string> names;
        for (auto n = r.chance(10) ? 0 : r.range(1, 15); n > 0; --n)
        {
            known k;
            k.name = random_name(r);
            k.s.reset(new xtr::sink(log.get_sink(k.name)));
            k.s->set_level(xtr::log_level_t(r.below(6)));
            names.push_back(k.name);
            sinks.push_back(std::move(k));
        }
        for (auto& k : sinks)
            if (r.chance(20))
            {
                // messages dropped while the background thread is held
                gate g;
                g.closed = true;
                XTR_LOG(*k.s, "{}", stall{&g});
                if (!eventually([&] { return g.waiting.load() > 0; }))
                    inconclusive("the background thread did not reach the gate");
                for (auto n = r.range(1, 5); n > 0; --n)
                    for (int j = 0; j < 100; ++j)
                        XTR_TRY_LOG(*k.s, "{}", padding{});
                g.closed = false;
                k.s->sync();
            }
        // The counts the logger has, which P06 and P13 check
        auto truth = [&] { return cmd_status(path); };
        const int n = int(r.range(3, 8));
        for (int i = 0; i < n; ++i)
        {
            const command c = random_command(r, names);
            const auto args = args_of(c, path, r);
            const model_matcher m(c.type, c.pattern, false);
            std::vector<xtr::log_level_t> before;
            for (auto& k : sinks)
                before.push_back(k.s->level());
            const int rres = r.chance(50) ? 0 : r.chance(50) ? ENOENT : EACCES;
            long reopens;
            { std::scoped_lock l{st->m}; st->reopen_result = rres; reopens = st->reopens; }
            const auto t = truth();
            const ran x = run(args);
            const std::string ctx = show(args) + ": " + x.str();
            bool expect_ok = m.valid;
            if (c.w == what::reopen)
            {
                expect_ok = rres == 0;
                std::scoped_lock l{st->m};
                if (st->reopens != reopens + 1)
                    violation("the log was reopened %ld times by %s", st->reopens - reopens, ctx.c_str());
                count("real_reopens");
            }
            else if (std::scoped_lock l{st->m}; st->reopens != reopens)
                violation("the log was reopened by %s", ctx.c_str());
            if (x.ok() != expect_ok)
                violation("the command should have %s: %s", expect_ok ? "succeeded" : "failed", ctx.c_str());
            if (!expect_ok && x.err.empty())
                violation("no error message: %s", ctx.c_str());
            if (expect_ok && !x.err.empty())
                violation("an error message though the command succeeded: %s", ctx.c_str());
            for (std::size_t k = 0; k < sinks.size(); ++k)
            {
                const auto want = c.w == what::level && expect_ok && m(sinks[k].name.substr(0, sinks[k].name.size())) ? c.level : before[k];
                if (sinks[k].s->level() != want)
                    violation("sink \"%s\" has level %s and not %s after %s", sinks[k].name.c_str(), level_names[int(sinks[k].s->level())], level_names[int(want)], ctx.c_str());
                count("levels_checked");
            }
            if (c.w != what::status)
            {
                const std::string want = expect_ok ? "Success\n" : "";
                if (x.out != want)
                    violation("expected the output \"%s\": %s", quote(want).c_str(), ctx.c_str());
                if (c.w == what::reopen && rres && x.err.find(std::strerror(rres)) == x.err.npos)
                    violation("the reason \"%s\" is missing: %s", std::strerror(rres), ctx.c_str());
            }
            else
            {
                std::vector<std::string> want;
                bool ambiguous = false;
                if (expect_ok)
                    for (auto& e : t.r)
                    {
                        // Names are truncated in replies, patterns apply to whole names.
                        // Sinks that only differ beyond that have their level and
                        // counts in common, or are not judged.
                        const known* of = nullptr;
                        for (auto& k : sinks)
                            if (std::string_view(k.name).substr(0, sizeof(xd::sink_info::name) - 1) == e.name)
                            {
                                if (of && m(of->name) != m(k.name))
                                    ambiguous = true;
                                of = &k;
                            }
                        if (m(of ? of->name : e.name))
                            want.push_back(fmt::format("{} ({}) {}K capacity, {}K used, {} dropped", e.name, level_names[int(e.si.level)], e.si.buf_capacity / 1024, e.si.buf_nbytes / 1024, e.si.dropped_count));
                    }
                std::vector<std::string> got;
                bool complete = false;
                for (auto l : split_lines(x.out, &complete))
                    got.emplace_back(l);
                std::sort(want.begin(), want.end());
                std::sort(got.begin(), got.end());
                if (!ambiguous && (!complete || got != want))
                    violation("expected %zu entries%s%s: %s", want.size(), want.empty() ? "" : ", first ", want.empty() ? "" : want[0].c_str(), ctx.c_str());
                count("entries_checked", (long long)want.size());
            }
            note_distinct(hash(c.str()));
            count("real_commands");
            if (!expect_ok)
                count("real_failures");
        }
    }

    // --- a scripted server --------------------------------------------------------
    struct server
    {
        std::string path;
        int fd = -1;
        explicit server(std::string p) : path(std::move(p))
        {
            fd = ::socket(AF_LOCAL, SOCK_SEQPACKET|SOCK_CLOEXEC, 0);
            sockaddr_un a{};
            a.sun_family = AF_LOCAL;
            std::memcpy(a.sun_path, path.data(), path.size());
            if (fd == -1 || ::bind(fd, reinterpret_cast<sockaddr*>(&a), sizeof a) || ::listen(fd, 5))
                inconclusive("cannot listen");
        }
        ~server() { ::close(fd); ::unlink(path.c_str()); }
    };

    template<typename T>
    std::string bytes_of(const T& f) { return std::string(reinterpret_cast<const char*>(&f), sizeof f); }

    std::string info_frame(rng& r, std::string* text)
    {
        xd::frame<xd::sink_info> f;
        f->level = xtr::log_level_t(r.below(6));
        const auto num = [&]() -> std::size_t { return r.chance(20) ? r() : r.chance(20) ? 0 : r.below(10000000); };
        f->buf_capacity = num();
        f->buf_nbytes = num();
        f->dropped_count = num();
        std::string name = r.chance(10) ? std::string(127, 'q') : random_name(r);
        name.resize(std::min<std::size_t>(name.size(), 127));
        std::memset(f->name, 0x7e, sizeof f->name);
        std::memcpy(f->name, name.c_str(), name.size() + 1);
        *text = fmt::format("{} ({}) {}K capacity, {}K used, {} dropped", name, level_names[int(f->level)], f->buf_capacity / 1024, f->buf_nbytes / 1024, f->dropped_count);
        return bytes_of(f);
    }

    std::string error_frame(const std::string& reason)
    {
        xd::frame<xd::error> f;
        std::memset(f->reason, 0x7e, sizeof f->reason);
        std::memcpy(f->reason, reason.c_str(), std::min(reason.size() + 1, sizeof f->reason));
        return bytes_of(f);
    }

    // something which is not a valid reply
    std::string bad_frame(rng& r)
    {
        std::string t;
        switch (r.below(9))
        {
        case 0: { std::string f = info_frame(r, &t); f.resize(r.range(1, f.size() - 1)); return f; }
        case 1: { std::string f = info_frame(r, &t); f.resize(f.size() + r.range(1, 700), '\0'); return f; }
        case 2: { xd::frame<xd::sink_info> f; std::memset(f->name, 'u', sizeof f->name); return bytes_of(f); }
        case 3: { xd::frame<xd::error> f; std::memset(f->reason, 'u', sizeof f->reason); return bytes_of(f); }
        case 4: { std::string f = error_frame("cut"); f.resize(r.range(1, f.size() - 1)); return f; }
        case 5: { std::string f = bytes_of(xd::frame<xd::success>()); f.resize(f.size() + r.range(1, 600), '\0'); return f; }
        case 6: { std::string f = bytes_of(xd::frame<xd::success>()); f.resize(r.range(1, 3)); return f; }
        case 7:
        {
            // requests and unknown identifiers
            xd::frame_header h;
            h.frame_id = r.chance(50) ? xd::frame_id_t(r.range(6, 100)) : xd::frame_id_t(r() | 0x80000000u);
            std::string f = bytes_of(h);
            f.resize(f.size() + r.below(500), 'x');
            return f;
        }
        default:
        {
            xd::frame_header h;
            h.frame_id = r.chance(30) ? xd::status::frame_id : r.chance(50) ? xd::set_level::frame_id : xd::reopen::frame_id;
            std::string f = bytes_of(h);
            f.resize(f.size() + r.below(400), '\0');
            return f;
        }
        }
    }

    void scripted(rng& r)
    {
        server sv(cmd_path());
        for (int i = 0; i < 4; ++i)
        {
            const command c = random_command(r, {});
            const auto args = args_of(c, sv.path, r);
            // The script
            std::vector<std::string> replies, entries;
            bool expect_ok = true, read_first = true, reset = false;
            std::string reason, what_;
            const auto infos = [&](std::uint64_t n) {
                for (; n > 0; --n)
                {
                    std::string t;
                    replies.push_back(info_frame(r, &t));
                    entries.push_back(t);
                }
            };
            const auto k = r.below(10);
            if (k < 4)
            {
                what_ = "a correct reply";
                if (c.w == what::status)
                    infos(r.chance(10) ? 300 : r.below(10));
                else
                    replies.push_back(bytes_of(xd::frame<xd::success>()));
            }
            else if (k < 5)
            {
                what_ = "an error reply";
                reason = r.chance(20) ? std::string(255, 'e') : fmt::format("some reason {}", r());
                replies.push_back(error_frame(reason));
                expect_ok = false;
                entries.clear();
            }
            else if (k < 6)
            {
                what_ = "a disconnection";
                expect_ok = c.w == what::status; // no sink matches
            }
            else if (k < 7)
            {
                what_ = "an immediate disconnection";
                read_first = false;
                reset = true;
                expect_ok = false;
            }
            else
            {
                what_ = "a malformed reply";
                if (c.w == what::status && r.chance(50))
                    infos(r.below(4));
                replies.push_back(bad_frame(r));
                if (r.chance(50))
                    replies.push_back(bytes_of(xd::frame<xd::success>()));
                expect_ok = false;
                entries.clear();
            }
            std::string request;
            std::thread th([&, q = rng(r())]() mutable {
                ::pollfd p{sv.fd, POLLIN, 0};
                if (::poll(&p, 1, 60000) <= 0)
                    return;
                const int fd = ::accept4(sv.fd, nullptr, nullptr, SOCK_CLOEXEC);
                if (fd == -1)
                    return;
                if (read_first)
                {
                    char b[2048];
                    p = {fd, POLLIN, 0};
                    ::poll(&p, 1, 60000);
                    const auto n = ::recv(fd, b, sizeof b, 0);
                    if (n > 0)
                        request.assign(b, std::size_t(n));
                    for (auto& x : replies)
                    {
                        if (q.chance(10))
                            ::usleep(useconds_t(q.below(2000)));
                        if (::send(fd, x.data(), x.size(), MSG_NOSIGNAL) < 0)
                            break;
                    }
                }
                ::close(fd);
            });
            const ran x = run(args);
            th.join();
            const std::string ctx = fmt::format("{} answered with {}: {}", show(args), what_, x.str());
            // The request
            if (read_first)
            {
                std::string want;
                if (c.w == what::status)
                {
                    xd::frame<xd::status> f;
                    if (request.size() == sizeof f)
                    {
                        std::memcpy(static_cast<void*>(&f), request.data(), sizeof f);
                        if (f.frame_id != xd::status::frame_id || f->pattern.type != c.type || (c.type != xd::pattern_type_t::none && (f->pattern.ignore_case || ::strnlen(f->pattern.text, 256) == 256 || c.pattern != f->pattern.text)))
                            violation("a wrong request was sent by %s", ctx.c_str());
                    }
                    else
                        violation("a request of %zu bytes was sent by %s", request.size(), ctx.c_str());
                }
                else if (c.w == what::level)
                {
                    xd::frame<xd::set_level> f;
                    if (request.size() != sizeof f)
                        violation("a request of %zu bytes was sent by %s", request.size(), ctx.c_str());
                    std::memcpy(static_cast<void*>(&f), request.data(), sizeof f);
                    if (f.frame_id != xd::set_level::frame_id || f->level != c.level || f->pattern.type != c.type || (c.type != xd::pattern_type_t::none && (f->pattern.ignore_case || ::strnlen(f->pattern.text, 256) == 256 || c.pattern != f->pattern.text)))
                        violation("a wrong request was sent by %s", ctx.c_str());
                }
                else
                {
                    xd::frame_header h{};
                    if (request.size() != sizeof(xd::frame<xd::reopen>))
                        violation("a request of %zu bytes was sent by %s", request.size(), ctx.c_str());
                    std::memcpy(&h, request.data(), sizeof h);
                    if (h.frame_id != xd::reopen::frame_id)
                        violation("a wrong request was sent by %s", ctx.c_str());
                }
                count("requests_checked");
            }
            // If the connection is closed before the request was read, xtrctl may
            // see it as closed normally
            if (reset && c.w == what::status)
            {
                if (!x.ok() && x.err.empty())
                    violation("no error message: %s", ctx.c_str());
                count("disconnections");
                continue;
            }
            if (x.ok() != expect_ok)
                violation("the command should have %s: %s", expect_ok ? "succeeded" : "failed", ctx.c_str());
            if (!expect_ok && x.err.empty())
                violation("no error message: %s", ctx.c_str());
            if (!expect_ok && what_ != "a malformed reply" && x.out.find("Success") != x.out.npos)
                violation("\"Success\" though it failed: %s", ctx.c_str());
            if (!reason.empty() && x.err.find(reason) == x.err.npos)
                violation("the reason was not printed: %s", ctx.c_str());
            if (expect_ok)
            {
                std::string want;
                if (c.w != what::status)
                    want = "Success\n";
                else
                {
                    std::vector<std::string> got;
                    bool complete = false;
                    for (auto l : split_lines(x.out, &complete))
                        got.emplace_back(l);
                    auto e = entries;
                    std::sort(e.begin(), e.end());
                    std::sort(got.begin(), got.end());
                    if (!complete || got != e)
                        violation("the %zu entries were not printed: %s", e.size(), ctx.c_str());
                    count("entries_checked", (long long)e.size());
                }
                if (c.w != what::status && x.out != want)
                    violation("expected the output \"%s\": %s", quote(want).c_str(), ctx.c_str());
            }
            count(what_ == "a malformed reply" ? "malformed_replies" : what_ == "an error reply" ? "error_replies" : what_ == "a correct reply" ? "correct_replies" : "disconnections");
            note_distinct(hash(c.str() + what_) ^ replies.size());
        }
    }

    // --- wrong usage -----------------------------------------------------------------
    void usage(rng& r)
    {
        server sv(cmd_path());
        const std::string p = sv.path, nowhere = opt.dir + "/nowhere", file = opt.dir + "/file", dead = opt.dir + "/dead";
        { const int fd = ::open(file.c_str(), O_CREAT|O_WRONLY|O_CLOEXEC, 0666); ::close(fd); }
        {
            server d(dead + "x");
            ::rename((dead + "x").c_str(), dead.c_str());
        }
        const std::string longp(300, 'a');
        const std::vector<std::vector<std::string>> bad = {
            {}, {""}, {"bogus", p}, {"Status", p}, {"stat", p}, {"status"}, {"status", "a", p, "b"}, {"status", "-E", p}, {"status", "-W", p}, {"status", "-G", p},
            {"status", "-x", "a", p}, {"status", "--bogus", "a", p}, {"level"}, {"level", p}, {"level", "bogus", p}, {"level", "Info", p}, {"level", "info"}, {"level", "", p},
            {"level", "info", "a", "b", p}, {"level", "-1", p}, {"level", "info", "-E", p}, {"level", "4", p}, {"level", "informational", p},
            {"reopen"}, {"reopen", "a", p}, {"reopen", "-E", "a", p}, {"reopen", "-E", p},
            {"status", longp, p}, {"level", "info", longp, p}, {"status", "-W", std::string(256, '*'), p}, {"level", "error", "-E", std::string(256, 'a'), p}};
        const std::vector<std::string> unreachable = {nowhere, file, dead, opt.dir, "", opt.dir + "/" + std::string(120, 'p'), "/dev/null", opt.dir + "/no/such", std::string(108, 'q'), std::string(107, 'q')};
        for (int i = 0; i < 6; ++i)
        {
            const bool net = r.chance(40);
            std::vector<std::string> args;
            if (net)
                args = args_of(random_command(r, {}), unreachable[r.below(unreachable.size())], r);
            else
                args = bad[r.below(bad.size())];
            const ran x = run(args);
            if (x.ok())
                violation("%s should have failed: %s", show(args).c_str(), x.str().c_str());
            if (x.err.empty())
                violation("no error message from %s: %s", show(args).c_str(), x.str().c_str());
            if (x.out.find("Success") != x.out.npos)
                violation("false success of %s", show(args).c_str());
            // and without bothering a server
            ::pollfd pf{sv.fd, POLLIN, 0};
            if (::poll(&pf, 1, 0) > 0)
            {
                const int fd = ::accept4(sv.fd, nullptr, nullptr, SOCK_CLOEXEC);
                char b[600];
                if (fd != -1 && ::recv(fd, b, sizeof b, MSG_DONTWAIT) > 0)
                    violation("a request was sent by %s", show(args).c_str());
                ::close(fd);
            }
            count(net ? "unreachable_sockets" : "usage_errors");
            note_distinct(hash(show(args)));
        }
        static const std::vector<std::vector<std::string>> help = {{"--help"}, {"status", "--help"}, {"level", "info", "--help"}, {"reopen", "--help"}, {"status", "-h", "x"}};
        const auto& h = help[r.below(help.size())];
        const ran x = run(h);
        if (!x.ok() || x.out.find("Usage") == x.out.npos)
            violation("%s: %s", show(h).c_str(), x.str().c_str());
        count("help_requests");
    }

    void one(rng& r, int)
    {
        switch (r.below(5))
        {
        case 0: case 1: real(r); break;
        case 2: case 3: scripted(r); break;
        default: usage(r); break;
        }
    }
}

int main(int argc, char** argv)
{
    parse_args(argc, argv);
    if (opt.xtrctl.empty())
        inconclusive("no xtrctl");
    return run_cases(one, true, false);
}
