// P24: the library behaves as documented in every documented way of building it
#include "engine.hpp"
#include "cmd.hpp"

#include <sys/resource.h>

using namespace vp;

namespace
{
    const char* const config =
#if defined(VP_SINGLE_HEADER)
        "single_header";
#elif VP_ROUNDED
        "rounded_capacity";
#elif !__cpp_exceptions
        "no_exceptions";
#elif !XTR_USE_IO_URING
        "no_io_uring";
#elif XTR_IO_URING_POLL
        "io_uring_poll";
#else
        "default";
#endif

    std::string tag(const char* what) { return std::string(what) + "_" + config; }

    // --- logging: every sink's messages, whole, once and in order ----------------
    void logging(rng& r)
    {
        workload wl;
        const result res = run_workload(wl, r, opt.thorough ? 800 : 300);
        std::unordered_map<std::string_view, std::pair<const stream*, std::size_t>> at;
        std::size_t expected = 0;
        for (auto& s : wl.streams)
        {
            at[s.name] = {&s, 0};
            expected += s.expected.size();
        }
        bool complete = false;
        const auto lines = split_lines(res.data, &complete);
        std::uint64_t h = hash(config);
        std::size_t n = 0;
        for (auto raw : lines)
        {
            const line l = parse_line(raw);
            const auto it = l.ok ? at.find(name_of(l)) : at.end();
            if (it == at.end())
                violation("unexpected line \"%s\" [%s, %s]", quote(raw).c_str(), config, res.desc.c_str());
            auto& [st, i] = it->second;
            if (i >= st->expected.size() || strip_ts(l) != st->expected[i])
                violation("line \"%s\" where \"%s\" was expected [%s, %s]", quote(raw).c_str(),
                    i < st->expected.size() ? quote(st->expected[i]).c_str() : "nothing", config, res.desc.c_str());
            ++i;
            ++n;
            h = mix(h ^ hash(name_of(l)));
        }
        if (n != expected || !complete)
            violation("%zu of %zu messages in the output [%s, %s]", n, expected, config, res.desc.c_str());
        note_distinct(h);
        count("messages_checked", (long long)n);
        count(tag("messages"), (long long)n);
        if (r.chance(20))
            sample(fmt::format("{}: {} -> {} messages", config, res.desc, n));
    }

    // --- capacity: what is asked for, or more; and that much can be waiting ---------
    gate g_open;

    void capacity(rng& r)
    {
        auto st = std::make_shared<mem_state>();
        std::string want;
        {
            xtr::logger log(std::make_unique<mem_storage>(st, 1, 1000, 1000), std::chrono::system_clock(), xtr::null_command_path);
            auto s = log.get_sink("cap");
            const std::size_t c = s.capacity();
            if (c < XTR_SINK_CAPACITY)
                violation("capacity() is %zu although %zu was asked for [%s]", c, std::size_t(XTR_SINK_CAPACITY), config);
            gate g;
            g.closed = true;
            XTR_LOG(s, "{}", stall{&g});
            want += fmt::format("{}\n", stall{&g_open});
            if (!eventually([&] { return g.waiting.load() != 0; }))
                violation("the background thread did not start to print a message [%s]", config);
            // The record being consumed still takes up space; a quarter of the
            // capacity covers it
            std::size_t used = 0, n = 0;
            const std::size_t each = 8 + r.below(3) * 8;
            while (used + 40 + each <= c - c / 4)
            {
                const std::uint64_t v = r();
                if (each == 8)
                    XTR_TRY_LOG(s, "{}", v);
                else if (each == 16)
                    XTR_TRY_LOG(s, "{} {}", v, n);
                else
                    XTR_TRY_LOG(s, "{} {} {}", v, n, n);
                want += each == 8 ? fmt::format("{}\n", v) : each == 16 ? fmt::format("{} {}\n", v, n) : fmt::format("{} {} {}\n", v, n, n);
                // (the function, the timestamp and the arguments)
                used += 40 + each;
                ++n;
            }
            g.closed = false;
            s.sync();
            count("messages_checked", (long long)n);
            count(tag("capacity"));
        }
        std::string got;
        for (auto raw : split_lines(st->data))
        {
            const line l = parse_line(raw);
            const auto at = l.rest.find(": ");
            if (!l.ok || at == l.rest.npos)
                violation("unexpected line \"%s\" [%s]", quote(raw).c_str(), config);
            got += std::string(l.rest.substr(at + 2)) + "\n";
        }
        if (got != want)
            violation("messages that fit the capacity: the output is \"%s\", expected \"%s\" [%s]", quote(got, 1500).c_str(), quote(want, 1500).c_str(), config);
    }

    // --- commands -----------------------------------------------------------------
    void commands(rng& r)
    {
        static int n = 0;
        const std::string path = opt.dir + "/cl" + std::to_string(n++), old = path + ".1", cp = cmd_path();
        std::string want_old, want_new;
        {
            xtr::logger log(path.c_str(), std::chrono::system_clock(), cp);
            auto a = log.get_sink("alpha"), b = log.get_sink("beta"), c = log.get_sink("gamma");
            std::string* w = &want_old;
            const auto say = [&](xtr::sink& s, const char* name)
            {
                const int x = int(r.below(100000));
                const std::string t = random_text(r, r.below(60), true);
                XTR_LOGL(debug, s, "debug {} {}", x, t);
                if (s.level() >= xtr::log_level_t::debug)
                    *w += fmt::format("D {} debug {} {}\n", name, x, model_sanitize(t));
                XTR_LOGL(error, s, "error {} {}", t, x);
                if (s.level() >= xtr::log_level_t::error)
                    *w += fmt::format("E {} error {} {}\n", name, model_sanitize(t), x);
                s.sync();
            };
            const auto all = [&] { say(a, "alpha"); say(b, "beta"); say(c, "gamma"); };
            all();
            // status
            const auto st = cmd_status(cp);
            std::multiset<std::string> got;
            for (auto& x : st.r)
                if (x.kind == reply::info)
                    got.insert(x.name);
            if (!st.eof || got != std::multiset<std::string>{"alpha", "beta", "gamma"} || st.r.size() != 3)
                violation("status replied %s [%s]", st.str().c_str(), config);
            // levels, with every kind of pattern
            struct { xd::pattern_type_t t; const char* text; bool m[3]; } const ps[] = {
                {xd::pattern_type_t::none, "", {true, true, true}}, {xd::pattern_type_t::extended_regex, "^(alpha|be)", {true, true, false}},
                {xd::pattern_type_t::basic_regex, "ta$", {false, true, false}}, {xd::pattern_type_t::wildcard, "*m*", {false, false, true}}};
            xtr::sink* const ss[] = {&a, &b, &c};
            for (int i = 0; i < 4; ++i)
            {
                const auto& p = ps[r.below(4)];
                const auto lv = xtr::log_level_t(r.below(6));
                xtr::log_level_t e[3];
                for (int k = 0; k < 3; ++k)
                    e[k] = p.m[k] ? lv : ss[k]->level();
                const auto an = cmd_level(cp, lv, p.t, p.text);
                if (!an.ok())
                    violation("the level command replied %s [%s]", an.str().c_str(), config);
                for (int k = 0; k < 3; ++k)
                    if (ss[k]->level() != e[k])
                        violation("sink %d has level %d after a level command, expected %d [%s]", k, int(ss[k]->level()), int(e[k]), config);
                all();
            }
            const auto bad = cmd_level(cp, xtr::log_level_t::info, xd::pattern_type_t::extended_regex, "(");
            if (!bad.failed())
                violation("an invalid pattern replied %s [%s]", bad.str().c_str(), config);
            // rotation
            all();
            if (::rename(path.c_str(), old.c_str()) != 0)
                inconclusive("rename failed");
            const auto ro = cmd_reopen(cp);
            if (!ro.ok())
                violation("reopen replied %s [%s]", ro.str().c_str(), config);
            w = &want_new;
            all();
            count("commands_checked", 7);
            count(tag("commands"), 7);
        }
        for (auto& [f, w] : {std::pair(old, want_old), std::pair(path, want_new)})
        {
            std::string got;
            const std::string data = slurp(f);
            for (auto raw : split_lines(data))
            {
                const line l = parse_line(raw);
                const auto at = l.rest.find(": ");
                if (!l.ok || at == l.rest.npos)
                    violation("unexpected line \"%s\" [%s]", quote(raw).c_str(), config);
                got += std::string(l.level.substr(0, 2)) + std::string(name_of(l)) + std::string(l.rest.substr(at + 1)) + "\n";
            }
            if (got != w)
                violation("%s contains \"%s\", expected \"%s\" [%s]", f == old ? "the rotated file" : "the new file", quote(got, 1500).c_str(), quote(w, 1500).c_str(), config);
            ::unlink(f.c_str());
        }
        note_distinct(hash(want_old + want_new));
    }

    // --- errors ---------------------------------------------------------------------
    enum exc_t { none, invalid_argument, system_error, any };

    struct outcome
    {
        bool exited = false, aborted = false;
        int code = 0;
        std::string err;
    };

    // Runs f in a process of its own; its stderr is recorded
    template<typename F>
    outcome child(F&& f)
    {
        int p[2];
        if (::pipe2(p, O_CLOEXEC) != 0)
            inconclusive("pipe failed");
        std::fflush(nullptr);
        const pid_t pid = ::fork();
        if (pid == -1)
            inconclusive("fork failed");
        if (pid == 0)
        {
            perturb_off();
            ::dup2(p[1], 2);
            ::alarm(60);
            const rlimit core{0, 0};
            ::setrlimit(RLIMIT_CORE, &core);
            ::_exit(f());
        }
        ::close(p[1]);
        outcome o;
        char b[4096];
        for (;;)
        {
            const auto n = ::read(p[0], b, sizeof b);
            if (n <= 0)
                break;
            o.err.append(b, std::size_t(n));
        }
        ::close(p[0]);
        int st = 0;
        while (::waitpid(pid, &st, 0) == -1 && errno == EINTR) {}
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM)
            inconclusive("a child did not finish");
        o.exited = WIFEXITED(st);
        o.code = WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st);
        o.aborted = WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT;
        return o;
    }

    // Returns 0 if f did not fail, 1 + its kind if it threw; what it threw is on stderr
    template<typename F>
    int thrown([[maybe_unused]] F&& f)
    {
#if __cpp_exceptions
        try
        {
            f();
        }
        catch (const std::system_error& e)
        {
            std::fprintf(stderr, "%s\n", e.what());
            return 1 + system_error;
        }
        catch (const std::invalid_argument& e)
        {
            std::fprintf(stderr, "%s\n", e.what());
            return 1 + invalid_argument;
        }
        catch (const std::exception& e)
        {
            std::fprintf(stderr, "%s\n", e.what());
            return 1 + any;
        }
#else
        f();
#endif
        return 0;
    }

    template<typename F>
    void fails(const char* what, exc_t type, const std::string& text, F&& f)
    {
        const outcome o = child([&] { return thrown(f); });
#if __cpp_exceptions
        if (!o.exited || o.code < 1 || (type != any && o.code != 1 + type))
            violation("%s: %s %d instead of the exception; stderr \"%s\" [%s]", what, o.exited ? "exit" : "signal", o.code, quote(o.err).c_str(), config);
#else
        (void)type;
        if (!o.aborted)
            violation("%s: %s %d instead of abort; stderr \"%s\" [%s]", what, o.exited ? "exit" : "signal", o.code, quote(o.err).c_str(), config);
#endif
        if (o.err.find(text) == o.err.npos)
            violation("%s: the message is \"%s\" and does not contain \"%s\" [%s]", what, quote(o.err).c_str(), text.c_str(), config);
        count("errors_checked");
        count(tag("errors"));
        note_distinct(hash(std::string(what) + config));
    }

    void errors(rng& r)
    {
        const std::string missing = opt.dir + "/missing" + std::to_string(r.below(1000)) + "/log";
        fails("a path in a missing directory", system_error, missing, [&] { xtr::logger l(missing.c_str(), std::chrono::system_clock(), xtr::null_command_path); });
        fails("make_fd_storage of a path in a missing directory", system_error, missing, [&] { (void)xtr::make_fd_storage(missing.c_str()); });
        fails("a bad descriptor", system_error, std::strerror(EBADF), [&] { (void)xtr::make_fd_storage(-1); });
        fails("a bad descriptor with posix_fd_storage", system_error, std::strerror(EBADF), [&] { xtr::posix_fd_storage s(-1); });
        fails("an invalid level", invalid_argument, "", [&] { (void)xtr::log_level_from_string(r.chance(50) ? "bogus" : ""); });
#if !VP_ASAN // its runtime needs descriptors
        const auto full = [&](auto&& f)
        {
            // no descriptors left for the memory of another sink
            xtr::logger l(std::make_unique<mem_storage>(std::make_shared<mem_state>(), 1, 100, 100), std::chrono::system_clock(), xtr::null_command_path);
            auto s = l.get_sink("s");
            rlimit lim{0, 0};
            ::getrlimit(RLIMIT_NOFILE, &lim);
            lim.rlim_cur = 3;
            ::setrlimit(RLIMIT_NOFILE, &lim);
            return thrown([&] { f(l, s); });
        };
        // (such memory may also be had without a descriptor, so not failing is not an error)
        for (int i = 0; i < 2; ++i)
        {
            const outcome o = child([&] { return full([&](xtr::logger& l, xtr::sink& s) { if (i == 0) auto t = l.get_sink("t"); else xtr::sink t(s); }); });
            if (o.exited && o.code == 0)
                continue;
#if __cpp_exceptions
            const bool ok = o.exited;
#else
            const bool ok = o.aborted;
#endif
            if (!ok || o.err.empty())
                violation("no memory for a sink: %s %d, stderr \"%s\" [%s]", o.exited ? "exit" : "signal", o.code, quote(o.err).c_str(), config);
            count("errors_checked");
            count(tag("errors"));
        }
#endif
        // an error of the background thread: reported, and the program goes on
        // unless there are no exceptions
        const outcome o = child(
            [&]
            {
                const int fd = ::open("/dev/full", O_WRONLY|O_CLOEXEC);
                if (fd == -1)
                    return 77;
                xtr::logger l(std::make_unique<xtr::posix_fd_storage>(fd, "", 64), std::chrono::system_clock(), xtr::null_command_path);
                auto s = l.get_sink("s");
                for (int i = 0; i < 10; ++i)
                    XTR_LOG(s, "nowhere to go {}", i);
                s.sync();
                return 0;
            });
        if (!(o.exited && o.code == 77))
        {
#if __cpp_exceptions
            const bool ok = o.exited && o.code == 0;
#else
            const bool ok = o.aborted;
#endif
            if (!ok || o.err.find(std::strerror(ENOSPC)) == o.err.npos)
                violation("a full device: %s %d, stderr \"%s\" [%s]", o.exited ? "exit" : "signal", o.code, quote(o.err).c_str(), config);
            count("errors_checked");
            count(tag("errors"));
        }
        // fatal statements
        const std::string path = opt.dir + "/fatal";
        const outcome f = child(
            [&]
            {
                xtr::logger l(path.c_str(), std::chrono::system_clock(), xtr::null_command_path);
                auto s = l.get_sink("s");
                XTR_LOG(s, "before");
                XTR_LOGL(fatal, s, "the end {}", std::string("is near"));
                return 0;
            });
        const std::string data = slurp(path);
        ::unlink(path.c_str());
        if (!f.aborted || data.find(": before\n") == data.npos || data.find(": the end is near\n") == data.npos)
            violation("a fatal statement: %s %d, output \"%s\" [%s]", f.exited ? "exit" : "signal", f.code, quote(data).c_str(), config);
        count("errors_checked");
        count(tag("errors"));
    }
}

static int err_fd = -1;

// Nothing has gone wrong, so nothing has been reported
static void check_stderr()
{
    if (err_fd == -1)
        return;
    std::fflush(stderr);
    char b[2048];
    const auto n = ::pread(err_fd, b, sizeof b, 0);
    const std::string_view s(b, std::size_t(std::max<ssize_t>(n, 0)));
    // which only happens if the kernel does not let us use io_uring
    if (!s.empty() && !s.starts_with("Falling back"))
        violation("reported on stderr although there was no error: \"%s\" [%s]", quote(s, 600).c_str(), config);
    count("stderr_checked");
}

static void one(rng& r, int c)
{
    if (c % 12 == 3)
    {
        errors(r);
        return;
    }
    if (c % 4 == 1)
        commands(r);
    else if (c % 12 == 10)
        capacity(r);
    else
        logging(r);
    check_stderr();
}

int main(int argc, char** argv)
{
    parse_args(argc, argv);
#if XTR_USE_IO_URING && XTR_IO_URING_POLL
    // whether the kernel allows it to us
    {
        ::io_uring ring;
        if (::io_uring_queue_init(1, &ring, IORING_SETUP_SQPOLL) != 0)
        {
            count("polling_not_available");
            write_stats();
            return 0;
        }
        ::io_uring_queue_exit(&ring);
    }
#endif
#if !VP_ASAN // whose reports belong on stderr
    err_fd = ::open((opt.dir + "/stderr").c_str(), O_CREAT|O_RDWR|O_TRUNC|O_APPEND|O_CLOEXEC, 0666);
    if (err_fd == -1 || ::dup2(err_fd, 2) == -1)
        inconclusive("stderr cannot be redirected");
#endif
    const int rc = run_cases(one);
    ::dup2(saved_stderr, 2);
    return rc;
}
