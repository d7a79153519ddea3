// P09: log levels filter exactly the statements they should
#include "engine.hpp"
#include "cmd.hpp"
#include <sys/mman.h>
using namespace vp;

namespace
{
    constexpr bool ndebug = XTR_NDEBUG;
    using lv = xtr::log_level_t;
    constexpr const char* prefix[] = {"", "F ", "E ", "W ", "I ", "D "};

    int evals;             // how often an argument was evaluated
    int ts_evals;          // how often a timestamp argument was
    int ev(int v) { ++evals; return v; }
    std::string evs(const std::string& v) { ++evals; return v; }
    const char* evc(const char* v) { ++evals; return v; }
    xtr::timespec evt() { ++ts_evals; return xtr::timespec(std::timespec{1000000000, 0}); }

    struct made { bool levelled; bool ts; int args; std::string text; };

    // One statement with a level. FORM: with arguments, without, with strings
#define VP_FORMS(MACRO, TSARG, ...) \
    switch (form) \
    { \
    case 0: m.args = 1; m.text = fmt::format("m {}", q); MACRO(__VA_ARGS__ s TSARG, "m {}", ev(q)); break; \
    case 1: m.args = 2; m.text = fmt::format("m {} {}", q, str); MACRO(__VA_ARGS__ s TSARG, "m {} {}", ev(q), evs(str)); break; \
    case 2: m.args = 3; m.text = fmt::format("m {} {} {}", q, str, 2.5); MACRO(__VA_ARGS__ s TSARG, "m {} {} {}", ev(q), evc(str.c_str()), (++evals, 2.5)); break; \
    case 3: m.args = 0; m.text = "m none"; MACRO(__VA_ARGS__ s TSARG, "m none"); break; \
    }
#define VP_COMMA ,
#define VP_EVT , evt()
#define VP_NOTHING
#define VP_LEVELLED(LEVEL) \
    switch (macro) \
    { \
    case 0: VP_FORMS(XTR_LOGL, VP_NOTHING, LEVEL,) break; \
    case 1: VP_FORMS(XTR_TRY_LOGL, VP_NOTHING, LEVEL,) break; \
    case 2: m.ts = true; VP_FORMS(XTR_LOGL_TS, VP_EVT, LEVEL,) break; \
    case 3: m.ts = true; VP_FORMS(XTR_TRY_LOGL_TS, VP_EVT, LEVEL,) break; \
    case 4: VP_FORMS(XTR_LOGL_RTC, VP_NOTHING, LEVEL,) break; \
    case 5: VP_FORMS(XTR_TRY_LOGL_RTC, VP_NOTHING, LEVEL,) break; \
    case 6: VP_FORMS(XTR_LOGL_TSC, VP_NOTHING, LEVEL,) break; \
    case 7: VP_FORMS(XTR_TRY_LOGL_TSC, VP_NOTHING, LEVEL,) break; \
    }

    // macro 0-7: levelled, 8-15: not
    made statement(xtr::sink& s, int macro, lv level, int form, int q, const std::string& str)
    {
        made m{macro < 8, false, 0, {}};
        switch (macro)
        {
        case 8: VP_FORMS(XTR_LOG, VP_NOTHING,) return m;
        case 9: VP_FORMS(XTR_TRY_LOG, VP_NOTHING,) return m;
        case 10: m.ts = true; VP_FORMS(XTR_LOG_TS, VP_EVT,) return m;
        case 11: m.ts = true; VP_FORMS(XTR_TRY_LOG_TS, VP_EVT,) return m;
        case 12: VP_FORMS(XTR_LOG_RTC, VP_NOTHING,) return m;
        case 13: VP_FORMS(XTR_TRY_LOG_RTC, VP_NOTHING,) return m;
        case 14: VP_FORMS(XTR_LOG_TSC, VP_NOTHING,) return m;
        case 15: VP_FORMS(XTR_TRY_LOG_TSC, VP_NOTHING,) return m;
        default: break;
        }
        switch (level)
        {
        case lv::none: break;
        case lv::fatal: VP_LEVELLED(fatal) break;
        case lv::error: VP_LEVELLED(error) break;
        case lv::warning: VP_LEVELLED(warning) break;
        case lv::info: VP_LEVELLED(info) break;
        case lv::debug: VP_LEVELLED(debug) break;
        }
        return m;
    }

    bool enabled(int macro, lv stmt, lv sink)
    {
        if (macro >= 8)
            return true;
        if (ndebug && stmt == lv::debug)
            return false;
        return int(stmt) <= int(sink);
    }

    const char* level_names[] = {"none", "fatal", "error", "warning", "info", "debug"};

    struct tracked
    {
        std::unique_ptr<xtr::sink> s;
        std::string name;
        lv level;
        bool open;
        std::vector<std::string> expected;
        std::string history;
    };

    struct shared { int evals, reached; };
    shared* sh;
}

static void verify(std::vector<tracked>& sinks, const std::string& data)
{
    std::map<std::string, std::vector<std::string>> got;
    bool complete = false;
    for (auto raw : split_lines(data, &complete))
    {
        const line l = parse_line(raw);
        if (!l.ok)
            violation("malformed line \"%s\"", quote(raw).c_str());
        const auto p = l.rest.find(": ");
        got[std::string(name_of(l))].push_back(std::string(l.level) + (p == l.rest.npos ? "" : std::string(l.rest.substr(p + 2))));
    }
    for (auto& t : sinks)
    {
        auto& g = got[t.name];
        for (std::size_t i = 0; i < std::max(g.size(), t.expected.size()); ++i)
        {
            if (i >= g.size() || (i < t.expected.size() && g[i] != t.expected[i]))
                violation("sink %s: expected \"%s\" but the output has \"%s\" (%zu of %zu messages) [%s]", t.name.c_str(), t.expected[std::min(i, t.expected.size() - 1)].c_str(),
                    i < g.size() ? quote(g[i]).c_str() : "nothing", g.size(), t.expected.size(), t.history.c_str());
            if (i >= t.expected.size())
                violation("sink %s: \"%s\" should not have been logged [%s]", t.name.c_str(), quote(g[i]).c_str(), t.history.c_str());
        }
        count("lines_checked", (long long)t.expected.size());
    }
}

static void levels(rng& r)
{
    auto mem = std::make_shared<mem_state>();
    const std::string path = cmd_path();
    std::vector<tracked> sinks;
    long long n_stmt = 0;
    std::uint64_t h = 0;
    {
        xtr::logger log(std::make_unique<mem_storage>(mem, r(), 64, 4096), std::chrono::system_clock(), path);
        lv def = lv::info;
        int q = 0;
        auto any_level = [&] { return lv(r.below(6)); };
        auto add = [&](std::unique_ptr<xtr::sink> s, lv level, bool named, std::string how) {
            tracked t;
            t.s = std::move(s);
            t.name = fmt::format("s{}", sinks.size());
            t.level = level;
            t.open = true;
            t.history = how;
            if (!named)
                t.s->set_name(t.name);
            sinks.push_back(std::move(t));
        };
        auto pick = [&]() -> tracked& {
            for (;;)
            {
                auto& t = sinks[r.below(sinks.size())];
                if (t.open)
                    return t;
            }
        };
        add(std::make_unique<xtr::sink>(log.get_sink("s0")), def, true, "get_sink");
        const int n_ops = int(r.range(40, 160));
        for (int op = 0; op < n_ops; ++op)
        {
            const int k = int(r.below(100));
            if (k < 4 && sinks.size() < 8)
            {
                const auto name = fmt::format("s{}", sinks.size());
                add(std::make_unique<xtr::sink>(log.get_sink(name)), def, true, fmt::format("get_sink(default {})", int(def)));
            }
            else if (k < 6 && sinks.size() < 8)
            {
                auto& o = pick();
                const lv l = o.level;
                add(std::make_unique<xtr::sink>(*o.s), l, false, "copy of " + o.name);
            }
            else if (k < 8 && sinks.size() < 8)
            {
                const lv l = any_level();
                const bool dflt = r.chance(50);
                auto s = dflt ? std::make_unique<xtr::sink>() : std::make_unique<xtr::sink>(l);
                log.register_sink(*s, fmt::format("s{}", sinks.size()));
                add(std::move(s), dflt ? lv::info : l, true, "register_sink");
            }
            else if (k < 10 && sinks.size() > 1)
            {
                auto& a = pick();
                auto& b = pick();
                if (&a != &b)
                {
                    *a.s = *b.s;
                    a.s->set_name(a.name);
                    a.level = b.level;
                    a.history += " =" + b.name;
                }
            }
            else if (k < 14)
            {
                def = any_level();
                log.set_default_log_level(def);
            }
            else if (k < 26)
            {
                auto& t = pick();
                t.level = any_level();
                if (r.chance(70))
                    t.s->set_level(t.level);
                else
                    std::thread([&] { t.s->set_level(t.level); }).join();
                t.history += fmt::format(" set{}", int(t.level));
            }
            else if (k < 31)
            {
                const lv l = any_level();
                // every sink must be known to the background thread under its name
                for (auto& t : sinks)
                    if (t.open)
                        t.s->sync();
                const bool all = r.chance(20);
                auto& t = pick();
                const auto a = all ? cmd_level(path, l) : cmd_level(path, l, xd::pattern_type_t::wildcard, t.name);
                if (!a.ok())
                    violation("level command failed: %s", a.str().c_str());
                for (auto& x : sinks)
                    if (x.open && (all || &x == &t))
                    {
                        x.level = l;
                        x.history += fmt::format(" cmd{}", int(l));
                    }
                count("level_commands");
            }
            else if (k < 33)
            {
                auto& t = pick();
                t.s->close();
                log.register_sink(*t.s, t.name);
                t.history += " reopened";
            }
            else
            {
                auto& t = pick();
                const int macro = int(r.below(16));
                const lv stmt = lv(r.range(2, 5));
                const int form = int(r.below(4));
                if (t.s->level() != t.level)
                    violation("sink %s: level() returns %d, expected %d [%s]", t.name.c_str(), int(t.s->level()), int(t.level), t.history.c_str());
                if (macro & 1) // non-blocking: make room
                    t.s->sync();
                evals = ts_evals = 0;
                const auto str = random_text(r, r.below(20), false);
                const made m = statement(*t.s, macro, stmt, form, ++q, str);
                const bool on = enabled(macro, stmt, t.level);
                const auto what = fmt::format("macro {} level {} form {} on a sink at level {}", macro, macro < 8 ? level_names[int(stmt)] : "-", form, level_names[int(t.level)]);
                if (evals != (on ? m.args : 0) || ts_evals != (on && m.ts ? 1 : 0))
                    violation("%s: arguments evaluated %d times and timestamps %d times, expected %d and %d [%s]", what.c_str(), evals, ts_evals, on ? m.args : 0, on && m.ts, t.history.c_str());
                if (on)
                    t.expected.push_back(std::string(prefix[macro < 8 ? int(stmt) : int(lv::info)]) + m.text);
                ++n_stmt;
                count(on ? "statements_enabled" : "statements_discarded");
                note_distinct(std::uint64_t(macro * 1000 + int(stmt) * 100 + int(t.level) * 10 + form));
                h = mix(h ^ std::uint64_t(macro * 64 + int(stmt) * 8 + int(t.level)));
                // the level is not changed by logging
                if (t.s->level() != t.level)
                    violation("sink %s: level() returns %d, expected %d [%s]", t.name.c_str(), int(t.s->level()), int(t.level), t.history.c_str());
            }
        }
        for (auto& t : sinks)
            if (t.s->level() != t.level)
                violation("sink %s: level() returns %d, expected %d [%s]", t.name.c_str(), int(t.s->level()), int(t.level), t.history.c_str());
        for (auto& t : sinks)
            t.s.reset();
    }
    note_distinct(h);
    verify(sinks, mem->get());
    sample(fmt::format("case {}: {} sinks, {} statements; first sink: {}", current_case.load(), sinks.size(), n_stmt, quote(sinks[0].history, 120)));
}

static void fatal(rng& r, int macro, lv level, int form)
{
    const std::string path = opt.dir + "/fatal.log";
    ::unlink(path.c_str());
    std::memset(sh, 0, sizeof *sh);
    const bool by_cmd = r.chance(20);
    const auto cp = by_cmd ? cmd_path() : std::string(xtr::null_command_path);
    const pid_t pid = ::fork();
    if (pid == -1)
        inconclusive("fork failed");
    if (pid == 0)
    {
        const int null = ::open("/dev/null", O_WRONLY);
        ::dup2(null, 2);
        xtr::logger log(path.c_str(), std::chrono::system_clock(), cp);
        xtr::sink s = log.get_sink("f");
        if (by_cmd)
        {
            s.sync();
            if (!cmd_level(cp, level).ok())
                ::_exit(3);
        }
        else
            s.set_level(level);
        s.sync();
        evals = 0;
        struct at_abort
        {
            static void on(int) { sh->evals = evals; ::signal(SIGABRT, SIG_DFL); ::raise(SIGABRT); }
        };
        ::signal(SIGABRT, at_abort::on);
        statement(s, macro, lv::fatal, form, 1, "x");
        sh->reached = 1;
        ::_exit(0);
    }
    int st = 0;
    const sched_snapshot snap(pid);
    const double end = now_s() + 60;
    while (::waitpid(pid, &st, WNOHANG) != pid)
    {
        if (now_s() > end)
        {
            const bool starved = snap.starved();
            ::kill(pid, SIGKILL);
            ::waitpid(pid, &st, 0);
            if (starved)
                inconclusive("threads are not being scheduled");
            violation("fatal statement (macro %d form %d, sink level %s) did not end the process within 60 s", macro, form, level_names[int(level)]);
        }
        ::usleep(200);
    }
    if (!WIFSIGNALED(st) || WTERMSIG(st) != SIGABRT)
        violation("fatal statement (macro %d form %d, sink level %s) did not abort: status 0x%x", macro, form, level_names[int(level)], st);
    const bool on = level >= lv::fatal;
    const int args = form == 3 ? 0 : form + 1;
    if (sh->evals != (on ? args : 0))
        violation("fatal statement (macro %d form %d, sink level %s): arguments evaluated %d times", macro, form, level_names[int(level)], sh->evals);
    const std::string data = slurp(path);
    if (on != (data.find(": m ") != data.npos) || (on && data.substr(0, 2) != "F "))
        violation("fatal statement (macro %d form %d, sink level %s): output is \"%s\"", macro, form, level_names[int(level)], quote(data).c_str());
    count("fatal_statements");
    note_distinct(std::uint64_t(1000000 + macro * 1000 + int(level) * 10 + form));
}

// Level names: exactly the six documented ones
static void names(rng& r)
{
    static constexpr const char* all[] = {"none", "fatal", "error", "warning", "info", "debug"};
    for (int i = 0; i < 40; ++i)
    {
        const int k = int(r.below(6));
        std::string n = all[k];
        switch (r.below(10))
        {
        case 0: n.pop_back(); break;
        case 1: n += n.back(); break;
        case 2: n[r.below(n.size())] ^= 0x20; break;
        case 3: n += '\0'; break;
        case 4: n.insert(n.begin(), ' '); break;
        case 5: n = random_text(r, r.below(12), true); break;
        case 6: n[r.below(n.size())] = char(r()); break;
        case 7: n = n.substr(r.below(n.size() + 1)); break;
        default: break;
        }
        int want = -1;
        for (int x = 0; x < 6; ++x)
            if (n == all[x])
                want = x;
        int got = -1;
        try
        {
            // not followed by a terminator
            const std::unique_ptr<char[]> b(new char[n.size()]);
            std::memcpy(b.get(), n.data(), n.size());
            got = int(xtr::log_level_from_string(std::string_view(b.get(), n.size())));
        }
        catch (const std::invalid_argument&)
        {
        }
        if (got != want)
            violation("log_level_from_string(\"%s\") gave %d, expected %d", quote(n).c_str(), got, want);
        count(want < 0 ? "level_names_rejected" : "level_names_accepted");
    }
}

static void one(rng& r, int c)
{
    levels(r);
    names(r);
    if (c < 48)
        fatal(r, c / 6, lv(c % 6), int(r.below(4)));
}

int main(int argc, char** argv)
{
    parse_args(argc, argv);
    sh = static_cast<shared*>(::mmap(nullptr, sizeof(shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0));
    return run_cases(one);
}
