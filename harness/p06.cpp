// P06: non-blocking statements never wait, and drops are accounted for
#include "engine.hpp"
#include "cmd.hpp"
using namespace vp;

static constexpr std::size_t cap = XTR_SINK_CAPACITY;

namespace
{
    struct att
    {
        std::string text;  // expected message
        std::size_t ub;    // upper bound of the record's size without its strings
        std::size_t str;   // bytes of strings
        bool nb;
        bool pinned;       // logged while the background thread was known to be held
        bool truncatable;
    };

    // what one sink attempted to log
    struct log_of
    {
        std::string name;
        std::vector<att> a;
        std::uint32_t q = 0;
    };

    // A statement that takes this long is waiting for something
    std::atomic<double> stmt_start{0};
    std::atomic<bool> watching{false};
    constexpr double too_long = 15.0;

    constexpr int n_nb_kinds = 15;
    double last_took = 0; // seconds taken by the last timed statement

    void emit_try(log_of& o, xtr::sink& s, int kind, rng& r, bool pinned, bool timed)
    {
        const std::uint32_t q = ++o.q;
        std::string x;
        auto rec = [&](std::string msg, std::size_t ub, std::size_t str = 0, bool tr = false)
        {
            o.a.push_back({std::move(msg), ub, str, true, pinned, tr});
            if (timed)
                stmt_start = now_s();
        };
        switch (kind)
        {
        // the message without arguments cannot carry its number
        case 0: rec("none", 8); XTR_TRY_LOG(s, "none"); break;
        case 1: rec(fmt::format("q {}", q), 24); XTR_TRY_LOG(s, "q {}", q); break;
        case 2: rec(fmt::format("q {} {} {}", q, 1.5, 'x'), 48); XTR_TRY_LOG(s, "q {} {} {}", q, 1.5, 'x'); break;
        case 3: { x = random_text(r, r.below(r.chance(20) ? cap + 100 : 100), true); rec(fmt::format("q {} {}", q, model_sanitize(x)), 40, x.size(), true); XTR_TRY_LOG(s, "q {} {}", q, x); break; }
        case 4: { x = random_text(r, r.below(60), true); rec(fmt::format("q {} {}", q, model_sanitize(x)), 40, x.size(), true); XTR_TRY_LOGL(error, s, "q {} {}", q, x.c_str()); break; }
        case 5: { blob<1000> b(q, q); rec(fmt::format("q {} {}", q, b), 1048); XTR_TRY_LOG(s, "q {} {}", q, b); b.scramble(); break; }
        case 6: { blob<200> b(q, q); rec(fmt::format("q {} {}", q, b), 248); XTR_TRY_LOGL(warning, s, "q {} {}", q, b); b.scramble(); break; }
        case 7: { rec(fmt::format("q {}", q), 48); XTR_TRY_LOG_TSC(s, "q {}", q); break; }
        case 8: { rec(fmt::format("q {}", q), 48); XTR_TRY_LOGL_RTC(info, s, "q {}", q); break; }
        case 9: { auto b = std::make_unique<blob<cap - 64>>(q, q); rec(fmt::format("q {}", *b), cap - 16); XTR_TRY_LOG(s, "q {}", *b); b->scramble(); break; }
        case 10: { xtr::timespec ts(std::timespec{1000000000, 5}); rec(fmt::format("q {}", q), 56); XTR_TRY_LOG_TS(s, ts, "q {}", q); break; }
        case 11: { x = random_text(r, r.below(40), false); rec(fmt::format("q {} {}", q, model_sanitize(x)), 80); XTR_TRY_LOG(s, "q {} {}", q, std::move(x)); break; }
        case 12: { rec(fmt::format("q {}", q), 48); XTR_TRY_LOGL_TSC(error, s, "q {}", q); break; }
        case 13: { rec(fmt::format("q {}", q), 48); XTR_TRY_LOG_RTC(s, "q {}", q); break; }
        case 14: { xtr::timespec ts(std::timespec{1000000000, 5}); x = random_text(r, r.below(60), true); rec(fmt::format("q {} {}", q, model_sanitize(x)), 56, x.size(), true); XTR_TRY_LOGL_TS(error, s, ts, "q {} {}", q, std::string_view(x)); break; }
        }
        if (timed)
        {
            last_took = now_s() - stmt_start.load();
            stmt_start = 0;
        }
    }

    void emit_blocking(log_of& o, xtr::sink& s, rng& r)
    {
        const std::uint32_t q = ++o.q;
        const std::string x = random_text(r, r.below(50), true);
        o.a.push_back({fmt::format("q {} {}", q, model_sanitize(x)), 40, x.size(), false, false, false});
        XTR_LOG(s, "q {} {}", q, x);
    }

    int pick_kind(rng& r)
    {
        const int k = int(r.below(n_nb_kinds));
        return k == 9 && !r.chance(cap > 100000 ? 2 : 20) ? 1 : k;
    }

    struct tally { long long attempted = 0, delivered = 0, dropped = 0, reported = 0, truncated = 0, reports = 0; };

    // the text after "file:line: "
    std::string_view message_of(std::string_view rest)
    {
        const auto p = rest.find(": ");
        return p == rest.npos ? std::string_view() : rest.substr(p + 2);
    }

    // Compares the output with what one sink attempted
    tally judge(const std::string& data, const log_of& o, bool complete)
    {
        tally t;
        std::size_t i = 0;
        std::size_t used = 32; // what the queue may hold while the background thread is held
        auto skip = [&]
        {
            const att& a = o.a[i];
            if (!a.nb)
                violation("blocking message \"%s\" of %s lost", quote(a.text).c_str(), o.name.c_str());
            if (a.pinned && used + a.ub <= cap)
                violation("\"%s\" of %s was dropped although at least %zu bytes were free and it needs at most %zu", quote(a.text, 60).c_str(), o.name.c_str(), cap - used, a.ub);
            ++t.dropped;
            ++i;
        };
        for (auto raw : split_lines(data))
        {
            const line l = parse_line(raw);
            if (!l.ok)
                violation("malformed line \"%s\"", quote(raw).c_str());
            if (l.rest.substr(0, o.name.size() + 2) == o.name + ": ")
            {
                const std::string m(l.rest.substr(o.name.size() + 2));
                char* e = nullptr;
                const long n = std::strtol(m.c_str(), &e, 10);
                if (std::string_view(e) != " messages dropped" || n <= 0)
                    violation("malformed drop report \"%s\"", quote(raw).c_str());
                t.reported += n;
                ++t.reports;
                continue;
            }
            if (name_of(l) != o.name)
                continue;
            const auto m = message_of(l.rest);
            if (m == "hold stall")
                continue;
            // "q N ..." identifies the attempt; "none" is the next of its kind
            bool found = false;
            for (std::size_t j = i; j < o.a.size() && !found; ++j)
            {
                const att& a = o.a[j];
                bool trunc = false;
                bool match = a.text == m;
                if (!match && a.truncatable && m.size() > 11 && m.substr(m.size() - 11) == "<truncated>" &&
                    a.text.substr(0, m.size() - 11) == m.substr(0, m.size() - 11))
                {
                    const auto sp = m.substr(0, m.size() - 11);
                    match = trunc = std::count(sp.begin(), sp.end(), ' ') == 2;
                }
                if (!match)
                    continue;
                found = true;
                while (i < j)
                    skip();
                if (trunc)
                {
                    ++t.truncated;
                    if (a.pinned && used + a.ub + a.str <= cap)
                        violation("string of %zu bytes truncated although at least %zu bytes were free", a.str, cap - used);
                }
                used += a.ub + (trunc ? 0 : a.str) + 8;
                ++t.delivered;
                ++i;
            }
            if (!found)
                violation("line \"%s\" is not a message of %s, or is out of order or repeated", quote(raw).c_str(), o.name.c_str());
        }
        if (complete)
            while (i < o.a.size())
                skip();
        t.attempted = (long long)o.a.size();
        return t;
    }

    void account(const tally& t)
    {
        count("attempted", t.attempted);
        count("delivered", t.delivered);
        count("dropped", t.dropped);
        count("truncated", t.truncated);
        count("drop_reports", t.reports);
    }
}

// The background thread is held, so that the free space of the queue is known
// and a statement that waits waits for ever
static void held(rng& r)
{
    auto mem = std::make_shared<mem_state>();
    gate g;
    std::deque<log_of> logs;
    const std::string path = cmd_path();
    const bool close_while_held = r.chance(30);
    const bool check_idle = r.chance(60);
    tally total;
    {
        xtr::logger log(std::make_unique<mem_storage>(mem, r(), 1, 8192), std::chrono::system_clock(), path);
        std::vector<std::unique_ptr<xtr::sink>> sinks;
        const int n_sinks = int(r.range(1, 3));
        for (int i = 0; i < n_sinks; ++i)
        {
            logs.push_back({fmt::format("s{}", i), {}, 0});
            sinks.emplace_back(new xtr::sink(log.get_sink(logs.back().name)));
        }
        for (int round = 0; round < (close_while_held ? 1 : 2); ++round)
        {
            if (round > 0)
            {
                for (auto& s : sinks)
                {
                    s->sync();
                    s->sync();
                }
                // the free space is no longer known exactly, so later attempts are not pinned
            }
            g.closed = true;
            XTR_LOG(*sinks[0], "hold {}", stall{&g});
            if (!eventually([&] { return g.waiting > 0; }))
                violation("the background thread did not process a message within 40 s");
            for (std::size_t i = 0; i < sinks.size(); ++i)
            {
                const int fixed = r.chance(30) ? (r.chance(60) ? int(r.below(9)) : int(r.range(10, 14))) : -1;
                const int n = int(r.range(1, cap / (fixed == 0 ? 4 : 16)));
                const int m = std::min(n, cap > 100000 && fixed != 0 ? 3000 : 100000);
                for (int k = 0; k < m; ++k)
                    emit_try(logs[i], *sinks[i], fixed >= 0 ? fixed : pick_kind(r), r, round == 0, true);
            }
            // With the queue full, the fastest of several statements must not
            // have waited at all
            double fastest = 1e9;
            for (int k = 0; k < 20; ++k)
            {
                emit_try(logs[0], *sinks[0], 9, r, round == 0, true);
                if (k > 0)
                    fastest = std::min(fastest, last_took);
            }
            if (!VP_COV && fastest > 100e-6)
                violation("each of 19 non-blocking statements on a full queue took more than %.0f us", fastest * 1e6);
            count("statements_on_full_queue_timed", VP_COV ? 0 : 19);
            count("held_phases");
            if (close_while_held)
            {
                // close waits for the background thread, so it must be released first
                std::thread t([&] { perturb_thread_off(true); ::usleep(useconds_t(r.below(3000))); g.closed = false; });
                for (auto& s : sinks)
                    s->close();
                t.join();
            }
            g.closed = false;
        }
        if (!close_while_held && check_idle)
        {
            // all drops are reported without anything more being done
            for (auto& o : logs)
            {
                tally t;
                if (!eventually([&] { const auto d = mem->get(); t = judge(d.substr(0, d.rfind('\n') + 1), o, false);
                        return t.delivered + t.reported == (long long)o.a.size(); }))
                    violation("%s: of %zu messages %lld were delivered and %lld were reported as dropped, 40 s after the background thread was released",
                        o.name.c_str(), o.a.size(), t.delivered, t.reported);
                const long long expect = (long long)o.a.size() - t.delivered;
                long long shown = -1;
                if (!eventually([&] { const auto a = cmd_status(path, xd::pattern_type_t::wildcard, o.name);
                        shown = a.r.size() == 1 && a.r[0].kind == reply::info ? (long long)a.r[0].si.dropped_count : -1; return shown == expect; }))
                    violation("status shows %lld dropped messages for %s, expected %lld", shown, o.name.c_str(), expect);
                count("status_totals");
            }
        }
        else if (!close_while_held && r.chance(50))
            for (auto& s : sinks)
                s->sync();
    }
    const std::string data = mem->get();
    std::uint64_t h = 0;
    for (auto& o : logs)
    {
        const tally t = judge(data, o, true);
        if (t.reported != t.dropped)
            violation("%s: %lld messages were dropped but %lld were reported as dropped (%lld attempted, %s)", o.name.c_str(), t.dropped, t.reported, t.attempted,
                close_while_held ? "closed while the background thread was held" : "drained");
        account(t);
        total.attempted += t.attempted; total.delivered += t.delivered; total.dropped += t.dropped;
        h = mix(h ^ std::uint64_t(t.attempted * 1000003 + t.dropped));
    }
    note_distinct(h);
    sample(fmt::format("case {}: held, {} sinks, {} attempted, {} delivered, {} dropped and reported", current_case.load(), logs.size(), total.attempted, total.delivered, total.dropped));
}

// Producers race with the background thread
static void racing(rng& r)
{
    auto mem = std::make_shared<mem_state>();
    std::deque<log_of> logs;
    const int n_threads = int(r.range(1, 3));
    const int blocking_pct = r.chance(50) ? int(r.below(50)) : 0;
    const int fixed = r.chance(40) ? (r.chance(60) ? int(r.below(9)) : int(r.range(10, 14))) : -1;
    const int n = int(r.range(50, opt.thorough ? 6000 : 1500));
    {
        xtr::logger log(std::make_unique<mem_storage>(mem, r(), 64, 8192), std::chrono::system_clock(), xtr::null_command_path);
        std::vector<std::thread> th;
        for (int t = 0; t < n_threads; ++t)
        {
            logs.push_back({fmt::format("s{}", t), {}, 0});
            th.emplace_back([&, t, rr = rng(r()), o = &logs.back()]() mutable {
                xtr::sink s = log.get_sink(o->name);
                for (int i = 0; i < n; ++i)
                {
                    if (int(rr.below(100)) < blocking_pct)
                        emit_blocking(*o, s, rr);
                    else
                        emit_try(*o, s, fixed >= 0 ? fixed : pick_kind(rr), rr, false, false);
                    if (rr.chance(1))
                        ::usleep(useconds_t(rr.below(200)));
                    else if (rr.below(1000) < 5)
                        s.sync();
                }
                if (rr.chance(50))
                    s.sync();
            });
        }
        for (auto& t : th)
            t.join();
    }
    const std::string data = mem->get();
    std::uint64_t h = 0;
    for (auto& o : logs)
    {
        const tally t = judge(data, o, true);
        if (t.reported != t.dropped)
            violation("%s: %lld messages were dropped but %lld were reported as dropped (%lld attempted)", o.name.c_str(), t.dropped, t.reported, t.attempted);
        account(t);
        h = mix(h ^ std::uint64_t(t.attempted * 1000003 + t.dropped));
    }
    note_distinct(h);
    count("racing_cases");
}

// Producers that do nothing but log as fast as they can, so that most messages are
// dropped at any point of what the background thread does, while clients ask for
// the totals
static void flooding(rng& r)
{
    auto mem = std::make_shared<mem_state>();
    struct flood { std::string name; long long attempted = 0; };
    std::deque<flood> floods;
    const int n_threads = int(r.range(1, 2));
    const bool asking = r.chance(60);
    const double seconds = opt.thorough ? 0.6 : 0.15;
    const int burst = r.chance(50) ? 0 : int(r.range(10, 1000));
    const std::string path = cmd_path();
    {
        xtr::logger log(std::make_unique<mem_storage>(mem, r(), 4096, 8192), std::chrono::system_clock(), path);
        std::vector<std::thread> th;
        std::atomic<int> running{n_threads};
        for (int t = 0; t < n_threads; ++t)
        {
            floods.push_back({fmt::format("f{}", t)});
            th.emplace_back([&, rr = rng(r()), o = &floods.back()]() mutable {
                xtr::sink s = log.get_sink(o->name);
                const double end = now_s() + seconds;
                while (now_s() < end && o->attempted < 3000000)
                {
                    for (int i = 0; i < 200; ++i)
                        XTR_TRY_LOG(s, "q {}", ++o->attempted);
                    if (burst && rr.below(10000) < unsigned(burst))
                        ::usleep(useconds_t(rr.below(300)));
                }
                if (rr.chance(50))
                    s.sync();
                --running;
            });
        }
        if (asking)
        {
            std::map<std::string, unsigned long long> last;
            while (running)
            {
                const auto a = cmd_status(path);
                if (!a.eof)
                    violation("status was not answered: %s", a.str().c_str());
                for (auto& x : a.r)
                {
                    auto& l = last[x.name];
                    if (x.si.dropped_count < l)
                        violation("the dropped total of %s went from %llu to %llu", x.name.c_str(), l, (unsigned long long)x.si.dropped_count);
                    l = x.si.dropped_count;
                }
                count("status_while_dropping");
            }
        }
        for (auto& t : th)
            t.join();
    }
    const std::string data = mem->get();
    std::uint64_t h = 0;
    for (auto& o : floods)
    {
        long long delivered = 0, reported = 0, last = 0, reports = 0;
        for (auto raw : split_lines(data))
        {
            const line l = parse_line(raw);
            if (!l.ok)
                violation("malformed line \"%s\"", quote(raw).c_str());
            if (l.rest.substr(0, o.name.size() + 2) == o.name + ": ")
            {
                char* e = nullptr;
                const std::string m(l.rest.substr(o.name.size() + 2));
                const long long n = std::strtoll(m.c_str(), &e, 10);
                if (std::string_view(e) != " messages dropped" || n <= 0)
                    violation("malformed drop report \"%s\"", quote(raw).c_str());
                reported += n;
                ++reports;
                continue;
            }
            if (name_of(l) != o.name)
                continue;
            const std::string m(message_of(l.rest));
            char* e = nullptr;
            const long long n = m.substr(0, 2) == "q " ? std::strtoll(m.c_str() + 2, &e, 10) : 0;
            if (!e || *e || n <= last || n > o.attempted)
                violation("line \"%s\" is not a message of %s, or is out of order or repeated", quote(raw).c_str(), o.name.c_str());
            last = n;
            ++delivered;
        }
        if (delivered + reported != o.attempted)
            violation("%s: of %lld messages logged as fast as possible %lld were delivered and %lld reported as dropped%s", o.name.c_str(), o.attempted, delivered, reported,
                asking ? ", while clients asked for the status" : "");
        count("attempted", o.attempted);
        count("delivered", delivered);
        count("dropped", reported);
        count("drop_reports", reports);
        h = mix(h ^ std::uint64_t(o.attempted * 1000003 + reported));
    }
    note_distinct(h);
    count("flooding_cases");
}

static void one(rng& r, int c)
{
    if (c % 5 == 4)
        flooding(r);
    else if (c % 2 == 0)
        held(r);
    else
        racing(r);
}

int main(int argc, char** argv)
{
    parse_args(argc, argv);
    std::thread watchdog([] {
        perturb_thread_off(true);
        double since = 0;
        std::optional<sched_snapshot> snap;
        for (;;)
        {
            ::usleep(100000);
            const double s = stmt_start;
            if (s != since)
            {
                since = s;
                snap.emplace();
            }
            if (s != 0 && now_s() - s > too_long && s == stmt_start.load())
            {
                if (snap->starved())
                    inconclusive("threads are not being scheduled");
                violation("a non-blocking statement had not returned after %.0f s, while the background thread was held", too_long);
            }
        }
    });
    watchdog.detach();
    const int rc = run_cases(one);
    ::_exit(rc);
}
