// P11: all logger functions called from many threads at once
#include "cmd.hpp"
#include "engine.hpp"
using namespace vp;

namespace
{
    using lv = xtr::log_level_t;

    const char* style_a(lv l)
    {
        static const char* n[] = {"", "fatal: ", "error: ", "warning: ", "info: ", "debug: "};
        return n[int(l)];
    }
    const char* style_b(lv) { return ""; }
    const char* style_c(lv l) { return l == lv::info ? "<information, and this is a rather long prefix>" : "<?>"; }

    constexpr xtr::log_level_style_t styles[] = {
        xtr::default_log_level_style, xtr::systemd_log_level_style, style_a, style_b, style_c};

    // A history of writes and reads of a level by any threads. A read is right
    // if some write of its value may be the latest one at some time during it.
    struct reg
    {
        struct op { double a, b; lv v; };
        std::mutex m;
        std::vector<op> writes, reads;
        void wrote(double a, double b, lv v) { std::scoped_lock l{m}; writes.push_back({a, b, v}); }
        void read(double a, double b, lv v) { std::scoped_lock l{m}; reads.push_back({a, b, v}); }
        void check(const char* what)
        {
            for (auto& x : reads)
            {
                bool ok = false;
                for (auto& w : writes)
                {
                    if (w.v != x.v || w.a > x.b)
                        continue;
                    bool overwritten = false;
                    for (auto& o : writes)
                        if (o.a > w.b && o.b < x.a)
                        {
                            overwritten = true;
                            break;
                        }
                    if (!overwritten)
                    {
                        ok = true;
                        break;
                    }
                }
                if (!ok)
                    violation("%s read as %d, which is not a value that it had at that time", what, int(x.v));
            }
            count("level_reads_checked", (long long)reads.size());
        }
    };

    struct shared_sink
    {
        std::unique_ptr<xtr::sink> s;
        std::string name;
        reg level;
    };

    struct world
    {
        std::vector<std::unique_ptr<shared_sink>> shared;
        reg default_level;
        std::vector<std::string> paths;
        std::mutex m;
        std::map<std::uint32_t, std::pair<std::string, std::uint32_t>> expected; // id -> name, messages
        std::atomic<std::uint32_t> next_id{1};
        std::atomic<int> running{0};
    };

    void worker(world& w, xtr::logger& log, std::thread::native_handle_type handle, rng r, int n_ops, bool commands)
    {
        std::map<std::uint32_t, std::pair<std::string, std::uint32_t>> mine;
        xtr::sink own;
        std::uint32_t own_id = 0;
        auto emit_some = [&](xtr::sink& s, std::uint32_t id, int n) {
            auto& e = mine[id];
            for (int i = 0; i < n; ++i)
            {
                const auto q = ++e.second;
                if (r.chance(50))
                    XTR_LOG(s, "m {} {}", id, q);
                else
                {
                    std::string x = random_text(r, r.below(300), false);
                    XTR_LOG(s, "m {} {} {}", id, q, x);
                }
            }
        };
        for (int i = 0; i < n_ops; ++i)
        {
            switch (r.below(12))
            {
            case 0: case 1: // get_sink
            {
                const auto id = w.next_id++;
                const std::string name = fmt::format("g{}", id);
                const double a = now_s();
                xtr::sink s = log.get_sink(name);
                const double b = now_s();
                w.default_level.read(a, b, s.level());
                if (!s.is_open())
                    violation("get_sink returned a closed sink");
                mine[id].first = name;
                emit_some(s, id, int(r.below(5)));
                if (r.chance(20))
                    s.sync();
                if (r.chance(30))
                {
                    xtr::sink c(s);
                    const auto id2 = w.next_id++;
                    mine[id2].first = name;
                    emit_some(c, id2, int(r.below(4)));
                }
                count("get_sink_calls");
                break;
            }
            case 2: // register_sink
            {
                if (own.is_open())
                    own.close();
                own_id = w.next_id++;
                const std::string name = fmt::format("r{}", own_id);
                log.register_sink(own, name);
                if (!own.is_open())
                    violation("the sink is closed after register_sink");
                mine[own_id].first = name;
                emit_some(own, own_id, int(r.below(5)));
                count("register_sink_calls");
                break;
            }
            case 3:
                if (own.is_open())
                    emit_some(own, own_id, int(r.below(20)));
                break;
            case 4:
                if (r.chance(40))
                {
                    log.set_command_path(r.chance(25) ? std::string(xtr::null_command_path) : w.paths[r.below(w.paths.size())]);
                    count("set_command_path_calls");
                }
                break;
            case 5:
                log.set_log_level_style(styles[r.below(std::size(styles))]);
                count("set_log_level_style_calls");
                break;
            case 6:
            {
                const lv v = lv(r.below(6));
                const double a = now_s();
                log.set_default_log_level(v);
                std::atomic_thread_fence(std::memory_order_seq_cst);
                w.default_level.wrote(a, now_s(), v);
                count("set_default_log_level_calls");
                break;
            }
            case 7:
                if (!(log.consumer_thread_native_handle() == handle))
                    violation("consumer_thread_native_handle() changed");
                count("native_handle_calls");
                break;
            case 8: case 9: // level of a sink that another thread logs to
            {
                auto& s = *w.shared[r.below(w.shared.size())];
                const double a = now_s();
                if (r.chance(50))
                {
                    const lv v = lv(r.below(6));
                    s.s->set_level(v);
                    std::atomic_thread_fence(std::memory_order_seq_cst);
                    s.level.wrote(a, now_s(), v);
                    count("set_level_calls");
                }
                else
                {
                    const lv v = s.s->level();
                    s.level.read(a, now_s(), v);
                    count("level_calls");
                }
                break;
            }
            case 10: // commands
                if (commands && r.chance(60))
                {
                    auto& s = *w.shared[r.below(w.shared.size())];
                    auto& p = w.paths[r.below(w.paths.size())];
                    const double a = now_s();
                    if (r.chance(50))
                    {
                        const lv v = lv(r.below(6));
                        const auto ans = cmd_level(p, v, xd::pattern_type_t::wildcard, s.name);
                        if (ans.timed_out)
                            violation("a level command was not answered: %s", ans.str().c_str());
                        // Without an answer (the path changed meanwhile) it may
                        // have taken effect at any time until later
                        if (ans.ok())
                            s.level.wrote(a, now_s(), v);
                        else if (ans.connected)
                            s.level.wrote(a, now_s() + 1e6, v);
                        if (ans.ok())
                            count("level_commands_answered");
                    }
                    else
                    {
                        const auto ans = cmd_status(p, xd::pattern_type_t::wildcard, s.name);
                        if (ans.timed_out)
                            violation("a status command was not answered: %s", ans.str().c_str());
                        for (auto& x : ans.r)
                        {
                            if (x.kind != reply::info || x.name != s.name)
                                violation("a status command for %s was answered with %s", s.name.c_str(), ans.str().c_str());
                            s.level.read(a, now_s(), x.si.level);
                        }
                        if (ans.r.size() > 1)
                            violation("a status command for one sink was answered with %s", ans.str().c_str());
                        if (ans.r.size() == 1)
                            count("status_commands_answered");
                    }
                }
                break;
            case 11:
                if (own.is_open() && r.chance(50))
                    own.sync();
                break;
            }
        }
        own.close();
        std::scoped_lock l{w.m};
        for (auto& [k, v] : mine)
            w.expected[k] = v;
    }

    // The only thread that logs to a shared sink
    void owner(world& w, shared_sink& s, std::uint32_t id, rng r)
    {
        std::uint32_t n = 0;
        while (w.running > 0 && n < 3000)
        {
            ++n;
            XTR_LOG(*s.s, "m {} {}", id, n);
            if (r.chance(3))
                s.s->sync();
            if (r.chance(20))
                ::usleep(useconds_t(r.below(200)));
        }
        std::scoped_lock l{w.m};
        w.expected[id] = {s.name, n};
    }
}

static void one(rng& r, int c)
{
    world w;
    for (int i = 0; i < 3; ++i)
        w.paths.push_back(cmd_path());
    output out(random_store(r), r, r.chance(70) ? w.paths[0] : std::string(xtr::null_command_path));
    xtr::logger& log = *out.log;
    const auto handle = log.consumer_thread_native_handle();
    w.default_level.wrote(0, 0, lv::info);
    const int n_shared = int(r.range(1, 2));
    for (int i = 0; i < n_shared; ++i)
    {
        auto s = std::make_unique<shared_sink>();
        s->name = fmt::format("shared{}", i);
        s->s.reset(new xtr::sink(log.get_sink(s->name)));
        s->level.wrote(0, 0, lv::info);
        w.shared.push_back(std::move(s));
    }
    const int n_threads = int(r.range(2, 4));
    const int n_ops = int(r.range(20, opt.thorough ? 300 : 100));
    const bool commands = r.chance(70);
    w.running = n_threads;
    // Commands print errors when the path goes away; keep stderr small
    std::vector<std::thread> th;
    for (int t = 0; t < n_threads; ++t)
        th.emplace_back([&, rr = rng(r())] { worker(w, log, handle, rr, n_ops, commands); --w.running; });
    for (auto& s : w.shared)
        th.emplace_back([&, id = w.next_id++, rr = rng(r())] { owner(w, *s, id, rr); });
    for (auto& t : th)
        t.join();
    // Everything still works
    w.default_level.check("default level");
    for (auto& s : w.shared)
        s->level.check("level of a sink");
    if (commands)
    {
        const std::string p = cmd_path();
        log.set_command_path(p);
        const auto a = cmd_status(p);
        if (!a.eof || a.r.size() != w.shared.size())
            violation("after concurrent use, a status command is answered with %s", a.str().c_str());
        for (auto& q : w.paths)
            if (::access(q.c_str(), F_OK) == 0)
                violation("the socket of a path which is no longer used was left behind");
        count("final_states_checked");
    }
    log.set_default_log_level(lv::warning);
    log.set_log_level_style(style_a);
    const auto last_id = w.next_id++;
    {
        xtr::sink s = log.get_sink("last");
        if (s.level() != lv::warning)
            violation("get_sink after set_default_log_level(warning) returned a sink of level %d", int(s.level()));
        XTR_LOG(s, "m {} 1", last_id);
    }
    w.expected[last_id] = {"last", 1};
    w.shared.clear();
    const std::string data = out.finish();
    std::map<std::uint32_t, std::uint32_t> seen;
    bool complete = false;
    std::uint64_t h = 0;
    long long n = 0;
    for (auto raw : split_lines(data, &complete))
    {
        std::size_t k = 0;
        std::string_view rest;
        for (; k < std::size(styles); ++k)
        {
            const std::string_view p = styles[k](lv::info);
            if (raw.starts_with(p) && raw.size() > p.size() + 27 && is_timestamp(raw.substr(p.size(), 26)) && raw[p.size() + 26] == ' ')
            {
                rest = raw.substr(p.size() + 27);
                break;
            }
        }
        unsigned id = 0, q = 0;
        const auto at = rest.find(": m ");
        if (k == std::size(styles) || at == rest.npos || std::sscanf(std::string(rest.substr(at)).c_str(), ": m %u %u", &id, &q) != 2)
            violation("malformed line \"%s\"", quote(raw).c_str());
        const auto it = w.expected.find(id);
        if (it == w.expected.end())
            violation("line \"%s\" was not logged", quote(raw).c_str());
        if (rest.substr(0, rest.find(' ')) != it->second.first)
            violation("line \"%s\" should have the sink name %s", quote(raw).c_str(), it->second.first.c_str());
        if (++seen[id] != q)
            violation("message %u of sink %s appears instead of message %u", q, it->second.first.c_str(), seen[id]);
        if (id == last_id && styles[k] != style_a)
            violation("line \"%s\" does not have the style set before", quote(raw).c_str());
        h = mix(h ^ id ^ (k << 40));
        ++n;
    }
    if (!complete)
        violation("the last line is incomplete");
    for (auto& [id, e] : w.expected)
        if (seen[id] != e.second)
            violation("%u messages of sink %s are in the output, expected %u", seen[id], e.first.c_str(), e.second);
    count("messages_checked", n);
    note_distinct(h);
    sample(fmt::format("case {}: {} threads, {} operations each, {} messages, {}", c, n_threads, n_ops, n, out.desc));
}

int main(int argc, char** argv)
{
    parse_args(argc, argv);
    return run_cases(one);
}
