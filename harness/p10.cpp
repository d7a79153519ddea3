// P10: life cycle of sinks over several loggers, against a model
#include "engine.hpp"
using namespace vp;

namespace
{
    using lv = xtr::log_level_t;

    struct msg { std::string name; std::uint32_t uid, seq; lv level; };

    struct lg
    {
        std::shared_ptr<mem_state> mem;
        std::unique_ptr<output> out;
        std::unique_ptr<xtr::logger> l;
        std::atomic<bool> destroyed{false};
        std::string data;
        xtr::logger& get() { return out ? *out->log : *l; }
    };

    // A sink and what it must be
    struct model_sink
    {
        std::unique_ptr<xtr::sink> s;
        bool open = false;
        int logger = -1;
        std::string name;
        lv level = lv::info;
        std::uint32_t uid = 0;
        std::string history;
    };

    std::atomic<std::uint32_t> next_uid{1};

    struct world
    {
        std::vector<std::unique_ptr<lg>> loggers;
        std::mutex m;
        // messages per (logger, uid), in order
        std::map<std::pair<int, std::uint32_t>, std::vector<msg>> expected;
        std::atomic<bool> ending{false};
    };

    void check(const model_sink& k, const char* after)
    {
        if (!k.s)
            return;
        if (k.s->is_open() != k.open)
            violation("is_open() returns %d after %s, expected %d [%s]", k.s->is_open(), after, k.open, k.history.c_str());
        if (k.s->level() != k.level)
            violation("level() returns %d after %s, expected %d [%s]", int(k.s->level()), after, int(k.level), k.history.c_str());
        count("states_checked");
    }

    void worker(world& w, rng r, int n_ops, bool phase2, std::vector<model_sink>& ks)
    {
        std::uint32_t seq = 0;
        std::map<std::pair<int, std::uint32_t>, std::vector<msg>> mine;
        // messages of one incarnation of a sink are in order; an incarnation ends
        // when the sink moves to another logger or is closed, but order holds
        // across that too, so one uid per sink object and logger is enough
        auto log = [&](model_sink& k) {
            ++seq;
            msg m{k.name, k.uid, seq, lv::info};
            switch (r.below(4))
            {
            case 0: XTR_LOG(*k.s, "m {} {}", k.uid, seq); break;
            case 1: { std::string x = random_text(r, r.below(XTR_SINK_CAPACITY / 8), false); XTR_LOG(*k.s, "m {} {} {}", k.uid, seq, x); break; }
            case 2: { blob<400> b(k.uid, seq); XTR_LOG(*k.s, "m {} {} {}", k.uid, seq, b); break; }
            case 3: XTR_LOG_TSC(*k.s, "m {} {}", k.uid, seq); break;
            }
            mine[{k.logger, k.uid}].push_back(m);
        };
        auto any = [&]() -> model_sink& { return ks[r.below(ks.size())]; };
        for (int op = 0; op < n_ops; ++op)
        {
            switch (r.below(phase2 ? 10 : 14))
            {
            case 0: // assignment
            {
                auto& a = any();
                auto& b = any();
                if (!a.s || !b.s)
                    break;
                if (&a != &b && b.open)
                    a.history += fmt::format(" =({}:{})", b.logger, b.name);
                xtr::sink& ret = (*a.s = *b.s);
                if (&ret != a.s.get())
                    violation("assignment does not return the target");
                if (&a != &b)
                {
                    a.open = b.open;
                    a.logger = b.logger;
                    a.name = b.name;
                    a.level = b.level;
                    // the uid stays, but lines of different names or loggers tell
                    // them apart
                    count(a.open ? "assigned_open" : "assigned_closed");
                }
                else
                    count("self_assigned");
                check(a, "assignment");
                check(b, "being assigned from");
                break;
            }
            case 1: // copy construction
            {
                auto& b = any();
                if (!b.s)
                    break;
                model_sink n;
                n.s = std::make_unique<xtr::sink>(*b.s);
                n.open = b.open;
                n.logger = b.logger;
                n.name = b.name;
                n.level = b.level;
                n.uid = next_uid++;
                n.history = fmt::format("copy({}:{})", b.logger, b.name);
                check(b, "being copied");
                check(n, "copying");
                any() = std::move(n); // destroys what was there
                count("copied");
                break;
            }
            case 2: // close
            {
                auto& a = any();
                if (!a.s || r.chance(40))
                    break;
                a.s->close();
                a.open = false;
                a.history += " close";
                check(a, "close");
                if (r.chance(20))
                {
                    a.s->close();
                    check(a, "closing again");
                }
                count("closed");
                break;
            }
            case 3: // rename
            {
                auto& a = any();
                if (!a.open)
                    break;
                a.name = fmt::format("n{}{}", r.below(1000), std::string(r.below(60), 'n'));
                a.s->set_name(a.name);
                a.history += " rename";
                check(a, "set_name");
                count("renamed");
                break;
            }
            case 4: // destroy
            {
                auto& a = any();
                if (r.chance(50))
                    break;
                a.s.reset();
                a = model_sink{};
                count("destroyed");
                break;
            }
            case 5:
            {
                auto& a = any();
                if (!a.s)
                    break;
                a.level = lv(r.below(6));
                a.s->set_level(a.level);
                check(a, "set_level");
                break;
            }
            case 6:
            {
                auto& a = any();
                if (a.open)
                {
                    a.s->sync();
                    check(a, "sync");
                }
                break;
            }
            case 7: case 8: case 9:
            {
                auto& a = any();
                if (a.open)
                    for (auto n = r.range(1, 6); n > 0; --n)
                        log(a);
                break;
            }
            case 10: // get_sink
            {
                auto& a = any();
                a.s.reset();
                a = model_sink{};
                a.logger = int(r.below(w.loggers.size()));
                a.name = fmt::format("g{}", r.below(1000));
                a.s.reset(new xtr::sink(w.loggers[std::size_t(a.logger)]->get().get_sink(a.name)));
                a.open = true;
                a.uid = next_uid++;
                a.history = fmt::format("get({}:{})", a.logger, a.name);
                check(a, "get_sink");
                count("got");
                break;
            }
            case 11: // default construction
            {
                auto& a = any();
                a.s.reset();
                a = model_sink{};
                a.uid = next_uid++;
                if (r.chance(50))
                    a.s = std::make_unique<xtr::sink>();
                else
                {
                    a.level = lv(r.below(6));
                    a.s = std::make_unique<xtr::sink>(a.level);
                }
                a.history = "default";
                check(a, "default construction");
                break;
            }
            case 12: case 13: // registration of a closed sink
            {
                auto& a = any();
                if (!a.s || a.open)
                    break;
                a.logger = int(r.below(w.loggers.size()));
                a.name = fmt::format("r{}", r.below(1000));
                w.loggers[std::size_t(a.logger)]->get().register_sink(*a.s, a.name);
                a.open = true;
                a.history += fmt::format(" register({}:{})", a.logger, a.name);
                check(a, "register_sink");
                count("registered");
                break;
            }
            }
        }
        std::scoped_lock l{w.m};
        for (auto& [k, v] : mine)
        {
            auto& e = w.expected[k];
            e.insert(e.end(), v.begin(), v.end());
        }
    }
}

static void one(rng& r, int)
{
    world w;
    const int n_loggers = int(r.range(1, 3));
    for (int i = 0; i < n_loggers; ++i)
    {
        w.loggers.push_back(std::make_unique<lg>());
        auto& l = *w.loggers.back();
        if (r.chance(70))
        {
            l.mem = std::make_shared<mem_state>();
            l.l = std::make_unique<xtr::logger>(std::make_unique<mem_storage>(l.mem, r(), 16, 8192), std::chrono::system_clock(), xtr::null_command_path);
        }
        else
            l.out = std::make_unique<output>(store(r.below(5)), r);
    }
    const int n_threads = int(r.range(1, 3));
    std::vector<std::vector<model_sink>> ks(static_cast<std::size_t>(n_threads));
    const int n_ops = int(r.range(20, opt.thorough ? 600 : 200));
    for (int phase = 0; phase < 2; ++phase)
    {
        std::vector<std::thread> destructors;
        if (phase == 1)
        {
            w.ending = true;
            for (auto& l : w.loggers)
                destructors.emplace_back([&l] {
                    if (l->out)
                        l->data = l->out->finish();
                    else
                        l->l.reset();
                    l->destroyed = true;
                });
        }
        std::vector<std::thread> th;
        for (int t = 0; t < n_threads; ++t)
        {
            auto& k = ks[std::size_t(t)];
            if (phase == 0)
                k.resize(r.range(2, 5));
            th.emplace_back([&, phase, rr = rng(r())]() mutable {
                worker(w, rr, phase == 0 ? n_ops : n_ops / 3, phase == 1, k);
                if (phase == 0)
                    return;
                // close what is left, in any order. As long as a sink is open its
                // logger's destructor must not have returned.
                while (!k.empty())
                {
                    auto it = k.begin() + std::ptrdiff_t(rr.below(k.size()));
                    if (it->open)
                    {
                        if (w.loggers[std::size_t(it->logger)]->destroyed)
                            violation("the logger's destructor returned while a sink was still open [%s]", it->history.c_str());
                        count("destructor_waits_checked");
                        if (rr.chance(30))
                            ::usleep(useconds_t(rr.below(2000)));
                        if (rr.chance(50))
                        {
                            it->s->close();
                            it->open = false;
                            check(*it, "close");
                        }
                    }
                    it->s.reset();
                    k.erase(it);
                }
            });
        }
        for (auto& t : th)
            t.join();
        for (auto& t : destructors)
            t.join();
    }
    // All messages must be in the output of their logger, in order, under the
    // name the sink had
    long long n = 0;
    std::uint64_t h = 0;
    for (int i = 0; i < n_loggers; ++i)
    {
        auto& l = *w.loggers[std::size_t(i)];
        if (l.mem)
        {
            l.data = l.mem->get();
            if (!l.mem->destroyed)
                violation("the storage was not destroyed with the logger");
        }
        std::map<std::uint32_t, std::size_t> pos;
        bool complete = false;
        for (auto raw : split_lines(l.data, &complete))
        {
            const line ln = parse_line(raw);
            const auto at = ln.ok ? ln.rest.find(": m ") : std::string_view::npos;
            unsigned uid = 0, seq = 0;
            if (at == std::string_view::npos || std::sscanf(std::string(ln.rest.substr(at)).c_str(), ": m %u %u", &uid, &seq) != 2)
                violation("malformed line \"%s\"", quote(raw).c_str());
            auto it = w.expected.find({i, uid});
            auto& p = pos[uid];
            if (it == w.expected.end() || p >= it->second.size())
                violation("line \"%s\" appears in the output of a logger it was not logged to, or twice", quote(raw).c_str());
            const msg& m = it->second[p++];
            if (m.seq != seq)
                violation("message %u of sink %u appears where message %u should", seq, uid, m.seq);
            if (name_of(ln) != m.name)
                violation("message %u of sink %u appears under the name \"%s\" instead of \"%s\"", seq, uid, quote(name_of(ln)).c_str(), m.name.c_str());
            ++n;
            h = mix(h ^ uid);
        }
        if (!complete)
            violation("the last line is incomplete");
        for (auto& [k, v] : w.expected)
            if (k.first == i && pos[k.second] != v.size())
                violation("message %u of sink %u (name %s) is not in the output after the logger was destroyed", v[pos[k.second]].seq, k.second, v[pos[k.second]].name.c_str());
        if (l.out && !l.out->path.empty())
            ::unlink(l.out->path.c_str());
    }
    count("messages_checked", n);
    note_distinct(h);
    sample(fmt::format("case {}: {} loggers, {} threads, {} messages of {} (logger, sink) pairs", current_case.load(), n_loggers, n_threads, n, w.expected.size()));
}

int main(int argc, char** argv)
{
    parse_args(argc, argv);
    return run_cases(one);
}
