// P13: the status and level commands against a model of all sinks
#include "cmd.hpp"
#include "engine.hpp"
using namespace vp;

namespace
{
    using lv = xtr::log_level_t;
    using pt = xd::pattern_type_t;

    struct entry
    {
        std::string name;
        int level;
        std::size_t capacity, dropped;
        auto operator<=>(const entry&) const = default;
        std::string str() const { return fmt::format("\"{}\" level={} capacity={} dropped={}", quote(name), level, capacity, dropped); }
    };

    std::string join(const std::vector<entry>& v)
    {
        std::string s;
        for (auto& e : v)
            s += "{" + e.str() + "} ";
        return s;
    }

    struct model_sink
    {
        std::unique_ptr<xtr::sink> s;
        bool open = false;
        std::string name;
        lv level = lv::info;
        std::size_t dropped = 0;
        std::uint32_t uid = 0; // of its messages, to count what was dropped
        std::uint32_t tries = 0;
    };

    struct request
    {
        pt type = pt::none;
        std::string text; // up to 256 bytes; 256 is not terminated
        unsigned char icase = 0;
        std::string effective() const
        {
            std::string t = text.substr(0, 255);
            return t.substr(0, t.find('\0'));
        }
        std::string str() const { return fmt::format("type={} icase={} pattern \"{}\"", int(type), icase, quote(text)); }
        void put(xd::pattern& p) const
        {
            p.type = type;
            p.ignore_case = icase;
            std::memset(p.text, 0, sizeof p.text);
            std::memcpy(p.text, text.data(), std::min(text.size(), sizeof p.text));
        }
    };

    std::string random_name(rng& r, const std::vector<model_sink>& ks)
    {
        static const char* words[] = {"Main", "main", "net", "Net", "db", "DB", "io", "worker", "a", "b", "ab", "aab", "x", "control", "logger", "0", "17"};
        static const char* seps[] = {"", "", ".", "-", "/", "_", " ", "*", "[", "]", "\\", "+", "?", "(", "|", "^", "$", "{", "\t", "\xc3\xa9", "\xff"};
        switch (r.below(12))
        {
        case 0: return "";
        case 1: if (!ks.empty()) return ks[r.below(ks.size())].name; break; // the same name twice
        case 2: return random_text(r, r.range(1, 300), true);
        case 3: return std::string(r.range(120, 140), char(r.range('a', 'c')));
        case 4: return random_text(r, r.range(1, 4), true);
        }
        std::string n;
        for (auto k = r.range(1, 4); k > 0; --k)
        {
            n += words[r.below(std::size(words))];
            n += seps[r.below(std::size(seps))];
        }
        return n;
    }

    request random_request(rng& r, const std::vector<model_sink>& ks)
    {
        request q;
        q.type = pt(r.below(4));
        q.icase = static_cast<unsigned char>(r.chance(50) ? 0 : r.chance(60) ? 1 : r.below(256));
        if (q.type == pt::none)
        {
            // the text must not matter
            q.text = r.chance(50) ? "" : random_text(r, r.range(0, 256), true);
            return q;
        }
        const std::string name = ks.empty() ? "x" : ks[r.below(ks.size())].name;
        const std::string name2 = ks.empty() ? "y" : ks[r.below(ks.size())].name;
        auto part = [&](const std::string& n) {
            if (n.empty())
                return n;
            const auto a = r.below(n.size());
            return n.substr(a, r.range(1, n.size() - a));
        };
        const bool wild = q.type == pt::wildcard;
        static const char* re[] = {".", "", "^", "$", "^$", "a*", "[a-c]", "[^a]", "^a", "b$", "a.b", "(a|b)", "\\(a\\)\\1", "a\\{1,2\\}", "a{1,3}", "(ab)+", "x?", "[[:digit:]]+", "[[:upper:]]", "\\.", "\\*", "a|b", "main", "MAIN", "^[Mm]ain$", "\\<a", "[]]", "[[]",
            "(", ")", "[", "a{", "a{2,1}", "*", "+a", "\\", "\\(", "[z-a]", "[[:foo:]]", "a\\{3", "()", "(a", "a**", "\\)"};
        static const char* wi[] = {"*", "", "?", "??", "a*", "*a", "*a*", "[ab]*", "[!a]*", "[^a]*", "*.*", "*/*", ".*", "\\*", "*\\\\*", "[[:digit:]]*", "[", "[a", "[]]*", "a?b", "main*", "MAIN*", "*[", "\\", "*-*", "**", "[a-", "[z-a]"};
        switch (r.below(6))
        {
        case 0: case 1: q.text = wild ? wi[r.below(std::size(wi))] : re[r.below(std::size(re))]; break;
        case 2: q.text = part(name); break;
        case 3: q.text = wild ? "*" + part(name) + "*" : r.chance(50) ? "^" + part(name) : part(name) + ".*" + part(name2); break;
        case 4: q.text = wild ? name : "^" + name + "$"; break;
        case 5:
            if (r.chance(30))
                q.text = std::string(r.range(253, 256), r.chance(50) ? 'a' : wild ? '?' : '.');
            else if (r.chance(50))
                q.text = (wild ? "[" : r.chance(50) ? "(" : "[") + part(name) + (r.chance(50) ? "]" : "") ;
            else
            {
                static const char* meta = "ab.*[]^$\\(){}|?+-!:19,AZ";
                for (auto k = r.range(1, 8); k > 0; --k)
                    q.text += meta[r.below(24)];
                // a repetition of a repetition takes all memory there is
                while (std::count(q.text.begin(), q.text.end(), '{') > 1)
                    q.text.erase(q.text.find('{'), 1);
            }
            break;
        }
        if (q.text.size() > 256)
            q.text.resize(256);
        return q;
    }

    struct sequential
    {
        rng& r;
        std::string path = cmd_path();
        std::shared_ptr<mem_state> mem = std::make_shared<mem_state>();
        std::unique_ptr<xtr::logger> log;
        std::vector<model_sink> ks;
        std::uint32_t next_uid = 1;
        lv deflt = lv::info;
        std::string trail;

        explicit sequential(rng& rr) : r(rr)
        {
            log = std::make_unique<xtr::logger>(std::make_unique<mem_storage>(mem, r(), 64, 4096), std::chrono::system_clock(), path);
        }

        void opened(model_sink& k, std::string name)
        {
            k.open = true;
            k.name = std::move(name);
            k.dropped = 0;
            k.uid = next_uid++;
            k.tries = 0;
        }

        void op()
        {
            if (ks.size() < 2 || (ks.size() < 25 && r.chance(15)))
            {
                model_sink k;
                std::string n = random_name(r, ks);
                if (r.chance(60))
                {
                    k.s.reset(new xtr::sink(log->get_sink(n)));
                    k.level = deflt;
                    opened(k, n);
                }
                else
                {
                    k.level = lv(r.below(6));
                    k.s.reset(new xtr::sink(k.level));
                    if (r.chance(80))
                    {
                        log->register_sink(*k.s, n);
                        opened(k, n);
                    }
                }
                ks.push_back(std::move(k));
                count("sinks_created");
                return;
            }
            auto& k = ks[r.below(ks.size())];
            switch (r.below(9))
            {
            case 0: // copy
            {
                model_sink c;
                c.s.reset(new xtr::sink(*k.s));
                c.level = k.level;
                if (k.open)
                    opened(c, k.name);
                ks.push_back(std::move(c));
                count("sinks_copied");
                break;
            }
            case 1: // assignment
            {
                auto& d = ks[r.below(ks.size())];
                if (&d == &k)
                    break;
                *d.s = *k.s;
                d.level = k.level;
                d.open = false;
                if (k.open)
                    opened(d, k.name);
                count("sinks_assigned");
                break;
            }
            case 2: case 3:
                if (k.open)
                {
                    std::string n = random_name(r, ks);
                    k.s->set_name(n);
                    k.name = n;
                    count("sinks_renamed");
                }
                break;
            case 4:
                k.s->close();
                k.open = false;
                count("sinks_closed");
                break;
            case 5:
                if (ks.size() > 3)
                {
                    ks.erase(ks.begin() + std::ptrdiff_t(r.below(ks.size())));
                    count("sinks_destroyed");
                }
                break;
            case 6:
                k.level = lv(r.below(6));
                k.s->set_level(k.level);
                break;
            case 7:
                if (!k.open)
                {
                    std::string n = random_name(r, ks);
                    log->register_sink(*k.s, n);
                    opened(k, n);
                }
                break;
            case 8:
                if (k.open)
                {
                    // Fill the queue while the background thread is held
                    k.s->set_level(lv::debug);
                    gate g;
                    g.closed = true;
                    xtr::sink holder = log->get_sink("holder");
                    XTR_LOG(holder, "{}", stall{&g});
                    if (!eventually([&] { return g.waiting == 1; }))
                        inconclusive("the background thread did not get to the gate");
                    const auto n = r.range(1, XTR_SINK_CAPACITY > 10000 ? 40 : 200);
                    for (std::uint64_t i = 0; i < n; ++i)
                    {
                        ++k.tries;
                        if (XTR_SINK_CAPACITY > 10000)
                            XTR_TRY_LOG(*k.s, "D {} {}", k.uid, blob<XTR_SINK_CAPACITY / 20>(k.uid, k.tries));
                        else
                            XTR_TRY_LOG(*k.s, "D {} {}", k.uid, blob<32>(k.uid, k.tries));
                    }
                    g.closed = false;
                    holder.close();
                    k.s->set_level(k.level);
                }
                break;
            }
        }

        void settle()
        {
            for (auto& k : ks)
                if (k.open)
                    k.s->sync();
            // what was delivered of the non-blocking messages
            std::map<std::uint32_t, std::uint32_t> got;
            const std::string data = mem->get();
            for (auto l : split_lines(data))
            {
                const auto p = l.find(": D ");
                if (p != l.npos)
                    ++got[std::uint32_t(std::strtoul(std::string(l.substr(p + 4, 12)).c_str(), nullptr, 10))];
            }
            for (auto& k : ks)
                k.dropped = k.tries - got[k.uid];
        }

        std::vector<entry> expect(const model_matcher& m)
        {
            std::vector<entry> v;
            for (auto& k : ks)
                if (k.open && m(k.name))
                    v.push_back({k.name.substr(0, 127), int(k.level), XTR_SINK_CAPACITY, k.dropped});
            std::sort(v.begin(), v.end());
            return v;
        }

        void check_levels(const char* after, const std::string& what)
        {
            for (auto& k : ks)
                if (k.s->level() != k.level)
                    violation("the level of %s sink \"%s\" is %d after %s (%s), expected %d", k.open ? "open" : "closed",
                        quote(k.name).c_str(), int(k.s->level()), after, what.c_str(), int(k.level));
            count("levels_checked", (long long)ks.size());
        }

        void status(const request& q)
        {
            const model_matcher m(q.type, q.effective(), q.icase != 0);
            xd::frame<xd::status> f;
            q.put(f->pattern);
            const auto a = cmd_raw(path, &f, sizeof f);
            count("status_commands");
            if (!m.valid)
            {
                count("invalid_patterns");
                if (!a.failed())
                    violation("status with the invalid %s was not answered with one error: %s", q.str().c_str(), a.str().c_str());
                return;
            }
            if (!a.eof)
                violation("status with %s was not answered: %s", q.str().c_str(), a.str().c_str());
            std::vector<entry> got;
            for (auto& x : a.r)
            {
                if (x.kind != reply::info)
                    violation("status with %s was answered with something else than sinks: %s", q.str().c_str(), a.str().c_str());
                if (x.si.buf_nbytes > x.si.buf_capacity)
                    violation("status says that more of a queue is used than there is");
                got.push_back({x.name, int(x.si.level), x.si.buf_capacity, x.si.dropped_count});
            }
            std::sort(got.begin(), got.end());
            const auto exp = expect(m);
            if (got != exp)
                violation("status with %s was answered with %s expected %s", q.str().c_str(), join(got).c_str(), join(exp).c_str());
            count("entries_checked", (long long)exp.size());
            for (auto& e : exp)
                if (e.dropped)
                    count("nonzero_dropped_totals");
            if (exp.empty())
                count("matching_no_sink");
            note_distinct(hash(q.str() + join(exp)));
        }

        void level(const request& q)
        {
            const model_matcher m(q.type, q.effective(), q.icase != 0);
            xd::frame<xd::set_level> f;
            q.put(f->pattern);
            const bool bad = r.chance(15);
            static constexpr int bads[] = {-1, 6, 7, 100, -100, INT_MAX, INT_MIN, 256, 0x01000001};
            const int v = bad ? bads[r.below(std::size(bads))] : int(r.below(6));
            std::memcpy(&f->level, &v, sizeof v);
            static_assert(sizeof(f->level) == sizeof v);
            const auto a = cmd_raw(path, &f, sizeof f);
            count("level_commands");
            if (bad || !m.valid)
            {
                count(bad ? "invalid_levels" : "invalid_patterns");
                if (!a.failed())
                    violation("level %d with %s was not answered with one error: %s", v, q.str().c_str(), a.str().c_str());
            }
            else
            {
                if (!a.ok())
                    violation("level %d with %s was not answered with success: %s", v, q.str().c_str(), a.str().c_str());
                for (auto& k : ks)
                    if (k.open && m(k.name))
                        k.level = lv(v);
            }
            check_levels("a level command", fmt::format("{} {}", v, q.str()));
            note_distinct(hash(fmt::format("{}{}", v, q.str())));
        }

        void malformed()
        {
            union frames { xd::frame<xd::status> st; xd::frame<xd::set_level> sl; char b[600]; frames() {} } u;
            std::memset(u.b, 0, sizeof u.b);
            std::size_t n = 0;
            std::string what;
            auto header = [&](std::uint32_t id) { std::memcpy(u.b, &id, sizeof id); };
            switch (r.below(5))
            {
            case 0: // a type of pattern that does not exist
            {
                static constexpr int bads[] = {4, 5, -1, 255, INT_MAX, INT_MIN, 0x01000000};
                const int t = bads[r.below(std::size(bads))];
                const bool st = r.chance(50);
                header(st ? xd::status::frame_id : xd::set_level::frame_id);
                auto& p = st ? u.st.payload.pattern : u.sl.payload.pattern;
                if (!st)
                    u.sl.payload.level = lv(r.below(6));
                std::memcpy(&p.type, &t, sizeof t);
                std::strcpy(p.text, "a");
                n = st ? sizeof u.st : sizeof u.sl;
                what = fmt::format("pattern type {} in a {} command", t, st ? "status" : "level");
                break;
            }
            case 1: // a reply, or an unknown command
            {
                static constexpr std::uint32_t ids[] = {2, 3, 4, 6, 7, 1000, 0xffffffff, 0x01000000};
                header(ids[r.below(std::size(ids))]);
                n = r.range(4, 600);
                what = fmt::format("frame id {}", ids[0]);
                break;
            }
            case 2: // wrong lengths
            {
                header(xd::set_level::frame_id);
                u.sl.payload.level = lv::none;
                do n = r.range(4, 600); while (n == sizeof u.sl);
                what = fmt::format("level command of {} bytes", n);
                break;
            }
            case 3:
            {
                header(xd::status::frame_id);
                do n = r.range(4, 600); while (n == sizeof u.st);
                what = fmt::format("status command of {} bytes", n);
                break;
            }
            case 4:
                n = r.range(1, 3);
                what = fmt::format("{} bytes", n);
                break;
            }
            const auto a = cmd_raw(path, u.b, n);
            if (!a.failed())
                violation("a malformed request (%s) was not answered with one error: %s", what.c_str(), a.str().c_str());
            check_levels("a malformed request", what);
            count("malformed_requests");
        }

        void run()
        {
            const int rounds = opt.thorough ? 25 : 10;
            for (int i = 0; i < rounds; ++i)
            {
                if (r.chance(20))
                    log->set_default_log_level(deflt = lv(r.below(6)));
                for (auto n = r.range(1, 12); n > 0; --n)
                    op();
                settle();
                check_levels("a number of operations", "");
                for (auto n = r.range(1, 6); n > 0; --n)
                {
                    const auto q = random_request(r, ks);
                    switch (r.below(6))
                    {
                    case 0: case 1: case 2: status(q); break;
                    case 3: case 4: level(q); break;
                    case 5: malformed(); break;
                    }
                }
                status({});
            }
            ks.clear();
            status({});
        }
    };

    // --- commands racing with operations ---------------------------------------
    long long now_ns()
    {
        std::atomic_thread_fence(std::memory_order_seq_cst);
        const auto t = std::chrono::steady_clock::now().time_since_epoch();
        std::atomic_thread_fence(std::memory_order_seq_cst);
        return (long long)std::chrono::duration_cast<std::chrono::nanoseconds>(t).count();
    }
    constexpr long long never = LLONG_MAX;

    struct change { long long a, b; int v; };
    struct incarnation
    {
        std::uint32_t uid;
        std::vector<change> names;  // v: version; visible from some time in [a, b]
        std::vector<change> levels;
        long long closing = never, closed = never;
    };

    struct query
    {
        long long a, b;
        int parity; // -1 all, or only even or odd uids
        int set_level = -1;
        answer ans;
    };

    // Could the value v have been current at some time in [qa, qb]?
    bool possible(const std::vector<change>& h, int v, long long qa, long long qb)
    {
        for (auto& w : h)
        {
            if (w.v != v || w.a > qb)
                continue;
            bool over = false;
            for (auto& o : h)
                if (o.a > w.b && o.b < qa)
                    over = true;
            if (!over)
                return true;
        }
        return false;
    }

    void concurrent(rng& r)
    {
        const std::string path = cmd_path();
        std::mutex m;
        std::deque<incarnation> incs;
        std::vector<query> queries;
        std::atomic<std::uint32_t> uid{1};
        std::atomic<int> running{0};
        {
            auto mem = std::make_shared<mem_state>();
            xtr::logger log(std::make_unique<mem_storage>(mem, r(), 64, 4096), std::chrono::system_clock(), path);
            auto name = [](std::uint32_t u, int v) { return fmt::format("u{}-{}", u, v); };
            auto worker = [&](rng q) {
                struct mine { std::unique_ptr<xtr::sink> s; incarnation* i; int v = 0; };
                std::vector<mine> ms;
                auto fresh = [&](long long a, int level) {
                    std::scoped_lock l{m};
                    incs.push_back({});
                    auto& i = incs.back();
                    i.names.push_back({a, never, 0});
                    i.levels.push_back({a, a, level});
                    return &i;
                };
                for (int k = 0; k < (opt.thorough ? 80 : 40); ++k)
                {
                    const auto x = q.below(10);
                    if (ms.size() < 2 || (ms.size() < 5 && x < 3))
                    {
                        mine n;
                        const long long a = now_ns();
                        n.i = fresh(a, int(lv::info));
                        n.i->uid = uid++;
                        if (ms.empty() || q.chance(60))
                            n.s.reset(new xtr::sink(log.get_sink(name(n.i->uid, 0))));
                        else
                        {
                            // registers the new sink through the queue of the other
                            auto& o = ms[q.below(ms.size())];
                            // the name it has until it is renamed
                            const auto u = n.i->uid;
                            n.s.reset(new xtr::sink(*o.s));
                            n.s->set_level(lv::info);
                            n.s->set_name(name(u, 0));
                            {
                                // until then it is known by the other's name, so
                                // no statement is made about that time
                                std::scoped_lock l{m};
                                n.i->names.back().v = -1; // under a name of the other
                                n.i->names.push_back({a, never, 0});
                                n.i->levels.clear();
                                for (int z = 0; z < 6; ++z)
                                    n.i->levels.push_back({a, never, z});
                            }
                        }
                        n.s->sync();
                        const long long b = now_ns();
                        {
                            std::scoped_lock l{m};
                            for (auto& c : n.i->names)
                                c.b = b;
                            if (n.i->levels.size() > 1)
                            {
                                for (auto& c : n.i->levels)
                                    c.b = b;
                                n.i->levels.push_back({a, b, int(lv::info)});
                            }
                        }
                        ms.push_back(std::move(n));
                        continue;
                    }
                    auto& o = ms[q.below(ms.size())];
                    if (x < 5)
                    {
                        {
                            std::scoped_lock l{m};
                            o.i->names.push_back({now_ns(), never, ++o.v});
                        }
                        o.s->set_name(name(o.i->uid, o.v));
                        if (q.chance(50))
                            XTR_LOG(*o.s, "message {}", k);
                        o.s->sync();
                        std::scoped_lock l{m};
                        o.i->names.back().b = now_ns();
                    }
                    else if (x < 7)
                    {
                        const int v = int(q.below(6));
                        const long long a = now_ns();
                        o.s->set_level(lv(v));
                        const long long b = now_ns();
                        std::scoped_lock l{m};
                        o.i->levels.push_back({a, b, v});
                    }
                    else if (x < 9)
                    {
                        {
                            std::scoped_lock l{m};
                            o.i->closing = now_ns();
                        }
                        if (q.chance(50))
                            o.s->close();
                        else
                            o.s.reset();
                        {
                            std::scoped_lock l{m};
                            o.i->closed = now_ns();
                        }
                        ms.erase(ms.begin() + (&o - ms.data()));
                    }
                    else
                        XTR_LOG(*o.s, "message {}", k);
                }
                for (auto& o : ms)
                {
                    std::scoped_lock l{m};
                    o.i->closing = now_ns();
                }
                ms.clear();
                --running;
            };
            auto client = [&](rng q) {
                while (running > 0)
                {
                    query u;
                    u.parity = int(q.below(3)) - 1;
                    // uids are matched by their last digit, whatever the version
                    const auto type = u.parity < 0 ? pt::none : q.chance(50) ? pt::extended_regex : pt::wildcard;
                    const std::string text = u.parity < 0 ? "" : type == pt::wildcard ?
                        (u.parity ? "u*[13579]-*" : "u*[02468]-*") : (u.parity ? "^u[0-9]*[13579]-" : "^u[0-9]*[02468]-");
                    u.a = now_ns();
                    if (q.chance(80))
                        u.ans = cmd_status(path, type, text);
                    else
                    {
                        u.set_level = int(q.below(6));
                        u.ans = cmd_level(path, lv(u.set_level), type, text);
                    }
                    u.b = now_ns();
                    {
                        std::scoped_lock l{m};
                        queries.push_back(std::move(u));
                    }
                    ::usleep(useconds_t(q.below(300)));
                }
            };
            std::vector<std::thread> ts;
            const int nw = int(r.range(1, 3)), nc = int(r.range(1, 2));
            running = nw;
            for (int i = 0; i < nw; ++i)
                ts.emplace_back(worker, rng(r()));
            for (int i = 0; i < nc; ++i)
                ts.emplace_back(client, rng(r()));
            for (auto& t : ts)
                t.join();
        }
        // the level commands are writes to every sink they may have reached
        for (auto& q : queries)
            if (q.set_level >= 0)
            {
                if (!q.ans.ok())
                    violation("a level command was not answered with success: %s", q.ans.str().c_str());
                for (auto& i : incs)
                    if (q.parity < 0 || int(i.uid % 2) == q.parity)
                    {
                        // a sink that was not certainly there may not have been reached
                        const bool sure = i.names[0].b < q.a && i.closing > q.b;
                        const bool maybe = i.names[0].a < q.b && i.closed > q.a;
                        if (sure)
                            i.levels.push_back({q.a, q.b, q.set_level});
                        else if (maybe)
                            i.levels.push_back({q.a, never, q.set_level});
                    }
                count("level_commands_racing");
            }
        for (auto& q : queries)
        {
            if (q.set_level >= 0)
                continue;
            if (!q.ans.eof)
                violation("a status command was not answered: %s", q.ans.str().c_str());
            std::map<std::uint32_t, std::vector<const reply*>> by;
            for (auto& x : q.ans.r)
            {
                unsigned u = 0;
                int v = 0;
                if (x.kind != reply::info || std::sscanf(x.name.c_str(), "u%u-%d", &u, &v) != 2)
                    violation("status was answered with something that is not one of the sinks: %s", q.ans.str().c_str());
                by[u].push_back(&x);
            }
            std::set<std::uint32_t> known;
            for (auto& i : incs)
            {
                known.insert(i.uid);
                if (q.parity >= 0 && int(i.uid % 2) != q.parity)
                    continue;
                const bool copied = i.names[0].v == -1;
                const auto& seen = by[i.uid];
                const bool must = i.names[0].b < q.a && i.closing > q.b;
                const bool may = i.names[0].a <= q.b && i.closed >= q.a;
                if (seen.empty())
                {
                    if (must)
                        violation("sink u%u, open during the whole status command, is not in the reply: %s", i.uid, q.ans.str().c_str());
                    continue;
                }
                if (!may)
                    violation("sink u%u, closed or not created at that time, is in the reply to a status command", i.uid);
                std::size_t n = 0;
                for (auto* x : seen)
                {
                    unsigned u;
                    int v;
                    std::sscanf(x->name.c_str(), "u%u-%d", &u, &v);
                    if (possible(i.names, v, q.a, q.b) && possible(i.levels, int(x->si.level), q.a, q.b))
                        ++n;
                    else
                    {
                        // a copy which has not been renamed yet
                        bool copy = false;
                        for (auto& c : incs)
                            if (c.names[0].v == -1 && c.names[0].a <= q.b && c.names[0].b >= q.a)
                                copy = true;
                        if (!copy)
                            violation("status says that sink u%u is named \"%s\" with level %d, which it was not at that time",
                                i.uid, x->name.c_str(), int(x->si.level));
                    }
                    if (x->si.buf_capacity != XTR_SINK_CAPACITY || x->si.dropped_count != 0)
                        violation("status gives a wrong capacity or number of dropped messages for %s", x->name.c_str());
                    count("racing_entries_checked");
                }
                if (seen.size() > 1 && !copied)
                {
                    std::size_t copies = 0;
                    for (auto& c : incs)
                        if (c.names[0].v == -1 && c.names[0].a <= q.b && c.names[0].b >= q.a)
                            ++copies;
                    if (seen.size() > 1 + copies)
                        violation("sink u%u is %zu times in the reply to a status command", i.uid, seen.size());
                }
                if (must && n == 0)
                    violation("sink u%u is in the reply to a status command with a name or level that it did not have", i.uid);
            }
            for (auto& [u, x] : by)
                if (!x.empty() && !known.count(u))
                    violation("status shows an unknown sink u%u", u);
            count("status_commands_racing");
            std::string h;
            for (auto& x : q.ans.r)
                h += x.name + fmt::format(":{} ", int(x.si.level));
            note_distinct(hash(h));
        }
    }
}

static void one(rng& r, int i)
{
    if (i % 3 == 2)
        concurrent(r);
    else
    {
        sequential s(r);
        s.run();
    }
}

int main(int argc, char** argv)
{
    parse_args(argc, argv);
    return run_cases(one);
}
