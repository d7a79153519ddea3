// P22: settings of the whole logger
#include "cmd.hpp"

#include <algorithm>
#include <array>
#include <climits>
#include <utility>
using namespace vp;

namespace
{
    using lv = xtr::log_level_t;
    constexpr int n_custom = 14;
    constexpr int n_styles = n_custom + 2;

    // What styles should print
    std::string style_text(int n, lv l)
    {
        const int i = int(l);
        if (n == n_custom)
            return i == 1 ? "F " : i == 2 ? "E " : i == 3 ? "W " : i == 4 ? "I " : "D ";
        if (n == n_custom + 1)
            return i == 1 ? "<0>" : i == 2 ? "<3>" : i == 3 ? "<4>" : i == 4 ? "<6>" : "<7>";
        if (n == 3 && i == 4)
            return "";
        if (n == 4)
            return std::string("<style 4 with {} {0} %s %n ") + "?FEWID"[i] + "> ";
        if (n == 5)
            return std::string(500, 'L') + "?FEWID"[i] + "5 ";
        return std::string("<style ") + char('a' + n) + " level " + "?FEWID"[i] + "> ";
    }

    template<int N>
    const char* style(lv l)
    {
        static const std::array<std::string, 6> t = [] {
            std::array<std::string, 6> a;
            for (int i = 1; i < 6; ++i)
                a[std::size_t(i)] = style_text(N, lv(i));
            return a;
        }();
        return t[std::size_t(l)].c_str();
    }

    template<int... N>
    constexpr auto make_styles(std::integer_sequence<int, N...>)
    {
        return std::array<xtr::log_level_style_t, n_styles>{&style<N>..., &xtr::default_log_level_style, &xtr::systemd_log_level_style};
    }
    const auto styles = make_styles(std::make_integer_sequence<int, n_custom>());

    // A setting with a history, of which a reader may see a range
    template<typename T>
    struct history
    {
        mutable std::mutex m;
        std::vector<T> values;          // by version
        std::atomic<int> at_least{0};   // the version of the last change that returned
        explicit history(T t) { values.push_back(std::move(t)); }
        template<typename F>
        void change(T t, F&& f)
        {
            int v;
            { std::scoped_lock l{m}; values.push_back(t); v = int(values.size()) - 1; }
            f();
            at_least = v;
        }
        int at_most() const { std::scoped_lock l{m}; return int(values.size()) - 1; }
        T get(int v) const { std::scoped_lock l{m}; return values[std::size_t(v)]; }
    };

    struct message { int lo, hi; lv level; };

    struct logging
    {
        int id;
        std::vector<message> sent;
        std::size_t bounded = 0;
    };

    struct world
    {
        std::shared_ptr<mem_state> mem = std::make_shared<mem_state>();
        std::unique_ptr<xtr::logger> log;
        history<int> style;
        history<lv> level{lv::info};
        std::atomic<bool> stop{false};
        std::string desc;
        explicit world(int s) : style(s) {}
    };

    template<typename S>
    void put(S& s, lv l, int id, std::size_t seq)
    {
        switch (l)
        {
        case lv::fatal: break; // terminates
        case lv::error: XTR_LOGL(error, s, "m {} {} #", id, seq); break;
        case lv::warning: XTR_LOGL(warning, s, "m {} {} #", id, seq); break;
        case lv::info: XTR_LOGL(info, s, "m {} {} #", id, seq); break;
        default: XTR_LOGL(debug, s, "m {} {} #", id, seq); break;
        }
    }

    void log_some(world& w, xtr::sink& s, logging& l, rng& r, int n)
    {
        while (n-- > 0)
        {
            const lv level = lv(r.range(2, 5));
            l.sent.push_back({w.style.at_least, INT_MAX, level});
            put(s, level, l.id, l.sent.size());
        }
    }

    void bound(world& w, xtr::sink& s, logging& l)
    {
        s.sync();
        const int hi = w.style.at_most();
        for (; l.bounded < l.sent.size(); ++l.bounded)
            l.sent[l.bounded].hi = hi;
    }

    void logger_thread(world& w, logging& l, rng r)
    {
        xtr::sink s = w.log->get_sink("logging" + std::to_string(l.id));
        s.set_level(lv::debug);
        while (!w.stop)
        {
            log_some(w, s, l, r, int(r.range(1, 20)));
            if (r.chance(15))
                bound(w, s, l);
            if (r.chance(60))
                ::usleep(useconds_t(r.below(400)));
            if (l.sent.size() > 20000)
                ::usleep(2000);
        }
        bound(w, s, l);
    }

    // Creates sinks while the default level changes
    void sinks_thread(world& w, rng r)
    {
        while (!w.stop)
        {
            const int lo = w.level.at_least;
            xtr::sink s = w.log->get_sink("created");
            const int hi = w.level.at_most();
            const lv l = s.level();
            bool ok = false;
            for (int v = lo; v <= hi; ++v)
                ok |= w.level.get(v) == l;
            if (!ok)
                violation("a sink was created with level %d, the default was changed to %d before (%s)", int(l), int(w.level.get(lo)), w.desc.c_str());
            count("concurrent_sinks_checked");
            ::usleep(useconds_t(r.below(2000)));
        }
    }

    void check_output(world& w, const std::vector<std::unique_ptr<logging>>& ls)
    {
        const std::string out = w.mem->get();
        bool complete = false;
        std::map<int, std::size_t> next;
        for (auto line : split_lines(out, &complete))
        {
            const auto at = line.rfind(": m ");
            int id = 0;
            unsigned long long seq = 0;
            if (at == line.npos || std::sscanf(std::string(line.substr(at + 4)).c_str(), "%d %llu #", &id, &seq) != 2)
                violation("unexpected line \"%s\" (%s)", quote(line).c_str(), w.desc.c_str());
            logging* l = nullptr;
            for (auto& x : ls)
                if (x->id == id)
                    l = x.get();
            if (!l)
                violation("unexpected line \"%s\" (%s)", quote(line).c_str(), w.desc.c_str());
            if (seq != ++next[id])
                violation("message %llu of thread %d instead of %zu (%s)", seq, id, next[id], w.desc.c_str());
            const auto& m = l->sent[seq - 1];
            const int hi = std::min(m.hi, w.style.at_most());
            bool ok = false;
            for (int v = m.lo; v <= hi && !ok; ++v)
            {
                const auto t = style_text(w.style.get(v), m.level);
                ok = line.size() > t.size() + 27 && line.substr(0, t.size()) == t && is_timestamp(line.substr(t.size(), 26)) && line[t.size() + 26] == ' ';
            }
            if (!ok)
                violation("\"%s\" of level %d has the style of none of the settings %d to %d in effect, the first being \"%s\" (%s)", quote(line, 200).c_str(), int(m.level), m.lo, hi,
                    style_text(w.style.get(m.lo), m.level).c_str(), w.desc.c_str());
            count("lines_checked");
            if (hi == m.lo)
                count("lines_with_exact_style");
        }
        for (auto& x : ls)
            if (next[x->id] != x->sent.size())
                violation("%zu of %zu messages of thread %d were written (%s)", next[x->id], x->sent.size(), x->id, w.desc.c_str());
    }

    // --- command paths -----------------------------------------------------------
    bool exists(const std::string& p)
    {
        struct ::stat st;
        return !p.empty() && p[0] && ::lstat(p.c_str(), &st) == 0;
    }

    std::string shown(const std::string& p) { return p == xtr::null_command_path ? "(null path)" : quote(p, 130); }

    // Whether this logger answers at path
    bool served(const std::string& path, const std::string& id)
    {
        const auto a = cmd_status(path);
        if (!a.connected)
            return false;
        for (auto& x : a.r)
            if (x.name == id)
                return a.eof;
        return false;
    }

    void style_case(rng& r, int)
    {
        const int s0 = int(r.below(n_styles));
        world w(s0);
        const bool pathological = r.chance(30);
        const std::string cmd = r.chance(50) ? xtr::null_command_path : cmd_path();
        w.log.reset(new xtr::logger(std::make_unique<mem_storage>(w.mem, r(), pathological ? 16 : 512, pathological ? 300 : 4096), std::chrono::system_clock(), cmd, styles[std::size_t(s0)]));
        const int n = int(r.below(4));
        w.desc = fmt::format("{} threads", n);
        std::vector<std::unique_ptr<logging>> ls;
        std::vector<std::thread> ts;
        for (int i = 0; i < n; ++i)
        {
            ls.push_back(std::make_unique<logging>());
            ls.back()->id = i + 1;
            ts.emplace_back(logger_thread, std::ref(w), std::ref(*ls.back()), rng(r()));
        }
        const bool creating = r.chance(40);
        if (creating)
            ts.emplace_back(sinks_thread, std::ref(w), rng(r()));
        ls.push_back(std::make_unique<logging>());
        auto& mine = *ls.back();
        mine.id = 0;
        struct own { xtr::sink s; lv level; };
        std::vector<std::unique_ptr<own>> sinks;
        lv def = lv::info;
        {
            xtr::sink s = w.log->get_sink("main");
            if (s.level() != def)
                violation("the first sink has level %d", int(s.level()));
            s.set_level(lv::debug);
            const int ops = int(r.range(5, 40));
            std::string seen;
            for (int i = 0; i < ops; ++i)
            {
                const auto c = r.below(10);
                seen += char('0' + c);
                if (c < 4)
                {
                    // synced before: nothing written so far may change its style
                    if (r.chance(50))
                        bound(w, s, mine);
                    const int v = int(r.below(n_styles));
                    w.style.change(v, [&] { w.log->set_log_level_style(styles[std::size_t(v)]); });
                    count("styles_set");
                }
                else if (c < 7)
                {
                    log_some(w, s, mine, r, int(r.range(1, 10)));
                    if (r.chance(30))
                        bound(w, s, mine);
                }
                else if (c == 7)
                {
                    def = lv(r.range(0, 5));
                    w.level.change(def, [&] { w.log->set_default_log_level(def); });
                    count("default_levels_set");
                }
                else if (c == 8)
                {
                    sinks.push_back(std::unique_ptr<own>(new own{w.log->get_sink("own"), def}));
                    if (r.chance(30))
                    {
                        sinks.back()->level = lv(r.range(0, 5));
                        sinks.back()->s.set_level(sinks.back()->level);
                    }
                    count("sinks_created");
                }
                else if (r.chance(30))
                {
                    // Neither a copy nor a sink which is registered is made by get_sink
                    auto o = std::unique_ptr<own>(new own{xtr::sink(), lv::info});
                    if (o->s.level() != lv::info)
                        violation("a default constructed sink has level %d", int(o->s.level()));
                    o->level = lv(r.range(0, 5));
                    o->s.set_level(o->level);
                    w.log->register_sink(o->s, "registered");
                    sinks.push_back(std::move(o));
                    count("sinks_registered");
                }
                for (auto& o : sinks)
                {
                    if (o->s.level() != o->level)
                        violation("a sink has level %d and not %d, the default is %d (%s)", int(o->s.level()), int(o->level), int(def), w.desc.c_str());
                    count("sink_levels_checked");
                }
                if (r.chance(20))
                    ::usleep(useconds_t(r.below(500)));
            }
            note_distinct(hash(seen) ^ r());
            w.stop = true;
            for (auto& t : ts)
                t.join();
            bound(w, s, mine);
            sinks.clear();
        }
        w.log.reset();
        check_output(w, ls);
    }

    void path_case(rng& r, int i)
    {
        const int s0 = int(r.below(n_styles));
        world w(s0);
        const std::string id = fmt::format("identity{}.{}", i, ::getpid());
        const std::string dir = opt.dir + "/p" + std::to_string(i);
        ::mkdir(dir.c_str(), 0777);
        // Someone else's files and socket
        const std::string regular = dir + "/regular", other_path = dir + "/other";
        {
            FILE* f = std::fopen(regular.c_str(), "w");
            if (!f || std::fputs("important", f) < 0 || std::fclose(f) != 0)
                inconclusive("cannot write %s", regular.c_str());
        }
        xtr::logger other(std::make_unique<mem_storage>(std::make_shared<mem_state>()), std::chrono::system_clock(), other_path);
        xtr::sink other_sink = other.get_sink("someone else");
        other_sink.sync();

        std::vector<std::string> used;
        int np = 0;
        enum what { usable, null_path, unusable };
        auto pick = [&](std::string& p) {
            const auto c = r.below(12);
            if (c < 4)
                p = dir + "/c" + std::to_string(np++);
            else if (c < 6)
                p = dir + "/again" + std::to_string(r.below(3));
            else if (c == 6)
            {
                p = xtr::null_command_path;
                return null_path;
            }
            else if (c == 7)
            {
                // as long as possible
                p = dir + "/";
                if (p.size() > 100)
                    p += "x";
                else
                    p += std::string(sizeof(sockaddr_un::sun_path) - 1 - p.size(), 'l');
                count("longest_paths");
            }
            else if (c == 8)
            {
                // an abstract socket
                p = std::string(1, '\0') + fmt::format("vp22-{}-{}-{}", ::getpid(), i, r.below(3));
                count("abstract_paths");
            }
            else
            {
                switch (r.below(5))
                {
                case 0: p = dir + "/missing/c"; break;
                case 1: p = dir + "/" + std::string(r.range(108, 5000), 'l'); break;
                case 2: p = regular; break;
                case 3: p = other_path; break;
                case 4: p = regular + "/c"; break;
                }
                return unusable;
            }
            return usable;
        };

        std::string cur;
        what cur_what = pick(cur);
        w.log.reset(new xtr::logger(std::make_unique<mem_storage>(w.mem), std::chrono::system_clock(), cur, styles[std::size_t(s0)]));
        w.desc = "paths: " + shown(cur);
        std::vector<std::unique_ptr<logging>> ls;
        std::vector<std::thread> ts;
        for (int k = int(r.below(3)); k > 0; --k)
        {
            ls.push_back(std::make_unique<logging>());
            ls.back()->id = int(ls.size());
            ts.emplace_back(logger_thread, std::ref(w), std::ref(*ls.back()), rng(r()));
        }
        xtr::sink s = w.log->get_sink(id);
        s.sync();
        used.push_back(cur);
        auto check = [&](bool wait) {
            (void)wait;
            for (auto& p : used)
            {
                const bool should = p == cur && cur_what == usable;
                if (p == xtr::null_command_path)
                {
                    if (exists(p))
                        violation("a socket was made for the null path (%s)", w.desc.c_str());
                    continue;
                }
                if (p.size() < sizeof(sockaddr_un::sun_path) && served(p, id) != should)
                    violation("the logger is %s at \"%s\" (%s)", should ? "not reachable" : "still reachable", shown(p).c_str(), w.desc.c_str());
                if (p[0] && p != regular && p != other_path && exists(p) != should)
                    violation("the socket \"%s\" %s (%s)", shown(p).c_str(), should ? "does not exist" : "was not removed", w.desc.c_str());
                count(should ? "paths_served" : "paths_not_served");
            }
            if (slurp(regular) != "important")
                violation("a file at the path was overwritten or removed (%s)", w.desc.c_str());
            if (!served(other_path, "someone else"))
                violation("another logger is no longer reachable (%s)", w.desc.c_str());
        };
        check(false);
        const int n = int(r.range(1, 8));
        for (int k = 0; k < n; ++k)
        {
            // A client connected before the change
            int held = -1;
            if (cur_what == usable && r.chance(40))
            {
                held = cmd_connect(cur);
                if (held == -1)
                    violation("cannot connect to \"%s\": %s (%s)", shown(cur).c_str(), std::strerror(errno), w.desc.c_str());
            }
            if (r.chance(15))
            {
                // the socket's file was removed by someone
                if (cur_what == usable && cur[0])
                    ::unlink(cur.c_str());
                count("files_removed_by_others");
            }
            std::string next;
            what nw;
            if (r.chance(20))
            {
                next = cur;
                nw = cur_what;
                count("same_path_again");
            }
            else
                nw = pick(next);
            w.desc += " -> " + shown(next);
            std::string next2;
            if (r.chance(12))
            {
                // Two changes at once: one of them is last
                const what nw2 = pick(next2);
                w.desc += " together with " + shown(next2);
                std::thread t([&] { w.log->set_command_path(next2); });
                w.log->set_command_path(next);
                t.join();
                const bool a = nw == usable && served(next, id), b = nw2 == usable && next2 != next && served(next2, id);
                if (next != next2 && a && b)
                    violation("the logger is reachable at two paths (%s)", w.desc.c_str());
                if (!a && !b && nw == usable && nw2 == usable)
                    violation("the logger is not reachable (%s)", w.desc.c_str());
                used.push_back(next2);
                if (b)
                {
                    used.push_back(next);
                    next = next2;
                    nw = nw2;
                }
                else if (!a && nw == usable)
                {
                    // the other one was last
                    used.push_back(next);
                    next = next2;
                    nw = nw2;
                }
                count("concurrent_path_changes");
            }
            else
                w.log->set_command_path(next);
            cur = next;
            cur_what = nw;
            used.push_back(cur);
            std::sort(used.begin(), used.end());
            used.erase(std::unique(used.begin(), used.end()), used.end());
            if (held != -1)
            {
                answer a;
                cmd_read(held, a);
                // The connection may not be left open
                if (!a.eof && a.err != ECONNRESET)
                    violation("a client of the previous path was not disconnected: %s (%s)", a.str().c_str(), w.desc.c_str());
                ::close(held);
                count("held_clients_checked");
            }
            check(true);
            count("path_changes");
            if (nw == unusable)
                count("unusable_paths");
            if (nw == null_path)
                count("null_paths");
        }
        note_distinct(hash(w.desc));
        w.stop = true;
        for (auto& t : ts)
            t.join();
        s.close();
        w.log.reset();
        cur_what = null_path;
        cur.clear();
        check(false);
        check_output(w, ls);
        other_sink.close();
    }

    // The default path
    void default_case(rng& r, int i)
    {
        const std::string run = opt.dir + "/run" + std::to_string(i), tmp = opt.dir + "/tmp" + std::to_string(i);
        const auto how = r.below(3);
        if (how == 0)
            ::mkdir(run.c_str(), 0777);
        ::mkdir(tmp.c_str(), 0777);
        ::setenv("XDG_RUNTIME_DIR", run.c_str(), 1);
        ::setenv("TMPDIR", tmp.c_str(), 1);
        const std::string dir = how == 0 ? run : tmp;
        auto sockets = [&] {
            std::set<std::string> v;
            for (auto& d : {run, tmp})
                if (DIR* p = ::opendir(d.c_str()))
                {
                    while (auto* e = ::readdir(p))
                        if (e->d_name[0] != '.')
                            v.insert(d + "/" + e->d_name);
                    ::closedir(p);
                }
            return v;
        };
        {
            struct one { std::unique_ptr<xtr::logger> l; std::unique_ptr<xtr::sink> s; std::string path, id; };
            std::vector<one> ls;
            std::set<std::string> before;
            const int n = int(r.range(1, 6));
            for (int k = 0; k < n; ++k)
            {
                one o;
                o.id = "default" + std::to_string(k);
                o.l.reset(new xtr::logger(std::make_unique<mem_storage>(std::make_shared<mem_state>())));
                o.s.reset(new xtr::sink(o.l->get_sink(o.id)));
                o.s->sync();
                auto now = sockets();
                std::vector<std::string> added;
                std::set_difference(now.begin(), now.end(), before.begin(), before.end(), std::back_inserter(added));
                if (added.size() != 1)
                    violation("a logger with the default path made %zu sockets in %s", added.size(), dir.c_str());
                o.path = added[0];
                if (o.path.substr(0, dir.size() + 1) != dir + "/" || o.path.substr(dir.size() + 1).rfind(fmt::format("xtrctl.{}.", ::getpid()), 0) != 0)
                    violation("the default path is \"%s\", expected in %s", o.path.c_str(), dir.c_str());
                before = now;
                ls.push_back(std::move(o));
                if (r.chance(30))
                {
                    auto& x = ls[r.below(ls.size())];
                    x.s.reset();
                    x.l.reset();
                    if (exists(x.path))
                        violation("the socket \"%s\" was not removed", x.path.c_str());
                    before.erase(x.path);
                    std::swap(x, ls.back());
                    ls.pop_back();
                }
                for (auto& x : ls)
                    if (!served(x.path, x.id))
                        violation("a logger is not reachable at its default path \"%s\"", x.path.c_str());
                count("default_paths_checked");
            }
        }
        if (!sockets().empty())
            violation("\"%s\" was not removed", sockets().begin()->c_str());
    }

    void one(rng& r, int i)
    {
        const auto c = r.below(20);
        if (c < 10)
            style_case(r, i);
        else if (c < 19)
            path_case(r, i);
        else
            default_case(r, i);
    }
}

int main(int argc, char** argv)
{
    parse_args(argc, argv);
    // A fatal message ends the program, so these are not seen below
    for (int i = 0; i < 6; ++i)
        for (int n = n_custom; n < n_styles; ++n)
            if (const std::string t = i ? style_text(n, lv(i)) : ""; t != styles[std::size_t(n)](lv(i)))
                violation("the text of level %d is \"%s\" and not \"%s\"", i, styles[std::size_t(n)](lv(i)), t.c_str());
    return run_cases(one);
}
