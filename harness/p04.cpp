// P04: string arguments are logged whole, or replaced by <truncated> if (and
// only if) the record does not fit
#include "engine.hpp"
using namespace vp;

static constexpr std::size_t cap = XTR_SINK_CAPACITY;

namespace
{
    struct field
    {
        std::string text;
        bool str = false;       // a string argument
        bool table = false;     // which may be truncated
        std::size_t len = 0;
    };

    struct rec
    {
        int kind = 0;
        bool nb = false, pinned = false; // pinned: logged while the background thread was held
        std::uint32_t seq = 0;
        std::size_t oh = 0;
        std::vector<field> f;
    };

    constexpr int n_str_kinds = 16;

    std::string text(rng& r, std::size_t n, bool nul)
    {
        std::string s(n, 'x');
        const bool nasty = r.chance(30);
        std::uint64_t v = 0;
        for (std::size_t i = 0; i < n; ++i)
        {
            if (i % 8 == 0)
                v = r();
            else
                v >>= 8;
            unsigned char c = static_cast<unsigned char>(v);
            if (!nasty)
                c = static_cast<unsigned char>("abcdefghijklmnopqrstuvwxyzABCDEF"[c & 31]);
            if (c == '|' || (c == 0 && !nul))
                c = 'o';
            s[i] = char(c);
        }
        return s;
    }

    std::size_t pick_len(rng& r)
    {
        switch (r.below(20))
        {
        case 0: case 1: case 2: case 3: { const auto k = r.below(120); return cap - k; }
        case 4: return cap + r.below(40);
        case 5: { const std::size_t base = r.chance(50) ? 65536 : 32768; return base - 4 + r.below(9); }
        case 6: case 7: { std::size_t p = std::size_t(1) << r.range(0, 12); return p + r.below(5) - std::min<std::size_t>(p, 2); }
        case 8: return r.below(3 * cap);
        case 9: return cap / 2 + r.below(64) - 32;
        case 10: return 0;
        default: return r.below(300);
        }
    }

    struct run
    {
        std::vector<rec> recs;
        std::uint32_t seq = 0;

        void add(rec& x, std::string t) { x.f.push_back({std::move(t), false, false, 0}); }
        void add_str(rec& x, const std::string& t, bool table = true) { x.f.push_back({model_sanitize(t), true, table, t.size()}); }

        void emit(xtr::sink& s, int kind, bool nb, bool pinned, rng& r)
        {
            rec x;
            x.kind = kind;
            x.nb = nb;
            x.pinned = pinned;
            x.seq = ++seq;
            add(x, "m");
            add(x, std::to_string(seq));
            const std::uint32_t q = seq;
            std::size_t nargs = 1, extra = 0;
#define STMT(F, ...) do { recs.push_back(x); recs.back().oh = 24 + 16 * nargs + extra; if (nb) XTR_TRY_LOG(s, "m|{}|" F "|end", q __VA_OPT__(,) __VA_ARGS__); else XTR_LOG(s, "m|{}|" F "|end", q __VA_OPT__(,) __VA_ARGS__); } while (0)
            std::size_t l = pick_len(r);
            switch (kind)
            {
            case 0: { auto a = text(r, l, true); add_str(x, a); nargs = 2; STMT("{}", a); std::fill(a.begin(), a.end(), '!'); break; }
            case 1: { auto a = text(r, l, true); add_str(x, a); nargs = 2; std::string_view v = a; STMT("{}", v); std::fill(a.begin(), a.end(), '!'); break; }
            case 2: { auto a = text(r, l, false); add_str(x, a); nargs = 2; const char* v = a.c_str(); STMT("{}", v); std::fill(a.begin(), a.end(), '!'); break; }
            case 3: { auto a = text(r, l, false); add_str(x, a); nargs = 2; char* v = a.data(); STMT("{}", v); std::fill(a.begin(), a.end(), '!'); break; }
            case 4: { char v[300]; auto a = text(r, l % 300, false); std::memcpy(v, a.c_str(), a.size() + 1); add_str(x, a); nargs = 2; STMT("{}", v); std::memset(v, '!', sizeof v); break; }
            case 5: { auto a = text(r, l, true), b = text(r, r.chance(50) && l < cap ? cap - l - std::min<std::size_t>(cap - l, r.below(200)) : r.below(100), true); add_str(x, a); add_str(x, b); nargs = 3; STMT("{}|{}", a, b); std::fill(a.begin(), a.end(), '!'); std::fill(b.begin(), b.end(), '!'); break; }
            case 6: { auto a = text(r, l, false), b = text(r, r.below(50), true); add_str(x, a); add(x, std::to_string(q * 3)); add_str(x, b); nargs = 4; STMT("{}|{}|{}", a.c_str(), q * 3, b); std::fill(a.begin(), a.end(), '!'); std::fill(b.begin(), b.end(), '!'); break; }
            case 7: { auto a = text(r, r.below(50), true), b = text(r, l, false), c = text(r, r.below(cap), true); add(x, "-7"); add_str(x, a); add_str(x, b); add(x, "0.5"); add_str(x, c); nargs = 6; STMT("{}|{}|{}|{}|{}", -7, std::string_view(a), b.c_str(), 0.5, c); std::fill(a.begin(), a.end(), '!'); std::fill(b.begin(), b.end(), '!'); std::fill(c.begin(), c.end(), '!'); break; }
            case 8: { blob<200> b(q, q + 1); auto a = text(r, l, true); add_str(x, a); add(x, fmt::format("{}", b)); nargs = 3; extra = 208; STMT("{}|{}", a, b); b.scramble(); std::fill(a.begin(), a.end(), '!'); break; }
            case 9: { auto a = text(r, l % 5000, true); add_str(x, a, false); nargs = 2; extra = 40; STMT("{}", std::string(a)); break; }
            case 10: { auto a = text(r, l % 5000, true); add_str(x, a, false); auto b = text(r, r.below(cap), true); add_str(x, b); nargs = 3; extra = 40; STMT("{}|{}", std::string(a), b); std::fill(b.begin(), b.end(), '!'); break; }
            case 11: { static std::deque<std::string> keep; keep.push_back(text(r, l % 3000, false)); if (keep.size() > 4000) { s.sync(); keep.erase(keep.begin(), keep.begin() + 2000); } auto& a = keep.back(); add_str(x, a, false); auto b = text(r, r.below(60), true); add_str(x, b); nargs = 3; STMT("{}|{}", nocopy(a), b); std::fill(b.begin(), b.end(), '!'); break; }
            case 12: { std::string a[8]; for (auto& y : a) { y = text(r, r.chance(20) ? r.below(cap / 2) : r.below(40), false); add_str(x, y); } nargs = 9; STMT("{}|{}|{}|{}|{}|{}|{}|{}", a[0], a[1].c_str(), std::string_view(a[2]), a[3], a[4].c_str(), a[5], std::string_view(a[6]), a[7].c_str()); for (auto& y : a) std::fill(y.begin(), y.end(), '!'); break; }
            case 13: { const auto a = text(r, l, true); add_str(x, a); blob<56, 64> b(q, q + 2); add(x, fmt::format("{}", b)); nargs = 3; extra = 200; STMT("{}|{}", a, b); b.scramble(); break; }
            case 14: { auto a = text(r, l, true); add_str(x, a); nargs = 3; recs.push_back(x); recs.back().oh = 24 + 16 * nargs; std::timespec t{1000000000, 0}; if (nb) XTR_TRY_LOG_TS(s, xtr::timespec(t), "m|{}|{}|end", q, a); else XTR_LOGL_TS(error, s, xtr::timespec(t), "m|{}|{}|end", q, a); std::fill(a.begin(), a.end(), '!'); break; }
            case 15: { STMT("", 0); recs.back().f.push_back({"", false, false, 0}); break; }
            }
            recs.back().f.push_back({"end", false, false, 0});
        }
    };

    // for blocking statements with one string: the longest whole one and the shortest truncated one
    std::size_t whole_max[n_str_kinds], trunc_min[n_str_kinds];
}

static std::vector<std::string_view> split(std::string_view s)
{
    std::vector<std::string_view> r;
    for (;;)
    {
        const auto p = s.find('|');
        r.push_back(s.substr(0, p));
        if (p == s.npos)
            return r;
        s.remove_prefix(p + 1);
    }
}

// Exactly how long a string can be. The background thread is held, so that what
// is free is known: the longest whole string in an empty queue shows what a record
// needs besides the string; the longest one in what another record leaves then is
// known to the byte.
static void exact_fit(rng& r)
{
    auto mem = std::make_shared<mem_state>();
    xtr::logger log(std::make_unique<mem_storage>(mem, r(), 4096, 65536), std::chrono::system_clock(), xtr::null_command_path);
    xtr::sink s = log.get_sink("s"), h = log.get_sink("h");
    gate g;
    std::size_t done = 0;
    // Whether a string of len bytes is logged whole, after one of before bytes if not zero
    const auto fits = [&](int kind, std::size_t before, std::size_t len) {
        s.sync();
        h.sync();
        g.closed = true;
        XTR_LOG(h, "hold {}", stall{&g});
        if (!eventually([&] { return g.waiting > 0; }))
            inconclusive("the background thread did not reach the gate");
        const auto put = [&](std::size_t n) {
            const std::string a(n, 'q');
            const std::string_view v = a;
            const char* c = a.c_str();
            switch (kind)
            {
            case 0: XTR_TRY_LOG(s, "{}", a); break;
            case 1: XTR_TRY_LOG(s, "{}", v); break;
            case 2: XTR_TRY_LOG(s, "{}", c); break;
            case 3: XTR_TRY_LOG(s, "{}{}{}", 1, c, v.substr(0, 3)); break;
            case 4: XTR_TRY_LOG(s, "{}{}{}", 0.5, v.substr(0, 3), a); break;
            }
        };
        if (before)
            put(before);
        put(len);
        g.closed = false;
        s.sync();
        const std::string all = mem->get();
        const std::string_view out = std::string_view(all).substr(done);
        done = all.size();
        const std::size_t tail = kind >= 3 ? 3 : 0;
        if (std::size_t(std::count(out.begin(), out.end(), 'q')) == len + tail + (before ? before + tail : 0))
            return true;
        if (out.find("<truncated>") == out.npos && out.find("dropped") == out.npos)
            violation("a string of %zu bytes is neither whole nor truncated", len);
        return false;
    };
    // the largest in [lo, hi], of which there is one
    const auto largest = [&](int kind, std::size_t before, std::size_t lo, std::size_t hi) {
        for (std::size_t n = hi;; --n)
        {
            if (fits(kind, before, n))
                return n;
            if (n == lo)
                violation("a string of %zu bytes does not fit in a queue of %zu", n, cap);
        }
    };
    const int kind = int(r.below(5));
    const std::size_t first = largest(kind, 0, cap - 160, cap), oh = cap - first;
    const std::size_t base = r.range(1, 200);
    for (std::size_t a = base; a < base + 8; ++a)
    {
        const std::size_t left = cap - (oh + a + 7) / 8 * 8;
        const std::size_t want = left - oh, got = largest(kind, a, want - 10, want + 10);
        if (got != want)
            violation("the longest string is %zu bytes in an empty queue of %zu, but %zu (not %zu) if one of %zu bytes is there (kind %d)", first, cap, got, want, a, kind);
        count("exact_fits_checked");
    }
}

static void one(rng& r, int i)
{
    if (i < 4)
        exact_fit(r);
    auto mem = std::make_shared<mem_state>();
    run rn;
    gate g;
    std::atomic<bool> stop{false};
    const int shape = int(r.below(4)); // 0: free running, 1: pinned non-blocking, 2: blocking against a stuttering consumer, 3: mixed
    const int n = int(r.range(20, opt.thorough ? 200 : 80)) / (cap > 100000 ? 3 : 1);
    {
        xtr::logger log(std::make_unique<mem_storage>(mem, r(), 4096, 65536), std::chrono::system_clock(), xtr::null_command_path);
        std::thread opener;
        {
            xtr::sink s = log.get_sink("s");
            if (shape >= 2)
                opener = std::thread([&, rr = rng(r())]() mutable {
                    perturb_thread_off(true);
                    while (!stop)
                    {
                        ::usleep(useconds_t(rr.below(1500)));
                        g.closed = !g.closed && !stop;
                    }
                    g.closed = false;
                });
            if (shape == 1)
            {
                // hold the background thread on a fresh sink: free space is known
                g.closed = true;
                XTR_LOG(s, "hold {}", stall{&g});
                if (!eventually([&] { return g.waiting > 0; }))
                    violation("the background thread did not process a message within 40 s");
            }
            for (int i = 0; i < n; ++i)
            {
                if (shape >= 2 && r.chance(30))
                    XTR_LOG(s, "hold {}", stall{&g});
                int kind = int(r.below(n_str_kinds));
                const bool nb = shape == 1 || (shape == 3 && r.chance(50)) || (shape == 0 && r.chance(20));
                if (nb && kind == 11)
                    kind = 0;
                rn.emit(s, kind, nb, shape == 1, r);
                if (shape == 0 && r.chance(5))
                    s.sync();
            }
            stop = true;
            g.closed = false;
            s.close();
        }
        if (opener.joinable())
            opener.join();
    }
    const std::string data = mem->get();
    std::map<std::uint32_t, std::string_view> got;
    for (auto raw : split_lines(data))
    {
        const line l = parse_line(raw);
        const auto at = raw.find(": m|");
        if (!l.ok || at == raw.npos)
        {
            if (raw.find("hold stall") == raw.npos && raw.find("messages dropped") == raw.npos)
                violation("unexpected line \"%s\"", quote(raw).c_str());
            continue;
        }
        const auto f = split(raw.substr(at + 2));
        const auto q = f.size() > 1 ? std::uint32_t(std::strtoul(std::string(f[1]).c_str(), nullptr, 10)) : 0;
        if (!got.emplace(q, raw.substr(at + 2)).second)
            violation("message %u appears twice", q);
    }
    std::size_t used = 64; // upper bound of what is in the queue, while pinned
    long long n_trunc = 0, n_whole = 0, n_drop = 0;
    for (auto& x : rn.recs)
    {
        const auto it = got.find(x.seq);
        if (it == got.end())
        {
            if (!x.nb)
                violation("blocking message %u (kind %d) missing", x.seq, x.kind);
            if (x.pinned && used + x.oh <= cap)
                violation("non-blocking message %u (kind %d) dropped although %zu bytes were free", x.seq, x.kind, cap - used);
            ++n_drop;
            continue;
        }
        const auto f = split(it->second);
        if (f.size() != x.f.size())
            violation("message %u (kind %d) has %zu fields instead of %zu: \"%s\"", x.seq, x.kind, f.size(), x.f.size(), quote(it->second).c_str());
        std::size_t whole = 0;
        int strs = 0;
        bool trunc_any = false;
        std::size_t last_len = 0;
        for (std::size_t i = 0; i < f.size(); ++i)
        {
            if (f[i] == x.f[i].text)
            {
                if (x.f[i].table) { whole += x.f[i].len; ++strs; ++n_whole; last_len = x.f[i].len; }
                continue;
            }
            if (!x.f[i].str || f[i] != "<truncated>")
                violation("message %u (kind %d%s), field %zu is \"%s\", expected \"%s\"", x.seq, x.kind, x.nb ? " non-blocking" : "",
                    i, quote(f[i], 120).c_str(), quote(x.f[i].text, 120).c_str());
            if (!x.f[i].table)
                violation("message %u (kind %d): a string which was moved or passed by reference was truncated", x.seq, x.kind);
            trunc_any = true;
            ++strs;
            ++n_trunc;
            last_len = x.f[i].len;
        }
        if (whole > cap)
            violation("harness: %zu bytes of strings in a queue of %zu", whole, cap);
        for (std::size_t i = 0; i < f.size(); ++i)
            if (x.f[i].table && f[i] != x.f[i].text)
            {
                const std::size_t need = x.oh + whole + x.f[i].len;
                if (!x.nb && need <= cap)
                    violation("message %u (kind %d): string of %zu bytes truncated by a blocking statement although its record of at most %zu bytes fits the queue of %zu",
                        x.seq, x.kind, x.f[i].len, need, cap);
                if (x.nb && x.pinned && used + need <= cap)
                    violation("message %u (kind %d): string of %zu bytes truncated although %zu bytes were free", x.seq, x.kind, x.f[i].len, cap - used);
            }
        if (!x.nb && strs == 1 && x.kind <= 3)
        {
            // whether a string fits depends on its length only
            auto& w = whole_max[x.kind];
            auto& t = trunc_min[x.kind];
            if (trunc_any)
                t = std::min(t, last_len);
            else
                w = std::max(w, last_len);
            if (w >= t)
                violation("kind %d: a string of %zu bytes was logged whole but one of %zu bytes was truncated, both by blocking statements", x.kind, w, t);
        }
        used += x.oh + whole + 8;
    }
    for (auto& x : rn.recs)
        note_distinct(hash(fmt::format("{} {} {} {}", x.kind, x.nb, shape, x.f.size() > 2 ? x.f[2].len : 0)));
    count("strings_whole", n_whole);
    count("strings_truncated", n_trunc);
    count("messages_dropped", n_drop);
    count("messages_checked", (long long)got.size());
    sample(fmt::format("case {}: shape {} {} statements: {} strings whole, {} truncated, {} messages dropped", current_case.load(), shape, rn.recs.size(), n_whole, n_trunc, n_drop));
}

int main(int argc, char** argv)
{
    parse_args(argc, argv);
    std::fill(std::begin(trunc_min), std::end(trunc_min), std::size_t(-1));
    return run_cases(one);
}
