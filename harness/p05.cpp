// P05: bytes of string arguments are sanitized, whatever the kind of argument
// and statement
#include "engine.hpp"
using namespace vp;

namespace
{
    std::vector<std::string> want;  // expected messages, in order
    long long n_by_kind[64];

    // up to the first NUL
    std::string z(const std::string& s) { return std::string(s.c_str()); }

    void w(int kind, const std::string& msg)
    {
        ++n_by_kind[kind];
        want.push_back("k" + std::to_string(kind) + " " + msg);
    }

    std::deque<std::string> keep; // referenced by nocopy until processed

    // Logs x in every way there is
    void emit_all(xtr::sink& s, const std::string& x)
    {
        const std::string m = model_sanitize(x), mz = model_sanitize(z(x));
        const std::timespec ts0{1700000000, 0};
        const xtr::timespec ts(ts0);
        { std::string a = x; w(0, m); XTR_LOG(s, "k0 {}", a); std::fill(a.begin(), a.end(), '\x1b'); }
        { const std::string a = x; w(1, m); XTR_LOG(s, "k1 {}", a); }
        { w(2, m); XTR_LOG(s, "k2 {}", std::string(x)); }
        { std::string a = x; w(3, m); XTR_LOG(s, "k3 {}", std::move(a)); }
        { std::string_view a = x; w(4, m); XTR_LOG(s, "k4 {}", a); }
        { w(5, m); XTR_LOG(s, "k5 {}", std::string_view(x)); }
        { const char* a = x.c_str(); w(6, mz); XTR_LOG(s, "k6 {}", a); }
        { std::string b = x; char* a = b.data(); w(7, mz); XTR_LOG(s, "k7 {}", a); std::fill(b.begin(), b.end(), '\x1b'); }
        { char a[64]; std::memset(a, 0, sizeof a); std::memcpy(a, x.data(), std::min<std::size_t>(x.size(), 63)); w(8, model_sanitize(a)); XTR_LOG(s, "k8 {}", a); std::memset(a, 0x1b, 63); }
        { struct { char a[32]; } t{}; std::memcpy(t.a, x.data(), std::min<std::size_t>(x.size(), 31)); const auto& ct = t; w(9, model_sanitize(t.a)); XTR_LOG(s, "k9 {}", ct.a); }
        keep.push_back(x);
        const std::string& k = keep.back();
        { w(10, m); XTR_LOG(s, "k10 {}", nocopy(k)); }
        { std::string_view v = k; w(11, m); XTR_LOG(s, "k11 {}", nocopy(v)); }
        { const char* p = k.c_str(); w(12, mz); XTR_LOG(s, "k12 {}", nocopy(p)); }
        { w(13, "1 " + m + " 2.5 " + mz + " x"); XTR_LOG(s, "k13 {} {} {} {} {}", 1, x, 2.5, x.c_str(), 'x'); }
        { w(14, m + " " + m + " " + m); XTR_LOG(s, "k14 {} {} {}", std::string(x), x, std::string_view(x)); }
        { w(15, "7 " + m); XTR_LOG(s, "k15 {} {}", 7, std::string(x)); }
        { w(16, m + " " + m); XTR_LOG(s, "k16 {} {}", std::string(x), nocopy(k)); }
        { w(17, m); XTR_LOGL(error, s, "k17 {}", x); }
        { w(18, m); XTR_LOG_TS(s, ts, "k18 {}", x); }
        { w(19, m); XTR_LOG_TS(s, ts, "k19 {}", std::string(x)); }
        { w(20, mz); XTR_LOG_RTC(s, "k20 {}", x.c_str()); }
        { w(21, m); XTR_LOG_TSC(s, "k21 {}", std::string_view(x)); }
        { w(22, m + " " + m); XTR_LOGL_TSC(warning, s, "k22 {} {}", x, std::string(x)); }
        { long double d = 1.5; w(23, "1.5 " + m); XTR_LOG(s, "k23 {} {}", d, x); }
        { w(24, m + " " + mz); XTR_LOG(s, "k24 {} {}", nocopy(k), nocopy(k.c_str())); }
        { w(25, m + " mo5"); XTR_LOG(s, "k25 {} {}", x, move_only(5)); }
        { w(26, m + " mo5"); XTR_LOG(s, "k26 {} {}", std::string(x), move_only(5)); }
        { const std::string_view a = x; w(27, m); XTR_LOGL_TS(error, s, ts, "k27 {}", a); }
        { blob<56, 64> b(1, 2); w(28, m + " " + fmt::format("{}", b)); XTR_LOG(s, "k28 {} {}", x, b); }
        { const std::string a = x; w(29, m); XTR_LOG(s, "k29 {}", std::move(a)); }
        { w(31, fmt::format("{:>40}|{:.5}|{:<7}|", m, mz, m)); XTR_LOG(s, "k31 {:>40}|{:.5}|{:<7}|", x, x.c_str(), nocopy(k)); }
        { w(32, fmt::format("{1}|{0:.9}", m, m)); XTR_LOG(s, "k32 {1}|{0:.9}", std::string_view(x), std::string(x)); }
        { const char* const a = x.c_str(); w(30, "3 " + mz); XTR_LOG(s, "k30 {} {}", 3, a); }
    }

    // There is room for these: the sink was drained before
    void emit_nonblocking(xtr::sink& s, const std::string& x)
    {
        const std::string m = model_sanitize(x), mz = model_sanitize(z(x));
        { w(40, m); XTR_TRY_LOG(s, "k40 {}", x); }
        { w(41, m); XTR_TRY_LOG(s, "k41 {}", std::string(x)); }
        { w(42, mz); XTR_TRY_LOG(s, "k42 {}", x.c_str()); }
        { w(43, m); XTR_TRY_LOGL(error, s, "k43 {}", std::string_view(x)); }
        { w(44, m); XTR_TRY_LOG_TSC(s, "k44 {}", x); }
        { w(45, m); XTR_TRY_LOGL_RTC(error, s, "k45 {}", std::string(x)); }
        keep.push_back(x);
        { w(46, m); XTR_TRY_LOG(s, "k46 {}", nocopy(keep.back())); }
    }

    void emit_literals(xtr::sink& s)
    {
        w(50, "\\x1B[31m\\x0D\\x0A\\x5C\\x7F\\xFF\\x80"); XTR_LOG(s, "k50 {}", "\x1b[31m\r\n\\\x7f\xff\x80");
        w(51, "1 \\x9B2J"); XTR_LOG(s, "k51 {} {}", 1, "\x9b" "2J");
        static const char a[] = {'a', '\t', '\b', '~', ' ', '\0'};
        w(52, "a\\x09\\x08~ "); XTR_LOG(s, "k52 {}", a);
        w(53, "a\\x09\\x08~ "); XTR_LOG(s, "k53 {}", nocopy(a));
    }

    void check(const std::string& data)
    {
        for (unsigned char c : data)
            if (c != '\n' && (c < 0x20 || c > 0x7e))
                violation("byte 0x%02x reached the output", unsigned(c));
        std::size_t i = 0;
        for (auto raw : split_lines(data))
        {
            const line l = parse_line(raw);
            const auto at = raw.find(": k");
            if (!l.ok || at == raw.npos)
                violation("unexpected line \"%s\"", quote(raw).c_str());
            const auto msg = raw.substr(at + 2);
            if (i >= want.size())
                violation("more lines than statements: \"%s\"", quote(raw).c_str());
            if (msg != want[i])
                violation("message \"%s\" expected \"%s\"", quote(msg).c_str(), quote(want[i]).c_str());
            ++i;
        }
        if (i != want.size())
            violation("%zu lines for %zu statements", i, want.size());
        count("messages_checked", (long long)i);
    }
}

static void one(rng& r, int c)
{
    auto mem = std::make_shared<mem_state>();
    want.clear();
    std::size_t bytes = 0;
    {
        xtr::logger log(std::make_unique<mem_storage>(mem, r(), 1, 8192), std::chrono::system_clock(), xtr::null_command_path);
        xtr::sink s = log.get_sink("s");
        std::vector<std::string> xs;
        // every byte value at the start, middle and end and alone, in every shard
        for (int b = c % 4; b < 256; b += 4)
        {
            const std::string ch(1, char(b));
            xs.push_back(ch);
            xs.push_back(ch + "tail");
            xs.push_back("head" + ch);
            xs.push_back("he" + ch + "ad" + ch);
        }
        for (int i = 0; i < 40; ++i)
        {
            std::string x;
            for (auto n = r.below(r.chance(20) ? 300 : 50); n > 0; --n)
            {
                switch (r.below(5))
                {
                case 0: x += char(r.below(256)); break;
                case 1: x += char(r.range(0x78, 0x88)); break;
                case 2: x += "\x1b[\\\x7f\r\n\t\x9b{}%"[r.below(12)]; break;
                case 3: x += char(r.range(0x18, 0x24)); break;
                default: x += char(r.range(' ', '~')); break;
                }
            }
            xs.push_back(std::move(x));
        }
        for (auto& x : xs)
        {
            note_distinct(hash(x));
            bytes += x.size();
            emit_all(s, x);
            if (x.size() < 100)
            {
                // when the second sync returns, the space of all that was
                // before the first is free, and that is all but a few bytes
                s.sync();
                s.sync();
                emit_nonblocking(s, x);
            }
            if (keep.size() > 500)
            {
                s.sync();
                keep.clear();
            }
        }
        emit_literals(s);
    }
    keep.clear();
    check(mem->get());
    count("string_bytes", (long long)bytes);
    sample(fmt::format("case {}: {} statements of {} strings compared", current_case.load(), want.size(), bytes));
}

int main(int argc, char** argv)
{
    parse_args(argc, argv);
    const int rc = run_cases(one);
    for (int i = 0; i < 64; ++i)
        if (n_by_kind[i])
            count("kind_" + std::to_string(i), n_by_kind[i]);
    write_stats();
    return rc;
}
