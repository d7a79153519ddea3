// P01: every message logged by a blocking statement is delivered exactly once
#include "engine.hpp"
using namespace vp;

static void one(rng& r, int)
{
    workload wl;
    const int max_msgs = opt.thorough ? 1200 : 400;
    const result res = run_workload(wl, r, max_msgs);

    std::unordered_map<std::string, int> left;
    long long expected = 0;
    for (auto& s : wl.streams)
        for (auto& e : s.expected)
        {
            ++left[e];
            ++expected;
        }
    std::uint64_t h = 0;
    long long n = 0;
    for (auto raw : split_lines(res.data))
    {
        const line l = parse_line(raw);
        if (!l.ok)
            continue; // not a message: whatever it was will be found missing
        const auto it = left.find(strip_ts(l));
        if (it == left.end())
            continue;
        if (--it->second < 0)
            violation("delivered more often than logged: \"%s\" [%s]", quote(raw).c_str(), res.desc.c_str());
        ++n;
        h = mix(h ^ hash(name_of(l)));
    }
    if (n != expected)
        for (auto& s : wl.streams)
            for (auto& e : s.expected)
                if (left[e] > 0)
                    violation("%lld of %lld messages missing, the first is \"%s\" of sink %s [%s]",
                        expected - n, expected, quote(e).c_str(), s.name.c_str(), res.desc.c_str());
    note_distinct(h);
    count("messages_checked", n);
    sample(fmt::format("case {}: {} -> {} messages in {} bytes, all delivered once", current_case.load(), res.desc, n, res.data.size()));
}

int main(int argc, char** argv)
{
    parse_args(argc, argv);
    return run_cases(one);
}
