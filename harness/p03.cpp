// P03: every line of output is one complete message with the values its
// arguments had when it was logged
#include "engine.hpp"
using namespace vp;

static void one(rng& r, int)
{
    workload wl;
    profile p;
    p.sync = 1;
    if (r.chance(30))
        p.kind = int(r.below(n_kinds));
    const result res = run_workload(wl, r, opt.thorough ? 1200 : 400, p);

    std::unordered_set<std::string> known;
    for (auto& s : wl.streams)
        for (auto& e : s.expected)
            known.insert(e);
    bool complete = false;
    const auto lines = split_lines(res.data, &complete);
    if (!complete)
        violation("the output does not end with a complete line: \"%s\" [%s]",
            quote(res.data.substr(res.data.size() > 120 ? res.data.size() - 120 : 0)).c_str(), res.desc.c_str());
    std::uint64_t h = 0;
    for (std::size_t i = 0; i < lines.size(); ++i)
    {
        const line l = parse_line(lines[i]);
        if (!l.ok)
            violation("line %zu is malformed: \"%s\" [%s]", i, quote(lines[i]).c_str(), res.desc.c_str());
        if (!known.count(strip_ts(l)))
            violation("line %zu is not a message that was logged: \"%s\" [%s]", i, quote(lines[i]).c_str(), res.desc.c_str());
        const auto colon = l.rest.find(": ");
        h = mix(h ^ hash(l.rest.substr(0, colon)));
    }
    note_distinct(h);
    count("lines_checked", (long long)lines.size());
    if (!lines.empty())
        sample(fmt::format("case {}: {}: {} lines, e.g. \"{}\"", current_case.load(), res.desc, lines.size(), quote(lines[r.below(lines.size())], 120)));
}

int main(int argc, char** argv)
{
    parse_args(argc, argv);
    return run_cases(one);
}
