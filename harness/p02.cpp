// P02: messages of a sink are in the order they were logged, and messages of
// different sinks are ordered when a sync, close or copy orders them
#include "engine.hpp"
using namespace vp;

// Position of every message in the output, per stream
static std::unordered_map<std::string, std::vector<std::size_t>> index_output(const result& res)
{
    std::unordered_map<std::string, std::vector<std::size_t>> at;
    std::size_t n = 0;
    std::uint64_t h = 0;
    for (auto raw : split_lines(res.data))
    {
        const line l = parse_line(raw);
        if (l.ok)
        {
            at[strip_ts(l)].push_back(n);
            h = mix(h ^ hash(name_of(l)));
        }
        ++n;
    }
    note_distinct(h);
    return at;
}

static void check_streams(workload& wl, const result& res)
{
    // For every sink, the lines with its name must be a subsequence of what it
    // logged (messages which are missing are not this property's business)
    std::unordered_map<std::string, stream*> by_name;
    std::unordered_map<std::string, std::size_t> pos;
    for (auto& s : wl.streams)
        by_name[s.name] = &s;
    long long n = 0;
    for (auto raw : split_lines(res.data))
    {
        const line l = parse_line(raw);
        if (!l.ok)
            continue;
        const std::string name(name_of(l));
        const auto it = by_name.find(name);
        if (it == by_name.end())
            continue;
        auto& exp = it->second->expected;
        const std::string text = strip_ts(l);
        std::size_t& k = pos[name];
        std::size_t j = k;
        while (j < exp.size() && exp[j] != text)
            ++j;
        if (j == exp.size())
        {
            // unknown text is P03's business; known but already passed is a
            // reordering
            if (std::find(exp.begin(), exp.end(), text) != exp.end())
                violation("sink %s: \"%s\" is out of order, after message %zu was printed [%s]",
                    name.c_str(), quote(raw).c_str(), k, res.desc.c_str());
            continue;
        }
        k = j + 1;
        ++n;
    }
    count("ordered_messages", n);
}

static void free_running(rng& r)
{
    workload wl;
    const result res = run_workload(wl, r, opt.thorough ? 1000 : 300);
    index_output(res);
    check_streams(wl, res);
    sample(fmt::format("case {}: {}: per-sink order of {} sinks", current_case.load(), res.desc, wl.streams.size()));
}

// Threads hand a token around: whoever holds it logs a few messages, orders them
// with a sync, a close or by giving away a copy, then passes the token on. All
// messages logged while holding the token must then precede all messages logged
// by later holders.
static void token(rng& r)
{
    workload wl;
    result res;
    output out(random_store(r), r);
    const int n_threads = int(r.range(2, 4));
    const int rounds = int(r.range(5, opt.thorough ? 120 : 40));
    std::atomic<int> turn{0};
    struct block { std::vector<std::string> msgs; int how; };
    std::vector<block> blocks(static_cast<std::size_t>(rounds));
    std::vector<std::unique_ptr<xtr::sink>> handed(static_cast<std::size_t>(rounds) + 1);
    const auto s0 = r();
    xtr::logger& lg = *out.log;
    std::vector<std::thread> threads;
    std::mutex sm;
    for (int t = 0; t < n_threads; ++t)
        threads.emplace_back(
            [&, t]
            {
                rng rr(s0 + std::uint64_t(t));
                std::vector<owned> mine;
                mine.push_back(make_owned(wl, lg, rr));
                writer noise = mine[0].w;
                for (int k = 0; k < rounds; ++k)
                {
                    if (k % n_threads != t)
                        continue;
                    while (turn.load(std::memory_order_acquire) != k)
                    {
                        if (rr.chance(2))
                            ::usleep(20);
                    }
                    auto& b = blocks[std::size_t(k)];
                    // a sink handed over by the previous holder is used by this one
                    owned o;
                    if (handed[std::size_t(k)])
                    {
                        o.s = std::move(handed[std::size_t(k)]);
                        o.w.id = wl.next_id++;
                        o.w.st = wl.new_stream("h" + std::to_string(o.w.id));
                        o.s->set_name(o.w.st->name);
                        o.w.s = o.s.get();
                    }
                    else
                        o = make_owned(wl, lg, rr);
                    for (auto n = rr.range(1, 20); n > 0; --n)
                        emit(o.w, random_kind(rr), rr);
                    b.msgs = o.w.st->expected;
                    b.how = int(rr.below(3));
                    if (b.how == 0)
                        o.s->sync();
                    else if (b.how == 1)
                        o.s->close();
                    else if (k + 1 < rounds)
                    {
                        // The copy is registered through the queue of its source so
                        // nothing logged by the copy can precede what the source
                        // had logged
                        handed[std::size_t(k) + 1].reset(new xtr::sink(*o.s));
                    }
                    turn.store(k + 1, std::memory_order_release);
                    // the source may go on logging
                    if (b.how != 1 && rr.chance(50))
                        for (auto n = rr.range(1, 5); n > 0; --n)
                            emit(o.w, random_kind(rr), rr);
                    emit(mine[0].w, random_kind(rr), rr);
                }
                mine.clear();
            });
    for (auto& t : threads)
        t.join();
    handed.clear();
    res.desc = out.desc + " token";
    res.data = out.finish();
    auto at = index_output(res);
    check_streams(wl, res);
    // ordering between consecutive blocks. For a block ordered by a copy only the
    // block which used the copy is ordered after it.
    long long edges = 0;
    auto first_last = [&](const block& b, std::size_t& first, std::size_t& last)
    {
        first = ~std::size_t(0);
        last = 0;
        bool any = false;
        for (auto& m : b.msgs)
        {
            auto it = at.find(m);
            if (it == at.end())
                continue;
            // no-argument messages may occur several times; all are in this block
            // or logged after it, so use the first
            first = std::min(first, it->second.front());
            last = std::max(last, it->second.front());
            any = true;
        }
        return any;
    };
    for (std::size_t k = 0; k < blocks.size(); ++k)
    {
        std::size_t f0, l0;
        if (!first_last(blocks[k], f0, l0))
            continue;
        for (std::size_t j = k + 1; j < blocks.size(); ++j)
        {
            if (blocks[k].how == 2 && j != k + 1)
                break;
            std::size_t f1, l1;
            if (!first_last(blocks[j], f1, l1))
                continue;
            ++edges;
            if (f1 < l0)
                violation("a message logged after block %zu was ordered (%s) was printed before it: \"%s\" [%s]",
                    k, blocks[k].how == 0 ? "sync" : blocks[k].how == 1 ? "close" : "copy",
                    quote(blocks[j].msgs.front()).c_str(), res.desc.c_str());
            if (j > k + 8)
                break;
        }
    }
    count("happens_before_edges", edges);
    count("token_rounds", rounds);
    count("messages_checked", (long long)at.size());
    sample(fmt::format("case {}: {} rounds of token passing, {} ordering edges checked", current_case.load(), rounds, edges));
}

int main(int argc, char** argv)
{
    parse_args(argc, argv);
    return run_cases([](rng& r, int) { if (r.chance(50)) free_running(r); else token(r); });
}
