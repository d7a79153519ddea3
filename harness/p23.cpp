// P23: format strings mean what they mean in {fmt} for every kind of argument,
// and containers, tuples and pairs are printed in full in the documented form
#include "engine.hpp"

#include <fmt/chrono.h>
#include <fmt/ostream.h>

#include <array>
#include <deque>
#include <forward_list>
#include <list>
#include <set>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <valarray>

using namespace vp;

namespace
{
    // A type with format specifiers of its own
    struct temperature { double kelvin; };

    // A type printed by operator<<
    struct streamed_t { int a, b; };
    std::ostream& operator<<(std::ostream& o, const streamed_t& s) { return o << "<" << s.a << "|" << s.b << ">"; }

    // An iterable type of the user's, with begin() and end() and empty()
    struct user_range
    {
        std::vector<int> v;
        auto begin() const { return v.begin(); }
        auto end() const { return v.end(); }
        bool empty() const { return v.empty(); }
    };

    // An associative type of the user's
    struct user_map
    {
        using mapped_type = int;
        std::vector<std::pair<std::string, int>> v;
        auto begin() const { return v.begin(); }
        auto end() const { return v.end(); }
        bool empty() const { return v.empty(); }
    };
}

template<>
struct fmt::formatter<temperature>
{
    char unit = 'K';
    template<typename C> constexpr auto parse(C& c)
    {
        auto it = c.begin();
        if (it != c.end() && (*it == 'C' || *it == 'K'))
            unit = *it++;
        return it;
    }
    template<typename C> auto format(const temperature& t, C& c) const
    {
        return fmt::format_to(c.out(), "{:.2f}{}", unit == 'C' ? t.kelvin - 273.15 : t.kelvin, unit);
    }
};
template<> struct fmt::formatter<streamed_t> : fmt::ostream_formatter {};

namespace
{
    std::vector<std::string> want;      // what follows "s p23.cpp:" in each line
    std::map<std::string, long long> kinds; // line and format -> times logged

    // --- models of the arguments -------------------------------------------
    // Strings are printed sanitized; everything else as {fmt} prints it
    template<typename T>
    auto M(const T& v)
    {
        using D = std::decay_t<T>;
        if constexpr (std::is_same_v<D, const char*> || std::is_same_v<D, char*>)
            return model_sanitize(std::string_view(v));
        else if constexpr (std::is_same_v<D, std::string> || std::is_same_v<D, std::string_view>)
            return model_sanitize(v);
        else
            return v;
    }

    // --- containers: random values and their documented form -----------------
    template<typename T> concept scalar_like = std::is_arithmetic_v<T> || std::is_same_v<T, std::string> || std::is_same_v<T, temperature>;

    std::size_t size_of(rng& r, int depth) { return r.chance(25) ? 0 : r.chance(30) ? 1 : r.range(2, depth ? 4 : r.chance(5) ? 300 : 9); }

    template<typename T> struct gen;

    template<std::integral T> struct gen<T>
    {
        static T make(rng& r, int)
        {
            if constexpr (std::is_same_v<T, char>)
                return char(r.range('!', '~'));
            else
                return T(r.chance(20) ? r() : r.below(100));
        }
        static std::string show(const T& v)
        {
            if constexpr (std::is_same_v<T, bool>) return v ? "true" : "false";
            else if constexpr (std::is_same_v<T, char>) return std::string(1, v);
            else return std::to_string(v);
        }
    };
    template<> struct gen<double>
    {
        static double make(rng& r, int) { return double(r.below(100000)) / 16; }
        static std::string show(double v) { return fmt::format("{}", v); }
    };
    template<> struct gen<std::string>
    {
        static std::string make(rng& r, int) { return random_text(r, r.below(r.chance(10) ? 200 : 12), false); }
        static std::string show(const std::string& v) { return v; }
    };
    template<> struct gen<temperature>
    {
        static temperature make(rng& r, int) { return {double(r.below(1000))}; }
        static std::string show(const temperature& v) { return fmt::format("{}", v); }
    };
    template<typename C>
    std::string show_seq(const C& c)
    {
        std::string s = "[";
        bool first = true;
        for (auto it = std::begin(c); it != std::end(c); ++it)
        {
            if (!first)
                s += ", ";
            first = false;
            s += gen<std::remove_cvref_t<typename C::value_type>>::show(*it);
        }
        return s + "]";
    }
    template<typename C>
    C make_seq(rng& r, int d)
    {
        C c;
        for (auto n = size_of(r, d); n > 0; --n)
            c.insert(c.end(), gen<typename C::value_type>::make(r, d + 1));
        return c;
    }
#define VP_SEQ(T) template<typename... A> struct gen<T<A...>> { using C = T<A...>; static C make(rng& r, int d) { return make_seq<C>(r, d); } static std::string show(const C& c) { return show_seq(c); } };
    VP_SEQ(std::vector) VP_SEQ(std::list) VP_SEQ(std::deque) VP_SEQ(std::set) VP_SEQ(std::multiset) VP_SEQ(std::unordered_set)
    template<typename T> struct gen<std::forward_list<T>>
    {
        static std::forward_list<T> make(rng& r, int d) { std::forward_list<T> c; for (auto n = size_of(r, d); n > 0; --n) c.push_front(gen<T>::make(r, d + 1)); return c; }
        static std::string show(const std::forward_list<T>& c) { return show_seq(c); }
    };
    template<typename T, std::size_t N> struct gen<std::array<T, N>>
    {
        static std::array<T, N> make(rng& r, int d) { std::array<T, N> c; for (std::size_t i = 0; i < N; ++i) c[i] = gen<T>::make(r, d + 1); return c; }
        static std::string show(const std::array<T, N>& c) { return show_seq(c); }
    };
    template<typename A, typename B> struct gen<std::pair<A, B>>
    {
        static std::pair<A, B> make(rng& r, int d) { auto a = gen<std::remove_const_t<A>>::make(r, d + 1); return {std::move(a), gen<B>::make(r, d + 1)}; }
        static std::string show(const std::pair<A, B>& p) { return "(" + gen<std::remove_const_t<A>>::show(p.first) + ", " + gen<B>::show(p.second) + ")"; }
    };
    template<typename A> struct gen<std::tuple<A>>
    {
        static std::tuple<A> make(rng& r, int d) { return {gen<A>::make(r, d + 1)}; }
        static std::string show(const std::tuple<A>& t) { return "(" + gen<A>::show(std::get<0>(t)) + ")"; }
    };
    template<typename A, typename B, typename... R> struct gen<std::tuple<A, B, R...>>
    {
        using T = std::tuple<A, B, R...>;
        static T make(rng& r, int d) { return T{gen<A>::make(r, d + 1), gen<B>::make(r, d + 1), gen<R>::make(r, d + 1)...}; }
        static std::string show(const T& t)
        {
            return std::apply([](const A& a, const auto&... x) { std::string s = "(" + gen<A>::show(a); ((s += ", " + gen<std::remove_cvref_t<decltype(x)>>::show(x)), ...); return s + ")"; }, t);
        }
    };
    template<typename C>
    std::string show_map(const C& c)
    {
        std::string s = "{";
        bool first = true;
        for (const auto& [k, v] : c)
        {
            if (!first)
                s += ", ";
            first = false;
            s += gen<std::remove_cvref_t<decltype(k)>>::show(k) + ": " + gen<std::remove_cvref_t<decltype(v)>>::show(v);
        }
        return s + "}";
    }
#define VP_MAP(T) template<typename K, typename V, typename... A> struct gen<T<K, V, A...>> { using C = T<K, V, A...>; \
        static C make(rng& r, int d) { C c; for (auto n = size_of(r, d); n > 0; --n) { auto k = gen<K>::make(r, d + 1); c.emplace(std::move(k), gen<V>::make(r, d + 1)); } return c; } \
        static std::string show(const C& c) { return show_map(c); } };
    VP_MAP(std::map) VP_MAP(std::multimap) VP_MAP(std::unordered_map)
    template<> struct gen<user_range>
    {
        static user_range make(rng& r, int d) { return {make_seq<std::vector<int>>(r, d)}; }
        static std::string show(const user_range& c) { return show_seq(c.v); }
    };
    template<> struct gen<user_map>
    {
        static user_map make(rng& r, int d) { return {make_seq<std::vector<std::pair<std::string, int>>>(r, d)}; }
        static std::string show(const user_map& c) { return show_map(c.v); }
    };
    template<> struct gen<std::tuple<>>
    {
        static std::tuple<> make(rng&, int) { return {}; }
        static std::string show(const std::tuple<>&) { return "()"; }
    };
    template<typename T> struct gen<std::valarray<T>>
    {
        static std::valarray<T> make(rng& r, int d) { std::valarray<T> c(size_of(r, d)); for (auto& x : c) x = gen<T>::make(r, d + 1); return c; }
        static std::string show(const std::valarray<T>& c)
        {
            std::string s = "[";
            for (std::size_t i = 0; i < c.size(); ++i)
                s += (i ? ", " : "") + gen<T>::show(c[i]);
            return s + "]";
        }
    };

    // The objects that were logged are changed, then destroyed, after the statement
    template<typename T>
    void container(xtr::sink& s, rng& r)
    {
        auto v = std::make_unique<T>(gen<T>::make(r, 0));
        const std::string e = gen<T>::show(*v);
        maximum("longest_container", (long long)e.size());
        const int line = __LINE__ + 4; // of the first case
        const auto k = r.below(5);
        switch (k)
        {
        case 0: XTR_LOG(s, "{}", *v); break;
        case 1: XTR_LOGL(error, s, "{}", std::as_const(*v)); break;
        case 2: XTR_LOG(s, "{}", std::move(*v)); break;
        case 3: XTR_LOG_TSC(s, "{} {}", "str\ting", *v); break;
        case 4: XTR_LOGL_RTC(warning, s, "{} {} {}", 7, *v, *v); break;
        }
        static constexpr const char* pre[] = {"", "", "", "str\\x09ing ", "7 "};
        want.push_back(fmt::format("{}: {}{}{}", line + int(k), pre[k], e, k == 4 ? " " + e : ""));
        *v = gen<T>::make(r, 0);
        count("containers_logged");
        note_distinct(hash(e));
    }

    using containers = std::tuple<
        std::vector<int>, std::list<double>, std::deque<std::string>, std::set<int>, std::multiset<char>, std::unordered_set<std::string>,
        std::forward_list<long>, std::vector<bool>, std::vector<char>, std::array<int, 0>, std::array<std::string, 3>,
        std::map<int, int>, std::map<std::string, std::vector<int>>, std::multimap<int, std::string>, std::unordered_map<std::string, double>,
        std::pair<int, std::string>, std::tuple<int>, std::tuple<int, double, std::string, bool>,
        std::vector<std::vector<std::vector<int>>>, std::map<int, std::map<int, std::pair<int, int>>>, std::vector<std::pair<int, std::tuple<char, std::vector<int>>>>,
        std::pair<std::vector<int>, std::map<int, int>>, std::tuple<std::vector<std::string>, std::map<std::string, int>, std::pair<int, int>>,
        std::vector<temperature>, std::array<std::list<int>, 2>, user_range, user_map, std::vector<user_range>,
        std::unordered_map<int, std::set<std::string>>, std::list<std::tuple<std::pair<int, int>, int>>
        , std::tuple<>, std::valarray<int>, std::vector<std::valarray<double>>, std::pair<std::tuple<>, int>
        >;

    template<typename... T>
    void all_containers(xtr::sink& s, rng& r, std::tuple<T...>*)
    {
        (container<T>(s, r), ...);
    }

    // --- format strings --------------------------------------------------------
#define VP_WANT(L, F, ...) (++kinds[fmt::format("{} {}", L, fmt::string_view(F))], want.push_back(fmt::format("{}: {}", L, fmt::format(fmt::runtime(F) __VA_OPT__(,) __VA_ARGS__))))
#define F1(f, a) { VP_WANT(__LINE__, f, M(a)); XTR_LOG(s, f, a); }
#define F2(f, a, b) { VP_WANT(__LINE__, f, M(a), M(b)); XTR_LOG(s, f, a, b); }
#define F3(f, a, b, c) { VP_WANT(__LINE__, f, M(a), M(b), M(c)); XTR_LOG(s, f, a, b, c); }
#define F4(f, a, b, c, d) { VP_WANT(__LINE__, f, M(a), M(b), M(c), M(d)); XTR_LOG(s, f, a, b, c, d); }

    void formats(xtr::sink& s, rng& r)
    {
        const int i = int(r());
        const unsigned u = unsigned(r.below(100000));
        const long long ll = (long long)(r());
        const std::uint8_t u8 = std::uint8_t(r());
        const std::int8_t i8 = std::int8_t(r());
        const double d = double(std::int64_t(r())) / double(1 + r.below(1000000007));
        const float f = float(r.below(100000)) / 64;
        const bool b = r.chance(50);
        const char c = char(r.range('!', '~'));
        const void* p = reinterpret_cast<const void*>(r());
        const int w = int(r.below(40)), prec = int(r.below(12));
        const temperature t{double(r.below(1000))};
        const streamed_t st{int(r.below(100)), int(r.below(100))};
        const auto dur = std::chrono::milliseconds(r.below(100000000));
        const xtr::timespec ts(std::timespec{long(r.below(4000000000)), long(r.below(1000000000))});
        std::string str = random_text(r, r.below(r.chance(10) ? 400 : 30), r.chance(50));
        if (r.chance(20) && !str.empty())
            str[r.below(str.size())] = '\0';
        std::string cpy = random_text(r, r.below(30), r.chance(50));
        const std::string zz = cpy;
        const char* const cs = zz.c_str();
        const std::string_view sv = str;
        char arr[24] = {};
        std::memcpy(arr, zz.data(), std::min<std::size_t>(zz.size(), 23));
        static std::deque<std::string> kept;
        kept.push_back(str);
        if (kept.size() > 3000)
        {
            s.sync();
            s.sync();
            kept.erase(kept.begin(), kept.begin() + 2000);
        }
        const std::string& k = kept.back();

        // numbers
        F1("{:d}", i) F1("{:+d}", ll) F1("{: d}", i) F1("{:#x}", u) F1("{:#010X}", u) F1("{:b}", u) F1("{:#o}", u) F1("{:>24}", ll)
        F1("{:*<14}|", i) F1("{:^15}|", u) F1("{:015}", i) F1("{:c}", int(c)) F1("{}", u8) F1("{:3d}", i8) F1("{:x}", u8)
        F1("{}", d) F1("{:.3f}", d) F1("{:e}", d) F1("{:g}", d) F1("{:+.1f}", f) F1("{:020.4f}", f) F1("{:a}", d) F1("{:>18.6g}|", d) F1("{:#.0f}", f)
        F1("{}", b) F1("{:d}", b) F1("{:>7}|", b) F1("{}", c) F1("{:>4}|", c) F1("{:d}", c) F1("{}", p) F1("{:>20}|", p)
        F2("{:{}}", i, w) F2("{:>{}}|", u, w) F2("{:.{}f}", f, prec) F3("{:{}.{}f}", f, w, prec)
        // strings
        F1("{:s}", str) F1("{:>30}|", str) F1("{:<30}|", str) F1("{:^30}|", str) F1("{:.5}", str) F1("{:30.5}|", str) F1("{:_^33.7}|", str)
        F1("{:s}", sv) F1("{:>30}|", sv) F1("{:.5}", sv) F1("{:s}", cs) F1("{:>30}|", cs) F1("{:-<30}|", cs) F1("{:.5}", cs)
        F1("{:>30}|", arr) F1("{:.2}|", arr) F1("{:>12}|", "literal") F1("{:.3}", "literal")
        F2("{:{}}|", str, w) F2("{:.{}}|", cs, prec) F3("{:>{}.{}}|", sv, w, prec) F3("{:#x} {:>9} {:.2f}", u, cs, f) F4("{:>9} {} {:<9} {}|", str, i, cs, sv)
        { VP_WANT(__LINE__, "{:>25}|", M(zz)); XTR_LOG(s, "{:>25}|", std::string(zz)); }
        { VP_WANT(__LINE__, "{:.4}|{:<8}|", M(zz), M(str)); XTR_LOG(s, "{:.4}|{:<8}|", std::string(zz), str); }
        { VP_WANT(__LINE__, "{:>25}|", M(k)); XTR_LOG(s, "{:>25}|", nocopy(k)); }
        { VP_WANT(__LINE__, "{:.3} {:>20}|", M(k), M(k)); XTR_LOG(s, "{:.3} {:>20}|", nocopy(k), nocopy(std::string_view(k))); }
        { VP_WANT(__LINE__, "{:<20}|", M(k.c_str())); XTR_LOG(s, "{:<20}|", nocopy(k.c_str())); }
        // indexes
        F1("{0}", i) F1("{0} {0:x} {0:>12}", u) F2("{1} {0}", i, u) F2("{1} {0}", str, cs) F3("{2:>8} {0:.3} {1}", cs, i, sv) F2("{0:{1}}|", i, w) F2("{1:{0}}|", w, str)
        F3("{2} {2} {0}", i, u, cs) F2("{0}", str, i) F4("{3}{2}{1}{0}", str, cs, sv, arr)
        // text around fields
        F1("{{{}}}", i) F1("}}{{ {} }}{{", cs) F1("%s %d {} %n", i) F1("\ttab {} \xc3\xa9 utf-8", u) F2("{}{}", cs, str) F2("{:>3}{:<3}", i, u)
        { VP_WANT(__LINE__, ""); XTR_LOG(s, ""); }
        { VP_WANT(__LINE__, "{{}} %d \\ \""); XTR_LOG(s, "{{}} %d \\ \""); }
        // types with formatters of their own
        F1("{}", t) F1("{:C}", t) F2("{:C} {:K}", t, t) F2("{0:C} {0:K} {1}", t, str) F1("{}", st) F1("{:>12}|", st) F1("{}", dur) F1("{:%H:%M:%S}", dur)
        // other statements
        { VP_WANT(__LINE__, "{:>30}|", M(str)); XTR_LOGL(error, s, "{:>30}|", str); }
        { VP_WANT(__LINE__, "{1} {0:x}", M(u), M(cs)); XTR_LOGL(warning, s, "{1} {0:x}", u, cs); }
        { VP_WANT(__LINE__, "{:.3}|{:>5}", M(str), M(i)); XTR_LOG_TSC(s, "{:.3}|{:>5}", str, i); }
        { VP_WANT(__LINE__, "{1}|{0}", M(str), M(i)); XTR_LOG_RTC(s, "{1}|{0}", str, i); }
        { VP_WANT(__LINE__, "{2}|{0:>10}|{1}", M(cs), M(i), M(d)); XTR_LOG_TS(s, ts, "{2}|{0:>10}|{1}", cs, i, d); }
        { VP_WANT(__LINE__, "{:{}}|", M(sv), M(w)); XTR_LOGL_TS(error, s, ts, "{:{}}|", sv, w); }
        // not a copy: what the statement was given must have been captured by it
        std::fill(str.begin(), str.end(), '#');
        std::fill(cpy.begin(), cpy.end(), '#');
        std::memset(arr, '#', sizeof arr);
    }

    // There is room for these: the sink was drained before
    void try_formats(xtr::sink& s, rng& r)
    {
        s.sync();
        s.sync();
        const int i = int(r());
        const std::string str = random_text(r, r.below(30), r.chance(50));
        const char* cs = str.c_str();
        { VP_WANT(__LINE__, "{:>20}|{:x}", M(str), M(i)); XTR_TRY_LOG(s, "{:>20}|{:x}", str, i); }
        { VP_WANT(__LINE__, "{1:x}|{0:<20}", M(cs), M(i)); XTR_TRY_LOGL(error, s, "{1:x}|{0:<20}", cs, i); }
        { VP_WANT(__LINE__, "{0:.3} {0}", M(str)); XTR_TRY_LOG_TSC(s, "{0:.3} {0}", str); }
        count("nonblocking", 3);
    }

    void check(const std::string& data)
    {
        bool complete = false;
        const auto lines = split_lines(data, &complete);
        if (!complete)
            violation("the output does not end with a complete line");
        std::size_t i = 0;
        for (auto raw : lines)
        {
            const line l = parse_line(raw);
            static constexpr std::string_view pre = "s p23.cpp:";
            if (!l.ok || !l.rest.starts_with(pre))
                violation("unexpected line \"%s\"", quote(raw).c_str());
            const auto rest = l.rest.substr(pre.size());
            if (i >= want.size())
                violation("more lines than statements: \"%s\"", quote(raw).c_str());
            if (rest != want[i])
                violation("statement %zu printed \"%s\" expected \"%s\"", i, quote(rest).c_str(), quote(want[i]).c_str());
            ++i;
        }
        if (i != want.size())
            violation("%zu lines for %zu statements, next was \"%s\"", i, want.size(), quote(want[i]).c_str());
        count("messages_checked", (long long)i);
    }
}

static void one(rng& r, int)
{
    auto mem = std::make_shared<mem_state>();
    want.clear();
    {
        xtr::logger log(std::make_unique<mem_storage>(mem, r(), 1, 8192), std::chrono::system_clock(), xtr::null_command_path);
        xtr::sink s = log.get_sink("s");
        for (int i = 0; i < 6; ++i)
        {
            formats(s, r);
            all_containers(s, r, static_cast<containers*>(nullptr));
            if (i % 2)
                try_formats(s, r);
        }
    }
    for (auto& x : want)
        note_distinct(hash(x));
    check(mem->get());
    if (!want.empty())
        sample(fmt::format("case {}: {} statements, e.g. \"{}\"", current_case.load(), want.size(), quote(want[r.below(want.size())], 120)));
}

int main(int argc, char** argv)
{
    parse_args(argc, argv);
    const int rc = run_cases(one);
    count("format_statements", (long long)kinds.size());
    write_stats();
    return rc;
}
