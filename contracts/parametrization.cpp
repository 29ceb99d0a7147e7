#include "domain.hpp"
#include <stdexcept>
#include <string>
#include <esl/simulation/parameter/parametrization.hpp>
using namespace esl::simulation::parameter;
using esl::simulation::time_point;

// value of a parameter that must exist with type T
template<class T> static bool stored(const parametrization &p, const char *name, T v)
{
    T r = 0;
    if(vc::throws<std::out_of_range>([&] { r = p.get<T>(name); })) return false;
    return r == v;
}
VC_HARNESS(S07, standard_parameters)
{
    const auto sample = vc::any<std::uint64_t>("sample"), verbosity = vc::any<std::uint64_t>("verbosity");
    const auto start = vc::any<time_point>("start"), end = vc::any<time_point>("end");
    const auto threads = vc::any<unsigned int>("threads");
    const parametrization p(sample, start, end, verbosity, threads);
    vc::ensure("parametrization.sample", stored<std::uint64_t>(p, "sample", sample));
    vc::ensure("parametrization.start", stored<time_point>(p, "start", start));
    vc::ensure("parametrization.end", stored<time_point>(p, "end", end));
    vc::ensure("parametrization.verbosity", stored<std::uint64_t>(p, "verbosity", verbosity));
    vc::ensure("parametrization.threads", stored<std::uint64_t>(p, "threads", threads));
    vc::ensure("parametrization.nothing_else", p.values.size() == 5);
}
VC_HARNESS(S07, defaults)
{
    const parametrization p;
    vc::ensure("parametrization.default_sample", stored<std::uint64_t>(p, "sample", 0));
    vc::ensure("parametrization.default_interval", stored<time_point>(p, "start", 0) & stored<time_point>(p, "end", 1));
    vc::ensure("parametrization.default_threads", stored<std::uint64_t>(p, "threads", 1));
}
// lookup for stored values of several types and every name from a set that exercises every position in the tree
static const char *NAMES[] = {"a", "ab", "abc", "b", "end", "sample", "z", ""};
enum kind { k_u64, k_double, k_int, k_string, k_interval, K };
static void put(parametrization &p, const std::string &n, kind k, std::uint64_t u, double d, int i)
{
    switch(k) {
    case k_u64: p.values[n] = std::make_shared<constant<std::uint64_t>>(u); break;
    case k_double: p.values[n] = std::make_shared<constant<double>>(d); break;
    case k_int: p.values[n] = std::make_shared<constant<int>>(i); break;
    case k_string: p.values[n] = std::make_shared<constant<std::string>>(std::string("text") + char('a' + (u & 15))); break;
    default: p.values[n] = std::make_shared<interval<double>>(0., 1.); break;
    }
}
VC_HARNESS(S07, lookup)
{
    vc_bounded("parametrizations of up to two entries beside the standard ones, names from a set of eight");
    const auto u = vc::any<std::uint64_t>("u"); const auto i = vc::any<int>("i"); const double d = 2.5;
    parametrization p(7, 1, 9, 3, 4);
    const std::string n = NAMES[vc::pick("stored name", 0, 7)], q = NAMES[vc::pick("looked up", 0, 7)];
    const kind k = (kind)vc::pick("kind", 0, K - 1), want = (kind)vc::pick("wanted", 0, 2);
    put(p, n, k, u, d, i);
    const bool is_n = n == q, standard = !is_n && (q == "end" || q == "sample");
    bool threw = false, right = true;
    const std::size_t before = p.values.size();
    try {
        switch(want) {
        case k_u64: right = p.get<std::uint64_t>(q) == (is_n ? u : q == "end" ? 9 : 7); break;
        case k_double: right = p.get<double>(q) == d; break;
        default: right = p.get<int>(q) == i; break;
        }
    } catch(const std::out_of_range &) { threw = true; }
    const bool present = (is_n && k == want) || (standard && want == k_u64);
    vc::ensure("parametrization.get_stored_value", !present | (!threw & right));
    vc::ensure("parametrization.get_refuses_missing_or_mismatched", present | threw);
    vc::ensure("parametrization.get_changes_nothing", p.values.size() == before);
    vc::ensure("parametrization.get_again", stored<std::uint64_t>(p, "verbosity", 3));
}
VC_HARNESS(S07, constant)
{
    const auto u = vc::any<std::uint64_t>("u");
    const constant<std::uint64_t> c(u);
    vc::ensure("constant.value", (c.choice == u) & (static_cast<std::uint64_t>(c) == u));
    const auto s = vc::any<time_point>("s");
    parametrization p; p.values["x"] = std::make_shared<constant<time_point>>(s);
    const auto &r = p.get<time_point>("x");
    vc::ensure("parametrization.get_returns_the_stored_object", &r == &std::dynamic_pointer_cast<constant<time_point>>(p.values["x"])->choice);
    vc::ensure("parametrization.get_value", r == s);
}
