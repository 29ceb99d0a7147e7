#include "domain.hpp"
#include <esl/simulation/time.hpp>
using esl::simulation::time_interval;
using esl::simulation::time_point;

static time_interval interval() { return time_interval(vc::any<time_point>("lower"), vc::any<time_point>("upper")); }

VC_HARNESS(T01, contains)
{
    const auto l = vc::any<time_point>("lower"), u = vc::any<time_point>("upper"), t = vc::any<time_point>("t");
    const time_interval i(l, u);
    vc::ensure("interval.contains_iff_between", i.contains(t) == ((l <= t) & (t < u)));
    vc::ensure("interval.bounds_kept", (i.lower == l) & (i.upper == u));
    vc::ensure("interval.half_open", time_interval::left_closed() & !time_interval::right_closed());
}
// the existential over points is witnessed: an interval has a point iff its lower bound is one, and two points iff the
// lower bound and its successor are (lemma: membership is l <= t < u, from the contract above)
VC_HARNESS(T01, empty)
{
    const time_interval i = interval();
    const auto t = vc::any<time_point>("t");
    vc::ensure("interval.empty_has_no_point", !i.empty() | !i.contains(t));
    vc::ensure("interval.nonempty_has_a_point", i.empty() | i.contains(i.lower));
}
VC_HARNESS(T01, singleton)
{
    const time_interval i = interval();
    const auto s = vc::any<time_point>("s"), t = vc::any<time_point>("t");
    const bool one = i.singleton();
    vc::ensure("interval.singleton_has_a_point", !one | i.contains(i.lower));
    vc::ensure("interval.singleton_has_no_second_point", !one | !i.contains(s) | !i.contains(t) | (s == t));
    vc::ensure("interval.otherwise_none_or_two", one | !i.contains(i.lower) | (i.contains(i.lower + 1) & (i.lower + 1 != i.lower)));
}
VC_HARNESS(T01, degenerate)
{
    const time_interval i = interval();
    vc::ensure("interval.degenerate", i.degenerate() == (i.empty() | i.singleton()));
}
VC_HARNESS(T01, default_interval)
{
    const time_interval i;
    vc::ensure("interval.default_empty", (i.lower == 0) & (i.upper == 0) & i.empty());
}
