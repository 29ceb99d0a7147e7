#include "domain.hpp"
#include <esl/agent.hpp>
#include <esl/economics/accounting/standard.hpp>
#include <esl/economics/accounting/standard.cpp>
#include <esl/economics/accounting/cash_flow_statement.hpp>
using namespace esl;
using namespace esl::economics;
using namespace esl::economics::accounting;
using simulation::time_point; using simulation::time_interval;
#define BOUND "up to three mutations, all dates, amounts and intervals"
enum { REVENUE, INCOME, EXPENSES, CUSTOM };
static void totals(unsigned n, int what)
{
    const iso_4217 c = vcd::currency();
    accounting::standard s(c);
    cash_flow_statement f;
    time_point t[4]; std::int64_t v[4];
    const time_interval when(vc::any<time_point>("lower"), vc::any<time_point>("upper"));
    for(unsigned i = 0; i < n; ++i) {
        t[i] = vc::any<time_point>("date"); v[i] = vc::any<std::int64_t>("mutation");
        vc::requires_((v[i] > INT64_MIN / 8) & (v[i] < INT64_MAX / 8));      // totals stay representable
        f.mutations.insert({t[i], price(v[i], c)});
    }
    std::int64_t expected = 0;
    for(unsigned i = 0; i < n; ++i) {
        const bool in = (when.lower <= t[i]) & (t[i] < when.upper);
        const std::int64_t part = what == INCOME ? vc_ite(v[i] > 0, v[i], 0) : what == EXPENSES ? vc_ite(v[i] < 0, v[i], 0) : what == CUSTOM ? -v[i] : v[i];
        expected += vc_ite(in, part, 0);
    }
    unsigned calls = 0; bool dates = true;
    const price r = what == REVENUE ? f.revenue(when, s) : what == INCOME ? f.income(when, s) : what == EXPENSES ? f.expenses(when, s)
        : f.history(when, [&](time_point d, const price &p) { ++calls; dates &= (d >= when.lower) & (d < when.upper); return price(-p.value, p.valuation); }, s);
    const char *name = what == REVENUE ? "cash_flow.revenue_sums_the_interval" : what == INCOME ? "cash_flow.income_sums_the_positive" : what == EXPENSES ? "cash_flow.expenses_sum_the_negative" : "cash_flow.history_transforms_each_mutation";
    vc::ensure(name, r.value == expected);
    vc::ensure("cash_flow.in_reporting_currency", vcd::same(r.valuation, c));
    vc::ensure("cash_flow.only_mutations_in_the_interval", dates);
    vc::ensure("cash_flow.mutations_kept", f.mutations.size() == n);
}
#define T(NAME, W) \
VC_HARNESS(A02, NAME##_0) { totals(0, W); } \
VC_HARNESS(A02, NAME##_1) { totals(1, W); } \
VC_HARNESS(A02, NAME##_2) { vc_bounded(BOUND); totals(2, W); } \
VC_HARNESS(A02, NAME##_3) { vc_bounded(BOUND); totals(3, W); }
T(revenue, REVENUE) T(income, INCOME) T(expenses, EXPENSES) T(history, CUSTOM)
VC_HARNESS(A02, revenue_is_income_plus_expenses)
{
    vc_bounded(BOUND);
    const iso_4217 c = vcd::currency();
    accounting::standard s(c);
    cash_flow_statement f;
    const time_interval when(vc::any<time_point>("lower"), vc::any<time_point>("upper"));
    for(unsigned i = 0; i < 2; ++i) {
        const auto v = vc::any<std::int64_t>("mutation");
        vc::requires_((v > INT64_MIN / 8) & (v < INT64_MAX / 8));
        f.mutations.insert({vc::any<time_point>("date"), price(v, c)});
    }
    const price a = f.revenue(when, s), b = f.income(when, s), d = f.expenses(when, s);
    vc::ensure("cash_flow.revenue_is_income_plus_expenses", (a.value == b.value + d.value) & (b.value >= 0) & (d.value <= 0));
}
