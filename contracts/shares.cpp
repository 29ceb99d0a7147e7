#include "domain.hpp"
#include <fstream>
#include <boost/serialization/export.hpp>
// type registration for serialization is left out: it only adds static registrars
#undef BOOST_CLASS_EXPORT
#define BOOST_CLASS_EXPORT(T)
#include <esl/economics/company.cpp>
#include <esl/economics/finance/shareholder.cpp>
#include <esl/economics/finance/bondholder.cpp>
#include <esl/economics/accounting/balance_sheet.cpp>
#include <esl/law/organization.cpp>
#include <esl/law/property.cpp>
#include <esl/economics/asset.cpp>
#include <esl/economics/money.cpp>
#include <esl/interaction/communicator.cpp>
#include <esl/agent.cpp>
#include <esl/economics/finance/dividend.cpp>
using namespace esl;
using namespace esl::economics;
using finance::share_class; using finance::dividend_policy;
#define BOUND "up to three share classes, all shares and dividends"
namespace {
    share_class any_class()
    {
        return share_class(vc::any<std::uint8_t>("rank"), vc::any<std::uint8_t>("votes"), 0.f, vc::any<std::uint8_t>("dividend") & 1, vc::any<std::uint8_t>("cumulative") & 1, vc::any<std::uint8_t>("redeemable") & 1);
    }
    bool alike(const share_class &a, const share_class &b)
    {
        return (a.rank == b.rank) & (a.votes == b.votes) & (a.dividend == b.dividend) & (a.cumulative == b.cumulative) & (a.redeemable == b.redeemable);
    }
}
VC_HARNESS(A03, share_classes_ordered)
{
    const share_class a = any_class(), b = any_class(), c = any_class();
    vc::ensure("share_class.equal_iff_alike", (a == b) == alike(a, b));
    vc::ensure("share_class.different_classes_are_ordered", ((a < b) + (b < a) + alike(a, b)) == 1);
    vc::ensure("share_class.order_is_transitive", !((a < b) & (b < c)) | (a < c));
}
static void total(unsigned n)
{
    const iso_4217 c = vcd::currency();
    dividend_policy p; p.dividend_currency = c;
    vc::i128 sum = 0; bool fits = true;
    std::int64_t expected = 0;
    for(unsigned i = 0; i < n; ++i) {
        const share_class s = any_class();
        vc::requires_(p.dividend_per_share.find(s) == p.dividend_per_share.end());
        const auto q = vc::any<std::uint64_t>("shares"); const auto d = vc::any<std::int64_t>("dividend");
        p.dividend_per_share.insert(std::make_pair(s, std::make_tuple(q, price(d, c))));
        expected = (std::int64_t)((std::uint64_t)expected + (std::uint64_t)d * q);      // the sum modulo 2^64: exact whenever it is representable
    }
    (void)sum; (void)fits;
    const price t = p.total_dividends();
    vc::ensure("total_dividends.sum_of_shares_times_dividend", t.value == expected);
    vc::ensure("total_dividends.in_dividend_currency", vcd::same(t.valuation, c));
    vc::ensure("total_dividends.changes_nothing", p.dividend_per_share.size() == n);
}
VC_HARNESS(A03, total_dividends_0) { total(0); }
VC_HARNESS(A03, total_dividends_1) { total(1); }
VC_HARNESS(A03, total_dividends_2) { vc_bounded(BOUND); total(2); }
VC_HARNESS(A03, total_dividends_3) { vc_bounded(BOUND); total(3); }

// ---------------------------------------------------------------- companies
static std::shared_ptr<company> a_company() { return std::make_shared<company>(identity<company>({1}), law::jurisdiction(geography::countries::US, currencies::USD)); }
static void shares(unsigned n)
{
    auto c = a_company();
    std::uint64_t sum = 0;
    for(unsigned i = 0; i < n; ++i) {
        const share_class s = any_class();
        vc::requires_(c->shares_outstanding.find(s) == c->shares_outstanding.end());
        const auto q = vc::any<std::uint64_t>("shares");
        c->shares_outstanding.insert(std::make_pair(s, q));
        sum += q;
    }
    vc::ensure("total_shares.sum_over_all_classes", c->total_shares() == sum);
    vc::ensure("total_shares.changes_nothing", c->shares_outstanding.size() == n);
}
VC_HARNESS(A03, total_shares_0) { shares(0); }
VC_HARNESS(A03, total_shares_1) { shares(1); }
VC_HARNESS(A03, total_shares_2) { vc_bounded(BOUND); shares(2); }
VC_HARNESS(A03, total_shares_3) { vc_bounded(BOUND); shares(3); }
VC_HARNESS(A03, unique_shareholders)
{
    vc_bounded("up to three shareholders with up to two share classes each");
    auto c = a_company();
    const unsigned n = (unsigned)vc::pick("shareholders", 0, 3);
    for(unsigned i = 0; i < n; ++i)
        for(unsigned k = 0, m = (unsigned)vc::pick("classes", 0, 2); k < m; ++k)
            c->shareholders[identity<finance::shareholder>({i})][share_class((std::uint8_t)k)] = vc::any<std::uint64_t>("shares");
    std::size_t known = c->shareholders.size(); bool all = true;
    const auto u = c->unique_shareholders();
    for(const auto &[h, x] : c->shareholders) { (void)x; all &= u.count(h) == 1; }
    vc::ensure("unique_shareholders.exactly_the_register", (u.size() == known) & all);
}
static void dividends(unsigned n, std::int64_t profit)
{
    auto c = a_company();
    share_class s[3]; std::uint64_t q[3]; bool positive = false; unsigned paid = 0; bool pays[3];
    for(unsigned i = 0; i < n; ++i) {
        pays[i] = vc::pick("pays dividend", 0, 1);
        s[i] = share_class((std::uint8_t)i, 1, 0.f, pays[i]);
        q[i] = (std::uint64_t)vc::pick("shares", 0, 3);
        c->shares_outstanding.insert(std::make_pair(s[i], q[i]));
        positive |= q[i] > 0; paid += pays[i];
    }
    const auto d = c->compute_dividend_per_share(price(profit, currencies::USD));
    if(profit <= 0 || !positive) { vc::ensure("compute_dividend.nothing_without_profit_or_shares", d.empty()); return; }
    vc::ensure("compute_dividend.exactly_the_eligible_classes", d.size() == paid);
    std::int64_t total = 0;
    for(unsigned i = 0; i < n; ++i) {
        const auto f = d.find(s[i]);
        vc::ensure("compute_dividend.exactly_the_eligible_classes", (f != d.end()) == pays[i]);
        if(f == d.end()) continue;
        vc::ensure("compute_dividend.shares_outstanding_recorded", std::get<0>(f->second) == q[i]);
        vc::ensure("compute_dividend.never_negative", std::get<1>(f->second).value >= 0);
        total += (std::int64_t)q[i] * std::get<1>(f->second).value;
    }
    vc::ensure("compute_dividend.never_more_than_the_profit", total <= profit);
    dividend_policy p; p.dividend_currency = currencies::USD; p.dividend_per_share = d;
    vc::ensure("compute_dividend.total_agrees", p.total_dividends().value == total);
}
VC_HARNESS(A03, compute_dividend) { vc_bounded("up to two share classes of up to three shares, profits of -7, 0, 1, 10, 29 and 1000003 cents"); const std::int64_t profits[] = {-7, 0, 1, 10, 29, 1000003}; dividends((unsigned)vc::pick("classes", 0, 2), profits[vc::pick("profit", 0, 5)]); }

// ---------------------------------------------------------------- announcing dividends
namespace {
    struct paying_company : company {
        std::optional<dividend_policy> planned;
        explicit paying_company(const identity<company> &i) : company(i, law::jurisdiction(geography::countries::US, currencies::USD)) {}
        std::optional<dividend_policy> upcoming_dividend(simulation::time_interval, std::seed_seq &) override { return planned; }
        simulation::time_point &announced() { return last_announced_; }
    };
    struct situation {
        std::shared_ptr<paying_company> c;
        simulation::time_interval step;
        simulation::time_point announce, ex, pay, before;
        unsigned holders = 0;
        std::int64_t amount = 0;
    };
    situation any_situation(unsigned most)
    {
        const simulation::time_point l = vc::any<std::uint64_t>("step.lower"), u = vc::any<std::uint64_t>("step.upper");
        vc::requires_(l < u);
        situation s{std::make_shared<paying_company>(identity<company>({7})), {l, u}, vc::any<std::uint64_t>("announcement date"), vc::any<std::uint64_t>("ex-dividend date"), vc::any<std::uint64_t>("payment date"), vc::any<std::uint64_t>("last announced"), 0, 0};
        s.c->announced() = s.before;
        s.holders = (unsigned)vc::pick("shareholders", 0, (int)most);
        for(unsigned i = 0; i < s.holders; ++i)
            s.c->shareholders[identity<finance::shareholder>({i})][share_class((std::uint8_t)0)] = vc::any<std::uint64_t>("shares");
        s.amount = vc::any<std::int64_t>("dividend");
        dividend_policy p(s.announce, s.ex, {l, u}, s.pay, currencies::USD);
        p.dividend_per_share.insert(std::make_pair(share_class(), std::make_tuple((std::uint64_t)1, price(s.amount, currencies::USD))));
        s.c->planned = p;
        return s;
    }
    simulation::time_point run(situation &s) { std::seed_seq seed; return s.c->act(s.step, seed); }
}
VC_HARNESS(A04, no_policy)
{
    situation s = any_situation(1);
    s.c->planned.reset();
    const auto next = run(s);
    vc::ensure("act.without_a_dividend_nothing_is_announced", s.c->outbox.empty() & (s.c->announced() == s.before));
    vc::ensure("act.without_a_dividend_wakes_up_at_the_end", next == s.step.upper);
}
VC_HARNESS(A04, wakes_up)
{
    vc_bounded("at most one shareholder");
    situation s = any_situation(1);
    const auto next = run(s);
    vc::ensure("act.never_wakes_up_in_the_past", next >= s.step.lower);
    vc::ensure("act.never_asks_for_the_same_moment_again", next > s.step.lower);
    vc::ensure("act.never_wakes_up_after_the_step", next <= s.step.upper);
    vc::ensure("act.wakes_up_for_the_announcement", (s.announce <= s.step.lower) | (next <= s.announce));
    vc::ensure("act.wakes_up_for_the_payment", (s.pay <= s.step.lower) | (next <= s.pay));
    vc::ensure("act.wakes_up_only_for_a_reason", (next == s.step.upper) | (next == s.announce) | (next == s.pay));
}
VC_HARNESS(A04, announces)
{
    vc_bounded("up to two shareholders; the dividend policy has one share class");
    situation s = any_situation(2);
    (void)run(s);
    const bool due = (s.step.lower >= s.announce) & (s.before < s.announce);
    const std::size_t sent = s.c->outbox.size();
    vc::ensure("act.announces_to_every_shareholder_once", sent == vc_ite(due, (std::uint64_t)s.holders, 0));
    vc::ensure("act.remembers_what_was_announced", s.c->announced() == vc_ite(due, s.announce, s.before));
    bool to[2] = {false, false};
    for(const auto &m : s.c->outbox) {
        const auto d = std::dynamic_pointer_cast<finance::dividend_announcement_message>(m);
        vc::ensure("announcement.kind_of_message", d != nullptr);
        if(!d) return;
        vc::ensure("announcement.sender_is_the_company", d->sender == s.c->identifier);
        vc::ensure("announcement.received_at_once", d->received == s.step.lower);
        vc::ensure("announcement.recipient_is_a_shareholder", d->recipient.digits.size() == 1);
        const auto h = d->recipient.digits[0];
        vc::ensure("announcement.recipient_is_a_shareholder", h < s.holders);
        if(h >= s.holders) return;
        vc::ensure("announcement.no_shareholder_told_twice", !to[h]);
        to[h] = true;
        vc::ensure("announcement.dates_of_the_policy", (d->policy.announcement_date == s.announce) & (d->policy.ex_dividend_date == s.ex) & (d->policy.payable_date == s.pay) & (d->policy.dividend_period.lower == s.step.lower) & (d->policy.dividend_period.upper == s.step.upper));
        vc::ensure("announcement.currency_of_the_policy", vcd::same(d->policy.dividend_currency, currencies::USD));
        const auto f = d->policy.dividend_per_share.find(share_class());
        vc::ensure("announcement.amount_of_the_policy", f != d->policy.dividend_per_share.end() && std::get<1>(f->second).value == s.amount && d->policy.dividend_per_share.size() == 1);
    }
}
VC_HARNESS(A04, announced_once)
{
    vc_bounded("one shareholder");
    situation s = any_situation(1);
    (void)run(s);
    const std::size_t sent = s.c->outbox.size();
    const simulation::time_point later = vc::any<std::uint64_t>("later step.lower"), end = vc::any<std::uint64_t>("later step.upper");
    vc::requires_((later >= s.step.lower) & (later < end));
    s.step = {later, end};
    (void)run(s);
    vc::ensure("act.a_policy_is_announced_only_once", s.c->outbox.size() <= vc_ite(sent > s.holders, sent, (std::uint64_t)s.holders));
    vc::ensure("act.a_policy_is_announced_only_once", (sent == 0) | (s.c->outbox.size() == sent));
}
VC_HARNESS(A04, first_announcement)
{
    vc_bounded("one shareholder");
    auto c = std::make_shared<paying_company>(identity<company>({7}));
    c->shareholders[identity<finance::shareholder>({3})][share_class()] = 1;
    const simulation::time_point l = vc::any<std::uint64_t>("step.lower"), u = vc::any<std::uint64_t>("step.upper"), a = vc::any<std::uint64_t>("announcement date");
    vc::requires_((l < u) & (a > 0) & (a <= l));
    c->planned = dividend_policy(a, u, {l, u}, u, currencies::USD);
    std::seed_seq seed;
    (void)c->act({l, u}, seed);
    vc::ensure("act.a_new_company_announces_its_first_dividend", c->outbox.size() == 1);
}
