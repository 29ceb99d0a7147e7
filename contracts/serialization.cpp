// R01: what is saved is what is loaded.  vcd::archive stands for any archive of Boost.Serialization: it passes the object's
// own serialize functions, as the library does, and keeps the sequence of primitive values they hand over.
#include "domain.hpp"
#include "regions.hpp"
#include <boost/serialization/export.hpp>
#undef BOOST_CLASS_EXPORT
#define BOOST_CLASS_EXPORT(T)
#ifndef VC_SYMBOLIC
#include <boost/serialization/extended_type_info_typeid.hpp>
#include <boost/serialization/void_cast.hpp>
#endif
#include "archive.hpp"
#include <esl/data/serialization.hpp>
#include <esl/quantity.hpp>
#include <esl/computation/timing.hpp>
#include <esl/economics/exchange_rate.hpp>
#include <esl/economics/markets/quote.hpp>
#include <esl/economics/markets/order_message.hpp>
#include <esl/economics/interest_rate.hpp>
#include <esl/economics/finance/dividend.hpp>
#include <esl/mathematics/interval.hpp>
#include <esl/simulation/time.hpp>
#include <esl/simulation/identity.hpp>
#include <esl/simulation/entity.hpp>
#include <esl/interaction/message.hpp>
#include <esl/geography/iso_3166_1_alpha_2.hpp>
#include <esl/law/jurisdiction.hpp>
#include <esl/law/legal_entity.hpp>
#include <esl/economics/finance/share_class.hpp>
#include <esl/agent.hpp>
#include <esl/simulation/parameter/parameter.hpp>
#include <esl/economics/finance/dividend.cpp>
using namespace esl;
using vc::position;
using vc::same_at;
VC_HARNESS(R01, quantity)
{
    const quantity x(vc::any<std::uint64_t>("amount")); quantity y(vc::any<std::uint64_t>("before"));
    const bool all = vcd::reload(x, y);
    vc::ensure("quantity.everything_read_back", all);
    vc::ensure("quantity.restored", x.amount == y.amount);
}
VC_HARNESS(R01, currency)
{
    const auto x = vcd::currency(); economics::iso_4217 y = economics::iso_4217();
    const bool all = vcd::reload(x, y);
    vc::ensure("currency.everything_read_back", all);
    vc::ensure("currency.restored", vcd::same(x, y));
}
// A fraction is kept reduced, so that the greatest common divisor of what is saved is one: this is the contract of
// boost::integer::gcd for the pair that is loaded.
namespace {
    std::uint64_t known_n, known_d;
    template<class T> T gcd_contract(const T &a, const T &b)
    {
        const bool reduced = (static_cast<std::uint64_t>(a) == known_n) & (static_cast<std::uint64_t>(b) == known_d);
        const auto other = vc_range("gcd", 1, INT64_MAX);
        return static_cast<T>(vc_ite(reduced, 1, other));
    }
    template<class T> void fraction(T n, T d)
    {
        known_n = static_cast<std::uint64_t>(n); known_d = static_cast<std::uint64_t>(d);
        vc_stub((void *)(T(*)(T const &, T const &)) & boost::integer::gcd<T>, (void *)&gcd_contract<T>, 0);
    }
    // natively a generated pair is reduced
    template<class T> void reduce(T &n, T &d)
    {
        if(vc_symbolic()) return;
        T a = n < 0 ? -n : n, b = d;
        while(b) { const T c = a % b; a = b; b = c; }
        if(a > 1) { n /= a; d /= a; }
    }
    template<class T, class R> void set(R &r, T n, T d)
    {
        auto *w = reinterpret_cast<T *>(static_cast<boost::rational<T> *>(&r));
        w[0] = n; w[1] = d;
    }
    template<class T, class R> bool same(const R &r, T n, T d) { return (r.numerator() == n) & (r.denominator() == d); }
}
#define FRACTION(NAME, TYPE, T)                                                                                       \
    VC_HARNESS(R01, NAME)                                                                                             \
    {                                                                                                                 \
        auto n = vc::any<T>("n"), d = vc::any<T>("d");                                                                \
        vc::requires_((d > 0) & ((n != 0) | (d == 1)) & (n != std::numeric_limits<T>::min() | (n == 0)));             \
        reduce(n, d);                                                                                                 \
        TYPE x(1), y(1); set<T>(x, n, d);                                                                             \
        fraction<T>(n, d);                                                                                            \
        const bool all = vcd::reload(x, y);                                                                           \
        vc::ensure(#NAME ".everything_read_back", all);                                                               \
        vc::ensure(#NAME ".restored", same<T>(y, n, d) & same<T>(x, n, d));                                           \
    }
using rational = boost::rational<std::int64_t>;
FRACTION(rational, rational, std::int64_t)
FRACTION(rate, economics::rate<>, std::int64_t)
using unsigned_rational = boost::rational<std::uint64_t>;
FRACTION(unsigned_rational, unsigned_rational, std::uint64_t)
FRACTION(exchange_rate, economics::exchange_rate, std::uint64_t)
VC_HARNESS(R01, interest_rate)
{
    auto n = vc::any<std::int64_t>("n"), d = vc::any<std::int64_t>("d");
    vc::requires_((d > 0) & ((n != 0) | (d == 1)) & (n != INT64_MIN));
    reduce(n, d);
    economics::interest_rate x(rational(1), vc::any<simulation::time_duration>("duration")), y(rational(1), vc::any<simulation::time_duration>("before"));
    set<std::int64_t>(x, n, d);
    fraction<std::int64_t>(n, d);
    const bool all = vcd::reload(x, y);
    vc::ensure("interest_rate.everything_read_back", all);
    vc::ensure("interest_rate.restored", same<std::int64_t>(y, n, d));
    vc::ensure("interest_rate.duration_restored", x.duration == y.duration);
}
VC_HARNESS(R01, price)
{
    vc_text();
    const economics::price x(vc::any<std::int64_t>("value"), vcd::currency());
    economics::price y(vc::any<std::int64_t>("before"), economics::iso_4217());
    const bool all = vcd::reload(x, y);
    vc::ensure("price.everything_read_back", all);
    vc::ensure("price.value_restored", x.value == y.value);
    vc::ensure("price.currency_restored", vcd::same(x.valuation, y.valuation));
}
VC_HARNESS(R01, quote)
{
    vc_text();
    const auto lot = vc_range("lot", 1, UINT32_MAX);
    const economics::markets::quote x(economics::price(vc::any<std::int64_t>("value"), vcd::currency()), lot);
    economics::markets::quote y;
    const bool all = vcd::reload(x, y);
    vc::ensure("quote.everything_read_back", all);
    const auto &p = std::get<economics::price>(x.type), &q = std::get<economics::price>(y.type);
    vc::ensure("quote.lot_restored", x.lot == y.lot);
    vc::ensure("quote.price_restored", (p.value == q.value) & vcd::same(p.valuation, q.valuation));
}
VC_HARNESS(R01, interval)
{
    const simulation::time_interval x(vc::any<simulation::time_point>("lower"), vc::any<simulation::time_point>("upper"));
    simulation::time_interval y(vc::any<simulation::time_point>("before"), vc::any<simulation::time_point>("after"));
    const bool all = vcd::reload(x, y);
    vc::ensure("interval.everything_read_back", all);
    vc::ensure("interval.restored", (x.lower == y.lower) & (x.upper == y.upper));
}
VC_HARNESS(R01, country)
{
    const geography::iso_3166_1_alpha_2 x(std::array<char, 2>{vcd::letter("c0"), vcd::letter("c1")}); geography::iso_3166_1_alpha_2 y(std::array<char, 2>{'X', 'X'});
    const bool all = vcd::reload(x, y);
    vc::ensure("country.everything_read_back", all);
    vc::ensure("country.restored", (x.code[0] == y.code[0]) & (x.code[1] == y.code[1]));
}
VC_HARNESS(R01, jurisdiction)
{
    const law::jurisdiction x(geography::iso_3166_1_alpha_2(std::array<char, 2>{vcd::letter("s0"), vcd::letter("s1")}), vcd::currency());
    law::jurisdiction y(geography::iso_3166_1_alpha_2(std::array<char, 2>{'X', 'X'}), economics::iso_4217());
    const bool all = vcd::reload(x, y);
    vc::ensure("jurisdiction.everything_read_back", all);
    vc::ensure("jurisdiction.sovereign_restored", (x.sovereign.code[0] == y.sovereign.code[0]) & (x.sovereign.code[1] == y.sovereign.code[1]));
    vc::ensure("jurisdiction.tender_restored", vcd::same(x.tender, y.tender));
}
VC_HARNESS(R01, legal_entity)
{
    std::array<char, 4> l; std::array<char, 12> c;
    for(auto &e : l) e = vc::any<char>("local");
    for(auto &e : c) e = vc::any<char>("code");
    const law::iso_17442 x(l, c); law::iso_17442 y;
    const bool all = vcd::reload(x, y);
    bool same = true;
    for(unsigned i = 0; i < 4; ++i) same &= y.local[i] == l[i];
    for(unsigned i = 0; i < 12; ++i) same &= y.code[i] == c[i];
    vc::ensure("legal_entity.everything_read_back", all);
    vc::ensure("legal_entity.restored", same);
}
static economics::finance::share_class share_class(std::uint64_t rank)
{
    // the preference is compared bit for bit
    economics::finance::share_class s(rank, vc::any<std::uint8_t>("votes"), 0.0f, vc::any<bool>("dividend"), vc::any<bool>("cumulative"), vc::any<bool>("redeemable"));
    return s;
}
static bool same_class(const economics::finance::share_class &x, const economics::finance::share_class &y)
{
    std::uint32_t p, q;
    __builtin_memcpy(&p, &x.preference, 4); __builtin_memcpy(&q, &y.preference, 4);
    return (x.rank == y.rank) & (x.votes == y.votes) & (p == q) & (x.dividend == y.dividend) & (x.cumulative == y.cumulative) & (x.redeemable == y.redeemable);
}
VC_HARNESS(R01, share_class)
{
    auto x = share_class(vc::any<std::uint8_t>("rank")), y = share_class(vc::any<std::uint8_t>("before"));
    const auto p = vc::any<std::uint32_t>("preference"), q = vc::any<std::uint32_t>("preference before");
    __builtin_memcpy(&x.preference, &p, 4); __builtin_memcpy(&y.preference, &q, 4);
    const bool all = vcd::reload(x, y);
    vc::ensure("share_class.everything_read_back", all);
    vc::ensure("share_class.restored", same_class(x, y));
}
VC_HARNESS(R01, timing)
{
    computation::agent_timing x, y;
    const auto m = vc::any<std::int64_t>("messaging"), a = vc::any<std::int64_t>("acting");
    x.messaging = std::chrono::milliseconds(m); x.acting = std::chrono::milliseconds(a);
    y.messaging = y.acting = std::chrono::milliseconds(0);
    const bool all = vcd::reload(x, y);
    vc::ensure("timing.everything_read_back", all);
    vc::ensure("timing.restored", (y.messaging.count() == m) & (y.acting.count() == a));
}
VC_HARNESS(R01, identity)
{
    std::vector<std::uint64_t> a, b;
    vc::any_words(a, "a"); vc::any_words(b, "before");
    const std::uint64_t j = position(a);
    const identity<agent> x(a); identity<agent> y(b);
    const bool all = vcd::reload(x, y);
    vc::ensure("identity.everything_read_back", all);
    vc::ensure("identity.restored", same_at(y.digits, a, j) & same_at(x.digits, a, j));
}
namespace {
    struct thing : public entity<thing> { using entity<thing>::entity; };
}
// an entity that is loaded goes on to name its children where the saved one left off
VC_HARNESS(R01, entity)
{
    vc_bounded("entities named with up to three digits, having up to four children");
    std::vector<std::uint64_t> a(vc::pick("length", 0, 3)), b(vc::pick("length before", 0, 2));
    for(auto &d : a) d = vc::any<std::uint64_t>("digit");
    for(auto &d : b) d = vc::any<std::uint64_t>("digit before");
    thing x{identity<thing>(a)}, y{identity<thing>(b)};
    for(std::uint64_t i = 0, n = vc::pick("children", 0, 4); i < n; ++i) (void) x.create<thing>();
    for(std::uint64_t i = 0, n = vc::pick("children before", 0, 1); i < n; ++i) (void) y.create<thing>();
    const bool all = vcd::reload(static_cast<const entity<thing> &>(x), static_cast<entity<thing> &>(y));
    vc::ensure("entity.everything_read_back", all);
    vc::ensure("entity.identifier_restored", x.identifier == y.identifier);
    vc::ensure("entity.children_restored", x.create<thing>() == y.create<thing>());
}
namespace {
    struct note : public interaction::message<note, 0x1234> { using interaction::message<note, 0x1234>::message; };
    struct order : public economics::markets::order_message<order, 0x1235> { using economics::markets::order_message<order, 0x1235>::order_message; };
    // saves and loads a message of class M as its base class B, between agents of any name
    std::vector<std::uint64_t> few_digits(const char *n)
    {
        std::vector<std::uint64_t> v(vc::pick("length", 1, 3));
        for(auto &d : v) d = vc::any<std::uint64_t>(n);
        return v;
    }
    // lengths on both sides of the width of a byte
    std::vector<std::uint64_t> many_digits(const char *n)
    {
        static const std::uint16_t lengths[] = {1, 2, 3, 65, 270};
        std::vector<std::uint64_t> v(lengths[vc::pick("length", 0, 4)]);
        for(auto &d : v) d = vc::any<std::uint64_t>(n);
        return v;
    }
    template<class B, class M, bool bounded = false> void letter(const char *read_back, const char *restored)
    {
        std::vector<std::uint64_t> a, b;
        if constexpr(bounded) { vc_bounded("agents named with one to three digits"); a = few_digits("sender"); b = few_digits("recipient"); }
        else { vc::any_words(a, "sender"); vc::any_words(b, "recipient"); }
        const std::uint64_t i = position(a), j = position(b);
        const identity<agent> s(a), r(b);
        const auto sent = vc::any<simulation::time_point>("sent"), received = vc::any<simulation::time_point>("received");
        const auto type = vc::any<interaction::message_code>("type");
        M x(s, r, sent, received), y;
        x.type = type;
        const bool all = vcd::reload(static_cast<const B &>(x), static_cast<B &>(y));
        vc::ensure(read_back, all);
        vc::ensure(restored, (y.type == type) & same_at(y.sender.digits, a, i) & same_at(y.recipient.digits, b, j) & (y.sent == sent) & (y.received == received));
    }
}
VC_HARNESS(R01, header) { letter<interaction::header, note>("header.everything_read_back", "header.restored"); }
VC_HARNESS(R01, message) { letter<interaction::message<note, 0x1234>, note>("message.everything_read_back", "message.restored"); }
VC_HARNESS(R01, order_message) { letter<economics::markets::order_message<order, 0x1235>, order>("order_message.everything_read_back", "order_message.restored"); }
VC_HARNESS(R01, header_fallback) { letter<interaction::header, note, true>("header.everything_read_back", "header.restored"); }
VC_HARNESS(R01, message_fallback) { letter<interaction::message<note, 0x1234>, note, true>("message.everything_read_back", "message.restored"); }
VC_HARNESS(R01, order_message_fallback) { letter<economics::markets::order_message<order, 0x1235>, order, true>("order_message.everything_read_back", "order_message.restored"); }
VC_HARNESS(R01, identity_fallback)
{
    vc_bounded("identities of 1, 2, 3, 65 and 270 digits");
    const auto a = many_digits("digit"), b = few_digits("digit before");
    const identity<agent> x(a); identity<agent> y(b);
    const bool all = vcd::reload(x, y);
    vc::ensure("identity.everything_read_back", all);
    vc::ensure("identity.restored", y.digits == a);
}
static bool same_header(const interaction::header &x, const interaction::header &y)
{
    return (x.type == y.type) & (x.sender == y.sender) & (x.recipient == y.recipient) & (x.sent == y.sent) & (x.received == y.received);
}
VC_HARNESS(R01, dividend_record)
{
    vc_bounded("up to two classes of shares");
    std::map<economics::finance::share_class, std::uint64_t> shares;
    for(std::uint64_t i = 0, n = vc::pick("classes", 0, 2); i < n; ++i) shares.emplace(share_class(i), vc::any<std::uint64_t>("shares"));
    const identity<agent> s({vc::any<std::uint64_t>("sender"), 1}), r({vc::any<std::uint64_t>("recipient")});
    const economics::finance::dividend_record x(s, r, shares, vc::any<simulation::time_point>("sent"), vc::any<simulation::time_point>("received"));
    economics::finance::dividend_record y;
    const bool all = vcd::reload(x, y);
    vc::ensure("dividend_record.everything_read_back", all);
    vc::ensure("dividend_record.header_restored", same_header(x, y));
    bool same = y.shares_on_record.size() == shares.size();
    if(vc_branch(same))
        for(auto i = shares.cbegin(), j = y.shares_on_record.cbegin(); i != shares.end(); ++i, ++j) same &= same_class(i->first, j->first) & (i->second == j->second);
    vc::ensure("dividend_record.shares_restored", same);
}
VC_HARNESS(R01, dividend_announcement)
{
    vc_text();
    vc_bounded("up to two classes of shares");
    std::map<economics::finance::share_class, std::tuple<std::uint64_t, economics::price>> shares;
    const auto c = vcd::currency();
    for(std::uint64_t i = 0, n = vc::pick("classes", 0, 2); i < n; ++i)
        shares.emplace(share_class(i), std::make_tuple(vc::any<std::uint64_t>("shares"), economics::price(vc::any<std::int64_t>("dividend per share"), c)));
    const economics::finance::dividend_policy p(vc::any<simulation::time_point>("announced"), vc::any<simulation::time_point>("ex dividend"),
        {vc::any<simulation::time_point>("from"), vc::any<simulation::time_point>("to")}, vc::any<simulation::time_point>("payable"), c, shares);
    const identity<agent> s({vc::any<std::uint64_t>("sender"), 1}), r({vc::any<std::uint64_t>("recipient")});
    economics::finance::dividend_announcement_message x(s, r, p);
    x.sent = vc::any<simulation::time_point>("sent"); x.received = vc::any<simulation::time_point>("received");
    economics::finance::dividend_announcement_message y;
    const bool all = vcd::reload(x, y);
    vc::ensure("dividend_announcement.everything_read_back", all);
    vc::ensure("dividend_announcement.header_restored", same_header(x, y));
    const auto &q = y.policy;
    vc::ensure("dividend_policy.dates_restored", (p.announcement_date == q.announcement_date) & (p.ex_dividend_date == q.ex_dividend_date)
        & (p.dividend_period.lower == q.dividend_period.lower) & (p.dividend_period.upper == q.dividend_period.upper) & (p.payable_date == q.payable_date));
    vc::ensure("dividend_policy.currency_restored", vcd::same(q.dividend_currency, c));
    bool same = q.dividend_per_share.size() == shares.size();
    if(vc_branch(same))
        for(auto i = shares.cbegin(), j = q.dividend_per_share.cbegin(); i != shares.end(); ++i, ++j) {
            const auto &u = std::get<1>(i->second), &v = std::get<1>(j->second);
            same &= same_class(i->first, j->first) & (std::get<0>(i->second) == std::get<0>(j->second)) & (u.value == v.value) & vcd::same(u.valuation, v.valuation);
        }
    vc::ensure("dividend_policy.dividends_restored", same);
}
VC_HARNESS(R01, parameter)
{
    simulation::parameter::constant<std::uint64_t> x(vc::any<std::uint64_t>("choice")), y(vc::any<std::uint64_t>("before"));
    const bool all = vcd::reload(static_cast<const simulation::parameter::constant<std::uint64_t> &>(x), y);
    vc::ensure("parameter.everything_read_back", all);
    vc::ensure("parameter.restored", x.choice == y.choice);
}
VC_HARNESS(R01, parameter_categories_fallback)
{
    vc_bounded("1, 2, 3, 65 and 270 categories");
    const auto a = many_digits("category"), b = few_digits("category before");
    const simulation::parameter::categorical<std::uint64_t> x(a); simulation::parameter::categorical<std::uint64_t> y(b);
    const bool all = vcd::reload(x, y);
    vc::ensure("parameter_categories.everything_read_back", all);
    vc::ensure("parameter_categories.restored", y.categories == a);
}
VC_HARNESS(R01, parameter_categories)
{
    std::vector<std::uint64_t> a, b;
    vc::any_words(a, "a"); vc::any_words(b, "before");
    const std::uint64_t j = position(a);
    const simulation::parameter::categorical<std::uint64_t> x(a); simulation::parameter::categorical<std::uint64_t> y(b);
    const bool all = vcd::reload(x, y);
    vc::ensure("parameter_categories.everything_read_back", all);
    vc::ensure("parameter_categories.restored", same_at(y.categories, a, j) & same_at(x.categories, a, j));
}
