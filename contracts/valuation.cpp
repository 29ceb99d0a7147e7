#include "domain.hpp"
#include <esl/economics/accounting/standard.hpp>
#include <esl/economics/accounting/standard.cpp>
#include <esl/law/property.cpp>
#include <esl/economics/asset.cpp>
#include <esl/economics/finance/security.cpp>
#include <esl/economics/finance/stock.cpp>
#include <esl/economics/finance/share_class.cpp>
using namespace esl;
using namespace esl::economics;
using esl::economics::accounting::standard;
using esl::economics::markets::quote;
using vc::i128;

// The numerator and denominator of an exchange rate object are set directly: every reduced fraction is covered (and
// also unreduced ones), without running boost::rational's normalisation.
static void set_rate(exchange_rate &r, std::uint64_t n, std::uint64_t d)
{
    auto *w = reinterpret_cast<std::uint64_t *>(static_cast<boost::rational<std::uint64_t> *>(&r));
    w[0] = n; w[1] = d;
}
static bool same_rate(const exchange_rate &r, std::uint64_t n, std::uint64_t d) { return (r.numerator() == n) & (r.denominator() == d); }

// x * n / d rounded towards zero is the r with |r*d| <= |x*n| < |r*d| + d and the sign of x
static bool is_quotient(std::int64_t x, std::uint64_t n, std::uint64_t d, std::int64_t r)
{
    const i128 p = (i128)x * (i128)n;
    const i128 q = (i128)r * (i128)d;
    const bool pos = (r >= 0) & (q <= p) & (p < q + (i128)d);
    const bool neg = (r <= 0) & (q >= p) & (p > q - (i128)d);
    return vc_branch(x >= 0) ? pos : neg;
}

VC_HARNESS(M03, exchange)
{
    const auto x = vc::any<std::int64_t>("amount");
    const auto n = vc_range("numerator", 0, INT64_MAX), d = vc_range("denominator", 1, INT64_MAX);
    const iso_4217 c = vcd::currency();
    exchange_rate r(1, 1); set_rate(r, n, d);
    vc::requires_(vcd::fits((i128)x * (i128)n) & (x != INT64_MIN));
    vc_branch(x >= 0);     // case split
    const price p(x, c);
    const price q = r * p;
    vc::ensure("exchange.truncated_quotient", is_quotient(x, n, d, q.value));
    vc::ensure("exchange.operands_unchanged", (p.value == x) & same_rate(r, n, d));
    vc::cover("exchange");
}

// rates from integers and from approximations: the fraction stored
VC_HARNESS(M03, rate_identity)
{
    const exchange_rate r;
    vc::ensure("rate.default_is_one", same_rate(r, 1, 1));
    const auto x = vc::any<std::int64_t>("amount");
    vc::requires_(x != INT64_MIN);
    const price q = r * price(x, iso_4217({'U', 'S', 'D'}));
    vc::ensure("exchange.at_par_is_identity", q.value == x);
}

static std::vector<std::uint64_t> digits2(const char *n) { std::vector<std::uint64_t> v(2); v[0] = vc::any<std::uint64_t>(n); v[1] = vc::any<std::uint64_t>(n); return v; }

VC_HARNESS(M03, money_domestic)
{
    const auto q = vc_range("quantity", 0, INT64_MAX);
    const iso_4217 rep = vcd::currency();
    standard s(rep);
    const cash m(rep);
    const price a = s.value(m, quantity(q));
    const price b = s.value(static_cast<const money &>(m), quantity(q));
    vc::ensure("money.domestic_amount", ((std::uint64_t)a.value == q) & ((std::uint64_t)b.value == q));
    vc::ensure("money.domestic_currency", vcd::same(a.valuation, rep) & vcd::same(b.valuation, rep));
}

VC_HARNESS(M03, money_foreign)
{
    vc_bounded("one foreign currency besides the reporting currency in the table");
    const auto q = vc_range("quantity", 0, INT64_MAX);
    const auto n = vc_range("numerator", 1, INT64_MAX), d = vc_range("denominator", 1, INT64_MAX);
    vc::requires_((i128)q * (i128)n <= INT64_MAX);
    const iso_4217 rep({'E', 'U', 'R'}), usd({'U', 'S', 'D'});
    const iso_4217 other = vcd::currency();
    vc::requires_(!vcd::same(other, rep));
    standard s(rep);
    auto it = s.foreign_currencies.emplace(usd, exchange_rate(1, 1)).first;
    set_rate(it->second, n, d);
    vc::requires_((other.code[0] != 'E') | (other.code[1] != 'U') | (other.code[2] != 'R'));
    const cash m(other);
    const bool listed = (other.code[0] == 'U') & (other.code[1] == 'S') & (other.code[2] == 'D');
    price r(0, rep);
    const bool threw = vc::throws<std::domain_error>([&] { r = s.value(m, quantity(q)); });
    vc::ensure("money.missing_rate_refused", threw == !listed);
    vc::ensure("money.foreign_converted", threw | is_quotient((std::int64_t)q, n, d, r.value));
    vc::ensure("money.reporting_currency", threw | vcd::same(r.valuation, rep));
    if(threw) vc::cover("money.refused"); else vc::cover("money.converted");
}

VC_HARNESS(M03, stock)
{
    vc_bounded("one other property has a market price; identifiers have two digits");
    const auto q = vc_range("quantity", 0, INT64_MAX);
    const auto v = vc::any<std::int64_t>("price");
    const auto lot = vc_range("lot", 1, UINT32_MAX);
    vc::requires_(vcd::fits((i128)v * (i128)q));
    const iso_4217 rep({'E', 'U', 'R'}), cur = vcd::currency();
    standard s(rep);
    const auto id = digits2("id"), other = digits2("other");
    const identity<law::property> pi(id), po(other);
    const bool listed = vc::any<bool>("listed");
    vc::requires_(!(pi == po));
    s.mark_to_market.emplace(po, quote(price(vc::any<std::int64_t>("other_price"), cur), 7));
    if(listed) s.mark_to_market.emplace(pi, quote(price(v, cur), (std::uint32_t)lot));
    const finance::stock st(pi, identity<company>({3, 1}), finance::share_class());
    price r(0, rep);
    const bool threw = vc::throws<std::logic_error>([&] { r = s.value(st, quantity(q)); });
    vc::ensure("stock.missing_price_refused", threw == !listed);
    // value * lot is price * quantity, rounded towards zero
    const i128 p = (i128)v * (i128)q, m = (i128)r.value * (i128)lot;
    const bool pos = (r.value >= 0) & (m <= p) & (p < m + (i128)lot);
    const bool neg = (r.value <= 0) & (m >= p) & (p > m - (i128)lot);
    vc::ensure("stock.price_times_quantity_per_lot", threw | ((p >= 0) ? pos : neg));
    vc::ensure("stock.currency", threw | vcd::same(r.valuation, cur));
    if(threw) vc::cover("stock.refused"); else vc::cover("stock.valued");
}

VC_HARNESS(M03, loan)
{
    const auto q = vc_range("quantity", 0, INT64_MAX);
    const auto den = vc_range("denominator", 1, INT64_MAX);
    vc::requires_((i128)q * (i128)den <= INT64_MAX);
    const iso_4217 rep({vcd::letter("c"), vcd::letter("c"), vcd::letter("c")}, den);
    standard s(rep);
    const finance::loan l(identity<agent>({1, 2}), identity<agent>({1, 3}));
    const price r = s.value(l, quantity(q));
    vc::ensure("loan.negative_face_value", (i128)r.value == -((i128)q * (i128)den));
    vc::ensure("loan.reporting_currency", vcd::same(r.valuation, rep));
}

VC_HARNESS(M03, securities_lending)
{
    vc_bounded("one other property has a market price; identifiers have two digits");
    const auto q = vc_range("quantity", 0, UINT32_MAX), size = vc_range("size", 0, UINT32_MAX / 2);
    const auto v = vc::any<std::int64_t>("price");
    const auto lot = vc_range("lot", 1, UINT32_MAX);
    vc::requires_(vcd::fits((i128)v * (i128)(q * size)) & vcd::fits(-((i128)v * (i128)(q * size))));
    const iso_4217 rep({'E', 'U', 'R'});
    standard s(rep);
    const auto id = digits2("id"), other = digits2("other");
    const identity<law::property> pi(id), po(other);
    const bool listed = vc::any<bool>("listed");
    vc::requires_(!(pi == po));
    s.mark_to_market.emplace(po, quote(price(vc::any<std::int64_t>("other_price"), rep), 7));
    if(listed) s.mark_to_market.emplace(pi, quote(price(v, rep), (std::uint32_t)lot));
    const finance::securities_lending_contract c(identity<agent>({1, 2}), identity<agent>({1, 3}), pi, quantity(size));
    price r(0, rep);
    const bool threw = vc::throws<std::logic_error>([&] { r = s.value(c, quantity(q)); });
    vc::ensure("lent.missing_price_refused", threw == !listed);
    const i128 p = -((i128)v * (i128)(q * size)), m = (i128)r.value * (i128)lot;
    const bool pos = (r.value >= 0) & (m <= p) & (p < m + (i128)lot);
    const bool neg = (r.value <= 0) & (m >= p) & (p > m - (i128)lot);
    vc::ensure("lent.negative_price_times_size", threw | ((p >= 0) ? pos : neg));
    if(threw) vc::cover("lent.refused"); else vc::cover("lent.valued");
}
