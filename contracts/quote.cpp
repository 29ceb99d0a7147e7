#include "domain.hpp"
#include <esl/economics/markets/quote.hpp>
using namespace esl::economics;
using esl::economics::markets::quote;
using vc::i128;

// requires: positive lots, same currency; amounts times lot representable;  ensures: refuses iff lots differ, agrees with amounts
#define CMP(NAME, OP) \
VC_HARNESS(M02, NAME) \
{ \
    const auto x = vc::any<std::int64_t>("x"), y = vc::any<std::int64_t>("y"); \
    const auto l = vc::any<std::uint32_t>("lot"), m = vc::any<std::uint32_t>("other_lot"); \
    const iso_4217 c = vcd::currency(); \
    vc::requires_((l > 0) & (m > 0) & vcd::fits((i128)x * l) & vcd::fits((i128)y * m)); \
    const quote a(price(x, c), l), b(price(y, c), m); \
    bool r = false; \
    const bool threw = vc::throws<esl::exception>([&] { r = a OP b; }); \
    vc::ensure(#NAME ".refuses_iff_lots_differ", threw == (l != m)); \
    vc::ensure(#NAME ".agrees_with_amounts", threw | (r == (x OP y))); \
    if(threw) vc::cover(#NAME ".refused"); else vc::cover(#NAME ".compared"); \
} \
VC_HARNESS(M02, NAME##_unit_lot) \
{ \
    const auto x = vc::any<std::int64_t>("x"), y = vc::any<std::int64_t>("y"); \
    const iso_4217 c = vcd::currency(); \
    const quote a{price(x, c)}, b{price(y, c)}; \
    vc::ensure(#NAME ".agrees_with_amounts_unit_lot", (a OP b) == (x OP y)); \
}
CMP(equal, ==)
CMP(not_equal, !=)
CMP(less, <)
CMP(less_equal, <=)
CMP(greater, >)
CMP(greater_equal, >=)

#define CUR(NAME, OP) \
VC_HARNESS(M02, NAME##_currencies) \
{ \
    const auto x = vc::any<std::int64_t>("x"), y = vc::any<std::int64_t>("y"); \
    const auto l = vc::any<std::uint32_t>("lot"); \
    const iso_4217 c = vcd::currency(), d = vcd::currency(); \
    vc::requires_((l > 0) & !vcd::same(c, d)); \
    const quote a(price(x, c), l), b(price(y, d), l); \
    bool r = false; \
    const bool threw = vc::throws<std::exception>([&] { r = a OP b; }); \
    vc::ensure(#NAME ".refuses_different_currencies", threw); \
}
CUR(less, <)
CUR(less_equal, <=)
CUR(greater, >)
CUR(greater_equal, >=)
VC_HARNESS(M02, equality_currencies)
{
    const auto x = vc::any<std::int64_t>("x"), y = vc::any<std::int64_t>("y");
    const auto l = vc::any<std::uint32_t>("lot");
    const iso_4217 c = vcd::currency(), d = vcd::currency();
    vc::requires_((l > 0) & !vcd::same(c, d));
    const quote a(price(x, c), l), b(price(y, d), l);
    vc::ensure("equality.currencies_differ", !(a == b) & (a != b));
}
VC_HARNESS(M02, construct)
{
    const auto x = vc::any<std::int64_t>("x");
    const auto l = vc::any<std::uint32_t>("lot");
    const iso_4217 c = vcd::currency();
    const price p(x, c);
    std::uint32_t got = 0; std::int64_t v = 0; bool cur = false;
    const bool threw = vc::throws<esl::exception>([&] {
        const quote q(p, l); got = q.lot; v = std::get<price>(q.type).value; cur = vcd::same(c, std::get<price>(q.type).valuation); });
    vc::ensure("construct.refuses_iff_zero_lot", threw == (l == 0));
    vc::ensure("construct.keeps_price_and_lot", threw | ((got == l) & (v == x) & cur));
    if(threw) vc::cover("construct.refused"); else vc::cover("construct.accepted");
}
VC_HARNESS(M02, copy)
{
    const auto x = vc::any<std::int64_t>("x"), y = vc::any<std::int64_t>("y");
    const auto l = vc::any<std::uint32_t>("lot"), m = vc::any<std::uint32_t>("other_lot");
    const iso_4217 c = vcd::currency();
    vc::requires_((l > 0) & (m > 0));
    const quote a(price(x, c), l);
    const quote b(a);
    quote d(price(y, c), m);
    quote &e = (d = a);
    vc::ensure("copy.same", (b.lot == l) & (std::get<price>(b.type).value == x) & vcd::same(std::get<price>(b.type).valuation, c));
    vc::ensure("assign.same", (d.lot == l) & (std::get<price>(d.type).value == x) & vcd::same(std::get<price>(d.type).valuation, c) & (&e == &d));
}
VC_HARNESS(M02, arithmetic)
{
    const auto x = vc::any<std::int64_t>("x"), y = vc::any<std::int64_t>("y");
    const auto l = vc::any<std::uint32_t>("lot"), m = vc::any<std::uint32_t>("other_lot");
    const iso_4217 c = vcd::currency();
    vc::requires_((l > 0) & (m > 0));
    const quote a(price(x, c), l), b(price(y, c), m);
    std::int64_t s = 0, d = 0; std::uint32_t sl = 0, dl = 0;
    const bool t1 = vc::throws<esl::exception>([&] { const quote r = a + b; s = std::get<price>(r.type).value; sl = r.lot; });
    const bool t2 = vc::throws<esl::exception>([&] { const quote r = a - b; d = std::get<price>(r.type).value; dl = r.lot; });
    vc::ensure("add.refuses_iff_lots_differ", t1 == (l != m));
    vc::ensure("subtract.refuses_iff_lots_differ", t2 == (l != m));
    vc::ensure("add.exact", t1 | ((s == x + y) & (sl == l)));
    vc::ensure("subtract.exact", t2 | ((d == x - y) & (dl == l)));
}
