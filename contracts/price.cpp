#include "domain.hpp"
using namespace esl::economics;
using vc::i128;

#define CMP(NAME, OP) \
VC_HARNESS(M01, NAME) \
{ \
    const auto x = vc::any<std::int64_t>("x"), y = vc::any<std::int64_t>("y"); \
    const iso_4217 c = vcd::currency(), d = vcd::currency(); \
    const price a(x, c), b(y, d); \
    bool r = false; \
    const bool threw = vc::throws<std::invalid_argument>([&] { r = a OP b; }); \
    vc::ensure(#NAME ".refuses_iff_currencies_differ", threw == !vcd::same(c, d)); \
    vc::ensure(#NAME ".agrees_with_amounts", threw | (r == (x OP y))); \
    vc::ensure(#NAME ".operands_unchanged", (a.value == x) & (b.value == y) & vcd::same(a.valuation, c) & vcd::same(b.valuation, d)); \
    if(threw) vc::cover(#NAME ".refused"); else vc::cover(#NAME ".compared"); \
}
CMP(less, <)
CMP(less_equal, <=)
CMP(greater, >)
CMP(greater_equal, >=)

VC_HARNESS(M01, equality)
{
    const auto x = vc::any<std::int64_t>("x"), y = vc::any<std::int64_t>("y");
    const iso_4217 c = vcd::currency(), d = vcd::currency();
    const price a(x, c), b(y, d);
    const bool same = (x == y) & vcd::same(c, d);
    vc::ensure("equality.eq", (a == b) == same);
    vc::ensure("equality.ne", (a != b) == !same);
}

// requires: common currency and a representable exact result;  ensures: exactly that amount, in that currency
VC_HARNESS(M01, add)
{
    const auto x = vc::any<std::int64_t>("x"), y = vc::any<std::int64_t>("y");
    const iso_4217 c = vcd::currency();
    vc::requires_(vcd::fits((i128)x + y));
    const price a(x, c), b(y, c);
    const price r = a + b;
    vc::ensure("add.exact", (r.value == x + y) & vcd::same(r.valuation, c));
    price s(a);
    price &t = (s += b);
    vc::ensure("add_assign.exact", (s.value == x + y) & vcd::same(s.valuation, c) & (&t == &s));
    vc::ensure("add.operands_unchanged", (a.value == x) & (b.value == y) & vcd::same(a.valuation, c) & vcd::same(b.valuation, c));
    price u(y, c);
    u += u;
    vc::ensure("add_assign.self", u.value == y + y);
}
VC_HARNESS(M01, subtract)
{
    const auto x = vc::any<std::int64_t>("x"), y = vc::any<std::int64_t>("y");
    const iso_4217 c = vcd::currency();
    vc::requires_(vcd::fits((i128)x - y));
    const price a(x, c), b(y, c);
    const price r = a - b;
    vc::ensure("subtract.exact", (r.value == x - y) & vcd::same(r.valuation, c));
    price s(a);
    price &t = (s -= b);
    vc::ensure("subtract_assign.exact", (s.value == x - y) & vcd::same(s.valuation, c) & (&t == &s));
    vc::ensure("subtract.operands_unchanged", (a.value == x) & (b.value == y) & vcd::same(a.valuation, c) & vcd::same(b.valuation, c));
}
VC_HARNESS(M01, negate)
{
    const auto x = vc::any<std::int64_t>("x");
    const iso_4217 c = vcd::currency();
    vc::requires_(x != INT64_MIN);
    const price a(x, c);
    const price r = -a;
    vc::ensure("negate.exact", (r.value == -x) & vcd::same(r.valuation, c));
    vc::ensure("negate.operand_unchanged", (a.value == x) & vcd::same(a.valuation, c));
}
VC_HARNESS(M01, product)
{
    const auto x = vc::any<std::int64_t>("x"), y = vc::any<std::int64_t>("y");
    const iso_4217 c = vcd::currency();
    const price a(x, c), b(y, c);
    const price r = a * b;
    // machine product; equals the exact product whenever that is representable
    vc::ensure("product.exact", (r.value == x * y) & vcd::same(r.valuation, c));
    price s(a);
    price &t = (s *= b);
    vc::ensure("product_assign.agrees", (s.value == x * y) & vcd::same(s.valuation, c) & (&t == &s));
}
VC_HARNESS(M01, quotient)
{
    const auto x = vc::any<std::int64_t>("x"), y = vc::any<std::int64_t>("y");
    const iso_4217 c = vcd::currency();
    vc::requires_((y != 0) & !((x == INT64_MIN) & (y == -1)));
    const price a(x, c), b(y, c);
    const price r = a / b;
    price s(a);
    price &t = (s /= b);
    vc::ensure("quotient.truncates", (r.value == x / y) & vcd::same(r.valuation, c));
    vc::ensure("quotient_assign.agrees", (s.value == x / y) & vcd::same(s.valuation, c) & (&t == &s));
}
template<class I> static void check_scale(const char *e)
{
    const auto x = vc::any<std::int64_t>("x");
    const auto k = vc::any<I>("k");
    const iso_4217 c = vcd::currency();
    const price a(x, c);
    const price r = a * k;
    // the low 64 bits of the exact product: the exact product whenever that is representable
    vc::ensure(e, ((std::uint64_t)r.value == (std::uint64_t)x * (std::uint64_t)(std::int64_t)k) & vcd::same(r.valuation, c));
    vc::ensure("scale.operand_unchanged", (a.value == x) & vcd::same(a.valuation, c));
}
VC_HARNESS(M01, scale_int64)  { check_scale<std::int64_t>("scale_int64.exact"); }
VC_HARNESS(M01, scale_int)    { check_scale<std::int32_t>("scale_int.exact"); }
VC_HARNESS(M01, scale_uint)   { check_scale<std::uint32_t>("scale_uint.exact"); }
VC_HARNESS(M01, scale_uint64) { check_scale<std::uint64_t>("scale_uint64.exact"); }
VC_HARNESS(M01, scale_left)
{
    const auto x = vc::any<std::int64_t>("x");
    const auto k = vc::any<std::uint64_t>("k");
    const iso_4217 c = vcd::currency();
    const price a(x, c), r = k * a;
    vc::ensure("scale_left.exact", ((std::uint64_t)r.value == (std::uint64_t)x * k) & vcd::same(r.valuation, c));
}
VC_HARNESS(M01, copy)
{
    const auto x = vc::any<std::int64_t>("x"), y = vc::any<std::int64_t>("y");
    const iso_4217 c = vcd::currency(), d = vcd::currency();
    price a(x, c), b(y, d);
    const price e(a);
    const price f(std::move(b));
    price g(y, d);
    price &h = (g = a);
    vc::ensure("copy.same", (e.value == x) & vcd::same(e.valuation, c) & (f.value == y) & vcd::same(f.valuation, d));
    vc::ensure("assign.same", (g.value == x) & vcd::same(g.valuation, c) & (&h == &g));
    vc::ensure("copy.source_unchanged", (a.value == x) & vcd::same(a.valuation, c));
}
VC_HARNESS(M01, default_value)
{
    const price p;
    vc::ensure("default.zero", (p.value == 0) & vcd::same(p.valuation, iso_4217()));
}
