#include <vc.hpp>
#include <esl/quantity.hpp>
using esl::quantity;
using vc::u128;

static quantity any_quantity(const char *n) { return quantity(vc::any<std::uint64_t>(n)); }

// requires: nothing;  ensures: result exact iff representable, refused otherwise, operands unchanged
VC_HARNESS(Q01, subtract)
{
    const auto x = vc::any<std::uint64_t>("x"), y = vc::any<std::uint64_t>("y");
    quantity a(x), b(y);
    quantity r(0);
    bool threw = vc::throws<esl::exception>([&] { r = a - b; });
    vc::ensure("subtract.refused_iff_negative", threw == (x < y));
    vc::ensure("subtract.exact", threw | (r.amount == x - y));
    vc::ensure("subtract.operands_unchanged", (a.amount == x) & (b.amount == y));
    if(threw) vc::cover("subtract.refused"); else vc::cover("subtract.accepted");
}

VC_HARNESS(Q01, subtract_assign)
{
    const auto x = vc::any<std::uint64_t>("x"), y = vc::any<std::uint64_t>("y");
    quantity a(x), b(y);
    bool threw = vc::throws<esl::exception>([&] { quantity &r = (a -= b); vc::ensure("subtract_assign.returns_self", &r == &a); });
    vc::ensure("subtract_assign.refused_iff_negative", threw == (x < y));
    vc::ensure("subtract_assign.exact_or_unchanged", a.amount == vc_ite(x < y, x, x - y));
    vc::ensure("subtract_assign.operand_unchanged", b.amount == y);
}

VC_HARNESS(Q01, subtract_self)
{
    const auto x = vc::any<std::uint64_t>("x");
    quantity a(x);
    a -= a;
    vc::ensure("subtract_self.zero", a.amount == 0);
}

VC_HARNESS(Q01, add)
{
    const auto x = vc::any<std::uint64_t>("x"), y = vc::any<std::uint64_t>("y");
    vc::requires_(x <= UINT64_MAX - y);
    const quantity a(x), b(y);
    vc::ensure("add.exact", (a + b).amount == x + y);
    quantity c(x);
    quantity &r = (c += b);
    vc::ensure("add_assign.exact", c.amount == x + y);
    vc::ensure("add_assign.returns_self", &r == &c);
    vc::ensure("add.operands_unchanged", (a.amount == x) & (b.amount == y));
    vc::cover("add");
}

VC_HARNESS(Q01, multiply)
{
    const auto x = vc::any<std::uint64_t>("x"), y = vc::any<std::uint64_t>("y");
    // machine product is the exact product whenever the latter is representable: the contract pins the machine product
    const quantity a(x), b(y);
    vc::ensure("multiply.exact_scalar", (a * y).amount == x * y);
    vc::ensure("multiply.exact_quantity", (a * b).amount == x * y);
    quantity c(x);
    quantity &r = (c *= y);
    vc::ensure("multiply_assign.exact", c.amount == x * y);
    vc::ensure("multiply_assign.returns_self", &r == &c);
}

VC_HARNESS(Q01, divide_assign)
{
    const auto x = vc::any<std::uint64_t>("x"), y = vc::any<std::uint64_t>("y");
    vc::requires_(y != 0);
    quantity c(x);
    c /= y;
    vc::ensure("divide_assign.floor", c.amount == x / y);
}

VC_HARNESS(Q01, increment)
{
    const auto x = vc::any<std::uint64_t>("x");
    vc::requires_(x != UINT64_MAX);
    quantity a(x), b(x);
    quantity &r = ++a;
    vc::ensure("increment.prefix_exact", (a.amount == x + 1) & (&r == &a));
    quantity old = b++;
    vc::ensure("increment.postfix_exact", (b.amount == x + 1) & (old.amount == x));
}

VC_HARNESS(Q01, decrement)
{
    const auto x = vc::any<std::uint64_t>("x");
    vc::requires_(x != 0);
    quantity a(x), b(x);
    quantity &r = --a;
    vc::ensure("decrement.prefix_exact", (a.amount == x - 1) & (&r == &a));
    quantity old = b--;
    vc::ensure("decrement.postfix_exact", (b.amount == x - 1) & (old.amount == x));
}

VC_HARNESS(Q01, decrement_zero)
{
    quantity a(0), b(0);
    bool t1 = vc::throws<esl::exception>([&] { --a; });
    bool t2 = vc::throws<esl::exception>([&] { (void)b--; });
    vc::ensure("decrement.prefix_refused_at_zero", t1 & (a.amount == 0));
    vc::ensure("decrement.postfix_refused_at_zero", t2 & (b.amount == 0));
}

VC_HARNESS(Q01, compare)
{
    const auto x = vc::any<std::uint64_t>("x"), y = vc::any<std::uint64_t>("y");
    const quantity a(x), b(y);
    vc::ensure("compare.eq", (a == b) == (x == y));
    vc::ensure("compare.ne", (a != b) == (x != y));
    vc::ensure("compare.lt", (a < b) == (x < y));
    vc::ensure("compare.le", (a <= b) == (x <= y));
    vc::ensure("compare.gt", (a > b) == (x > y));
    vc::ensure("compare.ge", (a >= b) == (x >= y));
}

VC_HARNESS(Q01, copy)
{
    const auto x = vc::any<std::uint64_t>("x"), y = vc::any<std::uint64_t>("y");
    quantity a(x);
    quantity b(a), c(std::move(a)), d(y);
    d = b;
    vc::ensure("copy.same", (b.amount == x) & (c.amount == x) & (d.amount == x));
    vc::ensure("convert.uint64", static_cast<std::uint64_t>(b) == x);
    vc::ensure("default.zero", quantity().amount == 0);
}

template<std::uint64_t N> static void check_divide()
{
    const auto x = vc::any<std::uint64_t>("x");
    const quantity q(x);
    auto parts = q.template divide<N>();
    u128 sum = 0;
    for(std::uint64_t i = 0; i < N; ++i) sum += parts[i].amount;
    vc::ensure("divide.conserves", sum == (u128)x);
    bool ordered = true;
    for(std::uint64_t i = 0; i + 1 < N; ++i) ordered = ordered & (parts[i].amount >= parts[i + 1].amount);
    vc::ensure("divide.larger_first", ordered);
    vc::ensure("divide.even", parts[0].amount - parts[N - 1].amount <= 1);
    vc::ensure("divide.unchanged", q.amount == x);
}
VC_HARNESS(Q02, divide_1) { check_divide<1>(); }
VC_HARNESS(Q02, divide_2) { check_divide<2>(); }
VC_HARNESS(Q02, divide_3) { check_divide<3>(); }
VC_HARNESS(Q02, divide_7) { check_divide<7>(); }

// any number of parts: the same clauses, with an invariant for the sum
template<class Q> static void check_parts(const Q &parts, std::uint64_t x, std::uint64_t n)
{
    const std::uint64_t quotient = x / n, rest = x % n;
    u128 sum = 0;
    for(std::uint64_t i = 0; vc_invariant("parts.sum_so_far", sum == (u128)quotient * i + vc_ite(i < rest, i, rest)), i < n; ++i) sum += parts[i].amount;
    vc::ensure("parts.conserve", sum == (u128)x);
    const std::uint64_t i = vc_symbolic() ? vc_any_bits("position", 56) : vc_pick("position", 0, n - 1);
    const std::uint64_t k = vc_symbolic() ? vc_any_bits("later position", 56) : vc_pick("later position", 0, n - 1);
    vc::requires_((i < k) & (k < n));
    vc::ensure("parts.larger_first", parts[i].amount >= parts[k].amount);
    vc::ensure("parts.even", parts[i].amount - parts[k].amount <= 1);
}
static void parts_of(std::uint64_t n)
{
    const auto x = vc::any<std::uint64_t>("x");
    vc::requires_(n != 0);
    const quantity q(x);
    const std::vector<quantity> parts = q / n;
    vc::ensure("parts.as_many_as_asked_for", parts.size() == n);
    check_parts(parts, x, n);
    vc::ensure("parts.unchanged", q.amount == x);
}
VC_HARNESS(Q02, parts) { vc_unbounded(); parts_of(vc_symbolic() ? vc_any_bits("number of parts", 56) : vc_pick("number of parts", 1, 40)); }
VC_HARNESS(Q02, parts_fallback) { vc_bounded("up to six parts"); parts_of(vc_pick("number of parts", 1, 6)); }
// Many parts: the only split of x that conserves it, is even, and has the larger parts first gives part j the share
// x / N + (j < x mod N)  (the shares add up to x: harness `shares_conserve`)
static std::uint64_t share(std::uint64_t x, std::uint64_t n, std::uint64_t j) { return x / n + vc_ite(j < x % n, 1, 0); }
VC_HARNESS(Q02, shares_conserve)
{
    vc_unbounded();
    const auto x = vc::any<std::uint64_t>("x");
    const std::uint64_t n = vc_symbolic() ? vc_any_bits("number of parts", 56) : vc_pick("number of parts", 1, 40);
    vc::requires_(n != 0);
    const std::uint64_t quotient = x / n, rest = x % n;
    u128 sum = 0;
    for(std::uint64_t i = 0; vc_invariant("shares.sum_so_far", sum == (u128)quotient * i + vc_ite(i < rest, i, rest)), i < n; ++i) sum += quotient + vc_ite(i < rest, 1, 0);
    vc::ensure("shares.conserve", sum == (u128)x);
}
template<std::uint64_t N> static void check_divide_many()
{
    const auto x = vc::any<std::uint64_t>("x");
    const quantity q(x);
    const auto parts = q.template divide<N>();
    const std::uint64_t j = vc_range("position", 0, N - 1);
    vc::ensure("divide.fair_share", parts[j].amount == share(x, N, j));
    vc::ensure("divide.unchanged", q.amount == x);
}
template<std::uint64_t N> static void check_divide_each()
{
    const auto x = vc::any<std::uint64_t>("x");
    const quantity q(x);
    const auto parts = q.template divide<N>();
    bool fair = true;
    for(std::uint64_t j = 0; j < N; ++j) fair = fair & (parts[j].amount == share(x, N, j));
    vc::ensure("divide.fair_share", fair);
}
VC_HARNESS(Q02, divide_300_fallback) { check_divide_each<300>(); }
VC_HARNESS(Q02, divide_300) { vc_unbounded(); check_divide_many<300>(); }
VC_HARNESS(Q02, divide_70000) { vc_unbounded(); check_divide_many<70000>(); }
