#include "domain.hpp"
#include "regions.hpp"
#include <esl/simulation/identity.hpp>
#include <esl/agent.hpp>
#include <esl/simulation/entity.hpp>
using esl::identity;
struct thing {};
using id_t_ = identity<thing>;
using digits_t = std::vector<std::uint64_t>;

// ---- identities of any length.  std::lexicographical_compare is used through its contract.
typedef digits_t::const_iterator digit_iterator;
static bool lexicographical_contract(digit_iterator f1, digit_iterator l1, digit_iterator f2, digit_iterator l2)
{
    const std::uint64_t n1 = l1 - f1, n2 = l2 - f2, m = vc_lcp(&*f1, n1, &*f2, n2);
    if(m == n2) return false;
    if(m == n1) return true;
    return f1[m] < f2[m];
}
static void library()
{
    vc_stub((void *)(bool (*)(digit_iterator, digit_iterator, digit_iterator, digit_iterator)) & std::lexicographical_compare<digit_iterator, digit_iterator>, (void *)&lexicographical_contract, 0);
}
template<class F> static void comparing(F check)
{
    library();
    digits_t a, b;
    vc::any_words(a, "a"); vc::any_words_near(b, a, "b");
    const id_t_ x(a), y(b);
    // the oracle: position of the first difference
    const std::uint64_t n = a.size(), k = b.size(), m = vc_lcp(a.data(), n, b.data(), k);
    const bool eq = (m == n) & (m == k);
    bool lt = false;
    if(vc_branch(m != k)) { if(vc_branch(m == n)) lt = true; else lt = a[m] < b[m]; }
    check(x, y, eq, lt);
}
VC_HARNESS(S01, equal) { comparing([](const id_t_ &x, const id_t_ &y, bool eq, bool) { vc::ensure("identity.eq", (x == y) == eq); }); }
VC_HARNESS(S01, not_equal) { comparing([](const id_t_ &x, const id_t_ &y, bool eq, bool) { vc::ensure("identity.ne", (x != y) == !eq); }); }
VC_HARNESS(S01, less) { comparing([](const id_t_ &x, const id_t_ &y, bool, bool lt) { vc::ensure("identity.lt", (x < y) == lt); }); }
VC_HARNESS(S01, less_equal) { comparing([](const id_t_ &x, const id_t_ &y, bool eq, bool lt) { vc::ensure("identity.le", (x <= y) == (lt | eq)); }); }
VC_HARNESS(S01, greater) { comparing([](const id_t_ &x, const id_t_ &y, bool eq, bool lt) { vc::ensure("identity.gt", (x > y) == !(lt | eq)); }); }
VC_HARNESS(S01, greater_equal) { comparing([](const id_t_ &x, const id_t_ &y, bool, bool lt) { vc::ensure("identity.ge", (x >= y) == !lt); }); }
using vc::same_at;
using vc::position;
VC_HARNESS(S01, construct)
{
    digits_t a;
    vc::any_words(a, "a");
    const std::uint64_t j = position(a), d = a[j];
    const id_t_ x(a), y((digits_t(a))), z(x);
    vc::ensure("identity.construct_keeps_digits", same_at(x.digits, a, j) & same_at(y.digits, a, j) & same_at(z.digits, a, j) & (a[j] == d));
    vc::ensure("identity.index", x[j] == d);
    digits_t c(a);
    const id_t_ u(std::move(c));
    vc::ensure("identity.construct_moved", same_at(u.digits, a, j));
}
VC_HARNESS(S01, assign)
{
    digits_t a;
    vc::any_words(a, "a");
    const std::uint64_t j = position(a);
    const id_t_ x(a);
    digits_t b;
    vc::any_words(b, "b");
    id_t_ w(b), v(b);
    id_t_ &r = (w = x);
    v = id_t_(a);
    vc::ensure("identity.assign_keeps_digits", same_at(w.digits, a, j) & same_at(v.digits, a, j) & (&r == &w) & same_at(x.digits, a, j));
}
VC_HARNESS(S01, convert)
{
    library();
    digits_t a;
    vc::any_words(a, "a");
    const std::uint64_t j = position(a);
    const identity<esl::agent> x(a);
    const identity<esl::entity<esl::agent>> y = x;
    vc::ensure("identity.convert_to_base", same_at(y.digits, a, j) & same_at(x.digits, a, j));
    vc::ensure("identity.dynamic_cast", same_at(esl::dynamic_identity_cast<esl::agent>(y).digits, a, j));
    vc::ensure("identity.reinterpret_cast", same_at(esl::reinterpret_identity_cast<thing>(x).digits, a, j));
    vc::ensure("identity.cross_type_comparison", (x == y) & !(x != y) & !(x < y) & (x <= y));
}
// ---- bounded stand-ins, used only where the code no longer fits the contracts above
static digits_t digits(const char *n, std::uint64_t max)
{
    digits_t v((std::size_t)vc::pick("length", 0, max));
    for(auto &d : v) d = vc::any<std::uint64_t>(n);
    return v;
}
// oracle: three-way lexicographic comparison
static int lex(const digits_t &a, const digits_t &b)
{
    for(std::size_t i = 0;; ++i) {
        if(i == a.size()) return i == b.size() ? 0 : -1;
        if(i == b.size()) return 1;
        if(vc_branch(a[i] < b[i])) return -1;
        if(vc_branch(b[i] < a[i])) return 1;
    }
}
#define COMPARISON_FALLBACK(NAME, CLAUSE, REAL, EXPECTED) \
    VC_HARNESS(S01, NAME##_fallback) \
    { \
        vc_bounded("identities of up to three digits, every digit value"); \
        const digits_t a = digits("a", 3), b = digits("b", 3); \
        const int c = lex(a, b); \
        const id_t_ x(a), y(b); \
        vc::ensure(CLAUSE, (REAL) == (EXPECTED)); \
    }
COMPARISON_FALLBACK(equal, "identity.eq", x == y, c == 0)
COMPARISON_FALLBACK(not_equal, "identity.ne", x != y, c != 0)
COMPARISON_FALLBACK(less, "identity.lt", x < y, c < 0)
COMPARISON_FALLBACK(less_equal, "identity.le", x <= y, c <= 0)
COMPARISON_FALLBACK(greater, "identity.gt", x > y, c > 0)
COMPARISON_FALLBACK(greater_equal, "identity.ge", x >= y, c >= 0)
static bool same(const digits_t &a, const digits_t &b)
{
    bool r = a.size() == b.size();
    for(std::size_t i = 0; i < a.size() && i < b.size(); ++i) r &= a[i] == b[i];
    return r;
}
VC_HARNESS(S01, construct_fallback)
{
    vc_bounded("identities of up to three digits, every digit value");
    const digits_t a = digits("a", 3);
    const id_t_ x(a), y((digits_t(a))), z(x);
    id_t_ w({1, 2}), v({7});
    id_t_ &r = (w = x);
    v = id_t_(a);
    vc::ensure("identity.construct_keeps_digits", same(x.digits, a) & same(y.digits, a) & same(z.digits, a));
    vc::ensure("identity.assign_keeps_digits", same(w.digits, a) & same(v.digits, a) & (&r == &w) & same(x.digits, a));
    bool idx = true;
    for(std::size_t i = 0; i < a.size(); ++i) idx &= x[i] == a[i];
    vc::ensure("identity.index", idx);
    vc::ensure("identity.initializer_list", same(id_t_({3, 5}).digits, digits_t {3, 5}));
}
VC_HARNESS(S01, convert_fallback)
{
    vc_bounded("identities of up to three digits, every digit value");
    const digits_t a = digits("a", 3);
    const identity<esl::agent> x(a);
    const identity<esl::entity<esl::agent>> y = x;
    vc::ensure("identity.convert_to_base", same(y.digits, a) & same(x.digits, a));
    vc::ensure("identity.dynamic_cast", same(esl::dynamic_identity_cast<esl::agent>(y).digits, a));
    vc::ensure("identity.reinterpret_cast", same(esl::reinterpret_identity_cast<thing>(x).digits, a));
    vc::ensure("identity.cross_type_comparison", (x == y) & !(x != y) & !(x < y) & (x <= y));
}
VC_HARNESS(S01, hash)
{
    vc_bounded("identities of up to eight digits, every digit value");
    const digits_t a = digits("a", 8);
    const id_t_ x(a), y((digits_t(a)));
    const identity<esl::agent> z(a);
    vc::ensure("identity.equal_hashes", (std::hash<id_t_>()(x) == std::hash<id_t_>()(y)) & (std::hash<id_t_>()(x) == std::hash<identity<esl::agent>>()(z)));
    vc::ensure("identity.hash_leaves_digits", same(x.digits, a));
}
