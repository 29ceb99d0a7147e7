#include "domain.hpp"
#include <esl/geography/iso_3166_1_alpha_2.hpp>
using esl::economics::iso_4217;
using esl::geography::iso_3166_1_alpha_2;
static bool upper(char c) { return (c >= 'A') & (c <= 'Z'); }

VC_HARNESS(M04, currency_construct)
{
    const auto a = vc::any<char>("a"), b = vc::any<char>("b"), c = vc::any<char>("c");
    const auto d = vc::any<std::uint64_t>("denominator");
    std::array<char, 3> got {0, 0, 0}; std::uint64_t den = 0;
    const bool threw = vc::throws<esl::exception>([&] { const iso_4217 x({a, b, c}, d); got = x.code; den = x.denominator; });
    const bool ok = upper(a) & upper(b) & upper(c) & (d != 0);
    vc::ensure("currency.refused_iff_malformed", threw == !ok);
    vc::ensure("currency.keeps_code", threw | ((got[0] == a) & (got[1] == b) & (got[2] == c) & (den == d)));
    if(threw) vc::cover("currency.refused"); else vc::cover("currency.accepted");
}
VC_HARNESS(M04, currency_copy)
{
    const iso_4217 c = vcd::currency(), d = vcd::currency();
    const iso_4217 e(c);
    iso_4217 f(d);
    iso_4217 &g = (f = c);
    vc::ensure("currency.copy_same", vcd::same(e, c));
    vc::ensure("currency.assign_same", vcd::same(f, c) & (&g == &f));
}
VC_HARNESS(M04, currency_equality)
{
    const iso_4217 c = vcd::currency(), d = vcd::currency();
    vc::ensure("currency.eq", (c == d) == vcd::same(c, d));
    vc::ensure("currency.ne", (c != d) == !vcd::same(c, d));
}
VC_HARNESS(M04, currency_order)
{
    const iso_4217 c = vcd::currency(), d = vcd::currency();
    const bool lt = (c.code[0] < d.code[0]) | ((c.code[0] == d.code[0]) & ((c.code[1] < d.code[1]) | ((c.code[1] == d.code[1]) & (c.code[2] < d.code[2]))));
    vc::ensure("currency.alphabetical", (c < d) == lt);
}
VC_HARNESS(M04, currency_hash)
{
    const iso_4217 c = vcd::currency(), d = vcd::currency();
    const bool code = (c.code[0] == d.code[0]) & (c.code[1] == d.code[1]) & (c.code[2] == d.code[2]);
    const std::hash<iso_4217> h {};
    const auto hc = h(c), hd = h(d);
    vc::ensure("currency.equal_codes_equal_hash", !code | (hc == hd));
    vc::ensure("currency.distinct_codes_distinct_hash", code | (hc != hd));
}
VC_HARNESS(M04, country_construct)
{
    const auto a = vc::any<char>("a"), b = vc::any<char>("b");
    std::array<char, 2> got {0, 0};
    const bool threw = vc::throws<esl::exception>([&] { const iso_3166_1_alpha_2 x(std::array<char, 2>{a, b}); got = x.code; });
    vc::ensure("country.refused_iff_malformed", threw == !(upper(a) & upper(b)));
    vc::ensure("country.keeps_code", threw | ((got[0] == a) & (got[1] == b)));
}
VC_HARNESS(M04, country_from_text)
{
    // every text length class: 0..5 characters, symbolic content (longer texts take the same comparison with 2)
    const auto n = vc::pick("length", 0, 5);
    char t[5]; for(int i = 0; i < 5; ++i) t[i] = vc::any<char>("t");
    const std::string s(t, n);
    std::array<char, 2> got {0, 0};
    const bool threw = vc::throws<esl::exception>([&] { const iso_3166_1_alpha_2 x(s); got = x.code; });
    vc::ensure("country.text_refused_iff_malformed", threw == !((n == 2) && (upper(t[0]) & upper(t[1]))));
    vc::ensure("country.text_keeps_code", threw | ((got[0] == t[0]) & (got[1] == t[1])));
}
VC_HARNESS(M04, country_hash)
{
    const char a = vcd::letter("a"), b = vcd::letter("b"), c = vcd::letter("c"), d = vcd::letter("d");
    const iso_3166_1_alpha_2 x(std::array<char, 2>{a, b}), y(std::array<char, 2>{c, d});
    const std::hash<iso_3166_1_alpha_2> h {};
    const bool same = (a == c) & (b == d);
    vc::ensure("country.equal_codes_equal_hash", !same | (h(x) == h(y)));
}
