#include "domain.hpp"
#include <esl/economics/finance/isin.hpp>
#include <esl/economics/finance/sedol.hpp>
using esl::economics::finance::isin;
using esl::economics::finance::cusip;
using esl::economics::finance::sedol;
using esl::geography::iso_3166_1_alpha_2;

// a well-formed symbol: a digit or an upper-case letter; which of the two is fixed per path
struct symbol { char c; unsigned v; bool letter; };
static symbol sym(bool letter)
{
    const auto v = letter ? vc_range("letter", 10, 35) : vc_range("digit", 0, 9);
    return { static_cast<char>(letter ? 'A' + (v - 10) : '0' + v), (unsigned)v, letter };
}
static unsigned twice(unsigned d) { return 2 * d >= 10 ? 2 * d - 9 : 2 * d; }

// ISO 6166: the Luhn sum over the expanded digits, the check digit being the last one
struct luhn {
    unsigned digits[24]; unsigned n = 0;
    void add(const symbol &s) { if(s.letter) digits[n++] = s.v / 10; digits[n++] = s.letter ? s.v % 10 : s.v; }
    unsigned sum() const   // contribution of the digits before the check digit
    {
        unsigned r = 0; bool dbl = true;
        for(unsigned i = n; i-- > 0; dbl = !dbl) { const auto d = digits[i]; r += dbl ? (unsigned)vc_ite(2 * d >= 10, 2 * d - 9, 2 * d) : d; }
        return r;
    }
};
static void isin_checksum(unsigned top)
{
    std::array<char, 9> code; luhn l;
    const symbol a = sym(true), b = sym(true);
    l.add(a); l.add(b);
    const unsigned mask = (top << 6) | (unsigned)vc::pick("letters", 0, 63);
    for(int i = 0; i < 9; ++i) { const auto s = sym((mask >> i) & 1); code[i] = s.c; l.add(s); }
    const isin x(iso_3166_1_alpha_2(std::array<char, 2>{a.c, b.c}), code);
    const int c = x.checksum();
    vc::ensure("isin.check_is_digit", (c >= '0') & (c <= '9'));
    vc::ensure("isin.luhn_sum_multiple_of_ten", (l.sum() + (unsigned)(c - '0')) % 10 == 0);
}
#define ISIN_CHECK(K) VC_HARNESS(F01, checksum##K) { isin_checksum(K); }
ISIN_CHECK(0) ISIN_CHECK(1) ISIN_CHECK(2) ISIN_CHECK(3) ISIN_CHECK(4) ISIN_CHECK(5) ISIN_CHECK(6) ISIN_CHECK(7)

// Lemma over the contract above: replacing one digit by another changes its contribution to the Luhn sum modulo ten,
// whatever the rest of the sum and whichever parity the position has, so the check digit differs.
VC_HARNESS(F01, single_digit_change)
{
    const auto rest = vc_range("rest", 0, 1000), a = vc_range("a", 0, 9), b = vc_range("b", 0, 9);
    const bool dbl = vc::any<bool>("doubled");
    vc::requires_(a != b);
    const auto fa = vc_ite(dbl, vc_ite(2 * a >= 10, 2 * a - 9, 2 * a), a), fb = vc_ite(dbl, vc_ite(2 * b >= 10, 2 * b - 9, 2 * b), b);
    const auto ca = vc_range("check_a", 0, 9), cb = vc_range("check_b", 0, 9);
    vc::requires_((rest + fa + ca) % 10 == 0);
    vc::requires_((rest + fb + cb) % 10 == 0);
    vc::ensure("isin.single_digit_change_detected", ca != cb);
}
static char alnum(const char *n) { const auto v = vc_range(n, 0, 35); return (char)vc_ite(v < 10, '0' + v, 'A' + v - 10); }
template<std::size_t n> static std::array<char, n> alnums(const char *nm) { std::array<char, n> r; for(auto &c : r) c = alnum(nm); return r; }
static iso_3166_1_alpha_2 country() { const char a = vcd::letter("i0"), b = vcd::letter("i1"); return iso_3166_1_alpha_2(std::array<char, 2>{a, b}); }
template<std::size_t n> static bool eq(const std::array<char, n> &a, const std::array<char, n> &b) { bool r = true; for(std::size_t i = 0; i < n; ++i) r &= a[i] == b[i]; return r; }
template<std::size_t n> static std::string text(const std::array<char, n> &a, std::size_t from = 0) { std::string s(n - from, ' '); for(std::size_t i = from; i < n; ++i) s[i - from] = a[i]; return s; }

// every way of constructing an ISIN keeps the country and the nine symbols
VC_HARNESS(F01, construct_parts)
{
    const auto i = country(); const auto c = alnums<9>("c");
    const isin x(i, c);
    vc::ensure("isin.parts", eq(x.issuer.code, i.code) & eq(x.code, c));
    const isin y(i, text(c));
    vc::ensure("isin.parts_text", eq(y.issuer.code, i.code) & eq(y.code, c));
    const isin z(text(i.code), text(c));
    vc::ensure("isin.parts_texts", eq(z.issuer.code, i.code) & eq(z.code, c));
}
VC_HARNESS(F01, construct_full)
{
    const auto i = country(); const auto c = alnums<9>("c");
    const auto f = std::array<char, 11>{i.code[0], i.code[1], c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7], c[8]};
    const isin x(f);
    vc::ensure("isin.full", eq(x.issuer.code, i.code) & eq(x.code, c));
    const isin y(text(f));
    vc::ensure("isin.full_text", eq(y.issuer.code, i.code) & eq(y.code, c));
    const isin z(text(esl::array_concatenate(f, std::array<char, 1>{alnum("check")})));
    vc::ensure("isin.full_text_with_check_digit", eq(z.issuer.code, i.code) & eq(z.code, c));
}
VC_HARNESS(F01, construct_length)
{
    const auto n = vc::pick("length", 11, 16);
    std::string s((std::size_t)n, 'A');
    const bool threw = vc::throws<esl::exception>([&] { const isin x(s); });
    vc::ensure("isin.length_11_or_12", threw == !((n == 11) | (n == 12)));
}
VC_HARNESS(F01, from_cusip)
{
    vc_merge(1);
    const auto i = country(); const auto a = alnums<6>("a"); const auto b = alnums<2>("b");
    const cusip c(a, b);
    const isin x(i, c);
    vc::ensure("isin.from_cusip_country", eq(x.issuer.code, i.code));
    bool ok = x.code[8] == (char)c.checksum();
    for(int k = 0; k < 6; ++k) ok &= x.code[k] == a[k];
    for(int k = 0; k < 2; ++k) ok &= x.code[6 + k] == b[k];
    vc::ensure("isin.from_cusip_symbols", ok);
}

// CUSIP: symbols 0-9 A-Z * @ # have values 0..38; every second one counts double; digit sum
static char cusip_symbol(std::uint64_t v) { return (char)vc_ite(v < 10, '0' + v, vc_ite(v < 36, 'A' + v - 10, vc_ite(v == 36, '*', vc_ite(v == 37, '@', '#')))); }
struct cusip_spec {
    std::array<char, 8> c; std::uint64_t sum = 0;
    cusip_spec()
    {
        for(int i = 0; i < 8; ++i) { const auto v = vc_range("symbol", 0, 38); c[i] = cusip_symbol(v); const auto w = i % 2 ? 2 * v : v; sum += w / 10 + w % 10; }
    }
    bool check(int d) const { return (d >= '0') & (d <= '9') & ((sum + (std::uint64_t)(d - '0')) % 10 == 0); }
};
VC_HARNESS(F02, cusip_checksum)
{
    vc_merge(1);
    const cusip_spec s; const auto &c = s.c;
    const cusip a(std::array<char, 6>{c[0], c[1], c[2], c[3], c[4], c[5]}, std::array<char, 2>{c[6], c[7]});
    vc::ensure("cusip.check_digit", s.check(a.checksum()));
}
VC_HARNESS(F02, cusip_construct)
{
    vc_merge(1);
    const cusip_spec s;
    const cusip a(s.c), b(text(s.c));
    bool ok = true;
    for(int k = 0; k < 6; ++k) ok &= (a.issuer[k] == s.c[k]) & (b.issuer[k] == s.c[k]);
    for(int k = 0; k < 2; ++k) ok &= (a.code[k] == s.c[6 + k]) & (b.code[k] == s.c[6 + k]);
    vc::ensure("cusip.symbols_kept", ok);
    const cusip d(std::array<char, 6>{s.c[0], s.c[1], s.c[2], s.c[3], s.c[4], s.c[5]});
    vc::ensure("cusip.first_issue_by_convention", (d.code[0] == '1') & (d.code[1] == '0'));
}
VC_HARNESS(F02, cusip_full)
{
    vc_merge(1);
    const cusip_spec s; const auto &c = s.c;
    const char n = vc::any<char>("ninth");
    std::array<char, 9> f {c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7], n};
    bool kept = true;
    const bool threw = vc::throws<esl::exception>([&] { const cusip x(f); for(int k = 0; k < 6; ++k) kept &= x.issuer[k] == c[k]; kept &= (x.code[0] == c[6]) & (x.code[1] == c[7]); });
    vc::ensure("cusip.refused_iff_wrong_check_digit", threw == !s.check(n));
    vc::ensure("cusip.full_symbols_kept", kept);
}
struct sedol_spec {
    std::array<char, 6> c; std::uint64_t sum = 0;
    sedol_spec()
    {
        static constexpr unsigned w[6] = {1, 3, 1, 7, 3, 9};
        for(int i = 0; i < 6; ++i) { const auto v = vc_range("symbol", 0, 35); c[i] = (char)vc_ite(v < 10, '0' + v, 'A' + v - 10); sum += w[i] * v; }
    }
    bool check(int d) const { return (d >= '0') & (d <= '9') & ((sum + (std::uint64_t)(d - '0')) % 10 == 0); }
};
VC_HARNESS(F02, sedol_checksum)
{
    vc_merge(1);
    const sedol_spec s;
    const sedol a(s.c);
    vc::ensure("sedol.check_digit", s.check(a.checksum()));
    vc::ensure("sedol.symbols_kept", eq(a.code, s.c));
}
VC_HARNESS(F02, sedol_text)
{
    vc_merge(1);
    const sedol_spec s;
    const sedol a(text(s.c)), b(text(s.c) + "5");
    vc::ensure("sedol.text_symbols_kept", eq(a.code, s.c) & eq(b.code, s.c));
}
