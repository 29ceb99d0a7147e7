#include "domain.hpp"
#include <esl/law/legal_entity.hpp>
using esl::law::iso_17442;
using u128 = unsigned __int128;

// ISO 17442 / ISO 7064 MOD 97-10: the twenty characters, letters expanded to two digits, are congruent to one modulo 97
struct spec {
    std::array<char, 4> local; std::array<char, 12> code; u128 n = 0;
    explicit spec(int) {}
    spec()
    {
        for(auto &c : local) { const auto v = vc_range("local", 0, 9); c = (char)('0' + v); n = n * 10 + v; }
        n *= 100;   // two reserved zeros
        for(auto &c : code) { const auto v = vc_range("symbol", 0, 35); c = (char)vc_ite(v < 10, '0' + v, 'A' + v - 10); n = n * vc_ite(v < 10, 10, 100) + v; }
    }
    bool check(char a, char b) const
    {
        const bool digits = (a >= '0') & (a <= '9') & (b >= '0') & (b <= '9');
        return digits & ((n * 100 + (u128)((a - '0') * 10 + (b - '0'))) % 97 == 1);
    }
};
template<std::size_t n> static bool eq(const std::array<char, n> &a, const std::array<char, n> &b) { bool r = true; for(std::size_t i = 0; i < n; ++i) r &= a[i] == b[i]; return r; }
VC_HARNESS(F03, checksum)
{
    vc_merge(1);
    const spec s;
    const iso_17442 x(s.local, s.code);
    const auto [a, b] = x.checksum();
    vc::ensure("lei.check_digits_mod_97", s.check(a, b));
    vc::ensure("lei.symbols_kept", eq(x.local, s.local) & eq(x.code, s.code));
}
VC_HARNESS(F03, checksum_fallback)
{
    vc_bounded("any one of the sixteen symbols; the others zeros, nines and letters Z, mixed, or ascending");
    vc_merge(1);
    static const char *const others[] = {"0000000000000000", "9999ZZZZZZZZZZZZ", "5493A0B1C2D3E4F5", "1234ABCDEFGHIJKL"};
    const auto other = others[vc::pick("others", 0, 3)];
    const auto at = vc::pick("at", 0, 15);
    const auto value = vc::pick("value", 0, at < 4 ? 9 : 35);
    spec s {0}; u128 n = 0;
    for(int i = 0; i < 16; ++i) {
        const unsigned fixed = other[i] <= '9' ? other[i] - '0' : other[i] - 'A' + 10;
        const unsigned v = i == at ? value : fixed;
        (i < 4 ? s.local[i] : s.code[i - 4]) = (char)vc_ite(v < 10, '0' + v, 'A' + v - 10);
        if(i == 4) n *= 100;
        n = n * vc_ite(v < 10, 10, 100) + v;
    }
    s.n = n;
    const iso_17442 x(s.local, s.code);
    const auto [a, b] = x.checksum();
    vc::ensure("lei.check_digits_mod_97", s.check(a, b));
}
static std::string text(const spec &s)
{
    std::string t(18, '0');
    for(int i = 0; i < 4; ++i) t[i] = s.local[i];
    for(int i = 0; i < 12; ++i) t[6 + i] = s.code[i];
    return t;
}
VC_HARNESS(F03, from_text)
{
    vc_merge(1);
    const spec s;
    const iso_17442 x(text(s));
    vc::ensure("lei.text_symbols_kept", eq(x.local, s.local) & eq(x.code, s.code));
}
// identifiers created from a hash: well-formed for every hash value
struct hashed { std::size_t h; };
template<> struct std::hash<hashed> { std::size_t operator()(const hashed &x) const { return x.h; } };
VC_HARNESS(F03, created)
{
    vc_merge(1);
    const hashed h {vc::any<std::size_t>("hash")};
    const spec s;
    const iso_17442 x = iso_17442::create(h, s.local);
    bool ok = eq(x.local, s.local);
    for(const char c : x.code) ok &= ((c >= '0') & (c <= '9')) | ((c >= 'A') & (c <= 'Z'));
    vc::ensure("lei.created_well_formed", ok);
}
