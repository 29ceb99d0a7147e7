#include "domain.hpp"
#include <string>
#include <esl/algorithms.hpp>
// ---- nonnegative_integer_power: modular proof by induction on the exponent.  pw is the repeated product, defined by
//      pw(x,0)=1 and pw(x,n+1)=x*pw(x,n) (arithmetic of the unsigned type); recursive calls are replaced by the contract.
template<class T> static T pw(T x, T n)
{
    if(vc_branch(n == 0)) return 1;
    if(vc_symbolic()) return static_cast<T>(vc_uf("pw", x, n));
    T r = 1;
    for(T b = x; n; n >>= 1, b *= b) if(n & 1) r *= b;
    return r;
}
// pw(x, n), n > 0, in terms of pw(x, n/2): by the doubling lemma (below) for 2*(n/2), then by definition when n is odd
template<class T> static T pw_halved(T x, T n)
{
    const T a = pw(x, T(n / 2)), even = a * a;
    return vc_branch(n % 2 == 0) ? even : T(x * even);
}
template<class T> struct power {
    static inline T outer_p = 0;
    static T contract(T x, T p) noexcept
    {
        vc_ensure("power.recursion_decreases", p < outer_p);
        return pw(x, p);
    }
    static void check()
    {
        const T x = vc::any<T>("x"), p = vc::any<T>("p");
        vc_stub((void *)(T(*)(T, T)) & esl::nonnegative_integer_power<T>, (void *)&contract, 1);
        outer_p = p;
        const T r = esl::nonnegative_integer_power(x, p);
        vc::ensure("power.repeated_product", r == (vc_branch(p == 0) ? T(1) : pw_halved(x, p)));
    }
    static void bounded()
    {
        vc_bounded("exponents up to 40 with every base; further exponents with bases 0..3");
        const bool few = vc::pick("few", 0, 1);
        const T x = few ? vc::any<T>("x") : (T)vc::pick("base", 0, 3), p = few ? (T)vc::pick("p", 0, 40) : T(~T(0)) / (T)vc::pick("q", 1, 200);
        T r = 1;
        if(few) for(T i = 0; i < p; ++i) r = T(r * x);
        else { T b = x; for(T n = p; n; n >>= 1, b *= b) if(n & 1) r *= b; }
        vc::ensure("power.repeated_product", esl::nonnegative_integer_power(x, p) == r);
    }
    static void small()
    {
        const T x = vc::any<T>("x"), p = (T)vc::pick("p", 0, 8);
        T r = 1;
        for(T i = 0; i < p; ++i) r = T(r * x);
        vc::ensure("power.small_exponents", esl::nonnegative_integer_power(x, p) == r);
    }
    // pw(x, 2h) = pw(x, h)^2 by induction on h: a stands for pw(x, h), b for pw(x, 2h)
    static void lemma()
    {
        const T x = vc::any<T>("x"), a = vc::any<T>("a");
        vc::ensure("power.lemma_base", pw(x, T(0)) == T(pw(x, T(0)) * pw(x, T(0))));
        const T b = a * a;                              // induction hypothesis
        const T a1 = x * a, b1 = x * b, b2 = x * b1;    // pw(x, h+1), pw(x, 2h+1), pw(x, 2h+2) by definition
        vc::ensure("power.lemma_step", b2 == T(a1 * a1));
    }
};
VC_HARNESS(G01, power_unsigned) { power<unsigned int>::check(); }
VC_HARNESS(G01, power_unsigned_fallback) { power<unsigned int>::bounded(); }
VC_HARNESS(G01, power_uint64_fallback) { power<std::uint64_t>::bounded(); }
VC_HARNESS(G01, power_unsigned_small) { power<unsigned int>::small(); }
VC_HARNESS(G01, power_unsigned_lemma) { power<unsigned int>::lemma(); }
VC_HARNESS(G01, power_uint64) { power<std::uint64_t>::check(); }
VC_HARNESS(G01, power_uint64_small) { power<std::uint64_t>::small(); }
VC_HARNESS(G01, power_uint64_lemma) { power<std::uint64_t>::lemma(); }

// ---- arrays: one contract instance per size; every element value
template<class T, std::size_t N> static std::array<T, N> sym(const char *n)
{
    std::array<T, N> a {};
    for(std::size_t i = 0; i < N; ++i) a[i] = vc::any<T>(n);
    return a;
}
template<class T, std::size_t N, std::size_t M> static void concatenate()
{
    const auto a = sym<T, N>("a"); const auto b = sym<T, M>("b");
    const auto a0 = a; const auto b0 = b;
    const auto r = esl::array_concatenate(a, b);
    bool ok = r.size() == N + M, kept = true;
    for(std::size_t i = 0; i < N; ++i) { ok &= r[i] == a0[i]; kept &= a[i] == a0[i]; }
    for(std::size_t i = 0; i < M; ++i) { ok &= r[N + i] == b0[i]; kept &= b[i] == b0[i]; }
    vc::ensure("array_concatenate.elements_in_order", ok);
    vc::ensure("array_concatenate.arguments_kept", kept);
}
template<std::size_t S, std::size_t E, class T, std::size_t N> static void slice()
{
    const auto a = sym<T, N>("a");
    const auto r = esl::array_slice<S, E>(a);
    bool ok = r.size() == E - S;
    for(std::size_t i = S; i < E; ++i) ok &= r[i - S] == a[i];
    vc::ensure("array_slice.elements_in_order", ok);
}
template<std::size_t S, std::size_t E, class T, class C> static void copy(C c)
{
    for(auto &e : c) e = vc::any<T>("c");
    const auto r = esl::to_array<S, E, T>(c);
    bool ok = r.size() == E - S;
    for(std::size_t i = S; i < E; ++i) ok &= r[i - S] == c[i];
    vc::ensure("to_array.elements_in_order", ok);
}
VC_HARNESS(G01, concatenate_char)
{
    concatenate<char, 0, 0>(); concatenate<char, 0, 3>(); concatenate<char, 3, 0>(); concatenate<char, 1, 1>(); concatenate<char, 2, 9>();
    concatenate<char, 9, 3>(); concatenate<char, 11, 1>(); concatenate<char, 18, 2>(); concatenate<char, 8, 1>(); concatenate<char, 6, 2>();
}
VC_HARNESS(G01, concatenate_wide)
{
    concatenate<std::uint64_t, 0, 4>(); concatenate<std::uint64_t, 4, 0>(); concatenate<std::uint64_t, 5, 2>(); concatenate<std::uint64_t, 2, 5>(); concatenate<int, 3, 4>();
}
VC_HARNESS(G01, slice_char)
{
    slice<0, 0, char, 0>(); slice<0, 0, char, 4>(); slice<4, 4, char, 4>(); slice<0, 4, char, 4>(); slice<1, 3, char, 4>(); slice<2, 11, char, 11>();
    slice<0, 2, char, 11>(); slice<2, 11, char, 12>(); slice<11, 12, char, 12>(); slice<0, 18, char, 20>(); slice<18, 20, char, 20>();
}
VC_HARNESS(G01, slice_wide)
{
    slice<0, 5, std::uint64_t, 5>(); slice<1, 5, std::uint64_t, 5>(); slice<0, 4, std::uint64_t, 5>(); slice<2, 3, int, 7>(); slice<3, 3, int, 7>();
}
VC_HARNESS(G01, to_array)
{
    copy<0, 4, char>(std::string("abcd")); copy<1, 3, char>(std::string("abcd")); copy<2, 2, char>(std::string("abcd")); copy<2, 11, char>(std::string("abcdefghijkl"));
    copy<0, 3, std::uint64_t>(std::vector<std::uint64_t>(3)); copy<2, 5, int>(std::vector<int>(6)); copy<1, 2, int>(std::array<int, 3>{});
}
