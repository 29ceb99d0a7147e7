// Specification primitives for contracts on /repo's code.
// Symbolically (VC_SYMBOLIC): interpreted by /verif/engine.  Natively: vc_native.cpp replays a counterexample or
// searches inputs, running the very same contract against the compiled real code.
#pragma once
#include <cstdint>
#include <cstddef>
#include <type_traits>
#include <utility>
extern "C" {
    std::uint64_t vc_any_bits(const char *name, std::uint32_t bits);
    double        vc_any_double(const char *name);
    std::uint64_t vc_range(const char *name, std::uint64_t lo, std::uint64_t hi);   // lo <= value <= hi
    std::uint64_t vc_pick(const char *name, std::uint64_t lo, std::uint64_t hi);    // same, one path per value
    std::uint64_t vc_havoc_bits(const char *name, std::uint32_t bits);
    void          vc_assume(bool);
    void          vc_ensure(const char *name, bool);
    void          vc_cover(const char *name);
    bool          vc_symbolic();
    void          vc_merge(std::uint32_t);
    void          vc_bounded(const char *what);
    bool          vc_branch(bool);
    void          vc_trace(const char *name, std::uint64_t);
    std::uint64_t vc_ite(bool c, std::uint64_t a, std::uint64_t b);
    std::uint64_t vc_concretize(std::uint64_t);
    // calls of `real` are checked against `contract` (which checks the precondition and returns any value satisfying the
    // postcondition) instead of the body; mode 1: only calls `real` makes to itself (induction hypothesis).  No effect natively.
    void          vc_stub(void *real, void *contract, std::uint32_t mode);
    // loops after this call are generalised: invariants are inferred, or given before the loop's test with vc_invariant
    void          vc_text();      // track the text of string streams from here on
    void          vc_any_floats();   // nothing is assumed about floating-point results from here on
    void          vc_unbounded();
    void          vc_invariant(const char *name, bool);
    std::uint64_t vc_uf(const char *name, std::uint64_t, std::uint64_t);   // uninterpreted function (ghost definitions)
}
namespace vc {
    template<class T> inline T any(const char *name)
    {
        if constexpr(std::is_same_v<T, bool>) return 0 != vc_any_bits(name, 1);
        else if constexpr(std::is_floating_point_v<T>) return static_cast<T>(vc_any_double(name));
        else return static_cast<T>(vc_any_bits(name, sizeof(T) * 8));
    }
    inline std::uint64_t pick(const char *name, std::uint64_t lo, std::uint64_t hi) { return vc_pick(name, lo, hi); }
    template<class T = std::uint64_t> inline T range(const char *name, std::uint64_t lo, std::uint64_t hi) { return static_cast<T>(vc_range(name, lo, hi)); }
    inline void requires_(bool c) { vc_assume(c); }
    inline void ensure(const char *n, bool c) { vc_ensure(n, c); }
    inline void cover(const char *n) { vc_cover(n); }
    inline bool implies(bool a, bool b) { return !a | b; }
    inline bool iff(bool a, bool b) { return a == b; }

    using u128 = unsigned __int128;
    using i128 = __int128;

    enum outcome { returned = 0, threw = 1 };
    // runs f; outcome tells whether it threw E
    template<class E, class F> inline bool throws(F f)
    {
        try { f(); } catch(const E &) { return true; }
        return false;
    }
}
#ifdef VC_SYMBOLIC
#define VC_HARNESS(P, N) extern "C" void vc_harness__##P##__##N()
#else
namespace vc { struct reg { reg(const char *p, const char *n, void (*f)()); }; }
#define VC_HARNESS(P, N) extern "C" void vc_harness__##P##__##N(); \
    static ::vc::reg vc_reg__##P##__##N(#P, #N, &vc_harness__##P##__##N); \
    extern "C" void vc_harness__##P##__##N()
#endif
