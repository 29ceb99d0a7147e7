// Arrays of any length: ghost constructors for the unbounded contracts
#pragma once
#include "vc.hpp"
#include <cstdint>
#include <cstring>
#include <vector>
#include <algorithm>
#ifdef VC_SYMBOLIC
extern "C" {
    // an array of `n` 8-byte elements with any contents (symbolically: no bound on n)
    std::uint64_t *vc_region(const char *name, std::uint64_t n);
    // length of the longest common prefix of two arrays of 8-byte elements
    std::uint64_t vc_lcp(const std::uint64_t *a, std::uint64_t n, const std::uint64_t *b, std::uint64_t m);
}
#else
inline std::uint64_t *vc_region(const char *, std::uint64_t) { return nullptr; }
inline std::uint64_t vc_lcp(const std::uint64_t *a, std::uint64_t n, const std::uint64_t *b, std::uint64_t m)
{
    std::uint64_t i = 0;
    while(i < n && i < m && a[i] == b[i]) ++i;
    return i;
}
#endif
namespace vc {
    typedef std::vector<std::uint64_t> words;
    // a vector of any length below 2^56 and any contents.  libstdc++ layout: begin, end, end of storage.
    inline void any_words(words &v, const char *name)
    {
        if(vc_symbolic()) {
            const std::uint64_t n = vc_any_bits("length", 56);
            std::uint64_t *p = vc_region(name, n);
            std::uint64_t **raw = reinterpret_cast<std::uint64_t **>(&v);
            raw[0] = p; raw[1] = p + n; raw[2] = p + n;
        } else {
            v.resize(vc_pick("length", 0, 12));
            for(auto &d : v) d = vc_any_bits(name, 64);
        }
    }
    // any valid position
    inline std::uint64_t position(const words &a)
    {
        const std::uint64_t j = vc_symbolic() ? vc_any_bits("position", 56) : vc_pick("position", 0, 12);
        requires_(j < a.size());
        return j;
    }
    // b has the length of a, and at position j the same element
    inline bool same_at(const words &a, const words &b, std::uint64_t j) { return (a.size() == b.size()) && a[j] == b[j]; }
    // natively: correlated with another vector more often than chance would
    inline void any_words_near(words &v, const words &w, const char *name)
    {
        if(vc_symbolic()) { any_words(v, name); return; }
        const auto how = vc_pick("how", 0, 3);
        if(how == 0) { any_words(v, name); return; }
        v = w;
        if(how >= 2 && !v.empty()) v[vc_pick("where", 0, v.size() - 1)] = vc_any_bits(name, 64);
        if(how == 3) v.resize(vc_pick("length", 0, v.size()));
    }
}
