// symbolic inputs of /repo's value types, with their type invariants as preconditions
#pragma once
#include <vc.hpp>
#include <esl/economics/iso_4217.hpp>
#include <esl/economics/price.hpp>
namespace vcd {
    inline char letter(const char *n) { return static_cast<char>(vc_range(n, 'A', 'Z')); }
    inline esl::economics::iso_4217 currency()
    {
        const char a = letter("c0"), b = letter("c1"), c = letter("c2");
        const auto d = vc_range("denominator", 1, UINT64_MAX);
        return esl::economics::iso_4217({a, b, c}, d);
    }
    inline bool same(const esl::economics::iso_4217 &a, const esl::economics::iso_4217 &b)
    {
        return (a.code[0] == b.code[0]) & (a.code[1] == b.code[1]) & (a.code[2] == b.code[2]) & (a.denominator == b.denominator);
    }
    __attribute__((always_inline)) inline bool fits(vc::i128 v) { return (v >= INT64_MIN) & (v <= INT64_MAX); }
}
