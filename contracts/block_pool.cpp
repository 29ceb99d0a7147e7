#include <vc.hpp>
#include <cassert>
#include <algorithm>
#include <esl/computation/block_pool.hpp>
using esl::computation::block_pool::static_block_pool;
// every history of allocations and releases up to a length, on pools of up to three slots, with arbitrary elements
namespace {
    typedef static_block_pool<std::int64_t> pool;
    struct given { std::uint64_t index; const void *slot; std::int64_t value; bool live; };
}
static void check(pool &p, const given *g, unsigned n)
{
    unsigned live = 0;
    const pool &c = p;
    for(unsigned i = 0; i < n; ++i) {
        if(!g[i].live) {
            vc::ensure("pool.at_refuses_what_was_released", vc::throws<std::exception>([&] { p.at(g[i].index); }) & vc::throws<std::exception>([&] { c.at(g[i].index); }));
            continue;
        }
        ++live;
        vc::ensure("pool.live_elements_unchanged", (p[g[i].index] == g[i].value) & (c[g[i].index] == g[i].value));
        vc::ensure("pool.at_finds_live_elements", (p.at(g[i].index) == g[i].value) & (c.at(g[i].index) == g[i].value));
        for(unsigned j = 0; j < i; ++j) if(g[j].live) vc::ensure("pool.live_elements_have_their_own_slot", g[i].slot != g[j].slot);
    }
    vc::ensure("pool.size_counts_live_elements", p.size() == live);
}
static void history(unsigned capacity, unsigned steps)
{
    pool p(capacity);
    vc::ensure("pool.capacity", p.capacity() == capacity);
    given g[16]; unsigned n = 0, live = 0;
    for(unsigned s = 0; s < steps; ++s) {
        const unsigned op = (unsigned)vc::pick("operation", 0, n + 1);
        if(op == n) {
            const auto v = vc::any<std::int64_t>("element");
            bool refused = false; std::pair<pool::index, esl::computation::block_pool::block<std::int64_t> *> r{0, nullptr};
            try { r = p.emplace(v); } catch(const std::length_error &) { refused = true; }
            vc::ensure("pool.refuses_beyond_capacity", refused == (live == capacity));
            if(!refused) {
                bool fresh = true;
                for(unsigned i = 0; i < n; ++i) fresh &= r.first > g[i].index;
                vc::ensure("pool.indices_increase", fresh);
                vc::ensure("pool.slot_holds_the_element", r.second && r.second->data == v);
                g[n++] = {r.first, r.second, v, true}; ++live;
            }
        } else if(op == n + 1) {
            // an index never given, or long gone
            const auto i = vc::any<std::uint64_t>("index");
            for(unsigned k = 0; k < n; ++k) vc::requires_(i != g[k].index);
            vc::ensure("pool.unknown_index_erases_nothing", p.erase(i) == 0);
        } else {
            vc::ensure("pool.erases_live_elements_once", p.erase(g[op].index) == (g[op].live ? 1u : 0u));
            if(g[op].live) --live;
            g[op].live = false;
        }
        check(p, g, n);
    }
    // released slots are available again, each once
    for(unsigned k = live; k < capacity; ++k) { auto r = p.emplace(7); g[n++] = {r.first, r.second, 7, true}; }
    vc::ensure("pool.full_after_refilling", vc::throws<std::length_error>([&] { p.emplace(8); }));
    check(p, g, n);
}
#define BOUND "up to five operations on pools of up to three slots"
VC_HARNESS(B05, capacity_1) { vc_bounded(BOUND); history(1, 4); }
VC_HARNESS(B05, capacity_2) { vc_bounded(BOUND); history(2, 5); }
VC_HARNESS(B05, capacity_3) { vc_bounded(BOUND); history(3, 5); }
