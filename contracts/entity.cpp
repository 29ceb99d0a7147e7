#include "domain.hpp"
#include "regions.hpp"
#include <esl/simulation/entity.hpp>
#include <esl/simulation/world.hpp>
#include <esl/simulation/world.cpp>
using esl::identity;
using digits_t = std::vector<std::uint64_t>;

#ifndef VC_PUBLIC_ONLY
// the ghost view of an entity's child counter: a private member, reached through an explicit instantiation
template<class Tag, class M, M m> struct expose { friend auto get(Tag) { return m; } };
#endif
struct thing : public esl::entity<thing>
{
    explicit thing(const identity<thing> &i) : esl::entity<thing>(i) {}
    thing(const thing &t) : esl::entity<thing>(t) {}
};
struct child : public esl::entity<child> { explicit child(const identity<child> &i) : esl::entity<child>(i) {} };
#ifndef VC_PUBLIC_ONLY
struct tag_thing { friend auto get(tag_thing); };
template struct expose<tag_thing, std::uint64_t esl::entity<thing>::*, &esl::entity<thing>::children_>;
struct tag_world { friend auto get(tag_world); };
template struct expose<tag_world, std::uint64_t esl::entity<esl::simulation::world>::*, &esl::entity<esl::simulation::world>::children_>;
static std::uint64_t children(const thing &t) { return t.*get(tag_thing()); }
// a creator that has made any number of children
template<class Entity> static std::uint64_t some_children(Entity &e)
{
    const auto n = vc::any<std::uint64_t>("children");
    vc::requires_(n < UINT64_MAX - 1);
    if constexpr(std::is_same_v<Entity, thing>) e.*get(tag_thing()) = n; else e.*get(tag_world()) = n;
    return n;
}
#else
static std::uint64_t children(const thing &t) { thing c(t); return c.create<child>().digits.back(); }
template<class Entity> static std::uint64_t some_children(Entity &e)
{
    vc_bounded("the child counter is not accessible in the current code: up to three earlier children");
    const auto n = vc::pick("children", 0, 3);
    for(std::uint64_t i = 0; i < n; ++i) (void)e.template create<child>();
    return n;
}
#endif

static digits_t digits(const char *n, std::uint64_t max)
{
    digits_t v((std::size_t)vc::pick("length", 0, max));
    for(auto &d : v) d = vc::any<std::uint64_t>(n);
    return v;
}
static bool extended(const digits_t &c, const digits_t &p, std::uint64_t last)
{
    bool r = c.size() == p.size() + 1;
    for(std::size_t i = 0; i < p.size() && i < c.size(); ++i) r &= c[i] == p[i];
    return r && (c[p.size()] == last);
}
static bool same(const digits_t &a, const digits_t &b)
{
    bool r = a.size() == b.size();
    for(std::size_t i = 0; i < a.size() && i < b.size(); ++i) r &= a[i] == b[i];
    return r;
}
// the contract of one creation, from an arbitrary state of the creator: digit handed out = children so far, then one more
// child.  That a digit is never handed out twice follows by induction: digits handed out are below the counter, which grows.
static void entity_create(thing &t, bool (*extended)(const digits_t &, const digits_t &, std::uint64_t), bool (*same)(const digits_t &, const digits_t &), const digits_t &d)
{
    vc::ensure("entity.starts_without_children", children(t) == 0);
    const auto n = some_children(t);
    const identity<child> c = t.create<child>();
    vc::ensure("entity.child_extends_creator", extended(c.digits, d, n));
    vc::ensure("entity.counter_grows", children(t) == n + 1);
    vc::ensure("entity.own_identity_kept", same(t.identifier.digits, d));
    const identity<child> e = t.create<child>();
    vc::ensure("entity.siblings_differ", extended(e.digits, d, n + 1));
}
static void identity_create(thing &t, bool (*extended)(const digits_t &, const digits_t &, std::uint64_t), bool (*same)(const digits_t &, const digits_t &), const digits_t &d)
{
    const auto n = some_children(t);
    const identity<child> c = t.identifier.create<child>(t);
    vc::ensure("identity.child_extends_creator", extended(c.digits, d, n));
    vc::ensure("identity.counter_grows", children(t) == n + 1);
    vc::ensure("identity.own_identity_kept", same(t.identifier.digits, d));
    const identity<child> e = t.create<child>();
    vc::ensure("identity.both_ways_share_the_counter", extended(e.digits, d, n + 1));
}
// creators with identities of any length: every digit is compared at an arbitrary position
static bool extended_any(const digits_t &c, const digits_t &p, std::uint64_t last)
{
    if(c.size() != p.size() + 1) return false;
    bool r = c[p.size()] == last;
    if(!p.empty()) { const std::uint64_t j = vc_symbolic() ? vc_havoc_bits("position", 64) : 0; if(vc_symbolic() && !vc_branch(j < p.size())) return r; r = r & (c[j] == p[j]); }
    if(!vc_symbolic()) r = r && extended(c, p, last);
    return r;
}
static bool same_any(const digits_t &a, const digits_t &b)
{
    if(a.size() != b.size()) return false;
    if(!vc_symbolic()) return same(a, b);
    const std::uint64_t j = vc_havoc_bits("position", 64);
    if(!vc_branch(j < a.size())) return true;
    return a[j] == b[j];
}
VC_HARNESS(S02, entity_create)
{
    digits_t d; vc::any_words(d, "d");
    thing t((identity<thing>(d)));
    entity_create(t, extended_any, same_any, d);
}
VC_HARNESS(S02, identity_create)
{
    digits_t d; vc::any_words(d, "d");
    thing t((identity<thing>(d)));
    identity_create(t, extended_any, same_any, d);
}
VC_HARNESS(S02, entity_create_fallback)
{
    vc_bounded("creators with identities of up to nine digits, every digit and child count");
    const digits_t d = digits("d", 9);
    thing t((identity<thing>(d)));
    entity_create(t, extended, same, d);
}
VC_HARNESS(S02, identity_create_fallback)
{
    vc_bounded("creators with identities of up to nine digits, every digit and child count");
    const digits_t d = digits("d", 9);
    thing t((identity<thing>(d)));
    identity_create(t, extended, same, d);
}
VC_HARNESS(S02, world)
{
    esl::simulation::world w;
    vc::ensure("world.root_identity", w.identifier.digits.empty());
    const auto n = some_children(w);
    const identity<child> a = w.identifier.create<child>(w), b = w.create<child>();
    vc::ensure("world.children", extended(a.digits, {}, n) & extended(b.digits, {}, n + 1));
    vc::ensure("world.root_identity_kept", w.identifier.digits.empty());
}
VC_HARNESS(S02, fresh_entity)
{
    esl::simulation::world w;
    const identity<thing> i = w.create<thing>(), j = w.create<thing>();
    thing a(i), b(j);
    const auto x = a.create<child>(), y = b.create<child>(), z = a.create<child>();
    vc::ensure("entity.first_children", (i.digits == digits_t {0}) & (j.digits == digits_t {1}) & (x.digits == digits_t {0, 0}) & (y.digits == digits_t {1, 0}) & (z.digits == digits_t {0, 1}));
    thing c(a);
    vc::ensure("entity.copy_continues_counting", c.create<child>().digits == digits_t {0, 2});
    vc::ensure("entity.equality_is_identity", (a == c) & !(a == b) & (a != b) & (std::hash<esl::entity<thing>>()(a) == std::hash<esl::entity<thing>>()(c)));
}
