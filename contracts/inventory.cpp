#include "domain.hpp"
#include <esl/agent.hpp>
#include <esl/law/property.hpp>
#include <esl/economics/accounting/inventory.hpp>
#include <esl/economics/owner.hpp>
#include <esl/interaction/transfer.hpp>
#include <esl/law/property.cpp>
#include <esl/interaction/communicator.cpp>
#include <boost/serialization/export.hpp>
#undef BOOST_CLASS_EXPORT
#define BOOST_CLASS_EXPORT(T)
#include <esl/agent.cpp>
using namespace esl;
using namespace esl::economics;
using namespace esl::economics::accounting;
namespace {
    struct grain : public law::property, public fungible { using law::property::property; std::string name() const override { return "grain"; } };
    struct painting : public law::property, public infungible { using law::property::property; std::string name() const override { return "painting"; } };
    typedef inventory_by_fungibility<grain, true> grains;
    typedef inventory_by_fungibility<painting, false> paintings;
    template<typename T> std::shared_ptr<T> thing(std::uint64_t i) { return std::make_shared<T>(identity<law::property>({i})); }
    // amounts whose sums stay representable
    quantity some(const char *n) { const auto a = vc::any<std::uint64_t>(n); vc::requires_(a <= UINT64_MAX / 4); return quantity(a); }
    std::uint64_t held(const grains &g, const std::shared_ptr<grain> &i) { auto f = g.items.find(i); return f == g.items.end() ? 0 : f->second.amount; }
    std::uint64_t held(const law::property_map<quantity> &m, const std::shared_ptr<law::property> &i) { auto f = m.find(i); return f == m.end() ? 0 : f->second.amount; }
    bool holds(const law::property_map<quantity> &m, const std::shared_ptr<law::property> &i) { return m.find(i) != m.end(); }
}
#define BOUND "up to three kinds of item, all quantities"
// an inventory holding some of the items 0..n-1, others absent
struct holding { std::uint64_t a[3]; bool in[3]; };
static holding fill(grains &g, std::shared_ptr<grain> *x, unsigned n, const char *what)
{
    holding h{};
    for(unsigned i = 0; i < n; ++i) {
        h.in[i] = vc::pick(what, 0, 1);
        if(!h.in[i]) continue;
        const quantity q = some("held");
        g.items.insert(std::make_pair(x[i], q)); h.a[i] = q.amount;
    }
    return h;
}
VC_HARNESS(A01, insert_fungible)
{
    vc_bounded(BOUND);
    std::shared_ptr<grain> x[3] = {thing<grain>(1), thing<grain>(2), thing<grain>(3)};
    grains g; const holding h = fill(g, x, 3, "held already");
    const unsigned k = (unsigned)vc::pick("item", 0, 2);
    const quantity q = some("added");
    // the same item, perhaps through another handle
    g.insert(vc::pick("other handle", 0, 1) ? thing<grain>(k + 1) : x[k], q);
    for(unsigned i = 0; i < 3; ++i) vc::ensure("inventory.insert_adds_exactly", held(g, x[i]) == h.a[i] + (i == k ? q.amount : 0));
    vc::ensure("inventory.insert_no_other_entries", g.items.size() == 0u + (h.in[0] | (k == 0)) + (h.in[1] | (k == 1)) + (h.in[2] | (k == 2)));
}
VC_HARNESS(A01, erase_fungible)
{
    vc_bounded(BOUND);
    std::shared_ptr<grain> x[3] = {thing<grain>(1), thing<grain>(2), thing<grain>(3)};
    grains g; const holding h = fill(g, x, 3, "held already");
    const unsigned k = (unsigned)vc::pick("item", 0, 2);
    const quantity q = some("removed");
    const bool refused = vc::throws<insufficent_inventory>([&] { g.erase(x[k], q); });
    vc::ensure("inventory.erase_refuses_more_than_held", refused == (q.amount > h.a[k]));
    for(unsigned i = 0; i < 3; ++i) vc::ensure("inventory.erase_removes_exactly", held(g, x[i]) == h.a[i] - (i == k ? vc_ite(refused, 0, q.amount) : 0));
}
VC_HARNESS(A01, move_fungible)
{
    vc_bounded("up to two kinds of item, all quantities");
    std::shared_ptr<grain> x[2] = {thing<grain>(1), thing<grain>(2)};
    grains from, to, moved; const holding f = fill(from, x, 2, "held by the giver"), t = fill(to, x, 2, "held by the receiver"), m = fill(moved, x, 2, "moved");
    const bool refused = vc::throws<insufficent_inventory>([&] { from.erase(moved); });
    vc::ensure("inventory.move_refused_iff_insufficient", refused == ((m.a[0] > f.a[0]) | (m.a[1] > f.a[1])));
    if(refused) return;
    to.insert(moved);
    for(unsigned i = 0; i < 2; ++i) {
        vc::ensure("inventory.move_takes_and_gives_exactly", (held(from, x[i]) == f.a[i] - m.a[i]) & (held(to, x[i]) == t.a[i] + m.a[i]));
        vc::ensure("inventory.moved_set_unchanged", held(moved, x[i]) == m.a[i]);
    }
}
// the general inventory of an owner
static holding fill(law::property_map<quantity> &g, std::shared_ptr<grain> *x, unsigned n, const char *what)
{
    holding h{};
    for(unsigned i = 0; i < n; ++i) {
        h.in[i] = vc::pick(what, 0, 1);
        if(!h.in[i]) continue;
        const quantity q = some("held");
        g.insert(std::make_pair(x[i], q)); h.a[i] = q.amount;
    }
    return h;
}
VC_HARNESS(A01, insert_into)
{
    vc_bounded("up to two kinds of item, all quantities");
    std::shared_ptr<grain> x[2] = {thing<grain>(1), thing<grain>(2)};
    law::property_map<quantity> to; grains moved;
    const holding t = fill(to, x, 2, "held by the receiver"), m = fill(moved, x, 2, "moved");
    moved.insert_into(to);
    for(unsigned i = 0; i < 2; ++i) vc::ensure("inventory.insert_into_adds_exactly", (held(to, x[i]) == t.a[i] + m.a[i]) & (held(moved, x[i]) == m.a[i]));
}
VC_HARNESS(A01, erase_from)
{
    vc_bounded("up to two kinds of item, all quantities");
    std::shared_ptr<grain> x[2] = {thing<grain>(1), thing<grain>(2)};
    law::property_map<quantity> from; grains moved;
    const holding f = fill(from, x, 2, "held by the giver"), m = fill(moved, x, 2, "moved");
    const bool refused = vc::throws<insufficent_inventory>([&] { moved.erase_from(from); });
    vc::ensure("inventory.erase_from_refused_iff_insufficient", refused == ((m.a[0] > f.a[0]) | (m.a[1] > f.a[1])));
    for(unsigned i = 0; i < 2; ++i) {
        const bool short_ = m.a[i] > f.a[i];
        vc::ensure("inventory.erase_from_never_negative", held(from, x[i]) <= f.a[i]);
        vc::ensure("inventory.erase_from_removes_exactly", refused | (held(from, x[i]) == f.a[i] - m.a[i]));
        vc::ensure("inventory.erase_from_leaves_short_holding", !short_ | (held(from, x[i]) == f.a[i]));
    }
}
VC_HARNESS(A01, infungible)
{
    vc_bounded("up to three items");
    std::shared_ptr<painting> x[3] = {thing<painting>(1), thing<painting>(2), thing<painting>(3)};
    paintings p; bool in[3];
    for(unsigned i = 0; i < 3; ++i) { in[i] = vc::pick("held already", 0, 1); if(in[i]) p.items.insert(x[i]); }
    const unsigned k = (unsigned)vc::pick("item", 0, 2);
    const bool add = vc::pick("add", 0, 1);
    const auto handle = vc::pick("other handle", 0, 1) ? thing<painting>(k + 1) : x[k];
    if(add) p.insert(handle); else p.erase(handle);
    for(unsigned i = 0; i < 3; ++i) vc::ensure("inventory.infungible_exactly_that_item", p.items.count(x[i]) == (i == k ? add : in[i]));
    // into an owner's inventory: each exactly once, never twice
    law::property_map<quantity> m; bool there[3], clash = false;
    for(unsigned i = 0; i < 3; ++i) { there[i] = vc::pick("there", 0, 1); if(there[i]) { m.insert({x[i], quantity(1)}); clash |= p.items.count(x[i]) == 1; } }
    const bool refused = vc::throws<duplicate_infungible>([&] { p.insert_into(m); });
    vc::ensure("inventory.duplicate_infungible_refused", refused == clash);
    for(unsigned i = 0; i < 3; ++i) {
        vc::ensure("inventory.infungible_never_more_than_one", held(m, x[i]) <= 1);
        vc::ensure("inventory.infungible_arrives_once", refused | (held(m, x[i]) == ((there[i] | (p.items.count(x[i]) == 1)) ? 1u : 0u)));
    }
}
// ---------------------------------------------------------------- owners
namespace {
    struct keeper : public virtual law::owner<grain>, public virtual law::owner<painting>, public identifiable_as<keeper>
    {
        explicit keeper(const identity<keeper> &i) : agent(i), law::owner<law::property>(i), law::owner<grain>(i), law::owner<painting>(i) {}
        std::string describe() const override { return "keeper"; }
    };
    std::shared_ptr<keeper> owner_number(std::uint64_t i) { return std::make_shared<keeper>(identity<keeper>({i})); }
    std::shared_ptr<interaction::transfer> hand_over(const keeper &from, const keeper &to, const inventory_filter<law::property> &what)
    {
        auto m = std::make_shared<interaction::transfer>(from, to, from, to, what);
        m->received = 0;
        return m;
    }
    void receive(keeper &k, std::shared_ptr<interaction::transfer> m)
    {
        std::seed_seq seed{1};
        k.inbox.insert({0, m});
        k.process_messages({0, 10}, seed);
        k.inbox.clear();
    }
}
VC_HARNESS(A01, take)
{
    vc_bounded("two kinds of item, two deliveries");
    auto k = owner_number(1);
    std::shared_ptr<grain> x[2] = {thing<grain>(1), thing<grain>(2)};
    std::uint64_t a[2] = {0, 0};
    for(unsigned i = 0; i < 2; ++i) {
        const unsigned j = (unsigned)vc::pick("item", 0, 1); const quantity q = some("taken");
        k->law::owner<grain>::take(x[j], q); a[j] += q.amount;
    }
    for(unsigned i = 0; i < 2; ++i) vc::ensure("owner.take_adds_exactly", (held(k->inventory, x[i]) == a[i]) & (held(k->law::owner<grain>::properties, x[i]) == a[i]));
}
VC_HARNESS(A01, transfer)
{
    vc_bounded("two owners, two kinds of fungible item and one non-fungible");
    auto from = owner_number(1), to = vc::pick("to itself", 0, 1) ? from : owner_number(2);
    std::shared_ptr<grain> x[2] = {thing<grain>(1), thing<grain>(2)}; auto p = thing<painting>(3);
    std::uint64_t f[2], t[2] = {0, 0}, m[2];
    inventory_filter<law::property> what; bool enough = true;
    for(unsigned i = 0; i < 2; ++i) {
        const quantity q = some("held by the giver"); f[i] = q.amount; from->law::owner<grain>::take(x[i], q);
        if(to != from) { const quantity r = some("held by the receiver"); t[i] = r.amount; to->law::owner<grain>::take(x[i], r); }
        const quantity s = some("transferred"); m[i] = s.amount; what.insert(x[i], s);
        enough &= m[i] <= f[i];
    }
    const bool art = vc::pick("painting too", 0, 1);
    if(art) { from->inventory.insert({p, quantity(1)}); from->law::owner<painting>::properties.insert(p); what.insert(p, quantity(1)); }
    auto letter = hand_over(*from, *to, what);
    const bool refused = vc::throws<insufficent_inventory>([&] { receive(*from, letter); });
    if(to == from) {
        vc::ensure("owner.transfer_to_itself_changes_nothing", !refused);
        for(unsigned i = 0; i < 2; ++i) vc::ensure("owner.transfer_to_itself_changes_nothing", (held(from->inventory, x[i]) == f[i]) & (held(from->law::owner<grain>::properties, x[i]) == f[i]));
        if(art) vc::ensure("owner.transfer_to_itself_changes_nothing", (held(from->inventory, p) == 1) & (from->law::owner<painting>::properties.items.count(p) == 1));
        return;
    }
    vc::ensure("owner.transfer_refused_iff_insufficient", refused == !enough);
    if(refused) return;
    receive(*to, letter);
    for(unsigned i = 0; i < 2; ++i) {
        vc::ensure("owner.transfer_takes_exactly", (held(from->inventory, x[i]) == f[i] - m[i]) & (held(from->law::owner<grain>::properties, x[i]) == f[i] - m[i]));
        vc::ensure("owner.transfer_gives_exactly", (held(to->inventory, x[i]) == t[i] + m[i]) & (held(to->law::owner<grain>::properties, x[i]) == t[i] + m[i]));
    }
    vc::ensure("owner.transfer_moves_infungible", (held(from->inventory, p) == 0) & (held(to->inventory, p) == art) & (from->law::owner<painting>::properties.items.count(p) == 0) & (to->law::owner<painting>::properties.items.count(p) == art));
}
