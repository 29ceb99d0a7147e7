#include "domain.hpp"
#include <map>
#include <queue>
#include <functional>
#include <esl/agent.hpp>
#include <esl/economics/currencies.hpp>
#include <esl/economics/markets/order_book/binary_tree_order_book.hpp>
using namespace esl;
using namespace esl::economics;
using namespace esl::economics::markets;
using namespace esl::economics::markets::order_book;
using vc::i128;

// The contract of one operation on an arbitrary book: the book holds n resting orders with arbitrary limits and
// quantities (n is the bound), so it stands for the book at any point of any history.
namespace {
    enum { MAX = 4 };
    struct resting { limit_order::side_t side; std::int64_t limit; std::uint32_t quantity; std::uint64_t id; unsigned owner; };
    struct world {
        binary_tree_order_book book;
        resting o[MAX + 2];
        unsigned n = 0;
    };
    iso_4217 the_currency() { return iso_4217({'U', 'S', 'D'}, 100); }
    limit_order make(limit_order::side_t s, std::int64_t p, std::uint32_t q, unsigned owner)
    {
        return limit_order(ticker(), identity<agent>({owner}), s, quote(price(p, the_currency())), q);
    }
    bool is_price(const quote &q, std::int64_t p)
    {
        const price &x = std::get<price>(q.type);
        return (x.value == p) & (q.lot == 1) & vcd::same(x.valuation, the_currency());
    }
    bool by(const execution_report &r, unsigned owner) { return r.owner == identity<agent>({owner}); }
    // buy at p may trade with sell at r, sell at p with buy at r
    bool compatible(limit_order::side_t s, std::int64_t p, std::int64_t r) { return vc_ite(s == limit_order::buy, p >= r, p <= r); }
    // resting order a comes before b: better price, or same price and earlier
    bool before(const resting &a, const resting &b)
    {
        const bool better = a.side == limit_order::buy ? a.limit > b.limit : a.limit < b.limit;
        return better | ((a.limit == b.limit) & (a.id < b.id));
    }
    void fill(world &w, unsigned n)
    {
        for(unsigned i = 0; i < n; ++i) {
            resting &r = w.o[i];
            r.side = vc::pick("resting side", 0, 1) ? limit_order::sell : limit_order::buy;
            r.limit = vc::any<std::int64_t>("resting limit"); r.quantity = vc::any<std::uint32_t>("resting quantity");
            r.id = i; r.owner = i;
            vc::requires_(r.quantity > 0);
            for(unsigned j = 0; j < i; ++j)
                if(w.o[j].side != r.side) vc::requires_(r.side == limit_order::buy ? r.limit < w.o[j].limit : r.limit > w.o[j].limit);
            w.book.insert(make(r.side, r.limit, r.quantity, r.owner));
        }
        w.n = n;
    }
    // what the book holds, seen through its public lists
    bool holds(const limit_order &x, const resting &r)
    {
        return (x.side == r.side) & (x.quantity == r.quantity) & is_price(x.limit, r.limit) & (x.owner == identity<agent>({r.owner}));
    }
    unsigned times_held(const world &w, const resting &r)
    {
        unsigned c = 0;
        for(const auto &[q, x] : w.book.orders_bid) if(x.first == r.id) c += (r.side == limit_order::buy && vc_branch(holds(x.second, r) & is_price(q, r.limit))) ? 1 : 100;
        for(const auto &[q, x] : w.book.orders_ask) if(x.first == r.id) c += (r.side == limit_order::sell && vc_branch(holds(x.second, r) & is_price(q, r.limit))) ? 1 : 100;
        return c;
    }
    bool listed(const world &w, std::uint64_t id)
    {
        unsigned c = 0;
        for(auto x : w.book.orders()) if(x == id) ++c;
        return c == 1;
    }
}
// ---------------------------------------------------------------- insert
struct outcome { std::uint32_t executed[MAX + 1]; std::uint32_t remainder; std::uint64_t placed; bool shape; bool prices; bool pairs; bool order; };
// reads the reports of one insertion; every match must name a resting order
static outcome read_reports(world &w, limit_order::side_t s, std::int64_t p, unsigned owner)
{
    outcome r{}; r.shape = r.prices = r.pairs = r.order = true;
    const auto &v = w.book.reports;
    std::size_t i = 0; int last = -1;
    for(; i + 1 < v.size() && v[i].state == execution_report::match; i += 2) {
        const bool first = v[i].identifier == basic_book::direct_order;
        const execution_report &in = v[first ? i : i + 1], &other = v[first ? i + 1 : i];
        const unsigned k = (unsigned)other.identifier;
        if(in.identifier != basic_book::direct_order || other.identifier >= w.n) { r.shape = false; continue; }
        r.shape &= (other.state == execution_report::match) & (in.state == execution_report::match) & (in.side == s) & (other.side == w.o[k].side) & (other.side != s) & by(in, owner) & by(other, w.o[k].owner);
        r.pairs &= (in.quantity == other.quantity) & (in.quantity > 0);
        r.prices &= is_price(in.limit, w.o[k].limit) & is_price(other.limit, w.o[k].limit);
        if(r.executed[k] != 0) r.order = false;
        if(last >= 0) r.order &= before(w.o[last], w.o[k]);
        last = (int)k;
        r.executed[k] = other.quantity;
    }
    if(i < v.size()) {
        const execution_report &x = v[i];
        r.shape &= (x.state == execution_report::placement) & (x.side == s) & is_price(x.limit, p) & by(x, owner) & (x.quantity > 0);
        r.remainder = x.quantity; r.placed = x.identifier; ++i;
    }
    r.shape &= i == v.size();
    return r;
}
static bool uncrossed(const world &w)
{
    const auto b = w.book.bid(), a = w.book.ask();
    return !b.has_value() || !a.has_value() || *b < *a;
}
static void best_quotes(const world &w)
{
    const auto b = w.book.bid(), a = w.book.ask();
    bool any_b = false, any_a = false, ok_b = true, ok_a = true, attained_b = false, attained_a = false;
    for(unsigned i = 0; i < w.n; ++i) {
        const resting &r = w.o[i];
        if(!r.quantity) continue;
        if(r.side == limit_order::buy) { any_b = true; if(b) { const auto x = std::get<price>(b->type).value; ok_b &= x >= r.limit; attained_b |= x == r.limit; } }
        else { any_a = true; if(a) { const auto x = std::get<price>(a->type).value; ok_a &= x <= r.limit; attained_a |= x == r.limit; } }
    }
    vc::ensure("bid.present_iff_buy_orders_rest", b.has_value() == any_b);
    vc::ensure("ask.present_iff_sell_orders_rest", a.has_value() == any_a);
    vc::ensure("bid.highest_resting_limit", !b || (ok_b & attained_b));
    vc::ensure("ask.lowest_resting_limit", !a || (ok_a & attained_a));
}
enum { QUANTITY = 1, PRIORITY = 2 };
static void inserting(unsigned n, int what, int side = -1)
{
    world w; fill(w, n);
    if(what & QUANTITY) {
        vc::ensure("insert.uncrossing_orders_are_placed", w.book.reports.size() == n);
        for(unsigned i = 0; i < n; ++i) {
            const auto &r = w.book.reports[i];
            vc::ensure("insert.placement_reported", (r.state == execution_report::placement) & (r.quantity == w.o[i].quantity) & (r.identifier == w.o[i].id) & (r.side == w.o[i].side) & is_price(r.limit, w.o[i].limit) & by(r, w.o[i].owner));
        }
    }
    w.book.reports.clear();
    const auto s = (side >= 0 ? side : (int)vc::pick("side", 0, 1)) ? limit_order::sell : limit_order::buy;
    const auto p = vc::any<std::int64_t>("limit"); const auto q = vc::any<std::uint32_t>("quantity");
    w.book.insert(make(s, p, q, MAX));
    const outcome x = read_reports(w, s, p, MAX);
    vc::ensure("insert.reports_well_formed", x.shape);
    if(what & QUANTITY) {
        // no partial sum exceeds the ordered quantity, so the sum is exact
        std::uint32_t left = q; bool bounded = true, exact = true;
        for(unsigned i = 0; i < n; ++i) { exact &= x.executed[i] <= left; left -= x.executed[i]; bounded &= x.executed[i] <= w.o[i].quantity; }
        vc::ensure("insert.executed_plus_placed_equals_ordered", exact & (left == x.remainder));
        vc::ensure("insert.matches_come_in_equal_pairs", x.pairs);
        vc::ensure("insert.executes_no_more_than_resting", bounded);
    }
    if(what & PRIORITY) {
        bool limits = true, first = true;
        for(unsigned i = 0; i < n; ++i) {
            if(w.o[i].side == s) { limits &= x.executed[i] == 0; continue; }
            limits &= (x.executed[i] == 0) | compatible(s, p, w.o[i].limit);
            // an order is passed over only when everything before it is exhausted
            first &= (x.remainder == 0) | !compatible(s, p, w.o[i].limit) | (x.executed[i] == w.o[i].quantity);
            for(unsigned j = 0; j < n; ++j)
                if(j != i && w.o[j].side != s) first &= (x.executed[i] == 0) | !before(w.o[j], w.o[i]) | (x.executed[j] == w.o[j].quantity);
        }
        vc::ensure("insert.trades_within_limits", limits);
        vc::ensure("insert.trades_at_resting_price", x.prices);
        vc::ensure("insert.best_price_earliest_first", first & x.order);
    }
    for(unsigned i = 0; i < n; ++i) w.o[i].quantity -= x.executed[i];
    w.o[n] = {s, p, x.remainder, x.placed, MAX}; w.n = n + 1;
    if(what & PRIORITY) {
        vc::ensure("insert.book_never_crossed", uncrossed(w));
        best_quotes(w);
    }
    if(what & QUANTITY) {
        unsigned alive = 0;
        for(unsigned i = 0; i <= n; ++i) {
            const bool live = vc_branch(w.o[i].quantity != 0);
            if(!live && i == n) continue;      // nothing placed
            vc::ensure("insert.resting_quantity_reduced_exactly", times_held(w, w.o[i]) == (live ? 1u : 0u));
            if(live) ++alive;
        }
        vc::ensure("insert.nothing_else_in_the_book", w.book.orders_bid.size() + w.book.orders_ask.size() == alive);
    }
}
#define BOUND "books of up to three resting orders, unit lot; limits and quantities arbitrary"
#define INS(N, SIDE, ...) \
VC_HARNESS(B01, insert_##N##SIDE) { vc_bounded(BOUND); inserting(N, QUANTITY, ##__VA_ARGS__); } \
VC_HARNESS(B02, insert_##N##SIDE) { vc_bounded(BOUND); inserting(N, PRIORITY, ##__VA_ARGS__); }
INS(0, ) INS(1, ) INS(2, ) INS(3, _buy, 0) INS(3, _sell, 1)
// an order of nothing trades nothing; a book after any insertion takes the next one the same way
static void twice(unsigned n, int what)
{
    world w; fill(w, n);
    w.book.reports.clear();
    const auto p = vc::any<std::int64_t>("first limit"); const auto q = vc::any<std::uint32_t>("first quantity");
    const auto s = vc::pick("first side", 0, 1) ? limit_order::sell : limit_order::buy;
    w.book.insert(make(s, p, q, MAX));
    const outcome x = read_reports(w, s, p, MAX);
    for(unsigned i = 0; i < n; ++i) w.o[i].quantity -= x.executed[i];
    w.o[n] = {s, p, x.remainder, x.placed, MAX}; w.n = n + 1;
    // the state reached is again a book of the kind fill() makes: every resting order is listed once, with a positive quantity, in priority order
    std::uint64_t ids[MAX + 2]; unsigned c = 0; bool positive = true, sorted = true;
    const std::pair<const quote, std::pair<basic_book::order_identifier, limit_order>> *last = nullptr;
    for(const auto &e : w.book.orders_bid) { positive &= e.second.second.quantity > 0; if(last) { const auto a = std::get<price>(last->first.type).value, b = std::get<price>(e.first.type).value; sorted &= (a > b) | ((a == b) & (last->second.first < e.second.first)); } last = &e; ids[c++] = e.second.first; }
    last = nullptr;
    for(const auto &e : w.book.orders_ask) { positive &= e.second.second.quantity > 0; if(last) { const auto a = std::get<price>(last->first.type).value, b = std::get<price>(e.first.type).value; sorted &= (a < b) | ((a == b) & (last->second.first < e.second.first)); } last = &e; ids[c++] = e.second.first; }
    bool all = w.book.orders().size() == c;
    for(unsigned i = 0; i < c; ++i) all &= listed(w, ids[i]);
    if(what & QUANTITY) vc::ensure("insert.no_empty_order_rests", positive);
    if(what & PRIORITY) vc::ensure("insert.resting_orders_stay_in_priority_order", sorted);
    if(what & QUANTITY) vc::ensure("insert.orders_lists_what_rests", all);
}
VC_HARNESS(B01, state_after) { vc_bounded(BOUND); twice((unsigned)vc::pick("resting", 0, 2), QUANTITY); }
VC_HARNESS(B02, state_after) { vc_bounded(BOUND); twice((unsigned)vc::pick("resting", 0, 2), PRIORITY); }
// ---------------------------------------------------------------- cancel and orders
static void check_cancelled(world &w, unsigned k)
{
    const auto &v = w.book.reports;
    const resting &r = w.o[k];
    vc::ensure("cancel.reported_once", v.size() == 1);
    if(v.size() == 1) vc::ensure("cancel.report_names_the_order", (v[0].state == execution_report::cancel) & (v[0].identifier == r.id) & (v[0].quantity == r.quantity) & (v[0].side == r.side) & is_price(v[0].limit, r.limit) & by(v[0], r.owner));
}
static void only_live_orders(world &w, const char *a, const char *b, const char *c)
{
    unsigned alive = 0;
    for(unsigned i = 0; i < w.n; ++i) {
        const bool live = vc_branch(w.o[i].quantity != 0);
        alive += live;
        vc::ensure(a, times_held(w, w.o[i]) == (live ? 1u : 0u));
        vc::ensure(b, listed(w, w.o[i].id) == live);
    }
    vc::ensure(c, (w.book.orders().size() == alive) & (w.book.orders_bid.size() + w.book.orders_ask.size() == alive));
}
static void live(world &w) { only_live_orders(w, "cancel.removes_exactly_that_order", "orders.lists_exactly_the_active_orders", "cancel.nothing_else_in_the_book"); }
static void cancelling(unsigned n)
{
    world w; fill(w, n);
    w.book.reports.clear();
    const unsigned k = (unsigned)vc::pick("cancelled", 0, n - 1);
    w.book.cancel(w.o[k].id);
    check_cancelled(w, k);
    w.o[k].quantity = 0;
    live(w);
    best_quotes(w);
    // once more, and an identifier never given
    w.book.reports.clear();
    w.book.cancel(w.o[k].id);
    const auto unknown = vc::any<std::uint64_t>("unknown identifier");
    vc::requires_(unknown >= n);
    w.book.cancel(unknown);
    vc::ensure("cancel.unknown_changes_nothing", w.book.reports.empty());
    live(w);
    // a new order gets a fresh identifier
    const resting &r = w.o[k];
    w.book.insert(make(r.side, r.limit, 1, MAX));
    vc::ensure("insert.identifiers_not_reused", w.book.reports.size() == 1 && w.book.reports[0].state == execution_report::placement && w.book.reports[0].identifier >= n);
}
VC_HARNESS(B03, cancel_1) { vc_bounded(BOUND); cancelling(1); }
VC_HARNESS(B03, cancel_2) { vc_bounded(BOUND); cancelling(2); }
VC_HARNESS(B03, cancel_3) { vc_bounded(BOUND); cancelling(3); }
// matching in between: partially filled orders cancel their remainder, filled ones are gone
static void cancelling_after_match(unsigned n)
{
    world w; fill(w, n);
    w.book.reports.clear();
    const auto s = vc::pick("side", 0, 1) ? limit_order::sell : limit_order::buy;
    const auto p = vc::any<std::int64_t>("limit"); const auto q = vc::any<std::uint32_t>("quantity");
    w.book.insert(make(s, p, q, MAX));
    const outcome x = read_reports(w, s, p, MAX);
    for(unsigned i = 0; i < n; ++i) w.o[i].quantity -= x.executed[i];
    w.o[n] = {s, p, x.remainder, x.placed, MAX}; w.n = n + (x.placed >= n ? 1 : 0);
    live(w);
    w.book.reports.clear();
    const unsigned k = (unsigned)vc::pick("cancelled", 0, n);
    if(k >= w.n) return;
    const bool was_live = vc_branch(w.o[k].quantity != 0);
    w.book.cancel(w.o[k].id);
    if(was_live) check_cancelled(w, k); else vc::ensure("cancel.filled_changes_nothing", w.book.reports.empty());
    w.o[k].quantity = 0;
    live(w);
}
VC_HARNESS(B03, cancel_after_match_1) { vc_bounded(BOUND); cancelling_after_match(1); }
VC_HARNESS(B03, cancel_after_match_2) { vc_bounded(BOUND); cancelling_after_match(2); }
// ---------------------------------------------------------------- matching engine
#include <esl/economics/markets/order_book/matching_engine.hpp>
namespace {
    // a book that records what reaches it
    struct recording_book : public basic_book
    {
        std::vector<limit_order> inserted; std::vector<order_identifier> cancelled;
        std::optional<quote> bid() const override { return {}; }
        std::optional<quote> ask() const override { return {}; }
        void insert(const limit_order &o) override { inserted.push_back(o); }
        void cancel(order_identifier i) override { cancelled.push_back(i); }
        std::vector<order_identifier> orders() const override { return {}; }
        void display(std::uint64_t) const override {}
    };
    std::vector<std::shared_ptr<recording_book>> made;
}
static ticker symbol_of(std::uint64_t base, std::uint64_t with) { return ticker(identity<law::property>({base}), identity<law::property>({with})); }
static void routing(unsigned n)
{
    made.clear();
    matching_engine m([]() -> std::shared_ptr<basic_book> { made.push_back(std::make_shared<recording_book>()); return made.back(); });
    std::uint64_t b[4], c[4]; unsigned first[4];
    auto same = [&](unsigned i, unsigned j) { return vc_branch((b[i] == b[j]) & (c[i] == c[j])); };
    unsigned books = 0; unsigned book_of[4], reached[4] = {0, 0, 0, 0};
    for(unsigned i = 0; i < n; ++i) {
        b[i] = vc::any<std::uint64_t>("base"); c[i] = vc::any<std::uint64_t>("quoted in");
        first[i] = i;
        for(unsigned j = 0; j < i; ++j) if(first[i] == i && same(i, j)) first[i] = first[j];
        const auto o = limit_order(symbol_of(b[i], c[i]), identity<agent>({i}), limit_order::buy, quote(price(vc::any<std::int64_t>("limit"), the_currency())), vc::any<std::uint32_t>("quantity"));
        m.insert(o);
        if(first[i] == i) book_of[i] = books++; else book_of[i] = book_of[first[i]];
        vc::ensure("engine.one_book_per_instrument", (made.size() == books) & (m.books.size() == books));
        auto f = m.books.find(symbol_of(b[i], c[i]));
        vc::ensure("engine.book_kept_under_its_instrument", f != m.books.end() && f->second.get() == made[book_of[i]].get());
        ++reached[book_of[i]];
        for(unsigned k = 0; k < books; ++k) vc::ensure("engine.order_reaches_only_its_book", made[k]->inserted.size() == reached[k]);
        vc::ensure("engine.order_unchanged", made[book_of[i]]->inserted.back() == o);
    }
    b[n] = vc::any<std::uint64_t>("base"); c[n] = vc::any<std::uint64_t>("quoted in");
    const auto id = vc::any<std::uint64_t>("identifier");
    int target = -1;
    for(unsigned j = 0; j < n; ++j) if(target < 0 && same(n, j)) target = (int)book_of[j];
    m.cancel(symbol_of(b[n], c[n]), id);
    vc::ensure("engine.cancel_creates_nothing", (made.size() == books) & (m.books.size() == books));
    for(unsigned k = 0; k < books; ++k) {
        vc::ensure("engine.cancel_reaches_only_its_book", made[k]->cancelled.size() == ((int)k == target ? 1u : 0u));
        if((int)k == target) vc::ensure("engine.cancel_identifier_unchanged", made[k]->cancelled[0] == id);
        vc::ensure("engine.cancel_inserts_nothing", made[k]->inserted.size() == reached[k]);
    }
}
VC_HARNESS(B04, routing_1) { vc_bounded("up to three orders; instruments of single-digit identities"); routing((unsigned)vc::pick("orders", 0, 1)); }
VC_HARNESS(B04, routing_2) { vc_bounded("up to three orders; instruments of single-digit identities"); routing(2); }
VC_HARNESS(B04, routing_3) { vc_bounded("up to three orders; instruments of single-digit identities"); routing(3); }
// with its default factory the engine opens an order book
VC_HARNESS(B04, default_book)
{
    matching_engine m;
    m.insert(limit_order(symbol_of(1, 2), identity<agent>({0}), limit_order::buy, quote(price(vc::any<std::int64_t>("limit"), the_currency())), 5));
    vc::ensure("engine.default_book_takes_the_order", m.books.size() == 1 && m.books.begin()->second->orders().size() == 1);
}
// instruments are ordered strictly, by base and then by quote
VC_HARNESS(B04, instruments)
{
    const auto x = symbol_of(vc::any<std::uint64_t>("b"), vc::any<std::uint64_t>("q")), y = symbol_of(vc::any<std::uint64_t>("b2"), vc::any<std::uint64_t>("q2"));
    const bool eq = (x.base.digits[0] == y.base.digits[0]) & (x.quote.digits[0] == y.quote.digits[0]);
    vc::ensure("ticker.equal", ((x == y) == eq) & ((x != y) == !eq));
    vc::ensure("ticker.ordered", ((x < y) + (y < x) + eq) == 1);
    vc::ensure("ticker.order_relations", ((x > y) == (y < x)) & ((x <= y) == !(y < x)) & ((x >= y) == !(x < y)));
}
