#include "domain.hpp"
#include <esl/interaction/communicator.hpp>
#include <esl/interaction/message.hpp>
#include <esl/interaction/communicator.cpp>
using namespace esl::interaction;
using esl::simulation::time_point;
using esl::simulation::time_interval;

struct msg_a : public message<msg_a, 11> {};
struct msg_b : public message<msg_b, 12> {};
struct msg_c : public message<msg_c, 13> {};
struct test_communicator : public communicator
{
    explicit test_communicator(scheduling s = random) : communicator(s) {}
    void lock() { locked_ = true; }
    bool locked() const { return locked_; }
};
using callback_map = std::decay_t<decltype(std::declval<communicator>().callbacks())>;

// registrations observed through the public view: (priority, line) pairs of a message type, in iteration order
struct entry { int priority; std::size_t line; };
static std::vector<entry> view(const communicator &c, message_code code)
{
    std::vector<entry> r;
    auto i = c.callbacks().find(code);
    if(i == c.callbacks().end()) return r;
    for(const auto &[p, f] : i->second) r.push_back({p, f.line});
    return r;
}
template<class M> static std::function<time_point(std::shared_ptr<M>, time_interval, std::seed_seq &)> nop()
{
    return [](std::shared_ptr<M>, time_interval s, std::seed_seq &) { return s.upper; };
}
template<class M> static void add(communicator &c, int p, std::size_t line) { c.register_callback<M>(nop<M>(), (communicator::priority_t)p, "", "", "", line); }
static void add_any(communicator &c, unsigned t, int p, std::size_t line)
{
    if(t == 0) add<msg_a>(c, p, line); else if(t == 1) add<msg_b>(c, p, line); else add<msg_c>(c, p, line);
}
static message_code code_of(unsigned t) { return 11 + t; }

VC_HARNESS(S04, register_callback)
{
    vc_bounded("up to two callbacks registered before, over three message types, every priority");
    test_communicator c;
    const unsigned before = (unsigned)vc::pick("registered before", 0, 2);
    unsigned t[3]; int p[3];
    for(unsigned i = 0; i <= before; ++i) { t[i] = (unsigned)vc::pick("type", 0, 2); p[i] = (int)vc::any<std::int8_t>("priority"); }
    for(unsigned i = 0; i < before; ++i) add_any(c, t[i], p[i], 100 + i);
    std::vector<entry> old[3];
    for(unsigned m = 0; m < 3; ++m) old[m] = view(c, code_of(m));
    const bool locked = vc::pick("locked", 0, 1);
    const std::size_t types = c.callbacks().size();
    if(locked) c.lock();
    const bool threw = vc::throws<std::logic_error>([&] { add_any(c, t[before], p[before], 200); });
    vc::ensure("register_callback.refused_iff_locked", threw == locked);
    for(unsigned m = 0; m < 3; ++m) {
        const auto now = view(c, code_of(m));
        const bool here = !locked && m == t[before];
        vc::ensure("register_callback.adds_one", now.size() == old[m].size() + (here ? 1 : 0));
        bool sorted = true, kept = true; unsigned fresh = 0;
        for(std::size_t i = 0; i + 1 < now.size(); ++i) sorted &= now[i].priority <= now[i + 1].priority;
        std::size_t j = 0;
        for(std::size_t i = 0; i < now.size(); ++i) {
            if(now[i].line == 200) { ++fresh; sorted &= now[i].priority == p[before]; continue; }
            if(j >= old[m].size()) { kept = false; break; }
            kept &= (now[i].priority == old[m][j].priority) & (now[i].line == old[m][j].line); ++j;
        }
        vc::ensure("register_callback.others_unchanged", kept & (j == old[m].size()));
        vc::ensure("register_callback.priority_stored", sorted & (fresh == (here ? 1u : 0u)));
    }
    vc::ensure("register_callback.refused_leaves_no_trace", !locked | (c.callbacks().size() == types));
    vc::ensure("register_callback.lock_kept", c.locked() == locked);
}
VC_HARNESS(S04, starts_unlocked)
{
    test_communicator c, d(communicator::in_order);
    vc::ensure("communicator.starts_unlocked", !c.locked() & !d.locked());
    vc::ensure("communicator.starts_empty", c.callbacks().empty() & c.inbox.empty() & c.outbox.empty() & (c.schedule == communicator::random) & (d.schedule == communicator::in_order));
}

// ---------------------------------------------------------------- processing
namespace {
    struct call { const header *message; std::size_t line; time_point wanted; };
    std::vector<call> calls;
    time_interval the_step; std::seed_seq *the_seed; bool arguments_right, wakes;
    struct reg { unsigned type; int priority; std::size_t line; };
    std::vector<reg> regs;
}
template<class M> static void add_logged(communicator &c, int p, std::size_t line)
{
    c.register_callback<M>([line](std::shared_ptr<M> m, time_interval s, std::seed_seq &seed) -> time_point {
        time_point w = the_step.upper;
        if(wakes) { w = vc::any<time_point>("wake-up"); vc::requires_((the_step.lower <= w) & (w <= the_step.upper)); }
        arguments_right &= (s.lower == the_step.lower) & (s.upper == the_step.upper) & (&seed == the_seed);
        calls.push_back({m.get(), line, w});
        return w;
    }, (communicator::priority_t)p, "", "", "", line);
}
static void add_logged_any(communicator &c, unsigned t, int p, std::size_t line)
{
    if(t == 0) add_logged<msg_a>(c, p, line); else add_logged<msg_b>(c, p, line);
    regs.push_back({t, p, line});
}
static communicator::message_t make(unsigned t, time_point when)
{
    communicator::message_t m;
    if(t == 0) m = std::make_shared<msg_a>(); else if(t == 1) m = std::make_shared<msg_b>(); else m = std::make_shared<msg_c>();
    m->received = when;
    return m;
}
static void step_of_any_length()
{
    const time_point l = vc::any<time_point>("lower"), u = vc::any<time_point>("upper");
    vc::requires_(l <= u);
    the_step = time_interval(l, u); arguments_right = true; wakes = false; calls.clear(); regs.clear();
}
static std::size_t callbacks_of(unsigned t) { std::size_t r = 0; for(auto &x : regs) r += x.type == t; return r; }
static const reg &registration(std::size_t line) { for(auto &x : regs) if(x.line == line) return x; return regs[0]; }
// calls[from, from + number of callbacks) are the callbacks of message m of type t: each once, by descending priority
static bool handled(std::size_t from, const header *m, unsigned t)
{
    const std::size_t n = callbacks_of(t);
    if(from + n > calls.size()) return false;
    bool ok = true;
    for(std::size_t i = from; i < from + n; ++i) {
        ok &= (calls[i].message == m) & (registration(calls[i].line).type == t);
        for(std::size_t j = from; j < i; ++j) ok &= calls[j].line != calls[i].line;
        if(i > from) ok &= registration(calls[i - 1].line).priority >= registration(calls[i].line).priority;
    }
    return ok;
}
static time_point earliest() { time_point r = the_step.upper; for(auto &c : calls) r = vc_ite(c.wanted < r, c.wanted, r); return r; }

VC_HARNESS(S03, process_message)
{
    vc_bounded("up to three callbacks over two message types, every priority");
    step_of_any_length(); wakes = true;
    test_communicator c;
    const unsigned n = (unsigned)vc::pick("callbacks", 0, 3);
    for(unsigned i = 0; i < n; ++i) add_logged_any(c, (unsigned)vc::pick("type", 0, 1), (int)vc::any<std::int8_t>("priority"), i);
    const unsigned t = (unsigned)vc::pick("message type", 0, 2);
    const auto m = make(t, 0);
    std::seed_seq seed {1}; the_seed = &seed;
    const time_point r = c.process_message(m, the_step, seed);
    vc::ensure("process_message.all_and_only_its_callbacks", calls.size() == callbacks_of(t));
    vc::ensure("process_message.by_descending_priority", handled(0, m.get(), t));
    vc::ensure("process_message.callback_arguments", arguments_right);
    vc::ensure("process_message.earliest_wake_up", r == earliest());
}
// shape of the registrations: 0: type a; 1: types a and b; 2: type a twice and b.  types: how many message types occur
static void process(unsigned messages, communicator::scheduling schedule, unsigned shape, unsigned types, bool wake = false)
{
    step_of_any_length(); wakes = wake;
    test_communicator c(schedule);
    add_logged_any(c, 0, (int)vc::any<std::int8_t>("priority"), 0);
    if(shape != 0) add_logged_any(c, 1, (int)vc::any<std::int8_t>("priority"), 1);
    if(shape == 2) add_logged_any(c, 0, (int)vc::any<std::int8_t>("priority"), 2);
    communicator::message_t m[3]; unsigned t[3]; time_point when[3];
    for(unsigned i = 0; i < messages; ++i) {
        t[i] = (unsigned)vc::pick("message type", 0, types - 1); when[i] = vc::any<time_point>("delivery");
        m[i] = make(t[i], when[i]);
        c.inbox.insert({when[i], m[i]});
    }
    std::seed_seq seed {(unsigned)vc::pick("seed", 0, schedule == communicator::random ? 1 : 0)}; the_seed = &seed;
    const time_point r = c.process_messages(the_step, seed);
    vc::ensure("process_messages.callback_arguments", arguments_right);
    vc::ensure("process_messages.earliest_wake_up", r == earliest());
    // the calls are the callbacks of the due messages, message by message
    bool seen[3] = {false, false, false}, grouped = true, never_early = true, once = true, by_priority = true; int last = 1000;
    for(std::size_t k = 0; k < calls.size();) {
        unsigned i = 0;
        while(i < messages && m[i].get() != calls[k].message) ++i;
        if(i == messages) { grouped = false; break; }
        grouped &= handled(k, m[i].get(), t[i]); never_early &= when[i] <= the_step.lower; once &= !seen[i]; seen[i] = true;
        const int top = registration(calls[k].line).priority;
        by_priority &= top <= last; last = top;
        k += callbacks_of(t[i]) ? callbacks_of(t[i]) : 1;
    }
    vc::ensure("process_messages.each_message_as_a_whole", grouped);
    vc::ensure("process_messages.never_early", never_early);
    vc::ensure("process_messages.each_once", once);
    vc::ensure("process_messages.by_descending_priority", by_priority);
    for(unsigned i = 0; i < messages; ++i) {
        vc::ensure("process_messages.all_due_handled", seen[i] | (when[i] > the_step.lower) | (callbacks_of(t[i]) == 0));
        bool still = false;
        for(const auto &[k, x] : c.inbox) still |= (x.get() == m[i].get()) & (k == when[i]);
        vc::ensure("process_messages.later_messages_stay", still | (when[i] <= the_step.lower));
    }
}
static const char *const BOUND = "up to three messages of up to three types, up to three callbacks of every priority";
VC_HARNESS(S03, process_messages_none) { vc_bounded(BOUND); process(0, communicator::in_order, 2, 2); process(0, communicator::random, 0, 2); }
VC_HARNESS(S03, process_messages_in_order_1) { vc_bounded(BOUND); process(1, communicator::in_order, (unsigned)vc::pick("shape", 0, 2), 3); }
VC_HARNESS(S03, process_messages_random_1) { vc_bounded(BOUND); process(1, communicator::random, (unsigned)vc::pick("shape", 0, 2), 3); }
VC_HARNESS(S03, process_messages_in_order_2a) { vc_bounded(BOUND); process(2, communicator::in_order, 0, 3); }
VC_HARNESS(S03, process_messages_in_order_2b) { vc_bounded(BOUND); process(2, communicator::in_order, 1, 2); }
VC_HARNESS(S03, process_messages_in_order_2c) { vc_bounded(BOUND); process(2, communicator::in_order, 2, 2); }
VC_HARNESS(S03, process_messages_random_2a) { vc_bounded(BOUND); process(2, communicator::random, 0, 3); }
VC_HARNESS(S03, process_messages_random_2b) { vc_bounded(BOUND); process(2, communicator::random, 1, 2); }
VC_HARNESS(S03, process_messages_in_order_3) { vc_bounded(BOUND); process(3, communicator::in_order, 1, 2); }
VC_HARNESS(S03, process_messages_wake_up_in_order) { vc_bounded(BOUND); process(2, communicator::in_order, 1, 2, true); }
VC_HARNESS(S03, process_messages_wake_up_random) { vc_bounded(BOUND); process(2, communicator::random, 0, 1, true); }
