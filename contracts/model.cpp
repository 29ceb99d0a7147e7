#include "domain.hpp"
#include <thread>
#include <mutex>
#include <fstream>
#include <chrono>
#include <esl/agent.hpp>
#include <esl/simulation/model.hpp>
#include <esl/computation/environment.hpp>
#include <esl/interaction/message.hpp>
#include <esl/interaction/communicator.cpp>
#include <esl/simulation/world.cpp>
#include <esl/simulation/agent_collection.cpp>
#include <boost/serialization/export.hpp>
// type registration for serialization is left out: it only adds static registrars
#undef BOOST_CLASS_EXPORT
#define BOOST_CLASS_EXPORT(T)
#include <esl/agent.cpp>
#include <esl/computation/environment.cpp>
#include <esl/simulation/model.cpp>
using namespace esl;
using namespace esl::simulation;

static time_point earliest(const model &m, time_point limit)
{
    time_point r = limit;
    for(const auto &[i, t] : m.wake_up_times) { (void)i; r = vc_ite(t < r, t, r); }
    return r;
}
VC_HARNESS(S05, determine_next_event)
{
    vc_bounded("up to four agents");
    computation::environment e;
    const time_point end = vc::any<time_point>("end");
    model m(e, parameter::parametrization(0, 0, end));
    const unsigned n = (unsigned)vc::pick("agents", 0, 4);
    time_point t[4];
    for(unsigned i = 0; i < n; ++i) m.wake_up_times[identity<agent>({i})] = t[i] = vc::any<time_point>("wake-up");
    const time_point r = m.determine_next_event();
    vc::ensure("determine_next_event.earliest", r == earliest(m, end));
    vc::ensure("determine_next_event.changes_nothing", m.wake_up_times.size() == n);
}
// ---------------------------------------------------------------- step
namespace {
    struct acted { std::uint64_t who; time_point lower, upper, wanted; };
    std::vector<acted> acts;
    bool repeat_allowed;      // an agent may ask once per step to act again in the same step
}
struct test_agent : public agent
{
    using agent::agent;
    unsigned repeats = 0;
    time_point act(time_interval step, std::seed_seq &) override
    {
        const time_point w = vc::any<time_point>("wanted");
        if(vc_branch(w == step.lower)) { ++repeats; vc::requires_(repeat_allowed && repeats <= 1); }
        acts.push_back({identifier.digits[0], step.lower, step.upper, w});
        return w;
    }
};
static void reset() { acts.clear(); repeat_allowed = false; }
VC_HARNESS(S05, step_empty_interval)
{
    reset();
    computation::environment e;
    const time_point l = vc::any<time_point>("lower"), u = vc::any<time_point>("upper"), end = vc::any<time_point>("end");
    model m(e, parameter::parametrization(0, 0, end));
    m.create<test_agent>();
    vc::requires_(u <= l);
    const bool refused = vc::throws<esl::exception>([&] { m.step(time_interval(l, u)); });
    vc::ensure("step.empty_interval_refused", refused);
    vc::ensure("step.empty_interval_runs_nothing", acts.empty() & m.wake_up_times.empty());
}
static void stepping(unsigned n)
{
    reset();
    computation::environment e;
    const time_point l = vc::any<time_point>("lower"), u = vc::any<time_point>("upper"), end = vc::any<time_point>("end");
    vc::requires_((l < u) & (u <= end));
    model m(e, parameter::parametrization(0, 0, end));
    for(unsigned i = 0; i < n; ++i) m.create<test_agent>();
    // agents may have been awake before: any pending wake-up, or none
    const unsigned pending = (unsigned)vc::pick("pending", 0, n ? 1 : 0);
    time_point before = 0;
    if(pending) m.wake_up_times[identity<agent>({0})] = before = vc::any<time_point>("pending wake-up");
    bool refused = false; time_point r = 0;
    repeat_allowed = n == 1;
    try { r = m.step(time_interval(l, u)); } catch(const std::logic_error &) { refused = true; }
    bool past = false;
    for(auto &a : acts) past |= a.wanted < l;
    vc::ensure("step.wake_up_in_the_past_refused", refused == past);
    bool args = true;
    for(auto &a : acts) args &= (a.lower == l) & (a.upper == u);
    vc::ensure("step.agents_see_the_step", args);
    if(refused) return;
    vc::ensure("step.moves_forward", r > l);
    vc::ensure("step.never_passes_the_end", r <= u);
    vc::ensure("step.next_event_is_earliest", r == earliest(m, u));
    for(unsigned i = 0; i < n; ++i) {
        time_point last = i == 0 ? before : 0; bool ran = false;
        for(auto &a : acts) if(a.who == i) { last = vc_ite(a.wanted < u, a.wanted, u); ran = true; }
        const bool due = i != 0 || !pending || before <= l;
        vc::ensure("step.due_agents_act", ran == due);
        vc::ensure("step.wake_up_recorded", m.wake_up_times[identity<agent>({i})] == last);
    }
}
VC_HARNESS(S05, step_no_agents) { vc_bounded("up to two agents, each acting at most twice"); stepping(0); }
VC_HARNESS(S05, step_one_agent) { vc_bounded("up to two agents, each acting at most twice"); stepping(1); }
VC_HARNESS(S05, step_two_agents) { vc_bounded("up to two agents, each acting at most twice"); stepping(2); }
VC_HARNESS(S05, step_threads)
{
    vc_bounded("three agents on two or three threads, one schedule");
    reset();
    computation::environment e;
    const time_point l = vc::any<time_point>("lower"), u = vc::any<time_point>("upper");
    vc::requires_(l < u);
    model m(e, parameter::parametrization(0, 0, u, 0, (unsigned)vc::pick("threads", 2, 3)));
    for(unsigned i = 0; i < 3; ++i) m.create<test_agent>();
    if(!vc_symbolic()) m.threads = 1;
    bool refused = false; time_point r = 0;
    try { r = m.step(time_interval(l, u)); } catch(const std::logic_error &) { refused = true; }
    bool past = false;
    for(auto &a : acts) past |= a.wanted < l;
    vc::ensure("step.threads_wake_up_in_the_past_refused", refused == past);
    if(refused) return;
    vc::ensure("step.threads_next_event_is_earliest", (r == earliest(m, u)) & (r > l));
    unsigned ran[3] = {0, 0, 0};
    for(auto &a : acts) ++ran[a.who];
    vc::ensure("step.threads_every_agent_acts_once", (ran[0] == 1) & (ran[1] == 1) & (ran[2] == 1));
}

// ---------------------------------------------------------------- message delivery
struct letter : public interaction::message<letter, 21> {};
static unsigned copies(const agent &a, const interaction::header *h, time_point t)
{
    unsigned r = 0;
    for(const auto &[k, x] : a.inbox) if(x.get() == h) r += vc_branch(k == t) ? 1 : 100;
    return r;
}
static void delivery(unsigned agents, unsigned messages)
{
    reset();
    computation::environment e;
    model m(e, parameter::parametrization(0, 0, 1000));
    std::shared_ptr<agent> a[3];
    for(unsigned i = 0; i < agents; ++i) a[i] = m.create<test_agent>();
    time_point before[3]; bool had[3];
    for(unsigned i = 0; i < agents; ++i) {
        had[i] = i == 0 ? vc::pick("has a wake-up", 0, 1) : i & 1;
        before[i] = had[i] ? vc::any<time_point>("wake-up") : 0;
        if(had[i]) m.wake_up_times[a[i]->identifier] = before[i];
    }
    std::shared_ptr<letter> x[3]; unsigned to[3]; time_point when[3]; bool unknown = false;
    for(unsigned k = 0; k < messages; ++k) {
        const unsigned from = (unsigned)vc::pick("from", 0, agents - 1);
        to[k] = (unsigned)vc::pick("to", 0, agents); when[k] = vc::any<time_point>("delivery");
        unknown |= to[k] == agents;
        x[k] = a[from]->create_message<letter>(identity<agent>({to[k]}), when[k]);
        vc::ensure("create_message.queued", (a[from]->outbox.back().get() == x[k].get()) & (x[k]->received == when[k]) & (x[k]->recipient == identity<agent>({to[k]})));
    }
    bool refused = false; std::size_t n = 0;
    try { n = e.send_messages(m); } catch(const esl::exception &) { refused = true; }
    vc::ensure("send_messages.unknown_recipient_refused", refused == unknown);
    if(refused) return;
    vc::ensure("send_messages.count", n == messages);
    for(unsigned k = 0; k < messages; ++k)
        for(unsigned i = 0; i < agents; ++i)
            vc::ensure("send_messages.exactly_once_to_its_recipient", copies(*a[i], x[k].get(), when[k]) == (i == to[k] ? 1u : 0u));
    for(unsigned i = 0; i < agents; ++i) {
        vc::ensure("send_messages.outbox_emptied", a[i]->outbox.empty());
        unsigned got = 0; time_point w = before[i]; bool any = had[i];
        for(unsigned k = 0; k < messages; ++k) if(to[k] == i) { ++got; w = any ? vc_ite(when[k] < w, when[k], w) : when[k]; any = true; }
        vc::ensure("send_messages.nothing_else_delivered", a[i]->inbox.size() == got);
        auto q = m.wake_up_times.find(a[i]->identifier);
        vc::ensure("send_messages.wake_up", (q == m.wake_up_times.end()) ? !any : any && q->second == w);
    }
    vc::ensure("send_messages.second_time_nothing", e.send_messages(m) == 0);
}
VC_HARNESS(S06, send_messages_1) { vc_bounded("up to three agents, up to three messages"); delivery((unsigned)vc::pick("agents", 1, 3), (unsigned)vc::pick("messages", 0, 1)); }
VC_HARNESS(S06, send_messages_2) { vc_bounded("up to three agents, up to three messages"); delivery((unsigned)vc::pick("agents", 1, 3), 2); }
VC_HARNESS(S06, send_messages_3) { vc_bounded("up to three agents, up to three messages"); delivery((unsigned)vc::pick("agents", 1, 2), 3); }

// ---------------------------------------------------------------- the agent registry
struct listening_agent : public agent
{
    explicit listening_agent(const identity<listening_agent> &i) : agent(identity<agent>(i.digits)) {}
    bool refuses()
    {
        return vc::throws<std::logic_error>([&] { register_callback<letter>([](std::shared_ptr<letter>, time_interval s, std::seed_seq &) { return s.upper; }); });
    }
};
struct counting_environment : public computation::environment
{
    std::size_t waiting() const { return activated_.size(); }
    std::size_t leaving() const { return deactivated_.size(); }
};
VC_HARNESS(S08, create)
{
    vc_bounded("up to three agents");
    reset();
    counting_environment e;
    model m(e, parameter::parametrization(0, 0, 100));
    const unsigned n = (unsigned)vc::pick("agents", 1, 3);
    std::shared_ptr<listening_agent> a[3];
    for(unsigned i = 0; i < n; ++i) {
        a[i] = m.create<listening_agent>();
        vc::ensure("create.identity", a[i]->identifier.digits == std::vector<std::uint64_t>({i}));
        vc::ensure("create.callbacks_locked", a[i]->refuses() & a[i]->callbacks().empty());
        vc::ensure("create.registered", (m.agents.local_agents_.size() == i + 1) & (m.agents.global_agents_.size() == i + 1));
    }
    for(unsigned i = 0; i < n; ++i) {
        vc::ensure("create.found_by_identity", m.agents[a[i]->identifier].get() == a[i].get());
        vc::ensure("create.known_globally", m.agents.global_agents_.count(a[i]->identifier) == 1);
    }
    vc::ensure("create.activation_queued", e.waiting() == n);
}
VC_HARNESS(S08, create_from_parent)
{
    reset();
    computation::environment e;
    model m(e, parameter::parametrization(0, 0, 100));
    auto p = m.create<listening_agent>();
    auto c = m.create<listening_agent>(*static_cast<agent *>(p.get()));
    vc::ensure("create.child_identity", c->identifier.digits == std::vector<std::uint64_t>({0, 0}));
    vc::ensure("create.child_registered", (m.agents[c->identifier].get() == c.get()) & (m.agents[p->identifier].get() == p.get()));
    const auto i = m.create_identifier<listening_agent>();
    vc::ensure("create_identifier.next_identity", i.digits == std::vector<std::uint64_t>({1}));
    vc::ensure("create_identifier.registers_nothing", m.agents.local_agents_.size() == 2);
}
VC_HARNESS(S08, lookup_unknown)
{
    vc_bounded("up to two agents");
    reset();
    computation::environment e;
    model m(e, parameter::parametrization(0, 0, 100));
    const unsigned n = (unsigned)vc::pick("agents", 0, 2);
    for(unsigned i = 0; i < n; ++i) m.create<listening_agent>();
    const auto d = vc::any<std::uint64_t>("digit");
    vc::requires_(d >= n);
    std::shared_ptr<agent> r;
    try { r = m.agents[identity<agent>({d})]; } catch(const std::exception &) {}
    vc::ensure("lookup.unknown_is_nobody", !r);
    vc::ensure("lookup.unknown_changes_nothing", (m.agents.local_agents_.size() == n) & (m.agents.global_agents_.size() == n));
    vc::ensure("lookup.simulation_goes_on", e.send_messages(m) == 0);
}
VC_HARNESS(S08, deactivate)
{
    vc_bounded("up to three agents");
    reset();
    counting_environment e;
    model m(e, parameter::parametrization(0, 0, 100));
    const unsigned n = (unsigned)vc::pick("agents", 1, 3);
    std::shared_ptr<listening_agent> a[3];
    for(unsigned i = 0; i < n; ++i) a[i] = m.create<listening_agent>();
    const unsigned k = (unsigned)vc::pick("deactivated", 0, n - 1);
    m.agents.deactivate(a[k]);
    vc::ensure("deactivate.one_fewer", (m.agents.local_agents_.size() == n - 1) & (m.agents.global_agents_.size() == n - 1));
    for(unsigned i = 0; i < n; ++i)
        vc::ensure("deactivate.removes_exactly_it", (m.agents.local_agents_.count(a[i]->identifier) == (i != k)) & (m.agents.global_agents_.count(a[i]->identifier) == (i != k)));
    m.agents.deactivate(a[k]);
    vc::ensure("deactivate.again_changes_nothing", m.agents.local_agents_.size() == n - 1);
}
VC_HARNESS(S08, queues)
{
    vc_bounded("up to three agents");
    reset();
    counting_environment e;
    model m(e, parameter::parametrization(0, 0, 100));
    const unsigned n = (unsigned)vc::pick("agents", 0, 3), k = (unsigned)vc::pick("deactivated", 0, n);
    std::shared_ptr<listening_agent> a[3];
    for(unsigned i = 0; i < n; ++i) a[i] = m.create<listening_agent>();
    for(unsigned i = 0; i < k; ++i) m.agents.deactivate(a[i]);
    vc::ensure("queues.filled", (e.waiting() == n) & (e.leaving() == k));
    vc::ensure("activate.each_once", e.activate() == n);
    vc::ensure("deactivate.each_once", e.deactivate() == k);
    vc::ensure("queues.emptied", (e.waiting() == 0) & (e.leaving() == 0));
    vc::ensure("queues.nothing_left", (e.activate() == 0) & (e.deactivate() == 0));
}
// an agent that has left does not hold the simulation back
VC_HARNESS(S05, step_after_deactivation)
{
    vc_bounded("two agents, one of which has left");
    reset();
    computation::environment e;
    const time_point l = vc::any<time_point>("lower"), u = vc::any<time_point>("upper"), w = vc::any<time_point>("pending wake-up");
    vc::requires_(l < u);
    model m(e, parameter::parametrization(0, 0, u));
    auto a = m.create<test_agent>(), b = m.create<test_agent>();
    m.wake_up_times[a->identifier] = w;
    m.agents.deactivate(a);
    bool refused = false; time_point r = 0;
    try { r = m.step(time_interval(l, u)); } catch(const std::logic_error &) { refused = true; }
    vc::ensure("step.left_agent_does_not_act", (acts.size() == 1) && (acts[0].who == 1));
    if(refused) return;
    vc::ensure("step.left_agent_does_not_hold_back", (r > l) & (r <= u) & (r == vc_ite(acts[0].wanted < u, acts[0].wanted, u)));
}

// ---------------------------------------------------------------- running a model from start to end
namespace {
    struct stepped { time_point lower, upper, next; unsigned initialised, terminated; };
    struct run_model : public model
    {
        std::vector<stepped> steps;
        unsigned initialised = 0, terminated = 0, most;
        using model::model;
        void initialize() override { ++initialised; }
        void terminate() override { ++terminated; }
        using model::step;
        // a model may be stepped in any way that moves forward and stays within the step
        time_point step(time_interval i) override
        {
            vc::requires_(steps.size() < most);
            const time_point next = vc::any<time_point>("next event");
            vc::requires_((i.lower < next) & (next <= i.upper));
            steps.push_back({i.lower, i.upper, next, initialised, terminated});
            return time = next;
        }
    };
}
VC_HARNESS(S09, run)
{
    vc_bounded("models that reach their end in up to three steps"); vc_any_floats();
    computation::environment e;
    const time_point s = vc::any<time_point>("start"), u = vc::any<time_point>("end");
    vc::requires_(s < u);
    run_model m(e, parameter::parametrization(0, s, u));
    m.most = 3;
    vc_merge(1); e.run(m); vc_merge(0);
    vc::ensure("run.initialises_once", m.initialised == 1);
    vc::ensure("run.terminates_once", m.terminated == 1);
    bool within = true, chained = true, during = true;
    time_point at = s;
    for(auto &x : m.steps) { chained &= x.lower == at; within &= x.upper == u; during &= (x.initialised == 1) & (x.terminated == 0); at = x.next; }
    vc::ensure("run.first_step_begins_at_the_start", !m.steps.empty() && m.steps[0].lower == s);
    vc::ensure("run.steps_begin_where_the_last_ended", chained);
    vc::ensure("run.steps_end_at_the_end", within);
    vc::ensure("run.steps_between_initialising_and_terminating", during);
    vc::ensure("run.reaches_the_end", at == u);
}
VC_HARNESS(S09, environment_step)
{
    vc_bounded("up to three steps");
    computation::environment e;
    const time_point s = vc::any<time_point>("start"), u = vc::any<time_point>("end");
    vc::requires_(s <= u);
    run_model m(e, parameter::parametrization(0, s, u));
    m.most = 3;
    vc::ensure("model.begins_at_its_start", (m.time == s) & (m.start == s) & (m.end == u));
    time_point at = s;
    for(unsigned i = 0; i < 3; ++i) {
        const std::size_t before = m.steps.size();
        const bool more = vc_branch(at < u);
        e.step(m);
        vc::ensure("environment_step.one_step_until_the_end", m.steps.size() == before + (more ? 1 : 0));
        if(more) {
            vc::ensure("environment_step.begins_at_the_current_time", m.steps.back().lower == at);
            vc::ensure("environment_step.up_to_the_end", m.steps.back().upper == u);
            at = m.steps.back().next;
        }
        vc::ensure("environment_step.time_is_the_next_event", m.time == at);
    }
}
VC_HARNESS(S09, model_step_updates_time)
{
    vc_bounded("up to two agents, each acting once");
    reset();
    computation::environment e;
    const time_point s = vc::any<time_point>("start"), u = vc::any<time_point>("end");
    vc::requires_(s < u);
    model m(e, parameter::parametrization(0, s, u));
    const unsigned n = (unsigned)vc::pick("agents", 0, 2);
    for(unsigned i = 0; i < n; ++i) m.create<test_agent>();
    bool refused = false; time_point r = 0;
    try { r = m.step(); } catch(const std::logic_error &) { refused = true; }
    bool args = true;
    for(auto &a : acts) args &= (a.lower == s) & (a.upper == u);
    vc::ensure("model_step.from_the_current_time_to_the_end", args & (refused | (acts.size() == n)));
    vc::ensure("model_step.time_is_the_next_event", m.time == vc_ite(refused, s, r));
}
VC_HARNESS(S09, queues_processed)
{
    vc_bounded("up to two agents created, up to two steps"); vc_any_floats();
    counting_environment e;
    run_model m(e, parameter::parametrization(0, 0, 10));
    m.most = 2;
    const unsigned n = (unsigned)vc::pick("agents", 0, 2), k = (unsigned)vc::pick("deactivated", 0, n);
    std::shared_ptr<listening_agent> a[2];
    for(unsigned i = 0; i < n; ++i) a[i] = m.create<listening_agent>();
    for(unsigned i = 0; i < k; ++i) m.agents.deactivate(a[i]);
    vc_merge(1); if(vc::pick("run", 0, 1)) e.run(m); else e.step(m); vc_merge(0);
    vc::ensure("run.queues_emptied", (e.waiting() == 0) & (e.leaving() == 0));
}

// ---------------------------------------------------------------- random seeds
namespace {
    struct drawn { std::uint64_t who; time_point lower; std::uint32_t words[8]; std::size_t size; };
    std::vector<drawn> seeds;
    unsigned extra_rounds;       // how many times the first agent asks to act again at the same time
}
struct seeded_agent : public agent
{
    using agent::agent;
    unsigned rounds = 0;
    time_point act(time_interval step, std::seed_seq &seed) override
    {
        drawn d{identifier.digits[0], step.lower, {0, 0, 0, 0, 0, 0, 0, 0}, seed.size()};
        vc::requires_(d.size <= 8);
        seed.param(d.words);
        seeds.push_back(d);
        if(identifier.digits[0] == 0 && rounds < extra_rounds) { ++rounds; return step.lower; }
        rounds = 0;
        return step.upper;
    }
};
static bool alike(const drawn &a, const drawn &b)
{
    bool r = a.size == b.size;
    for(unsigned i = 0; i < 8; ++i) r &= a.words[i] == b.words[i];
    return r;
}
// the seeds agent 0 gets in a step from l to u, after a history, among other agents
static std::vector<drawn> seeds_in(std::uint64_t sample, time_point l, time_point u, unsigned others, unsigned earlier, unsigned threads, unsigned rounds)
{
    computation::environment e;
    model m(e, parameter::parametrization(sample, 0, u, 0, vc_symbolic() ? threads : 1));
    for(unsigned i = 0; i < 1 + others; ++i) m.create<seeded_agent>();
    extra_rounds = earlier > 1 ? 1 : 0;
    if(earlier) m.step(time_interval(0, l));
    extra_rounds = rounds;
    seeds.clear();
    m.step(time_interval(l, u));
    std::vector<drawn> r;
    for(auto &d : seeds) if(d.who == 0) r.push_back(d);
    return r;
}
VC_HARNESS(S10, reproducible)
{
    vc_bounded("up to two other agents, one or two threads, up to one earlier step, up to two rounds");
    const time_point l = vc::any<time_point>("time"), u = vc::any<time_point>("end"), u2 = vc::any<time_point>("other end");
    const auto sample = vc::any<std::uint64_t>("sample");
    vc::requires_((l > 0) & (l < u) & (l < u2));
    const unsigned rounds = (unsigned)vc::pick("rounds", 0, 1);
    const auto a = seeds_in(sample, l, u, 0, 0, 1, rounds);
    const unsigned others = (unsigned)vc::pick("other agents", 0, 2), earlier = (unsigned)vc::pick("earlier rounds", 0, 2), threads = (unsigned)vc::pick("threads", 1, 2);
    const auto b = seeds_in(sample, l, u2, others, earlier, threads, rounds);
    vc::ensure("seed.agents_act_as_before", (a.size() == rounds + 1) & (b.size() == rounds + 1));
    for(unsigned i = 0; i <= rounds; ++i)
        vc::ensure("seed.depends_on_agent_time_round_and_sample_only", alike(a[i], b[i]));
}
VC_HARNESS(S10, different)
{
    vc_bounded("one agent, up to two rounds; times and samples below 2^32");
    const time_point l = vc_any_bits("time", 32), l2 = vc_any_bits("other time", 32), u = (time_point)1 << 40;
    const std::uint64_t s = vc_any_bits("sample", 32), s2 = vc_any_bits("other sample", 32);
    const auto a = seeds_in(s, l, u, 0, 0, 1, 1), b = seeds_in(s2, l2, u, 0, 0, 1, 1);
    vc::ensure("seed.differs_between_times_and_samples", ((l == l2) & (s == s2)) | !alike(a[0], b[0]));
    vc::ensure("seed.differs_between_rounds", !alike(a[0], a[1]));
    vc::ensure("seed.differs_between_rounds_times_and_samples", ((l == l2) & (s == s2)) | !alike(a[1], b[1]));
}
VC_HARNESS(S10, agents_apart)
{
    vc_bounded("three agents and their children");
    const time_point l = vc::any<time_point>("time"), u = vc::any<time_point>("end");
    vc::requires_(l < u);
    computation::environment e;
    model m(e, parameter::parametrization(vc::any<std::uint64_t>("sample"), 0, u));
    for(unsigned i = 0; i < 3; ++i) { auto p = m.create<seeded_agent>(); m.create<seeded_agent>(*static_cast<agent *>(p.get())); }
    extra_rounds = 0; seeds.clear();
    m.step(time_interval(l, u));
    vc::ensure("seed.every_agent_gets_one", seeds.size() == 6);
    for(std::size_t i = 0; i < seeds.size(); ++i)
        for(std::size_t k = 0; k < i; ++k)
            vc::ensure("seed.differs_between_agents", !alike(seeds[i], seeds[k]));
}
