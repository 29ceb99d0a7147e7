// Native interpretation of the specification primitives: replays a counterexample against the compiled real code,
// or searches inputs for one.  Exit codes: 0 contract held, 1 contract violated (inputs printed), 3 precondition false.
#include <vc.hpp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <chrono>
#include <exception>
#include <random>
#include <string>
#include <vector>
#include <unistd.h>
namespace {
    struct entry { const char *p, *n; void (*f)(); };
    std::vector<entry> &table() { static std::vector<entry> t; return t; }
    struct used { char name[48]; char kind; std::uint64_t v; };
    std::vector<used> trail; std::vector<std::uint64_t> given; std::size_t pos = 0; bool searching = false;
    std::mt19937_64 rng; std::string current; unsigned long long ran = 0, kept = 0;
    std::vector<std::uint64_t> pool;
    struct discard {};
    void dump(const char *what)
    {
        std::printf("FAILED %s in %s\n", what, current.c_str());
        for(auto &u : trail) std::printf("VALUE %s %c %llu\n", u.name, u.kind, (unsigned long long)u.v);
        std::fflush(stdout);
        _exit(1);
    }
    void on_signal(int s) { char b[64]; std::snprintf(b, sizeof b, "safe.signal_%d", s); dump(b); }
    void on_terminate() { dump("safe.no_unexpected_exception"); }
    std::uint64_t mask(unsigned b) { return b >= 64 ? ~0ull : ((1ull << b) - 1); }
    std::uint64_t gen(unsigned bits)
    {
        std::uint64_t v;
        switch(rng() % 10) {
        case 0: case 1: case 2: v = rng() % 6; break;
        case 3: v = 0ull - (rng() % 6); break;
        case 4: v = (1ull << (rng() % 64)) + (rng() % 3) - 1; break;
        case 5: v = rng() >> (rng() % 64); break;
        case 6: case 7: if(!pool.empty()) { v = pool[rng() % pool.size()] + (rng() % 3) - 1; break; } [[fallthrough]];
        case 8: v = rng() % 200; break;
        default: v = rng(); break;
        }
        v &= mask(bits);
        pool.push_back(v);
        return v;
    }
    std::uint64_t next(const char *n, char kind, unsigned bits, std::uint64_t g)
    {
        std::uint64_t v;
        if(searching) v = g;
        else v = (pos < given.size()) ? given[pos] : 0;
        ++pos;
        used u; std::snprintf(u.name, sizeof u.name, "%s", n); u.kind = kind; u.v = v & mask(bits);
        for(char *c = u.name; *c; ++c) if(*c == ' ') *c = '_';
        trail.push_back(u);
        return u.v;
    }
}
vc::reg::reg(const char *p, const char *n, void (*f)()) { table().push_back({p, n, f}); }
extern "C" {
    std::uint64_t vc_any_bits(const char *n, std::uint32_t bits) { return next(n, 'i', bits, searching ? gen(bits) : 0); }
    void vc_any_floats() {}
    void vc_unbounded() {}
    void vc_text() {}
    void vc_invariant(const char *n, bool c) { vc_ensure(n, c); }
    std::uint64_t vc_havoc_bits(const char *n, std::uint32_t bits) { return 0; }
    std::uint64_t vc_range(const char *n, std::uint64_t lo, std::uint64_t hi)
    {
        std::uint64_t g = 0;
        if(searching) { auto w = hi - lo; g = (w == ~0ull) ? rng() : lo + ((rng() % 4 == 0 && w > 8) ? ((rng() & 1) ? rng() % 3 : w - rng() % 3) : rng() % (w + 1)); }
        auto v = next(n, 'i', 64, g);
        if(v < lo || v > hi) throw discard();
        return v;
    }
    std::uint64_t vc_pick(const char *n, std::uint64_t lo, std::uint64_t hi) { return vc_range(n, lo, hi); }
    double vc_any_double(const char *n)
    {
        double d = 0;
        if(searching) switch(rng() % 6) {
            case 0: d = double(rng() % 100); break;
            case 1: d = double((long long)rng()) / 1e9; break;
            case 2: d = double(rng() % 100000) / 100.; break;
            case 3: d = -double(rng() % 100000) / 100.; break;
            case 4: d = 0.; break;
            default: { std::uint64_t b = rng(); std::memcpy(&d, &b, 8); } }
        std::uint64_t b; std::memcpy(&b, &d, 8);
        b = next(n, 'd', 64, b);
        std::memcpy(&d, &b, 8);
        return d;
    }
    void vc_assume(bool c) { if(!c) throw discard(); }
    void vc_ensure(const char *n, bool c) { if(!c) dump(n); }
    void vc_cover(const char *) {}
    bool vc_symbolic() { return false; }
    void vc_merge(std::uint32_t) {}
    void vc_bounded(const char *) {}
    bool vc_branch(bool b) { return b; }
    void vc_trace(const char *, std::uint64_t) {}
    std::uint64_t vc_ite(bool c, std::uint64_t a, std::uint64_t b) { return c ? a : b; }
    std::uint64_t vc_concretize(std::uint64_t v) { return v; }
    void vc_stub(void *, void *, std::uint32_t) {}
    std::uint64_t vc_uf(const char *, std::uint64_t, std::uint64_t) { return 0; }
    void __assert_fail(const char *e, const char *, unsigned, const char *) noexcept { std::fprintf(stderr, "assertion %s\n", e); dump("safe.assertion"); std::abort(); }
}
static int run(const entry &e)
{
    trail.clear(); pos = 0; pool.clear();
    try { e.f(); }
    catch(const discard &) { return 3; }
    catch(const std::exception &x) { std::fprintf(stderr, "exception %s\n", x.what()); dump("safe.no_unexpected_exception"); }
    catch(...) { dump("safe.no_unexpected_exception"); }
    return 0;
}
int main(int argc, char **argv)
{
    // vc replay <P__N> v...   |  vc search <P__N> seed seconds [max runs]
    if(argc < 3) { for(auto &e : table()) std::printf("%s__%s\n", e.p, e.n); return 0; }
    for(int s : {SIGSEGV, SIGFPE, SIGABRT, SIGILL, SIGBUS}) std::signal(s, on_signal);
    std::set_terminate(on_terminate);
    std::freopen("/dev/null", "w", stderr);
    for(auto &e : table()) {
        current = std::string(e.p) + "__" + e.n;
        if(current != argv[2]) continue;
        if(!std::strcmp(argv[1], "replay")) {
            for(int i = 3; i < argc; ++i) given.push_back(std::strtoull(argv[i], nullptr, 10));
            return run(e);
        }
        searching = true;
        rng.seed(std::strtoull(argv[3], nullptr, 10));
        double limit = std::atof(argv[4]); unsigned long long maxruns = argc > 5 ? std::strtoull(argv[5], nullptr, 10) : ~0ull;
        auto t0 = std::chrono::steady_clock::now();
        alarm(unsigned(limit * 3 + 30));
        while(ran < maxruns) {
            ++ran; if(0 == run(e)) ++kept;
            if((ran & 63) == 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > limit) break;
        }
        std::printf("SEARCHED %llu %llu\n", ran, kept);
        return 0;
    }
    std::printf("no such harness\n");
    return 2;
}
