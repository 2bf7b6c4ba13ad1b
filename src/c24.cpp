// C24: memory use is exact. Every program is run twice; during the second run the number of live allocations must
// return to its start value. The sanitizer builds watch every access, the valgrind build every use of a value.
#include "workload.h"
using namespace h;
using namespace tomsolver;
const char *PROP = "C24";
uint64_t totalCases(bool th) { return th ? 40000 : 2400; }
void setupCheck(Ctx &) {}
struct Module { const char *name; uint64_t (*total)(bool); void (*run)(h::Ctx &); };
std::vector<Module> modules_a();
std::vector<Module> modules_b();
std::vector<Module> modules_c();
static FILE *sink() { static FILE *f = fopen("/dev/null", "w"); return f; }
struct NullBuf : std::streambuf {
    int overflow(int ch) override { return ch == EOF ? 0 : ch; }
    std::streamsize xsputn(const char *, std::streamsize n) override { return n; }
};
struct Logged { // the logging code runs as well, its output goes nowhere
    NullBuf nb;
    std::streambuf *old = nullptr;
    explicit Logged(bool on) { if (on) { old = std::cout.rdbuf(&nb); Config::Get().logLevel = LogLevel::TRACE; } }
    ~Logged() { if (old) std::cout.rdbuf(old); }
};
static void program(uint64_t seed, int steps, bool thorough) {
    CfgGuard g;
    Rng r(seed);
    randomSolveConfig(r);
    Config::Get().maxIterations = std::min(Config::Get().maxIterations, 12);
    Logged l(r.chance(1, 5));
    Work w(seed);
    (void)thorough;
    w.run(steps);
}
// one case of the workload of another check, judged here for memory only
static void foreign(const Module &m, uint64_t seed, uint64_t idx) {
    Ctx s;
    s.out = sink();
    s.seed = seed;
    s.idx = idx;
    s.rng = Rng(mix(seed, idx));
    CfgGuard g;
    try { m.run(s); } catch (const std::exception &) {}
}
// what is kept for later must not depend on what was worked on: after a warm-up, programs never seen before (with names,
// numbers and texts never seen before) must leave nothing behind either
static void unseen(Ctx &c, uint64_t seed, int k) {
    Rng r(mix(seed, k));
    auto name = [&] { std::string s = fmt("n%llx_", (unsigned long long)r.next()); s.resize(r.chance(1, 4) ? s.size() + r.range(1, 60) : r.range(2, (int)s.size()), 'q'); return s; };
    std::vector<std::string> v{name(), name(), name()};
    std::sort(v.begin(), v.end());
    v.erase(std::unique(v.begin(), v.end()), v.end());
    while (v.size() < 2) v.push_back("w" + v[0]);
    std::string a = v[0], b = v.back();
    double q = r.uniform(1, 1e6);
    auto quiet = [](const std::function<void()> &f) { try { f(); } catch (const std::exception &) {} };
    quiet([&] {
        Node n = Parse(a + "*" + tomsolver::ToString(q) + "^2-sin(" + b + ")/" + tomsolver::ToString(q + 1));
        Node d = Diff(n, a), e = Diff(n, b, 2);
        Simplify(d); Simplify(e);
        std::string s = n->ToString() + d->ToString() + e->ToString();
        Subs(n, std::map<std::string, double>{{a, q}, {b, 1 / q}})->Vpa();
        Subs(std::move(n), VarsTable{{a, q}, {b, q}})->Calc();
    });
    quiet([&] { Parse(a + " " + b + "+" + a); });
    quiet([&] { Parse("(" + a + "+" + tomsolver::ToString(q)); });
    quiet([&] { Parse("1" + a); });
    quiet([&] { Var(a + "-" + b); });
    quiet([&] { VarsTable t{{a, q}, {b, 2}}; std::string s = t.ToString(); t.SetValues(Vec{q, 3}); t[name()]; });
    quiet([&] { SymVec f{Var(a) - Num(q), Var(b) * Num(q) - Num(2)}; Solve(f).ToString(); SymMat j = Jacobian(f, v); std::string s = j.ToString() + f.ToString(); });
    quiet([&] { (Num(q) / Num(0))->Vpa(); });
    quiet([&] { int n = r.range(1, 5); Mat m(n, n, q); std::string s = m.ToString(); for (int i = 0; i < n; ++i) m.Value(i, i) += r.uniform(1, 9) * q; m.Inverse(); SolveLinear(m, Vec(n, q)); });
}
static void growth(Ctx &c) {
#ifndef NO_NEW_OVERRIDE
    Rng &r = c.rng;
    uint64_t seed = r.next();
    const int warm = 12, runs = 40;
    bool own = r.chance(1, 3);
    std::string what = fmt("%d %s never run before, seed %llu", runs, own ? "programs" : "small programs with fresh names", (unsigned long long)seed);
    c.describe(what);
    c.sample(what);
    std::string keep = c.caseText;
    auto once = [&](int k) { if (own) program(mix(seed, k), 3, false); else unseen(c, seed, k); };
    for (int k = 0; k < warm; ++k) once(k);
    int grew = 0;
    int64_t total = 0;
    for (int k = warm; k < warm + runs; ++k) {
        int64_t b0 = liveBytes;
        once(k);
        int64_t g = liveBytes - b0;
        if (g > 0) { ++grew; total += g; }
        c.eval();
    }
    c.describe(what);
    c.event("fresh-programs", runs);
    if (grew) c.event("fresh-programs-with-late-initialisation", grew);
    c.nontrivial(seed);
    // what is initialised late is initialised once; a quarter of the programs leaving something behind is growth
    if (grew > (own ? runs / 2 : 5)) c.fail("growth", fmt("%d of %d programs left memory behind, %lld bytes in all", grew, runs, (long long)total));
    c.caseText = keep;
#endif
}
void runCase(Ctx &c) {
    if (c.idx % 40 == 7) growth(c);
    static const std::vector<Module> mods = [] { auto v = modules_a(); for (auto &m : modules_b()) v.push_back(m); for (auto &m : modules_c()) v.push_back(m); return v; }();
    Rng &r = c.rng;
    bool own = r.chance(1, 2);
    const Module &m = mods[r.below(mods.size())];
    uint64_t seed = r.next(), idx = r.below(m.total(false));
    int steps = r.range(2, 10);
    std::string what = own ? fmt("program %llu of %d steps", (unsigned long long)seed, steps) : fmt("case %llu of the workload of %s, seed %llu", (unsigned long long)idx, m.name, (unsigned long long)seed);
    auto once = [&] { if (own) program(seed, steps, c.thorough); else foreign(m, seed, idx); };
    c.describe(what);
    c.sample(what);
    once(); // initialises whatever is initialised once
    c.describe(what);
    std::string keep = c.caseText;
    int reps = r.chance(1, 8) ? 5 : 1;
    int64_t l0 = liveCount, b0 = liveBytes;
    uint64_t a0 = allocCount;
    for (int i = 0; i < reps; ++i) once();
    int64_t l1 = liveCount, b1 = liveBytes;
    uint64_t a1 = allocCount;
    c.eval();
    c.event("allocations-watched", a1 - a0);
    c.event(own ? "programs" : m.name);
    c.nontrivial(mix(seed, idx));
#ifndef NO_NEW_OVERRIDE
    if (a1 == a0) c.event("programs-without-allocation");
    if (l1 != l0 || b1 != b0) {
        // a second measurement separates a leak from something initialised late
        l0 = liveCount; b0 = liveBytes;
        once();
        l1 = liveCount; b1 = liveBytes;
        if (l1 != l0 || b1 != b0) {
            // which step leaks?
            std::string detail;
            if (own) {
                CfgGuard g;
                Rng q(seed);
                randomSolveConfig(q);
                Config::Get().maxIterations = std::min(Config::Get().maxIterations, 12);
                Work w(seed);
                std::vector<std::pair<const char *, int64_t>> marks;
                marks.reserve(1000);
                w.lines.reserve(1000);
                w.onStep = [&](const char *s) { marks.push_back({s, liveCount}); };
                w.run(steps);
                for (size_t i = 0; i + 1 < marks.size(); ++i) detail += fmt(" %s:%lld", marks[i].first, (long long)(marks[i + 1].second - marks[i].second));
            }
            c.describe(what);
            c.fail("leak", fmt("%lld allocations (%lld bytes) more are alive after the program than before it", (long long)(l1 - l0), (long long)(b1 - b0)) + detail);
        }
        c.event("late-initialisations");
    }
#endif
    c.caseText = keep;
}
#include "common_impl.h"
