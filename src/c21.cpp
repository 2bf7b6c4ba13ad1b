// C21: threads working on separate expressions neither race (ThreadSanitizer) nor disturb each other (results
// compared with a single-threaded run).  The threads run first, so that whatever is initialised on first use is
// initialised concurrently; every shard is a process of its own.
#include "workload.h"
#include <sched.h>
#include <thread>
using namespace h;
using namespace tomsolver;
const char *PROP = "C21";
uint64_t totalCases(bool th) { return th ? 2000 : 160; }
void setupCheck(Ctx &) {}
namespace {
struct Barrier {
    std::atomic<int> n;
    explicit Barrier(int k) : n(k) {}
    void wait() { n.fetch_sub(1); while (n.load() > 0) sched_yield(); }
};
// objects that all threads read through const operations
struct SharedObjects {
    std::vector<A> asts;
    std::vector<Node> nodes;
    std::vector<Node> numeric;
    SymVec eqs{1};
    VarsTable table{std::map<std::string, double>{{"x", 1}}};
    SymMat sm{1, 1};
    Mat mat{1, 1};
    Vec vec{1};
    Env env;
    std::map<std::string, Node> dict;
};
void build(SharedObjects &s, Rng &r) {
    GenOpt o;
    o.ops = allOps();
    o.vars = {"x", "y", "z"};
    o.numProfile = NP_MODERATE;
    for (int i = 0; i < 4; ++i) { o.size = r.range(3, 40); A a = genAst(r, o); s.asts.push_back(a); s.nodes.push_back(toNode(a)); }
    GenOpt q = o;
    q.vars.clear();
    for (int i = 0; i < 3; ++i) { q.size = r.range(3, 20); s.numeric.push_back(toNode(genAst(r, q))); }
    for (auto v : {"x", "y", "z"}) s.env[v] = r.uniform(0.3, 2);
    Problem p = genProblem(r, r.chance(1, 2) ? 0 : 2, 3);
    s.eqs = libEqs(p, r);
    s.table = VarsTable(p.start);
    int n = r.range(2, 4);
    s.sm = SymMat(n, n);
    s.mat = Mat(n, n, 0);
    s.vec = Vec(n);
    for (int i = 0; i < n; ++i) { s.vec[i] = r.range(-4, 4); for (int j = 0; j < n; ++j) { o.size = r.range(1, 6); s.sm.Value(i, j) = toNode(genAst(r, o)); s.mat.Value(i, j) = r.range(-4, 4) + (i == j ? 9 : 0); } }
    s.dict["x"] = Var("y") + Num(1);
    s.dict["y"] = Var("x") * Num(2);
}
std::string readShared(const SharedObjects &s, int k, uint64_t sel) {
    Rng r(sel);
    const Node &n = s.nodes[r.below(s.nodes.size())], &m = s.nodes[r.below(s.nodes.size())], &q = s.numeric[r.below(s.numeric.size())];
    try {
        switch (k) {
        case 0: return n->ToString();
        case 1: { Node c = Clone(n); return c->ToString() + fmt("%d", c->Equal(n)); }
        case 2: return fmt("%d%d", n->Equal(m), m->Equal(n));
        case 3: { std::string t; for (auto &v : n->GetAllVarNames()) t += v; return t; }
        case 4: return num17(q->Vpa());
        case 5: return Subs(n, s.env)->ToString();
        case 6: return Subs(n, s.dict)->ToString();
        case 7: return Diff(n, "x")->ToString();
        case 8: { n->CheckParent(); Node t = n + m; t = t * n; t = sin(t) ^ q; return t->ToString(); }
        case 9: return Work::text(Solve(s.eqs, s.table));
        case 10: return Work::text(SolveByLM(s.eqs, s.table));
        case 11: return Work::text(s.table) + fmt("%d", s.table == s.table);
        case 12: return s.sm.ToString() + (s.sm * s.sm).ToString() + fmt("%d", s.sm == s.sm);
        case 13: return Work::text(s.sm.Clone().Subs(s.env).Calc().ToMat());
        case 14: return Work::text(s.mat * s.mat) + num17(Det(s.mat, s.mat.Rows())) + Work::text(s.mat.Inverse()) + Work::text(s.mat.Transpose()) + s.mat.ToString();
        case 15: return Work::text(SolveLinear(s.mat, s.vec)) + s.vec.ToString();
        case 16: return Jacobian(s.sm, {"x", "y"}).ToString();
        default: { Node t = Clone(n); Simplify(t); t += m; return t->ToString(); }
        }
    } catch (const std::exception &e) { return Work::errorText(e); }
}
constexpr int KINDS = 18;
struct ThreadPlan { uint64_t seed; int steps; };
std::vector<std::string> job(const ThreadPlan &p, const SharedObjects *s, bool delays, std::atomic<int> *running, std::atomic<int> *maxRunning) {
    Work w(p.seed);
    Rng r(p.seed ^ 0x5555);
    Rng pause(p.seed * 31 + 7);
    if (delays) w.between = [&] {
        int k = (int)pause.below(6);
        if (k == 0) sched_yield();
        else if (k == 1) usleep((useconds_t)pause.below(60));
    };
    for (int i = 0; i < p.steps; ++i) {
        if (running) { int v = running->fetch_add(1, std::memory_order_relaxed) + 1, m = maxRunning->load(std::memory_order_relaxed); while (v > m && !maxRunning->compare_exchange_weak(m, v, std::memory_order_relaxed)) {} }
        if (s && r.chance(1, 2)) { if (w.between) w.between(); int k = (int)r.below(KINDS); uint64_t sel = r.next(); w.lines.push_back(fmt("shared-%d: ", k) + readShared(*s, k, sel)); }
        else w.one();
        if (running) running->fetch_sub(1, std::memory_order_relaxed);
    }
    return w.lines;
}
} // namespace
void runCase(Ctx &c) {
    Rng &r = c.rng;
    CfgGuard g;
    auto &cfg = Config::Get();
    if (r.chance(1, 3)) cfg.nonlinearMethod = NonlinearMethod::LM;
    cfg.maxIterations = 12;
    cfg.throwOnInvalidValue = r.chance(2, 3);
    cfg.allowIndeterminateEquation = r.chance(1, 3);
    int nt = r.range(3, 8);
    std::vector<ThreadPlan> plan(nt);
    bool sameWork = r.chance(1, 3); // all threads do the same thing at the same time
    uint64_t base = r.next();
    int steps = r.range(6, 16);
    for (int i = 0; i < nt; ++i) plan[i] = {sameWork ? base : base + i, steps};
    std::unique_ptr<SharedObjects> sh;
    bool useShared = c.idx >= 4 && r.chance(2, 3); // the first cases touch nothing before the threads start
    if (useShared) { sh.reset(new SharedObjects); build(*sh, r); }
    c.describe(fmt("%d threads, %d steps each, %s work, %s objects, seed %llu", nt, steps, sameWork ? "the same" : "different", useShared ? "shared" : "no shared", (unsigned long long)base));
    c.sample(c.caseText);
    std::vector<std::vector<std::string>> got(nt);
    std::atomic<int> running{0}, maxRunning{0};
    Barrier b(nt);
    std::vector<std::thread> t;
    bool delays = r.chance(1, 2);
    for (int i = 0; i < nt; ++i) t.emplace_back([&, i] { b.wait(); got[i] = job(plan[i], sh.get(), delays, &running, &maxRunning); });
    for (auto &x : t) x.join();
    if (cfg.maxIterations != 12 || cfg.epsilon != 1e-9 || cfg.logLevel != LogLevel::WARN) c.fail("configuration", "the configuration changed");
    for (int i = 0; i < nt; ++i) {
        auto want = job(plan[i], sh.get(), false, nullptr, nullptr);
        c.event("steps", want.size());
        c.eval(want.size());
        if (want.size() != got[i].size()) c.fail("results", "another number of results");
        for (size_t k = 0; k < want.size(); ++k) {
            c.nontrivial(hashStr(want[k]));
            if (want[k] != got[i][k]) c.fail("results", fmt("thread %d step %d: ", i, (int)k) + got[i][k].substr(0, 500) + " ; single-threaded: " + want[k].substr(0, 500));
        }
    }
    c.event(useShared ? "cases-with-shared-objects" : "cases-without-shared-objects");
    c.event(fmt("cases-with-%d-threads-inside-at-once", maxRunning.load()).c_str());
}
#include "common_impl.h"
