// C29: every configuration setting acts on what it documents and on nothing else, and no operation changes a setting.
#include "workload.h"
using namespace h;
using namespace tomsolver;
const char *PROP = "C29";
uint64_t totalCases(bool th) { return th ? 9000 : 500; }
void setupCheck(Ctx &) {}
enum S { THROW, EPS, MAXIT, IV, METHOD, ALLOW, LOG, NS };
static const char *const sName[] = {"throwOnInvalidValue", "epsilon", "maxIterations", "initialValue", "nonlinearMethod", "allowIndeterminateEquation", "logLevel"};
struct Cfg { bool thr; double eps; int maxIt; double iv; int method; bool allow; int log; };
static bool sameBits(double a, double b) { return bitsOf(a) == bitsOf(b); }
static void apply(const Cfg &s) {
    auto &c = Config::Get();
    c.throwOnInvalidValue = s.thr;
    c.epsilon = s.eps;
    c.maxIterations = s.maxIt;
    c.initialValue = s.iv;
    c.nonlinearMethod = (NonlinearMethod)s.method;
    c.allowIndeterminateEquation = s.allow;
    c.logLevel = (LogLevel)s.log;
}
static bool inForce(const Cfg &s) {
    auto &c = Config::Get();
    return c.throwOnInvalidValue == s.thr && sameBits(c.epsilon, s.eps) && c.maxIterations == s.maxIt && sameBits(c.initialValue, s.iv) && (int)c.nonlinearMethod == s.method && c.allowIndeterminateEquation == s.allow && (int)c.logLevel == s.log;
}
static std::string show(const Cfg &s) { return fmt("{throw %d epsilon %g maxIterations %d initialValue %g method %d allow %d log %d}", s.thr, s.eps, s.maxIt, s.iv, s.method, s.allow, s.log); }
static Cfg genCfg(Rng &r) {
    Cfg s{r.chance(2, 3), r.chance(1, 2) ? 1e-9 : std::pow(10.0, r.range(-11, -3)), r.chance(1, 2) ? 60 : r.range(0, 14), r.chance(1, 2) ? 1 : r.uniform(-2, 2), (int)r.below(2), r.chance(1, 2), (int)r.below(4)};
    return s;
}
static Cfg changed(Rng &r, Cfg s, int what) {
    static const double odd[] = {0, 1e-300, 1e-15, 1e-12, 1e-6, 0.01, 0.5, 3, 1e300, INFINITY, NAN, -1};
    switch (what) {
    case THROW: s.thr = !s.thr; break;
    case EPS: { double e; do e = odd[r.below(12)]; while (sameBits(e, s.eps)); s.eps = e; break; }
    case MAXIT: { static const int v[] = {-1, 0, 1, 2, 5, 17, 61, 80}; int m; do m = v[r.below(8)]; while (m == s.maxIt); s.maxIt = m; break; }
    case IV: s.iv = r.chance(1, 2) ? odd[r.below(12)] : r.uniform(-50, 50); break;
    case METHOD: s.method = r.chance(1, 6) ? 7 : !s.method; break;
    case ALLOW: s.allow = !s.allow; break;
    default: s.log = r.chance(2, 3) ? (int)r.below(4) : r.range(4, 7); break;
    }
    return s;
}
static std::set<std::string> folding() { return {"simplify", "invalid-simplify", "diff", "diff-value", "undefined-derivative", "jacobian", "half-jacobian", "large-expression", "chain", "long-symbolic-vector"}; }
// the settings an operation documents to depend on
static const std::map<std::string, unsigned> &dependencies() {
    static std::map<std::string, unsigned> m;
    if (!m.empty()) return m;
    unsigned th = 1u << THROW, eps = 1u << EPS, solver = th | eps | 1u << MAXIT | 1u << ALLOW;
    for (auto n : {"solve", "half-solve", "large-system", "failing-solve", "no-root", "missing-variable"}) m[n] = solver | 1u << METHOD;
    m["solve-initial"] = solver | 1u << METHOD | 1u << IV;
    for (auto n : {"solve-lm", "failing-lm"}) m[n] = solver;
    for (auto n : {"linear", "degenerate-linear", "singular-linear", "large-linear"}) m[n] = eps | 1u << ALLOW;
    for (auto n : {"singular-inverse", "inverse", "matrix-3", "vector-2", "long-matrix", "long-vectors", "many-names", "table"}) m[n] = eps;
    for (auto n : {"half-bound", "half-bound-calc", "invalid-inside", "invalid-inside-calc", "matrix-calc", "evaluate", "calc", "diff-value", "subs", "symbolic-matrix", "integer-operators", "unbound", "unbound-calc", "large-expression", "chain"}) m[n] = th;
    m["long-symbolic-vector"] = th;
    // differentiation and simplification fold constants: switched off, they also fold to invalid values
    for (auto n : folding()) m[n] = th;
    for (auto n : {"half-solve", "failing-solve"}) m[n] |= th;
    return m;
}
static std::string nameOf(const std::string &line) { return line.substr(0, line.find(':')); }
static std::string resultOf(const std::string &line) { size_t p = line.find(": "); return p == std::string::npos ? "" : line.substr(p + 2); }
static bool startsWith(const std::string &s, const std::string &p) { return !s.compare(0, p.size(), p); }
static bool isError(const std::string &res) { return startsWith(res, "MathError") || startsWith(res, "runtime_error") || startsWith(res, "out_of_range") || res.find("ParseError ") != std::string::npos; }
static std::string invalidPrefix() { return fmt("MathError %d ", (int)ErrorType::ERROR_INVALID_NUMBER); }

static std::vector<std::string> work(Ctx &c, uint64_t seed, int n, const Cfg &s) {
    apply(s);
    Work w(seed);
    std::string last = "(start)";
    bool told = false;
    w.onStep = [&](const char *what) {
        c.eval();
        if (!inForce(s) && !told) { told = true; c.fail("setting changed", last + " changed the configuration " + show(s)); apply(s); }
        last = what;
    };
    if (s.log >= (int)LogLevel::INFO) {
        Capture cap;
        w.run(n);
        cap.stop();
    } else w.run(n);
    if (!inForce(s) && !told) c.fail("setting changed", last + " changed the configuration " + show(s));
    return w.lines;
}
static void compare(Ctx &c, const Cfg &a, const std::vector<std::string> &la, const Cfg &b, const std::vector<std::string> &lb, unsigned what, const std::string &name) {
    auto &dep = dependencies();
    if (la.size() != lb.size()) { c.fail("steps", "changing " + name + " changes the number of results"); return; }
    for (size_t i = 0; i < la.size(); ++i) {
        std::string n = nameOf(la[i]), x = resultOf(la[i]), y = resultOf(lb[i]);
        auto it = dep.find(n);
        unsigned d = it == dep.end() ? 0 : it->second;
        c.eval();
        if (!(d & what)) {
            c.event(("independent of " + name).c_str());
            if (la[i] != lb[i]) c.fail(name, "the result of [" + n + "] depends on " + name + ": under " + show(a) + " " + x.substr(0, 300) + " ; under " + show(b) + " " + y.substr(0, 300));
            continue;
        }
        const std::string *strict = nullptr, *loose = nullptr; // results under the stricter and the looser setting
        if (what == 1u << THROW) {
            if (folding().count(n)) continue;
            strict = a.thr ? &x : &y; loose = a.thr ? &y : &x;
            c.event("not throwing on invalid values");
            if (startsWith(*loose, invalidPrefix())) c.fail("throwOnInvalidValue", "[" + n + "] reports an invalid value although that is switched off: " + loose->substr(0, 300));
            if (startsWith(*strict, invalidPrefix())) { c.event("invalid values reported"); continue; }
        } else if (what == 1u << MAXIT) {
            strict = a.maxIt < b.maxIt ? &x : &y; loose = a.maxIt < b.maxIt ? &y : &x;
            if (isError(*strict)) continue;
            c.event("more iterations allowed");
        } else if (what == 1u << ALLOW) {
            strict = a.allow ? &y : &x; loose = a.allow ? &x : &y;
            if (isError(*strict)) continue;
            c.event("indeterminate systems allowed");
        } else continue;
        if (*strict != *loose) c.fail(name + " relaxed", "[" + n + "] succeeds, but relaxing " + name + " changes the result: under " + show(a) + " " + x.substr(0, 300) + " ; under " + show(b) + " " + y.substr(0, 300));
    }
}
// each setting does what its documentation says, at once and only while it is set
static void effects(Ctx &c) {
    Rng &r = c.rng;
    CfgGuard g;
    auto &cfg = Config::Get();
    c.describe("effects of the settings");
    // initialValue: the start of every variable when no table is given
    double v = r.uniform(-40, 40);
    cfg.initialValue = v;
    cfg.maxIterations = 5;
    VarsTable t = Solve(SymVec{Var("b") - Var("b") * Num(1) , Var("a") * Num(0)});
    c.eval(2);
    if (!sameBits(t["a"], v) || !sameBits(t["b"], v)) c.fail("initialValue effect", "equations satisfied by every value return " + t.ToString() + " for the initial value " + num17(v));
    VarsTable own{{"a", r.uniform(-9, 9)}, {"b", 3}};
    VarsTable u = Solve(SymVec{Var("b") - Var("b"), Var("a") * Num(0)}, own);
    if (!sameBits(u["a"], own["a"]) || u["b"] != 3) c.fail("initialValue used", "a solve with a table of its own returns " + u.ToString() + " for " + own.ToString());
    // ... and of no variable when one is given, whatever the values
    for (int k = 0; k < 6; ++k) {
        cfg.Reset();
        cfg.nonlinearMethod = (NonlinearMethod)r.below(2);
        cfg.maxIterations = 30;
        static const double sStart[] = {0, 0, 0, 1, -1, 1e-9, -0.0, 2, NAN, INFINITY, -INFINITY, 1e308};
        double a0 = sStart[r.below(12)], b0 = r.chance(2, 3) ? a0 : sStart[r.below(12)];
        cfg.throwOnInvalidValue = r.chance(1, 2);
        SymVec f = r.chance(1, 3) ? SymVec{Var("b") - Var("b"), Var("a") * Num(0)} : SymVec{(Var("a") ^ Num(2)) + Var("b") - Num(r.range(1, 9)), Var("b") * Num(2) - Var("a") + Num(r.range(-2, 2))};
        VarsTable st{{"a", a0}, {"b", b0}};
        auto run = [&](double iv) -> std::string { cfg.initialValue = iv; try { return Work::text(Solve(f, st)); } catch (const std::exception &e) { return Work::errorText(e); } };
        double i1 = r.chance(1, 2) ? 1 : r.uniform(-20, 20), i2 = r.chance(1, 2) ? -r.uniform(0, 20) : r.uniform(0, 20);
        std::string x = run(i1), y = run(i2);
        c.eval();
        c.event("own start");
        if (x != y) c.fail("initialValue replaced a start", "from " + st.ToString() + fmt(" the result is %s with initialValue %g and %s with %g", x.substr(0, 200).c_str(), i1, y.substr(0, 200).c_str(), i2));
    }
    cfg.Reset();
    // nonlinearMethod: Solve is the selected method
    Problem p = genProblem(r, (int)r.below(4), 3);
    cfg.maxIterations = 60;
    for (int m = 0; m < 2; ++m) {
        cfg.nonlinearMethod = (NonlinearMethod)m;
        uint64_t s = r.s;
        auto outcome = [&](int how) -> std::string {
            Rng q(s);
            try { SymVec f = libEqs(p, q); VarsTable st = libTable(p, q); return Work::text(how == 2 ? Solve(f, st) : how ? SolveByLM(f, st) : SolveByNewtonRaphson(f, st)); } catch (const std::exception &e) { return Work::errorText(e); }
        };
        std::string direct = outcome(m), chosen = outcome(2);
        r.s = s + 1;
        c.eval();
        if (direct != chosen) c.fail("method", fmt("Solve with method %d gives ", m) + chosen.substr(0, 300) + " ; the method itself " + direct.substr(0, 300));
        c.event("method selected");
    }
    cfg.Reset();
    // epsilon: the tolerance of comparisons
    double e = std::pow(10.0, r.uniform(-12, 1)), big = 1 + r.uniform(1e-3, 5), small = 1 - r.uniform(1e-3, 0.9), base = 0;
    cfg.epsilon = e;
    Mat z(2, 2, base), near(2, 2, base), far(2, 2, base);
    int i = r.range(0, 1), j = r.range(0, 1), sg = r.chance(1, 2) ? 1 : -1;
    near.Value(i, j) += sg * e * small;
    far.Value(i, j) += sg * e * big;
    c.eval(6);
    if (!(z == near) || z == far || !(near == 0.0) || far == 0.0 || !IsZero(near) || IsZero(far)) c.fail("epsilon effect", fmt("comparisons do not use the tolerance %g: entries %g and %g", e, e * small, e * big));
    if (!(VarsTable{{"a", 0}} == VarsTable{{"a", sg * e * small}}) || VarsTable{{"a", 0}} == VarsTable{{"a", sg * e * big}}) c.fail("epsilon table", fmt("table comparison does not use the tolerance %g", e));
    cfg.Reset();
    // throwOnInvalidValue
    A a = aBin(DIV, aNum(r.range(-2, 2)), aNum(0));
    bool threw = false;
    double val = 0;
    try { toNode(a)->Vpa(); } catch (const MathError &) { threw = true; }
    cfg.throwOnInvalidValue = false;
    try { val = toNode(a)->Vpa(); } catch (const MathError &) { threw = false; }
    c.eval(2);
    if (!threw || std::isfinite(val)) c.fail("throw effect", "division by zero: " + std::string(threw ? "" : "not thrown, ") + num17(val));
    c.event("effects");
}
void runCase(Ctx &c) {
    Rng &r = c.rng;
    CfgGuard g;
    effects(c);
    Cfg a = genCfg(r);
    uint64_t seed = r.next();
    int n = r.range(4, 9);
    c.describe(fmt("program %llu of %d steps ", (unsigned long long)seed, n) + show(a));
    c.sample(c.caseText);
    auto base = work(c, seed, n, a);
    for (auto &l : base) c.nontrivial(hashStr(l));
    for (int s = 0; s < NS; ++s) {
        Cfg b = changed(r, a, s);
        compare(c, a, base, b, work(c, seed, n, b), 1u << s, sName[s]);
    }
    // several settings at once
    Cfg b = a;
    unsigned what = 0;
    std::string names;
    for (int s = 0; s < NS; ++s) if (r.chance(1, 2)) { b = changed(r, b, s); what |= 1u << s; names += std::string(names.empty() ? "" : "+") + sName[s]; }
    if (what & (what - 1)) {
        std::vector<std::string> lb = work(c, seed, n, b);
        auto &dep = dependencies();
        for (size_t i = 0; i < std::min(base.size(), lb.size()); ++i) {
            auto it = dep.find(nameOf(base[i]));
            if ((it == dep.end() ? 0 : it->second) & what) continue;
            c.eval();
            c.event("independent of several");
            if (base[i] != lb[i]) c.fail("several", "the result of [" + nameOf(base[i]) + "] depends on " + names + ": " + base[i].substr(0, 300) + " ; " + lb[i].substr(0, 300));
        }
    }
}
#include "common_impl.h"
