// C17: solving always ends, within the configured iteration limit. The clock is the number of memory allocations;
// real non-termination is recognised by the driver (no progress of the case counter, confirmed by a rerun).
#include "problems.h"
using namespace h;
using namespace tomsolver;
const char *PROP = "C17";
uint64_t totalCases(bool th) { return th ? 30000 : 440; }
void setupCheck(Ctx &) {}
struct Outcome { bool ok = false; Env env; std::string what; uint64_t work = 0; };
static Outcome run(Ctx &c, const SymVec &f, const VarsTable &t) {
    Outcome o;
    uint64_t a = allocCount;
    try {
        VarsTable s = Solve(f, t);
        for (auto &e : s) o.env[e.first] = e.second;
        o.ok = true;
    } catch (const std::runtime_error &e) {
        o.what = e.what();
    } catch (const std::exception &e) {
        c.fail("wrong-exception", std::string("not derived from runtime_error: ") + e.what());
    } catch (...) {
        c.fail("wrong-exception", "something that is no exception class was thrown");
    }
    o.work = allocCount - a;
    c.eval();
    c.event(o.ok ? "returned" : "threw");
    return o;
}
struct Restore { Config c = Config::Get(); ~Restore() { Config::Get() = c; } };
// allocations of one evaluation of equations and Jacobian and one linear solution
static uint64_t unit(const SymVec &f, const VarsTable &t, uint64_t &setup) {
    uint64_t a = allocCount;
    uint64_t u = 0;
    try {
        SymMat J = Jacobian(f, t.Vars());
        setup = allocCount - a;
        a = allocCount;
        Restore keep;
        Config::Get().throwOnInvalidValue = false;
        VarsTable tt = t;
        SymMat F = f.Clone(), JJ = J.Clone();
        F.Subs(tt).Calc().ToMat().ToString();
        JJ.Subs(tt).Calc().ToMat().ToString();
        u = allocCount - a;
    } catch (const std::runtime_error &) {
        u = allocCount - a;
    }
    int n = t.VarNums(), m = std::max(n, f.Rows());
    return u + 20 * (uint64_t)(n + m) + 200; // matrices, table updates, the linear solver
}
// reference Newton iteration with noise; number of steps until every |f| < eps, or -1 if unclear
static int refSteps(const Problem &p, double eps, double noise, Rng &r, int limit) {
    int n = (int)p.names.size();
    if ((int)p.eq.size() != n) return -1;
    Env x = p.start;
    for (int it = 0; it <= limit; ++it) {
        double mx = 0;
        bool ok = true;
        std::vector<double> f(n);
        for (int i = 0; i < n; ++i) { f[i] = evalAst(p.eq[i], x, ok); mx = std::max(mx, std::fabs(f[i])); }
        if (!ok) return -1;
        if (mx < eps) return mx < 0.01 * eps ? it : -1;
        if (mx < 100 * eps) return -1;
        std::vector<std::vector<double>> a(n, std::vector<double>(n + 1));
        for (int i = 0; i < n; ++i) {
            for (int j = 0; j < n; ++j) {
                Jet d = jetAst(p.eq[i], x, p.names[j], 1, ok);
                if (!ok || d.m[1] > 1e4L) return -1;
                a[i][j] = (double)d.c[1] * (1 + noise * r.uniform(-1, 1));
            }
            a[i][n] = -f[i];
        }
        double big = 0, det = 1;
        for (auto &v : a) for (int j = 0; j < n; ++j) big = std::max(big, std::fabs(v[j]));
        for (int k = 0; k < n; ++k) {
            int q = k;
            for (int i = k; i < n; ++i) if (std::fabs(a[i][k]) > std::fabs(a[q][k])) q = i;
            if (std::fabs(a[q][k]) < 1e-2 * big || std::fabs(a[q][k]) < 1e-3) return -1;
            det *= a[q][k];
            std::swap(a[q], a[k]);
            for (int i = 0; i < n; ++i) if (i != k) { double w = a[i][k] / a[k][k]; for (int j = k; j <= n; ++j) a[i][j] -= w * a[k][j]; }
        }
        for (int k = 0; k < n; ++k) {
            double s = a[k][n] / a[k][k];
            if (std::fabs(s) > 1e4) return -1;
            x[p.names[k]] += s;
        }
    }
    return limit + 1; // more than the limit
}
static void general(Ctx &c) {
    Rng &r = c.rng;
    CfgGuard g;
    Problem p = genProblem(r, -1, r.chance(1, 25) ? 8 : 3);
    randomSolveConfig(r);
    auto &cfg = Config::Get();
    SymVec f = libEqs(p, r);
    VarsTable t = libTable(p, r);
    std::string base = p.text();
    uint64_t setup = 0, e = unit(f, t, setup);
    bool lm = cfg.nonlinearMethod == NonlinearMethod::LM;
    for (int M : {0, r.range(1, 3), r.range(4, 12), lm ? r.range(5, 14) : r.range(13, 60), r.chance(1, 2) ? -r.range(1, 3) : INT_MIN}) {
        cfg.maxIterations = M;
        c.describe(base + " " + cfgText());
        Outcome o = run(c, f, t);
        c.nontrivial(hashStr(c.caseText));
        // substitution and the table are linear in the unit; a line search halves the step at most about 1100 times
        uint64_t limit = setup * 4 + 2000 + (uint64_t)(std::max(M, 0) + 2) * e * (lm ? 1200 * 6 : 12);
        c.eval();
        c.event(lm ? "work-bounds-lm" : "work-bounds-newton");
        if (o.work > limit) c.fail("work", fmt("%llu allocations with at most %d iterations; one evaluation takes %llu, bound %llu", (unsigned long long)o.work, M, (unsigned long long)e, (unsigned long long)limit));
    }
    if (r.chance(1, 20)) {
        cfg.nonlinearMethod = (NonlinearMethod)7;
        if (run(c, f, t).ok) c.fail("method", "a solution with an unknown method");
    }
}
static void newtonSteps(Ctx &c) {
    Rng &r = c.rng;
    CfgGuard g;
    auto &cfg = Config::Get();
    Problem p;
    int s = -1, tries = 0;
    double eps = 1e-9;
    do {
        static const int kinds[] = {0, 2, 3, 6, 6, 4, 6, 3};
        p = genProblem(r, kinds[r.below(8)], r.chance(1, 5) ? 7 : 3);
        if (r.chance(1, 3)) { // many steps far from the root
            p = Problem();
            p.names = pickNames(r, r.chance(1, 12) ? r.range(10, 20) : r.chance(1, 4) ? r.range(3, 8) : r.range(1, 2));
            for (auto &v : p.names) {
                A x = aVar(v);
                if (r.chance(1, 3)) { p.eq.push_back(aBin(SUB, aUn(EXP, x), aNum(r.uniform(0.3, 3)))); p.start[v] = r.uniform(2, 8); }
                else { int k = r.range(2, 6); p.eq.push_back(aBin(SUB, aBin(POW, x, aNum(k)), aNum(r.uniform(0.3, 3)))); p.start[v] = std::pow(10.0, r.uniform(0.5, 6.0 / k)); }
            }
        } else if (r.chance(1, 3)) for (auto &v : p.start) v.second += r.uniform(-6, 6);
        eps = std::pow(10.0, r.range(-11, -2));
        s = refSteps(p, eps, 0, r, 60);
        for (int k = 0; k < 3 && s >= 0; ++k) if (refSteps(p, eps, 1e-9, r, 60) != s) s = -1;
    } while (s < 0 && ++tries < 40);
    if (s < 0) { c.event("no-clear-problem"); return; }
    cfg.epsilon = eps;
    SymVec f = libEqs(p, r);
    VarsTable t = libTable(p, r);
    bool conv = s <= 60;
    Outcome ref;
    std::vector<int> Ms = conv ? std::vector<int>{s, s + 1, s + r.range(2, 30), s - 2, s - 3, r.range(0, s + 2), 0, 100} : std::vector<int>{r.range(0, 57), 58, 0};
    if (conv && r.chance(1, 3)) Ms.push_back(r.chance(1, 2) ? INT_MAX : 1000000);
    c.event(fmt("newton-needs-%s-steps", !conv ? "over-60" : s == 0 ? "0" : s == 1 ? "1" : s < 4 ? "2-3" : s < 8 ? "4-7" : s < 16 ? "8-15" : "16-60").c_str());
    for (int M : Ms) {
        if (M < 0) continue;
        cfg.maxIterations = M;
        c.describe(p.text() + " " + cfgText() + fmt(" needing %d steps", s));
        c.nontrivial(hashStr(c.caseText));
        Outcome o = run(c, f, t);
        if (M >= s && !o.ok) c.fail("gave-up", fmt("needs %d steps, limit %d, but: ", s, M) + o.what);
        if (M < s - 1 && o.ok) c.fail("limit-ignored", fmt("needs %d steps, limit %d, but a solution was returned", s, M));
        if (o.ok) {
            if (ref.ok && ref.env != o.env) c.fail("limit-changes-result", "the solution depends on the limit");
            ref = o;
        }
        c.event(M >= s ? "limit-sufficient" : M < s - 1 ? "limit-too-small" : "limit-borderline");
    }
}
// both methods stay at a stationary point that is no root: every iteration costs the same
static void stationary(Ctx &c) {
    Rng &r = c.rng;
    CfgGuard g;
    auto &cfg = Config::Get();
    int n = r.range(1, 3);
    Problem p;
    p.names = pickNames(r, n);
    for (auto &v : p.names) p.start[v] = r.range(-3, 3);
    for (int i = 0; i < n; ++i) {
        A e = aNum(r.range(1, 5));
        int k = r.range(1, 2);
        for (int j = 0; j < k; ++j) {
            std::string v = r.pick(p.names);
            A d = aBin(SUB, aVar(v), aNum(p.start[v]));
            e = aBin(ADD, r.chance(1, 2) ? aBin(POW, d, aNum(2)) : aBin(MUL, d, d), e);
        }
        p.eq.push_back(e);
    }
    SymVec f = libEqs(p, r);
    VarsTable t = libTable(p, r);
    cfg.throwOnInvalidValue = r.chance(1, 2);
    cfg.allowIndeterminateEquation = r.chance(1, 2);
    for (auto m : {NonlinearMethod::LM, NonlinearMethod::NEWTON_RAPHSON}) {
        cfg.nonlinearMethod = m;
        uint64_t setup = 0, e = unit(f, t, setup);
        for (int M : {0, r.range(1, 10), r.range(20, 60), r.range(100, c.thorough ? 600 : 250)}) {
            cfg.maxIterations = M;
            c.describe(p.text() + " " + cfgText());
            c.nontrivial(hashStr(c.caseText));
            Outcome o = run(c, f, t);
            uint64_t limit = setup * 4 + 2000 + (uint64_t)(M + 2) * e * 16;
            c.eval();
            c.event("work-bounds-at-stationary-points");
            if (o.ok) c.fail("not-a-root", "a solution at a stationary point that is no root");
            if (o.work > limit) c.fail("work", fmt("%llu allocations with at most %d iterations at a stationary point; one evaluation takes %llu, bound %llu", (unsigned long long)o.work, M, (unsigned long long)e, (unsigned long long)limit));
        }
    }
}
// the public line searches end as well
static void searches(Ctx &c) {
    Rng &r = c.rng;
    CfgGuard g;
    int n = r.range(1, 3), kind = r.range(0, 4);
    Vec x(n), d(n);
    for (int i = 0; i < n; ++i) { x[i] = r.uniform(-3, 3); d[i] = r.chance(1, 5) ? 0 : r.uniform(-3, 3) * std::pow(10.0, r.range(-3, 8)); }
    uint64_t calls = 0;
    auto f = [&](Vec v) -> Vec {
        if (++calls > 5000) c.fail("line-search", "a line search evaluated the function 5000 times");
        Vec y(v.Rows());
        for (int i = 0; i < v.Rows(); ++i) switch (kind) {
            case 0: y[i] = v[i] * v[i] - 2; break;
            case 1: y[i] = std::log(v[i]); break;
            case 2: y[i] = 1 / v[i]; break;
            case 3: y[i] = std::exp(v[i]); break;
            default: y[i] = NAN;
        }
        return y;
    };
    auto df = [&](Vec v) -> Mat {
        Mat y(v.Rows(), v.Rows(), 0);
        for (int i = 0; i < v.Rows(); ++i) switch (kind) {
            case 0: y.Value(i, i) = 2 * v[i]; break;
            case 1: y.Value(i, i) = 1 / v[i]; break;
            case 2: y.Value(i, i) = -1 / (v[i] * v[i]); break;
            case 3: y.Value(i, i) = std::exp(v[i]); break;
            default: y.Value(i, i) = NAN;
        }
        return y;
    };
    c.describe(fmt("line search kind %d from ", kind) + x.ToString() + " along " + d.ToString());
    c.nontrivial(hashStr(c.caseText));
    Armijo(x, d, f, df);
    c.eval();
    c.event("armijo-searches");
    calls = 0;
    Capture cap; // it reports giving up on standard output
    FindAlpha(x, d, f);
    cap.stop();
    c.eval();
    c.event("secant-searches");
}
void runCase(Ctx &c) {
    for (int q = 0; q < 2; ++q) { general(c); for (int k = 0; k < 4; ++k) newtonSteps(c); stationary(c); }
    searches(c);
}
#include "common_impl.h"
