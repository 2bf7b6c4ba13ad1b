// Generator of nonlinear systems shared by the solver monitors.
#pragma once
#include "common.h"
namespace h {
struct Problem {
    std::vector<A> eq;
    std::vector<std::string> names; // of the table, in the caller's order
    Env start;
    Env root;            // planted root, if any
    bool hostile = false;
    std::string text() const {
        std::string s;
        for (auto &e : eq) s += show(e) + "; ";
        s += "from";
        for (auto &v : start) s += " " + v.first + "=" + num17(v.second);
        return s;
    }
};
inline A shiftToRoot(const A &g, const Env &root, bool &ok) { // g - g(root), so that root is a root up to rounding
    double v = evalAst(g, root, ok);
    return v == 0 ? g : aBin(SUB, g, aNum(v));
}
inline std::vector<std::string> pickNames(Rng &r, int n) {
    std::vector<std::string> pool{"x", "y", "z", "u", "v", "x1", "x2", "x10", "alpha", "_t", "B", "a_very_long_variable_name_that_needs_the_heap"}, res;
    while ((int)res.size() < n) {
        std::string s = r.chance(1, 8) ? genName(r) : r.pick(pool);
        if (std::find(res.begin(), res.end(), s) == res.end()) res.push_back(s);
    }
    return res;
}
// kind: 0 smooth planted, 1 arbitrary, 2 affine, 3 polynomial planted, 4 degenerate, 5 non-square planted, 6 classic hard one
inline Problem genProblem(Rng &r, int kind = -1, int maxn = 4) {
    Problem p;
    if (kind < 0) kind = (int)r.below(7);
    int n = r.range(1, maxn), m = n;
    if (kind == 5) { m = r.range(1, maxn + 1); }
    p.names = pickNames(r, n);
    for (auto &v : p.names) { p.root[v] = r.chance(1, 2) ? (double)r.range(-3, 3) : r.uniform(-3, 3); p.start[v] = p.root[v] + (r.chance(1, 12) ? 0 : r.chance(1, 3) ? r.uniform(-0.1, 0.1) : r.uniform(-2, 2)); }
    GenOpt o;
    o.vars = p.names;
    o.numProfile = NP_MODERATE;
    bool ok = true;
    switch (kind) {
    case 0: case 3: case 5:
        o.ops = kind == 3 ? std::vector<int>{ADD, SUB, MUL} : std::vector<int>{ADD, SUB, MUL, SIN, COS, ATAN, EXP, NEG, DIV};
        for (int i = 0; i < m; ++i) {
            A e;
            for (int t = 0; t < 20; ++t) { o.size = r.range(2, 12); ok = true; e = shiftToRoot(aBin(ADD, genAst(r, o), aBin(MUL, aNum(r.range(1, 4)), aVar(p.names[i % n]))), p.root, ok); if (ok) break; }
            if (!ok) e = aBin(SUB, aVar(p.names[i % n]), aNum(p.root[p.names[i % n]]));
            p.eq.push_back(e);
        }
        break;
    case 1:
        p.hostile = true;
        o.ops = r.chance(1, 10) ? allOps() : smoothOps();
        o.numProfile = r.chance(1, 4) ? NP_WILD : NP_MODERATE;
        if (r.chance(1, 3)) m = r.range(1, maxn + 1);
        for (int i = 0; i < m; ++i) { o.size = r.range(1, 14); p.eq.push_back(genAst(r, o)); }
        for (auto &v : p.start) if (r.chance(1, 6)) v.second = genNumber(r, NP_WILD);
        break;
    case 2:
        for (int i = 0; i < n; ++i) {
            A e;
            for (int j = 0; j < n; ++j) {
                A t = aBin(MUL, aNum(r.chance(1, 5) ? 0 : r.range(-4, 4) + (i == j ? 5 : 0)), aVar(p.names[j]));
                e = e ? aBin(r.chance(1, 3) ? SUB : ADD, e, t) : t;
            }
            p.eq.push_back(shiftToRoot(e, p.root, ok));
        }
        break;
    case 4: // inconsistent, singular Jacobian, constants, repeated equations
        p.hostile = true;
        for (int i = 0; i < n; ++i) {
            A x = aVar(p.names[r.below(n)]);
            switch (r.below(6)) {
            case 0: p.eq.push_back(aNum(r.range(0, 2))); break;
            case 1: p.eq.push_back(aBin(ADD, aBin(POW, x, aNum(2)), aNum(r.range(0, 3)))); break;
            case 2: p.eq.push_back(aBin(SUB, x, x)); break;
            case 3: p.eq.push_back(aBin(MUL, x, aBin(SUB, x, aNum(1)))); break;
            case 4:
                p.eq.push_back(aBin(POW, aBin(SUB, x, aNum(2)), aNum(r.range(2, 4))));
                if (r.chance(1, 2)) p.eq.back() = aBin(ADD, p.eq.back(), aNum(std::pow(10.0, -r.uniform(1, 13)))); // almost a root
                break;
            default: p.eq.push_back(p.eq.empty() ? aBin(ADD, x, aNum(1)) : p.eq[r.below(p.eq.size())]);
            }
        }
        break;
    default: { // one-dimensional problems known to make Newton wander, cycle or leave the domain
        p.hostile = true;
        p.names.resize(1);
        std::string v = p.names[0];
        double s = p.start[v];
        p.root.clear(); p.start.clear(); p.start[v] = s;
        A x = aVar(v);
        switch (r.below(10)) {
        case 0: p.eq.push_back(aUn(ATAN, x)); p.start[v] = r.uniform(-4, 4); break;
        case 1: p.eq.push_back(aBin(ADD, aBin(SUB, aBin(POW, x, aNum(3)), aBin(MUL, aNum(2), x)), aNum(2))); p.start[v] = r.range(0, 1); break; // cycle
        case 2: p.eq.push_back(aUn(EXP, aUn(NEG, x))); break;
        case 3: p.eq.push_back(aUn(LOG, x)); p.start[v] = r.uniform(0.01, 5); break;
        case 4: p.eq.push_back(aBin(SUB, aUn(SQRT, x), aNum(r.range(-1, 3)))); p.start[v] = r.uniform(0, 5); break;
        case 5: p.eq.push_back(aBin(DIV, aNum(1), x)); break;
        case 6: p.eq.push_back(aBin(MUL, x, aUn(EXP, aUn(NEG, aBin(MUL, x, x))))); break;
        case 7: p.eq.push_back(aBin(SUB, aBin(POW, x, aNum(r.range(2, 9))), aNum(r.range(-2, 9)))); p.start[v] = r.chance(1, 3) ? 0 : r.uniform(-20, 20); break;
        case 8: p.eq.push_back(aBin(SUB, aUn(SIN, aBin(DIV, aNum(1), x)), aNum(0.5))); break;
        default: p.eq.push_back(aBin(SUB, aBin(POW, x, x), aNum(r.range(0, 4)))); p.start[v] = r.uniform(-1, 3); break;
        }
    }
    }
    return p;
}
#ifndef NO_TOMSOLVER
inline tomsolver::SymVec libEqs(const Problem &p, Rng &r) {
    tomsolver::SymVec v((int)p.eq.size());
    for (size_t i = 0; i < p.eq.size(); ++i) v[i] = toNodeR(p.eq[i], r);
    return v;
}
// the table in the caller's order of names, or in map order
// a slight displacement of starting values, to tell results that depend on rounding
inline double &nudge() { static thread_local double v = 0; return v; }
inline double nudged(double v) { return nudge() == 0 ? v : v * (1 + nudge()) + 0.1 * nudge(); }
inline Env nudged(Env e) { for (auto &v : e) v.second = nudged(v.second); return e; }
inline tomsolver::VarsTable libTable(const Problem &p, Rng &r) {
    if (r.chance(1, 2)) return tomsolver::VarsTable(nudged(p.start));
    tomsolver::VarsTable t(p.names, 0.25);
    tomsolver::Vec v((int)p.names.size());
    for (size_t i = 0; i < p.names.size(); ++i) v[i] = nudged(p.start.at(p.names[i]));
    t.SetValues(v);
    return t;
}
inline std::string cfgText() {
    auto &c = tomsolver::Config::Get();
    return fmt("method %d epsilon %g maxIterations %d initialValue %g allowIndeterminate %d throwOnInvalid %d", (int)c.nonlinearMethod, c.epsilon, c.maxIterations, c.initialValue, c.allowIndeterminateEquation, c.throwOnInvalidValue);
}
inline void randomSolveConfig(Rng &r) {
    auto &c = tomsolver::Config::Get();
    c.Reset();
    c.nonlinearMethod = r.chance(1, 2) ? tomsolver::NonlinearMethod::LM : tomsolver::NonlinearMethod::NEWTON_RAPHSON;
    if (r.chance(1, 2)) c.epsilon = std::pow(10.0, r.range(-12, -1));
    if (r.chance(1, 20)) c.epsilon = 0;
    if (r.chance(29, 30)) c.maxIterations = r.chance(1, 2) ? r.range(0, 6) : r.range(3, 20);
    if (r.chance(1, 2)) c.initialValue = r.uniform(-3, 3);
    c.allowIndeterminateEquation = r.chance(1, 2);
    c.throwOnInvalidValue = r.chance(2, 3);
}
#endif
} // namespace h
