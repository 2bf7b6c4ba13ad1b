// C28: the step searches (Armijo, FindAlpha) return the step their criterion defines, call the functions only where
// the criterion needs them, end, pass on what the functions throw and leave everything else alone.
#include "common.h"
#include <exception>
using namespace h;
using namespace tomsolver;
const char *PROP = "C28";
uint64_t totalCases(bool th) { return th ? 40000 : 1800; }
void setupCheck(Ctx &) {}
typedef std::vector<double> V;
typedef std::function<V(const V &)> Fun;
typedef std::function<std::vector<V>(const V &)> Jac; // n rows (variables), m columns (functions)

static V get(const Mat &v) { V o; for (int i = 0; i < v.Rows(); ++i) for (int j = 0; j < v.Cols(); ++j) o.push_back(v.Value(i, j)); return o; }
static Vec put(const V &v) { Vec o((int)v.size()); for (size_t i = 0; i < v.size(); ++i) o[i] = v[i]; return o; }
static Mat put(const std::vector<V> &a) { Mat o((int)a.size(), (int)a[0].size()); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < a[0].size(); ++j) o.Value((int)i, (int)j) = a[i][j]; return o; }
static bool same(const V &a, const V &b) { return a.size() == b.size() && !memcmp(a.data(), b.data(), a.size() * sizeof(double)); }
static bool close(double a, double b, double s) { return a == b || (a != a && b != b) || std::fabs(a - b) <= 1e-14 * s; }
static std::string show(const V &v) { std::string s = "("; for (double x : v) s += num17(x) + " "; return s + ")"; }
static std::string text;

struct Thrown { int id; };
struct Log {
    std::vector<V> f, df;
    int throwAt = -1, calls = 0, how = 0;
    void tick() {
        if (calls++ == throwAt) switch (how) {
        case 0: throw Thrown{throwAt};
        case 1: throw std::runtime_error(fmt("stop %d", throwAt));
        case 2: throw MathError(ErrorType::ERROR_INVALID_NUMBER, fmt("stop %d", throwAt));
        default: throw std::bad_alloc();
        }
    }
};
// a residual function with its Jacobian, in gradient layout
struct Family { std::string name; int n, m; Fun f; Jac df; };
static Family makeFamily(Rng &r, bool search) {
    Family q;
    q.n = r.range(1, r.chance(1, 300) ? 150 : r.chance(1, 40) ? 40 : r.chance(1, 8) ? 9 : 4);
    q.m = r.chance(1, 2) ? q.n : r.range(1, r.chance(1, 300) ? 150 : r.chance(1, 30) ? 40 : 5);
    int n = q.n, m = q.m, kind = r.range(0, 8);
    std::vector<V> a(m, V(n));
    V b(m), c(m);
    double scale = std::pow(10.0, r.range(-3, 3));
    for (int i = 0; i < m; ++i) {
        for (int j = 0; j < n; ++j) a[i][j] = (r.chance(1, 3) ? r.range(-3, 3) : r.uniform(-2, 2)) * scale;
        b[i] = r.uniform(-3, 3);
        c[i] = r.uniform(-2, 2) * (r.chance(1, 4) ? 1000 : 1);
    }
    double edge = r.uniform(-1, 2);
    auto g = [kind, edge](double t, double c) -> double { // applied to every affine component
        switch (kind) {
        case 0: return t;
        case 1: return t + c * t * t;
        case 2: return t * t * t - c * t;
        case 3: return std::exp(std::min(t, 600.0)) + c;
        case 4: return std::sin(5 * t) + 0.1 * c * t;
        case 5: return c * t * t * t * t + t;                     // steep
        case 6: return t > edge ? NAN : t - c;                    // partly undefined
        case 7: return t > edge ? INFINITY : std::fabs(t) + c;    // overflowing
        default: return std::floor(t * 3) + c;                    // steps
        }
    };
    q.name = fmt("kind %d n=%d m=%d scale %g", kind, n, m, scale);
    q.f = [=](const V &x) { V y(m); for (int i = 0; i < m; ++i) { double t = b[i]; for (int j = 0; j < n; ++j) t += a[i][j] * x[j]; y[i] = g(t, c[i]); } return y; };
    if (search) return q;
    int jac = r.range(0, 3); // exact (numerically), zero, arbitrary, partly invalid
    double w = r.uniform(-2, 2);
    Fun f = q.f;
    q.df = [=](const V &x) {
        std::vector<V> o(n, V(m));
        for (int j = 0; j < n; ++j) {
            V p = x, s = x;
            double h = 1e-6 * (1 + std::fabs(x[j]));
            p[j] += h; s[j] -= h;
            V fp = f(p), fs = f(s);
            for (int i = 0; i < m; ++i) o[j][i] = jac == 1 ? 0 : jac == 2 ? w * (i + 1) - j : jac == 3 && i == 0 && j == n - 1 ? INFINITY : (fp[i] - fs[i]) / (2 * h);
        }
        return o;
    };
    q.name += fmt(" jac %d", jac);
    return q;
}
static V makeDirection(Rng &r, const Family &q, const V &x) {
    V d(q.n);
    switch (r.range(0, 4)) {
    case 0: for (auto &v : d) v = r.uniform(-3, 3); break;
    case 1: for (auto &v : d) v = r.uniform(-1, 1) * std::pow(10.0, r.range(-6, 6)); break;
    case 2: { // against the gradient of the squared residual
        if (q.df) { V f = q.f(x); auto J = q.df(x); double k = std::pow(10.0, r.range(-2, 2)); for (int j = 0; j < q.n; ++j) { for (int i = 0; i < q.m; ++i) d[j] -= J[j][i] * f[i]; d[j] *= k; } }
        else for (auto &v : d) v = -1;
        break;
    }
    case 3: for (auto &v : d) v = r.range(-2, 2); break;
    default: if (r.chance(1, 3)) break; for (auto &v : d) v = r.uniform(0, 1) * (r.chance(1, 2) ? 100 : 1); // zero direction
    }
    return d;
}
static long double squares(const V &v) { long double s = 0; for (double x : v) s += (long double)x * x; return s; }

struct Outcome { int thrown = 0; std::string what; double alpha = 0; };
template <class F> static Outcome attempt(F f) {
    Outcome o;
    try { o.alpha = f(); }
    catch (const Thrown &t) { o.thrown = 1; o.what = fmt("%d", t.id); }
    catch (const std::bad_alloc &) { o.thrown = 4; }
    catch (const MathError &e) { o.thrown = 3; o.what = e.what(); }
    catch (const std::bad_function_call &) { o.thrown = 5; }
    catch (const std::runtime_error &e) { o.thrown = 2; o.what = e.what(); }
    return o;
}
static void caseArmijo(Ctx &c, bool throwing) {
    Rng &r = c.rng;
    Family q = makeFamily(r, false);
    V x(q.n);
    for (auto &v : x) v = r.chance(1, 4) ? r.range(-2, 2) : r.uniform(-2, 2) * (r.chance(1, 6) ? 1e6 : 1);
    V d = makeDirection(r, q, x);
    text = "Armijo " + q.name + " x=" + show(x) + " d=" + show(d);
    c.describe(text);
    Log log;
    if (throwing) { log.throwAt = r.range(0, 6); log.how = r.range(0, 3); }
    Vec X = put(x), D = put(d);
    auto f = [&](Vec v) -> Vec { V p = get(v); log.f.push_back(p); log.tick(); return put(q.f(p)); };
    auto df = [&](Vec v) -> Mat { V p = get(v); log.df.push_back(p); log.tick(); return put(q.df(p)); };
    Outcome o = attempt([&] { return Armijo(X, D, f, df); });
    if (!same(get(X), x) || !same(get(D), d)) return c.fail("arguments", text + ": the start or the direction changed");
    c.eval();
    if (throwing && log.calls > log.throwAt) {
        if (o.thrown != log.how + 1 || (log.how == 0 && o.what != fmt("%d", log.throwAt)) || ((log.how == 1 || log.how == 2) && o.what.find(fmt("stop %d", log.throwAt)) == std::string::npos)) c.fail("exception", text + fmt(": a function threw kind %d, the caller saw %d ", log.how + 1, o.thrown) + o.what);
        c.event("armijo_thrown");
        // the next search is not affected by the abandoned one
        log = Log();
        o = attempt([&] { return Armijo(X, D, f, df); });
    }
    if (o.thrown) return c.fail("threw", text + ": threw " + o.what);
    double alpha = o.alpha;
    int k = 0;
    double t = 1;
    while (t > alpha && t > 0) { t *= 0.5; ++k; }
    if (t != alpha) return c.fail("step", text + ": the step " + num17(alpha) + " is not one of 1, 1/2, 1/4, ...");
    // the criterion, in extended precision: 1 met, 0 not met, -1 decided by rounding
    V f0 = q.f(x);
    auto J = q.df(x);
    auto met = [&](double a) -> int {
        V p(x), rhs(q.m);
        for (int j = 0; j < q.n; ++j) p[j] += a * d[j];
        long double l = squares(q.f(p)), rr = 0, mag = 0;
        for (int i = 0; i < q.m; ++i) {
            long double s = 0, sm = 0;
            for (int j = 0; j < q.n; ++j) { s += (long double)J[j][i] * d[j]; sm += std::fabs((long double)J[j][i] * d[j]); }
            long double v = f0[i] + 0.4L * a * s, vm = std::fabs((long double)f0[i]) + 0.4L * a * sm;
            rr += v * v;
            mag += vm * vm;
        }
        if (rr != rr || !std::isfinite((double)mag) || !std::isfinite((double)rr)) return rr != rr ? 1 : -1;
        if (l != l) return 0;
        if (std::isinf((double)l)) return 0;
        long double margin = 1e-12L * (l + mag) + 1e-300L;
        // rounding of x + a d
        long double gap = l - rr;
        if (std::fabs(gap) <= margin) return -1;
        return gap < 0;
    };
    int at = alpha == 0 ? -1 : met(alpha);
    if (at == 0) return c.fail("criterion", text + ": the step " + num17(alpha) + " does not meet the criterion");
    double s = 1;
    for (int i = 0; i < k; ++i, s *= 0.5) if (met(s) == 1) return c.fail("smaller", text + ": returned " + num17(alpha) + " though the larger step " + num17(s) + " meets the criterion");
    // where the functions were evaluated
    if (log.f.size() > 4u * (k + 1) + 4 || log.df.size() > 2u * (k + 1) + 4) c.fail("calls", text + fmt(": %zu and %zu calls for %d reductions", log.f.size(), log.df.size(), k));
    for (auto &p : log.df) if (!same(p, x)) { c.fail("derivative point", text + ": derivative asked for at " + show(p)); break; }
    for (auto &p : log.f) {
        bool ok = p.size() == x.size() && same(p, x);
        s = 1;
        for (int i = 0; !ok && i <= k; ++i, s *= 0.5) {
            ok = p.size() == x.size();
            for (size_t j = 0; ok && j < p.size(); ++j) ok = close(p[j], x[j] + s * d[j], std::fabs(x[j]) + std::fabs(s * d[j]));
        }
        if (!ok) { c.fail("point", text + ": function evaluated at " + show(p) + ", beyond any step needed"); break; }
    }
    c.event("armijo_steps");
    c.event("armijo_reductions", k);
    if (at == 1) c.event("armijo_judged_strictly");
    if (k > 20) c.event("armijo_tiny_steps");
    c.nontrivial(hashStr(text));
    c.sample(text + " -> " + num17(alpha));
}
// the secant iteration on the step, with the rounding of the iterates perturbed by `noise`
struct Secant { double alpha; int calls; bool nan = false, over = false; };
static Secant reference(const Family &q, const V &x, const V &d, double uncert, double noise) {
    auto at = [&](double a) { V p(x); for (int j = 0; j < q.n; ++j) p[j] += a * d[j]; return q.f(p); };
    long double old = 0, cur = 1;
    Secant s{1, 1};
    V gOld = at(0), g;
    for (int it = 0;; ++it) {
        g = at((double)cur);
        ++s.calls;
        bool less = true;
        for (int i = 0; i < q.m; ++i) if (!(g[i] < gOld[i])) less = false;
        if (less) { s.alpha = (double)cur; return s; }
        long double best = INFINITY;
        for (int i = 0; i < q.m; ++i) {
            long double v = std::fabs(((long double)g[i] * old - (long double)gOld[i] * cur) / ((long double)g[i] - gOld[i]));
            if (v != v) { s.nan = true; return s; }
            // rounding of the quotient: too large to tell
            long double num = std::fabs((long double)g[i] * old) + std::fabs((long double)gOld[i] * cur), den = std::fabs((long double)g[i]) + std::fabs((long double)gOld[i]);
            long double gap = std::fabs((long double)g[i] - gOld[i]);
            if (gap == 0 || (num / gap + v * den / gap) * 1e-15L > 1e-10L * v) { s.nan = true; return s; }
            best = std::min(best, v);
        }
        double next = (double)best * (1 + noise * ((it % 3) - 1));
        if (!std::isfinite(next)) { s.nan = true; return s; }
        s.alpha = next;
        if (it > 100) { s.over = true; return s; }
        if (!(std::fabs(next - (double)cur) > (double)cur * uncert)) return s;
        old = cur;
        cur = next;
        gOld = g;
    }
}
static void caseFind(Ctx &c, bool throwing) {
    Rng &r = c.rng;
    Family q = makeFamily(r, true);
    V x(q.n);
    for (auto &v : x) v = r.chance(1, 4) ? r.range(-2, 2) : r.uniform(-2, 2);
    V d = makeDirection(r, q, x);
    double uncert = r.chance(1, 2) ? 1e-5 : std::pow(10.0, -r.range(1, 12));
    bool dflt = uncert == 1e-5 && r.chance(1, 2);
    text = "FindAlpha " + q.name + " x=" + show(x) + " d=" + show(d) + " uncert " + num17(uncert);
    c.describe(text);
    CfgGuard guard;
    Config::Get().logLevel = r.chance(1, 3) ? LogLevel::OFF : LogLevel::WARN;
    Log log;
    if (throwing) { log.throwAt = r.range(0, 6); log.how = r.range(0, 3); }
    Vec X = put(x), D = put(d);
    auto f = [&](Vec v) -> Vec { V p = get(v); log.f.push_back(p); log.tick(); return put(q.f(p)); };
    auto run = [&] { return attempt([&] { return dflt ? FindAlpha(X, D, f) : FindAlpha(X, D, f, uncert); }); };
    Outcome o = run();
    if (!same(get(X), x) || !same(get(D), d)) return c.fail("arguments", text + ": the start or the direction changed");
    c.eval();
    if (throwing && log.calls > log.throwAt) {
        if (o.thrown != log.how + 1 || (log.how == 0 && o.what != fmt("%d", log.throwAt)) || ((log.how == 1 || log.how == 2) && o.what.find(fmt("stop %d", log.throwAt)) == std::string::npos)) c.fail("exception", text + fmt(": a function threw kind %d, the caller saw %d ", log.how + 1, o.thrown) + o.what);
        c.event("secant_thrown");
        log = Log();
        o = run();
    }
    if (o.thrown) return c.fail("threw", text + ": threw " + o.what);
    if (log.f.size() > 220) c.fail("calls", text + fmt(": %zu calls", log.f.size()));
    V f0 = q.f(x), p1(x);
    for (int j = 0; j < q.n; ++j) p1[j] += d[j];
    V f1 = q.f(p1);
    bool less = true;
    for (int i = 0; i < q.m; ++i) if (!(f1[i] < f0[i])) less = false;
    c.event("secant_searches");
    if (less) {
        c.event("secant_full_step");
        if (o.alpha != 1) c.fail("full step", text + ": the full step decreases every component, but the step is " + num17(o.alpha));
        c.nontrivial(hashStr(text));
        return;
    }
    Secant a = reference(q, x, d, uncert, 0), b = reference(q, x, d, uncert, 1e-13), e = reference(q, x, d, uncert, -3e-14);
    auto agree = [](const Secant &u, const Secant &v) { return !u.nan && !v.nan && u.calls == v.calls && std::fabs(u.alpha - v.alpha) <= 1e-9 * std::fabs(u.alpha) + 1e-12; };
    if (!agree(a, b) || !agree(a, e)) { c.event("secant_decided_by_rounding"); return; }
    c.event("secant_judged");
    c.event("secant_iterations", a.calls - 2);
    if (a.over) c.event("secant_over_limit");
    if (!(std::fabs(o.alpha - a.alpha) <= 1e-6 * std::fabs(a.alpha) + 1e-9)) return c.fail("secant", text + ": the step is " + num17(o.alpha) + ", the secant iteration stops at " + num17(a.alpha) + fmt(" after %d evaluations", a.calls));
    if (log.f.size() > (size_t)2 * a.calls + 2) c.fail("calls", text + fmt(": %zu calls, %d needed", log.f.size(), a.calls));
    c.nontrivial(hashStr(text));
    c.sample(text + " -> " + num17(o.alpha));
}
// on a component that is affine and increasing the secant iteration lands on the root
static void caseAffine(Ctx &c) {
    Rng &r = c.rng;
    double slope = r.uniform(0.5, 20), root = r.uniform(0.05, 30), x = r.uniform(-5, 5), d = r.chance(1, 2) ? 1 : -r.uniform(0.1, 3);
    text = fmt("FindAlpha affine slope %.17g root %.17g", slope, root);
    c.describe(text);
    double al = FindAlpha(Vec{x}, Vec{d}, [&](Vec v) { return Vec{slope * ((v[0] - x) / d - root)}; });
    c.eval();
    if (!(std::fabs(al - root) <= 1e-6 * (1 + root))) c.fail("affine", text + ": returned " + num17(al));
    c.event("secant_affine");
    // Armijo accepts the full step to the root along an exact Newton direction
    al = Armijo(Vec{x}, Vec{root * d}, [&](Vec v) { return Vec{slope * ((v[0] - x) / d - root)}; }, [&](Vec) { return Mat{{slope / d}}; });
    if (al != 1) c.fail("newton step", text + ": Armijo shortens an exact Newton step to " + num17(al));
    c.nontrivial(hashStr(text));
}
// functions made of symbolic equations, also searching themselves
static void caseSymbolic(Ctx &c) {
    Rng &r = c.rng;
    CfgGuard guard;
    Config::Get().throwOnInvalidValue = r.chance(1, 2);
    const char *const eqs[] = {"x^2-y", "sin(x)+y-1", "exp(x)-y^2", "x*y-2", "log(x+4)-y", "x^3-3*x+y"};
    SymVec F{Parse(eqs[r.below(6)]), Parse(eqs[r.below(6)])};
    SymMat J = Jacobian(F, {"x", "y"});
    V x{r.uniform(-2, 2), r.uniform(-2, 2)}, d{r.uniform(-3, 3), r.uniform(-3, 3)};
    text = "symbolic " + F.ToString() + " x=" + show(x) + " d=" + show(d);
    c.describe(text);
    std::string before = F.ToString();
    VarsTable table{{"x", 0}, {"y", 0}};
    int deep = 0, calls = 0;
    std::function<Vec(Vec)> f;
    f = [&](Vec v) -> Vec {
        ++calls;
        if (calls % 3 == 1 && deep < 2) { // a search inside the search
            ++deep;
            try { FindAlpha(v, v, f, 1e-2); } catch (const MathError &) {}
            --deep;
        }
        table.SetValues(v);
        return F.Clone().Subs(table).Calc().ToMat().ToVec();
    };
    auto plain = [&](Vec v) -> Vec { VarsTable t{{"x", v[0]}, {"y", v[1]}}; return F.Clone().Subs(t).Calc().ToMat().ToVec(); };
    auto df = [&](Vec v) -> Mat { VarsTable t{{"x", v[0]}, {"y", v[1]}}; return J.Clone().Subs(t).Calc().ToMat().Transpose(); };
    Outcome a = attempt([&] { return Armijo(put(x), put(d), f, df); }), b = attempt([&] { return Armijo(put(x), put(d), plain, df); });
    c.eval(2);
    if (a.thrown != b.thrown || a.what != b.what || !close(a.alpha, b.alpha, 0)) c.fail("nested", text + ": with searches inside the function the result is " + num17(a.alpha) + a.what + ", otherwise " + num17(b.alpha) + b.what);
    if (F.ToString() != before) c.fail("equations", text + ": the equations changed");
    c.event("nested_searches", calls);
    c.nontrivial(hashStr(text));
}
static void caseEmpty(Ctx &c) {
    std::function<Vec(Vec)> none;
    std::function<Mat(Vec)> noneM;
    Outcome a = attempt([&] { return FindAlpha(Vec{1}, Vec{1}, none); }), b = attempt([&] { return Armijo(Vec{1}, Vec{1}, none, noneM); });
    c.eval(2);
    if (a.thrown != 5 || b.thrown != 5) c.fail("empty function", "searching with an empty function: " + a.what + " " + b.what);
}
void runCase(Ctx &c) {
    for (int i = 0; i < 12; ++i) {
        bool th = i % 4 == 3;
        caseArmijo(c, th);
        caseFind(c, th);
    }
    caseAffine(c);
    if (c.idx % 4 == 0) caseSymbolic(c);
    if (c.idx % 50 == 0) caseEmpty(c);
    // nothing is kept by a search, also by an abandoned one
    int64_t counts[3];
    for (int k = 0; k < 3; ++k) {
        {
            int n = 0;
            auto f = [&](Vec v) -> Vec { if (++n == 2 + (int)(c.idx % 5)) throw Thrown{n}; return put(V{v[0] * v[0] + 1, -v[1]}); };
            Outcome a = attempt([&] { return FindAlpha(Vec{1, 2}, Vec{3, 1}, f); });
            n = 0;
            Outcome b = attempt([&] { return Armijo(Vec{1, 2}, Vec{3, 1}, f, [](Vec) { return Mat{{1, 0}, {0, 1}}; }); });
        }
        counts[k] = liveCount;
    }
    if (counts[2] != counts[1]) c.fail("kept", fmt("an abandoned search keeps %lld allocations", (long long)(counts[2] - counts[1])));
}
#include "common_impl.h"
