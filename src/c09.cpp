// C09: symbolic derivatives evaluate to the mathematical derivative (reference: truncated Taylor arithmetic).
#include "common.h"
using namespace h;
using namespace tomsolver;
const char *PROP = "C09";
uint64_t totalCases(bool th) { return th ? 60000 : 2000; }
void setupCheck(Ctx &) {}
static double fact(int n) { double f = 1; while (n > 1) f *= n--; return f; }
static std::string pt(const Env &e) { std::string s; for (auto &x : e) s += x.first + "=" + num17(x.second) + " "; return s; }

static void compare(Ctx &c, const Node &d, const Env &env, long double want, long double major, double scale, const std::string &what) {
    bool ok = true;
    double got = libEval(d, env, ok);
    c.eval();
    std::string t = what + " at " + pt(env);
    if (!ok) c.fail("derivative-invalid", t + fmt(": evaluating the derivative failed, it should be %.17Lg; derivative ", want) + d->ToString().substr(0, 500));
    double tol = (double)(1e-11L * major * scale) + 1e-14; // rounding stays below 1e-14 of the majorant; other ways to compute the same derivative need more
    if (!(std::fabs(got - (double)want) <= tol)) c.fail("derivative-wrong", t + fmt(": derivative is %.17g, should be %.17Lg (tolerance %.3g); symbolic: ", got, want, tol) + d->ToString().substr(0, 500));
    c.event("derivative-values");
}
static void judge(Ctx &c, const A &a, int order, const std::string &var, int points) {
    Rng &r = c.rng;
    std::string what = fmt("d^%d/d%s^%d of ", order, var.c_str(), order) + show(a);
    c.describe(what);
    Node n = toNode(a);
    Node d;
    int got = 0;
    std::set<std::string> vs;
    varsOf(a, vs);
    vs.insert(var);
    for (int p = 0; p < points; ++p) {
        Env env;
        for (auto &v : vs) env[v] = r.chance(1, 4) ? r.uniform(-3, 3) : r.chance(1, 6) ? (double)r.range(1, 3) : r.uniform(0.2, 2.5);
        bool ok = true;
        Jet j = jetAst(a, env, var, order, ok);
        if (!ok) { c.event("points-outside-domain"); continue; }
        if (!d) d = Diff(n, var, order);
        compare(c, d, env, j.c[order] * fact(order), j.m[order], fact(order), what);
        ++got;
    }
    if (!got) return;
    c.nontrivial(mix(hashAst(a), order * 31 + hashStr(var)));
    // step by step, and consuming
    if (order > 1 || r.chance(1, 6)) {
        Node s = Clone(n);
        for (int i = 0; i < order; ++i) s = r.chance(1, 2) ? Diff(s, var) : Diff(std::move(s), var);
        for (int p = 0; p < 2; ++p) {
            Env env;
            for (auto &v : vs) env[v] = r.uniform(0.3, 2);
            bool ok = true;
            Jet j = jetAst(a, env, var, order, ok);
            if (ok) compare(c, s, env, j.c[order] * fact(order), j.m[order], fact(order), "step by step " + what);
        }
        c.event("step-by-step");
    }
    // mixed second derivative through a direction: f(x+t,y+t)'' = fxx + 2 fxy + fyy
    if (order == 2 && vs.size() >= 2 && !vs.count("t_dir")) {
        std::string u = *vs.begin() == var ? *std::next(vs.begin()) : *vs.begin();
        std::map<std::string, A> m{{var, aBin(ADD, aVar(var), aVar("t_dir"))}, {u, aBin(ADD, aVar(u), aVar("t_dir"))}};
        A g = subsAst(a, m);
        Node mixed = r.chance(1, 2) ? Diff(Diff(n, var), u) : Diff(Diff(n, u), var);
        for (int p = 0; p < 2; ++p) {
            Env env;
            for (auto &v : vs) env[v] = r.uniform(0.3, 2);
            Env e2 = env;
            e2["t_dir"] = 0;
            bool ok = true;
            Jet jt = jetAst(g, e2, "t_dir", 2, ok), jx = jetAst(a, env, var, 2, ok), ju = jetAst(a, env, u, 2, ok);
            if (ok) { compare(c, mixed, env, jt.c[2] - jx.c[2] - ju.c[2], jt.m[2] + jx.m[2] + ju.m[2], 2, fmt("mixed derivative by %s and %s of ", var.c_str(), u.c_str()) + show(a)); c.event("mixed-derivatives"); }
        }
    }
}
void runCase(Ctx &c) {
    Rng &r = c.rng;
    static const int NS = POW - POS + 1;
    if (c.idx < NS) { // every rule alone and composed with every inner expression
        int k = POS + (int)c.idx;
        std::vector<A> in{aVar("x"), aNum(2), aNum(0), aNum(1), aNum(0.5), aVar("y"), aBin(MUL, aNum(0.4), aVar("x")), aBin(ADD, aVar("x"), aVar("y")), aBin(MUL, aVar("x"), aVar("x")), aBin(SUB, aNum(3), aVar("x")), aUn(SIN, aVar("x")), aUn(EXP, aVar("y")), aBin(POW, aVar("x"), aNum(2)), aBin(DIV, aNum(1), aVar("x")), aNum(-2), aNum(-1), aNum(3), aUn(NEG, aVar("x"))};
        for (auto &l : in)
            if (isUn(k)) for (int o = 1; o <= 3; ++o) { judge(c, aUn(k, l), o, "x", 4); judge(c, aUn(k, l), 1, "y", 2); }
            else for (auto &q : in) { judge(c, aBin(k, l, q), 1, "x", 3); judge(c, aBin(k, l, q), 2, "x", 2); judge(c, aBin(k, l, q), 1, "y", 1); }
        c.event("rule-tables");
        return;
    }
    if (c.idx < NS + 24) { // numeric exponents of every size, bases of both signs, with and without an outer factor
        int i = (int)c.idx - NS;
        A x = aVar("x"), y = aVar("y");
        std::vector<A> in{x, aUn(NEG, x), aBin(SUB, aNum(0.3), x), aBin(MUL, aNum(-0.4), x), aUn(SIN, x), aBin(MUL, x, y), aBin(SUB, x, y), aBin(DIV, x, aNum(3))};
        std::vector<double> es;
        for (int k = i; k < 320; k += 24) { es.push_back(k < 200 ? k : k - 230.0); es.push_back(k / 8.0 + (i % 3 ? 0 : 0.1)); }
        for (double e : {256.0, 1000.0, 1e4, -64.0, -65.0, 1e-3, 1e-9, 2.0000001, 0.49999999, 1.9999999999, -1e-4}) if (r.chance(1, 3)) es.push_back(e);
        for (double e : es) {
            A p = aBin(POW, r.pick(in), aNum(e));
            judge(c, r.chance(1, 3) ? aBin(MUL, aNum(r.range(-3, 3)), p) : r.chance(1, 4) ? aBin(POW, aNum(r.chance(1, 4) ? (double)r.range(1, 12) : r.uniform(0.1, 3)), r.pick(in)) : p, r.chance(3, 4) ? 1 : 2, "x", 4);
        }
        c.event("exponent-tables");
        return;
    }
    if (c.idx % 8 == 0) { // many terms, many factors, long compositions
        GenOpt o;
        o.vars = {"x", "y", genName(r)};
        o.numProfile = r.pick(std::vector<int>{NP_POSITIVE, NP_SMALLINT});
        o.ops = smoothOps();
        int kind = (int)r.below(4), k = kind == 0 ? r.range(20, 150) : kind == 1 ? r.range(4, 12) : kind == 2 ? r.range(5, 40) : r.range(3, 10);
        std::vector<A> parts;
        for (int i = 0; i < k; ++i) { o.size = r.range(1, kind == 0 ? 6 : 4); parts.push_back(genAst(r, o)); }
        A a;
        if (kind == 2) { // composition; every step keeps values and slopes moderate
            a = aVar("x");
            for (int i = 0; i < k; ++i) switch (r.below(6)) {
                case 0: a = aUn(SIN, a); break;
                case 1: a = aUn(ATAN, a); break;
                case 2: a = aUn(COS, a); break;
                case 3: a = aUn(NEG, a); break;
                case 4: a = aBin(r.chance(1, 2) ? ADD : SUB, r.chance(1, 2) ? aNum(r.range(1, 3)) : aVar("y"), a); break;
                default: a = aBin(MUL, a, aNum(r.uniform(0.5, 1.5)));
            }
        } else if (kind == 3) { // towers of quotients and powers of positive quantities
            a = aBin(ADD, aBin(POW, aVar("x"), aNum(2)), aNum(1));
            for (int i = 0; i < k; ++i) a = r.chance(1, 2) ? aBin(ADD, aNum(1), aBin(DIV, aNum(r.range(1, 3)), a)) : r.chance(1, 2) ? aBin(POW, a, aNum(r.uniform(0.4, 1.1))) : aBin(ADD, aUn(SQRT, a), aNum(0.5));
        } else {
            int shape = (int)r.below(3);
            auto join = [&](A l, A q) { return kind == 1 ? aBin(r.chance(1, 6) ? DIV : MUL, l, q) : aBin(r.chance(1, 3) ? SUB : ADD, l, q); };
            if (shape == 2) while (parts.size() > 1) { std::vector<A> nx; for (size_t i = 0; i + 1 < parts.size(); i += 2) nx.push_back(join(parts[i], parts[i + 1])); if (parts.size() % 2) nx.push_back(parts.back()); parts = nx; }
            a = parts[0];
            for (size_t i = 1; i < parts.size(); ++i) a = shape ? join(a, parts[i]) : join(parts[i], a);
        }
        judge(c, a, kind < 2 && r.chance(1, 4) ? 2 : 1, r.chance(3, 4) ? "x" : r.pick(o.vars), 3);
        c.event("large-expressions");
    }
    if (c.idx % 16 == 3) { // high orders of small expressions
        A x = aVar("x"), y = aVar("y"), k = aNum(r.range(1, 12)), u = aNum(r.uniform(0.3, 1.7));
        std::vector<A> small{aBin(POW, x, k), aUn(SIN, x), aUn(COS, x), aUn(EXP, x), aUn(EXP, aBin(MUL, u, x)), aBin(POW, aNum(2), x), aUn(SIN, aBin(ADD, x, y)), aBin(MUL, x, aUn(EXP, x)), aBin(POW, aBin(ADD, x, aNum(1)), aNum(r.range(1, 9) + 0.25)), aBin(MUL, y, aBin(POW, x, k)), aBin(SUB, aBin(POW, x, k), aBin(MUL, u, x)), aUn(NEG, aUn(COS, x)), aBin(MUL, aBin(POW, x, aNum(r.range(1, 4))), aBin(POW, x, aNum(r.range(2, 5)))), aUn(LOG, x), aUn(SQRT, x), aBin(DIV, aNum(1), x), x, y, u, aBin(DIV, x, u), aBin(POW, x, aNum(-1))};
        A a = r.pick(small);
        judge(c, a, r.range(5, a->k == LOG || a->k == SQRT || a->k == DIV || a->k == MUL ? 7 : 9), "x", 3);
        c.event("high-orders");
    }
    for (int q = 0; q < 6; ++q) {
        GenOpt o;
        int order = r.chance(1, 2) ? 1 : r.chance(2, 3) ? 2 : r.chance(4, 5) ? 3 : 4;
        o.size = r.range(1, order == 1 ? 25 : order == 2 ? 12 : order == 3 ? 7 : 4);
        o.ops = r.chance(1, 2) ? smoothOps() : r.chance(1, 2) ? std::vector<int>{SIN, COS, ATAN, ADD, SUB, MUL, NEG, EXP, DIV, POW} : std::vector<int>{ADD, MUL, DIV, POW, LOG, SQRT, LOG2, LOG10, SUB};
        o.vars = r.chance(1, 3) ? std::vector<std::string>{"x"} : std::vector<std::string>{"x", "y", genName(r)};
        o.numProfile = r.pick(std::vector<int>{NP_POSITIVE, NP_SMALLINT, NP_MODERATE, NP_ZERO_ONE});
        o.unaryBias = r.range(20, 60);
        o.varBias = r.range(40, 90);
        o.share = r.chance(1, 5) ? 25 : 0;
        A a = genAst(r, o);
        if (q == 0) c.sample(show(a));
        judge(c, a, order, r.chance(4, 5) ? r.pick(o.vars) : "w", 4);
    }
}
#include "common_impl.h"
