// C11: simplification preserves meaning, folds constants and never fails.
#include "common.h"
using namespace h;
using namespace tomsolver;
const char *PROP = "C11";
uint64_t totalCases(bool th) { return th ? 100000 : 3000; }
void setupCheck(Ctx &) {}
// is 0^0 evaluated somewhere
static double ev00(const A &a, const Env &e, bool &z) {
    if (a->k == NUM) return a->v;
    if (a->k == VAR) return e.at(a->name);
    double l = ev00(a->l, e, z), r = a->r ? ev00(a->r, e, z) : 0;
    if (a->k == POW && l == 0 && r == 0) z = true;
    return applyOp(a->k, l, r);
}
static A absorb(const A &a) { // NEG(number) -> negative number
    if (a->k <= VAR) return a;
    A l = absorb(a->l);
    if (a->k == NEG && l->k == NUM) return aNum(-l->v);
    return mk(a->k, l, a->r ? absorb(a->r) : nullptr);
}
static bool isN(const A &a, double v) { return a->k == NUM && a->v == v; }
static std::string reducible(const A &a) { // what could still be simplified
    if (a->k <= VAR) return "";
    if (a->l->k == NUM && (!a->r || a->r->k == NUM)) {
        if (std::isfinite(applyOp(a->k, a->l->v, a->r ? a->r->v : 0))) return "a constant operation remains: " + show(a);
        return ""; // an invalid constant operation stays
    }
    if ((a->k == ADD && (isN(a->l, 0) || isN(a->r, 0))) || (a->k == SUB && isN(a->r, 0))) return "adding or subtracting 0 remains: " + show(a);
    if (a->k == MUL && (isN(a->l, 0) || isN(a->r, 0) || isN(a->l, 1) || isN(a->r, 1))) return "multiplying by 0 or 1 remains: " + show(a);
    if (a->k == DIV && (isN(a->l, 0) || isN(a->r, 1))) return "0 as numerator or 1 as denominator remains: " + show(a);
    if (a->k == POW && isN(a->r, 1)) return "exponent 1 remains: " + show(a);
    std::string s = reducible(a->l);
    return s.empty() && a->r ? reducible(a->r) : s;
}
static void one(Ctx &c, const A &a) {
    const double TOL = 1e-14 * (a->size + 10); // rounding, relative to the majorant
    Rng &r = c.rng;
    c.describe(show(a));
    c.eval();
    c.nontrivial(hashAst(a));
    Node n = toNode(a);
    Node orig = Clone(n);
    Simplify(n);
    if (!n) c.fail("null", "Simplify left an empty handle");
    n->CheckParent();
    std::string t = n->ToString();
    if (!orig->Equal(toNode(a))) c.fail("copy-changed", "Simplify changed a copy taken before");
    std::set<std::string> vs, ns = n->GetAllVarNames();
    varsOf(a, vs);
    if (!std::includes(vs.begin(), vs.end(), ns.begin(), ns.end())) c.fail("new-names", "the result mentions new variables: " + t);
    // idempotence
    Node again = Clone(n);
    Simplify(again);
    again->CheckParent();
    if (t.find("nan") == std::string::npos && (!again->Equal(n) || again->ToString() != t)) c.fail("not-idempotent", "simplifying [" + t + "] again gives [" + again->ToString() + "]");
    // structure, through the text when that denotes the very same tree
    RefParse R = refParse(t);
    if (R.ok) {
        A w = absorb(R.tree);
        std::string left;
        if (n->Equal(toNode(w))) left = reducible(w), c.event("structures-inspected");
        else if (n->Equal(toNode(R.tree))) left = reducible(R.tree), c.event("structures-inspected");
        else c.event("structures-regrouped");
        if (!left.empty()) c.fail("not-simplified", left + " in [" + t + "]");
    }
    // a constant expression with a value becomes that constant
    bool cok = true;
    if (vs.empty()) {
        VM v = evalVM(a, {}, cok);
        bool z = false;
        ev00(a, {}, z);
        if (cok && !z) {
            if (!n->Equal(Num(v.v)) && v.m < 1e200) {
                double got = NAN;
                try { got = n->Vpa(); } catch (const std::runtime_error &) {}
                if (!(got == v.v || std::fabs(got - v.v) <= TOL * v.m) || !n->Equal(Num(got))) c.fail("constant", "a constant with value " + num17(v.v) + " simplifies to [" + t + "]");
            }
            c.event("constants-folded");
        } else c.event("invalid-constants");
    }
    // values
    for (int p = 0; p < 5; ++p) {
        Env env;
        for (auto &v : vs) env[v] = p == 4 ? (double)r.range(0, 2) : r.chance(1, 4) ? r.uniform(-5, 5) : r.chance(1, 6) ? genNumber(r, NP_ZERO_ONE) : r.uniform(0.1, 3);
        bool ok = true, z = false;
        VM v = evalVM(a, env, ok);
        if (!ok) { c.event("points-without-value"); continue; }
        ev00(a, env, z);
        if (z) { c.event("points-with-0^0"); continue; }
        bool ok2 = true;
        double got = libEval(n, env, ok2);
        std::string at;
        for (auto &e : env) at += e.first + "=" + num17(e.second) + " ";
        bool judged = v.m < 1e250; // otherwise rounding may have any effect
        if (!judged && got != v.v) { c.event("points-too-ill-conditioned"); continue; }
        if (!ok2 || !(got == v.v || std::fabs(got - v.v) <= TOL * v.m)) c.fail("value-changed", fmt("at %s the value is %.17g, simplified [%s] gives %.17g", at.c_str(), v.v, t.substr(0, 600).c_str(), got));
        c.event("values-compared");
    }
}
void runCase(Ctx &c) {
    Rng &r = c.rng;
    CfgGuard g;
    if (c.idx < (uint64_t)(NK - POS)) { // every operator over every pair of simple operands
        int k = POS + (int)c.idx;
        std::vector<A> in{aNum(0), aNum(1), aNum(-1), aNum(2), aNum(-0.0), aNum(0.5), aVar("x"), aVar("y"), aUn(SIN, aVar("x")), aBin(MUL, aVar("x"), aNum(0)), aBin(ADD, aVar("x"), aVar("y")), aUn(NEG, aNum(1)), aBin(DIV, aNum(1), aNum(0)), aUn(LOG, aNum(-1)), aBin(SUB, aNum(2), aNum(1)), aBin(SUB, aNum(2), aNum(2)), aBin(DIV, aNum(1), aVar("x")), aNum(1 + 1e-10), aNum(1e-10), aNum(1 - 4e-8), aNum(-1e-300), aNum(1 + 3e-13), aNum(1 + DBL_EPSILON)};
        for (auto &l : in)
            if (isUn(k)) { one(c, aUn(k, l)); for (int o = POS; o <= EXP; ++o) one(c, aUn(o, aUn(k, l))); }
            else for (auto &q : in) { one(c, aBin(k, l, q)); one(c, aBin(r.range(ADD, POW), aBin(k, l, q), r.pick(in))); one(c, aBin(r.range(ADD, POW), r.pick(in), aBin(k, l, q))); }
        c.event("rule-tables");
        return;
    }
    if (r.chance(1, 6)) Config::Get().throwOnInvalidValue = false;
    for (int q = 0; q < 8; ++q) {
        GenOpt o;
        o.size = r.chance(1, 400) ? r.range(601, 3500) : r.chance(1, 40) ? r.range(100, 600) : r.range(2, 25);
        o.ops = r.chance(1, 3) ? std::vector<int>{ADD, SUB, MUL, DIV, POW, NEG} : r.chance(1, 2) ? smoothOps() : allOps();
        o.vars = {"x", "y", "z"};
        o.varBias = r.pick(std::vector<int>{0, 20, 40, 60});
        o.unaryBias = r.range(0, 50);
        o.numProfile = r.chance(2, 3) ? NP_ZERO_ONE : r.pick(std::vector<int>{NP_SMALLINT, NP_MODERATE, NP_WILD});
        A a = genAst(r, o);
        if (q == 0) c.sample(show(a));
        one(c, a);
    }
}
#include "common_impl.h"
