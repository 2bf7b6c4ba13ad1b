// C06: evaluation equals IEEE evaluation of the tree or reports an invalid value.
#include "common.h"
using namespace h;
const char *PROP = "C06";
uint64_t totalCases(bool th) { return th ? 150000 : 3200; }
void setupCheck(Ctx &) {}
static bool sameVal(double a, double b) { return bitsOf(a) == bitsOf(b) || (std::isnan(a) && std::isnan(b)); }

static void check(Ctx &c, const A &a) {
    using namespace tomsolver;
    Rng &r = c.rng;
    c.describe(show(a));
    c.eval();
    c.nontrivial(hashAst(a));
    bool ok = true;
    std::set<std::string> vs;
    varsOf(a, vs);
    double want = evalAst(a, {}, ok);
    bool thr = !r.chance(1, 3);
    CfgGuard g;
    Config::Get().throwOnInvalidValue = thr;
    Node n = toNodeR(a, r);
    std::string text = n->ToString();
    Node before = Clone(n);
    for (int form = 0; form < 2; ++form) {
        double got = 0;
        int outcome = 0; // 0 value, 1 invalid number, 2 other runtime error
        std::string msg;
        try {
            if (form == 0) got = n->Vpa();
            else { internal::NodeImpl &ref = n->Calc(); if (&ref != n.get()) c.fail("calc-return", "Calc returns another object"); got = n->Vpa(); }
        } catch (const MathError &e) {
            outcome = e.GetErrorType() == ErrorType::ERROR_INVALID_NUMBER ? 1 : 2;
            msg = e.what();
        } catch (const Violation &) { throw;
        } catch (const std::runtime_error &e) {
            outcome = 2;
            msg = e.what();
        }
        const char *fn = form ? "Calc" : "Vpa";
        if (!vs.empty()) {
            if (outcome == 0) c.fail("variable-evaluated", std::string(fn) + " returned a value for an expression with a variable: " + num17(got));
            c.event("variable-rejected");
        } else if (ok || !thr) {
            if (outcome) c.fail("unexpected-error", std::string(fn) + " threw " + msg + " for an expression with value " + num17(want));
            if (!sameVal(got, want)) c.fail("wrong-value", std::string(fn) + " gave " + num17(got) + ", the value is " + num17(want));
            c.event(ok ? "values" : "invalid-propagated");
        } else {
            if (outcome != 1) c.fail("invalid-not-reported", std::string(fn) + (outcome ? " threw another error: " + msg : " returned " + num17(got)) + " although an operation is invalid");
            c.event("invalid-reported");
        }
        n->CheckParent();
        if (form == 0 || outcome) {
            if (!n->Equal(before) && !hasKind(a, [](const Ast &x) { return x.k == NUM && std::isnan(x.v); })) c.fail("modified", std::string(fn) + " modified the expression into " + n->ToString());
            if (n->ToString() != text) c.fail("modified", std::string(fn) + " modified the expression into " + n->ToString());
        } else {
            if (std::isfinite(want) && (!n->Equal(Num(want)) || n->ToString() != tomsolver::ToString(want))) c.fail("calc-result", "after Calc the expression is " + n->ToString() + " instead of the constant " + num17(want));
            if (!n->GetAllVarNames().empty()) c.fail("calc-result", "after Calc the expression has variables");
        }
    }
}
void runCase(Ctx &c) {
    Rng &r = c.rng;
    // every operator on every pair of special values
    if (c.idx < (uint64_t)(NK - POS)) {
        int k = POS + (int)c.idx;
        static const double w[] = {0.0, -0.0, 1, -1, 2, -2, 3, 0.5, -0.5, 1e308, -1e308, DBL_MAX, -DBL_MAX, DBL_MIN, 5e-324, -5e-324, 2147483647.0, 2147483648.0, -2147483648.0, -2147483649.0, 2147483647.5, -2147483648.5, 4294967296.0, 9007199254740993.0, 1e-300, 0.1, 709.8, -745.2, 7, -7, 13, 255, 1e10, 3.9, -3.9, 0.9999999999999999, 1.0000000000000002};
        for (double x : w) {
            if (!isBin(k)) { check(c, aUn(k, aNum(x))); continue; }
            for (double y : w) check(c, aBin(k, aNum(x), aNum(y)));
        }
        c.event("special-value-tables");
        return;
    }
    for (int q = 0; q < 12; ++q) {
        GenOpt o;
        o.size = r.chance(1, 400) ? r.range(1501, 3500) : r.chance(1, 40) ? r.range(100, 1500) : r.range(2, 25);
        switch (r.below(5)) {
        case 0: o.ops = allOps(); break;
        case 1: o.ops = smoothOps(); break;
        case 2: o.ops = arithOps(); break;
        case 3: o.ops = {AND, OR, MOD, ADD, NEG, MUL}; break;
        default: o.ops = {SIN, COS, ATAN, ADD, SUB, MUL, NEG, TAN, EXP}; break; // mostly valid
        }
        o.numProfile = r.pick(std::vector<int>{NP_SMALLINT, NP_MODERATE, NP_POSITIVE, NP_WILD, NP_ZERO_ONE});
        if (r.chance(1, 8)) { o.vars = {"x", "y"}; o.varBias = r.range(1, 20); }
        o.unaryBias = r.range(10, 60);
        o.share = r.chance(1, 4) ? 25 : 0;
        A a = genAst(r, o);
        if (q == 0) c.sample(show(a));
        check(c, a);
    }
}
#include "common_impl.h"
