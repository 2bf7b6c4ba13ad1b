// C10: differentiation and Jacobians fail only for operators without derivative.
#include "common.h"
using namespace h;
using namespace tomsolver;
const char *PROP = "C10";
uint64_t totalCases(bool th) { return th ? 60000 : 2000; }
void setupCheck(Ctx &) {}
static bool undiff(const A &a) { return hasKind(a, [](const Ast &x) { return x.k >= AND; }); }
static bool subset(const std::set<std::string> &a, const std::set<std::string> &b) { return std::includes(b.begin(), b.end(), a.begin(), a.end()); }

static void one(Ctx &c, const A &a, const std::string &v, int order) {
    Rng &r = c.rng;
    c.describe(fmt("Diff by %s, order %d, of ", v.c_str(), order) + show(a));
    c.eval();
    c.nontrivial(mix(hashAst(a), hashStr(v) + order));
    Node n = toNodeR(a, r);
    Node keep = toNode(a);
    std::string text = n->ToString();
    bool bad = undiff(a);
    std::set<std::string> vs;
    varsOf(a, vs);
    for (int form = 0; form < 2; ++form) { // by reference, consuming
        Node src = form ? Clone(n) : nullptr;
        try {
            Node d = form ? Diff(std::move(src), v, order) : Diff(n, v, order);
            if (bad) c.fail("not-rejected", "an expression with %, & or | was differentiated: " + d->ToString().substr(0, 400));
            if (!d) c.fail("null", "Diff returned an empty handle");
            d->CheckParent();
            std::string t = d->ToString();
            if (t.empty() || !subset(d->GetAllVarNames(), vs)) c.fail("new-names", "the derivative mentions other variables: " + t.substr(0, 400));
            Node k = Clone(d);
            k->CheckParent();
            if (k->ToString() != t) c.fail("inconsistent", "a copy of the derivative prints differently");
            c.event("derivatives");
        } catch (const Violation &) { throw;
        } catch (const std::runtime_error &e) {
            if (!bad) c.fail("rejected", std::string("Diff threw ") + e.what());
            c.event("rejected-operators");
        }
        n->CheckParent();
        if (!n->Equal(keep) || n->ToString() != text) c.fail("input-changed", "Diff changed its operand to " + n->ToString());
    }
}
void runCase(Ctx &c) {
    Rng &r = c.rng;
    CfgGuard g;
    if (r.chance(1, 4)) Config::Get().throwOnInvalidValue = false;
    for (int q = 0; q < 6; ++q) {
        GenOpt o;
        int order = r.chance(2, 3) ? 1 : r.range(1, 3);
        o.size = r.chance(1, 20) && order == 1 ? r.range(60, 150) : r.range(1, order == 3 ? 9 : 25);
        o.ops = r.chance(1, 2) ? smoothOps() : r.chance(1, 2) ? allOps() : std::vector<int>{LOG, SQRT, DIV, POW, ASIN, LOG2, SUB, TAN, AND};
        o.vars = {"x", "y", genName(r)};
        o.varBias = r.range(0, 90);
        o.unaryBias = r.range(10, 60);
        o.numProfile = r.pick(std::vector<int>{NP_ZERO_ONE, NP_WILD, NP_SMALLINT, NP_MODERATE});
        A a = genAst(r, o);
        if (q == 0) c.sample(show(a));
        one(c, a, r.chance(3, 4) ? r.pick(o.vars) : r.chance(1, 2) ? genName(r) : "", order);
    }
    // an undifferentiable operator hidden in one place of a large smooth expression
    {
        GenOpt o;
        o.size = r.range(3, 40);
        o.ops = smoothOps();
        o.vars = {"x", "y"};
        o.numProfile = NP_ZERO_ONE;
        A a = genAst(r, o);
        A hid = aBin(r.range(AND, MOD), r.chance(1, 2) ? aVar("x") : aNum(3), r.chance(1, 2) ? aVar("y") : aNum(2));
        one(c, subsAst(a, {{r.chance(1, 2) ? "x" : "y", hid}}), "x", 1);
        one(c, subsAst(a, {{"x", hid}}), "nothing", r.range(1, 2));
    }
    // Jacobians, element by element
    if (r.chance(1, 2)) {
        int m = r.range(1, 4);
        std::vector<A> eqs;
        GenOpt o;
        o.ops = r.chance(1, 3) ? allOps() : smoothOps();
        o.vars = {"x", "y", "z"};
        o.numProfile = r.pick(std::vector<int>{NP_ZERO_ONE, NP_WILD, NP_SMALLINT});
        SymVec f(m);
        bool bad = false;
        std::string d;
        for (int i = 0; i < m; ++i) {
            o.size = r.range(1, 12);
            eqs.push_back(genAst(r, o));
            f[i] = toNode(eqs[i]);
            bad |= undiff(eqs[i]);
            d += show(eqs[i]) + ", ";
        }
        std::vector<std::string> vars{"x", "y", "z", "w"};
        for (int i = 3; i > 0; --i) std::swap(vars[i], vars[r.below(i + 1)]);
        vars.resize(r.range(1, 4));
        c.describe("Jacobian of " + d);
        c.eval();
        try {
            SymMat J = Jacobian(f, vars);
            if (bad) c.fail("jacobian-not-rejected", "the Jacobian of an expression with %, & or | was returned");
            if (J.Rows() != m || J.Cols() != (int)vars.size()) c.fail("jacobian-shape", fmt("the Jacobian is %dx%d", J.Rows(), J.Cols()));
            for (int i = 0; i < m; ++i) for (int k = 0; k < J.Cols(); ++k) {
                if (!J.Value(i, k)) c.fail("jacobian-null", "an entry of the Jacobian is empty");
                J.Value(i, k)->CheckParent();
                std::set<std::string> vs;
                varsOf(eqs[i], vs);
                if (!subset(J.Value(i, k)->GetAllVarNames(), vs)) c.fail("new-names", "an entry of the Jacobian mentions other variables");
            }
            c.event("jacobians");
        } catch (const Violation &) { throw;
        } catch (const std::runtime_error &e) {
            if (!bad) c.fail("jacobian-rejected", std::string("Jacobian threw ") + e.what());
            c.event("jacobians-rejected");
        }
        for (int i = 0; i < m; ++i) if (!f[i]->Equal(toNode(eqs[i]))) c.fail("input-changed", "Jacobian changed an equation");
    }
}
#include "common_impl.h"
