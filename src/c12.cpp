// C12: substitution replaces exactly the named variables, simultaneously.
#include "common.h"
using namespace h;
using namespace tomsolver;
const char *PROP = "C12";
uint64_t totalCases(bool th) { return th ? 80000 : 3000; }
void setupCheck(Ctx &) {}

static void judge(Ctx &c, const Node &got, const Node &want, const char *form) {
    c.eval();
    c.event(form);
    if (!got) c.fail("null", std::string(form) + ": empty result");
    got->CheckParent();
    if (!got->Equal(want)) c.fail("wrong-result", std::string(form) + ": got " + got->ToString().substr(0, 700) + ", expected " + want->ToString().substr(0, 700));
}
void runCase(Ctx &c) {
    Rng &r = c.rng;
    for (int q = 0; q < 4; ++q) {
        std::vector<std::string> names{"x", "y", "z", "x1", "x_", "xx", genName(r), genName(r)};
        if (r.chance(1, 40)) for (int i = r.chance(1, 6) ? r.range(91, 700) : r.range(10, 90); i > 0; --i) names.push_back(r.chance(1, 2) ? fmt("v%d", i) : genName(r)); // many names at once
        std::sort(names.begin(), names.end());
        names.erase(std::unique(names.begin(), names.end()), names.end());
        for (size_t i = names.size() - 1; i > 0; --i) std::swap(names[i], names[r.below(i + 1)]);
        GenOpt o;
        o.size = r.chance(1, 300) ? r.range(501, 3500) : r.chance(1, 30) ? r.range(100, 500) : r.range(1, 25);
        o.ops = allOps();
        o.vars = std::vector<std::string>(names.begin(), names.begin() + r.range(1, (int)names.size()));
        o.numProfile = NP_MODERATE;
        o.varBias = r.range(30, 100);
        A a = genAst(r, o);
        int nv = r.range(0, (int)names.size());
        if (names.size() > 30 && r.chance(2, 3)) { // nearly every name is replaced, and every name occurs
            nv = (int)names.size() - r.range(0, 3);
            for (auto &s : names) a = aBin(r.chance(1, 2) ? ADD : MUL, a, aVar(s));
        }
        std::map<std::string, A> exprs, nums;
        std::map<std::string, double> vals;
        int mode = (int)r.below(4); // 0 general, 1 permutation, 2 self-containing, 3 other names
        for (int i = 0; i < nv; ++i) {
            GenOpt p = o;
            p.size = r.range(1, 6);
            p.vars = names;
            A e;
            switch (mode) {
            case 1: e = aVar(names[(i + 1) % nv]); break;
            case 2: e = aBin(ADD, aVar(names[i]), aNum(1)); break;
            case 3: p.vars = {"fresh"}; e = genAst(r, p); break;
            default: e = genAst(r, p);
            }
            exprs[names[i]] = e;
            vals[names[i]] = genNumber(r, r.chance(1, 2) ? NP_WILD : NP_TEXT);
            nums[names[i]] = aNum(vals[names[i]]);
        }
        std::string d = show(a) + " with";
        for (auto &e : exprs) d += " " + e.first + "->" + show(e.second);
        c.describe(d);
        if (q == 0) c.sample(d);
        c.nontrivial(hashStr(d));
        Node n = toNodeR(a, r);
        Node keep = Clone(n), wantE = toNode(subsAst(a, exprs)), wantN = toNode(subsAst(a, nums));
        std::map<std::string, Node> dict;
        for (auto &e : exprs) dict[e.first] = toNode(e.second);
        auto same = [&](const char *f) {
            if (!n->Equal(keep)) c.fail("input-changed", std::string(f) + ": the input became " + n->ToString());
            for (auto &e : exprs) { dict[e.first]->CheckParent(); if (!eq(dict[e.first], e.second)) c.fail("replacement-changed", std::string(f) + ": the replacement of " + e.first + " became " + dict[e.first]->ToString()); }
        };
        // map of expressions
        judge(c, Subs(n, dict), wantE, "map of expressions, copying");
        same("map of expressions");
        { Node m = Clone(n); Node g = Subs(std::move(m), dict); if (m) c.fail("not-consumed", "a consumed input is still there"); judge(c, g, wantE, "map of expressions, consuming"); same("map of expressions, consuming"); }
        // lists
        {
            std::vector<std::string> ns;
            for (auto &e : exprs) ns.push_back(e.first);
            for (size_t i = ns.size(); i > 1; --i) std::swap(ns[i - 1], ns[r.below(i)]);
            if (!ns.empty()) {
                SymVec v((int)ns.size());
                for (size_t i = 0; i < ns.size(); ++i) v[i] = Clone(dict[ns[i]]);
                judge(c, Subs(n, ns, v), wantE, "lists, copying");
                for (size_t i = 0; i < ns.size(); ++i) if (!eq(v[i], exprs[ns[i]])) c.fail("replacement-changed", "the replacement vector changed");
                Node m = Clone(n);
                judge(c, Subs(std::move(m), ns, v), wantE, "lists, consuming");
                same("lists");
            }
        }
        // numbers
        judge(c, Subs(n, vals), wantN, "map of numbers, copying");
        { Node m = Clone(n); judge(c, Subs(std::move(m), vals), wantN, "map of numbers, consuming"); }
        if (nv) {
            VarsTable t(vals);
            judge(c, Subs(n, t), wantN, "table, copying");
            Node m = Clone(n);
            judge(c, Subs(std::move(m), t), wantN, "table, consuming");
            if (t.VarNums() != nv) c.fail("table-changed", "the table changed");
        }
        same("numbers");
        // single name, expression; chains of single substitutions with fresh names equal the simultaneous one
        for (auto &e : exprs) {
            Node want = toNode(subsAst(a, {e}));
            judge(c, Subs(n, e.first, dict[e.first]), want, "single, copying");
            Node m = Clone(n);
            judge(c, Subs(std::move(m), e.first, dict[e.first]), want, "single, consuming");
            same("single");
            if (r.chance(1, 3)) break;
        }
        if (mode == 3) {
            Node m = Clone(n);
            for (auto &e : dict) m = Subs(std::move(m), e.first, e.second);
            judge(c, m, wantE, "one after another");
        }
        // with itself as replacement
        std::string v0 = r.pick(names);
        if (a->size < 60) { judge(c, Subs(n, v0, n), toNode(subsAst(a, {{v0, a}})), "itself as replacement"); same("itself"); }
        // matrices
        if (r.chance(1, 3)) {
            SymMat M(2, 2), M2(2, 2);
            for (int i = 0; i < 4; ++i) { M.Value(i / 2, i % 2) = i % 2 ? Var(names[i % names.size()]) : Clone(n); M2.Value(i / 2, i % 2) = Clone(M.Value(i / 2, i % 2)); }
            SymMat &ref = M.Subs(vals);
            if (&ref != &M) c.fail("return", "SymMat::Subs returns another object");
            for (int i = 0; i < 4; ++i) judge(c, M.Value(i / 2, i % 2), Subs(M2.Value(i / 2, i % 2), vals), "matrix, numbers");
            judge(c, M.Value(0, 0), wantN, "matrix, numbers");
            if (nv) { M2.Subs(VarsTable(vals)); judge(c, M2.Value(1, 0), wantN, "matrix, table"); if (!(M2 == M)) c.fail("wrong-result", "matrix substitution by table and by map differ"); }
        }
    }
}
#include "common_impl.h"
