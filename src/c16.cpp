// C16: a returned solution of a nonlinear system really solves it.
#include "problems.h"
using namespace h;
using namespace tomsolver;
const char *PROP = "C16";
uint64_t totalCases(bool th) { return th ? 40000 : 1600; }
void setupCheck(Ctx &) {}
static void judge(Ctx &c, const Problem &p, const VarsTable &t, const std::set<std::string> &names, const char *how) {
    std::set<std::string> got(t.Vars().begin(), t.Vars().end()), it;
    Env env;
    for (auto &e : t) { it.insert(e.first); env[e.first] = e.second; }
    c.eval();
    if (t.VarNums() != (int)names.size() || (int)t.Vars().size() != (int)names.size() || got != names || it != names) c.fail("names", std::string(how) + ": the solution assigns " + t.ToString());
    for (auto &n : names) if (!t.Has(n) || bitsOf(t[n]) != bitsOf(env[n])) c.fail("table", std::string(how) + ": lookup of " + n);
    for (int i = 0; i < t.VarNums(); ++i) if (bitsOf(t.Values()[i]) != bitsOf(env[t.Vars()[i]])) c.fail("table", std::string(how) + ": value vector and lookup differ for " + t.Vars()[i]);
    for (auto &e : p.eq) {
        bool ok = true;
        double v = evalAst(e, env, ok);
        c.eval();
        if (!(std::fabs(v) < Config::Get().epsilon)) c.fail("residual", fmt("%s: equation ", how) + show(e) + fmt(" evaluates to %.17g at the returned values\n", v) + t.ToString());
    }
}
void runCase(Ctx &c) {
    Rng &r = c.rng;
    for (int q = 0; q < 4; ++q) {
        CfgGuard g;
        Problem p = genProblem(r, -1, r.chance(1, 200) ? 20 : r.chance(1, 100) ? 12 : r.chance(1, 10) ? 6 : 4);
        randomSolveConfig(r);
        if (r.chance(1, 8)) { // minima just above zero, where an iteration stalls; a few more equations that have roots
            p = Problem();
            p.hostile = true;
            p.names = pickNames(r, r.range(1, 3));
            int k = (int)r.below(p.names.size());
            for (int i = 0; i < (int)p.names.size(); ++i) {
                A x = aVar(p.names[i]);
                double a = r.range(-3, 3), d = std::pow(10.0, -r.uniform(1, 13));
                p.start[p.names[i]] = a + (r.chance(1, 2) ? 1 : -1) * std::pow(10.0, -r.uniform(0, 6));
                A e = aBin(SUB, x, aNum(a));
                if (i != k) p.eq.push_back(r.chance(1, 2) ? e : aBin(ADD, e, aBin(MUL, aNum(0.1), aUn(SIN, e))));
                else p.eq.push_back(aBin(ADD, r.chance(2, 3) ? aBin(POW, e, aNum(2 * r.range(1, 2))) : r.chance(1, 2) ? aBin(SUB, aNum(1), aUn(COS, e)) : aUn(EXP, e), aNum(r.chance(1, 6) ? -d : d)));
            }
            Config::Get().nonlinearMethod = r.chance(4, 5) ? NonlinearMethod::LM : NonlinearMethod::NEWTON_RAPHSON;
            Config::Get().maxIterations = r.range(20, 150);
            if (r.chance(1, 2)) Config::Get().epsilon = 1e-9;
            c.event("almost-roots");
        }
        if (r.chance(1, 250)) { // many unknowns that converge together: every single residual counts
            p = Problem();
            int n = r.range(7, 16), k = r.range(2, 4);
            p.names = pickNames(r, n);
            double a = r.uniform(0.5, 3), x0 = std::pow(a, 1.0 / k) + r.uniform(0.1, 2);
            for (int i = 0; i < n; ++i) {
                A x = aVar(p.names[i]);
                p.start[p.names[i]] = x0 * (r.chance(1, 2) ? 1 : r.uniform(0.9, 1.1));
                A e = aBin(SUB, aBin(POW, x, aNum(k)), aNum(a));
                if (r.chance(1, 4)) e = aBin(ADD, e, aBin(MUL, aNum(0.01), aBin(SUB, aVar(p.names[(i + 1) % n]), aNum(std::pow(a, 1.0 / k)))));
                p.eq.push_back(e);
            }
            Config::Get().epsilon = std::pow(10.0, -r.uniform(1, 9));
            Config::Get().maxIterations = r.range(10, 40);
            c.event("many-unknowns");
        }
        // an additional unknown that occurs in no equation
        if (r.chance(1, 12)) { p.names.push_back("unused_" + std::to_string(r.below(9))); p.start[p.names.back()] = r.uniform(-2, 2); }
        // a table that does not name every variable
        bool missing = r.chance(1, 25) && p.names.size() > 1;
        if (missing) { p.start.erase(p.names.back()); p.names.pop_back(); }
        SymVec f = libEqs(p, r);
        VarsTable t0 = libTable(p, r), keep = t0;
        SymMat fkeep = f.Clone();
        c.describe(p.text() + " " + cfgText());
        if (q == 0) c.sample(c.caseText);
        c.nontrivial(hashStr(c.caseText));
        std::set<std::string> used, names(p.names.begin(), p.names.end());
        for (auto &e : p.eq) varsOf(e, used);
        bool unknown = false;
        for (auto &u : used) if (!names.count(u)) unknown = true;
        auto unchanged = [&](const char *how) {
            for (int i = 0; i < f.Rows(); ++i) f[i]->CheckParent();
            if (f.Rows() != fkeep.Rows() || !(static_cast<const SymMat &>(f) == fkeep)) c.fail("equations-changed", std::string(how) + ": the equations became " + f.ToString());
            bool same = t0.Vars() == keep.Vars() && t0.VarNums() == keep.VarNums();
            for (int i = 0; same && i < t0.VarNums(); ++i) same = bitsOf(t0.Values()[i]) == bitsOf(keep.Values()[i]) && bitsOf(t0[t0.Vars()[i]]) == bitsOf(keep[keep.Vars()[i]]);
            if (!same) c.fail("table-changed", std::string(how) + ": the initial table became " + t0.ToString());
        };
        auto attempt = [&](const char *how, const std::set<std::string> &want, const std::function<VarsTable()> &run) {
            try {
                VarsTable t = run();
                c.event(Config::Get().nonlinearMethod == NonlinearMethod::LM ? "solutions-lm" : "solutions-newton");
                if (p.hostile) c.event("solutions-of-hostile-systems");
                if (f.Rows() != (int)want.size()) c.event("solutions-of-non-square-systems");
                if (unknown && how[0] != 'w') c.fail("unknown-variable", std::string(how) + ": a solution although an equation has a variable that is not in the table");
                judge(c, p, t, want, how);
            } catch (const std::runtime_error &e) {
                c.event("rejected");
            }
            unchanged(how);
        };
        attempt("table", names, [&] { return Solve(f, t0); });
        if (r.chance(1, 2)) {
            if (Config::Get().nonlinearMethod == NonlinearMethod::LM) attempt("direct", names, [&] { return SolveByLM(f, t0); });
            else attempt("direct", names, [&] { return SolveByNewtonRaphson(f, t0); });
        }
        if (!used.empty() && r.chance(1, 2)) attempt("without table", used, [&] { return Solve(f); });
        // solve once more from the solution just found: must be accepted as it is
        if (r.chance(1, 3)) {
            try {
                VarsTable a = Solve(f, t0);
                VarsTable b = Solve(f, a);
                c.eval();
                for (auto &n : names) if (bitsOf(a[n]) != bitsOf(b[n])) c.fail("root-moved", "solving from a solution moves it: " + a.ToString() + " to " + b.ToString());
                c.event("solutions-resolved");
            } catch (const std::runtime_error &) {}
        }
    }
}
#include "common_impl.h"
