// C20: variable tables keep names, order and values consistent (histories against a plain model).
#include "common.h"
using namespace h;
using namespace tomsolver;
const char *PROP = "C20";
uint64_t totalCases(bool th) { return th ? 60000 : 3000; }
void setupCheck(Ctx &) {}
struct T { std::vector<std::string> names; std::vector<double> vals; };
static std::string txt(const T &t) { std::string s = "{"; for (size_t i = 0; i < t.names.size(); ++i) s += t.names[i] + "=" + num17(t.vals[i]) + " "; return s + "}"; }
static bool same(double a, double b) { return bitsOf(a) == bitsOf(b) || (a != a && b != b); }
static void judge(Ctx &c, const VarsTable &L, const T &m, const char *after) {
    int n = (int)m.names.size();
    std::string w = std::string(" after ") + after + ", expected " + txt(m);
    std::map<std::string, double> mp;
    for (int i = 0; i < n; ++i) mp[m.names[i]] = m.vals[i];
    c.eval();
    if (L.VarNums() != n) c.fail("count", fmt("%d variables", L.VarNums()) + w);
    if (L.Vars() != m.names) { std::string s; for (auto &x : L.Vars()) s += x + " "; c.fail("names", "the names are " + s + w); }
    if (L.Values().Rows() != n || L.Values().Cols() != 1) c.fail("values", "wrong size" + w);
    for (int i = 0; i < n; ++i) {
        if (!same(L.Values()[i], m.vals[i])) c.fail("values", fmt("value %d is %.17g", i, L.Values()[i]) + w);
        if (!L.Has(m.names[i])) c.fail("membership", m.names[i] + " is missing" + w);
        double got = 0;
        try { got = L[m.names[i]]; } catch (const std::exception &e) { c.fail("lookup", m.names[i] + " throws " + e.what() + w); }
        if (!same(got, m.vals[i])) c.fail("lookup", m.names[i] + fmt(" is %.17g", got) + w);
    }
    for (int pass = 0; pass < 2; ++pass) {
        auto it = mp.begin();
        auto b = pass ? L.cbegin() : L.begin(), e = pass ? L.cend() : L.end();
        for (; b != e; ++b, ++it) if (it == mp.end() || b->first != it->first || !same(b->second, it->second)) c.fail("iteration", "at " + b->first + w);
        if (it != mp.end()) c.fail("iteration", "ends early" + w);
    }
    for (auto &x : {std::string("nope"), m.names[0] + "x", m.names[0].substr(0, m.names[0].size() - 1), std::string()}) {
        if (mp.count(x)) continue;
        if (L.Has(x)) c.fail("membership", "has " + x + w);
        bool threw = false;
        try { L[x]; } catch (const std::out_of_range &) { threw = true; } catch (const std::exception &e) { c.fail("unknown-name", std::string("looking up an unknown name throws ") + e.what() + w); }
        if (!threw) c.fail("unknown-name", "looking up " + x + " does not throw out_of_range" + w);
    }
    if (L.VarNums() != n || L.Has("nope")) c.fail("lookup", "a failed lookup changed the table" + w);
    std::string s;
    for (auto &x : mp) s += x.first + " = " + tomsolver::ToString(x.second) + "\n";
    std::ostringstream os;
    os << L;
    if (L.ToString() != s || os.str() != s) c.fail("printing", "printed as " + L.ToString() + w);
    c.eval(6);
}
void runCase(Ctx &c) {
    Rng &r = c.rng;
    CfgGuard g;
    std::vector<T> m;
    std::vector<VarsTable> L;
    std::string hist;
    auto number = [&] { return r.chance(1, 30) ? (r.chance(1, 3) ? (double)NAN : r.chance(1, 2) ? INFINITY : -INFINITY) : genNumber(r, r.chance(1, 2) ? NP_WILD : r.chance(1, 2) ? NP_TEXT : NP_SMALLINT); };
    auto names = [&](int n) {
        std::vector<std::string> v;
        bool few = n <= 6 && r.chance(1, 2);
        while ((int)v.size() < n) { std::string s = few ? fmt("x%d", r.range(0, 6)) : r.chance(1, 3) ? genName(r) : fmt("x%d", r.range(0, 40 + 2 * n)); if (std::find(v.begin(), v.end(), s) == v.end()) v.push_back(s); }
        if (v.size() > 3 && r.chance(1, 2)) { // orders with a structure: sorted, reversed, all but one sorted, rotated, two runs
            std::sort(v.begin(), v.end());
            int n = (int)v.size(), i = r.chance(1, 2) ? n - 1 : r.range(0, n - 1), j = r.chance(1, 2) ? 0 : r.range(0, n - 1);
            switch (r.below(6)) {
            case 0: break;
            case 1: std::reverse(v.begin(), v.end()); break;
            case 2: { std::string s = v[i]; v.erase(v.begin() + i); v.insert(v.begin() + j, s); break; }
            case 3: std::swap(v[i], v[j]); break;
            case 4: std::rotate(v.begin(), v.begin() + i, v.end()); break;
            default: std::reverse(v.begin() + std::min(i, j), v.begin() + std::max(i, j)); break;
            }
        }
        return v;
    };
    auto sorted = [](T t) { std::map<std::string, double> mp; for (size_t i = 0; i < t.names.size(); ++i) mp[t.names[i]] = t.vals[i]; T o; for (auto &x : mp) { o.names.push_back(x.first); o.vals.push_back(x.second); } return o; };
    auto build = [&](const char *&how) {
        T t;
        t.names = names(r.chance(1, 500) ? r.range(151, 700) : r.chance(1, 150) ? r.range(31, 150) : r.chance(1, 12) ? r.range(10, 30) : r.range(1, 6));
        for (size_t i = 0; i < t.names.size(); ++i) t.vals.push_back(number());
        switch (r.below(3)) {
        case 0: {
            how = "names and one value";
            double v = number();
            for (double &x : t.vals) x = v;
            std::vector<std::string> src = t.names;
            L.push_back(VarsTable(src, v));
            for (auto &x : src) x = "changed";
            break;
        }
        case 1: {
            how = "map";
            std::map<std::string, double> mp;
            for (size_t i = 0; i < t.names.size(); ++i) mp[t.names[i]] = t.vals[i];
            L.push_back(VarsTable(mp));
            for (auto &x : mp) x.second = 4242;
            mp["extra"] = 1;
            t = sorted(t);
            break;
        }
        default:
            how = "list";
            t.names.resize(std::min<size_t>(t.names.size(), 3)); t.vals.resize(t.names.size());
            if (t.names.size() == 1) L.push_back(VarsTable{{t.names[0], t.vals[0]}});
            else if (t.names.size() == 2) L.push_back(VarsTable({{t.names[0], t.vals[0]}, {t.names[1], t.vals[1]}}));
            else L.push_back(VarsTable{{t.names[0], t.vals[0]}, {t.names[1], t.vals[1]}, {t.names[2], t.vals[2]}});
            { // a list keeps the caller's order or sorts; whichever it is, it must be consistent
                T s = sorted(t);
                if (L.back().Vars() != t.names) t = s;
            }
        }
        m.push_back(t);
    };
    const char *how = "";
    int steps = r.range(4, 25);
    for (int k = 0; k < steps; ++k) {
        how = "";
        std::string seen; // a name looked up just before the operation and again right after it, in every table that has it
        if (!m.empty() && r.chance(2, 3)) {
            size_t q = r.below(m.size());
            seen = r.pick(m[q].names);
            double got = L[q][seen];
            if (!same(got, m[q].vals[std::find(m[q].names.begin(), m[q].names.end(), seen) - m[q].names.begin()])) c.fail("lookup", "looking up " + seen + " twice gives different values");
        }
        auto again = [&] {
            if (seen.empty()) return;
            std::vector<size_t> ord(m.size());
            for (size_t q = 0; q < ord.size(); ++q) ord[q] = q;
            for (size_t q = ord.size(); q > 1; --q) std::swap(ord[q - 1], ord[r.below(q)]);
            for (size_t q : ord) {
                auto it = std::find(m[q].names.begin(), m[q].names.end(), seen);
                bool has = it != m[q].names.end();
                c.eval();
                if (L[q].Has(seen) != has) c.fail("membership", fmt("table %d: Has(", (int)q) + seen + ") after " + how);
                try {
                    double got = L[q][seen];
                    if (!has) c.fail("unknown-name", "looking up " + seen + " does not throw after " + how);
                    else if (!same(got, m[q].vals[it - m[q].names.begin()])) c.fail("lookup", fmt("table %d: ", (int)q) + seen + fmt(" is %.17g after ", got) + how + ", expected " + txt(m[q]));
                } catch (const std::out_of_range &) { if (has) c.fail("lookup", seen + " is not found after " + how); }
            }
            c.event("looked-up-again");
        };
        int op = m.size() < 2 ? 0 : r.range(0, 7);
        size_t i = m.empty() ? 0 : r.below(m.size()), j = m.empty() ? 0 : r.below(m.size());
        if (m.size() > 6 && op == 0) op = 3;
        switch (op) {
        case 0: build(how); break;
        case 1: L.push_back(L[i]); { T t = m[i]; m.push_back(t); } how = "copying"; break;
        case 2: L[i] = L[j]; { T t = m[j]; m[i] = t; } how = i == j ? "self-assignment" : "assignment"; break;
        case 3: case 4: {
            int n = (int)m[i].names.size();
            Vec v(n);
            for (int q = 0; q < n; ++q) v[q] = m[i].vals[q] = number();
            L[i].SetValues(v);
            v[0] = 99; // the table keeps its own values
            how = "SetValues";
            break;
        }
        case 5: { // values of another table of the same size, or of itself
            if (m[i].names.size() != m[j].names.size()) break;
            std::vector<double> v = m[j].vals;
            m[i].vals = v;
            L[i].SetValues(L[j].Values());
            how = i == j ? "SetValues with its own values" : "SetValues with the values of another table";
            break;
        }
        case 6: { // move out and replace
            VarsTable t = std::move(L[i]);
            L[i] = t;
            judge(c, t, m[i], "moving");
            how = "move and restore";
            break;
        }
        default: { std::swap(L[i], L[j]); std::swap(m[i], m[j]); how = "swap"; }
        }
        hist += std::string(how) + fmt("(%d,%d) ", (int)i, (int)j);
        c.describe(hist);
        if (*how) c.event(how);
        again();
        for (size_t q = 0; q < m.size(); ++q) judge(c, L[q], m[q], how);
        if (m.size() > 7) { L.pop_back(); m.pop_back(); }
    }
    c.nontrivial(hashStr(hist) ^ hashStr(txt(m[0])));
    c.sample(hist);
    // equality: same names, values within epsilon
    Config::Get().epsilon = r.chance(1, 3) ? 1e-9 : r.chance(1, 2) ? std::ldexp(1.0, r.range(-30, 2)) : std::pow(10.0, r.range(-12, 0));
    double eps = Config::Get().epsilon;
    for (size_t i = 0; i < m.size(); ++i) for (size_t j = 0; j < m.size(); ++j) {
        T a = sorted(m[i]), b = sorted(m[j]);
        bool want = a.names == b.names, unclear = false;
        for (size_t q = 0; want && q < a.names.size(); ++q) {
            double x = a.vals[q], y = b.vals[q];
            if (x != x || y != y) { unclear = true; if ((x != x) != (y != y)) want = false; }
            else if (!std::isfinite(x) || !std::isfinite(y)) { if (x != y && (std::isfinite(x) || std::isfinite(y) || x != y)) want = false; else unclear = true; }
            else if (!(std::fabs(x - y) <= eps)) want = false;
        }
        if (want && unclear) continue;
        c.eval();
        c.event(want ? "equal-pairs" : "different-pairs");
        if ((L[i] == L[j]) != want) c.fail("equality", txt(m[i]) + (want ? " is not equal to " : " is equal to ") + txt(m[j]));
    }
    {
        T t = m[0];
        VarsTable X = L[0];
        int n = (int)t.names.size(), q = r.range(0, n - 1);
        bool fin = true;
        for (double &v : t.vals) { v = genNumber(r, NP_SMALLINT); }
        Vec v(n);
        for (int k = 0; k < n; ++k) v[k] = t.vals[k];
        X.SetValues(v);
        VarsTable Y = X;
        double d = r.chance(1, 3) ? eps * 0.4 : r.chance(1, 2) ? eps : eps * 3;
        v[q] += r.chance(1, 2) ? d : -d;
        Y.SetValues(v);
        c.eval();
        bool want = std::fabs(v[q] - t.vals[q]) <= eps;
        if (fin && ((X == Y) != want || (Y == X) != want)) c.fail("equality", fmt("a difference of %.3g in one value with epsilon %.3g", d, eps));
        // a name more, a name renamed
        std::map<std::string, double> mp;
        for (int k = 0; k < n; ++k) mp[t.names[k]] = t.vals[k];
        VarsTable base(mp);
        auto more = mp;
        more["zz_more"] = 0;
        VarsTable Z(more);
        std::string old = mp.begin()->first;
        double ov = mp.begin()->second;
        auto ren = mp;
        ren.erase(old);
        ren[old + "_"] = ov;
        c.eval(2);
        if (ren.size() == mp.size() && VarsTable(ren) == base) c.fail("equality", "tables with different names are equal");
        if (base == Z || Z == base) c.fail("equality", "tables with different counts are equal");
        if (!(X == base) || !(base == X)) c.fail("equality", "the order of construction matters");
    }
}
#include "common_impl.h"
