// C05: printed numbers, matrices and variable tables denote the stored values.
#include "common.h"
#include <iomanip>
using namespace h;
const char *PROP = "C05";
uint64_t totalCases(bool th) { return th ? 60000 : 2400; }
void setupCheck(Ctx &) {}

static std::string checkNum(Ctx &c, double v) {
    std::string t = tomsolver::ToString(v);
    c.eval();
    c.nontrivial(bitsOf(v));
    std::string q = num17(v) + " prints as [" + t + "]";
    char *e = nullptr;
    double w = strtod(t.c_str(), &e);
    if (t.empty() || *e) c.fail("not-a-number", q);
    for (char ch : t) if (!(isdigit((unsigned char)ch) || strchr("+-.eE", ch))) c.fail("not-decimal", q);
    double m = std::fabs(v);
    if (m >= 1 || m <= 1e-16) { if (w != v) c.fail("value", q + ", which is " + num17(w)); c.event("exact-range"); }
    else { if (!(std::fabs(w - v) <= 1e-16)) c.fail("value", q + ", off by " + num17(w - v)); c.event("absolute-range"); }
    if (v < 0 && t[0] != '-') c.fail("sign", q);
    if (v > 0 && t[0] == '-') c.fail("sign", q);
    std::string mant = t.substr(0, t.find_first_of("eE"));
    if (mant.find('.') != std::string::npos && (mant.back() == '0' || mant.back() == '.')) c.fail("trailing-zeros", q);
    if (mant[mant[0] == '-'] == '.') c.fail("no-leading-digit", q);
    return t;
}
// numeric tokens of a bracketed table, row by row
static std::vector<std::vector<std::string>> rows(const std::string &s, const char *sep) {
    std::vector<std::vector<std::string>> R;
    std::stringstream ss(s);
    std::string line;
    while (std::getline(ss, line)) {
        std::vector<std::string> row;
        std::string cur;
        for (size_t i = 0; i <= line.size(); ++i) {
            char ch = i < line.size() ? line[i] : ' ';
            if (strchr(sep, ch)) { if (!cur.empty()) row.push_back(cur); cur.clear(); } else cur += ch;
        }
        if (!row.empty()) R.push_back(row);
    }
    return R;
}
template <class T> static void streamSame(Ctx &c, const T &x, const std::string &t, const char *what) {
    std::stringstream a, b;
    a << x;
    b << std::setprecision(3) << std::fixed << std::showpos << std::hex << x;
    if (a.str() != t || b.str() != t) c.fail("stream", std::string("the stream operator prints a ") + what + " differently: [" + a.str() + "] [" + b.str() + "] instead of [" + t + "]");
    c.event("streamed");
}
// one pair of brackets encloses all elements, commas separate the elements of a row
static void layout(Ctx &c, const std::string &t, size_t m, size_t n, const char *what) {
    size_t last = t.find_last_not_of(" \n\t");
    bool ok = last != std::string::npos && t[0] == '[' && t[last] == ']' && std::count(t.begin(), t.end(), '[') == 1 && std::count(t.begin(), t.end(), ']') == 1;
    if (!ok || (size_t)std::count(t.begin(), t.end(), ',') != m * (n - 1)) c.fail("layout", std::string("the text of a ") + what + " is badly laid out: " + t.substr(0, 600));
    c.eval();
    c.event("layouts");
}
void runCase(Ctx &c) {
    using namespace tomsolver;
    Rng &r = c.rng;
    int mode = (int)(c.idx % 4);
    if (mode == 0) {
        for (int i = 0; i < 200; ++i) {
            double v = genNumber(r, r.chance(1, 2) ? NP_TEXT : r.chance(1, 2) ? NP_WILD : NP_MODERATE);
            c.describe(num17(v));
            if (i == 0) c.sample(num17(v));
            std::string t = checkNum(c, v);
            // the text of a constant expression is the text of its number
            std::string nt = Num(v)->ToString();
            if (nt != t) c.fail("node-text", num17(v) + ": constant expressions print it as [" + nt + "], ToString as [" + t + "]");
            // neighbours
            for (int d = 0; d < 2; ++d) { double w = std::nextafter(v, d ? HUGE_VAL : -HUGE_VAL); if (std::isfinite(w)) checkNum(c, w); }
        }
        return;
    }
    auto gen = [&] { return genNumber(r, r.pick(std::vector<int>{NP_TEXT, NP_WILD, NP_MODERATE, NP_ZERO_ONE})); };
    if (mode == 1) {
        int top = r.chance(1, 8) ? 130 : 30, m = r.chance(1, 12) ? r.range(8, top) : r.range(1, 6), n = r.chance(1, 12) ? r.range(8, top) : r.range(1, 6);
        if (r.chance(1, 5)) n = 1;
        c.describe(fmt("matrix %dx%d", m, n));
        Mat M(m, n);
        std::vector<std::vector<std::string>> want(m);
        for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) { double v = gen(); M.Value(i, j) = v; want[i].push_back(checkNum(c, v)); }
        std::string t = M.ToString();
        if (rows(t, "[], \t") != want) c.fail("matrix-text", "a matrix prints wrongly: " + t.substr(0, 600));
        streamSame(c, M, t, "matrix");
        layout(c, t, m, n, "matrix");
        if (n == 1) {
            Vec v = M.ToVec();
            if (v.ToString() != t) c.fail("vector-text", "a vector prints unlike its column matrix");
            streamSame(c, v, t, "vector");
        }
        SymMat S(M);
        std::string st = S.ToString();
        if (rows(st, "[], \t") != want) c.fail("symmat-text", "a symbolic matrix of constants prints wrongly: " + st.substr(0, 600));
        streamSame(c, S, st, "symbolic matrix");
        layout(c, st, m, n, "symbolic matrix");
        c.event("matrices");
    } else if (mode == 2) {
        int top = r.chance(1, 40) ? 25 : 6, m = r.range(1, top), n = r.range(1, top);
        c.describe(fmt("symbolic matrix %dx%d", m, n));
        SymMat S(m, n);
        std::vector<std::vector<std::string>> want(m);
        GenOpt o;
        o.ops = allOps();
        o.vars = {"x", genName(r), "y"};
        o.numProfile = NP_TEXT;
        for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) {
            o.size = r.range(1, 10);
            S.Value(i, j) = toNode(genAst(r, o));
            want[i].push_back(S.Value(i, j)->ToString());
        }
        std::string t = S.ToString();
        c.eval();
        c.nontrivial(hashStr(t));
        if (rows(t, "[], \t") != want) c.fail("symmat-text", "a symbolic matrix prints wrongly: " + t.substr(0, 600));
        streamSame(c, S, t, "symbolic matrix");
        layout(c, t, m, n, "symbolic matrix");
        SymMat K = S.Clone();
        if (K.ToString() != t) c.fail("symmat-text", "a copy of a symbolic matrix prints differently");
        SymVec f = S.ToSymVecOneByOne();
        std::vector<std::vector<std::string>> flat;
        for (auto &w : want) for (auto &x : w) flat.push_back({x});
        if (rows(f.ToString(), "[], \t") != flat) c.fail("symvec-text", "a symbolic vector prints wrongly: " + f.ToString().substr(0, 600));
        layout(c, f.ToString(), m * n, 1, "symbolic vector");
        c.event("symbolic-matrices");
    } else {
        std::map<std::string, double> m;
        int n = r.chance(1, 60) ? r.range(13, 300) : r.range(1, 12);
        while ((int)m.size() < n) m[genName(r)] = gen();
        VarsTable t(m);
        std::string s = t.ToString();
        c.describe("table " + s);
        c.nontrivial(hashStr(s));
        auto R = rows(s, " =\t");
        if (R.size() != m.size()) c.fail("table-text", fmt("%zu lines for %zu variables: ", R.size(), m.size()) + s);
        std::set<std::string> seen;
        for (auto &row : R) {
            if (row.size() != 2 || !m.count(row[0]) || !seen.insert(row[0]).second) c.fail("table-text", "a variable table prints wrongly: " + s);
            if (row[1] != checkNum(c, m[row[0]])) c.fail("table-text", "a variable table prints " + row[0] + " wrongly: " + s);
        }
        streamSame(c, t, s, "variable table");
        c.event("tables");
    }
}
#include "common_impl.h"
