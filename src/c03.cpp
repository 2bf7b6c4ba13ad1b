// C03: parse diagnostics name a position inside the input and point at it.
#include "common.h"
using namespace h;
const char *PROP = "C03";
static const std::vector<std::string> S1{"(", ")", "+", "*", "x", "2x", "sin ", " ", "\n"};
static int L1(bool th) { return th ? 6 : 5; }
static uint64_t cnt(size_t a, int l) { uint64_t n = 0, p = 1; for (int i = 0; i <= l; ++i) { n += p; p *= a; } return n; }
static const int BATCH = 300;
static uint64_t nb(bool th) { return (cnt(S1.size(), L1(th)) + BATCH - 1) / BATCH; }
uint64_t totalCases(bool th) { return nb(th) + (th ? 60000 : 3000); }
void setupCheck(Ctx &) {}

static std::set<int> tokenStarts(const std::string &s) {
    std::set<int> r;
    bool in = false;
    for (size_t i = 0; i < s.size(); ++i) {
        bool sp = s[i] == ' ' || (s[i] >= '\t' && s[i] <= '\r');
        if (sp) { in = false; continue; }
        if (strchr("()+-*/^&|%", s[i])) { r.insert((int)i); in = false; continue; } // a signed exponent only adds a candidate
        if (!in) r.insert((int)i);
        in = true;
    }
    return r;
}
// columns of every "copy of the input, then a caret line" in the message
static std::vector<int> carets(const std::string &msg, const std::string &content) {
    std::vector<int> res;
    std::string pat = "\n" + content + "\n";
    for (size_t p = msg.find(pat); p != std::string::npos; p = msg.find(pat, p + 1)) {
        size_t q = p + pat.size(), col = 0;
        while (q < msg.size() && msg[q] == ' ') ++q, ++col;
        if (q < msg.size() && msg[q] == '^') res.push_back((int)col);
    }
    return res;
}
static void one(Ctx &c, const std::string &s) {
    if (s.find('\0') != std::string::npos) return;
    RefParse R = refParse(s, false);
    if (R.why == "unspec" || R.ok) return;
    c.eval();
    c.nontrivial(hashStr(s));
    std::string q = "[" + s.substr(0, 300) + "] (" + R.why + ")";
    // the buffer dies before the message is read
    std::unique_ptr<std::string> buf(new std::string(s));
    try {
        tomsolver::Parse(*buf);
        c.fail("accepted-invalid", q + " was accepted");
    } catch (const tomsolver::SingleParseError &e) {
        int pos = e.GetPos();
        buf->assign(s.size(), '#');
        buf.reset();
        std::string what = e.what();
        c.event(("single-" + R.why).c_str());
        if (R.why == "juxtaposed") c.fail("kind", q + ": juxtaposed operands must be reported one by one");
        if (pos < 0 || (pos >= (int)s.size() && !(s.empty() && pos == 0))) c.fail("position-outside", q + fmt(": position %d is outside the input", pos));
        if (!R.positions.count(pos)) {
            std::string w;
            for (int p : R.positions) w += fmt(" %d", p);
            c.fail("position", q + fmt(": position %d is not an offending token (expected one of%s)", pos, w.c_str()));
        }
        auto cs = carets(what, s);
        if (cs.size() != 1) c.fail("caret", q + fmt(": the message shows %zu caret diagnostics: ", cs.size()) + what.substr(0, 400));
        if (cs[0] != pos) c.fail("caret", q + fmt(": the caret is in column %d, the position is %d", cs[0], pos));
        tomsolver::SingleParseError copy = e; // diagnostics may be stored
        if (copy.GetPos() != pos || what != copy.what()) c.fail("copy", q + ": a copy of the error differs");
    } catch (const tomsolver::MultiParseError &e) {
        buf->assign(s.size(), '#');
        buf.reset();
        std::string what = e.what();
        c.event(("multi-" + R.why).c_str());
        if (!R.juxta) c.fail("kind", q + ": reported as juxtaposed operands: " + what.substr(0, 300));
        auto cs = carets(what, s);
        if (R.why == "juxtaposed" && (int)cs.size() != R.juxta) c.fail("count", q + fmt(": %zu diagnostics for %d left-over operands: ", cs.size(), R.juxta) + what.substr(0, 400));
        std::set<int> st = tokenStarts(s), seen;
        for (int p : cs) {
            if (!st.count(p)) c.fail("caret", q + fmt(": a caret in column %d points at no token", p));
            if (!seen.insert(p).second) c.fail("caret", q + fmt(": two carets in column %d", p));
        }
        c.event("caret-lines", cs.size());
    } catch (const Violation &) {
        throw;
    } catch (const std::runtime_error &e) {
        c.fail("no-position", q + ": rejected with an error that has no position: " + e.what());
    }
}
void runCase(Ctx &c) {
    Rng &r = c.rng;
    if (c.idx < nb(c.thorough)) {
        uint64_t from = c.idx * BATCH, to = std::min<uint64_t>(from + BATCH, cnt(S1.size(), L1(c.thorough)));
        for (uint64_t i = from; i < to; ++i) {
            uint64_t k = i, len = 0, p = 1;
            while (k >= p) { k -= p; p *= S1.size(); ++len; }
            std::string s;
            for (uint64_t j = 0; j < len; ++j) { s += S1[k % S1.size()]; k /= S1.size(); }
            c.describe(s);
            one(c, s);
        }
        c.event("exhaustive-strings", to - from);
        return;
    }
    for (int q = 0; q < 15; ++q) {
        GenOpt o;
        o.size = r.chance(1, 20) ? r.range(100, 700) : r.range(1, 25);
        o.ops = allOps();
        o.vars = {genName(r), genName(r), "x"};
        o.numProfile = r.chance(1, 2) ? NP_SMALLINT : NP_TEXT;
        RenderOpt ro;
        ro.paren = r.below(3);
        ro.space = r.below(4);
        ro.numAlt = ro.altNames = r.chance(1, 2);
        std::string s = render(genAst(r, o), r, ro);
        int n = r.range(1, 3);
        while (n--) {
            static const std::string ins[] = {"(", ")", "*", "^", " 3x ", " $a ", " y ", " 7 ", " sin ", "\xce\xb1", "1e-", "%", "/", "(", ")", " x y z ", "()", " 1.2.3 ", "@", " cos(2) ", "'", "1_", "\x80", "+", "-"};
            size_t at = r.below(s.size() + 1);
            if (r.chance(1, 4) && !s.empty()) s.erase(std::min(at, s.size() - 1), 1);
            else s.insert(at, ins[r.below(sizeof ins / sizeof *ins)]);
        }
        c.describe(s);
        if (q == 0) c.sample(s);
        one(c, s);
    }
    if (r.chance(1, 40)) { // long juxtapositions and long lines
        std::string s;
        int n = r.range(2, 120);
        for (int i = 0; i < n; ++i) s += r.pick(std::vector<std::string>{"x ", "(y+1) ", "3*z ", "sin x ", "-2 ", "(q) "});
        c.describe(s);
        one(c, s);
        s = std::string(r.range(1000, 20000), ' ') + "x +" + std::string(r.range(10, 9000), '\n') + "*y";
        c.describe(s.substr(0, 50) + "... blanks");
        one(c, s);
    }
}
#include "common_impl.h"
