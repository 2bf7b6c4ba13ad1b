// C01: every byte string parses to a well-formed expression or is rejected with a std::runtime_error.
#include "common.h"
using namespace h;
const char *PROP = "C01";
static const std::vector<std::string> SYM{"(", ")", "+", "*", "^", "x", "2", "sin", " ", "1e"};
static const int BATCH = 500;
static int L(bool th) { return th ? 7 : 5; }
static uint64_t nExh(bool th) { uint64_t n = 0, p = 1; for (int i = 0; i <= L(th); ++i) { n += p; p *= SYM.size(); } return n; }
static uint64_t bExh(bool th) { return (nExh(th) + BATCH - 1) / BATCH; }
uint64_t totalCases(bool th) { return bExh(th) + (th ? 40000 : 2500); }
void setupCheck(Ctx &) {}

static const char *const PROBE[] = {"x+2*y", "-(a^b)", "sin(x)/cos y", "1e-3", "((q))"};
static void probe(Ctx &c) {
    static const A want[] = {aBin(ADD, aVar("x"), aBin(MUL, aNum(2), aVar("y"))), aUn(NEG, aBin(POW, aVar("a"), aVar("b"))),
                             aBin(DIV, aUn(SIN, aVar("x")), aUn(COS, aVar("y"))), aNum(1e-3), aVar("q")};
    for (int i = 0; i < 5; ++i) {
        bool ok = false;
        try { ok = eq(tomsolver::Parse(PROBE[i]), want[i]); } catch (const std::exception &) {}
        if (!ok) c.fail("later-parse-changed", std::string("after this input, Parse no longer handles ") + PROBE[i]);
        c.event("probe-parses");
    }
}
// one input, handed over in a buffer of exactly its size (no terminator behind it)
static void one(Ctx &c, const std::string &s) {
    std::unique_ptr<char[]> buf(new char[s.size() ? s.size() : 1]);
    memcpy(buf.get(), s.data(), s.size());
    c.eval();
    c.nontrivial(hashStr(s));
    try {
        Node n = tomsolver::Parse(tomsolver::internal::StringView{buf.get(), s.size()});
        if (!n) c.fail("null", "Parse returned an empty handle");
        n->CheckParent();
        std::string t = n->ToString();
        if (t.empty()) c.fail("empty-text", "the returned expression prints as nothing");
        Node m = tomsolver::Clone(n);
        m->CheckParent();
        if (!m->Equal(n) || !n->Equal(m)) { // not even equal to its copy: only nan may do that
            if (t.find("nan") == std::string::npos) c.fail("not-equal-copy", "the returned expression differs from its copy: " + t.substr(0, 200));
        }
        size_t nv = n->GetAllVarNames().size();
        c.event(nv ? "accepted-with-variables" : "accepted-constant");
    } catch (const tomsolver::SingleParseError &e) {
        c.event("rejected-single");
        if (!e.what() || !*e.what()) c.fail("empty-what", "the error has no message");
    } catch (const tomsolver::MultiParseError &e) {
        c.event("rejected-multi");
        if (!e.what() || !*e.what()) c.fail("empty-what", "the error has no message");
    } catch (const Violation &) {
        throw;
    } catch (const std::runtime_error &e) {
        c.event("rejected-other-runtime-error");
    } catch (const std::exception &e) {
        c.fail("wrong-exception", std::string("an exception not derived from runtime_error escaped: ") + e.what());
    } catch (...) {
        c.fail("wrong-exception", "a foreign exception escaped");
    }
}
static std::string rep(const std::string &u, size_t n) { std::string s; s.reserve(u.size() * n); while (n--) s += u; return s; }
static std::string printable(const std::string &s) {
    std::string o;
    for (unsigned char ch : s.substr(0, 400)) if (ch >= 32 && ch < 127 && ch != '\\') o += (char)ch; else o += fmt("\\x%02x", ch);
    if (s.size() > 400) o += fmt("... (%zu bytes)", s.size());
    return o;
}
static std::string mutate(Rng &r, std::string s) {
    static const std::string bits[] = {"(", ")", "+", "-", "*", "/", "^", "&", "|", "%", " ", "e", "E", ".", "1", "0", "x", "_", "sin", "log10", "e+", "1e-", ",", "\n", std::string(1, 0), "\x80", "\xff", "#", "''", "1e999", "0x1p3", "nan", "inf", "arc", "\xce\xb1", "..", "()", ")(", "log2(", "--", "1e+5"};
    int n = r.range(1, 4);
    while (n--) {
        size_t p = r.below(s.size() + 1);
        switch (r.below(6)) {
        case 0: if (!s.empty()) s.erase(std::min(p, s.size() - 1), r.range(1, 3)); break;
        case 1: case 2: s.insert(p, bits[r.below(sizeof bits / sizeof *bits)]); break;
        case 3: if (!s.empty()) s[std::min(p, s.size() - 1)] = (char)r.below(256); break;
        case 4: s = s.substr(0, p); break;
        default: { size_t q = r.below(s.size() + 1); if (p > q) std::swap(p, q); s.insert(r.below(s.size() + 1), s.substr(p, q - p)); }
        }
    }
    return s;
}
static std::string big(Rng &r, bool th) {
    size_t n = r.chance(1, 2) ? r.range(20, 3000) : (size_t)r.range(20000, th ? 400000 : 60000);
    switch (r.below(26)) {
    case 0: return rep("(", n);
    case 1: return rep(")", n);
    case 2: return rep("(", n) + "x" + rep(")", n);
    case 3: return rep("(", n) + "x" + rep(")", n + r.range(-2, 2));
    case 4: return rep("-", n) + "x";
    case 5: return rep("-", n);
    case 6: return rep("sin(", n) + "x" + rep(")", n);
    case 7: return rep("sin ", n) + "x";
    case 8: return rep("sin ", n);
    case 9: return "x" + rep("+x", n);
    case 10: return "x" + rep("^x", n);
    case 11: return "x" + rep("^x", n) + "^";
    case 12: return rep("x", n);
    case 13: return "_" + rep("a1_Z", n) + "*2";
    case 14: return rep("9", n);
    case 15: return "0." + rep("0", n) + "1";
    case 16: return rep("0", n) + "1e" + rep("0", n) + "5";
    case 17: return "1e" + rep("9", n);
    case 18: return "1e-" + rep("9", n);
    case 19: return rep(" \t\n", n) + "x" + rep("\r ", n);
    case 20: return rep(" ", n);
    case 21: return rep("x ", std::min<size_t>(n, 600));
    case 22: return "x" + rep("*(x", n) + rep(")", n);
    case 23: return rep("(x+", n) + "x" + rep(")", n);
    case 24: return rep("2^-", n) + "2";
    default: return rep("(x)", std::min<size_t>(n, 600));
    }
}
void runCase(Ctx &c) {
    Rng &r = c.rng;
    uint64_t b = bExh(c.thorough);
    if (c.idx < b) {
        uint64_t from = c.idx * BATCH, to = std::min<uint64_t>(from + BATCH, nExh(c.thorough));
        for (uint64_t i = from; i < to; ++i) {
            uint64_t k = i, len = 0, p = 1;
            while (k >= p) { k -= p; p *= SYM.size(); ++len; }
            std::string s;
            for (uint64_t j = 0; j < len; ++j) { s += SYM[k % SYM.size()]; k /= SYM.size(); }
            c.describe(printable(s));
            one(c, s);
            c.event("exhaustive-strings");
        }
        probe(c);
        return;
    }
    int kind = (int)r.below(10);
    int reps = kind < 8 ? 40 : 1;
    for (int q = 0; q < reps; ++q) {
        std::string s;
        if (kind < 2) { // raw bytes
            size_t n = r.chance(1, 10) ? r.range(100, 3000) : r.range(0, 24);
            int mode = (int)r.below(3);
            for (size_t i = 0; i < n; ++i) s += mode == 0 ? (char)r.below(256) : mode == 1 ? (char)r.range(32, 126) : "()+-*/^&|%xy12e.E _sincoslg\t\n\0"[r.below(30)];
            c.event("random-bytes");
        } else if (kind < 8) {
            GenOpt o;
            o.size = r.range(1, 30);
            o.ops = allOps();
            o.vars = {"x", "y", genName(r)};
            o.numProfile = r.chance(1, 2) ? NP_TEXT : NP_SMALLINT;
            RenderOpt ro;
            ro.paren = r.below(3);
            ro.space = r.below(3);
            ro.altNames = ro.numAlt = r.chance(1, 2);
            s = render(genAst(r, o), r, ro);
            if (r.chance(4, 5)) { s = mutate(r, s); c.event("mutated-expressions"); } else c.event("valid-expressions");
        } else {
            s = big(r, c.thorough);
            if (r.chance(1, 4)) s = mutate(r, s);
            c.event("oversized-inputs");
        }
        c.describe(printable(s));
        if (q == 0) c.sample(printable(s));
        one(c, s);
    }
    probe(c);
}
#include "common_impl.h"
