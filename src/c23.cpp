// C23: programs whose observed results are recorded; run.py compares the recordings of the builds against the
// library and against the single header.
#include "workload.h"
using namespace h;
using namespace tomsolver;
const char *PROP = "C23";
uint64_t totalCases(bool th) { return th ? 40000 : 1800; }
void setupCheck(Ctx &) {}
void runCase(Ctx &c) {
    Rng &r = c.rng;
    CfgGuard g;
    auto &cfg = Config::Get();
    if (r.chance(2, 3)) {
        randomSolveConfig(r);
        if (cfg.maxIterations > 12) cfg.maxIterations = 12;
    } else cfg.maxIterations = 20;
    c.describe(cfgText());
    if (c.trace) { fprintf(c.trace, "#case %llu %s\n", (unsigned long long)c.idx, cfgText().c_str()); fflush(c.trace); }
    Work w(r.next());
    w.judgeRounding = true;
    w.run(6);
    if (r.chance(1, 4)) w.atTolerance();
    for (auto &l : w.lines) {
        c.eval();
        c.nontrivial(hashStr(l));
        size_t k = l.find(':');
        if (l[0] == '~') c.event("decided by rounding");
        c.event(("step " + l.substr(0, k)).c_str());
        if (c.trace) {
            std::string o;
            for (unsigned char ch : l) { if (ch < 32 || ch == '\\' || ch > 126) o += fmt("\\%02x", ch); else o += (char)ch; }
            fprintf(c.trace, "%s\n", o.c_str());
        }
    }
    if (!w.lines.empty()) c.sample(w.lines[0]);
    c.caseText += " " + (w.lines.empty() ? "" : w.lines[0]);
}
#include "common_impl.h"
