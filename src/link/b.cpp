#include <tomsolver/tomsolver.h>
#include <iostream>
#include <string>
using namespace tomsolver;
std::string a_early();
Config *a_config();
void a_set(double, int);
Node a_make();
std::string a_use(const Node &);
VarsTable a_solve();
int a_catch(void (*f)());
Mat a_mat();
namespace { std::string again() {
    Node n = Parse("sin(x)^2 + 3*arctan(y) - log10(100)");
    Node d = Diff(n, "x");
    Simplify(d);
    Node s = Subs(n, std::map<std::string, double>{{"x", 0.5}, {"y", 2}});
    std::string text = n->ToString() + ";" + d->ToString() + ";" + ToString(s->Vpa()) + ";" + ToString(1e-20) + ";" + ToString(0.1);
    try { Parse("x + * y"); } catch (const std::exception &) { text += ";rejected"; }
    try { text += Solve(SymVec{Parse("z^2-2")}).ToString(); } catch (const std::exception &) { text += ";nosolve"; }
    try { Var("1x"); } catch (const std::exception &) { text += ";badname"; }
    return text;
}
std::string early = again();
}
#define CHECK(x) do { if (!(x)) { std::cout << "FAILED: " #x "\n"; return 1; } } while (0)
int main() {
    CHECK(a_config() == &Config::Get());
    a_set(0.25, 7);
    CHECK(Config::Get().epsilon == 0.25 && Config::Get().maxIterations == 7);
    CHECK(Mat({{1}}) == Mat({{1.2}}));
    Config::Get().Reset();
    CHECK(a_config()->epsilon == 1e-9 && a_config()->maxIterations == 100);
    CHECK(!(Mat({{1}}) == Mat({{1.2}})));
    Config::Get().initialValue = -1;
    CHECK(a_config()->initialValue == -1);
    Config::Get().Reset();
    Node n = a_make();
    CHECK(n->Equal(Parse("x*2+y")));
    CHECK(a_use(n) == Diff(n, "x")->ToString() + n->ToString());
    n = n + a_make();
    CHECK(n->ToString() == Parse("x*2+y+(x*2+y)")->ToString());
    VarsTable t = a_solve();
    CHECK(t["x"] > 1.99999 && t["x"] < 2.00001 && t["y"] > 1.99999 && t["y"] < 2.00001);
    CHECK(a_catch([] { Parse("x+("); }) == 1);
    CHECK(a_catch([] { Mat({{1, 1}, {1, 1}}).Inverse(); }) == 2);
    CHECK(a_catch([] { Num(1)->Vpa(); }) == 0);
    CHECK(a_catch([] { (Var("x") + Num(1))->Vpa(); }) == 3);
    CHECK(Det(a_mat(), 2) == -1);
    std::string now = again();
    CHECK(a_early() == now);
    CHECK(early == now);
    std::cout << "OK " << now << "\n";
    return 0;
}
