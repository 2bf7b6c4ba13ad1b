// modules whose workloads C24 repeats under allocation accounting and valgrind
#define COMPOSITE
#include "../problems.h"
namespace n13 {
#include "../c13.cpp"
}
namespace n19 {
#include "../c19.cpp"
}
namespace n20 {
#include "../c20.cpp"
}
struct Module { const char *name; uint64_t (*total)(bool); void (*run)(h::Ctx &); };
std::vector<Module> modules_c() { return {{"C13", n13::totalCases, n13::runCase}, {"C19", n19::totalCases, n19::runCase}, {"C20", n20::totalCases, n20::runCase}, }; }
