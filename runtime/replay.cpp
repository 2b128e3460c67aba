// Native implementation of the harness interface: feeds the values of one engine path (a counterexample
// or a sample) to the same harness, compiled with the system compiler against the real libraries.
//   replay INPUTS OBS_OUT [name=int ...]
// exit 0: ran through; 10: an assertion failed; 77: an assumption does not hold for these values.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <map>
#include <mutex>
#include <string>
#include <unistd.h>
#include <vector>
#ifndef ENTRY
#error ENTRY must name the harness entry point
#endif
extern "C" void ENTRY();
namespace
{
std::map<std::string, std::deque<unsigned long long>> g_inputs;
std::map<std::string, long long> g_options;
std::string g_obs;
const char* g_obsFile = nullptr;
// no pthread mutex here: the controlled scheduler interposes those
volatile int g_spin = 0;
struct spin { spin() { while (__sync_lock_test_and_set(&g_spin, 1)) ; } ~spin() { __sync_lock_release(&g_spin); } };
void flush_obs() { if (!g_obsFile) return; if (FILE* f = fopen(g_obsFile, "w")) { fwrite(g_obs.data(), 1, g_obs.size(), f); fclose(f); } }
[[noreturn]] void done(int rc) { flush_obs(); fflush(stdout); fflush(stderr); _exit(rc); }
}
extern "C" {
unsigned long long sym_make(const char* name, int bits)
{
    spin s;
    auto& q = g_inputs[name];
    unsigned long long v = 0;
    if (!q.empty()) { v = q.front(); q.pop_front(); }
    if (bits < 64) v &= (1ull << bits) - 1;
    return v;
}
void sym_assume(int c) { if (!c) { printf("ASSUME-FAILED\n"); done(77); } }
void sym_assert_impl(int c, const char* msg) { if (!c) { printf("ASSERT %s\n", msg); done(10); } }
void sym_fail(const char* msg) { printf("ASSERT %s\n", msg); done(10); }
void sym_reach(const char*) {}
void sym_observe(const char* name, unsigned long long v) { spin s; g_obs += name; g_obs += ' '; g_obs += std::to_string(v); g_obs += '\n'; }
long long sym_option(const char* name, long long def) { auto it = g_options.find(name); return it == g_options.end() ? def : it->second; }
int sym_is_engine() { return 0; }
unsigned long long sym_concretize(unsigned long long v) { return v; }
void sym_end_path() { done(0); }
void sym_stub(const char*) {}
__attribute__((weak)) void sched_start() {}
}
static void on_terminate()
{
    if (auto e = std::current_exception()) {
        try { std::rethrow_exception(e); }
        catch (const std::exception& x) { printf("TERMINATE uncaught exception: %s\n", x.what()); }
        catch (...) { printf("TERMINATE uncaught exception\n"); }
    } else printf("TERMINATE std::terminate called\n");
    done(11);
}
int main(int argc, char** argv)
{
    if (argc < 3) return 2;
    std::set_terminate(on_terminate);
    if (FILE* f = fopen(argv[1], "r")) {
        char line[512];
        while (fgets(line, sizeof line, f)) { // name (which may contain blanks), width, value
            char* v = strrchr(line, ' ');
            if (!v) continue;
            *v = 0;
            char* w = strrchr(line, ' ');
            if (!w) continue;
            *w = 0;
            g_inputs[line].push_back(strtoull(v + 1, nullptr, 10));
        }
        fclose(f);
    }
    g_obsFile = argv[2];
    for (int i = 3; i < argc; ++i) if (char* e = strchr(argv[i], '=')) g_options[std::string(argv[i], e - argv[i])] = atoll(e + 1);
    sched_start();
    ENTRY();
    done(0);
}
