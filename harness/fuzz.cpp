// libFuzzer entry: the input is the choice sequence of one case of the property named by PBT_PROP.
#include "engine.h"
#include <cstdio>
#include <cstdlib>
#include <exception>
std::string exName(const std::exception& e);
static std::vector<Prop>* registry = nullptr;
const std::vector<Prop>& allProps() { if (!registry) registry = new std::vector<Prop>; return *registry; }
Register::Register(const char* id, const char* rule, void (*fn)(Ctx&)) { allProps(); registry->push_back({id, rule, fn}); }
const Prop* findProp(const std::string& id) { for (auto& p : allProps()) if (id == p.id) return &p; return nullptr; }
extern "C" const char* __asan_default_options() { return "detect_leaks=0:max_allocation_size_mb=3000:detect_stack_use_after_return=0:handle_abort=0:detect_odr_violation=0"; }
extern "C" const char* __ubsan_default_options() { return "halt_on_error=1:print_stacktrace=1"; }

static uint64_t evals, nontrivial;
static FILE* hashes;
static void report() {
    if (hashes) fclose(hashes);
    hashes = nullptr;
    fprintf(stderr, "PBT-STATS evals=%llu nontrivial=%llu\n", (unsigned long long)evals, (unsigned long long)nontrivial);
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
    static const Prop* p = [] {
        const char* id = getenv("PBT_PROP");
        const Prop* q = findProp(id ? id : "C19");
        if (!q) { fprintf(stderr, "no such property\n"); exit(2); }
        if (const char* h = getenv("PBT_HASHES")) hashes = fopen(h, "wb");
        atexit(report);
        return q;
    }();
    Source s(data, size);
    Ctx c(s, false);
    std::string msg;
    try { p->fn(c); }
    catch (const Fail& f) { msg = f.msg; }
    catch (const std::exception& e) { msg = "unexpected exception " + exName(e); }
    evals++;
    if (c.nontrivial) { nontrivial++; if (hashes) fwrite(&c.hash, 8, 1, hashes); }
    if (!msg.empty()) { fprintf(stderr, "PROPERTY FAILED: %s\n", msg.c_str()); abort(); }
    return 0;
}
