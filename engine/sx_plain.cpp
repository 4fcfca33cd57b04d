// Native replay runtime: the harness, uninstrumented, on one concrete input.
//   replay <case> name=value ...     exit 0: all assertions hold, 1: assertion failed, 3: input violates an assumption
#include "sx_api.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <map>
#include <string>
#include <vector>
namespace { struct C { const char *n; sx::case_fn f; }; std::vector<C> *cs; std::map<std::string, std::string> in; }
namespace sx { reg::reg(const char *n, case_fn f, const char *) { if (!cs) cs = new std::vector<C>; cs->push_back({n, f}); } }
const char *sxPlainInput(const char *name) { auto it = in.find(name); return it == in.end() ? nullptr : it->second.c_str(); }
extern "C" {
uint32_t __sx_shadow64(uint64_t) noexcept { return 0; }
bool __sx_taint1(bool c, uint32_t) noexcept { return c; }
uint32_t __sx_taint32(uint32_t c, uint32_t) noexcept { return c; }
uint64_t __sx_taint64(uint64_t c, uint32_t) noexcept { return c; }
uint64_t __sx_sel64(bool c, uint64_t a, uint64_t b) noexcept { return c ? a : b; }
uint32_t __sx_input(const char *name, uint32_t, uint64_t lo, uint64_t hi, uint64_t *out) noexcept {
    uint64_t v = lo; if (auto *s = sxPlainInput(name)) v = strtoull(s, nullptr, 10);
    if (v < lo || v > hi) v = lo;
    *out = v; return 0;
}
uint64_t __sx_plain64(uint64_t v) noexcept { return v; }
uint32_t __sx_bv_op(uint32_t, uint32_t, uint32_t, uint32_t, const uint64_t *, const uint64_t *) noexcept { return 0; }
uint32_t __sx_bv_resize(uint32_t, uint32_t, bool) noexcept { return 0; }
uint32_t __sx_bv_extract(uint32_t, uint32_t, uint32_t) noexcept { return 0; }
uint32_t __sx_ff_op(uint32_t, uint32_t, uint32_t, uint32_t, const uint64_t *, const uint64_t *) noexcept { return 0; }
uint32_t __sx_ff_of_bv(uint32_t, uint32_t) noexcept { return 0; }
uint32_t __sx_bv_of_ff(uint32_t, uint32_t) noexcept { return 0; }
uint32_t __sx_ff_cmp(uint32_t, uint32_t, uint32_t, uint32_t, const uint64_t *, const uint64_t *) noexcept { return 0; }
uint32_t __sx_ite(bool, uint32_t, uint32_t, uint32_t, uint32_t, const uint64_t *, const uint64_t *) noexcept { return 0; }
static std::vector<std::vector<uint64_t>> mods;
static void dec(const char *s, uint64_t *o, unsigned n) {
    for (unsigned i = 0; i < n; i++) o[i] = 0;
    for (; s && *s; s++) { unsigned __int128 c = *s - '0'; for (unsigned i = 0; i < n; i++) { unsigned __int128 t = (unsigned __int128)o[i] * 10 + c; o[i] = (uint64_t)t; c = t >> 64; } }
}
static bool less(const uint64_t *a, const uint64_t *b, unsigned n) { for (unsigned i = n; i-- > 0;) if (a[i] != b[i]) return a[i] < b[i]; return false; }
uint32_t __sx_field(const uint64_t *m, uint32_t n) noexcept { mods.push_back(std::vector<uint64_t>(m, m + n)); return mods.size() - 1; }
uint32_t __sx_ff_input(const char *name, uint32_t f, uint64_t *out, uint32_t n) noexcept {
    dec(sxPlainInput(name), out, n); if (!less(out, mods[f].data(), n)) for (unsigned i = 0; i < n; i++) out[i] = 0; return 0;
}
uint32_t __sx_cell(const char *name, uint32_t f, uint64_t *val, uint32_t n) noexcept { if (sxPlainInput(name)) return __sx_ff_input(name, f, val, n); return 0; }
void __sx_uq_begin(uint32_t) noexcept {}
uint32_t __sx_uq_var(uint32_t, bool, const char *, const uint64_t *) noexcept { return 0; }
void __sx_uq_eq(uint32_t, const uint64_t *) noexcept {}
void __sx_uq_table(uint32_t, uint32_t, uint64_t, const uint64_t *) noexcept {}
void __sx_uq_lookup(uint32_t, uint32_t, const uint32_t *, const uint64_t *) noexcept {}
void __sx_uq_target(uint32_t) noexcept {}
void __sx_uq_bound(uint32_t, const uint64_t *) noexcept {}
void __sx_uq_range(uint32_t, const uint64_t *) noexcept {}
void __sx_uq_infeasible() noexcept {}
uint32_t __sx_uq_run(const char *, double) noexcept { return 0; }
uint32_t __sx_big_input(const char *name, uint32_t bits, uint64_t *out, const uint64_t *hi) noexcept {
    unsigned n = (bits + 63) / 64; dec(sxPlainInput(name), out, n); if (hi && less(hi, out, n)) for (unsigned i = 0; i < n; i++) out[i] = 0; return 0;
}
void __sx_assert(bool c, uint32_t, const char *msg) noexcept { if (!c) { printf("ASSERTION FAILED: %s\n", msg); fflush(stdout); _Exit(1); } }
void __sx_assume(bool c, uint32_t) noexcept { if (!c) { printf("assumption not met\n"); fflush(stdout); _Exit(3); } }
uint64_t __sx_pin(uint64_t v, uint32_t) noexcept { return v; }
void __sx_reach(const char *) noexcept {}
void __sx_note(const char *) noexcept {}
}
int main(int argc, char **argv) {
    if (argc < 2) { for (auto &c : *cs) puts(c.n); return 2; }
    for (int i = 2; i < argc; i++) { std::string s = argv[i]; size_t e = s.rfind('='); if (e != std::string::npos) in[s.substr(0, e)] = s.substr(e + 1); }
    for (auto &c : *cs) if (!strcmp(c.n, argv[1])) {
        try { c.f(); }
        catch (std::exception &e) { printf("ASSERTION FAILED: unexpected exception: %s\n", e.what()); return 1; }
        catch (...) { printf("ASSERTION FAILED: unexpected exception\n"); return 1; }
        puts("ok"); return 0;
    }
    return 2;
}
