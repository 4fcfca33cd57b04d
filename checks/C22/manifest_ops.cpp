// Set algebra of width descriptions (manifest parameters): membership, satisfiability, maximum,
// iteration, intersection, difference and merge, for every pair of kinds within the bounds below.
#include "sx_api.h"
#include <string>
#include <cstring>
#include <nil/blueprint/manifest.hpp>
using namespace nil::blueprint;
using P = std::shared_ptr<manifest_param>;
static const unsigned U = 16;           // universe for values
#ifndef DEEP
#define DEEP 0
#endif
static const unsigned MAXSTEP = DEEP ? 5 : 3, MAXSTART = DEEP ? 12 : 7, MAXFIN = DEEP ? 15 : 11, SETV = DEEP ? 15 : 9;

struct D { P p; bool in[U + 1]; };      // description and its reference membership table (by definition)

static void fin(D &d) { }
static D single(const char *n) {
    D d; std::uint32_t v = sx::u32(n, 0, SETV); d.p = P(new manifest_single_value_param(v));
    for (unsigned i = 0; i <= U; i++) d.in[i] = v == i;
    return d;
}
static D range(const std::string &n, bool pos = false) {
    std::uint32_t step = sx::fork<std::uint32_t>(sx::u32((n + "step").c_str(), 1, MAXSTEP));
    std::uint32_t a = sx::fork<std::uint32_t>(sx::u32((n + "start").c_str(), 0, MAXSTART)), b = sx::u32((n + "finish").c_str(), 0, MAXFIN);
    D d; d.p = P(new manifest_range_param(a, b, step));
    for (unsigned i = 0; i <= U; i++) { bool m = false; for (unsigned k = 0; k * step <= i; k++) m |= (a == i - k * step); d.in[i] = m & (i < b); }
    return d;
}
static D set(const std::string &n, unsigned k) {
    std::set<std::uint32_t> s; std::uint32_t e[4];
    for (unsigned j = 0; j < k; j++) { e[j] = sx::u32((n + std::to_string(j)).c_str(), 0, SETV); s.insert(e[j]); }
    D d; d.p = P(new manifest_set_param(s));
    for (unsigned i = 0; i <= U; i++) { bool m = false; for (unsigned j = 0; j < k; j++) m |= e[j] == i; d.in[i] = m; }
    return d;
}
static D make(int kind, const std::string &n) { return kind == 0 ? single((n + "val").c_str()) : kind == 1 ? range(n) : set(n, 2); }
static bool any(const bool *in) { bool r = false; for (unsigned i = 0; i <= U; i++) r |= in[i]; return r; }
static std::uint64_t lowest(const bool *in) { std::uint64_t r = 1000; for (unsigned i = U + 1; i-- > 0;) r = sx::sel(in[i], i, r); return r; }
static std::uint64_t highest(const bool *in) { std::uint64_t r = 0; for (unsigned i = 0; i <= U; i++) r = sx::sel(in[i], i, r); return r; }

// the description behaves as the set `in` through its whole public interface
static void same(P p, const bool *in, const char *what) {
    for (unsigned v = 0; v <= U; v++) SX_ASSERT(p->check_manifest_param(v, true) == in[v], what);
    SX_ASSERT(p->is_satisfiable() == any(in), what);
}
static void unary(int kind) {
    D d = kind == 2 ? set("a", 3) : make(kind, "a");
    same(d.p, d.in, "exact membership and satisfiability");
    std::uint64_t lo = lowest(d.in);
    for (unsigned v = 0; v <= U; v++) SX_ASSERT(d.p->check_manifest_param(v, false) == (any(d.in) & (lo <= v)), "relaxed membership means some admissible value fits");
    if (any(d.in)) {
        SX_ASSERT(d.p->max_value_if_sat() == highest(d.in), "maximum");
        // iteration enumerates the members in increasing order, each once
        unsigned cnt = 0, n = 0; for (unsigned v = 0; v <= U; v++) cnt += d.in[v];
        std::int64_t prev = -1;
        for (auto it = d.p->begin(); it != d.p->end(); ++it) {
            std::uint32_t v = *it;
            bool m = false; for (unsigned i = 0; i <= U; i++) m |= (v == i) & d.in[i];
            SX_ASSERT(m, "iteration yields members only");
            SX_ASSERT((std::int64_t)v > prev, "iteration is strictly increasing");
            prev = v; n++;
            SX_ASSERT(n <= U + 1, "iteration terminates");
        }
        SX_ASSERT(n == cnt, "iteration yields every member");
    }
    SX_REACH("unary");
}
static void inter(int k1, int k2) {
    D a = make(k1, "a"), b = make(k2, "b");
    bool in[U + 1]; for (unsigned v = 0; v <= U; v++) in[v] = a.in[v] & b.in[v];
    P r = a.p->intersect(b.p);
    same(r, in, "intersection contains exactly the common values");
    SX_REACH("intersect");
}
static void merge(int k1, int k2) {
    D a = make(k1, "a"), b = make(k2, "b");
    SX_ASSUME(any(a.in)); SX_ASSUME(any(b.in));
    P r = a.p->merge_with(b.p), q = b.p->merge_with(a.p);
    SX_ASSERT(r->is_satisfiable() & q->is_satisfiable(), "merging two satisfiable descriptions is satisfiable");
    std::uint64_t lo = sx::max(lowest(a.in), lowest(b.in));
    bool some = false;
    for (unsigned v = 0; v <= U; v++) {
        bool m = r->check_manifest_param(v), m2 = q->check_manifest_param(v);
        SX_ASSERT(m == m2, "merge is symmetric");
        SX_ASSERT(!m | (lo <= v), "a merged width is large enough for both parts");
        SX_ASSERT(!m | a.in[v] | b.in[v], "a merged width was declared by one of the parts");
        // a width that both declare is always kept
        SX_ASSERT(m | !(a.in[v] & b.in[v]), "a width both parts declare stays admissible");
        // widths that are large enough are not lost
        bool keep;
        if (k1 == 0 && k2 == 0) keep = (v == lo);
        else if (k1 == 0) keep = b.in[v] & (lo <= v);
        else if (k1 == k2) keep = (a.in[v] | b.in[v]) & (lo <= v);
        else { std::uint64_t f = lo; for (unsigned i = U + 1; i-- > 0;) f = sx::sel(b.in[i] & (lo <= i), i, f);   // a range with a set starts at the set's first usable width
               keep = (a.in[v] | b.in[v]) & (f <= v); }
        SX_ASSERT(m | !keep, "a declared width large enough for both parts is not lost");
        some |= m;
    }
    SX_ASSERT(some, "some merged width");
    SX_REACH("merge");
}
static void sub(int k1, unsigned n) {
    D a = make(k1, "a");
    std::set<std::uint32_t> s; std::uint32_t e[4];
    for (unsigned j = 0; j < n; j++) { e[j] = sx::u32(("e" + std::to_string(j)).c_str(), 0, U - 1); s.insert(e[j]); }
    bool in[U + 1]; for (unsigned v = 0; v <= U; v++) { bool x = false; for (unsigned j = 0; j < n; j++) x |= e[j] == v; in[v] = a.in[v] & !x; }
    same(a.p->subtract(s), in, "difference removes exactly the given values");
    SX_REACH("subtract");
}
#define PAIR(op, i, j) SX_CASE(op##_##i##_##j) { op(i, j); }
SX_CASE(unary_single) { unary(0); }
SX_CASE(unary_range) { unary(1); }
SX_CASE(unary_set) { unary(2); }
PAIR(inter, 0, 0) PAIR(inter, 0, 1) PAIR(inter, 0, 2) PAIR(inter, 1, 0) PAIR(inter, 1, 1) PAIR(inter, 1, 2) PAIR(inter, 2, 0) PAIR(inter, 2, 1) PAIR(inter, 2, 2)
PAIR(merge, 0, 0) PAIR(merge, 0, 1) PAIR(merge, 0, 2) PAIR(merge, 1, 1) PAIR(merge, 1, 2) PAIR(merge, 2, 2)
SX_CASE(sub_single_2) { sub(0, 2); }
SX_CASE(sub_range_1) { sub(1, 1); }
SX_CASE(sub_range_2) { sub(1, 2); }
SX_CASE(sub_set_2) { sub(2, 2); }
SX_CASE(unsat_is_empty) {
    P u(new manifest_unsat_param());
    bool none[U + 1] = {false}; int k = sx::fork<std::uint32_t>(sx::u32("kind", 0, 2)); D a = make(k, "a");
    same(u, none, "unsatisfiable description admits nothing");
    for (unsigned v = 0; v <= U; v++) SX_ASSERT(!u->check_manifest_param(v, false), "unsatisfiable description admits nothing");
    same(u->intersect(a.p), none, "intersection with the empty description"); same(a.p->intersect(u), none, "intersection with the empty description");
    same(u->merge_with(a.p), none, "merge with the empty description"); same(a.p->merge_with(u), none, "merge with the empty description");
    same(u->subtract({1, 2}), none, "difference of the empty description");
    SX_REACH("unsat");
}
// larger and co-prime steps: the common progression starts at the right phase
static void wide(std::uint32_t s1) {
    std::uint32_t s2 = sx::fork<std::uint32_t>(sx::u32("bstep", 1, 6));
    std::uint32_t a1 = sx::fork<std::uint32_t>(sx::u32("astart", 0, 6)), a2 = sx::fork<std::uint32_t>(sx::u32("bstart", 0, 6)), f1 = sx::u32("afinish", 0, 39), f2 = sx::u32("bfinish", 0, 39);
    P r = P(new manifest_range_param(a1, f1, s1))->intersect(P(new manifest_range_param(a2, f2, s2)));
    bool some = false;
    for (unsigned v = 0; v < 40; v++) {
        bool m = v >= a1 && (v - a1) % s1 == 0 && v >= a2 && (v - a2) % s2 == 0;
        m = m & (v < f1) & (v < f2); some |= m;
        SX_ASSERT(r->check_manifest_param(v, true) == m, "intersection contains exactly the common values");
    }
    SX_ASSERT(r->is_satisfiable() == some, "intersection is satisfiable iff there is a common value");
    SX_REACH("wide");
}
SX_CASE(inter_step_4) { wide(4); }
SX_CASE(inter_step_5) { wide(5); }
SX_CASE(inter_step_6) { wide(6); }
SX_CASE_THOROUGH(sub_range_3) { sub(1, 3); }
