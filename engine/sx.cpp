// Runtime of the concolic engine: expression DAG, shadow memory, path recording, exhaustive path
// exploration and the bit-vector solver back end (z3).  See SxPass.cpp for the instrumentation side.
#include <execinfo.h>
#include "sx.h"
#include "sx_api.h"
#include <z3.h>
#include <algorithm>
#include <cassert>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fcntl.h>
#include <functional>
#include <map>
#include <poll.h>
#include <set>
#include <signal.h>
#include <sstream>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <sys/mman.h>
#include <unordered_map>

namespace sxe {

// pass-side opcodes, keep in step with SxPass.cpp
enum POp { P_ADD, P_SUB, P_MUL, P_UDIV, P_SDIV, P_UREM, P_SREM, P_SHL, P_LSHR, P_ASHR, P_AND, P_OR, P_XOR,
           P_EQ, P_NE, P_ULT, P_ULE, P_UGT, P_UGE, P_SLT, P_SLE, P_SGT, P_SGE, P_UMIN, P_UMAX, P_SMIN, P_SMAX,
           P_UADDO, P_USUBO, P_UMULO, P_SADDO, P_SSUBO, P_SMULO, P_UADDS, P_USUBS };

std::vector<Node> nodes;
std::vector<std::vector<Seg>> catPool;
std::vector<mpz_class> bigs;
std::vector<Input> inputs;
std::vector<mpz_class> fields;
Stats stats;

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ------------------------------------------------------------------------------------------------
// expression DAG
// ------------------------------------------------------------------------------------------------
struct Key { u8 k; u32 w, a, b, c; u64 v; bool operator==(const Key &o) const { return k == o.k && w == o.w && a == o.a && b == o.b && c == o.c && v == o.v; } };
struct KeyH { size_t operator()(const Key &k) const {
    u64 h = k.k * 0x9E3779B97F4A7C15ull; auto mix = [&](u64 x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; };
    mix(k.w); mix(k.a); mix(k.b); mix(k.c); mix(k.v); return h; } };
static std::unordered_map<Key, u32, KeyH> *intern;
static std::map<std::string, u64> *catIntern, *bigIntern;

static void initDag() {
    if (intern) return;
    intern = new std::unordered_map<Key, u32, KeyH>; catIntern = new std::map<std::string, u64>; bigIntern = new std::map<std::string, u64>;
    nodes.push_back(Node{}); bigs.push_back(0);
}
static inline u64 mask64(u32 w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static mpz_class pow2(u32 w) { mpz_class r; mpz_setbit(r.get_mpz_t(), w); return r; }
static mpz_class mpzOf(u64 v) { mpz_class r; mpz_import(r.get_mpz_t(), 1, 1, 8, 0, 0, &v); return r; }
static u64 u64Of(const mpz_class &v) { u64 r = 0; mpz_class t; mpz_fdiv_r_2exp(t.get_mpz_t(), v.get_mpz_t(), 64); size_t n; mpz_export(&r, &n, 1, 8, 0, 0, t.get_mpz_t()); return r; }
static u64 bigIndex(const mpz_class &v) {
    std::string s = v.get_str(62);
    auto it = bigIntern->find(s);
    if (it != bigIntern->end()) return it->second;
    bigs.push_back(v); (*bigIntern)[s] = bigs.size() - 1; return bigs.size() - 1;
}
mpz_class cval(u32 n) { const Node &x = nodes[n]; if (isFF(x) || x.w > 64) return bigs[x.big]; return mpzOf(x.cv); }
static u64 cval64(u32 n) { const Node &x = nodes[n]; return x.w > 64 ? u64Of(bigs[x.big]) : x.cv; }
bool isConst(u32 n) { return nodes[n].kind == CONST || nodes[n].kind == FF_CONST; }

static u32 put(u8 k, u32 w, u32 a, u32 b, u32 c, u64 v, const std::function<mpz_class()> &big, u64 small) {
    initDag();
    Key key{k, w, a, b, c, v};
    auto it = intern->find(key);
    if (it != intern->end()) return it->second;
    Node n{}; n.kind = k; n.w = w; n.a = a; n.b = b; n.c = c; n.v = v;
    if (isFF(n) || w > 64) { bigs.push_back(big()); n.big = bigs.size() - 1; }
    else n.cv = small & mask64(w);
    nodes.push_back(n);
    u32 id = nodes.size() - 1;
    (*intern)[key] = id;
    return id;
}
u32 mkConst64(u32 w, u64 v) {
    initDag();
    if (w > 64) return mkConst(w, mpzOf(v));
    v &= mask64(w);
    return put(CONST, w, 0, 0, 0, v, nullptr, v);
}
u32 mkConst(u32 w, const mpz_class &v0) {
    initDag();
    mpz_class v; mpz_fdiv_r_2exp(v.get_mpz_t(), v0.get_mpz_t(), w);
    if (w <= 64) return mkConst64(w, u64Of(v));
    u64 ix = bigIndex(v);
    return put(CONST, w, 0, 0, 0, ix, [&] { return v; }, 0);
}
static std::vector<Seg> segsOf(u32 n) {
    if (nodes[n].kind == CAT) return catPool[nodes[n].v];
    return {Seg{n, nodes[n].w - 1, 0}};
}
static u32 zeroPrefix(u32 n);
u32 mkExtract(u32 n, u32 hi, u32 lo) {
    const Node x = nodes[n];
    if (lo == 0 && hi == x.w - 1) return n;
    u32 w = hi - lo + 1;
    if (x.kind == CONST) { mpz_class v = cval(n) >> lo; return mkConst(w, v); }
    if (x.kind == CAT) {
        std::vector<Seg> out; u32 pos = x.w;   // msb first
        auto segs = catPool[x.v];
        for (auto &s : segs) {
            u32 sw = s.hi - s.lo + 1; u32 top = pos - 1, bot = pos - sw; pos = bot;
            if (bot > hi || top < lo) continue;
            u32 h = std::min(top, hi), l = std::max(bot, lo);
            out.push_back(Seg{s.n, s.lo + (h - bot), s.lo + (l - bot)});
        }
        return mkCat(out);
    }
    if (x.kind == AND || x.kind == OR || x.kind == XOR) return mkBin(x.kind, mkExtract(x.a, hi, lo), mkExtract(x.b, hi, lo));
    if (x.kind == ITE) {
        u32 a = mkExtract(x.b, hi, lo), b = mkExtract(x.c, hi, lo);
        return mkIte(x.a, a, b);
    }
    if (x.kind == SUB) {   // bits above both operands are the borrow
        u32 z = std::min(zeroPrefix(x.a), zeroPrefix(x.b));
        if (z && lo >= x.w - z) { u32 b = mkBin(ULT, x.a, x.b); return w == 1 ? b : mkSext(b, w); }
    }
    if (x.kind == SEXT) {
        u32 cw = nodes[x.a].w;
        if (hi < cw) return mkExtract(x.a, hi, lo);
    }
    return mkCat({Seg{n, hi, lo}});
}
u32 mkCat(const std::vector<Seg> &in) {
    initDag();
    std::vector<Seg> s;
    for (auto t : in) {
        // normalise: constants are cut to size, nested concatenations flattened
        if (nodes[t.n].kind == CONST && !(t.lo == 0 && t.hi == nodes[t.n].w - 1)) { u32 c = mkConst(t.hi - t.lo + 1, cval(t.n) >> t.lo); t = Seg{c, nodes[c].w - 1, 0}; }
        if (nodes[t.n].kind == CAT) {
            u32 e = mkExtract(t.n, t.hi, t.lo);
            for (auto &q : segsOf(e)) s.push_back(q);
            continue;
        }
        s.push_back(t);
    }
    std::vector<Seg> m;
    for (auto &t : s) {
        if (!m.empty()) {
            Seg &p = m.back();
            if (nodes[p.n].kind == CONST && nodes[t.n].kind == CONST) {
                u32 wp = nodes[p.n].w, wt = nodes[t.n].w;
                u32 c = mkConst(wp + wt, (cval(p.n) << wt) + cval(t.n));
                p = Seg{c, wp + wt - 1, 0};
                continue;
            }
            if (p.n == t.n && nodes[p.n].kind != CONST && p.lo == t.hi + 1) { p.lo = t.lo; continue; }
        }
        m.push_back(t);
    }
    u32 w = 0; for (auto &t : m) w += t.hi - t.lo + 1;
    if (m.size() == 1 && m[0].lo == 0 && m[0].hi == nodes[m[0].n].w - 1) return m[0].n;
    std::string key((const char *)m.data(), m.size() * sizeof(Seg));
    auto it = catIntern->find(key);
    u64 ix;
    if (it != catIntern->end()) ix = it->second;
    else { catPool.push_back(m); ix = catPool.size() - 1; (*catIntern)[key] = ix; }
    mpz_class v = 0; u64 sv = 0;
    for (auto &t : m) {
        u32 sw = t.hi - t.lo + 1;
        if (w > 64) { mpz_class e = cval(t.n) >> t.lo; mpz_fdiv_r_2exp(e.get_mpz_t(), e.get_mpz_t(), sw); v = (v << sw) + e; }
        else { u64 e = nodes[t.n].w > 64 ? u64Of(mpz_class(cval(t.n) >> t.lo)) : (nodes[t.n].cv >> t.lo); e &= mask64(sw); sv = sw >= 64 ? e : ((sv << sw) | e); }
    }
    return put(CAT, w, 0, 0, 0, ix, [&] { return v; }, sv);
}
u32 mkZext(u32 n, u32 w) {
    u32 cw = nodes[n].w;
    if (cw >= w) return n;
    u32 z = mkConst64(w - cw, 0);
    return mkCat({Seg{z, w - cw - 1, 0}, Seg{n, cw - 1, 0}});
}
u32 mkSext(u32 n, u32 w) {
    u32 cw = nodes[n].w;
    if (cw >= w) return n;
    mpz_class v = cval(n); if (mpz_tstbit(v.get_mpz_t(), cw - 1)) v -= pow2(cw);
    if (nodes[n].kind == CONST) return mkConst(w, v);
    if (nodes[n].kind == CAT) {
        auto &s = catPool[nodes[n].v][0];
        if (nodes[s.n].kind == CONST && !mpz_tstbit(cval(s.n).get_mpz_t(), s.hi)) return mkZext(n, w);
    }
    if (cw == 1) return mkIte(n, mkConst(w, mpz_class(-1)), mkConst64(w, 0));
    mpz_class r; mpz_fdiv_r_2exp(r.get_mpz_t(), v.get_mpz_t(), w);
    return put(SEXT, w, n, 0, 0, 0, [&] { return r; }, w <= 64 ? u64Of(r) : 0);
}
static mpz_class sgn(const mpz_class &v, u32 w) { if (mpz_tstbit(v.get_mpz_t(), w - 1)) return v - pow2(w); return v; }

static mpz_class evalBin(u8 k, u32 w, const mpz_class &a, const mpz_class &b) {
    mpz_class r;
    switch (k) {
        case ADD: r = a + b; break;
        case SUB: r = a - b; break;
        case MUL: r = a * b; break;
        case UDIV: r = b == 0 ? mpz_class(pow2(w) - 1) : mpz_class(a / b); break;
        case UREM: r = b == 0 ? a : mpz_class(a % b); break;
        case SDIV: { mpz_class x = sgn(a, w), y = sgn(b, w); if (y == 0) r = x < 0 ? 1 : -1; else r = x / y; break; }
        case SREM: { mpz_class x = sgn(a, w), y = sgn(b, w); if (y == 0) r = x; else r = x % y; break; }
        case SHL: r = b >= w ? mpz_class(0) : mpz_class(a << b.get_ui()); break;
        case LSHR: r = b >= w ? mpz_class(0) : mpz_class(a >> b.get_ui()); break;
        case ASHR: { mpz_class x = sgn(a, w); unsigned long s = b >= w ? w : b.get_ui(); mpz_fdiv_q_2exp(r.get_mpz_t(), x.get_mpz_t(), s); break; }
        case AND: r = a & b; break;
        case OR: r = a | b; break;
        case XOR: r = a ^ b; break;
        case EQ: return a == b ? 1 : 0;
        case ULT: return a < b ? 1 : 0;
        case ULE: return a <= b ? 1 : 0;
        case SLT: return sgn(a, w) < sgn(b, w) ? 1 : 0;
        case SLE: return sgn(a, w) <= sgn(b, w) ? 1 : 0;
        default: abort();
    }
    mpz_class o; mpz_fdiv_r_2exp(o.get_mpz_t(), r.get_mpz_t(), w); return o;
}
u32 mkNot1(u32 a) { return mkBin(XOR, a, mkConst64(1, 1)); }
u32 mkAnd1(u32 a, u32 b) { return mkBin(AND, a, b); }

// bitwise operation distributed over concatenation / constant runs
static bool bitwiseSplit(u8 k, u32 a, u32 b, u32 &out) {
    const Node &x = nodes[a], &y = nodes[b];
    bool cy = y.kind == CONST;
    if (!(x.kind == CAT || y.kind == CAT || (cy && k != XOR))) return false;
    // cut points (lsb = 0)
    u32 w = x.w;
    std::set<u32> cuts = {0, w};
    auto addCuts = [&](u32 n) {
        if (nodes[n].kind == CAT) { u32 pos = w; for (auto &s : catPool[nodes[n].v]) {
            if (nodes[s.n].kind == CONST) { mpz_class v = cval(s.n); u32 sw = s.hi - s.lo + 1, bot = pos - sw;
                for (u32 i = 1; i < sw; i++) if (mpz_tstbit(v.get_mpz_t(), i) != mpz_tstbit(v.get_mpz_t(), i - 1)) cuts.insert(bot + i); }
            pos -= s.hi - s.lo + 1; cuts.insert(pos); } }
        else if (nodes[n].kind == CONST) { mpz_class v = cval(n); for (u32 i = 1; i < w; i++) if (mpz_tstbit(v.get_mpz_t(), i) != mpz_tstbit(v.get_mpz_t(), i - 1)) cuts.insert(i); }
    };
    addCuts(a); addCuts(b);
    if (cuts.size() <= 2) return false;
    std::vector<u32> cp(cuts.begin(), cuts.end());
    std::vector<Seg> res;
    for (size_t i = cp.size() - 1; i > 0; i--) {
        u32 hi = cp[i] - 1, lo = cp[i - 1];
        u32 r = mkBin(k, mkExtract(a, hi, lo), mkExtract(b, hi, lo));
        res.push_back(Seg{r, hi - lo, 0});
    }
    out = mkCat(res);
    return true;
}
// true if no bit can be 1 in both operands (by constant segments only)
static bool disjointBits(u32 a, u32 b) {
    if (nodes[a].kind != CAT && nodes[b].kind != CAT) return false;
    u32 w = nodes[a].w;
    if (w > 512) return false;
    auto zeroMask = [&](u32 n) {   // bits that may be one
        mpz_class m = 0; u32 pos = w;
        for (auto &s : segsOf(n)) { u32 sw = s.hi - s.lo + 1; pos -= sw;
            mpz_class v = nodes[s.n].kind == CONST ? mpz_class(cval(s.n) >> s.lo) : mpz_class(pow2(sw) - 1);
            m |= v << pos; }
        return m;
    };
    mpz_class x = zeroMask(a) & zeroMask(b);
    return x == 0;
}
static std::unordered_map<u32, bool> known;     // path condition literals already on the path
// number of leading bits known to be zero
static u32 zeroPrefix(u32 n) {
    const Node &x = nodes[n];
    if (x.kind == CONST) { mpz_class v = cval(n); return v == 0 ? x.w : x.w - mpz_sizeinbase(v.get_mpz_t(), 2); }
    if (x.kind == CAT) { auto &q = catPool[x.v][0]; if (nodes[q.n].kind == CONST) { u32 sw = q.hi - q.lo + 1; mpz_class v = cval(q.n); return v == 0 ? sw : sw - mpz_sizeinbase(v.get_mpz_t(), 2); } }
    return 0;
}

// ------------------------------------------------------------------------------------------------
// linear integer forms: value(n) = c0 + sum coef * value(atom), exact over the integers (no wrap-around)
// ------------------------------------------------------------------------------------------------
struct Lin { std::map<u32, mpz_class> t; mpz_class c0, lo, hi; };
static std::unordered_map<u32, Lin> linMemo;
static mpz_class atomMax(u32 n) {
    const Node &x = nodes[n];
    if (x.kind == VAR) return inputs[x.v].hi;
    if (x.kind == UREM && isConst(x.b)) { mpz_class m = cval(x.b); if (m > 0) return m - 1; }
    if (x.kind == ITE && nodes[x.b].kind == CONST && nodes[x.c].kind == CONST) return std::max(cval(x.b), cval(x.c));
    if (x.kind == CAT) { auto &s = catPool[x.v]; if (s.size() == 1) { mpz_class h = pow2(s[0].hi - s[0].lo + 1) - 1; if (s[0].lo == 0) { const Node &y = nodes[s[0].n]; if (y.kind == VAR && inputs[y.v].hi < h) h = inputs[y.v].hi; } return h; } }
    return pow2(x.w) - 1;
}
static const Lin &linOf(u32 n) {
    auto it = linMemo.find(n);
    if (it != linMemo.end()) return it->second;
    const Node x = nodes[n];
    Lin r; bool ok = false;
    auto addTo = [](Lin &d, const Lin &s, const mpz_class &k) {
        d.c0 += s.c0 * k;
        if (k >= 0) { d.lo += s.lo * k; d.hi += s.hi * k; } else { d.lo += s.hi * k; d.hi += s.lo * k; }
        for (auto &e : s.t) { auto &c = d.t[e.first]; c += e.second * k; if (c == 0) d.t.erase(e.first); }
    };
    if (x.kind == CONST) { r.c0 = r.lo = r.hi = cval(n); ok = true; }
    else if (x.kind == CAT && catPool[x.v].size() > 1) {
        auto segs = catPool[x.v]; u32 pos = x.w;
        for (auto &s : segs) { pos -= s.hi - s.lo + 1; addTo(r, linOf(mkExtract(s.n, s.hi, s.lo)), pow2(pos)); }
        ok = true;
    } else if (x.kind == ADD || x.kind == SUB) {
        addTo(r, linOf(x.a), 1); addTo(r, linOf(x.b), x.kind == ADD ? 1 : -1);
        ok = r.lo >= 0 && r.hi < pow2(x.w);
    } else if (x.kind == MUL && isConst(x.b)) { addTo(r, linOf(x.a), cval(x.b)); ok = r.hi < pow2(x.w); }
    if (ok && r.t.size() > 2000) ok = false;
    if (ok) {   // bounds from the collected coefficients are at least as tight as the accumulated ones
        mpz_class lo = r.c0, hi = r.c0;
        for (auto &e : r.t) { mpz_class m = e.second * atomMax(e.first); if (m > 0) hi += m; else lo += m; }
        if (lo > r.lo) r.lo = lo;
        if (hi < r.hi) r.hi = hi;
    } else { r = Lin(); r.t[n] = 1; r.lo = 0; r.hi = atomMax(n); }
    return linMemo[n] = r;
}
static bool hasArith(u32 n) {
    const Node &x = nodes[n];
    if (x.kind == ADD || x.kind == SUB || x.kind == MUL) return true;
    if (x.kind == CAT) for (auto &s : catPool[x.v]) { int k = nodes[s.n].kind; if (k == ADD || k == SUB || k == MUL) return true; }
    return false;
}
static u32 fromLin(const std::map<u32, mpz_class> &t, const mpz_class &c0, u32 w) {
    u32 r = mkConst(w, c0);
    for (auto &e : t) {
        u32 a = e.first; a = nodes[a].w > w ? mkExtract(a, w - 1, 0) : mkZext(a, w);
        r = mkBin(ADD, r, mkBin(MUL, a, mkConst(w, e.second)));
    }
    return r;
}
// quotient and remainder by a constant when the digits below and above it do not interact
static bool linDivide(u32 a, const mpz_class &d, bool quotient, u32 &out) {
    const Lin l = linOf(a);
    if (l.t.empty()) return false;
    std::map<u32, mpz_class> hi, lo; mpz_class q0, r0; mpz_fdiv_qr(q0.get_mpz_t(), r0.get_mpz_t(), l.c0.get_mpz_t(), d.get_mpz_t());
    mpz_class rl = r0, rh = r0, hh = q0;
    for (auto &e : l.t) {
        mpz_class q, r; mpz_tdiv_qr(q.get_mpz_t(), r.get_mpz_t(), e.second.get_mpz_t(), d.get_mpz_t());
        if (q != 0) { hi[e.first] = q; if (q > 0) hh += q * atomMax(e.first); else return false; }
        if (r != 0) { lo[e.first] = r; mpz_class m = r * atomMax(e.first); if (m > 0) rh += m; else rl += m; }
    }
    if (rl < 0 || rh >= d) return false;
    out = quotient ? fromLin(hi, q0, nodes[a].w) : fromLin(lo, r0, nodes[a].w);
    return true;
}
u32 mkBin(u8 k, u32 a, u32 b) {
    initDag();
    u32 w = nodes[a].w;
    assert(nodes[b].w == w);
    bool cmp = k >= EQ && k <= SLE;
    u32 rw = cmp ? 1 : w;
    if (isConst(a) && isConst(b)) return mkConst(rw, evalBin(k, w, cval(a), cval(b)));
    bool comm = k == ADD || k == MUL || k == AND || k == OR || k == XOR || k == EQ;
    if (comm && (isConst(a) || (!isConst(b) && a > b))) std::swap(a, b);
    const bool cb = isConst(b);
    mpz_class bv; if (cb) bv = cval(b);
    auto isPow2 = [&](u32 &s) { if (bv > 0 && mpz_popcount(bv.get_mpz_t()) == 1) { s = mpz_scan1(bv.get_mpz_t(), 0); return true; } return false; };
    u32 s;
    switch (k) {
        case ADD:
            if (cb && bv == 0) return a;
            if (cb && nodes[a].kind == ADD && isConst(nodes[a].b)) return mkBin(ADD, nodes[a].a, mkConst(w, cval(nodes[a].b) + bv));
            if (disjointBits(a, b)) return mkBin(OR, a, b);
            { u32 z = std::min(zeroPrefix(a), zeroPrefix(b));
              if (z >= 2) { u32 nw = w - z + 1; return mkZext(mkBin(ADD, mkExtract(a, nw - 1, 0), mkExtract(b, nw - 1, 0)), w); } }
            break;
        case SUB:
            if (isConst(a) && cval(a) == 0 && nodes[b].kind == SUB) return mkBin(SUB, nodes[b].b, nodes[b].a);
            if (a == b) return mkConst64(w, 0);
            { u32 z = std::min(zeroPrefix(a), zeroPrefix(b));
              if (z && z < w) {   // no borrow when the path already established b <= a
                  u32 x = mkExtract(a, w - 1 - z, 0), y = mkExtract(b, w - 1 - z, 0);
                  u32 le = mkBin(ULE, y, x), lt = mkBin(ULT, y, x);
                  auto yes = [](u32 c) { return (nodes[c].kind == CONST && nodes[c].cv) || known.count(c); };
                  if (yes(le) || yes(lt)) return mkZext(mkBin(SUB, x, y), w);
              } }
            if (cb) return mkBin(ADD, a, mkConst(w, -bv));
            break;
        case MUL:
            if (cb && bv == 0) return b;
            if (cb && bv == 1) return a;
            if (cb && isPow2(s)) return mkBin(SHL, a, mkConst64(w, s));
            { u32 za = zeroPrefix(a), zb = zeroPrefix(b); u32 nw = (w - za) + (w - zb);
              if (nw < w) return mkZext(mkBin(MUL, mkExtract(a, nw - 1, 0), mkExtract(b, nw - 1, 0)), w); }
            break;
        case UDIV: if (cb && bv == 1) return a; if (cb && isPow2(s) && (nodes[a].kind == CAT || w <= 64)) return mkBin(LSHR, a, mkConst64(w, s));
            if (cb && bv != 0) { u32 o; if (linDivide(a, bv, true, o)) return o; }
            if (cb && isPow2(s)) return mkBin(LSHR, a, mkConst64(w, s));
            if ((cb && bv != 0) || w > 64) {   // wide numbers (shim/sxn) refuse a zero divisor
                 u32 z = std::min(zeroPrefix(a), zeroPrefix(b)); if (z && z < w) return mkZext(mkBin(k, mkExtract(a, w - 1 - z, 0), mkExtract(b, w - 1 - z, 0)), w); }
            break;
        case UREM: if (cb && bv == 1) return mkConst64(w, 0); if (cb && isPow2(s)) return mkBin(AND, a, mkConst(w, bv - 1));
            if (cb && bv != 0) { u32 o; if (linDivide(a, bv, false, o)) return o; }
            if (!cb || bv != 0) { u32 z = std::min(zeroPrefix(a), zeroPrefix(b)); if (z && z < w) return mkZext(mkBin(k, mkExtract(a, w - 1 - z, 0), mkExtract(b, w - 1 - z, 0)), w); }
            break;
        case SHL:
            if (cb) { if (bv >= w) return mkConst64(w, 0); s = bv.get_ui(); if (!s) return a;
                return mkCat({Seg{a, w - 1 - s, 0}, Seg{mkConst64(s, 0), s - 1, 0}}); }
            break;
        case LSHR:
            if (cb) { if (bv >= w) return mkConst64(w, 0); s = bv.get_ui(); if (!s) return a;
                return mkCat({Seg{mkConst64(s, 0), s - 1, 0}, Seg{a, w - 1, s}}); }
            break;
        case ASHR:
            if (cb) { if (bv == 0) return a; s = bv >= w ? w - 1 : bv.get_ui();
                return mkSext(mkExtract(a, w - 1, s), w); }
            break;
        case AND: {
            if (a == b) return a;
            if (cb && bv == 0) return b;
            if (cb && bv == pow2(w) - 1) return a;
            u32 o; if (bitwiseSplit(k, a, b, o)) return o; break; }
        case OR: {
            if (a == b) return a;
            if (cb && bv == 0) return a;
            if (cb && bv == pow2(w) - 1) return b;
            u32 o; if (bitwiseSplit(k, a, b, o)) return o; break; }
        case XOR: {
            if (a == b) return mkConst64(w, 0);
            if (cb && bv == 0) return a;
            if (w == 1 && cb) {
                if (nodes[a].kind == XOR && isConst(nodes[a].b)) return nodes[a].a;
                if (nodes[a].kind == ULT) return mkBin(ULE, nodes[a].b, nodes[a].a);
                if (nodes[a].kind == ULE) return mkBin(ULT, nodes[a].b, nodes[a].a);
                if (nodes[a].kind == SLT) return mkBin(SLE, nodes[a].b, nodes[a].a);
                if (nodes[a].kind == SLE) return mkBin(SLT, nodes[a].b, nodes[a].a);
            }
            u32 o; if (bitwiseSplit(k, a, b, o)) return o; break; }
        case EQ:
            if (a == b) return mkConst64(1, 1);
            if (w > 1 && !cb && (hasArith(a) || hasArith(b))) {
                const Lin x = linOf(a), y = linOf(b); mpz_class lo = x.c0 - y.c0, hi = lo; bool same = true;
                auto t = x.t; for (auto &e : y.t) { auto &c = t[e.first]; c -= e.second; if (c == 0) t.erase(e.first); }
                for (auto &e : t) { mpz_class m = e.second * atomMax(e.first); if (m > 0) hi += m; else lo += m; same = false; }
                if (same) return mkConst64(1, lo == 0);
                if (lo > 0 || hi < 0) return mkConst64(1, 0);
            }
            if (w == 1 && cb) return bv == 1 ? a : mkNot1(a);
            if (cb) {
                const Node x = nodes[a];
                if (x.kind == BV_OF_FF) return bv < fields[nodes[x.a].w] ? ffEq(x.a, ffConst(nodes[x.a].w, bv)) : mkConst64(1, 0);
                if (x.kind == ADD && isConst(x.b)) return mkBin(EQ, x.a, mkConst(w, bv - cval(x.b)));
                if (x.kind == ITE && isConst(x.b) && isConst(x.c)) {
                    bool t = cval(x.b) == bv, f = cval(x.c) == bv;
                    if (t && f) return mkConst64(1, 1);
                    if (!t && !f) return mkConst64(1, 0);
                    return t ? x.a : mkNot1(x.a);
                }
                if (x.kind == XOR && isConst(x.b)) return mkBin(EQ, x.a, mkConst(w, bv ^ cval(x.b)));
                if (x.kind == CAT) {
                    auto segs = catPool[x.v]; u32 pos = w; u32 rest = 0; std::vector<Seg> keep; std::vector<std::pair<u32,u32>> kp;
                    for (auto &q : segs) { u32 sw = q.hi - q.lo + 1; pos -= sw;
                        if (nodes[q.n].kind == CONST) { mpz_class e = bv >> pos; mpz_fdiv_r_2exp(e.get_mpz_t(), e.get_mpz_t(), sw);
                            if (e != (cval(q.n) >> q.lo)) return mkConst64(1, 0); rest++; }
                        else { keep.push_back(q); kp.push_back({pos, sw}); } }
                    if (rest) {
                        u32 r = mkConst64(1, 1);
                        for (size_t i = 0; i < keep.size(); i++) { mpz_class e = bv >> kp[i].first; r = mkAnd1(r, mkBin(EQ, mkExtract(keep[i].n, keep[i].hi, keep[i].lo), mkConst(kp[i].second, e))); }
                        return r;
                    }
                }
            }
            if (nodes[a].kind == CAT && nodes[b].kind == CAT) {
                auto &p = catPool[nodes[a].v], &q = catPool[nodes[b].v];
                if (p.size() == 2 && q.size() == 2 && p[0].n == q[0].n && nodes[p[0].n].kind == CONST)
                    { Seg s1 = p[1], s2 = q[1]; return mkBin(EQ, mkExtract(s1.n, s1.hi, s1.lo), mkExtract(s2.n, s2.hi, s2.lo)); }
            }
            break;
        case ULT: case ULE:
            if (a == b) return mkConst64(1, k == ULE);
            if (k == ULT && cb && bv == 0) return mkConst64(1, 0);
            if (k == ULE && isConst(a) && cval(a) == 0) return mkConst64(1, 1);
            {   // compare the low part only when both have a zero prefix
                auto zp = [&](u32 n) -> u32 { if (nodes[n].kind == CONST) { mpz_class v = cval(n); return v == 0 ? w - 1 : w - mpz_sizeinbase(v.get_mpz_t(), 2); }
                    if (nodes[n].kind == CAT) { auto &q = catPool[nodes[n].v][0]; if (nodes[q.n].kind == CONST && cval(q.n) == 0) return q.hi - q.lo + 1; } return 0; };
                u32 za = zp(a), zb = zp(b);
                // n has at least z zero top bits; a const larger than the other's range decides
                if (isConst(b) && za && za < w) { mpz_class lim = pow2(w - za); if (k == ULT ? bv >= lim : bv >= lim - 1) return mkConst64(1, 1); }
                if (isConst(a) && zb && zb < w) { mpz_class lim = pow2(w - zb); mpz_class av = cval(a); if (k == ULT ? av >= lim - 1 : av >= lim) return mkConst64(1, 0); }
                u32 z = std::min(za, zb);
                if (z && z < w) return mkBin(k, mkExtract(a, w - 1 - z, 0), mkExtract(b, w - 1 - z, 0));
            }
            break;
        case SLT: case SLE:
            if (k == SLT && cb && bv == 0) return mkExtract(a, w - 1, w - 1);
            if (k == SLE && isConst(a) && cval(a) == 0) return mkNot1(mkExtract(b, w - 1, w - 1));
            if (a == b) return mkConst64(1, k == SLE);
            if (zeroPrefix(a) && zeroPrefix(b)) return mkBin(k == SLT ? ULT : ULE, a, b);
            break;
        default: break;
    }
    if (w <= 64) {
        u64 r;
        u64 x = nodes[a].cv, y = nodes[b].cv, m = mask64(w);
        switch (k) {
            case ADD: r = x + y; break; case SUB: r = x - y; break; case MUL: r = x * y; break;
            case AND: r = x & y; break; case OR: r = x | y; break; case XOR: r = x ^ y; break;
            case EQ: r = x == y; break; case ULT: r = x < y; break; case ULE: r = x <= y; break;
            default: r = u64Of(evalBin(k, w, mpzOf(x), mpzOf(y)));
        }
        return put(k, rw, a, b, 0, 0, nullptr, r & (cmp ? 1 : m));
    }
    mpz_class r = evalBin(k, w, cval(a), cval(b));
    return put(k, rw, a, b, 0, 0, [&] { return r; }, rw <= 64 ? u64Of(r) : 0);
}
// bits [lo, hi] outside of which a and b are the same, by their segments
static bool differingCore(u32 a, u32 b, u32 &lo, u32 &hi) {
    auto plain = [](u32 n) { return nodes[n].kind != CAT && nodes[n].kind != CONST; };
    if (plain(a) || plain(b)) return false;
    u32 w = nodes[a].w; std::set<u32> cuts = {0, w};
    auto add = [&](u32 n) { if (nodes[n].kind == CAT) { u32 pos = w; for (auto &s : catPool[nodes[n].v]) { pos -= s.hi - s.lo + 1; cuts.insert(pos); } } };
    add(a); add(b);
    std::vector<u32> cp(cuts.begin(), cuts.end()); bool any = false;
    for (size_t i = 0; i + 1 < cp.size(); i++) {
        u32 x = mkExtract(a, cp[i + 1] - 1, cp[i]), y = mkExtract(b, cp[i + 1] - 1, cp[i]); if (x == y) continue;
        u32 l = cp[i], h = cp[i + 1] - 1;
        if (isConst(x) && isConst(y)) { mpz_class d = cval(x) ^ cval(y); h = l + mpz_sizeinbase(d.get_mpz_t(), 2) - 1; l += mpz_scan1(d.get_mpz_t(), 0); }
        if (!any) lo = l;
        any = true; hi = h;
    }
    return any && hi - lo + 1 < w;
}
u32 mkIte(u32 c, u32 a, u32 b) {
    if (a == b) return a;
    if (isConst(c)) return nodes[c].cv ? a : b;
    u32 w = nodes[a].w;
    if (nodes[c].kind == XOR && isConst(nodes[c].b)) return mkIte(nodes[c].a, b, a);
    if (w == 1) {
        if (isConst(a)) return nodes[a].cv ? mkBin(OR, c, b) : mkBin(AND, mkNot1(c), b);
        if (isConst(b)) return nodes[b].cv ? mkBin(OR, mkNot1(c), a) : mkBin(AND, c, a);
    }
    if (isConst(a) && isConst(b)) {
        mpz_class x = cval(a), y = cval(b);
        if (x == 1 && y == 0) return mkZext(c, w);
        if (x == 0 && y == 1) return mkZext(mkNot1(c), w);
    }
    { u32 z = std::min(zeroPrefix(a), zeroPrefix(b));
      if (z && z < w) return mkZext(mkIte(c, mkExtract(a, w - 1 - z, 0), mkExtract(b, w - 1 - z, 0)), w); }
    u32 lo, hi;
    if (differingCore(a, b, lo, hi)) {
        std::vector<Seg> r; u32 m = mkIte(c, mkExtract(a, hi, lo), mkExtract(b, hi, lo));
        if (hi < w - 1) r.push_back(Seg{a, w - 1, hi + 1});
        r.push_back(Seg{m, hi - lo, 0});
        if (lo) r.push_back(Seg{a, lo - 1, 0});
        return mkCat(r);
    }
    bool t = nodes[c].cv;
    return put(ITE, w, c, a, b, 0, [&] { return cval(t ? a : b); }, w <= 64 ? nodes[t ? a : b].cv : 0);
}

// ------------------------------------------------------------------------------------------------
// finite-field nodes
// ------------------------------------------------------------------------------------------------
static mpz_class modp(const mpz_class &v, u32 f) { mpz_class r; mpz_fdiv_r(r.get_mpz_t(), v.get_mpz_t(), fields[f].get_mpz_t()); return r; }
u32 ffConst(u32 f, const mpz_class &v0) { initDag(); mpz_class v = modp(v0, f); u64 ix = bigIndex(v); return put(FF_CONST, f, 0, 0, 0, ix, [&] { return v; }, 0); }
static bool ffIs(u32 n, long v) { return nodes[n].kind == FF_CONST && bigs[nodes[n].big] == v; }
u32 ffBin(u8 k, u32 a, u32 b) {
    u32 f = nodes[a].w;
    mpz_class x = cval(a), y = cval(b), r;
    if (k == FF_ADD) r = x + y; else if (k == FF_SUB) r = x - y; else r = x * y;
    r = modp(r, f);
    if (isConst(a) && isConst(b)) return ffConst(f, r);
    if (k == FF_ADD) { if (ffIs(a, 0)) return b; if (ffIs(b, 0)) return a; }
    if (k == FF_SUB) { if (ffIs(b, 0)) return a; if (a == b) return ffConst(f, 0); }
    if (k == FF_MUL) { if (ffIs(a, 0) || ffIs(b, 1)) return a; if (ffIs(b, 0) || ffIs(a, 1)) return b; }
    if (k != FF_SUB && a > b) std::swap(a, b);
    return put(k, f, a, b, 0, 0, [&] { return r; }, 0);
}
static mpz_class ffSqrtVal(const mpz_class &a, const mpz_class &p);
u32 ffUn(u8 k, u32 a) {
    u32 f = nodes[a].w; mpz_class x = cval(a), r;
    if (k == FF_NEG) r = modp(-x, f);
    else if (k == FF_INV) { if (x == 0) r = 0; else mpz_invert(r.get_mpz_t(), x.get_mpz_t(), fields[f].get_mpz_t()); }
    else if (k == FF_SQRT) r = ffSqrtVal(x, fields[f]);
    if (isConst(a)) return ffConst(f, r);
    return put(k, f, a, 0, 0, 0, [&] { return r; }, 0);
}
static mpz_class ffSqrtVal(const mpz_class &a, const mpz_class &p) {
    if (a == 0) return 0;
    if (mpz_legendre(a.get_mpz_t(), p.get_mpz_t()) != 1) return 0;
    mpz_class q = p - 1; unsigned s = 0; while (q % 2 == 0) { q /= 2; s++; }
    mpz_class z = 2; while (mpz_legendre(z.get_mpz_t(), p.get_mpz_t()) != -1) z++;
    mpz_class m = s, c, t, r, e;
    mpz_powm(c.get_mpz_t(), z.get_mpz_t(), q.get_mpz_t(), p.get_mpz_t());
    mpz_powm(t.get_mpz_t(), a.get_mpz_t(), q.get_mpz_t(), p.get_mpz_t());
    e = (q + 1) / 2; mpz_powm(r.get_mpz_t(), a.get_mpz_t(), e.get_mpz_t(), p.get_mpz_t());
    while (t != 1) {
        unsigned i = 0; mpz_class u = t; while (u != 1) { u = u * u % p; i++; }
        mpz_class b = c; for (unsigned j = 0; j + i + 1 < m.get_ui(); j++) b = b * b % p;
        m = i; c = b * b % p; t = t * c % p; r = r * b % p;
    }
    return r;
}
u32 ffOfBv(u32 f, u32 bv) {
    if (isConst(bv)) return ffConst(f, cval(bv));
    if (nodes[bv].kind == BV_OF_FF && nodes[nodes[bv].a].w == f) return nodes[bv].a;   // canonical representative back into the same field
    mpz_class r = modp(cval(bv), f);
    return put(FF_OF_BV, f, bv, 0, 0, 0, [&] { return r; }, 0);
}
u32 bvOfFf(u32 ff, u32 w) {
    if (isConst(ff)) return mkConst(w, cval(ff));
    const Node x = nodes[ff];
    u32 pb = mpz_sizeinbase(fields[x.w].get_mpz_t(), 2);
    if (x.kind == FF_OF_BV) {
        // to_field of a value known to be below p: the representative is the value itself
        const Node y = nodes[x.a];
        u32 eff = y.w;
        if (y.kind == CAT) { auto &s = catPool[y.v][0]; if (nodes[s.n].kind == CONST && cval(s.n) == 0) eff = y.w - (s.hi - s.lo + 1); }
        bool below = eff < pb;
        if (!below && y.kind == VAR && inputs[y.v].hi < fields[x.w]) below = true;
        if (below) {
            u32 r = x.a;
            if (nodes[r].w > w) r = mkExtract(r, w - 1, 0); else r = mkZext(r, w);
            return r;
        }
    }
    // a difference the path knows to be non-negative is the difference of the numbers
    if (x.kind == FF_SUB && nodes[x.a].kind != BV_OF_FF && nodes[x.b].kind != BV_OF_FF) {
        u32 a = bvOfFf(x.a, pb), b = bvOfFf(x.b, pb);
        auto plain = [](u32 n) { for (auto &q : segsOf(n)) if (nodes[q.n].kind == BV_OF_FF) return false; return true; };
        if (plain(a) && plain(b)) {
            u32 z = std::min(zeroPrefix(a), zeroPrefix(b)); if (z >= pb) z = pb - 1;
            u32 a1 = mkExtract(a, pb - 1 - z, 0), b1 = mkExtract(b, pb - 1 - z, 0), le = mkBin(ULE, b1, a1), lt = mkBin(ULT, b1, a1);
            auto yes = [](u32 c) { return (nodes[c].kind == CONST && nodes[c].cv) || known.count(c); };
            if (yes(le) || yes(lt)) { u32 r = mkZext(mkBin(SUB, a1, b1), pb); return pb > w ? mkExtract(r, w - 1, 0) : mkZext(r, w); }
        }
    }
    mpz_class v = cval(ff);
    u32 r = put(BV_OF_FF, pb, ff, 0, 0, 0, [&] { return v; }, pb <= 64 ? u64Of(v) : 0);
    if (pb > w) return mkExtract(r, w - 1, 0);
    return mkZext(r, w);
}
u32 ffEq(u32 a, u32 b) {
    if (a == b) return mkConst64(1, 1);
    if (isConst(a) && isConst(b)) return mkConst64(1, cval(a) == cval(b));
    if (isConst(a) || (!isConst(b) && a > b)) std::swap(a, b);
    // a number known to be below the modulus is compared as a number
    if (isConst(b) && nodes[a].kind == FF_OF_BV) {
        u32 n = nodes[a].a, z = zeroPrefix(n), pb = mpz_sizeinbase(fields[nodes[a].w].get_mpz_t(), 2);
        if (nodes[n].w - z < pb) { mpz_class v = cval(b); if (v >= pow2(nodes[n].w)) return mkConst64(1, 0); return mkBin(EQ, n, mkConst(nodes[n].w, v)); }
    }
    if (isConst(b) && cval(b) == 0 && nodes[a].kind == FF_SUB) return ffEq(nodes[a].a, nodes[a].b);
    if (nodes[a].kind == FF_OF_BV && nodes[b].kind == FF_OF_BV) {
        u32 n = nodes[a].a, m = nodes[b].a, pb = mpz_sizeinbase(fields[nodes[a].w].get_mpz_t(), 2), w = std::max(nodes[n].w, nodes[m].w);
        if (nodes[n].w - zeroPrefix(n) < pb && nodes[m].w - zeroPrefix(m) < pb) return mkBin(EQ, mkZext(n, w), mkZext(m, w));
    }
    return put(FF_EQ, 1, a, b, 0, 0, nullptr, cval(a) == cval(b));
}
u32 ffIte(u32 c, u32 a, u32 b) {
    if (a == b) return a;
    if (isConst(c)) return nodes[c].cv ? a : b;
    bool t = nodes[c].cv;
    return put(FF_ITE, nodes[a].w, c, a, b, 0, [&] { return cval(t ? a : b); }, 0);
}
u32 ffIsSq(u32 a) {
    mpz_class v = cval(a); bool sq = v == 0 || mpz_legendre(v.get_mpz_t(), fields[nodes[a].w].get_mpz_t()) == 1;
    if (isConst(a)) return mkConst64(1, sq);
    return put(FF_ISSQ, 1, a, 0, 0, 0, nullptr, sq);
}

// ------------------------------------------------------------------------------------------------
// run state
// ------------------------------------------------------------------------------------------------
static bool inRun = false;           // recording is active (child process executing a case)
static u64 staleShadows = 0, extConcretized = 0, unsupportedHits = 0;
static std::map<std::string, u64> reached;
static std::vector<std::string> notes;

enum EvKind : u8 { E_BRANCH, E_SWITCH, E_CONC, E_ASSUME, E_ASSUME_FAIL };
struct Event { u8 kind; u32 site; u32 cond; u32 node; u64 val; };
static std::vector<Event> events;
struct Assertion { size_t pos; u32 cond; std::string msg; };
static std::vector<Assertion> assertions;

struct Work { std::map<std::string, std::string> in; u64 bound = 0; std::vector<u64> excl; u64 prefixHash = 0; bool hasBound = false; };
static Work cur;
static size_t maxEvents = 400000;

[[noreturn]] static void finishRun(const char *status, const std::string &msg);

static void addEvent(u8 kind, u32 site, u32 cond, u32 node, u64 val) {
    if (isConst(cond)) return;
    if (known.count(cond)) return;
    known[cond] = true;
    events.push_back(Event{kind, site, cond, node, val});
    if (events.size() > maxEvents) finishRun("toolong", "event limit exceeded");
}
static u64 hashPrefix(size_t n) {
    u64 h = 1469598103934665603ull;
    for (size_t i = 0; i < n && i < events.size(); i++) {
        auto &e = events[i];
        // addresses shift with the length of the input text, so only small values are compared
        u64 x[3] = {e.kind * 1000003ull + e.site, e.val < (1ull << 32) ? e.val : 0, 0};
        for (u64 y : x) { h ^= y; h *= 1099511628211ull; }
    }
    return h;
}

// ------------------------------------------------------------------------------------------------
// shadow memory
// ------------------------------------------------------------------------------------------------
static constexpr u32 PB = 12;
struct Page { u64 e[1u << PB]; u32 live; };
static std::unordered_map<u64, Page *> *pages;
static u8 present[1u << 16];
static Page *lastPage; static u64 lastPageNo = ~0ull;
static inline u32 ph(u64 pn) { return (pn ^ (pn >> 16)) & 0xFFFF; }
static Page *page(u64 addr, bool create) {
    u64 pn = addr >> PB;
    if (pn == lastPageNo) return lastPage;
    if (!present[ph(pn)] && !create) return nullptr;
    if (!pages) pages = new std::unordered_map<u64, Page *>;
    auto it = pages->find(pn);
    if (it == pages->end()) {
        if (!create) return nullptr;
        Page *p = (Page *)calloc(1, sizeof(Page));
        (*pages)[pn] = p; present[ph(pn)] = 1;
        it = pages->find(pn);
    }
    lastPageNo = pn; lastPage = it->second; return lastPage;
}
static inline u64 getB(u64 addr) { Page *p = page(addr, false); return p ? p->e[addr & ((1u << PB) - 1)] : 0; }
static inline void setB(u64 addr, u64 v) {
    Page *p = page(addr, v != 0); if (!p) return;
    p->e[addr & ((1u << PB) - 1)] = v;
}
static void clearRange(u64 addr, u64 n) {
    u64 end = addr + n;
    while (addr < end) {
        u64 pn = addr >> PB, pe = (pn + 1) << PB, stop = std::min(end, pe);
        if (present[ph(pn)]) { Page *p = page(addr, false); if (p) for (u64 x = addr; x < stop; x++) p->e[x & ((1u << PB) - 1)] = 0; }
        addr = stop;
    }
}
}  // namespace sxe

using namespace sxe;

extern "C" {
uint32_t __sx_args[32];
uint64_t __sx_byval[32];
void *__sx_callee;
uint32_t __sx_ret[16];

static inline u32 opnd(u32 s, u32 w, u64 lo, u64 hi) {
    if (s) return s;
    if (w <= 64) return mkConst64(w, lo);
    return mkConst(w, (mpzOf(hi) << 64) + mpzOf(lo));
}
static u32 boolNode(u32 n) { return n; }

u32 __sx_bin(u32 op, u32 w, u32 sa, u32 sb, u64 alo, u64 ahi, u64 blo, u64 bhi) {
    if (!(sa | sb)) return 0;
    u32 a = opnd(sa, w, alo, ahi), b = opnd(sb, w, blo, bhi);
    if (nodes[a].w != w || nodes[b].w != w) { fprintf(stderr, "sx: width mismatch op %u w %u: %u %u\n", op, w, nodes[a].w, nodes[b].w); _exit(97); }
    u32 r = 0;
    static const u8 direct[] = {ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, SHL, LSHR, ASHR, AND, OR, XOR};
    auto wide = [&](u8 k, bool sext) {   // overflow predicate by recomputation in double width
        u32 w2 = k == MUL ? 2 * w : w + 1;
        u32 x = sext ? mkSext(a, w2) : mkZext(a, w2), y = sext ? mkSext(b, w2) : mkZext(b, w2);
        u32 full = mkBin(k, x, y), low = mkExtract(full, w - 1, 0);
        return mkNot1(mkBin(EQ, full, sext ? mkSext(low, w2) : mkZext(low, w2)));
    };
    switch (op) {
        case P_UDIV: case P_SDIV: case P_UREM: case P_SREM:
            if (!isConst(b)) addEvent(E_BRANCH, 0xD0000000u, mkNot1(mkBin(EQ, b, mkConst64(w, 0))), 0, 1);
            r = mkBin(direct[op], a, b); break;
        case P_ADD: case P_SUB: case P_MUL: case P_SHL: case P_LSHR: case P_ASHR: case P_AND: case P_OR: case P_XOR:
            r = mkBin(direct[op], a, b); break;
        case P_EQ: r = mkBin(EQ, a, b); break;
        case P_NE: r = mkNot1(mkBin(EQ, a, b)); break;
        case P_ULT: r = mkBin(ULT, a, b); break;
        case P_ULE: r = mkBin(ULE, a, b); break;
        case P_UGT: r = mkBin(ULT, b, a); break;
        case P_UGE: r = mkBin(ULE, b, a); break;
        case P_SLT: r = mkBin(SLT, a, b); break;
        case P_SLE: r = mkBin(SLE, a, b); break;
        case P_SGT: r = mkBin(SLT, b, a); break;
        case P_SGE: r = mkBin(SLE, b, a); break;
        case P_UMIN: r = mkIte(mkBin(ULT, a, b), a, b); break;
        case P_UMAX: r = mkIte(mkBin(ULT, a, b), b, a); break;
        case P_SMIN: r = mkIte(mkBin(SLT, a, b), a, b); break;
        case P_SMAX: r = mkIte(mkBin(SLT, a, b), b, a); break;
        case P_UADDO: r = wide(ADD, false); break;
        case P_USUBO: r = mkBin(ULT, a, b); break;
        case P_UMULO: r = wide(MUL, false); break;
        case P_SADDO: r = wide(ADD, true); break;
        case P_SSUBO: r = wide(SUB, true); break;
        case P_SMULO: r = wide(MUL, true); break;
        case P_UADDS: r = mkIte(wide(ADD, false), mkConst(w, mpz_class(-1)), mkBin(ADD, a, b)); break;
        case P_USUBS: r = mkIte(mkBin(ULT, a, b), mkConst64(w, 0), mkBin(SUB, a, b)); break;
        default: fprintf(stderr, "sx: op %u\n", op); _exit(97);
    }
    return isConst(r) ? 0 : r;
}
u32 __sx_cast(u32 kind, u32 wf, u32 wt, u32 s) {
    if (!s) return 0;
    if (nodes[s].w != wf) { fprintf(stderr, "sx: cast width mismatch %u vs %u\n", nodes[s].w, wf); _exit(97); }
    u32 r = kind == 0 ? mkZext(s, wt) : kind == 1 ? mkSext(s, wt) : mkExtract(s, wt - 1, 0);
    return isConst(r) ? 0 : r;
}
u32 __sx_un(u32 kind, u32 w, u32 s) {
    if (!s) return 0;
    u32 r = 0;
    if (kind == 0) { r = mkConst64(w, 0); for (u32 i = 0; i < w; i++) r = mkBin(ADD, r, mkZext(mkExtract(s, i, i), w)); }
    else if (kind == 1) { r = mkConst64(w, w); for (u32 i = 0; i < w; i++) r = mkIte(mkExtract(s, i, i), mkConst64(w, w - 1 - i), r); }
    else if (kind == 2) { r = mkConst64(w, w); for (u32 i = w; i-- > 0;) r = mkIte(mkExtract(s, i, i), mkConst64(w, i), r); }
    else if (kind == 3) { std::vector<Seg> v; for (u32 i = 0; i < w; i += 8) v.push_back(Seg{s, i + 7, i}); r = mkCat(v); }
    else if (kind == 4) { u32 z = mkConst64(w, 0); r = mkIte(mkBin(SLT, s, z), mkBin(SUB, z, s), s); }
    return isConst(r) ? 0 : r;
}
u32 __sx_select(u32 sc, bool c, u32 w, u32 sa, u32 sb, u64 alo, u64 ahi, u64 blo, u64 bhi) {
    if (!sc) return c ? sa : sb;
    u32 r = mkIte(boolNode(sc), opnd(sa, w, alo, ahi), opnd(sb, w, blo, bhi));
    return isConst(r) ? 0 : r;
}
u32 __sx_funnel(u32 dir, u32 w, u32 sa, u32 sb, u32, u64 a, u64 b, u64 c) {
    if (!(sa | sb)) return 0;
    u32 s = c % w;
    u32 x = opnd(sa, w, a, 0), y = opnd(sb, w, b, 0);
    u32 cat = mkCat({Seg{x, w - 1, 0}, Seg{y, w - 1, 0}});
    u32 lo = dir == 0 ? w - s : s;
    u32 r = mkExtract(cat, lo + w - 1, lo);
    return isConst(r) ? 0 : r;
}
void __sx_branch(u32 s, bool taken, u32 site) {
    if (!s || !inRun) return;
    if ((nodes[s].cv & 1) != (u64)taken) { fprintf(stderr, "sx: shadow disagrees with native branch (site %u)\n", site); finishRun("engine", "shadow/native mismatch at branch"); }
    if (getenv("SX_BRANCHES")) fprintf(stderr, "branch at %p n%u\n", __builtin_return_address(0), s);
    addEvent(E_BRANCH, site, taken ? s : mkNot1(s), s, taken);
}
void __sx_switch(u32 s, u32 w, u64 v, const u64 *cases, u32 n, u32 site) {
    if (!s || !inRun) return;
    u32 c; bool hit = false; u64 which = n;
    for (u32 i = 0; i < n; i++) if (cases[i] == v) { hit = true; which = i; }
    if (hit) c = mkBin(EQ, s, mkConst64(w, v));
    else { c = mkConst64(1, 1); for (u32 i = 0; i < n; i++) c = mkAnd1(c, mkNot1(mkBin(EQ, s, mkConst64(w, cases[i])))); which = ~0ull; }
    // alternatives excluded by value: remember the case label (or ~0 for default)
    (void)which;
    addEvent(hit ? E_CONC : E_BRANCH, site, c, s, hit ? v : 0);
}
static void conc(u32 s, u32 site) {
    if (!s || !inRun) return;
    u64 v = cval64(s);
    addEvent(E_CONC, site, mkBin(EQ, s, mkConst(nodes[s].w, cval(s))), s, v);
}
static void dbgSite(const char *k, void *r, u32 s) { if (s && inRun && getenv("SX_BT")) { void *b[12]; int n = backtrace(b, 12); for (int i = 0; i < n; i++) fprintf(stderr, " %p", b[i]); fprintf(stderr, " kind %u width %u\n", nodes[s].kind, nodes[s].w); } if (s && inRun && getenv("SX_BRANCHES")) fprintf(stderr, "%s at %p n%u\n", k, r, s); }
void __sx_concretize(u32 s, u32 site) { dbgSite("conc", __builtin_return_address(0), s); conc(s, site); }
void __sx_concretize_ptr(u32 s, u32 site) { dbgSite("ptr", __builtin_return_address(0), s); conc(s, site); }
void __sx_ext_arg(u32 s, u32 site) { dbgSite("ext", __builtin_return_address(0), s); if (s) extConcretized++; conc(s, site); }
void __sx_ext_write(void *) {}
void __sx_unsupported(u32 s, u32 site, const char *what) {
    if (!s || !inRun) return;
    unsupportedHits++; notes.push_back(std::string("unsupported: ") + what); (void)site;
    finishRun("engine", std::string("unsupported operation on a symbolic value: ") + what);
}
u32 __sx_load(void *p, u32 n, u32 w) {
    u64 a = (u64)p;
    if (!present[ph(a >> PB)] && !present[ph((a + n - 1) >> PB)]) return 0;
    bool any = false;
    u64 e[64];
    if (n > 64) { for (u32 i = 0; i < n; i++) if (getB(a + i)) { finishRun("engine", "wide load of symbolic memory"); } return 0; }
    for (u32 i = 0; i < n; i++) { e[i] = getB(a + i); if (e[i]) any = true; }
    if (!any) return 0;
    const u8 *m = (const u8 *)p;
    // drop stale shadows (memory rewritten by uninstrumented code)
    any = false;
    for (u32 i = 0; i < n; i++) if (e[i]) {
        u32 nd = e[i] >> 32, ix = e[i] & 0xffffffff;
        u64 c = nodes[nd].w > 64 ? u64Of(mpz_class(bigs[nodes[nd].big] >> (8 * ix))) & 0xff : (ix * 8 >= 64 ? 0 : (nodes[nd].cv >> (8 * ix)) & 0xff);
        if (c != m[i]) { staleShadows++; e[i] = 0; setB(a + i, 0); } else any = true;
    }
    if (!any) return 0;
    u32 nd = e[0] >> 32;
    bool whole = e[0] && nodes[nd].w == 8 * n;
    for (u32 i = 0; i < n && whole; i++) if ((e[i] >> 32) != nd || (e[i] & 0xffffffff) != i) whole = false;
    u32 r;
    if (whole) r = nd;
    else {
        std::vector<Seg> v;
        for (u32 i = n; i-- > 0;) {
            if (e[i]) { u32 ix = e[i] & 0xffffffff; v.push_back(Seg{(u32)(e[i] >> 32), 8 * ix + 7, 8 * ix}); }
            else { u32 c = mkConst64(8, m[i]); v.push_back(Seg{c, 7, 0}); }
        }
        r = mkCat(v);
    }
    if (w < 8 * n) r = mkExtract(r, w - 1, 0);
    return isConst(r) ? 0 : r;
}
// a read through an index with few possible values: one case per possible address
u32 __sx_load_ptr(void *p, u32 n, u32 w, u32 ps, u32 site) {
    if (!ps || isConst(ps)) return __sx_load(p, n, w);
    const Lin l = linOf(ps);
    mpz_class step = 0; for (auto &e : l.t) mpz_gcd(step.get_mpz_t(), step.get_mpz_t(), e.second.get_mpz_t());
    mpz_class cnt = step == 0 ? mpz_class(0) : mpz_class((l.hi - l.lo) / step + 1);
    if (step == 0 || cnt > 64 || l.hi >= pow2(64)) { conc(ps, site); return __sx_load(p, n, w); }
    u32 r = 0; bool first = true, any = false;
    std::vector<std::pair<u64, u32>> cand;
    for (mpz_class v = l.lo; v <= l.hi; v += step) {
        u64 a = u64Of(v);
        if (a != (u64)p) { u64 pg = a & ~4095ull; unsigned char vec[2]; if (mincore((void *)pg, (a + n) - pg, vec)) continue; }
        u32 x = __sx_load((void *)a, n, w);
        u64 lo = 0, hi = 0; memcpy(&lo, (void *)a, n < 8 ? n : 8); if (n > 8) memcpy(&hi, (char *)a + 8, n < 16 ? n - 8 : 8);
        if (!x) x = opnd(0, w, lo, hi);
        cand.push_back({a, x});
    }
    (void)any; (void)first;
    if (cand.size() != (size_t)cnt.get_ui()) { conc(ps, site); return __sx_load(p, n, w); }
    r = cand.back().second;
    for (size_t i = cand.size() - 1; i-- > 0;) r = mkIte(mkBin(EQ, ps, mkConst64(64, cand[i].first)), cand[i].second, r);
    return isConst(r) ? 0 : r;
}
void __sx_store(void *p, u32 n, u32 s) {
    u64 a = (u64)p;
    if (!s) { if (!present[ph(a >> PB)] && !present[ph((a + n - 1) >> PB)]) return; for (u32 i = 0; i < n; i++) setB(a + i, 0); return; }
    if (nodes[s].w < 8 * n) s = mkZext(s, 8 * n);
    for (u32 i = 0; i < n; i++) setB(a + i, ((u64)s << 32) | i);
}
void __sx_clear(void *p, u64 n) { clearRange((u64)p, n); }
void __sx_clear_alloc(void *p, u64 n) { if (p) clearRange((u64)p, n); }
void __sx_memcpy(void *d, void *s, u64 n) {
    if (!n || d == s) return;
    u64 a = (u64)d, b = (u64)s;
    bool any = false;
    for (u64 x = b >> PB; x <= (b + n - 1) >> PB; x++) if (present[ph(x)]) { any = true; break; }
    if (!any) { clearRange(a, n); return; }
    std::vector<u64> t(n);
    for (u64 i = 0; i < n; i++) t[i] = getB(b + i);
    for (u64 i = 0; i < n; i++) setB(a + i, t[i]);
}
void __sx_memset(void *d, u32 s, u64 n) {
    if (!s) { clearRange((u64)d, n); return; }
    for (u64 i = 0; i < n; i++) setB((u64)d + i, (u64)s << 32);
}
void __sx_load_concrete(void *p, u64 n) {
    for (u64 i = 0; i < n; i++) if (getB((u64)p + i)) { u32 s = __sx_load((u8 *)p + i, 1, 8); if (s) conc(s, 0xC0000000u); }
}
u32 __sx_memcmp(void *a, void *b, u64 n, u32 eqOnly, u32 site) {
    u32 r = mkConst64(32, 0);
    bool any = false;
    for (u64 i = n; i-- > 0;) {
        u32 x = __sx_load((u8 *)a + i, 1, 8), y = __sx_load((u8 *)b + i, 1, 8);
        if (x | y) any = true;
        x = opnd(x, 8, ((u8 *)a)[i], 0); y = opnd(y, 8, ((u8 *)b)[i], 0);
        u32 lt = mkBin(ULT, x, y), eq = mkBin(EQ, x, y);
        r = mkIte(eq, r, eqOnly ? mkConst64(32, 1) : mkIte(lt, mkConst64(32, ~0ull), mkConst64(32, 1)));
    }
    if (!any) return 0;
    // the native result of memcmp may differ in magnitude from ours: decide the sign on this path
    (void)site;
    int real = memcmp(a, b, n);
    u32 z = mkConst64(32, 0);
    if (eqOnly) { conc(mkZext(mkBin(EQ, r, z), 32), site); return 0; }
    conc(mkIte(mkBin(EQ, r, z), mkConst64(32, 0), mkIte(mkBin(SLT, r, z), mkConst64(32, 1), mkConst64(32, 2))), site);
    (void)real;
    return 0;
}

u32 __sx_shadow64(u64) noexcept { return 0; }
bool __sx_taint1(bool c, u32) noexcept { return c; }
u32 __sx_taint32(u32 c, u32) noexcept { return c; }
u64 __sx_taint64(u64 c, u32) noexcept { return c; }

u64 __sx_sel64(bool c, u64 a, u64 b) noexcept { return c ? a : b; }
static u32 inputNode(const char *name, bool ff, const mpz_class &lo, const mpz_class &hi) {   // a name read twice is one input
    for (auto &i : inputs) if (i.name == name) {
        if (i.ff != ff || i.lo != lo || i.hi != hi) finishRun("engine", std::string("input ") + name + " read again with another range");
        return i.node;
    }
    return 0;
}
u32 __sx_input(const char *name, u32 bits, u64 lo, u64 hi, u64 *out) noexcept {
    mpz_class v = mpzOf(lo);
    auto it = cur.in.find(name);
    if (it != cur.in.end()) v = mpz_class(it->second);
    if (v < mpzOf(lo) || v > mpzOf(hi)) v = mpzOf(lo);
    *out = u64Of(v);
    if (!inRun) return 0;
    cur.in[name] = v.get_str();
    if (lo == hi) return 0;
    if (u32 old = inputNode(name, false, mpzOf(lo), mpzOf(hi))) return mkZext(old, bits);
    u32 id = inputs.size();
    u64 val = u64Of(v);
    u32 nb = std::min<u32>(bits, mpz_sizeinbase(mpzOf(hi).get_mpz_t(), 2));   // narrow variable, zero-extended
    u32 n = put(VAR, nb, 0, 0, 0, id, nullptr, val);
    inputs.push_back(Input{name, false, nb, mpzOf(lo), mpzOf(hi), n});
    return mkZext(n, bits);
}

// ---- wide integers and field elements (shim/sxn) ----
static mpz_class limbs(const u64 *l, u32 n) { mpz_class r; if (l && n) mpz_import(r.get_mpz_t(), n, -1, 8, 0, 0, l); return r; }
static u32 bvArg(u32 s, u32 w, const u64 *l) { if (s) { u32 k = nodes[s].w; return k == w ? s : k < w ? mkZext(s, w) : mkExtract(s, w - 1, 0); } return mkConst(w, limbs(l, (w + 63) / 64)); }
static u32 out0(u32 n) { return isConst(n) ? 0 : n; }
u64 __sx_plain64(u64 v) noexcept { return v; }
u32 __sx_bv_op(u32 op, u32 w, u32 sa, u32 sb, const u64 *la, const u64 *lb) noexcept {
    static const u8 m[] = {ADD, SUB, MUL, UDIV, UREM, AND, OR, XOR, SHL, LSHR, EQ, ULT, ULE};
    return out0(mkBin(m[op], bvArg(sa, w, la), bvArg(sb, w, lb)));
}
u32 __sx_bv_resize(u32 n, u32 w, bool sign) noexcept {
    u32 k = nodes[n].w;
    return out0(k == w ? n : k > w ? mkExtract(n, w - 1, 0) : sign ? mkSext(n, w) : mkZext(n, w));
}
u32 __sx_bv_extract(u32 n, u32 hi, u32 lo) noexcept { return out0(mkExtract(n, hi, lo)); }
static void toLimbs(const mpz_class &v, u64 *out, u32 n) { for (u32 i = 0; i < n; i++) out[i] = u64Of(mpz_class(v >> (64 * i))); }
u32 __sx_big_input(const char *name, u32 bits, u64 *out, const u64 *hi) noexcept {
    mpz_class top = hi ? limbs(hi, (bits + 63) / 64) : mpz_class(pow2(bits) - 1), v = 0;
    auto it = cur.in.find(name);
    if (it != cur.in.end()) v = mpz_class(it->second);
    if (v < 0 || v > top) v = 0;
    toLimbs(v, out, (bits + 63) / 64);
    if (!inRun) return 0;
    cur.in[name] = v.get_str();
    if (top == 0) return 0;
    if (u32 old = inputNode(name, false, 0, top)) return mkZext(old, bits);
    u32 id = inputs.size(), nb = std::min<u32>(bits, mpz_sizeinbase(top.get_mpz_t(), 2));
    u32 n = put(VAR, nb, 0, 0, 0, id, [&] { return v; }, u64Of(v));
    inputs.push_back(Input{name, false, nb, 0, top, n});
    return mkZext(n, bits);
}
u32 __sx_field(const u64 *mod, u32 n) noexcept {
    mpz_class p = limbs(mod, n);
    for (u32 i = 0; i < fields.size(); i++) if (fields[i] == p) return i;
    fields.push_back(p); return fields.size() - 1;
}
static u32 flen(u32 f) { return (mpz_sizeinbase(fields[f].get_mpz_t(), 2) + 63) / 64; }
static u32 ffArg(u32 s, u32 f, const u64 *l) { return s ? s : ffConst(f, limbs(l, flen(f))); }
u32 __sx_ff_op(u32 op, u32 f, u32 sa, u32 sb, const u64 *la, const u64 *lb) noexcept {
    static const u8 m[] = {FF_ADD, FF_SUB, FF_MUL, FF_NEG, FF_INV, FF_SQRT};
    return out0(op <= 2 ? ffBin(m[op], ffArg(sa, f, la), ffArg(sb, f, lb)) : ffUn(m[op], ffArg(sa, f, la)));
}
u32 __sx_ff_of_bv(u32 f, u32 n) noexcept { return out0(ffOfBv(f, n)); }
u32 __sx_bv_of_ff(u32 n, u32 w) noexcept { return out0(bvOfFf(n, w)); }
u32 __sx_ff_cmp(u32 op, u32 f, u32 sa, u32 sb, const u64 *la, const u64 *lb) noexcept {
    u32 a = ffArg(sa, f, la);
    if (op == 3) return out0(ffIsSq(a));
    u32 b = ffArg(sb, f, lb);
    if (op == 0) return out0(ffEq(a, b));
    u32 pb = mpz_sizeinbase(fields[f].get_mpz_t(), 2);
    return out0(mkBin(op == 1 ? ULT : ULE, bvOfFf(a, pb), bvOfFf(b, pb)));
}
u32 __sx_ff_input(const char *name, u32 f, u64 *out, u32 n) noexcept {
    mpz_class v = 0;
    auto it = cur.in.find(name);
    if (it != cur.in.end()) v = mpz_class(it->second);
    if (v < 0 || v >= fields[f]) v = 0;
    toLimbs(v, out, n);
    if (!inRun) return 0;
    cur.in[name] = v.get_str();
    if (u32 old = inputNode(name, true, 0, fields[f] - 1)) return old;
    u32 id = inputs.size();
    u32 nd = put(FF_VAR, f, 0, 0, 0, id, [&] { return v; }, 0);
    inputs.push_back(Input{name, true, f, 0, fields[f] - 1, nd});
    return nd;
}
u32 __sx_cell(const char *name, u32 f, u64 *val, u32 n) noexcept {   // a field input with a given default
    if (!cur.in.count(name)) { mpz_class v = limbs(val, n); cur.in[name] = v.get_str(); u32 r = __sx_ff_input(name, f, val, n); cur.in.erase(name); return r; }
    return __sx_ff_input(name, f, val, n);
}
u32 __sx_ite(bool c, u32 cs, u32 f, u32 sa, u32 sb, const u64 *la, const u64 *lb) noexcept {
    if (!cs) return c ? sa : sb;
    u32 cc = mkNot1(mkBin(EQ, cs, mkConst64(nodes[cs].w, 0)));
    return out0(ffIte(cc, ffArg(sa, f, la), ffArg(sb, f, lb)));
}
void __sx_assert(bool c, u32 s, const char *msg) noexcept {
    if (!inRun) return;
    if (!c) finishRun("violation", msg);
    if (!s) { stats.trivial++; return; }
    u32 cond = mkNot1(mkBin(EQ, s, mkConst64(nodes[s].w, 0)));
    if (isConst(cond)) { stats.trivial++; return; }
    assertions.push_back(Assertion{events.size(), cond, msg});
}
void __sx_assume(bool c, u32 s) noexcept {
    if (!inRun) return;
    if (!s) { if (!c) finishRun("assume", ""); return; }
    u32 cond = mkNot1(mkBin(EQ, s, mkConst64(nodes[s].w, 0)));
    if (isConst(cond)) { if (!c) finishRun("assume", ""); return; }
    if (c) addEvent(E_ASSUME, 0xA0000000u, cond, s, 1);
    else { addEvent(E_ASSUME_FAIL, 0xA0000000u, mkNot1(cond), s, 0); finishRun("assume", ""); }
}
u64 __sx_pin(u64 v, u32 s) noexcept { conc(s, 0xF0000000u); return v; }
void __sx_reach(const char *l) noexcept { if (inRun) reached[l]++; }
void __sx_note(const char *t) noexcept { if (inRun) notes.push_back(t); }
}  // extern "C"

// ------------------------------------------------------------------------------------------------
// z3 back end (bit-vectors)
// ------------------------------------------------------------------------------------------------
namespace sxe {
static Z3_context zc; static Z3_solver zs;
static double queryTimeout = 60;

static void zInit() {
    if (zc) return;
    Z3_config cfg = Z3_mk_config();
    zc = Z3_mk_context(cfg);
    Z3_del_config(cfg);
    zs = Z3_mk_solver_for_logic(zc, Z3_mk_string_symbol(zc, "QF_BV"));
    Z3_solver_inc_ref(zc, zs);
    Z3_params p = Z3_mk_params(zc); Z3_params_inc_ref(zc, p);
    Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "timeout"), (unsigned)(queryTimeout * 1000));
    Z3_solver_set_params(zc, zs, p);
}
static std::vector<Z3_ast> zSide;
// field terms whose residue is an input or a number known to be below the modulus
mpz_class umax(u32 n);
bool plainResidue(u32 n) {
    const Node x = nodes[n]; if (x.kind == FF_VAR || isConst(n)) return true;
    return x.kind == FF_OF_BV && nodes[bvOfFf(n, mpz_sizeinbase(fields[x.w].get_mpz_t(), 2))].kind != BV_OF_FF;
}
// field terms built by sums and products of numbers: as integers, with their ranges; false when there is no finite range
// of use.  A term is congruent to its integer, so within (-p, p) it is zero exactly when the integer is.
struct IntRange { bool ok; mpz_class lo, hi; };
static std::unordered_map<u32, IntRange> intMemo;
static mpz_class signedRep(u32 f, const mpz_class &c) { return c * 2 > fields[f] ? mpz_class(c - fields[f]) : c; }
static const IntRange &intRange(u32 n) {
    auto it = intMemo.find(n); if (it != intMemo.end()) return it->second;
    const Node x = nodes[n]; IntRange r{true, 0, 0};
    if (isConst(n)) r.lo = r.hi = signedRep(x.w, cval(n));
    else switch (x.kind) {
        case FF_OF_BV: r.hi = umax(x.a); break;
        case FF_ADD: { auto a = intRange(x.a), b = intRange(x.b); r = {a.ok && b.ok, a.lo + b.lo, a.hi + b.hi}; break; }
        case FF_SUB: { auto a = intRange(x.a), b = intRange(x.b); r = {a.ok && b.ok, a.lo - b.hi, a.hi - b.lo}; break; }
        case FF_NEG: { auto a = intRange(x.a); r = {a.ok, -a.hi, -a.lo}; break; }
        case FF_ITE: { auto a = intRange(x.b), b = intRange(x.c); r = {a.ok && b.ok, std::min(a.lo, b.lo), std::max(a.hi, b.hi)}; break; }
        case FF_MUL: {
            auto a = intRange(x.a), b = intRange(x.b); mpz_class q[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi};
            r = {a.ok && b.ok, *std::min_element(q, q + 4), *std::max_element(q, q + 4)}; break; }
        default: r.ok = false;
    }
    if (r.ok && (mpz_sizeinbase(r.lo.get_mpz_t(), 2) > 700 || mpz_sizeinbase(r.hi.get_mpz_t(), 2) > 700)) r.ok = false;
    return intMemo[n] = r;
}
static bool intFits(u32 f, const mpz_class &lo, const mpz_class &hi) { return lo > -fields[f] && hi < fields[f]; }
// what an exact translation can say about a condition over field terms; a last attempt follows sums a few times around the modulus
bool wideExact = false;
static bool fits(u32 f, const mpz_class &lo, const mpz_class &hi) { return wideExact ? lo > -8 * fields[f] && hi < 8 * fields[f] : intFits(f, lo, hi); }
bool exactCond(u32 n) {
    const Node x = nodes[n];
    if (x.kind == FF_EQ) { if (plainResidue(x.a) && plainResidue(x.b)) return true; auto a = intRange(x.a), b = intRange(x.b); return a.ok && b.ok && fits(nodes[x.a].w, a.lo - b.hi, a.hi - b.lo); }
    if (x.kind == BV_OF_FF) { if (nodes[x.a].kind == FF_VAR) return true; auto a = intRange(x.a); return a.ok && fits(nodes[x.a].w, a.lo, a.hi); }
    return x.kind != FF_ISSQ;
}
static bool zExact = false;
static std::unordered_map<u32, Z3_ast> zmemoPlain, zmemoExact;
static u32 intWidth(u32 n, std::map<u32, u32> &seen) {   // bits that hold every subterm
    auto it = seen.find(n); if (it != seen.end()) return it->second;
    auto r = intRange(n); const Node x = nodes[n]; u32 w = 2 + std::max(mpz_sizeinbase(r.lo.get_mpz_t(), 2), mpz_sizeinbase(r.hi.get_mpz_t(), 2));
    if (!isConst(n) && x.kind != FF_OF_BV) { if (x.kind != FF_ITE) w = std::max(w, intWidth(x.a, seen)); if (x.b) w = std::max(w, intWidth(x.b, seen)); if (x.kind == FF_ITE) w = std::max(w, intWidth(x.c, seen)); }
    return seen[n] = w;
}
static Z3_ast zInt(u32 n, u32 w, std::map<u32, Z3_ast> &memo) {
    auto it = memo.find(n); if (it != memo.end()) return it->second;
    const Node x = nodes[n]; Z3_sort s = Z3_mk_bv_sort(zc, w); Z3_ast r;
    if (isConst(n)) r = Z3_mk_numeral(zc, mpz_class((signedRep(x.w, cval(n)) + pow2(w)) % pow2(w)).get_str().c_str(), s);
    else switch (x.kind) {
        case FF_OF_BV: { Z3_ast a = zmemoExact.at(x.a); u32 k = nodes[x.a].w; r = k < w ? Z3_mk_zero_ext(zc, w - k, a) : k == w ? a : Z3_mk_extract(zc, w - 1, 0, a); break; }
        case FF_ADD: r = Z3_mk_bvadd(zc, zInt(x.a, w, memo), zInt(x.b, w, memo)); break;
        case FF_SUB: r = Z3_mk_bvsub(zc, zInt(x.a, w, memo), zInt(x.b, w, memo)); break;
        case FF_NEG: r = Z3_mk_bvneg(zc, zInt(x.a, w, memo)); break;
        case FF_MUL: r = Z3_mk_bvmul(zc, zInt(x.a, w, memo), zInt(x.b, w, memo)); break;
        default: r = Z3_mk_ite(zc, Z3_mk_eq(zc, zmemoExact.at(x.a), Z3_mk_numeral(zc, "1", Z3_mk_bv_sort(zc, 1))), zInt(x.b, w, memo), zInt(x.c, w, memo));
    }
    Z3_inc_ref(zc, r); return memo[n] = r;
}
// numbers and conditions a field term is built from
static void intLeaves(u32 n, std::set<u32> &seen, std::vector<u32> &out) {
    if (!seen.insert(n).second || isConst(n)) return; const Node x = nodes[n];
    if (x.kind == FF_OF_BV) { out.push_back(x.a); return; }
    if (x.kind == FF_ITE) out.push_back(x.a); else intLeaves(x.a, seen, out);
    if (x.b) intLeaves(x.b, seen, out);
    if (x.kind == FF_ITE) intLeaves(x.c, seen, out);
}
static Z3_ast zOf(u32 root) {
    auto &zmemo = zExact ? zmemoExact : zmemoPlain;
    std::vector<u32> st = {root};
    while (!st.empty()) {
        u32 n = st.back();
        if (zmemo.count(n)) { st.pop_back(); continue; }
        const Node x = nodes[n];
        std::vector<u32> ch;
        if (x.kind == FF_EQ && plainResidue(x.a) && plainResidue(x.b)) {   // inputs and small numbers compare as residues
            const u32 f = nodes[x.a].w, pb = mpz_sizeinbase(fields[f].get_mpz_t(), 2), ca = x.a, cb = x.b, a = bvOfFf(ca, pb), b = bvOfFf(cb, pb);
            if (!zmemo.count(a) || !zmemo.count(b)) { st.push_back(a); st.push_back(b); continue; }
            Z3_ast r = Z3_mk_ite(zc, Z3_mk_eq(zc, zmemo[a], zmemo[b]), Z3_mk_numeral(zc, "1", Z3_mk_bv_sort(zc, 1)), Z3_mk_numeral(zc, "0", Z3_mk_bv_sort(zc, 1)));
            Z3_inc_ref(zc, r); zmemo[n] = r; st.pop_back(); continue;
        }
        if (zExact && (x.kind == FF_EQ || (x.kind == BV_OF_FF && nodes[x.a].kind != FF_VAR)) && exactCond(n)) {
            std::set<u32> seen; std::vector<u32> leaves; intLeaves(x.a, seen, leaves); if (x.kind == FF_EQ) intLeaves(x.b, seen, leaves);
            bool ready = true; for (u32 l : leaves) if (!zmemo.count(l)) { st.push_back(l); ready = false; }
            if (!ready) continue;
            std::map<u32, u32> ws; u32 w = intWidth(x.a, ws); if (x.kind == FF_EQ) w = std::max(w, intWidth(x.b, ws));
            const mpz_class &p = fields[nodes[x.a].w]; if (x.kind == BV_OF_FF && intRange(x.a).lo < 0) w = std::max<u32>(w, mpz_sizeinbase(p.get_mpz_t(), 2) + 2); std::map<u32, Z3_ast> memo;
            if (wideExact) w = std::max<u32>(w, mpz_sizeinbase(p.get_mpz_t(), 2) + 5) + 2;
            Z3_ast r; Z3_sort s = Z3_mk_bv_sort(zc, w), s1 = Z3_mk_bv_sort(zc, 1);
            auto mult = [&](int k) { return Z3_mk_numeral(zc, mpz_class((k * p + pow2(w)) % pow2(w)).get_str().c_str(), s); };
            if (wideExact) {
                Z3_ast one = Z3_mk_numeral(zc, "1", s1), nil = Z3_mk_numeral(zc, "0", s1), d = zInt(x.a, w, memo); auto ra = intRange(x.a); mpz_class lo = ra.lo, hi = ra.hi;
                if (x.kind == FF_EQ) { d = Z3_mk_bvsub(zc, d, zInt(x.b, w, memo)); auto rb = intRange(x.b); lo -= rb.hi; hi -= rb.lo; }
                auto at = [&](const mpz_class &v) { mpz_class q; mpz_fdiv_q(q.get_mpz_t(), v.get_mpz_t(), p.get_mpz_t()); return (int)q.get_si(); };
                const int k0 = at(lo), k1 = at(hi);
                if (x.kind == FF_EQ) { r = nil; for (int k = k0; k <= k1; k++) r = Z3_mk_ite(zc, Z3_mk_eq(zc, d, mult(k)), one, r); }
                else {
                    r = Z3_mk_bvsub(zc, d, mult(k0)); for (int k = k0 + 1; k <= k1; k++) r = Z3_mk_ite(zc, Z3_mk_bvsge(zc, d, mult(k)), Z3_mk_bvsub(zc, d, mult(k)), r);
                    r = w < x.w ? Z3_mk_zero_ext(zc, x.w - w, r) : w == x.w ? r : Z3_mk_extract(zc, x.w - 1, 0, r);
                }
            } else if (x.kind == FF_EQ) r = Z3_mk_ite(zc, Z3_mk_eq(zc, zInt(x.a, w, memo), zInt(x.b, w, memo)), Z3_mk_numeral(zc, "1", s1), Z3_mk_numeral(zc, "0", s1));
            else {
                r = zInt(x.a, w, memo);
                if (intRange(x.a).lo < 0) r = Z3_mk_ite(zc, Z3_mk_bvslt(zc, r, Z3_mk_numeral(zc, "0", s)), Z3_mk_bvadd(zc, r, Z3_mk_numeral(zc, p.get_str().c_str(), s)), r);
                r = w < x.w ? Z3_mk_zero_ext(zc, x.w - w, r) : w == x.w ? r : Z3_mk_extract(zc, x.w - 1, 0, r);
            }
            Z3_inc_ref(zc, r); zmemo[n] = r; st.pop_back(); continue;
        }
        if (x.kind == FF_EQ || x.kind == FF_ISSQ || x.kind == BV_OF_FF) {     // field terms are left open
            Z3_ast v = Z3_mk_const(zc, Z3_mk_string_symbol(zc, ("f!" + std::to_string(n)).c_str()), Z3_mk_bv_sort(zc, x.w));
            Z3_inc_ref(zc, v); zmemo[n] = v;
            if (x.kind == BV_OF_FF) { Z3_ast c = Z3_mk_bvule(zc, v, Z3_mk_numeral(zc, mpz_class(fields[nodes[x.a].w] - 1).get_str().c_str(), Z3_mk_bv_sort(zc, x.w))); Z3_inc_ref(zc, c); zSide.push_back(c); }
            st.pop_back(); continue;
        }
        if (x.kind == CAT) for (auto &s : catPool[x.v]) ch.push_back(s.n);
        else { if (x.a) ch.push_back(x.a); if (x.b) ch.push_back(x.b); if (x.c) ch.push_back(x.c); }
        bool ok = true;
        for (u32 c : ch) if (!zmemo.count(c)) { st.push_back(c); ok = false; }
        if (!ok) continue;
        auto bvSort = [&](u32 w) { return Z3_mk_bv_sort(zc, w); };
        Z3_ast one = nullptr, zero = nullptr;
        auto b2v = [&](Z3_ast b) { one = Z3_mk_numeral(zc, "1", bvSort(1)); zero = Z3_mk_numeral(zc, "0", bvSort(1)); return Z3_mk_ite(zc, b, one, zero); };
        Z3_ast a = x.a ? zmemo[x.a] : nullptr, b = x.b ? zmemo[x.b] : nullptr, c = x.c ? zmemo[x.c] : nullptr, r = nullptr;
        switch (x.kind) {
            case CONST: r = Z3_mk_numeral(zc, cval(n).get_str().c_str(), bvSort(x.w)); break;
            case VAR: r = Z3_mk_const(zc, Z3_mk_string_symbol(zc, ("v!" + inputs[x.v].name).c_str()), bvSort(x.w)); break;
            case CAT: {
                for (auto &s : catPool[x.v]) {
                    Z3_ast e = zmemo[s.n];
                    if (!(s.lo == 0 && s.hi == nodes[s.n].w - 1)) e = Z3_mk_extract(zc, s.hi, s.lo, e);
                    r = r ? Z3_mk_concat(zc, r, e) : e;
                }
                break; }
            case ADD: r = Z3_mk_bvadd(zc, a, b); break;
            case SUB: r = Z3_mk_bvsub(zc, a, b); break;
            case MUL: r = Z3_mk_bvmul(zc, a, b); break;
            case UDIV: case UREM:
                if (zExact && wideExact && isConst(x.b) && cval(x.b) > 0 && umax(x.a) / cval(x.b) <= 8) {   // a quotient of a few values, told by comparing
                    int top = (int)mpz_class(umax(x.a) / cval(x.b)).get_si(); r = x.kind == UDIV ? Z3_mk_numeral(zc, "0", bvSort(x.w)) : a;
                    for (int k = 1; k <= top; k++) { Z3_ast m = Z3_mk_numeral(zc, mpz_class(k * cval(x.b)).get_str().c_str(), bvSort(x.w)); r = Z3_mk_ite(zc, Z3_mk_bvuge(zc, a, m), x.kind == UDIV ? Z3_mk_int(zc, k, bvSort(x.w)) : Z3_mk_bvsub(zc, a, m), r); }
                } else r = x.kind == UDIV ? Z3_mk_bvudiv(zc, a, b) : Z3_mk_bvurem(zc, a, b);
                break;
            case SDIV: r = Z3_mk_bvsdiv(zc, a, b); break;
            case SREM: r = Z3_mk_bvsrem(zc, a, b); break;
            case SHL: r = Z3_mk_bvshl(zc, a, b); break;
            case LSHR: r = Z3_mk_bvlshr(zc, a, b); break;
            case ASHR: r = Z3_mk_bvashr(zc, a, b); break;
            case AND: r = Z3_mk_bvand(zc, a, b); break;
            case OR: r = Z3_mk_bvor(zc, a, b); break;
            case XOR: r = Z3_mk_bvxor(zc, a, b); break;
            case EQ: r = b2v(Z3_mk_eq(zc, a, b)); break;
            case ULT: r = b2v(Z3_mk_bvult(zc, a, b)); break;
            case ULE: r = b2v(Z3_mk_bvule(zc, a, b)); break;
            case SLT: r = b2v(Z3_mk_bvslt(zc, a, b)); break;
            case SLE: r = b2v(Z3_mk_bvsle(zc, a, b)); break;
            case SEXT: r = Z3_mk_sign_ext(zc, x.w - nodes[x.a].w, a); break;
            case ITE: r = Z3_mk_ite(zc, Z3_mk_eq(zc, a, Z3_mk_numeral(zc, "1", bvSort(1))), b, c); break;
            default: fprintf(stderr, "sx: kind %d in bit-vector query\n", x.kind); _exit(97);
        }
        zmemo[n] = r;
        st.pop_back();
    }
    return zmemo[root];
}
void dumpNode(u32 root) {
    std::set<u32> seen; std::function<void(u32)> go = [&](u32 n) {
        if (!n || !seen.insert(n).second) return;
        const Node x = nodes[n];
        if (x.kind == CAT) for (auto &s : catPool[x.v]) go(s.n); else { go(x.a); go(x.b); go(x.c); }
        fprintf(stderr, "  n%u:%u = k%d", n, x.w, x.kind);
        if (x.kind == CONST) fprintf(stderr, " #%s", cval(n).get_str().c_str());
        else if (x.kind == VAR) fprintf(stderr, " %s", inputs[x.v].name.c_str());
        else if (x.kind == CAT) for (auto &s : catPool[x.v]) fprintf(stderr, " n%u[%u:%u]", s.n, s.hi, s.lo);
        else fprintf(stderr, " n%u n%u n%u", x.a, x.b, x.c);
        fprintf(stderr, "   = %s\n", cval(n).get_str().c_str());
    };
    go(root);
}
static Z3_ast zBool(u32 n) { Z3_ast a = zOf(n); return Z3_mk_eq(zc, a, Z3_mk_numeral(zc, "1", Z3_mk_bv_sort(zc, 1))); }
static std::set<size_t> rangesAsserted;
static void zRanges() {
    for (size_t i = 0; i < inputs.size(); i++) {
        if (inputs[i].ff || rangesAsserted.count(i)) continue;
        rangesAsserted.insert(i);
        auto &in = inputs[i];
        Z3_ast v = zOf(in.node); Z3_sort s = Z3_mk_bv_sort(zc, in.w);
        if (in.lo > 0) Z3_solver_assert(zc, zs, Z3_mk_bvule(zc, Z3_mk_numeral(zc, in.lo.get_str().c_str(), s), v));
        if (in.hi < pow2(in.w) - 1) Z3_solver_assert(zc, zs, Z3_mk_bvule(zc, v, Z3_mk_numeral(zc, in.hi.get_str().c_str(), s)));
    }
}
static Verdict zCheck(const std::vector<u32> &extra, bool wantModel) {
    double t0 = now();
    Z3_solver_push(zc, zs);
    if (getenv("SX_DUMP")) for (u32 e : extra) { fprintf(stderr, "query n%u\n", e); dumpNode(e); }
    for (u32 e : extra) Z3_solver_assert(zc, zs, zBool(e));
    Z3_lbool r = Z3_solver_check(zc, zs);
    Verdict v;
    v.r = r == Z3_L_TRUE ? Verdict::SAT : r == Z3_L_FALSE ? Verdict::UNSAT : Verdict::UNKNOWN;
    if (r == Z3_L_TRUE && wantModel) {
        Z3_model m = Z3_solver_get_model(zc, zs); Z3_model_inc_ref(zc, m);
        for (auto &in : inputs) {
            Z3_ast o;
            if (in.ff) continue;
            if (Z3_model_eval(zc, m, zOf(in.node), true, &o)) v.model.push_back({in.name, mpz_class(Z3_get_numeral_string(zc, o))});
        }
        Z3_model_dec_ref(zc, m);
    }
    Z3_solver_pop(zc, zs, 1);
    stats.queries++;
    stats.solver_s += now() - t0;
    if (v.r == Verdict::SAT) stats.sat++; else if (v.r == Verdict::UNSAT) stats.unsat++; else stats.unknown++;
    return v;
}

Verdict bvAbstract(const std::vector<u32> &conds, bool wantModel, double timeout_s, bool exact) {
    zInit(); zRanges();
    auto limit = [&](double s) { Z3_params p = Z3_mk_params(zc); Z3_params_inc_ref(zc, p); Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "timeout"), (unsigned)(s * 1000)); Z3_solver_set_params(zc, zs, p); Z3_params_dec_ref(zc, p); };
    if (exact) limit(timeout_s);
    zExact = exact; auto &zmemo = zExact ? zmemoExact : zmemoPlain;
    Verdict v; v.r = Verdict::UNKNOWN;
    Z3_solver_push(zc, zs);
    for (u32 e : conds) Z3_solver_assert(zc, zs, zBool(e));
    for (auto c : zSide) Z3_solver_assert(zc, zs, c);
    Z3_lbool r = Z3_solver_check(zc, zs);
    v.r = r == Z3_L_TRUE ? Verdict::SAT : r == Z3_L_FALSE ? Verdict::UNSAT : Verdict::UNKNOWN;
    if (r == Z3_L_TRUE && wantModel) {
        Z3_model m = Z3_solver_get_model(zc, zs); Z3_model_inc_ref(zc, m);
        for (auto &in : inputs) { Z3_ast o; u32 n = in.ff ? bvOfFf(in.node, mpz_sizeinbase(fields[in.w].get_mpz_t(), 2)) : in.node; if ((!in.ff || zmemo.count(n)) && Z3_model_eval(zc, m, zOf(n), true, &o)) v.model.push_back({in.name, mpz_class(Z3_get_numeral_string(zc, o))}); }
        Z3_model_dec_ref(zc, m);
    }
    Z3_solver_pop(zc, zs, 1);
    if (exact) limit(queryTimeout);
    zExact = false;
    return v;
}
// differences the conditions keep from wrapping, then everything as integers around the modulus; what is learnt here is dropped
Verdict wideIntegers(const std::vector<u32> &conds, const std::vector<u32> &cone, double timeout_s);
// a residue of a sum that could be negative judged by its parts alone: ask whether it ever is
extern std::unordered_map<u32, mpz_class> umaxMemo, residueMax;
bool tightenResidue(u32 n, double timeout_s) {
    static std::set<u32> tried; const u32 e = nodes[n].a;
    if (residueMax.count(n) || !exactCond(n) || nodes[e].kind == FF_VAR || tried.count(n)) return false;
    tried.insert(n); auto r = intRange(e);
    if (r.lo < 0) {
        u32 w = nodes[n].w; u32 big = mkBin(ULT, mkConst(w, r.hi), n);
        Verdict v = bvAbstract({big}, false, timeout_s, true);
        if (getenv("SX_FFDEBUG")) fprintf(stderr, "residue n%u at most %s: %d\n", n, r.hi.get_str().c_str(), (int)v.r);
        if (v.r != Verdict::UNSAT) return false;
    }
    residueMax[n] = r.hi; umaxMemo.clear(); intMemo.clear();
    return true;
}
Verdict wideIntegers(const std::vector<u32> &conds, const std::vector<u32> &cone, double timeout_s) {
    Verdict v; v.r = Verdict::UNKNOWN;
    auto kept = residueMax; wideExact = true; auto fresh = [] { umaxMemo.clear(); intMemo.clear(); zmemoExact.clear(); }; fresh();
    std::vector<u32> order = cone; std::sort(order.begin(), order.end());
    for (u32 n : order) if (nodes[n].kind == SUB && !residueMax.count(n)) {
        const Node x = nodes[n]; u32 wraps = mkBin(ULT, x.a, x.b); std::vector<u32> q = conds; q.push_back(wraps);
        if (isConst(wraps) ? cval(wraps) == 0 : bvAbstract(q, false, timeout_s / 8, true).r == Verdict::UNSAT) { residueMax[n] = umax(x.a); fresh(); }
    }
    bool whole = true; for (u32 n : cone) if (!exactCond(n)) { whole = false; if (getenv("SX_FFDEBUG")) fprintf(stderr, "n%u kind %u stays open\n", n, nodes[n].kind); }
    if (whole) v = bvAbstract(conds, true, timeout_s, true);
    if (getenv("SX_FFDEBUG")) fprintf(stderr, "around the modulus %d -> %d\n", (int)whole, (int)v.r);
    wideExact = false; residueMax = kept; fresh();
    return v;
}
// ------------------------------------------------------------------------------------------------
// end of one run (child side): decide assertions, find the unexplored neighbours
// ------------------------------------------------------------------------------------------------
static int outFd = -1;
static std::string esc(const std::string &s) { std::string o; for (char c : s) { if (c == '\n' || c == '\t' || c == '\\') o += ' '; else o += c; } return o; }
static void sendLine(std::string &buf, const std::string &l) { buf += l; buf += '\n'; }
static std::string inStr(const std::map<std::string, std::string> &in) { std::string s; for (auto &k : in) { if (!s.empty()) s += ','; s += k.first + "=" + k.second; } return s; }
static double pathDeadline = 1e18;
static double runStart;

static u64 uqDone = 0;
static std::vector<std::string> uqOpen;   // circuits whose outputs were neither shown determined nor refuted
[[noreturn]] void uniqViolation(const std::string &msg, const std::map<std::string, mpz_class> &cells) {
    for (auto &c : cells) cur.in[c.first] = c.second.get_str();
    finishRun("violation", msg);
}
void uniqUnknown(const std::string &msg) { uqOpen.push_back(msg); }
void uniqProved() { uqDone++; }
void uniqCount(u64 unsat, u64 unknown, double t) { stats.queries += unsat + unknown; stats.unsat += unsat; stats.unknown += unknown; stats.solver_s += t; }
[[noreturn]] static void finishRun(const char *status, const std::string &msg) {
    inRun = false;
    std::string out;
    for (auto &m : uqOpen) sendLine(out, "U\t" + esc(m));
    std::string st = status;
    bool text = false;
    for (auto &e : events) if (needsText(e.cond)) { text = true; break; }
    if (!text) for (auto &a : assertions) if (needsText(a.cond)) { text = true; break; }
    if (cur.hasBound) {
        u64 h = hashPrefix(cur.bound);
        if (h != cur.prefixHash && !(st == "violation")) sendLine(out, "D");
    }
    if (st == "violation") { sendLine(out, "V\t" + esc(msg) + "\t" + inStr(cur.in)); }
    else if (st == "engine" || st == "toolong") sendLine(out, "X\t" + esc(msg) + "\t" + inStr(cur.in));
    // walk the path
    size_t ai = 0;
    bool violated = st == "violation";
    std::vector<u32> prefix;
    if (!text) { zInit(); zRanges(); }
    std::set<u32> provenHere;
    auto check = [&](u32 c, bool model) -> Verdict {
        if (isConst(c)) { Verdict v; v.r = nodes[c].cv ? Verdict::SAT : Verdict::UNSAT; if (!nodes[c].cv) return v; }
        if (!text) return zCheck({c}, model);
        std::vector<u32> q = prefix; q.push_back(c);
        double t0 = now();
        Verdict v = solveText(q, queryTimeout, model);
        stats.queries++; stats.solver_s += now() - t0;
        if (v.r == Verdict::SAT) stats.sat++; else if (v.r == Verdict::UNSAT) stats.unsat++; else stats.unknown++;
        return v;
    };
    u64 asserted = uqDone, assertUnknown = uqOpen.size();
    for (size_t i = 0; i <= events.size(); i++) {
        // assertions made after i events: only decide those past the inherited prefix
        std::vector<Assertion *> todo;
        while (ai < assertions.size() && assertions[ai].pos == i) { todo.push_back(&assertions[ai]); ai++; }
        if (!violated && (!cur.hasBound || i > cur.bound)) {
            std::vector<u32> neg; 
            for (auto *a : todo) if (provenHere.insert(a->cond).second) neg.push_back(a->cond);
            asserted += neg.size();
            // decide them together first: (not a1) or (not a2) ...
            if (!neg.empty()) {
                if (now() > pathDeadline) { assertUnknown += neg.size(); sendLine(out, "L"); }
                else if (text) {
                    for (u32 c : neg) {
                        Verdict v = check(mkNot1(c), true);
                        if (v.r == Verdict::SAT) {
                            std::string m; for (auto *a : todo) if (a->cond == c) { m = a->msg; break; }
                            auto in = cur.in; for (auto &kv : v.model) in[kv.first] = kv.second.get_str();
                            sendLine(out, "V\t" + esc(m) + "\t" + inStr(in)); violated = true; break;
                        } else if (v.r == Verdict::UNKNOWN) { assertUnknown++; std::string m; for (auto *a : todo) if (a->cond == c) { m = a->msg; break; } sendLine(out, "U\t" + esc(m)); }
                    }
                } else {
                    if (getenv("SX_DUMP")) for (u32 c : neg) { fprintf(stderr, "open assertion n%u\n", c); dumpNode(c); }
                    u32 any = mkConst64(1, 0);
                    for (u32 c : neg) any = mkBin(OR, any, mkNot1(c));
                    Verdict v = check(any, true);
                    if (v.r == Verdict::SAT) {
                        // which one: evaluate each under a separate query
                        for (auto *a : todo) { Verdict w = check(mkNot1(a->cond), true); if (w.r == Verdict::SAT) {
                            auto in = cur.in; for (auto &kv : w.model) in[kv.first] = kv.second.get_str();
                            sendLine(out, "V\t" + esc(a->msg) + "\t" + inStr(in)); if (getenv("SX_DEBUG")) { fprintf(stderr, "violated cond n%u\n", a->cond); dumpNode(a->cond); } break; } }
                        violated = true;
                    } else if (v.r == Verdict::UNKNOWN) { assertUnknown += neg.size(); sendLine(out, "U\t" + esc(todo[0]->msg)); }
                }
            }
        }
        if (i == events.size()) break;
        Event &e = events[i];
        bool flip = !cur.hasBound || i > cur.bound;
        bool again = cur.hasBound && i == cur.bound && e.kind == E_CONC;
        if (st != "engine" && e.kind != E_ASSUME && (flip || again)) {
            if (now() > pathDeadline) sendLine(out, "L");
            else {
                u32 c = mkNot1(e.cond);
                std::vector<u64> ex;
                if (e.kind == E_CONC) {
                    if (again) ex = cur.excl;
                    for (u64 x : ex) c = mkAnd1(c, mkNot1(mkBin(EQ, e.node, mkConst(nodes[e.node].w, mpzOf(x)))));
                    ex.push_back(e.val);
                }
                Verdict v = check(c, true);
                if (v.r == Verdict::SAT) {
                    auto in = cur.in; for (auto &kv : v.model) in[kv.first] = kv.second.get_str();
                    std::string s = "W\t" + std::to_string(i) + "\t" + std::to_string(hashPrefix(i)) + "\t";
                    for (u64 x : ex) s += std::to_string(x) + ";";
                    sendLine(out, s + "\t" + inStr(in));
                } else if (v.r == Verdict::UNKNOWN) sendLine(out, "U\tbranch");
            }
        }
        prefix.push_back(e.cond);
        if (!text) Z3_solver_assert(zc, zs, zBool(e.cond));
    }
    for (auto &r : reached) sendLine(out, "R\t" + esc(r.first));
    for (auto &n : notes) sendLine(out, "N\t" + esc(n));
    char line[512];
    snprintf(line, sizeof line, "S\t%llu\t%llu\t%llu\t%llu\t%.6f\t%llu\t%llu\t%zu\t%llu\t%llu\t%s\t%zu\t%llu", (unsigned long long)stats.queries,
             (unsigned long long)stats.sat, (unsigned long long)stats.unsat, (unsigned long long)stats.unknown, stats.solver_s,
             (unsigned long long)asserted, (unsigned long long)stats.trivial, events.size(), (unsigned long long)staleShadows,
             (unsigned long long)extConcretized, status, nodes.size(), (unsigned long long)assertUnknown);
    sendLine(out, line);
    sendLine(out, "I\t" + inStr(cur.in));
    sendLine(out, "END");
    size_t off = 0;
    while (off < out.size()) { ssize_t k = write(outFd, out.data() + off, out.size() - off); if (k <= 0) break; off += k; }
    _exit(0);
}
bool sxFinishing() { return !inRun; }

// ------------------------------------------------------------------------------------------------
// explorer (parent side)
// ------------------------------------------------------------------------------------------------
struct Case { const char *name; sx::case_fn f; std::string tier; };
static std::vector<Case> *cases;

struct CaseResult {
    std::string name; u64 paths = 0, assumeCut = 0, queries = 0, sat = 0, unsat = 0, unknown = 0, asserted = 0, trivial = 0, diverged = 0,
        maxEvents = 0, stale = 0, ext = 0, timeouts = 0, limited = 0, assertUnknown = 0, maxNodes = 0; double solver_s = 0, wall = 0;
    bool complete = true; std::map<std::string, u64> reach; std::set<std::string> notes, unk; std::vector<std::pair<std::string, std::string>> viol, engine;
    std::vector<std::string> samples;
};
static std::map<std::string, std::string> parseIn(const std::string &s) {
    std::map<std::string, std::string> m; size_t p = 0;
    while (p < s.size()) { size_t q = s.find(',', p); if (q == std::string::npos) q = s.size(); std::string kv = s.substr(p, q - p); size_t e = kv.rfind('='); if (e != std::string::npos) m[kv.substr(0, e)] = kv.substr(e + 1); p = q + 1; }
    return m;
}
static std::vector<std::string> splitTab(const std::string &s) { std::vector<std::string> v; size_t p = 0; for (;;) { size_t q = s.find('\t', p); if (q == std::string::npos) { v.push_back(s.substr(p)); break; } v.push_back(s.substr(p, q - p)); p = q + 1; } return v; }

struct Child { pid_t pid; int fd; std::string buf; double start; Work w; };

static CaseResult explore(const Case &c, int jobs, double deadline, double pathLimit, u64 maxPaths, size_t maxViol) {
    CaseResult R; R.name = c.name;
    double t0 = now();
    std::deque<Work> q; q.push_back(Work{});
    std::vector<Child> ch;
    std::set<std::string> seenViol;
    while ((!q.empty() || !ch.empty())) {
        bool stop = now() > deadline || R.viol.size() >= maxViol || R.paths >= maxPaths;
        if (stop && !q.empty()) { if (R.viol.size() < maxViol) R.complete = false; q.clear(); }
        while (!q.empty() && (int)ch.size() < jobs) {
            Work w = q.front(); q.pop_front();
            int p[2]; if (pipe(p)) { perror("pipe"); _exit(98); }
            fflush(stdout); fflush(stderr);
            pid_t pid = fork();
            if (pid == 0) {
                close(p[0]); outFd = p[1];
                for (auto &o : ch) close(o.fd);
                struct rlimit rl = {4ull << 30, 4ull << 30}; setrlimit(RLIMIT_AS, &rl);
                int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); if (!getenv("SX_DEBUG")) dup2(nul, 2);
                cur = w; runStart = now(); pathDeadline = std::min(deadline, now() + pathLimit * 0.9); inRun = true;
                try { c.f(); }
                catch (std::exception &e) { inRun = true; finishRun("violation", std::string("unexpected exception: ") + e.what()); }
                catch (...) { finishRun("violation", "unexpected exception"); }
                finishRun("ok", "");
            }
            close(p[1]); fcntl(p[0], F_SETFL, O_NONBLOCK);
            ch.push_back(Child{pid, p[0], "", now(), w});
        }
        std::vector<struct pollfd> pf; for (auto &o : ch) pf.push_back({o.fd, POLLIN, 0});
        poll(pf.data(), pf.size(), 200);
        for (size_t i = 0; i < ch.size();) {
            Child &o = ch[i];
            char b[65536]; ssize_t k; bool eof = false;
            while ((k = read(o.fd, b, sizeof b)) > 0) o.buf.append(b, k);
            if (k == 0) eof = true;
            bool late = now() - o.start > pathLimit;
            if (!eof && late) kill(o.pid, SIGKILL);
            if (!eof && !late) { i++; continue; }
            if (late && !eof) { while ((k = read(o.fd, b, sizeof b)) > 0) o.buf.append(b, k); }
            int st = 0; waitpid(o.pid, &st, 0); close(o.fd);
            R.paths++;
            bool ended = false; std::stringstream ss(o.buf); std::string l;
            while (std::getline(ss, l)) {
                auto f = splitTab(l);
                if (f[0] == "END") ended = true;
                else if (f[0] == "D") { R.diverged++; R.complete = false; }
                else if (f[0] == "L") { R.limited++; R.complete = false; }
                else if (f[0] == "U") { R.unk.insert(f.size() > 1 ? f[1] : ""); R.complete = false; }
                else if (f[0] == "V") { if (seenViol.insert(f[1]).second) R.viol.push_back({f[1], f[2]}); }
                else if (f[0] == "X") { R.engine.push_back({f[1], f[2]}); R.complete = false; }
                else if (f[0] == "R") R.reach[f[1]]++;
                else if (f[0] == "N") R.notes.insert(f[1]);
                else if (f[0] == "I") { if (R.samples.size() < 8) R.samples.push_back(f[1]); }
                else if (f[0] == "W") { Work w; w.bound = std::stoull(f[1]); w.prefixHash = std::stoull(f[2]); w.hasBound = true;
                    std::stringstream es(f[3]); std::string x; while (std::getline(es, x, ';')) if (!x.empty()) w.excl.push_back(std::stoull(x));
                    w.in = parseIn(f[4]); q.push_back(w); }
                else if (f[0] == "S") { R.queries += std::stoull(f[1]); R.sat += std::stoull(f[2]); R.unsat += std::stoull(f[3]); R.unknown += std::stoull(f[4]); R.solver_s += std::stod(f[5]);
                    R.asserted += std::stoull(f[6]); R.trivial += std::stoull(f[7]); R.maxEvents = std::max(R.maxEvents, (u64)std::stoull(f[8])); R.stale += std::stoull(f[9]); R.ext += std::stoull(f[10]);
                    if (f[11] == "assume") R.assumeCut++; R.maxNodes = std::max(R.maxNodes, (u64)std::stoull(f[12])); R.assertUnknown += std::stoull(f[13]); }
            }
            if (!ended) {
                std::string in = inStr(o.w.in);
                if (late) { R.timeouts++; R.complete = false; R.engine.push_back({"path time limit", in}); }
                else { char m[96]; snprintf(m, sizeof m, "crash: child ended with status %d signal %d", WEXITSTATUS(st), WIFSIGNALED(st) ? WTERMSIG(st) : 0);
                    if (WIFSIGNALED(st) && WTERMSIG(st) != SIGKILL) { if (seenViol.insert(m).second) R.viol.push_back({m, in}); }
                    else { R.engine.push_back({m, in}); R.complete = false; } }
            }
            ch.erase(ch.begin() + i);
        }
    }
    R.wall = now() - t0;
    return R;
}
static std::string js(const std::string &s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32) o += ' '; else o += c; } return o + "\""; }
}  // namespace sxe

namespace sx { reg::reg(const char *n, case_fn f, const char *tier) { if (!sxe::cases) sxe::cases = new std::vector<sxe::Case>; sxe::cases->push_back({n, f, tier}); } }

int main(int argc, char **argv) {
    using namespace sxe;
    int pers = personality(0xffffffff);
    if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SX_REEXEC")) {
        personality(pers | ADDR_NO_RANDOMIZE); setenv("SX_REEXEC", "1", 1); execv("/proc/self/exe", argv);
    }
    std::string out = "", tier = "quick", only; double budget = 600, pathLimit = 120; int jobs = 8; u64 maxPaths = 1000000;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--out") out = v; else if (k == "--tier") tier = v; else if (k == "--budget") budget = std::stod(v); else if (k == "--jobs") jobs = std::stoi(v);
        else if (k == "--path-limit") pathLimit = std::stod(v); else if (k == "--only") only = v; else if (k == "--max-paths") maxPaths = std::stoull(v);
        else if (k == "--query-timeout") queryTimeout = std::stod(v);
    }
    initDag();
    double deadline = now() + budget;
    std::string j = "{\"cases\":["; bool first = true;
    if (cases) for (auto &c : *cases) {
        if (!only.empty() && only != c.name) continue;
        if (tier == "quick" && c.tier != "quick") continue;
        CaseResult R = explore(c, jobs, deadline, pathLimit, maxPaths, 3);
        if (!first) j += ","; first = false;
        char b[1024];
        snprintf(b, sizeof b, "\"paths\":%llu,\"assume_cut\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"assertions_decided\":%llu,\"assertions_trivial\":%llu,\"diverged\":%llu,\"max_path_conditions\":%llu,\"stale_shadows\":%llu,\"ext_concretized\":%llu,\"timeouts\":%llu,\"limited\":%llu,\"assert_unknown\":%llu,\"max_nodes\":%llu,\"solver_s\":%.3f,\"wall_s\":%.3f,\"complete\":%s",
                 (unsigned long long)R.paths, (unsigned long long)R.assumeCut, (unsigned long long)R.queries, (unsigned long long)R.sat, (unsigned long long)R.unsat, (unsigned long long)R.unknown, (unsigned long long)R.asserted, (unsigned long long)R.trivial,
                 (unsigned long long)R.diverged, (unsigned long long)R.maxEvents, (unsigned long long)R.stale, (unsigned long long)R.ext, (unsigned long long)R.timeouts, (unsigned long long)R.limited, (unsigned long long)R.assertUnknown, (unsigned long long)R.maxNodes, R.solver_s, R.wall, R.complete ? "true" : "false");
        j += "{\"name\":" + js(R.name) + "," + b + ",\"reach\":{";
        bool f2 = true; for (auto &r : R.reach) { if (!f2) j += ","; f2 = false; j += js(r.first) + ":" + std::to_string(r.second); }
        j += "},\"notes\":["; f2 = true; for (auto &n : R.notes) { if (!f2) j += ","; f2 = false; j += js(n); }
        j += "],\"unknown_msgs\":["; f2 = true; for (auto &n : R.unk) { if (!f2) j += ","; f2 = false; j += js(n); }
        j += "],\"violations\":["; f2 = true; for (auto &v : R.viol) { if (!f2) j += ","; f2 = false; j += "{\"msg\":" + js(v.first) + ",\"inputs\":" + js(v.second) + "}"; }
        j += "],\"engine_errors\":["; f2 = true; size_t lim = 0; for (auto &v : R.engine) { if (lim++ > 5) break; if (!f2) j += ","; f2 = false; j += "{\"msg\":" + js(v.first) + ",\"inputs\":" + js(v.second) + "}"; }
        j += "],\"samples\":["; f2 = true; for (auto &v : R.samples) { if (!f2) j += ","; f2 = false; j += js(v); }
        j += "]}";
        fprintf(stderr, "[sx] %-44s paths=%llu queries=%llu viol=%zu complete=%d unk=%llu eng=%zu  %.1fs (solver %.1fs)\n", c.name, (unsigned long long)R.paths, (unsigned long long)R.queries, R.viol.size(), R.complete, (unsigned long long)R.unknown, R.engine.size(), R.wall, R.solver_s);
        for (auto &v : R.viol) fprintf(stderr, "     VIOL %s  [%s]\n", v.first.c_str(), v.second.c_str());
        for (auto &v : R.engine) { fprintf(stderr, "     ENGINE %s  [%s]\n", v.first.c_str(), v.second.c_str()); break; }
    }
    j += "]}";
    if (!out.empty()) { FILE *f = fopen(out.c_str(), "w"); fputs(j.c_str(), f); fclose(f); } else puts(j.c_str());
    return 0;
}
