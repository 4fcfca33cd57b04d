// Decision of queries that mix finite-field and bit-vector terms.
//
// A query is a conjunction of 1-bit conditions.  Refutation: boolean case split; at each leaf the field equations
// are brought into polynomial normal form over input and bit-slice atoms (inverses are cleared by their
// denominators, slices of one number are refined to common pieces, bits are idempotent), equations on the path are
// used for elimination, the bit-vector part goes to Z3 with field terms abstracted, and what is left of the field
// part goes to Z3's finite-field solver.  Models: numeric search (solving single equations for single inputs),
// every model is checked by evaluating all conditions.
#include "sx.h"
#include <algorithm>
#include <array>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <unistd.h>
#include <unordered_map>

namespace sxe {
void dumpNode(u32 root);   // sx.cpp
Verdict bvAbstract(const std::vector<u32> &conds, bool wantModel, double timeout_s, bool exact = false);   // sx.cpp
bool exactCond(u32 n);
Verdict wideIntegers(const std::vector<u32> &conds, const std::vector<u32> &cone, double timeout_s);
bool tightenResidue(u32 n, double timeout_s);
bool plainResidue(u32 n);

static double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static mpz_class p2(u32 k) { mpz_class r = 1; return r << k; }
static bool dbg() { static bool d = getenv("SX_FFDEBUG") != nullptr; return d; }

static std::vector<signed char> textMemo;
bool needsText(u32 root) {
    if (textMemo.size() < nodes.size()) textMemo.resize(nodes.size(), -1);
    std::vector<u32> st = {root};
    while (!st.empty()) {
        u32 n = st.back();
        if (textMemo[n] >= 0) { st.pop_back(); continue; }
        const Node &x = nodes[n];
        if (isFF(x) || x.kind == FF_EQ || x.kind == BV_OF_FF || x.kind == FF_ISSQ) { textMemo[n] = 1; st.pop_back(); continue; }
        bool ready = true, any = false;
        auto see = [&](u32 c) { if (!c) return; if (textMemo[c] < 0) { st.push_back(c); ready = false; } else any |= textMemo[c]; };
        if (x.kind == CAT) for (auto &s : catPool[x.v]) see(s.n);
        else if (x.kind != CONST && x.kind != VAR) { see(x.a); see(x.b); see(x.c); }
        if (!ready) continue;
        textMemo[n] = any; st.pop_back();
    }
    return textMemo[root];
}
static void children(u32 n, std::vector<u32> &out) {
    const Node &x = nodes[n];
    if (x.kind == CAT) { for (auto &s : catPool[x.v]) out.push_back(s.n); return; }
    if (x.kind == CONST || x.kind == VAR || x.kind == FF_CONST || x.kind == FF_VAR) return;
    if (x.a) out.push_back(x.a);
    if (x.b) out.push_back(x.b);
    if (x.c) out.push_back(x.c);
}
static std::vector<u32> coneOf(const std::vector<u32> &roots) {
    std::set<u32> seen; std::vector<u32> st = roots, ch;
    while (!st.empty()) { u32 n = st.back(); st.pop_back(); if (!seen.insert(n).second) continue; ch.clear(); children(n, ch); for (u32 c : ch) if (!seen.count(c)) st.push_back(c); }
    return std::vector<u32>(seen.begin(), seen.end());
}

// ------------------------------------------------------------------------------------------------
// evaluation under other inputs
// ------------------------------------------------------------------------------------------------
static mpz_class mp(const mpz_class &v, const mpz_class &p) { mpz_class r; mpz_fdiv_r(r.get_mpz_t(), v.get_mpz_t(), p.get_mpz_t()); return r; }
mpz_class sqrtMod(const mpz_class &a, const mpz_class &p) {
    if (a == 0) return 0;
    if (mpz_legendre(a.get_mpz_t(), p.get_mpz_t()) != 1) return 0;
    mpz_class q = p - 1; unsigned s = 0; while (q % 2 == 0) { q /= 2; s++; }
    mpz_class z = 2; while (mpz_legendre(z.get_mpz_t(), p.get_mpz_t()) != -1) z++;
    mpz_class c, t, r, e; unsigned m = s;
    mpz_powm(c.get_mpz_t(), z.get_mpz_t(), q.get_mpz_t(), p.get_mpz_t());
    mpz_powm(t.get_mpz_t(), a.get_mpz_t(), q.get_mpz_t(), p.get_mpz_t());
    e = (q + 1) / 2; mpz_powm(r.get_mpz_t(), a.get_mpz_t(), e.get_mpz_t(), p.get_mpz_t());
    while (t != 1) {
        unsigned i = 0; mpz_class u = t; while (u != 1) { u = u * u % p; i++; }
        mpz_class b = c; for (unsigned j = 0; j + i + 1 < m; j++) b = b * b % p;
        m = i; c = b * b % p; t = t * c % p; r = r * b % p;
    }
    return r;
}
struct Eval {
    std::vector<u32> order;                       // cone in topological (id) order
    std::unordered_map<u32, u32> ix;
    std::vector<mpz_class> val;
    std::vector<u32> ins;                         // input indices in the cone
    explicit Eval(const std::vector<u32> &roots) {
        order = coneOf(roots);
        for (u32 i = 0; i < order.size(); i++) { ix[order[i]] = i; const Node &x = nodes[order[i]]; if (x.kind == VAR || x.kind == FF_VAR) ins.push_back(x.v); }
        val.resize(order.size());
    }
    const mpz_class &at(u32 n) { return val[ix[n]]; }
    bool holds(u32 n) { return at(n) != 0; }
    void run(const std::map<u32, mpz_class> &in) {
        for (u32 i = 0; i < order.size(); i++) {
            u32 n = order[i]; const Node &x = nodes[n]; mpz_class &r = val[i];
            auto A = [&]() -> const mpz_class & { return at(x.a); };
            auto B = [&]() -> const mpz_class & { return at(x.b); };
            auto msk = [&](const mpz_class &v) { mpz_class o; mpz_fdiv_r_2exp(o.get_mpz_t(), v.get_mpz_t(), x.w); return o; };
            auto sgn = [&](u32 c) { mpz_class v = at(c); u32 w = nodes[c].w; if (mpz_tstbit(v.get_mpz_t(), w - 1)) v -= p2(w); return v; };
            switch (x.kind) {
                case CONST: case FF_CONST: r = cval(n); break;
                case VAR: case FF_VAR: { auto it = in.find((u32)x.v); r = it != in.end() ? it->second : cval(n); break; }
                case CAT: { mpz_class v = 0; for (auto &s : catPool[x.v]) { mpz_class e = at(s.n) >> s.lo; u32 k = s.hi - s.lo + 1; mpz_fdiv_r_2exp(e.get_mpz_t(), e.get_mpz_t(), k); v = (v << k) + e; } r = v; break; }
                case ADD: r = msk(A() + B()); break;
                case SUB: r = msk(A() - B()); break;
                case MUL: r = msk(A() * B()); break;
                case UDIV: if (B() == 0) r = p2(x.w) - 1; else r = A() / B(); break;
                case UREM: if (B() == 0) r = A(); else r = A() % B(); break;
                case SDIV: { mpz_class a = sgn(x.a), b = sgn(x.b); if (b == 0) r = msk(a < 0 ? 1 : -1); else r = msk(a / b); break; }
                case SREM: { mpz_class a = sgn(x.a), b = sgn(x.b); if (b == 0) r = msk(a); else r = msk(a % b); break; }
                case SHL: if (B() >= x.w) r = 0; else r = msk(A() << B().get_ui()); break;
                case LSHR: if (B() >= x.w) r = 0; else r = A() >> B().get_ui(); break;
                case ASHR: { mpz_class a = sgn(x.a); r = msk(a >> (B() >= x.w ? x.w : B().get_ui())); break; }
                case AND: r = A() & B(); break;
                case OR: r = A() | B(); break;
                case XOR: r = A() ^ B(); break;
                case EQ: case FF_EQ: r = A() == B(); break;
                case ULT: r = A() < B(); break;
                case ULE: r = A() <= B(); break;
                case SLT: r = sgn(x.a) < sgn(x.b); break;
                case SLE: r = sgn(x.a) <= sgn(x.b); break;
                case SEXT: r = msk(sgn(x.a)); break;
                case ITE: case FF_ITE: r = A() != 0 ? B() : at(x.c); break;
                case FF_ADD: r = mp(A() + B(), fields[x.w]); break;
                case FF_SUB: r = mp(A() - B(), fields[x.w]); break;
                case FF_MUL: r = mp(A() * B(), fields[x.w]); break;
                case FF_NEG: r = mp(-A(), fields[x.w]); break;
                case FF_INV: if (A() == 0) r = 0; else mpz_invert(r.get_mpz_t(), A().get_mpz_t(), fields[x.w].get_mpz_t()); break;
                case FF_SQRT: r = sqrtMod(A(), fields[x.w]); break;
                case FF_OF_BV: r = mp(A(), fields[x.w]); break;
                case BV_OF_FF: r = A(); break;
                case FF_ISSQ: r = A() == 0 || mpz_legendre(A().get_mpz_t(), fields[nodes[x.a].w].get_mpz_t()) == 1; break;
                default: r = 0;
            }
        }
    }
};

// ------------------------------------------------------------------------------------------------
// polynomials
// ------------------------------------------------------------------------------------------------
using Mono = std::vector<u64>;                 // atom keys, descending, repeated for powers
using Poly = std::map<Mono, mpz_class>;
struct Timeout {};
struct NeedSplit { u32 cond; };
std::unordered_map<u32, mpz_class> umaxMemo, residueMax;   // residueMax: shown by the solver
mpz_class umax(u32 n) {
    auto &memo = umaxMemo;
    auto it = memo.find(n); if (it != memo.end()) return it->second;
    const Node x = nodes[n]; mpz_class top = p2(x.w) - 1, r = top;
    switch (x.kind) {
        case SUB: { auto k = residueMax.find(n); if (k != residueMax.end()) r = k->second; break; }
        case CONST: r = cval(n); break;
        case VAR: r = inputs[x.v].hi; break;
        case BV_OF_FF: { auto k = residueMax.find(n); r = k != residueMax.end() ? k->second : mpz_class(fields[nodes[x.a].w] - 1); break; }
        case CAT: { r = 0; for (auto &s : catPool[x.v]) { u32 k = s.hi - s.lo + 1; mpz_class m = umax(s.n) >> s.lo; if (m >= p2(k)) m = p2(k) - 1; r = (r << k) + m; } break; }
        case ADD: r = umax(x.a) + umax(x.b); break;
        case MUL: r = umax(x.a) * umax(x.b); break;
        case UDIV: if (isConst(x.b) && cval(x.b) > 0) r = umax(x.a) / cval(x.b); else r = top; break;
        case UREM: { mpz_class a = umax(x.a), b = umax(x.b); r = a; if (isConst(x.b) && b > 0 && b - 1 < r) r = b - 1; break; }
        case AND: r = std::min(umax(x.a), umax(x.b)); break;
        case ITE: r = std::max(umax(x.b), umax(x.c)); break;
        default: break;
    }
    if (r > top) r = top;
    return memo[n] = r;
}
using Lits = std::map<u32, bool>;
static void norm1(u32 &n, bool &v) { while (nodes[n].kind == XOR && nodes[n].w == 1 && isConst(nodes[n].b)) { if (nodes[nodes[n].b].cv) v = !v; n = nodes[n].a; } }

struct Ctx {
    const Lits &lits; double deadline; u32 f; const mpz_class &p;
    std::map<u32, std::set<u32>> cuts;             // base bit-vector node -> cut positions
    std::map<u64, Poly> subst;                     // eliminated atoms
    std::vector<Poly> rules;                       // further equations (leading monomial = last)
    std::set<u32> cutSeen; std::map<u32, u32> bvOf; // FF_VAR -> BV_OF_FF node over it
    size_t maxTerms = 60000; bool expandAll = true;
    Ctx(const Lits &l, double d, u32 field) : lits(l), deadline(d), f(field), p(fields[field]) {}

    static u64 key(u32 ff) { u64 rank = nodes[ff].kind == FF_OF_BV ? nodes[ff].a : ff; return rank << 32 | ff; }
    static u32 nodeOf(u64 k) { return (u32)k; }
    static bool isBit(u64 k) { const Node &x = nodes[nodeOf(k)]; if (x.kind != FF_OF_BV) return false; const Node &y = nodes[x.a]; return y.w == 1 || umax(x.a) <= 1; }
    void tick() { static int c = 0; if ((++c & 255) == 0 && nowS() > deadline) throw Timeout(); }
    void add(Poly &P, const Mono &m, const mpz_class &c) {
        mpz_class v = mp(c, p); if (v == 0) return;
        auto it = P.find(m);
        if (it == P.end()) { P.emplace(m, v); if (P.size() > maxTerms) throw Timeout(); }
        else { it->second += v; if (it->second >= p) it->second -= p; if (it->second == 0) P.erase(it); }
    }
    static Mono mulMono(const Mono &a, const Mono &b) {
        Mono r; r.reserve(a.size() + b.size());
        std::merge(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(r), std::greater<u64>());
        Mono o; o.reserve(r.size());
        for (u64 k : r) if (!(o.size() && o.back() == k && isBit(k))) o.push_back(k);
        return o;
    }
    Poly mul(const Poly &a, const Poly &b) { Poly r; for (auto &x : a) for (auto &y : b) { tick(); add(r, mulMono(x.first, y.first), x.second * y.second); } return r; }
    void addTo(Poly &d, const Poly &s, const mpz_class &k) { for (auto &x : s) add(d, x.first, x.second * k); }
    Poly cst(const mpz_class &v) { Poly r; add(r, {}, v); return r; }
    Poly atom(u32 ff) { if (nodes[ff].kind == FF_CONST) return cst(cval(ff)); Poly r; r[{key(ff)}] = 1; return r; }
    Poly bv(u32 n) { return atom(ffOfBv(f, n)); }

    int litOf(u32 c) {   // 1 true, 0 false, -1 unknown
        if (isConst(c)) return nodes[c].cv != 0;
        u32 n = c; bool v = true; norm1(n, v);
        auto it = lits.find(n);
        if (it != lits.end()) return (it->second == v) ? 1 : 0;
        const Node &x = nodes[n];
        if (x.kind == AND) { int a = litOf(x.a), b = litOf(x.b); if (a == 0 || b == 0) return v ? 0 : 1; if (a == 1 && b == 1) return v ? 1 : 0; }
        if (x.kind == OR) { int a = litOf(x.a), b = litOf(x.b); if (a == 1 || b == 1) return v ? 1 : 0; if (a == 0 && b == 0) return v ? 0 : 1; }
        if ((x.kind == EQ && nodes[x.a].w == 1) || (x.kind == XOR && x.w == 1)) { int a = litOf(x.a), b = a < 0 ? -1 : litOf(x.b); if (a >= 0 && b >= 0) return ((a == b) == (x.kind == EQ)) == v; }
        return -1;
    }
    // ---- slices
    bool hasInner(u32 n) {
        const Node &x = nodes[n];
        switch (x.kind) {
            case BV_OF_FF: return nodes[x.a].w == f;
            case ADD: case SUB: case ITE: case SEXT: return true;
            case MUL: return umax(x.a) * umax(x.b) < p2(x.w);
            case UREM: return isConst(x.b) ? cval(x.b) > 0 : litOf(mkBin(EQ, x.b, mkConst64(nodes[x.b].w, 0))) == 0;
            case AND: case OR: case XOR: return x.w == 1 || x.w <= 256;
            default: return false;
        }
    }
    Poly inner(u32 n) {
        const Node x = nodes[n];
        switch (x.kind) {
            case BV_OF_FF: return atom(x.a);
            case ADD: { Poly r = bv(x.a); addTo(r, bv(x.b), 1);
                if (umax(x.a) + umax(x.b) >= p2(x.w)) { u32 s = mkBin(ADD, mkZext(x.a, x.w + 1), mkZext(x.b, x.w + 1)); addTo(r, bv(mkBin(ULT, n, x.a)), -p2(x.w)); (void)s; }
                return r; }
            case SUB: { Poly r = bv(x.a); addTo(r, bv(x.b), -1); addTo(r, bv(mkBin(ULT, x.a, x.b)), p2(x.w)); return r; }
            case MUL: return mul(bv(x.a), bv(x.b));
            case UREM: { Poly r = bv(x.a); addTo(r, mul(bv(x.b), bv(mkBin(UDIV, x.a, x.b))), -1); return r; }
            case ITE: { Poly c = bv(x.a), r = mul(c, bv(x.b)), nc = cst(1); addTo(nc, c, -1); addTo(r, mul(nc, bv(x.c)), 1); return r; }
            case SEXT: { u32 w0 = nodes[x.a].w; Poly r = bv(x.a); addTo(r, bv(mkExtract(x.a, w0 - 1, w0 - 1)), p2(x.w) - p2(w0)); return r; }
            default: {
                Poly r;
                for (u32 i = 0; i < x.w; i++) {
                    Poly a = bv(mkExtract(x.a, i, i)), b = bv(mkExtract(x.b, i, i)), ab = mul(a, b);
                    if (x.kind == AND) addTo(r, ab, p2(i));
                    else { addTo(r, a, p2(i)); addTo(r, b, p2(i)); addTo(r, ab, x.kind == OR ? mpz_class(-p2(i)) : mpz_class(-p2(i + 1))); }
                }
                return r; }
        }
    }
    void collectFF(u32 n) {
        std::vector<u32> st = {n}, ch;
        while (!st.empty()) {
            u32 m = st.back(); st.pop_back();
            if (!cutSeen.insert(m).second) continue;
            const Node x = nodes[m];
            if (x.kind == FF_OF_BV) { collectBV(x.a, nodes[x.a].w - 1, 0); continue; }
            if (isFF(x)) { ch.clear(); children(m, ch); for (u32 c : ch) { if (isFF(nodes[c])) st.push_back(c); else collectBV(c, nodes[c].w - 1, 0); } }
        }
    }
    std::set<std::array<u32, 3>> bvSeen;
    void collectBV(u32 n, u32 hi, u32 lo) {
        if (!bvSeen.insert({n, hi, lo}).second) return;
        const Node x = nodes[n];
        if (x.kind == CONST) return;
        if (x.kind == CAT) {
            u32 pos = x.w; auto segs = catPool[x.v];
            for (auto &s : segs) { u32 k = s.hi - s.lo + 1; pos -= k; u32 a = std::max(lo, pos), b = std::min(hi, pos + k - 1); if (a <= b) collectBV(s.n, s.lo + b - pos, s.lo + a - pos); }
            return;
        }
        if (lo > 0) cuts[n].insert(lo);
        if (hi + 1 < x.w) cuts[n].insert(hi + 1);
        if (x.kind == BV_OF_FF) { if (nodes[x.a].w == f) { if (nodes[x.a].kind == FF_VAR) bvOf[x.a] = n; collectFF(x.a); } return; }
        auto sub = [&](u32 c) { collectBV(c, nodes[c].w - 1, 0); };
        switch (x.kind) {
            case ADD: case SUB: case MUL: sub(x.a); sub(x.b); break;
            case UREM: sub(x.a); sub(x.b); break;
            case UDIV: break;
            case ITE: sub(x.a); sub(x.b); sub(x.c); break;
            case SEXT: sub(x.a); collectBV(x.a, nodes[x.a].w - 1, nodes[x.a].w - 1); break;
            case AND: case OR: case XOR: for (u32 i = 0; i < x.w; i++) { collectBV(x.a, i, i); collectBV(x.b, i, i); } break;
            case EQ: case ULT: case ULE: break;
            default: break;
        }
    }
    std::vector<std::pair<u32, u32>> pieces(u32 n) {   // (hi, lo) low to high
        std::vector<std::pair<u32, u32>> r; u32 lo = 0; auto it = cuts.find(n);
        if (it != cuts.end()) for (u32 c : it->second) { r.push_back({c - 1, lo}); lo = c; }
        r.push_back({nodes[n].w - 1, lo}); return r;
    }
    Poly sumPieces(u32 n, u32 hi, u32 lo) { Poly r; for (auto &q : pieces(n)) if (q.second >= lo && q.first <= hi) addTo(r, bv(mkExtract(n, q.first, q.second)), p2(q.second - lo)); return r; }

    enum Ex { LEAF, DONE, INVERSE, ROOT };
    Ex expand(u64 k, Poly &out) {
        auto sb = subst.find(k);
        if (sb != subst.end()) { out = sb->second; return DONE; }
        u32 ff = nodeOf(k); const Node x = nodes[ff];
        switch (x.kind) {
            case FF_ADD: out = atom(x.a); addTo(out, atom(x.b), 1); return DONE;
            case FF_SUB: out = atom(x.a); addTo(out, atom(x.b), -1); return DONE;
            case FF_NEG: addTo(out, atom(x.a), -1); return DONE;
            case FF_MUL: out = mul(atom(x.a), atom(x.b)); return DONE;
            case FF_ITE: {
                int c = litOf(x.a);
                if (c >= 0) { out = atom(c ? x.b : x.c); return DONE; }
                Poly cp = bv(x.a), nc = cst(1); addTo(nc, cp, -1); out = mul(cp, atom(x.b)); addTo(out, mul(nc, atom(x.c)), 1); return DONE; }
            case FF_INV: {
                int z = litOf(ffEq(x.a, ffConst(f, 0)));
                if (z == 1) { out = cst(0); return DONE; }
                return INVERSE; }
            case FF_SQRT: return ROOT;
            case FF_VAR: { auto it = bvOf.find(ff); if (it != bvOf.end() && cuts.count(it->second)) { out = sumPieces(it->second, nodes[it->second].w - 1, 0); return DONE; } return LEAF; }
            case FF_OF_BV: break;
            default: return LEAF;
        }
        u32 n = x.a; const Node y = nodes[n];
        if (y.w == 1) { int c = litOf(n); if (c >= 0) { out = cst(c); return DONE; } }
        u32 base = n, hi = y.w - 1, lo = 0;
        if (y.kind == CAT) {
            auto segs = catPool[y.v];
            if (segs.size() > 1) { u32 pos = y.w; for (auto &s : segs) { pos -= s.hi - s.lo + 1; addTo(out, bv(mkExtract(s.n, s.hi, s.lo)), p2(pos)); } return DONE; }
            base = segs[0].n; hi = segs[0].hi; lo = segs[0].lo;
        }
        auto ps = pieces(base);
        bool exact = false; for (auto &q : ps) if (q.first == hi && q.second == lo) exact = true;
        if (ps.size() > 1) {
            if (!exact) { bool fits = false; for (auto &q : ps) if (q.second == lo) fits = true; if (!fits) return LEAF; Poly r = sumPieces(base, hi, lo); if (r.size() == 1 && r.begin()->first == Mono{k}) return LEAF; out = r; return DONE; }
            if (!hasInner(base)) return LEAF;
            if (nodes[base].kind == BV_OF_FF && nodes[nodes[base].a].kind == FF_VAR) return LEAF;
            // the widest piece is expressed by the others
            auto w = ps[0]; for (auto &q : ps) if (q.first - q.second > w.first - w.second) w = q;
            if (w.first != hi || w.second != lo) return LEAF;
            Poly r = inner(base); for (auto &q : ps) if (q != w) addTo(r, bv(mkExtract(base, q.first, q.second)), -p2(q.second));
            mpz_class inv, d = p2(lo); mpz_invert(inv.get_mpz_t(), d.get_mpz_t(), p.get_mpz_t());
            addTo(out, r, inv); return DONE;
        }
        if (!hasInner(base)) return LEAF;
        Poly r = inner(base);
        if (r.size() == 1 && r.begin()->first == Mono{k}) return LEAF;
        out = r; return DONE;
    }
    // replace atom k everywhere
    void substitute(Poly &P, u64 k, const Poly &Q) {
        std::map<u32, Poly> by; Poly rest;
        for (auto &t : P) { u32 e = std::count(t.first.begin(), t.first.end(), k); if (!e) rest.insert(t); else { Mono m; for (u64 x : t.first) if (x != k) m.push_back(x); add(by[e], m, t.second); } }
        Poly pw = cst(1); u32 have = 0;
        for (auto &b : by) { while (have < b.first) { pw = mul(pw, Q); have++; } addTo(rest, mul(b.second, pw), 1); }
        P.swap(rest);
    }
    // an atom that takes only the values 0..d-1: its d-th power is a combination of lower ones
    static u32 valuesOf(u64 k) { const Node &x = nodes[nodeOf(k)]; if (x.kind != FF_OF_BV) return 0; mpz_class m = umax(x.a); return m <= 8 ? (u32)m.get_ui() + 1 : 0; }
    void fewValues(Poly &P, u64 k) {
        u32 d = valuesOf(k); if (d < 3) return;
        std::vector<mpz_class> c{1}; for (u32 r = 0; r < d; r++) { std::vector<mpz_class> n(c.size() + 1); for (u32 i = 0; i < c.size(); i++) { n[i + 1] += c[i]; n[i] -= c[i] * r; } c = n; }
        for (;;) {
            u32 top = 0; for (auto &t : P) top = std::max<u32>(top, std::count(t.first.begin(), t.first.end(), k));
            if (top < d) return;
            Poly r; for (auto &t : P) {
                if ((u32)std::count(t.first.begin(), t.first.end(), k) < top) { add(r, t.first, t.second); continue; }
                Mono m = t.first; u32 cut = d; m.erase(std::remove_if(m.begin(), m.end(), [&](u64 x) { return x == k && cut && cut--; }), m.end());
                for (u32 i = 0; i < d; i++) { add(r, mulMono(m, Mono(i, k)), -c[i] * t.second); }
            }
            P.swap(r); tick();
        }
    }
    std::set<u32> invZeroAsked;
    bool normal(Poly &P, bool stopAtZero = true) {   // full expansion, largest atoms first; P may be multiplied by nonzero factors
        std::set<u64> leaf;
        for (;;) {
            tick();
            if (P.empty()) return true;
            u64 best = 0;
            for (auto &t : P) for (u64 k : t.first) if (k > best && !leaf.count(k)) best = k;
            if (!best) return true;
            fewValues(P, best); if (P.empty()) return true;
            Poly Q; Ex e = expand(best, Q);
            if (e == LEAF) { leaf.insert(best); continue; }
            if (e == DONE) { substitute(P, best, Q); continue; }
            const Node x = nodes[nodeOf(best)];
            if (e == ROOT) {
                int sq = litOf(issq(x.a)); bool high = false;
                for (auto &t : P) if (std::count(t.first.begin(), t.first.end(), best) > 1) high = true;
                if (!high) { leaf.insert(best); continue; }
                if (sq == -1) throw NeedSplit{issq(x.a)};
                if (sq == 0) { Poly z; substitute(P, best, z); continue; }
                Poly r; for (auto &t : P) { u32 c = std::count(t.first.begin(), t.first.end(), best); Mono m; for (u64 y : t.first) if (y != best) m.push_back(y); if (c & 1) { m.push_back(best); std::sort(m.begin(), m.end(), std::greater<u64>()); }
                    Poly one; one[m] = t.second; for (u32 i = 0; i < c / 2; i++) one = mul(one, atom(x.a)); addTo(r, one, 1); }
                P.swap(r); leaf.insert(best); continue;
            }
            // inverse of x.a
            u32 zc = ffEq(x.a, ffConst(f, 0)); int z = litOf(zc);
            if (z != 0) throw NeedSplit{zc};
            u32 deg = 0; for (auto &t : P) deg = std::max<u32>(deg, std::count(t.first.begin(), t.first.end(), best));
            std::vector<Poly> pw = {cst(1)}; for (u32 i = 0; i < deg; i++) pw.push_back(mul(pw.back(), atom(x.a)));
            Poly r;
            for (auto &t : P) { u32 c = std::count(t.first.begin(), t.first.end(), best); Mono m; for (u64 y : t.first) if (y != best) m.push_back(y); Poly one; one[m] = t.second; addTo(r, mul(one, pw[deg - c]), 1); }
            P.swap(r);
        }
    }
    static u32 issq(u32 a);
    // divide by the remaining equations
    void reduce(Poly &P) {
        for (bool ch = true; ch && !P.empty();) {
            ch = false; tick();
            for (auto &h : rules) {
                const Mono &lm = h.rbegin()->first; const mpz_class &lc = h.rbegin()->second;
                for (auto it = P.rbegin(); it != P.rend(); ++it) {
                    if (!std::includes(it->first.begin(), it->first.end(), lm.begin(), lm.end(), std::greater<u64>())) continue;
                    Mono q; std::set_difference(it->first.begin(), it->first.end(), lm.begin(), lm.end(), std::back_inserter(q), std::greater<u64>());
                    mpz_class inv; mpz_invert(inv.get_mpz_t(), lc.get_mpz_t(), p.get_mpz_t());
                    mpz_class c = it->second * inv; Poly m; m[q] = mp(c, p);
                    addTo(P, mul(m, h), -1); ch = true; break;
                }
                if (P.empty()) return;
            }
        }
    }
};
u32 ffIsSq(u32 a);
u32 Ctx::issq(u32 a) { return ffIsSq(a); }

// ------------------------------------------------------------------------------------------------
// Z3's finite-field solver on polynomial equations
// ------------------------------------------------------------------------------------------------
std::string runZ3(const std::string &text, double timeout) {
    char path[] = "/tmp/sxffXXXXXX"; int fd = mkstemp(path); if (fd < 0) return "";
    FILE *fp = fdopen(fd, "w"); fputs(text.c_str(), fp); fclose(fp);
    char cmd[256]; snprintf(cmd, sizeof cmd, "timeout %d z3-new -T:%d %s 2>/dev/null", (int)timeout + 2, std::max(1, (int)timeout), path);
    std::string out; FILE *q = popen(cmd, "r"); if (q) { char b[4096]; while (fgets(b, sizeof b, q)) out += b; pclose(q); }
    unlink(path); return out;
}
static std::string ffText(Ctx &c, const Poly &P, std::set<u64> &vars) {
    if (P.empty()) return "(as ff0 F)";
    std::string s = "(ff.add";
    for (auto &t : P) { s += " (ff.mul (as ff" + t.second.get_str() + " F)"; for (u64 k : t.first) { vars.insert(k); s += " a" + std::to_string(k); } s += t.first.empty() ? " (as ff1 F))" : ")"; }
    return s + " (as ff0 F))";
}
static int z3Field(Ctx &c, const std::vector<Poly> &eqs, const std::vector<Poly> &neqs, double timeout) {   // 1 unsat, 0 sat, -1 unknown
    std::set<u64> vars; std::string body;
    for (auto &e : eqs) body += "(assert (= " + ffText(c, e, vars) + " (as ff0 F)))\n";
    for (auto &e : neqs) body += "(assert (not (= " + ffText(c, e, vars) + " (as ff0 F))))\n";
    std::string head = "(set-logic QF_FF)\n(define-sort F () (_ FiniteField " + c.p.get_str() + "))\n";
    for (u64 k : vars) head += "(declare-const a" + std::to_string(k) + " F)\n";
    for (u64 k : vars) if (Ctx::isBit(k)) head += "(assert (= (ff.mul a" + std::to_string(k) + " a" + std::to_string(k) + ") a" + std::to_string(k) + "))\n";
    std::string o = runZ3(head + body + "(check-sat)\n", timeout);
    if (o.compare(0, 5, "unsat") == 0) return 1;
    if (o.compare(0, 3, "sat") == 0) return 0;
    return -1;
}

// ------------------------------------------------------------------------------------------------
// refutation
// ------------------------------------------------------------------------------------------------
struct Refuter {
    double deadline; u32 splits = 0; bool useZ3;
    std::string why;
    static bool compound(const Node &x) { return x.w == 1 && (x.kind == AND || x.kind == OR || x.kind == XOR || x.kind == ITE || (x.kind == EQ && nodes[x.a].w == 1)); }
    // true: the literals are contradictory
    bool theory(const Lits &lits, int depth) {
        if (nowS() > deadline) return false;
        std::set<u32> fs; std::vector<std::pair<u32, bool>> ffl; bool bvl = false;
        for (auto &l : lits) { const Node &x = nodes[l.first]; if (x.kind == FF_EQ) { ffl.push_back(l); fs.insert(nodes[x.a].w); } else if (!compound(x)) bvl = true; }
        // fields mentioned only below bit-vector literals
        if (fs.empty()) for (auto &l : lits) for (u32 n : coneOf({l.first})) { if (nodes[n].kind == BV_OF_FF) fs.insert(nodes[nodes[n].a].w); }
        if (bvl) { std::vector<u32> cs; for (auto &l : lits) if (!compound(nodes[l.first])) cs.push_back(l.second ? l.first : mkNot1(l.first)); if (bvAbstract(cs, false, std::min(20.0, deadline - nowS())).r == Verdict::UNSAT) return true; }
        for (u32 f : fs) {
            try {
                if (field(lits, f)) return true;
            } catch (NeedSplit &s) {
                if (depth > 14) return false;
                for (int v = 0; v < 2; v++) { Lits l2 = lits; if (!assume(l2, s.cond, v, depth + 1)) return false; }
                return true;
            } catch (Timeout &) { if (dbg()) fprintf(stderr, "[ff] gave up on a normal form\n"); }
        }
        return false;
    }
    // a chain of comparisons that leads back to where it started with a strict step
    bool orderCycle(const Lits &lits) {
        std::map<u32, u32> ix; std::vector<std::tuple<u32, u32, bool>> es;
        auto id = [&](u32 n) { return ix.emplace(nodes[n].kind == BV_OF_FF ? nodes[n].a : n, ix.size()).first->second; };
        for (auto &l : lits) {
            const Node &x = nodes[l.first];
            if (x.kind == FF_EQ && l.second) { es.push_back({id(x.a), id(x.b), false}); es.push_back({id(x.b), id(x.a), false}); }
            if (x.kind != ULT && x.kind != ULE) continue;
            if (l.second) es.push_back({id(x.a), id(x.b), x.kind == ULT}); else es.push_back({id(x.b), id(x.a), x.kind == ULE});
        }
        const size_t n = ix.size(); if (n < 3 || n > 40) return false;
        std::vector<std::vector<signed char>> m(n, std::vector<signed char>(n, -1));
        for (auto &e : es) m[std::get<0>(e)][std::get<1>(e)] = std::max<signed char>(m[std::get<0>(e)][std::get<1>(e)], std::get<2>(e));
        for (size_t k = 0; k < n; k++) for (size_t i = 0; i < n; i++) if (m[i][k] >= 0) for (size_t j = 0; j < n; j++) if (m[k][j] >= 0) m[i][j] = std::max<signed char>(m[i][j], m[i][k] | m[k][j]);
        for (size_t i = 0; i < n; i++) if (m[i][i] == 1) return true;
        return false;
    }
    bool field(const Lits &lits, u32 f) {
        std::vector<std::pair<u32, u32>> eqs, goals;    // (a, b) as field nodes
        for (auto &l : lits) {
            const Node x = nodes[l.first];
            if (x.kind == FF_EQ && nodes[x.a].w == f) (l.second ? eqs : goals).push_back({x.a, x.b});
            else if (x.kind == EQ && nodes[x.a].w > 1) {
                if (l.second) eqs.push_back({ffOfBv(f, x.a), ffOfBv(f, x.b)});
                else if (umax(x.a) < fields[f] && umax(x.b) < fields[f]) goals.push_back({ffOfBv(f, x.a), ffOfBv(f, x.b)});
            }
        }
        // order on residues: strictly ordered residues differ, residues ordered neither way are equal
        auto residue = [&](u32 n) -> u32 { const Node &x = nodes[n]; if (x.kind == BV_OF_FF && nodes[x.a].w == f) return x.a; if (isConst(n) && cval(n) < fields[f]) return ffConst(f, cval(n)); return 0; };
        for (auto &l : lits) {
            const Node x = nodes[l.first]; if (x.kind != ULT && x.kind != ULE) continue;
            u32 a = residue(x.a), b = residue(x.b); if (!a || !b) continue;
            const bool strict = (x.kind == ULT) == l.second;
            if (strict) { goals.push_back({a, b}); continue; }
            // not (a < b) gives b <= a, and a <= b is what it says; look for the other direction
            u32 lo = x.kind == ULT ? x.b : x.a, hi = x.kind == ULT ? x.a : x.b;      // lo <= hi
            for (auto &m : lits) {
                const Node y = nodes[m.first]; if ((y.kind != ULT && y.kind != ULE) || ((y.kind == ULT) == m.second)) continue;
                u32 lo2 = y.kind == ULT ? y.b : y.a, hi2 = y.kind == ULT ? y.a : y.b;
                if (lo2 == hi && hi2 == lo) { eqs.push_back({a, b}); break; }
            }
        }
        if (orderCycle(lits)) return true;
        u32 split = 0;
        auto diff = [&](Ctx &c, std::pair<u32, u32> g) { Poly P = c.atom(g.first); c.addTo(P, c.atom(g.second), -1); return P; };
        Ctx c(lits, deadline, f);
        for (auto &g : goals) { c.collectFF(g.first); c.collectFF(g.second); }
        for (auto &g : goals) { try { Poly P = diff(c, g); c.normal(P); if (P.empty()) return true; } catch (NeedSplit &s) { split = s.cond; } }
        // with the equations
        Ctx d(lits, deadline, f);
        for (auto &g : goals) { d.collectFF(g.first); d.collectFF(g.second); }
        for (auto &g : eqs) { d.collectFF(g.first); d.collectFF(g.second); }
        std::vector<Poly> hs;
        for (auto &e : eqs) {
            try {
                Poly P = diff(d, e); d.normal(P); 
                if (P.empty()) continue;
                if (P.size() == 1 && P.begin()->first.empty()) return true;    // nonzero constant = 0
                hs.push_back(P);
            } catch (NeedSplit &s) { if (!split) split = s.cond; }
        }
        // elimination: an atom alone in a linear monomial of an equation and nowhere else in it
        for (bool ch = true; ch;) {
            ch = false;
            for (size_t i = 0; i < hs.size(); i++) {
                Poly &P = hs[i];
                if (P.empty()) continue;
                u64 pick = 0;
                for (auto &t : P) if (t.first.size() == 1) {
                    u64 k = t.first[0]; if (Ctx::isBit(k)) continue; u32 uses = 0; for (auto &u : P) if (std::count(u.first.begin(), u.first.end(), k)) uses++;
                    if (uses == 1 && k > pick) pick = k;
                }
                if (!pick) continue;
                mpz_class cf = P[{pick}], inv; mpz_invert(inv.get_mpz_t(), cf.get_mpz_t(), d.p.get_mpz_t());
                Poly Q; for (auto &t : P) if (t.first != Mono{pick}) d.add(Q, t.first, -t.second * inv);
                if (Q.size() > 200) continue;
                P.clear();
                for (auto &s : d.subst) d.substitute(s.second, pick, Q);
                d.subst[pick] = Q;
                for (auto &h : hs) { d.substitute(h, pick, Q); if (h.size() == 1 && h.begin()->first.empty()) return true; }
                ch = true;
            }
        }
        // factors known to be non-zero drop out of equations
        for (auto &h : hs) for (bool again = !h.empty(); again;) {
            again = false;
            Mono common = h.begin()->first;
            for (auto &t : h) { Mono m; std::set_intersection(common.begin(), common.end(), t.first.begin(), t.first.end(), std::back_inserter(m), std::greater<u64>()); common = m; }
            for (u64 k : common) {
                u32 c0 = ffEq(Ctx::nodeOf(k), ffConst(f, 0)); if (isConst(c0) ? nodes[c0].cv != 0 : d.litOf(c0) != 0) continue;
                Poly q; for (auto &t : h) { Mono m = t.first; m.erase(std::find(m.begin(), m.end(), k)); q[m] = t.second; }
                h = q; again = true; break;
            }
            if (h.size() == 1 && h.begin()->first.empty()) return true;
        }
        for (auto &h : hs) if (!h.empty()) d.rules.push_back(h);
        std::vector<Poly> open;
        for (auto &g : goals) {
            try { Poly P = diff(d, g); d.normal(P); d.reduce(P); if (P.empty()) return true; open.push_back(P); } catch (NeedSplit &s) { if (!split) split = s.cond; }
        }
        // residues that the equations fix
        for (auto &l : lits) {
            const Node x = nodes[l.first]; if (x.kind != ULT && x.kind != ULE) continue;
            u32 a = residue(x.a), b = residue(x.b); if (!a || !b || d.subst.empty()) continue;
            try {
                mpz_class v[2]; bool fixed = true;
                for (int i = 0; i < 2; i++) {
                    d.collectFF(i ? b : a); Poly P = d.atom(i ? b : a); d.normal(P); d.reduce(P);
                    if (P.empty()) v[i] = 0; else if (P.size() == 1 && P.begin()->first.empty()) v[i] = mp(P.begin()->second, d.p); else { fixed = false; break; }
                }
                if (fixed && (x.kind == ULT ? v[0] < v[1] : v[0] <= v[1]) != l.second) return true;
            } catch (NeedSplit &s) { if (!split) split = s.cond; }
        }
        // equations such as x * y = 0: split on a factor that is a common atom
        if (!split) for (auto &h : d.rules) {
            Mono common = h.begin()->first;
            for (auto &t : h) { Mono m; std::set_intersection(common.begin(), common.end(), t.first.begin(), t.first.end(), std::back_inserter(m), std::greater<u64>()); common = m; }
            if (common.size()) { u32 c0 = ffEq(Ctx::nodeOf(common[0]), ffConst(f, 0)); if (!isConst(c0) && d.litOf(c0) == -1) { split = c0; break; } }
        }
        if (split) throw NeedSplit{split};
        if (useZ3 && (open.size() || d.rules.size())) {
            size_t sz = 0; for (auto &h : d.rules) sz += h.size(); for (auto &g : open) sz += g.size();
            if (sz < 3000) {
                if (d.rules.size() && z3Field(d, d.rules, {}, std::min(10.0, deadline - nowS())) == 1) return true;
                if (d.rules.size() && open.size() && z3Field(d, d.rules, open, std::min(20.0, deadline - nowS())) == 1) return true;
            }
        }
        // split on an undecided condition that occurs as a bit
        for (auto *ps : {&open, &d.rules}) for (auto &P : *ps) for (auto &t : P) for (u64 k : t.first) {
            const Node &x = nodes[Ctx::nodeOf(k)];
            if (x.kind == FF_OF_BV && nodes[x.a].w == 1) { int kd = nodes[x.a].kind; if (kd == FF_EQ || kd == EQ || kd == ULT || kd == ULE || kd == FF_ISSQ) throw NeedSplit{x.a}; }
        }
        for (auto &g : open) if (asInteger(d, g)) return true;
        if (getenv("SX_FFDUMP")) { for (auto &g : open) for (auto &t : g) for (u64 k : t.first) dumpNode(Ctx::nodeOf(k)); for (auto &l : lits) { fprintf(stderr, "lit %d:\n", l.second); dumpNode(l.first); } }
        if (dbg()) for (auto &g : open) { fprintf(stderr, "[ff] open goal with %zu terms:", g.size()); int i = 0; for (auto &t : g) { if (i++ > 6) break; fprintf(stderr, " %s", t.second.get_str(16).c_str()); for (u64 k : t.first) fprintf(stderr, "*n%u(k%d)", (u32)k, nodes[(u32)k].kind); } fprintf(stderr, "\n"); }
        return false;
    }
    // a polynomial in small numbers that cannot reach the modulus: zero in the field only when zero as an integer
    bool asInteger(Ctx &d, const Poly &P) {
        if (P.size() > 120 || P.empty() || nowS() > deadline) return false;
        for (auto &t : P) for (u64 k : t.first) { const Node &x = nodes[Ctx::nodeOf(k)]; if (x.kind != FF_OF_BV || umax(x.a) > 255) return false; }
        const mpz_class half = d.p / 2; mpz_class bestTot = -1, bestK;
        std::vector<mpz_class> ks{1};
        for (auto &t : P) { mpz_class i; mpz_invert(i.get_mpz_t(), t.second.get_mpz_t(), d.p.get_mpz_t()); for (u32 m : {1, 2, 3, 4, 6, 8, 12, 16, 20, 24}) ks.push_back(mp(i * m, d.p)); if (ks.size() > 200) break; }
        for (auto &k : ks) {
            mpz_class tot = 0;
            for (auto &t : P) { mpz_class c = mp(t.second * k, d.p); if (c > half) c = d.p - c; for (u64 a : t.first) c *= umax(nodes[Ctx::nodeOf(a)].a); tot += c; }
            if (bestTot < 0 || tot < bestTot) { bestTot = tot; bestK = k; }
        }
        u32 w = mpz_sizeinbase(bestTot.get_mpz_t(), 2) + 1;
        if (w > 48) return false;
        u32 side[2] = {mkConst(w, 0), mkConst(w, 0)};
        for (auto &t : P) {
            mpz_class c = mp(t.second * bestK, d.p); int s = 0; if (c > half) { c = d.p - c; s = 1; }
            u32 n = mkConst(w, c);
            for (u64 a : t.first) { u32 b = nodes[Ctx::nodeOf(a)].a; n = mkBin(MUL, n, nodes[b].w >= w ? mkExtract(b, w - 1, 0) : mkZext(b, w)); }
            side[s] = mkBin(ADD, side[s], n);
        }
        std::vector<u32> cs; for (auto &l : d.lits) cs.push_back(l.second ? l.first : mkBin(XOR, l.first, mkConst(1, 1)));
        cs.push_back(mkBin(XOR, mkBin(EQ, side[0], side[1]), mkConst(1, 1)));
        return bvAbstract(cs, false, std::min(10.0, std::max(0.1, deadline - nowS()))).r == Verdict::UNSAT;
    }
    // literals plus a condition: true when contradictory
    bool assume(Lits lits, u32 c, bool v, int depth) { std::vector<std::pair<u32, bool>> todo = {{c, v}}; return dpll(lits, todo, {}, depth); }
    bool dpll(Lits lits, std::vector<std::pair<u32, bool>> todo, std::vector<std::pair<u32, bool>> pend, int depth) {
        for (;;) {
            while (!todo.empty()) {
                u32 n = todo.back().first; bool v = todo.back().second; todo.pop_back();
                norm1(n, v);
                if (isConst(n)) { if ((nodes[n].cv != 0) != v) return true; continue; }
                auto it = lits.find(n);
                if (it != lits.end()) { if (it->second != v) return true; continue; }
                const Node x = nodes[n];
                if (compound(x)) lits[n] = v;
                if (x.w == 1 && x.kind == AND && v) { todo.push_back({x.a, true}); todo.push_back({x.b, true}); continue; }
                if (x.w == 1 && x.kind == OR && !v) { todo.push_back({x.a, false}); todo.push_back({x.b, false}); continue; }
                if (compound(x)) { pend.push_back({n, v}); continue; }
                lits[n] = v;
            }
            // unit rules on the pending ones
            bool ch = false; std::vector<std::pair<u32, bool>> keep;
            Ctx c(lits, deadline, 0 < fields.size() ? 0 : 0);
            for (auto &q : pend) {
                const Node x = nodes[q.first]; int a = c.litOf(x.a), b = c.litOf(x.b);
                if (x.kind == AND || x.kind == OR) {
                    bool dom = x.kind == OR;             // dominating value; here (AND,false) or (OR,true)
                    if ((a == 1) == dom && a >= 0) { if (q.second != dom) return true; ch = true; continue; }
                    if ((b == 1) == dom && b >= 0) { if (q.second != dom) return true; ch = true; continue; }
                    if (a >= 0) { todo.push_back({x.b, dom}); ch = true; continue; }
                    if (b >= 0) { todo.push_back({x.a, dom}); ch = true; continue; }
                } else if (x.kind == XOR || x.kind == EQ) {
                    bool same = (x.kind == EQ) == q.second;
                    if (a >= 0) { todo.push_back({x.b, same ? a : !a}); ch = true; continue; }
                    if (b >= 0) { todo.push_back({x.a, same ? b : !b}); ch = true; continue; }
                } else if (a >= 0) { todo.push_back({a ? x.b : x.c, q.second}); ch = true; continue; }
                keep.push_back(q);
            }
            pend.swap(keep);
            if (!ch && todo.empty()) break;
        }
        if (pend.empty()) return theory(lits, depth);
        if (depth > 40 || nowS() > deadline || ++splits > 4000) return false;
        // the literals alone may already be contradictory
        if (pend.size() > 1 && theory(lits, 100)) return true;
        u32 d = nodes[pend[0].first].a;
        for (int v = 0; v < 2; v++) { std::vector<std::pair<u32, bool>> t = {{d, (bool)v}}; if (!dpll(lits, t, pend, depth + 1)) return false; }
        return true;
    }
};

// ------------------------------------------------------------------------------------------------
// models
// ------------------------------------------------------------------------------------------------
static u64 rngState = 88172645463325252ull;
static u64 rnd() { rngState ^= rngState << 13; rngState ^= rngState >> 7; rngState ^= rngState << 17; return rngState; }
static mpz_class rndBelow(const mpz_class &n) { mpz_class r = 0; for (int i = 0; i < 7; i++) { r <<= 64; mpz_class t = (unsigned long)rnd(); r += t; } return r % n; }
static bool searchModel(const std::vector<u32> &conds, double deadline, std::map<u32, mpz_class> &model) {
    Eval ev(conds);
    std::map<u32, mpz_class> base; for (u32 i : ev.ins) base[i] = cval(inputs[i].node);
    auto ok = [&](const std::map<u32, mpz_class> &in, size_t &bad) { ev.run(in); for (bad = 0; bad < conds.size(); bad++) if (!ev.holds(conds[bad])) return false; return true; };
    auto range = [&](u32 i) { return inputs[i].ff ? fields[inputs[i].w] : mpz_class(inputs[i].hi + 1); };
    size_t bad;
    if (ok(base, bad)) { model = base; return true; }
    // the bit-vector part alone
    { Verdict v = bvAbstract(conds, true, std::min(10.0, std::max(0.1, deadline - nowS())));
      if (v.r == Verdict::UNSAT) return false;
      if (v.r == Verdict::SAT) { std::map<u32, mpz_class> in = base; for (u32 i : ev.ins) for (auto &kv : v.model) if (kv.first == inputs[i].name) in[i] = kv.second; if (ok(in, bad)) { model = in; return true; }
        for (u32 i : ev.ins) if (!inputs[i].ff) base[i] = in[i]; } }
    std::vector<u32> ins = ev.ins;
    if (ins.empty()) return false;
    // the equations to satisfy, innermost literals of the last condition
    std::vector<u32> lits; { std::vector<u32> st = {conds.back()}; std::set<u32> seen; while (!st.empty() && lits.size() < 40) { u32 n = st.back(); st.pop_back(); if (!seen.insert(n).second) continue; const Node &x = nodes[n]; if (x.kind == FF_EQ) lits.push_back(n); else if (x.w == 1 && (x.kind == AND || x.kind == OR || x.kind == XOR)) { st.push_back(x.a); st.push_back(x.b); } } }
    u32 tries = 0;
    for (u32 round = 0; nowS() < deadline && round < 4000; round++) {
        std::map<u32, mpz_class> in = base;
        if (round >= ins.size() * 4) for (u32 i : ins) { u64 r = rnd() % 8; if (r == 0) in[i] = 0; else if (r == 1) in[i] = 1 % range(i); else if (r == 2) { mpz_class v = in[ins[rnd() % ins.size()]]; in[i] = v % range(i); } else if (r < 6) in[i] = rndBelow(range(i)); if (in[i] < inputs[i].lo) in[i] = inputs[i].lo; }
        else { u32 i = ins[round / 4]; mpz_class v; switch (round % 4) { case 0: v = 0; break; case 1: v = 1; break; case 2: v = range(i) - 1; break; default: v = rndBelow(range(i)); } if (v >= range(i)) continue; if (v < inputs[i].lo) v = inputs[i].lo; in[i] = v; }
        if (ok(in, bad)) { model = in; return true; }
        // make one unsatisfied equation true by solving it for one input
        u32 ffc = 0;
        for (size_t c = 0; c < conds.size(); c++) { u32 n = conds[c]; if (nodes[n].kind == FF_EQ && !ev.holds(n)) { ffc = n; break; } }
        if (!ffc && !lits.empty()) ffc = lits[rnd() % lits.size()];
        if (!ffc) continue;
        const Node q = nodes[ffc]; const mpz_class &p = fields[nodes[q.a].w];
        Eval e1({q.a, q.b});
        std::vector<u32> cand; for (u32 i : e1.ins) if (inputs[i].ff) cand.push_back(i);
        for (u32 t = 0; t < cand.size() && t < 6 && nowS() < deadline; t++) {
            u32 i = cand[(tries++) % cand.size()];
            auto g = [&](const mpz_class &v) { auto in2 = in; in2[i] = v; e1.run(in2); return mp(e1.at(q.a) - e1.at(q.b), p); };
            mpz_class f0 = g(0), f1 = g(1), f2 = g(2), f3 = g(3);
            mpz_class d2 = mp(f2 - 2 * f1 + f0, p), d3 = mp(f3 - 3 * f2 + 3 * f1 - f0, p);
            std::vector<mpz_class> roots;
            if (d2 == 0 && f1 != f0) { mpz_class inv, d = mp(f0 - f1, p); mpz_invert(inv.get_mpz_t(), d.get_mpz_t(), p.get_mpz_t()); roots.push_back(mp(f0 * inv, p)); }
            else if (d2 != 0 && d3 == 0) {
                mpz_class i2 = (p + 1) / 2, a = mp(d2 * i2, p), b = mp(f1 - f0 - a, p), D = mp(b * b - 4 * a * f0, p);
                if (D == 0 || mpz_legendre(D.get_mpz_t(), p.get_mpz_t()) == 1) { mpz_class s = sqrtMod(D, p), inv, den = mp(2 * a, p); mpz_invert(inv.get_mpz_t(), den.get_mpz_t(), p.get_mpz_t()); roots.push_back(mp((s - b) * inv, p)); roots.push_back(mp((-s - b) * inv, p)); }
            } else roots = {0, 1};
            for (auto &r : roots) { auto in2 = in; in2[i] = r; if (ok(in2, bad)) { model = in2; return true; } }
        }
    }
    return false;
}

Verdict solveText(const std::vector<u32> &conds, double timeout_s, bool) {
    Verdict v; v.r = Verdict::UNKNOWN;
    double t0 = nowS(), deadline = t0 + timeout_s;
    bool ff = false; for (u32 c : conds) if (needsText(c)) ff = true;
    if (!ff) return bvAbstract(conds, true, timeout_s);
    // only comparisons of inputs and small numbers: bit-vectors say it all
    bool plain = true;
    for (u32 n : coneOf(conds)) {
        const Node x = nodes[n];
        if (x.kind == FF_EQ) plain = plainResidue(x.a) && plainResidue(x.b);
        else if (x.kind == BV_OF_FF) plain = nodes[x.a].kind == FF_VAR;
        else if (x.kind == FF_ISSQ) plain = false;
        if (!plain) break;
    }
    if (plain) { v = bvAbstract(conds, true, timeout_s); if (v.r != Verdict::UNKNOWN) return v; }
    // sums and products that stay below the modulus: the same as integers; tried first when few bits are free
    auto asIntegers = [&] {
        bool whole = !plain;
        for (bool again = whole; again;) {
            again = false; whole = true; auto cone = coneOf(conds);
            for (u32 n : cone) if (!exactCond(n)) { whole = false; break; }
            if (!whole) for (u32 n : cone) if (nodes[n].kind == BV_OF_FF && tightenResidue(n, timeout_s / 8)) { again = true; break; }
        }
        if (whole) { double t1 = nowS(); v = bvAbstract(conds, true, timeout_s / 2, true); if (dbg()) fprintf(stderr, "refute %.2f exact %.2f -> %d\n", t1 - t0, nowS() - t1, (int)v.r); }
    };
    mpz_class freeBits = 0; for (u32 n : coneOf(conds)) if (nodes[n].kind == VAR) freeBits += mpz_sizeinbase(inputs[nodes[n].v].hi.get_mpz_t(), 2); else if (nodes[n].kind == FF_VAR) freeBits += 1000;
    if (freeBits <= 16) { asIntegers(); if (v.r != Verdict::UNKNOWN) return v; }
    auto refute = [&](const std::vector<u32> &cs, double limit, bool z3) { Refuter r; r.deadline = std::min(deadline, nowS() + limit); r.useZ3 = z3; std::vector<std::pair<u32, bool>> todo; for (auto it = cs.rbegin(); it != cs.rend(); ++it) todo.push_back({*it, true}); return r.dpll({}, todo, {}, 0); };
    // the last condition alone, then with the path, then a model, then everything
    if (refute({conds.back()}, timeout_s / 4, false)) { v.r = Verdict::UNSAT; return v; }
    if (conds.size() > 1 && refute(conds, timeout_s / 4, false)) { v.r = Verdict::UNSAT; return v; }
    if (freeBits > 16) { asIntegers(); if (v.r != Verdict::UNKNOWN) return v; }
    std::map<u32, mpz_class> m;
    // residues ordered neither way are equal: say so, the search solves equations
    std::vector<u32> withEqs; std::set<std::pair<u32, u32>> below;
    for (u32 c : conds) {
        u32 n = c; bool pos = true; norm1(n, pos); const Node x = nodes[n];
        if ((x.kind != ULT && x.kind != ULE) || (x.kind == ULT) == pos) continue;
        u32 lo = x.kind == ULT ? x.b : x.a, hi = x.kind == ULT ? x.a : x.b; below.insert({lo, hi});
        if (!below.count({hi, lo}) || lo == hi) continue;
        auto res = [&](u32 k, u32 f) -> u32 { const Node &y = nodes[k]; return y.kind == BV_OF_FF ? y.a : isConst(k) && cval(k) < fields[f] ? ffConst(f, cval(k)) : 0; };
        u32 f = nodes[lo].kind == BV_OF_FF ? nodes[nodes[lo].a].w : nodes[hi].kind == BV_OF_FF ? nodes[nodes[hi].a].w : ~0u; if (f == ~0u) continue;
        u32 a = res(lo, f), b = res(hi, f); if (a && b && nodes[a].w == nodes[b].w) withEqs.push_back(ffEq(a, b));
    }
    withEqs.insert(withEqs.end(), conds.begin(), conds.end());
    if (searchModel(withEqs, std::min(deadline, nowS() + timeout_s / 4), m)) {
        v.r = Verdict::SAT;
        for (auto &in : inputs) { u32 i = &in - &inputs[0]; auto it = m.find(i); v.model.push_back({in.name, it != m.end() ? it->second : cval(in.node)}); }
        return v;
    }
    if (refute(conds, deadline - nowS(), true)) { v.r = Verdict::UNSAT; return v; }
    v = wideIntegers(conds, coneOf(conds), std::max(timeout_s / 4, deadline - nowS())); if (v.r != Verdict::UNKNOWN) return v;
    if (getenv("SX_FFDUMP")) for (u32 c : conds) { fprintf(stderr, "undecided condition:\n"); dumpNode(c); }
    return v;
}
}
