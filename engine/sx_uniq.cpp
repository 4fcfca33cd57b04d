// Constraint systems extracted from real circuits: are the outputs determined by the inputs?
//
// Two assignments that satisfy every constraint and agree on the known cells are compared.  Cells are shown equal in both
// by deduction steps (linear in one open cell with a non-zero coefficient, bounded integer differences, table rows), with
// case splits on values that are the same in both.  Every step is a small unsatisfiability claim that is handed to Z3 in the
// end (QF_FF or QF_LIA).  When a cell stays open, a second assignment is searched for; only a verified one is reported.
#include "sx.h"
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <set>
namespace sxe {
std::string runZ3(const std::string &text, double timeout);   // sx_ff.cpp
mpz_class sqrtMod(const mpz_class &a, const mpz_class &p);
[[noreturn]] void uniqViolation(const std::string &msg, const std::map<std::string, mpz_class> &cells);   // sx.cpp
void uniqUnknown(const std::string &msg);
void uniqProved();
void uniqCount(u64 unsat, u64 unknown, double s);

namespace uq {
using Mono = std::vector<u32>;
using Poly = std::map<Mono, mpz_class>;
static double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static bool dbg() { static bool d = getenv("SX_UQDEBUG") != nullptr; return d; }
static mpz_class p, half;
static mpz_class mp(const mpz_class &v) { mpz_class r; mpz_fdiv_r(r.get_mpz_t(), v.get_mpz_t(), p.get_mpz_t()); return r; }
static mpz_class inv(const mpz_class &v) { mpz_class r; mpz_invert(r.get_mpz_t(), v.get_mpz_t(), p.get_mpz_t()); return r; }
static mpz_class cen(const mpz_class &v) { return v > half ? mpz_class(v - p) : v; }
static void addTerm(Poly &P, const Mono &m, const mpz_class &c) {
    if (c == 0) return;
    auto it = P.find(m);
    if (it == P.end()) { mpz_class r = mp(c); if (r != 0) P.emplace(m, r); return; }
    it->second = mp(it->second + c); if (it->second == 0) P.erase(it);
}
static Poly addP(const Poly &a, const Poly &b, const mpz_class &k = 1) { Poly r = a; for (auto &t : b) addTerm(r, t.first, t.second * k); return r; }
static Mono mulM(const Mono &a, const Mono &b) { Mono r; r.reserve(a.size() + b.size()); std::merge(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(r)); return r; }
struct TooBig {};
static Poly mulP(const Poly &a, const Poly &b) {
    if (a.size() * b.size() > 200000) throw TooBig();
    Poly r; for (auto &x : a) for (auto &y : b) addTerm(r, mulM(x.first, y.first), x.second * y.second); return r;
}
static Poly scale(const Poly &a, const mpz_class &k) { Poly r; for (auto &t : a) addTerm(r, t.first, t.second * k); return r; }
static Poly constP(const mpz_class &c) { Poly r; addTerm(r, {}, c); return r; }
static bool isConstP(const Poly &a) { return a.empty() || (a.size() == 1 && a.begin()->first.empty()); }
static std::set<u32> varsOf(const Poly &a) { std::set<u32> s; for (auto &t : a) s.insert(t.first.begin(), t.first.end()); return s; }
static u32 degIn(const Poly &a, u32 v) { u32 d = 0; for (auto &t : a) d = std::max<u32>(d, std::count(t.first.begin(), t.first.end(), v)); return d; }
static void splitLin(const Poly &a, u32 v, Poly &A, Poly &B) {   // a = A*v + B, degree one in v
    for (auto &t : a) { auto it = std::find(t.first.begin(), t.first.end(), v); if (it == t.first.end()) B[t.first] = t.second; else { Mono m = t.first; m.erase(m.begin() + (it - t.first.begin())); A[m] = t.second; } }
}
static Poly monic(const Poly &a) { if (a.empty()) return a; return scale(a, inv(a.rbegin()->second)); }
static Poly subst(const Poly &a, u32 v, const Poly &q) {
    Poly r;
    for (auto &t : a) {
        u32 k = std::count(t.first.begin(), t.first.end(), v);
        if (!k) { addTerm(r, t.first, t.second); continue; }
        Mono m; for (u32 x : t.first) if (x != v) m.push_back(x);
        Poly s; s[m] = t.second;
        for (u32 i = 0; i < k; i++) s = mulP(s, q);
        for (auto &u : s) addTerm(r, u.first, u.second);
    }
    return r;
}
static std::string show(const Poly &a);

struct Dom { bool has = false; mpz_class lo, hi; std::vector<mpz_class> set; };
struct Table { u32 cols; std::vector<std::vector<mpz_class>> rows; bool range = false; mpz_class top; std::map<u32, bool> functional; };
struct Look { std::vector<Poly> e; u32 table; };
struct Var { std::string name; bool known = false; mpz_class val; u32 node = 0; };
static std::vector<Var> vars;
static std::map<u32, u32> nodeVar;
static std::vector<Poly> eqs;
static std::vector<Look> looks;
static std::map<u32, Table> tables;
static std::vector<u32> targets;
static std::vector<std::pair<u32, mpz_class>> bounds;   // goals: variable <= value
static std::vector<std::pair<u32, mpz_class>> ranges;   // assumed: variable <= value
static bool goalInfeasible = false;
static double deadline;
static std::vector<std::string> lemFF, lemInt;

static std::string show(const Poly &a) {
    std::string s; u32 n = 0;
    for (auto &t : a) { if (n++ > 12) { s += " ..."; break; } s += (s.empty() ? "" : " + ") + cen(t.second).get_str(); for (u32 v : t.first) s += "*" + (v < vars.size() ? vars[v].name : "x" + std::to_string(v)); }
    return s;
}
struct Contradiction {};
struct VS { bool det = false; Dom dom; bool nz = false; };
struct State {
    std::vector<Poly> cons; std::vector<Look> looks; std::vector<VS> v; std::set<Poly> nz; std::map<u32, Poly> sub; std::vector<std::vector<u32>> occ; std::vector<char> dirty;
    std::vector<mpz_class> aux;
};
static std::string smtFF(const Poly &P, const std::function<std::string(u32)> &nm) {
    if (P.empty()) return "(as ff0 F)";
    std::string s = "(ff.add (as ff0 F)";
    for (auto &t : P) { s += " (ff.mul (as ff" + t.second.get_str() + " F)"; for (u32 k : t.first) s += " " + nm(k); s += t.first.empty() ? " (as ff1 F))" : ")"; }
    return s + ")";
}
static void lemmaLinear(const State &S, const Poly &P, u32 u, const Poly &A) {   // P and its copy, u open, the rest shared
    if (lemFF.size() >= 300 || P.size() > 60) return;
    std::set<u32> vs = varsOf(P); std::string s = "(push)\n";
    for (u32 v : vs) s += "(declare-const v" + std::to_string(v) + " F)\n";
    s += "(declare-const w F)\n";
    auto n1 = [](u32 v) { return "v" + std::to_string(v); };
    auto n2 = [u](u32 v) { return v == u ? std::string("w") : "v" + std::to_string(v); };
    s += "(assert (= " + smtFF(P, n1) + " (as ff0 F)))\n(assert (= " + smtFF(P, n2) + " (as ff0 F)))\n(assert (not (= v" + std::to_string(u) + " w)))\n";
    if (!isConstP(A)) s += "(assert (not (= " + smtFF(A, n1) + " (as ff0 F))))\n";
    lemFF.push_back(s + "(check-sat)\n(pop)\n");
}
static std::string intS(const mpz_class &v) { return v < 0 ? "(- " + mpz_class(-v).get_str() + ")" : v.get_str(); }
static std::string lemmaDiff(const std::vector<std::pair<mpz_class, mpz_class>> &cr, u32 k) {   // sum c_i d_i = 0, |d_i| <= r_i, d_k != 0
    std::string s = "(push)\n", sum;
    for (size_t i = 0; i < cr.size(); i++) { std::string d = "d" + std::to_string(i); s += "(declare-const " + d + " Int)\n(assert (and (<= " + intS(-cr[i].second) + " " + d + ") (<= " + d + " " + intS(cr[i].second) + ")))\n"; sum += " (* " + intS(cr[i].first) + " " + d + ")"; }
    return s + "(assert (= 0 (+ 0" + sum + ")))\n(assert (not (= d" + std::to_string(k) + " 0)))\n(check-sat)\n(pop)\n";
}

// the linear equations under the ranges leave nothing outside [x,y] for v (v = ~0: nothing at all)
static std::string lemmaRange(const State &S, const Poly &Q, u32 v, const mpz_class &x, const mpz_class &y) {
    std::string s = "(push)\n", sum; u32 i = 0;
    for (auto &t : Q) {
        mpz_class c = t.second > half ? mpz_class(t.second - p) : t.second;
        if (t.first.empty()) { sum += " " + intS(c); continue; }
        std::string d = "d" + std::to_string(i++); auto &dm = S.v[t.first[0]].dom;
        s += "(declare-const " + d + " Int)\n(assert (and (<= " + dm.lo.get_str() + " " + d + ") (<= " + d + " " + dm.hi.get_str() + ")))\n";
        sum += " (* " + intS(c) + " " + d + ")";
        if (t.first[0] == v) s += "(assert (or (< " + d + " " + intS(x) + ") (> " + d + " " + intS(y) + ")))\n";
    }
    return s + "(assert (= 0 (+ 0" + sum + ")))\n(check-sat)\n(pop)\n";
}
static bool linearP(const Poly &P) { for (auto &t : P) if (t.first.size() > 1) return false; return true; }
static std::set<u32> commonVars(const Poly &A) {   // variables in every monomial
    std::set<u32> c; bool first = true;
    for (auto &t : A) { std::set<u32> m(t.first.begin(), t.first.end()); if (first) c = m; else { std::set<u32> k; std::set_intersection(c.begin(), c.end(), m.begin(), m.end(), std::inserter(k, k.begin())); c = k; } first = false; if (c.empty()) break; }
    return c;
}
static Poly divVar(const Poly &A, u32 v) { Poly r; for (auto &t : A) { Mono m = t.first; m.erase(std::find(m.begin(), m.end(), v)); addTerm(r, m, t.second); } return r; }
static bool isNz(const State &S, const Poly &A0) {
    if (A0.empty()) return false;
    if (isConstP(A0)) return true;
    Poly A = A0; if (A.size() > 1) for (std::set<u32> c; !(c = commonVars(A)).empty();) { for (u32 v : c) { if (!S.v[v].nz) return false; A = divVar(A, v); } }
    if (A.size() == 1) { for (u32 v : A.begin()->first) if (!S.v[v].nz) return false; return true; }
    Poly m = monic(A); if (S.nz.count(m)) return true;
    if (S.nz.size() <= 12) for (auto a = S.nz.begin(); a != S.nz.end(); ++a) for (auto b = a; b != S.nz.end(); ++b) if (a->size() * b->size() >= m.size() && monic(mulP(*a, *b)) == m) return true;
    return false;
}
static void touch(State &S, u32 v) { for (u32 i : S.occ[v]) S.dirty[i] = 1; }
static void setNz(State &S, const Poly &A) {
    if (A.empty()) throw Contradiction();
    if (isConstP(A)) return;
    if (A.size() == 1) { for (u32 v : A.begin()->first) if (!S.v[v].nz) { S.v[v].nz = true; if (S.v[v].dom.has) { auto &d = S.v[v].dom; if (d.lo == 0) d.lo = 1; d.set.erase(std::remove(d.set.begin(), d.set.end(), mpz_class(0)), d.set.end()); if (d.lo > d.hi) throw Contradiction(); } touch(S, v); } return; }
    for (u32 v : commonVars(A)) { setNz(S, Poly{{{v}, 1}}); setNz(S, divVar(A, v)); return; }
    Poly m = monic(A);
    if (S.nz.insert(m).second) for (u32 v : varsOf(m)) touch(S, v);
}
static void setDet(State &S, u32 v) { if (!S.v[v].det) { S.v[v].det = true; touch(S, v); } }
static void addCons(State &S, const Poly &P) { u32 i = S.cons.size(); S.cons.push_back(P); S.dirty.push_back(1); for (u32 v : varsOf(P)) S.occ[v].push_back(i); }
static void doSub(State &S, u32 v, const Poly &q) {
    S.sub[v] = q;
    for (auto &kv : S.sub) if (kv.first != v && degIn(kv.second, v)) kv.second = subst(kv.second, v, q);
    std::set<u32> qv = varsOf(q);
    std::vector<u32> o = S.occ[v];
    for (u32 i : o) if (degIn(S.cons[i], v)) { S.cons[i] = subst(S.cons[i], v, q); S.dirty[i] = 1; for (u32 x : qv) S.occ[x].push_back(i); }
    for (auto &l : S.looks) for (auto &e : l.e) if (degIn(e, v)) e = subst(e, v, q);
    std::set<Poly> nz; for (auto &A : S.nz) if (degIn(A, v)) { Poly B = subst(A, v, q); if (B.empty()) throw Contradiction(); if (!isConstP(B)) nz.insert(monic(B)); } else nz.insert(A);
    S.nz = nz;
    if (S.v[v].nz) setNz(S, q);
    if (S.v[v].dom.has && isConstP(q)) {
        mpz_class c = q.empty() ? mpz_class(0) : q.begin()->second; auto &d = S.v[v].dom;
        if (c < d.lo || c > d.hi) throw Contradiction();
        if (!d.set.empty() && std::find(d.set.begin(), d.set.end(), c) == d.set.end()) throw Contradiction();
    }
    if (S.v[v].dom.has && qv.size() == 1 && q.size() == 1 && q.begin()->second == 1 && q.begin()->first.size() == 1) {   // renamed: keep the range
        u32 w = *qv.begin(); auto &d = S.v[w].dom, &o2 = S.v[v].dom;
        if (!d.has) d = o2; else { if (o2.lo > d.lo) d.lo = o2.lo; if (o2.hi < d.hi) d.hi = o2.hi; if (d.set.empty()) d.set = o2.set; if (d.lo > d.hi) throw Contradiction(); }
    }
    S.v[v].det = true;
    for (u32 x : qv) touch(S, x);
}
static bool setDom(State &S, u32 v, mpz_class lo, mpz_class hi) {
    auto &d = S.v[v].dom; bool ch = false;
    if (S.v[v].nz && lo <= 0) lo = 1;
    if (!d.has) { if (lo < 0) lo = 0; if (hi >= p) return false; d.has = true; d.lo = lo; d.hi = hi; ch = true; }
    else { if (lo > d.lo) { d.lo = lo; ch = true; } if (hi < d.hi) { d.hi = hi; ch = true; } }
    if (d.lo > d.hi) throw Contradiction();
    if (!d.set.empty()) { auto s = d.set; d.set.clear(); for (auto &x : s) if (x >= d.lo && x <= d.hi) d.set.push_back(x); if (d.set.empty()) throw Contradiction(); }
    if (ch) { touch(S, v); if (d.lo == d.hi && !S.sub.count(v)) { doSub(S, v, constP(d.lo)); } }
    return ch;
}
static mpz_class evalUni(const std::vector<mpz_class> &c, const mpz_class &x) { mpz_class r = 0; for (size_t i = c.size(); i-- > 0;) r = mp(r * x + c[i]); return r; }
static bool rootsOf(std::vector<mpz_class> c, std::vector<mpz_class> &roots) {   // all roots, or false
    while (!c.empty() && c.back() == 0) c.pop_back();
    u32 d = c.size() - 1;
    auto deflate = [&](const mpz_class &r) { std::vector<mpz_class> q(c.size() - 1); mpz_class carry = 0; for (size_t i = c.size(); i-- > 1;) { carry = mp(c[i] + carry * r); q[i - 1] = carry; } c = q; };
    for (int x = -64; x <= 256 && c.size() > 3; x++) { mpz_class r = mp(x); while (c.size() > 1 && evalUni(c, r) == 0) { if (std::find(roots.begin(), roots.end(), r) == roots.end()) roots.push_back(r); deflate(r); } }
    if (c.size() == 3) {
        mpz_class D = mp(c[1] * c[1] - 4 * c[0] * c[2]), i2 = inv(mp(2 * c[2]));
        if (D == 0) { roots.push_back(mp(-c[1] * i2)); c.resize(1); }
        else if (mpz_legendre(D.get_mpz_t(), p.get_mpz_t()) == 1) { mpz_class s = sqrtMod(D, p); roots.push_back(mp((s - c[1]) * i2)); roots.push_back(mp((-s - c[1]) * i2)); c.resize(1); }
        else c.resize(1);
    } else if (c.size() == 2) { roots.push_back(mp(-c[0] * inv(c[1]))); c.resize(1); }
    (void)d;
    std::sort(roots.begin(), roots.end()); roots.erase(std::unique(roots.begin(), roots.end()), roots.end());
    return c.size() <= 1;
}
static void reduceBits(State &S, Poly &P) {   // b*b = b
    bool any = false;
    for (auto &t : P) for (size_t i = 1; i < t.first.size(); i++) if (t.first[i] == t.first[i - 1] && S.v[t.first[i]].dom.has && S.v[t.first[i]].dom.hi <= 1) { any = true; break; }
    if (!any) return;
    Poly r;
    for (auto &t : P) { Mono m; for (u32 v : t.first) if (m.empty() || m.back() != v || !(S.v[v].dom.has && S.v[v].dom.hi <= 1)) m.push_back(v); addTerm(r, m, t.second); }
    P = r;
}
// integer bounds of a linear form under the ranges; false when a variable has none
static bool linBounds(const State &S, const Poly &P, mpz_class &lo, mpz_class &hi) {
    lo = hi = 0;
    for (auto &t : P) {
        mpz_class c = cen(t.second);
        if (t.first.empty()) { lo += c; hi += c; continue; }
        mpz_class l = 1, h = 1; bool ok = true;
        for (u32 v : t.first) { auto &d = S.v[v].dom; if (!d.has) { ok = false; break; } l *= d.lo; h *= d.hi; }
        if (!ok) return false;
        if (c > 0) { lo += c * l; hi += c * h; } else { lo += c * h; hi += c * l; }
    }
    return true;
}
static std::vector<mpz_class> scalings(const Poly &P) { std::vector<mpz_class> r{1}; for (auto &t : P) { mpz_class k = inv(t.second); if (std::find(r.begin(), r.end(), k) == r.end() && r.size() < 12) r.push_back(k); } return r; }
// equations between bounded variables, over the integers
static void boundsStep(State &S, const Poly &P, bool &changed) {
    u32 open = 0, ov = 0;
    for (u32 v : varsOf(P)) if (!S.v[v].dom.has) { open++; ov = v; }
    if (open > 1) return;
    if (open == 1) {   // v = linear form of bounded variables
        if (degIn(P, ov) != 1) return;
        Poly A, B; splitLin(P, ov, A, B);
        if (!isConstP(A)) return;
        Poly Q = scale(B, mp(-inv(A.begin()->second)));
        mpz_class lo, hi;
        if (linBounds(S, Q, lo, hi) && lo >= 0 && hi < p) {
            bool ch = setDom(S, ov, lo, hi); changed |= ch;
            if (ch && linearP(Q) && lemInt.size() < 100 && Q.size() < 16) {   // over the integers ov = Q, as both sides are below p
                std::string s = lemmaRange(S, Q, ~0u, 0, 0); size_t at = s.rfind("(assert (= 0 ");
                s = s.substr(0, at) + "(declare-const o Int)\n(assert (= o " + s.substr(at + 13, s.find("\n(check-sat)") - at - 13 - 1) + ")\n(assert (or (< o " + intS(lo) + ") (> o " + intS(hi) + ")))\n(check-sat)\n(pop)\n";
                lemInt.push_back(s);
            }
        }
        return;
    }
    for (auto &k : scalings(P)) {
        Poly Q = scale(P, k); mpz_class lo, hi;
        if (!linBounds(S, Q, lo, hi)) return;
        if (lo <= -p || hi >= p) continue;
        if (lo > 0 || hi < 0) { if (linearP(Q) && lemInt.size() < 100 && Q.size() < 16) lemInt.push_back(lemmaRange(S, Q, ~0u, 0, 0)); throw Contradiction(); }
        if (!linearP(Q)) return;
        for (auto &t : Q) {
            if (t.first.empty()) continue;
            mpz_class c = cen(t.second); u32 v = t.first[0]; auto &d = S.v[v].dom;
            mpz_class l = lo - (c > 0 ? mpz_class(c * d.lo) : mpz_class(c * d.hi)), h = hi - (c > 0 ? mpz_class(c * d.hi) : mpz_class(c * d.lo));   // rest in [l,h], c*v = -rest in [-h,-l]
            mpz_class a = -h, b = -l, x, y;
            if (c > 0) { mpz_cdiv_q(x.get_mpz_t(), a.get_mpz_t(), c.get_mpz_t()); mpz_fdiv_q(y.get_mpz_t(), b.get_mpz_t(), c.get_mpz_t()); }
            else { mpz_class n = -c; mpz_class na = -a, nb = -b; mpz_cdiv_q(x.get_mpz_t(), nb.get_mpz_t(), n.get_mpz_t()); mpz_fdiv_q(y.get_mpz_t(), na.get_mpz_t(), n.get_mpz_t()); }
            mpz_class was = d.hi - d.lo, is = std::min(y, d.hi) - std::max(x, d.lo);   // no creeping
            if (was > 1000 && is * 4 > was * 3 && !(d.lo == 0 && x > 0)) continue;
            if (x > d.lo || y < d.hi) { if (lemInt.size() < 100 && Q.size() < 16) lemInt.push_back(lemmaRange(S, Q, v, x, y)); if (setDom(S, v, x, y)) { changed = true; return; } }
        }
        return;
    }
}
// differences of the open variables, all bounded and with constant coefficients
static bool diffStep(State &S, const Poly &P, const std::vector<u32> &U) {
    for (u32 u : U) if (!S.v[u].dom.has) return false;
    std::map<u32, mpz_class> co;
    for (auto &t : P) { u32 k = 0, w = 0; for (u32 v : t.first) if (!S.v[v].det) { k++; w = v; } if (k == 0) continue; if (k > 1 || t.first.size() > 1) return false; co[w] = t.second; }
    for (auto &k : scalings(P)) {
        std::vector<std::pair<mpz_class, mpz_class>> cr; std::vector<u32> vs; mpz_class total = 0;
        for (auto &kv : co) { mpz_class c = cen(mp(kv.second * k)), r = S.v[kv.first].dom.hi - S.v[kv.first].dom.lo; total += abs(c) * r; cr.push_back({c, r}); vs.push_back(kv.first); }
        if (total >= p) continue;
        std::vector<u32> ord(vs.size()); for (u32 i = 0; i < ord.size(); i++) ord[i] = i;
        std::sort(ord.begin(), ord.end(), [&](u32 a, u32 b) { return abs(cr[a].first) < abs(cr[b].first); });
        // from the largest coefficient down: it dominates everything below
        bool any = false; mpz_class below = 0; std::vector<mpz_class> pre(ord.size());
        for (u32 i = 0; i < ord.size(); i++) { pre[i] = below; below += abs(cr[ord[i]].first) * cr[ord[i]].second; }
        std::vector<u32> live = ord;
        for (u32 i = ord.size(); i-- > 0;) {
            if (abs(cr[ord[i]].first) > pre[i]) {
                if (lemInt.size() < 300) { std::vector<std::pair<mpz_class, mpz_class>> q; for (u32 j = 0; j <= i; j++) q.push_back(cr[ord[j]]); lemInt.push_back(lemmaDiff(q, i)); }
                setDet(S, vs[ord[i]]); any = true; live.pop_back();
            } else break;
        }
        if (any) return true;
        if (vs.size() <= 12) {   // ask the solver
            static std::map<std::string, bool> asked;
            for (u32 i = 0; i < vs.size(); i++) {
                bool two = false;   // two of them cancel: plainly not determined
                for (u32 j = 0; j < vs.size() && !two; j++) if (j != i) { mpz_class g; mpz_gcd(g.get_mpz_t(), cr[i].first.get_mpz_t(), cr[j].first.get_mpz_t()); two = abs(cr[j].first) / g <= cr[i].second && abs(cr[i].first) / g <= cr[j].second; }
                if (two) continue;
                std::string q = lemmaDiff(cr, i); auto it = asked.find(q); bool u;
                if (it != asked.end()) u = it->second;
                else { double t0 = nowS(); std::string o = runZ3("(set-logic QF_LIA)\n" + q, std::max(1.0, std::min(5.0, deadline - nowS()))); u = o.compare(0, 5, "unsat") == 0; uniqCount(u, !u && o.compare(0, 3, "sat"), nowS() - t0); asked[q] = u; }
                if (u) { setDet(S, vs[i]); any = true; }
            }
            return any;
        }
        return false;
    }
    return false;
}
// open bounded variables tied by several linear equations at once
static bool groupStep(State &S) {
    struct E { std::map<u32, mpz_class> co; };
    std::vector<E> es; std::map<u32, std::vector<u32>> at;
    for (auto &P : S.cons) {
        E e; bool ok = !P.empty(); u32 n = 0;
        for (auto &t : P) { u32 k = 0, w = 0; for (u32 v : t.first) if (!S.v[v].det) { k++; w = v; } if (k == 0) continue; if (k > 1 || t.first.size() > 1 || !S.v[w].dom.has) { ok = false; break; } e.co[w] = t.second; n++; }
        if (!ok || n < 2) continue;
        bool fit = false;
        for (auto &k : scalings(P)) { mpz_class tot = 0; for (auto &kv : e.co) tot += abs(cen(mp(kv.second * k))) * (S.v[kv.first].dom.hi - S.v[kv.first].dom.lo); if (tot < p) { for (auto &kv : e.co) kv.second = cen(mp(kv.second * k)); fit = true; break; } }
        if (!fit) continue;
        for (auto &kv : e.co) at[kv.first].push_back(es.size());
        es.push_back(e);
    }
    std::set<u32> done; bool any = false;
    for (auto &kv : at) {
        if (done.count(kv.first)) continue;
        std::set<u32> comp{kv.first}, eq; std::vector<u32> q{kv.first};
        while (!q.empty()) { u32 v = q.back(); q.pop_back(); for (u32 e : at[v]) if (eq.insert(e).second) for (auto &c : es[e].co) if (comp.insert(c.first).second) q.push_back(c.first); }
        done.insert(comp.begin(), comp.end());
        if (eq.size() < 2 || comp.size() > 80) continue;
        std::string s = "(set-logic QF_LIA)\n";
        for (u32 v : comp) { mpz_class r = S.v[v].dom.hi - S.v[v].dom.lo; std::string d = "d" + std::to_string(v); s += "(declare-const " + d + " Int)\n(assert (and (<= " + intS(-r) + " " + d + ") (<= " + d + " " + intS(r) + ")))\n"; }
        for (u32 e : eq) { s += "(assert (= 0 (+ 0"; for (auto &c : es[e].co) s += " (* " + intS(c.second) + " d" + std::to_string(c.first) + ")"; s += ")))\n"; }
        for (u32 v : comp) {
            if (nowS() > deadline) return any;
            double t0 = nowS();
            std::string o = runZ3(s + "(assert (not (= d" + std::to_string(v) + " 0)))\n(check-sat)\n", std::max(1.0, std::min(5.0, deadline - nowS())));
            bool u = o.compare(0, 5, "unsat") == 0; uniqCount(u, !u && o.compare(0, 3, "sat"), nowS() - t0);
            if (u) { setDet(S, v); any = true; }
        }
    }
    return any;
}
static bool detP(const State &S, const Poly &P) { for (u32 v : varsOf(P)) if (!S.v[v].det) return false; return true; }
static bool functional(Table &T, u32 mask) {   // do the columns in mask fix the row
    auto it = T.functional.find(mask); if (it != T.functional.end()) return it->second;
    std::map<std::vector<mpz_class>, std::vector<mpz_class>> seen; bool ok = true;
    for (auto &r : T.rows) { std::vector<mpz_class> k; for (u32 i = 0; i < T.cols; i++) if (mask >> i & 1) k.push_back(r[i]); auto z = seen.emplace(k, r); if (!z.second && z.first->second != r) { ok = false; break; } }
    return T.functional[mask] = ok;
}
static void propagate(State &S) {
    bool changed = true;
    while (changed) {
        changed = false;
        for (u32 i = 0; i < S.cons.size(); i++) {
            if (!S.dirty[i]) continue;
            if (nowS() > deadline) return;
            S.dirty[i] = 0;
            Poly &P0 = S.cons[i];
            reduceBits(S, P0);
            if (P0.empty()) continue;
            if (isConstP(P0)) throw Contradiction();
            // divide out variables known to be non-zero
            for (bool again = true; again;) {
                again = false;
                for (u32 v : P0.begin()->first) {
                    if (!S.v[v].nz) continue;
                    bool all = true; for (auto &t : P0) if (std::find(t.first.begin(), t.first.end(), v) == t.first.end()) { all = false; break; }
                    if (!all) continue;
                    Poly r; for (auto &t : P0) { Mono m = t.first; m.erase(std::find(m.begin(), m.end(), v)); r[m] = t.second; }
                    P0 = r; again = true; changed = true; break;
                }
                if (isConstP(P0)) throw Contradiction();
            }
            Poly P = P0;
            std::set<u32> vs = varsOf(P);
            if (vs.size() == 1 && !S.sub.count(*vs.begin())) {
                u32 v = *vs.begin(); std::vector<mpz_class> c(degIn(P, v) + 1); for (auto &t : P) c[t.first.size()] = t.second;
                std::vector<mpz_class> roots;
                if (rootsOf(c, roots)) {
                    auto &d = S.v[v].dom;
                    if (S.v[v].nz) roots.erase(std::remove(roots.begin(), roots.end(), mpz_class(0)), roots.end());
                    if (d.has) { std::vector<mpz_class> k; for (auto &r : roots) if (r >= d.lo && r <= d.hi && (d.set.empty() || std::find(d.set.begin(), d.set.end(), r) != d.set.end())) k.push_back(r); roots = k; }
                    if (roots.empty()) throw Contradiction();
                    S.cons[i].clear(); changed = true;
                    if (roots.size() == 1) { doSub(S, v, constP(roots[0])); continue; }
                    d.has = true; d.lo = roots.front(); d.hi = roots.back(); d.set = roots; if (roots[0] != 0) setNz(S, Poly{{{v}, 1}});
                    touch(S, v); continue;
                }
            }
            if (isNz(S, P)) throw Contradiction();
            {   // a product that vanishes with one factor known to be non-zero
                bool zeroed = false;
                for (u32 v : P.begin()->first) {
                    if (S.sub.count(v)) continue;
                    bool all = true; for (auto &t : P) if (std::count(t.first.begin(), t.first.end(), v) != 1) { all = false; break; }
                    if (!all) continue;
                    Poly A, B; splitLin(P, v, A, B);
                    if (isNz(S, A)) { doSub(S, v, Poly()); zeroed = changed = true; break; }
                }
                if (zeroed) continue;
            }
            // facts about being non-zero
            if (P.begin()->first.empty()) {
                for (u32 v : vs) {
                    bool all = true; for (auto &t : P) if (!t.first.empty() && std::find(t.first.begin(), t.first.end(), v) == t.first.end()) { all = false; break; }
                    if (all && !S.v[v].nz) { setNz(S, Poly{{{v}, 1}}); changed = true; }
                    if (all && degIn(P, v) == 1) { Poly A, B; splitLin(P, v, A, B); if (!isNz(S, A)) { setNz(S, A); changed = true; } }
                }
            }
            std::vector<u32> U; for (u32 v : vs) if (!S.v[v].det) U.push_back(v);
            if (U.size() == 1 && degIn(P, U[0]) == 1) {
                Poly A, B; splitLin(P, U[0], A, B);
                if (isNz(S, A)) { lemmaLinear(S, P, U[0], A); setDet(S, U[0]); changed = true; }
            }
            boundsStep(S, P, changed);
            if (U.size() >= 1 && !targets.empty()) { std::vector<u32> U2; for (u32 u : U) if (!S.v[u].det) U2.push_back(u); if (U2.size() >= 2 || (U2.size() == 1 && linearP(P))) if (diffStep(S, P, U2)) { changed = true; S.dirty[i] = 1; } }
        }
        for (auto &l : S.looks) {
            Table &T = tables[l.table];
            if (T.range) {
                Poly &e = l.e[0];
                if (isConstP(e)) { if (!e.empty() && e.begin()->second > T.top) throw Contradiction(); continue; }
                if (e.size() == 1 && e.begin()->first.size() == 1 && e.begin()->second == 1) { changed |= setDom(S, e.begin()->first[0], 0, T.top); continue; }
                // a fresh bounded variable equal to the expression
                bool lin = true; (void)lin;
                u32 a = S.v.size(); S.v.push_back(VS()); S.v[a].dom.has = true; S.v[a].dom.lo = 0; S.v[a].dom.hi = T.top; S.occ.push_back({});
                if (a >= vars.size()) { vars.push_back(Var{"lk" + std::to_string(a)}); }
                Poly q = e; addTerm(q, {a}, -1); addCons(S, q); e = Poly{{{a}, 1}}; changed = true; continue;
            }
            // rows still possible, and columns fixed by others
            u32 mask = 0; for (u32 i = 0; i < l.e.size(); i++) if (detP(S, l.e[i])) mask |= 1u << i;
            if (mask == (1u << l.e.size()) - 1) continue;
            for (u32 i = 0; i < l.e.size(); i++) {
                Poly &e = l.e[i];
                if (e.size() == 1 && e.begin()->first.size() == 1 && e.begin()->second == 1 && !S.v[e.begin()->first[0]].dom.has) {
                    mpz_class lo = T.rows[0][i], hi = lo; for (auto &r : T.rows) { if (r[i] < lo) lo = r[i]; if (r[i] > hi) hi = r[i]; }
                    changed |= setDom(S, e.begin()->first[0], lo, hi);
                }
            }
            if (mask && functional(T, mask)) {
                for (u32 i = 0; i < l.e.size(); i++) if (!(mask >> i & 1)) {
                    std::vector<u32> U; for (u32 v : varsOf(l.e[i])) if (!S.v[v].det) U.push_back(v);
                    if (U.size() == 1 && degIn(l.e[i], U[0]) == 1) { Poly A, B; splitLin(l.e[i], U[0], A, B); if (isNz(S, A)) { setDet(S, U[0]); changed = true; } }
                }
            }
        }
        if (!changed && !targets.empty() && nowS() < deadline) changed = groupStep(S);
    }
}
// all linear equations between bounded variables together, over the integers
static bool feasible(State &S) {
    std::string s = "(set-logic QF_LIA)\n", body; std::set<u32> used; u32 n = 0;
    for (auto &P : S.cons) {
        if (P.empty() || !linearP(P)) continue;
        Poly best; mpz_class bl, bh; bool have = false;
        for (auto &k : scalings(P)) { Poly Q = scale(P, k); mpz_class lo, hi; if (!linBounds(S, Q, lo, hi)) break; if (!have || hi - lo < bh - bl) { best = Q; bl = lo; bh = hi; have = true; } }
        if (!have) continue;
        mpz_class ka, kb; mpz_cdiv_q(ka.get_mpz_t(), bl.get_mpz_t(), p.get_mpz_t()); mpz_fdiv_q(kb.get_mpz_t(), bh.get_mpz_t(), p.get_mpz_t());
        if (ka > kb) throw Contradiction();
        std::string sum; for (auto &t : best) { sum += " " + (t.first.empty() ? intS(cen(t.second)) : "(* " + intS(cen(t.second)) + " v" + std::to_string(t.first[0]) + ")"); if (!t.first.empty()) used.insert(t.first[0]); }
        std::string rhs = "0";
        if (ka != 0 || kb != 0) { std::string k = "k" + std::to_string(n); s += "(declare-const " + k + " Int)\n(assert (and (<= " + intS(ka) + " " + k + ") (<= " + k + " " + intS(kb) + ")))\n"; rhs = "(* " + p.get_str() + " " + k + ")"; }
        body += "(assert (= " + rhs + " (+ 0" + sum + ")))\n"; n++;
    }
    if (n < 2) return true;
    for (u32 v : used) s += "(declare-const v" + std::to_string(v) + " Int)\n(assert (and (<= " + S.v[v].dom.lo.get_str() + " v" + std::to_string(v) + ") (<= v" + std::to_string(v) + " " + S.v[v].dom.hi.get_str() + ")))\n";
    double t0 = nowS(); std::string o = runZ3(s + body + "(check-sat)\n", std::max(1.0, std::min(10.0, deadline - t0)));
    bool u = o.compare(0, 5, "unsat") == 0; uniqCount(u, !u && o.compare(0, 3, "sat"), nowS() - t0);
    return !u;
}
static bool goalMet(const State &S) {
    for (u32 t : targets) {
        if (!S.v[t].det) return false;
        auto it = S.sub.find(t); if (it != S.sub.end() && !detP(S, it->second)) return false;
    }
    for (auto &b : bounds) {
        auto it = S.sub.find(b.first); Poly q = it == S.sub.end() ? Poly{{{b.first}, 1}} : it->second;
        mpz_class lo, hi; if (S.v[b.first].dom.has && S.v[b.first].dom.hi <= b.second) continue;
        if (!linBounds(S, q, lo, hi) || lo < 0 || hi > b.second) return false;
    }
    return !goalInfeasible;
}
static u32 branches;
// drop values of a small domain that no assignment can take
static bool shave(State &S) {
    u32 tried = 0; bool any = false;
    for (u32 v = 0; v < S.v.size(); v++) {
        if (S.v[v].det || S.sub.count(v) || S.v[v].dom.set.empty() || S.v[v].dom.set.size() > 4) continue;
        if (nowS() > deadline || ++tried > 200) break;
        std::vector<mpz_class> keep;
        for (auto &c : S.v[v].dom.set) { State T = S; try { doSub(T, v, constP(c)); propagate(T); keep.push_back(c); } catch (Contradiction &) {} }
        if (keep.empty()) throw Contradiction();
        if (keep.size() == S.v[v].dom.set.size()) continue;
        any = true;
        if (keep.size() == 1) doSub(S, v, constP(keep[0])); else { S.v[v].dom.set = keep; S.v[v].dom.lo = keep.front(); S.v[v].dom.hi = keep.back(); touch(S, v); }
        propagate(S);
        if (S.cons.size() > 400) return true;
    }
    return any;
}
// an open variable with few values: no two of them fit the same values of the determined ones
static bool pairStep(State &S) {
    bool any = false;
    for (u32 u = 0; u < S.v.size(); u++) {
        if (S.v[u].det || S.sub.count(u) || S.v[u].dom.set.size() < 2 || S.v[u].dom.set.size() > 4 || nowS() > deadline) continue;
        std::vector<Poly> ps;
        for (u32 i : S.occ[u]) { const Poly &P = S.cons[i]; if (!degIn(P, u)) continue; bool only = true; for (u32 v : varsOf(P)) if (v != u && !S.v[v].det) only = false; if (only && std::find(ps.begin(), ps.end(), P) == ps.end()) ps.push_back(P); }
        if (ps.empty()) continue;
        bool all = true; auto set = S.v[u].dom.set;
        for (u32 a = 0; a < set.size() && all; a++) for (u32 b = a + 1; b < set.size() && all; b++) {
            State T = S; all = false;
            try { doSub(T, u, constP(set[a])); for (auto &P : ps) addCons(T, subst(P, u, constP(set[b]))); propagate(T); } catch (Contradiction &) { all = true; }
        }
        if (all) { setDet(S, u); any = true; }
    }
    if (any) propagate(S);
    return any;
}
// several open variables in as many equations linear in them: the determinant is not zero
static Poly determinant(const std::vector<std::vector<Poly>> &M, std::vector<u32> rows, u32 col) {
    if (rows.size() == 1) return M[rows[0]][col];
    Poly r; for (u32 i = 0; i < rows.size(); i++) { const Poly &a = M[rows[i]][col]; if (a.empty()) continue; auto rest = rows; rest.erase(rest.begin() + i); r = addP(r, mulP(a, determinant(M, rest, col + 1)), i & 1 ? -1 : 1); }
    return r;
}
static bool determinantStep(State &S) {
    std::map<std::vector<u32>, std::vector<u32>> by;
    for (u32 i = 0; i < S.cons.size(); i++) {
        const Poly &P = S.cons[i]; if (P.empty() || P.size() > 40) continue;
        std::vector<u32> U; for (u32 v : varsOf(P)) if (!S.v[v].det) U.push_back(v);
        if (U.empty() || U.size() > 4) continue;
        bool lin = true; for (auto &t : P) { u32 n = 0; for (u32 v : t.first) if (!S.v[v].det) n++; if (n > 1) lin = false; }
        if (lin) by[U].push_back(i);
    }
    for (auto &kv : by) {
        const auto &U = kv.first; u32 k = U.size(); if (k < 2) continue;
        std::vector<u32> rows; for (auto &o : by) if (std::includes(U.begin(), U.end(), o.first.begin(), o.first.end())) for (u32 i : o.second) if (std::none_of(rows.begin(), rows.end(), [&](u32 j) { return S.cons[j] == S.cons[i]; })) rows.push_back(i);
        if (rows.size() < k || rows.size() > 8) continue;
        std::vector<std::vector<Poly>> M;
        for (u32 i : rows) { std::vector<Poly> row; for (u32 u : U) { Poly A, B; splitLin(S.cons[i], u, A, B); row.push_back(A); } M.push_back(row); }
        std::vector<bool> pick(rows.size()); std::fill(pick.begin(), pick.begin() + k, true);
        do {
            std::vector<u32> idx; for (u32 i = 0; i < rows.size(); i++) if (pick[i]) idx.push_back(i);
            Poly D; try { D = determinant(M, idx, 0); } catch (TooBig &) { continue; }
            if (!isNz(S, D)) continue;
            std::set<u32> vs; std::string s = "(push)\n", ne;
            for (u32 i : idx) for (auto &a : M[i]) for (u32 v : varsOf(a)) vs.insert(v);
            for (u32 v : vs) s += "(declare-const v" + std::to_string(v) + " F)\n";
            auto n1 = [](u32 v) { return "v" + std::to_string(v); };
            for (u32 j = 0; j < k; j++) { s += "(declare-const d" + std::to_string(j) + " F)\n"; ne += " (not (= d" + std::to_string(j) + " (as ff0 F)))"; }
            for (u32 i : idx) { s += "(assert (= (ff.add (as ff0 F)"; for (u32 j = 0; j < k; j++) s += " (ff.mul " + smtFF(M[i][j], n1) + " d" + std::to_string(j) + ")"; s += ") (as ff0 F)))\n"; }
            s += "(assert (not (= " + smtFF(D, n1) + " (as ff0 F))))\n(assert (or" + ne + "))\n";
            if (lemFF.size() < 300) lemFF.push_back(s + "(check-sat)\n(pop)\n");
            for (u32 u : U) setDet(S, u);
            propagate(S); return true;
        } while (std::prev_permutation(pick.begin(), pick.end()));
    }
    return false;
}
// express an open, unbounded variable by the others where an equation gives it with a constant coefficient
static bool eliminate(State &S) {
    for (auto &P : S.cons) {
        if (P.empty() || P.size() > 12) continue;
        for (u32 u : varsOf(P)) {
            if ((S.v[u].det && !detP(S, P)) || S.sub.count(u) || S.v[u].dom.has || degIn(P, u) != 1) continue;
            Poly A, B; splitLin(P, u, A, B); if (!isConstP(A)) continue;
            u32 n = 0; bool ok = true; std::set<u32> seen;
            for (u32 i : S.occ[u]) if (seen.insert(i).second && degIn(S.cons[i], u)) { n++; if (degIn(S.cons[i], u) > 3 || S.cons[i].size() > 40) ok = false; }
            if (!ok || n < 2 || n > 16) continue;
            doSub(S, u, scale(B, mp(-inv(A.begin()->second)))); propagate(S); return true;
        }
    }
    return false;
}
static bool prove(State S, u32 depth) {   // true: goal reached in every case
    try {
        propagate(S);
        if (goalMet(S)) return true;
        if (goalInfeasible && !feasible(S)) return true;
        while (shave(S) || (!targets.empty() && (pairStep(S) || determinantStep(S))) || ((goalInfeasible || !targets.empty()) && eliminate(S))) if (goalMet(S)) return true;
        if (nowS() > deadline || depth == 0 || ++branches > 4000) return false;
        // split on a value both copies share
        std::map<Poly, u32> score;
        auto cand = [&](Poly A, u32 w) {
            if (A.empty() || isConstP(A) || !detP(S, A) || isNz(S, A)) return;
            if (A.size() == 1) { for (u32 v : A.begin()->first) if (!S.v[v].nz) { Poly q; q[{v}] = 1; score[q] += w; return; } return; }
            score[monic(A)] += w;
        };
        for (auto &P : S.cons) {
            if (P.empty()) continue;
            u32 open = 0; for (u32 v : varsOf(P)) if (!S.v[v].det) open++;
            for (u32 v : varsOf(P)) {
                u32 d = degIn(P, v);
                if (S.v[v].det) {
                    if (open || goalInfeasible || !bounds.empty()) {
                        bool all = true; for (auto &t : P) if (std::find(t.first.begin(), t.first.end(), v) == t.first.end()) { all = false; break; }
                        if (all) cand(Poly{{{v}, 1}}, 50);
                        if (S.v[v].dom.has && S.v[v].dom.hi <= 1) cand(Poly{{{v}, 1}}, 5);
                    }
                    continue;
                }
                if (d == 1) { Poly A, B; splitLin(P, v, A, B); cand(A, open == 1 ? 100 : 10); }
            }
            // products of two determined factors that vanish
            if (open == 0 && P.size() > 1 && (goalInfeasible || !targets.empty())) { }
        }
        if (score.empty()) { if (dbg()) { fprintf(stderr, "[uq] stuck, no split; open targets:"); for (u32 t : targets) if (!S.v[t].det) fprintf(stderr, " %s", vars[t].name.c_str()); fprintf(stderr, "\n"); for (auto &P : S.cons) if (!P.empty()) { bool o = false; for (u32 v : varsOf(P)) o |= !S.v[v].det; if (o) fprintf(stderr, "   %s\n", show(P).c_str()); } } return false; }
        Poly best; double bs = -1;
        for (auto &kv : score) { double s = kv.second / (double)(kv.first.size() * kv.first.size()); if (s > bs) { bs = s; best = kv.first; } }
        if (dbg()) fprintf(stderr, "[uq] %*ssplit on %s\n", (int)(14 - depth), "", show(best).c_str());
        {   // zero
            State Z = S; bool closed = false;
            try {
                u32 pick = ~0u;
                for (u32 v : varsOf(best)) if (degIn(best, v) == 1 && !Z.sub.count(v)) { Poly A, B; splitLin(best, v, A, B); if (isConstP(A) && !A.empty() && (pick == ~0u || (!Z.v[v].dom.has && Z.v[pick].dom.has))) pick = v; }
                if (pick != ~0u) { Poly A, B; splitLin(best, pick, A, B); doSub(Z, pick, scale(B, mp(-inv(A.begin()->second)))); }
                else addCons(Z, best);
            } catch (Contradiction &) { closed = true; }
            if (!closed && !prove(std::move(Z), depth - 1)) return false;
        }
        State N = std::move(S);
        try {
            if (best.size() == 1 && best.begin()->first.size() == 1 && N.v[best.begin()->first[0]].dom.has && N.v[best.begin()->first[0]].dom.hi <= 1) doSub(N, best.begin()->first[0], constP(1));
            else setNz(N, best);
            // let constraints notice: coefficients that became non-zero
            for (u32 i = 0; i < N.cons.size(); i++) { for (u32 v : varsOf(best)) if (degIn(N.cons[i], v)) { N.dirty[i] = 1; break; } }
        } catch (Contradiction &) { return true; }
        return prove(std::move(N), depth - 1);
    } catch (Contradiction &) { return true; }
    catch (TooBig &) { return false; }
}

// ---- search for a second assignment ----
static mpz_class evalP(const Poly &P, const std::vector<mpz_class> &x) { mpz_class r = 0; for (auto &t : P) { mpz_class m = t.second; for (u32 v : t.first) m = m * x[v] % p; r += m; } return mp(r); }
static u64 rngS = 0x2545F4914F6CDD1Dull;
static u64 rnd() { rngS ^= rngS << 13; rngS ^= rngS >> 7; rngS ^= rngS << 17; return rngS; }
static mpz_class rndF() { mpz_class r = 0; for (int i = 0; i < 6; i++) { r <<= 64; r += mpz_class((unsigned long)rnd()); } return r % p; }
struct Search {
    std::vector<mpz_class> base, x; std::vector<char> lock; std::vector<std::vector<u32>> occ; std::vector<std::vector<u32>> locc; std::vector<char> freeV; u32 budget; State *root;
    std::vector<std::set<u32>> cv;
    bool lookOk(const Look &l) {
        Table &T = tables[l.table];
        if (T.range) return evalP(l.e[0], x) <= T.top;
        std::vector<mpz_class> r; for (auto &e : l.e) r.push_back(evalP(e, x));
        static std::map<u32, std::set<std::vector<mpz_class>>> idx;
        auto &ix = idx[l.table]; if (ix.empty()) for (auto &q : T.rows) ix.insert(q);
        return ix.count(r) > 0;
    }
    bool all() { for (auto &P : eqs) if (evalP(P, x) != 0) return false; for (auto &l : looks) if (!lookOk(l)) return false; for (auto &r : ranges) if (x[r.first] > r.second) return false; return true; }
    bool goalBroken() { for (u32 t : targets) if (x[t] != base[t]) return true; for (auto &b : bounds) if (x[b.first] > b.second) return true; return goalInfeasible; }
    std::vector<mpz_class> solve(const Poly &P, u32 v) {
        u32 d = degIn(P, v); std::vector<mpz_class> c(d + 1);
        for (auto &t : P) { mpz_class m = t.second; u32 k = 0; for (u32 w : t.first) if (w == v) k++; else m = m * x[w] % p; c[k] = mp(c[k] + m); }
        while (!c.empty() && c.back() == 0) c.pop_back();
        std::vector<mpz_class> r;
        if (c.size() <= 1) return r;
        rootsOf(c, r);
        return r;
    }
    bool repair(std::set<u32> bad, std::set<u32> badL, u32 depth) {
        if (budget == 0 || nowS() > deadline) return false;
        budget--;
        if (bad.empty() && badL.empty()) return all() && goalBroken();
        if (depth == 0) return false;
        auto tryVal = [&](u32 v, const mpz_class &nv) {
            mpz_class old = x[v]; if (nv == old) return false;
            for (auto &r : ranges) if (r.first == v && nv > r.second) return false;
            x[v] = nv; lock[v] = 1;
            std::set<u32> b2 = bad, l2 = badL;
            for (u32 c : occ[v]) if (evalP(eqs[c], x) == 0) b2.erase(c); else b2.insert(c);
            for (u32 c : locc[v]) if (lookOk(looks[c])) l2.erase(c); else l2.insert(c);
            if (repair(b2, l2, depth - 1)) return true;
            x[v] = old; lock[v] = 0; return false;
        };
        if (!bad.empty()) {
            // the constraint with the fewest ways out
            u32 bc = *bad.begin(); size_t bn = ~0ull;
            for (u32 c : bad) { size_t n = 0; for (u32 v : cv[c]) if (freeV[v] && !lock[v]) n++; if (n < bn) { bn = n; bc = c; } }
            if (bn == 0) return false;
            for (u32 v : cv[bc]) if (freeV[v] && !lock[v]) for (auto &nv : solve(eqs[bc], v)) if (tryVal(v, nv)) return true;
            return false;
        }
        u32 lc = *badL.begin(); Look &l = looks[lc]; Table &T = tables[l.table];
        for (u32 i = 0; i < l.e.size(); i++) for (u32 v : varsOf(l.e[i])) if (freeV[v] && !lock[v]) {
            std::vector<mpz_class> cur; for (auto &e : l.e) cur.push_back(evalP(e, x));
            u32 tries = 0;
            if (T.range) { for (mpz_class w : {mpz_class(0), mpz_class(1), T.top}) { Poly q = l.e[i]; addTerm(q, {}, -w); for (auto &nv : solve(q, v)) if (tryVal(v, nv)) return true; } continue; }
            for (auto &r : T.rows) { bool m = true; for (u32 j = 0; j < l.e.size(); j++) if (j != i && r[j] != cur[j]) { m = false; break; } if (!m) continue; Poly q = l.e[i]; addTerm(q, {}, -r[i]); for (auto &nv : solve(q, v)) if (tryVal(v, nv)) return true; if (++tries > 4) break; }
        }
        return false;
    }
    bool run(State &R) {
        root = &R;
        base.clear(); for (auto &v : vars) base.push_back(v.val); 
        occ.assign(vars.size(), {}); locc.assign(vars.size(), {}); cv.clear();
        for (u32 i = 0; i < eqs.size(); i++) { cv.push_back(varsOf(eqs[i])); for (u32 v : cv.back()) occ[v].push_back(i); }
        for (u32 i = 0; i < looks.size(); i++) for (auto &e : looks[i].e) for (u32 v : varsOf(e)) locc[v].push_back(i);
        freeV.assign(vars.size(), 0);
        std::vector<u32> starts;
        bool alsoKnown = !bounds.empty() || goalInfeasible;
        for (u32 v = 0; v < vars.size(); v++) if (alsoKnown || (v < R.v.size() && !vars[v].known && !(R.v[v].det && targets.size()))) freeV[v] = 1;
        for (u32 t : targets) if (freeV[t]) starts.push_back(t);
        for (auto &b : bounds) starts.push_back(b.first);
        for (u32 v = 0; v < vars.size(); v++) if (freeV[v] && (occ[v].size() || locc[v].size()) && std::find(starts.begin(), starts.end(), v) == starts.end()) starts.push_back(v);
        x = base;
        if (goalInfeasible || !all()) {   // nothing satisfying to start from: repair what is broken
            std::set<u32> bad, badL; lock.assign(vars.size(), 0);
            for (u32 i = 0; i < eqs.size(); i++) if (evalP(eqs[i], x) != 0) bad.insert(i);
            for (u32 i = 0; i < looks.size(); i++) if (!lookOk(looks[i])) badL.insert(i);
            for (int round = 0; round < 3; round++) { budget = 3000; if (repair(bad, badL, 400)) return true; x = base; lock.assign(vars.size(), 0); }
            if (goalInfeasible) return false;
        }
        for (int round = 0; round < 3; round++) for (u32 f : starts) {
            if (nowS() > deadline) return false;
            std::vector<mpz_class> cand;
            Dom d = f < R.v.size() ? R.v[f].dom : Dom();
            for (auto &b : bounds) if (b.first == f) { cand.push_back(b.second + 1); cand.push_back(p - 1); cand.push_back(mp(2 * b.second + 1)); }
            if (!d.set.empty() && d.set.size() <= 4) for (auto &s : d.set) cand.push_back(s);
            else { cand.push_back(mp(base[f] + 1)); cand.push_back(mp(base[f] - 1)); cand.push_back(0); if (round) { cand.push_back(mp(base[f] + mpz_class(1) * (int)(rnd() % 1000))); if (!d.has) cand.push_back(rndF()); } }
            for (auto &nv : cand) {
                if (nv == base[f]) continue;
                x = base; lock.assign(vars.size(), 0); x[f] = nv; lock[f] = 1;
                std::set<u32> bad, badL;
                for (u32 c : occ[f]) if (evalP(eqs[c], x) != 0) bad.insert(c);
                for (u32 c : locc[f]) if (!lookOk(looks[c])) badL.insert(c);
                budget = round ? 3000 : 400;
                if (repair(bad, badL, 400)) return true;
            }
        }
        return false;
    }
    // one small variable takes another value, the equations decide the rest
    u32 nodes;
    bool complete(const State &T) {
        if (nodes == 0 || nowS() > deadline) return false;
        nodes--;
        u32 pick = ~0u;
        for (u32 v = vars.size(); v-- > 0;) if (v < T.v.size() && !T.sub.count(v)) { if (!T.v[v].dom.set.empty()) { pick = v; break; } if (pick == ~0u) pick = v; }
        if (pick != ~0u) {
            std::vector<mpz_class> vals{base[pick]}; for (auto &c : T.v[pick].dom.set) if (c != base[pick]) vals.push_back(c);
            for (auto &c : vals) { State U = T; try { doSub(U, pick, constP(c)); propagate(U); if (complete(U)) return true; } catch (Contradiction &) {} }
            return false;
        }
        x = base;
        for (u32 v = 0; v < vars.size(); v++) { auto it = T.sub.find(v); if (it == T.sub.end() || !isConstP(it->second)) return false; x[v] = it->second.empty() ? mpz_class(0) : it->second.begin()->second; }
        return all() && goalBroken();
    }
    bool flip(State R) {
        if (goalInfeasible || vars.size() > 3000) return false;
        try { for (u32 v = 0; v < vars.size(); v++) if (vars[v].known && !R.sub.count(v)) doSub(R, v, constP(base[v])); propagate(R); } catch (Contradiction &) { return false; }
        for (u32 v = vars.size(), tried = 0; v-- > 0 && tried < 24;) {
            if (v >= R.v.size()) continue;
            if (R.sub.count(v) || R.v[v].dom.set.size() < 2 || R.v[v].dom.set.size() > 4) continue;
            tried++;
            for (auto &c : R.v[v].dom.set) { if (c == base[v] || nowS() > deadline) continue; State T = R; try { doSub(T, v, constP(c)); propagate(T); nodes = 3000; if (complete(T)) return true; } catch (Contradiction &) {} }
        }
        return false;
    }
};

// Second way: fix everything determined at its honest value, eliminate linear unknowns, follow every root of what is left.
struct Elim {
    Search *s; u32 budget; bool wantOther;
    struct E { std::vector<Poly> cons; std::map<u32, Poly> sub; };
    bool finish(E &e) {
        s->x = s->base;
        for (auto &kv : e.sub) if (isConstP(kv.second)) s->x[kv.first] = kv.second.empty() ? mpz_class(0) : kv.second.begin()->second;
        for (auto &kv : e.sub) if (!isConstP(kv.second)) s->x[kv.first] = evalP(kv.second, s->x);
        return s->all() && s->goalBroken();
    }
    void apply(E &e, u32 v, const Poly &q) {
        for (auto &P : e.cons) if (degIn(P, v)) { P = subst(P, v, q); if (P.size() > 400) throw TooBig(); }
        for (auto &kv : e.sub) if (degIn(kv.second, v)) { kv.second = subst(kv.second, v, q); if (kv.second.size() > 400) throw TooBig(); }
        e.sub[v] = q;
    }
    bool rec(E e) {
        if (budget == 0 || nowS() > deadline) return false;
        budget--;
        try {
            for (;;) {
                std::vector<Poly> keep; for (auto &P : e.cons) if (!P.empty()) { if (isConstP(P)) return false; keep.push_back(P); } e.cons = keep;
                if (e.cons.empty()) return finish(e);
                // univariate with known roots
                bool moved = false;
                for (auto &P : e.cons) {
                    auto vs = varsOf(P); if (vs.size() != 1) continue;
                    u32 v = *vs.begin(); std::vector<mpz_class> c(degIn(P, v) + 1), r; for (auto &t : P) c[t.first.size()] = t.second;
                    rootsOf(c, r);
                    if (r.empty()) return false;
                    if (r.size() == 1) { apply(e, v, constP(r[0])); moved = true; break; }
                    if (s->base[v] == r[0] && wantOther) std::swap(r[0], r.back());
                    for (auto &x : r) { E f = e; apply(f, v, constP(x)); if (rec(f)) return true; }
                    return false;
                }
                if (moved) continue;
                for (auto &P : e.cons) {
                    u32 best = ~0u;
                    for (u32 v : varsOf(P)) if (degIn(P, v) == 1) { Poly A, B; splitLin(P, v, A, B); if (isConstP(A) && (best == ~0u || s->occ[v].size() < s->occ[best].size())) best = v; }
                    if (best == ~0u) continue;
                    Poly A, B; splitLin(P, best, A, B); Poly q = scale(B, mp(-inv(A.begin()->second)));
                    apply(e, best, q); moved = true; break;
                }
                if (moved) continue;
                // a product that vanishes, or nothing better: guess one variable
                u32 v = *varsOf(e.cons[0]).begin();
                for (auto &P : e.cons) for (u32 w : varsOf(P)) if (s->occ[w].size() > s->occ[v].size()) v = w;
                std::vector<mpz_class> g{s->base[v], 0, 1, mp(s->base[v] + 1), rndF()};
                if (wantOther) std::swap(g[0], g[3]);
                for (auto &x : g) { E f = e; apply(f, v, constP(x)); if (rec(f)) return true; }
                return false;
            }
        } catch (TooBig &) { return false; }
    }
    bool run(State &R, Search &S) {
        s = &S; E e;
        std::vector<char> open(vars.size(), 0);
        for (u32 v = 0; v < vars.size(); v++) open[v] = S.freeV[v];
        for (auto &P : eqs) {
            Poly q; for (auto &t : P) { mpz_class c = t.second; Mono m; for (u32 v : t.first) if (open[v]) m.push_back(v); else c = mp(c * S.base[v]); addTerm(q, m, c); }
            if (!q.empty()) e.cons.push_back(q);
        }
        if (e.cons.size() > 300 || !bounds.empty() || !ranges.empty()) return false;
        for (int k = 0; k < 4; k++) { wantOther = k & 1 ? false : true; budget = 300; E f = e;
            if (k >= 2) { u32 n = 0; for (u32 t : targets) if (open[t]) n++; if (!n) break; u32 w = rnd() % n; for (u32 t : targets) if (open[t] && w-- == 0) { try { apply(f, t, constP(mp(S.base[t] + (k == 2 ? 1 : 7)))); } catch (TooBig &) {} break; } }
            if (rec(f)) return true; }
        return false;
    }
};
static std::map<u32, Poly> polyMemo;
static Poly polyOf(u32 n) {
    auto it = polyMemo.find(n); if (it != polyMemo.end()) return it->second;
    const Node &k = nodes[n]; Poly r;
    switch (k.kind) {
        case FF_CONST: r = constP(cval(n)); break;
        case FF_VAR: { auto v = nodeVar.find(n); if (v == nodeVar.end()) throw TooBig(); r[{v->second}] = 1; break; }
        case FF_ADD: r = addP(polyOf(k.a), polyOf(k.b)); break;
        case FF_SUB: r = addP(polyOf(k.a), polyOf(k.b), -1); break;
        case FF_MUL: r = mulP(polyOf(k.a), polyOf(k.b)); break;
        case FF_NEG: r = scale(polyOf(k.a), -1); break;
        default: throw TooBig();
    }
    return polyMemo[n] = r;
}
static bool broken;
}    // namespace uq
using namespace uq;

static mpz_class lim(const u64 *l) { mpz_class r; if (l) mpz_import(r.get_mpz_t(), (mpz_sizeinbase(p.get_mpz_t(), 2) + 63) / 64, -1, 8, 0, 0, l); return r; }
extern "C" {
void __sx_uq_begin(u32 f) noexcept {
    p = fields[f]; half = p / 2; vars.clear(); nodeVar.clear(); eqs.clear(); looks.clear(); tables.clear(); targets.clear(); bounds.clear(); ranges.clear(); goalInfeasible = false;
    polyMemo.clear(); lemFF.clear(); lemInt.clear(); broken = false; branches = 0;
}
u32 __sx_uq_var(u32 node, bool known, const char *name, const u64 *val) noexcept { u32 i = vars.size(); Var v; v.name = name; v.known = known; v.val = lim(val); v.node = node; vars.push_back(v); nodeVar[node] = i; return i; }
void __sx_uq_eq(u32 node, const u64 *c) noexcept { try { Poly P = node ? polyOf(node) : constP(lim(c)); if (!P.empty()) eqs.push_back(P); } catch (TooBig &) { broken = true; } }
void __sx_uq_table(u32 id, u32 cols, u64 nrows, const u64 *v) noexcept {
    Table &T = tables[id]; T.cols = cols; u32 n = (mpz_sizeinbase(p.get_mpz_t(), 2) + 63) / 64;
    std::set<mpz_class> one;
    for (u64 r = 0; r < nrows; r++) { std::vector<mpz_class> row; for (u32 c = 0; c < cols; c++) row.push_back(lim(v + (r * cols + c) * n)); T.rows.push_back(row); if (cols == 1) one.insert(row[0]); }
    if (cols == 1 && !one.empty() && *one.begin() == 0 && *one.rbegin() == one.size() - 1) { T.range = true; T.top = *one.rbegin(); }
}
void __sx_uq_lookup(u32 id, u32 cols, const u32 *ns, const u64 *cs) noexcept {
    try { Look l; l.table = id; u32 n = (mpz_sizeinbase(p.get_mpz_t(), 2) + 63) / 64; for (u32 i = 0; i < cols; i++) l.e.push_back(ns[i] ? polyOf(ns[i]) : constP(lim(cs + i * n))); looks.push_back(l); } catch (TooBig &) { broken = true; }
}
void __sx_uq_target(u32 v) noexcept { targets.push_back(v); }
void __sx_uq_bound(u32 v, const u64 *hi) noexcept { bounds.push_back({v, lim(hi)}); }
void __sx_uq_range(u32 v, const u64 *hi) noexcept { ranges.push_back({v, lim(hi)}); }
void __sx_uq_infeasible() noexcept { goalInfeasible = true; }
// 0 decided, 1 not decided; does not return when a second assignment exists
u32 __sx_uq_run(const char *msg, double seconds) noexcept {
    double t0 = nowS(); deadline = t0 + seconds;
    State S; S.v.resize(vars.size()); S.occ.resize(vars.size());
    bool ok = false; State R;
    try {
        for (u32 i = 0; i < vars.size(); i++) S.v[i].det = vars[i].known;
        for (auto &P : eqs) addCons(S, P);
        S.looks = looks;
        for (auto &r : ranges) setDom(S, r.first, 0, r.second);
        R = S;
        ok = !broken && prove(S, 14);
        if (!ok) try { propagate(R); } catch (...) {}
    } catch (Contradiction &) { ok = true; }
    if (ok) {
        u64 un = 0, uk = 0; double z0 = nowS();
        auto ask = [&](std::vector<std::string> &ls, const std::string &head) {
            for (size_t i = 0; i < ls.size(); i += 100) {
                std::string s = head; for (size_t j = i; j < ls.size() && j < i + 100; j++) s += ls[j];
                std::string o = runZ3(s, 20); size_t pos = 0, n = std::min<size_t>(100, ls.size() - i), got = 0;
                while (pos < o.size()) { size_t e = o.find('\n', pos); if (e == std::string::npos) e = o.size(); std::string w = o.substr(pos, e - pos); if (w == "unsat") { un++; got++; } else if (w == "sat") { fprintf(stderr, "[uq] Z3 rejects a step\n"); ok = false; got++; } pos = e + 1; }
                if (got < n) uk += n - got;
            }
        };
        ask(lemFF, "(set-logic QF_FF)\n(define-sort F () (_ FiniteField " + p.get_str() + "))\n");
        ask(lemInt, "(set-logic QF_LIA)\n");
        uniqCount(un, uk, nowS() - z0);
        if (dbg()) fprintf(stderr, "[uq] %s: proved, %u branches, %zu+%zu steps checked by z3 (%llu unsat, %llu unanswered), %.2fs\n", msg, branches, lemFF.size(), lemInt.size(), (unsigned long long)un, (unsigned long long)uk, nowS() - t0);
        if (ok) { uniqProved(); return 0; }
    }
    size_t nv = 0; for (auto &v : vars) { if (v.name.compare(0, 2, "lk") == 0 && v.node == 0) break; nv++; }
    vars.resize(nv);
    deadline = nowS() + seconds / 2;
    Search s;
    bool found = s.run(R);
    if (!found) { deadline = nowS() + seconds; found = s.flip(R); }
    if (!found) { deadline = nowS() + seconds; Elim e; found = e.run(R, s); }
    if (found) {
        std::map<std::string, mpz_class> cells; for (u32 i = 0; i < vars.size(); i++) if (s.x[i] != s.base[i]) cells[vars[i].name] = s.x[i];
        uniqViolation(msg, cells);
    }
    if (dbg()) fprintf(stderr, "[uq] %s: open (%u branches) %.2fs\n", msg, branches, nowS() - t0);
    uniqUnknown(msg);
    return 1;
}
}
}    // namespace sxe
