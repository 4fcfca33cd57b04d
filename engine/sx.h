// Expression DAG shared by the runtime and the query back ends.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <gmpxx.h>

namespace sxe {
using u8 = uint8_t; using u32 = uint32_t; using u64 = uint64_t;

enum Kind : u8 {
    K_NONE, CONST, VAR, CAT, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, SHL, LSHR, ASHR, AND, OR, XOR, ITE,
    EQ, ULT, ULE, SLT, SLE, SEXT,
    // finite-field sort (Node::w is the field index)
    FF_CONST, FF_VAR, FF_ADD, FF_SUB, FF_MUL, FF_NEG, FF_INV, FF_SQRT, FF_ITE, FF_OF_BV,
    // back to bit-vectors
    FF_EQ, BV_OF_FF, FF_ISSQ
};
struct Seg { u32 n, hi, lo; };
struct Node { u8 kind; u32 w; u32 a, b, c; u64 v; u64 cv; u32 big; };
//  BV constants: value in cv (w <= 64) or bigs[big]; VAR: v = input index; CAT: v = index in the segment pool

extern std::vector<Node> nodes;
extern std::vector<std::vector<Seg>> catPool;
extern std::vector<mpz_class> bigs;
struct Input { std::string name; bool ff; u32 w; mpz_class lo, hi; u32 node; };
extern std::vector<Input> inputs;
extern std::vector<mpz_class> fields;

inline bool isFF(const Node &n) { return n.kind >= FF_CONST && n.kind <= FF_OF_BV; }
mpz_class cval(u32 n);
u32 mkConst(u32 w, const mpz_class &v);
u32 mkConst64(u32 w, u64 v);
u32 mkExtract(u32 n, u32 hi, u32 lo);
u32 mkCat(const std::vector<Seg> &s);
u32 mkZext(u32 n, u32 w);
u32 mkSext(u32 n, u32 w);
u32 mkBin(u8 kind, u32 a, u32 b);
u32 mkIte(u32 c, u32 a, u32 b);
u32 mkNot1(u32 a);
u32 mkAnd1(u32 a, u32 b);
bool isConst(u32 n);

u32 ffConst(u32 f, const mpz_class &v);
u32 ffBin(u8 kind, u32 a, u32 b);
u32 ffUn(u8 kind, u32 a);
u32 ffOfBv(u32 f, u32 bv);
u32 bvOfFf(u32 ff, u32 w);
u32 ffEq(u32 a, u32 b);
u32 ffIte(u32 c, u32 a, u32 b);

struct Verdict { enum R { UNSAT, SAT, UNKNOWN } r; std::vector<std::pair<std::string, mpz_class>> model; };
struct Stats { u64 queries = 0, sat = 0, unsat = 0, unknown = 0, trivial = 0; double solver_s = 0; };
extern Stats stats;
// text back end (finite fields / integers), engine/sx_ff.cpp
Verdict solveText(const std::vector<u32> &conds, double timeout_s, bool wantModel);
bool needsText(u32 n);
}
