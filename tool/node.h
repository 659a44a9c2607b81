// Value domain of the abstract interpreter: hash-consed symbolic values (Herbrand terms over the analysis
// inputs) in a normal form, with ranges, known-zero bits, definedness, exact finite functions of one small
// input ("tables"), and random-interpretation fingerprints.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <set>
#include <bitset>
#include <algorithm>
#include <functional>
#include <memory>

typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8; typedef int64_t i64;
typedef unsigned __int128 u128;

enum Op : u8 { CONST, ATOM, UNDEF, PTR, EXTRACT, CONCAT, ADD, MUL, UDIV, SDIV, UREM, SREM, SHL, LSHR, ASHR,
    AND, OR, XOR, EQ, ULT, SLT, ITE, SELECT, TABLE, SEXT, FOP, UF, AGG };
extern const char *opname[];

enum { LANES = 6 };

struct Node;
typedef std::bitset<256> Bits;
struct AtomInfo { std::string name; bool tab; Bits dom; };

struct Node {
    Op op; u8 w; bool undef; bool cleaf; // cleaf: ITE tree with constant leaves
    u32 id; u32 n; u64 k; // k: const value / object id / extract lo / atom index / UF code
    u64 h; Node *next;
    u64 umin, umax, kz; // range, known-zero bits
    Node *dep; // unique tabulated atom, or DEPMULTI
    u32 nconds; // saturating: data-dependent choices inside
    Node **kid; u64 *tbl;
    u64 fp[LANES];
};
extern Node *const DEPMULTI;

static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sx(u64 v, unsigned w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }

Node *mkConst(u64 v, unsigned w);
Node *mkAtom(const std::string &name, unsigned w, bool tab = false, const Bits *dom = nullptr);
Node *mkUndef(unsigned w);
Node *mkPtr(u64 obj, Node *off);
Node *mkExtract(Node *n, unsigned lo, unsigned w);
Node *mkConcat(const std::vector<Node *> &lowToHigh);
Node *mkBin(Op op, Node *a, Node *b);
Node *mkSub(Node *a, Node *b);
Node *mkNot(Node *a);
Node *mkEq(Node *a, Node *b);
Node *mkUlt(Node *a, Node *b);
Node *mkSlt(Node *a, Node *b);
Node *mkIte(Node *c, Node *a, Node *b);
Node *mkZext(Node *a, unsigned w);
Node *mkSext(Node *a, unsigned w);
Node *mkSelect(const std::vector<Node *> &elems, Node *idx);
Node *mkUF(Op op, u64 code, unsigned w, const std::vector<Node *> &kids);
Node *mkAgg(const std::vector<Node *> &kids);
static inline bool isC(Node *n) { return n->op == CONST; }
static inline Node *mkBool(bool b) { return mkConst(b, 1); }
std::string show(Node *n, int depth = 3);
extern std::vector<AtomInfo> atoms; // by k of ATOM
u64 nodeCount();
// evaluate the DAG under a valuation of atoms (random interpretation with adjusted valuations)
typedef std::unordered_map<Node *, u64> Valuation;
u64 evalDag(Node *n, int lane, const Valuation &ov, std::unordered_map<Node *, u64> &memo);
void collectConds(Node *n, std::vector<Node *> &out, std::unordered_set<Node *> &seen, size_t limit);
Bits domainOf(Node *atom);
u64 valAt(Node *n, Node *atom, unsigned v); // value of n, whose only input is the tabulated atom, at atom=v
