// sv: abstract interpreter over LLVM IR. It evaluates library code on abstract inputs: every branch whose direction
// the abstract state does not determine is analysed on both sides and the two abstract states are joined at the
// branch's immediate postdominator. Values are the value-graph terms of node.h. Nothing is compiled to run, no path
// is enumerated and no solver is called.
#include "node.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Support/raw_ostream.h"
#include <sys/wait.h>
#include <csignal>
#include <ctime>
#include <sys/resource.h>
#include <unistd.h>
#include <pthread.h>
#include <cmath>
using namespace llvm;

// ---------------------------------------------------------------- results
struct Undecided { std::string why; };
struct JobAbort {};
struct Viol { std::string kind, msg, where, trace; };
static std::vector<Viol> viols, notes;
static u64 nInstr, nEqProven, nEqRI, nTrue, nDef, nAccess, nFork, nCases, nCalls;
static std::set<Function *> seenFns;
static std::string curCase;
static u64 instrBudget = 1500000000ull;
static volatile sig_atomic_t stopNow = 0; // set when the time for this job is used up
static void onStop(int) { stopNow = 1; }
static int tier = 0;
static std::vector<std::string> srcPrefixes; // directories whose functions count as the library's

static std::string jstr(const std::string &s) {
    std::string o = "\""; char b[8];
    for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
    return o + "\"";
}

// ---------------------------------------------------------------- memory
enum Kind : u8 { K_STACK, K_MALLOC, K_NEW, K_NEWARR, K_GLOBAL, K_SPEC, K_FUNC, K_EXC };
struct Cell { Node *n; u32 lo; u32 loc; };
struct Obj { u64 size; Kind kind; bool ro, freed; u32 loc; const char *name; std::vector<Cell> b; };
typedef std::shared_ptr<Obj> ObjP;
static std::vector<ObjP> baseObjs; // by id; null for dynamic objects
static std::vector<const Value *> objGlobal;
static u64 dynCount = 0;

struct State {
    std::unordered_map<u32, ObjP> mem;
    std::map<Node *, Bits> masks;
    std::vector<std::pair<Node *, bool>> path;
};
struct Unw { Node *c = nullptr; State st; Node *exc = nullptr; u64 type = 0; };

static std::vector<const Instruction *> locs(1, nullptr);
static std::unordered_map<const Instruction *, u32> locIds;
static u32 locOf(const Instruction *I) { auto &x = locIds[I]; if (!x) { x = (u32)locs.size(); locs.push_back(I); } return x; }
static std::string fnName(const Function *F) {
    if (!F) return "?";
    std::string d = demangle(F->getName().str()), o; int ang = 0; // drop template arguments and parameters
    for (size_t i = 0; i < d.size(); i++) { char c = d[i]; if (c == '<' && i && d.compare(i ? i - 1 : 0, 9, "operator<") != 0) { ang++; continue; } if (c == '>' && ang) { ang--; continue; } if (ang) continue; if (c == '(' && d.compare(i, 11, "(anonymous ") != 0) break; o += c; }
    size_t sp = o.rfind(' '); if (sp != std::string::npos && o.find("operator") == std::string::npos && o.find("(anonymous") == std::string::npos) o = o.substr(sp + 1);
    return o;
}
static std::string where(const Instruction *I) {
    if (!I) return "?";
    std::string s = "?";
    if (DILocation *L = I->getDebugLoc().get()) { s = (L->getFilename() + ":" + Twine(L->getLine())).str(); }
    return s + " in " + fnName(I->getFunction());
}
static std::vector<const Instruction *> callStack;
static const Instruction *curI = nullptr;
static bool inLibrary(const Function *F) {
    DISubprogram *sp = F->getSubprogram(); if (!sp) return false;
    std::string f = sp->getFilename().str(); if (f.empty() || f[0] != '/') f = (sp->getDirectory() + "/" + f).str();
    for (auto &p : srcPrefixes) if (f.compare(0, p.size(), p) == 0) return true;
    return false;
}
static std::string traceStr() {
    std::string t; int n = 0;
    for (size_t i = callStack.size(); i-- > 0 && n < 12; n++) t += " <- " + where(callStack[i]);
    return t;
}
static void report(const std::string &kind, const std::string &msg, const Instruction *at, bool fatal) {
    Viol v; v.kind = kind; v.msg = msg + (curCase.empty() ? "" : " [case: " + curCase + "]"); v.where = where(at);
    // nearest library frame
    if (at && !inLibrary(at->getFunction())) for (size_t i = callStack.size(); i-- > 0;) if (inLibrary(callStack[i]->getFunction())) { v.where = where(callStack[i]) + " (through " + fnName(at->getFunction()) + ")"; break; }
    v.trace = where(curI) + traceStr();
    viols.push_back(v);
    if (fatal || viols.size() > 8) throw JobAbort();
}

// findings that do not stop the analysis, one per place
static std::set<std::string> noted;
static void note(const std::string &kind, const std::string &msg, const Instruction *at) {
    const Instruction *lib = at; if (at && !inLibrary(at->getFunction())) for (size_t i = callStack.size(); i-- > 0;) if (inLibrary(callStack[i]->getFunction())) { lib = callStack[i]; break; }
    if (noted.size() > 12 || !noted.insert(kind + where(lib)).second) return;
    Viol v; v.kind = kind; v.msg = msg + (curCase.empty() ? "" : " [case: " + curCase + "]"); v.where = where(lib) + (lib != at ? " (through " + fnName(at->getFunction()) + ")" : ""); v.trace = where(curI) + traceStr();
    notes.push_back(v);
}
static bool libOnStack() { if (curI && inLibrary(curI->getFunction())) return true; for (auto *c : callStack) if (inLibrary(c->getFunction())) return true; return false; }
static int oblivious = 0;
static void oblNote(const char *what) { if (oblivious && libOnStack()) note("content-dependent", std::string(what) + " depends on the contents of the input", curI); }

// ---------------------------------------------------------------- witnesses
static u64 rngState = 88172645463325252ull;
static u64 rnd() { rngState ^= rngState << 13; rngState ^= rngState >> 7; rngState ^= rngState << 17; return rngState; }

static Node *uniqueDep(Node *n) { return n->dep && n->dep != DEPMULTI ? n->dep : nullptr; }
struct Env { int lane; Valuation v; std::unordered_map<Node *, u64> memo; u64 eval(Node *n) { return evalDag(n, lane, v, memo); } };

static u64 searchSteps; // bounds the search for one witness
static bool invert(Node *x, u64 target, Env &e, int depth = 0);
static bool force(Node *c, bool want, Env &e, int depth = 0) {
    if (depth > 12 || ++searchSteps > 1000) return false;
    if (isC(c)) return (c->k != 0) == want;
    e.memo.clear();
    if ((e.eval(c) != 0) == want) return true;
    switch (c->op) {
    case XOR: { bool flip = false; Node *o = nullptr; for (u32 i = 0; i < c->n; i++) { if (isC(c->kid[i])) flip ^= c->kid[i]->k & 1; else if (!o) o = c->kid[i]; else return false; } return o && force(o, want ^ flip, e, depth + 1); }
    case AND: if (want) { for (u32 i = 0; i < c->n; i++) if (!force(c->kid[i], true, e, depth + 1)) return false; return true; }
        for (u32 i = 0; i < c->n; i++) if (force(c->kid[i], false, e, depth + 1)) return true; return false;
    case OR: if (!want) { for (u32 i = 0; i < c->n; i++) if (!force(c->kid[i], false, e, depth + 1)) return false; return true; }
        for (u32 i = 0; i < c->n; i++) if (force(c->kid[i], true, e, depth + 1)) return true; return false;
    case ITE: for (u32 i = 0; i < 2; i++) { if (force(c->kid[0], i == 0, e, depth + 1) && force(c->kid[i + 1], want, e, depth + 1)) { e.memo.clear(); if ((e.eval(c) != 0) == want) return true; } } return false;
    case TABLE: { Node *a = c->kid[0]; Bits d = domainOf(a); u64 s = rnd(); for (unsigned i = 0; i < (1u << a->w); i++) { unsigned v = (unsigned)((i + s) & maskw(a->w)); if (d[v] && (c->tbl[v] != 0) == want) { e.v[a] = v; e.memo.clear(); return true; } } return false; }
    case ATOM: e.v[c] = want; e.memo.clear(); return true;
    case EXTRACT: return invert(c, want, e, depth + 1);
    case EQ: for (int t = 0; t < 2; t++) { Node *x = c->kid[t], *y = c->kid[1 - t]; if (isC(x)) continue; u64 yv = e.eval(y); u64 tv = want ? yv : (rnd() & maskw(x->w)); if (!want && tv == yv) tv ^= 1; Env save = e; if (invert(x, tv, e, depth + 1)) { e.memo.clear(); if ((e.eval(c) != 0) == want) return true; } e = save; e.memo.clear(); } return false;
    case ULT: case SLT: {
        for (int t = 0; t < 2; t++) {
            Node *x = c->kid[t], *y = c->kid[1 - t]; if (isC(x)) continue;
            u64 m = maskw(x->w), b = e.eval(y);
            std::vector<u64> cand = {b, (b - 1) & m, (b + 1) & m, 0, m, m >> 1, (m >> 1) + 1};
            for (u64 tv : cand) { Env save = e; if (invert(x, tv, e, depth + 1)) { e.memo.clear(); if ((e.eval(c) != 0) == want) return true; } e = save; e.memo.clear(); }
        }
        return false; }
    default: return false;
    }
}
static bool invert(Node *x, u64 t, Env &e, int depth) {
    if (depth > 14 || ++searchSteps > 1000) return false;
    t &= maskw(x->w);
    if (isC(x)) return x->k == t;
    switch (x->op) {
    case ATOM: if (atoms[x->k].tab && !domainOf(x)[t]) return false; e.v[x] = t; e.memo.clear(); return true;
    case EXTRACT: { Node *a = x->kid[0]; u64 cur = e.eval(a); u64 m = maskw(x->w) << x->k; return invert(a, (cur & ~m) | (t << x->k), e, depth + 1); }
    case CONCAT: { unsigned sh = 0; for (u32 i = 0; i < x->n; i++) { if (!invert(x->kid[i], t >> sh, e, depth + 1)) return false; sh += x->kid[i]->w; } return true; }
    case SEXT: return invert(x->kid[0], t & maskw(x->kid[0]->w), e, depth + 1);
    case XOR: case ADD: {
        for (u32 i = 0; i < x->n; i++) { Node *k = x->kid[i]; if (isC(k) || k->op == MUL) continue;
            u64 rest = 0; for (u32 j = 0; j < x->n; j++) if (j != i) { if (x->op == XOR) rest ^= e.eval(x->kid[j]); else rest += e.eval(x->kid[j]); }
            Env save = e; if (invert(k, x->op == XOR ? t ^ rest : t - rest, e, depth + 1)) { e.memo.clear(); if (e.eval(x) == t) return true; } e = save; e.memo.clear(); }
        return false; }
    case TABLE: { Node *a = x->kid[0]; Bits d = domainOf(a); for (unsigned v = 0; v < (1u << a->w); v++) if (d[v] && x->tbl[v] == t) { e.v[a] = v; e.memo.clear(); return true; } return false; }
    case ITE: for (int i = 1; i <= 2; i++) { Env save = e; if (invert(x->kid[i], t, e, depth + 1) && force(x->kid[0], i == 1, e, depth + 1)) { e.memo.clear(); if (e.eval(x) == t) return true; } e = save; e.memo.clear(); } return false;
    case AND: case OR: case UDIV: case UREM: case SDIV: case SREM: case MUL:
        if (x->n == 2) for (int i = 0; i < 2; i++) { Node *k = x->kid[i], *o = x->kid[1 - i]; if (isC(k)) continue; u64 ov = e.eval(o);
            std::vector<u64> cand = {t}; if (x->op == UDIV || x->op == SDIV) { if (i == 0) cand = {t * ov}; else continue; } if (x->op == MUL && ov) cand = {t / ov};
            if ((x->op == UREM || x->op == SREM) && i) continue;
            for (u64 c : cand) { Env save = e; if (invert(k, c, e, depth + 1)) { e.memo.clear(); if (e.eval(x) == t) return true; } e = save; e.memo.clear(); } }
        return false;
    default: return false;
    }
}

// does pred hold for some valuation that satisfies the path conditions?
static bool witness(const State &s, const std::function<bool(Env &)> &pred, std::vector<std::function<void(Env &)>> tweaks = {}) {
    u64 total = 0;
    for (int round = 0; round < (int)(24 + 4 * tweaks.size()); round++) {
        Env e; e.lane = round % LANES; if (searchSteps > 1000) searchSteps = 1000; total += searchSteps; searchSteps = 0; if (total > 12000) break;
        for (auto &m : s.masks) { unsigned sz = 1u << m.first->w; unsigned st = (unsigned)(rnd() % sz); for (unsigned i = 0; i < sz; i++) { unsigned v = (st + i) % sz; if (m.second[v]) { e.v[m.first] = v; break; } } }
        if (round >= LANES && !tweaks.empty()) { tweaks[(size_t)(round - LANES) % tweaks.size()](e); e.memo.clear(); }
        for (int it = 0; it < 4; it++) { bool all = true; for (auto &p : s.path) if ((e.eval(p.first) != 0) != p.second) { all = false; force(p.first, p.second, e); e.memo.clear(); } if (all) break; }
        bool ok = true; e.memo.clear();
        for (auto &p : s.path) if ((e.eval(p.first) != 0) != p.second) { ok = false; break; }
        if (ok) for (auto &m : s.masks) if (!m.second[e.eval(m.first)]) { ok = false; break; }
        if (ok && pred(e)) return true;
    }
    return false;
}
static bool feasible(const State &s) { if (s.path.empty()) return true; return witness(s, [](Env &) { return true; }); }

static bool taint(Node *n, Env &e, std::unordered_map<Node *, bool> &memo) {
    if (!n->undef) return false;
    if (n->op == UNDEF) return true;
    auto it = memo.find(n); if (it != memo.end()) return it->second;
    bool r = false;
    if (n->op == ITE) r = taint(n->kid[0], e, memo) || taint(n->kid[e.eval(n->kid[0]) ? 1 : 2], e, memo);
    else if (n->op == SELECT) { if (taint(n->kid[n->n - 1], e, memo)) r = true; else { u64 i = e.eval(n->kid[n->n - 1]); r = i < n->n - 1 && taint(n->kid[i], e, memo); } }
    else if (n->op == AND && n->w == 1) { bool zero = false; for (u32 i = 0; i < n->n; i++) { if (taint(n->kid[i], e, memo)) r = true; else if (!e.eval(n->kid[i])) zero = true; } if (zero) r = false; }
    else if (n->op == OR && n->w == 1) { bool one = false; for (u32 i = 0; i < n->n; i++) { if (taint(n->kid[i], e, memo)) r = true; else if (e.eval(n->kid[i])) one = true; } if (one) r = false; }
    else for (u32 i = 0; i < n->n && !r; i++) r = taint(n->kid[i], e, memo);
    return memo[n] = r;
}
static bool undefWitness(Node *n, const State &s) {
    if (!n->undef) return false;
    std::vector<Node *> conds; std::unordered_set<Node *> seen; collectConds(n, conds, seen, 64);
    std::vector<std::function<void(Env &)>> tw;
    for (Node *c : conds) { tw.push_back([c](Env &e) { force(c, true, e); }); tw.push_back([c](Env &e) { force(c, false, e); }); }
    return witness(s, [&](Env &e) { std::unordered_map<Node *, bool> m; return taint(n, e, m); }, tw);
}
static std::string showEnv(Env &e, Node *n) {
    std::string s; std::vector<Node *> st{n}; std::unordered_set<Node *> seen; int c = 0; char b[32];
    while (!st.empty() && c < 10) { Node *x = st.back(); st.pop_back(); if (!seen.insert(x).second || seen.size() > 20000) continue; if (x->op == ATOM) { snprintf(b, 32, "=0x%llx ", (unsigned long long)e.eval(x)); s += atoms[x->k].name + b; c++; } for (u32 i = 0; i < x->n; i++) st.push_back(x->kid[i]); }
    return s;
}

// ---------------------------------------------------------------- compiled form
struct Opnd { Node *c; int r; };
struct Ins { unsigned op; Instruction *I; int dst; unsigned w; std::vector<Opnd> o; int slot; bool wide; u64 size; i64 gepOff; std::vector<std::pair<i64, Opnd>> gep; int t1, t2; };
struct Blk { std::vector<Ins> ins; std::vector<Ins> phis; std::vector<int> succ; };
struct Fn { Function *F; bool lib; std::vector<Blk> blks; std::map<const BasicBlock *, int> bidx; int nregs; std::vector<int> ipdom; std::vector<char> isSlot; std::vector<unsigned> slotW; };
static std::unordered_map<Function *, Fn *> fns;
static std::unordered_map<const Value *, u32> globalIds;
static const DataLayout *DL;
static Module *M;

static unsigned typeW(Type *t) {
    if (t->isIntegerTy()) { unsigned w = t->getIntegerBitWidth(); if (w > 128) throw Undecided{"integer wider than 128 bits"}; return w > 64 ? 0 : w; }
    if (t->isPointerTy()) return 64; if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64;
    if (t->isVoidTy() || t->isAggregateType()) return 0;
    throw Undecided{"unsupported type"};
}
static u32 globalId(const Value *g);
static Node *constNode(Constant *c);
// integers of 65 to 128 bits are pairs {low 64 bits, the rest}
static unsigned wideW(Type *t) { return t->isIntegerTy() && t->getIntegerBitWidth() > 64 ? t->getIntegerBitWidth() - 64 : 0; }
static Node *undefOf(Type *t) {
    if (unsigned h = wideW(t)) return mkAgg({mkUndef(64), mkUndef(h)});
    if (t->isStructTy()) { std::vector<Node *> k; for (unsigned i = 0; i < t->getStructNumElements(); i++) k.push_back(undefOf(t->getStructElementType(i))); return mkAgg(k); }
    if (t->isArrayTy()) { std::vector<Node *> k; for (u64 i = 0; i < t->getArrayNumElements(); i++) k.push_back(undefOf(t->getArrayElementType())); return mkAgg(k); }
    return mkUndef(typeW(t));
}
// ---- arithmetic on integers of 65 to 128 bits
static Node *wide(Node *lo, Node *hi, unsigned h) { return mkAgg({lo, hi->w == h ? hi : hi->w > h ? mkExtract(hi, 0, h) : mkZext(hi, h)}); }
static Node *mulHi(Node *a, Node *b) { // upper half of the product of two 64-bit values
    if (isC(a) && isC(b)) return mkConst((u64)(((u128)a->k * b->k) >> 64), 64);
    if (!(((u128)a->umax * b->umax) >> 64)) return mkConst(0, 64);
    Node *m = mkConst(0xffffffff, 64), *s = mkConst(32, 64), *al = mkBin(AND, a, m), *ah = mkBin(LSHR, a, s), *bl = mkBin(AND, b, m), *bh = mkBin(LSHR, b, s);
    Node *t = mkBin(ADD, mkBin(MUL, ah, bl), mkBin(LSHR, mkBin(MUL, al, bl), s)), *u = mkBin(ADD, mkBin(MUL, al, bh), mkBin(AND, t, m));
    return mkBin(ADD, mkBin(ADD, mkBin(MUL, ah, bh), mkBin(LSHR, t, s)), mkBin(LSHR, u, s));
}
static Node *wideAdd(Node *a, Node *b) { unsigned h = a->kid[1]->w; Node *lo = mkBin(ADD, a->kid[0], b->kid[0]); return mkAgg({lo, mkBin(ADD, mkBin(ADD, a->kid[1], b->kid[1]), h > 1 ? mkZext(mkUlt(lo, a->kid[0]), h) : mkUlt(lo, a->kid[0]))}); }
static Node *wideSub(Node *a, Node *b) { unsigned h = a->kid[1]->w; Node *c = mkUlt(a->kid[0], b->kid[0]); return mkAgg({mkSub(a->kid[0], b->kid[0]), mkSub(mkSub(a->kid[1], b->kid[1]), h > 1 ? mkZext(c, h) : c)}); }
static Node *wideUlt(Node *a, Node *b, bool sign) { return mkBin(OR, sign ? mkSlt(a->kid[1], b->kid[1]) : mkUlt(a->kid[1], b->kid[1]), mkBin(AND, mkEq(a->kid[1], b->kid[1]), mkUlt(a->kid[0], b->kid[0]))); }
static Node *wideEq(Node *a, Node *b) { return mkBin(AND, mkEq(a->kid[0], b->kid[0]), mkEq(a->kid[1], b->kid[1])); }
static bool wideIns(const Instruction *I) {
    switch (I->getOpcode()) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor:
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::ICmp: case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr:
    case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::Switch: return wideW(I->getType()) || (I->getNumOperands() && wideW(I->getOperand(0)->getType()));
    default: return false; }
}
static Node *constNode(Constant *c) {
    if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 128) throw Undecided{"wide constant"}; if (unsigned h = wideW(c->getType())) return mkAgg({mkConst(ci->getValue().extractBitsAsZExtValue(64, 0), 64), mkConst(ci->getValue().extractBitsAsZExtValue(h, 64), h)}); return mkConst(ci->getZExtValue(), ci->getBitWidth()); }
    if (isa<ConstantPointerNull>(c)) return mkConst(0, 64);
    if (auto *cf = dyn_cast<ConstantFP>(c)) return mkConst(cf->getValueAPF().bitcastToAPInt().getZExtValue(), typeW(c->getType()));
    if (isa<UndefValue>(c)) return undefOf(c->getType());
    if (auto *ga = dyn_cast<GlobalAlias>(c)) return constNode(ga->getAliasee());
    if (isa<GlobalValue>(c)) return mkPtr(globalId(c), mkConst(0, 64));
    if (c->getType()->isAggregateType()) { std::vector<Node *> k; unsigned n = c->getType()->isStructTy() ? c->getType()->getStructNumElements() : (unsigned)c->getType()->getArrayNumElements(); for (unsigned i = 0; i < n; i++) k.push_back(constNode(c->getAggregateElement(i))); return mkAgg(k); }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: { APInt off(64, 0); auto *g = cast<GEPOperator>(ce); if (!g->accumulateConstantOffset(*DL, off)) throw Undecided{"constant gep"}; return mkBin(ADD, constNode(ce->getOperand(0)), mkConst(off.getZExtValue(), 64)); }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: return mkZext(constNode(ce->getOperand(0)), typeW(ce->getType()));
        case Instruction::Sub: return mkSub(constNode(ce->getOperand(0)), constNode(ce->getOperand(1)));
        case Instruction::Add: return mkBin(ADD, constNode(ce->getOperand(0)), constNode(ce->getOperand(1)));
        case Instruction::Trunc: return mkExtract(constNode(ce->getOperand(0)), 0, typeW(ce->getType()));
        default: throw Undecided{"constant expression"};
        }
    }
    throw Undecided{"constant"};
}
static void initBytes(Obj &o, u64 off, Constant *c) {
    Type *t = c->getType();
    if (isa<UndefValue>(c)) return;
    if (isa<ConstantAggregateZero>(c)) { u64 n = DL->getTypeAllocSize(t); Node *z = mkConst(0, 8); for (u64 i = 0; i < n; i++) o.b[off + i] = {z, 0, 0}; return; }
    if (auto *cds = dyn_cast<ConstantDataSequential>(c)) { u64 es = DL->getTypeAllocSize(cds->getElementType()); for (unsigned i = 0; i < cds->getNumElements(); i++) { Node *n = constNode(cds->getElementAsConstant(i)); for (u64 k = 0; k < es; k++) o.b[off + i * es + k] = {n, (u32)k, 0}; } return; }
    if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); Node *z = mkConst(0, 8); u64 n = DL->getTypeAllocSize(t); for (u64 i = 0; i < n; i++) o.b[off + i] = {z, 0, 0}; for (unsigned i = 0; i < st->getNumElements(); i++) initBytes(o, off + sl->getElementOffset(i), c->getAggregateElement(i)); return; }
    if (auto *at = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) initBytes(o, off + i * es, c->getAggregateElement((unsigned)i)); return; }
    if (wideW(t)) { Node *n = constNode(c); u64 sz = DL->getTypeStoreSize(t); Node *h = mkZext(n->kid[1], (unsigned)(sz - 8) * 8); for (u64 k = 0; k < sz; k++) o.b[off + k] = k < 8 ? Cell{n->kid[0], (u32)k, 0} : Cell{h, (u32)(k - 8), 0}; return; }
    Node *n = constNode(c); u64 sz = DL->getTypeStoreSize(t); if (n->w < sz * 8) n = mkZext(n, (unsigned)sz * 8);
    for (u64 k = 0; k < sz; k++) o.b[off + k] = {n, (u32)k, 0};
}
static u32 newId() { baseObjs.push_back(nullptr); objGlobal.push_back(nullptr); return (u32)baseObjs.size() - 1; }
static u32 globalId(const Value *g) {
    auto it = globalIds.find(g); if (it != globalIds.end()) return it->second;
    u32 id = newId(); globalIds[g] = id; objGlobal[id] = g;
    ObjP o = std::make_shared<Obj>(); o->freed = false; o->loc = 0; o->name = strdup(g->getName().str().c_str()); baseObjs[id] = o;
    if (auto *gv = dyn_cast<GlobalVariable>(g)) {
        o->kind = K_GLOBAL; o->ro = gv->isConstant(); o->size = gv->getValueType()->isSized() ? (u64)DL->getTypeAllocSize(gv->getValueType()) : 0;
        o->b.assign(o->size, Cell{nullptr, 0, 0});
        if (gv->hasInitializer()) initBytes(*o, 0, const_cast<Constant *>(gv->getInitializer()));
        else { o->ro = false; }
    } else { o->kind = K_FUNC; o->ro = true; o->size = 0; }
    return id;
}

static void computeIpdom(Fn *fn) {
    int n = (int)fn->blks.size(); // virtual exit = n
    // blocks that can reach a return through normal edges
    std::vector<std::vector<int>> succ(n + 1), pred(n + 1);
    for (int i = 0; i < n; i++) for (int s : fn->blks[i].succ) { succ[i].push_back(s); }
    for (auto &BB : *fn->F) if (isa<ReturnInst>(BB.getTerminator())) succ[fn->bidx[&BB]].push_back(n);
    for (int i = 0; i < n; i++) for (int s : succ[i]) pred[s].push_back(i);
    std::vector<char> live(n + 1, 0); std::vector<int> st{n}; live[n] = 1;
    while (!st.empty()) { int x = st.back(); st.pop_back(); for (int p : pred[x]) if (!live[p]) { live[p] = 1; st.push_back(p); } }
    // reverse post order on reverse graph
    std::vector<int> order; std::vector<char> vis(n + 1, 0);
    std::function<void(int)> dfs = [&](int x) { vis[x] = 1; for (int p : pred[x]) if (live[p] && !vis[p]) dfs(p); order.push_back(x); };
    dfs(n); std::reverse(order.begin(), order.end());
    std::vector<int> num(n + 1, -1); for (size_t i = 0; i < order.size(); i++) num[order[i]] = (int)i;
    std::vector<int> id(n + 1, -1); id[n] = n; bool ch = true;
    auto inter = [&](int a, int b) { while (a != b) { while (num[a] > num[b]) a = id[a]; while (num[b] > num[a]) b = id[b]; } return a; };
    while (ch) { ch = false; for (int x : order) { if (x == n) continue; int ni = -1; for (int s : succ[x]) { if (!live[s] || id[s] < 0) continue; ni = ni < 0 ? s : inter(ni, s); } if (ni != id[x]) { id[x] = ni; ch = true; } } }
    fn->ipdom.assign(n, n); for (int i = 0; i < n; i++) fn->ipdom[i] = id[i] < 0 ? n : id[i];
}

static bool slotAlloca(AllocaInst *A) {
    if (!A->isStaticAlloca() || A->isArrayAllocation()) return false;
    Type *t = A->getAllocatedType(); if (t->isAggregateType()) return false;
    if (t->isIntegerTy() && t->getIntegerBitWidth() > 64) return false;
    if (!(t->isIntegerTy() || t->isPointerTy() || t->isFloatTy() || t->isDoubleTy())) return false;
    for (User *u : A->users()) {
        if (auto *l = dyn_cast<LoadInst>(u)) { if (l->getType() != t) return false; }
        else if (auto *s = dyn_cast<StoreInst>(u)) { if (s->getValueOperand() == A || s->getValueOperand()->getType() != t) return false; }
        else return false;
    }
    return true;
}

static Fn *getFn(Function *F) {
    auto it = fns.find(F); if (it != fns.end()) return it->second;
    Fn *fn = new Fn; fn->F = F; fn->lib = inLibrary(F); fns[F] = fn;
    std::unordered_map<const Value *, int> reg; int nr = 0;
    for (auto &a : F->args()) reg[&a] = nr++;
    std::set<const Instruction *> slots;
    for (auto &I : instructions(*F)) { reg[&I] = nr++; if (auto *A = dyn_cast<AllocaInst>(&I)) if (slotAlloca(A)) slots.insert(A); }
    fn->nregs = nr; fn->isSlot.assign(nr, 0); fn->slotW.assign(nr, 0);
    for (auto *s : slots) { fn->isSlot[reg[s]] = 1; fn->slotW[reg[s]] = typeW(cast<AllocaInst>(s)->getAllocatedType()); }
    int bi = 0; for (auto &BB : *F) fn->bidx[&BB] = bi++;
    auto opnd = [&](Value *v) -> Opnd { if (auto *c = dyn_cast<Constant>(v)) { try { return {constNode(c), -1}; } catch (Undecided &) { return {nullptr, -2}; } } if (isa<MetadataAsValue>(v) || isa<BasicBlock>(v) || isa<InlineAsm>(v)) return {nullptr, -2}; return {nullptr, reg[v]}; };
    for (auto &BB : *F) {
        fn->blks.emplace_back(); Blk &b = fn->blks.back();
        for (auto &I : BB) {
            if (isa<DbgInfoIntrinsic>(I)) continue;
            if (auto *ii = dyn_cast<IntrinsicInst>(&I)) { StringRef nm = ii->getCalledFunction()->getName(); if (nm.starts_with("llvm.experimental.noalias") || nm.starts_with("llvm.lifetime") || nm.starts_with("llvm.assume") || nm.starts_with("llvm.var.annotation")) continue; }
            Ins in; in.op = I.getOpcode(); in.I = &I; in.dst = reg[&I]; in.slot = -1; in.wide = wideIns(&I); in.size = 0; in.gepOff = 0; in.t1 = in.t2 = -1;
            try { in.w = typeW(I.getType()); } catch (Undecided &) { in.w = 999; }
            switch (in.op) {
            case Instruction::PHI: { auto *p = cast<PHINode>(&I); for (unsigned i = 0; i < p->getNumIncomingValues(); i++) { in.o.push_back(opnd(p->getIncomingValue(i))); in.gep.push_back({fn->bidx[p->getIncomingBlock(i)], Opnd()}); } b.phis.push_back(in); continue; }
            case Instruction::Load: { auto *l = cast<LoadInst>(&I); in.size = l->getType()->isSized() ? (u64)DL->getTypeStoreSize(l->getType()) : 0; if (slots.count(dyn_cast<Instruction>(l->getPointerOperand()))) in.slot = reg[l->getPointerOperand()]; else in.o.push_back(opnd(l->getPointerOperand())); break; }
            case Instruction::Store: { auto *s = cast<StoreInst>(&I); in.size = DL->getTypeStoreSize(s->getValueOperand()->getType()); in.o.push_back(opnd(s->getValueOperand())); if (slots.count(dyn_cast<Instruction>(s->getPointerOperand()))) in.slot = reg[s->getPointerOperand()]; else in.o.push_back(opnd(s->getPointerOperand())); break; }
            case Instruction::Alloca: { auto *A = cast<AllocaInst>(&I); if (slots.count(A)) in.slot = reg[A]; in.size = DL->getTypeAllocSize(A->getAllocatedType()); in.o.push_back(opnd(A->getArraySize())); break; }
            case Instruction::GetElementPtr: {
                auto *g = cast<GetElementPtrInst>(&I); in.o.push_back(opnd(g->getPointerOperand()));
                for (gep_type_iterator gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
                    Value *ix = gi.getOperand();
                    if (StructType *st = gi.getStructTypeOrNull()) { in.gepOff += (i64)DL->getStructLayout(st)->getElementOffset((unsigned)cast<ConstantInt>(ix)->getZExtValue()); }
                    else { i64 sc = (i64)DL->getTypeAllocSize(gi.getIndexedType()); if (auto *ci = dyn_cast<ConstantInt>(ix)) in.gepOff += sc * ci->getSExtValue(); else in.gep.push_back({sc, opnd(ix)}); }
                }
                break; }
            case Instruction::Br: { auto *br = cast<BranchInst>(&I); in.t1 = fn->bidx[br->getSuccessor(0)]; b.succ.push_back(in.t1); if (br->isConditional()) { in.t2 = fn->bidx[br->getSuccessor(1)]; b.succ.push_back(in.t2); in.o.push_back(opnd(br->getCondition())); } break; }
            case Instruction::Switch: { auto *sw = cast<SwitchInst>(&I); in.o.push_back(opnd(sw->getCondition())); in.t1 = fn->bidx[sw->getDefaultDest()]; b.succ.push_back(in.t1); for (auto &c : sw->cases()) { int t = fn->bidx[c.getCaseSuccessor()]; b.succ.push_back(t); in.gep.push_back({(i64)c.getCaseValue()->getZExtValue(), Opnd{nullptr, t}}); } break; }
            case Instruction::Invoke: { auto *iv = cast<InvokeInst>(&I); in.t1 = fn->bidx[iv->getNormalDest()]; in.t2 = fn->bidx[iv->getUnwindDest()]; b.succ.push_back(in.t1); for (auto &a : iv->args()) in.o.push_back(opnd(a)); in.o.push_back(opnd(iv->getCalledOperand())); break; }
            case Instruction::Call: { auto *ca = cast<CallInst>(&I); for (auto &a : ca->args()) in.o.push_back(opnd(a)); in.o.push_back(opnd(ca->getCalledOperand())); break; }
            default: for (auto &u : I.operands()) in.o.push_back(opnd(u.get()));
            }
            b.ins.push_back(in);
        }
    }
    computeIpdom(fn);
    return fn;
}

// ---------------------------------------------------------------- interpreter
struct Frame { Fn *fn; std::vector<Node *> r; Node *rv = nullptr; std::vector<u32> objs; std::vector<std::pair<Node *, Type *>> var; Node *exc = nullptr; u64 excType = 0; bool inCatchPath = false; };

static const Obj *objOf(const State &s, u32 id) {
    auto it = s.mem.find(id); if (it != s.mem.end()) return it->second.get();
    return id < baseObjs.size() ? baseObjs[id].get() : nullptr;
}
static Obj *objW(State &s, u32 id) {
    auto it = s.mem.find(id);
    if (it == s.mem.end()) { ObjP c = std::make_shared<Obj>(*baseObjs[id]); s.mem[id] = c; return c.get(); }
    if (it->second.use_count() > 1) it->second = std::make_shared<Obj>(*it->second);
    return it->second.get();
}
static u32 curOp; // number of the concurrent operation being analysed; 0: none
static std::unordered_map<u32, u32> objOp;
static u32 newObj(State &s, u64 size, Kind k, const char *name) {
    if (size > (1u << 28)) throw Undecided{"object too large"};
    u32 id = newId(); ObjP o = std::make_shared<Obj>(); o->size = size; o->kind = k; o->ro = false; o->freed = false; o->loc = curI ? locOf(curI) : 0; o->name = name; o->b.assign(size, Cell{nullptr, 0, 0}); s.mem[id] = o; if (curOp) objOp[id] = curOp; return id;
}
static std::string objDesc(const Obj *o, u32 id) {
    if (!o) return "dead object";
    char b[64]; snprintf(b, 64, "%llu", (unsigned long long)o->size);
    const char *k[] = {"local object", "malloc'ed object", "object from new", "array from new[]", "global", "caller's buffer", "function", "exception"};
    std::string s = std::string(b) + "-byte " + k[o->kind]; if (o->name && *o->name) s += std::string(" '") + o->name + "'"; if (o->loc) s += " (" + where(locs[o->loc]) + ")"; (void)id; return s;
}

static int decide0(Node *c, State &s, const char *what);
static int decide(Node *c, State &s, const char *what) { int d = decide0(c, s, what); if (oblivious && d < 0) oblNote(what); return d; }
static int decide0(Node *c, State &s, const char *what) { // 1, 0, or -1
    if (isC(c)) return (int)c->k;
    if (c->undef) { if (undefWitness(c, s)) report("uninitialised", std::string(what) + " depends on an indeterminate value: " + show(c), curI, true); }
    Node *base = c; bool flip = false;
    while (base->op == XOR && base->w == 1 && base->n == 2 && (isC(base->kid[0]) || isC(base->kid[1]))) { bool k = isC(base->kid[0]); flip ^= (k ? base->kid[0]->k : base->kid[1]->k) & 1; base = k ? base->kid[1] : base->kid[0]; }
    for (auto &p : s.path) { if (p.first == c) return p.second; if (p.first == base) return p.second ^ flip; }
    if (Node *a = uniqueDep(c)) {
        auto it = s.masks.find(a); const Bits &m = it == s.masks.end() ? domainOf(a) : it->second; bool t = false, f = false;
        for (unsigned v = 0; v < (1u << a->w); v++) if (m[v]) { if (valAt(c, a, v) & 1) t = true; else f = true; if (t && f) break; }
        if (t && !f) return 1; if (f && !t) return 0;
        return -1;
    }
    if (c->op == AND || c->op == OR) { // under assumptions
        bool all = true; for (u32 i = 0; i < c->n; i++) { int d = decide0(c->kid[i], s, what); if (c->op == AND ? d == 0 : d == 1) return c->op == OR; if (d < 0) all = false; } if (all) return c->op == AND;
    }
    return -1;
}
static bool assume(Node *c, bool v, State &s) { // false: contradiction
    if (c->op == XOR && c->w == 1 && c->n == 2) { if (isC(c->kid[0]) && c->kid[0]->k) return assume(c->kid[1], !v, s); if (isC(c->kid[1]) && c->kid[1]->k) return assume(c->kid[0], !v, s); }
    if ((c->op == AND && v) || (c->op == OR && !v)) { for (u32 i = 0; i < c->n; i++) if (!assume(c->kid[i], v, s)) return false; return true; }
    if (Node *a = uniqueDep(c)) {
        auto it = s.masks.find(a); Bits m = it == s.masks.end() ? domainOf(a) : it->second;
        for (unsigned x = 0; x < (1u << a->w); x++) if (m[x] && (bool)(valAt(c, a, x) & 1) != v) m[x] = 0;
        s.masks[a] = m; return m.any();
    }
    if (isC(c)) return (c->k != 0) == v;
    s.path.push_back({c, v}); return true;
}

static Node *cellByte(const Cell &c) { return c.n ? mkExtract(c.n, c.lo * 8, 8) : nullptr; }
static Node *orUndef(Node *n, unsigned w) { return n ? n : mkUndef(w); }

static void joinObj(Node *cond, const ObjP &A, const ObjP &B, ObjP &out) {
    if (A == B) { out = A; return; }
    if (A->freed != B->freed) throw Undecided{"object freed on one side of a branch only"};
    ObjP o = std::make_shared<Obj>(*A); u64 n = std::min(A->b.size(), B->b.size());
    for (u64 i = 0; i < n;) {
        const Cell &a = A->b[i], &b = B->b[i];
        if (a.n == b.n && a.lo == b.lo) { if (a.loc != b.loc && b.loc) o->b[i].loc = b.loc; i++; continue; }
        if (a.n && b.n && a.lo == 0 && b.lo == 0 && a.n->w == b.n->w && a.n->w % 8 == 0 && a.n->w > 8) {
            unsigned k = a.n->w / 8; bool ok = i + k <= n;
            for (unsigned j = 1; ok && j < k; j++) if (A->b[i + j].n != a.n || A->b[i + j].lo != j || B->b[i + j].n != b.n || B->b[i + j].lo != j) ok = false;
            if (ok) { Node *m = mkIte(cond, a.n, b.n); for (unsigned j = 0; j < k; j++) o->b[i + j] = {m, j, a.loc ? a.loc : b.loc}; i += k; continue; }
        }
        Node *x = cellByte(a), *y = cellByte(b);
        o->b[i] = {mkIte(cond, orUndef(x, 8), orUndef(y, 8)), 0, a.loc > b.loc ? a.loc : b.loc}; i++;
    }
    out = o;
}
static void joinState(Node *cond, State &a, State &b) { // into a
    for (auto &e : a.mem) { auto it = b.mem.find(e.first); if (it == b.mem.end()) { if (baseObjs[e.first]) { ObjP o; joinObj(cond, e.second, baseObjs[e.first], o); e.second = o; } continue; } if (it->second != e.second) { ObjP o; joinObj(cond, e.second, it->second, o); e.second = o; } }
    for (auto &e : b.mem) if (!a.mem.count(e.first)) { if (baseObjs[e.first]) { ObjP o; joinObj(cond, baseObjs[e.first], e.second, o); a.mem[e.first] = o; } else a.mem[e.first] = e.second; }
}

static u64 ptrLimit = 4096;
// offsets a pointer's symbolic offset may take
static bool enumOffsets(Node *off, State &s, std::vector<u64> &vals) {
    if (isC(off)) { vals.push_back(off->k); return true; }
    if (Node *a = uniqueDep(off)) {
        auto it = s.masks.find(a); const Bits &m = it == s.masks.end() ? domainOf(a) : it->second; std::set<u64> st;
        for (unsigned v = 0; v < (1u << a->w); v++) if (m[v]) st.insert(valAt(off, a, v));
        vals.assign(st.begin(), st.end()); return true;
    }
    if (off->op == ITE) { // leaves, when few
        std::set<u64> st; std::vector<Node *> w{off}; std::unordered_set<Node *> seen; bool ok = true;
        while (!w.empty() && ok) { Node *x = w.back(); w.pop_back(); if (!seen.insert(x).second) continue; if (isC(x)) st.insert(x->k); else if (x->op == ITE) { w.push_back(x->kid[1]); w.push_back(x->kid[2]); } else ok = false; if (st.size() > ptrLimit) ok = false; }
        if (ok) { vals.assign(st.begin(), st.end()); return true; }
    }
    // base + range
    u64 lo = off->umin, hi = off->umax; u64 nz = ~off->kz; unsigned tz = nz ? __builtin_ctzll(nz) : 0; u64 stride = 1ull << tz;
    i64 add = 0;
    if (hi - lo > (ptrLimit << tz) && off->op == ADD) { // signed displacement: c + x
        Node *c = nullptr; for (u32 i = 0; i < off->n; i++) if (isC(off->kid[i])) c = off->kid[i];
        if (c) { Node *rest = mkSub(off, c); lo = rest->umin; hi = rest->umax; add = (i64)c->k; nz = ~rest->kz; tz = nz ? __builtin_ctzll(nz) : 0; stride = 1ull << tz; } }
    if (hi - lo > (ptrLimit << tz)) return false;
    lo = (lo + stride - 1) / stride * stride;
    for (u64 v = lo; v <= hi; v += stride) { vals.push_back(v + (u64)add); if (v + stride < v) break; }
    std::sort(vals.begin(), vals.end(), [](u64 x, u64 y) { return (i64)x < (i64)y; });
    return true;
}
static std::string ptrDesc(Node *p) { return show(p, 3); }

// ---- locks and shared state. A mutex's first word holds 0, or 1 + how often it is held; read locks count from 1000.
static std::vector<std::pair<u32, u64>> mutexes; static std::set<std::pair<int, int>> lockOrder;
static u64 lockWord(State &s, size_t i) { const Obj *o = objOf(s, mutexes[i].first); if (!o || o->freed || mutexes[i].second + 4 > o->size) return 0; u64 v = 0; for (unsigned j = 0; j < 4; j++) { const Cell &c = o->b[mutexes[i].second + j]; Node *b = c.n ? mkExtract(c.n, c.lo * 8, 8) : nullptr; if (!b || !isC(b)) return 0; v |= b->k << 8 * j; } return v; }
static u32 heldMask(State &s, bool forWrite) { u32 m = 0; for (size_t i = 0; i < mutexes.size() && i < 32; i++) { u64 w = lockWord(s, i); if (w && (!forWrite || w < 1000)) m |= 1u << i; } return m; }
struct ByteInfo { u32 op = 0, ls = ~0u; bool multi = false, written = false; u32 loc = 0; };
static std::unordered_map<u32, std::vector<ByteInfo>> shared; static u64 nShared; static int inGuard; static bool jobRunning;
static std::string objDesc(const Obj *o, u32 id);
static void track(State &s, u32 id, const Obj *o, u64 off, u64 n, bool write) {
    auto it = objOp.find(id); if (it != objOp.end() && it->second == curOp) return;
    if (inGuard || (curI && curI->isAtomic()) || (o->kind == K_GLOBAL && o->name && !strncmp(o->name, "sv_", 3))) return;
    auto &v = shared[id]; if (v.size() < o->size) v.resize(o->size);
    u32 held = heldMask(s, write);
    for (u64 i = off; i < off + n; i++) {
        ByteInfo &b = v[i]; nShared++;
        if (!b.op) b.op = curOp; else if (b.op != curOp) b.multi = true;
        b.ls &= held; if (write) { b.written = true; }
        if (b.multi && b.written && !b.ls) { char m[64]; snprintf(m, 64, "%llu", (unsigned long long)i); note("data race", std::string(write ? "write to" : "read of") + " byte " + m + " of " + objDesc(o, id) + " shared by concurrent operations, with no lock in common with the access at " + where(locs[b.loc]), curI); }
        if (write || !b.loc) b.loc = curI ? locOf(curI) : 0;
    }
}
static bool libraryStatic(const Value *v) {
    auto *g = dyn_cast_or_null<GlobalVariable>(v); if (!g) return false;
    SmallVector<DIGlobalVariableExpression *, 1> d; g->getDebugInfo(d); if (d.empty()) return false;
    std::string f = d[0]->getVariable()->getFilename().str(); if (!f.empty() && f[0] != '/') f = d[0]->getVariable()->getDirectory().str() + "/" + f;
    for (auto &p : srcPrefixes) if (f.compare(0, p.size(), p) == 0) return true;
    return false;
}
static void globalWrite(u32 id, const Obj *o) {
    if (inGuard || id >= objGlobal.size() || !objGlobal[id]) return; auto *g = dyn_cast<GlobalVariable>(objGlobal[id]); if (!g || g->isThreadLocal()) return;
    if (!libraryStatic(g) || !libOnStack()) return;
    SmallVector<DIGlobalVariableExpression *, 1> d; g->getDebugInfo(d); note("shared state", "write to " + std::string(d[0]->getVariable()->getName()) + ", which all contexts and objects share", curI);
}
// heap objects that the library's own static objects lead to (tables set up on first use): not lost, though never released
static std::set<u32> heldByStatics(State &s) {
    std::set<u32> seen; std::vector<u32> todo; std::unordered_set<Node *> done;
    std::function<void(Node *)> ptrs = [&](Node *n) { if (!n || !done.insert(n).second) return; if (n->op == PTR) { if (seen.insert((u32)n->k).second) todo.push_back((u32)n->k); return; } if (n->op == ITE || n->op == CONCAT || n->op == EXTRACT) for (u32 i = 0; i < n->n; i++) ptrs(n->kid[i]); };
    auto scan = [&](u32 id) { const Obj *o = objOf(s, id); if (o && !o->freed) for (auto &c : o->b) if (c.n && c.n->op != CONST) ptrs(c.n); };
    for (u32 i = 0; i < objGlobal.size(); i++) if (libraryStatic(objGlobal[i])) scan(i);
    while (!todo.empty()) { u32 i = todo.back(); todo.pop_back(); scan(i); }
    return seen;
}
// check one access; returns false when it must be skipped
static bool checkAcc(State &s, u32 id, u64 off, u64 n, bool write, Node *cond /*null: unconditional on this path*/) {
    nAccess++;
    const Obj *o = objOf(s, id);
    const char *kind = nullptr; std::string msg; char b[96];
    if (!o) { kind = "use-after-scope"; msg = std::string(write ? "write to" : "read of") + " a local object after its function returned"; }
    else if (o->freed) { kind = "use-after-free"; msg = std::string(write ? "write to" : "read of") + " freed " + objDesc(o, id); }
    else if (o->kind == K_FUNC) { kind = "bad-pointer"; msg = "access to code"; }
    else if (off + n > o->size || off + n < off) { kind = write ? "out-of-bounds write" : "out-of-bounds read"; snprintf(b, 96, "%llu byte(s) at offset %lld of ", (unsigned long long)n, (long long)off); msg = std::string(write ? "write of " : "read of ") + b + objDesc(o, id); }
    else if (write && o->ro) { kind = "write to read-only"; msg = "write to " + objDesc(o, id) + ", which must not be modified"; }
    if (!kind) { if (write && o->kind == K_GLOBAL && jobRunning) globalWrite(id, o); if (curOp) track(s, id, o, off, n, write); return true; }
    bool real = witness(s, [&](Env &e) { return !cond || e.eval(cond); }, cond ? std::vector<std::function<void(Env &)>>{[cond](Env &e) { force(cond, true, e); }} : std::vector<std::function<void(Env &)>>{});
    if (!real) { if (cond) return false; throw Undecided{std::string("access not shown to be in bounds: ") + msg + " at " + where(curI)}; }
    report(kind, msg, curI, true);
    return false;
}
static Node *loadAt(State &s, u32 id, u64 off, u64 n, unsigned w) {
    const Obj *o = objOf(s, id); const Cell *c = &o->b[off];
    if (c[0].n && c[0].lo == 0 && c[0].n->w == n * 8) { bool ok = true; for (u64 i = 1; i < n; i++) if (c[i].n != c[0].n || c[i].lo != i) { ok = false; break; } if (ok) return w == n * 8 ? c[0].n : mkExtract(c[0].n, 0, w); }
    std::vector<Node *> p;
    for (u64 i = 0; i < n;) {
        if (!c[i].n) { p.push_back(mkUndef(8)); i++; continue; }
        u64 j = i + 1; while (j < n && c[j].n == c[i].n && c[j].lo == c[i].lo + (j - i) && (j - i) < 8) j++;
        p.push_back(mkExtract(c[i].n, c[i].lo * 8, (unsigned)(j - i) * 8)); i = j;
    }
    Node *r = mkConcat(p); return w == n * 8 ? r : mkExtract(r, 0, w);
}
static void storeAt(State &s, u32 id, u64 off, u64 n, Node *v, u32 loc) {
    Obj *o = objW(s, id); if (v->w < n * 8) v = mkZext(v, (unsigned)n * 8);
    for (u64 i = 0; i < n; i++) o->b[off + i] = {v, (u32)i, loc};
}
static void badPtr(Node *p, State &s, const char *acc) {
    if (p->undef && undefWitness(p, s)) report("uninitialised", std::string(acc) + " through an indeterminate pointer", curI, true);
    if (isC(p)) { if (feasible(s)) report("null pointer", std::string(acc) + " through a null or invalid pointer " + show(p), curI, true); throw Undecided{"null access on a path not shown feasible"}; }
    throw Undecided{std::string(acc) + " through unresolved pointer " + ptrDesc(p) + " at " + where(curI)};
}
static Node *loadMem(State &s, Node *p, u64 n, unsigned w) {
    if (p->op == PTR && isC(p->kid[0])) { if (!checkAcc(s, (u32)p->k, p->kid[0]->k, n, false, nullptr)) return mkUndef(w); return loadAt(s, (u32)p->k, p->kid[0]->k, n, w); }
    if (p->op == ITE) {
        int d = decide(p->kid[0], s, "address");
        if (d >= 0) return loadMem(s, p->kid[d ? 1 : 2], n, w);
        State a = s; bool fa = assume(p->kid[0], true, a); Node *x = fa ? loadMem(a, p->kid[1], n, w) : nullptr;
        State b = s; bool fb = assume(p->kid[0], false, b); Node *y = fb ? loadMem(b, p->kid[2], n, w) : nullptr;
        if (!x) return y; if (!y) return x; return mkIte(p->kid[0], x, y);
    }
    if (p->op != PTR) { badPtr(p, s, "read"); return nullptr; }
    Node *off = p->kid[0];
    if (off->undef && undefWitness(off, s)) badPtr(mkUndef(64), s, "read");
    oblNote("address of a read"); std::vector<u64> v; if (!enumOffsets(off, s, v)) throw Undecided{"read at unbounded offset " + show(off, 4) + " at " + where(curI)};
    std::vector<Node *> el; std::vector<u64> ok;
    bool tab = uniqueDep(off) != nullptr;
    const Obj *to = objOf(s, (u32)p->k); bool live = to && !to->freed && to->kind != K_FUNC; // the condition is of no use when the access is in bounds
    for (u64 x : v) { bool in = live && x + n <= to->size && x + n >= x; if (checkAcc(s, (u32)p->k, x, n, false, in ? nullptr : mkEq(off, mkConst(x, 64)))) { ok.push_back(x); el.push_back(loadAt(s, (u32)p->k, x, n, w)); } }
    if (ok.empty()) throw Undecided{"no feasible offset"};
    if (ok.size() == 1) return el[0];
    u64 g = 0; for (size_t i = 1; i < ok.size(); i++) { u64 d = ok[i] - ok[i - 1]; u64 a = g, b = d; while (b) { u64 t = a % b; a = b; b = t; } g = a; }
    bool pow2 = !(g & (g - 1)); u64 span = (ok.back() - ok[0]) / g + 1;
    if (pow2 && span <= ptrLimit && (off->op != ITE || tab)) {
        std::vector<Node *> e(span, nullptr); for (size_t i = 0; i < ok.size(); i++) e[(ok[i] - ok[0]) / g] = el[i];
        for (auto &x : e) if (!x) x = mkConst(0, w);
        return mkSelect(e, mkBin(LSHR, mkSub(off, mkConst(ok[0], 64)), mkConst(__builtin_ctzll(g), 64)));
    }
    Node *r = el.back(); for (size_t i = ok.size() - 1; i-- > 0;) r = mkIte(mkEq(off, mkConst(ok[i], 64)), el[i], r);
    return r;
}
static void storeMem(State &s, Node *p, u64 n, Node *v, Node *cond = nullptr) {
    u32 loc = locOf(curI);
    if (p->op == PTR && isC(p->kid[0])) {
        if (!checkAcc(s, (u32)p->k, p->kid[0]->k, n, true, cond)) return;
        if (cond) v = mkIte(cond, v, loadAt(s, (u32)p->k, p->kid[0]->k, n, v->w));
        storeAt(s, (u32)p->k, p->kid[0]->k, n, v, loc); return;
    }
    if (p->op == ITE) {
        int d = decide(p->kid[0], s, "address");
        if (d >= 0) { storeMem(s, p->kid[d ? 1 : 2], n, v, cond); return; }
        Node *c1 = p->kid[0], *c2 = mkNot(c1); if (cond) { c1 = mkBin(AND, cond, c1); c2 = mkBin(AND, cond, c2); }
        storeMem(s, p->kid[1], n, v, c1); storeMem(s, p->kid[2], n, v, c2); return;
    }
    if (p->op != PTR) { if (cond && isC(p)) return; badPtr(p, s, "write"); return; }
    Node *off = p->kid[0];
    if (off->undef && undefWitness(off, s)) badPtr(mkUndef(64), s, "write");
    oblNote("address of a write"); std::vector<u64> vs; if (!enumOffsets(off, s, vs)) throw Undecided{"write at unbounded offset at " + where(curI)};
    for (u64 x : vs) { Node *c = mkEq(off, mkConst(x, 64)); if (cond) c = mkBin(AND, cond, c); if (isC(c) && !c->k) continue; if (!checkAcc(s, (u32)p->k, x, n, true, c)) continue; storeAt(s, (u32)p->k, x, n, mkIte(c, v, loadAt(s, (u32)p->k, x, n, v->w)), loc); }
}
static Node *loadTy(State &s, Node *p, Type *t) {
    if (unsigned h = wideW(t)) { Node *lo = loadMem(s, p, 8, 64); return mkAgg({lo, loadMem(s, mkBin(ADD, p, mkConst(8, 64)), DL->getTypeStoreSize(t) - 8, h)}); }
    if (auto *st = dyn_cast<StructType>(t)) { std::vector<Node *> k; auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) k.push_back(loadTy(s, mkBin(ADD, p, mkConst(sl->getElementOffset(i), 64)), st->getElementType(i))); return mkAgg(k); }
    if (auto *at = dyn_cast<ArrayType>(t)) { std::vector<Node *> k; u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) k.push_back(loadTy(s, mkBin(ADD, p, mkConst(es * i, 64)), at->getElementType())); return mkAgg(k); }
    return loadMem(s, p, DL->getTypeStoreSize(t), typeW(t));
}
static void storeTy(State &s, Node *p, Type *t, Node *v) {
    if (wideW(t)) { storeMem(s, p, 8, v->kid[0]); storeMem(s, mkBin(ADD, p, mkConst(8, 64)), DL->getTypeStoreSize(t) - 8, v->kid[1]); return; }
    if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) storeTy(s, mkBin(ADD, p, mkConst(sl->getElementOffset(i), 64)), st->getElementType(i), v->kid[i]); return; }
    if (auto *at = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) storeTy(s, mkBin(ADD, p, mkConst(es * i, 64)), at->getElementType(), v->kid[i]); return; }
    storeMem(s, p, DL->getTypeStoreSize(t), v);
}
// resolve pointers merged from a decided choice
static Node *resolvePtr(Node *p, State &s) { while (p->op == ITE) { int d = decide(p->kid[0], s, "address"); if (d < 0) break; p = p->kid[d ? 1 : 2]; } return p; }

static u64 concreteLen(Node *n, State &s, const char *what) { n = resolvePtr(n, s); if (!isC(n)) throw Undecided{std::string("symbolic ") + what + " " + show(n, 4) + " at " + where(curI)}; return n->k; }

static void copyMem(State &s, Node *d, Node *sp, Node *len, bool overlapOk) {
    d = resolvePtr(d, s); sp = resolvePtr(sp, s); len = resolvePtr(len, s);
    if (len->undef && undefWitness(len, s)) report("uninitialised", "copy length is indeterminate", curI, true);
    if (isC(len)) {
        u64 n = len->k; if (!n) return;
        if (n > (1ull << 28)) { if (feasible(s)) report("out-of-bounds write", "copy of " + show(len) + " bytes", curI, true); throw Undecided{"huge copy"}; }
        if (d->op == PTR && isC(d->kid[0]) && sp->op == PTR && isC(sp->kid[0])) {
            u64 so = sp->kid[0]->k, dof = d->kid[0]->k;
            if (!checkAcc(s, (u32)sp->k, so, n, false, nullptr) || !checkAcc(s, (u32)d->k, dof, n, true, nullptr)) return;
            if (!overlapOk && sp->k == d->k && so != dof && so < dof + n && dof < so + n) report("overlapping memcpy", "memcpy between overlapping ranges", curI, true);
            const Obj *so_ = objOf(s, (u32)sp->k); std::vector<Cell> t(so_->b.begin() + (long)so, so_->b.begin() + (long)(so + n));
            u32 loc = locOf(curI); for (auto &c : t) { if (!c.loc) c.loc = loc; }
            Obj *o = objW(s, (u32)d->k); std::copy(t.begin(), t.end(), o->b.begin() + (long)dof); return;
        }
        std::vector<Node *> t; for (u64 i = 0; i < n; i++) t.push_back(loadMem(s, mkBin(ADD, sp, mkConst(i, 64)), 1, 8));
        for (u64 i = 0; i < n; i++) storeMem(s, mkBin(ADD, d, mkConst(i, 64)), 1, t[i]);
        return;
    }
    oblNote("length of a copy");
    u64 hi = len->umax; if (hi > 4096) throw Undecided{"copy of unbounded length " + show(len, 4) + " at " + where(curI)};
    std::vector<Node *> t, c;
    for (u64 i = 0; i < hi; i++) {
        Node *in = mkUlt(mkConst(i, 64), len); int dd = decide(in, s, "copy length"); if (dd == 0) break;
        State a = s; if (dd < 0 && !assume(in, true, a)) break;
        if (!witness(a, [](Env &) { return true; })) break;
        t.push_back(loadMem(a, mkBin(ADD, sp, mkConst(i, 64)), 1, 8)); c.push_back(in);
    }
    for (u64 i = 0; i < t.size(); i++) storeMem(s, mkBin(ADD, d, mkConst(i, 64)), 1, t[i], isC(c[i]) ? nullptr : c[i]);
}
static void setMem(State &s, Node *d, Node *v, Node *len) {
    d = resolvePtr(d, s); len = resolvePtr(len, s);
    if (len->undef && undefWitness(len, s)) report("uninitialised", "fill length is indeterminate", curI, true);
    if (isC(len)) {
        u64 n = len->k; if (!n) return;
        if (n > (1ull << 28)) { if (feasible(s)) report("out-of-bounds write", "fill of " + show(len) + " bytes", curI, true); throw Undecided{"huge fill"}; }
        if (d->op == PTR && isC(d->kid[0])) { if (!checkAcc(s, (u32)d->k, d->kid[0]->k, n, true, nullptr)) return; Obj *o = objW(s, (u32)d->k); u32 loc = locOf(curI); for (u64 i = 0; i < n; i++) o->b[d->kid[0]->k + i] = {v, 0, loc}; return; }
        for (u64 i = 0; i < n; i++) storeMem(s, mkBin(ADD, d, mkConst(i, 64)), 1, v);
        return;
    }
    u64 hi = len->umax; if (hi > 4096) throw Undecided{"fill of unbounded length at " + where(curI)};
    for (u64 i = 0; i < hi; i++) { Node *in = mkUlt(mkConst(i, 64), len); int dd = decide(in, s, "fill length"); if (dd == 0) break; storeMem(s, mkBin(ADD, d, mkConst(i, 64)), 1, v, dd == 1 ? nullptr : in); }
}
static std::string cstr(State &s, Node *p) {
    std::string r; p = resolvePtr(p, s); if (p->op != PTR || !isC(p->kid[0])) return "?";
    const Obj *o = objOf(s, (u32)p->k); if (!o) return "?";
    for (u64 i = p->kid[0]->k; i < o->size; i++) { Node *b = cellByte(o->b[i]); if (!b || !isC(b) || !b->k) break; r += (char)b->k; } return r;
}

static double asD(u64 v) { double d; memcpy(&d, &v, 8); return d; }
static u64 fromD(double d) { u64 v; memcpy(&v, &d, 8); return v; }
static double fpVal(Node *n) { if (n->w == 64) return asD(n->k); float f; u32 x = (u32)n->k; memcpy(&f, &x, 4); return f; }
static Node *fpConst(double d, unsigned w) { if (w == 64) return mkConst(fromD(d), 64); float f = (float)d; u32 x; memcpy(&x, &f, 4); return mkConst(x, 32); }

static bool callFunction(Function *F, std::vector<Node *> &args, std::vector<std::pair<Node *, Type *>> &var, State &s, Node *&ret, Unw &u, CallBase *cb);

// ---- equality of library and reference values
static void provEq(State &s, const std::vector<std::pair<Node *, Node *>> &ps, const std::string &what, const std::vector<u32> &lo) {
    std::vector<std::pair<Node *, Node *>> todo; std::vector<size_t> idx;
    for (size_t i = 0; i < ps.size(); i++) {
        Node *a = ps[i].first, *b = ps[i].second;
        if (a->undef && undefWitness(a, s)) { report("uninitialised", what + ": byte " + std::to_string(i) + " of the result is indeterminate, last written at " + where(lo.size() ? locs[lo[i]] : nullptr), lo.size() && lo[i] ? locs[lo[i]] : curI, false); return; }
        if (a == b) { nEqProven++; continue; }
        todo.push_back(ps[i]); idx.push_back(i);
    }
    if (todo.empty()) return;
    if (getenv("SV_DIFF")) { // descend to the first structural difference
        Node *x = todo[0].first, *y = todo[0].second;
        for (int d = 0; d < 200; d++) {
            fprintf(stderr, "%s | %s  n=%u,%u\n", show(x, 3).c_str(), show(y, 3).c_str(), x->n, y->n);
            std::vector<Node *> a(x->kid, x->kid + x->n), b(y->kid, y->kid + y->n), oa, ob;
            if (x->op == ADD || x->op == XOR || x->op == AND) { for (Node *k : a) if (std::find(b.begin(), b.end(), k) == b.end()) oa.push_back(k); for (Node *k : b) if (std::find(a.begin(), a.end(), k) == a.end()) ob.push_back(k); fprintf(stderr, "  only left %zu only right %zu\n", oa.size(), ob.size()); for (size_t q = 0; q < oa.size() && q < 6; q++) fprintf(stderr, "   L %s\n", show(oa[q], 2).c_str()); for (size_t q = 0; q < ob.size() && q < 6; q++) fprintf(stderr, "   R %s\n", show(ob[q], 2).c_str());
                // match by fingerprint
                bool f = false; for (Node *k : oa) { for (Node *l : ob) if (k->fp[0] == l->fp[0] && k->fp[1] == l->fp[1]) { x = k; y = l; f = true; break; } if (f) break; } if (!f) break; continue; }
            if (x->op != y->op || x->n != y->n) break;
            bool f = false; for (u32 i = 0; i < x->n; i++) if (a[i] != b[i]) { x = a[i]; y = b[i]; f = true; break; } if (!f) break;
        }
        _exit(9);
    }
    // conditions that occur on one side only
    std::vector<Node *> ca, cb; std::unordered_set<Node *> sa, sb;
    for (auto &p : todo) { collectConds(p.first, ca, sa, 600); collectConds(p.second, cb, sb, 600); }
    std::set<Node *> A(ca.begin(), ca.end()), B(cb.begin(), cb.end()); std::vector<Node *> only;
    // 1-bit tables too
    auto tabs = [&](std::unordered_set<Node *> &x, std::set<Node *> &o) { for (Node *n : x) if (n->op == TABLE) o.insert(n); };
    tabs(sa, A); tabs(sb, B);
    for (Node *n : A) if (!B.count(n)) only.push_back(n); for (Node *n : B) if (!A.count(n)) only.push_back(n);
    std::sort(only.begin(), only.end(), [](Node *x, Node *y) { return x->id < y->id; });
    std::vector<std::function<void(Env &)>> tw;
    size_t lim = 0;
    for (Node *c : only) {
        if (lim++ > 160) break;
        if (c->op == TABLE && c->w != 1) { Node *a = c->kid[0]; Bits d = domainOf(a); std::set<u64> seen; for (unsigned v = 0; v < (1u << a->w) && seen.size() < 6; v++) if (d[v] && seen.insert(c->tbl[v]).second) tw.push_back([a, v](Env &e) { e.v[a] = v; }); continue; }
        tw.push_back([c](Env &e) { force(c, true, e); }); tw.push_back([c](Env &e) { force(c, false, e); });
        if (!isC(c->kid[0]) || c->n < 2 || !isC(c->kid[1])) {}
        if (c->op == ULT || c->op == SLT) for (int t = 0; t < 2; t++) if (isC(c->kid[1 - t])) { Node *x = c->kid[t]; u64 k = c->kid[1 - t]->k; for (u64 z : {k, k - 1, k + 1}) tw.push_back([x, z](Env &e) { invert(x, z, e); }); }
    }
    size_t bad = (size_t)-1; std::string envs;
    auto pred = [&](Env &e) { for (size_t i = 0; i < todo.size(); i++) if (e.eval(todo[i].first) != e.eval(todo[i].second)) { bad = i; envs = showEnv(e, todo[i].first); return true; } return false; };
    bool fpdiff = false; for (auto &p : todo) for (int l = 0; l < LANES; l++) if (p.first->fp[l] != p.second->fp[l]) fpdiff = true;
    if ((fpdiff || !tw.empty() || !s.path.empty() || !s.masks.empty()) && witness(s, pred, tw)) {
        size_t i = idx[bad]; u32 l = lo.size() ? lo[i] : 0;
        report("mismatch", what + ": byte " + std::to_string(i) + " of the result differs from the reference, e.g. for " + envs + "; library value " + show(todo[bad].first, 3) + ", reference value " + show(todo[bad].second, 3) + (l ? "; library value written at " + where(locs[l]) : ""), l ? locs[l] : curI, false);
        return;
    }
    if (fpdiff && s.path.empty() && s.masks.empty()) { report("mismatch", what + ": differs from the reference", curI, false); return; }
    nEqRI += todo.size();
}

// ---- natively modelled functions; returns false if not modelled
static std::vector<u64> thresholds;
static std::map<const Function *, int> modelKind;
static u64 typeIdOf(Node *p) { return p->op == PTR ? p->k : 0; }
static bool typeMatches(u64 thrown, u64 want) {
    for (int depth = 0; depth < 8; depth++) {
        if (thrown == want) return true;
        if (thrown >= objGlobal.size() || !objGlobal[thrown]) return false;
        auto *g = dyn_cast<GlobalVariable>(objGlobal[thrown]); if (!g || !g->hasInitializer()) return false;
        auto *cs = dyn_cast<ConstantStruct>(g->getInitializer()); if (!cs || cs->getNumOperands() < 3) return false;
        auto *base = dyn_cast<GlobalValue>(cs->getOperand(2)->stripPointerCasts()); if (!base) return false;
        thrown = globalId(base);
    }
    return false;
}
static u64 ANYEXC = ~0ull;

static void freeObj(State &s, Node *p, Kind want, const char *how, Node *size = nullptr) {
    p = resolvePtr(p, s);
    if (isC(p) && p->k == 0) return;
    if (p->op != PTR || !isC(p->kid[0])) { if (p->undef && undefWitness(p, s)) report("uninitialised", std::string(how) + " of an indeterminate pointer", curI, true); throw Undecided{"free of unresolved pointer"}; }
    const Obj *o = objOf(s, (u32)p->k);
    std::string bad;
    if (!o || o->kind == K_STACK || o->kind == K_GLOBAL || o->kind == K_SPEC) bad = "of an object that is not on the heap";
    else if (o->freed) bad = "of an object that was already released";
    else if (p->kid[0]->k) bad = "of a pointer into the middle of an object";
    else if (o->kind != want) bad = "of an object from a different allocator";
    else if (size && isC(size) && size->k != o->size) bad = "as an object of another type (" + std::to_string(size->k) + " bytes where " + std::to_string(o->size) + " were allocated)";
    if (!bad.empty()) { if (!feasible(s)) throw Undecided{"bad release on a path not shown feasible"}; report("bad release", std::string(how) + " " + bad + ": " + objDesc(o, (u32)p->k), curI, true); }
    if (curOp && o) track(s, (u32)p->k, o, 0, o->size, true);
    Obj *w = objW(s, (u32)p->k); w->freed = true; 
}

static u64 failAt, allocSeen;
static bool failNow() { return ++allocSeen == failAt; }
static bool native(Function *F, StringRef name, std::vector<Node *> &a, State &s, Node *&ret, Unw &u, bool &normal, Frame *caller) {
    normal = true; ret = nullptr;
    auto P = [&](Node *n) { return resolvePtr(n, s); };
    if (name.starts_with("llvm.")) {
        if (name.starts_with("llvm.dbg") || name.starts_with("llvm.lifetime") || name.starts_with("llvm.stackrestore") || name.starts_with("llvm.assume") || name.starts_with("llvm.va_end") || name.starts_with("llvm.experimental.noalias") || name.starts_with("llvm.donothing")) return true;
        if (name.starts_with("llvm.memcpy")) { copyMem(s, a[0], a[1], a[2], false); return true; }
        if (name.starts_with("llvm.memmove")) { copyMem(s, a[0], a[1], a[2], true); return true; }
        if (name.starts_with("llvm.memset")) { setMem(s, a[0], a[1], a[2]); return true; }
        if (name.starts_with("llvm.stacksave")) { ret = mkConst(0, 64); return true; }
        if (name.starts_with("llvm.trap")) { if (feasible(s)) report("trap", "reaches a trap", curI, true); throw Undecided{"trap"}; }
        if (name.starts_with("llvm.ceil") || name.starts_with("llvm.floor") || name.starts_with("llvm.fabs") || name.starts_with("llvm.trunc.") || name.starts_with("llvm.rint") || name.starts_with("llvm.round")) {
            if (!isC(a[0])) throw Undecided{"symbolic floating point"}; double d = fpVal(a[0]);
            d = name.starts_with("llvm.ceil") ? ceil(d) : name.starts_with("llvm.floor") ? floor(d) : name.starts_with("llvm.fabs") ? fabs(d) : name.starts_with("llvm.trunc") ? trunc(d) : name.starts_with("llvm.rint") ? rint(d) : round(d);
            ret = fpConst(d, a[0]->w); return true; }
        if (name.starts_with("llvm.fmuladd")) { if (!isC(a[0]) || !isC(a[1]) || !isC(a[2])) throw Undecided{"symbolic floating point"}; ret = fpConst(fpVal(a[0]) * fpVal(a[1]) + fpVal(a[2]), a[0]->w); return true; }
        if (name.starts_with("llvm.bswap")) { std::vector<Node *> p; for (int i = (int)a[0]->w / 8 - 1; i >= 0; i--) p.push_back(mkExtract(a[0], (unsigned)i * 8, 8)); ret = mkConcat(p); return true; }
        if (name.starts_with("llvm.fshl") || name.starts_with("llvm.fshr")) {
            unsigned w = a[0]->w; bool l = name.starts_with("llvm.fshl"); Node *sh = mkBin(UREM, a[2], mkConst(w, w));
            if (isC(sh)) { u64 k = sh->k; if (l) ret = k ? mkConcat({mkExtract(a[1], (unsigned)(w - k), (unsigned)k), mkExtract(a[0], 0, (unsigned)(w - k))}) : a[0]; else ret = k ? mkConcat({mkExtract(a[1], (unsigned)k, (unsigned)(w - k)), mkExtract(a[0], 0, (unsigned)k)}) : a[1]; }
            else { Node *inv = mkSub(mkConst(w, w), sh); Node *x = l ? mkBin(OR, mkBin(SHL, a[0], sh), mkBin(LSHR, a[1], inv)) : mkBin(OR, mkBin(SHL, a[0], inv), mkBin(LSHR, a[1], sh)); ret = mkIte(mkEq(sh, mkConst(0, w)), l ? a[0] : a[1], x); }
            return true; }
        if (name.starts_with("llvm.umin")) { ret = mkIte(mkUlt(a[0], a[1]), a[0], a[1]); return true; }
        if (name.starts_with("llvm.umax")) { ret = mkIte(mkUlt(a[0], a[1]), a[1], a[0]); return true; }
        if (name.starts_with("llvm.smin")) { ret = mkIte(mkSlt(a[0], a[1]), a[0], a[1]); return true; }
        if (name.starts_with("llvm.smax")) { ret = mkIte(mkSlt(a[0], a[1]), a[1], a[0]); return true; }
        if (name.starts_with("llvm.abs")) { ret = mkIte(mkSlt(a[0], mkConst(0, a[0]->w)), mkSub(mkConst(0, a[0]->w), a[0]), a[0]); return true; }
        if (name.starts_with("llvm.expect")) { ret = a[0]; return true; }
        if (name.starts_with("llvm.ctpop") || name.starts_with("llvm.ctlz") || name.starts_with("llvm.cttz")) { if (!isC(a[0])) throw Undecided{"symbolic bit count"}; u64 k = a[0]->k; unsigned w = a[0]->w; u64 r = name.starts_with("llvm.ctpop") ? (u64)__builtin_popcountll(k) : name.starts_with("llvm.ctlz") ? (k ? (u64)__builtin_clzll(k) - (64 - w) : w) : (k ? (u64)__builtin_ctzll(k) : w); ret = mkConst(r, w); return true; }
        if (name.contains(".with.overflow.i") && !a.empty() && a[0]->op == AGG) {
            if (name.starts_with("llvm.uadd")) { Node *r = wideAdd(a[0], a[1]); ret = mkAgg({r, wideUlt(r, a[0], false)}); return true; }
            if (name.starts_with("llvm.usub")) { ret = mkAgg({wideSub(a[0], a[1]), wideUlt(a[0], a[1], false)}); return true; }
            auto neg = [](Node *x) { return mkExtract(x->kid[1], x->kid[1]->w - 1, 1); };
            if (name.starts_with("llvm.sadd")) { Node *r = wideAdd(a[0], a[1]); ret = mkAgg({r, mkBin(AND, mkNot(mkBin(XOR, neg(a[0]), neg(a[1]))), mkBin(XOR, neg(r), neg(a[0])))}); return true; }
            if (name.starts_with("llvm.ssub")) { Node *r = wideSub(a[0], a[1]); ret = mkAgg({r, mkBin(AND, mkBin(XOR, neg(a[0]), neg(a[1])), mkBin(XOR, neg(r), neg(a[0])))}); return true; }
            if (name.starts_with("llvm.smul") && isC(a[0]->kid[1]) && !a[0]->kid[1]->k && isC(a[1]->kid[1]) && !a[1]->kid[1]->k && a[0]->kid[1]->w == 64) { Node *h = mulHi(a[0]->kid[0], a[1]->kid[0]); ret = mkAgg({mkAgg({mkBin(MUL, a[0]->kid[0], a[1]->kid[0]), h}), mkSlt(h, mkConst(0, 64))}); return true; }
        }
        for (Node *x : a) if (x && x->op == AGG && name.starts_with("llvm.")) throw Undecided{"intrinsic on a wide integer"};
        if (name.starts_with("llvm.sadd.with.overflow") || name.starts_with("llvm.ssub.with.overflow")) { bool add = name[6] == 'a'; unsigned w = a[0]->w; Node *r = add ? mkBin(ADD, a[0], a[1]) : mkSub(a[0], a[1]), *x = mkExtract(a[0], w - 1, 1), *y = mkExtract(a[1], w - 1, 1), *q = mkBin(XOR, x, y); ret = mkAgg({r, mkBin(AND, add ? mkNot(q) : q, mkBin(XOR, mkExtract(r, w - 1, 1), x))}); return true; }
        if (name.starts_with("llvm.smul.with.overflow") && isC(a[0]) && isC(a[1])) { unsigned w = a[0]->w; __int128 r = (__int128)sx(a[0]->k, w) * sx(a[1]->k, w); ret = mkAgg({mkConst((u64)r, w), mkBool(r != (__int128)sx((u64)r & (w >= 64 ? ~0ull : (1ull << w) - 1), w))}); return true; }
        if (name.starts_with("llvm.umul.with.overflow")) { unsigned w = a[0]->w; if (isC(a[0]) && isC(a[1])) { u128 r = (u128)a[0]->k * a[1]->k; ret = mkAgg({mkConst((u64)r, w), mkBool((r >> w) != 0)}); } else { u128 r = (u128)a[0]->umax * a[1]->umax; if (r >> w) throw Undecided{"symbolic multiplication overflow"}; ret = mkAgg({mkBin(MUL, a[0], a[1]), mkBool(false)}); } return true; }
        if (name.starts_with("llvm.uadd.with.overflow")) { Node *r = mkBin(ADD, a[0], a[1]); ret = mkAgg({r, mkUlt(r, a[0])}); return true; }
        if (name.starts_with("llvm.usub.with.overflow")) { ret = mkAgg({mkSub(a[0], a[1]), mkUlt(a[0], a[1])}); return true; }
        if (name.starts_with("llvm.eh.typeid.for")) { ret = mkConst(typeIdOf(a[0]) + 1, 32); return true; }
        if (name.starts_with("llvm.va_copy")) { copyMem(s, a[0], a[1], mkConst(24, 64), true); return true; }
        if (name.starts_with("llvm.va_start")) {
            unsigned gp = 0, fp = 0; for (auto &arg : caller->fn->F->args()) { if (arg.hasByValAttr()) continue; if (arg.getType()->isFloatingPointTy()) fp++; else gp++; }
            if (gp > 6) gp = 6; if (fp > 8) fp = 8;
            u32 area = newObj(s, 176, K_STACK, "variadic register area"); caller->objs.push_back(area);
            std::vector<std::pair<Node *, unsigned>> over; unsigned g = gp, f = fp;
            for (auto &v : caller->var) { Node *n = v.first; if (!n->w) throw Undecided{"aggregate vararg"}; unsigned by = (n->w + 7) / 8;
                if (v.second->isFloatingPointTy()) { if (f < 8) { storeAt(s, area, 48 + 16 * f++, by, n, locOf(curI)); continue; } }
                else if (g < 6) { storeAt(s, area, 8 * g++, by, n, locOf(curI)); continue; }
                over.push_back({n, by}); }
            u32 ov = newObj(s, over.size() * 8, K_STACK, "variadic arguments"); caller->objs.push_back(ov);
            for (size_t i = 0; i < over.size(); i++) storeAt(s, ov, i * 8, over[i].second, over[i].first, locOf(curI));
            storeMem(s, a[0], 4, mkConst(gp * 8, 32)); storeMem(s, mkBin(ADD, a[0], mkConst(4, 64)), 4, mkConst(48 + fp * 16, 32));
            storeMem(s, mkBin(ADD, a[0], mkConst(8, 64)), 8, mkPtr(ov, mkConst(0, 64))); storeMem(s, mkBin(ADD, a[0], mkConst(16, 64)), 8, mkPtr(area, mkConst(0, 64)));
            return true; }
        throw Undecided{"intrinsic " + name.str()};
    }
    if (name == "ceil" || name == "floor" || name == "fabs" || name == "trunc" || name == "round" || name == "rint" || name == "sqrt" || name == "log2" || name == "log") { if (!isC(a[0])) throw Undecided{"symbolic floating point"}; double d = fpVal(a[0]); d = name == "ceil" ? ceil(d) : name == "floor" ? floor(d) : name == "fabs" ? fabs(d) : name == "trunc" ? trunc(d) : name == "round" ? round(d) : name == "rint" ? rint(d) : name == "sqrt" ? sqrt(d) : name == "log2" ? log2(d) : log(d); ret = fpConst(d, 64); return true; }
    if (name == "pow") { if (!isC(a[0]) || !isC(a[1])) throw Undecided{"symbolic floating point"}; ret = fpConst(pow(fpVal(a[0]), fpVal(a[1])), 64); return true; }
    if (name == "memcpy" || name == "__memcpy_chk") { copyMem(s, a[0], a[1], a[2], false); ret = a[0]; return true; }
    if (name == "memmove" || name == "__memmove_chk") { copyMem(s, a[0], a[1], a[2], true); ret = a[0]; return true; }
    if (name == "memset" || name == "__memset_chk") { setMem(s, a[0], mkExtract(a[1], 0, 8), a[2]); ret = a[0]; return true; }
    auto alloc = [&](Node *sz, Kind k) { u64 n = concreteLen(sz, s, "allocation size"); u32 id = newObj(s, n, k, ""); ret = mkPtr(id, mkConst(0, 64)); return id; };
    bool isNew = name.starts_with("_Znwm") || name.starts_with("_Znam");
    if ((isNew || name == "malloc" || name == "calloc" || name == "realloc" || name == "strdup" || name == "aligned_alloc") && failNow()) {
        if (isNew && !name.contains("nothrow")) { u.c = mkBool(true); u.st = s; u.exc = mkConst(0, 64); u.type = ANYEXC; normal = false; } else ret = mkConst(0, 64);
        return true; }
    if (name == "malloc") { alloc(a[0], K_MALLOC); return true; }
    if (name == "calloc") { u32 id = alloc(mkBin(MUL, P(a[0]), P(a[1])), K_MALLOC); for (auto &c : objW(s, id)->b) c = {mkConst(0, 8), 0, 0}; return true; }
    if (name == "realloc") { Node *old = P(a[0]); u32 id = alloc(a[1], K_MALLOC); if (old->op == PTR) { const Obj *o = objOf(s, (u32)old->k); if (!o || o->freed) report("bad release", "realloc of a dead object", curI, true); u64 n = std::min(o->size, objOf(s, id)->size); if (n) copyMem(s, ret, old, mkConst(n, 64), true); freeObj(s, old, K_MALLOC, "realloc"); } return true; }
    if (name == "free" || name == "cfree") { freeObj(s, a[0], K_MALLOC, "free()"); return true; }
    if (name == "_Znwm" || name == "_ZnwmRKSt9nothrow_t" || name == "_ZnwmSt11align_val_t") { alloc(a[0], K_NEW); return true; }
    if (name == "_Znam" || name == "_ZnamRKSt9nothrow_t") { alloc(a[0], K_NEWARR); return true; }
    if (name.starts_with("_ZdlPv")) { freeObj(s, a[0], K_NEW, "delete", name.starts_with("_ZdlPvm") ? P(a[1]) : nullptr); return true; }
    if (name.starts_with("_ZdaPv")) { freeObj(s, a[0], K_NEWARR, "delete[]", name.starts_with("_ZdaPvm") ? P(a[1]) : nullptr); return true; }
    if (name == "__cxa_atexit" || name == "__cxa_thread_atexit" || name == "pthread_mutex_init" || name == "pthread_mutex_destroy") { ret = mkConst(0, 32); return true; }
    if (name == "pthread_mutex_lock" || name == "pthread_mutex_unlock" || name == "pthread_mutex_trylock" || name.starts_with("pthread_rwlock_")) {
        if (name.ends_with("_init") || name.ends_with("_destroy")) { ret = mkConst(0, 32); return true; }
        Node *p = P(a[0]); if (p->op != PTR || !isC(p->kid[0])) throw Undecided{"lock of an unresolved mutex"};
        u32 so = curOp; curOp = 0; bool okAcc = checkAcc(s, (u32)p->k, p->kid[0]->k, 4, true, nullptr); curOp = so; if (!okAcc) throw Undecided{"lock"};
        std::pair<u32, u64> key{(u32)p->k, p->kid[0]->k}; size_t mi = (size_t)(std::find(mutexes.begin(), mutexes.end(), key) - mutexes.begin()); if (mi == mutexes.size()) mutexes.push_back(key);
        u64 w = lockWord(s, mi); bool rw = name.starts_with("pthread_rwlock_"), rec = false; if (!rw) { const Obj *mo = objOf(s, key.first); Cell c{nullptr, 0, 0}; if (key.second + 17 <= mo->size) c = mo->b[key.second + 16]; rec = c.n && isC(c.n) && (c.n->k >> 8 * c.lo & 3) == 1; }
        auto set = [&](u64 v) { storeAt(s, key.first, key.second, 4, mkConst(v, 32), locOf(curI)); }; ret = mkConst(0, 32);
        if (name.ends_with("unlock")) { if (!w) note("lock misuse", "a mutex that is not held is unlocked", curI); else set(w == 1001 || w < 1000 ? (w == 1001 ? 0 : w - 1) : w - 1); return true; }
        bool rd = name.contains("rdlock"), tr = name.contains("try");
        if (w && !rec && !(rd && w > 1000)) { if (tr) { ret = mkConst(16, 32); return true; } report("deadlock", "a mutex that is already held is locked again", curI, true); }
        for (size_t i = 0; i < mutexes.size(); i++) if (i != mi && lockWord(s, i) && !tr) { lockOrder.insert({(int)i, (int)mi}); if (lockOrder.count({(int)mi, (int)i})) note("lock order", "two mutexes are taken in both orders", curI); }
        set(rd ? (w ? w + 1 : 1001) : w + 1); return true; }
    if (name == "__cxa_guard_acquire") { inGuard++; Node *g = loadMem(s, a[0], 1, 8); ret = mkZext(mkEq(g, mkConst(0, 8)), 32); if (isC(g) && g->k) inGuard--; return true; }
    if (name == "__cxa_guard_release") { inGuard--; storeMem(s, a[0], 1, mkConst(1, 8)); return true; }
    if (name == "__cxa_guard_abort") { inGuard--; return true; }
    if (name == "__cxa_allocate_exception") { alloc(a[0], K_EXC); return true; }
    if (name == "__cxa_free_exception") return true;
    if (name == "__cxa_throw") { u.c = mkBool(true); u.st = s; u.exc = a[0]; u.type = typeIdOf(a[1]); normal = false; return true; }
    if (name == "__cxa_rethrow") { u.c = mkBool(true); u.st = s; u.exc = mkConst(0, 64); u.type = ANYEXC; normal = false; return true; }
    if (name == "__cxa_begin_catch" || name == "__cxa_get_exception_ptr") { ret = a[0]; return true; }
    if (name == "__cxa_end_catch") return true;
    if (name == "_ZSt9terminatev" || name == "__clang_call_terminate" || name == "__cxa_call_unexpected" || name == "__cxa_pure_virtual" || name == "abort" || name == "__assert_fail" || name == "exit" || name == "_exit" || name == "_ZSt21__glibcxx_assert_failPKciS0_S0_" || name == "__cxa_deleted_virtual") { if (feasible(s)) report("abnormal termination", "reaches " + demangle(name.str()), curI, true); throw Undecided{"terminate"}; }
    if (name.starts_with("_ZSt") && name.contains("__throw_")) { u.c = mkBool(true); u.st = s; u.exc = mkConst(0, 64); u.type = ANYEXC; normal = false; return true; }
    if (name == "_ZNSt9exceptionD2Ev" || name == "_ZNSt9exceptionD1Ev") return true;
    if (!name.starts_with("sv_")) return false;
    // ---- specification primitives
    auto I64 = [&](int i) { Node *n = P(a[(size_t)i]); if (!isC(n)) throw Undecided{"symbolic argument of specification primitive " + name.str() + ": " + show(n)}; return n->k; };
    if (name == "sv_bytes") { Node *p = P(a[0]); u64 n = I64(1); std::string nm = cstr(s, a[2]); if (!n) return true; if (p->op != PTR) throw Undecided{"sv_bytes"}; Obj *o = objW(s, (u32)p->k); u64 off = p->kid[0]->k; if (off + n > o->size) throw Undecided{"sv_bytes beyond object"}; for (u64 i = 0; i < n; i++) o->b[off + i] = {mkAtom(nm + "[" + std::to_string(i) + "]", 8), 0, 0}; return true; }
    if (name == "sv_u8" || name == "sv_u32" || name == "sv_u64") { ret = mkAtom(cstr(s, a[0]), name == "sv_u8" ? 8 : name == "sv_u32" ? 32 : 64); return true; }
    if (name == "sv_char") { Bits d; for (unsigned i = 0; i < 32; i++) { Node *b = loadMem(s, mkBin(ADD, P(a[1]), mkConst(i, 64)), 1, 8); if (!isC(b)) throw Undecided{"sv_char"}; for (unsigned j = 0; j < 8; j++) if (b->k >> j & 1) d[i * 8 + j] = 1; } if (d.count() == 1) { for (unsigned i = 0; i < 256; i++) if (d[i]) ret = mkConst(i, 8); return true; } ret = mkAtom(cstr(s, a[0]), 8, true, &d); return true; }
    if (name == "sv_buf") { u32 id = newObj(s, I64(0), K_SPEC, ""); ret = mkPtr(id, mkConst(0, 64)); return true; }
    if (name == "sv_cbuf") { u64 n = I64(1); u32 id = newObj(s, n, K_SPEC, "input"); ret = mkPtr(id, mkConst(0, 64)); if (n) copyMem(s, ret, a[0], mkConst(n, 64), true); objW(s, id)->ro = true; return true; }
    if (name == "sv_const") { Node *p = P(a[0]); objW(s, (u32)p->k)->ro = true; return true; }
    if (name == "sv_free") { Node *p = P(a[0]); Obj *o = objW(s, (u32)p->k); o->freed = true; o->b.clear(); o->b.shrink_to_fit(); return true; }
    if (name == "sv_undefined") { Node *p = P(a[0]); u64 n = I64(1); Obj *o = objW(s, (u32)p->k); for (u64 i = 0; i < n; i++) o->b[p->kid[0]->k + i] = {nullptr, 0, 0}; return true; }
    if (name == "sv_known") { Node *p = P(a[0]); u64 n = I64(1); const Obj *o = objOf(s, (u32)p->k); bool ok = o && p->op == PTR && isC(p->kid[0]) && p->kid[0]->k + n <= o->b.size(); for (u64 i = 0; ok && i < n; i++) { Node *b = o->b[p->kid[0]->k + i].n; ok = b && isC(b); } ret = mkConst(ok, 32); return true; }
    if (name == "sv_case") { char b[96]; snprintf(b, 96, " %llu/%llu/%llu", (unsigned long long)I64(1), (unsigned long long)I64(2), (unsigned long long)I64(3)); curCase = cstr(s, a[0]) + b; nCases++; return true; }
    if (name == "sv_eq") {
        u64 n = I64(2); std::vector<std::pair<Node *, Node *>> ps; std::vector<u32> lo; Node *pa = P(a[0]);
        for (u64 i = 0; i < n; i++) { Node *off = mkConst(i, 64); ps.push_back({loadMem(s, mkBin(ADD, a[0], off), 1, 8), loadMem(s, mkBin(ADD, a[1], off), 1, 8)}); u32 l = 0; if (pa->op == PTR && isC(pa->kid[0])) { const Obj *o = objOf(s, (u32)pa->k); l = o->b[pa->kid[0]->k + i].loc; } lo.push_back(l); }
        provEq(s, ps, cstr(s, a[3]), lo); return true; }
    if (name == "sv_eq64") { provEq(s, {{a[0], a[1]}}, cstr(s, a[2]), {}); return true; }
    if (name == "sv_true") { nTrue++; Node *c = a[0]; Node *t = mkNot(mkEq(c, mkConst(0, c->w))); std::string what = cstr(s, a[1]);
        if (c->undef && undefWitness(c, s)) { report("uninitialised", what + ": depends on an indeterminate value", curI, false); return true; }
        if (isC(t) && t->k) { nEqProven++; return true; } provEq(s, {{t, mkBool(true)}}, what, {}); return true; }
    if (name == "sv_defined") { nDef++; u64 n = I64(1); std::string what = cstr(s, a[2]); for (u64 i = 0; i < n; i++) { Node *b = loadMem(s, mkBin(ADD, a[0], mkConst(i, 64)), 1, 8); if (b->undef && undefWitness(b, s)) { report("uninitialised", what + ": byte " + std::to_string(i) + " is indeterminate", curI, false); break; } } return true; }
    if (name == "sv_mark") { ret = mkConst(baseObjs.size(), 64); return true; }
    if (name == "sv_noleak") {
        u64 m = I64(0); std::set<u32> held; bool followed = false;
        for (auto &e : s.mem) if (e.first >= m && !e.second->freed && (e.second->kind == K_MALLOC || e.second->kind == K_NEW || e.second->kind == K_NEWARR)) {
            if (!followed) { held = heldByStatics(s); followed = true; } if (held.count(e.first)) continue;
            report("leak", cstr(s, a[1]) + ": " + objDesc(e.second.get(), e.first) + " is never released", locs[e.second->loc], false); break; }
        nTrue++; return true; }
    if (name == "sv_oblivious") { oblivious = (int)I64(0); return true; }
    if (name == "sv_op") { curOp = (u32)I64(0); return true; }
    if (name == "sv_locks_held") { u32 m = heldMask(s, false); ret = mkConst((u64)__builtin_popcount(m), 32); return true; }
    if (name == "sv_fail_alloc") { failAt = I64(0); allocSeen = 0; return true; }
    if (name == "sv_alloc_failed") { ret = mkConst(failAt && allocSeen >= failAt, 32); failAt = 0; return true; }
    if (name == "sv_tier") { ret = mkConst((u64)tier, 32); return true; }
    if (name == "sv_nthresh") { ret = mkConst(thresholds.size(), 32); return true; }
    if (name == "sv_thresh") { u64 i = I64(0); ret = mkConst(thresholds[i % thresholds.size()], 64); return true; }
    if (name == "sv_unsupported") throw Undecided{"unsupported " + cstr(s, a[0])};
    if (name == "sv_objsize") { Node *p = P(a[0]); if (p->op != PTR) throw Undecided{"sv_objsize"}; const Obj *o = objOf(s, (u32)p->k); ret = mkConst(o ? o->size : 0, 64); return true; }
    throw Undecided{"unknown primitive " + name.str()};
}

static Node *val(Frame &f, const Opnd &o) { if (o.c) return o.c; if (o.r >= 0) { Node *n = f.r[(size_t)o.r]; if (!n) throw Undecided{"value lost at a join at " + where(curI)}; return n; } throw Undecided{"unsupported operand at " + where(curI)}; }
static bool doCall(Frame &f, State &s, const Ins &in, Unw &u) { // true: returns normally
    auto *cb = cast<CallBase>(in.I); size_t na = in.o.size() - 1; nCalls++;
    Function *F = nullptr;
    Node *callee = in.o[na].c;
    if (!callee) { if (isa<InlineAsm>(cb->getCalledOperand())) throw Undecided{"inline assembly"}; callee = resolvePtr(val(f, in.o[na]), s); }
    if (callee->op == PTR && isC(callee->kid[0]) && callee->kid[0]->k == 0 && callee->k < objGlobal.size()) F = const_cast<Function *>(dyn_cast_or_null<Function>(objGlobal[callee->k]));
    if (!F) badPtr(callee, s, "call");
    std::vector<Node *> args; std::vector<std::pair<Node *, Type *>> var; unsigned fixed = F->getFunctionType()->getNumParams();
    if (F->isIntrinsic() && F->getName().starts_with("llvm.dbg")) return true;
    for (size_t i = 0; i < na; i++) { Node *v = val(f, in.o[i]); if (i < fixed) args.push_back(v); else var.push_back({v, cb->getArgOperand((unsigned)i)->getType()}); }
    if (args.size() < fixed) throw Undecided{"call with too few arguments"};
    for (size_t i = 0; i < args.size(); i++) { unsigned w = typeW(F->getArg((unsigned)i)->getType()); if (w && args[i]->w && args[i]->w != w) { // called through a different prototype: upper bits indeterminate
            if (args[i]->w > w) args[i] = mkExtract(args[i], 0, w); else args[i] = mkConcat({args[i], mkUndef(w - args[i]->w)}); } }
    Node *ret = nullptr; bool normal = true;
    Unw nu;
    if (F->isDeclaration() || F->getName().starts_with("sv_") || F->getName() == "__clang_call_terminate") {
        if (!native(F, F->getName(), args, s, ret, nu, normal, &f)) throw Undecided{"call of external function " + demangle(F->getName().str()) + " at " + where(curI)};
    } else {
        for (size_t i = 0; i < args.size(); i++) if (F->getArg((unsigned)i)->hasByValAttr()) { u64 n = DL->getTypeAllocSize(F->getArg((unsigned)i)->getParamByValType()); u32 id = newObj(s, n, K_STACK, "argument"); f.objs.push_back(id); Node *q = mkPtr(id, mkConst(0, 64)); copyMem(s, q, args[i], mkConst(n, 64), true); args[i] = q; }
        const Instruction *save = curI; callStack.push_back(in.I);
        if (callStack.size() > 400) { if (feasible(s)) report("unbounded recursion", "call depth exceeds 400", curI, true); throw Undecided{"recursion"}; }
        normal = callFunction(F, args, var, s, ret, nu, cb);
        callStack.pop_back(); curI = save;
    }
    if (nu.c) { u = nu; }
    if (normal && in.w != 0 && in.w != 999 && ret && ret->w != in.w && ret->w) ret = ret->w > in.w ? mkExtract(ret, 0, in.w) : mkConcat({ret, mkUndef(in.w - ret->w)});
    if (normal) { if (!in.I->getType()->isVoidTy()) f.r[(size_t)in.dst] = ret ? ret : undefOf(in.I->getType()); }
    return normal;
}

static void addUnw(Unw &acc, Unw &n) { // n happens after acc's condition was false
    if (!n.c) return;
    if (!acc.c) { acc = n; return; }
    if (acc.type != n.type) throw Undecided{"several exceptions"};
    joinState(acc.c, acc.st, n.st); if (acc.exc != n.exc) acc.exc = mkIte(acc.c, acc.exc, n.exc); acc.c = mkBin(OR, acc.c, n.c);
}

static void gotoBlk(Frame &f, int from, int to) {
    Blk &b = f.fn->blks[(size_t)to]; if (b.phis.empty()) return;
    std::vector<Node *> v; for (auto &p : b.phis) { Node *x = nullptr; for (size_t i = 0; i < p.gep.size(); i++) if (p.gep[i].first == from) { x = p.o[i].c ? p.o[i].c : p.o[i].r >= 0 ? f.r[(size_t)p.o[i].r] : nullptr; break; } if (!x) throw Undecided{"phi"}; v.push_back(x); }
    for (size_t i = 0; i < v.size(); i++) f.r[(size_t)b.phis[i].dst] = v[i];
}
static bool runTo(Frame &f, State &s, int blk, int stop, Unw &u);

static void joinFrames(Node *c, Frame &a, Frame &b, int p) {
    Fn *fn = a.fn;
    std::set<int> keep; if (p < (int)fn->blks.size()) for (auto &ph : fn->blks[(size_t)p].phis) keep.insert(ph.dst);
    for (size_t i = 0; i < a.r.size(); i++) if (a.r[i] != b.r[i]) {
        if (fn->isSlot[i]) a.r[i] = mkIte(c, orUndef(a.r[i], fn->slotW[i]), orUndef(b.r[i], fn->slotW[i]));
        else if (keep.count((int)i) && a.r[i] && b.r[i]) a.r[i] = mkIte(c, a.r[i], b.r[i]);
        else a.r[i] = nullptr;
    }
    if (a.rv != b.rv) a.rv = !a.rv ? b.rv : !b.rv ? a.rv : mkIte(c, a.rv, b.rv);
    for (u32 o : b.objs) if (std::find(a.objs.begin(), a.objs.end(), o) == a.objs.end()) a.objs.push_back(o);
}
// both successors of an undecided choice, joined at `p`; returns whether p is reached
static bool fork2(Frame &f, State &s, Node *c, int from, int t1, int t2, int p, Unw &u, const std::function<bool(Frame &, State &, int, Unw &)> &side) {
    nFork++; (void)from;
    Frame f2 = f; State s2 = s; size_t plen = s.path.size(); auto masks = s.masks;
    Unw u1, u2; bool r1 = false, r2 = false;
    if (assume(c, true, s)) r1 = side(f, s, t1, u1);
    if (assume(c, false, s2)) r2 = side(f2, s2, t2, u2);
    if (u1.c || u2.c) {
        Unw n;
        if (u1.c && u2.c) { if (u1.type != u2.type) throw Undecided{"several exceptions"}; n = u1; joinState(c, n.st, u2.st); n.c = mkIte(c, u1.c, u2.c); if (u1.exc != u2.exc) n.exc = mkIte(c, u1.exc, u2.exc); }
        else if (u1.c) { n = u1; n.c = mkBin(AND, c, u1.c); } else { n = u2; n.c = mkBin(AND, mkNot(c), u2.c); }
        addUnw(u, n);
    }
    (void)p;
    if (r1 && r2) { joinState(c, s, s2); joinFrames(c, f, f2, p); s.path.resize(std::min(plen, s.path.size())); s.masks = masks; }
    else if (r2) { f = f2; s = s2; }
    return r1 || r2;
}

// ---- loops that never end.  At every back edge of a library loop that the analysis follows without forking, the state is compared
// with an earlier one at the same place (kept at the 512th, 1024th, 2048th ... visit): an equal state means that the loop goes on for ever.
struct Snap { u32 visits = 0; std::vector<Node *> r; State s; };
static bool sameObj(const Obj &a, const Obj &b) {
    if (a.size != b.size || a.freed != b.freed || a.b.size() != b.b.size()) return false;
    for (size_t i = 0; i < a.b.size(); i++) if (a.b[i].n != b.b[i].n || a.b[i].lo != b.b[i].lo) return false;
    return true;
}
static bool sameState(const State &a, const State &b) { // b is the later one
    if (a.path != b.path || a.masks.size() != b.masks.size()) return false;
    for (auto &o : a.mem) if (!b.mem.count(o.first)) return false;
    for (auto &o : b.mem) {
        auto it = a.mem.find(o.first); const Obj *x = it != a.mem.end() ? it->second.get() : o.first < baseObjs.size() ? baseObjs[o.first].get() : nullptr;
        if (x == o.second.get()) continue;
        if (!x) { if (o.second->freed) continue; return false; }
        if (!sameObj(*x, *o.second)) return false;
    }
    return true;
}
static void endless(Frame &f, State &s, int to, std::map<int, Snap> &snaps) {
    Snap &sn = snaps[to]; u32 v = ++sn.visits; if (v < 512) return;
    if ((v & (v - 1)) == 0) { sn.r = f.r; sn.s = s; return; }
    Fn *fn = f.fn;
    for (size_t i = 0; i < f.r.size(); i++) if (fn->isSlot[i] && f.r[i] != sn.r[i]) return;
    for (auto &p : fn->blks[(size_t)to].phis) if (f.r[(size_t)p.dst] != sn.r[(size_t)p.dst]) return;
    if (!sameState(sn.s, s)) return;
    if (feasible(s)) report("endless loop", "the loop comes back to a state it was in before: the call never returns", curI, true);
    throw Undecided{"endless loop"};
}
static Node *wideOp(Frame &f, State &s, const Ins &in) {
    Node *a = val(f, in.o[0]), *b = in.o.size() > 1 ? val(f, in.o[1]) : nullptr; unsigned h = wideW(in.I->getType());
    auto both = [&](Op op) { return mkAgg({mkBin(op, a->kid[0], b->kid[0]), mkBin(op, a->kid[1], b->kid[1])}); };
    switch (in.op) {
    case Instruction::Add: return wideAdd(a, b);
    case Instruction::Sub: return wideSub(a, b);
    case Instruction::Mul: { Node *hi = mulHi(a->kid[0], b->kid[0]), *x = mkZext(a->kid[1], 64), *y = mkZext(b->kid[1], 64); hi = mkBin(ADD, hi, mkBin(ADD, mkBin(MUL, a->kid[0], y), mkBin(MUL, x, b->kid[0]))); return wide(mkBin(MUL, a->kid[0], b->kid[0]), hi, h); }
    case Instruction::And: return both(AND); case Instruction::Or: return both(OR); case Instruction::Xor: return both(XOR);
    case Instruction::UDiv: case Instruction::URem: {
        if (!isC(b->kid[0]) || !isC(b->kid[1]) || b->kid[1]->k || !b->kid[0]->k) throw Undecided{"division of wide integers"}; u64 d = b->kid[0]->k; bool div = in.op == Instruction::UDiv;
        if ((d & (d - 1)) == 0) { unsigned k = 0; while (d >> k != 1) k++; if (!div) return wide(mkBin(AND, a->kid[0], mkConst(d - 1, 64)), mkConst(0, h), h); if (!k) return a; Node *x = mkZext(a->kid[1], 64); return wide(mkBin(OR, mkBin(LSHR, a->kid[0], mkConst(k, 64)), mkBin(SHL, x, mkConst(64 - k, 64))), mkBin(LSHR, x, mkConst(k, 64)), h); }
        if (isC(a->kid[0]) && isC(a->kid[1])) { u128 v = (u128)a->kid[1]->k << 64 | a->kid[0]->k; v = div ? v / d : v % d; return wide(mkConst((u64)v, 64), mkConst((u64)(v >> 64), 64), h); }
        if (isC(a->kid[1]) && !a->kid[1]->k) return wide(mkBin(div ? UDIV : UREM, a->kid[0], b->kid[0]), mkConst(0, h), h);
        throw Undecided{"division of wide integers"}; }
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
        Node *sh = resolvePtr(b->kid[0], s); if (!isC(sh) || !isC(b->kid[1]) || b->kid[1]->k) throw Undecided{"symbolic shift of a wide integer"}; u64 k = sh->k;
        if (k >= 64 + h) { if (feasible(s)) report("oversized shift", "shift of a " + std::to_string(64 + h) + "-bit value by " + std::to_string(k), curI, false); return undefOf(in.I->getType()); }
        if (!k) return a; Node *lo = a->kid[0], *c = mkConst(k & 63, 64), *inv = mkConst(64 - (k & 63), 64); bool part = k & 63;
        if (in.op == Instruction::Shl) { if (k >= 64) return wide(mkConst(0, 64), part ? mkBin(SHL, lo, c) : lo, h); return wide(mkBin(SHL, lo, c), mkBin(OR, mkBin(SHL, mkZext(a->kid[1], 64), c), mkBin(LSHR, lo, inv)), h); }
        bool ar = in.op == Instruction::AShr; Node *hi = h == 64 ? a->kid[1] : ar ? mkSext(a->kid[1], 64) : mkZext(a->kid[1], 64), *fill = ar ? mkBin(ASHR, hi, mkConst(63, 64)) : mkConst(0, 64); auto down = [&](Node *x, Node *y) { return mkBin(ar ? ASHR : LSHR, x, y); };
        if (k >= 64) return wide(part ? down(hi, c) : hi, fill, h);
        return wide(mkBin(OR, mkBin(LSHR, lo, c), mkBin(SHL, hi, inv)), down(hi, c), h); }
    case Instruction::ICmp: switch (cast<ICmpInst>(in.I)->getPredicate()) {
        case CmpInst::ICMP_EQ: return wideEq(a, b); case CmpInst::ICMP_NE: return mkNot(wideEq(a, b));
        case CmpInst::ICMP_ULT: return wideUlt(a, b, false); case CmpInst::ICMP_UGT: return wideUlt(b, a, false); case CmpInst::ICMP_ULE: return mkNot(wideUlt(b, a, false)); case CmpInst::ICMP_UGE: return mkNot(wideUlt(a, b, false));
        case CmpInst::ICMP_SLT: return wideUlt(a, b, true); case CmpInst::ICMP_SGT: return wideUlt(b, a, true); case CmpInst::ICMP_SLE: return mkNot(wideUlt(b, a, true)); default: return mkNot(wideUlt(a, b, true)); }
    case Instruction::Trunc: return h ? wide(a->kid[0], a->kid[1], h) : mkExtract(a->kid[0], 0, in.w);
    case Instruction::ZExt: return a->op == AGG ? wide(a->kid[0], a->kid[1], h) : wide(mkZext(a, 64), mkConst(0, h), h);
    case Instruction::SExt: { if (a->op == AGG) return mkAgg({a->kid[0], mkSext(a->kid[1], h)}); Node *lo = mkSext(a, 64); return wide(lo, mkBin(ASHR, lo, mkConst(63, 64)), h); }
    case Instruction::UIToFP: if (isC(a->kid[0]) && isC(a->kid[1]) && !a->kid[1]->k) return fpConst((double)a->kid[0]->k, in.w); throw Undecided{"wide integer in floating point"};
    default: throw Undecided{"operation on a wide integer"}; }
}
static bool runTo(Frame &f, State &s, int blk, int stop, Unw &u) {
    Fn *fn = f.fn; int nexit = (int)fn->blks.size(); std::map<int, Snap> snaps;
    while (true) {
        if (blk == stop) return true;
        Blk &b = fn->blks[(size_t)blk]; int next = -1;
        for (size_t ii = 0; ii < b.ins.size(); ii++) {
            const Ins &in = b.ins[ii]; curI = in.I;
            if (stopNow) throw Undecided{"time limit"}; if (++nInstr > instrBudget) throw Undecided{"analysis budget exhausted"};
            Node *r = nullptr;
            if (in.wide) { r = wideOp(f, s, in); f.r[(size_t)in.dst] = r; continue; }
            switch (in.op) {
            case Instruction::Alloca:
                if (in.slot >= 0) { f.r[(size_t)in.slot] = nullptr; continue; }
                { Node *cnt = resolvePtr(val(f, in.o[0]), s); if (!isC(cnt)) throw Undecided{"stack array of symbolic size at " + where(curI)}; u32 id = newObj(s, in.size * cnt->k, K_STACK, in.I->getName().empty() ? "" : "local"); f.objs.push_back(id); r = mkPtr(id, mkConst(0, 64)); }
                break;
            case Instruction::Load:
                if (in.slot >= 0) { Node *v = f.r[(size_t)in.slot]; if (!v) { v = mkUndef(in.w); f.r[(size_t)in.slot] = v; } r = v; }
                else if (in.w == 0) r = loadTy(s, val(f, in.o[0]), in.I->getType());
                else r = loadMem(s, val(f, in.o[0]), in.size, in.w);
                break;
            case Instruction::Store: {
                Node *v = val(f, in.o[0]);
                if (in.slot >= 0) { f.r[(size_t)in.slot] = v; continue; }
                if (v->op == AGG) storeTy(s, val(f, in.o[1]), cast<StoreInst>(in.I)->getValueOperand()->getType(), v); else storeMem(s, val(f, in.o[1]), in.size, v);
                continue; }
            case Instruction::GetElementPtr: {
                Node *p = val(f, in.o[0]);
                for (auto &g : in.gep) { Node *ix = val(f, g.second); ix = mkSext(ix, 64); p = mkBin(ADD, p, mkBin(MUL, ix, mkConst((u64)g.first, 64))); }
                if (in.gepOff) p = mkBin(ADD, p, mkConst((u64)in.gepOff, 64));
                r = p; break; }
            case Instruction::Add: r = mkBin(ADD, val(f, in.o[0]), val(f, in.o[1])); break;
            case Instruction::Sub: r = mkSub(val(f, in.o[0]), val(f, in.o[1])); break;
            case Instruction::Mul: r = mkBin(MUL, val(f, in.o[0]), val(f, in.o[1])); break;
            case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
                Node *a = val(f, in.o[0]), *d = resolvePtr(val(f, in.o[1]), s);
                if (d->undef && undefWitness(d, s)) report("uninitialised", "divisor is indeterminate", curI, true);
                if (isC(d) ? d->k == 0 : d->umin == 0) { Node *z = mkEq(d, mkConst(0, d->w)); int dec = decide(z, s, "divisor"); if (dec == 1) { if (feasible(s)) report("division by zero", "divisor is 0", curI, true); throw Undecided{"division by zero on a path not shown feasible"}; }
                    if (dec < 0 && witness(s, [&](Env &e) { return e.eval(z) != 0; }, {[z](Env &e) { force(z, true, e); }})) report("division by zero", "divisor may be 0: " + show(d), curI, true); }
                r = mkBin(in.op == Instruction::UDiv ? UDIV : in.op == Instruction::SDiv ? SDIV : in.op == Instruction::URem ? UREM : SREM, a, d); break; }
            case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
                Node *a = val(f, in.o[0]), *sh = val(f, in.o[1]);
                if (isC(sh) && sh->k >= a->w && !a->undef) { if (feasible(s)) report("oversized shift", "shift of a " + std::to_string(a->w) + "-bit value by " + std::to_string(sh->k), curI, false); }
                r = mkBin(in.op == Instruction::Shl ? SHL : in.op == Instruction::LShr ? LSHR : ASHR, a, sh); break; }
            case Instruction::And: r = mkBin(AND, val(f, in.o[0]), val(f, in.o[1])); break;
            case Instruction::Or: r = mkBin(OR, val(f, in.o[0]), val(f, in.o[1])); break;
            case Instruction::Xor: r = mkBin(XOR, val(f, in.o[0]), val(f, in.o[1])); break;
            case Instruction::ICmp: {
                Node *a = val(f, in.o[0]), *c = val(f, in.o[1]);
                switch (cast<ICmpInst>(in.I)->getPredicate()) {
                case CmpInst::ICMP_EQ: r = mkEq(a, c); break; case CmpInst::ICMP_NE: r = mkNot(mkEq(a, c)); break;
                case CmpInst::ICMP_ULT: r = mkUlt(a, c); break; case CmpInst::ICMP_UGT: r = mkUlt(c, a); break;
                case CmpInst::ICMP_ULE: r = mkNot(mkUlt(c, a)); break; case CmpInst::ICMP_UGE: r = mkNot(mkUlt(a, c)); break;
                case CmpInst::ICMP_SLT: r = mkSlt(a, c); break; case CmpInst::ICMP_SGT: r = mkSlt(c, a); break;
                case CmpInst::ICMP_SLE: r = mkNot(mkSlt(c, a)); break; default: r = mkNot(mkSlt(a, c)); break; }
                break; }
            case Instruction::FCmp: {
                Node *a = val(f, in.o[0]), *c = val(f, in.o[1]); if (!isC(a) || !isC(c)) throw Undecided{"symbolic floating point"};
                double x = fpVal(a), y = fpVal(c); bool un = std::isnan(x) || std::isnan(y), eq = x == y, lt = x < y, gt = x > y; unsigned p = cast<FCmpInst>(in.I)->getPredicate();
                r = mkBool(((p & 1) && eq) || ((p & 2) && gt) || ((p & 4) && lt) || ((p & 8) && un)); break; }
            case Instruction::Trunc: r = mkExtract(val(f, in.o[0]), 0, in.w); break;
            case Instruction::ZExt: r = mkZext(val(f, in.o[0]), in.w); break;
            case Instruction::SExt: r = mkSext(val(f, in.o[0]), in.w); break;
            case Instruction::PtrToInt: case Instruction::IntToPtr: { Node *x = val(f, in.o[0]); r = x->w >= in.w ? mkExtract(x, 0, in.w) : mkZext(x, in.w); break; }
            case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: r = val(f, in.o[0]); break;
            case Instruction::UIToFP: case Instruction::SIToFP: { Node *x = resolvePtr(val(f, in.o[0]), s); if (!isC(x)) { r = mkUF(FOP, in.op * 1000 + in.w, in.w, {x}); break; } r = fpConst(in.op == Instruction::UIToFP ? (double)x->k : (double)sx(x->k, x->w), in.w); break; }
            case Instruction::FPToUI: case Instruction::FPToSI: { Node *x = val(f, in.o[0]); if (!isC(x)) { r = mkUF(FOP, in.op * 1000 + in.w, in.w, {x}); break; } double d = fpVal(x); r = mkConst(in.op == Instruction::FPToUI ? (u64)d : (u64)(i64)d, in.w); break; }
            case Instruction::FPExt: case Instruction::FPTrunc: { Node *x = val(f, in.o[0]); if (!isC(x)) { r = mkUF(FOP, in.op * 1000 + in.w, in.w, {x}); break; } r = fpConst(fpVal(x), in.w); break; }
            case Instruction::FNeg: { Node *x = val(f, in.o[0]); if (!isC(x)) { r = mkUF(FOP, in.op, in.w, {x}); break; } r = fpConst(-fpVal(x), in.w); break; }
            case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
                Node *a = val(f, in.o[0]), *c = val(f, in.o[1]); if (!isC(a) || !isC(c)) { r = mkUF(FOP, in.op, in.w, {a, c}); break; }
                double x = fpVal(a), y = fpVal(c); r = fpConst(in.op == Instruction::FAdd ? x + y : in.op == Instruction::FSub ? x - y : in.op == Instruction::FMul ? x * y : in.op == Instruction::FDiv ? x / y : fmod(x, y), in.w); break; }
            case Instruction::Select: { Node *c = val(f, in.o[0]); int d = decide(c, s, "choice"); r = d >= 0 ? val(f, in.o[d ? 1 : 2]) : mkIte(c, val(f, in.o[1]), val(f, in.o[2])); break; }
            case Instruction::ExtractValue: { Node *x = val(f, in.o[0]); for (unsigned i : cast<ExtractValueInst>(in.I)->getIndices()) { if (x->op != AGG) throw Undecided{"extractvalue"}; x = x->kid[i]; } r = x; break; }
            case Instruction::InsertValue: { Node *x = val(f, in.o[0]), *v = val(f, in.o[1]); auto ix = cast<InsertValueInst>(in.I)->getIndices(); std::function<Node *(Node *, unsigned)> ins = [&](Node *n, unsigned d) -> Node * { if (d == ix.size()) return v; std::vector<Node *> k(n->kid, n->kid + n->n); k[ix[d]] = ins(k[ix[d]], d + 1); return mkAgg(k); }; r = ins(x, 0); break; }
            case Instruction::Call: {
                Unw nu; bool ok = doCall(f, s, in, nu);
                if (nu.c) addUnw(u, nu);
                if (!ok) return false;
                if (nu.c && !isC(nu.c)) assume(nu.c, false, s);
                continue; }
            case Instruction::Invoke: {
                Unw nu; Frame fsave = f; bool ok = doCall(f, s, in, nu);
                if (!nu.c) { if (!ok) return false; next = in.t1; gotoBlk(f, blk, next); break; }
                Node *c = nu.c;
                auto enterPad = [&](Frame &ff, State &ss, int, Unw &uu, int stopAt) { ff.exc = nu.exc; ff.excType = nu.type; gotoBlk(ff, blk, in.t2); if (in.t2 == stopAt) return true; return runTo(ff, ss, in.t2, stopAt, uu); };
                if (!ok) { f = fsave; s = nu.st; bool rr = enterPad(f, s, in.t2, u, stop); return rr; }
                // both outcomes
                { Frame f2 = fsave; State s2 = nu.st; Unw u1, u2; bool r1 = false, r2 = false; nFork++;
                  if (assume(c, false, s)) { gotoBlk(f, blk, in.t1); r1 = in.t1 == stop ? true : runTo(f, s, in.t1, stop, u1); }
                  r2 = enterPad(f2, s2, in.t2, u2, stop);
                  Unw n; if (u1.c && u2.c) { if (u1.type != u2.type) throw Undecided{"several exceptions"}; n = u2; joinState(c, n.st, u1.st); n.c = mkIte(c, u2.c, u1.c); if (u1.exc != u2.exc) n.exc = mkIte(c, u2.exc, u1.exc); } else if (u2.c) { n = u2; n.c = mkBin(AND, c, u2.c); } else if (u1.c) { n = u1; n.c = mkBin(AND, mkNot(c), u1.c); }
                  if (n.c) addUnw(u, n);
                  if (r1 && r2) { joinState(c, s2, s); joinFrames(c, f2, f, stop); f = f2; s = s2; s.path.clear(); }
                  else if (r2) { f = f2; s = s2; }
                  return r1 || r2; }
            }
            case Instruction::LandingPad: {
                auto *lp = cast<LandingPadInst>(in.I); Node *sel = nullptr;
                for (unsigned i = 0; i < lp->getNumClauses() && !sel; i++) {
                    if (lp->isCatch(i)) { Constant *cl = lp->getClause(i); if (isa<ConstantPointerNull>(cl)) sel = mkConst(1, 32); else { u64 id = globalId(cl->stripPointerCasts()); if (f.excType == ANYEXC || typeMatches(f.excType, id)) sel = mkConst(id + 1, 32); } }
                    else { sel = mkConst((u64)-1, 32); }
                }
                if (!sel) { if (lp->isCleanup()) sel = mkConst(0, 32); else { Unw n; n.c = mkBool(true); n.st = s; n.exc = f.exc; n.type = f.excType; addUnw(u, n); return false; } }
                r = mkAgg({f.exc, sel}); break; }
            case Instruction::Resume: { Unw n; n.c = mkBool(true); n.st = s; n.exc = val(f, in.o[0])->kid[0]; n.type = f.excType; addUnw(u, n); return false; }
            case Instruction::Unreachable: return false;
            case Instruction::Ret: if (!in.o.empty()) f.rv = val(f, in.o[0]); return true;
            case Instruction::Br: {
                if (in.t2 < 0) { next = in.t1; gotoBlk(f, blk, next); break; }
                Node *c = val(f, in.o[0]); int d = decide(c, s, "branch");
                if (d >= 0) { next = d ? in.t1 : in.t2; gotoBlk(f, blk, next); break; }
                int p = fn->ipdom[(size_t)blk];
                if (fn->blks.size() == 0) return false;
                // the stop of the enclosing region may come first
                int from = blk; int st = p == nexit ? stop : p;
                bool ok = fork2(f, s, c, blk, in.t1, in.t2, st, u, [&, from, st](Frame &ff, State &ss, int t, Unw &uu) { gotoBlk(ff, from, t); return t == st ? true : runTo(ff, ss, t, st, uu); });
                if (!ok) return false;
                if (st == stop) return true;
                next = st; break; }
            case Instruction::Switch: {
                Node *v = resolvePtr(val(f, in.o[0]), s);
                if (isC(v)) { next = in.t1; for (auto &g : in.gep) if (((u64)g.first & maskw(v->w)) == v->k) { next = g.second.r; break; } gotoBlk(f, blk, next); break; }
                int p = fn->ipdom[(size_t)blk]; int st = p == nexit ? stop : p; int from = blk;
                std::function<bool(Frame &, State &, size_t, Unw &)> rec = [&](Frame &ff, State &ss, size_t i, Unw &uu) -> bool {
                    if (i == in.gep.size()) { gotoBlk(ff, from, in.t1); return in.t1 == st ? true : runTo(ff, ss, in.t1, st, uu); }
                    Node *c = mkEq(v, mkConst((u64)in.gep[i].first, v->w)); int d = decide(c, ss, "switch"); int tgt = in.gep[i].second.r;
                    if (d == 0) return rec(ff, ss, i + 1, uu);
                    auto go = [&](Frame &f3, State &s3, int t, Unw &u3) { gotoBlk(f3, from, t); return t == st ? true : runTo(f3, s3, t, st, u3); };
                    if (d == 1) return go(ff, ss, tgt, uu);
                    return fork2(ff, ss, c, from, tgt, -2, st, uu, [&](Frame &f3, State &s3, int t, Unw &u3) { return t == -2 ? rec(f3, s3, i + 1, u3) : go(f3, s3, t, u3); });
                };
                if (!rec(f, s, 0, u)) return false;
                if (st == stop) return true;
                next = st; break; }
            default: throw Undecided{std::string("instruction ") + in.I->getOpcodeName()};
            }
            if (next >= 0) break;
            if (in.dst >= 0 && r) f.r[(size_t)in.dst] = r;
        }
        if (next < 0) return false;
        if (next <= blk && fn->lib) endless(f, s, next, snaps);
        blk = next;
    }
}

static bool callFunction(Function *F, std::vector<Node *> &args, std::vector<std::pair<Node *, Type *>> &var, State &s, Node *&ret, Unw &u, CallBase *) {
    seenFns.insert(F);
    Frame f; f.fn = getFn(F); f.r.assign((size_t)f.fn->nregs, nullptr); f.var = var;
    for (size_t i = 0; i < args.size(); i++) f.r[i] = args[i];
    bool ok = runTo(f, s, 0, (int)f.fn->blks.size(), u);
    if (ok) { ret = f.rv; for (u32 o : f.objs) s.mem.erase(o); }
    if (u.c) for (u32 o : f.objs) u.st.mem.erase(o);
    return ok;
}

// ---------------------------------------------------------------- driver
static void harvest() {
    std::set<u64> t;
    for (auto &F : *M) { if (F.isDeclaration() || !inLibrary(&F)) continue;
        for (auto &I : instructions(F)) {
            auto add = [&](Value *v) { if (auto *c = dyn_cast<ConstantInt>(v)) if (c->getBitWidth() >= 16 && c->getBitWidth() <= 64) { u64 k = c->getZExtValue(); if (k >= 2 && k <= 270000) t.insert(k); } };
            auto compared = [](Instruction &I) { for (auto *u : I.users()) if (isa<ICmpInst>(u) || isa<SwitchInst>(u)) return true; return false; };
            auto pow2 = [&](u64 k) { if (k >= 512 && k <= 270000) t.insert(k); };
            if (isa<ICmpInst>(I)) { add(I.getOperand(0)); add(I.getOperand(1)); }
            else if (auto *sw = dyn_cast<SwitchInst>(&I)) { if (sw->getCondition()->getType()->getIntegerBitWidth() == 64) for (auto &c : sw->cases()) add(c.getCaseValue()); }
            else if (I.getOpcode() == Instruction::URem || I.getOpcode() == Instruction::UDiv) add(I.getOperand(1));
            else if (I.getType()->isIntegerTy(64) && I.getOpcode() == Instruction::LShr && compared(I)) { if (auto *c = dyn_cast<ConstantInt>(I.getOperand(1))) if (c->getZExtValue() < 20) pow2(1ull << c->getZExtValue()); }
            else if (I.getType()->isIntegerTy(64) && I.getOpcode() == Instruction::And && compared(I)) { if (auto *c = dyn_cast<ConstantInt>(I.getOperand(1))) { u64 k = c->getZExtValue(); if ((k & (k + 1)) == 0) pow2(k + 1); else if ((~k & (~k + 1)) == 0) pow2(~k + 1); } }
        } }
    thresholds.assign(t.begin(), t.end());
    if (getenv("SV_THRESH")) { for (u64 k : t) fprintf(stderr, "%llu ", (unsigned long long)k); fprintf(stderr, "\n"); }
}
static std::string outDir;
static std::string curJob;
static void writeResult(const std::string &undec) {
    FILE *o = fopen((outDir + "/" + curJob + ".json").c_str(), "w"); if (!o) exit(3);
    u64 lib = 0; std::set<std::string> names; for (auto *F : seenFns) if (inLibrary(F)) { lib++; names.insert(fnName(F)); }
    struct rusage ru; getrusage(RUSAGE_SELF, &ru);
    fprintf(o, "{\"job\":%s,\"undecided\":%s,\"instructions\":%llu,\"proven\":%llu,\"ri\":%llu,\"facts\":%llu,\"accesses\":%llu,\"joins\":%llu,\"cases\":%llu,\"calls\":%llu,\"nodes\":%llu,\"rss_mb\":%ld,\"cpu_s\":%.2f,\n\"violations\":[", jstr(curJob).c_str(), jstr(undec).c_str(), (unsigned long long)nInstr, (unsigned long long)nEqProven, (unsigned long long)nEqRI, (unsigned long long)(nTrue + nDef), (unsigned long long)nAccess, (unsigned long long)nFork, (unsigned long long)nCases, (unsigned long long)nCalls, (unsigned long long)nodeCount(), ru.ru_maxrss / 1024, ru.ru_utime.tv_sec + ru.ru_utime.tv_usec * 1e-6);
    viols.insert(viols.end(), notes.begin(), notes.end());
    for (size_t i = 0; i < viols.size(); i++) fprintf(o, "%s{\"kind\":%s,\"msg\":%s,\"where\":%s,\"trace\":%s}", i ? ",\n" : "", jstr(viols[i].kind).c_str(), jstr(viols[i].msg).c_str(), jstr(viols[i].where).c_str(), jstr(viols[i].trace).c_str());
    fprintf(o, "],\n\"functions\":["); bool first = true; for (auto &n : names) { fprintf(o, "%s%s", first ? "" : ",", jstr(n).c_str()); first = false; }
    fprintf(o, "]}\n"); fclose(o);
}
static void runJob(const std::string &job) {
    curJob = job; std::string undec;
    try {
        State s; Node *ret = nullptr; std::vector<Node *> a; std::vector<std::pair<Node *, Type *>> v;
        if (GlobalVariable *g = M->getGlobalVariable("llvm.global_ctors")) if (auto *ca = dyn_cast_or_null<ConstantArray>(g->getInitializer())) {
            std::vector<std::pair<u64, Function *>> cs; for (auto &op : ca->operands()) { auto *cst = cast<ConstantStruct>(op); if (auto *cf = dyn_cast<Function>(cst->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(cst->getOperand(0))->getZExtValue(), cf}); }
            std::stable_sort(cs.begin(), cs.end(), [](auto &x, auto &y) { return x.first < y.first; });
            for (auto &c : cs) { Unw u; callFunction(c.second, a, v, s, ret, u, nullptr); } }
        Function *F = M->getFunction(job); if (!F || F->isDeclaration()) throw Undecided{"no such job"};
        jobRunning = true; Unw u; callFunction(F, a, v, s, ret, u, nullptr);
        if (u.c) report("exception", "an exception escapes", curI, false);
    } catch (Undecided &e) { undec = e.why + " [case: " + curCase + "]" + traceStr(); }
    catch (JobAbort &) {}
    catch (std::bad_alloc &) { undec = "out of memory"; }
    writeResult(undec);
}
static void *threadMain(void *p) { runJob(*(std::string *)p); return nullptr; }

int main(int argc, char **argv) {
    std::vector<std::string> jobs; std::string file; int par = 8; u64 memMB = 3500; int secs = 600, wall = 0; bool list = false;
    for (int i = 1; i < argc; i++) { std::string x = argv[i];
        if (x == "-j") par = atoi(argv[++i]); else if (x == "-o") outDir = argv[++i]; else if (x == "--mem") memMB = (u64)atoll(argv[++i]); else if (x == "--secs") secs = atoi(argv[++i]);
        else if (x == "--wall") wall = atoi(argv[++i]); else if (x == "--budget") instrBudget = (u64)atoll(argv[++i]); else if (x == "--src") srcPrefixes.push_back(argv[++i]); else if (x == "--tier") tier = atoi(argv[++i]); else if (x == "--list") list = true;
        else if (file.empty()) file = x; else jobs.push_back(x); }
    LLVMContext ctx; SMDiagnostic err; auto mod = parseIRFile(file, err, ctx); if (!mod) { err.print("sv", errs()); return 3; }
    M = mod.get(); DL = &M->getDataLayout(); newId();
    if (list) { for (auto &F : *M) if (!F.isDeclaration() && F.getName().starts_with("job_")) printf("%s\n", F.getName().str().c_str()); return 0; }
    harvest();
    // --wall: seconds for all jobs together; once a job has found a violation the others get little more time
    struct Run { std::string job; bool told = false; double since = 0; }; std::map<pid_t, Run> run; size_t nx = 0;
    auto now = [] { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; };
    double deadline = wall ? now() + wall : 1e30;
    auto fail = [&](const std::string &j, const std::string &why) { std::string f = outDir + "/" + j + ".json"; if (FILE *o = fopen(f.c_str(), "w")) { fprintf(o, "{\"job\":\"%s\",\"undecided\":\"%s\",\"instructions\":0,\"proven\":0,\"ri\":0,\"facts\":0,\"accesses\":0,\"joins\":0,\"cases\":0,\"calls\":0,\"nodes\":0,\"rss_mb\":0,\"cpu_s\":0,\"violations\":[],\"functions\":[]}\n", j.c_str(), why.c_str()); fclose(o); } };
    while (nx < jobs.size() || !run.empty()) {
        while (nx < jobs.size() && (int)run.size() < par) {
            std::string j = jobs[nx++]; if (now() > deadline) { fail(j, "the time for all jobs together is used up"); continue; }
            pid_t p = fork();
            if (p == 0) {
                struct rlimit rl{memMB << 20, memMB << 20}; setrlimit(RLIMIT_DATA, &rl); struct rlimit rc{(rlim_t)secs, (rlim_t)secs + 15}; setrlimit(RLIMIT_CPU, &rc);
                signal(SIGXCPU, onStop); signal(SIGTERM, onStop);
                pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, size_t(1) << 30); pthread_t th;
                if (pthread_create(&th, &at, threadMain, &j)) { perror("thread"); _exit(3); }
                pthread_join(th, nullptr); fflush(nullptr); _exit(viols.empty() && notes.empty() ? 0 : 1);
            }
            run[p].job = j;
        }
        int st; pid_t p = waitpid(-1, &st, WNOHANG);
        if (p > 0 && run.count(p)) {
            bool found = WIFEXITED(st) && WEXITSTATUS(st) == 1;
            if (found) deadline = std::min(deadline, now() + 60);
            else if (!WIFEXITED(st) || WEXITSTATUS(st)) fail(run[p].job, "analysis stopped by a resource limit (status " + std::to_string(st) + ")");
            run.erase(p); continue; }
        if (run.empty()) continue;
        if (now() > deadline) for (auto &r : run) { if (!r.second.told) { r.second.told = true; r.second.since = now(); kill(r.first, SIGTERM); } else if (now() > r.second.since + 15) kill(r.first, SIGKILL); }
        usleep(5000);
    }
    return 0;
}
