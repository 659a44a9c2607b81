// Rules over the LLVM IR of the library: rules <lib.bc> <shared|narrow|stack> <repo>.  Prints one JSON object.
//   shared  effects: which static objects may be written, by which function; calls whose result depends on hidden state
//   narrow  dataflow: byte and bit counts that lose their upper bits on the way to a bound, size, offset or counter
//   stack   recursion in the call graph, stack objects of variable or excessive size, longest call chain
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Transforms/Utils/PromoteMemToReg.h"
#include <cmath>
#include <deque>
#include <functional>
#include <unistd.h>
#include <map>
#include <set>
using namespace llvm;
typedef std::string S;
static std::unique_ptr<Module> M; static S repo;
static S json(const S &s) { S o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32) o += ' '; else o += c; } return o + "\""; }
static S path(const DIScope *sc) { if (!sc) return ""; S f = sc->getFilename().str(); if (!f.empty() && f[0] != '/') f = sc->getDirectory().str() + "/" + f; return f; }
static S fname(const Function *F) { S d = demangle(F->getName().str()); size_t p = d.find('('); return d.substr(0, p == 0 ? S::npos : p); }
static S posOf(const Instruction *I) { const DebugLoc &l = I->getDebugLoc(); S w = fname(I->getFunction()); if (!l) return (I->getFunction()->getSubprogram() ? path(I->getFunction()->getSubprogram()) : S()) + " in " + w; return path(cast<DIScope>(l.getScope())) + ":" + std::to_string(l.getLine()) + " in " + w; }
// a function written in the library (not instantiated from the standard library)
static bool ours(const Function *F) { if (!F || F->isDeclaration()) return false; auto *sp = F->getSubprogram(); return sp && path(sp).compare(0, repo.size(), repo) == 0; }
struct Viol { S kind, msg, where, trace; };
static std::vector<Viol> viol; static std::map<S, std::vector<S>> lists; static std::map<S, long> counts; static S broken;
static std::set<S> seen;
static void report(const S &k, const S &m, const S &w, const S &t = "") { if (seen.insert(k + m + w).second) viol.push_back({k, m, w, t}); }
static const Value *base(const Value *v) { for (int i = 0; i < 64; i++) { if (auto *g = dyn_cast<GEPOperator>(v)) v = g->getPointerOperand(); else if (auto *c = dyn_cast<BitCastOperator>(v)) v = c->getOperand(0); else if (auto *a = dyn_cast<AddrSpaceCastOperator>(v)) v = a->getPointerOperand(); else break; } return v; }

// ---- call graph: direct calls, virtual calls by vtable slot, other indirect calls by function type
static std::map<unsigned long, std::set<Function *>> slots; static std::set<Function *> taken;
static void indexCalls() {
    for (auto &g : M->globals()) {
        if (!g.hasInitializer() || !g.getName().starts_with("_ZTV")) continue;
        auto *st = dyn_cast<ConstantStruct>(g.getInitializer()); if (!st) continue;
        for (auto &part : st->operands()) if (auto *arr = dyn_cast<ConstantArray>(part)) for (unsigned i = 2; i < arr->getNumOperands(); i++) if (auto *f = dyn_cast<Function>(arr->getOperand(i)->stripPointerCasts())) slots[i - 2].insert(f);
    }
    for (auto &f : *M) for (auto *u : f.users()) { auto *c = dyn_cast<CallBase>(u); if (!c || c->getCalledOperand() != &f) { if (!isa<ConstantArray>(u)) taken.insert(&f); else for (auto *uu : u->users()) for (auto *uuu : uu->users()) if (!isa<GlobalVariable>(uuu) || !uuu->getName().starts_with("_ZTV")) taken.insert(&f); } }
}
static std::vector<Function *> callees(const CallBase *c) {
    std::vector<Function *> r; if (auto *f = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts())) { r.push_back(f); return r; }
    if (auto *l = dyn_cast<LoadInst>(c->getCalledOperand())) { // load (vtable + slot)
        const Value *p = l->getPointerOperand(); unsigned long slot = 0; bool ok = false;
        if (auto *g = dyn_cast<GetElementPtrInst>(p)) { if (g->getNumIndices() == 1 && isa<ConstantInt>(g->getOperand(1)) && g->getSourceElementType()->isPointerTy()) { slot = cast<ConstantInt>(g->getOperand(1))->getZExtValue(); ok = isa<LoadInst>(g->getPointerOperand()); } }
        if (ok) { for (auto *f : slots[slot]) if (f->getFunctionType()->getNumParams() == c->arg_size()) r.push_back(f); return r; }
    }
    for (auto *f : taken) if (!f->isDeclaration() && f->getFunctionType() == c->getFunctionType()) r.push_back(f);
    return r;
}
static void promote() {
    for (auto &f : *M) {
        if (f.isDeclaration()) continue;
        for (;;) { std::vector<AllocaInst *> as; for (auto &i : f.getEntryBlock()) if (auto *a = dyn_cast<AllocaInst>(&i)) if (isAllocaPromotable(a)) as.push_back(a); if (as.empty()) break; DominatorTree dt(f); PromoteMemToReg(as, dt); }
    }
}

// ---- value ranges: intervals, refined by dominating branches; parameters of functions that no public header names take
// the union over their call sites. A difference of counts is taken not to wrap around: a negative count is another matter.
struct Range { unsigned long lo, hi; }; // unsigned interval of the value's own width
static const unsigned long FULL = ~0ul;
static unsigned long maxOf(unsigned w) { return w >= 64 ? FULL : (1ul << w) - 1; }
static unsigned width(const Value *v) { return v->getType()->isIntegerTy() ? v->getType()->getIntegerBitWidth() : 0; }
static std::set<S> publicNames; static std::map<const Argument *, Range> argRange; static std::map<const Function *, std::vector<const CallBase *>> callers; static std::map<const Function *, std::unique_ptr<DominatorTree>> dts;
static DominatorTree &domOf(const Function *F) { auto &p = dts[F]; if (!p) p = std::make_unique<DominatorTree>(*const_cast<Function *>(F)); return *p; }
static bool sameValue(const Value *a, const Value *b, int d = 0) {
    if (a == b) return true; auto *x = dyn_cast<Instruction>(a), *y = dyn_cast<Instruction>(b);
    if (!x || !y || d > 6 || x->getOpcode() != y->getOpcode() || x->getType() != y->getType() || x->getNumOperands() != y->getNumOperands()) return false;
    if (!isa<BinaryOperator>(x) && !isa<CastInst>(x) && !isa<SelectInst>(x)) return false;
    for (unsigned i = 0; i < x->getNumOperands(); i++) if (!sameValue(x->getOperand(i), y->getOperand(i), d + 1)) return false;
    return true;
}
static Range range(const Value *v, const Instruction *where, int d = 0, std::set<const Value *> *busy = nullptr);
static Range raw(const Value *v, const Instruction *where, int d, std::set<const Value *> *busy) {
    unsigned w = width(v); unsigned long M_ = maxOf(w); Range full{0, M_};
    if (auto *c = dyn_cast<ConstantInt>(v)) { unsigned long k = c->getValue().getLimitedValue(FULL); return {k, k}; }
    if (auto *a = dyn_cast<Argument>(v)) { auto it = argRange.find(a); return it == argRange.end() ? full : it->second; }
    if (d > 12 || !w || w > 64) return full;
    auto *i = dyn_cast<Instruction>(v); if (!i) return full;
    auto R = [&](unsigned k) { return range(i->getOperand(k), where, d + 1, busy); };
    if (isa<ZExtInst>(i)) return R(0);
    if (isa<SExtInst>(i)) { Range r = R(0); return r.hi <= maxOf(width(i->getOperand(0)) - 1) ? r : full; }
    if (isa<TruncInst>(i)) { Range r = R(0); return r.hi <= M_ ? r : full; }
    if (auto *s = dyn_cast<SelectInst>(i)) { Range a = R(1), b = R(2); if (auto *c = dyn_cast<ICmpInst>(s->getCondition())) { // min
            auto p = c->getPredicate(); const Value *x = c->getOperand(0), *y = c->getOperand(1); bool lt = p == ICmpInst::ICMP_ULT || p == ICmpInst::ICMP_ULE, gt = p == ICmpInst::ICMP_UGT || p == ICmpInst::ICMP_UGE;
            if ((lt && sameValue(x, s->getTrueValue()) && sameValue(y, s->getFalseValue())) || (gt && sameValue(y, s->getTrueValue()) && sameValue(x, s->getFalseValue()))) return {std::min(a.lo, b.lo), std::min(a.hi, b.hi)}; }
        return {std::min(a.lo, b.lo), std::max(a.hi, b.hi)}; }
    if (auto *p = dyn_cast<PHINode>(i)) {
        std::set<const Value *> own; if (!busy) busy = &own; if (!busy->insert(p).second) return full;
        Range r{FULL, 0}; for (unsigned k = 0; k < p->getNumIncomingValues(); k++) { Range x = range(p->getIncomingValue(k), p->getIncomingBlock(k)->getTerminator(), d + 1, busy);
            if (auto *br = dyn_cast<BranchInst>(p->getIncomingBlock(k)->getTerminator())) if (br->isConditional() && br->getSuccessor(0) != br->getSuccessor(1)) if (auto *c = dyn_cast<ICmpInst>(br->getCondition())) { // the edge itself
                bool t = br->getSuccessor(0) == p->getParent(); auto pr = t ? c->getPredicate() : c->getInversePredicate(); for (int z = 0; z < 2; z++) { const Value *m = c->getOperand(z), *o = c->getOperand(1 - z); auto q = z ? ICmpInst::getSwappedPredicate(pr) : pr; if (m == p->getIncomingValue(k) && !isa<PHINode>(o)) { Range y = range(o, br, d + 1, busy); if (q == ICmpInst::ICMP_ULT && y.hi) x.hi = std::min(x.hi, y.hi - 1); if (q == ICmpInst::ICMP_ULE || q == ICmpInst::ICMP_EQ) x.hi = std::min(x.hi, y.hi); } } }
            r.lo = std::min(r.lo, x.lo); r.hi = std::max(r.hi, x.hi); }
        busy->erase(p); return r.lo > r.hi ? full : r; }
    if (auto *b = dyn_cast<BinaryOperator>(i)) {
        Range x = R(0), y = R(1); unsigned __int128 t;
        switch (b->getOpcode()) {
        case Instruction::Add: if (auto *c = dyn_cast<ConstantInt>(b->getOperand(1))) if (c->isNegative()) { unsigned long k = -(unsigned long)c->getSExtValue(); return {x.lo >= k ? x.lo - k : 0, x.hi >= k ? x.hi - k : x.hi}; }
            t = (unsigned __int128)x.hi + y.hi; return t > M_ ? full : Range{x.lo + y.lo, (unsigned long)t};
        case Instruction::Sub: return {x.lo >= y.hi ? x.lo - y.hi : 0, x.hi >= y.lo ? x.hi - y.lo : x.hi};
        case Instruction::Mul: t = (unsigned __int128)x.hi * y.hi; return t > M_ ? full : Range{x.lo * y.lo, (unsigned long)t};
        case Instruction::UDiv: return {y.hi ? x.lo / y.hi : 0, y.lo ? x.hi / y.lo : x.hi};
        case Instruction::URem: return {0, std::min(x.hi, y.hi ? y.hi - 1 : 0)};
        case Instruction::And: return {0, std::min(x.hi, y.hi)};
        case Instruction::LShr: return {y.hi < 64 ? x.lo >> y.hi : 0, y.lo < 64 ? x.hi >> y.lo : 0};
        case Instruction::AShr: return x.hi <= maxOf(w - 1) ? Range{y.hi < 64 ? x.lo >> y.hi : 0, y.lo < 64 ? x.hi >> y.lo : 0} : full;
        case Instruction::SDiv: return x.hi <= maxOf(w - 1) && y.hi <= maxOf(w - 1) && y.lo ? Range{x.lo / y.hi, x.hi / y.lo} : full;
        case Instruction::SRem: return x.hi <= maxOf(w - 1) && y.hi <= maxOf(w - 1) && y.hi ? Range{0, std::min(x.hi, y.hi - 1)} : full;
        case Instruction::Shl: if (y.hi >= w) return full; t = (unsigned __int128)x.hi << y.hi; return t > M_ ? full : Range{x.lo << y.lo, (unsigned long)t};
        case Instruction::Or: case Instruction::Xor: { unsigned long h = x.hi | y.hi; h |= h >> 1; h |= h >> 2; h |= h >> 4; h |= h >> 8; h |= h >> 16; h |= h >> 32; return {0, h}; }
        default: return full;
        }
    }
    return full;
}
static Range range(const Value *v, const Instruction *where, int d, std::set<const Value *> *busy) {
    Range r = raw(v, where, d, busy); if (d > 8 || isa<Constant>(v) || !where) return r;
    auto &dt = domOf(where->getFunction()); const BasicBlock *B = where->getParent();
    for (auto *n = dt.getNode(B); n && n->getIDom(); n = n->getIDom()) {
        auto *P = n->getIDom()->getBlock(); auto *br = dyn_cast<BranchInst>(P->getTerminator()); if (!br || !br->isConditional() || br->getSuccessor(0) == br->getSuccessor(1)) continue;
        for (int s = 0; s < 2; s++) {
            if (!dt.dominates(BasicBlockEdge(P, br->getSuccessor(s)), B)) continue;
            std::vector<std::pair<const Value *, bool>> cs{{br->getCondition(), s == 0}};
            for (size_t k = 0; k < cs.size(); k++) {
                auto *c = dyn_cast<ICmpInst>(cs[k].first); if (!c) continue;
                auto p = cs[k].second ? c->getPredicate() : c->getInversePredicate();
                for (int z = 0; z < 2; z++) {
                    const Value *m = c->getOperand(z), *o = c->getOperand(1 - z); auto q = z ? ICmpInst::getSwappedPredicate(p) : p; if (!sameValue(m, v)) continue;
                    Range y = isa<PHINode>(o) && busy && busy->count(o) ? Range{0, maxOf(width(o))} : range(o, br, d + 3, busy);
                    if (q == ICmpInst::ICMP_ULT && y.hi) r.hi = std::min(r.hi, y.hi - 1);
                    if (q == ICmpInst::ICMP_ULE || q == ICmpInst::ICMP_EQ) r.hi = std::min(r.hi, y.hi);
                    if (q == ICmpInst::ICMP_UGT) r.lo = std::max(r.lo, y.lo); if (q == ICmpInst::ICMP_UGE || q == ICmpInst::ICMP_EQ) r.lo = std::max(r.lo, y.lo);
                    if ((q == ICmpInst::ICMP_SLT || q == ICmpInst::ICMP_SLE) && r.hi <= maxOf(width(v) - 1)) r.hi = std::min(r.hi, y.hi);
                }
            }
        }
    }
    if (r.lo > r.hi) r.lo = r.hi; // unreachable
    return r;
}
static void readPublic() {
    std::vector<S> dirs{repo + "include"}; 
    std::error_code ec; for (sys::fs::recursive_directory_iterator it(repo + "include", ec), e; it != e && !ec; it.increment(ec)) {
        S p = it->path(); if (p.size() < 2 || (p.substr(p.size() - 2) != ".h" && (p.size() < 4 || p.substr(p.size() - 4) != ".hpp"))) continue;
        auto b = MemoryBuffer::getFile(p); if (!b) continue; S tok; for (char c : (*b)->getBuffer()) { if (isalnum((unsigned char)c) || c == '_') tok += c; else { if (!tok.empty()) publicNames.insert(tok); tok.clear(); } } }
    // names built by pasting in the public headers (pgfe_##name##_update) all start with pgfe_ or __pgfe
}
static bool isPublic(const Function *F) { if (F->hasLocalLinkage()) return false; S n = F->getName().str(); if (n.compare(0, 2, "_Z") == 0) return true; if (n.compare(0, 5, "pgfe_") == 0) return true; return publicNames.count(n) != 0; }
static void paramRanges() {
    readPublic(); if (publicNames.size() < 50) broken = "public headers not found";
    for (auto &f : *M) if (!f.isDeclaration()) for (auto &i : instructions(f)) if (auto *c = dyn_cast<CallBase>(&i)) if (auto *t = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts())) if (!t->isDeclaration()) callers[t].push_back(c);
    for (int round = 0; round < 8; round++) { // from full ranges downwards: every round is sound
        bool ch = false;
        for (auto &f : *M) {
            if (!ours(&f) || isPublic(&f) || taken.count(&f) || callers[&f].empty()) continue;
            for (auto &a : f.args()) { if (!a.getType()->isIntegerTy()) continue; Range r{FULL, 0};
                for (auto *c : callers[&f]) { if (c->getFunction() == &f && a.getArgNo() < c->arg_size() && c->getArgOperand(a.getArgNo()) == &a) continue; Range x = a.getArgNo() < c->arg_size() ? range(c->getArgOperand(a.getArgNo()), c) : Range{0, FULL}; r.lo = std::min(r.lo, x.lo); r.hi = std::max(r.hi, x.hi); }
                if (r.lo > r.hi) continue; auto it = argRange.find(&a); if (it == argRange.end() ? r.hi < maxOf(width(&a)) || r.lo : r.lo != it->second.lo || r.hi != it->second.hi) { argRange[&a] = r; ch = true; } } }
        if (!ch) break;
    }
    for (auto &a : argRange) if (a.second.hi < maxOf(width(a.first))) { counts["parameters bounded by their call sites"]++; }
}

// ---- stack
static void stackRule() {
    promote(); paramRanges();
    std::map<Function *, std::set<Function *>> g; long nallocas = 0;
    std::map<Function *, unsigned long> frame;
    for (auto &f : *M) {
        if (f.isDeclaration()) continue;
        counts["functions"]++; DominatorTree dt(f); LoopInfo li(dt);
        for (auto &i : instructions(f)) {
            if (auto *c = dyn_cast<CallBase>(&i)) for (auto *t : callees(c)) if (!t->isDeclaration()) { g[&f].insert(t); counts["call edges"]++; }
            if (auto *a = dyn_cast<AllocaInst>(&i)) {
                nallocas++;
                auto sz = a->getAllocationSize(M->getDataLayout()); S n = a->getName().str();
                SmallVector<DbgVariableIntrinsic *, 2> dv; findDbgUsers(dv, a); for (auto *d : dv) n = d->getVariable()->getName().str();
                if (!sz && a->isArrayAllocation()) { Range r = range(a->getArraySize(), a); unsigned long e = M->getDataLayout().getTypeAllocSize(a->getAllocatedType()).getFixedValue(); if (r.hi <= 4096 && r.hi * e <= 4096) { counts["stack objects sized by constants at every call"]++; frame[&f] += r.hi * e + 16; continue; } }
                if (!sz) { report("variable stack object", "stack object '" + n + "' has a size computed at run time", posOf(&i)); continue; }
                unsigned long b = sz->getFixedValue(); frame[&f] += b + 8;
                if (li.getLoopFor(i.getParent()) && ours(&f) && !a->isStaticAlloca()) report("variable stack object", "stack object '" + n + "' is allocated anew in every iteration", posOf(&i));
                if (b > 65536) report("large stack object", "stack object '" + n + "' occupies " + std::to_string(b) + " bytes", posOf(&i));
            }
        }
    }
    counts["stack objects"] = nallocas;
    // strongly connected components
    std::map<Function *, int> num, low; std::vector<Function *> st; std::set<Function *> on; int cnt = 0; std::map<Function *, unsigned long> depth; unsigned long worst = 0; Function *wf = nullptr;
    struct Fr { Function *f; std::set<Function *>::iterator it; };
    for (auto &root : *M) {
        if (root.isDeclaration() || num.count(&root)) continue;
        std::vector<Fr> fs; auto push = [&](Function *f) { num[f] = low[f] = ++cnt; st.push_back(f); on.insert(f); fs.push_back({f, g[f].begin()}); };
        push(&root);
        while (!fs.empty()) {
            auto &fr = fs.back();
            if (fr.it != g[fr.f].end()) { Function *t = *fr.it++; if (!num.count(t)) push(t); else if (on.count(t)) low[fr.f] = std::min(low[fr.f], num[t]); continue; }
            Function *f = fr.f; fs.pop_back(); if (!fs.empty()) low[fs.back().f] = std::min(low[fs.back().f], low[f]);
            if (low[f] != num[f]) continue;
            std::vector<Function *> comp; for (;;) { Function *t = st.back(); st.pop_back(); on.erase(t); comp.push_back(t); if (t == f) break; }
            counts["components"]++;
            bool lib = false; for (auto *t : comp) lib |= ours(t);
            if (comp.size() > 1 || g[f].count(f)) {
                S names; Function *first = nullptr; for (auto *t : comp) { if (ours(t) && !first) first = t; names += (names.empty() ? "" : ", ") + fname(t); }
                if (lib) report("recursion", "recursion between: " + names, path(first->getSubprogram()) + ":" + std::to_string(first->getSubprogram()->getLine()) + " in " + fname(first));
                else lists["recursion inside the standard library"].push_back(names);
            }
            unsigned long d = 0; for (auto *t : comp) { d = std::max(d, frame[t]); for (auto *u : g[t]) d = std::max(d, frame[t] + depth[u]); }
            for (auto *t : comp) depth[t] = d; if (d > worst && ours(f)) { worst = d; wf = f; }
        }
    }
    counts["deepest call chain, bytes of stack objects"] = worst; if (wf) lists["deepest call chain starts at"].push_back(fname(wf));
    if (worst > 262144 && wf) report("large stack use", "a call chain needs " + std::to_string(worst) + " bytes of stack objects", path(wf->getSubprogram()) + " in " + fname(wf));
    if (counts["functions"] < 50 || nallocas < 100) broken = "hardly any function or stack object found";
}

// ---- shared state
static bool isInit(const Function *F) { return F->getName().starts_with("__cxx_global_var_init") || F->getName().starts_with("_GLOBAL__sub_I"); }
static std::map<std::pair<const Function *, unsigned>, int> mw; // may the function write through this parameter? 1 no, 2 yes, 0 in progress
static const std::set<S> pureLibc = {"strlen", "memcmp", "strcmp", "strncmp", "memchr", "strchr", "strrchr", "strstr", "printf", "puts", "fread", "fwrite", "free", "strnlen", "strspn", "strcspn", "strtol", "strtoul", "strtoull", "atoi", "bcmp", "toupper", "tolower"};
static int writesParam(const Function *F, unsigned n, std::vector<S> &tr);
// uses of a pointer: does any of them write through it? returns the writing instruction
static const Instruction *writesThrough(const Value *root, std::vector<S> &tr, std::vector<std::pair<const Instruction *, S>> *all = nullptr, bool *esc = nullptr) {
    std::set<const Value *> vis; std::deque<const Value *> q{root}; const Instruction *hit = nullptr;
    auto found = [&](const Instruction *i, const S &how) { if (!hit) hit = i; if (all) all->push_back({i, how}); };
    while (!q.empty()) {
        const Value *v = q.front(); q.pop_front(); if (!vis.insert(v).second) continue;
        for (auto *u : v->users()) {
            if (isa<GEPOperator>(u) || isa<BitCastOperator>(u) || isa<PHINode>(u) || isa<SelectInst>(u)) { q.push_back(u); continue; }
            if (isa<Constant>(u)) { if (!isa<GlobalValue>(u)) q.push_back(u); else if (esc) *esc = true; continue; }
            auto *i = dyn_cast<Instruction>(u); if (!i) continue;
            if (auto *s = dyn_cast<StoreInst>(i)) { if (s->getPointerOperand() == v) found(i, "a store"); else if (esc) *esc = true; continue; }
            if (isa<AtomicRMWInst>(i) || isa<AtomicCmpXchgInst>(i)) { found(i, "an atomic update"); continue; }
            auto *c = dyn_cast<CallBase>(i); if (!c || isa<DbgInfoIntrinsic>(c) || c->isLifetimeStartOrEnd()) continue;
            for (unsigned k = 0; k < c->arg_size(); k++) {
                if (c->getArgOperand(k) != v) continue;
                if (isa<MemIntrinsic>(c)) { if (k == 0) found(i, "a copy or fill"); continue; }
                if (isa<IntrinsicInst>(c)) continue;
                for (auto *f : callees(c)) {
                    if (f->isDeclaration()) {
                        S n = f->getName().str(); S d = demangle(n);
                        if (pureLibc.count(n) && !(n == "fread" && k == 0)) continue;
                        if (n == "__cxa_guard_acquire" || n == "__cxa_guard_release" || n == "__cxa_guard_abort" || n == "__cxa_atexit") continue;
                        bool std_ = d.compare(0, 5, "std::") == 0; bool cst = std_ && (d.find(") const") != S::npos); if (cst) continue;
                        if (k < f->arg_size() && (f->hasParamAttribute(k, Attribute::ReadOnly) || f->hasParamAttribute(k, Attribute::ReadNone))) continue;
                        if (n == "memcpy" || n == "memmove" || n == "strcpy" || n == "strncpy" || n == "strcat" || n == "sprintf" || n == "snprintf") { if (k == 0) found(i, "a call of " + n); continue; }
                        if (n.compare(0, 14, "pthread_mutex_") == 0 || n.compare(0, 15, "pthread_rwlock_") == 0 || n == "pthread_once") continue;
                        if (esc) *esc = true; continue;
                    }
                    if (k >= f->arg_size()) { if (esc) *esc = true; continue; }
                    std::vector<S> t2; if (writesParam(f, k, t2) == 2) { tr.insert(tr.end(), t2.begin(), t2.end()); found(i, "a call of " + fname(f) + ", which writes it"); }
                }
            }
        }
    }
    return hit;
}
static int writesParam(const Function *F, unsigned n, std::vector<S> &tr) {
    auto k = std::make_pair(F, n); if (mw.count(k)) return mw[k] ? mw[k] : 1;
    mw[k] = 0; auto *i = writesThrough(F->getArg(n), tr); if (i) tr.push_back(posOf(i)); return mw[k] = i ? 2 : 1;
}
// initialisation of a function-local static: every path to i passes a successful __cxa_guard_acquire
static bool guarded(const Instruction *i) {
    auto *F = const_cast<Function *>(i->getFunction()); DominatorTree dt(*F);
    for (auto &j : instructions(*F)) if (auto *c = dyn_cast<CallBase>(&j)) if (auto *t = c->getCalledFunction()) if (t->getName() == "__cxa_guard_acquire" && dt.dominates(&j, i)) return true;
    return false;
}
// a lock is taken earlier on every path
static bool locked(const Instruction *i) {
    auto *F = const_cast<Function *>(i->getFunction()); DominatorTree dt(*F);
    for (auto &j : instructions(*F)) if (auto *c = dyn_cast<CallBase>(&j)) if (auto *t = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts())) { S n = demangle(t->getName().str()); if ((n.find("pthread_mutex_lock") != S::npos || n.find("mutex::lock") != S::npos || n.find("lock_guard<") != S::npos || n.find("unique_lock<") != S::npos || n.find("scoped_lock<") != S::npos) && n.find('~') == S::npos && dt.dominates(&j, i)) return true; }
    return false;
}
static void sharedRule() {
    static const std::set<S> hidden = {"rand", "srand", "random", "srandom", "rand_r", "drand48", "lrand48", "strtok", "localtime", "gmtime", "asctime", "ctime", "strerror", "tmpnam", "setlocale", "getenv", "secure_getenv", "setenv", "putenv", "unsetenv", "getpid", "gettid", "pthread_self", "getrandom", "getentropy", "arc4random", "hcreate", "hsearch", "l64a", "getpwnam", "getpwuid", "localeconv", "mblen", "mbtowc", "wctomb", "sleep", "usleep", "nanosleep", "signal", "sigaction", "atexit", "umask", "chdir"};
    std::set<std::pair<const Function *, S>> readers;
    static const std::set<S> clocks = {"time", "clock", "gettimeofday", "clock_gettime", "ftime", "times", "timespec_get"};
    for (auto &g : M->globals()) {
        if (g.isDeclaration() || g.isConstant()) continue;
        SmallVector<DIGlobalVariableExpression *, 1> d; g.getDebugInfo(d); if (d.empty()) continue;
        auto *v = d[0]->getVariable(); S f = v->getFilename().str(); if (!f.empty() && f[0] != '/') f = v->getDirectory().str() + "/" + f;
        if (f.compare(0, repo.size(), repo)) continue;
        counts["mutable static objects"]++; S nm = v->getName().str() + " (" + f + ":" + std::to_string(v->getLine()) + ")";
        if (g.isThreadLocal()) { lists["per-thread objects, not shared"].push_back(nm); continue; }
        std::vector<std::pair<const Instruction *, S>> all; std::vector<S> tr; bool esc = false; writesThrough(&g, tr, &all, &esc);
        int w = 0;
        for (auto &h : all) { counts["writes considered"]++; if (isInit(h.first->getFunction()) || guarded(h.first) || locked(h.first)) { counts["writes that initialise once or under a lock"]++; continue; } w++; S t; for (auto &x : tr) t += (t.empty() ? "" : " <- ") + x; report("shared state", "static object '" + v->getName().str() + "' is written by " + h.second + ": every context, object and thread shares it", posOf(h.first), t); }
        if (!w) lists[esc ? "static objects whose address is stored (never written directly; writes through the stored address are covered by the abstract interpretation)" : "static objects never written after initialisation"].push_back(nm);
    }
    for (auto &g : M->globals()) if (!g.isDeclaration() && g.isConstant()) { SmallVector<DIGlobalVariableExpression *, 1> d; g.getDebugInfo(d); if (!d.empty()) counts["constant static objects"]++; }
    for (auto &f : *M) {
        if (!ours(&f)) continue; counts["functions"]++; S file = path(f.getSubprogram());
        for (auto &i : instructions(f)) if (auto *c = dyn_cast<CallBase>(&i)) for (auto *t : callees(c)) {
            if (isa<IntrinsicInst>(c)) continue; counts["calls examined"]++;
            S n = t->getName().str(), dn = demangle(n);
            if (hidden.count(n)) report("hidden state", "the result of " + n + " depends on state that is not an argument", posOf(&i));
            else if (clocks.count(n) || dn.find("std::chrono::_V2::system_clock::now") != S::npos || dn.find("std::chrono::_V2::steady_clock::now") != S::npos || dn.find("std::random_device") != S::npos) {
                counts["clock reads"]++; readers.insert({&f, posOf(&i)});
            }
        }
    }
    // who reads the clock: followed up the direct calls to the functions that nothing in the library calls
    { std::map<const Function *, std::set<const Function *>> up;
      for (auto &f : *M) if (ours(&f)) for (auto &i : instructions(f)) if (auto *c = dyn_cast<CallBase>(&i)) if (auto *t = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts())) if (ours(t)) up[t].insert(&f);
      auto forTime = [&](const Function *f) { S l = path(f->getSubprogram()).substr(repo.size()) + " " + fname(f); for (auto &ch : l) ch = tolower(ch); return l.find("totp") != S::npos || l.find("time_based") != S::npos; };
      for (auto &r : readers) { std::set<const Function *> seen; std::vector<const Function *> todo{r.first};
        while (!todo.empty()) { auto *f = todo.back(); todo.pop_back(); if (!seen.insert(f).second || forTime(f)) continue;
          if (up[f].empty()) report("hidden state", "the clock is read outside the time-based passwords, for " + fname(f), r.second); for (auto *g : up[f]) todo.push_back(g); } } }
    if (counts["functions"] < 50 || counts["calls examined"] < 100 || counts["mutable static objects"] + counts["constant static objects"] < 3) broken = "hardly any function or static object found";
}

// ---- effects beyond the caller's memory
static void effectsRule() {
    static const std::map<S, std::vector<S>> table = {
        {"ends the process", {"exit", "_exit", "_Exit", "quick_exit", "abort", "kill", "raise", "killpg", "tgkill", "pthread_kill", "pthread_exit", "pthread_cancel",  "std::terminate", "std::quick_exit", "std::unexpected", "err", "errx", "verr", "verrx", "error", "error_at_line", "syscall", "reboot"}},
        {"writes to the terminal or a descriptor", {"printf", "vprintf", "puts", "putchar", "putchar_unlocked", "perror", "psignal", "write", "pwrite", "writev", "dprintf", "vdprintf", "send", "sendto", "sendmsg", "syslog", "vsyslog", "warn", "warnx", "vwarn", "vwarnx", "__printf_chk", "__vprintf_chk", "putw", "backtrace_symbols_fd", "wprintf", "putwchar"}},
        {"opens, closes or changes files", {"fopen", "fopen64", "fdopen", "freopen", "freopen64", "open", "open64", "openat", "openat64", "creat", "creat64", "close", "fclose", "fcloseall", "unlink", "unlinkat", "remove", "rename", "renameat", "link", "symlink", "mkdir", "rmdir", "mkfifo", "mknod", "tmpfile", "tmpfile64", "mkstemp", "mkostemp", "mkdtemp", "truncate", "ftruncate", "chmod", "fchmod", "chown", "pipe", "pipe2", "dup", "dup2", "dup3", "socket", "connect", "bind", "listen", "accept", "shm_open", "sem_open", "mq_open", "memfd_create", "std::ofstream", "std::ifstream", "std::fstream", "std::basic_ofstream", "std::basic_ifstream", "std::basic_fstream", "std::filebuf", "std::basic_filebuf", "utime", "utimes", "flock", "lockf"}},
        {"starts processes or threads, or loads code", {"system", "popen", "pclose", "fork", "vfork", "clone", "execl", "execle", "execlp", "execv", "execve", "execvp", "execvpe", "posix_spawn", "posix_spawnp", "pthread_create", "thrd_create", "std::thread::thread", "std::jthread::jthread", "std::async", "dlopen", "dlmopen", "daemon", "wait", "waitpid", "timer_create"}},
        {"changes the state of the process", {"setlocale", "newlocale", "uselocale", "std::locale::global", "setenv", "putenv", "unsetenv", "clearenv", "chdir", "fchdir", "chroot", "umask", "signal", "sigaction", "sigprocmask", "pthread_sigmask", "alarm", "ualarm", "setitimer", "atexit", "at_quick_exit", "on_exit", "pthread_atfork", "srand", "srandom", "srand48", "seed48", "lcong48", "initstate", "setstate", "std::set_new_handler", "std::set_terminate", "std::set_unexpected", "setrlimit", "setpriority", "nice", "sched_setaffinity", "sched_setscheduler", "prctl", "personality", "fesetround", "fesetenv", "feenableexcept", "feholdexcept", "mlockall", "munlockall", "setuid", "setgid", "seteuid", "setegid", "setsid", "setpgid", "settimeofday", "clock_settime", "stime", "adjtime", "tzset", "mallopt", "malloc_trim", "sbrk", "brk", "openlog", "sleep", "usleep", "nanosleep", "clock_nanosleep", "pause"}}};
    std::map<S, S> kindOf; for (auto &k : table) for (auto &n : k.second) kindOf[n] = k.first;
    static const std::set<S> toStream = {"fprintf", "vfprintf", "fputs", "fputc", "putc", "fwrite", "fputs_unlocked", "fputc_unlocked", "putc_unlocked", "fwrite_unlocked", "fwprintf", "fputws", "fflush", "setbuf", "setvbuf", "setlinebuf", "__fprintf_chk", "__vfprintf_chk"};
    static const std::set<S> streams = {"stdout", "stderr", "stdin", "_ZSt4cout", "_ZSt4cerr", "_ZSt4clog", "_ZSt3cin", "_ZSt5wcout", "_ZSt5wcerr", "_ZSt5wclog", "_ZSt4wcin"};
    std::map<const Function *, std::set<const Function *>> up;
    for (auto &f : *M) if (ours(&f)) for (auto &i : instructions(f)) if (auto *c = dyn_cast<CallBase>(&i)) for (auto *t : callees(c)) if (ours(t)) up[t].insert(&f);
    // printing is what the printing functions are for: every way to the call leads through one
    auto prints = [&](const Function *f) { S l = fname(f); for (auto &ch : l) ch = tolower(ch); return l.find("print") != S::npos; };
    auto printing = [&](const Function *from) { std::set<const Function *> seen; std::vector<const Function *> todo{from}; while (!todo.empty()) { auto *f = todo.back(); todo.pop_back(); if (!seen.insert(f).second || prints(f)) continue; if (up[f].empty()) return false; for (auto *g : up[f]) todo.push_back(g); } return true; };
    std::set<S> ext;
    auto plain = [](S n) { S d = demangle(n); int depth = 0; S o; for (char ch : d) { if (ch == '<') depth++; else if (ch == '>') depth--; else if (ch == '(' && !depth) break; else if (!depth) o += ch; } size_t sp; if ((sp = o.rfind(' ')) != S::npos && o.compare(0, 8, "operator")) o = o.substr(sp + 1); size_t p; while ((p = o.find("::__cxx11")) != S::npos) o.erase(p, 9); return o; };
    auto kind = [&](const Function *t) -> S { S n = plain(t->getName().str()); if (t->isIntrinsic()) n = t->getName().str(); auto k = kindOf.find(n); if (k != kindOf.end() && !ours(t)) return k->second; size_t p = n.rfind("::"); if (p != S::npos && !ours(t)) { k = kindOf.find(n.substr(0, p)); if (k != kindOf.end()) return k->second; } return ""; };
    for (auto &f : *M) {
        if (!ours(&f)) continue; counts["functions"]++;
        for (auto &i : instructions(f)) {
            if (auto *c = dyn_cast<CallBase>(&i)) {
                if (auto *a = dyn_cast<InlineAsm>(c->getCalledOperand())) { counts["inline assembly"]++; S t = a->getAsmString(); if (t.find("syscall") != S::npos || t.find("int $$0x80") != S::npos || t.find("hlt") != S::npos || t.find("ud2") != S::npos || t.find("int3") != S::npos) report("effect", "assembly that enters the system or stops the process", posOf(&i)); continue; }
                counts["calls examined"]++;
                for (auto *t : callees(c)) if (t->isDeclaration() && !t->isIntrinsic()) ext.insert(plain(t->getName().str()));
            }
            // named functions and standard streams, called or passed on
            for (auto &op : i.operands()) {
                auto *v = op->stripPointerCasts();
                if (auto *t = dyn_cast<Function>(v)) {
                    S k = kind(t); if (k.empty()) continue; counts["uses of functions with effects"]++;
                    if (k[0] == 'w' && printing(&f)) { lists["output by the printing functions"].push_back(posOf(&i)); continue; }
                    report("effect", plain(t->getName().str()) + " " + k, posOf(&i));
                } else if (auto *g = dyn_cast<GlobalVariable>(v)) {
                    if (!g->isDeclaration() || !streams.count(g->getName().str())) continue; counts["uses of functions with effects"]++;
                    if (printing(&f)) { lists["output by the printing functions"].push_back(posOf(&i)); continue; }
                    report("effect", "the standard stream " + plain(g->getName().str()) + " is used by a function that is not for printing", posOf(&i));
                }
            }
        }
    }
    // addresses of such functions in tables
    for (auto &g : M->globals()) {
        if (g.isDeclaration() || !g.hasInitializer()) continue; SmallVector<DIGlobalVariableExpression *, 1> d; g.getDebugInfo(d); if (d.empty()) continue; auto *v = d[0]->getVariable(); S f = v->getFilename().str(); if (!f.empty() && f[0] != '/') f = v->getDirectory().str() + "/" + f; if (f.compare(0, repo.size(), repo)) continue;
        counts["static objects"]++; std::vector<const Value *> todo{g.getInitializer()}; std::set<const Value *> done;
        while (!todo.empty()) { auto *x = todo.back(); todo.pop_back(); if (!done.insert(x).second) continue; if (auto *t = dyn_cast<Function>(x)) { S k = kind(t); if (!k.empty()) report("effect", "static object '" + v->getName().str() + "' refers to " + plain(t->getName().str()) + ", which " + k, f + ":" + std::to_string(v->getLine())); } else if (isa<GlobalValue>(x)) {} else if (auto *cst = dyn_cast<Constant>(x)) for (auto &o : cst->operands()) todo.push_back(o); }
    }
    for (auto &e : ext) lists["external functions called"].push_back(e);
    if (counts["functions"] < 50 || counts["calls examined"] < 100 || ext.size() < 5) broken = "hardly any function or call found";
}

// ---- narrowing of lengths
static bool unsigned64(const DIType *t) {
    S nm; while (auto *d = dyn_cast_or_null<DIDerivedType>(t)) { if (d->getTag() != dwarf::DW_TAG_typedef && d->getTag() != dwarf::DW_TAG_const_type && d->getTag() != dwarf::DW_TAG_volatile_type) return false; t = d->getBaseType(); }
    auto *b = dyn_cast_or_null<DIBasicType>(t); return b && b->getSizeInBits() == 64 && (b->getEncoding() == dwarf::DW_ATE_unsigned || b->getEncoding() == dwarf::DW_ATE_unsigned_char);
}
typedef std::pair<const StructType *, unsigned> Field;
static bool fieldOf(const Value *p, Field &f) { auto *g = dyn_cast<GEPOperator>(p); if (!g) return false; auto *st = dyn_cast<StructType>(g->getSourceElementType()); if (!st || g->getNumIndices() != 2) return false; auto *c = dyn_cast<ConstantInt>(*(g->idx_begin() + 1)); if (!c) return false; f = {st, (unsigned)c->getZExtValue()}; return true; }
// does the pointer certainly point into an object of a size fixed in the program text?
static bool fixedSize(const Value *v) {
    std::set<const Value *> vis; std::deque<const Value *> w{v};
    while (!w.empty()) {
        const Value *x = w.front(); w.pop_front(); if (!vis.insert(x).second) continue;
        if (auto *g = dyn_cast<GEPOperator>(x)) { Field fl; if (fieldOf(g, fl) && fl.first->getElementType(fl.second)->isArrayTy()) return true; if (isa<ArrayType>(g->getSourceElementType())) return true; w.push_back(g->getPointerOperand()); continue; }
        if (isa<BitCastOperator>(x)) { w.push_back(cast<Operator>(x)->getOperand(0)); continue; }
        if (auto *p = dyn_cast<PHINode>(x)) { for (auto &z : p->incoming_values()) w.push_back(z); continue; }
        if (auto *p = dyn_cast<SelectInst>(x)) { w.push_back(p->getTrueValue()); w.push_back(p->getFalseValue()); continue; }
        if (auto *a = dyn_cast<AllocaInst>(x)) { if (isa<ConstantInt>(a->getArraySize())) return true; continue; }
        if (isa<GlobalVariable>(x)) return true;
    }
    return false;
}
static void narrowRule() {
    promote(); paramRanges(); std::map<const Value *, const Value *> from; std::deque<const Value *> q; std::set<Field> ff; std::map<Field, S> fwhy; std::map<const Value *, S> why;
    auto add = [&](const Value *v, const Value *p, const S &w) { if (!v->getType()->isIntegerTy(64) && !v->getType()->isFloatingPointTy() && !(v->getType()->isIntegerTy() && v->getType()->getIntegerBitWidth() > 64)) return; if (isa<Constant>(v)) return; if (why.count(v)) return; why[v] = w; from[v] = p; q.push_back(v); };
    auto lenName = [](const S &n, size_t nargs) { if (n == "strlen" || n == "fread" || n == "strnlen" || n == "ftell") return true; return n.compare(0, 5, "std::") == 0 && (n.find("::size(") != S::npos || n.find("::length(") != S::npos || n.find("char_traits<char>::length") != S::npos); };
    for (auto &f : *M) {
        if (!ours(&f)) continue; counts["functions"]++;
        auto *sp = f.getSubprogram(); auto ty = sp->getType() ? sp->getType()->getTypeArray() : DITypeRefArray(nullptr);
        unsigned nt = ty.size(); if (f.isVarArg() && nt > 1) nt--; // the type list of a variadic function has one more entry
        unsigned sh = nt ? (unsigned)f.arg_size() - (nt - 1) : 0; // a hidden pointer for the returned object
        for (unsigned k = 0; k < f.arg_size(); k++) { if (!f.getArg(k)->getType()->isIntegerTy(64)) continue; unsigned i = k - sh + 1; if (nt && i < nt && i >= 1 && unsigned64(ty[i])) { counts["length parameters"]++; add(f.getArg(k), nullptr, "parameter " + std::to_string(k + 1) + " of " + fname(&f)); } }
        for (auto &i : instructions(f)) if (auto *c = dyn_cast<CallBase>(&i)) if (auto *t = c->getCalledFunction()) if (lenName(demangle(t->getName().str()), 0)) { counts["length results"]++; add(c, nullptr, "result of " + fname(t)); }
        for (auto &i : instructions(f)) if (auto *l = dyn_cast<LoadInst>(&i)) if (auto *p = dyn_cast<PHINode>(l->getPointerOperand())) if (l->getType()->isIntegerTy(64)) {
            bool va = false; for (auto &z : p->incoming_values()) { const Value *b = z; while (auto *g = dyn_cast<GEPOperator>(b)) b = g->getPointerOperand(); auto *k = dyn_cast<LoadInst>(b); Field fl; if (k && fieldOf(k->getPointerOperand(), fl) && fl.first->hasName() && fl.first->getName().contains("__va_list_tag")) va = true; }
            if (va) { counts["variable arguments of 64 bits"]++; add(l, nullptr, "a variable argument of " + fname(&f)); } }
        for (auto &i : instructions(f)) if (auto *b = dyn_cast<BinaryOperator>(&i)) if (b->getOpcode() == Instruction::Sub) { // the distance between two pointers into caller-sized memory
            auto *x = dyn_cast<PtrToIntInst>(b->getOperand(0)), *y = dyn_cast<PtrToIntInst>(b->getOperand(1)); if (!x || !y || fixedSize(x->getOperand(0)) || fixedSize(y->getOperand(0))) continue;
            counts["pointer distances"]++; add(b, nullptr, "the distance between two pointers"); }
    }
    while (!q.empty()) {
        const Value *v = q.front(); q.pop_front();
        for (auto *u : v->users()) {
            auto *i = dyn_cast<Instruction>(u); if (!i) continue;
            if (isa<UIToFPInst>(i) || isa<SIToFPInst>(i) || isa<FPExtInst>(i) || isa<FPTruncInst>(i) || isa<FPToUIInst>(i) || isa<FPToSIInst>(i)) { add(i, v, why[v]); continue; }
            if (v->getType()->isFloatingPointTy()) { // computed with in floating point
                if (i->getOpcode() == Instruction::FAdd || i->getOpcode() == Instruction::FSub || i->getOpcode() == Instruction::FMul || (i->getOpcode() == Instruction::FDiv && i->getOperand(0) == v) || isa<PHINode>(i) || isa<SelectInst>(i) || (isa<CallBase>(i) && i->getType()->isFloatingPointTy())) add(i, v, why[v]); if (!isa<ReturnInst>(i)) continue; }
            if (auto *b = dyn_cast<BinaryOperator>(i)) { auto o = b->getOpcode(); if (o == Instruction::Add || o == Instruction::Sub || o == Instruction::Mul || o == Instruction::Or || (o == Instruction::Shl && b->getOperand(0) == v) || ((o == Instruction::UDiv || o == Instruction::LShr || o == Instruction::SDiv || o == Instruction::AShr) && b->getOperand(0) == v) || (o == Instruction::And && b->getOperand(0) == v)) add(i, v, why[v]); continue; }
            if (isa<PHINode>(i) || isa<SelectInst>(i) || isa<ZExtInst>(i) || isa<FreezeInst>(i)) { add(i, v, why[v]); continue; }
            if (auto *s = dyn_cast<StoreInst>(i)) { Field f; if (s->getValueOperand() == v && fieldOf(s->getPointerOperand(), f) && ff.insert(f).second) { fwhy[f] = why[v]; for (auto &fn : *M) for (auto &j : instructions(fn)) if (auto *l = dyn_cast<LoadInst>(&j)) { Field g; if (fieldOf(l->getPointerOperand(), g) && g == f) add(l, v, "field " + std::to_string(f.second) + " of " + (f.first->hasName() ? f.first->getName().str() : S("a structure")) + ", set from " + why[v]); } } continue; }
            if (isa<ReturnInst>(i)) { auto *F = i->getFunction(); for (auto *x : F->users()) if (auto *c = dyn_cast<CallBase>(x)) if (c->getCalledOperand() == F) add(c, v, "result of " + fname(F)); continue; }
            if (auto *c = dyn_cast<CallBase>(i)) for (auto *t : callees(c)) if (!t->isDeclaration() && ours(t)) for (unsigned k = 0; k < c->arg_size() && k < t->arg_size(); k++) if (c->getArgOperand(k) == v) add(t->getArg(k), v, why[v]);
        }
    }
    counts["values carrying a length"] = why.size();
    for (auto &f : *M) { // the interface itself
        if (!ours(&f) || !isPublic(&f)) continue;
        std::set<const DILocalVariable *> args; for (auto &i : instructions(f)) if (auto *dv = dyn_cast<DbgVariableIntrinsic>(&i)) if (dv->getVariable()->getArg() && dv->getDebugLoc()->getInlinedAt() == nullptr) args.insert(dv->getVariable());
        for (auto *v : args) {
            S n = v->getName().lower(); bool len = n.find("len") != S::npos || n.find("size") != S::npos || n == "n" || n == "sz"; if (!len || n.find("digit") != S::npos) continue;
            const DIType *t = v->getType(); while (auto *d = dyn_cast_or_null<DIDerivedType>(t)) { if (d->getTag() == dwarf::DW_TAG_pointer_type || d->getTag() == dwarf::DW_TAG_reference_type) { t = nullptr; break; } t = d->getBaseType(); }
            auto *b = dyn_cast_or_null<DIBasicType>(t); if (!b) continue; counts["length parameters of the interface"]++;
            if (b->getSizeInBits() < 64) report("narrow length parameter", "the interface takes " + v->getName().str() + " of " + fname(&f) + " in " + std::to_string(b->getSizeInBits()) + " bits", path(f.getSubprogram()) + ":" + std::to_string(v->getLine()) + " in " + fname(&f)); } }
    const DataLayout &DL = M->getDataLayout();
    // what does a narrowed count end in?
    auto sinkOf = [&](const Instruction *tr, S &what, bool through = false) -> const Instruction * {
        std::set<const Value *> vis; std::deque<const Value *> w{tr};
        while (!w.empty()) {
            const Value *v = w.front(); w.pop_front(); if (!vis.insert(v).second) continue;
            for (auto *u : v->users()) {
                auto *i = dyn_cast<Instruction>(u); if (!i || isa<DbgInfoIntrinsic>(i)) continue;
                if (auto *b = dyn_cast<BinaryOperator>(i)) { auto o = b->getOpcode(); if (o == Instruction::Add || o == Instruction::Sub || o == Instruction::Mul || (o == Instruction::UDiv && b->getOperand(0) == v)) w.push_back(i); continue; }
                if (isa<PHINode>(i) || isa<SelectInst>(i) || isa<ZExtInst>(i) || isa<SExtInst>(i) || (through && isa<TruncInst>(i))) { w.push_back(i); continue; }
                if (auto *c = dyn_cast<ICmpInst>(i)) { for (auto *x : c->users()) { if (auto *br = dyn_cast<BranchInst>(x)) { what = "a comparison that decides a branch"; return i; } if (isa<SelectInst>(x)) { what = "a comparison"; return i; } } continue; }
                if (isa<GetElementPtrInst>(i)) { what = "a memory offset"; return i; }
                if (auto *s = dyn_cast<StoreInst>(i)) { Field fl; if (s->getValueOperand() == v && (v->getType()->isIntegerTy(64) || (width(v) >= 16 && fieldOf(s->getPointerOperand(), fl)))) { what = "a stored counter"; return i; } continue; }
                if (isa<ReturnInst>(i) && i->getFunction()->getReturnType()->isIntegerTy()) { what = "the returned count"; return i; }
                if (auto *c = dyn_cast<CallBase>(i)) { if (isa<MemIntrinsic>(c)) { if (c->arg_size() > 2 && c->getArgOperand(2) == v) { what = "the length of a copy"; return i; } continue; } if (isa<IntrinsicInst>(c)) continue; what = "an argument of " + (c->getCalledFunction() ? fname(c->getCalledFunction()) : S("a call")); return i; }
            }
        }
        return nullptr;
    };
    // one half of a count kept in two words: the upper bits of the same value end in the same kind of place
    auto split = [&](const TruncInst *t, const S &what) {
        if (what != "a stored counter" && what != "the returned count" && what.compare(0, 14, "an argument of") != 0) return false;
        const Value *b = t->getOperand(0); unsigned long w = width(t);
        if (auto *o = dyn_cast<BinaryOperator>(b)) if (auto *c = dyn_cast<ConstantInt>(o->getOperand(1))) { if (o->getOpcode() == Instruction::Shl && c->getZExtValue() < w) { b = o->getOperand(0); w -= c->getZExtValue(); } }
        auto same = [](const Value *x, const Value *y) { if (sameValue(x, y)) return true; auto *k = dyn_cast<LoadInst>(x), *l = dyn_cast<LoadInst>(y); Field f, g; return k && l && fieldOf(k->getPointerOperand(), f) && fieldOf(l->getPointerOperand(), g) && f == g && base(k->getPointerOperand()) == base(l->getPointerOperand()); };
        for (auto &i : instructions(*t->getFunction())) {
            if (i.getOpcode() != Instruction::LShr || !same(i.getOperand(0), b)) continue; auto *c = dyn_cast<ConstantInt>(i.getOperand(1)); if (!c || !c->getZExtValue() || c->getZExtValue() > w) continue;
            S other; if (sinkOf(&i, other, true) && other == what) return true;
        }
        return false;
    };
    auto chain = [&](const Value *v) { S t; int n = 0; for (const Value *x = v; x && n < 12; x = from[x], n++) if (auto *i = dyn_cast<Instruction>(x)) t += (t.empty() ? "" : " <- ") + posOf(i); return t; };
    for (auto &f : *M) {
        if (!ours(&f)) continue; DominatorTree dt(f); LoopInfo li(dt);
        for (auto &i : instructions(f)) {
            if ((isa<FPToUIInst>(&i) || isa<FPToSIInst>(&i)) && why.count(i.getOperand(0)) && width(&i) < 64) {
                counts["narrowing conversions of lengths"]++;
                std::function<double(const Value *, int)> top = [&](const Value *v, int d) -> double { // an upper bound of a non-negative computation
                    if (auto *c = dyn_cast<ConstantFP>(v)) return c->getValueAPF().convertToDouble(); auto *o = dyn_cast<Instruction>(v); if (!o || !d) return 1e300;
                    if (isa<UIToFPInst>(o) || isa<SIToFPInst>(o)) { const Value *n = o->getOperand(0); unsigned w = n->getType()->getIntegerBitWidth(); return w < 64 ? std::ldexp(1.0, (int)w) : (double)range(n, &i).hi; }
                    if (isa<FPExtInst>(o) || isa<FPTruncInst>(o)) return top(o->getOperand(0), d - 1); if (o->getOpcode() == Instruction::FMul) return top(o->getOperand(0), d - 1) * top(o->getOperand(1), d - 1); if (o->getOpcode() == Instruction::FAdd) return top(o->getOperand(0), d - 1) + top(o->getOperand(1), d - 1); if (o->getOpcode() == Instruction::FSub) return top(o->getOperand(0), d - 1);
                    if (o->getOpcode() == Instruction::FDiv) { auto *c = dyn_cast<ConstantFP>(o->getOperand(1)); double k = c ? c->getValueAPF().convertToDouble() : 1; return top(o->getOperand(0), d - 1) / (k > 0 ? k : 1); }
                    if (auto *c = dyn_cast<CallBase>(o)) if (c->arg_size() == 1) return top(c->getArgOperand(0), d - 1) + 1; return 1e300; };
                if (top(i.getOperand(0), 20) < (double)maxOf(width(&i) - (isa<FPToSIInst>(&i) ? 1 : 0))) { counts["conversions that lose nothing"]++; lists["conversions that lose nothing, at"].push_back(posOf(&i)); continue; }
                S what; const Instruction *s = sinkOf(&i, what); if (s) report("narrowed length", why.at(i.getOperand(0)) + ", computed with in floating point, is reduced to " + std::to_string(width(&i)) + " bits and ends in " + what + " at " + posOf(s), posOf(&i), chain(i.getOperand(0)));
                continue;
            }
            if (auto *t = dyn_cast<TruncInst>(&i)) {
                const Value *src = t->getOperand(0); if (!why.count(src)) continue; counts["narrowing conversions of lengths"]++;
                KnownBits kb = computeKnownBits(src, DL); unsigned w = t->getType()->getIntegerBitWidth();
                if (auto *o = dyn_cast<BinaryOperator>(src)) if (o->getOpcode() == Instruction::LShr) if (auto *c = dyn_cast<ConstantInt>(o->getOperand(1))) if (c->getZExtValue() + w >= 61) { counts["conversions that lose nothing"]++; lists["conversions that lose nothing, at"].push_back(posOf(&i)); continue; } // no object has 2^61 bytes or 2^61 bits
                if (kb.countMaxActiveBits() <= w || range(src, t).hi <= maxOf(w)) { counts["conversions that lose nothing"]++; lists["conversions that lose nothing, at"].push_back(posOf(&i)); continue; }
                S what; const Instruction *s = sinkOf(t, what);
                if (!s) { counts["conversions that extract bytes"]++; lists["conversions that extract bytes, at"].push_back(posOf(&i)); continue; }
                if (split(t, what)) { counts["conversions whose upper bits are kept beside"]++; lists["conversions whose upper bits are kept beside, at"].push_back(posOf(&i)); continue; }
                report("narrowed length", why.at(src) + " is reduced to " + std::to_string(w) + " bits and ends in " + what + " at " + posOf(s), posOf(&i), chain(src));
            }
            if (i.getOpcode() == Instruction::And) if (auto *m = dyn_cast<ConstantInt>(i.getOperand(1))) { // the same by masking
                unsigned long k = m->getZExtValue(); const Value *src = i.getOperand(0); if (!why.count(src) || k < 0xffff || (k & (k + 1)) || k > 0xffffffffffful) continue;
                counts["narrowing conversions of lengths"]++; if (range(src, &i).hi <= k) { counts["conversions that lose nothing"]++; lists["conversions that lose nothing, at"].push_back(posOf(&i)); continue; }
                S what; const Instruction *s = sinkOf(&i, what); if (!s) { counts["conversions that extract bytes"]++; lists["conversions that extract bytes, at"].push_back(posOf(&i)); continue; }
                report("narrowed length", why.at(src) + " is reduced to its lower bits and ends in " + what + " at " + posOf(s), posOf(&i), chain(src));
            }
            // a counter of fewer bits than the count it is compared with
            if (auto *c = dyn_cast<ICmpInst>(&i)) for (int k = 0; k < 2; k++) {
                const Value *n = c->getOperand(k), *o = c->getOperand(1 - k); if (!why.count(n)) continue; counts["comparisons with lengths"]++;
                if (!isa<ZExtInst>(o) && !isa<SExtInst>(o)) continue;
                const Value *x = cast<CastInst>(o)->getOperand(0); if (x->getType()->getIntegerBitWidth() > 32) continue;
                unsigned cw = x->getType()->getIntegerBitWidth() - (isa<SExtInst>(o) ? 1 : 0); if (computeKnownBits(n, DL).countMaxActiveBits() <= cw || range(n, c).hi <= maxOf(cw)) { counts["comparisons of narrow counters with small counts"]++; continue; }
                std::set<const Value *> vis; std::deque<const Value *> w{x}; bool counter = false; // a loop-carried value that is stepped?
                while (!w.empty() && !counter) { const Value *y = w.front(); w.pop_front(); if (!vis.insert(y).second) continue; if (auto *p = dyn_cast<PHINode>(y)) { auto *L = li.getLoopFor(p->getParent()); if (L && L->getHeader() == p->getParent() && L->contains(c)) counter = true; for (auto &z : p->incoming_values()) w.push_back(z); } else if (auto *b = dyn_cast<BinaryOperator>(y)) { if (b->getOpcode() == Instruction::Add || b->getOpcode() == Instruction::Sub) w.push_back(b->getOperand(0)); } else if (auto *t = dyn_cast<TruncInst>(y)) w.push_back(t->getOperand(0)); else if (isa<ZExtInst>(y) || isa<SExtInst>(y)) w.push_back(cast<CastInst>(y)->getOperand(0)); }
                if (!counter) continue;
                bool br = false; for (auto *u : c->users()) br |= isa<BranchInst>(u) || isa<SelectInst>(u) || isa<PHINode>(u);
                if (br) report("narrow counter", "a loop counter of " + std::to_string(x->getType()->getIntegerBitWidth()) + " bits is compared with " + why.at(n) + ", which may be larger than it can count", posOf(&i), chain(n));
            }
        }
    }
    if (counts["length parameters"] < 30 || counts["comparisons with lengths"] < 5) broken = "hardly any length parameter found";
}

int main(int argc, char **argv) {
    if (argc < 4) { errs() << "usage: rules lib.bc rule repo\n"; return 2; }
    LLVMContext ctx; SMDiagnostic err; M = parseIRFile(argv[1], err, ctx); if (!M) { errs() << "cannot read " << argv[1] << ": " << err.getMessage() << "\n"; return 2; }
    S rule = argv[2]; repo = argv[3]; if (repo.empty() || repo.back() != '/') repo += '/'; 
    indexCalls();
    if (rule == "shared") { promote(); sharedRule(); } else if (rule == "narrow") narrowRule(); else if (rule == "stack") stackRule(); else if (rule == "effects") effectsRule(); else { errs() << "unknown rule\n"; return 2; }
    S o = "{\"violations\":["; bool first = true; for (auto &v : viol) { o += S(first ? "" : ",") + "{\"kind\":" + json(v.kind) + ",\"msg\":" + json(v.msg) + ",\"where\":" + json(v.where) + ",\"trace\":" + json(v.trace) + "}"; first = false; } o += "]";
    if (!broken.empty()) o += ",\"broken\":" + json(broken);
    for (auto &c : counts) o += "," + json(c.first) + ":" + std::to_string(c.second);
    for (auto &l : lists) { o += "," + json(l.first) + ":["; for (size_t i = 0; i < l.second.size(); i++) o += (i ? "," : "") + json(l.second[i]); o += "]"; }
    outs() << o << "}\n"; outs().flush(); _exit(0);
}
