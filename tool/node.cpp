#include "node.h"
const char *opname[] = {"const","atom","undef","ptr","extract","concat","add","mul","udiv","sdiv","urem","srem","shl","lshr","ashr",
    "and","or","xor","eq","ult","slt","ite","select","table","sext","fop","uf","agg"};
static Node depmulti_; Node *const DEPMULTI = &depmulti_;
std::vector<AtomInfo> atoms;
static std::vector<Node *> buckets(1 << 20, nullptr);
static u64 count_ = 0;
u64 nodeCount() { return count_; }

static inline u64 mix(u64 x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33; return x; }

// bump allocator
static char *arena = nullptr; static size_t arenaLeft = 0;
static void *balloc(size_t n) {
    n = (n + 15) & ~size_t(15);
    if (n > arenaLeft) { size_t s = n > (1u << 22) ? n : (1u << 22); arena = (char *)malloc(s); arenaLeft = s; }
    void *p = arena; arena += n; arenaLeft -= n; return p;
}

static u64 evalOp(Op op, unsigned w, u64 k, u32 n, const std::function<u64(unsigned)> &v, Node **kid) {
    u64 m = maskw(w);
    switch (op) {
    case EXTRACT: return (v(0) >> k) & m;
    case CONCAT: { u64 r = 0; unsigned sh = 0; for (u32 i = 0; i < n; i++) { r |= v(i) << sh; sh += kid[i]->w; } return r & m; }
    case ADD: { u64 r = 0; for (u32 i = 0; i < n; i++) r += v(i); return r & m; }
    case MUL: { u64 r = 1; for (u32 i = 0; i < n; i++) r *= v(i); return r & m; }
    case AND: { u64 r = ~0ull; for (u32 i = 0; i < n; i++) r &= v(i); return r & m; }
    case OR: { u64 r = 0; for (u32 i = 0; i < n; i++) r |= v(i); return r & m; }
    case XOR: { u64 r = 0; for (u32 i = 0; i < n; i++) r ^= v(i); return r & m; }
    case UDIV: { u64 d = v(1); return d ? v(0) / d : m; }
    case UREM: { u64 d = v(1); return d ? v(0) % d : v(0); }
    case SDIV: { i64 a = sx(v(0), w), d = sx(v(1), w); return d == 0 ? m : d == -1 ? (u64)(0 - (u64)a) & m : (u64)(a / d) & m; }
    case SREM: { i64 a = sx(v(0), w), d = sx(v(1), w); return d == 0 ? (u64)a & m : d == -1 ? 0 : (u64)(a % d) & m; }
    case SHL: { u64 s = v(1); return s >= w ? 0 : (v(0) << s) & m; }
    case LSHR: { u64 s = v(1); return s >= w ? 0 : v(0) >> s; }
    case ASHR: { u64 s = v(1); if (s >= w) s = w - 1; return (u64)(sx(v(0), w) >> s) & m; }
    case EQ: return v(0) == v(1);
    case ULT: return v(0) < v(1);
    case SLT: return sx(v(0), kid[0]->w) < sx(v(1), kid[1]->w);
    case ITE: return v(0) ? v(1) : v(2);
    case SELECT: { u64 i = v(n - 1); return i < n - 1 ? v((unsigned)i) : 0; }
    case SEXT: return (u64)sx(v(0), kid[0]->w) & m;
    case FOP: case UF: { u64 h = mix(k * 977 + op); for (u32 i = 0; i < n; i++) h = mix(h ^ v(i)) + i; return h & m; }
    case PTR: return (((k + 1) << 32) + v(0)) & m;
    default: return 0;
    }
}

Bits domainOf(Node *a) { return atoms[a->k].dom; }

static Node *intern(Op op, unsigned w, u64 k, Node **kid, u32 n, u64 *tbl = nullptr, u32 tn = 0);

static Node *simpTable(Node *atom, std::vector<u64> &t, unsigned w) {
    const Bits &dom = atoms[atom->k].dom;
    bool first = true, same = true, ident = true; u64 v0 = 0;
    for (unsigned i = 0; i < t.size(); i++) {
        if (!dom[i]) { t[i] = 0; continue; }
        t[i] &= maskw(w);
        if (first) { v0 = t[i]; first = false; } else if (t[i] != v0) same = false;
        if (t[i] != i) ident = false;
    }
    if (same) return mkConst(v0, w);
    if (ident && w >= atom->w) return mkZext(atom, w);
    return intern(TABLE, w, 0, &atom, 1, t.data(), (u32)t.size());
}

u64 valAt(Node *n, Node *atom, unsigned v) { // value of n (dep subset of atom) at atom=v
    switch (n->op) {
    case CONST: return n->k;
    case ATOM: return v;
    case TABLE: return n->tbl[v];
    default: return evalOp(n->op, n->w, n->k, n->n, [&](unsigned i) { return valAt(n->kid[i], atom, v); }, n->kid);
    }
}

static Node *tabulate(Op op, unsigned w, u64 k, Node **kid, u32 n, Node *atom) {
    std::vector<u64> t(size_t(1) << atom->w);
    const Bits &dom = atoms[atom->k].dom;
    for (unsigned v = 0; v < t.size(); v++) {
        if (!dom[v]) continue;
        t[v] = evalOp(op, w, k, n, [&](unsigned i) { return valAt(kid[i], atom, v); }, kid);
    }
    return simpTable(atom, t, w);
}

static void ranges(Node *x) {
    u64 m = maskw(x->w);
    x->umin = 0; x->umax = m; x->kz = ~m;
    switch (x->op) {
    case CONST: x->umin = x->umax = x->k; x->kz = ~x->k; break;
    case ATOM: if (atoms[x->k].tab) {
            const Bits &d = atoms[x->k].dom; unsigned lo = 256, hi = 0;
            for (unsigned i = 0; i < (1u << x->w); i++) if (d[i]) { if (lo == 256) lo = i; hi = i; }
            if (lo < 256) { x->umin = lo; x->umax = hi; } } break;
    case EXTRACT: { Node *a = x->kid[0]; x->kz = (a->kz >> x->k) | ~m; if (x->k == 0 && a->umax <= m) { x->umin = a->umin; x->umax = a->umax; } else if (x->k && x->k + x->w == a->w) { x->umin = a->umin >> x->k; x->umax = a->umax >> x->k; } break; }
    case CONCAT: { unsigned sh = 0; u64 lo = 0, hi = 0, kz = ~m; for (u32 i = 0; i < x->n; i++) { Node *a = x->kid[i]; lo += a->umin << sh; hi += a->umax << sh; kz |= (a->kz & maskw(a->w)) << sh; sh += a->w; } x->umin = lo; x->umax = hi; x->kz = kz; break; }
    case ADD: { u128 lo = 0, hi = 0; for (u32 i = 0; i < x->n; i++) { lo += x->kid[i]->umin; hi += x->kid[i]->umax; } if (hi <= m) { x->umin = (u64)lo; x->umax = (u64)hi; }
            else if (x->n == 2) { // x + negative constant without wrap
                Node *c = x->kid[0]->op == CONST ? x->kid[0] : x->kid[1]->op == CONST ? x->kid[1] : nullptr; Node *o = c == x->kid[0] ? x->kid[1] : x->kid[0];
                if (c) { u64 neg = (0 - c->k) & m; if (o->umin >= neg) { x->umin = o->umin - neg; x->umax = o->umax - neg; } } }
            // low known zero bits
            { unsigned tz = 64; for (u32 i = 0; i < x->n; i++) { u64 nz = ~x->kid[i]->kz; unsigned t = nz ? __builtin_ctzll(nz) : 64; if (t < tz) tz = t; } if (tz) x->kz |= tz >= 64 ? ~0ull : ((1ull << tz) - 1); }
            break; }
    case MUL: { u128 lo = 1, hi = 1; bool ok = true; for (u32 i = 0; i < x->n; i++) { lo *= x->kid[i]->umin; hi *= x->kid[i]->umax; if (hi > m) { ok = false; break; } } if (ok) { x->umin = (u64)lo; x->umax = (u64)hi; }
            unsigned tz = 0; for (u32 i = 0; i < x->n; i++) { u64 nz = ~x->kid[i]->kz; tz += nz ? __builtin_ctzll(nz) : 64; } if (tz) x->kz |= tz >= 64 ? ~0ull : ((1ull << tz) - 1); break; }
    case UDIV: if (x->kid[1]->umin) { x->umin = x->kid[0]->umin / x->kid[1]->umax; x->umax = x->kid[0]->umax / x->kid[1]->umin; } break;
    case UREM: if (x->kid[1]->umin) { x->umax = std::min(x->kid[0]->umax, x->kid[1]->umax - 1); } break;
    case LSHR: x->umax = x->kid[0]->umax; break;
    case AND: { u64 kz = 0, mx = m; for (u32 i = 0; i < x->n; i++) { kz |= x->kid[i]->kz; mx = std::min(mx, x->kid[i]->umax); } x->kz |= kz; x->umax = mx; break; }
    case OR: case XOR: { u64 kz = ~0ull; for (u32 i = 0; i < x->n; i++) kz &= x->kid[i]->kz; x->kz |= kz; break; }
    case ITE: x->umin = std::min(x->kid[1]->umin, x->kid[2]->umin); x->umax = std::max(x->kid[1]->umax, x->kid[2]->umax); x->kz = x->kid[1]->kz & x->kid[2]->kz; break;
    case SELECT: { u64 lo = ~0ull, hi = 0, kz = ~0ull; for (u32 i = 0; i + 1 < x->n; i++) { lo = std::min(lo, x->kid[i]->umin); hi = std::max(hi, x->kid[i]->umax); kz &= x->kid[i]->kz; } x->umin = lo; x->umax = hi; x->kz = kz | ~m; break; }
    case TABLE: { const Bits &d = atoms[x->kid[0]->k].dom; u64 lo = ~0ull, hi = 0, kz = ~0ull; for (unsigned i = 0; i < (1u << x->kid[0]->w); i++) if (d[i]) { lo = std::min(lo, x->tbl[i]); hi = std::max(hi, x->tbl[i]); kz &= ~x->tbl[i]; } x->umin = lo; x->umax = hi; x->kz = kz; break; }
    default: break;
    }
    // combine
    u64 fromkz = ~x->kz & m; if (x->umax > fromkz) x->umax = fromkz;
    if (x->umax < m) { unsigned b = x->umax ? 64 - __builtin_clzll(x->umax) : 0; x->kz |= ~maskw(b); if (b == 0) x->kz = ~0ull; }
}

static Node *intern(Op op, unsigned w, u64 k, Node **kid, u32 n, u64 *tbl, u32 tn) {
    u64 h = mix(op * 131 + w) ^ mix(k + 0x9e37);
    for (u32 i = 0; i < n; i++) h = mix(h + kid[i]->id * 0x9e3779b97f4a7c15ull + i);
    for (u32 i = 0; i < tn; i++) h = mix(h + tbl[i] + i * 77);
    size_t b = h & (buckets.size() - 1);
    for (Node *x = buckets[b]; x; x = x->next)
        if (x->h == h && x->op == op && x->w == w && x->k == k && x->n == n && !memcmp(x->kid, kid, n * sizeof(Node *)) && (!tn || !memcmp(x->tbl, tbl, tn * 8))) return x;
    Node *x = (Node *)balloc(sizeof(Node));
    memset((void *)x, 0, sizeof(Node));
    x->op = op; x->w = (u8)w; x->k = k; x->n = n; x->h = h; x->id = (u32)++count_;
    x->kid = n ? (Node **)balloc(n * sizeof(Node *)) : nullptr;
    if (n) memcpy(x->kid, kid, n * sizeof(Node *));
    if (tn) { x->tbl = (u64 *)balloc(tn * 8); memcpy(x->tbl, tbl, tn * 8); }
    x->undef = op == UNDEF; x->dep = nullptr;
    if (op == UNDEF) x->dep = DEPMULTI;
    if (op == ATOM) x->dep = atoms[k].tab ? x : DEPMULTI;
    u64 nc = op == ITE || op == EQ || op == ULT || op == SLT || op == TABLE || op == SELECT;
    for (u32 i = 0; i < n; i++) {
        if (kid[i]->undef) x->undef = true;
        if (kid[i]->dep) { if (!x->dep) x->dep = kid[i]->dep; else if (x->dep != kid[i]->dep) x->dep = DEPMULTI; }
        nc += kid[i]->nconds;
    }
    x->nconds = nc > 1000000 ? 1000000 : (u32)nc;
    if (op == ITE) x->cleaf = (isC(kid[1]) || kid[1]->cleaf) && (isC(kid[2]) || kid[2]->cleaf);
    for (int l = 0; l < LANES; l++) {
        switch (op) {
        case CONST: x->fp[l] = k; break;
        case UNDEF: x->fp[l] = mix(x->id * 31 + l + 0xdead) & maskw(w); break;
        case ATOM: {
            u64 r = mix(k * 1315423911ull + l * 0x51ed27 + 12345) & maskw(w);
            if (l == 4) r = 0; else if (l == 5) r = maskw(w);
            if (atoms[k].tab) { const Bits &d = atoms[k].dom; unsigned sz = 1u << w; unsigned i = (unsigned)(r % sz); for (unsigned t = 0; t < sz && !d[i]; t++) i = (i + 1) % sz; r = i; }
            x->fp[l] = r; break; }
        case TABLE: x->fp[l] = x->tbl[kid[0]->fp[l]]; break;
        default: if (w) x->fp[l] = evalOp(op, w, k, n, [&](unsigned i) { return x->kid[i]->fp[l]; }, x->kid);
        }
    }
    if (w) ranges(x);
    x->next = buckets[b]; buckets[b] = x;
    if (count_ > buckets.size()) {
        std::vector<Node *> nb(buckets.size() * 4, nullptr);
        for (Node *p : buckets) while (p) { Node *q = p->next; size_t i = p->h & (nb.size() - 1); p->next = nb[i]; nb[i] = p; p = q; }
        buckets.swap(nb);
    }
    return x;
}

static Node *build(Op op, unsigned w, u64 k, Node **kid, u32 n) {
    Node *dep = nullptr; bool anyTab = false;
    for (u32 i = 0; i < n; i++) { if (kid[i]->dep) { if (!dep) dep = kid[i]->dep; else if (dep != kid[i]->dep) dep = DEPMULTI; } if (kid[i]->op == TABLE) anyTab = true; }
    if (!dep && n && op != AGG && op != PTR && op != FOP && op != UF) { // all constant
        bool all = true; for (u32 i = 0; i < n; i++) if (!isC(kid[i])) all = false;
        if (all) return mkConst(evalOp(op, w, k, n, [&](unsigned i) { return kid[i]->k; }, kid), w);
    }
    if (dep && dep != DEPMULTI && w && op != PTR && op != AGG && op != FOP && op != UF && (anyTab || (op != EXTRACT && op != CONCAT)))
        return tabulate(op, w, k, kid, n, dep);
    return intern(op, w, k, kid, n);
}

static Node *smallc[65][1024];
Node *mkConst(u64 v, unsigned w) {
    v &= maskw(w);
    if (v < 1024 && w <= 64) { Node *&c = smallc[w][v]; if (!c) c = intern(CONST, w, v, nullptr, 0); return c; }
    return intern(CONST, w, v, nullptr, 0);
}
Node *mkAtom(const std::string &name, unsigned w, bool tab, const Bits *dom) {
    AtomInfo a; a.name = name; a.tab = tab; if (tab) { if (dom) a.dom = *dom; else for (unsigned i = 0; i < (1u << w); i++) a.dom[i] = 1; }
    u64 k = atoms.size(); atoms.push_back(a);
    return intern(ATOM, w, k, nullptr, 0);
}
static u64 undefCtr = 0;
Node *mkUndef(unsigned w) { return intern(UNDEF, w, ++undefCtr, nullptr, 0); }
Node *mkAgg(const std::vector<Node *> &kids) { return intern(AGG, 0, 0, const_cast<Node **>(kids.data()), (u32)kids.size()); }
Node *mkUF(Op op, u64 code, unsigned w, const std::vector<Node *> &kids) { return intern(op, w, code, const_cast<Node **>(kids.data()), (u32)kids.size()); }
Node *mkPtr(u64 obj, Node *off) { return intern(PTR, 64, obj, &off, 1); }

Node *mkConcat(const std::vector<Node *> &in) {
    std::vector<Node *> f;
    std::function<void(Node *)> push = [&](Node *p) {
        if (p->w == 0) return;
        if (p->op == CONCAT) { for (u32 i = 0; i < p->n; i++) push(p->kid[i]); return; }
        if (p->op == TABLE && p->w > 1) { // known-zero ends become pieces of their own
            u64 nz = ~p->kz & maskw(p->w); unsigned t = __builtin_ctzll(nz), b = 64 - __builtin_clzll(nz);
            if (nz && (t || b < p->w)) { if (t) push(mkConst(0, t)); push(mkExtract(p, t, b - t)); if (b < p->w) push(mkConst(0, p->w - b)); return; }
        }
        if (!f.empty()) {
            Node *q = f.back();
            if (isC(q) && isC(p)) { f.back() = mkConst(q->k | (p->k << q->w), q->w + p->w); return; }
            if (p->dep && p->dep != DEPMULTI && p->dep == q->dep && q->w + p->w <= 64) { f.pop_back(); Node *kk[2] = {q, p}; f.push_back(build(CONCAT, q->w + p->w, 0, kk, 2)); return; }
            Node *qs = q->op == EXTRACT ? q->kid[0] : q, *ps = p->op == EXTRACT ? p->kid[0] : p;
            u64 ql = q->op == EXTRACT ? q->k : 0, pl = p->op == EXTRACT ? p->k : 0;
            if (qs == ps && (q->op == EXTRACT) && (p->op == EXTRACT) && ql + q->w == pl) { f.pop_back(); push(mkExtract(qs, (unsigned)ql, q->w + p->w)); return; }
        }
        f.push_back(p);
    };
    for (Node *p : in) push(p);
    if (f.size() == 1) return f[0];
    unsigned w = 0; for (Node *p : f) w += p->w;
    if (w > 64) { fprintf(stderr, "concat too wide %u\n", w); return mkUF(UF, 999, 64, f); }
    return build(CONCAT, w, 0, f.data(), (u32)f.size());
}

Node *mkExtract(Node *a, unsigned lo, unsigned w) {
    if (lo == 0 && w == a->w) return a;
    switch (a->op) {
    case CONST: return mkConst(a->k >> lo, w);
    case UNDEF: return mkUndef(w);
    case EXTRACT: return mkExtract(a->kid[0], (unsigned)a->k + lo, w);
    case CONCAT: {
        std::vector<Node *> out; unsigned pos = 0;
        for (u32 i = 0; i < a->n; i++) { Node *p = a->kid[i]; unsigned s = std::max(pos, lo), e = std::min(pos + p->w, lo + w); if (s < e) out.push_back(mkExtract(p, s - pos, e - s)); pos += p->w; }
        return mkConcat(out); }
    case SEXT: if (lo + w <= a->kid[0]->w) return mkExtract(a->kid[0], lo, w); break;
    case ADD: if (a->n <= 4) { // low bits of a sum depend on the low bits of its terms only
        bool ok = true; for (u32 i = 0; i < a->n; i++) if (~a->kid[i]->kz & maskw(lo)) ok = false;
        if (ok) { Node *r = mkExtract(a->kid[0], lo, w); for (u32 i = 1; i < a->n; i++) r = mkBin(ADD, r, mkExtract(a->kid[i], lo, w)); return r; } }
        break;
    case ITE: if (a->cleaf || (a->kid[1]->op == PTR && a->kid[2]->op == PTR)) return mkIte(a->kid[0], mkExtract(a->kid[1], lo, w), mkExtract(a->kid[2], lo, w)); break;
    default: break;
    }
    if (((~a->kz >> lo) & maskw(w)) == 0) return mkConst(0, w);
    return build(EXTRACT, w, lo, &a, 1);
}

Node *mkZext(Node *a, unsigned w) { if (a->w == w) return a; if (a->w > w) return mkExtract(a, 0, w); return mkConcat({a, mkConst(0, w - a->w)}); }
Node *mkSext(Node *a, unsigned w) {
    if (a->w == w) return a;
    if (a->kz >> (a->w - 1) & 1) return mkZext(a, w);
    if (isC(a)) return mkConst((u64)sx(a->k, a->w), w);
    if (a->cleaf) return mkIte(a->kid[0], mkSext(a->kid[1], w), mkSext(a->kid[2], w));
    return build(SEXT, w, 0, &a, 1);
}
Node *mkNot(Node *a) { return mkBin(XOR, a, mkConst(~0ull, a->w)); }

static std::vector<Node *> piecesOf(Node *a) {
    if (a->op == CONCAT) return std::vector<Node *>(a->kid, a->kid + a->n);
    u64 nz = ~a->kz & maskw(a->w); // known-zero ends become pieces of their own
    if (!nz) return {mkConst(0, a->w)};
    unsigned t = __builtin_ctzll(nz), b = 64 - __builtin_clzll(nz);
    std::vector<Node *> r; if (t) r.push_back(mkConst(0, t)); r.push_back(mkExtract(a, t, b - t)); if (b < a->w) r.push_back(mkConst(0, a->w - b)); return r;
}
static bool explicitZero(Node *p) { return isC(p) && p->k == 0; }
// merge of values whose non-zero bits are disjoint
static Node *disjoint(Node *a, Node *b) {
    std::vector<Node *> pa = piecesOf(a), pb = piecesOf(b), out; size_t i = 0, j = 0; unsigned oa = 0, ob = 0, pos = 0;
    while (pos < a->w) {
        unsigned len = std::min(pa[i]->w - oa, pb[j]->w - ob);
        Node *x = mkExtract(pa[i], oa, len), *y = mkExtract(pb[j], ob, len);
        if (explicitZero(x)) out.push_back(y); else if (explicitZero(y)) out.push_back(x); else return nullptr;
        oa += len; ob += len; pos += len; if (oa == pa[i]->w) { i++; oa = 0; } if (ob == pb[j]->w) { j++; ob = 0; }
    }
    return mkConcat(out);
}

static bool sameDiv(Node *a, Node *b) { return a == b; }

static Node *mkAddN(std::vector<std::pair<Node *, u64>> terms, u64 c, unsigned w) {
    u64 m = maskw(w);
    std::sort(terms.begin(), terms.end(), [](const std::pair<Node *, u64> &x, const std::pair<Node *, u64> &y) { return x.first->id < y.first->id; });
    std::vector<Node *> kids; c &= m; kids.reserve(terms.size() + 1);
    for (size_t i = 0; i < terms.size();) { Node *t = terms[i].first; u64 f = 0; for (; i < terms.size() && terms[i].first == t; i++) f += terms[i].second; f &= m; if (!f) continue;
        if (f == 1) kids.push_back(t); else { Node *kk[2] = {mkConst(f, w), t}; kids.push_back(build(MUL, w, 0, kk, 2)); } }
    if (kids.empty()) return mkConst(c, w);
    if (c) kids.push_back(mkConst(c, w));
    if (kids.size() == 1) return kids[0];
    std::sort(kids.begin(), kids.end(), [](Node *x, Node *y) { return x->id < y->id; });
    return build(ADD, w, 0, kids.data(), (u32)kids.size());
}
static void addTerms(Node *a, u64 coef, std::vector<std::pair<Node *, u64>> &t, u64 &c) {
    if (isC(a)) { c += coef * a->k; return; }
    if (a->op == ADD && a->n <= 3000) { for (u32 i = 0; i < a->n; i++) addTerms(a->kid[i], coef, t, c); return; }
    if (a->op == MUL && a->n == 2 && isC(a->kid[0])) { t.push_back({a->kid[1], coef * a->kid[0]->k}); return; }
    t.push_back({a, coef});
}

// (d * x + d * y + c) / d without wrap
static bool byMultiple(Node *a, u64 d, bool quot, Node *&out) {
    if (a->op != ADD && a->op != MUL) return false;
    std::vector<std::pair<Node *, u64>> t; u64 c = 0; addTerms(a, 1, t, c); if (t.size() > 8) return false; u64 m = maskw(a->w); c &= m; u128 hi = c;
    for (auto &x : t) { x.second &= m; if (x.second % d) return false; hi += (u128)x.second * x.first->umax; if (hi > m) return false; }
    if (!quot) { out = mkConst(c % d, a->w); return true; }
    for (auto &x : t) x.second /= d; out = mkAddN(t, c / d, a->w); return true;
}

static bool dist(Op op, Node *a, Node *b, Node *&out) { // distribute over ITE trees with constant leaves
    if (a->cleaf && isC(b)) { out = mkIte(a->kid[0], mkBin(op, a->kid[1], b), mkBin(op, a->kid[2], b)); return true; }
    if (b->cleaf && isC(a)) { out = mkIte(b->kid[0], mkBin(op, a, b->kid[1]), mkBin(op, a, b->kid[2])); return true; }
    return false;
}

Node *mkSub(Node *a, Node *b) {
    if (a == b && !a->undef) return mkConst(0, a->w);
    if (a->op == PTR && b->op == PTR && a->k == b->k) return mkSub(a->kid[0], b->kid[0]);
    if (a->op == PTR && b->op != PTR && !(b->op == ITE)) return mkPtr(a->k, mkSub(a->kid[0], b));
    if (a->op == ITE && a->kid[1]->w == 64 && (a->kid[1]->op == PTR || a->kid[2]->op == PTR)) return mkIte(a->kid[0], mkSub(a->kid[1], b), mkSub(a->kid[2], b));
    if (b->op == ITE && b->kid[1]->w == 64 && (b->kid[1]->op == PTR || b->kid[2]->op == PTR)) return mkIte(b->kid[0], mkSub(a, b->kid[1]), mkSub(a, b->kid[2]));
    std::vector<std::pair<Node *, u64>> t; u64 c = 0; addTerms(a, 1, t, c); addTerms(b, ~0ull, t, c);
    return mkAddN(t, c, a->w);
}

// Bitwise functions of at most four operands in algebraic normal form (exclusive-or of conjunctions)
static bool anfLeaves(Node *x, std::vector<Node *> &lv) {
    if (isC(x)) return true;
    if (x->op == XOR || x->op == AND || x->op == OR) {
        if (x->n <= 17) { size_t sv = lv.size(); bool ok = true; for (u32 i = 0; i < x->n && ok; i++) ok = anfLeaves(x->kid[i], lv); if (ok) return true; lv.resize(sv); }
    }
    for (Node *l : lv) if (l == x) return true;
    if (lv.size() >= 4) return false;
    lv.push_back(x); return true;
}
struct Poly { u64 m[16]; };
static Poly anfPoly(Node *x, const std::vector<Node *> &lv) {
    Poly p; memset(&p, 0, sizeof p); u64 M = maskw(x->w);
    if (isC(x)) { p.m[0] = x->k; return p; }
    for (size_t i = 0; i < lv.size(); i++) if (lv[i] == x) { p.m[size_t(1) << i] = M; return p; }
    auto mul = [&](const Poly &a, const Poly &b) { Poly r; memset(&r, 0, sizeof r); for (int i = 0; i < 16; i++) if (a.m[i]) for (int j = 0; j < 16; j++) r.m[i | j] ^= a.m[i] & b.m[j]; return r; };
    p = anfPoly(x->kid[0], lv);
    for (u32 i = 1; i < x->n; i++) { Poly q = anfPoly(x->kid[i], lv), r;
        if (x->op == AND) p = mul(p, q);
        else if (x->op == OR) { r = mul(p, q); for (int k = 0; k < 16; k++) p.m[k] ^= q.m[k] ^ r.m[k]; }
        else for (int k = 0; k < 16; k++) p.m[k] ^= q.m[k]; }
    return p;
}
static Node *anf(Op op, Node *a, Node *b) {
    unsigned w = a->w; if (w <= 1 || a->undef || b->undef) return nullptr;
    std::vector<Node *> lv; if (!anfLeaves(a, lv) || !anfLeaves(b, lv) || lv.empty()) return nullptr;
    if (op == XOR) for (Node *l : lv) if (l->op == XOR) return nullptr; // a longer sum: flatten instead
    std::sort(lv.begin(), lv.end(), [](Node *x, Node *y) { return x->id < y->id; });
    Poly f = anfPoly(a, lv), q = anfPoly(b, lv);
    { Poly r; memset(&r, 0, sizeof r); for (int i = 0; i < 16; i++) if (f.m[i]) for (int j = 0; j < 16; j++) r.m[i | j] ^= f.m[i] & q.m[j];
      if (op == AND) f = r; else if (op == OR) for (int k = 0; k < 16; k++) f.m[k] ^= q.m[k] ^ r.m[k]; else for (int k = 0; k < 16; k++) f.m[k] ^= q.m[k]; }
    std::vector<Node *> terms; u64 M = maskw(w);
    for (unsigned x = 1; x < (1u << lv.size()); x++) if (f.m[x]) {
        std::vector<Node *> k; for (size_t i = 0; i < lv.size(); i++) if (x >> i & 1) k.push_back(lv[i]);
        if (f.m[x] != M) {
            unsigned runs = 1; for (unsigned i = 1; i < w; i++) if ((f.m[x] >> i & 1) != (f.m[x] >> (i - 1) & 1)) runs++;
            if (k.size() == 1 && runs <= 6) { terms.push_back(mkBin(AND, k[0], mkConst(f.m[x], w))); continue; }
            k.push_back(mkConst(f.m[x], w)); std::sort(k.begin(), k.end(), [](Node *x, Node *y) { return x->id < y->id; }); }
        terms.push_back(k.size() == 1 ? k[0] : build(AND, w, 0, k.data(), (u32)k.size())); }
    if (f.m[0]) terms.push_back(mkConst(f.m[0], w));
    if (terms.empty()) return mkConst(0, w);
    if (terms.size() == 1) return terms[0];
    std::sort(terms.begin(), terms.end(), [](Node *x, Node *y) { return x->id < y->id; });
    return build(XOR, w, 0, terms.data(), (u32)terms.size());
}

static Node *mkBinU(Op op, Node *a, Node *b);
struct BinCache { Node *a, *b, *r; u64 op; };
Node *mkBin(Op op, Node *a, Node *b) { // memo of recent results
    static std::vector<BinCache> cache(1 << 19);
    BinCache &c = cache[mix(((u64)a->id << 32 | b->id) + (u64)op * 0x9e3779b97f4a7c15ull) & (cache.size() - 1)];
    if (c.a == a && c.b == b && c.op == (u64)op) return c.r;
    Node *r = mkBinU(op, a, b);
    BinCache &d = cache[mix(((u64)a->id << 32 | b->id) + (u64)op * 0x9e3779b97f4a7c15ull) & (cache.size() - 1)];
    d.a = a; d.b = b; d.op = op; d.r = r; return r;
}
static Node *mkBinU(Op op, Node *a, Node *b) {
    unsigned w = a->w; u64 m = maskw(w);
    if (isC(a) && isC(b) && op != FOP) { Node *kk[2] = {a, b}; return mkConst(evalOp(op, op == EQ || op == ULT || op == SLT ? 1 : w, 0, 2, [&](unsigned i) { return i ? b->k : a->k; }, kk), op == EQ || op == ULT || op == SLT ? 1 : w); }
    if (op == EQ) return mkEq(a, b); if (op == ULT) return mkUlt(a, b); if (op == SLT) return mkSlt(a, b);
    Node *d; if (dist(op, a, b, d)) return d;
    switch (op) {
    case ADD: {
        if (a->op == PTR && b->op != PTR) return mkPtr(a->k, mkBin(ADD, a->kid[0], b));
        if (b->op == PTR && a->op != PTR) return mkPtr(b->k, mkBin(ADD, b->kid[0], a));
        if (w == 64) { // pointers inside ITE
            if (a->op == ITE && (a->kid[1]->op == PTR || a->kid[2]->op == PTR)) return mkIte(a->kid[0], mkBin(ADD, a->kid[1], b), mkBin(ADD, a->kid[2], b));
            if (b->op == ITE && (b->kid[1]->op == PTR || b->kid[2]->op == PTR)) return mkIte(b->kid[0], mkBin(ADD, a, b->kid[1]), mkBin(ADD, a, b->kid[2]));
        }
        if (isC(a) && !a->k) return b; if (isC(b) && !b->k) return a;
        if (!(~a->kz & ~b->kz & m)) return mkBin(OR, a, b);
        std::vector<std::pair<Node *, u64>> t; u64 c = 0; addTerms(a, 1, t, c); addTerms(b, 1, t, c);
        return mkAddN(t, c, w); }
    case MUL:
        if (isC(b)) std::swap(a, b);
        if (isC(a)) { if (!a->k) return a; if (a->k == 1) return b; if (!(a->k & (a->k - 1))) return mkBin(SHL, b, mkConst(__builtin_ctzll(a->k), w));
            if (b->op == ADD) { std::vector<std::pair<Node *, u64>> t; u64 c = 0; addTerms(b, a->k, t, c); return mkAddN(t, c, w); }
            if (b->op == MUL && b->n == 2 && isC(b->kid[0])) return mkBin(MUL, mkConst(a->k * b->kid[0]->k, w), b->kid[1]); }
        else if (a->id > b->id) std::swap(a, b);
        break;
    case UDIV: case UREM: { bool q = op == UDIV; Node *r = nullptr; if (isC(b) && b->k > 1 && (b->k & (b->k - 1)) && byMultiple(a, b->k, q, r)) return r; }
        if (op == UREM) goto urem; if (isC(b) && b->k) { if (b->k == 1) return a; if (!(b->k & (b->k - 1))) return mkBin(LSHR, a, mkConst(__builtin_ctzll(b->k), w)); if (a->umax < b->k) return mkConst(0, w); } break;
    urem: if (isC(b) && b->k) { if (!(b->k & (b->k - 1))) return mkBin(AND, a, mkConst(b->k - 1, w)); if (a->umax < b->k) return a; } break;
    case SDIV: if ((a->kz >> (w - 1) & 1) && (b->kz >> (w - 1) & 1)) return mkBin(UDIV, a, b); break;
    case SREM: if ((a->kz >> (w - 1) & 1) && (b->kz >> (w - 1) & 1)) return mkBin(UREM, a, b); break;
    case SHL: if (isC(b)) { u64 s = b->k; if (!s) return a; if (s >= w) return mkConst(0, w); return mkConcat({mkConst(0, (unsigned)s), mkExtract(a, 0, w - (unsigned)s)}); } if (isC(a) && !a->k) return a; break;
    case LSHR: if (isC(b)) { u64 s = b->k; if (!s) return a; if (s >= w) return mkConst(0, w); return mkConcat({mkExtract(a, (unsigned)s, w - (unsigned)s), mkConst(0, (unsigned)s)}); } if (isC(a) && !a->k) return a; break;
    case ASHR: if (a->kz >> (w - 1) & 1) return mkBin(LSHR, a, b); if (isC(b)) { u64 s = b->k; if (!s) return a; if (s >= w) s = w - 1; return mkSext(mkExtract(a, (unsigned)s, w - (unsigned)s), w); } break;
    case AND: case OR: {
        if (a == b) return a;
        if (isC(b)) std::swap(a, b);
        if (isC(a)) {
            u64 k = a->k;
            if (op == AND && !k) return a; if (op == AND && k == m) return b; if (op == OR && !k) return b; if (op == OR && k == m) return a;
            std::vector<Node *> out; unsigned pos = 0, runs = 0;
            while (pos < w) { bool bit = k >> pos & 1; unsigned e = pos; while (e < w && (k >> e & 1) == bit) e++; runs++; unsigned len = e - pos;
                if (op == AND) out.push_back(bit ? mkExtract(b, pos, len) : mkConst(0, len)); else out.push_back(bit ? mkConst(~0ull, len) : mkExtract(b, pos, len)); pos = e; }
            if (runs <= 6) return mkConcat(out);
        }
        if (op == OR && !(~a->kz & ~b->kz & m)) { Node *r = disjoint(a, b); if (r) return r; }
        if (Node *r = anf(op, a, b)) return r;
        std::vector<Node *> k; // flatten
        for (Node *x : {a, b}) { if (x->op == op && x->n <= 12) for (u32 i = 0; i < x->n; i++) k.push_back(x->kid[i]); else k.push_back(x); }
        std::sort(k.begin(), k.end(), [](Node *x, Node *y) { return x->id < y->id; }); k.erase(std::unique(k.begin(), k.end()), k.end());
        u64 c = op == AND ? m : 0; std::vector<Node *> k2; for (Node *x : k) if (isC(x)) c = op == AND ? c & x->k : c | x->k; else k2.push_back(x);
        if (op == AND ? c != m : c != 0) k2.push_back(mkConst(c, w)); if (op == AND && !c) return mkConst(0, w);
        std::sort(k2.begin(), k2.end(), [](Node *x, Node *y) { return x->id < y->id; });
        if (k2.size() == 1) return k2[0];
        if (w == 1) for (Node *x : k2) { Node *nx = mkNot(x); if (std::binary_search(k2.begin(), k2.end(), nx, [](Node *p, Node *q) { return p->id < q->id; })) return mkConst(op == OR, 1); }
        return build(op, w, 0, k2.data(), (u32)k2.size()); }
    case XOR: {
        if (a == b && !a->undef) return mkConst(0, w);
        if (isC(a) && !a->k) return b; if (isC(b) && !b->k) return a;
        if (!(~a->kz & ~b->kz & m)) { Node *r = disjoint(a, b); if (r) return r; }
        if (Node *r = anf(op, a, b)) return r;
        std::vector<Node *> k; u64 c = 0;
        for (Node *x : {a, b}) { if (x->op == XOR && x->n <= 24) for (u32 i = 0; i < x->n; i++) k.push_back(x->kid[i]); else k.push_back(x); }
        std::sort(k.begin(), k.end(), [](Node *x, Node *y) { return x->id < y->id; });
        std::vector<Node *> k2; for (size_t i = 0; i < k.size(); i++) { if (isC(k[i])) { c ^= k[i]->k; continue; } if (i + 1 < k.size() && k[i + 1] == k[i] && !k[i]->undef) { i++; continue; } k2.push_back(k[i]); }
        if (k2.empty()) return mkConst(c, w); if (c) k2.push_back(mkConst(c, w)); if (k2.size() == 1) return k2[0];
        std::sort(k2.begin(), k2.end(), [](Node *x, Node *y) { return x->id < y->id; });
        return build(XOR, w, 0, k2.data(), (u32)k2.size()); }
    default: break;
    }
    Node *kk[2] = {a, b};
    return build(op, w, 0, kk, 2);
}

Node *mkEq(Node *a, Node *b) {
    if (a == b && !a->undef) return mkBool(true);
    if (isC(a) && isC(b)) return mkBool(a->k == b->k);
    if (a->op == PTR && b->op == PTR) { if (a->k == b->k) return mkEq(a->kid[0], b->kid[0]); return mkBool(false); }
    if (a->op == PTR && isC(b)) return mkBool(false);
    if (b->op == PTR && isC(a)) return mkBool(false);
    if (a->umax < b->umin || b->umax < a->umin) return mkBool(false);
    if (isC(a)) std::swap(a, b);
    if (isC(b)) {
        if (b->k & a->kz) return mkBool(false);
        if (a->w == 1) return b->k ? a : mkNot(a);
        if (a->cleaf || (a->op == ITE && (a->kid[1]->op == PTR || a->kid[2]->op == PTR))) return mkIte(a->kid[0], mkEq(a->kid[1], b), mkEq(a->kid[2], b));
        if (a->op == CONCAT) { // zero-extension
            std::vector<Node *> live; unsigned pos = 0; Node *r = nullptr; int cnt = 0;
            for (u32 i = 0; i < a->n; i++) { Node *p = a->kid[i]; u64 kv = (b->k >> pos) & maskw(p->w); pos += p->w; if (isC(p)) { if (p->k != kv) return mkBool(false); continue; } cnt++; Node *e = mkEq(p, mkConst(kv, p->w)); r = r ? mkBin(AND, r, e) : e; }
            if (cnt <= 4) return r ? r : mkBool(true); }
        if (a->op == ADD) { std::vector<std::pair<Node *, u64>> t; u64 c = 0; addTerms(a, 1, t, c); c &= maskw(a->w); if (c) return mkEq(mkAddN(t, 0, a->w), mkConst(b->k - c, a->w)); }
        if (a->op == XOR && a->n == 2 && isC(a->kid[0])) return mkEq(a->kid[1], mkConst(b->k ^ a->kid[0]->k, a->w));
        if (a->op == XOR && a->n == 2 && isC(a->kid[1])) return mkEq(a->kid[0], mkConst(b->k ^ a->kid[1]->k, a->w));
    } else if (a->op == ITE && a->w == 64 && (a->kid[1]->op == PTR || a->kid[2]->op == PTR)) return mkIte(a->kid[0], mkEq(a->kid[1], b), mkEq(a->kid[2], b));
    else if (b->op == ITE && b->w == 64 && (b->kid[1]->op == PTR || b->kid[2]->op == PTR)) return mkIte(b->kid[0], mkEq(a, b->kid[1]), mkEq(a, b->kid[2]));
    else if (a->w > 1 && !a->undef && !b->undef) {
        Node *d = mkSub(a, b); if (isC(d)) return mkBool(d->k == 0);
    }
    if (a->w == 1 && !isC(b)) return mkNot(mkBin(XOR, a, b));
    if (a->id > b->id) std::swap(a, b);
    Node *kk[2] = {a, b}; return build(EQ, 1, 0, kk, 2);
}
Node *mkUlt(Node *a, Node *b) {
    if (a == b && !a->undef) return mkBool(false);
    if (isC(a) && isC(b)) return mkBool(a->k < b->k);
    if (a->op == PTR && b->op == PTR) { if (a->k == b->k) return mkSlt(a->kid[0], b->kid[0]); return mkBool(a->k < b->k); }
    if (a->op == PTR && isC(b)) return mkBool((a->k + 1) << 32 < b->k);
    if (b->op == PTR && isC(a)) return mkBool(a->k < ((b->k + 1) << 32));
    if (a->umax < b->umin) return mkBool(true);
    if (a->umin >= b->umax) return mkBool(false);
    if ((a->cleaf && isC(b))) return mkIte(a->kid[0], mkUlt(a->kid[1], b), mkUlt(a->kid[2], b));
    if ((b->cleaf && isC(a))) return mkIte(b->kid[0], mkUlt(a, b->kid[1]), mkUlt(a, b->kid[2]));
    if (isC(b) && a->op == CONCAT && isC(a->kid[a->n - 1]) && !a->kid[a->n - 1]->k) { unsigned w = a->w - a->kid[a->n - 1]->w; if (b->k <= maskw(w)) return mkUlt(mkExtract(a, 0, w), mkConst(b->k, w)); }
    if (isC(a) && b->op == CONCAT && isC(b->kid[b->n - 1]) && !b->kid[b->n - 1]->k) { unsigned w = b->w - b->kid[b->n - 1]->w; if (a->k <= maskw(w)) return mkUlt(mkConst(a->k, w), mkExtract(b, 0, w)); }
    Node *kk[2] = {a, b}; return build(ULT, 1, 0, kk, 2);
}
Node *mkSlt(Node *a, Node *b) {
    if (a == b && !a->undef) return mkBool(false);
    unsigned w = a->w;
    if (isC(a) && isC(b)) return mkBool(sx(a->k, w) < sx(b->k, w));
    if (a->op == PTR && b->op == PTR) return mkUlt(a, b);
    if (a->op == PTR || b->op == PTR) return mkUlt(a, b);
    bool an = a->kz >> (w - 1) & 1, bn = b->kz >> (w - 1) & 1;
    if (an && bn) return mkUlt(a, b);
    if (isC(b) && !bn && an) return mkBool(false); // b negative, a >= 0
    if (isC(a) && !an && bn) return mkBool(true);
    if ((a->cleaf && isC(b))) return mkIte(a->kid[0], mkSlt(a->kid[1], b), mkSlt(a->kid[2], b));
    if ((b->cleaf && isC(a))) return mkIte(b->kid[0], mkSlt(a, b->kid[1]), mkSlt(a, b->kid[2]));
    Node *kk[2] = {a, b}; return build(SLT, 1, 0, kk, 2);
}
Node *mkIte(Node *c, Node *a, Node *b) {
    if (isC(c)) return c->k ? a : b;
    if (a == b) return a;
    if (c->op == XOR && c->w == 1 && c->n == 2 && isC(c->kid[0])) return mkIte(c->kid[1], b, a);
    if (c->op == XOR && c->w == 1 && c->n == 2 && isC(c->kid[1])) return mkIte(c->kid[0], b, a);
    if (a->op == ITE && a->kid[0] == c) return mkIte(c, a->kid[1], b);
    if (b->op == ITE && b->kid[0] == c) return mkIte(c, a, b->kid[2]);
    if (a->w == 1 && a->op != AGG) { if (isC(a) && isC(b)) return a->k ? c : mkNot(c);
        if (isC(a)) return a->k ? mkBin(OR, c, b) : mkBin(AND, mkNot(c), b);
        if (isC(b)) return b->k ? mkBin(OR, mkNot(c), a) : mkBin(AND, c, a); }
    if (a->op == PTR && b->op == PTR && a->k == b->k) return mkPtr(a->k, mkIte(c, a->kid[0], b->kid[0]));
    if (a->op == AGG && b->op == AGG && a->n == b->n) { std::vector<Node *> k; for (u32 i = 0; i < a->n; i++) k.push_back(mkIte(c, a->kid[i], b->kid[i])); return mkAgg(k); }
    if (a->op == CONCAT && b->op == CONCAT && a->n == b->n) { bool same = true, some = false; for (u32 i = 0; i < a->n; i++) { if (a->kid[i]->w != b->kid[i]->w) same = false; else if (a->kid[i] == b->kid[i]) some = true; }
        if (same && some) { std::vector<Node *> k; for (u32 i = 0; i < a->n; i++) k.push_back(mkIte(c, a->kid[i], b->kid[i])); return mkConcat(k); } }
    Node *kk[3] = {c, a, b}; return build(ITE, a->w, 0, kk, 3);
}
Node *mkSelect(const std::vector<Node *> &e, Node *idx) {
    unsigned nb = 1; while ((u64(1) << nb) < e.size()) nb++;
    if (nb < idx->w) idx = mkExtract(idx, 0, nb); // the caller has established that the index is in range
    if (isC(idx)) return e[idx->k < e.size() ? idx->k : 0];
    bool same = true; for (Node *x : e) if (x != e[0]) same = false;
    if (same) return e[0];
    std::vector<Node *> k(e); k.push_back(idx);
    return build(SELECT, e[0]->w, 0, k.data(), (u32)k.size());
}

std::string show(Node *n, int d) {
    char b[64];
    if (!n) return "?";
    if (isC(n)) { snprintf(b, sizeof b, "0x%llx", (unsigned long long)n->k); return b; }
    if (n->op == ATOM) return atoms[n->k].name;
    if (n->op == UNDEF) return "UNINITIALISED";
    if (d <= 0) { snprintf(b, sizeof b, "#%u", n->id); return b; }
    std::string s = opname[n->op];
    if (n->op == EXTRACT) { snprintf(b, sizeof b, "[%llu+%u]", (unsigned long long)n->k, n->w); s = show(n->kid[0], d - 1) + b; return s; }
    if (n->op == PTR) { snprintf(b, sizeof b, "&obj%llu+", (unsigned long long)n->k); return b + show(n->kid[0], d - 1); }
    if (n->op == SELECT) { return "table[" + show(n->kid[n->n - 1], d - 1) + "]"; }
    s += "(";
    for (u32 i = 0; i < n->n && i < 6; i++) { if (i) s += ","; s += show(n->kid[n->op == CONCAT ? n->n - 1 - i : i], d - 1); }
    if (n->n > 6) s += ",..";
    return s + ")";
}

u64 evalDag(Node *root, int lane, const Valuation &ov, std::unordered_map<Node *, u64> &memo) {
    std::vector<Node *> st{root};
    while (!st.empty()) {
        Node *n = st.back();
        if (memo.count(n)) { st.pop_back(); continue; }
        auto it = ov.find(n);
        if (it != ov.end()) { memo[n] = it->second & maskw(n->w); st.pop_back(); continue; }
        if (n->n == 0) { memo[n] = n->fp[lane]; st.pop_back(); continue; }
        bool ready = true;
        for (u32 i = 0; i < n->n; i++) if (!memo.count(n->kid[i])) { st.push_back(n->kid[i]); ready = false; }
        if (!ready) continue;
        st.pop_back();
        if (n->op == TABLE) memo[n] = n->tbl[memo[n->kid[0]] & 255];
        else memo[n] = evalOp(n->op, n->w, n->k, n->n, [&](unsigned i) { return memo[n->kid[i]]; }, n->kid);
    }
    return memo[root];
}
void collectConds(Node *n, std::vector<Node *> &out, std::unordered_set<Node *> &seen, size_t limit) {
    std::vector<Node *> st{n};
    while (!st.empty() && out.size() < limit) {
        Node *x = st.back(); st.pop_back();
        if (!x->nconds || !seen.insert(x).second) continue;
        if (x->op == EQ || x->op == ULT || x->op == SLT) out.push_back(x);
        for (u32 i = 0; i < x->n; i++) st.push_back(x->kid[i]);
    }
}
