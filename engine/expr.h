// Hash-consed bit-vector expression DAG with construction-time simplification.
#pragma once
#include <cstdint>
#include <cstring>
#include <vector>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <deque>
#include <cassert>
typedef unsigned __int128 u128;
typedef __int128 s128;

enum Op : uint8_t { CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, NOT, SHL, LSHR, ASHR,
    EQ, ULT, ULE, SLT, SLE, CONCAT, EXTRACT, ZEXT, SEXT, ITE, BOUND, NAMED,   // NAMED: the operand, first treated as an unknown by the solver; BOUND: the operand, known by assumption to lie in a range
    // floating point, operands/results are IEEE bit patterns
    FADD, FSUB, FMUL, FDIV, FNEG, FCMP, SITOFP, UITOFP, FPTOSI, FPTOUI, FPEXT, FPTRUNC };

struct Node {
    Op op; uint8_t hasfp, hasnm; uint16_t w; uint32_t aux;   // aux: extract offset / var id / fcmp predicate
    uint32_t id; uint32_t hash;
    u128 c;                           // CONST value
    u128 lo, hi;                      // unsigned range
    const Node* a[3];
    mutable void* z3b = nullptr;      // Z3_ast cache
};
typedef const Node* Ex;

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline s128 sextv(u128 v, unsigned w) { if (w >= 128) return (s128)v; u128 m = (u128)1 << (w - 1); v &= maskw(w); return (s128)((v ^ m) - m); }

struct VarInfo { std::string name; unsigned w; u128 lo, hi; };

struct ExprPool {
    std::deque<Node> nodes;
    std::vector<const Node*> table; size_t count = 0;
    std::vector<VarInfo> vars;
    std::vector<Ex> varNodes;
    ExprPool() : table(1 << 20, nullptr) {}
    static uint32_t hashOf(Op op, unsigned w, uint32_t aux, u128 c, Ex a, Ex b, Ex d) {
        uint64_t h = op * 0x9E3779B97F4A7C15ull + w;
        auto mix = [&](uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
        mix(aux); mix((uint64_t)c); mix((uint64_t)(c >> 64));
        mix(a ? a->id + 1 : 0); mix(b ? b->id + 1 : 0); mix(d ? d->id + 1 : 0);
        return (uint32_t)h;
    }
    Ex raw(Op op, unsigned w, uint32_t aux, u128 c, Ex a = nullptr, Ex b = nullptr, Ex d = nullptr) {
        uint32_t h = hashOf(op, w, aux, c, a, b, d);
        size_t i = h & (table.size() - 1);
        while (const Node* n = table[i]) {
            if (n->hash == h && n->op == op && n->w == w && n->aux == aux && n->c == c && n->a[0] == a && n->a[1] == b && n->a[2] == d) return n;
            i = (i + 1) & (table.size() - 1);
        }
        Node n; n.op = op; n.w = w; n.aux = aux; n.id = nodes.size(); n.hash = h; n.c = c; n.a[0] = a; n.a[1] = b; n.a[2] = d;
        n.hasfp = op >= FADD || (a && a->hasfp) || (b && b->hasfp) || (d && d->hasfp);
        n.hasnm = op == NAMED || (a && a->hasnm) || (b && b->hasnm) || (d && d->hasnm);
        n.lo = 0; n.hi = maskw(w);
        setRange(n);
        nodes.push_back(n);
        table[i] = &nodes.back();
        if (++count * 2 > table.size()) grow();
        return &nodes.back();
    }
    void grow() {
        std::vector<const Node*> t(table.size() * 2, nullptr);
        for (auto* n : table) if (n) { size_t i = n->hash & (t.size() - 1); while (t[i]) i = (i + 1) & (t.size() - 1); t[i] = n; }
        table.swap(t);
    }
    void setRange(Node& n) {
        u128 M = maskw(n.w);
        Ex a = n.a[0], b = n.a[1], d = n.a[2];
        switch (n.op) {
            case CONST: n.lo = n.hi = n.c; break;
            case VAR: n.lo = vars[n.aux].lo; n.hi = vars[n.aux].hi; break;
            case ADD: if (n.w < 127 && a->hi + b->hi <= M) { n.lo = a->lo + b->lo; n.hi = a->hi + b->hi; } break;
            case SUB: if (a->lo >= b->hi) { n.lo = a->lo - b->hi; n.hi = a->hi - b->lo; } break;
            case MUL: if (n.w <= 64 && (b->hi == 0 || a->hi <= M / b->hi)) { n.lo = a->lo * b->lo; n.hi = a->hi * b->hi; } break;
            case UDIV: if (b->lo > 0) { n.lo = a->lo / b->hi; n.hi = a->hi / b->lo; } break;
            case UREM: if (b->lo > 0) { n.hi = b->hi - 1; if (a->hi < n.hi) n.hi = a->hi; } break;
            case AND: n.hi = a->hi < b->hi ? a->hi : b->hi; break;
            case OR: { u128 m = a->hi | b->hi; u128 r = 1; while (r <= m && r) r <<= 1; n.hi = r ? (r - 1) : M; if (n.hi > M) n.hi = M; n.lo = a->lo > b->lo ? a->lo : b->lo; break; }
            case XOR: { u128 m = a->hi | b->hi; u128 r = 1; while (r <= m && r) r <<= 1; n.hi = r ? (r - 1) : M; if (n.hi > M) n.hi = M; break; }
            case LSHR: if (b->op == CONST && b->c < n.w) { n.lo = a->lo >> (unsigned)b->c; n.hi = a->hi >> (unsigned)b->c; } else n.hi = a->hi; break;
            case SHL: if (b->op == CONST && b->c < n.w && n.w <= 64) { u128 h = a->hi << (unsigned)b->c; if (h <= M) { n.hi = h; n.lo = a->lo << (unsigned)b->c; } } break;
            case ZEXT: n.lo = a->lo; n.hi = a->hi; break;
            case SEXT: if (!((a->hi >> (a->w - 1)) & 1)) { n.lo = a->lo; n.hi = a->hi; } break;
            case EXTRACT: if (n.aux == 0 && a->hi <= M) { n.lo = a->lo; n.hi = a->hi; } else if (n.aux) { u128 h = a->hi >> n.aux; if (h <= M) { n.hi = h; n.lo = a->lo >> n.aux; } } break;
            case NAMED: n.lo = a->lo; n.hi = a->hi; break;
            case BOUND: n.lo = n.c & ~(uint64_t)0; n.hi = n.c >> 64; break;
            case CONCAT: n.lo = (a->lo << b->w) | b->lo; n.hi = (a->hi << b->w) | b->hi; break;
            case ITE: n.lo = b->lo < d->lo ? b->lo : d->lo; n.hi = b->hi > d->hi ? b->hi : d->hi; break;
            default: break;
        }
    }
    Ex C(u128 v, unsigned w) { return raw(CONST, w, 0, v & maskw(w)); }
    Ex T() { return C(1, 1); }
    Ex F() { return C(0, 1); }
    Ex var(const std::string& name, unsigned w, u128 lo = 0, u128 hi = ~(u128)0) {
        if (hi > maskw(w)) hi = maskw(w);
        vars.push_back({name, w, lo, hi});
        Ex n = raw(VAR, w, vars.size() - 1, 0);
        varNodes.push_back(n);
        return n;
    }
    static bool isC(Ex e) { return e->op == CONST; }
    static bool isPow2(u128 v) { return v && !(v & (v - 1)); }
    static unsigned log2(u128 v) { unsigned r = 0; while (v >>= 1) ++r; return r; }

    static double asD(u128 b, unsigned w) { if (w == 32) { uint32_t x = (uint32_t)b; float f; memcpy(&f, &x, 4); return f; } uint64_t x = (uint64_t)b; double d; memcpy(&d, &x, 8); return d; }
    static u128 fromD(double d, unsigned w) { if (w == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return x; } uint64_t x; memcpy(&x, &d, 8); return x; }
    static bool fcmp(unsigned p, double a, double b) {
        bool uno = (a != a) || (b != b);
        bool r = false;
        switch (p & 7) { case 0: r = false; break; case 1: r = a == b; break; case 2: r = a > b; break; case 3: r = a >= b; break;
            case 4: r = a < b; break; case 5: r = a <= b; break; case 6: r = !uno && a != b; break; case 7: r = !uno; break; }
        if (p & 8) { // unordered variants: 8 uno,9 ueq,10 ugt,11 uge,12 ult,13 ule,14 une,15 true
            switch (p) { case 8: return uno; case 9: return uno || a == b; case 10: return uno || a > b; case 11: return uno || a >= b;
                case 12: return uno || a < b; case 13: return uno || a <= b; case 14: return uno || a != b; default: return true; }
        }
        return r;
    }

    // concrete evaluation of one operator
    static u128 fold(Op op, unsigned w, uint32_t aux, u128 x, unsigned wx, u128 y, unsigned wy, u128 z) {
        u128 M = maskw(w);
        switch (op) {
            case ADD: return (x + y) & M; case SUB: return (x - y) & M; case MUL: return (x * y) & M;
            case UDIV: return y ? x / y : M; case UREM: return y ? x % y : x;
            case SDIV: { s128 a = sextv(x, w), b = sextv(y, w); if (!b) return a < 0 ? 1 : M; return (u128)(b == -1 ? -a : a / b) & M; }
            case SREM: { s128 a = sextv(x, w), b = sextv(y, w); if (!b) return x; return (u128)(b == -1 ? 0 : a % b) & M; }
            case AND: return x & y; case OR: return x | y; case XOR: return x ^ y; case NOT: return ~x & M;
            case SHL: return y >= w ? 0 : (x << (unsigned)y) & M; case LSHR: return y >= w ? 0 : x >> (unsigned)y;
            case ASHR: return (u128)(sextv(x, w) >> (unsigned)(y >= w ? w - 1 : y)) & M;
            case EQ: return x == y; case ULT: return x < y; case ULE: return x <= y;
            case SLT: return sextv(x, wx) < sextv(y, wy); case SLE: return sextv(x, wx) <= sextv(y, wy);
            case CONCAT: return ((x << wy) | y) & M; case EXTRACT: return (x >> aux) & M; case ZEXT: return x; case SEXT: return (u128)sextv(x, wx) & M;
            case ITE: return x ? y : z; case BOUND: case NAMED: return x;
            case FADD: return fromD(asD(x, wx) + asD(y, wy), w); case FSUB: return fromD(asD(x, wx) - asD(y, wy), w);
            case FMUL: return fromD(asD(x, wx) * asD(y, wy), w); case FDIV: return fromD(asD(x, wx) / asD(y, wy), w);
            case FNEG: return fromD(-asD(x, wx), w); case FCMP: return fcmp(aux, asD(x, wx), asD(y, wy));
            case SITOFP: return w == 32 ? fromD((float)sextv(x, wx), 32) : fromD((double)sextv(x, wx), w);
            case UITOFP: return w == 32 ? fromD((float)x, 32) : fromD((double)x, w);
            case FPTOSI: return (u128)(s128)(int64_t)asD(x, wx) & M; case FPTOUI: { double d = asD(x, wx); return (u128)(d < 0 ? (uint64_t)(int64_t)d : (uint64_t)d) & M; }
            case FPEXT: case FPTRUNC: return fromD(asD(x, wx), w);
            default: assert(0); return 0;
        }
    }

    Ex Not(Ex a) {
        assert(a->w >= 1);
        if (isC(a)) return C(~a->c, a->w);
        if (a->op == NOT) return a->a[0];
        if (a->w == 1) {
            if (a->op == ULE) return bin(ULT, a->a[1], a->a[0]);
            if (a->op == SLE) return bin(SLT, a->a[1], a->a[0]);
        }
        return raw(NOT, a->w, 0, 0, a);
    }
    Ex ite(Ex c, Ex t, Ex e) {
        assert(c->w == 1 && t->w == e->w);
        if (isC(c)) return c->c ? t : e;
        if (t == e) return t;
        if (c->op == NOT) return ite(c->a[0], e, t);
        if (t->w == 1) {
            if (isC(t) && isC(e)) return t->c ? c : Not(c);
            if (isC(t)) return t->c ? bin(OR, c, e) : bin(AND, Not(c), e);
            if (isC(e)) return e->c ? bin(OR, Not(c), t) : bin(AND, c, t);
        }
        if (t->op == ITE && t->a[0] == c) t = t->a[1];
        if (e->op == ITE && e->a[0] == c) e = e->a[2];
        if (t == e) return t;
        return raw(ITE, t->w, 0, 0, c, t, e);
    }
    Ex bound(Ex a, uint64_t lo, uint64_t hi) { if (isC(a)) return a; return raw(BOUND, a->w, 0, ((u128)hi << 64) | lo, a); }
    Ex zext(Ex a, unsigned w) {
        if (a->w == w) return a;
        assert(w > a->w);
        if (isC(a)) return C(a->c, w);
        if (a->op == ZEXT) return zext(a->a[0], w);
        if (a->op == ITE && isC(a->a[1]) && isC(a->a[2])) return ite(a->a[0], zext(a->a[1], w), zext(a->a[2], w));
        return raw(ZEXT, w, 0, 0, a);
    }
    Ex sext(Ex a, unsigned w) {
        if (a->w == w) return a;
        assert(w > a->w);
        if (isC(a)) return C((u128)sextv(a->c, a->w), w);
        if (!((a->hi >> (a->w - 1)) & 1)) return zext(a, w);
        if (a->op == SEXT) return sext(a->a[0], w);
        if (a->op == ITE && isC(a->a[1]) && isC(a->a[2])) return ite(a->a[0], sext(a->a[1], w), sext(a->a[2], w));
        return raw(SEXT, w, 0, 0, a);
    }
    Ex extract(Ex a, unsigned off, unsigned w) {
        assert(off + w <= a->w);
        if (w == a->w) return a;
        if (isC(a)) return C(a->c >> off, w);
        switch (a->op) {
            case EXTRACT: return extract(a->a[0], a->aux + off, w);
            case CONCAT: { Ex h = a->a[0], l = a->a[1];
                if (off + w <= l->w) return extract(l, off, w);
                if (off >= l->w) return extract(h, off - l->w, w);
                break; }
            case ZEXT: { Ex x = a->a[0];
                if (off + w <= x->w) return extract(x, off, w);
                if (off >= x->w) return C(0, w);
                if (off == 0) return zext(x, w);
                return zext(extract(x, off, x->w - off), w); }
            case SEXT: { Ex x = a->a[0];
                if (off + w <= x->w) return extract(x, off, w);
                if (off == 0) return sext(x, w);
                break; }
            case AND: case OR: case XOR: if (isC(a->a[1]) || isC(a->a[0])) return bin(a->op, extract(a->a[0], off, w), extract(a->a[1], off, w)); break;
            case ADD: case SUB: case MUL: if (off == 0) { return bin(a->op, extract(a->a[0], 0, w), extract(a->a[1], 0, w)); } break;
            case ITE: if (isC(a->a[1]) || isC(a->a[2])) return ite(a->a[0], extract(a->a[1], off, w), extract(a->a[2], off, w)); break;
            case LSHR: if (isC(a->a[1]) && a->a[1]->c + off + w <= a->w) return extract(a->a[0], off + (unsigned)a->a[1]->c, w); break;
            default: break;
        }
        if ((a->hi >> off) == 0) return C(0, w);
        return raw(EXTRACT, w, off, 0, a);
    }
    Ex concat(Ex h, Ex l) {
        if (isC(h) && isC(l)) return C((h->c << l->w) | l->c, h->w + l->w);
        if (isC(h) && h->c == 0) return zext(l, h->w + l->w);
        if (h->op == EXTRACT && l->op == EXTRACT && h->a[0] == l->a[0] && h->aux == l->aux + l->w)
            return extract(h->a[0], l->aux, h->w + l->w);
        if (h->op == EXTRACT && l->op == CONCAT && l->a[0]->op == EXTRACT && l->a[0]->a[0] == h->a[0] && h->aux == l->a[0]->aux + l->a[0]->w)
            return concat(extract(h->a[0], l->a[0]->aux, h->w + l->a[0]->w), l->a[1]);
        return raw(CONCAT, h->w + l->w, 0, 0, h, l);
    }
    // ---- linear normal form: e == k + sum c_i * atom_i (mod 2^w), coefficients and interval over the integers
    struct LT { Ex n; bool sg; s128 c; };                 // atom: n read as unsigned, or as signed when sg
    struct Lin { bool ok = false; std::vector<LT> t; s128 k = 0, lo = 0, hi = 0; };
    std::unordered_map<uint32_t, Lin> linMemo;
    static constexpr s128 LB = (s128)1 << 100;
    void linRange(Lin& r) { r.lo = r.hi = r.k; for (auto& x : r.t) { s128 l = (s128)x.n->lo, h = (s128)x.n->hi; if (x.sg) srange(x.n, l, h); s128 p = l * x.c, q = h * x.c; r.lo += p < q ? p : q; r.hi += p < q ? q : p; } if (r.lo < -LB || r.hi > LB) r.ok = false; }
    Lin linAtom(Ex e, bool sg) { Lin r; r.ok = true; if (isC(e)) { r.k = sg ? sextv(e->c, e->w) : (s128)e->c; } else { if (sg && !((e->hi >> (e->w - 1)) & 1)) sg = false; r.t.push_back({e, sg, 1}); } linRange(r); return r; }
    Lin linComb(const Lin& a, const Lin& b, s128 f) {
        Lin r; r.ok = true; r.k = a.k + f * b.k; size_t i = 0, j = 0; auto key = [](const LT& x) { return (uint64_t)x.n->id * 2 + x.sg; };
        while (i < a.t.size() || j < b.t.size()) {
            if (j == b.t.size() || (i < a.t.size() && key(a.t[i]) < key(b.t[j]))) r.t.push_back(a.t[i++]);
            else if (i == a.t.size() || key(b.t[j]) < key(a.t[i])) { r.t.push_back(b.t[j++]); r.t.back().c *= f; }
            else { LT x = a.t[i++]; x.c += f * b.t[j++].c; if (x.c) r.t.push_back(x); }
        }
        if (r.t.size() > 12) r.ok = false; else linRange(r); return r;
    }
    const Lin& lin(Ex e, unsigned depth = 0) {
        auto it = linMemo.find(e->id); if (it != linMemo.end()) return it->second;
        Lin r; const s128 CB = (s128)1 << 40; s128 one = 1;
        if (depth < 40 && e->w <= 64) switch (e->op) {
            case CONST: r = linAtom(e, true); break;
            case ADD: case SUB: { Lin a = lin(e->a[0], depth + 1); const Lin& b = lin(e->a[1], depth + 1); if (a.ok && b.ok) r = linComb(a, b, e->op == ADD ? 1 : -1); break; }
            case MUL: case SHL: if (isC(e->a[1])) { s128 c = e->op == MUL ? sextv(e->a[1]->c, e->w) : e->a[1]->c < 40 ? one << (unsigned)e->a[1]->c : CB * 2; const Lin& a = lin(e->a[0], depth + 1); if (a.ok && c < CB && c > -CB) { Lin z; z.ok = true; r = linComb(z, a, c); } } break;
            case EXTRACT: if (e->aux == 0 && e->a[0]->w <= 64) { r = lin(e->a[0], depth + 1); if (r.ok && r.t.size() == 1 && r.k == 0 && r.t[0].n == e->a[0]) r.ok = false; } break;
            case SEXT: { unsigned w = e->a[0]->w; const Lin& a = lin(e->a[0], depth + 1); if (a.ok && a.lo >= -(one << (w - 1)) && a.hi < one << (w - 1)) r = a; else r = linAtom(e->a[0], true); break; }
            case BOUND: r = lin(e->a[0], depth + 1); break;
            case ZEXT: { if (e->a[0]->op == EXTRACT && e->a[0]->aux == 0 && e->a[0]->a[0]->op == BOUND && e->a[0]->a[0]->hi <= maskw(e->a[0]->w)) { r = lin(e->a[0]->a[0], depth + 1); break; } unsigned w = e->a[0]->w; const Lin& a = lin(e->a[0], depth + 1); if (a.ok && a.lo >= 0 && a.hi < one << w) r = a; else r = linAtom(e->a[0], false); break; }
            default: break;
        }
        if (!r.ok && e->w <= 64) r = linAtom(e, false);
        return linMemo[e->id] = r;
    }
    static bool arith(Ex e) { while (e->op == SEXT || e->op == ZEXT) e = e->a[0]; return e->op == ADD || e->op == SUB || e->op == SHL || e->op == MUL; }
    // comparison of two linear expressions none of which wraps: canonical form, or nullptr
    Ex linCmp(Op op, Ex a, Ex b) {
        if (a->w > 64 || a->w < 8 || (!arith(a) && !arith(b))) return nullptr;
        Lin x = lin(a); const Lin& y = lin(b); if (!x.ok || !y.ok) return nullptr;
        s128 one = 1, smn = -(one << (a->w - 1)), smx = (one << (a->w - 1)) - 1, umx = (one << a->w) - 1;
        bool fs = x.lo >= smn && x.hi <= smx && y.lo >= smn && y.hi <= smx, fu = x.lo >= 0 && y.lo >= 0 && x.hi <= umx && y.hi <= umx;
        if (op == EQ ? !(fs || fu) : op == ULT ? !fu : !fs) return nullptr;
        Lin d = linComb(x, y, -1); if (!d.ok) return nullptr;
        if (d.t.empty()) return C(op == EQ ? d.k == 0 : op == SLE ? d.k <= 0 : d.k < 0, 1);
        s128 g = 0; for (auto& t : d.t) { s128 p = t.c < 0 ? -t.c : t.c, q = g; while (q) { s128 r = p % q; p = q; q = r; } g = p; }
        auto fdiv = [](s128 n, s128 m) { s128 q = n / m; return n % m != 0 && n < 0 ? q - 1 : q; };
        bool neg = d.t[0].c < 0; s128 K;   // sum c x (== or <=) K, negated as a whole when inv
        bool inv = false; Lin s; s.ok = true; s.t = d.t; for (auto& t : s.t) t.c = (neg ? -t.c : t.c) / g; linRange(s); if (!s.ok) return nullptr;
        if (op == EQ) { if (d.k % g) return F(); K = (neg ? d.k : -d.k) / g; if (K < s.lo || K > s.hi) return F(); }
        else { s128 r = op == SLE ? -d.k : -d.k - 1; K = fdiv(r, g); if (neg) { inv = true; K = -K - 1; } if (K >= s.hi) return inv ? F() : T(); if (K < s.lo) return inv ? T() : F(); }
        auto fin = [&](Ex e) { return inv ? Not(e) : e; };
        auto at = [&](const LT& t, unsigned w) { Ex n = t.n; return n->w >= w ? extract(n, 0, w) : t.sg ? sext(n, w) : zext(n, w); };
        if (s.t.size() == 1 && s.t[0].c == 1) { Ex n = s.t[0].n; if (arith(n)) { if (op == EQ) return raw(EQ, 1, 0, 0, n, C((u128)K, n->w)); return fin(raw(s.t[0].sg ? SLT : ULT, 1, 0, 0, n, C((u128)(K + 1), n->w))); } if (op == EQ) return eq(n, C((u128)K, n->w)); return fin(s.t[0].sg ? bin(SLT, n, C((u128)(K + 1), n->w)) : bin(ULT, n, C((u128)(K + 1), n->w))); }
        if (s.t.size() == 2 && s.t[0].c == 1 && s.t[1].c == -1 && (K == 0 || (K == -1 && op != EQ))) {
            const LT &p = s.t[0], &q = s.t[1]; unsigned w = std::max(p.n->w, q.n->w) + (p.sg != q.sg); 
            if (w <= 64) { Ex l = at(p, w), r = at(q, w); if (op == EQ) return raw(EQ, 1, 0, 0, l->id < r->id ? l : r, l->id < r->id ? r : l); bool sg = p.sg || q.sg; Ex e = K == -1 ? raw(sg ? SLT : ULT, 1, 0, 0, l, r) : raw(NOT, 1, 0, 0, raw(sg ? SLT : ULT, 1, 0, 0, r, l)); return fin(e); }
        }
        unsigned w = 2; while (!(s.lo >= -(one << (w - 1)) && s.hi < (one << (w - 1)))) ++w; if (w > 64) return nullptr;
        Ex S = nullptr; for (auto& t : s.t) { Ex e = at(t, w); if (t.c != 1 && t.c != -1) e = bin(MUL, e, C((u128)(t.c < 0 ? -t.c : t.c), w)); S = !S ? e : raw(t.c < 0 ? SUB : ADD, w, 0, 0, S, e); }
        S = raw(NAMED, w, 0, 0, S);
        if (op == EQ) return raw(EQ, 1, 0, 0, S, C((u128)K, w));
        return fin(raw(SLT, 1, 0, 0, S, C((u128)(K + 1), w)));
    }
    Ex eq(Ex a, Ex b) { return bin(EQ, a, b); }
    // signed range of an integer expression
    bool srange(Ex e, s128& lo, s128& hi, unsigned depth = 0) {
        if (e->w > 64 || depth > 14) return false;
        u128 sb = (u128)1 << (e->w - 1); if (e->hi < sb) { lo = (s128)e->lo; hi = (s128)e->hi; return true; }
        s128 l, h, l2, h2; s128 mn = -((s128)1 << (e->w - 1)), mx = ((s128)1 << (e->w - 1)) - 1;
        auto fits = [&] { return lo >= mn && hi <= mx; };
        switch (e->op) {
            case CONST: lo = hi = sextv(e->c, e->w); return true;
            case SEXT: if (srange(e->a[0], lo, hi, depth + 1)) return true; lo = -((s128)1 << (e->a[0]->w - 1)); hi = ((s128)1 << (e->a[0]->w - 1)) - 1; return true;
            case ADD: if (srange(e->a[0], l, h, depth + 1) && srange(e->a[1], l2, h2, depth + 1)) { lo = l + l2; hi = h + h2; if (fits()) return true; } break;
            case SUB: if (srange(e->a[0], l, h, depth + 1) && srange(e->a[1], l2, h2, depth + 1)) { lo = l - h2; hi = h - l2; if (fits()) return true; } break;
            case MUL: if (srange(e->a[0], l, h, depth + 1) && srange(e->a[1], l2, h2, depth + 1)) { s128 p[4] = {l * l2, l * h2, h * l2, h * h2}; lo = hi = p[0]; for (s128 q : p) { if (q < lo) lo = q; if (q > hi) hi = q; } if (fits()) return true; } break;
            case SHL: if (isC(e->a[1]) && e->a[1]->c < 62 && srange(e->a[0], l, h, depth + 1)) { lo = l * ((s128)1 << (unsigned)e->a[1]->c); hi = h * ((s128)1 << (unsigned)e->a[1]->c); if (fits()) return true; } break;
            case ITE: if (srange(e->a[1], l, h, depth + 1) && srange(e->a[2], l2, h2, depth + 1)) { lo = l < l2 ? l : l2; hi = h > h2 ? h : h2; return true; } break;
            default: break;
        }
        lo = mn; hi = mx; return true;
    }
    // a double that exactly equals an integer expression (up to the sign of zero)
    bool exactInt(Ex x, Ex& o, unsigned depth = 0) {
        if (x->w != 64 || depth > 12) return false;
        const s128 B = (s128)1 << 53; s128 l, h; Ex a, b;
        auto ok = [&](Ex e) { if (!srange(e, l, h) || l < -B || h > B) return false; o = e; return true; };
        switch (x->op) {
            case CONST: { double d = asD(x->c, 64); if (d == (double)(int64_t)d && d > -9e15 && d < 9e15) { o = C((u128)(s128)(int64_t)d, 64); return true; } return false; }
            case SITOFP: return ok(x->a[0]->w < 64 ? sext(x->a[0], 64) : x->a[0]);
            case UITOFP: { Ex e = x->a[0]->w < 64 ? zext(x->a[0], 64) : x->a[0]; return e->hi < (u128)B && ok(e); }
            case FNEG: return exactInt(x->a[0], a, depth + 1) && ok(bin(SUB, C(0, 64), a));
            case FADD: return exactInt(x->a[0], a, depth + 1) && exactInt(x->a[1], b, depth + 1) && ok(bin(ADD, a, b));
            case FSUB: return exactInt(x->a[0], a, depth + 1) && exactInt(x->a[1], b, depth + 1) && ok(bin(SUB, a, b));
            case FMUL: return exactInt(x->a[0], a, depth + 1) && exactInt(x->a[1], b, depth + 1) && ok(bin(MUL, a, b));
            case ITE: return exactInt(x->a[1], a, depth + 1) && exactInt(x->a[2], b, depth + 1) && ok(ite(x->a[0], a, b));
            default: return false;
        }
    }
    Ex fop(Op op, unsigned w, uint32_t aux, Ex a, Ex b = nullptr) {
        if (isC(a) && (!b || isC(b))) return C(fold(op, w, aux, a->c, a->w, b ? b->c : 0, b ? b->w : 0, 0), w);
        Ex x, y;
        if (op == FPTOSI && a->w == 64 && exactInt(a, x)) return x->w >= w ? extract(x, 0, w) : sext(x, w);
        if (op == FPTOUI && a->w == 64 && exactInt(a, x)) { s128 l, h; if (srange(x, l, h) && l >= 0) return x->w >= w ? extract(x, 0, w) : zext(x, w); }
        if (op == FCMP && a->w == 64) { // comparisons of exactly represented integers, and of those with infinities
            bool ex = exactInt(a, x), ey = exactInt(b, y);
            if (ex && ey) switch (aux & 7) { case 1: return eq(x, y); case 2: return bin(SLT, y, x); case 3: return bin(SLE, y, x); case 4: return bin(SLT, x, y); case 5: return bin(SLE, x, y); case 6: return Not(eq(x, y)); default: break; }
            auto inf = [](Ex e) { return isC(e) && (asD(e->c, 64) - asD(e->c, 64)) != (asD(e->c, 64) - asD(e->c, 64)) && asD(e->c, 64) == asD(e->c, 64); };
            if (ex && inf(b)) return C(fcmp(aux, 0.0, asD(b->c, 64)), 1);
            if (ey && inf(a)) return C(fcmp(aux, asD(a->c, 64), 0.0), 1);
        }
        return raw(op, w, aux, 0, a, b);
    }
    Ex bin(Op op, Ex a, Ex b) {
        unsigned w = (op >= EQ && op <= SLE) ? 1 : a->w;
        if (a->w != b->w) { fprintf(stderr, "width mismatch op %d: %d vs %d\n", op, a->w, b->w); abort(); }
        if (isC(a) && isC(b)) return C(fold(op, w, 0, a->c, a->w, b->c, b->w, 0), w);
        bool comm = op == ADD || op == MUL || op == AND || op == OR || op == XOR || op == EQ;
        if (comm && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
        u128 M = maskw(a->w);
        switch (op) {
            case ADD:
                if (isC(b) && b->c == 0) return a;
                if (a->w == 1) return bin(XOR, a, b);
                if (isC(b) && a->op == ADD && isC(a->a[1])) return bin(ADD, a->a[0], C(a->a[1]->c + b->c, w));
                if (!isC(b) && a->op == ADD && isC(a->a[1])) return bin(ADD, bin(ADD, a->a[0], b), a->a[1]);
                if (!isC(b) && b->op == ADD && isC(b->a[1])) return bin(ADD, bin(ADD, a, b->a[0]), b->a[1]);
                if (a->op == SUB && a->a[1] == b) return a->a[0];
                if (b->op == SUB && b->a[1] == a) return b->a[0];
                if (isC(b) && a->op == ITE && isC(a->a[1]) && isC(a->a[2])) return ite(a->a[0], bin(ADD, a->a[1], b), bin(ADD, a->a[2], b));
                break;
            case SUB:
                if (isC(b)) return bin(ADD, a, C((u128)0 - b->c, w));
                if (a == b) return C(0, w);
                if (a->op == ADD && a->a[0] == b) return a->a[1];
                if (a->op == ADD && a->a[1] == b) return a->a[0];
                if (a->op == ADD && isC(a->a[1])) return bin(ADD, bin(SUB, a->a[0], b), a->a[1]);
                if (b->op == ADD && isC(b->a[1])) return bin(ADD, bin(SUB, a, b->a[0]), C((u128)0 - b->a[1]->c, w));
                break;
            case MUL:
                if (isC(b)) { if (b->c == 0) return b; if (b->c == 1) return a; if (isPow2(b->c)) return bin(SHL, a, C(log2(b->c), w));
                    if (a->op == MUL && isC(a->a[1])) return bin(MUL, a->a[0], C(a->a[1]->c * b->c, w)); }
                break;
            case UDIV: if (isC(b)) { if (b->c == 1) return a; if (isPow2(b->c)) return bin(LSHR, a, C(log2(b->c), w)); } if (a->hi < b->lo) return C(0, w); break;
            case UREM: if (isC(b)) { if (b->c == 1) return C(0, w); if (isPow2(b->c)) return bin(AND, a, C(b->c - 1, w)); } if (a->hi < b->lo) return a; break;
            case SDIV: if (isC(b) && b->c == 1) return a;
                if (!((a->hi >> (w - 1)) & 1) && !((b->hi >> (w - 1)) & 1)) return bin(UDIV, a, b); break;
            case SREM: if (!((a->hi >> (w - 1)) & 1) && !((b->hi >> (w - 1)) & 1)) return bin(UREM, a, b); break;
            case AND:
                if (a == b) return a;
                if (isC(b)) { if (b->c == 0) return b; if (b->c == M) return a;
                    if (a->op == AND && isC(a->a[1])) return bin(AND, a->a[0], C(a->a[1]->c & b->c, w));
                    if (isPow2(b->c + 1) && a->hi <= b->c) return a;
                    if (isPow2(b->c + 1) && a->w > 1) return zext(extract(a, 0, log2(b->c + 1)), w);
                    if (a->op == ITE && isC(a->a[1]) && isC(a->a[2])) return ite(a->a[0], bin(AND, a->a[1], b), bin(AND, a->a[2], b)); }
                if (a == complement(b)) return C(0, w);
                if (a->op == ZEXT && b->op == ZEXT && a->a[0]->w == b->a[0]->w) return zext(bin(AND, a->a[0], b->a[0]), w);
                break;
            case OR:
                if (a == b) return a;
                if (isC(b)) { if (b->c == 0) return a; if (b->c == M) return b;
                    if (a->op == ITE && isC(a->a[1]) && isC(a->a[2])) return ite(a->a[0], bin(OR, a->a[1], b), bin(OR, a->a[2], b)); }
                if (a == complement(b)) return C(M, w);
                if (a->op == ZEXT && b->op == ZEXT && a->a[0]->w == b->a[0]->w) return zext(bin(OR, a->a[0], b->a[0]), w);
                // (x << k) | zext(y) with y fitting below k : concat
                { Ex s = nullptr, z = nullptr;
                  if (a->op == SHL && isC(a->a[1])) { s = a; z = b; } else if (b->op == SHL && isC(b->a[1])) { s = b; z = a; }
                  if (s && s->a[1]->c < w && s->a[1]->c > 0 && !isC(z)) { unsigned k = (unsigned)s->a[1]->c; if (z->hi < ((u128)1 << k)) return concat(extract(s->a[0], 0, w - k), extract(z, 0, k)); } }
                break;
            case XOR:
                if (a == b) return C(0, w);
                if (isC(b)) { if (b->c == 0) return a; if (b->c == M) return Not(a); }
                if (a->w == 1) { if (a->op == NOT) return Not(bin(XOR, a->a[0], b)); if (b->op == NOT) return Not(bin(XOR, a, b->a[0])); }
                if (a->op == ZEXT && b->op == ZEXT && a->a[0]->w == b->a[0]->w) return zext(bin(XOR, a->a[0], b->a[0]), w);
                break;
            case SHL: if (isC(b)) { if (b->c == 0) return a; if (b->c >= w) return C(0, w); if (a->op == SHL && isC(a->a[1])) { u128 s = a->a[1]->c + b->c; return s >= w ? C(0, w) : bin(SHL, a->a[0], C(s, w)); } } if (isC(a) && a->c == 0) return a; break;
            case LSHR: if (isC(b)) { if (b->c == 0) return a; if (b->c >= w) return C(0, w); if (a->hi >> (unsigned)b->c == 0) return C(0, w); return zext(extract(a, (unsigned)b->c, w - (unsigned)b->c), w); } if (isC(a) && a->c == 0) return a; break;
            case ASHR: if (isC(b)) { if (b->c == 0) return a; if (!((a->hi >> (w - 1)) & 1)) return bin(LSHR, a, b); } break;
            case EQ:
                if (a == b) return T();
                if (a->hi < b->lo || b->hi < a->lo) return F();
                if (a->w == 1) { if (isC(b)) return b->c ? a : Not(a); return Not(bin(XOR, a, b)); }
                if (isC(b)) {
                    if (a->op == ZEXT) return eq(a->a[0], C(b->c, a->a[0]->w));
                    if (a->op == SEXT) { u128 l = b->c & maskw(a->a[0]->w); if (((u128)sextv(l, a->a[0]->w) & M) != b->c) return F(); return eq(a->a[0], C(l, a->a[0]->w)); }
                    if (a->op == ADD && isC(a->a[1])) return eq(a->a[0], C(b->c - a->a[1]->c, a->w));
                    if (a->op == SUB && b->c == 0) return eq(a->a[0], a->a[1]);
                    if (a->op == XOR && isC(a->a[1])) return eq(a->a[0], C(b->c ^ a->a[1]->c, a->w));
                    if (a->op == XOR && b->c == 0) return eq(a->a[0], a->a[1]);
                    if (a->op == NOT) return eq(a->a[0], C(~b->c, a->w));
                    if (a->op == ITE) {
                        if (isC(a->a[1]) && isC(a->a[2])) { bool t = a->a[1]->c == b->c, e = a->a[2]->c == b->c; return t && e ? T() : t ? a->a[0] : e ? Not(a->a[0]) : F(); }
                        if (isC(a->a[1])) return a->a[1]->c == b->c ? bin(OR, a->a[0], eq(a->a[2], b)) : bin(AND, Not(a->a[0]), eq(a->a[2], b));
                        if (isC(a->a[2])) return a->a[2]->c == b->c ? bin(OR, Not(a->a[0]), eq(a->a[1], b)) : bin(AND, a->a[0], eq(a->a[1], b));
                    }
                    if (a->op == CONCAT) { Ex h = a->a[0], l = a->a[1]; return bin(AND, eq(h, C(b->c >> l->w, h->w)), eq(l, C(b->c, l->w))); }
                    if (a->op == OR && b->c == 0) return bin(AND, eq(a->a[0], b), eq(a->a[1], b));
                }
                if (a->op == ZEXT && b->op == ZEXT && a->a[0]->w == b->a[0]->w) return eq(a->a[0], b->a[0]);
                if (a->op == SEXT && b->op == SEXT && a->a[0]->w == b->a[0]->w) return eq(a->a[0], b->a[0]);
                if (a->op == ADD && b->op == ADD && isC(a->a[1]) && a->a[1] == b->a[1]) return eq(a->a[0], b->a[0]);
                break;
            case ULT:
                if (a == b) return F();
                if (a->hi < b->lo) return T();
                if (a->lo >= b->hi) return F();
                if (isC(b) && b->c == 1) return eq(a, C(0, a->w));
                if (isC(a) && a->c == 0) return Not(eq(b, C(0, a->w)));
                if (a->op == ZEXT && b->op == ZEXT && a->a[0]->w == b->a[0]->w) return bin(ULT, a->a[0], b->a[0]);
                if (a->op == ZEXT && isC(b)) { if (b->c > maskw(a->a[0]->w)) return T(); return bin(ULT, a->a[0], C(b->c, a->a[0]->w)); }
                if (b->op == ZEXT && isC(a)) { if (a->c >= maskw(b->a[0]->w)) return F(); return bin(ULT, C(a->c, b->a[0]->w), b->a[0]); }
                if (a->op == ITE && isC(a->a[1]) && isC(a->a[2]) && isC(b)) return ite(a->a[0], bin(ULT, a->a[1], b), bin(ULT, a->a[2], b));
                if (b->op == ITE && isC(b->a[1]) && isC(b->a[2]) && isC(a)) return ite(b->a[0], bin(ULT, a, b->a[1]), bin(ULT, a, b->a[2]));
                if (isC(a)) return Not(bin(ULT, b, C(a->c + 1, a->w)));   // normal form: constants on the right; a->c != max since a->lo < b->hi
                break;
            case ULE:
                if (a == b) return T();
                if (a->hi <= b->lo) return T();
                if (a->lo > b->hi) return F();
                if (isC(b) && b->c == 0) return eq(a, b);
                if (isC(b)) return bin(ULT, a, C(b->c + 1, a->w));   // b->c != max since a->hi > b->c
                if (isC(a)) return bin(ULT, C(a->c - 1, a->w), b);   // a->c != 0 since a->lo > b->lo
                return Not(bin(ULT, b, a));
            case SLT: case SLE: {
                if (a == b) return op == SLE ? T() : F();
                u128 sb = (u128)1 << (a->w - 1);
                if (a->hi < sb && b->hi < sb) return bin(op == SLT ? ULT : ULE, a, b);
                if (a->lo >= sb && b->lo >= sb) return bin(op == SLT ? ULT : ULE, a, b);
                if (a->hi < sb && b->lo >= sb) return F();
                if (a->lo >= sb && b->hi < sb) return T();
                if (a->op == SEXT && b->op == SEXT && a->a[0]->w == b->a[0]->w) return bin(op, a->a[0], b->a[0]);
                if (a->op == SEXT && isC(b) && (((u128)sextv(b->c, a->a[0]->w) & M) == b->c)) return bin(op, a->a[0], C(b->c, a->a[0]->w));
                if (b->op == SEXT && isC(a) && (((u128)sextv(a->c, b->a[0]->w) & M) == a->c)) return bin(op, C(a->c, b->a[0]->w), b->a[0]);
                if (op == SLE && isC(b) && b->c != (M >> 1)) return bin(SLT, a, C(b->c + 1, a->w));
                if (op == SLE && isC(a) && a->c != sb) return bin(SLT, C(a->c - 1, a->w), b);
                break; }
            default: break;
        }
        if (op >= EQ && op <= SLE) if (Ex r = linCmp(op, a, b)) return r;
        return raw(op, w, 0, 0, a, b);
    }
    Ex complement(Ex b) { if (b->op == NOT) return b->a[0]; // cheap lookup without creating
        return b->w == 1 ? Not(b) : nullptr; }
};
