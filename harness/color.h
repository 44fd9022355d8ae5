// Small coloured nets: structure from a concrete pseudo random stream, multiplicities and markings symbolic.
#pragma once
#include "sym.h"
#include <vector>
#include <string>
#include <memory>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include "PetriEngine/Colored/ColoredPetriNetBuilder.h"
#include "PetriEngine/Colored/Expressions.h"
#define ENTRY(n) extern "C" void n()
using namespace PetriEngine;
namespace std { namespace chrono { inline namespace _V2 { system_clock::time_point system_clock::now() noexcept { static int64_t n = 0; return system_clock::time_point(std::chrono::milliseconds(n += 100)); } steady_clock::time_point steady_clock::now() noexcept { return steady_clock::time_point(); } } } }
extern "C" { clock_t clock() noexcept { return 0; } }
struct Rng { uint64_t s; uint32_t operator()(uint32_t n) { s = s * 6364136223846793005ull + 1442695040888963407ull; return (uint32_t)((s >> 33) % n); } bool p(uint32_t num, uint32_t den) { return (*this)(den) < num; } };
#ifndef MAXCOLORS
#define MAXCOLORS 9
#endif
static const uint32_t CP = 4, CT = 3, CV = 4, CC = MAXCOLORS;   // places, transitions, variables, colors of a type
enum { FT_PROD = 1, FT_GUARD = 2, FT_INHIB = 4, FT_SUCC = 8, FT_SUB = 16, FT_SCALAR = 32, FT_ADD = 64, FT_TUPGUARD = 128, FT_ORPHAN = 256, FT_CONST = 512, FT_THREE = 1024, FT_ONE = 2048, FT_FOUR = 4096, FT_SUB2 = 8192, FT_CMOD = 32768, FT_SWAP = 65536, FT_SCSUB = 131072 };
struct Ty { uint32_t kind, n, a, b; const Colored::ColorType* real; };   // kind 0 dot, 1 simple, 2 product (id = i + size(a) * j)
static std::vector<Ty> tys; static std::vector<uint32_t> vty; static std::vector<const Colored::Variable*> rvar;
static uint32_t tysize(uint32_t t) { return tys[t].kind == 2 ? tys[tys[t].a].n * tys[tys[t].b].n : tys[t].n; }
static const Colored::Color* colr(uint32_t t, uint32_t c) { if (tys[t].kind == 2) { std::vector<uint32_t> ids{c % tys[tys[t].a].n, c / tys[tys[t].a].n}; return tys[t].real->getColor(ids); } return &(*tys[t].real)[(size_t)c]; }
struct Term { uint32_t kind = 0, v = 0, ty = 0; int mod = 0; std::vector<Term> sub;   // 0 constant, 1 variable (+mod), 2 tuple
    uint32_t eval(const uint32_t* b) const { if (kind == 2) { uint32_t x = sub[0].eval(b), y = sub[1].eval(b); return x + tys[tys[ty].a].n * y; } uint32_t n = tysize(ty); uint32_t r = kind == 0 ? v : b[v]; return (uint32_t)((r + mod + 4 * n) % n); }
    Colored::ColorExpression_ptr real() const {
        if (kind == 2) { std::vector<Colored::ColorExpression_ptr> c; c.push_back(sub[0].real()); c.push_back(sub[1].real()); return std::make_shared<Colored::TupleExpression>(std::move(c), tys[ty].real); }
        Colored::ColorExpression_ptr r; if (tys[ty].kind == 0) return std::make_shared<Colored::DotConstantExpression>();
        if (kind == 0) r = std::make_shared<Colored::UserOperatorExpression>(colr(ty, v)); else r = std::make_shared<Colored::VariableExpression>(rvar[v]);
        for (int i = 0; i < mod; ++i) r = std::make_shared<Colored::SuccessorExpression>(std::move(r)); for (int i = 0; i < -mod; ++i) r = std::make_shared<Colored::PredecessorExpression>(std::move(r));
        return r;
    } };
struct MS { uint32_t c[CC] = {}; };
struct AX { uint32_t kind = 0, n = 1, ty = 0; std::vector<Term> terms; std::vector<AX> sub;   // 0 number-of, 1 add, 2 subtract, 3 scalar
    MS eval(const uint32_t* b) const { MS r;
        if (kind == 0) for (auto& t : terms) r.c[t.eval(b)] += n;
        else if (kind == 1) for (auto& s : sub) { MS m = s.eval(b); for (uint32_t i = 0; i < CC; ++i) r.c[i] += m.c[i]; }
        else if (kind == 2) { MS x = sub[0].eval(b), y = sub[1].eval(b); for (uint32_t i = 0; i < CC; ++i) r.c[i] = (uint32_t)sym_ite64(x.c[i] < y.c[i], 0, x.c[i] - y.c[i]); }
        else { MS x = sub[0].eval(b); for (uint32_t i = 0; i < CC; ++i) r.c[i] = x.c[i] * n; }
        return r; }
    Colored::ArcExpression_ptr real() const {
        if (kind == 0) { std::vector<Colored::ColorExpression_ptr> c; for (auto& t : terms) c.push_back(t.real()); return std::make_shared<Colored::NumberOfExpression>(std::move(c), n); }
        if (kind == 1) { std::vector<Colored::ArcExpression_ptr> c; for (auto& t : sub) c.push_back(t.real()); return std::make_shared<Colored::AddExpression>(std::move(c)); }
        if (kind == 2) { auto x = sub[0].real(); auto y = sub[1].real(); return std::make_shared<Colored::SubtractExpression>(std::move(x), std::move(y)); }
        return std::make_shared<Colored::ScalarProductExpression>(sub[0].real(), n); } };
struct GX { uint32_t kind = 0; std::vector<Term> t; std::vector<GX> sub;   // 0 eq 1 ne 2 lt 3 le 4 and 5 or
    bool eval(const uint32_t* b) const { if (kind >= 4) { bool x = sub[0].eval(b), y = sub[1].eval(b); return kind == 4 ? x && y : x || y; } uint32_t x = t[0].eval(b), y = t[1].eval(b); return kind == 0 ? x == y : kind == 1 ? x != y : kind == 2 ? x < y : x <= y; }
    Colored::GuardExpression_ptr real() const {
        if (kind >= 4) { auto x = sub[0].real(), y = sub[1].real(); if (kind == 4) return std::make_shared<Colored::AndExpression>(std::move(x), std::move(y)); return std::make_shared<Colored::OrExpression>(std::move(x), std::move(y)); }
        auto x = t[0].real(), y = t[1].real();
        switch (kind) { case 0: return std::make_shared<Colored::EqualityExpression>(std::move(x), std::move(y)); case 1: return std::make_shared<Colored::InequalityExpression>(std::move(x), std::move(y)); case 2: return std::make_shared<Colored::LessThanExpression>(std::move(x), std::move(y)); default: return std::make_shared<Colored::LessThanEqExpression>(std::move(x), std::move(y)); } } };
struct CArc { uint32_t p; AX e; };
struct CTrans { std::vector<CArc> in, out; std::vector<std::pair<uint32_t, uint32_t>> inh; bool guarded = false; GX g; };
static const char* PN[] = {"p0", "p1", "p2", "p3"}; static const char* TN[] = {"t0", "t1", "t2"};
static std::string str(const Term& t) { if (t.kind == 2) return "(" + str(t.sub[0]) + "," + str(t.sub[1]) + ")"; std::string r = t.kind == 0 ? "c" + std::to_string(t.v) : std::string(1, "xyzw"[t.v]); for (int i = 0; i < t.mod; ++i) r += "++"; for (int i = 0; i < -t.mod; ++i) r += "--"; return r; }
static std::string str(const AX& a) { std::string r; if (a.kind == 0) { for (auto& t : a.terms) r += (r.empty() ? std::to_string(a.n) + "'[" : ",") + str(t); return r + "]"; } if (a.kind == 3) return std::to_string(a.n) + "*(" + str(a.sub[0]) + ")"; r = "("; for (uint32_t i = 0; i < a.sub.size(); ++i) r += (i ? a.kind == 1 ? " + " : " - " : "") + str(a.sub[i]); return r + ")"; }
static std::string str(const GX& g) { static const char* o[] = {"==", "!=", "<", "<=", "&&", "||"}; return "(" + (g.kind < 4 ? str(g.t[0]) + o[g.kind] + str(g.t[1]) : str(g.sub[0]) + o[g.kind] + str(g.sub[1])) + ")"; }
struct CNet {
    uint32_t shuffle = 0, P = 0, T = 0, W = 2, TK = 2, ft = 0; uint32_t pty[CP]; MS m0[CP]; CTrans tr[CT]; Rng R; std::vector<uint32_t> simple;
    uint32_t num() { return W == 1 ? 1 : sym_range("n", 1, W); }
    Term var(uint32_t ty) {   // a variable or constant of simple type ty
        Term t; t.ty = ty; std::vector<uint32_t> c; for (uint32_t v = 0; v < vty.size(); ++v) if (vty[v] == ty) c.push_back(v);
        if (c.empty() || ((ft & FT_CONST) && R.p(1, 5))) { t.kind = 0; t.v = R(tysize(ty)); if ((ft & FT_CMOD) && R.p(1, 2)) t.mod = R.p(1, 2) ? 1 : -1; return t; }
        t.kind = 1; t.v = c[R(c.size())]; if ((ft & FT_SUCC) && R.p(1, 3)) t.mod = R.p(1, 2) ? 1 : -1; if ((ft & FT_SUCC) && t.mod && R.p(1, 5)) t.mod *= 2; return t;
    }
    Term term(uint32_t ty) { if (tys[ty].kind == 0) { Term t; t.ty = ty; return t; } if (tys[ty].kind == 1) return var(ty); Term t; t.kind = 2; t.ty = ty; t.sub.push_back(var(tys[ty].a)); t.sub.push_back(var(tys[ty].b)); return t; }
    AX number(uint32_t ty) { AX a; a.ty = ty; a.n = num(); a.terms.push_back(term(ty)); return a; }
    AX all(uint32_t ty) { AX r; r.ty = ty; r.kind = 1; uint32_t k = num(); for (uint32_t i = 0; i < tysize(ty); ++i) { AX a; a.ty = ty; a.n = k; Term t; t.ty = ty; t.v = i; if (tys[ty].kind == 2) { t.kind = 2; Term x, y; x.ty = tys[ty].a; y.ty = tys[ty].b; x.v = i % tysize(x.ty); y.v = i / tysize(x.ty); t.sub.push_back(x); t.sub.push_back(y); } a.terms.push_back(t); r.sub.push_back(a); } return r; }   // what the parser makes of <all>
    AX arc(uint32_t ty, bool in) {
        if ((ft & FT_ADD) && R.p(1, 3)) { AX a; a.kind = 1; a.ty = ty; a.sub.push_back(number(ty)); a.sub.push_back(number(ty)); return a; }
        if ((ft & FT_SUB) && tys[ty].kind && R.p(1, 5)) { AX a; a.kind = 2; a.ty = ty; AX l = all(ty); AX r = number(ty); r.n = l.sub[0].n; a.sub.push_back(l); a.sub.push_back(r); return a; }
        if ((ft & FT_SCSUB) && tys[ty].kind && R.p(1, 2)) { AX a; a.kind = 2; a.ty = ty; AX l; if (R.p(1, 2)) l = all(ty); else { l.kind = 1; l.ty = ty; l.sub.push_back(number(ty)); l.sub.push_back(number(ty)); } AX q; q.kind = 2; q.ty = ty; q.sub.push_back(R.p(1, 2) ? all(ty) : number(ty)); q.sub.push_back(number(ty)); AX r; r.kind = 3; r.ty = ty; r.n = num(); r.sub.push_back(q); a.sub.push_back(l); a.sub.push_back(r); return a; }   // a multiple of a difference is taken away
        if ((ft & FT_SUB2) && tys[ty].kind && R.p(1, 2)) { AX a; a.kind = 2; a.ty = ty; AX l; l.kind = 1; l.ty = ty; l.sub.push_back(number(ty)); l.sub.push_back(number(ty)); if (R.p(1, 3)) l.sub.push_back(number(ty)); AX r = number(ty); if (R.p(1, 4)) { AX q; q.kind = 2; q.ty = ty; q.sub.push_back(r); q.sub.push_back(number(ty)); r = q; } a.sub.push_back(l); a.sub.push_back(r); return a; }
        if ((ft & FT_SCALAR) && R.p(1, 6)) { AX a; a.kind = 3; a.ty = ty; a.n = num(); a.sub.push_back(number(ty)); return a; }
        if ((ft & FT_CONST) && tys[ty].kind && R.p(1, 8)) return all(ty);
        return number(ty);
    }
    GX guard(uint32_t d) {
        GX g; if (d && R.p(1, 2)) { g.kind = 4 + R(2); g.sub.push_back(guard(d - 1)); g.sub.push_back(guard(d - 1)); return g; }
        if ((ft & FT_TUPGUARD) && (ft & FT_PROD) && R.p(1, 4)) { uint32_t ty = tys.size() - 1; g.kind = R(2); g.t.push_back(term(ty)); g.t.push_back(term(ty)); return g; }
        uint32_t ty = simple[R(simple.size())]; g.kind = R(4); g.t.push_back(var(ty)); Term o = var(ty); if (R.p(1, 3)) { o = Term(); o.ty = ty; o.v = R(tysize(ty)); } g.t.push_back(o); return g;
    }
    void make(uint64_t seed, uint32_t P_, uint32_t T_, uint32_t n, uint32_t ft_, uint32_t W_, uint32_t TK_) {
        P = P_; T = T_; ft = ft_; W = W_; TK = TK_; R.s = seed * 7919 + 17; R(2); R(2);
        tys.push_back({0, 1, 0, 0, Colored::ColorType::dotInstance()});
        auto mk = [&](const char* nm, uint32_t k) { auto* c = new Colored::ColorType(nm); static const char* cn[] = {"c0", "c1", "c2", "c3", "c4", "c5", "c6", "c7", "c8"}; for (uint32_t i = 0; i < k; ++i) c->addColor(cn[i]); simple.push_back(tys.size()); tys.push_back({1, k, 0, 0, c}); };
        mk("C", n); if ((ft & FT_PROD) && R.p(1, 2)) mk("D", 2);
        if (ft & FT_PROD) { auto* p = new Colored::ProductType("CD"); uint32_t a = 1, b = tys.size() - 1; if (ft & FT_SWAP) std::swap(a, b); p->addType(tys[a].real); p->addType(tys[b].real); tys.push_back({2, 0, a, b, p}); }
        uint32_t nv = ft & FT_FOUR ? 4 : 2 + ((ft & FT_THREE) ? 1 : 0); static const char* vn[] = {"x", "y", "z", "w"}; for (uint32_t v = 0; v < nv; ++v) { uint32_t t = simple[v == 0 ? 0 : R(simple.size())]; vty.push_back(t); rvar.push_back(nullptr); }
        for (uint32_t i = 0; i < nv; ++i) { uint32_t v = shuffle & 1 ? nv - 1 - i : i; static void* keep[8]; if (shuffle >> 1) keep[v] = malloc(16 * (shuffle >> 1)); rvar[v] = new Colored::Variable{vn[v], tys[vty[v]].real}; }
        for (uint32_t p = 0; p < P; ++p) { pty[p] = (ft & FT_ONE) ? 1 + (tys.size() > 2 && p ? R(tys.size() - 1) : 0) : R(tys.size() + 1); if (pty[p] == tys.size()) pty[p] = tys.size() - 1; bool empty = R.p(1, 6); for (uint32_t c = 0; c < tysize(pty[p]); ++c) if (!empty && R.p(2, 3)) m0[p].c[c] = sym_range("m0", 1, TK); }
        if (ft & FT_FOUR) { auto two = [&](uint32_t v) { AX a; a.kind = 1; a.ty = 1; uint32_t k = num(); for (uint32_t i = 0; i < 2; ++i) { AX e; e.ty = 1; e.n = k; Term x; x.kind = 1; x.v = v + i; x.ty = 1; e.terms.push_back(x); a.sub.push_back(e); } return a; };   // two pairs of interchangeable variables
            for (uint32_t t = 0; t < T; ++t) { uint32_t o = (t + seed) % 2; for (uint32_t i = 0; i < 2; ++i) { AX a = two(2 * i); tr[t].in.push_back({i, a}); } for (uint32_t i = 0; i < 2; ++i) { AX a = two(2 * (i ^ o)); tr[t].out.push_back({i, a}); } } return; }
        for (uint32_t t = 0; t < T; ++t) {
            for (uint32_t p = 0; p < P; ++p) { if (p == P - 1 && (ft & FT_ORPHAN)) continue;
                bool i = R.p(1, 2) || p == t % P; bool o = R.p(2, 5) || p == (t + 1) % P; if (i) { AX a = arc(pty[p], true); tr[t].in.push_back({p, a}); } if (o) { AX a = arc(pty[p], false); tr[t].out.push_back({p, a}); }
                if ((ft & FT_INHIB) && R.p(1, 3) && !i) { uint32_t w = num(); tr[t].inh.push_back({p, w}); } }
            if ((ft & FT_GUARD) && R.p(2, 3)) { tr[t].guarded = true; tr[t].g = guard(R(3)); }
        }
    }
    void build(AbstractPetriNetBuilder& B) {
        B.enableColors();
        for (auto& t : tys) B.addColorType(t.real->getName(), t.real); for (auto* v : rvar) B.addVariable(v);
        for (uint32_t p = 0; p < P; ++p) { std::vector<std::pair<const Colored::Color*, uint32_t>> v; for (uint32_t c = 0; c < tysize(pty[p]); ++c) if (m0[p].c[c]) v.push_back({colr(pty[p], c), m0[p].c[c]}); B.addPlace(PN[p], tys[pty[p]].real, Colored::Multiset(v), 0, 0); }
        for (uint32_t t = 0; t < T; ++t) { Colored::GuardExpression_ptr g; if (tr[t].guarded) g = tr[t].g.real(); B.addTransition(TN[t], g, 0, 0, 0);
            for (auto& a : tr[t].in) B.addInputArc(PN[a.p], TN[t], a.e.real(), 0); for (auto& a : tr[t].inh) B.addInputArc(PN[a.first], TN[t], nullptr, a.second); for (auto& a : tr[t].out) B.addOutputArc(TN[t], PN[a.p], a.e.real()); }
        B.sort();
    }
    void dump() const {
        if (sym_engine() || !getenv("DUMP")) return;
        for (uint32_t i = 0; i < tys.size(); ++i) printf("type %u kind %u size %u\n", i, tys[i].kind, tysize(i)); for (uint32_t v = 0; v < vty.size(); ++v) printf("var %c: %u\n", "xyzw"[v], vty[v]);
        for (uint32_t p = 0; p < P; ++p) { printf("place p%u: type %u, m0", p, pty[p]); for (uint32_t c = 0; c < tysize(pty[p]); ++c) printf(" %u", m0[p].c[c]); printf("\n"); }
        for (uint32_t t = 0; t < T; ++t) { printf("t%u: ", t); for (auto& a : tr[t].in) printf("p%u:%s ", a.p, str(a.e).c_str()); for (auto& a : tr[t].inh) printf("!p%u:%u ", a.first, a.second); printf("-> "); for (auto& a : tr[t].out) printf("p%u:%s ", a.p, str(a.e).c_str()); if (tr[t].guarded) printf(" [%s]", str(tr[t].g).c_str()); printf("\n"); }
    }
    // the variables a transition uses, and the iteration over its bindings
    static void vars(const Term& t, bool* u) { if (t.kind == 1) u[t.v] = true; for (auto& s : t.sub) vars(s, u); }
    static void vars(const AX& a, bool* u) { for (auto& t : a.terms) vars(t, u); for (auto& s : a.sub) vars(s, u); }
    static void vars(const GX& g, bool* u) { for (auto& t : g.t) vars(t, u); for (auto& s : g.sub) vars(s, u); }
    void used(uint32_t t, bool* u) const { for (uint32_t i = 0; i < CV; ++i) u[i] = false; for (auto& a : tr[t].in) vars(a.e, u); for (auto& a : tr[t].out) vars(a.e, u); if (tr[t].guarded) vars(tr[t].g, u); }
    template <class F> void bindings(uint32_t t, F f) const {
        bool u[CV]; used(t, u); uint32_t b[CV] = {};
        for (;;) { if (!tr[t].guarded || tr[t].g.eval(b)) f(b); uint32_t v = 0; for (; v < vty.size(); ++v) { if (!u[v]) continue; if (++b[v] < tysize(vty[v])) break; b[v] = 0; } if (v >= vty.size()) break; }
    }
    bool enabled(uint32_t t, const uint32_t* b, const MS* m) const {
        bool e = true; for (auto& a : tr[t].in) { MS x = a.e.eval(b); for (uint32_t c = 0; c < tysize(pty[a.p]); ++c) e &= m[a.p].c[c] >= x.c[c]; }
        for (auto& i : tr[t].inh) { uint32_t s = 0; for (uint32_t c = 0; c < tysize(pty[i.first]); ++c) s += m[i.first].c[c]; e &= s < i.second; }
        return e; }
    void fire(uint32_t t, const uint32_t* b, const MS* m, MS* r) const { for (uint32_t p = 0; p < P; ++p) r[p] = m[p]; for (auto& a : tr[t].in) { MS x = a.e.eval(b); for (uint32_t c = 0; c < CC; ++c) r[a.p].c[c] -= x.c[c]; } for (auto& a : tr[t].out) { MS x = a.e.eval(b); for (uint32_t c = 0; c < CC; ++c) r[a.p].c[c] += x.c[c]; } }
    // colours each place can ever hold, ignoring counts and inhibitors
    void support(bool (*s)[CC]) const {
        for (uint32_t p = 0; p < P; ++p) for (uint32_t c = 0; c < CC; ++c) s[p][c] = sym_is_symbolic(m0[p].c[c]) || m0[p].c[c];
        auto nz = [](uint32_t v) { return sym_is_symbolic(v) || v; };
        for (bool ch = true; ch;) { ch = false; for (uint32_t t = 0; t < T; ++t) bindings(t, [&](const uint32_t* b) {
            for (auto& a : tr[t].in) { MS x = a.e.eval(b); for (uint32_t c = 0; c < CC; ++c) if (nz(x.c[c]) && !s[a.p][c]) return; }
            for (auto& a : tr[t].out) { MS x = a.e.eval(b); for (uint32_t c = 0; c < CC; ++c) if (nz(x.c[c]) && !s[a.p][c]) { s[a.p][c] = true; ch = true; } } }); }
    }
};
