// Formula specifications: an independent AST with its own semantics, plus construction of the real PQL objects from it.
#pragma once
#include "net.h"
#include "PetriEngine/PQL/PQL.h"
#include "PetriEngine/PQL/Expressions.h"
#include "PetriEngine/PQL/Contexts.h"
#include "PetriEngine/PQL/Evaluation.h"
#include "PetriEngine/PQL/Analyze.h"
#include "PetriEngine/PQL/PushNegation.h"
using namespace PetriEngine::PQL;
static const char* const PN[] = {"p0", "p1", "p2", "p3", "p4"};
static const char* const TN[] = {"t0", "t1", "t2", "t3"};
static shared_const_string nm(const char* s) { return std::make_shared<const_string>(s); }
static const Built* g_unf = nullptr;   // set: places are built as already-resolved identifiers
enum EK { E_LIT, E_PLACE, E_PLUS, E_SUB, E_MUL, E_NEG };
struct XE {
    EK k; int64_t lit = 0; uint32_t place = 0; std::vector<XE> c;
    static XE L(int64_t v) { XE e; e.k = E_LIT; e.lit = v; return e; }
    static XE Pl(uint32_t p) { XE e; e.k = E_PLACE; e.place = p; return e; }
    static XE N(EK k, XE a) { XE e; e.k = k; e.c.push_back(std::move(a)); return e; }
    static XE N(EK k, XE a, XE b) { XE e; e.k = k; e.c.push_back(std::move(a)); e.c.push_back(std::move(b)); return e; }
    static XE N(EK k, XE a, XE b, XE d) { XE e = N(k, std::move(a), std::move(b)); e.c.push_back(std::move(d)); return e; }
    int64_t val(const uint32_t* m) const {
        switch (k) {
            case E_LIT: return lit; case E_PLACE: return (int64_t)m[place];
            case E_PLUS: { int64_t r = 0; for (auto& x : c) r += x.val(m); return r; }
            case E_SUB: { int64_t r = c[0].val(m); for (size_t i = 1; i < c.size(); ++i) r -= c[i].val(m); return r; }
            case E_MUL: { int64_t r = 1; for (auto& x : c) r *= x.val(m); return r; }
            case E_NEG: return -c[0].val(m);
        }
        return 0;
    }
    Expr_ptr real() const {
        std::vector<Expr_ptr> v; for (auto& x : c) v.push_back(x.real());
        switch (k) {
            case E_LIT: return std::make_shared<LiteralExpr>((int)lit); case E_PLACE: if (g_unf) return std::make_shared<UnfoldedIdentifierExpr>(nm(PN[place]), (int)g_unf->pi[place]); return std::make_shared<IdentifierExpr>(nm(PN[place]));
            case E_PLUS: return std::make_shared<PlusExpr>(std::move(v)); case E_SUB: return std::make_shared<SubtractExpr>(std::move(v));
            case E_MUL: return std::make_shared<MultiplyExpr>(std::move(v)); case E_NEG: return std::make_shared<MinusExpr>(v[0]);
        }
        return nullptr;
    }
};
enum FK { F_TRUE, F_FALSE, F_EQ, F_NE, F_LT, F_LE, F_AND, F_OR, F_NOT, F_DEAD, F_FIRE, F_EF, F_AG, F_EG, F_AF, F_EX, F_AX, F_EU, F_AU };
// A finite transition system: n states with markings; ed[i][j] edge.
#ifndef KMAX
#define KMAX 4
#endif
struct Kripke {
    uint32_t n = 0; uint32_t m[KMAX][MAXP] = {}; bool ed[KMAX][KMAX] = {}; const Spec* net = nullptr;
    bool dead(uint32_t s) const { bool d = true; for (uint32_t j = 0; j < n; ++j) d &= !ed[s][j]; return d; }
};
struct BV { bool b[KMAX] = {}; };
static BV kEX(const Kripke& K, const BV& a) { BV r; for (uint32_t i = 0; i < K.n; ++i) { bool x = false; for (uint32_t j = 0; j < K.n; ++j) x |= K.ed[i][j] & a.b[j]; r.b[i] = x; } return r; }
static BV kNot(const Kripke& K, const BV& a) { BV r; for (uint32_t i = 0; i < K.n; ++i) r.b[i] = !a.b[i]; return r; }
static BV kEU(const Kripke& K, const BV& a, const BV& b) { BV r = b; for (uint32_t k = 0; k < K.n; ++k) { BV x = kEX(K, r); for (uint32_t i = 0; i < K.n; ++i) r.b[i] |= a.b[i] & x.b[i]; } return r; }
static BV kAU(const Kripke& K, const BV& a, const BV& b) { // maximal paths: a finite maximal path must reach b too
    BV r = b; for (uint32_t k = 0; k < K.n; ++k) { BV nx = kEX(K, kNot(K, r)); for (uint32_t i = 0; i < K.n; ++i) r.b[i] |= a.b[i] & !nx.b[i] & !K.dead(i); } return r; }
static BV kAll(const Kripke& K, bool v) { BV r; for (uint32_t i = 0; i < K.n; ++i) r.b[i] = v; return r; }
struct XF {
    FK k; std::vector<XE> e; std::vector<XF> c; uint32_t t = 0;
    static XF N(FK k) { XF f; f.k = k; return f; }
    static XF C(FK k, XE a, XE b) { XF f; f.k = k; f.e.push_back(std::move(a)); f.e.push_back(std::move(b)); return f; }
    static XF N(FK k, XF a) { XF f; f.k = k; f.c.push_back(std::move(a)); return f; }
    static XF N(FK k, XF a, XF b) { XF f; f.k = k; f.c.push_back(std::move(a)); f.c.push_back(std::move(b)); return f; }
    static XF N(FK k, XF a, XF b, XF d) { XF f = N(k, std::move(a), std::move(b)); f.c.push_back(std::move(d)); return f; }
    static XF Fire(uint32_t t) { XF f; f.k = F_FIRE; f.t = t; return f; }
    Condition_ptr real() const {
        std::vector<Condition_ptr> v; for (auto& x : c) v.push_back(x.real());
        auto A = [&] { return e[0].real(); }; auto B = [&] { return e[1].real(); };
        switch (k) {
            case F_TRUE: return BooleanCondition::TRUE_CONSTANT; case F_FALSE: return BooleanCondition::FALSE_CONSTANT;
            case F_EQ: return std::make_shared<EqualCondition>(A(), B()); case F_NE: return std::make_shared<NotEqualCondition>(A(), B());
            case F_LT: return std::make_shared<LessThanCondition>(A(), B()); case F_LE: return std::make_shared<LessThanOrEqualCondition>(A(), B());
            case F_AND: return std::make_shared<AndCondition>(std::move(v)); case F_OR: return std::make_shared<OrCondition>(std::move(v));
            case F_NOT: return std::make_shared<NotCondition>(v[0]); case F_DEAD: return DeadlockCondition::DEADLOCK;
            case F_FIRE: return std::make_shared<FireableCondition>(nm(TN[t]));
            case F_EF: return std::make_shared<EFCondition>(v[0]); case F_AG: return std::make_shared<AGCondition>(v[0]); case F_EG: return std::make_shared<EGCondition>(v[0]); case F_AF: return std::make_shared<AFCondition>(v[0]);
            case F_EX: return std::make_shared<EXCondition>(v[0]); case F_AX: return std::make_shared<AXCondition>(v[0]); case F_EU: return std::make_shared<EUCondition>(v[0], v[1]); case F_AU: return std::make_shared<AUCondition>(v[0], v[1]);
        }
        return nullptr;
    }
    // reference semantics over a transition system
    BV sat(const Kripke& K) const {
        BV r; uint32_t n = K.n;
        switch (k) {
            case F_TRUE: return kAll(K, true); case F_FALSE: return kAll(K, false);
            case F_EQ: for (uint32_t i = 0; i < n; ++i) r.b[i] = e[0].val(K.m[i]) == e[1].val(K.m[i]); return r;
            case F_NE: for (uint32_t i = 0; i < n; ++i) r.b[i] = e[0].val(K.m[i]) != e[1].val(K.m[i]); return r;
            case F_LT: for (uint32_t i = 0; i < n; ++i) r.b[i] = e[0].val(K.m[i]) < e[1].val(K.m[i]); return r;
            case F_LE: for (uint32_t i = 0; i < n; ++i) r.b[i] = e[0].val(K.m[i]) <= e[1].val(K.m[i]); return r;
            case F_AND: r = kAll(K, true); for (auto& x : c) { BV y = x.sat(K); for (uint32_t i = 0; i < n; ++i) r.b[i] &= y.b[i]; } return r;
            case F_OR: r = kAll(K, false); for (auto& x : c) { BV y = x.sat(K); for (uint32_t i = 0; i < n; ++i) r.b[i] |= y.b[i]; } return r;
            case F_NOT: return kNot(K, c[0].sat(K));
            case F_DEAD: for (uint32_t i = 0; i < n; ++i) r.b[i] = K.dead(i); return r;
            case F_FIRE: for (uint32_t i = 0; i < n; ++i) r.b[i] = K.net->enabled(t, K.m[i]); return r;
            case F_EF: return kEU(K, kAll(K, true), c[0].sat(K)); case F_AG: return kNot(K, kEU(K, kAll(K, true), kNot(K, c[0].sat(K))));
            case F_EG: return kNot(K, kAU(K, kAll(K, true), kNot(K, c[0].sat(K)))); case F_AF: return kAU(K, kAll(K, true), c[0].sat(K));
            case F_EX: return kEX(K, c[0].sat(K)); case F_AX: return kNot(K, kEX(K, kNot(K, c[0].sat(K))));
            case F_EU: return kEU(K, c[0].sat(K), c[1].sat(K)); case F_AU: return kAU(K, c[0].sat(K), c[1].sat(K));
        }
        return r;
    }
};
// Reference semantics of real (analysed) objects.
static int64_t rVal(const Expr* e, const uint32_t* m) {
    if (auto x = dynamic_cast<const LiteralExpr*>(e)) return x->value();
    if (auto x = dynamic_cast<const UnfoldedIdentifierExpr*>(e)) { sym_assert(x->offset() >= 0, "place resolved"); return (int64_t)m[x->offset()]; }
    if (auto x = dynamic_cast<const IdentifierExpr*>(e)) return rVal(x->compiled().get(), m);
    if (auto x = dynamic_cast<const MinusExpr*>(e)) return -rVal((*x)[0].get(), m);
    if (auto x = dynamic_cast<const SubtractExpr*>(e)) { int64_t r = rVal((*x)[0].get(), m); for (size_t i = 1; i < x->operands(); ++i) r -= rVal((*x)[i].get(), m); return r; }
    if (auto x = dynamic_cast<const PlusExpr*>(e)) { int64_t r = x->constant(); for (auto& i : x->places()) r += (int64_t)m[i.first]; for (auto& s : x->expressions()) r += rVal(s.get(), m); return r; }
    if (auto x = dynamic_cast<const MultiplyExpr*>(e)) { int64_t r = x->constant(); for (auto& i : x->places()) r *= (int64_t)m[i.first]; for (auto& s : x->expressions()) r *= rVal(s.get(), m); return r; }
    sym_assert(false, "known expression kind"); return 0;
}
// marking index in the real object's place order is given by map[]: real offset -> value
static BV rSat(const Condition* f, const Kripke& K, const uint32_t (*rm)[MAXP]) {
    BV r; uint32_t n = K.n;
    auto two = [&](auto op) { auto x = static_cast<const CompareCondition*>(f); for (uint32_t i = 0; i < n; ++i) r.b[i] = op(rVal((*x)[0].get(), rm[i]), rVal((*x)[1].get(), rm[i])); };
    auto sub = [&](const Condition_ptr& c) { return rSat(c.get(), K, rm); };
    if (auto x = dynamic_cast<const BooleanCondition*>(f)) return kAll(K, x->value);
    if (dynamic_cast<const EqualCondition*>(f)) { two([](int64_t a, int64_t b) { return a == b; }); return r; }
    if (dynamic_cast<const NotEqualCondition*>(f)) { two([](int64_t a, int64_t b) { return a != b; }); return r; }
    if (dynamic_cast<const LessThanCondition*>(f)) { two([](int64_t a, int64_t b) { return a < b; }); return r; }
    if (dynamic_cast<const LessThanOrEqualCondition*>(f)) { two([](int64_t a, int64_t b) { return a <= b; }); return r; }
    if (auto x = dynamic_cast<const CompareConjunction*>(f)) { for (uint32_t i = 0; i < n; ++i) { bool v = true; for (auto& c : x->constraints()) v &= (rm[i][c._place] <= c._upper) & (rm[i][c._place] >= c._lower); r.b[i] = v != x->isNegated(); } return r; }
    if (auto x = dynamic_cast<const AndCondition*>(f)) { r = kAll(K, true); for (auto& c : x->getOperands()) { BV y = sub(c); for (uint32_t i = 0; i < n; ++i) r.b[i] &= y.b[i]; } return r; }
    if (auto x = dynamic_cast<const OrCondition*>(f)) { r = kAll(K, false); for (auto& c : x->getOperands()) { BV y = sub(c); for (uint32_t i = 0; i < n; ++i) r.b[i] |= y.b[i]; } return r; }
    if (auto x = dynamic_cast<const NotCondition*>(f)) return kNot(K, sub((*x)[0]));
    if (dynamic_cast<const DeadlockCondition*>(f)) { for (uint32_t i = 0; i < n; ++i) r.b[i] = K.dead(i); return r; }
    if (auto x = dynamic_cast<const ShallowCondition*>(f)) { sym_assert(x->getCompiled() != nullptr, "compiled"); return sub(x->getCompiled()); }
    if (auto x = dynamic_cast<const EFCondition*>(f)) return kEU(K, kAll(K, true), sub((*x)[0]));
    if (auto x = dynamic_cast<const AGCondition*>(f)) return kNot(K, kEU(K, kAll(K, true), kNot(K, sub((*x)[0]))));
    if (auto x = dynamic_cast<const AFCondition*>(f)) return kAU(K, kAll(K, true), sub((*x)[0]));
    if (auto x = dynamic_cast<const EGCondition*>(f)) return kNot(K, kAU(K, kAll(K, true), kNot(K, sub((*x)[0]))));
    if (auto x = dynamic_cast<const EXCondition*>(f)) return kEX(K, sub((*x)[0]));
    if (auto x = dynamic_cast<const AXCondition*>(f)) return kNot(K, kEX(K, kNot(K, sub((*x)[0]))));
    if (auto x = dynamic_cast<const EUCondition*>(f)) return kEU(K, sub((*x)[0]), sub((*x)[1]));
    if (auto x = dynamic_cast<const AUCondition*>(f)) return kAU(K, sub((*x)[0]), sub((*x)[1]));
    sym_assert(false, "known condition kind"); return r;
}
// ---- shape generators (forking); literals are symbolic
static uint32_t g_litRange = 0; // nonzero: literals in 1..g_litRange
static int64_t symLit(const char* n) { if (g_litRange) return sym_range(n, 1, g_litRange); return (int64_t)(int32_t)sym_u32(n); }
static bool g_coefFork = false;   // set: coefficients are -3 or 2 (forking) instead of any 8-bit value
static int64_t coef() { if (g_coefFork) return sym_flag("c") ? 2 : -3; return (int64_t)(int8_t)sym_u8("c"); }
static XE litE() { return XE::L(symLit("k")); }
static XE genAtomE() { return sym_flag("pl") ? XE::Pl(sym_choice("p", 2)) : litE(); }
static bool mulE(uint32_t s) { return s == 4 || s == 8 || s == 10 || s == 12 || s == 13; }
static const uint32_t NEXPR = 14;
static XE genE(uint32_t s) {
    switch (s) {
        case 0: return XE::Pl(0); case 1: return litE(); case 2: return XE::N(E_PLUS, XE::Pl(1), litE()); case 3: return XE::N(E_PLUS, XE::Pl(0), XE::Pl(1));
        case 4: return XE::N(E_MUL, XE::L(coef()), XE::Pl(0)); case 5: return XE::N(E_SUB, XE::Pl(0), XE::Pl(1)); case 6: return XE::N(E_SUB, litE(), XE::Pl(1), XE::Pl(0));
        case 7: return XE::N(E_NEG, XE::Pl(1)); case 8: return XE::N(E_MUL, XE::Pl(0), XE::Pl(1)); case 9: return XE::N(E_PLUS, XE::Pl(0), XE::Pl(0), XE::N(E_PLUS, XE::Pl(1), litE()));
        case 10: return XE::N(E_PLUS, XE::N(E_MUL, XE::L(coef()), XE::Pl(1)), XE::Pl(0)); case 11: return XE::N(E_PLUS, litE(), XE::N(E_SUB, XE::Pl(0), litE()));
        case 12: return XE::N(E_MUL, XE::N(E_PLUS, XE::Pl(0), XE::Pl(1)), XE::L(coef())); default: return XE::N(E_SUB, XE::N(E_MUL, XE::Pl(1), XE::N(E_SUB, XE::Pl(0), XE::L(coef()))), XE::N(E_NEG, XE::Pl(0)));
    }
}
// atoms over two places, one token comparison each: 0..: kind x order
static bool g_noSwap = false;
static XF genCmp(uint32_t place) { FK k = (FK)(F_EQ + sym_choice("cmp", 4)); bool sw = !g_noSwap && sym_flag("swap"); XE a = XE::Pl(place), b = litE(); return sw ? XF::C(k, std::move(b), std::move(a)) : XF::C(k, std::move(a), std::move(b)); }
