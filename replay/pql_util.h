// formulas as plain data, their construction as engine objects, reading engine objects back, and an explicit oracle
#pragma once
#include "net_util.h"
#include "PetriEngine/PQL/Expressions.h"
#include "PetriEngine/PQL/Contexts.h"
#include "PetriEngine/PQL/Evaluation.h"
#include "PetriEngine/PQL/PushNegation.h"
#include "PetriEngine/PQL/PredicateCheckers.h"
namespace vp {
    using namespace PetriEngine::PQL;
    typedef __int128 big;
    struct Ex { enum K { LIT, PL, ADD, MUL, SUB, NEG } k; int64_t v = 0; std::vector<Ex> c; bool wrap = false; };
    enum FK { TT, FF, DL, LT, LE, EQ, NE, CONJ, AND_, OR_, NOT_, EX_, AX_, EF_, AF_, EG_, AG_, EU_, AU_, E_, A_, F_, G_, X_, U_, UB };
    struct Con { uint32_t p, lo, hi; };
    struct Fo { FK k; std::vector<Fo> c; std::vector<Ex> e; std::vector<Con> cons; bool neg = false; std::vector<uint32_t> pl; };

    inline std::string s(const Ex& e) {
        switch (e.k) { case Ex::LIT: return std::to_string(e.v); case Ex::PL: return "p" + std::to_string(e.v); case Ex::NEG: return "-(" + s(e.c[0]) + ")";
            default: { std::string r = "("; for (size_t i = 0; i < e.c.size(); ++i) r += (i ? (e.k == Ex::ADD ? " + " : e.k == Ex::MUL ? " * " : " - ") : "") + s(e.c[i]); return r + ")"; } }
    }
    inline std::string s(const Fo& f) {
        static const char* n[] = {"true", "false", "deadlock", "<", "<=", "==", "!=", "conj", "and", "or", "not", "EX", "AX", "EF", "AF", "EG", "AG", "EU", "AU", "E", "A", "F", "G", "X", "U", "bounds"};
        if (f.k <= DL) return n[f.k];
        if (f.k <= NE) return s(f.e[0]) + " " + n[f.k] + " " + s(f.e[1]);
        if (f.k == CONJ) { std::string r = f.neg ? "not{" : "{"; for (auto& c : f.cons) r += cat(c.lo, "<=p", c.p, "<=", c.hi, " "); return r + "}"; }
        if (f.k == UB) return "bounds" + str(f.pl);
        if (f.k == AND_ || f.k == OR_) { std::string r = "("; for (size_t i = 0; i < f.c.size(); ++i) r += (i ? cat(" ", n[f.k], " ") : "") + s(f.c[i]); return r + ")"; }
        if (f.c.size() == 2) return cat(f.k == EU_ ? "E" : f.k == AU_ ? "A" : "", "[", s(f.c[0]), " U ", s(f.c[1]), "]");
        return cat(n[f.k], "(", s(f.c[0]), ")");
    }

    inline std::shared_ptr<const_string> pname(uint32_t p) { static std::map<uint32_t, std::shared_ptr<const_string>> m; auto& x = m[p]; if (!x) x = std::make_shared<const_string>("p" + std::to_string(p)); return x; }

    inline Expr_ptr mk(const Ex& e) {
        std::vector<Expr_ptr> v; for (auto& x : e.c) v.push_back(mk(x));
        switch (e.k) {
            case Ex::LIT: { auto l = std::make_shared<LiteralExpr>(0); l->_value = e.v; return l; }
            case Ex::PL: { Expr_ptr u = std::make_shared<UnfoldedIdentifierExpr>(pname(e.v), (int)e.v); if (!e.wrap) return u; auto i = std::make_shared<IdentifierExpr>(pname(e.v)); i->_compiled = u; return i; }
            case Ex::ADD: return std::make_shared<PlusExpr>(std::move(v));
            case Ex::MUL: return std::make_shared<MultiplyExpr>(std::move(v));
            case Ex::SUB: return std::make_shared<SubtractExpr>(std::move(v));
            default: return std::make_shared<MinusExpr>(v[0]);
        }
    }
    // how == 0: plain constructors; 1: through makeAnd / makeOr
    inline Condition_ptr mk(const Fo& f, int how = 0) {
        std::vector<Condition_ptr> v; for (auto& x : f.c) v.push_back(mk(x, how));
        switch (f.k) {
            case TT: return BooleanCondition::TRUE_CONSTANT; case FF: return BooleanCondition::FALSE_CONSTANT; case DL: return DeadlockCondition::DEADLOCK;
            case LT: return std::make_shared<LessThanCondition>(mk(f.e[0]), mk(f.e[1]));
            case LE: return std::make_shared<LessThanOrEqualCondition>(mk(f.e[0]), mk(f.e[1]));
            case EQ: return std::make_shared<EqualCondition>(mk(f.e[0]), mk(f.e[1]));
            case NE: return std::make_shared<NotEqualCondition>(mk(f.e[0]), mk(f.e[1]));
            case CONJ: { std::vector<CompareConjunction::cons_t> cs; for (auto& c : f.cons) { CompareConjunction::cons_t x; x._place = c.p; x._lower = c.lo; x._upper = c.hi; x._name = pname(c.p); cs.push_back(x); } return std::make_shared<CompareConjunction>(std::move(cs), f.neg); }
            case AND_: return how ? makeAnd(v) : std::make_shared<AndCondition>(v);
            case OR_: return how ? makeOr(v) : std::make_shared<OrCondition>(v);
            case NOT_: return std::make_shared<NotCondition>(v[0]);
            case EX_: return std::make_shared<EXCondition>(v[0]); case AX_: return std::make_shared<AXCondition>(v[0]);
            case EF_: return std::make_shared<EFCondition>(v[0]); case AF_: return std::make_shared<AFCondition>(v[0]);
            case EG_: return std::make_shared<EGCondition>(v[0]); case AG_: return std::make_shared<AGCondition>(v[0]);
            case EU_: return std::make_shared<EUCondition>(v[0], v[1]); case AU_: return std::make_shared<AUCondition>(v[0], v[1]);
            case E_: return std::make_shared<ECondition>(v[0]); case A_: return std::make_shared<ACondition>(v[0]);
            case F_: return std::make_shared<FCondition>(v[0]); case G_: return std::make_shared<GCondition>(v[0]); case X_: return std::make_shared<XCondition>(v[0]);
            case U_: return std::make_shared<UntilCondition>(v[0], v[1]);
            default: { std::vector<shared_const_string> ns; for (auto p : f.pl) ns.push_back(pname(p)); auto u = std::make_shared<UnfoldedUpperBoundsCondition>(ns); for (size_t i = 0; i < f.pl.size(); ++i) u->_places[i]._place = f.pl[i]; return u; }
        }
    }
    // read engine objects back as plain data
    struct cannot_read {};
    inline Ex rd(const Expr* e) {
        if (auto x = dynamic_cast<const LiteralExpr*>(e)) return Ex{Ex::LIT, x->value()};
        if (auto x = dynamic_cast<const UnfoldedIdentifierExpr*>(e)) return Ex{Ex::PL, x->offset()};
        if (auto x = dynamic_cast<const IdentifierExpr*>(e)) return rd(x->compiled().get());
        if (auto x = dynamic_cast<const MinusExpr*>(e)) return Ex{Ex::NEG, 0, {rd((*x)[0].get())}};
        if (auto x = dynamic_cast<const CommutativeExpr*>(e)) {
            Ex r{dynamic_cast<const PlusExpr*>(e) ? Ex::ADD : Ex::MUL}; r.c.push_back(Ex{Ex::LIT, x->constant()});
            for (auto& i : x->places()) r.c.push_back(Ex{Ex::PL, (int64_t)i.first});
            for (auto& i : x->expressions()) r.c.push_back(rd(i.get()));
            return r;
        }
        if (auto x = dynamic_cast<const SubtractExpr*>(e)) { Ex r{Ex::SUB}; for (auto& i : x->expressions()) r.c.push_back(rd(i.get())); return r; }
        throw cannot_read();
    }
    inline Fo rd(const Condition* c) {
        if (!c) throw cannot_read();
        if (auto x = dynamic_cast<const BooleanCondition*>(c)) return Fo{x->value ? TT : FF};
        if (dynamic_cast<const DeadlockCondition*>(c)) return Fo{DL};
        if (auto x = dynamic_cast<const CompareCondition*>(c)) {
            FK k = dynamic_cast<const LessThanCondition*>(c) ? LT : dynamic_cast<const LessThanOrEqualCondition*>(c) ? LE : dynamic_cast<const EqualCondition*>(c) ? EQ : NE;
            return Fo{k, {}, {rd((*x)[0].get()), rd((*x)[1].get())}};
        }
        if (auto x = dynamic_cast<const CompareConjunction*>(c)) { Fo r{CONJ}; r.neg = x->isNegated(); for (auto& q : x->constraints()) r.cons.push_back({q._place, q._lower, q._upper}); return r; }
        if (auto x = dynamic_cast<const LogicalCondition*>(c)) { Fo r{dynamic_cast<const AndCondition*>(c) ? AND_ : OR_}; for (auto& q : *x) r.c.push_back(rd(q.get())); return r; }
        if (auto x = dynamic_cast<const NotCondition*>(c)) return Fo{NOT_, {rd(x->getCond().get())}};
        if (auto x = dynamic_cast<const UntilCondition*>(c)) return Fo{dynamic_cast<const EUCondition*>(c) ? EU_ : dynamic_cast<const AUCondition*>(c) ? AU_ : U_, {rd(x->getCond1().get()), rd(x->getCond2().get())}};
        if (auto x = dynamic_cast<const SimpleQuantifierCondition*>(c)) {
            FK k = dynamic_cast<const EXCondition*>(c) ? EX_ : dynamic_cast<const AXCondition*>(c) ? AX_ : dynamic_cast<const EFCondition*>(c) ? EF_ : dynamic_cast<const AFCondition*>(c) ? AF_ :
                   dynamic_cast<const EGCondition*>(c) ? EG_ : dynamic_cast<const AGCondition*>(c) ? AG_ : dynamic_cast<const ECondition*>(c) ? E_ : dynamic_cast<const ACondition*>(c) ? A_ :
                   dynamic_cast<const FCondition*>(c) ? F_ : dynamic_cast<const GCondition*>(c) ? G_ : dynamic_cast<const XCondition*>(c) ? X_ : UB;
            if (k == UB) throw cannot_read();
            return Fo{k, {rd(x->getCond().get())}};
        }
        if (auto x = dynamic_cast<const UnfoldedUpperBoundsCondition*>(c)) { Fo r{UB}; for (auto& p : x->places()) r.pl.push_back(p._place); return r; }
        throw cannot_read();
    }
    // ---- oracle: state predicates --------------------------------------------------------------
    inline big ev(const Ex& e, const std::vector<uint32_t>& m) {
        switch (e.k) { case Ex::LIT: return e.v; case Ex::PL: return m[e.v]; case Ex::NEG: return -ev(e.c[0], m);
            default: { big r = e.k == Ex::MUL ? 1 : 0; for (size_t i = 0; i < e.c.size(); ++i) { big x = ev(e.c[i], m); r = e.k == Ex::ADD ? r + x : e.k == Ex::MUL ? r * x : i ? r - x : x; } return r; } }
    }
    // some intermediate value does not fit 62 bits
    inline bool big_vals(const Ex& e, const std::vector<uint32_t>& m) {
        big a = 0, b = 1; for (auto& x : e.c) { if (big_vals(x, m)) return true; big y = ev(x, m); if (y < 0) y = -y; a += y; b *= (y ? y : 1); if (e.k == Ex::MUL && b > ((big)1 << 62)) return true; if (a > ((big)1 << 62)) return true; }
        return false;
    }
    inline bool big_vals(const Fo& f, const std::vector<uint32_t>& m) { for (auto& e : f.e) if (big_vals(e, m)) return true; for (auto& c : f.c) if (big_vals(c, m)) return true; return false; }
    inline bool o_dead(const NetD& d, const std::vector<uint32_t>& m) { for (auto& t : d.tr) if (o_enabled(t, m)) return false; return true; }
    inline bool atom(const Fo& f, const std::vector<uint32_t>& m, bool dead) {
        switch (f.k) { case TT: return true; case FF: return false; case DL: return dead;
            case LT: return ev(f.e[0], m) < ev(f.e[1], m); case LE: return ev(f.e[0], m) <= ev(f.e[1], m); case EQ: return ev(f.e[0], m) == ev(f.e[1], m); case NE: return ev(f.e[0], m) != ev(f.e[1], m);
            default: { bool r = true; for (auto& c : f.cons) r = r && m[c.p] >= c.lo && m[c.p] <= c.hi; return r != f.neg; } }
    }
    inline bool predicate(const Fo& f) { if (f.k <= CONJ) return true; if (f.k > NOT_) return false; for (auto& c : f.c) if (!predicate(c)) return false; return true; }
    inline bool holds(const Fo& f, const std::vector<uint32_t>& m, bool dead) {
        if (f.k <= CONJ) return atom(f, m, dead);
        if (f.k == NOT_) return !holds(f.c[0], m, dead);
        for (auto& c : f.c) { bool b = holds(c, m, dead); if (f.k == AND_ && !b) return false; if (f.k == OR_ && b) return true; }
        return f.k == AND_;
    }
    // ---- oracle: CTL on the explicit state graph (maximal paths; a path may end in a deadlock) ----
    struct Graph { std::vector<std::vector<uint32_t>> st; std::vector<std::vector<int>> suc; };
    inline bool explore(const NetD& d, const std::vector<uint32_t>& m0, Graph& g, size_t limit) {
        std::map<std::vector<uint32_t>, int> ix; ix[m0] = 0; g.st = {m0};
        for (size_t i = 0; i < g.st.size(); ++i) {
            g.suc.emplace_back();
            for (auto& t : d.tr) { auto m = g.st[i]; if (!o_enabled(t, m)) continue; std::vector<uint32_t> n; if (!o_fire(t, m, n)) return false;
                auto r = ix.emplace(n, (int)g.st.size()); if (r.second) { g.st.push_back(n); if (g.st.size() > limit) return false; } g.suc[i].push_back(r.first->second); }
        }
        return true;
    }
    typedef std::vector<char> BV;
    inline BV ctl(const Fo& f, const Graph& g) {
        size_t n = g.st.size(); BV r(n);
        if (f.k <= CONJ) { for (size_t i = 0; i < n; ++i) r[i] = atom(f, g.st[i], g.suc[i].empty()); return r; }
        std::vector<BV> c; for (auto& x : f.c) c.push_back(ctl(x, g));
        auto ex = [&](const BV& x, size_t i) { for (int j : g.suc[i]) if (x[j]) return true; return false; };
        auto ax = [&](const BV& x, size_t i) { for (int j : g.suc[i]) if (!x[j]) return false; return true; };
        auto fix = [&](bool init, std::function<bool(size_t, const BV&)> step) { std::fill(r.begin(), r.end(), init); bool ch = true; while (ch) { ch = false; for (size_t i = 0; i < n; ++i) { bool b = step(i, r); if (b != (bool)r[i]) { r[i] = b; ch = true; } } } };
        switch (f.k) {
            case NOT_: for (size_t i = 0; i < n; ++i) r[i] = !c[0][i]; break;
            case AND_: for (size_t i = 0; i < n; ++i) { r[i] = 1; for (auto& x : c) r[i] &= x[i]; } break;
            case OR_: for (size_t i = 0; i < n; ++i) { r[i] = 0; for (auto& x : c) r[i] |= x[i]; } break;
            case EX_: for (size_t i = 0; i < n; ++i) r[i] = ex(c[0], i); break;
            case AX_: for (size_t i = 0; i < n; ++i) r[i] = ax(c[0], i); break;
            case EF_: fix(false, [&](size_t i, const BV& x) { return c[0][i] || ex(x, i); }); break;
            case AF_: fix(false, [&](size_t i, const BV& x) { return c[0][i] || (!g.suc[i].empty() && ax(x, i)); }); break;
            case EG_: fix(true, [&](size_t i, const BV& x) { return c[0][i] && (g.suc[i].empty() || ex(x, i)); }); break;
            case AG_: fix(true, [&](size_t i, const BV& x) { return c[0][i] && ax(x, i); }); break;
            case EU_: fix(false, [&](size_t i, const BV& x) { return c[1][i] || (c[0][i] && ex(x, i)); }); break;
            case AU_: fix(false, [&](size_t i, const BV& x) { return c[1][i] || (c[0][i] && !g.suc[i].empty() && ax(x, i)); }); break;
            default: throw cannot_read();
        }
        return r;
    }
    // ---- oracle: LTL on a lasso (states st, position n-1 continues at loop) -----------------------
    inline BV ltl(const Fo& f, const Graph& g, size_t loop, const BV& dead) {
        size_t n = g.st.size(); BV r(n); auto nx = [&](size_t i) { return i + 1 < n ? i + 1 : loop; };
        if (f.k <= CONJ) { for (size_t i = 0; i < n; ++i) r[i] = atom(f, g.st[i], dead[i]); return r; }
        std::vector<BV> c; for (auto& x : f.c) c.push_back(ltl(x, g, loop, dead));
        auto fix = [&](bool init, std::function<bool(size_t)> step) { std::fill(r.begin(), r.end(), init); bool ch = true; while (ch) { ch = false; for (size_t i = n; i--;) { bool b = step(i); if (b != (bool)r[i]) { r[i] = b; ch = true; } } } };
        switch (f.k) {
            case NOT_: for (size_t i = 0; i < n; ++i) r[i] = !c[0][i]; break;
            case AND_: for (size_t i = 0; i < n; ++i) { r[i] = 1; for (auto& x : c) r[i] &= x[i]; } break;
            case OR_: for (size_t i = 0; i < n; ++i) { r[i] = 0; for (auto& x : c) r[i] |= x[i]; } break;
            case X_: for (size_t i = 0; i < n; ++i) r[i] = c[0][nx(i)]; break;
            case F_: fix(false, [&](size_t i) { return c[0][i] || r[nx(i)]; }); break;
            case G_: fix(true, [&](size_t i) { return c[0][i] && r[nx(i)]; }); break;
            case U_: fix(false, [&](size_t i) { return c[1][i] || (c[0][i] && r[nx(i)]); }); break;
            default: throw cannot_read();
        }
        return r;
    }
    // ---- generators ---------------------------------------------------------------------------------
    inline int64_t rlit(Rng& r, bool boundary) { if (!boundary || r.below(4)) return r.range(-3, 6); static const int64_t b[] = {0, 1, -1, 2147483647ll, -2147483648ll, 2147483646, 4294967295ll, 4294967296ll, 4294967294ll, 65536, 256}; int64_t v = b[r.below(11)]; return v; }
    inline Ex rex(Rng& r, uint32_t np, int d, bool boundary) {
        if (d == 0 || r.coin(3)) return r.coin(3) ? Ex{Ex::LIT, rlit(r, boundary)} : Ex{Ex::PL, (int64_t)r.below(np), {}, r.coin(6)};
        Ex e{(Ex::K)(2 + r.below(4))}; size_t n = e.k == Ex::NEG ? 1 : 1 + r.below(3); if (n == 1 && e.k != Ex::NEG) n = 2;
        for (size_t i = 0; i < n; ++i) e.c.push_back(rex(r, np, d - 1, boundary));
        return e;
    }
    inline Fo ratom(Rng& r, uint32_t np, bool boundary, bool dl = true) {
        switch (r.below(dl ? 12 : 10)) {
            case 0: return Fo{r.coin() ? TT : FF};
            case 1: { Fo f{CONJ}; f.neg = r.coin(); std::set<uint32_t> ps; for (int i = 0; i < 3; ++i) ps.insert(r.below(np)); for (auto p : ps) { uint32_t lo = r.coin() ? 0 : r.below(4), hi = r.coin() ? 0xffffffffu : r.below(5); f.cons.push_back({p, lo, hi}); } return f; }
            case 2: case 3: return Fo{(FK)(LT + r.below(4)), {}, {rex(r, np, 2, boundary), rex(r, np, 2, boundary)}};
            case 10: case 11: return Fo{DL};
            default: { Ex a{Ex::PL, (int64_t)r.below(np)}, b{Ex::LIT, rlit(r, boundary)}; if (r.coin()) std::swap(a, b); return Fo{(FK)(LT + r.below(4)), {}, {a, b}}; }
        }
    }
    inline Fo rpred(Rng& r, uint32_t np, int d, bool boundary) {
        if (d == 0 || r.coin(4)) return ratom(r, np, boundary);
        if (r.coin(3)) return Fo{NOT_, {rpred(r, np, d - 1, boundary)}};
        Fo f{r.coin() ? AND_ : OR_}; size_t n = r.coin(8) ? 1 : 2 + r.below(3); for (size_t i = 0; i < n; ++i) f.c.push_back(rpred(r, np, d - 1, boundary)); return f;
    }
    inline Fo rctl(Rng& r, uint32_t np, int d, bool boundary = false) {
        if (d == 0 || r.coin(8)) return ratom(r, np, boundary);
        switch (r.below(12)) {
            case 0: case 1: return Fo{NOT_, {rctl(r, np, d - 1, boundary)}};
            case 2: case 3: { Fo f{r.coin() ? AND_ : OR_}; size_t n = 2 + r.below(2); for (size_t i = 0; i < n; ++i) f.c.push_back(rctl(r, np, d - 1, boundary)); return f; }
            case 4: case 5: return Fo{r.coin() ? EU_ : AU_, {rctl(r, np, d - 1, boundary), rctl(r, np, d - 1, boundary)}};
            default: return Fo{(FK)(EX_ + r.below(6)), {rctl(r, np, d - 1, boundary)}};
        }
    }
    inline Fo rltl(Rng& r, uint32_t np, int d) {
        if (d == 0 || r.coin(8)) return ratom(r, np, false, false);
        switch (r.below(9)) {
            case 0: case 1: return Fo{NOT_, {rltl(r, np, d - 1)}};
            case 2: case 3: { Fo f{r.coin() ? AND_ : OR_}; size_t n = 2 + r.below(2); for (size_t i = 0; i < n; ++i) f.c.push_back(rltl(r, np, d - 1)); return f; }
            case 4: case 5: return Fo{U_, {rltl(r, np, d - 1), rltl(r, np, d - 1)}};
            default: return Fo{(FK)(F_ + r.below(3)), {rltl(r, np, d - 1)}};
        }
    }
}
