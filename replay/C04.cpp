#include "pql_util.h"
using namespace PetriEngine;
using namespace vp;
typedef std::vector<uint32_t> M;

static void expr(const NetD& d, PetriNet& net, const Ex& e, const M& m) {
    if (big_vals(e, m)) return;
    begin([&] { return cat("expression ", s(e), " marking ", str(m)); });
    auto x = mk(e);
    EvaluationContext ctx(m.data(), &net);
    int64_t got = PQL::evaluate(x.get(), ctx), want = (int64_t)ev(e, m);
    check(got == want, "an expression evaluates to its arithmetic value", cat("got ", got, " want ", want));
    check(x->placeFree() == (s(e).find('p') == std::string::npos), "an expression is place-free exactly when it mentions no place");
}
static void cond(const NetD& d, PetriNet& net, const Fo& f, const M& m) {
    if (big_vals(f, m)) return;
    bool dead = o_dead(d, m), want = holds(f, m, dead);
    for (int how = 0; how < 2; ++how) {
        begin([&] { return cat(how ? "(combined with makeAnd/makeOr) " : "", s(f), " marking ", str(m), " in ", d.str()); });
        auto c = mk(f, how);
        EvaluationContext ctx(m.data(), &net);
        auto r = PQL::evaluate(c.get(), ctx);
        check(r == (want ? Condition::RTRUE : Condition::RFALSE), how ? "building conjunctions and disjunctions keeps the meaning" : "a state predicate evaluates to its truth value in the marking",
              cat("got ", (int)r, " want ", want, " condition ", s(rd(c.get()))));
    }
}
// three-valued answers about temporal formulas in the initial state must be right
static void temporal(const NetD& d, PetriNet& net, const Fo& f, const Graph& g) {
    auto c = mk(f, 0);
    auto v = ctl(f, g);
    for (size_t i = 0; i < g.st.size() && i < 6; ++i) {
        begin([&] { return cat(s(f), " state ", str(g.st[i]), " in ", d.str()); });
        EvaluationContext ctx(g.st[i].data(), &net);
        auto r = PQL::evaluate(c.get(), ctx);
        check(r == Condition::RUNKNOWN || (r == Condition::RTRUE) == (bool)v[i], "a definite answer about a temporal formula is right", cat("got ", (int)r, " want ", (int)v[i]));
    }
}

int main(int argc, char** argv) {
    init(argc, argv);
    section_once("exhaustive bounds", [] {
        // one and two bounds on one or two places against every small marking
        NetD d; d.np = 2; auto net = build(d);
        std::vector<int64_t> lits{-2147483648ll, -2, -1, 0, 1, 2, 3, 2147483647ll};
        std::vector<Fo> atoms;
        for (int k = LT; k <= NE; ++k) for (auto l : lits) for (int sw = 0; sw < 2; ++sw) for (uint32_t p = 0; p < 2; ++p) { Ex a{Ex::PL, (int64_t)p}, b{Ex::LIT, l}; if (sw) std::swap(a, b); atoms.push_back(Fo{(FK)k, {}, {a, b}}); }
        std::vector<M> ms; for (uint32_t a : {0u, 1u, 2u, 3u, 0x7fffffffu, 0x80000000u, 0xfffffffeu}) for (uint32_t b : {0u, 2u}) ms.push_back({a, b});
        for (auto& a : atoms) for (auto& m : ms) cond(d, *net, a, m);
        for (size_t i = 0; i < atoms.size(); ++i) for (size_t j = 0; j < atoms.size(); ++j) for (int k = 0; k < 2; ++k) for (int n = 0; n < 2; ++n) {
            Fo f{k ? AND_ : OR_, {n ? Fo{NOT_, {atoms[i]}} : atoms[i], atoms[j]}};
            for (size_t q = (i + j) % 3; q < ms.size(); q += 3) cond(d, *net, f, ms[q]);
        }
    });
    random_section("expressions", 0.2, 5000, [](Rng& r, uint64_t) {
        NetD d; d.np = 1 + r.below(4); auto net = build(d);
        M m(d.np); for (auto& x : m) x = r.coin(4) ? r.b32() : r.below(5);
        for (int i = 0; i < 20; ++i) expr(d, *net, rex(r, d.np, 3, r.coin(3)), m);
    });
    random_section("predicates", 0.5, 5000, [](Rng& r, uint64_t i) {
        NetD d = random_net(r, 4, 3, i % 2); auto net = build(d);
        M m = random_marking(r, d, i % 2);
        for (int k = 0; k < 10; ++k) cond(d, *net, rpred(r, d.np, 1 + r.below(4), r.coin(3)), m);
    });
    random_section("upper bounds", 0.05, 1000, [](Rng& r, uint64_t) {
        NetD d; d.np = 1 + r.below(4); auto net = build(d);
        Fo f{UB}; std::set<uint32_t> ps; for (int i = 0; i < 3; ++i) ps.insert(r.below(d.np)); for (auto p : ps) f.pl.push_back(p);
        auto c = mk(f); uint64_t best = 0;
        for (int i = 0; i < 5; ++i) {
            M m(d.np); for (auto& x : m) x = r.coin(4) ? r.b32() : r.below(5);
            begin([&] { return cat(s(f), " step ", i, " marking ", str(m)); });
            EvaluationContext ctx(m.data(), net.get());
            PQL::evaluate(c.get(), ctx);
            uint64_t sum = 0; for (auto p : f.pl) sum += m[p]; best = std::max(best, sum);
            auto u = static_cast<UnfoldedUpperBoundsCondition*>(c.get());
            check(u->bounds() == (double)best, "the recorded bound is the largest token sum seen", cat("got ", u->bounds(), " want ", best));
        }
    });
    random_section("temporal", 0.2, 500, [](Rng& r, uint64_t) {
        NetD d = random_net(r, 3, 4, false);
        auto net = build(d);
        M m = random_marking(r, d, false); Graph g;
        if (!explore(d, m, g, 60)) return;
        for (int k = 0; k < 6; ++k) temporal(d, *net, rctl(r, d.np, 1 + r.below(4)), g);
    });
    return finish();
}
