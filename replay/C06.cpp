#include "pql_util.h"
using namespace PetriEngine;
using namespace vp;
typedef std::vector<uint32_t> M;

static void same(const NetD& d, PetriNet& net, const Graph& g, const Fo& f) {
    for (auto& m : g.st) if (big_vals(f, m)) return;
    auto want = ctl(f, g);
    for (int how = 0; how < 2; ++how) for (int neg = 0; neg < 2; ++neg) {
        begin([&] { return cat(neg ? "negated: " : "", s(f), how ? " (combined with makeAnd/makeOr)" : "", " initial ", str(g.st[0]), " in ", d.str()); });
        auto c = mk(f, how);
        negstat_t st;
        EvaluationContext none(nullptr, nullptr);
        auto r = pushNegation(c, st, none, false, neg, false);
        Fo got = rd(r.get());
        auto v = ctl(got, g);
        for (size_t i = 0; i < v.size(); ++i) check((bool)v[i] == ((bool)want[i] != (bool)neg), "normalisation keeps the truth value in every state", cat("state ", str(g.st[i]), " want ", (bool)want[i] != (bool)neg, " result ", s(got)));
        // with the initial marking: same truth value there
        auto c2 = mk(f, how);
        EvaluationContext ctx(g.st[0].data(), &net);
        auto r2 = pushNegation(c2, st, ctx, false, neg, true);
        Fo got2 = rd(r2.get());
        auto v2 = ctl(got2, g);
        check((bool)v2[0] == ((bool)want[0] != (bool)neg), "initial-marking rewriting keeps the truth value in the initial marking", cat("want ", (bool)want[0] != (bool)neg, " result ", s(got2)));
    }
}
static BV q(const Fo& f, const std::vector<Graph>& gs, const std::vector<size_t>& loops) {
    bool all = f.k == A_; bool r = all;
    for (size_t i = 0; i < gs.size(); ++i) { bool b = ltl(f.c[0], gs[i], loops[i], BV(gs[i].st.size(), 0))[0]; r = all ? r && b : r || b; }
    return BV{(char)r};
}

int main(int argc, char** argv) {
    init(argc, argv);
    random_section("CTL", 0.25, 800, [](Rng& r, uint64_t i) {
        NetD d = random_net(r, 3, 4, false);
        auto net = build(d);
        M m = random_marking(r, d, false); Graph g;
        if (!explore(d, m, g, 40)) return;
        for (int k = 0; k < 8; ++k) same(d, *net, g, rctl(r, d.np, 1 + r.below(4)));
    });
    // arbitrary transition systems (not only those of small nets), simple atoms: every nesting of two or three operators
    random_section("CTL on arbitrary transition systems", 0.3, 3000, [](Rng& r, uint64_t i) {
        Graph g; size_t n = 2 + r.below(4);
        for (size_t k = 0; k < n; ++k) { M m(3); for (auto& x : m) x = r.below(2); g.st.push_back(m); g.suc.emplace_back(); size_t o = r.below(3); for (size_t j = 0; j < o; ++j) g.suc.back().push_back(r.below(n)); }
        std::function<Fo(int)> gen = [&](int d) -> Fo {
            if (d == 0) { switch (r.below(12)) { case 0: return Fo{DL}; case 1: return Fo{NOT_, {Fo{DL}}}; case 2: return Fo{r.coin() ? TT : FF};
                default: { Fo a{LE}; a.e = {Ex{Ex::LIT, 1}, Ex{Ex::PL, (int64_t)r.below(3)}}; return a; } } }
            switch (r.below(12)) {
                case 0: return Fo{NOT_, {gen(d - 1)}};
                case 1: case 2: case 3: { Fo f{r.coin(3) ? AND_ : OR_}; size_t m = 2 + r.below(2); for (size_t j = 0; j < m; ++j) f.c.push_back(gen(d - 1)); return f; }
                case 4: case 5: case 6: return Fo{r.coin() ? EU_ : AU_, {gen(r.coin() ? 0 : d - 1), gen(d - 1)}};
                default: return Fo{(FK)(EX_ + r.below(6)), {gen(d - 1)}};
            }
        };
        for (int k = 0; k < 12; ++k) {
            Fo f = gen(1 + r.below(3)); bool neg = r.coin(), how = r.coin(4);
            auto want = ctl(f, g);
            begin([&] { std::string x = cat(neg ? "negated: " : "", s(f), how ? " (combined with makeAnd/makeOr)" : "", " on"); for (size_t i = 0; i < n; ++i) { x += cat(" ", i, ":", str(g.st[i]), "->{"); for (auto y : g.suc[i]) x += cat(y, ","); x += "}"; } return x; });
            negstat_t st; EvaluationContext none(nullptr, nullptr);
            auto c = mk(f, how);
            auto res = pushNegation(c, st, none, false, neg, false);
            Fo got = rd(res.get());
            auto v = ctl(got, g);
            for (size_t i = 0; i < v.size(); ++i) check((bool)v[i] == ((bool)want[i] != neg), "normalisation keeps the truth value in every state", cat("state ", i, " want ", (bool)want[i] != neg, " result ", s(got)));
        }
    });
    random_section("state predicates", 0.2, 500, [](Rng& r, uint64_t i) {
        NetD d = random_net(r, 3, 2, false); auto net = build(d);
        Graph g; for (int k = 0; k < 6; ++k) { M m(d.np); for (auto& x : m) x = r.coin(6) ? r.b32() : r.below(5); g.st.push_back(m); g.suc.emplace_back(); if (!o_dead(d, m)) g.suc.back().push_back(k); }
        for (int k = 0; k < 8; ++k) same(d, *net, g, rpred(r, d.np, 1 + r.below(4), r.coin(4)));
        // comparisons with 0 are rewritten into bounds when the other side cannot be negative
        for (int k = 0; k < 3; ++k) { Ex z{Ex::LIT, 0}; Ex e = rex(r, d.np, 1 + r.below(3), false); Fo f{r.coin() ? EQ : NE}; f.e = r.coin() ? std::vector<Ex>{e, z} : std::vector<Ex>{z, e}; if (r.coin(4)) f = Fo{NOT_, {f}}; same(d, *net, g, f); }
    });
    random_section("LTL", 0.25, 1000, [](Rng& r, uint64_t) {
        NetD d; d.np = 1 + r.below(3);
        Tr t; d.tr.push_back(t);                       // never deadlocked
        auto net = build(d);
        std::vector<Graph> gs(1 + r.below(3)); std::vector<size_t> loops; M m0(d.np); for (auto& x : m0) x = r.below(4);
        for (auto& g : gs) { size_t n = 1 + r.below(5); for (size_t i = 0; i < n; ++i) { M m(d.np); for (auto& x : m) x = r.below(4); g.st.push_back(i ? m : m0); g.suc.emplace_back(); } loops.push_back(r.below(n)); }
        for (int k = 0; k < 10; ++k) {
            Fo f{r.coin() ? A_ : E_, {rltl(r, d.np, 1 + r.below(4))}};
            bool neg = r.coin();
            bool want = q(f, gs, loops)[0] != neg;
            for (int init = 0; init < 2; ++init) {
                begin([&] { std::string x = cat(neg ? "negated " : "", s(f), init ? " with initial marking" : "", " on"); for (size_t i = 0; i < gs.size(); ++i) { x += " lasso["; for (auto& m : gs[i].st) x += str(m); x += cat(" loop ", loops[i], "]"); } return x; });
                negstat_t st; EvaluationContext none(nullptr, nullptr), ctx(m0.data(), net.get());
                auto c = mk(f, r.coin());
                auto res = pushNegation(c, st, init ? ctx : none, false, neg, init);
                Fo got = rd(res.get());
                bool v;
                if (got.k == TT || got.k == FF) v = got.k == TT; else if (got.k == A_ || got.k == E_) v = q(got, gs, loops)[0]; else if (got.k == NOT_ && (got.c[0].k == A_ || got.c[0].k == E_)) v = !q(got.c[0], gs, loops)[0]; else { fail("the path quantifier of an LTL query is kept", s(got)); continue; }
                check(v == want, "normalisation keeps the truth value on every path", cat("want ", want, " result ", s(got)));
            }
        }
    });
    return finish();
}
