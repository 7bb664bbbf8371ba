// partial-order reduction: the reduced exploration reaches a marking satisfying the query exactly when the full one does
#include "pql_util.h"
#include "PetriEngine/ReducingSuccessorGenerator.h"
#include "PetriEngine/Stubborn/ReachabilityStubbornSet.h"
#include "PetriEngine/PQL/Contexts.h"
using namespace PetriEngine; using namespace PetriEngine::PQL; using namespace vp;
typedef std::vector<uint32_t> M;

static void reduced(const NetD& d, const PetriNet& net, const M& m0, const Graph& g, const std::vector<Fo>& preds, const std::vector<Condition_ptr>& qs, bool closure, std::vector<M>& seenout) {
    auto stub = std::make_shared<ReachabilityStubbornSet>(net, qs, closure);
    ReducingSuccessorGenerator gen(net, stub);
    std::set<M> all(g.st.begin(), g.st.end()), seen{m0};
    std::vector<M> todo{m0};
    bool first = true;
    while (!todo.empty()) {
        M m = todo.back(); todo.pop_back();
        seenout.push_back(m);
        St par(m), wr(m);
        std::set<uint32_t> fired;
        bool some = gen.prepare(&par);
        bool en = false; for (auto& t : d.tr) en |= o_enabled(t, m);
        size_t k = 0;
        if (some) while (gen.next(wr)) {
            M s(wr.marking(), wr.marking() + d.np), w;
            uint32_t t = gen.fired();
            check(t < d.tr.size() && o_enabled(d.tr[t], m) && o_fire(d.tr[t], m, w) && w == s, "a reduced step is a firing of an enabled transition", cat("t", t, " in ", str(m), " to ", str(s)));
            check(fired.insert(t).second, "a reduced step is taken once", cat("t", t, " in ", str(m)));
            if (seen.insert(s).second) todo.push_back(s);
            if (++k > 1000) check(false, "the enumeration ends");
        }
        (void)en;
        first = false;
    }
    for (size_t i = 0; i < preds.size(); ++i) {
        auto has = [&](const M& m) { bool dead = o_dead(d, m); return holds(preds[i], m, dead); };
        bool want = false; M wit; for (auto& m : g.st) if (has(m)) { want = true; wit = m; break; }
        bool got = false; for (auto& m : seenout) if (has(m)) { got = true; break; }
        check(want == got, "a marking satisfying the query is reached by the reduced exploration when it is reachable", cat("query ", s(preds[i]), " holds in ", str(wit), ", reduced exploration saw ", seenout.size(), " of ", g.st.size(), " markings"));
    }
}

static bool bigf(const Fo& f, const Graph& g) { for (auto& m : g.st) { std::function<bool(const Fo&)> b = [&](const Fo& x) { for (auto& e : x.e) if (big_vals(e, m)) return true; for (auto& c : x.c) if (b(c)) return true; return false; }; if (b(f)) return true; } return false; }

int main(int argc, char** argv) {
    init(argc, argv);
    auto run = [](Rng& r, NetD d, const M& m, bool boundary, bool multi, std::function<Fo(Rng&, uint32_t)> gen) {
        auto net = build(d); Graph g;
        if (!explore(d, m, g, 150)) return;
        for (int k = 0; k < 4; ++k) {
            std::vector<Fo> fs; std::vector<Condition_ptr> qs; size_t n = multi ? 2 : 1;
            int how = r.below(3);
            for (size_t i = 0; i < n; ++i) { Fo f = gen(r, d.np); if (bigf(f, g)) return; fs.push_back(f); auto c = mk(f, how); qs.push_back(r.coin(4) ? c : std::make_shared<EFCondition>(c)); }
            bool closure = r.coin();
            begin([&] { std::string x; for (auto& f : fs) x += s(f) + "; "; return cat("EF ", x, "closure=", closure, " initial ", str(m), " in ", d.str()); });
            std::vector<M> seen; reduced(d, *net, m, g, fs, qs, closure, seen);
        }
    };
    random_section("comparisons", 0.3, 3000, [&](Rng& r, uint64_t) {
        NetD d = random_net(r, 5, 6, false); M m = random_marking(r, d, false);
        run(r, d, m, false, false, [](Rng& r, uint32_t np) { Ex a = rex(r, np, r.below(3), false), b = rex(r, np, r.below(2), false); if (r.coin()) std::swap(a, b); Fo f{(FK)(LT + r.below(4)), {}, {a, b}}; if (r.coin(3)) f = Fo{NOT_, {f}}; return f; });
    });
    random_section("predicates", 0.3, 3000, [&](Rng& r, uint64_t) {
        NetD d = random_net(r, 5, 6, false); M m = random_marking(r, d, false);
        run(r, d, m, false, r.coin(5), [](Rng& r, uint32_t np) { return rpred(r, np, 1 + r.below(3), false); });
    });
    random_section("deadlocks and bounds of places", 0.25, 3000, [&](Rng& r, uint64_t) {
        NetD d = random_net(r, 6, 7, false); M m = random_marking(r, d, false);
        run(r, d, m, false, false, [](Rng& r, uint32_t np) { if (r.coin()) return Fo{DL}; Fo f{CONJ}; f.neg = r.coin(3); std::set<uint32_t> ps; size_t n = 1 + r.below(3); for (size_t i = 0; i < n; ++i) ps.insert(r.below(np)); for (auto p : ps) { uint32_t lo = r.coin() ? 0 : r.below(4), hi = r.coin() ? 0xffffffffu : (r.coin(3) ? lo : r.below(5)); f.cons.push_back({p, lo, hi}); } if (r.coin(3)) return Fo{r.coin() ? AND_ : OR_, {f, Fo{DL}}}; return f; });
    });
    // sparse nets and goals taken from markings that are reachable, so that the reduced exploration must find a specific one
    random_section("reachable goals", 0.6, 4000, [&](Rng& r, uint64_t) {
        NetD d; d.np = 3 + r.below(5); uint32_t nt = 2 + r.below(6); bool inh = r.coin();
        for (uint32_t t = 0; t < nt; ++t) { Tr x; x.controllable = true; std::set<uint32_t> in, out; size_t a = 1 + r.below(2), b = r.below(3); for (size_t i = 0; i < a; ++i) in.insert(r.below(d.np)); for (size_t i = 0; i < b; ++i) out.insert(r.below(d.np));
            for (auto p : in) x.pre.push_back({p, r.coin(4) ? 2u + r.below(3) : 1u, false}); for (auto p : out) x.post.push_back({p, r.coin(5) ? 2u : 1u, false});
            if (inh && r.coin(3)) { uint32_t p = r.below(d.np); if (!in.count(p)) x.pre.insert(x.pre.begin() + r.below(x.pre.size() + 1), {p, 1 + r.below(2), true}); }
            if (r.coin(4)) std::reverse(x.pre.begin(), x.pre.end()); d.tr.push_back(x); }
        M m(d.np); for (auto& x : m) x = r.coin() ? 0 : r.coin(3) ? r.below(5) : 1;
        auto net = build(d); Graph g; if (!explore(d, m, g, 150)) return; if (g.st.size() < 3) return;
        for (int k = 0; k < 4; ++k) {
            const M& w = g.st[r.coin() ? g.st.size() - 1 - r.below(std::min<size_t>(4, g.st.size())) : r.below(g.st.size())];
            auto atom = [&](uint32_t p, const M& w) { uint32_t v = w[p]; int h = r.below(4); return Con{p, h == 1 ? 0 : v, h == 0 || h == 3 ? 0xffffffffu : v}; };
            auto conj = [&](const M& w, size_t n) { Fo f{CONJ}; std::set<uint32_t> ps; for (size_t i = 0; i < n; ++i) ps.insert(r.below(d.np)); for (auto p : ps) f.cons.push_back(atom(p, w)); return f; };
            Fo f = conj(w, 1 + r.below(3)); int shape = r.below(5);
            if (shape == 1) { M o(w); for (auto& x : o) x = r.below(4); Fo other = conj(o, 1 + r.below(2)); f = r.coin() ? Fo{OR_, {other, f}} : Fo{OR_, {f, other}}; }
            if (shape == 2) f = Fo{AND_, {f, conj(w, 1)}};
            if (shape == 3) { Fo x = conj(w, 1); x.neg = true; f = Fo{OR_, {Fo{AND_, {f, x}}, conj(w, 2)}}; }
            if (shape == 4) { uint32_t a = r.below(d.np), b = r.below(d.np); Ex A{Ex::PL, a}, B{Ex::PL, b}; int64_t v = (int64_t)w[a] + w[b]; Ex S{Ex::ADD, 0, {A, B}}; Ex L{Ex::LIT, v}; f = Fo{r.coin() ? EQ : LE, {}, {L, S}}; }
            int how = r.below(3); auto c = mk(f, how); std::vector<Condition_ptr> qs{r.coin(4) ? c : std::make_shared<EFCondition>(c)}; bool closure = r.coin(3);
            begin([&] { return cat("EF ", s(f), " closure=", closure, " initial ", str(m), " in ", d.str()); });
            std::vector<M> seen; reduced(d, *net, m, g, {f}, qs, closure, seen);
        }
    });
    random_section("large counts", 0.15, 1000, [&](Rng& r, uint64_t) {
        NetD d = random_net(r, 4, 4, true); M m = random_marking(r, d, true);
        run(r, d, m, true, false, [](Rng& r, uint32_t np) { return rpred(r, np, r.below(3), true); });
    });
    return finish();
}
