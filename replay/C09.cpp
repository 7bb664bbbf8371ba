#include "pql_util.h"
#include "PetriEngine/PQL/Simplifier.h"
#include "PetriEngine/Simplification/LPCache.h"
using namespace PetriEngine;
using namespace PetriEngine::Simplification;
using namespace vp;
typedef std::vector<uint32_t> M;

static std::string s(const std::vector<int64_t>& v) { return str(v); }
static big val(const Member& m, const std::vector<int64_t>& x) { big r = m._constant; for (size_t i = 0; i < m._variables.size(); ++i) r += (big)m._variables[i] * x[i]; return r; }
// the net builder lists arcs in order of their places
static NetD sorted_net(NetD d) { auto by = [](const vp::Arc& a, const vp::Arc& b) { return a.place < b.place; }; for (auto& t : d.tr) { std::sort(t.pre.begin(), t.pre.end(), by); std::sort(t.post.begin(), t.post.end(), by); } return d; }
static bool has_dead(const Fo& f) { if (f.k == DL) return true; for (auto& c : f.c) if (has_dead(c)) return true; return false; }

static void same(NetD& d, PetriNet& net, const Graph& g, const Fo& f, uint32_t qt) {
    for (auto& m : g.st) if (big_vals(f, m)) return;
    auto want = ctl(f, g);
    for (int how = 0; how < 2; ++how) {
        begin([&] { return cat(s(f), how ? " (combined with makeAnd/makeOr)" : "", qt ? "" : " (no time for analysis)", " initial ", str(g.st[0]), " in ", d.str()); });
        LPCache cache;
        SimplificationContext ctx(g.st[0].data(), &net, qt, 10, &cache);
        auto c = mk(f, how);
        auto r = simplify(c, ctx);
        check(r.formula != nullptr, "simplification returns a query");
        Fo got = rd(r.formula.get());
        auto v = ctl(got, g);
        for (size_t i = 0; i < v.size(); ++i) check((bool)v[i] == (bool)want[i], "simplification keeps the truth value in every reachable marking", cat("marking ", str(g.st[i]), " want ", (bool)want[i], " result ", s(got)));
        check(!ctx.negated(), "the negation flag is restored");
    }
}

int main(int argc, char** argv) {
    init(argc, argv);
    random_section("linear forms", 0.1, 3000, [](Rng& r, uint64_t) {
        size_t n = 1 + r.below(4);
        auto co = [&]() -> int64_t { return r.coin(6) ? (int64_t)r.b32() * (r.coin() ? 1 : -1) : r.range(-3, 3); };
        auto mkm = [&]() { std::vector<int64_t> v(r.below(n + 1)); int mode = r.below(4); for (auto& x : v) { x = mode == 0 ? 0 : co(); if (mode == 1 && x < 0) x = -x; if (mode == 2 && x > 0) x = -x; } return Member(std::move(v), co()); };
        Member a = mkm(), b = mkm();
        if (r.coin(5)) { b = a; b._constant = co(); if (r.coin()) b._variables.resize(n, 0); }
        std::vector<int64_t> x(n);
        for (int k = 0; k < 6; ++k) {
            for (auto& y : x) y = r.coin() ? 0 : r.below(1000);
            begin([&] { return cat("(", s(a._variables), "+", a._constant, ") and (", s(b._variables), "+", b._constant, ") at ", s(x)); });
            big va = val(a, x), vb = val(b, x);
            auto cmp = [&](Trivial t, bool w, const char* op) { check(t == Trivial::Indeterminate || (t == Trivial::True) == w, "a comparison decided from the linear forms holds for every number of firings", cat(op, " decided ", (int)t, " but ", w)); };
            cmp(a < b, va < vb, "<"); cmp(a <= b, va <= vb, "<="); cmp(a > b, va > vb, ">"); cmp(a >= b, va >= vb, ">=");
            if (a.substrationIsZero(b)) check(va - a._constant == vb - b._constant, "equal linear parts are equal");
            if (a.isZero()) check(va == a._constant, "a zero linear part is zero");
            if (a == b) check(va - a._constant == vb - b._constant, "equal linear parts are equal");
            check(a.constant() == a._constant, "the constant of a linear form is reported exactly");
            auto fits = [](big z) { return z < ((big)1 << 62) && z > -((big)1 << 62); };
            { Member c = a; c += b; if (c.canAnalyze() && fits(va + vb)) check(val(c, x) == va + vb, "sums of linear forms are exact"); }
            { Member c = a; c -= b; if (c.canAnalyze() && fits(va - vb)) check(val(c, x) == va - vb, "differences of linear forms are exact"); }
            { Member c = a; c *= b; bool small = fits(va * vb) && fits((big)a._constant * b._constant); for (auto v : a._variables) small &= fits((big)v * b._constant); for (auto v : b._variables) small &= fits((big)v * a._constant);
              if (c.canAnalyze() && small) check(val(c, x) == va * vb, "products of linear forms are exact"); }
        }
    });
    random_section("CTL", 0.4, 700, [](Rng& r, uint64_t i) {
        NetD d = sorted_net(random_net(r, 4, 4, false));
        auto net = build(d);
        M m = random_marking(r, d, false); Graph g;
        if (!explore(d, m, g, 40)) return;
        for (int k = 0; k < 6; ++k) same(d, *net, g, rctl(r, d.np, r.below(4)), r.coin(20) ? 0 : 30);
    });
    random_section("state predicates and large constants", 0.2, 500, [](Rng& r, uint64_t i) {
        NetD d = sorted_net(random_net(r, 3, 3, r.coin(3)));
        auto net = build(d);
        M m = random_marking(r, d, r.coin()); Graph g;
        if (!explore(d, m, g, 40)) return;
        for (int k = 0; k < 6; ++k) {
            Fo f = rpred(r, d.np, r.below(3), r.coin());
            if (r.coin(3)) f = Fo{(FK)(EF_ + r.below(4)), {f}};
            if (r.coin(3)) { Fo c{CONJ}; c.neg = r.coin(); for (uint32_t p = 0; p < d.np; ++p) { uint32_t v = r.coin() ? m[p] : r.below(5); c.cons.push_back({p, r.coin() ? 0u : v, r.coin() ? 0xffffffffu : v + (uint32_t)r.below(2)}); } f = r.coin() ? c : Fo{AND_, {c, f}}; }
            same(d, *net, g, f, 30);
        }
    });
    random_section("LTL", 0.15, 300, [](Rng& r, uint64_t) {
        NetD d = sorted_net(random_net(r, 3, 4, false));
        auto net = build(d);
        M m = random_marking(r, d, false); Graph g;
        if (!explore(d, m, g, 40)) return;
        for (int k = 0; k < 6; ++k) {
            // a lasso of the net; a deadlocked marking repeats
            Graph w; std::map<int, size_t> at; int c = 0; size_t loop = 0; M path;
            while (true) { w.st.push_back(g.st[c]); path.push_back(c); if (g.suc[c].empty()) { loop = w.st.size() - 1; break; } at[c] = w.st.size() - 1; int nx = g.suc[c][r.below(g.suc[c].size())]; if (at.count(nx)) { loop = at[nx]; break; } c = nx; }
            vp::BV dead(w.st.size()); for (size_t j = 0; j < dead.size(); ++j) dead[j] = g.suc[path[j]].empty();
            Fo f = rltl(r, d.np, 1 + r.below(3));
            begin([&] { std::string x = cat(vp::s(f), " in ", d.str(), " path"); for (auto& q : w.st) x += str(q); return cat(x, " loop ", loop); });
            auto want = ltl(f, w, loop, dead);
            LPCache cache; SimplificationContext ctx(m.data(), net.get(), 30, 10, &cache);
            Fo got = rd(simplify(mk(f, r.coin()), ctx).formula.get());
            auto v = ltl(got, w, loop, dead);
            for (size_t j = 0; j < v.size(); ++j) check((bool)v[j] == (bool)want[j], "simplification keeps the truth value along every path", cat("position ", j, " want ", (bool)want[j], " result ", vp::s(got)));
        }
    });
    random_section("upper bounds", 0.15, 400, [](Rng& r, uint64_t) {
        NetD d = sorted_net(random_net(r, 4, 4, false));
        auto net = build(d);
        M m = random_marking(r, d, false); Graph g;
        if (!explore(d, m, g, 60)) return;
        for (int k = 0; k < 4; ++k) {
            Fo f{UB}; std::set<uint32_t> ps; size_t n = 1 + r.below(3); for (size_t j = 0; j < n; ++j) ps.insert(r.below(d.np)); f.pl.assign(ps.begin(), ps.end());
            begin([&] { return cat(vp::s(f), " initial ", str(m), " in ", d.str()); });
            uint64_t want = 0; for (auto& q : g.st) { uint64_t t = 0; for (auto p : f.pl) t += q[p]; want = std::max(want, t); }
            LPCache cache; SimplificationContext ctx(m.data(), net.get(), 30, 10, &cache);
            auto res = simplify(mk(f), ctx);
            auto u = dynamic_cast<UnfoldedUpperBoundsCondition*>(res.formula.get());
            check(u, "an upper-bound query stays one");
            uint64_t got = 0; for (auto& q : g.st) { uint64_t t = 0; for (auto& p : u->places()) { t += q[p._place]; check(p._max >= q[p._place], "the bound recorded for a place is never exceeded", cat("place ", p._place, " bound ", p._max, " marking ", str(q))); } check(u->getMax() >= t, "the bound recorded for the query is never exceeded", cat("bound ", u->getMax(), " marking ", str(q))); got = std::max(got, t); }
            check(u->getOffset() + got == want, "simplification keeps the value of an upper-bound query", cat("want ", want, " got ", got, " + ", u->getOffset()));
        }
    });
    return finish();
}
