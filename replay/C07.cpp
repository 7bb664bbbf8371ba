#include "pql_util.h"
#include "PetriEngine/TAR/range.h"
#include "PetriEngine/TAR/RangeContext.h"
#include "PetriEngine/TAR/TARAutomata.h"
#include "PetriEngine/TAR/TraceSet.h"
#include "PetriEngine/TAR/Solver.h"
using namespace PetriEngine;
using namespace PetriEngine::Reachability;
using namespace vp;
typedef std::vector<uint32_t> M;
typedef std::map<uint32_t, std::pair<uint32_t, uint32_t>> Box;      // place -> [lo,up]; absent: unrestricted
static const uint32_t INF = 0xffffffffu;
static std::string bs(const Box& b) { std::string o = "{"; for (auto& [p, r] : b) o += cat("p", p, " in [", r.first, ",", r.second, "] "); return o + "}"; }
static Box rd(const prvector_t& v) {
    Box b; int64_t last = -1;
    for (auto& e : v._ranges) { check((int64_t)e._place > last, "the ranges are sorted by place, one per place", "place " + std::to_string(e._place)); last = e._place; b[e._place] = {e._range._lower, e._range._upper}; }
    return b;
}
static std::pair<uint32_t, uint32_t> at(const Box& b, uint32_t p) { auto i = b.find(p); return i == b.end() ? std::make_pair(0u, INF) : i->second; }
static bool in(const Box& b, const M& m) { for (auto& [p, r] : b) if (m[p] < r.first || m[p] > r.second) return false; return true; }
static prvector_t vec(const Box& b, Rng& r) { prvector_t v; std::vector<std::pair<uint32_t, std::pair<uint32_t, uint32_t>>> xs(b.begin(), b.end()); for (size_t i = xs.size(); i > 1; --i) std::swap(xs[i - 1], xs[r.below(i)]); for (auto& x : xs) { auto& e = v.find_or_add(x.first); e._range._lower = x.second.first; e._range._upper = x.second.second; } return v; }
static uint32_t val(Rng& r) { return r.coin(3) ? r.b32() : (uint32_t)r.below(6); }
static Box rbox(Rng& r, uint32_t np, bool compact) {
    Box b; for (uint32_t p = 0; p < np; ++p) if (r.coin()) { uint32_t x = r.coin(3) ? 0 : val(r), y = r.coin(3) ? INF : val(r); if (x > y) std::swap(x, y); if (compact && x == 0 && y == INF) continue; b[p] = {x, y}; } return b;
}
static bool sup(const Box& a, const Box& b) { for (auto& [p, r] : a) { auto o = at(b, p); if (o.first < r.first || o.second > r.second) return false; } return true; }
static void member(prvector_t& v, const Box& b, uint32_t np, const char* obl) {
    Box g = rd(v);
    for (uint32_t p = 0; p < np; ++p) check(at(g, p) == at(b, p), obl, cat("got ", bs(g), " want ", bs(b)));
}
static M point(Rng& r, const Box& b, uint32_t np, const M& base) {
    M m(np);
    for (uint32_t p = 0; p < np; ++p) { auto x = at(b, p); uint64_t w = (uint64_t)x.second - x.first; switch (r.below(6)) { case 0: m[p] = x.first; break; case 1: m[p] = x.second == INF ? x.first + r.below(std::min<uint64_t>(w, 9) + 1) : x.second; break; case 2: m[p] = base[p] >= x.first && base[p] <= x.second ? base[p] : x.first; break; default: m[p] = x.first + (uint32_t)r.below(std::min<uint64_t>(w, 7) + 1); } }
    return m;
}
int main(int argc, char** argv) {
    init(argc, argv);
    random_section("range operations", 0.1, 20000, [](Rng& r, uint64_t) {
        uint32_t a = val(r), b = val(r), c = val(r), d = val(r), x = val(r); if (a > b) std::swap(a, b); if (c > d) std::swap(c, d);
        range_t p(a, b), q(c, d);
        begin([=] { return cat("[", a, ",", b, "] and [", c, ",", d, "] value ", x); });
        check(p.contains(x) == (a <= x && x <= b), "contains"); check(p.unbound() == (a == 0 && b == INF) && p.no_lower() == (a == 0) && p.no_upper() == (b == INF), "unbound");
        auto cm = p.compare(q); check(cm.first == (a <= c && b >= d) && cm.second == (a >= c && b <= d), "comparing ranges decides inclusion both ways");
        check(p.intersects(q) == (std::max(a, c) <= std::min(b, d)), "intersects");
        range_t i = p; i &= q; check(i.contains(x) == (p.contains(x) && q.contains(x)), "intersection of ranges");
        range_t u = p; u |= q; check(u._lower == std::min(a, c) && u._upper == std::max(b, d), "hull of ranges");
        range_t v = p; v |= x; check(v._lower == std::min(a, x) && v._upper == std::max(b, x), "hull with a value"); v = p; v &= x; check(v._lower == x && v._upper == x, "restriction to a value");
        uint32_t k = (uint32_t)r.below(9);
        if (b == INF || b >= k) { range_t s = p; s -= k; check(s._lower == (a < k ? 0 : a - k) && s._upper == (b == INF ? INF : b - k), "weakest range before producing tokens", cat("- ", k)); }
        if (a == 0 || (uint64_t)a + k < INF) { range_t s = p; s += k; check(s._lower == (a == 0 ? 0 : a + k) && s._upper == ((uint64_t)b + k >= INF ? INF : b + k), "range before consuming tokens", cat("+ ", k)); }
    });
    random_section("range vectors", 0.25, 8000, [](Rng& r, uint64_t) {
        uint32_t np = 1 + r.below(5); Box a = rbox(r, np, true), b = rbox(r, np, true);
        if (r.coin()) { b = a; for (auto& [p, x] : b) { if (r.coin(3) && x.first > 0) --x.first; if (r.coin(3) && x.second < INF) ++x.second; if (r.coin(4) && x.first < x.second) ++x.first; } for (auto it = b.begin(); it != b.end();) if (r.coin(5) || (it->second.first == 0 && it->second.second == INF)) it = b.erase(it); else ++it; }
        begin([&] { return cat(bs(a), " and ", bs(b)); });
        prvector_t va = vec(a, r), vb = vec(b, r);
        member(va, a, np, "a range added for a place is found again"); member(vb, b, np, "a range added for a place is found again");
        for (uint32_t p = 0; p <= np; ++p) { const prvector_t& cv = va; auto x = at(a, p); check(cv.lower(p) == x.first && cv.upper(p) == x.second && cv.unbound(p) == (x.first == 0 && x.second == INF) && (cv[p] != nullptr) == (bool)a.count(p) && (va[p] != nullptr) == (bool)a.count(p), "lookup returns the range of the place", cat("p", p)); }
        auto c = va.compare(vb); check(c.first == sup(a, b), "comparing predicates decides whether the first contains the second"); check(c.second == sup(b, a), "comparing predicates decides whether the second contains the first");
        check((va == vb) == (sup(a, b) && sup(b, a)), "equality of predicates"); check(!(va < vb && vb < va) && (va < vb || vb < va || (sup(a, b) && sup(b, a))) && !(va < va), "the order on predicates is total on distinct ones");
        { Box w = rbox(r, np, true); prvector_t vw = vec(w, r); check(!(va < vb && vb < vw) || va < vw, "the order on predicates is transitive", bs(w)); }
        { prvector_t v = va; uint32_t p = r.below(np); uint32_t lo = val(r), up = val(r); if (lo > up) std::swap(lo, up); v &= placerange_t(p, lo, up); Box w = a; auto x = at(a, p); w[p] = {std::max(x.first, lo), std::min(x.second, up)}; member(v, w, np, "restricting a predicate to a range of one place intersects that place only"); }
        { prvector_t v = va; v &= vb; Box w = a; for (auto& [p, x] : b) { auto y = at(a, p); w[p] = {std::max(x.first, y.first), std::min(x.second, y.second)}; } member(v, w, np, "intersecting two predicates intersects every place"); check(v._ranges.size() == w.size(), "one range per place after intersecting two predicates"); }
        { Box w = rbox(r, np, false); prvector_t v = vec(w, r); prvector_t v2; v2.copy(v); v.compact(); member(v, w, np, "compacting keeps the predicate"); check(v.is_compact(), "compacting removes unrestricted places"); member(v2, w, np, "copying keeps the predicate"); check(v2.is_compact(), "compacting removes unrestricted places"); prvector_t v3 = vec(w, r); v3.compress(); member(v3, w, np, "compacting keeps the predicate"); check(v3.is_compact(), "compacting removes unrestricted places");
          std::vector<int64_t> ws; bool want = false; for (uint32_t p = 0; p < np + 1; ++p) if (r.coin(3)) { ws.push_back(p); auto x = at(w, p); if (x.first != 0 || x.second != INF) want = true; } prvector_t v4 = vec(w, r); check(v4.restricts(ws) == want, "restricts decides whether a written place is restricted", cat(str(ws), " in ", bs(w))); }
        check(va.is_true() == a.empty(), "the unrestricted predicate is recognised"); bool z = a.size() == np; for (auto& [p, x] : a) if (x != std::make_pair(0u, 0u)) z = false; check(va.is_false(np) == z, "the false marker is recognised");
    });
    random_section("query refutation", 0.3, 4000, [](Rng& r, uint64_t i) {
        NetD d = random_net(r, 4, 3, false); for (auto& t : d.tr) { t.pre.erase(std::remove_if(t.pre.begin(), t.pre.end(), [](auto& a) { return a.inh; }), t.pre.end()); }
        auto net = build(d); M m = random_marking(r, d, false);
        Fo f = rpred(r, d.np, 1 + r.below(4), false);
        if (big_vals(f, m)) return;
        negstat_t st; auto c0 = mk(f, r.coin()); auto c = r.coin(4) ? c0 : ([&] { EvaluationContext none(nullptr, nullptr); return pushNegation(c0, st, none, false, false, false); })();
        Fo g = vp::rd(c.get()); std::function<bool(const Fo&)> hasnot = [&](const Fo& x) { if (x.k == NOT_ || x.k == TT || x.k == FF) return true; for (auto& y : x.c) if (hasnot(y)) return true; return false; };
        std::function<bool(const Fo&)> neglit = [&](const Fo& x) { if (x.k == LT || x.k == LE) for (int j = 0; j < 2; ++j) if (x.e[j].k == Ex::PL && ev(x.e[1 - j], m) < 0) return true; for (auto& y : x.c) if (neglit(y)) return true; return false; };
        if (hasnot(g) || neglit(g)) return;
        std::vector<uint64_t> uses(d.np); for (auto& u : uses) u = 1 + r.below(3);
        std::vector<bool> dirty(d.np); if (r.coin(4)) for (size_t p = 0; p < d.np; ++p) dirty[p] = r.coin(4);
        begin([&] { return cat("query ", s(g), " refuted in marking ", str(m), " dirty ", str(dirty), " uses ", str(uses), " net ", d.str()); });
        EvaluationContext ctx(m.data(), net.get());
        if (PQL::evaluateAndSet(c.get(), ctx) != Condition::RFALSE) return;
        prvector_t v; RangeContext rc(v, m.data(), *net, uses.data(), m.data(), dirty);
        Visitor::visit(rc, c);
        if (rc.is_dirty()) return;
        Box b = ::rd(v);
        for (auto& [p, x] : b) check(!dirty[p] || (x.first == 0 && x.second == INF), "a predicate restricts no place marked unusable", bs(b));
        check(in(b, m), "the refutation contains the refuted marking", bs(b));
        for (int k = 0; k < 25; ++k) { M x = point(r, b, d.np, m); if (big_vals(g, x)) continue; check(!holds(g, x, o_dead(d, x)), "no marking in the refutation satisfies the query", cat(bs(b), " contains ", str(x))); }
    });
    // every edge of the predicate automaton is a valid Hoare triple
    random_section("predicate automaton", 0.2, 1500, [](Rng& r, uint64_t) {
        NetD d = random_net(r, 4, 4, false); for (auto& t : d.tr) t.pre.erase(std::remove_if(t.pre.begin(), t.pre.end(), [](auto& a) { return a.inh; }), t.pre.end());
        auto net = build(d); M m = random_marking(r, d, false); for (uint32_t p = 0; p < d.np; ++p) net->_initialMarking[p] = m[p];
        TraceSet ts(*net); std::vector<Box> bx;
        auto check_states = [&] {
            for (size_t i = 1; i < ts._states.size(); ++i) {
                auto& S = ts._states[i]; Box b = ::rd(S.interpolant);
                check(ts._initial.count(i) == (size_t)in(b, m), "exactly the predicates holding initially are initial", bs(b));
                for (size_t j = 1; j < ts._states.size(); ++j) { if (i == j) continue; Box o = ::rd(ts._states[j].interpolant); bool sm = std::count(S.simulates.begin(), S.simulates.end(), j), w = sup(o, b);
                    check(sm == w, "a predicate implies exactly the listed weaker ones", cat(bs(b), " vs ", bs(o))); bool sr = std::count(S.simulators.begin(), S.simulators.end(), j); check(sr == sup(b, o), "a predicate lists exactly the stronger ones", cat(bs(b), " vs ", bs(o))); }
                for (auto& e : S.get_edges()) { if (!e.edge) continue; auto& t = d.tr[e.edge - 1];
                    for (auto to : e.to) for (int k = 0; k < 12; ++k) { M x = point(r, b, d.np, m), y; for (auto& a : t.pre) if (r.coin()) { auto q = at(b, a.place); if (x[a.place] < a.w && a.w <= q.second) x[a.place] = a.w; } bool en = o_enabled(t, x); if (!en) continue; if (!o_fire(t, x, y)) continue;
                        check(to != 0, "an edge to the false predicate is an edge of a disabled transition", cat(bs(b), " t", e.edge - 1, " enabled in ", str(x))); check(in(::rd(ts._states[to].interpolant), y), "firing leads from the predicate into the target predicate", cat(bs(b), " t", e.edge - 1, " from ", str(x), " to ", bs(::rd(ts._states[to].interpolant)))); } }
            } };
        std::string log;
        begin([&] { return cat("initial ", str(m), " predicates ", log, " net ", d.str()); });
        for (int k = 0; k < 5; ++k) { Box b = rbox(r, d.np, false); log += bs(b); prvector_t v = vec(b, r); auto res = ts.stateForPredicate(v); Box g = ::rd(ts._states[res.second].interpolant); bool z = res.second == 0; if (!z) check(sup(g, b) && sup(b, g), "the state of a predicate carries that predicate"); }
        check_states();
    });
    // interpolants computed for a spurious trace are inductive: what is added to the automaton are valid triples
    random_section("trace refutation", 0.15, 1000, [](Rng& r, uint64_t) {
        NetD d = random_net(r, 4, 4, false); if (d.tr.empty()) return; for (auto& t : d.tr) { t.pre.erase(std::remove_if(t.pre.begin(), t.pre.end(), [](auto& a) { return a.inh; }), t.pre.end()); }
        auto net = build(d); M m = random_marking(r, d, false);
        uint32_t np = d.np; std::vector<bool> inq(np, true);
        Condition_ptr q = std::make_shared<DeadlockCondition>();
        Solver sol(*net, m.data(), q.get(), inq);
        size_t len = 1 + r.below(4); trace_t tr; std::vector<size_t> ts; for (size_t i = 0; i < len; ++i) { state_t s; s.set_edge(1 + r.below(d.tr.size())); ts.push_back(s.get_edge_cnt() - 1); tr.push_back(s); }
        Box last = rbox(r, np, true); for (auto it = last.begin(); it != last.end();) if (it->second.first > 1000000) it = last.erase(it); else ++it;
        begin([&] { return cat("trace ", str(ts), " then ", bs(last), " net ", d.str()); });
        Solver::interpolant_t ranges(len + 1); ranges[len].first = vec(last, r); ranges[len].second = 0;
        if (!sol.computeHoare(tr, ranges, (int64_t)len - 1)) return;
        for (size_t i = 0; i < len; ++i) { Box b = ::rd(ranges[i].first), o = ::rd(ranges[i + 1].first); check(ranges[i].second == ts[i] + 1, "the refutation follows the trace");
            for (int k = 0; k < 12; ++k) { M x = point(r, b, np, m), y; auto& t = d.tr[ts[i]]; for (auto& a : t.pre) { auto q2 = at(b, a.place); if (x[a.place] < a.w && a.w <= q2.second && r.coin()) x[a.place] = a.w; } if (!in(b, x) || !o_enabled(t, x) || !o_fire(t, x, y)) continue; check(in(o, y), "firing leads from the computed predicate into the next one", cat(bs(b), " t", ts[i], " from ", str(x), " into ", bs(o))); } }
    });
    return finish();
}
