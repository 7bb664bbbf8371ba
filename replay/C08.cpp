#include "common.h"
#include "PetriEngine/Colored/Intervals.h"
#include "PetriEngine/Colored/IntervalGenerator.h"
#include "PetriEngine/Colored/GuardRestrictor.h"
#include "PetriEngine/Colored/RestrictVisitor.h"
#include "PetriEngine/Colored/Expressions.h"
using namespace PetriEngine; using namespace PetriEngine::Colored; using namespace vp;
typedef std::vector<uint32_t> T;          // a colour tuple
typedef std::set<T> Set;
static const uint32_t W = 5;              // components range over 0..W-1 unless stated
static void all(uint32_t d, const std::vector<uint32_t>& w, const std::function<void(const T&)>& f) { T t(d, 0); while (true) { f(t); uint32_t i = 0; while (i < d && ++t[i] == w[i]) t[i++] = 0; if (i == d) return; } }
static bool in(const interval_t& b, const T& t) { if (b.size() != t.size()) return false; for (size_t i = 0; i < t.size(); ++i) if (t[i] < b._ranges[i]._lower || t[i] > b._ranges[i]._upper) return false; return true; }
static bool in(const interval_vector_t& v, const T& t) { for (auto& b : v) if (in(b, t)) return true; return false; }
static bool inv(const std::vector<interval_t>& v, const T& t) { for (auto& b : v) if (in(b, t)) return true; return false; }
static interval_t rint(Rng& r, uint32_t d, const std::vector<uint32_t>& w, bool sound) { interval_t b; for (uint32_t i = 0; i < d; ++i) { uint32_t x = r.below(w[i]), y = r.below(w[i]); if (sound || !r.coin(6)) { if (x > y) std::swap(x, y); } b.addRange(x, y); } return b; }
static std::string s(const interval_t& b) { std::string o; for (auto& x : b._ranges) o += cat(o.empty() ? "" : "x", "[", x._lower, "..", x._upper, "]"); return o.empty() ? "()" : o; }
template<class V> static std::string sv(const V& v) { std::string o = "{"; for (auto& b : v) o += s(b) + " "; return o + "}"; }
static interval_vector_t rvec(Rng& r, uint32_t d, const std::vector<uint32_t>& w, bool sound) { std::vector<interval_t> v; for (uint32_t n = r.below(5); n; --n) v.push_back(rint(r, d, w, sound)); return interval_vector_t(v); }
static interval_t hull(const interval_vector_t& v, const interval_t* more) { interval_t h; bool f = true; auto add = [&](const interval_t& b) { if (!b.isSound()) return; if (f) { h = b; f = false; } else for (size_t i = 0; i < b.size(); ++i) { h._ranges[i]._lower = std::min(h._ranges[i]._lower, b._ranges[i]._lower); h._ranges[i]._upper = std::max(h._ranges[i]._upper, b._ranges[i]._upper); } }; for (auto& b : v) add(b); if (more) add(*more); return f ? interval_t(std::vector<Reachability::range_t>{}) : h; }
static int M(int64_t a, int64_t n) { return (int)(((a % n) + n) % n); }

int main(int argc, char** argv) {
    init(argc, argv);
    random_section("single intervals", 0.2, 4000, [](Rng& r, uint64_t) {
        uint32_t d = r.below(4); std::vector<uint32_t> w(d); for (auto& x : w) x = 1 + r.below(W);
        interval_t a = rint(r, d, w, true), b = rint(r, d, w, true); std::vector<bool> dg(d); for (uint32_t i = 0; i < d; ++i) dg[i] = r.coin(4);
        if (r.coin(4)) b = a;
        begin([&] { return cat(s(a), " and ", s(b), " diagonal ", str(dg)); });
        bool inter = false, sub = true, eq = true; uint64_t cnt = 0;
        interval_t ov = a.getOverlap(b), ovd = a.getOverlap(b, dg), un = a; un |= b; auto pieces = a.getSubtracted(b, dg), whole = a.getSubtracted(b, std::vector<bool>(d, false));
        interval_t bd = b; for (uint32_t i = 0; i < d; ++i) if (dg[i]) bd._ranges[i] = Reachability::range_t(0, 1000);
        interval_t ad = a; for (uint32_t i = 0; i < d; ++i) if (dg[i]) ad._ranges[i] = Reachability::range_t(0, 1000);
        bool subd = true;
        all(d, w, [&](const T& t) {
            bool x = in(a, t), y = in(b, t); inter |= x && y; sub &= !y || x; eq &= x == y; cnt += x; subd &= !y || in(ad, t);
            check(in(ov, t) == (x && y), "the overlap holds exactly the common colours", str(t));
            check(in(ovd, t) == (x && in(bd, t)), "the overlap holds exactly the common colours", str(t) + " (diagonal)");
            bool h = true; for (uint32_t i = 0; i < d; ++i) h &= t[i] >= std::min(a[i]._lower, b[i]._lower) && t[i] <= std::max(a[i]._upper, b[i]._upper);
            check(in(un, t) == h, "uniting two intervals gives their hull", str(t));
            size_t k = 0; for (auto& p : pieces) k += in(p, t); check(k == (x && !in(bd, t) ? 1u : 0u), "subtracting leaves exactly the other colours, once each", cat(str(t), " in ", sv(pieces)));
            k = 0; for (auto& p : whole) k += in(p, t); check(k == (x && !y ? 1u : 0u), "subtracting leaves exactly the other colours, once each", cat(str(t), " in ", sv(whole), " no diagonal"));
        });
        check(a.intersects(b) == inter && ov.isSound() == inter, "two intervals intersect exactly when they share a colour"); check(a.contains(b, std::vector<bool>(d, false)) == sub, "containment is inclusion of colours"); check(a.contains(b, dg) == subd, "containment ignores the diagonal positions only");
        check(a.equals(b) == eq, "equality is equality of colours"); check(a.getContainedColors() == cnt, "the number of colours is counted");
        { interval_t e = a; e.addRange(0, 1); check(!e.equals(a) && !a.equals(e) && !e.contains(a, std::vector<bool>(d + 1, false)) && e.getOverlap(a).size() == 0, "intervals of different dimension are unrelated"); }
        auto ids = a.getLowerIds(); auto can = a.getCanonicalInterval(); check(ids.size() == d && can.size() == d, "lower ends"); for (uint32_t i = 0; i < d; ++i) check(ids[i] == a[i]._lower && can[i]._lower == a[i]._lower && can[i]._upper == a[i]._lower, "lower ends");
        { interval_t u = rint(r, d, w, false); bool ok = true; for (auto& x : u._ranges) ok &= x._lower <= x._upper; check(u.isSound() == ok, "an interval is sound when no range is empty", s(u)); }
    });
    random_section("interval vectors", 0.3, 4000, [](Rng& r, uint64_t) {
        uint32_t d = 1 + r.below(3); std::vector<uint32_t> w(d); for (auto& x : w) x = 1 + r.below(d == 1 ? 12 : W);
        interval_vector_t v = rvec(r, d, w, r.coin()), sv0 = rvec(r, d, w, true); interval_t b = rint(r, d, w, true); uint32_t k = r.below(4); T val(d); for (uint32_t i = 0; i < d; ++i) val[i] = r.below(w[i] + 1); bool strict = r.coin(); std::vector<bool> nd(d, false);
        begin([&] { return cat(sv(v), " / ", sv(sv0), " with ", s(b), " k=", k, " values ", str(val), strict ? " strict" : ""); });
        interval_vector_t add = sv0, simp = v, res = v, comb = v, lo = sv0, up = sv0, app = v; add.addInterval(b); simp.simplify(); res.restrict(k); comb.combineNeighbours(); lo.constrainLower(val, strict); up.constrainUpper(val, strict); app.append(sv0);
        interval_t h = hull(v, nullptr), hb = hull(sv0, &b), h0 = hull(sv0, nullptr);
        bool disj = true; for (auto& x : sv0) disj &= !x.intersects(b); bool valid = false; for (auto& x : v) valid |= x.isSound(); uint32_t cnt = 0; for (auto& x : sv0) cnt += x.getContainedColors();
        all(d, w, [&](const T& t) {
            bool x = in(v, t), y = in(sv0, t);
            check(in(add, t) || !(y || in(b, t)), "adding an interval loses no colour", cat(str(t), " in ", sv(add))); check(!in(add, t) || in(hb, t), "adding an interval stays within the hull", str(t)); if (disj) check(in(add, t) == (y || in(b, t)), "adding a disjoint interval is exact", cat(str(t), " in ", sv(add)));
            check(in(simp, t) || !x, "simplifying loses no colour", cat(str(t), " in ", sv(simp))); check(!in(simp, t) || in(h, t), "simplifying stays within the hull", str(t));
            check(in(res, t) || !x, "restricting the number of intervals loses no colour", cat(str(t), " in ", sv(res))); check(!in(res, t) || in(h, t), "restricting stays within the hull", str(t));
            check(in(comb, t) || !x, "combining neighbours loses no colour", cat(str(t), " in ", sv(comb))); check(!in(comb, t) || in(h, t), "combining stays within the hull", str(t));
            bool l = true, u = true; for (uint32_t i = 0; i < d; ++i) { l &= strict ? t[i] > val[i] : t[i] >= val[i]; u &= strict ? t[i] < val[i] : t[i] <= val[i]; }
            check(in(lo, t) || !(y && l), "a lower bound keeps every colour above it", cat(str(t), " in ", sv(lo))); check(!in(lo, t) || (l && in(h0, t)), "a lower bound removes every colour below it", cat(str(t), " in ", sv(lo)));
            check(in(up, t) || !(y && u), "an upper bound keeps every colour below it", cat(str(t), " in ", sv(up))); check(!in(up, t) || (u && in(h0, t)), "an upper bound removes every colour above it", cat(str(t), " in ", sv(up)));
            check(in(app, t) == (x || y), "appending unites", str(t));
        });
        if (k) check(res.size() <= std::max<size_t>(k, 0), "at most k intervals remain", sv(res));
        for (auto& x : simp) check(x.isSound(), "simplifying leaves sound intervals"); for (auto& x : comb) check(x.isSound(), "combining leaves sound intervals");
        check(v.hasValidIntervals() == valid, "valid intervals are recognised"); check(sv0.getContainedColors() == cnt, "colours are counted");
        bool c = false; for (auto& x : sv0) { bool s1 = true; for (uint32_t i = 0; i < d; ++i) s1 &= x[i]._lower <= b[i]._lower && x[i]._upper >= b[i]._upper; c |= s1; } check(sv0.contains(b, nd) == c, "containment in one of the intervals");
        auto low = sv0.getLowerIds(); check(low.size() == (sv0.empty() ? 0 : d), "lowest ids"); for (uint32_t i = 0; i < low.size(); ++i) { uint32_t m = ~0u; for (auto& x : sv0) m = std::min(m, x[i]._lower); check(low[i] == m, "lowest ids", str(low)); }
    });
    random_section("cyclic shifts", 0.2, 4000, [](Rng& r, uint64_t i) {
        uint32_t d = 1 + r.below(3); std::vector<uint32_t> w(d); for (auto& x : w) x = 1 + r.below(6);
        interval_vector_t v = rvec(r, d, w, true); uint32_t mn = *std::min_element(w.begin(), w.end()); int32_t m = (int32_t)r.range(-12, 12); (void)mn;
        begin([&] { return cat(sv(v), " shifted by ", m, " in sizes ", str(w)); });
        std::vector<size_t> sizes(w.begin(), w.end()); std::vector<ColorType> cts(d); std::vector<const ColorType*> cp; for (uint32_t k = 0; k < d; ++k) { for (uint32_t c = 0; c < w[k]; ++c) cts[k].addColor(cat("c", c).c_str()); cp.push_back(&cts[k]); }
        interval_vector_t a = v, c = v; a.applyModifier(m, sizes); interval_vector_t g = GuardRestrictor::shiftIntervals(cp, c, m, 0);
        Set want; all(d, w, [&](const T& t) { if (in(v, t)) { T u(d); for (uint32_t k = 0; k < d; ++k) u[k] = M((int64_t)t[k] + m, w[k]); want.insert(u); } });
        all(d, w, [&](const T& t) { check(in(a, t) == (want.count(t) > 0), "a cyclic shift moves exactly the colours", cat(str(t), " in ", sv(a))); check(in(g, t) || !want.count(t), "a cyclic shift loses no colour", cat(str(t), " in ", sv(g))); });
        if (v.size()) { auto one = IntervalGenerator::getIntervalsFromInterval(v[0], 0, m, cp); Set w1; all(d, w, [&](const T& t) { if (in(v[0], t)) { T u(d); for (uint32_t k = 0; k < d; ++k) u[k] = M((int64_t)t[k] + m, w[k]); w1.insert(u); } }); all(d, w, [&](const T& t) { check(inv(one, t) == (w1.count(t) > 0), "the values of a variable under a shifted arc expression are exact", cat(str(t), " in ", sv(one))); }); 
            uint32_t pos = r.below(d), len = 1 + r.below(d - pos); std::vector<const ColorType*> cp2(cp.begin() + pos, cp.begin() + pos + len); std::vector<uint32_t> w2(w.begin() + pos, w.begin() + pos + len); auto part = IntervalGenerator::getIntervalsFromInterval(v[0], pos, m, cp2);
            all(len, w2, [&](const T& t) { bool e = true; for (uint32_t k = 0; k < len; ++k) { uint32_t o = M((int64_t)t[k] - m, w2[k]); e &= o >= v[0][pos + k]._lower && o <= v[0][pos + k]._upper; } check(inv(part, t) == e, "the values of a variable under a shifted arc expression are exact", cat(str(t), " at ", pos)); }); }
    });
    random_section("guard restriction", 0.3, 3000, [](Rng& r, uint64_t) {
        uint32_t n = 1 + r.below(6); ColorType ct("c"); for (uint32_t c = 0; c < n; ++c) ct.addColor(cat("c", c).c_str());
        Variable vs[2] = {{"x", &ct}, {"y", &ct}}; struct Term { int var; int c; int m; };
        auto term = [&](int v) { Term t; t.var = v; t.c = r.below(n); t.m = (int)(r.coin() ? 0 : r.range(-4, 4)); return t; };
        struct Cmp { Term l, r; int op; }; std::vector<Cmp> cs; std::string txt; int conn = 0;
        auto build = [&](Term t) { ColorExpression_ptr e; if (t.var >= 0) e = std::make_shared<VariableExpression>(&vs[t.var]); else e = std::make_shared<UserOperatorExpression>(&ct[(size_t)t.c]); for (int k = 0; k < std::abs(t.m); ++k) if (t.m > 0) e = std::make_shared<SuccessorExpression>(std::move(e)); else e = std::make_shared<PredecessorExpression>(std::move(e)); return e; };
        auto ts = [&](Term t) { return cat(t.var >= 0 ? vs[t.var].name : cat("c", t.c), t.m > 0 ? "+" : "", t.m ? std::to_string(t.m) : ""); };
        uint32_t nc = 1 + (r.coin(3) ? r.below(2) : 0); conn = r.below(2);
        for (uint32_t k = 0; k < nc; ++k) { Cmp c; int sh = r.below(3); c.l = term(sh == 1 ? -1 : (int)r.below(2)); c.r = term(sh == 2 ? -1 : sh == 0 ? 1 - c.l.var : (int)r.below(2)); c.op = r.below(4); if (c.op >= 2) { } cs.push_back(c); txt += cat(k ? (conn ? " or " : " and ") : "", ts(c.l), std::vector<const char*>{"=", "!=", "<", "<="}[c.op], ts(c.r)); }
        std::vector<VariableIntervalMap> maps; for (uint32_t k = 1 + r.below(2); k; --k) { VariableIntervalMap m; for (auto& v : vs) { interval_vector_t iv; for (uint32_t q = 1 + r.below(2); q; --q) iv.addInterval(rint(r, 1, {n}, true)); m[&v] = iv; } maps.push_back(m); }
        begin([&] { std::string o; for (auto& m : maps) o += cat("x in ", sv(m.at(&vs[0])), " y in ", sv(m.at(&vs[1])), "; "); return cat("guard ", txt, " over ", n, " colours, ", o); });
        auto mk = [&](Cmp c) -> GuardExpression_ptr { auto a = build(c.l), b = build(c.r); switch (c.op) { case 0: return std::make_shared<EqualityExpression>(std::move(a), std::move(b)); case 1: return std::make_shared<InequalityExpression>(std::move(a), std::move(b)); case 2: return std::make_shared<LessThanExpression>(std::move(a), std::move(b)); default: return std::make_shared<LessThanEqExpression>(std::move(a), std::move(b)); } };
        GuardExpression_ptr g = mk(cs[0]); if (nc == 2) { auto h = mk(cs[1]); if (conn) g = std::make_shared<OrExpression>(std::move(g), std::move(h)); else g = std::make_shared<AndExpression>(std::move(g), std::move(h)); }
        auto after = maps; RestrictVisitor::restrict(*g, after);
        for (uint32_t x = 0; x < n; ++x) for (uint32_t y = 0; y < n; ++y) {
            auto val = [&](Term t) { return M((t.var < 0 ? t.c : t.var == 0 ? (int)x : (int)y) + t.m, n); };
            auto one = [&](Cmp c) { int a = val(c.l), b = val(c.r); return c.op == 0 ? a == b : c.op == 1 ? a != b : c.op == 2 ? a < b : a <= b; };
            bool sat = one(cs[0]); if (nc == 2) sat = conn ? sat || one(cs[1]) : sat && one(cs[1]);
            auto has = [&](std::vector<VariableIntervalMap>& ms) { for (auto& m : ms) if (in(m.at(&vs[0]), T{x}) && in(m.at(&vs[1]), T{y})) return true; return false; };
            if (sat && has(maps)) { std::string o; for (auto& m : after) o += cat("x in ", sv(m.at(&vs[0])), " y in ", sv(m.at(&vs[1])), "; "); check(has(after), "restricting variables by a guard keeps every binding that satisfies it", cat("x=", x, " y=", y, " after ", o)); }
        }
    });
    return finish();
}
