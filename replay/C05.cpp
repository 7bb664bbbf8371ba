#include "pql_util.h"
using namespace PetriEngine;
using namespace vp;
typedef std::vector<uint32_t> M;
static void clear(Condition* c) {
    c->setSatisfied(Condition::RUNKNOWN);
    if (auto l = dynamic_cast<LogicalCondition*>(c)) for (auto& x : *l) clear(x.get());
    if (auto n = dynamic_cast<NotCondition*>(c)) clear(n->getCond().get());
    if (auto n = dynamic_cast<SimpleQuantifierCondition*>(c)) clear(n->getCond().get());
    if (auto n = dynamic_cast<UntilCondition*>(c)) { clear(n->getCond1().get()); clear(n->getCond2().get()); }
    if (auto n = dynamic_cast<CompareCondition*>(c)) { (*n)[0]->setEval(-77); (*n)[1]->setEval(-77); }
}
// every recorded answer is right; a predicate node reached by the evaluation has an answer
static void recorded(Condition* c, const M& m, bool dead, bool must) {
    Fo f = rd(c);
    if (!predicate(f)) return;
    bool want = holds(f, m, dead);
    auto got = c->getSatisfied();
    check(!must || got != Condition::RUNKNOWN, "an evaluated condition has its answer recorded", s(f));
    check(got == Condition::RUNKNOWN || (got == Condition::RTRUE) == want, "the recorded answer of a condition is its truth value", cat(s(f), " recorded ", (int)got, " want ", want));
    if (got != Condition::RUNKNOWN) {
        check(c->isSatisfied() == want, "the recorded answer of a condition is its truth value", s(f));
        if (auto n = dynamic_cast<CompareCondition*>(c)) for (int i = 0; i < 2; ++i) {
            big v = ev(f.e[i], m); if (v >= -2147483648ll && v <= 2147483647ll) check((*n)[i]->getEval() == (int)v, "the recorded value of an expression is its value", cat(s(f.e[i]), " recorded ", (*n)[i]->getEval(), " want ", (int64_t)v)); }
        if (auto l = dynamic_cast<LogicalCondition*>(c)) {
            bool conj = dynamic_cast<AndCondition*>(c); bool decided = false;
            for (auto& x : *l) { recorded(x.get(), m, dead, !decided && (want == conj)); if (x->getSatisfied() == (conj ? Condition::RFALSE : Condition::RTRUE)) decided = true; }
            check(want == conj || decided, "a short-cut answer is backed by a recorded operand", s(f));
        }
        if (auto n = dynamic_cast<NotCondition*>(c)) recorded(n->getCond().get(), m, dead, true);
    }
}
int main(int argc, char** argv) {
    init(argc, argv);
    auto one = [](Rng& r, uint64_t i, bool temporal) {
        NetD d = random_net(r, 4, 3, i % 2 && !temporal); auto net = build(d);
        M m = random_marking(r, d, i % 2 && !temporal); Graph g;
        if (temporal && !explore(d, m, g, 50)) return;
        for (int k = 0; k < 8; ++k) {
            Fo f = temporal ? rctl(r, d.np, 1 + r.below(4)) : rpred(r, d.np, 1 + r.below(4), r.coin(3));
            if (big_vals(f, m)) continue;
            begin([&] { return cat(s(f), " marking ", str(m), " in ", d.str()); });
            auto c = mk(f, r.coin());
            clear(c.get());
            EvaluationContext ctx(m.data(), net.get());
            auto a = PQL::evaluateAndSet(c.get(), ctx);
            auto b = PQL::evaluate(c.get(), ctx);
            bool dead = o_dead(d, m);
            if (!temporal) { check(a == b, "evaluating with recording gives the same answer", cat("recording ", (int)a, " plain ", (int)b)); check(a == (holds(f, m, dead) ? Condition::RTRUE : Condition::RFALSE), "the answer is the truth value in the marking"); recorded(c.get(), m, dead, true); }
            else { auto v = ctl(f, g); check(a == Condition::RUNKNOWN || (a == Condition::RTRUE) == (bool)v[0], "a definite answer about a temporal formula is right", cat("got ", (int)a, " want ", (int)v[0]));
                auto sat = c->getSatisfied(); check(sat == Condition::RUNKNOWN || (sat == Condition::RTRUE) == (bool)v[0], "the recorded answer of a condition is its truth value", cat("recorded ", (int)sat, " want ", (int)v[0])); }
            // again in another marking: nothing stale
            M m2 = random_marking(r, d, false); if (big_vals(f, m2) || temporal) continue;
            EvaluationContext c2(m2.data(), net.get());
            begin([&] { return cat("second evaluation of ", s(f), " marking ", str(m2), " after ", str(m), " in ", d.str()); });
            auto a2 = PQL::evaluateAndSet(c.get(), c2);
            check(a2 == (holds(f, m2, o_dead(d, m2)) ? Condition::RTRUE : Condition::RFALSE), "the answer is the truth value in the marking");
            check(c->isSatisfied() == (a2 == Condition::RTRUE), "the recorded answer of a condition is its truth value");
        }
    };
    random_section("predicates", 0.7, 1500, [&](Rng& r, uint64_t i) { one(r, i, false); });
    random_section("temporal", 0.3, 500, [&](Rng& r, uint64_t i) { one(r, i, true); });
    return finish();
}
