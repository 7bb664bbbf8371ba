#include "net_util.h"
#include "utils/errors.h"
#include "PetriEngine/ReducingSuccessorGenerator.h"
#include "PetriEngine/Stubborn/StubbornSet.h"
using namespace PetriEngine;
using namespace vp;

// a stubborn set holding a caller-chosen set of transitions
struct Stub : StubbornSet {
    std::vector<bool> chosen; size_t dummy = 0;
    Stub(const PetriNet& n, std::vector<bool> c) : StubbornSet(n), chosen(std::move(c)) {}
    bool prepare(const Structures::State* s) override {
        reset(); _parent = s; constructEnabled();
        for (size_t i = 0; i < chosen.size(); ++i) _stubborn[i] = chosen[i];
        return true;
    }
};

static void one(NetD d, std::vector<uint32_t> m, Rng* r) {
    auto net = build(d);
    St par(m), wr(m);
    begin([&] { return d.str() + " marking=" + str(m); });
    std::map<uint32_t, std::vector<uint32_t>> want; bool limit = false;
    bool dead = true;
    for (uint32_t t = 0; t < d.tr.size(); ++t) if (o_enabled(d.tr[t], m)) {
        dead = false;
        std::vector<uint32_t> s;
        if (o_fire(d.tr[t], m, s)) want[t] = s; else limit = true;
    }
    check(net->deadlocked(par.marking()) == dead, "deadlocked iff no transition is enabled", dead ? "deadlock missed" : "deadlock reported");
    if (limit) return;   // enumeration aborts with an error; decided by the firing-rule property
    for (int round = 0; round < 2; ++round) {
        SuccessorGenerator g(*net);
        if (round == 1) { // stale position from another state must not matter
            std::vector<uint32_t> z(d.np, 1); St other(z); g.prepare(&other);
            try { while (g.next(wr)) if (r && r->coin(3)) break; } catch (const base_error&) {}
            g.prepare(&par);
        } else {
            g.prepare(par);
            if (r && r->coin()) { // prepared again for the same state in the middle of an enumeration
                size_t k = r->below(4); while (k-- && g.next(wr));
                g.prepare(par);
            }
        }
        std::map<uint32_t, std::vector<uint32_t>> got;
        size_t n = 0;
        while (g.next(wr)) {
            check(++n <= d.tr.size(), "each enabled transition is enumerated once", "enumeration does not end");
            check(got.emplace(g.fired(), wr.get(d.np)).second, "each enabled transition is enumerated once", cat("transition ", g.fired(), " twice"));
            // resuming from the exported position gives the same continuation
            if (r && r->coin(4)) {
                auto [p, t] = g.state();
                SuccessorGenerator h(*net);
                h.prepare(&par, p, t);
                std::vector<uint32_t> mm(d.np); St w2(mm), w3(mm);
                SuccessorGenerator g2 = g;
                while (true) {
                    bool a = g2.next(w2), b = h.next(w3);
                    check(a == b && (!a || (g2.fired() == h.fired() && w2.get(d.np) == w3.get(d.np))), "enumeration resumed from a saved position continues identically");
                    if (!a) break;
                }
            }
        }
        check(got.size() == want.size(), "every enabled transition is enumerated", cat("got ", got.size(), " want ", want.size()));
        for (auto& [t, s] : want) {
            check(got.count(t), "every enabled transition is enumerated", cat("transition ", t, " missing"));
            check(got[t] == s, "enumerated successor is the firing result", cat("transition ", t, " got ", str(got[t]), " want ", str(s)));
        }
        check(!g.next(wr), "enumeration stays finished");
        g.reset(); n = 0; while (g.next(wr)) ++n;
        check(n == want.size(), "reset restarts the enumeration", cat("got ", n));
    }
    // restriction to a set of transitions
    std::vector<bool> c(d.tr.size()); for (size_t i = 0; i < c.size(); ++i) c[i] = r ? r->coin() : true;
    auto stub = std::make_shared<Stub>(*net, c);
    ReducingSuccessorGenerator rg(*net, stub);
    for (int round = 0; round < 2; ++round) {
        rg.prepare(&par);
        size_t en = 0;
        for (uint32_t t = 0; t < d.tr.size(); ++t) { check(stub->enabled()[t] == o_enabled(d.tr[t], m), "enabled set is exact", cat("transition ", t)); en += o_enabled(d.tr[t], m); }
        check(stub->nenabled() == en, "number of enabled transitions", cat("got ", stub->nenabled(), " want ", en));
        std::map<uint32_t, std::vector<uint32_t>> got;
        while (rg.next(wr)) check(got.emplace(rg.fired(), wr.get(d.np)).second, "reduced enumeration: each chosen enabled transition once", cat("transition ", rg.fired()));
        for (uint32_t t = 0; t < d.tr.size(); ++t) {
            bool w = want.count(t) && c[t];
            check(got.count(t) == (w ? 1 : 0), "reduced enumeration: exactly the chosen enabled transitions", cat("transition ", t));
            if (w) check(got[t] == want[t], "reduced enumeration: successor is the firing result", cat("transition ", t));
        }
    }
}

int main(int argc, char** argv) {
    init(argc, argv);
    section_once("exhaustive", [] {
        Rng r(seed);
        // two places, two transitions with every combination of arc kinds of weight 1..2, markings 0..2
        for (unsigned x0 = 0; x0 < 9 * 4; ++x0) for (unsigned x1 = 0; x1 < 9 * 4; ++x1) for (uint32_t a = 0; a < 3; ++a) for (uint32_t b = 0; b < 3; ++b) {
            NetD d; d.np = 2;
            for (unsigned x : {x0, x1}) {
                Tr t; unsigned k0 = x % 3, k1 = x / 3 % 3, o = x / 9;
                if (k0) t.pre.push_back({0, 1, k0 == 2});
                if (k1) t.pre.push_back({1, 1 + (x & 1), k1 == 2});
                if (o & 1) t.post.push_back({0, 1, false});
                if (o & 2) t.post.push_back({1, 1, false});
                d.tr.push_back(t);
            }
            one(d, {a, b}, (x0 ^ x1) % 7 ? nullptr : &r);
        }
    });
    random_section("random nets", 0.9, 2000, [](Rng& r, uint64_t i) {
        NetD d = random_net(r, i % 3 ? 4 : 12, i % 3 ? 6 : 14, i % 4 == 0);
        auto m = random_marking(r, d, i % 4 == 0);
        one(d, m, &r);
    });
    return finish();
}
