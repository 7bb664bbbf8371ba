#include "net_util.h"
#include "utils/errors.h"
#include "PetriEngine/Stubborn/StubbornSet.h"
using namespace PetriEngine;
using namespace vp;

struct Gen : SuccessorGenerator { using SuccessorGenerator::SuccessorGenerator; using SuccessorGenerator::_fire; };

static void one(NetD d, std::vector<uint32_t> m) {
    auto net = build(d);
    St par(m), wr(m);
    Gen g(*net);
    g.prepare(&par);
    for (uint32_t t = 0; t < d.tr.size(); ++t) {
        begin([&] { return d.str() + " marking=" + str(m) + " t=" + std::to_string(t); });
        bool en = o_enabled(d.tr[t], m);
        check(g.checkPreset(t) == en, "enabled iff every arc condition holds (successor generation)", en ? "reported disabled" : "reported enabled");
        check(net->fireable(par.marking(), t) == en, "enabled iff every arc condition holds (fireability)", en ? "reported disabled" : "reported enabled");
        auto [a, b] = net->preset(t);
        check((size_t)(b - a) == d.tr[t].pre.size(), "preset lists the input arcs");
        for (size_t i = 0; i < d.tr[t].pre.size(); ++i) check(a[i].place == d.tr[t].pre[i].place && a[i].tokens == d.tr[t].pre[i].w && a[i].inhibitor == d.tr[t].pre[i].inh, "preset lists the input arcs");
        auto [x, y] = net->postset(t);
        check((size_t)(y - x) == d.tr[t].post.size(), "postset lists the output arcs");
        for (size_t i = 0; i < d.tr[t].post.size(); ++i) check(x[i].place == d.tr[t].post[i].place && x[i].tokens == d.tr[t].post[i].w, "postset lists the output arcs");
        for (uint32_t p = 0; p < d.np; ++p) {
            uint32_t wi = 0, wo = 0;
            for (auto& q : d.tr[t].pre) if (q.place == p && !q.inh) wi = q.w;
            for (auto& q : d.tr[t].post) if (q.place == p) wo = q.w;
            check(net->inArc(p, t) == wi, "input weight lookup", cat("place ", p, " got ", net->inArc(p, t), " want ", wi));
            check(net->outArc(t, p) == wo, "output weight lookup", cat("place ", p, " got ", net->outArc(t, p), " want ", wo));
        }
        if (!en) continue;
        std::vector<uint32_t> want;
        bool fits = o_fire(d.tr[t], m, want);
        bool threw = false;
        std::fill(wr.marking(), wr.marking() + d.np, 0xABCDu);
        wr.marking()[d.np] = 0x5a5a5a5a;
        try { g._fire(wr, t); } catch (const base_error&) { threw = true; }
        check(threw == !fits, "firing fails exactly when a place would reach the token limit", threw ? "threw" : "did not throw");
        check(par.get(d.np) == m, "firing leaves the source marking unchanged", str(par.get(d.np)));
        if (!threw) {
            check(wr.get(d.np) == want, "successor = marking - consumed + produced", cat("got ", str(wr.get(d.np)), " want ", str(want)));
            check(wr.marking()[d.np] == 0x5a5a5a5a, "nothing written outside the marking");
            check(g.fired() == t, "reported transition is the fired one", cat("got ", g.fired()));
            // the two halves separately
            std::copy(m.begin(), m.end(), wr.marking());
            g.consumePreset(wr, t);
            auto c = m; for (auto& q : d.tr[t].pre) if (!q.inh) c[q.place] -= q.w;
            check(wr.get(d.np) == c, "consumption removes exactly the input weights", cat("got ", str(wr.get(d.np)), " want ", str(c)));
            g.producePostset(wr, t);
            check(wr.get(d.np) == want, "production adds exactly the output weights", cat("got ", str(wr.get(d.np)), " want ", str(want)));
        }
    }
}

int main(int argc, char** argv) {
    init(argc, argv);
    // exhaustive: one place / two places, one transition, all small weights, kinds and boundary markings
    section_once("exhaustive", [] {
        std::vector<uint32_t> ws{1, 2, 0x7fffffffu, 0x80000000u, 0xfffffffdu, 0xfffffffeu, 0xffffffffu}, ms{0, 1, 2, 3, 0x7ffffffeu, 0x7fffffffu, 0x80000000u, 0xfffffffcu, 0xfffffffdu, 0xfffffffeu};
        for (int k = 0; k < 3; ++k) for (auto w : ws) for (int o = 0; o < 2; ++o) for (auto v : ws) for (auto m : ms) {
            NetD d; d.np = 1; Tr t;
            if (k) t.pre.push_back({0, w, k == 2});
            if (o) t.post.push_back({0, v, false});
            d.tr.push_back(t);
            one(d, {m});
            if (!k && !o) break;
        }
        for (unsigned mask = 0; mask < 36 * 9; ++mask) for (uint32_t a = 0; a < 4; ++a) for (uint32_t b = 0; b < 4; ++b) {
            unsigned x = mask; NetD d; d.np = 2; Tr t;
            unsigned k0 = x % 3; x /= 3; unsigned k1 = x % 3; x /= 3; unsigned o0 = x % 2; x /= 2; unsigned o1 = x % 2; x /= 2; unsigned w0 = 1 + x % 3; x /= 3; unsigned w1 = 1 + x % 3;
            if (k0) t.pre.push_back({0, w0, k0 == 2});
            if (k1) t.pre.push_back({1, w1, k1 == 2});
            if (o0) t.post.push_back({0, w1, false});
            if (o1) t.post.push_back({1, w0, false});
            d.tr.push_back(t);
            one(d, {a, b});
        }
    });
    random_section("random nets", 0.9, 2000, [](Rng& r, uint64_t i) {
        NetD d = random_net(r, i % 3 ? 4 : 12, i % 3 ? 5 : 12);
        auto m = random_marking(r, d);
        one(d, m);
    });
    return finish();
}
