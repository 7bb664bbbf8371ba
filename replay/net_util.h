// plain description of a P/T net and its construction as the engine's PetriNet (compiled with -fno-access-control)
#pragma once
#include "common.h"
#include "PetriEngine/PetriNet.h"
#include "PetriEngine/Structures/State.h"
#include "PetriEngine/SuccessorGenerator.h"
#include <memory>

namespace vp {
    struct Arc { uint32_t place, w; bool inh; };
    struct Tr { std::vector<Arc> pre, post; bool controllable = true; };
    struct NetD {
        uint32_t np = 0;
        std::vector<Tr> tr;
        std::string str() const {
            std::ostringstream s;
            s << "places=" << np;
            for (size_t t = 0; t < tr.size(); ++t) {
                s << " t" << t << ":{";
                for (auto& a : tr[t].pre) s << (a.inh ? "-o" : "-") << "p" << a.place << "*" << a.w << " ";
                s << "->";
                for (auto& a : tr[t].post) s << " p" << a.place << "*" << a.w;
                s << "}";
            }
            return s.str();
        }
    };

    inline std::unique_ptr<PetriEngine::PetriNet> build(NetD& d) {
        using namespace PetriEngine;
        // file every transition under a place holding a non-inhibitor input arc (place 0 when there is none)
        std::vector<std::vector<Tr>> buckets(d.np);
        for (auto& t : d.tr) {
            uint32_t b = 0;
            for (auto& a : t.pre) if (!a.inh) { b = a.place; break; }
            buckets[b].push_back(t);
        }
        d.tr.clear();
        size_t narc = 0;
        for (auto& b : buckets) for (auto& t : b) { d.tr.push_back(t); narc += t.pre.size() + t.post.size(); }
        std::unique_ptr<PetriNet> n(new PetriNet(d.tr.size(), narc, d.np));
        uint32_t ti = 0, ai = 0;
        for (uint32_t p = 0; p < d.np; ++p) {
            n->_placeToPtrs[p] = ti;
            for (auto& t : buckets[p]) {
                n->_transitions[ti].inputs = ai;
                auto bal = [&](uint32_t q) { int64_t x = 0; for (auto& a : t.pre) if (!a.inh && a.place == q) x -= a.w; for (auto& a : t.post) if (a.place == q) x += a.w; return (int8_t)(x < 0 ? -1 : x > 0 ? 1 : 0); };
                for (auto& a : t.pre) n->_invariants[ai++] = Invariant{a.place, a.w, a.inh, (int8_t)(a.inh ? 0 : bal(a.place))};
                n->_transitions[ti].outputs = ai;
                for (auto& a : t.post) n->_invariants[ai++] = Invariant{a.place, a.w, false, bal(a.place)};
                n->_controllable[ti] = t.controllable;
                ++ti;
            }
        }
        for (uint32_t p = 0; p < d.np; ++p) { n->_initialMarking[p] = 0; n->_placenames.push_back(std::make_shared<const_string>("p" + std::to_string(p))); n->_placelocations.emplace_back(0, 0); }
        for (uint32_t t = 0; t < d.tr.size(); ++t) { n->_transitionnames.push_back(std::make_shared<const_string>("t" + std::to_string(t))); n->_transitionlocations.emplace_back(0, 0); }
        return n;
    }

    inline NetD random_net(Rng& r, uint32_t maxp = 5, uint32_t maxt = 6, bool boundary = true) {
        NetD d;
        d.np = 1 + r.below(maxp);
        uint32_t nt = r.below(maxt + 1);
        auto w = [&](bool zero) -> uint32_t { uint32_t x = !boundary || r.below(4) ? 1 + r.below(3) : r.b32(); if (!zero && !x) x = 1; return x; };
        for (uint32_t t = 0; t < nt; ++t) {
            Tr tr;
            tr.controllable = r.coin();
            for (uint32_t p = 0; p < d.np; ++p) {
                if (r.coin(3)) tr.pre.push_back({p, w(false), r.coin(4)});
                if (r.coin(3)) tr.post.push_back({p, w(false), false});
            }
            if (r.coin()) std::reverse(tr.pre.begin(), tr.pre.end());
            if (r.coin()) std::reverse(tr.post.begin(), tr.post.end());
            d.tr.push_back(tr);
        }
        return d;
    }

    inline std::vector<uint32_t> random_marking(Rng& r, const NetD& d, bool boundary = true) {
        std::vector<uint32_t> m(d.np);
        for (auto& x : m) {
            x = r.below(5);
            if (boundary && r.coin(5)) x = r.b32();
            if (r.coin(3) && !d.tr.empty()) {  // near a guard
                auto& t = d.tr[r.below(d.tr.size())];
                if (!t.pre.empty()) { x = t.pre[r.below(t.pre.size())].w + (uint32_t)r.range(-1, 1); }
            }
            if (x == 0xffffffffu) x = 0xfffffffeu;
        }
        return m;
    }

    // ---- oracle -----------------------------------------------------------------------------------
    inline bool o_enabled(const Tr& t, const std::vector<uint32_t>& m) {
        for (auto& a : t.pre) if (a.inh ? !(m[a.place] < a.w) : !(m[a.place] >= a.w)) return false;
        return true;
    }
    // false: token limit exceeded
    inline bool o_fire(const Tr& t, const std::vector<uint32_t>& m, std::vector<uint32_t>& out) {
        std::vector<uint64_t> x(m.begin(), m.end());
        for (auto& a : t.pre) if (!a.inh) x[a.place] -= a.w;
        for (auto& a : t.post) { x[a.place] += a.w; if (x[a.place] >= 0xffffffffull) return false; }
        out.assign(x.begin(), x.end());
        return true;
    }
    struct St : PetriEngine::Structures::State {
        explicit St(const std::vector<uint32_t>& m) : State(new uint32_t[m.size() + 1]) { std::copy(m.begin(), m.end(), marking()); }
        std::vector<uint32_t> get(size_t n) const { return std::vector<uint32_t>(marking(), marking() + n); }
    };
}
