#include "net_util.h"
#include "PetriEngine/Structures/AlignedEncoder.h"
#include "PetriEngine/Structures/StateSet.h"
#include "utils/errors.h"
using namespace PetriEngine;
using namespace vp;
typedef std::vector<uint32_t> M;

static std::string show(const M& m) { if (m.size() <= 24) return str(m); std::string s = cat("places=", m.size(), " marked:"); int n = 0; for (size_t i = 0; i < m.size() && n < 40; ++i) if (m[i]) { s += cat(" ", i, ":", m[i]); ++n; } return s; }

struct Stats { uint32_t sum = 0, val = 0, active = 0; bool same = true; };
static Stats stats(const M& m) { Stats s; for (auto x : m) if (x) { s.sum += x; ++s.active; if (s.val && x != s.val) s.same = false; s.val = std::max(s.val, x); } return s; }

// encode, check the length, decode again; returns the encoding
static std::string rt(AlignedEncoder& e, const M& m, unsigned char type, bool mustfit = true) {
    begin([&] { return cat("type=", (int)type, " marking=", show(m)); });
    std::fill(e.scratchpad().raw(), e.scratchpad().raw() + e.scratchpad().size(), 0xA5);
    M src = m;
    size_t len = e.encode(src.data(), type);
    check(src == m, "encoding leaves the marking untouched");
    check(len >= 1 && len <= e.scratchpad().size(), "the encoding fits the scratch buffer", cat("length ", len));
    std::string enc((const char*)e.scratchpad().raw(), len);
    check(e.size(e.scratchpad().raw()) == len, "the stored size is the encoded length", cat("encode ", len, " size ", e.size(e.scratchpad().raw())));
    // decode from a buffer of exactly that size into a dirty target
    std::unique_ptr<unsigned char[]> buf(new unsigned char[len + 8]);
    memset(buf.get(), 0xff, len + 8);
    memcpy(buf.get(), enc.data(), len);
    M got(m.size() + 1, 0xdeadbeef);
    e.decode(got.data(), buf.get());
    check(got.back() == 0xdeadbeef, "decoding writes only the places");
    got.pop_back();
    check(got == m, "decode(encode(m)) = m", cat("decoded ", show(got)));
    return enc;
}

static void one(AlignedEncoder& e, const M& m, std::map<std::string, M>* all = nullptr) {
    auto s = stats(m);
    unsigned char type = e.getType(s.sum, s.active, s.same, s.val);
    auto enc = rt(e, m, type);
    auto again = rt(e, m, type);
    check(enc == again, "the encoding of a marking is unique");
    if (all) { auto r = all->emplace(enc, m); check(r.second || r.first->second == m, "different markings have different encodings", cat("same as ", show(r.first->second))); }
}

static M rmark(Rng& r, size_t np) {
    M m(np, 0);
    int mode = r.below(7);
    uint32_t v = std::vector<uint32_t>{1, 2, 3, 4, 119, 120, 121, 255, 256, 65535, 65536, 0xfffffffeu, 240, 241}[r.below(14)];
    unsigned dens = std::vector<unsigned>{1, 2, 4, 8, 16, 64, 1000}[r.below(7)];
    for (auto& x : m) {
        if (!r.coin(dens)) continue;
        switch (mode) { case 0: x = v; break; case 1: x = 1 + r.below(3); break; case 2: x = r.below(v) + 1; break; case 3: x = r.b32(); break;
            case 4: x = 1 + r.below(255); break; case 5: x = 250 + r.below(12); break; default: x = 65530 + r.below(12); }
        if (x == 0xffffffffu) x = 0xfffffffeu;
    }
    if (r.coin(6)) m[np - 1] = v;
    if (r.coin(6)) m[0] = v;
    return m;
}

template<class SS> static void stateset(const char* nm, Rng& r, bool trace) {
    NetD d; d.np = std::vector<uint32_t>{1, 2, 3, 7, 8, 9, 16, 17, 255, 256, 300, 900}[r.below(12)];
    auto net = build(d);
    SS ss(*net, 0);
    std::map<M, size_t> ids; std::vector<M> seq;
    size_t n = d.np > 100 ? 12 : 60;
    for (size_t i = 0; i < n; ++i) {
        M m = seq.size() && r.coin(3) ? seq[r.below(seq.size())] : rmark(r, d.np);
        if (seq.size() && r.coin(3)) { m = seq[r.below(seq.size())]; auto& x = m[r.below(d.np)]; x = r.coin() ? 0 : r.coin() ? x + 1 : 1; if (x == 0xffffffffu) x = 0; }
        begin([&] { return cat(nm, " step ", i, " marking ", show(m)); });
        St s(m);
        auto lk = ss.lookup(s);
        bool there = ids.count(m);
        check(lk.first == there, "lookup finds a marking exactly when it was added", lk.first ? "found" : "not found");
        if (there) check(lk.second == ids[m], "a marking keeps its identifier");
        auto res = ss.add(s);
        check(res.first == !there, "a marking is new exactly when it was not added before", res.first ? "reported new" : "reported known");
        check(s.get(d.np) == m, "adding leaves the marking untouched");
        if (there) check(res.second == ids[m], "a marking keeps its identifier");
        else { for (auto& [mm, id] : ids) check(id != res.second, "different markings have different identifiers", show(mm)); ids[m] = res.second; seq.push_back(m); }
        check(ss.size() == ids.size(), "size counts the distinct markings");
        // decode everything so far
        for (size_t j = 0; j < seq.size(); j += 1 + (d.np > 100 ? 5 : 0)) {
            St t(M(d.np, 77));
            ss.decode(t, ids[seq[j]]);
            check(t.get(d.np) == seq[j], "decoding an identifier gives the marking that was added", cat("id ", ids[seq[j]], " want ", show(seq[j]), " got ", show(t.get(d.np))));
        }
    }
    for (uint32_t p = 0; p < d.np; ++p) { uint32_t mx = 0; for (auto& m : seq) mx = std::max(mx, m[p]); check(ss.maxPlaceBound()[p] == mx, "reported place bound is the maximum over the stored markings", cat("place ", p)); }
}

int main(int argc, char** argv) {
    init(argc, argv);
    section_once("bit access", [] {
        for (unsigned n : {1u, 7u, 8u, 9u, 64u, 65u, 128u, 1000u}) {
            begin([&] { return cat("bits=", n); });
            binarywrapper_t w(n);
            check(w.size() == (n + 7) / 8, "size in bytes");
            w.zero();
            std::vector<bool> ref(n);
            Rng r(n);
            for (int i = 0; i < 2000; ++i) { unsigned p = r.below(n); bool v = r.coin(); w.set(p, v); ref[p] = v; if (i % 50 == 0) for (unsigned q = 0; q < n; ++q) check(w.at(q) == ref[q], "set writes exactly one bit", cat("bit ", q)); }
            binarywrapper_t x(w, 0);
            check(x == w && !(x != w) && !(x < w), "copies compare equal");
            unsigned p = r.below(n); x.set(p, !ref[p]);
            check(x != w && (x < w) != (w < x), "different contents compare different");
            x.release(); w.release();
        }
    });
    section_once("exhaustive small markings", [] {
        for (size_t np = 1; np <= 4; ++np) {
            AlignedEncoder e(np, 0); std::map<std::string, M> all;
            std::vector<uint32_t> vals = np <= 3 ? std::vector<uint32_t>{0, 1, 2, 3, 4, 119, 120, 121, 240, 255, 256, 65535, 65536, 0xfffffffeu} : std::vector<uint32_t>{0, 1, 2, 3, 4, 121, 255, 256, 65536};
            size_t tot = 1; for (size_t i = 0; i < np; ++i) tot *= vals.size();
            for (size_t c = 0; c < tot; ++c) { M m(np); size_t x = c; for (auto& y : m) { y = vals[x % vals.size()]; x /= vals.size(); } one(e, m, &all); }
        }
    });
    section_once("forced encodings", [] {
        // every type, at every index width, for markings it can represent
        for (size_t np : {1u, 2u, 7u, 8u, 9u, 31u, 32u, 33u, 254u, 255u, 256u, 257u, 1000u, 65535u, 65536u, 65537u, 700000u}) {
            AlignedEncoder e(np, 0);
            Rng r(np);
            for (int type = 0; type <= 250; ++type) {
                if (np > 1000 && type % 40 > 1 && type < 240) continue;
                if (np > 100000 && type % 40 != 1 && type < 240) continue;
                for (int k = 0; k < (np > 1000 ? 2 : 3); ++k) {
                    M m(np, 0);
                    bool sparse = (type > 120 && type <= 240) || (type >= 245 && type <= 250);
                    unsigned dens = !sparse ? 2 : np > 8 ? 8 : np;
                    auto val = [&]() -> uint32_t {
                        if (type <= 120) return type; if (type <= 240) return type - 120; if (type == 241) return r.below(4);
                        int w = (type - 242) % 3; return w == 0 ? 1 + r.below(255) : w == 1 ? 1 + r.below(65535) : 1 + r.below(0xfffffffeull); };
                    size_t cnt = 0;
                    // sparse layouts fit the scratch buffer only when they are not larger than the direct one
                    for (auto& x : m) if (r.coin(dens)) { if (sparse && cnt * 8 > np * 4) break; x = val(); ++cnt; }
                    if (k == 1 && np < 1000) { std::fill(m.begin(), m.end(), 0); m[np - 1] = val(); }
                    if (k == 2) { std::fill(m.begin(), m.end(), 0); m[0] = val(); }
                    if (type == 0) std::fill(m.begin(), m.end(), 0);
                    rt(e, m, type);
                }
            }
        }
    });
    random_section("random markings", 0.35, 500, [](Rng& r, uint64_t i) {
        size_t np = std::vector<size_t>{1, 2, 3, 5, 8, 9, 16, 30, 64, 100, 254, 255, 256, 257, 300, 1000, 1024}[r.below(17)];
        if (i % 97 == 0) np = std::vector<size_t>{65535, 65536, 65537, 66000}[r.below(4)];
        AlignedEncoder e(np, 0);
        std::map<std::string, M> all;
        for (int k = 0; k < (np > 60000 ? 2 : 8); ++k) one(e, rmark(r, np), &all);
    });
    random_section("state set", 0.3, 60, [](Rng& r, uint64_t) { stateset<Structures::StateSet>("StateSet", r, false); });
    random_section("annotated state set", 0.15, 30, [](Rng& r, uint64_t) { stateset<Structures::AnnotatedStateSet<uint32_t>>("AnnotatedStateSet", r, false); });
    random_section("traces", 0.1, 30, [](Rng& r, uint64_t) {
        NetD d; d.np = 1 + r.below(9); auto net = build(d);
        Structures::TracableStateSet ss(*net, 0);
        std::map<size_t, std::pair<size_t, size_t>> h; std::vector<size_t> ids; St w(M(d.np, 0));
        for (int i = 0; i < 60; ++i) {
            M m = rmark(r, d.np); St s(m);
            begin([&] { return cat("trace step ", i, " marking ", show(m)); });
            if (ids.size()) { size_t p = ids[r.below(ids.size())]; ss.decode(w, p);
                auto x = ss.add(s); if (x.first) { size_t t = r.below(1000); ss.setHistory(x.second, t); h[x.second] = {p, t}; ids.push_back(x.second); } }
            else { auto x = ss.add(s); if (x.first) { ids.push_back(x.second); } }
            for (auto& [a, b] : h) check(ss.getHistory(a) == b, "recorded history is returned unchanged", cat("id ", a));
        }
    });
    return finish();
}
