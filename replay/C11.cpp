#include "common.h"
#include "PetriEngine/ExplicitColored/SequenceMultiSet.h"
#include "utils/structures/binarywrapper.h"
using ptrie::uchar;
#include "PetriEngine/ExplicitColored/ColoredEncoder.h"
using namespace PetriEngine; using namespace PetriEngine::ExplicitColored; using namespace vp;
typedef std::map<uint32_t, int64_t> M;    // a multiset: colour -> number of tokens, no zero entries
static const int64_t MAX = std::numeric_limits<int32_t>::max();
static int64_t at(const M& m, uint32_t c) { auto i = m.find(c); return i == m.end() ? 0 : i->second; }
static int64_t sum(const M& m) { int64_t s = 0; for (auto& [c, n] : m) s += n; return s; }
static void norm(M& m) { for (auto i = m.begin(); i != m.end();) if (i->second == 0) i = m.erase(i); else ++i; }
static std::string s(const M& m) { std::string o = "{"; for (auto& [c, n] : m) o += cat(o.size() > 1 ? "," : "", c, ":", n); return o + "}"; }
static std::string raw(const SequenceMultiSet& m) { std::string o = "<"; for (auto& [c, n] : m.counts()) o += cat(o.size() > 1 ? "," : "", c, ":", n); return cat(o, "> of ", m.totalCount()); }
static void same(const SequenceMultiSet& r, const M& m, uint32_t ncol, const char* what) {
    for (size_t i = 1; i < r.counts().size(); ++i) check(r.counts()[i - 1].first < r.counts()[i].first, "each colour is kept once, in order", cat(what, ": ", raw(r), ", expected ", s(m)));
    for (uint32_t c = 0; c < ncol; ++c) check((int64_t)r.getCount(ColorSequence{(uint64_t)c}) == at(m, c), "every colour has the count the operations gave it", cat(what, ", colour ", c, ": ", raw(r), ", expected ", s(m)));
    for (auto& [c, n] : r.counts()) check(n == at(m, c), "every colour has the count the operations gave it", cat(what, ", colour ", c, ": ", raw(r), ", expected ", s(m)));
    check((int64_t)r.totalCount() == sum(m), "the total is the sum of the counts", cat(what, ": ", raw(r), ", expected ", s(m)));
    int64_t hi = 0; for (auto& [c, n] : m) hi = std::max(hi, n);
    check((int64_t)r.getHighestCount() == hi, "the highest count is the largest one", cat(what, ": ", raw(r), " says ", r.getHighestCount()));
}
static int32_t cnt(Rng& r, int mode) { if (mode == 0) return r.below(4); if (r.coin(3)) return (int32_t)r.range(0, 3); switch (r.below(4)) { case 0: return (int32_t)(MAX - r.below(3)); case 1: return (int32_t)(MAX / 2 + r.range(-2, 2)); case 2: return (int32_t)r.range(1000, 100000); default: return (int32_t)(r.u64() & MAX); } }

int main(int argc, char** argv) {
    init(argc, argv);
    random_section("multiset operations", 0.35, 6000, [](Rng& r, uint64_t) {
        uint32_t ncol = 1 + r.below(6); int mode = r.below(3); SequenceMultiSet a[2]; M m[2]; std::vector<std::string> log;
        begin([&] { std::string o; for (auto& l : log) o += l + "; "; return o; });
        for (int step = 1 + r.below(9); step; --step) {
            int i = r.below(2), j = r.coin(6) ? i : 1 - i; uint32_t c = r.below(ncol); M e = m[i]; SequenceMultiSet old = a[i]; bool threw = false; const char* what = ""; bool ge = true;
            SequenceMultiSet& A = a[i]; const SequenceMultiSet B = a[j];
            for (uint32_t x = 0; x < ncol; ++x) ge &= at(m[i], x) >= at(m[j], x);
            try { switch (r.below(9)) {
                case 0: { int32_t n = cnt(r, mode); log.push_back(cat("set ", i, "[", c, "]=", n)); what = "setCount"; e[c] = n; A.setCount(ColorSequence{(uint64_t)c}, n); break; }
                case 1: case 2: { int32_t n = cnt(r, mode); if (r.coin(4)) n = -(int32_t)r.below(at(m[i], c) + 1); log.push_back(cat("add ", i, "[", c, "]+=", n)); what = "addCount"; e[c] += n; A.addCount(ColorSequence{(uint64_t)c}, n); break; }
                case 3: case 4: log.push_back(cat(i, "+=", j)); what = "+="; for (auto& [x, n] : m[j]) e[x] += n; A += B; break;
                case 5: log.push_back(cat(i, "-=", j, " floored")); what = "-= then fixNegative"; for (auto& [x, n] : m[j]) e[x] = std::max<int64_t>(0, at(e, x) - n); A -= B; A.fixNegative(); break;
                case 6: { uint32_t k = mode == 0 || r.coin() ? r.below(4) : r.coin(3) ? (uint32_t)r.u64() : 1 + r.below(40000); log.push_back(cat(i, "*=", k)); what = "*="; for (auto& [x, n] : e) n *= k; A *= k; break; }
                case 7: log.push_back(cat("shrink ", i)); what = "shrink"; A.shrink(); for (auto& [x, n] : A.counts()) check(n > 0, "shrinking keeps only the colours with tokens", raw(A)); break;
                default: { log.push_back(cat("compare ", i, " ", j)); what = "comparison";
                    check((A == B) == (m[i] == m[j]), "two multisets are equal exactly if they hold the same tokens", cat(raw(A), " == ", raw(B), " gives ", A == B));
                    check((A >= B) == ge, "inclusion holds exactly if every colour has enough tokens", cat(raw(A), " >= ", raw(B), " gives ", A >= B));
                    check((B <= A) == ge, "inclusion holds exactly if every colour has enough tokens", cat(raw(B), " <= ", raw(A), " gives ", B <= A)); }
            } } catch (const explicit_error&) { threw = true; }
            norm(e); bool over = false; for (auto& [x, n] : e) over |= n > MAX; over |= sum(e) > MAX;
            if (threw) { check(over, "an operation is refused only if the tokens do not fit", cat(what, ", from ", s(m[i]), " to ", s(e))); return; }
            check(!over, "an operation whose tokens do not fit is refused", cat(what, ", from ", s(m[i]), " to ", s(e), ": ", raw(A)));
            m[i] = e; same(A, m[i], ncol, what); if (i != j) same(a[j], m[j], ncol, what);
        }
    });
    random_section("comparing with a bound that has gone negative", 0.1, 3000, [](Rng& r, uint64_t) {
        // the lower bounds of input arcs with a subtraction may hold negative counts; they demand nothing of those colours
        uint32_t ncol = 1 + r.below(4); SequenceMultiSet a, b; M x, y; bool le = true;
        for (uint32_t c = 0; c < ncol; ++c) { if (!r.coin(3)) { x[c] = (int64_t)r.below(5) - 2; a.addCount(c, x[c]); } if (!r.coin(3)) { y[c] = r.below(3); b.addCount(c, y[c]); } le &= at(x, c) <= at(y, c); }
        begin([&] { return cat(s(x), " against ", s(y)); });
        check((a <= b) == le, "a colour that is not asked for does not matter", cat(raw(a), " <= ", raw(b), " gives ", a <= b));
        check((b >= a) == le, "a colour that is not asked for does not matter", cat(raw(b), " >= ", raw(a), " gives ", b >= a));
        SequenceMultiSet f = a; f.fixNegative(); M z; for (auto& [c, n] : x) z[c] = std::max<int64_t>(0, n); norm(z); same(f, z, ncol, "fixNegative");
    });
    random_section("differences that have gone negative", 0.1, 3000, [](Rng& r, uint64_t) {
        // bounds and intermediate results hold negative counts; later additions must not lose them
        uint32_t ncol = 1 + r.below(5); SequenceMultiSet a; M x; auto rnd = [&](SequenceMultiSet& b, M& y) { for (uint32_t c = 0; c < ncol; ++c) if (r.coin()) { y[c] = r.below(4); b.addCount(ColorSequence{(uint64_t)c}, y[c]); } };
        rnd(a, x); std::string log = s(x); begin([&] { return log; });
        for (int k = 1 + r.below(5); k; --k) { SequenceMultiSet b; M y; rnd(b, y); bool sub = r.coin(); log += cat(sub ? " -= " : " += ", s(y)); if (sub) { bool none = a.counts().empty(); a -= b; if (none && a.counts().empty()) continue; /* nothing there to remove */ } else a += b; for (auto& [c, n] : y) x[c] += sub ? -n : n;
            for (uint32_t c = 0; c < ncol; ++c) { int64_t got = 0; for (auto& [q, n] : a.counts()) if (q == c) got += n; check(got == at(x, c), "the count of every colour is the sum or difference of the two counts", cat("colour ", c, ": ", raw(a))); }
            check((int64_t)(MarkingCount_t)a.totalCount() == (int64_t)(MarkingCount_t)sum(x), "the stored total is the sum of the counts", cat(raw(a), " total ", a.totalCount())); }
    });
    random_section("product colours", 0.15, 3000, [](Rng& r, uint64_t) {
        std::vector<uint32_t> sizes; uint64_t total = 1; for (uint32_t n = 1 + r.below(5); n; --n) { uint32_t w = r.coin(4) ? 1 + r.below(300) : 1 + r.below(6); if (total * w > 0xffffffffull) break; sizes.push_back(w); total *= w; }
        IntegerPackCodec<uint64_t, Color_t> codec(sizes); std::set<uint64_t> ids;
        auto one = [&](std::vector<uint32_t> t) {
            begin([&] { return cat(str(t), " in ", str(sizes)); });
            ColorSequence q(t, sizes), q2(t, ColorType((Color_t)total, sizes)); uint64_t id = q.encodedValue;
            check(q == q2, "both ways of numbering a product colour agree", cat(q.encodedValue, " and ", q2.encodedValue));
            check(id < total, "a product colour has a number below the size of its type", cat("number ", id));
            check(q.decode(sizes, total) == t, "a product colour is got back from its number", cat("number ", id, " gives ", str(q.decode(sizes, total))));
            uint64_t acc = 0; for (size_t i = 0; i < t.size(); ++i) { check(codec.decode(id, i) == t[i], "a component is read off the number", cat("number ", id, " component ", i, " gives ", codec.decode(id, i))); acc = codec.addToValue(acc, i, t[i]); }
            check(acc == id, "adding up the components gives the number", cat(acc, " instead of ", id));
            ids.insert(id);
        };
        check(codec.getMax() == total, "the codec has one number for each product colour");
        if (total <= 300) { std::vector<uint32_t> t(sizes.size(), 0); uint64_t n = 0; while (true) { one(t); ++n; size_t i = 0; while (i < t.size() && ++t[i] == sizes[i]) t[i++] = 0; if (i == t.size()) break; } check(ids.size() == n, "distinct product colours have distinct numbers"); }
        else { std::vector<uint32_t> t; for (auto w : sizes) t.push_back(r.coin() ? w - 1 : r.below(w)); one(t); }
    });
    random_section("encoded markings", 0.35, 1500, [](Rng& r, uint64_t it) {
        std::vector<ColoredPetriNetPlace> places; std::vector<uint32_t> sz; size_t np = 1 + r.below(5); bool big = it % 40 == 0;
        for (size_t p = 0; p < np; ++p) { static const uint32_t odd[] = {255, 256, 257, 511, 512, 65535, 65536, 70000}; uint32_t w = big && r.coin() ? 4000 + r.below(12000) : r.coin(3) ? r.pick(std::vector<uint32_t>(odd, odd + 8)) : 1 + r.below(8); sz.push_back(w); places.push_back({std::make_shared<ColorType>(w)}); }
        ColoredEncoder enc(places); ColoredPetriNetMarking prev; std::vector<unsigned char> pbytes; bool have = false;
        for (int k = 0; k < 3; ++k) {
            ColoredPetriNetMarking mk; std::vector<M> ms;
            for (size_t p = 0; p < np; ++p) {
                CPNMultiSet x; M m; uint32_t n = r.coin(4) ? 0 : big ? r.below(std::min<uint32_t>(sz[p], 6000)) : r.coin(3) ? r.below(sz[p] + 1) % 400 : r.below(5); int mode = r.below(3);
                int64_t left = MAX; for (uint32_t q = 0; q < n && q < sz[p]; ++q) { uint32_t c = sz[p] <= 12 ? q : r.coin(5) ? sz[p] - 1 - r.below(2) : r.below(sz[p]); if (m.count(c)) continue; static const int32_t odd[] = {1, 254, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 16777216}; int64_t v = mode ? odd[r.below(11)] : 1 + r.below(3); if (r.coin(60)) v = left; if (v > left || v == 0) continue; left -= v; m[c] = v; x.setCount(c, v); }
                mk.markings.push_back(x); ms.push_back(m);
            }
            begin([&] { std::string o = cat("colour type sizes ", str(sz), " marking"); for (auto& m : ms) o += " " + s(m).substr(0, 120); return o; });
            size_t n = enc.encode(mk);
            if (!enc.isFullStatespace()) return;          // the tool announces that it gave up
            std::vector<unsigned char> bytes(enc.data(), enc.data() + n); unsigned char* exact = (unsigned char*)malloc(n ? n : 1); memcpy(exact, bytes.data(), n);
            ColoredPetriNetMarking back = enc.decode(exact); free(exact);
            check(back.markings.size() == np, "a stored coloured marking is decoded exactly", "number of places");
            for (size_t p = 0; p < np; ++p) { M g; for (auto& [c, v] : back.markings[p].counts()) if (v) g[c] = v; check(g == ms[p], "a stored coloured marking is decoded exactly", cat("place ", p, " gives ", s(g).substr(0, 200))); check((int64_t)back.markings[p].totalCount() == sum(ms[p]), "a stored coloured marking is decoded exactly", cat("total of place ", p)); }
            if (have) check((bytes == pbytes) == (mk == prev), "equal encodings mean equal markings", "");
            prev = mk; pbytes = bytes; have = true;
        }
    });
    return finish();
}
