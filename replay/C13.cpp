// CTL model checking: the fixed-point algorithms on dependency graphs, and the dependency graph of a net and a query
#include "pql_util.h"
#include "CTL/Algorithm/CertainZeroFPA.h"
#include "CTL/Algorithm/LocalFPA.h"
#include "CTL/PetriNets/OnTheFlyDG.h"
#include "CTL/SearchStrategy/SearchStrategy.h"
using namespace PetriEngine; using namespace PetriEngine::PQL; using namespace vp;
namespace DG = DependencyGraph;
typedef std::vector<uint32_t> M;

// ---- an explicit dependency graph; negation is stratified, a negated node has one edge with one target (as for "not") ----
struct ENode { bool neg = false; int level = 0; std::vector<std::vector<int>> edges; };
struct EGraph : DG::BasicDependencyGraph {
    std::vector<ENode> n; std::vector<std::unique_ptr<PetriNets::PetriConfig>> conf; std::vector<std::unique_ptr<DG::Edge>> pool; std::vector<DG::Edge*> recycle; std::map<DG::Configuration*, int> id; std::vector<Condition_ptr> qs; std::vector<int> explored;
    std::string str() const { std::string o; for (size_t i = 0; i < n.size(); ++i) { o += cat(i ? "; " : "", i, n[i].neg ? " = not" : " ="); for (auto& e : n[i].edges) o += " " + vp::str(e); } return o; }
    void fresh() { conf.clear(); pool.clear(); recycle.clear(); id.clear(); explored.assign(n.size(), 0); for (size_t i = 0; i < n.size(); ++i) { conf.push_back(std::make_unique<PetriNets::PetriConfig>(i, qs[i].get())); id[conf.back().get()] = i; } }
    std::vector<DG::Edge*> successors(DG::Configuration* c) override {
        int i = id.at(c); ++explored[i]; std::vector<DG::Edge*> r;
        for (auto& t : n[i].edges) { DG::Edge* e; if (recycle.empty()) { pool.push_back(std::make_unique<DG::Edge>()); e = pool.back().get(); } else { e = recycle.back(); recycle.pop_back(); e->refcnt = 0; }
            e->source = c; ++e->refcnt; e->is_negated = n[i].neg; for (int x : t) if (e->addTarget(conf[x].get())) break;
            if (e->handled) { --e->refcnt; release(e); } else r.push_back(e); }
        return r; }
    DG::Configuration* initialConfiguration() override { return conf[0].get(); }
    void release(DG::Edge* e) override { check(e->refcnt == 0, "an edge is released only when nothing refers to it", cat("refcnt ", e->refcnt)); e->is_negated = false; e->processed = false; e->source = nullptr; e->targets.clear(); e->refcnt = -1; e->handled = false; recycle.push_back(e); }
    void cleanUp() override {}
    std::vector<char> solve() const { std::vector<char> v(n.size(), 0); int top = 0; for (auto& x : n) top = std::max(top, x.level);
        for (int l = 0; l <= top; ++l) { bool ch = true; while (ch) { ch = false; for (size_t i = 0; i < n.size(); ++i) if (n[i].level == l && !v[i]) { bool b = false; for (auto& e : n[i].edges) { bool all = true; for (int t : e) all &= (bool)v[t]; if (n[i].neg) b |= !all; else b |= all; } if (b) { v[i] = 1; ch = true; } } } }
        return v; }
};
static const Strategy ST[] = {Strategy::DFS, Strategy::BFS, Strategy::RDFS, Strategy::HEUR};
static const char* SN[] = {"DFS", "BFS", "RDFS", "HEUR"};
static std::unique_ptr<Algorithm::FixedPointAlgorithm> alg(bool local, int s) { if (local) return std::make_unique<Algorithm::LocalFPA>(ST[s]); return std::make_unique<Algorithm::CertainZeroFPA>(ST[s]); }

static Fo rgoal(Rng& r, const Graph& g, uint32_t np) { const M& w = r.pick(g.st); Fo f{CONJ}; std::set<uint32_t> ps; for (size_t i = 1 + r.below(2); i; --i) ps.insert(r.below(np)); for (auto p : ps) { int h = r.below(4); f.cons.push_back(Con{p, h == 1 ? 0 : w[p], h == 0 || h == 3 ? 0xffffffffu : w[p]}); } f.neg = r.coin(4); return f; }
static Fo rnest(Rng& r, const Graph& g, uint32_t np, int d) { if (d == 0) return r.coin(6) ? Fo{DL} : rgoal(r, g, np); switch (r.below(11)) {
    case 0: case 1: return Fo{NOT_, {rnest(r, g, np, d - 1)}}; case 2: case 3: { Fo f{r.coin() ? AND_ : OR_}; for (size_t n = 2 + r.below(2); n; --n) f.c.push_back(rnest(r, g, np, d - 1 - (int)r.below(d))); return f; }
    case 4: case 5: case 6: return Fo{r.coin() ? EU_ : AU_, {rnest(r, g, np, d - 1 - (int)r.below(d)), rnest(r, g, np, d - 1)}}; default: return Fo{(FK)(EX_ + r.below(6)), {rnest(r, g, np, d - 1)}}; } }

int main(int argc, char** argv) {
    init(argc, argv);
    random_section("dependency graphs", 0.4, 3000, [](Rng& r, uint64_t) {
        EGraph g; size_t n = 1 + r.below(9); int levels = 1 + r.below(3); bool wide = r.coin(4);
        for (size_t i = 0; i < n; ++i) { ENode x; x.level = i == 0 ? levels - 1 : r.below(levels); g.n.push_back(x); }
        for (size_t i = 0; i < n; ++i) { auto& x = g.n[i]; std::vector<int> below, upto; for (size_t j = 0; j < n; ++j) { if (g.n[j].level < x.level) below.push_back(j); if (g.n[j].level <= x.level) upto.push_back(j); }
            if (!below.empty() && r.coin(3)) { x.neg = true; x.edges = {{r.pick(below)}}; continue; }
            for (size_t e = r.below(wide ? 6 : 4); e; --e) { std::vector<int> t; for (size_t k = r.coin(12) ? 0 : 1 + r.below(3); k; --k) { int y = r.pick(upto); if (std::find(t.begin(), t.end(), y) == t.end()) t.push_back(y); } x.edges.push_back(t); } }
        for (size_t i = 0; i < n; ++i) g.qs.push_back(mk(rctl(r, 2, r.below(3))));
        auto want = g.solve(); int which = 0, st = 0; begin([&] { return cat(g.str(), " with ", which ? "local" : "certain zero", " ", SN[st]); });
        for (which = 0; which < 2; ++which) for (st = 0; st < 4; ++st) { g.fresh(); auto a = alg(which, st); bool got = a->search(g);
            check(got == (bool)want[0], "the search returns the least fixed point's value of the initial configuration", cat("gives ", got));
            for (size_t i = 0; i < n; ++i) { int v = g.conf[i]->assignment; check(v != DG::ONE || want[i], "a configuration assigned one is true", cat("configuration ", i)); check(v != DG::CZERO || !want[i], "a configuration assigned certain zero is false", cat("configuration ", i)); check(g.explored[i] <= 1, "a configuration is explored once", cat("configuration ", i)); } }
    });
    random_section("CTL on nets", 0.6, 300, [](Rng& r, uint64_t) {
        NetD d; M m; Graph g; for (int tries = 0;; ++tries) { g = Graph();
            if (r.coin()) d = random_net(r, 4, 5, false); else { d = NetD(); d.np = 2 + r.below(4); for (uint32_t t = 1 + r.below(5); t; --t) { Tr x; x.controllable = true; std::set<uint32_t> in, out; for (size_t i = 1 + r.below(2); i; --i) in.insert(r.below(d.np)); for (size_t i = r.below(3); i; --i) out.insert(r.below(d.np)); for (auto p : in) x.pre.push_back({p, r.coin(5) ? 2u : 1u, false}); for (auto p : out) x.post.push_back({p, 1u, false}); d.tr.push_back(x); } }
            m = random_marking(r, d, false); for (auto& x : m) x = std::min(x, 4u); if (explore(d, m, g, 60) && (g.st.size() > 1 || tries > 5)) break; }
        auto net = build(d); for (uint32_t p = 0; p < d.np; ++p) net->_initialMarking[p] = m[p];
        bool por = r.coin(); PetriNets::OnTheFlyDG dg(net.get(), por); std::vector<Condition_ptr> keep;
        for (int k = 0; k < 12; ++k) {
            Fo f = r.coin() ? rnest(r, g, d.np, 1 + r.below(3)) : rctl(r, d.np, 1 + r.below(3)); if (big_vals(f, m)) continue; bool want = ctl(f, g)[0];
            int which = r.coin(3), st = r.below(4);
            begin([&] { return cat(s(f), " by ", which ? "local" : "certain zero", " ", SN[st], por ? " with" : " without", " partial order, initial ", str(m), " in ", d.str()); });
            negstat_t stats; EvaluationContext ctx(net->makeInitialMarking(), net.get());
            auto q = pushNegation(mk(f, 1), stats, ctx, false, false, false); delete[] ctx.marking(); keep.push_back(q);
            dg.setQuery(q.get()); auto e = dg.initialEval(); bool got;
            if (e != Condition::RUNKNOWN) got = e == Condition::RTRUE; else { auto a = alg(which, st); got = a->search(dg); }
            check(got == want, "the CTL engine's answer is the truth value of the query in the initial marking", cat("gives ", got));
        }
    });
    return finish();
}
