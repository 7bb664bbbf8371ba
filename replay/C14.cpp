// waiting lists: what is put in comes out exactly once, in the announced order
#include "pql_util.h"
#include "PetriEngine/Structures/Queue.h"
#include "PetriEngine/Structures/PotencyQueue.h"
#include "PetriEngine/Structures/SuccessorQueue.h"
#include "utils/structures/light_deque.h"
#include "CTL/SearchStrategy/DFSSearch.h"
#include "CTL/SearchStrategy/BFSSearch.h"
#include "CTL/SearchStrategy/RDFSSearch.h"
#include "CTL/SearchStrategy/HeuristicSearch.h"
#include "CTL/PetriNets/PetriConfig.h"
#include <deque>
using namespace PetriEngine; using namespace PetriEngine::PQL; using namespace PetriEngine::Structures; using namespace vp;
struct Dist : BooleanCondition { uint32_t d = 0; Dist() : BooleanCondition(false) {} uint32_t distance(DistanceContext&) const override { return d; } };
struct Item { size_t id; uint32_t d; size_t batch; uint32_t t; };
enum Kind { BFS_, DFS_, RDFS_, HEUR_, RPOT_, POT_, KINDS };
static const char* KN[] = {"BFS", "DFS", "RDFS", "heuristic", "random potency", "potency"};
static int live = 0;
struct Tracked { std::unique_ptr<uint32_t> v; explicit Tracked(uint32_t x) : v(new uint32_t(x)) { ++live; } Tracked(const Tracked& o) : v(new uint32_t(*o.v)) { ++live; } Tracked(Tracked&& o) : v(std::move(o.v)) {} ~Tracked() { if (v) --live; } bool operator==(uint32_t x) const { return v && *v == x; } };
template<class T> static bool same(const T& a, uint32_t b) { return a == b; }

template<class T> static void deque_ops(Rng& r) {
    std::string log; begin([&] { return log; }); live = 0; size_t cap = r.below(5); if (r.coin(3)) cap = 1 + r.below(70);
    { light_deque<T> d(cap); std::deque<uint32_t> m; std::vector<uint32_t> o; log = cat("initial capacity ", cap, ":");
    auto agree = [&](const light_deque<T>& x, const char* what) { check(x.size() == m.size() && x.empty() == m.empty(), "a deque reports its size", what); if (m.empty()) return; check(same(x.front(), m.front()), "front is the oldest element left", what); check(same(x.back(), m.back()), "back is the latest element", what); size_t i = 0; for (auto& e : x) { check(i < m.size() && same(e, m[i]) && same(x[i], m[i]), "elements keep their order and value", cat(what, " at ", i)); ++i; } check(i == m.size(), "iteration visits every element", what); };
    int bias = r.below(3);
    for (size_t n = 5 + r.below(r.coin(6) ? 600 : 60); n; --n) { uint32_t x = r.b32(); int op = r.below(12);
        if (op < 5 + bias) { if (r.coin()) { T e(x); d.push_back(e); } else d.push_back(T(x)); m.push_back(x); log += cat(" push ", x); }
        else if (op < 9 + (bias > 1)) { if (!m.empty()) { if (r.coin(bias == 0 ? 3 : 2)) { d.pop_back(); m.pop_back(); log += " pop_back"; } else { d.pop_front(); m.pop_front(); log += " pop_front"; } } }
        else if (op == 10 && r.coin(6)) { d.clear(); m.clear(); log += " clear"; }
        else if (op == 11 && r.coin(3)) { light_deque<T> e(r.below(3)); for (size_t k = r.below(4); k; --k) e.push_back(T(7)); e = d; log += " assign"; agree(e, "copy"); if (r.coin()) { uint32_t y = r.b32(); log += cat(" to another, push ", y, " there"); auto keep = m; e.push_back(T(y)); m.push_back(y); agree(e, "copy"); m = keep; } }
        agree(d, "deque"); } }
    if (!std::is_same<T, uint32_t>::value) check(live == 0, "every value put in is disposed of exactly once", cat(live, " left"));
}

struct DS : SearchStrategy::DFSSearch { using DFSSearch::Wsize; using DFSSearch::pushToW; using DFSSearch::popFromW; };
struct BS : SearchStrategy::BFSSearch { using BFSSearch::Wsize; using BFSSearch::pushToW; using BFSSearch::popFromW; };
struct RS : SearchStrategy::RDFSSearch { using RDFSSearch::Wsize; using RDFSSearch::pushToW; using RDFSSearch::popFromW; };
struct HS : SearchStrategy::HeuristicSearch { using HeuristicSearch::Wsize; using HeuristicSearch::pushToW; using HeuristicSearch::popFromW; };
template<class S> static void edges(Rng& r, int kind, const char* name) {
    std::string log = cat(name, ":"); begin([&] { return log; }); S s; std::vector<std::unique_ptr<DependencyGraph::Edge>> pool; std::vector<std::unique_ptr<PetriNets::PetriConfig>> conf; std::vector<Condition_ptr> qs; struct E { int i; size_t batch; }; std::vector<E> m; size_t batch = 0;
    for (int i = 0; i < 5; ++i) { qs.push_back(mk(rctl(r, 2, r.below(3)))); conf.push_back(std::make_unique<PetriNets::PetriConfig>(i, qs.back().get())); } for (int i = 0; i < 12; ++i) { pool.push_back(std::make_unique<DependencyGraph::Edge>(*conf[r.below(5)])); }
    for (size_t n = 5 + r.below(60); n; --n) { check(s.Wsize() == m.size(), "a waiting list reports how many edges wait", cat("says ", s.Wsize(), " of ", m.size()));
        if (r.coin(7)) { s.flush(); log += " flush"; continue; }
        if (r.coin() || m.empty()) { int i = r.below(12); s.pushToW(pool[i].get()); m.push_back({i, batch}); log += cat(" push ", i); }
        else { auto* e = s.popFromW(); size_t at = m.size(); int id = -1; for (int i = 0; i < 12; ++i) if (pool[i].get() == e) id = i; log += cat(" pop ", id);
            if (kind == DFS_) { at = m.size() - 1; check(m[at].i == id, "the latest edge is taken first", cat("got ", id)); }
            else { size_t best = SIZE_MAX; for (size_t i = 0; i < m.size(); ++i) { if (kind == BFS_) best = std::min(best, m[i].batch); } for (size_t i = 0; i < m.size(); ++i) if (m[i].i == id && (kind != BFS_ || m[i].batch == best)) { at = i; } check(at < m.size(), kind == BFS_ ? "an edge of the oldest batch is taken" : "an edge that waits is taken", cat("got ", id)); }
            m.erase(m.begin() + at); ++batch; } }
    while (!m.empty()) { auto* e = s.popFromW(); size_t at = m.size(); for (size_t i = 0; i < m.size(); ++i) if (pool[m[i].i].get() == e) at = i; check(at < m.size(), "an edge that waits is taken", "while emptying"); m.erase(m.begin() + at); } check(s.Wsize() == 0, "no edge is left when all were taken");
}

int main(int argc, char** argv) {
    init(argc, argv);
    random_section("waiting lists of states", 0.4, 2000, [](Rng& r, uint64_t) {
        Kind k = (Kind)r.below(KINDS); uint32_t nt = r.coin(5) ? 1 : 1 + r.below(6); std::string log; begin([&] { return log; });
        NetD d; d.np = 1; for (uint32_t i = 0; i < nt; ++i) { Tr t; t.controllable = true; t.pre.push_back({0, 1u, false}); d.tr.push_back(t); } auto net = build(d); std::vector<MarkVal> mk0(1, 0); DistanceContext ctx(net.get(), mk0.data()); Dist q;
        std::vector<MarkVal> pot; for (uint32_t i = 0; i < nt; ++i) pot.push_back(r.coin(4) ? r.b32() : r.below(4)); bool init = r.coin();
        std::unique_ptr<Queue> w; std::unique_ptr<RandomPotencyQueue> pq; size_t seed = r.below(100);
        switch (k) { case BFS_: w = std::make_unique<BFSQueue>(seed); break; case DFS_: w = std::make_unique<DFSQueue>(seed); break; case RDFS_: w = std::make_unique<RDFSQueue>(seed); break; case HEUR_: w = std::make_unique<HeuristicQueue>(seed); break; default: if (init) pq = std::make_unique<RandomPotencyQueue>(pot, seed); else pq = std::make_unique<RandomPotencyQueue>(seed); }
        log = cat(KN[k], " (", nt, " transitions):"); std::vector<Item> m; size_t batch = 0; std::set<size_t> used; bool wide = r.coin(3); bool first = true;
        size_t steps = 4 + r.below(r.coin(8) ? 300 : 40); bool draining = false;
        for (size_t n = steps; n || !m.empty(); n = n ? n - 1 : 0) { draining = n == 0;
            bool e = w ? w->empty() : pq->empty(); check(e == m.empty(), "a waiting list is empty exactly when everything put in was taken", cat("says ", e, " with ", m.size(), " left"));
            if (m.empty()) { if (!pq || !first) { size_t x = w ? w->pop() : k == POT_ ? pq->PotencyQueue::pop() : pq->pop(); check(x == Queue::EMPTY || x == PQL::EMPTY, "an empty waiting list says so", cat("gives ", x)); } }
            if (!draining && (r.coin() || m.empty())) { size_t id; do { id = r.coin(4) ? r.b32() : r.below(2000); } while (id == 0xffffffffu || !used.insert(id).second); q.d = wide && r.coin(3) ? r.b32() : r.below(6); uint32_t t = r.below(nt);
                log += cat(" push ", id, " at distance ", q.d); if (w) w->push(id, &ctx, &q); else if (first || r.coin(8)) { t = 0; pq->push(id, &ctx, &q); } else { log += cat(" by t", t); pq->push(id, &ctx, &q, t); }
                first = false; m.push_back({id, q.d, batch, t}); }
            else { size_t x = w ? w->pop() : k == POT_ ? pq->PotencyQueue::pop() : pq->pop(); log += cat(" pop ", x); size_t at = m.size(); for (size_t i = 0; i < m.size(); ++i) if (m[i].id == x) at = i;
                check(at < m.size(), "a state that waits is taken, each one once", cat("gives ", x)); const Item& y = m[at];
                for (auto& z : m) { if (k == BFS_) check(z.batch >= y.batch, "breadth first: an older batch is taken before a later one", cat(z.id, " was put in before ", y.id)); if (k == RDFS_) check(z.batch <= y.batch, "depth first: the latest batch is taken first", cat(z.id, " was put in after ", y.id)); if (k == DFS_) check(at + 1 == m.size(), "depth first: the latest state is taken first", cat("not ", m.back().id));
                    bool better = z.d < y.d || (z.d == y.d && z.id > y.id); if (k == HEUR_) check(!better, "best first: no waiting state is closer to the goal", cat(z.id, " is closer than ", y.id)); if (k >= RPOT_ && z.t == y.t) check(!better, "of the states reached by one transition, the closest is taken", cat(z.id, " is closer than ", y.id)); if (k == POT_) check(z.t >= y.t, "potency: the first transition with waiting states", cat(z.id)); }
                m.erase(m.begin() + at); ++batch; } }
        check(w ? w->empty() : pq->empty(), "a waiting list is empty exactly when everything put in was taken");
    });
    random_section("light_deque of numbers", 0.15, 3000, [](Rng& r, uint64_t) { deque_ops<uint32_t>(r); });
    random_section("light_deque of objects", 0.15, 2000, [](Rng& r, uint64_t) { deque_ops<Tracked>(r); });
    random_section("successor queues", 0.1, 3000, [](Rng& r, uint64_t) {
        std::string log; begin([&] { return log; }); std::vector<uint32_t> all, cur; for (uint32_t i = 0, n = r.below(12); i < n; ++i) all.push_back(r.below(4) ? i * 3 : i * 3 + r.below(3)); std::shuffle(all.begin(), all.end(), std::default_random_engine(r.below(1000)));
        std::vector<uint32_t> src(all.begin(), all.begin() + r.below(all.size() + 1)); cur = src; SuccessorQueue<uint32_t> q(src.data(), src.size()); size_t popped = 0; log = cat("from ", str(src)); bool tr = r.coin(4);
        if (tr) { std::vector<std::pair<uint32_t, int>> v; for (auto x : src) v.push_back({x, 1}); q = SuccessorQueue<uint32_t>(v, [](auto& p) { return p.first; }); }
        check(q.valid() && !(q == nullptr), "a queue made from a list is valid"); SuccessorQueue<uint32_t> none; check(!none.valid() && none.empty() && none.size() == 0 && !none.has_consumed(), "a default queue is empty and not valid");
        for (size_t n = r.below(25); n; --n) {
            check(q.size() == cur.size() - popped && q.empty() == (popped == cur.size()), "a successor queue reports what is left", cat("says ", q.size())); check(q.has_consumed() == (popped > 0), "it reports whether something was taken");
            if (popped < cur.size()) check(q.front() == cur[popped], "successors come in the order given", cat("gives ", q.front())); if (popped) check(q.last_pop() == cur[popped - 1], "the successor taken last is remembered", cat("gives ", q.last_pop()));
            auto [b, e] = q.all_successors(); check(std::vector<uint32_t>(b, e) == cur, "all successors are remembered", str(std::vector<uint32_t>(b, e)));
            int op = r.below(6); if (op < 4) { if (popped < cur.size()) { q.pop(); ++popped; log += " pop"; } }
            else if (op == 4) { // extend to a permutation of all successors that contains those taken
                std::vector<uint32_t> ext = cur; for (auto x : all) if (std::find(ext.begin(), ext.end(), x) == ext.end() && r.coin()) ext.push_back(x); std::shuffle(ext.begin(), ext.end(), std::default_random_engine(r.below(1000)));
                q.extend_to(ext.data(), ext.size()); log += cat(" extend to ", str(ext)); std::vector<uint32_t> nx(cur.begin(), cur.begin() + popped); for (auto x : ext) if (std::find(cur.begin(), cur.begin() + popped, x) == cur.begin() + popped) nx.push_back(x); cur = nx; }
            else { std::vector<uint32_t> more; for (size_t k = r.below(3); k; --k) { uint32_t v = 100 + 7 * cur.size() + k; more.push_back(v); } q.append(more.data(), more.size()); log += cat(" append ", str(more)); cur.insert(cur.end(), more.begin(), more.end()); all.insert(all.end(), more.begin(), more.end()); } }
    });
    random_section("waiting lists of edges", 0.2, 2000, [](Rng& r, uint64_t) { switch (r.below(4)) { case 0: edges<DS>(r, DFS_, "DFS"); break; case 1: edges<BS>(r, BFS_, "BFS"); break; case 2: edges<RS>(r, RDFS_, "RDFS"); break; default: edges<HS>(r, HEUR_, "heuristic"); } });
    return finish();
}
