#include "common.h"
#include "PetriEngine/ExplicitColored/ExplicitColoredPetriNetBuilder.h"
#include "PetriEngine/ExplicitColored/SuccessorGenerator/ColoredSuccessorGenerator.h"
#include "PetriEngine/ExplicitColored/ExpressionCompilers/GuardCompiler.h"
#include "PetriEngine/ExplicitColored/ExpressionCompilers/ArcCompiler.h"
#include "PetriEngine/ExplicitColored/FireabilityChecker.h"
#include "PetriEngine/Colored/Expressions.h"
namespace X = PetriEngine::ExplicitColored; namespace C = PetriEngine::Colored;
using namespace vp;
typedef std::map<uint32_t, int64_t> M;    // tokens of one place: number of the (product) colour -> count
static void norm(M& m) { for (auto i = m.begin(); i != m.end();) if (i->second == 0) i = m.erase(i); else ++i; }
static std::string s(const M& m) { std::string o = "{"; for (auto& [c, n] : m) o += cat(o.size() > 1 ? "," : "", c, ":", n); return o + "}"; }
typedef std::vector<uint32_t> B;          // value of each variable of the net

// ---- the expressions of the model, with their meaning written down independently
struct Col { int var; uint32_t c; int off; uint32_t size; std::string str() const { return cat(var >= 0 ? cat("v", var) : cat(c), off > 0 ? cat("+", off) : off < 0 ? cat(off) : "", "%", size); }
    uint32_t val(const B& b) const { int64_t x = (int64_t)(var >= 0 ? b[var] : c) + off; int64_t n = size; return (uint32_t)(((x % n) + n) % n); } };
typedef std::vector<Col> Tup;
static std::string s(const Tup& t) { std::string o = "("; for (auto& c : t) o += (o.size() > 1 ? "," : "") + c.str(); return o + ")"; }
struct Arc { int kind; uint32_t n; Tup t; std::vector<Arc> ch;  // 0 n'tuple  1 sum  2 difference  3 n times
    std::string str() const { std::string o; switch (kind) { case 0: return cat(n, "'", s(t)); case 1: for (auto& c : ch) o += (o.empty() ? "" : "+") + c.str(); return "(" + o + ")"; case 2: return "(" + ch[0].str() + "-" + ch[1].str() + ")"; default: return cat(n, "*", ch[0].str()); } }
    M val(const B& b) const { M r; switch (kind) {
        case 0: { uint64_t id = 0; for (auto& c : t) id = id * c.size + c.val(b); r[id] = n; break; }
        case 1: for (auto& c : ch) for (auto& [x, k] : c.val(b)) r[x] += k; break;
        case 2: { r = ch[0].val(b); for (auto& [x, k] : ch[1].val(b)) r[x] = std::max<int64_t>(0, r[x] - k); break; }
        default: r = ch[0].val(b); for (auto& [x, k] : r) k *= n; }
        norm(r); return r; }
    void vars(std::set<int>& o) const { for (auto& c : t) if (c.var >= 0) o.insert(c.var); for (auto& c : ch) c.vars(o); } };
struct Guard { int kind; Tup l, r; std::vector<Guard> ch;      // 0 <  1 <=  2 ==  3 !=  4 and  5 or
    std::string str() const { static const char* op[] = {"<", "<=", "==", "!=", "&&", "||"}; return kind < 4 ? s(l) + op[kind] + s(r) : "(" + ch[0].str() + op[kind] + ch[1].str() + ")"; }
    bool val(const B& b) const { switch (kind) { case 0: return l[0].val(b) < r[0].val(b); case 1: return l[0].val(b) <= r[0].val(b); case 4: return ch[0].val(b) && ch[1].val(b); case 5: return ch[0].val(b) || ch[1].val(b); }
        bool eq = true; for (size_t i = 0; i < l.size(); ++i) eq &= l[i].val(b) == r[i].val(b); return eq == (kind == 2); }
    void vars(std::set<int>& o) const { for (auto& c : l) if (c.var >= 0) o.insert(c.var); for (auto& c : r) if (c.var >= 0) o.insert(c.var); for (auto& c : ch) c.vars(o); } };

struct Model {
    std::vector<std::unique_ptr<C::ColorType>> simple; std::vector<std::unique_ptr<C::ProductType>> prod; std::vector<std::vector<int>> parts; const C::ColorType* dot = C::ColorType::dotInstance();
    std::vector<std::unique_ptr<C::Variable>> vars; std::vector<int> vtype; C::ColorTypeMap map;
    uint32_t size(int t) const { return t < 0 ? 1 : simple[t]->size(); }
    // a place type: a list of simple types; {-1} is the dot
    std::vector<std::vector<int>> types; std::vector<const C::ColorType*> ctypes;
    uint32_t tsize(size_t k) const { uint32_t n = 1; for (int t : types[k]) n *= size(t); return n; }
    uint32_t vsize(int v) const { return tsize(vtype[v]); }
    C::ColorExpression_ptr expr(const Col& c, int t) const {
        C::ColorExpression_ptr e; if (t < 0) return std::make_shared<C::DotConstantExpression>();
        if (c.var >= 0) e = std::make_shared<C::VariableExpression>(vars[c.var].get()); else e = std::make_shared<C::UserOperatorExpression>(&(*simple[t])[(size_t)c.c]);
        for (int i = 0; i < c.off; ++i) e = std::make_shared<C::SuccessorExpression>(std::move(e));
        for (int i = 0; i > c.off; --i) e = std::make_shared<C::PredecessorExpression>(std::move(e)); return e; }
    C::ColorExpression_ptr expr(const Tup& t, const std::vector<int>& ty) const { if (t.size() == 1) return expr(t[0], ty[0]); std::vector<C::ColorExpression_ptr> v; for (size_t i = 0; i < t.size(); ++i) v.push_back(expr(t[i], ty[i])); return std::make_shared<C::TupleExpression>(std::move(v), map); }
    C::ArcExpression_ptr expr(const Arc& a, const std::vector<int>& ty) const { switch (a.kind) {
        case 0: { std::vector<C::ColorExpression_ptr> v{expr(a.t, ty)}; return std::make_shared<C::NumberOfExpression>(std::move(v), a.n); }
        case 1: { std::vector<C::ArcExpression_ptr> v; for (auto& c : a.ch) v.push_back(expr(c, ty)); return std::make_shared<C::AddExpression>(std::move(v)); }
        case 2: return std::make_shared<C::SubtractExpression>(expr(a.ch[0], ty), expr(a.ch[1], ty));
        default: return std::make_shared<C::ScalarProductExpression>(expr(a.ch[0], ty), a.n); } }
    C::GuardExpression_ptr expr(const Guard& g, const std::function<std::vector<int>(const Guard&)>& ty) const { auto t = g.kind < 4 ? ty(g) : std::vector<int>{}; switch (g.kind) {
        case 0: return std::make_shared<C::LessThanExpression>(expr(g.l, t), expr(g.r, t)); case 1: return std::make_shared<C::LessThanEqExpression>(expr(g.l, t), expr(g.r, t));
        case 2: return std::make_shared<C::EqualityExpression>(expr(g.l, t), expr(g.r, t)); case 3: return std::make_shared<C::InequalityExpression>(expr(g.l, t), expr(g.r, t));
        case 4: return std::make_shared<C::AndExpression>(expr(g.ch[0], ty), expr(g.ch[1], ty)); default: return std::make_shared<C::OrExpression>(expr(g.ch[0], ty), expr(g.ch[1], ty)); } }

    explicit Model(Rng& r, bool big) {
        int ns = 1 + r.below(3);
        for (int i = 0; i < ns; ++i) { auto t = std::make_unique<C::ColorType>(cat("T", i)); uint32_t n = big ? 3 + r.below(3) : 1 + r.below(4); for (uint32_t c = 0; c < n; ++c) t->addColor(cat("c", i, "_", c).c_str()); map[cat("T", i)] = t.get(); simple.push_back(std::move(t)); }
        types.push_back({-1}); ctypes.push_back(dot); map["dot"] = dot;
        for (int i = 0; i < ns; ++i) { types.push_back({i}); ctypes.push_back(simple[i].get()); }
        std::set<std::vector<int>> seen;
        for (int i = r.below(3); i; --i) { std::vector<int> p; for (int k = 2 + r.below(2); k; --k) p.push_back(r.below(ns)); if (!seen.insert(p).second) continue; auto t = std::make_unique<C::ProductType>(cat("P", prod.size())); for (int x : p) t->addType(simple[x].get()); map[t->getName()] = t.get(); types.push_back(p); ctypes.push_back(t.get()); prod.push_back(std::move(t)); }
        int nv = r.below(4) + (big ? 1 : 0); for (int i = 0; i < nv; ++i) { size_t k = r.coin(6) ? 1 + r.below(types.size() - 1) : 1 + r.below(ns); if (tsize(k) > 60) k = 1; vtype.push_back(k); vars.push_back(std::make_unique<C::Variable>(C::Variable{cat("x", i), ctypes[k]})); }
    }
    Col col(Rng& r, int t) const { Col c{-1, 0, 0, size(t)}; if (t < 0) return c; std::vector<int> vs; for (size_t i = 0; i < vtype.size(); ++i) if (types[vtype[i]] == std::vector<int>{t}) vs.push_back(i); if (!vs.empty() && !r.coin(3)) c.var = r.pick(vs); else c.c = r.below(size(t)); if (r.coin(3)) c.off = r.range(-3, 3); return c; }
    Tup tup(Rng& r, const std::vector<int>& ty, bool whole = true) const { Tup t; if (whole && ty.size() > 1 && r.coin()) for (size_t i = 0; i < vtype.size(); ++i) if (types[vtype[i]] == ty) return {Col{(int)i, 0, 0, vsize(i)}}; for (int x : ty) t.push_back(col(r, x)); return t; }
    Arc arc(Rng& r, const std::vector<int>& ty, int d) const { int k = d <= 0 ? 0 : r.below(6); if (k > 3) k = 0; Arc a{k, 1, {}, {}}; switch (k) {
        case 0: a.n = 1 + r.below(3); a.t = tup(r, ty); break; case 1: for (int n = 1 + r.below(3); n; --n) a.ch.push_back(arc(r, ty, d - 1)); break;
        case 2: a.ch = {arc(r, ty, d - 1), arc(r, ty, d - 1)}; break; default: a.n = 1 + r.below(3); a.ch = {arc(r, ty, d - 1)}; } return a; }
    Guard guard(Rng& r, int d, std::map<std::string, std::vector<int>>& gty) const { int k = d <= 0 ? r.below(4) : r.below(6); Guard g{k, {}, {}, {}}; if (k >= 4) { g.ch = {guard(r, d - 1, gty), guard(r, d - 1, gty)}; return g; }
        std::vector<int> ty; if (k < 2) ty = {(int)r.below(simple.size())}; else { ty = r.pick(types); if (ty[0] < 0) ty = {0}; } g.l = tup(r, ty, false); g.r = tup(r, ty, false); gty[g.str()] = ty; return g; }
};
static M tokens(const X::CPNMultiSet& m) { M r; for (auto& [c, n] : m.counts()) r[c] = n; norm(r); return r; }
static bool le(const M& a, const M& b) { for (auto& [c, n] : a) { auto i = b.find(c); if (n > (i == b.end() ? 0 : i->second)) return false; } return true; }
static int64_t total(const M& a) { int64_t k = 0; for (auto& [c, n] : a) k += n; return k; }
static void each(const Model& m, const std::set<int>& vs, const std::function<void(const B&)>& f) { B b(m.vtype.size(), 0); std::vector<int> v(vs.begin(), vs.end()); while (true) { f(b); size_t i = 0; while (i < v.size() && ++b[v[i]] == m.vsize(v[i])) b[v[i++]] = 0; if (i == v.size()) return; } }
static X::Binding bindTo(const std::set<int>& vs, const B& b) { X::Binding x; for (int v : vs) x.setValue(v, b[v]); return x; }

int main(int argc, char** argv) {
    init(argc, argv);
    random_section("compiled guards", 0.2, 2000, [](Rng& r, uint64_t) {
        Model m(r, false); std::map<std::string, std::vector<int>> gty; Guard g = m.guard(r, r.below(3), gty); std::unordered_map<std::string, X::Variable_t> vm; for (size_t i = 0; i < m.vars.size(); ++i) vm[m.vars[i]->name] = i;
        begin([&] { return g.str(); });
        X::GuardCompiler gc(vm, m.map); auto e = m.expr(g, [&](const Guard& x) { return gty[x.str()]; }); auto c = gc.compile(*e);
        std::set<int> vs; g.vars(vs); std::set<X::Variable_t> cv; c->collectVariables(cv);
        check(std::set<X::Variable_t>(vs.begin(), vs.end()) == cv, "a compiled guard names exactly the variables of the guard", str(cv));
        each(m, vs, [&](const B& b) { bool v = c->eval(bindTo(vs, b)); check(v == g.val(b), "a compiled guard has the truth value of the guard under every binding", cat("binding ", str(b), " gives ", v)); });
    });
    random_section("compiled arcs", 0.3, 3000, [](Rng& r, uint64_t) {
        Model m(r, false); size_t k = r.below(m.types.size()); Arc a = m.arc(r, m.types[k], r.below(4)); std::unordered_map<std::string, X::Variable_t> vm; for (size_t i = 0; i < m.vars.size(); ++i) vm[m.vars[i]->name] = i;
        begin([&] { return a.str(); });
        X::ArcCompiler ac(vm, m.map); auto c = ac.compile(m.expr(a, m.types[k]));
        std::set<int> vs; a.vars(vs); std::set<X::Variable_t> cv = c->getVariables();
        for (auto v : cv) check(vs.count(v), "a compiled arc names only variables of the arc", str(cv));
        uint32_t ncol = 1; for (int t : m.types[k]) ncol *= m.size(t);
        each(m, vs, [&](const B& b) {
            M want = a.val(b); X::Binding bd = bindTo(vs, b); X::Binding only; for (auto v : cv) only.setValue(v, b[v]);
            check(tokens(c->eval(bd)) == want, "a compiled arc denotes the tokens of its expression under every binding", cat("binding ", str(b), " gives ", s(tokens(c->eval(bd))), ", expected ", s(want)));
            check(tokens(c->eval(only)) == want, "a compiled arc depends only on the variables it names", cat("binding ", str(b)));
            check((int64_t)c->eval(bd).totalCount() == total(want), "a compiled arc denotes the tokens of its expression under every binding", "total");
            M base; X::CPNMultiSet x; for (uint32_t q = 0; q < ncol; ++q) if (r.coin()) { base[q] = r.below(6); x.setCount(q, base[q]); } norm(base);
            check(c->isSubSet(x, bd) == le(want, base), "an arc is satisfied exactly if the place holds its tokens", cat("binding ", str(b), " place ", s(base), " demand ", s(want)));
            X::CPNMultiSet y = x; M e = base; c->produce(y, bd); for (auto& [q, n] : want) e[q] += n; norm(e); check(tokens(y) == e && (int64_t)y.totalCount() == total(e), "producing adds exactly the tokens of the arc", cat("binding ", str(b), " place ", s(base), " gives ", s(tokens(y)), ", expected ", s(e)));
            if (le(want, base)) { y = x; e = base; c->consume(y, bd); for (auto& [q, n] : want) e[q] -= n; norm(e); check(tokens(y) == e && (int64_t)y.totalCount() == total(e), "consuming removes exactly the tokens of the arc", cat("binding ", str(b), " place ", s(base), " gives ", s(tokens(y)), ", expected ", s(e))); }
            check((int64_t)c->getMinimalMarkingCount() <= total(want), "the minimal number of tokens is a lower bound of every demand", cat("binding ", str(b), " demand ", s(want), " minimal ", c->getMinimalMarkingCount()));
            check((int64_t)c->getUpperBoundMarkingCount() >= total(want), "the upper bound is an upper bound of every demand", cat("binding ", str(b), " demand ", s(want), " bound ", c->getUpperBoundMarkingCount()));
            M mn = tokens(c->getMinimalColorMarking().minimalMarkingMultiSet); check(le(mn, want), "the minimal coloured demand is a lower bound of every demand", cat("binding ", str(b), " demand ", s(want), " minimal ", s(mn)));
            for (auto v : cv) for (auto& q : c->calculateVariableConstraints(v, 7)) { if (q.isTop()) continue; bool hit = false; for (auto& [id, n] : want) { uint64_t rest = id; std::vector<uint32_t> t(m.types[k].size()); for (size_t i = t.size(); i--;) { t[i] = rest % m.size(m.types[k][i]); rest /= m.size(m.types[k][i]); } int64_t w = m.vsize(v); hit |= (((int64_t)(w == ncol ? id : t[q.colorIndex]) - q.colorOffset - b[v]) % w) == 0; }
                check(hit && q.place == 7, "a constraint on a variable holds of some demanded token", cat("binding ", str(b), " variable ", v, " component ", q.colorIndex, " offset ", q.colorOffset)); }
        });
    });
    random_section("successors", 0.5, 2000, [](Rng& r, uint64_t it) {
        bool big = it % 3 == 0; Model m(r, big); X::ExplicitColoredPetriNetBuilder bld; std::ostringstream desc;
        bld.addColorType("dot", m.dot); for (auto& t : m.simple) bld.addColorType(t->getName(), t.get()); for (auto& t : m.prod) bld.addColorType(t->getName(), t.get()); for (auto& v : m.vars) bld.addVariable(v.get());
        int np = 1 + r.below(3), nt = 1 + r.below(3); std::vector<size_t> pt; std::vector<M> init;
        struct T { std::vector<std::pair<int, Arc>> in, out; std::vector<std::pair<int, uint32_t>> inh; std::unique_ptr<Guard> g; std::set<int> vs; }; std::vector<T> ts(nt);
        for (int p = 0; p < np; ++p) { size_t k = r.below(m.types.size()); pt.push_back(k); uint32_t ncol = 1; for (int t : m.types[k]) ncol *= m.size(t); M x; C::Multiset ms;
            for (uint32_t q = 0; q < ncol; ++q) if (!r.coin(3)) { uint32_t n = 1 + r.below(4); x[q] = n; const C::Color* c; if (m.types[k].size() > 1) { std::vector<uint32_t> ids(m.types[k].size()); uint64_t rest = q; for (size_t i = ids.size(); i--;) { ids[i] = rest % m.size(m.types[k][i]); rest /= m.size(m.types[k][i]); } c = m.ctypes[k]->getColor(ids); } else c = &(*m.ctypes[k])[(size_t)q]; ms[c] = n; }
            init.push_back(x); bld.addPlace(cat("p", p), m.ctypes[k], std::move(ms), 0, 0); desc << " p" << p << ":" << s(x); }
        std::map<std::string, std::vector<int>> gty;
        for (int t = 0; t < nt; ++t) { T& x = ts[t]; C::GuardExpression_ptr ge; desc << " t" << t; if (r.coin()) { x.g = std::make_unique<Guard>(m.guard(r, r.below(2), gty)); x.g->vars(x.vs); ge = m.expr(*x.g, [&](const Guard& y) { return gty[y.str()]; }); desc << " guard " << x.g->str(); }
            bld.addTransition(cat("t", t), ge, 0, 0, 0);
            for (int p = 0; p < np; ++p) { if (r.coin()) { x.in.push_back({p, m.arc(r, m.types[pt[p]], r.below(3))}); x.in.back().second.vars(x.vs); bld.addInputArc(cat("p", p), cat("t", t), m.expr(x.in.back().second, m.types[pt[p]]), 0); desc << " in p" << p << ":" << x.in.back().second.str(); }
                if (r.coin()) { x.out.push_back({p, m.arc(r, m.types[pt[p]], r.below(3))}); x.out.back().second.vars(x.vs); bld.addOutputArc(cat("t", t), cat("p", p), m.expr(x.out.back().second, m.types[pt[p]])); desc << " out p" << p << ":" << x.out.back().second.str(); }
                if (r.coin(6)) { uint32_t w = 1 + r.below(9); x.inh.push_back({p, w}); bld.addInputArc(cat("p", p), cat("t", t), m.expr(Arc{0, 1, m.tup(r, m.types[pt[p]]), {}}, m.types[pt[p]]), w); desc << " inhibitor p" << p << ":" << w; } } }
        begin([&] { return desc.str(); });
        check(bld.build() == X::ColoredPetriNetBuilderStatus::OK, "the net is built"); X::ColoredPetriNet net = bld.takeNet();
        for (int p = 0; p < np; ++p) check(tokens(net.initial().markings[p]) == init[p], "the initial marking is the one of the model", cat("place ", p, ": ", s(tokens(net.initial().markings[p])), ", expected ", s(init[p])));
        // what the firing rule of coloured nets says
        std::map<std::pair<int, std::vector<M>>, int> want; std::vector<int> fires(nt, 0);
        for (int t = 0; t < nt; ++t) { T& x = ts[t]; bool inh = false; for (auto& [p, w] : x.inh) inh |= total(init[p]) >= w; if (inh) continue;
            each(m, x.vs, [&](const B& b) { if (x.g && !x.g->val(b)) return; std::vector<M> mk = init; for (auto& [p, a] : x.in) if (!le(a.val(b), init[p])) return; for (auto& [p, a] : x.in) for (auto& [q, n] : a.val(b)) mk[p][q] -= n; for (auto& [p, a] : x.out) for (auto& [q, n] : a.val(b)) mk[p][q] += n; for (auto& z : mk) norm(z); ++want[{t, mk}]; ++fires[t]; }); }
        auto show = [&](const std::pair<int, std::vector<M>>& k) { std::string o = cat("t", k.first, " to"); for (auto& z : k.second) o += " " + s(z); return o; };
        auto compare = [&](const char* how, std::map<std::pair<int, std::vector<M>>, int>& got) {
            for (auto& [k, n] : got) check(want.count(k), "every successor comes from firing an enabled binding", cat(how, ": ", show(k)));
            for (auto& [k, n] : want) check(got.count(k) && got[k] == n, "every enabled binding is fired exactly once", cat(how, ": ", show(k), " expected ", n, " times, got ", got.count(k) ? got[k] : 0)); };
        { X::ColoredSuccessorGenerator g(net); X::ColoredPetriNetStateFixed st(net.initial()); st.id = 0; std::map<std::pair<int, std::vector<M>>, int> got; while (true) { auto [n, step] = g.next(st); if (st.done()) break; std::vector<M> mk; n.shrink(); for (auto& z : n.marking.markings) { mk.push_back(tokens(z)); check((int64_t)z.totalCount() == total(mk.back()), "a fired transition leaves the totals right"); } ++got[{(int)step.transition, mk}];
              X::Binding bd; X::Binding_t again = g.findNextValidBinding(st.marking, step.transition, step.binding, net.getTotalBindings(step.transition), bd, st.id); check(again == step.binding, "a step of a trace is found again", ""); auto mk2 = net.initial(); g.fire(mk2, step.transition, bd); std::vector<M> y; for (auto& z : mk2.markings) y.push_back(tokens(z)); check(y == mk, "a step of a trace is found again", show({(int)step.transition, y})); }
          compare("fixed order", got); }
        { X::ColoredSuccessorGenerator g(net); X::ColoredPetriNetStateEven st(net.initial(), net.getTransitionCount()); st.id = 0; std::map<std::pair<int, std::vector<M>>, int> got; while (true) { auto [n, step] = g.next(st); if (st.done()) break; if (st.shuffle) { st.shuffle = false; continue; } std::vector<M> mk; n.shrink(); for (auto& z : n.marking.markings) mk.push_back(tokens(z)); ++got[{(int)step.transition, mk}]; }
          compare("even order", got); }
        { X::ColoredSuccessorGenerator g(net); bool any = false; for (int t = 0; t < nt; ++t) { any |= fires[t] > 0; check(X::FireabilityChecker::canFire(g, t, net.initial(), 5) == (fires[t] > 0), "a transition is fireable exactly if some binding is enabled", cat("t", t)); } check(X::FireabilityChecker::hasDeadlock(g, net.initial(), 5) == !any, "a deadlock is a marking in which no binding is enabled"); }
    });
    return finish();
}
