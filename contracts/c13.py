"""CTL model checking: every step of the fixed-point algorithms keeps the assignment justified and loses no dependency.

Configurations are known by their address; their fields live in the symbolic heap. A std::forward_list is its original nodes
(positions 1..n, 0 is before_begin, n+1 is end) with a bit per node that says whether it was removed."""
from pqlmodel import *
from vecmodel import Vecs

DG = "DependencyGraph::"
EDGE, CONF = DG + "Edge", DG + "Configuration"
CZ, LF, SS = "Algorithm::CertainZeroFPA", "Algorithm::LocalFPA", "SearchStrategy::SearchStrategy"
ONE, UNKNOWN, ZERO, CZERO = 1, 0, 0xff, 0xfe
EL = z3.Function("element", B64, B64, B64)            # list, position -> the element
LEN = z3.Function("length", B64, B64)
IS = z3.Function("is an element", B64, B64, z3.BoolSort())
SK = z3.Function("some position", B64, B64)           # one arbitrary position of every list
NONE_ = {a: z3.Function("no element is assigned %s" % n, B64, z3.BoolSort()) for a, n in ((ONE, "ONE"), (UNKNOWN, "UNKNOWN"), (ZERO, "ZERO"), (CZERO, "CZERO"))}
QN = z3.BitVec("any node", 64)                        # arbitrary position at which invariants over all nodes are proved
T_, F_ = z3.BoolVal(True), z3.BoolVal(False)


class Graph:
    def __init__(self, k, alg=None):
        self.k = k
        ex = k.ex
        st = k.st
        self.lists = {}
        self.A0 = None
        self.g = k.rec("graph", "vpd::G")
        k.ex.store_raw(st, self.g, 8, Ptr("g:" + vtable("vpd::G"), 16), None)
        self.s = k.rec("strategy", "vpd::S")
        k.ex.store_raw(st, self.s, 8, Ptr("g:" + vtable("vpd::S"), 16), None)
        self.alg = None
        if alg:
            self.alg = k.rec("algorithm", alg)
            k.setf(self.alg, alg, "graph", self.g)
            ex.store_raw(st, self.alg.plus(k.m.path(alg, "strategy")[0]), 8, self.s, None)
        self.akey = (k.m.path(CONF, "assignment")[0], 1)
        self.nkey = (k.m.path(CONF, "nsuccs")[0], 4)
        self.dkey = (k.m.path(CONF, "distance")[0], 4)
        self.deps = k.m.path(CONF, "dependency_set")[0]
        self.tgts = k.m.path(EDGE, "targets")[0]
        for f in (self.akey, self.nkey, self.dkey):
            ex.heap_load(st, Ptr(Abs(BV(1, 64)), f[0]), f[1])
        k.assume_note("std::forward_list behaves as the C++ standard says (begin, end, before_begin, ++, erase_after, insert_after, clear are assumed contracts)")
        self.base = dict(st.heap)
        self.handlers()

    # ---- fields ---------------------------------------------------------
    def h(self, p):
        if z3.is_expr(p) or isinstance(p, Lin):
            return tobv(p, 64)
        p = self.k.ex.aptr(p)
        return self.k.ex.ptr_bv(None, p)

    def A(self, st, c):
        """assignment of configuration c"""
        v = st.heap[self.akey].sel(st, c)
        return v

    def valid(self, a):
        return z3.Or(*[a == x for x in (ONE, UNKNOWN, ZERO, CZERO)])

    def done(self, st, c):
        a = self.A(st, c)
        return z3.Or(a == ONE, a == CZERO)

    def N(self, st, c):
        return st.heap[self.nkey].sel(st, c)

    def setA(self, st, c, a):
        st.heap[self.akey] = FStore(st.heap[self.akey], c, a if z3.is_expr(a) else BV(a, 8))

    def setN(self, st, c, n):
        st.heap[self.nkey] = FStore(st.heap[self.nkey], c, n)

    def gf(self, st, e, f):
        return self.k.getf(self.k.ex.aptr(e), EDGE, f, st)

    def flag(self, st, e, f):
        return tobool(self.gf(st, e, f))

    def ref(self, st, e):
        return tobv(self.gf(st, e, "refcnt"), 32)

    def edge(self, name):
        k = self.k
        e = k.rec(name, EDGE)
        for f in ("processed", "is_negated", "handled"):
            b = k.boolin(name + "." + f)
            k.setf(e, EDGE, f, z3.If(b, BV(1, 8), BV(0, 8)))
        r = k.u32(name + ".refcnt")
        k.st.assume(z3.And(r >= 0, r < (1 << 30)))
        k.assume_note("reference counters of edges stay below 2^30")
        k.setf(e, EDGE, "refcnt", r)
        s = k.u64(name + ".source")
        k.st.assume(z3.UGT(s, 4096))
        k.setf(e, EDGE, "source", Ptr(Abs(s), 0))
        k.st.assume(self.valid(self.A(k.st, s)))
        return e, s

    # ---- lists ----------------------------------------------------------
    def lid(self, st, p):
        """identity of the list object at p"""
        return z3.simplify(self.k.ex.ptr_bv(st, self.k.ex.aptr(p)))

    def open(self, st, p):
        """the nodes of the list at p"""
        for obj, (pp, l) in self.lists.items():
            if obj in st.mem and pp.same(self.k.ex.aptr(p)):
                return Ptr(obj), l
        l = self.lid(st, p)
        n = LEN(l)
        st.assume(z3.ULT(n, BV(1 << 40, 64)))
        facts = st.ghost.get("facts", self.facts)

        def cb(s, i, v):
            out = [z3.UGT(v, BV(4096, 64)), z3.Implies(z3.And(z3.UGE(i, 1), z3.ULE(i, n)), IS(l, v))]
            if facts:
                out += facts(s, l, i, v, z3.And(z3.UGE(i, 1), z3.ULE(i, n)))
            return out
        a = Arr("list", 16, n + 2, {(8, 8): FBase(lambda i: EL(l, i), 64, cb)}, True)
        obj = self.k.ex.new_obj(st, a)
        rm = Arr("removed", 1, n + 2, {(0, 1): FBase(lambda i: BV(0, 8), 8)})
        st.mem[obj + "!"] = rm
        self.lists[obj] = (self.k.ex.aptr(p), l)
        return Ptr(obj), l

    facts = None

    def removed(self, st, obj, i):
        return st.mem[obj + "!"].f[(0, 1)].sel(st, i) != 0

    def points(self, st, obj):
        """positions the universal facts about a list are instantiated at"""
        out = [SK(self.lists[obj][1]), QN]

        def add(v):
            if isinstance(v, PtrInt):
                v = v.p
            if isinstance(v, Ptr) and v.obj == obj:
                q = v.off.split(16)
                if isinstance(q, tuple):
                    b = q[0].bv()
                    if not any(b.eq(x) for x in out):
                        out.append(b)
        for v in st.frames[-1].env.values():
            add(v)
        for o in st.mem.values():
            if isinstance(o, Rec):
                for sz, v in o.f.values():
                    add(v)
        return out

    def next(self, st, obj, p):
        n = st.mem[obj].n - 1
        pts = self.points(st, obj)
        q = fresh("next", 64)
        st.assume(z3.And(z3.UGT(q, p), z3.ULE(q, n), z3.Or(q == n, z3.Not(self.removed(st, obj, q)))))
        for r in pts + [p + 1]:
            st.assume(z3.Implies(z3.And(z3.UGT(r, p), z3.ULT(r, q)), self.removed(st, obj, r)))
        return q

    def pos(self, p):
        return p.off.split(16)[0].bv()

    def at(self, obj, i):
        return Ptr(obj, Lin.of(i).scale(16))

    def handlers(self):
        k = self.k
        FL = r"^std::forward_list<.*>::"

        def begin(ex, st, args, ins):
            p, l = self.open(st, args[0])
            return [(st, self.at(p.obj, self.next(st, p.obj, BV(0, 64))))]

        def bb(ex, st, args, ins):
            p, l = self.open(st, args[0])
            return [(st, self.at(p.obj, BV(0, 64)))]

        def end(ex, st, args, ins):
            p, l = self.open(st, args[0])
            return [(st, self.at(p.obj, st.mem[p.obj].n - 1))]
        k.ex.contract(FL + r"c?begin\(", begin)
        k.ex.contract(FL + r"c?before_begin\(", bb)
        k.ex.contract(FL + r"c?end\(", end)

        def inc(ex, st, args, ins):
            it = ex.load_raw(st, ex.aptr(args[0]), 8, True, None)
            if it.obj not in self.lists:
                raise Unsupported("iterator of an unknown list")
            p = self.pos(it)
            ex.prove(st, z3.ULT(p, st.mem[it.obj].n - 1), "an iterator is advanced only before the end", "pre")
            ex.store_raw(st, ex.aptr(args[0]), 8, self.at(it.obj, self.next(st, it.obj, p)), None)
            return [(st, args[0])]
        k.ex.contract(r"^std::_Fwd_list_(const_)?iterator<.*>::operator\+\+\(\)", inc)

        def empty(ex, st, args, ins):
            p, l = self.open(st, args[0])
            return [(st, self.next(st, p.obj, BV(0, 64)) == st.mem[p.obj].n - 1)]
        k.ex.contract(FL + r"empty\(", empty)

        def erase(ex, st, args, ins):
            it = ex.aptr(args[1])
            q = self.next(st, it.obj, self.pos(it))
            ex.prove(st, z3.ULT(q, st.mem[it.obj].n - 1), "erase_after removes an existing element", "pre")
            rm = st.mem[it.obj + "!"].copy()
            rm.f[(0, 1)] = FStore(rm.f[(0, 1)], q, BV(1, 8))
            st.mem[it.obj + "!"] = rm
            return [(st, self.at(it.obj, self.next(st, it.obj, q)))]
        k.ex.contract(FL + r"erase_after\(std::_Fwd_list_const_iterator<[^,]*>\)$", erase)

    # ---- ghost cells ----------------------------------------------------
    def cells(self, *names):
        st = self.k.st
        self.gh = self.k.ex.new_rec(st, "ghost", 8 * len(names))
        self.at_ = {n: self.gh.plus(8 * i) for i, n in enumerate(names)}
        for n in names:
            self.wr(st, n, BV(0, 64))

    def rd(self, st, n):
        return tobv(self.k.ex.load_raw(st, self.at_[n], 8, False, None), 64)

    def wr(self, st, n, v):
        if z3.is_bool(v):
            v = z3.If(v, BV(1, 64), BV(0, 64))
        self.k.ex.store_raw(st, self.at_[n], 8, v, None)

    def on(self, st, n):
        return self.rd(st, n) != 0


def ptrs(ex, st, lv):
    """pointers to configurations that change in the loop: [(name, handle(state, env))]"""
    out = []
    for i in lv.changed():
        v = lv.entry.get(i)
        if isinstance(v, Ptr) and (v.obj == NULL or isinstance(v.obj, Abs)):
            out.append(("p%d" % i, lambda s, e, i=i: ex.ptr_bv(s, e[i])))
    for (oid, f) in (lv.mmem or {}):
        o = st.mem.get(oid)
        if isinstance(o, Rec) and f in o.f and isinstance(o.f[f][1], Ptr) and (o.f[f][1].obj == NULL or isinstance(o.f[f][1].obj, Abs)):
            out.append(("p:%s+%s" % (o.name, f), lambda s, e, oid=oid, f=f: ex.ptr_bv(s, ex.aptr(s.mem[oid].f[f][1]))))
    return out


def scan_cands(G):
    """candidate invariants of loops over the targets of an edge"""
    def cands(ex, st, lv):
        out = []
        for obj, (pp, l) in list(G.lists.items()):
            if obj not in st.mem:
                continue
            J = SK(l)
            n = st.mem[obj].n - 1
            a = lambda s, l=l, J=J: G.A(s, EL(l, J))
            its = lv.idx(st, Ptr(obj))
            its = [x for x in its if x[0].startswith("it")]
            rm = Ptr(obj + "!")
            out.append(("only targets assigned ONE are removed", UniInv(lambda s, e, q, v, l=l: z3.Implies(v != 0, G.base[G.akey].sel(s, EL(l, q)) == ONE), rm, (0, 1), QN)))
            for i, ix in its:
                out.append((i + " in range", lambda s, e, ix=ix, n=n: z3.ULE(ix(s, e), n)))
                out.append((i + " not head", lambda s, e, ix=ix: z3.UGE(ix(s, e), 1)))
                out.append((i + " before end", lambda s, e, ix=ix, n=n: z3.ULT(ix(s, e), n)))
                out.append((i + " present", lambda s, e, ix=ix, n=n, obj=obj: z3.Or(ix(s, e) == n, ix(s, e) == 0, z3.Not(G.removed(s, obj, ix(s, e))))))
                below = lambda s, e, ix=ix, J=J: z3.And(z3.UGE(J, 1), z3.ULT(J, ix(s, e)))
                out.append((i + ": no CZERO seen", lambda s, e, b=below, a=a: z3.Implies(b(s, e), a(s) != CZERO)))
                for j, jx in its:
                    if i != j:
                        out.append(("%s<%s" % (i, j), lambda s, e, ix=ix, jx=jx: z3.ULT(ix(s, e), jx(s, e))))
                        out.append(("%s is the next of %s" % (j, i), UniInv(lambda s, e, q, v, ix=ix, jx=jx: z3.Implies(z3.And(z3.ULT(ix(s, e), q), z3.ULT(q, jx(s, e))), v != 0), rm, (0, 1), QN)))
                for b, fb in lv.flags(st):
                    out.append(("%s: if %s all seen are ONE" % (i, b), lambda s, e, lo=below, a=a, fb=fb: z3.Implies(z3.And(lo(s, e), fb(s, e)), a(s) == ONE)))
                    out.append(("%s: unless %s all seen are ONE" % (i, b), lambda s, e, lo=below, a=a, fb=fb: z3.Implies(z3.And(lo(s, e), z3.Not(fb(s, e))), a(s) == ONE)))
                    out.append(("%s: unless %s no CZERO seen" % (i, b), lambda s, e, lo=below, a=a, fb=fb: z3.Implies(z3.And(lo(s, e), z3.Not(fb(s, e))), a(s) != CZERO)))
                for b, fb in ptrs(ex, st, lv):
                    out.append(("%s: if %s is null all seen are ONE" % (i, b), lambda s, e, lo=below, a=a, fb=fb: z3.Implies(z3.And(lo(s, e), fb(s, e) == 0), a(s) == ONE)))
                    out.append(("%s: if %s is unknown so are all undecided seen" % (i, b), lambda s, e, lo=below, a=a, fb=fb: z3.Implies(z3.And(lo(s, e), fb(s, e) != 0, G.A(s, fb(s, e)) == UNKNOWN), a(s) != ZERO)))
            for b, fb in lv.flags(st):
                for z, zn in (("if", lambda x: x), ("unless", z3.Not)):
                    out.append(("%s %s not all are ONE" % (z, b), lambda s, e, fb=fb, zn=zn, l=l: z3.Implies(zn(fb(s, e)), z3.Not(G.allone(l)))))
                    out.append(("%s %s some CZERO" % (z, b), lambda s, e, fb=fb, zn=zn, l=l: z3.Implies(zn(fb(s, e)), z3.Not(NONE_[CZERO](l)))))
            for b, fb in ptrs(ex, st, lv):
                out.append(("%s is an undecided element" % b, lambda s, e, fb=fb, l=l: z3.Or(fb(s, e) == 0, z3.And(IS(l, fb(s, e)), z3.Or(G.A(s, fb(s, e)) == ZERO, G.A(s, fb(s, e)) == UNKNOWN)))))
                out.append(("%s is no ONE element" % b, lambda s, e, fb=fb, l=l: z3.Or(fb(s, e) == 0, z3.And(IS(l, fb(s, e)), G.A(s, fb(s, e)) != ONE))))
                out.append(("%s is an object" % b, lambda s, e, fb=fb: z3.Or(fb(s, e) == 0, z3.UGT(fb(s, e), 4096))))
                for c, fc in lv.flags(st):
                    out.append(("%s is set unless %s" % (b, c), lambda s, e, fb=fb, fc=fc: z3.Or(fb(s, e) != 0, fc(s, e))))
                    out.append(("%s is set if %s" % (b, c), lambda s, e, fb=fb, fc=fc: z3.Or(fb(s, e) != 0, z3.Not(fc(s, e)))))
                for a_ in (ONE, ZERO, UNKNOWN, CZERO):
                    out.append(("%s set: some element is %d" % (b, a_), lambda s, e, fb=fb, a_=a_, l=l: z3.Implies(z3.And(fb(s, e) != 0, G.A(s, fb(s, e)) == a_), z3.Not(NONE_[a_](l)))))
                out.append(("%s set: not all ONE" % b, lambda s, e, fb=fb, l=l: z3.Implies(fb(s, e) != 0, z3.Not(G.allone(l)))))
        return out
    return cands


ALLONE = z3.Function("all elements are assigned ONE", B64, z3.BoolSort())
Graph.allone = staticmethod(lambda l: ALLONE(l))


def assignment_facts(G):
    """what the quantified predicates on a list of configurations mean, at every element that is read (assignments as at the start)"""
    base = dict(G.k.st.heap)

    def f(s, l, i, v, inr):
        a = base[G.akey].sel(s, v)
        return [G.valid(a), z3.Implies(z3.And(inr, ALLONE(l)), a == ONE)] + [z3.Implies(z3.And(inr, NONE_[x](l)), a != x) for x in NONE_]
    return f


@contract("C13", "ctl.cpp")
def check_edge(k):
    """checkEdge decides the source only when the edge justifies it, and leaves an undecided edge registered and its target explored"""
    G = Graph(k, CZ)
    st = k.st
    e, src = G.edge("e")
    only = k.boolin("only_assign")
    G.cells("final", "explored", "explored of", "dep", "other dep", "negation", "released")
    L = G.lid(st, e.plus(G.tgts))
    J = SK(L)
    st.assume(z3.And(z3.ULT(J, BV(1 << 40, 64))))
    base = dict(st.heap)
    af = assignment_facts(G)
    G.facts = lambda s, l, i, v, inr: af(s, l, i, v, inr) + [v != src]
    k.assume_note("an edge's source is none of its targets (addTarget drops such edges)")
    n = LEN(L)
    st.assume(z3.ULT(n, BV(1 << 40, 64)))
    tJ = EL(L, J)
    inJ = z3.And(z3.UGE(J, 1), z3.ULE(J, n))
    for g in G.facts(st, L, J, tJ, inJ) + [IS(L, tJ) == True if False else z3.Implies(inJ, IS(L, tJ))]:
        st.assume(g)
    A0 = lambda c: base[G.akey].sel(st, c)
    # the caller holds a reference
    st.assume(G.ref(st, e) >= 1)
    neg0, proc0, hand0 = (G.flag(st, e, f) for f in ("is_negated", "processed", "handled"))
    ns0 = G.N(st, src)
    st.assume(z3.Implies(z3.Not(z3.Or(hand0, G.done(st, src))), z3.UGE(ns0, 1)))
    k.assume_note("checkEdge: the caller holds a reference to the edge; a source that is not done has an edge that is not handled, so its counter is positive")

    def final(ex, s, args, ins):
        c = G.h(args[1])
        a = z3.Extract(7, 0, tobv(args[2], 32))
        ex.prove(s, c == src, "only the source of the edge is decided", "pre")
        ex.prove(s, z3.Not(G.done(s, src)), "a decided configuration is not decided again", "pre")
        ex.prove(s, z3.Implies(z3.Not(z3.Or(hand0, False)), z3.Or(a == ONE, a == CZERO)), "the decision is ONE or CZERO", "pre")
        G.wr(s, "final", z3.If(a == ONE, BV(1, 64), BV(2, 64)))
        G.setA(s, c, a)
        G.setN(s, c, BV(0, 32))
        return [(s, None)]
    k.ex.contract(r"CertainZeroFPA::finalAssign\(DependencyGraph::Configuration\*", final)

    def explore(ex, s, args, ins):
        c = G.h(args[1])
        ex.prove(s, z3.And(IS(L, c), G.A(s, c) == UNKNOWN), "explored is a target that was not explored before", "pre")
        G.wr(s, "explored", T_)
        G.wr(s, "explored of", c)
        a, r = fresh("assigned", 8), fresh("refcnt", 32)
        s.assume(z3.Or(a == ONE, a == ZERO, a == CZERO))
        G.setA(s, c, a)
        r0 = G.ref(s, e)
        s.assume(z3.And(r >= r0 - 1, r <= r0 + 1))
        k.setf(e, EDGE, "refcnt", r, s)
        return [(s, None)]
    k.ex.contract(r"CertainZeroFPA::explore\(", explore)

    def dep(ex, s, args, ins):
        c = G.h(args[0])
        ex.prove(s, z3.And(z3.BoolVal(ex.aptr(args[1]).same(e)), IS(L, c)), "the edge is registered with one of its targets", "pre")
        G.wr(s, "dep", z3.Or(G.on(s, "dep"), c == tJ))
        G.wr(s, "other dep", T_)
        up = freshb("new dependency")
        k.setf(e, EDGE, "refcnt", G.ref(s, e) + z3.If(up, BV(1, 32), BV(0, 32)), s)
        s.assume(G.ref(s, e) < (1 << 30))
        return [(s, None)]
    k.ex.contract(r"Configuration::addDependency\(", dep)

    def negation(ex, s, args, ins):
        ex.prove(s, z3.And(z3.BoolVal(ex.aptr(args[1]).same(e)), neg0), "only negation edges wait for negation", "pre")
        G.wr(s, "negation", T_)
        k.setf(e, EDGE, "refcnt", G.ref(s, e) + 1, s)
        return [(s, None)]
    k.ex.contract(r"SearchStrategy::pushNegation\(", negation)

    def release(ex, s, args, ins):
        ex.prove(s, z3.And(z3.BoolVal(ex.aptr(args[1]).same(e)), G.ref(s, e) == 0), "an edge is released only without references", "pre")
        G.wr(s, "released", T_)
        k.setf(e, EDGE, "refcnt", BV(0xffffffff, 32), s)
        for f in ("processed", "is_negated", "handled"):
            k.setf(e, EDGE, f, BV(0, 8), s)
        return [(s, None)]
    k.ex.contract(r"vpd::G::release\(", release)
    k.assume_note("releasing an edge resets it and sets its reference counter to -1 (OnTheFlyDG::release)")
    k.cover()
    st0 = st.copy()
    sc = scan_cands(G)

    def cands(ex, s, lv):
        out = sc(ex, s, lv)
        for obj, (pp, l) in list(G.lists.items()):
            if obj in s.mem:
                for i, ix in lv.idx(s, Ptr(obj)):
                    if i.startswith("it"):
                        out.append((i + ": registered", lambda s, e_, ix=ix, obj=obj: z3.Implies(z3.And(inJ, z3.ULT(J, ix(s, e_)), z3.Not(G.removed(s, obj, J))), G.on(s, "dep"))))
        for nm in ("refcnt",):
            r1 = G.ref(s, e)
            out.append(("references only grow", lambda s, e_, r1=r1: z3.And(G.ref(s, e) >= r1, G.ref(s, e) >= 1, G.ref(s, e) < (1 << 30))))
        return out
    k.ex.loop_cands = cands
    active = z3.Not(z3.Or(hand0, G.done(st, src)))
    for o in k.run(r"^Algorithm::CertainZeroFPA::checkEdge\(DependencyGraph::Edge\*, bool\)$", [G.alg, e, only]):
        s = o.st
        fin = G.rd(s, "final")
        nothing = z3.And(fin == 0, *[z3.Not(G.on(s, x)) for x in ("explored", "dep", "other dep", "negation")])
        k.prove(s, z3.Implies(z3.Not(active), z3.And(nothing, G.N(s, src) == ns0, G.A(s, src) == A0(src))), "nothing happens for handled edges and decided sources")
        # soundness
        k.prove(s, z3.Implies(z3.And(active, fin == 1, z3.Not(neg0), inJ), A0(tJ) == ONE), "a hyper edge decides ONE only when all targets are ONE")
        k.prove(s, z3.Implies(z3.And(active, fin == 1, neg0, NONE_[CZERO](L)), z3.And(z3.Not(NONE_[ZERO](L)), proc0, z3.Not(only))),
                "a negation edge decides ONE only with a CZERO target, or with an undecided explored one after it was released")
        cnt = G.N(s, src) != ns0
        k.prove(s, z3.Implies(z3.And(active, z3.Or(fin == 2, z3.And(fin == 0, cnt)), z3.Not(neg0)), z3.Not(NONE_[CZERO](L))), "a hyper edge is counted as refuted only with a CZERO target")
        k.prove(s, z3.Implies(z3.And(active, z3.Or(fin == 2, z3.And(fin == 0, cnt)), neg0, inJ), A0(tJ) == ONE), "a negation edge is counted as refuted only when all targets are ONE")
        k.prove(s, z3.Implies(z3.And(active, fin == 2), ns0 == 1), "CZERO only when no other edge is left")
        k.prove(s, z3.Implies(z3.And(active, fin == 0, cnt), z3.And(G.N(s, src) == ns0 - 1, z3.Or(G.flag(s, e, "handled"), G.on(s, "released")))), "a refuted edge is counted once")
        k.prove(s, z3.Implies(z3.And(active, fin == 0, z3.Not(cnt)), z3.Not(G.flag(s, e, "handled"))), "only refuted edges are marked handled")
        # completeness
        k.prove(s, z3.Implies(z3.And(active, z3.Not(neg0), ALLONE(L)), fin == 1), "a hyper edge with all targets ONE decides ONE")
        k.prove(s, z3.Implies(z3.And(active, neg0, inJ, A0(tJ) == CZERO), fin == 1), "a negation edge with a CZERO target decides ONE")
        und = z3.And(active, z3.Not(only), fin == 0, z3.Not(cnt), inJ)
        k.prove(s, z3.Implies(z3.And(und, z3.Not(proc0), z3.Not(neg0), A0(tJ) != ONE), G.on(s, "dep")), "an undecided hyper edge is registered with every undecided target")
        k.prove(s, z3.Implies(z3.And(und, neg0, z3.Not(proc0)), z3.And(G.on(s, "negation"), G.on(s, "other dep"))), "an undecided negation edge waits for its release and for its target")
        k.prove(s, z3.Implies(z3.And(und, NONE_[ZERO](L)), G.on(s, "explored")), "an undecided edge without an explored undecided target has one explored")
        k.prove(s, z3.Implies(z3.And(active, z3.Not(only), fin == 0, z3.Not(cnt)), z3.Or(G.flag(s, e, "processed"), G.on(s, "released"))), "a processed edge is marked")
        k.prove(s, z3.Implies(only, z3.Or(G.flag(s, e, "processed") == proc0, G.on(s, "released"))), "an edge that was only looked at is not marked processed")
        r0 = G.ref(st0, e)
        refuted = z3.Or(fin == 2, z3.And(fin == 0, cnt))
        k.prove(s, z3.Implies(z3.And(only, active, refuted), z3.Or(z3.And(G.on(s, "released"), r0 == 1), G.ref(s, e) == r0 - 1)), "a refuted edge that was only looked at loses the caller's reference")
        k.prove(s, z3.Implies(z3.And(only, z3.Not(z3.And(active, refuted))), z3.And(G.ref(s, e) == r0, z3.Not(G.on(s, "released")))), "any other edge that was only looked at keeps it")
        for obj, (pp, l) in G.lists.items():
            if obj in s.mem and l.eq(L):
                k.prove(s, z3.Implies(z3.And(inJ, G.removed(s, obj, J)), A0(tJ) == ONE), "only targets assigned ONE are removed")


# ---- edges known by their address -----------------------------------------------------------------------------------
KIND = z3.Function("is an edge", B64, z3.BoolSort())


class HeapEdges:
    """edges (list elements, queue entries) in the symbolic heap"""
    def __init__(self, G):
        self.G = G
        k = G.k
        self.key = {}
        for f, sz in (("source", 8), ("status", 1), ("processed", 1), ("is_negated", 1), ("handled", 1), ("refcnt", 4)):
            o, s, _ = k.m.path(EDGE, f)
            self.key[f] = (o, s)
            k.ex.heap_load(k.st, Ptr(Abs(BV(1, 64)), o), s)
        k.assume_note("edges and configurations are different objects")

    def get(self, st, e, f):
        return st.heap[self.key[f]].sel(st, e)

    def put(self, st, e, f, v):
        st.heap[self.key[f]] = FStore(st.heap[self.key[f]], e, v)

    def facts(self, st, v):
        """an edge object in state st"""
        src = self.get(st, v, "source")
        r = self.get(st, v, "refcnt")
        return [KIND(v), z3.Not(KIND(src)), z3.UGT(src, 4096), self.G.valid(self.G.A(st, src)), r < (1 << 30)] + [z3.ULE(self.get(st, v, f), 1) for f in ("processed", "is_negated", "handled")]

    def release(self, what, on=None):
        k = self.G.k

        def h(ex, s, args, ins):
            v = self.G.h(args[1])
            ex.prove(s, self.get(s, v, "refcnt") == 0, "an edge is released only without references", "pre")
            self.put(s, v, "refcnt", BV(0xffffffff, 32))
            if on:
                on(s, v)
            return [(s, None)]
        k.ex.contract(r"vpd::G::release\(", h)
        k.assume_note("releasing an edge resets it and sets its reference counter to -1 (OnTheFlyDG::release)")


def final_assign_of(k, alg):
    local = alg == LF
    G = Graph(k, alg)
    E = HeapEdges(G)
    st = k.st
    c = k.u64("configuration")
    a = k.bvin("value", 32)
    st.assume(z3.And(z3.UGT(c, 4096), z3.Not(KIND(c)), a == ONE if local else z3.Or(a == ONE, a == BV(0xfffffffe, 32))))
    L = G.lid(st, Ptr(Abs(c), G.deps))
    J = SK(L)
    n = LEN(L)
    eJ = EL(L, J)
    inJ = z3.And(z3.UGE(J, 1), z3.ULE(J, n))
    base = dict(st.heap)
    st.assume(z3.ULT(n, BV(1 << 40, 64)))
    b0 = st.copy()
    rf = lambda v: base[E.key["refcnt"]].sel(b0, v)

    def facts(s, l, i, v, inr):
        return [z3.Implies(inr, x) for x in E.facts(b0, v)] + [z3.Implies(inr, z3.And(rf(v) >= 1, rf(v) < (1 << 29), base[E.key["source"]].sel(b0, v) != c)), z3.Implies(z3.And(inr, inJ, i != J), v != eJ)]
    G.facts = facts
    for g in facts(st, L, J, eJ, inJ):
        st.assume(g)
    k.assume_note("every edge in a dependency list holds a reference for it, occurs in it once, and its source is not the configuration itself")
    sJ = base[E.key["source"]].sel(b0, eJ)
    und = z3.Not(G.done(st, sJ))
    G.cells("pushed", "released", "cleared")

    def push(ex, s, args, ins):
        v = G.h(args[1])
        G.wr(s, "pushed", z3.If(v == eJ, G.rd(s, "pushed") + 1, G.rd(s, "pushed")))
        dem = ex.m.fns[ins["callee"][1]]["dem"]
        lost = G.done(s, E.get(s, v, "source")) if "pushNegation" not in dem else F_
        E.put(s, v, "refcnt", E.get(s, v, "refcnt") + z3.If(lost, BV(0, 32), BV(1, 32)))
        return [(s, None)]
    k.ex.contract(r"SearchStrategy::push(Dependency|Negation|Edge)\(", push)
    E.release("", lambda s, v: G.wr(s, "released", z3.Or(G.on(s, "released"), v == eJ)))

    def clear(ex, s, args, ins):
        ex.prove(s, G.lid(s, args[0]) == L, "only this dependency list is cleared", "pre")
        G.wr(s, "cleared", T_)
        return [(s, None)]
    k.ex.contract(r"^std::forward_list<.*>::clear\(", clear)
    k.cover()
    RJ = lambda s: E.get(s, eJ, "refcnt")
    r0 = rf(eJ)
    goodJ = lambda s: z3.And(z3.Implies(und, G.on(s, "pushed")), z3.If(G.on(s, "released"), z3.And(z3.Not(und), r0 == 1),
                             z3.Or(z3.And(und, RJ(s) == r0), z3.And(z3.Not(und), z3.Or(RJ(s) == r0, RJ(s) == r0 - 1), RJ(s) != 0))))
    rest = lambda s: z3.And(RJ(s) == r0, G.rd(s, "pushed") == 0, z3.Not(G.on(s, "released")))

    def cands(ex, s, lv):
        out = []
        for obj, (pp, l) in list(G.lists.items()):
            if obj not in s.mem:
                continue
            for i, ix in lv.idx(s, Ptr(obj)):
                if i.startswith("it"):
                    out.append((i + " in range", lambda s, e, ix=ix: z3.And(z3.UGE(ix(s, e), 1), z3.ULE(ix(s, e), n + 1))))
                    out.append((i + ": served", lambda s, e, ix=ix: z3.Implies(z3.And(inJ, z3.ULT(J, ix(s, e))), goodJ(s))))
                    out.append((i + ": untouched", lambda s, e, ix=ix: z3.Implies(z3.And(inJ, z3.UGE(J, ix(s, e))), rest(s))))
        out.append(("references of other edges", lambda s, e: T_))
        out.append(("decided", lambda s, e: z3.And(G.A(s, c) == z3.Extract(7, 0, a))))
        out.append(("sources keep", lambda s, e: E.get(s, eJ, "source") == sJ))
        return out
    k.ex.loop_cands = cands
    for o in k.run(r"^%s::finalAssign\(DependencyGraph::Configuration\*, " % alg, [G.alg, Ptr(Abs(c), 0), a]):
        s = o.st
        k.prove(s, G.A(s, c) == z3.Extract(7, 0, a), "the configuration gets the value")
        k.prove(s, z3.Implies(z3.And(inJ, und), G.on(s, "pushed")), "every edge waiting for the configuration is scheduled")
        k.prove(s, z3.Implies(inJ, goodJ(s)), "the reference of the dependency list is given back once")
        k.prove(s, G.on(s, "cleared"), "the dependency list is emptied")
        if not local:
            k.prove(s, G.N(s, c) == 0, "no open successor is left")


@contract("C13", "ctl.cpp")
def final_assign(k):
    """a decided configuration wakes every edge that waits for it"""
    final_assign_of(k, CZ)


@contract("C13", "ctl.cpp")
def local_final_assign(k):
    """the same for the local algorithm"""
    final_assign_of(k, LF)


def explore_of(k, alg):
    local = alg == LF
    G = Graph(k, alg)
    E = HeapEdges(G)
    st = k.st
    c, n, J = k.u64("configuration"), k.u64("number of edges"), k.u64("some edge")
    st.assume(z3.And(z3.UGT(c, 4096), z3.Not(KIND(c)), z3.ULT(n, BV(1 << 31, 64)), G.A(st, c) == UNKNOWN))
    k.assume_note("fewer than 2^31 edges leave one configuration")
    ids = fresh_arr("edges", 64)
    eJ = ids(J)
    base = dict(st.heap)
    b0 = st.copy()
    inJ = z3.ULT(J, n)

    def facts(s, i, v):
        inr = z3.ULT(i, n)
        return [z3.Implies(inr, x) for x in E.facts(b0, v) + [base[E.key["refcnt"]].sel(b0, v) == 1, base[E.key["source"]].sel(b0, v) == c, base[E.key["status"]].sel(b0, v) == 0,
                                                              base[E.key["handled"]].sel(b0, v) == 0, z3.UGT(v, 4096)]] + [z3.Implies(z3.And(inr, inJ, i != J), v != eJ)]
    for g in facts(st, J, eJ):
        st.assume(g)
    k.assume_note("the graph hands out every edge of a configuration once, fresh: one reference, not handled, not queued")
    arr = k.ex.new_arr(st, "edges", "unsigned long", n, None, True)
    ar = st.mem[arr.obj].copy()
    ar.f[(0, 8)] = FBase(ids, 64, facts)
    st.mem[arr.obj] = ar
    G.cells("asked", "checked", "pushed", "final", "released")

    def succ(ex, s, args, ins):
        ex.prove(s, G.h(args[2]) == c, "the edges of this configuration are asked for", "pre")
        ex.prove(s, z3.Not(G.on(s, "asked")), "once", "pre")
        G.wr(s, "asked", T_)
        v = ex.aptr(args[0])
        ex.store_raw(s, v, 8, arr, None)
        for o in (8, 16):
            ex.store_raw(s, v.plus(o), 8, arr.plus(Lin.of(n).scale(8)), None)
        return [(s, None)]
    k.ex.contract(r"vpd::G::successors\(", succ)
    k.ex.contract(r"^std::vector<DependencyGraph::Edge\*.*>::~vector\(", lambda ex, s, args, ins: [(s, None)])
    k.ex.contract(r"vpd::S::flush\(", lambda ex, s, args, ins: [(s, None)])

    def check(ex, s, args, ins):
        v = G.h(args[1])
        ex.prove(s, tobool(args[2]), "while exploring, edges are only looked at", "pre")
        ex.prove(s, z3.And(z3.Implies(z3.And(inJ, v == eJ), E.get(s, v, "refcnt") == 1), G.A(s, c) == ZERO, z3.UGE(G.N(s, c), 1)), "checkEdge requires: a reference, an undecided source with open edges", "pre")
        w = fresh("outcome", 2)
        G.wr(s, "checked", z3.Or(G.on(s, "checked"), v == eJ))
        nc = G.N(s, c)
        E.put(s, v, "refcnt", z3.If(w == 2, BV(0xffffffff, 32), E.get(s, v, "refcnt")))
        G.setA(s, c, z3.If(w == 1, BV(ONE, 8), z3.If(z3.And(w == 2, nc == 1), BV(CZERO, 8), BV(ZERO, 8))))
        G.setN(s, c, z3.If(w == 1, BV(0, 32), z3.If(w == 2, nc - 1, nc)))
        return [(s, None)]
    k.ex.contract(r"CertainZeroFPA::checkEdge\(", check)

    def final(ex, s, args, ins):
        ex.prove(s, z3.And(G.h(args[1]) == c, tobv(args[2], 32) == BV(0xfffffffe, 32), G.N(s, c) == 0, n == 0), "decides only a configuration without edges, as CZERO", "pre")
        G.wr(s, "final", T_)
        G.setA(s, c, CZERO)
        return [(s, None)]
    k.ex.contract(r"::finalAssign\(DependencyGraph::Configuration\*", final)

    def push(ex, s, args, ins):
        v = G.h(args[1])
        ex.prove(s, z3.And(z3.Implies(z3.And(inJ, v == eJ), E.get(s, v, "refcnt") >= 1), z3.Not(G.done(s, c))), "an edge is scheduled while it is referenced and its source open", "pre")
        G.wr(s, "pushed", z3.Or(G.on(s, "pushed"), v == eJ))
        E.put(s, v, "refcnt", E.get(s, v, "refcnt") + 1)
        return [(s, None)]
    k.ex.contract(r"SearchStrategy::pushEdge\(", push)
    E.release("", lambda s, v: G.wr(s, "released", z3.Or(G.on(s, "released"), v == eJ)))
    k.cover()
    RJ = lambda s: E.get(s, eJ, "refcnt")

    def cands(ex, s, lv):
        out = []
        for i, ix in lv.ints(s):
            t = lambda s, e, ix=ix: z3.Extract(31, 0, ix(s, e))
            out.append((i + " open edges", lambda s, e, t=t: z3.And(z3.UGE(G.N(s, c), t(s, e) + 1), t(s, e) >= -1)))
            out.append((i + " open edges exactly", lambda s, e, t=t: z3.Implies(n != 0, z3.UGE(G.N(s, c), 1))))
            out.append((i + " in range", lambda s, e, t=t: t(s, e) < z3.Extract(31, 0, n)))
            out.append((i + " checked above", lambda s, e, t=t: z3.Implies(z3.And(inJ, z3.Extract(31, 0, J) > t(s, e)), G.on(s, "checked"))))
            out.append((i + " untouched", lambda s, e, t=t: z3.Implies(z3.And(inJ, z3.Extract(31, 0, J) <= t(s, e)), z3.And(RJ(s) == 1))))
            out.append((i + " upwards in range", lambda s, e, ix=ix: z3.ULE(ix(s, e), n)))
            out.append((i + " upwards checked", lambda s, e, ix=ix: z3.Implies(z3.And(inJ, z3.ULT(J, ix(s, e))), G.on(s, "checked"))))
            out.append((i + " upwards untouched", lambda s, e, ix=ix: z3.Implies(z3.And(inJ, z3.UGE(J, ix(s, e))), z3.And(RJ(s) == 1, z3.Not(G.on(s, "checked"))))))
            out.append((i + " upwards open", lambda s, e, ix=ix: z3.UGE(z64(G.N(s, c)), n - ix(s, e))))
        for i, ix in lv.idx(s, arr):
            out.append((i + "<=n", lambda s, e, ix=ix: z3.ULE(ix(s, e), n)))
            r1 = RJ(s)
            out.append((i + " rest as before", lambda s, e, ix=ix, r1=r1: z3.Implies(z3.And(inJ, z3.UGE(J, ix(s, e))), z3.And(RJ(s) == r1, z3.Not(G.on(s, "pushed"))))))
            out.append((i + " scheduled below", lambda s, e, ix=ix, r1=r1: z3.Implies(z3.And(inJ, z3.ULT(J, ix(s, e)), r1 > 0), z3.And(G.on(s, "pushed"), RJ(s) == r1))))
            out.append((i + " refuted below", lambda s, e, ix=ix, r1=r1: z3.Implies(z3.And(inJ, z3.ULT(J, ix(s, e)), r1 <= 0), z3.And(z3.Not(G.on(s, "pushed")), RJ(s) < 0))))
        out.append(("edge is new, or refuted", lambda s, e: z3.Implies(inJ, z3.Or(RJ(s) == 1, RJ(s) == BV(0xffffffff, 32)))))
        out.append(("being explored", lambda s, e: G.A(s, c) == ZERO))
        out.append(("decided", lambda s, e: G.done(s, c)))
        out.append(("not scheduled yet", lambda s, e: z3.Not(G.on(s, "pushed"))))
        out.append(("not checked", lambda s, e: z3.Not(G.on(s, "checked"))))
        out.append(("at most all edges open", lambda s, e: z3.ULE(z64(G.N(s, c)), n)))
        out.append(("open edges left", lambda s, e: z3.UGE(G.N(s, c), 1)))
        j = z3.BitVec("j", 64)
        return out
    k.ex.loop_cands = cands
    for o in k.run(r"^%s::explore\(DependencyGraph::Configuration\*" % alg, [G.alg, Ptr(Abs(c), 0)]):
        s = o.st
        k.prove(s, G.on(s, "asked"), "the edges are generated")
        if local:
            k.prove(s, G.A(s, c) == ZERO, "an explored configuration is assigned ZERO")
            k.prove(s, z3.Implies(inJ, z3.And(G.on(s, "pushed"), RJ(s) == 1)), "every edge is scheduled and only the queue keeps a reference")
            continue
        k.prove(s, z3.Or(G.A(s, c) == ZERO, G.done(s, c)), "an explored configuration is not UNKNOWN")
        k.prove(s, z3.Implies(n == 0, G.A(s, c) == CZERO), "without edges the configuration is CZERO")
        und = z3.And(inJ, z3.Not(G.done(s, c)))
        k.prove(s, z3.Implies(z3.And(und, z3.Not(G.on(s, "checked"))), G.on(s, "pushed")), "an edge is looked at or scheduled")
        k.prove(s, z3.Implies(und, z3.Or(G.on(s, "pushed"), RJ(s) < 0)), "an undecided configuration has every edge scheduled that is not refuted")
        k.prove(s, z3.Implies(z3.And(und, G.on(s, "pushed")), RJ(s) == 1), "only the queue keeps a reference")
        k.prove(s, z3.Implies(z3.Not(G.done(s, c)), z3.UGE(G.N(s, c), 1)), "an undecided configuration has open edges")


@contract("C13", "ctl.cpp")
def explore(k):
    """explore: every edge is looked at, then scheduled unless refuted; without edges the configuration is CZERO"""
    explore_of(k, CZ)


@contract("C13", "ctl.cpp")
def local_explore(k):
    """the same for the local algorithm: every edge is scheduled"""
    explore_of(k, LF)


@contract("C13", "ctl.cpp")
def add_dependency(k):
    """addDependency: the edge is registered exactly once, the list stays sorted, and the distance grows to what the edge needs"""
    G = Graph(k)
    E = HeapEdges(G)
    st = k.st
    c, e = k.u64("configuration"), k.u64("edge")
    st.assume(z3.And(z3.UGT(c, 4096), z3.UGT(e, 4096), z3.Not(KIND(c)), G.valid(G.A(st, c)), E.get(st, e, "refcnt") >= 0, *E.facts(st, e)))
    src = E.get(st, e, "source")
    L = G.lid(st, Ptr(Abs(c), G.deps))
    J, n = SK(L), LEN(L)
    inJ = z3.And(z3.UGE(J, 1), z3.ULE(J, n))
    st.assume(z3.ULT(n, BV(1 << 40, 64)))
    NOTIN = k.boolin("the edge is not registered yet")

    def facts(s, l, i, v, inr):
        return [KIND(v), z3.Implies(z3.And(inr, NOTIN), v != e), z3.Implies(z3.And(inr, inJ, z3.ULT(i, J)), z3.ULT(v, EL(l, J))), z3.Implies(z3.And(inr, inJ, z3.UGT(i, J)), z3.UGT(v, EL(l, J)))]
    G.facts = facts
    for g in facts(st, L, J, EL(L, J), inJ):
        st.assume(g)
    k.assume_note("dependency lists are sorted by address (kept by addDependency, the only writer besides clear)")
    D = lambda s, x: s.heap[G.dkey].sel(s, x)
    d0, ds, r0, a0 = D(st, c), D(st, src), E.get(st, e, "refcnt"), G.A(st, c)
    st.assume(z3.And(z3.ULT(ds, BV(0xffffffff, 32)), r0 < (1 << 29)))
    G.cells("inserted")

    def ins(ex, s, args, i_):
        it = ex.aptr(args[1])
        p = G.pos(it)
        v = G.h(ex.load_raw(s, ex.aptr(args[2]), 8, True, None)) if isinstance(args[2], Ptr) else G.h(args[2])
        ex.prove(s, v == e, "the edge is inserted", "pre")
        ex.prove(s, z3.Not(G.on(s, "inserted")), "once", "pre")
        ex.prove(s, z3.Implies(inJ, z3.If(z3.ULE(J, p), z3.ULT(EL(L, J), e), z3.UGT(EL(L, J), e))), "the list stays sorted and without duplicates", "pre")
        G.wr(s, "inserted", T_)
        return [(s, it)]
    k.ex.contract(r"^std::forward_list<.*>::insert_after\(", ins)
    k.cover()

    def cands(ex, s, lv):
        out = []
        for obj, (pp, l) in list(G.lists.items()):
            if obj not in s.mem:
                continue
            for i, ix in lv.idx(s, Ptr(obj)):
                if i.startswith("it"):
                    out.append((i + " in range", lambda s, e_, ix=ix: z3.ULE(ix(s, e_), n + 1)))
                    out.append((i + " not head", lambda s, e_, ix=ix: z3.UGE(ix(s, e_), 1)))
                    out.append((i + " not end", lambda s, e_, ix=ix: z3.ULE(ix(s, e_), n)))
                    out.append((i + ": smaller below", lambda s, e_, ix=ix: z3.Implies(z3.And(inJ, z3.ULT(J, ix(s, e_))), z3.ULT(EL(L, J), e))))
                    out.append((i + ": smaller up to", lambda s, e_, ix=ix: z3.Implies(z3.And(inJ, z3.ULE(J, ix(s, e_))), z3.ULT(EL(L, J), e))))
                    out.append((i + ": not there below", lambda s, e_, ix=ix: z3.Implies(z3.And(inJ, z3.ULT(J, ix(s, e_))), EL(L, J) != e)))
                    for j, jx in lv.idx(s, Ptr(obj)):
                        if j.startswith("it") and i != j:
                            out.append((i + " follows " + j, lambda s, e_, ix=ix, jx=jx: ix(s, e_) == jx(s, e_) + 1))
        return out
    k.ex.loop_cands = cands
    for o in k.run(r"^DependencyGraph::Configuration::addDependency\(", [Ptr(Abs(c), 0), Ptr(Abs(e), 0)]):
        s = o.st
        one = a0 == ONE
        inserted = G.on(s, "inserted")
        k.prove(s, z3.Implies(z3.And(z3.Not(one), NOTIN), inserted), "an edge that is not registered gets registered")
        k.prove(s, z3.Implies(z3.And(inserted, inJ), EL(L, J) != e), "no edge is registered twice")
        k.prove(s, E.get(s, e, "refcnt") == r0 + z3.If(inserted, BV(1, 32), BV(0, 32)), "the reference counter grows with the registration")
        need = ds + z3.If(E.get(st, e, "is_negated") != 0, BV(1, 32), BV(0, 32))
        k.prove(s, z3.Implies(z3.Not(one), D(s, c) == z3.If(z3.UGT(need, d0), need, d0)), "the distance is at least that of the source, plus one over a negation")
        k.prove(s, z3.And(G.A(s, c) == a0, z3.Implies(one, z3.And(D(s, c) == d0, z3.Not(inserted)))), "nothing else changes")


# ---- the search strategy --------------------------------------------------------------------------------------------
class Strat:
    """the waiting lists of a strategy; pushes and pops are events on one arbitrary edge"""
    def __init__(self, k):
        self.k = k
        self.G = G = Graph(k)
        self.E = HeapEdges(G)
        st = k.st
        self.oN, self.oD = k.m.path(SS, "N")[0], k.m.path(SS, "D")[0]
        self.edges = {}
        G.cells("to N", "to D", "to W", "from D", "from W", "pushes")
        self.nN, self.nD, self.nW = k.u64("size of N"), k.u64("size of D"), k.u64("size of W")
        for x in (self.nN, self.nD, self.nW):
            st.assume(z3.ULT(x, BV(1 << 40, 64)))
        self.back = k.u64("last of D")
        self.front = k.u64("next of W")
        G.facts = None
        V = r"^std::vector<DependencyGraph::Edge\*.*>::"

        def which(ex, p):
            p = ex.aptr(p)
            if not (isinstance(p, Ptr) and p.obj == G.s.obj):
                raise Unsupported("an unknown vector")
            o = p.off.const()
            if o not in (self.oN, self.oD):
                raise Unsupported("an unknown vector")
            return "N" if o == self.oN else "D"
        self.which = which

        def push(ex, s, args, ins):
            w = which(ex, args[0])
            v = G.h(ex.load_raw(s, ex.aptr(args[1]), 8, True, None))
            self.pushed(s, "to " + w, v)
            return [(s, None)]
        k.ex.contract(V + r"(push_back|emplace_back)", push)

        def toW(ex, s, args, ins):
            self.pushed(s, "to W", G.h(args[1]))
            return [(s, None)]
        k.ex.contract(r"vpd::S::pushToW\(", toW)
        k.ex.contract(r"vpd::S::Wsize\(", lambda ex, s, args, ins: [(s, self.nW + G.rd(s, "to W") - G.rd(s, "from W"))])
        k.ex.contract(V + r"empty\(", lambda ex, s, args, ins: [(s, self.size(s, which(ex, args[0])) == 0)])
        k.ex.contract(V + r"size\(", lambda ex, s, args, ins: [(s, self.size(s, which(ex, args[0])))])

        def popW(ex, s, args, ins):
            ex.prove(s, z3.UGT(self.nW, 0), "W is popped only when it is not empty", "pre")
            G.wr(s, "from W", G.rd(s, "from W") + 1)
            return [(s, Ptr(Abs(self.front), 0))]
        k.ex.contract(r"vpd::S::popFromW\(", popW)
        slot = k.ex.new_rec(st, "back of D", 8)
        k.ex.store_raw(st, slot, 8, Ptr(Abs(self.back), 0), None)

        def back(ex, s, args, ins):
            if which(ex, args[0]) != "D":
                raise Unsupported("back of N")
            ex.prove(s, z3.UGT(self.nD, 0), "D has a last element", "pre")
            return [(s, slot)]
        k.ex.contract(V + r"back\(", back)

        def popb(ex, s, args, ins):
            if which(ex, args[0]) != "D":
                raise Unsupported("pop of N")
            ex.prove(s, z3.UGT(self.nD, 0), "D is popped only when it is not empty", "pre")
            G.wr(s, "from D", G.rd(s, "from D") + 1)
            return [(s, None)]
        k.ex.contract(V + r"pop_back\(", popb)

    def size(self, s, w):
        G = self.G
        if w == "D":
            return self.nD + G.rd(s, "to D") - G.rd(s, "from D")
        return self.nN + G.rd(s, "to N")

    def pushed(self, s, w, v):
        G = self.G
        if getattr(self, "e", None) is not None:
            self.k.prove(s, v == self.e, "the edge itself is queued", kind="pre")
        G.wr(s, w, G.rd(s, w) + 1)

    def subject(self):
        k, G, E = self.k, self.G, self.E
        st = k.st
        e = k.u64("edge")
        st.assume(z3.And(z3.UGT(e, 4096), E.get(st, e, "refcnt") >= 0, *E.facts(st, e)))
        k.assume_note("reference counters of edges stay below 2^30")
        self.e = e
        self.src = E.get(st, e, "source")
        L = self.L = G.lid(st, Ptr(Abs(e), G.tgts))
        self.J, self.n = SK(L), LEN(L)
        self.inJ = z3.And(z3.UGE(self.J, 1), z3.ULE(self.J, self.n))
        st.assume(z3.ULT(self.n, BV(1 << 40, 64)))
        af = assignment_facts(G)
        G.facts = lambda s, l, i, v, inr: af(s, l, i, v, inr) + [z3.Not(KIND(v))]
        for g in G.facts(st, L, self.J, EL(L, self.J), self.inJ):
            st.assume(g)
        k.ex.loop_cands = scan_cands(G)
        return e


@contract("C13", "ctl.cpp")
def push_negation(k):
    """pushNegation: an undecided negation edge is put aside in N, never into D"""
    S = Strat(k)
    G, E = S.G, S.E
    e = S.subject()
    r0 = E.get(k.st, e, "refcnt")
    k.cover()
    tJ = EL(S.L, S.J)
    a0 = G.base[G.akey].sel(k.st, tJ)
    for o in k.run(r"^SearchStrategy::SearchStrategy::pushNegation\(", [G.s, Ptr(Abs(e), 0)]):
        s = o.st
        n, d = G.rd(s, "to N"), G.rd(s, "to D")
        k.prove(s, z3.And(n + d == 1, z3.Or(n == 0, d == 0), G.rd(s, "to W") == 0), "the edge is queued exactly once")
        k.prove(s, E.get(s, e, "refcnt") == r0 + 1, "the queue holds one reference")
        k.prove(s, E.get(s, e, "status") != 0, "the edge is marked queued")
        k.prove(s, z3.Implies(z3.And(d == 1, NONE_[CZERO](S.L), S.inJ), a0 == ONE), "an edge that may still change is not treated as decided")


@contract("C13", "ctl.cpp")
def push_edge(k):
    """pushEdge and pushDependency: an edge with an open source is queued; a processed negation edge waits in N"""
    for fn, dep in (("pushEdge", False), ("pushDependency", True)):
        st0 = k.st
        k.st = st0.copy()
        del k.ex.contracts[:]
        S = Strat(k)
        G, E = S.G, S.E
        e = S.subject()
        st = k.st
        r0, q0 = E.get(st, e, "refcnt"), E.get(st, e, "status")
        done = G.done(st, S.src)
        negp = z3.And(E.get(st, e, "processed") != 0, E.get(st, e, "is_negated") != 0)

        def neg(ex, s, args, ins):
            ex.prove(s, z3.And(G.h(args[1]) == e), "the edge itself", "pre")
            G.wr(s, "to N", G.rd(s, "to N") + 1)
            E.put(s, e, "status", BV(3, 8))
            E.put(s, e, "refcnt", E.get(s, e, "refcnt") + 1)
            return [(s, None)]
        k.ex.contract_first(r"SearchStrategy::pushNegation\(", neg)
        k.cover()
        for o in k.run(r"^SearchStrategy::SearchStrategy::%s\(" % fn, [G.s, Ptr(Abs(e), 0)]):
            s = o.st
            n, d, w = (G.rd(s, "to " + x) for x in "NDW")
            cnt = n + d + w
            k.prove(s, z3.And(z3.ULE(cnt, 1), z3.ULE(n, 1), z3.ULE(d, 1), z3.ULE(w, 1)), fn + ": at most once")
            k.prove(s, z3.Implies(z3.And(z3.Not(done), True if dep else q0 == 0), cnt == 1), fn + ": an edge with an open source is queued")
            k.prove(s, E.get(s, e, "refcnt") == r0 + z3.Extract(31, 0, cnt), fn + ": one reference per queue entry")
            k.prove(s, z3.Implies(cnt == 1, E.get(s, e, "status") != 0), fn + ": the edge is marked queued")
            if not dep:
                k.prove(s, z3.Implies(z3.And(negp, cnt == 1), n == 1), fn + ": a processed negation edge waits for its release")
        k.st = st0


@contract("C13", "ctl.cpp")
def pop_edge(k):
    """popEdge, empty, available"""
    S = Strat(k)
    G, E = S.G, S.E
    st = k.st
    for x in (S.back, S.front):
        st.assume(z3.And(z3.UGT(x, 4096), KIND(x), E.get(st, x, "refcnt") >= 1, E.get(st, x, "refcnt") < (1 << 30)))
    sat = k.boolin("saturate")
    k.cover()
    for o in k.run(r"^SearchStrategy::SearchStrategy::popEdge\(", [G.s, sat]):
        s = o.st
        r = G.h(o.val)
        d, w = G.rd(s, "from D"), G.rd(s, "from W")
        nothing = z3.And(S.nD == 0, z3.Or(S.nW == 0, sat))
        k.prove(s, (r == 0) == nothing, "no edge is returned only when none is available")
        k.prove(s, z3.Implies(r == 0, z3.And(d == 0, w == 0)), "nothing is dropped")
        k.prove(s, z3.Implies(r != 0, z3.And(d + w == 1, z3.Or(d == 0, w == 0), r == z3.If(d == 1, S.back, S.front))), "the edge returned leaves its queue, no other does")
        k.prove(s, z3.Implies(r != 0, z3.And(E.get(s, r, "refcnt") == E.get(st, r, "refcnt") - 1, E.get(s, r, "status") == 0)), "the queue's reference is given back and the edge can be queued again")
    for fn, g in ((r"empty\(\) const", z3.And(S.nN == 0, S.nD == 0, S.nW == 0)), (r"available\(\) const", z3.Or(S.nD != 0, S.nW != 0))):
        for o in k.run(r"^SearchStrategy::SearchStrategy::" + fn, [G.s]):
            k.prove(o.st, tobool(o.val) == g, fn.split("\\")[0])


class NegList:
    """the vector N as nodes with a removed bit (iterators only; any other access is not supported)"""
    def __init__(self, k):
        self.k = k
        self.S = S = Strat(k)
        self.G, self.E = G, E = S.G, S.E
        st = k.st
        self.l = BV(77, 64)
        n = self.n = S.nN
        l = self.l
        self.J = J = SK(l)
        self.eJ = eJ = EL(l, J)
        self.inJ = inJ = z3.And(z3.UGE(J, 1), z3.ULE(J, n))
        b0 = st.copy()
        self.D = lambda s, x: s.heap[G.dkey].sel(s, x)
        self.extra = None

        def cb(s, i, v):
            inr = z3.And(z3.UGE(i, 1), z3.ULE(i, n))
            out = [z3.Implies(inr, x) for x in E.facts(b0, v) + [z3.UGT(v, 4096), E.get(b0, v, "refcnt") >= 1]] + [z3.Implies(z3.And(inr, inJ, i != J), v != eJ)]
            if self.extra:
                out += self.extra(b0, i, v, inr)
            return out
        self.cb = cb
        k.assume_note("an edge is at most once in N")
        self.obj = k.ex.new_obj(st, Arr("N", 16, n + 2, {(0, 8): FBase(lambda i: EL(l, i), 64, cb)}, True))
        st.mem[self.obj + "!"] = Arr("removed", 1, n + 2, {(0, 1): FBase(lambda i: BV(0, 8), 8)})
        G.lists[self.obj] = (Ptr(self.obj), l)
        self.src = E.get(b0, eJ, "source")
        V = r"^std::vector<DependencyGraph::Edge\*.*>::"

        def isN(ex, a):
            if S.which(ex, a) != "N":
                raise Unsupported("iterating D")

        def begin(ex, s, args, ins):
            isN(ex, args[0])
            return [(s, G.at(self.obj, G.next(s, self.obj, BV(0, 64))))]

        def end(ex, s, args, ins):
            isN(ex, args[0])
            return [(s, G.at(self.obj, n + 1))]

        def inc(ex, s, args, ins):
            it = ex.load_raw(s, ex.aptr(args[0]), 8, True, None)
            if not isinstance(it, Ptr) or it.obj != self.obj:
                return NotImplemented
            p = G.pos(it)
            ex.prove(s, z3.ULT(p, n + 1), "an iterator is advanced only before the end", "pre")
            ex.store_raw(s, ex.aptr(args[0]), 8, G.at(self.obj, G.next(s, self.obj, p)), None)
            return [(s, args[0])]

        def empty(ex, s, args, ins):
            if S.which(ex, args[0]) != "N":
                return NotImplemented
            return [(s, G.next(s, self.obj, BV(0, 64)) == n + 1)]

        def erase(ex, s, args, ins):
            isN(ex, args[0])
            it = ex.aptr(args[1])
            p = G.pos(it)
            ex.prove(s, z3.And(z3.UGE(p, 1), z3.ULE(p, n), z3.Not(G.removed(s, self.obj, p))), "erases an element of N", "pre")
            rm = s.mem[self.obj + "!"].copy()
            rm.f[(0, 1)] = FStore(rm.f[(0, 1)], p, BV(1, 8))
            s.mem[self.obj + "!"] = rm
            return [(s, G.at(self.obj, G.next(s, self.obj, p)))]
        for nm, f in ((V + r"c?begin\(", begin), (V + r"c?end\(", end), (V + r"empty\(", empty), (V + r"erase\(__gnu_cxx::__normal_iterator<[^,]*, [^()]*>\)$", erase),
                      (r"^__gnu_cxx::__normal_iterator<DependencyGraph::Edge\*.*>::operator\+\+\(\)", inc)):
            k.ex.contract_first(nm, f)
        G.cells("J to D", "J to W", "moved", "to N", "to D", "to W", "from D", "from W")
        S.pushed = self.pushed

    def start(self):
        for g in self.cb(self.k.st, self.J, self.eJ):
            self.k.st.assume(g)

    def pushed(self, s, w, v):
        G = self.G
        if w == "to N":
            raise Unsupported("N grows while it is walked")
        self.allowed(s, w, v)
        G.wr(s, w, z3.If(G.rd(s, w) == 0, BV(1, 64), G.rd(s, w)))
        G.wr(s, "moved", T_)
        w = "J " + w
        G.wr(s, w, z3.If(v == self.eJ, G.rd(s, w) + 1, G.rd(s, w)))

    def kept(self, s):
        """the arbitrary edge is in exactly one place"""
        G = self.G
        return G.rd(s, "J to D") + G.rd(s, "J to W") == z3.If(G.removed(s, self.obj, self.J), BV(1, 64), BV(0, 64))

    def cands(self, more=None):
        G = self.G

        def c(ex, s, lv):
            out = list(more(ex, s, lv)) if more else []
            out.append(("nothing lost", lambda s, e: z3.Implies(self.inJ, z3.And(self.kept(s), z3.ULE(G.rd(s, "J to D"), 1), z3.ULE(G.rd(s, "J to W"), 1)))))
            for w in ("to D", "to W"):
                out.append(("moved " + w, lambda s, e, w=w: z3.And(G.on(s, "moved") == G.on(s, w), z3.ULE(G.rd(s, w), 1))))
            out.append(("moved", lambda s, e: z3.Implies(z3.And(self.inJ, G.removed(s, self.obj, self.J)), G.on(s, "moved"))))
            for i, ix in lv.idx(s, Ptr(self.obj)):
                if i.startswith("it"):
                    out.append((i + " in range", lambda s, e, ix=ix: z3.And(z3.UGE(ix(s, e), 1), z3.ULE(ix(s, e), self.n + 1))))
                    out.append((i + " present", lambda s, e, ix=ix: z3.Or(ix(s, e) == self.n + 1, z3.Not(G.removed(s, self.obj, ix(s, e))))))
                    if getattr(self, "cond", None):
                        out.append((i + ": found one", lambda s, e, ix=ix: z3.Implies(z3.And(self.inJ, z3.ULT(self.J, ix(s, e)), self.cond(s)), G.on(s, "moved"))))
            return out
        return c


@contract("C13", "ctl.cpp")
def release_negation(k):
    """releaseNegationEdges: moves only edges at least as far away as asked for, loses none, and moves some if there is one"""
    S = NegList(k)
    G, E = S.G, S.E
    dist = k.u32("distance")
    S.start()
    st = k.st
    S.cond = lambda s: z3.UGE(S.D(st, S.src), dist)

    def allowed(s, w, v):
        src = E.get(s, v, "source")
        k.prove(s, z3.Or(z3.UGE(S.D(s, src), dist), G.done(s, src)), "only edges at that distance, or of decided sources, are released", kind="pre")
        k.prove(s, z3.BoolVal(w == "to W"), "released edges go to W", kind="pre")
    S.allowed = allowed
    k.cover()
    k.ex.loop_cands = S.cands()
    for o in k.run(r"^SearchStrategy::SearchStrategy::releaseNegationEdges\(", [G.s, dist]):
        s = o.st
        k.prove(s, z3.Implies(S.inJ, S.kept(s)), "a released edge is in W, any other still in N")
        k.prove(s, z3.Implies(z3.And(S.inJ, S.cond(s)), G.on(s, "moved")), "when an edge can be released, one is")


@contract("C13", "ctl.cpp")
def max_distance(k):
    """maxDistance: the largest distance of an open source in N"""
    S = NegList(k)
    G, E = S.G, S.E
    NOAT = z3.Function("no open edge of N is at distance", B32, z3.BoolSort())
    S.extra = lambda s, i, v, inr: [z3.Implies(z3.And(inr, NOAT(S.D(s, E.get(s, v, "source")))), G.done(s, E.get(s, v, "source")))]
    S.start()
    st = k.st
    S.allowed = None
    k.cover()
    dJ = S.D(st, S.src)
    op = z3.Not(G.done(st, S.src))

    def cands(ex, s, lv):
        out = []
        for m, fm in lv.ints(s):
            t = lambda s, e, fm=fm: z3.Extract(31, 0, fm(s, e))
            out.append((m + " attained", lambda s, e, t=t: z3.Or(t(s, e) == 0, z3.Not(NOAT(t(s, e))))))
            for i, ix in lv.idx(s, Ptr(S.obj)):
                if i.startswith("it"):
                    out.append((m + " " + i + " maximal", lambda s, e, t=t, ix=ix: z3.Implies(z3.And(S.inJ, op, z3.ULT(S.J, ix(s, e))), z3.UGE(t(s, e), dJ))))
        return out
    k.ex.loop_cands = S.cands(cands)
    for o in k.run(r"^SearchStrategy::SearchStrategy::maxDistance\(\) const", [G.s]):
        m = tobv(o.val, 32)
        k.prove(o.st, z3.Implies(z3.And(S.inJ, op), z3.UGE(m, dJ)), "no open edge is further away")
        k.prove(o.st, z3.Or(m == 0, z3.Not(NOAT(m))), "some open edge is that far away")


@contract("C13", "ctl.cpp")
def trivial_negation(k):
    """trivialNegation: only decided negation edges leave N, and none is lost"""
    S = NegList(k)
    G, E = S.G, S.E
    S.start()
    st = k.st
    af = assignment_facts(G)
    G.facts = lambda s, l, i, v, inr: af(s, l, i, v, inr) + [z3.Not(KIND(v))]

    def allowed(s, w, v):
        L = G.lid(s, Ptr(Abs(v), G.tgts))
        J = SK(L)
        inJ = z3.And(z3.UGE(J, 1), z3.ULE(J, LEN(L)))
        for g in G.facts(s, L, J, EL(L, J), inJ):
            s.assume(g)
        k.prove(s, z3.Implies(z3.And(inJ, NONE_[CZERO](L)), G.A(s, EL(L, J)) == ONE), "only edges that are decided leave N early", kind="pre")
        k.prove(s, z3.BoolVal(w == "to D"), "decided edges go to D", kind="pre")
    S.allowed = allowed
    k.cover()
    sc = scan_cands(G)
    k.ex.loop_cands = S.cands(lambda ex, s, lv: sc(ex, s, lv))
    for o in k.run(r"^SearchStrategy::SearchStrategy::trivialNegation\(", [G.s]):
        s = o.st
        k.prove(s, z3.Implies(S.inJ, S.kept(s)), "a decided edge is in D, any other still in N")
        k.prove(s, tobool(o.val) == z3.Or(S.S.nD != 0, G.on(s, "moved")), "tells whether there is something to do")


# ---- the searches ---------------------------------------------------------------------------------------------------
class Search:
    def __init__(self, k, alg):
        self.k = k
        self.G = G = Graph(k, alg)
        self.E = E = HeapEdges(G)
        st = k.st
        self.v = v = k.u64("initial configuration")
        st.assume(z3.And(z3.UGT(v, 4096), z3.Not(KIND(v)), G.A(st, v) == UNKNOWN))
        G.cells("explored", "drained", "no trivial", "empty", "asked", "max", "checked")
        self.edges = []

        def init(ex, s, args, ins):
            return [(s, Ptr(Abs(v), 0))]
        k.ex.contract(r"vpd::G::initialConfiguration\(", init)

        def empty(ex, s, args, ins):
            b = freshb("empty")
            G.wr(s, "empty", b)
            return [(s, b)]
        k.ex.contract(r"SearchStrategy::empty\(\) const", empty)
        k.ex.contract(r"SearchStrategy::available\(\) const", lambda ex, s, args, ins: [(s, freshb("available"))])

        def pop(ex, s, args, ins):
            ex.prove(s, z3.Not(tobool(args[1])), "edges are popped from all queues", "pre")
            ex.prove(s, G.on(s, "explored"), "the initial configuration was explored first", "pre")
            s2 = s.copy()
            G.wr(s, "drained", T_)
            e = fresh("edge", 64)
            s2.assume(z3.And(z3.UGT(e, 4096), E.get(s2, e, "refcnt") >= 0, *E.facts(s2, e)))
            s2.assume(z3.And(*self.more(s2, e)) if self.more else T_)
            G.wr(s2, "drained", F_)
            G.wr(s2, "no trivial", F_)
            G.wr(s2, "empty", F_)
            return [(s, NULLP), (s2, Ptr(Abs(e), 0))]
        k.ex.contract(r"SearchStrategy::popEdge\(", pop)

        def triv(ex, s, args, ins):
            b = freshb("trivial")
            G.wr(s, "no trivial", z3.Not(b))
            # decided edges were moved: they have to be looked at first
            G.wr(s, "drained", z3.And(G.on(s, "drained"), z3.Not(b)))
            return [(s, b)]
        k.ex.contract(r"SearchStrategy::trivialNegation\(", triv)

        def maxd(ex, s, args, ins):
            m = fresh("max distance", 32)
            G.wr(s, "max", z64(m))
            return [(s, m)]
        k.ex.contract(r"SearchStrategy::maxDistance\(\) const", maxd)

        def rel(ex, s, args, ins):
            won = G.A(s, v) == ONE
            ex.prove(s, z3.Or(won, G.on(s, "drained")), "negation edges are released only when all other work is done", "pre")
            ex.prove(s, z3.Or(won, G.on(s, "no trivial")), "and no decided negation edge is waiting", "pre")
            ex.prove(s, z3.Or(won, z64(tobv(args[1], 32)) == G.rd(s, "max")), "and only those furthest away", "pre")
            G.wr(s, "drained", F_)
            return [(s, None)]
        k.ex.contract(r"SearchStrategy::releaseNegationEdges\(", rel)
        E.release("")
        self.more = None

    def done(self, o):
        k, G = self.k, self.G
        s = o.st
        k.prove(s, G.on(s, "explored"), "the initial configuration was explored")
        k.prove(s, tobool(o.val) == (G.A(s, self.v) == ONE), "the answer is the value of the initial configuration")
        k.prove(s, z3.Or(G.done(s, self.v), G.on(s, "empty")), "the search ends only when the initial configuration is decided or no work is left")

    def cands(self, ex, s, lv):
        G = self.G
        return [("explored", lambda s, e: G.on(s, "explored")), ("the value is a value", lambda s, e: z3.And(G.valid(G.A(s, self.v)), G.A(s, self.v) != UNKNOWN)),
                ("drained is open", lambda s, e: T_)]


@contract("C13", "ctl.cpp")
def search(k):
    """CertainZeroFPA::search: every popped edge is checked; negation edges are released only when nothing else is left"""
    S = Search(k, CZ)
    G, E = S.G, S.E
    v = S.v

    def explore(ex, s, args, ins):
        ex.prove(s, z3.And(G.h(args[1]) == v, z3.Not(G.on(s, "explored"))), "the initial configuration is explored", "pre")
        G.wr(s, "explored", T_)
        a = fresh("value", 8)
        s.assume(z3.Or(a == ZERO, a == ONE, a == CZERO))
        G.setA(s, v, a)
        return [(s, None)]
    k.ex.contract(r"CertainZeroFPA::explore\(", explore)

    def check(ex, s, args, ins):
        e = G.h(args[1])
        ex.prove(s, z3.And(E.get(s, e, "refcnt") >= 1, z3.Not(tobool(args[2]))), "a popped edge is checked, with a reference held", "pre")
        a, r = fresh("value", 8), fresh("refcnt", 32)
        s.assume(z3.And(z3.Or(a == ZERO, a == ONE, a == CZERO), r >= -1, r < (1 << 30)))
        G.setA(s, v, a)
        E.put(s, e, "refcnt", r)
        G.wr(s, "drained", F_)
        G.wr(s, "checked", e)
        return [(s, None)]
    k.ex.contract(r"CertainZeroFPA::checkEdge\(", check)
    pop0 = [h for rx, h in k.ex.contracts if "popEdge" in rx.pattern][0]

    def pop(ex, s, args, ins):
        # the edge popped before this one was checked
        ex.prove(s, z3.Or(G.rd(s, "asked") == 0, G.rd(s, "checked") == G.rd(s, "asked")), "no popped edge is dropped", "pre")
        r = pop0(ex, s, args, ins)
        for s_, x in r:
            G.wr(s_, "asked", BV(0, 64) if x is NULLP else G.h(x))
            G.wr(s_, "checked", BV(0, 64))
        return r
    k.ex.contract_first(r"SearchStrategy::popEdge\(", pop)
    k.cover()

    def cands(ex, s, lv):
        return S.cands(ex, s, lv) + [("checked", lambda s, e: z3.Or(G.rd(s, "asked") == 0, G.rd(s, "checked") == G.rd(s, "asked"))),
                                     ("undecided", lambda s, e: z3.Not(G.done(s, v)))]
    k.ex.loop_cands = cands
    for o in k.run(r"^Algorithm::CertainZeroFPA::search\(", [G.alg, G.g]):
        S.done(o)


@contract("C13", "ctl.cpp")
def local_search(k):
    """LocalFPA::search: what an edge decides, registers and explores"""
    S = Search(k, LF)
    G, E = S.G, S.E
    v = S.v
    st = k.st
    GA = G.akey

    def more(s, e):
        heap = dict(s.heap)

        def facts(s_, l, i, x, inr):
            a = heap[GA].sel(s_, x)
            src = heap[E.key["source"]].sel(s_, e)
            return [G.valid(a), z3.Not(KIND(x)), z3.Implies(z3.And(inr, ALLONE(l)), a == ONE), z3.Implies(inr, x != src)] + [z3.Implies(z3.And(inr, NONE_[y](l)), a != y) for y in NONE_]
        L = G.lid(s, Ptr(Abs(e), G.tgts))
        J = SK(L)
        n = LEN(L)
        inJ = z3.And(z3.UGE(J, 1), z3.ULE(J, n))
        s.ghost["facts"] = facts
        s.ghost["cur"] = (e, L, J, n, inJ)
        s.assume(z3.ULT(n, BV(1 << 40, 64)))
        for nm in ("final", "dep", "dep unknown", "explored one", "negation"):
            G.wr(s, nm, F_)
        G.wr(s, "all ONE", ALLONE(L))
        G.wr(s, "some open", z3.And(inJ, G.A(s, EL(L, J)) != ONE))
        G.wr(s, "neg", E.get(s, e, "is_negated") != 0)
        G.wr(s, "proc", E.get(s, e, "processed") != 0)
        G.wr(s, "asked", e)
        return facts(s, L, J, EL(L, J), inJ)
    G.cells("explored", "drained", "no trivial", "empty", "asked", "max", "checked", "final", "dep", "dep unknown", "explored one", "negation", "all ONE", "some open", "neg", "proc")
    S.more = more

    def explore(ex, s, args, ins):
        c = G.h(args[1])
        ex.prove(s, G.A(s, c) == UNKNOWN, "explored is a configuration that was not explored before", "pre")
        G.wr(s, "explored", z3.Or(G.on(s, "explored"), c == v))
        G.wr(s, "explored one", T_)
        G.setA(s, c, ZERO)
        G.wr(s, "drained", F_)
        return [(s, None)]
    k.ex.contract(r"LocalFPA::explore\(", explore)

    def final(ex, s, args, ins):
        e, L, J, n, inJ = s.ghost["cur"]
        c = G.h(args[1])
        neg, proc = E.get(s, e, "is_negated") != 0, E.get(s, e, "processed") != 0
        ex.prove(s, z3.And(c == E.get(s, e, "source"), tobv(args[2], 32) == 1), "the source of the edge becomes ONE", "pre")
        ex.prove(s, z3.Implies(z3.And(z3.Not(neg), inJ), G.A(s, EL(L, J)) == ONE), "a hyper edge decides ONE only when all targets are ONE", "pre")
        ex.prove(s, z3.Implies(neg, z3.And(proc, z3.Not(ALLONE(L)))), "a negation edge decides ONE only after its release, with a target that is not ONE", "pre")
        G.setA(s, c, ONE)
        G.wr(s, "final", T_)
        G.wr(s, "drained", F_)
        return [(s, None)]
    k.ex.contract(r"LocalFPA::finalAssign\(", final)

    def dep(ex, s, args, ins):
        e, L, J, n, inJ = s.ghost["cur"]
        c, x = (G.h(args[2]), G.h(args[1])) if "LocalFPA" in ex.m.fns[ins["callee"][1]]["dem"] else (G.h(args[0]), G.h(args[1]))
        ex.prove(s, z3.And(x == e, IS(L, c), G.A(s, c) != ONE), "the edge waits for one of its targets that is not ONE", "pre")
        G.wr(s, "dep", T_)
        G.wr(s, "dep unknown", G.A(s, c) == UNKNOWN)
        return [(s, None)]
    k.ex.contract(r"(LocalFPA|Configuration)::addDependency\(", dep)

    def negation(ex, s, args, ins):
        e, L, J, n, inJ = s.ghost["cur"]
        ex.prove(s, z3.And(G.h(args[1]) == e, E.get(s, e, "is_negated") != 0), "only negation edges wait for negation", "pre")
        G.wr(s, "negation", T_)
        E.put(s, e, "refcnt", E.get(s, e, "refcnt") + 1)
        return [(s, None)]
    k.ex.contract(r"SearchStrategy::pushNegation\(", negation)
    rel0 = [h for rx, h in k.ex.contracts if "release" in rx.pattern and "vpd" in rx.pattern][0]
    k.cover()
    sc = scan_cands(G)
    pop0 = [h for rx, h in k.ex.contracts if "popEdge" in rx.pattern][0]

    def settled(s):
        """the last popped edge was dealt with: decided its source, or waits for a target that is being explored"""
        on = lambda x: G.on(s, x)
        waits = z3.And(on("dep"), z3.Implies(on("dep unknown"), on("explored one")))
        return z3.Or(G.rd(s, "asked") == 0, z3.If(on("neg"), z3.Implies(on("some open"), z3.If(on("proc"), on("final"), z3.And(waits, on("negation")))),
                                                  z3.And(z3.Implies(on("all ONE"), on("final")), z3.Implies(on("some open"), waits))))

    def marked(s):
        e = G.rd(s, "asked")
        return z3.Or(e == 0, E.get(s, e, "processed") != 0, E.get(s, e, "refcnt") == BV(0xffffffff, 32))

    def pop(ex, s, args, ins):
        ex.prove(s, z3.Or(G.A(s, v) == ONE, settled(s)), "every popped edge decides its source or waits for a target that is not ONE and explored", "pre")
        ex.prove(s, z3.Or(G.A(s, v) == ONE, marked(s)), "and is marked processed", "pre")
        return pop0(ex, s, args, ins)
    k.ex.contract_first(r"SearchStrategy::popEdge\(", pop)

    def cands(ex, s, lv):
        out = S.cands(ex, s, lv)[:1] + sc(ex, s, lv)
        out.append(("settled", lambda s, e: z3.Or(settled(s), G.A(s, v) == ONE)))
        out.append(("settled always", lambda s, e: settled(s)))
        out.append(("marked", lambda s, e: z3.Or(marked(s), G.A(s, v) == ONE)))
        out.append(("v is explored", lambda s, e: z3.Or(G.A(s, v) == ZERO, G.A(s, v) == ONE)))
        return out
    k.ex.loop_cands = cands
    for o in k.run(r"^Algorithm::LocalFPA::search\(", [G.alg, G.g]):
        s = o.st
        k.prove(s, G.on(s, "explored"), "the initial configuration was explored")
        k.prove(s, tobool(o.val) == (G.A(s, v) == ONE), "the answer is the value of the initial configuration")
        k.prove(s, z3.Or(G.A(s, v) == ONE, G.on(s, "empty")), "the search ends only when the initial configuration is decided or no work is left")
