"""Partial-order reduction: the stubborn set of a marking meets the conditions the reduction theorem asks for.

Throughout, M is the current marking and M' one reached from it by any sequence of firings; HIT says that this sequence fires a
transition of the (final) stubborn set. The set only grows between reset and use, so a fact about membership once established
stays; HIT is therefore one Boolean for the whole run."""
from pqlmodel import *
from netmodel import Net, narrow

ITV = "PetriEngine::InterestingTransitionVisitor"
SS = "PetriEngine::StubbornSet"
RSS = "PetriEngine::ReachabilityStubbornSet"
V0, V1 = z3.Function("value now", B64, B64), z3.Function("value then", B64, B64)
W0, W1 = z3.Function("holds now", B64, z3.BoolSort()), z3.Function("holds then", B64, z3.BoolSort())
FR = z3.Function("recorded now", B64, z3.BoolSort())
M1 = z3.Function("tokens then", B64, B32)
MUL = z3.Function("times", B64, B64, B64)
RANGE = lambda x: z3.And(x > BV(-(1 << 62), 64), x < BV(1 << 62, 64))


class Por:
    def __init__(self, k):
        self.k = k
        st = k.st
        self.HIT = k.boolin("the sequence fires a stubborn transition")
        self.nP = k.u64("number of places")
        st.assume(z3.ULT(self.nP, BV(0x7fffffff, 64)))
        k.assume_note("fewer than 2^31-1 places (CompareConjunction's candidate is an int, its maximum marks 'none')")
        self.marking = k.arr("marking", "unsigned int", self.nP, ro=True)
        self.state = k.rec("state", "PetriEngine::Structures::State")
        k.setf(self.state, "PetriEngine::Structures::State", "_marking", self.marking)
        self.stub = k.rec("stubborn set", RSS)
        k.setf(self.stub, RSS, "_parent", self.state)
        self.m0 = st.mem[self.marking.obj].f[(0, 4)].arr
        self.closure = k.boolin("closure")
        del k.ex.contracts[getattr(k, "ncontracts", len(k.ex.contracts)):]
        k.ncontracts = len(k.ex.contracts)
        self.handlers()

    def M0(self, q):
        return self.m0(z64(q))

    def M1(self, q):
        return M1(z64(q))

    def up(self, p):
        return z3.Implies(z3.UGT(self.M1(p), self.M0(p)), self.HIT)

    def down(self, p):
        return z3.Implies(z3.ULT(self.M1(p), self.M0(p)), self.HIT)

    def handlers(self):
        k = self.k

        def place(f, what):
            def h(ex, st, args, ins):
                p = tobv(args[1], 32)
                ex.prove(st, z3.ULT(z64(p), self.nP), what + " requires: a place of the net", "pre")
                st.assume(f(p))
                return [(st, None)]
            return h
        k.ex.contract(r"^PetriEngine::StubbornSet::presetOf\(", place(self.up, "presetOf"))
        k.ex.contract(r"^PetriEngine::StubbornSet::postsetOf\(", place(self.down, "postsetOf"))

        def seen(f, what):
            def h(ex, st, args, ins):
                p = tobv(args[1], 32)
                ex.prove(st, z3.ULT(z64(p), self.nP), what + " requires: a place of the net", "pre")
                b = freshb("seen")
                st.assume(z3.Implies(b, f(p)))
                return [(st, b)]
            return h
        k.ex.contract(r"^PetriEngine::StubbornSet::seenPre\(", seen(self.up, "seenPre"))
        k.ex.contract(r"^PetriEngine::StubbornSet::seenPost\(", seen(self.down, "seenPost"))

        def visit(which):
            def h(ex, st, args, ins):
                c = self.ident(ex, st, args[1], ins)
                if c is None:
                    return NotImplemented
                st.assume(z3.Implies(V1(c) > V0(c) if which == "incr" else V1(c) < V0(c), self.HIT))
                return [(st, None)]
            return h
        for w, n in (("incr", "IncrVisitor"), ("decr", "DecrVisitor")):
            k.ex.contract(r"PQL::Visitor::visit<PetriEngine::InterestingTransitionVisitor::%s," % n, visit(w))

        def cond(ex, st, args, ins):
            c = self.ident(ex, st, args[1], ins)
            if c is None:
                return NotImplemented
            v = ex.aptr(args[0])
            neg = tobool(k.getf(v, ITV, "negated", st))
            st.assume(z3.Implies(z3.And(FR(c), z3.Not(self.target(c, neg, 0)), self.target(c, neg, 1)), self.HIT))
            return [(st, None)]
        k.ex.contract(r"PQL::Visitor::visit<PetriEngine::InterestingTransitionVisitor,", cond)
        k.ex.contract(r"PQL::Visitor::visit<PetriEngine::InterestingLTLTransitionVisitor,", cond)
        k.ex.contract(r"PQL::Expr::getEval\(\) const", lambda ex, st, args, ins: [(st, self.rec(ex, st, args[0], ins))])

        def sat(ex, st, args, ins):
            c = self.ident(ex, st, args[0], ins, True)
            b = freshb("recorded")
            st.assume(z3.Implies(FR(c), b == W0(c)))
            return [(st, b)]
        k.ex.contract(r"PQL::Condition::isSatisfied\(\) const", sat)

    def rec(self, ex, st, a, ins):
        """recorded value of an operand: its value now, if the records are of this marking"""
        c = self.ident(ex, st, a, ins, True)
        if not hasattr(self, "RV"):
            self.RV = z3.Function("recorded value", B64, B64)
        st.assume(z3.Implies(self.fresh_me, self.RV(c) == V0(c)))
        return self.RV(c)

    def target(self, c, neg, when):
        return (W1 if when else W0)(c) != neg

    def ident(self, ex, st, a, ins, direct=False):
        p = ex.aptr(a)
        if not direct:
            if hasattr(self, "el") and p.obj == self.el.obj and p.off.const() == 0:
                return None
            dem = ex.m.fns[ins["callee"][1]]["dem"]
            if "shared_ptr" in dem:
                p = ex.load_raw(st, p, 8, True, ins.get("ln"))
        if isinstance(p, Ptr):
            if hasattr(self, "el") and p.obj == self.el.obj and not direct:
                return None
            return ex.ptr_bv(st, p)
        return tobv(p, 64)

    def visitors(self):
        k = self.k
        I, D = k.rec("incr", ITV + "::IncrVisitor"), k.rec("decr", ITV + "::DecrVisitor")
        for r, n, o, f in ((I, "IncrVisitor", D, "decr"), (D, "DecrVisitor", I, "incr")):
            t = ITV + "::" + n
            k.setf(r, t, "_vptr$Visitor", Ptr("g:" + vtable(t), 16))
            k.setf(r, t, f, o)
            k.setf(r, t, "_stubborn", self.stub)
            k.setf(r, t, "closure", self.closure)
        return I, D

    def visitor(self):
        k = self.k
        v = self.v_ = k.rec("visitor", ITV)
        k.setf(v, ITV, "_vptr$Visitor", Ptr("g:" + vtable(ITV), 16))
        k.setf(v, ITV, "_stubborn", self.stub)
        k.setf(v, ITV, "closure", self.closure)
        self.neg = k.boolin("negated")
        k.setf(v, ITV, "negated", self.neg)
        oi, od = k.m.path(ITV, "incr")[0], k.m.path(ITV, "decr")[0]
        for o, n, p, f in ((oi, "IncrVisitor", od, "decr"), (od, "DecrVisitor", oi, "incr")):
            k.ex.store_raw(k.st, v.plus(o), 8, Ptr("g:" + vtable(ITV + "::" + n), 16), None)
            k.setf(v.plus(o), ITV + "::" + n, f, v.plus(p))
            k.setf(v.plus(o), ITV + "::" + n, "_stubborn", self.stub)
            k.setf(v.plus(o), ITV + "::" + n, "closure", self.closure)
        return v

    def shared(self, p, tname, fld, name):
        return Pql.shared(self, p, tname, fld, name)


def each_dir(k, tname, setup, val):
    """both directions: visited by IncrVisitor, a larger value needs a stubborn transition; by DecrVisitor, a smaller one"""
    base = k.st
    for which in ("Incr", "Decr"):
        k.st = base.copy()
        p = Por(k)
        p.fresh_me = z3.BoolVal(True)
        el = Pql.obj(pq(k), tname)
        p.el = el
        I, D = p.visitors()
        S = setup(p, el, which)
        k.cover(name=which + ": precondition satisfiable")
        fn = r"^PetriEngine::InterestingTransitionVisitor::%sVisitor::_accept\(PetriEngine::PQL::%s const\*\)$" % (which, tname)
        outs = k.run(fn, [I if which == "Incr" else D, el], k.st)
        for o in outs:
            if o.kind != "ret":
                k.prove(o.st, False, "%s: does not throw" % which)
                continue
            a, b = val(S, o.st)
            k.prove(o.st, z3.Implies(b > a if which == "Incr" else b < a, p.HIT), "%s of %s: changing the value that way needs a stubborn transition" % (which, tname))


def pq(k):
    q = Pql.__new__(Pql)
    q.k = k
    return q


@contract("C10", "por.cpp")
def change_literal(k):
    def setup(p, el, which):
        x = k.u64("value")
        k.setf(el, P + "LiteralExpr", "_value", x)
        return x
    each_dir(k, "LiteralExpr", setup, lambda S, st: (S, S))


@contract("C10", "por.cpp")
def change_place(k):
    def setup(p, el, which):
        x = k.u32("place")
        k.setf(el, P + "UnfoldedIdentifierExpr", "_offsetInMarking", x)
        k.st.assume(z3.ULT(z64(x), p.nP))
        return p, x
    each_dir(k, "UnfoldedIdentifierExpr", setup, lambda S, st: (z64(S[0].M0(S[1])), z64(S[0].M1(S[1]))))


@contract("C10", "por.cpp")
def change_identifier(k):
    each_dir(k, "IdentifierExpr", lambda p, el, w: p.shared(el, "IdentifierExpr", "_compiled", "compiled"), lambda c, st: (V0(c), V1(c)))


@contract("C10", "por.cpp")
def change_minus(k):
    def setup(p, el, which):
        c = p.shared(el, "MinusExpr", "_expr", "operand")
        k.st.assume(z3.And(RANGE(V0(c)), RANGE(V1(c))))
        return c
    each_dir(k, "MinusExpr", setup, lambda c, st: (-V0(c), -V1(c)))


def fold(k, tname, op):
    """sum/difference/product of constant, places and operands; S.F(when)(i) are the partial results"""
    def setup(p, el, which):
        st = k.st
        k.assume_note("values of expressions and of their partial sums fit 62 bits in both markings")
        arr, n, ids = Pql.children(pq(k), el, tname, "_exprs", "Expr", "operands")
        E = [z3.Function("operands%d" % w, B64, B64) for w in (0, 1)]
        PF = [z3.Function("places%d" % w, B64, B64) for w in (0, 1)]
        VV = (V0, V1)
        sub = tname == "SubtractExpr"
        ar2 = np_ = None
        g = BV(0, 64)
        if not sub:
            cst = k.u64("constant")
            k.setf(el, P + tname, "_constant", cst)
            np_ = k.u64("number of place operands")
            st.assume(z3.ULT(np_, BV(1 << 32, 64)))
            ty = [t for t in k.m.types if t.startswith("std::pair<unsigned int, std::shared_ptr<const std::__cxx11::basic_string")][0]
            ar2 = k.arr("places", ty, np_, ro=True)
            pl = st.mem[ar2.obj].f[(0, 4)].arr
            MM = (p.M0, p.M1)

            def pcb(s, i, x):
                fs = [z3.Implies(z3.ULT(i, np_), z3.ULT(z64(x), p.nP))]
                for w in (0, 1):
                    fs += [PF[w](i + 1) == op(PF[w](i), z64(MM[w](x)))]
                    if op is not MUL:
                        fs += [RANGE(PF[w](i)), RANGE(PF[w](i + 1))]
                return fs
            st.mem[ar2.obj].f[(0, 4)] = FBase(pl, 32, pcb)
            k.setvec(el, P + tname, "_ids", ar2, np_)
            for w in (0, 1):
                st.assume(PF[w](BV(0, 64)) == cst)
                st.assume(E[w](BV(0, 64)) == PF[w](np_))
                st.assume(RANGE(cst))
            st.assume(pcb(st, g, pl(g)))
        else:
            st.assume(z3.UGT(n, 0))
            for w in (0, 1):
                st.assume(E[w](BV(1, 64)) == VV[w](ids(BV(0, 64))))

        def ecb(s, i, x):
            fs = []
            for w in (0, 1):
                c = E[w](i + 1) == op(E[w](i), VV[w](x))
                fs += [z3.Implies(i != 0, c) if sub else c]
                if op is not MUL:
                    fs += [z3.Implies(i != 0, RANGE(E[w](i))) if sub else RANGE(E[w](i)), RANGE(E[w](i + 1)), RANGE(VV[w](x))]
            return fs
        st.mem[arr.obj].f[(0, 8)] = FBase(ids, 64, ecb)
        st.assume(ecb(st, g, ids(g)))
        if op is MUL:
            # monotonicity of multiplication by a constant >= 0, at the first operands
            for a, b in ((z64(p.M0(pl(g))), z64(p.M1(pl(g)))), (V0(ids(g)), V1(ids(g)))):
                for x, y in ((a, b), (b, a)):
                    st.assume(z3.Implies(z3.And(cst >= 0, x <= y), MUL(cst, x) <= MUL(cst, y)))
            k.assume_note("lemma: c >= 0 and x <= y imply c*x <= c*y (integers; products treated as mathematical)")
        k.ex.loop_cands = cands_of(p, [(arr, n, E, lambda i, w: VV[w](ids(i)))] + ([] if sub else [(ar2, np_, PF, lambda i, w: z64(MM[w](pl(i))))]))
        return E, n
    each_dir(k, tname, setup, lambda S, st: (S[0][0](S[1]), S[0][1](S[1])))


def cands_of(p, parts):
    def cands(ex, st, lv):
        out = []
        for num, (base, nn, F, elem) in enumerate(parts):
            for i, ix in lv.idx(st, base):
                t = "%s#%d" % (i, num)
                out.append((t + "<=n", lambda s, e, ix=ix, nn=nn: z3.ULE(ix(s, e), nn)))
                out.append((t + ">0", lambda s, e, ix=ix: z3.UGE(ix(s, e), 1)))
                out.append((t + " no increase", lambda s, e, ix=ix, F=F: z3.Or(p.HIT, F[1](ix(s, e)) <= F[0](ix(s, e)))))
                out.append((t + " no decrease", lambda s, e, ix=ix, F=F: z3.Or(p.HIT, F[1](ix(s, e)) >= F[0](ix(s, e)))))
                out.append((t + " no change", lambda s, e, ix=ix, F=F: z3.Or(p.HIT, F[1](ix(s, e)) == F[0](ix(s, e)))))
                z = BV(0, 64)
                out.append((t + " first not larger", lambda s, e, ix=ix, el=elem: z3.Or(p.HIT, ix(s, e) == 0, el(z, 1) <= el(z, 0))))
                out.append((t + " first not smaller", lambda s, e, ix=ix, el=elem: z3.Or(p.HIT, ix(s, e) == 0, el(z, 1) >= el(z, 0))))
                for nm, fl in lv.flags(st):
                    out.append((t + " %s iff first" % nm, lambda s, e, ix=ix, fl=fl: fl(s, e) == (ix(s, e) == 0)))
                out.append((t + " no increase after first", lambda s, e, ix=ix, F=F: z3.Or(p.HIT, ix(s, e) == 0, F[1](ix(s, e)) <= F[0](ix(s, e)))))
                out.append((t + " no decrease after first", lambda s, e, ix=ix, F=F: z3.Or(p.HIT, ix(s, e) == 0, F[1](ix(s, e)) >= F[0](ix(s, e)))))
        return out
    return cands


@contract("C10", "por.cpp")
def change_plus(k):
    fold(k, "PlusExpr", lambda a, b: a + b)


@contract("C10", "por.cpp")
def change_subtract(k):
    fold(k, "SubtractExpr", lambda a, b: a - b)


@contract("C10", "por.cpp")
def change_multiply(k):
    fold(k, "MultiplyExpr", MUL)


# ------------------------------------------------------------------ conditions
def cond_case(k, tname, setup, cls=ITV):
    """setup(p, el) -> (holds now, holds then): after the visit, becoming satisfied (under the current polarity) needs a stubborn transition"""
    p = Por(k)
    el = Pql.obj(pq(k), tname)
    p.el = el
    v = p.visitor()
    w0, w1 = setup(p, el)
    t0, t1 = w0 != p.neg, w1 != p.neg
    p.fresh_me = z3.Not(t0)
    p.t0, p.t1 = t0, t1
    k.cover()
    outs = k.run(r"^PetriEngine::InterestingTransitionVisitor::_accept\(PetriEngine::PQL::%s const\*\)$" % tname, [v, el], k.st)
    for o in outs:
        if o.kind != "ret":
            k.prove(o.st, False, "does not throw")
            continue
        k.prove(o.st, z3.Implies(z3.And(z3.Not(t0), t1), p.HIT), "%s: becoming satisfied needs a stubborn transition" % tname)
        k.prove(o.st, tobool(k.getf(v, ITV, "negated", o.st)) == p.neg, "the polarity is restored")
    return p


for _t, _r in (("EqualCondition", lambda a, b: a == b), ("NotEqualCondition", lambda a, b: a != b), ("LessThanCondition", lambda a, b: a < b), ("LessThanOrEqualCondition", lambda a, b: a <= b)):
    def _f(k, t=_t, r=_r):
        def setup(p, el):
            a, b = p.shared(el, t, "_expr1", "left"), p.shared(el, t, "_expr2", "right")
            k.assume_note("getEval returns the value recorded by evaluateAndSet for this marking (C05) whenever the visited condition is not satisfied")
            return r(V0(a), V0(b)), r(V1(a), V1(b))
        cond_case(k, t, setup)
    _f.__name__ = "visit_" + _t
    contract("C10", "por.cpp")(_f)


@contract("C10", "por.cpp")
def visit_not(k):
    def setup(p, el):
        c = p.shared(el, "NotCondition", "_cond", "operand")
        k.st.assume(z3.Implies(z3.Not(z3.Not(W0(c)) != p.neg), FR(c)))
        return z3.Not(W0(c)), z3.Not(W1(c))
    cond_case(k, "NotCondition", setup)


for _t in ("EFCondition", "FCondition", "ECondition"):
    def _f(k, t=_t):
        def setup(p, el):
            c = p.shared(el, t, "_cond", "operand")
            k.st.assume(z3.Implies(z3.Not(W0(c) != p.neg), FR(c)))
            return W0(c), W1(c)
        k.assume_note("the goal of a reachability query E F phi is a marking satisfying phi")
        cond_case(k, t, setup)
    _f.__name__ = "visit_" + _t
    contract("C10", "por.cpp")(_f)


@contract("C10", "por.cpp")
def visit_boolean(k):
    def setup(p, el):
        b = k.boolin("value")
        k.setf(el, P + "BooleanCondition", "value", b)
        return b, b
    cond_case(k, "BooleanCondition", setup)


def visit_nary(k, tname, conj):
    def setup(p, el):
        st = k.st
        arr, n, ids = Pql.children(pq(k), el, tname, "_conds", "Condition", "operands")
        w0, w1 = k.boolin("holds now"), k.boolin("holds then")
        F = k.u64("first deciding operand now")        # first operand that is false (and) / true (or); n if none
        G = k.u64("deciding operand then")             # for the value then
        st.assume(z3.ULE(F, n))
        dec0 = lambda i: W0(ids(i)) != z3.BoolVal(conj)
        dec1 = lambda i: W1(ids(i)) != z3.BoolVal(conj)
        some0, some1 = (z3.Not(w0), z3.Not(w1)) if conj else (w0, w1)
        st.assume(some0 == z3.ULT(F, n))
        st.assume(z3.Implies(some0, dec0(F)))
        st.assume(z3.Implies(some1, z3.And(z3.ULT(G, n), dec1(G))))
        me_unsat = z3.Not(w0 != p.neg)
        st.assume(z3.UGT(n, 0))

        def cb(s, i, x):
            return [z3.Implies(z3.ULT(i, F), W0(x) == z3.BoolVal(conj)), z3.Implies(z3.And(z3.ULT(i, n), z3.Not(some1)), W1(x) == z3.BoolVal(conj)),
                    z3.UGT(x, BV(4096, 64)),
                    z3.Implies(z3.And(me_unsat, z3.ULE(i, F), z3.ULT(i, n)), FR(x))]
        st.mem[arr.obj].f[(0, 8)] = FBase(ids, 64, cb)
        for i in (F, G):
            st.assume(cb(st, i, ids(i)))
        k.assume_note("evaluateAndSet records every operand up to and including the first that decides (C05)")

        def cands(ex, st, lv):
            out = []
            for i, ix in lv.idx(st, arr):
                out.append(("%s<=n" % i, lambda s, e, ix=ix: z3.ULE(ix(s, e), n)))
                out.append(("%s not past the first deciding operand" % i, lambda s, e, ix=ix: z3.Implies(me_unsat, z3.ULE(ix(s, e), F))))
                out.append(("%s: operands below need a stubborn transition" % i, lambda s, e, ix=ix: z3.Implies(
                    z3.And(me_unsat, z3.ULT(G, ix(s, e)), z3.Not(W0(ids(G)) != p.neg), W1(ids(G)) != p.neg), p.HIT)))
            for j, b in lv.bytes01(st):
                out.append(("%s boolean" % j, lambda s, e, b=b: z3.ULE(b(s, e), 1)))
            out.append(("polarity", lambda s, e: tobool(k.getf(p.v_, ITV, "negated", s)) == p.neg))
            return out
        k.ex.loop_cands = cands
        return w0, w1
    cond_case(k, tname, setup)


@contract("C10", "por.cpp")
def visit_and(k):
    visit_nary(k, "AndCondition", True)


@contract("C10", "por.cpp")
def visit_or(k):
    visit_nary(k, "OrCondition", False)


@contract("C10", "por.cpp")
def visit_conjunction(k):
    """bounds on places: lower <= tokens <= upper for all, or the negation"""
    T = "CompareConjunction"
    CT = P + T + "::cons_t"

    def setup(p, el):
        st = k.st
        n = k.u64("number of bounds")
        st.assume(z3.ULT(n, BV(1 << 32, 64)))
        a = k.arr("bounds", CT, n, ro=True)
        ar = st.mem[a.obj]
        pl, lo, up = (ar.f[ar.names[f]].arr for f in ("_place", "_lower", "_upper"))
        neg = k.boolin("element negated")
        k.setf(el, P + T, "_negated", neg)
        k.setvec(el, P + T, "_constraints", a, n)
        ok = lambda i, M: z3.And(z3.ULE(lo(i), M(pl(i))), z3.ULE(M(pl(i)), up(i)))
        c0, c1 = k.boolin("bounds hold now"), k.boolin("bounds hold then")
        G0, G1 = k.u64("bound broken now"), k.u64("bound broken then")
        for c, G, M in ((c0, G0, p.M0), (c1, G1, p.M1)):
            st.assume(z3.Or(c, z3.And(z3.ULT(G, n), z3.Not(ok(G, M)))))

        def cb(s, i, x):
            return [z3.Implies(z3.ULT(i, n), z3.ULT(z64(pl(i)), p.nP)), z3.Implies(z3.And(c0, z3.ULT(i, n)), ok(i, p.M0)), z3.Implies(z3.And(c1, z3.ULT(i, n)), ok(i, p.M1))]
        for f in ("_place", "_lower", "_upper"):
            fb = ar.f[ar.names[f]]
            ar.f[ar.names[f]] = FBase(fb.arr, 32, cb)
        for i in (G0, G1):
            st.assume(cb(st, i, None))
        MX = BV(0x7fffffff, 32)
        me_neg = p.neg != neg

        def cands(ex, st, lv):
            out = []
            ints = lv.ints(st)
            fl = lv.flags(st)
            idx = lv.idx(st, a)
            for i, ix in idx:
                out.append(("%s<=n" % i, lambda s, e, ix=ix: z3.ULE(ix(s, e), n)))
                out.append(("%s: bounds below broken then need a stubborn transition" % i, lambda s, e, ix=ix: z3.Implies(
                    z3.And(me_neg, c0, z3.Not(c1), z3.ULT(G1, ix(s, e))), p.HIT)))
            for nm, g in ints:
                L = lambda s, e, g=g: z3.Extract(31, 0, g(s, e))
                out.append(("%s a place or none" % nm, lambda s, e, L=L: z3.Or(L(s, e) == MX, z3.ULT(z64(L(s, e)), p.nP))))
                out.append(("%s none when negated" % nm, lambda s, e, L=L: z3.Implies(me_neg, L(s, e) == MX)))
                for i, ix in idx:
                    out.append(("%s found below %s" % (nm, i), lambda s, e, L=L, ix=ix: z3.Implies(z3.And(z3.Not(me_neg), z3.Not(c0), z3.ULT(G0, ix(s, e))), L(s, e) != MX)))
                for f, b in fl:
                    out.append(("%s %s must change" % (nm, f), lambda s, e, L=L, b=b: z3.Implies(z3.And(L(s, e) != MX, c1, z3.Not(me_neg)), z3.If(
                        b(s, e), z3.UGT(p.M1(L(s, e)), p.M0(L(s, e))), z3.ULT(p.M1(L(s, e)), p.M0(L(s, e)))))))
            return out
        k.ex.loop_cands = cands
        return z3.If(neg, z3.Not(c0), c0), z3.If(neg, z3.Not(c1), c1)
    cond_case(k, T, setup)


@contract("C10", "por.cpp")
def visit_deadlock(k):
    def setup(p, el):
        st = k.st
        dead1 = k.boolin("dead then")
        EN = [z3.Function("enabled%d" % w, B32, z3.BoolSort()) for w in (0, 1)]
        nT = k.u32("number of transitions")
        k.assume_note("visits happen only in markings with at least two enabled transitions (prepare returns before otherwise)")

        def least(ex, s, args, ins):
            t = fresh("t", 32)
            s.assume(z3.And(z3.ULT(t, nT), EN[0](t), z3.Implies(dead1, z3.Not(EN[1](t)))))
            return [(s, t)]
        k.ex.contract(r"^PetriEngine::StubbornSet::leastDependentEnabled\(", least)

        def pp(ex, s, args, ins):
            t = tobv(args[1], 32)
            ex.prove(s, z3.ULT(t, nT), "postPresetOf requires: a transition of the net", "pre")
            s.assume(z3.Implies(z3.And(EN[0](t), z3.Not(EN[1](t))), p.HIT))
            return [(s, None)]
        k.ex.contract(r"^PetriEngine::StubbornSet::postPresetOf\(", pp)
        me = k.ex.ptr_bv(st, el)
        st.assume(z3.Not(W0(me)))
        st.assume(z3.Implies(z3.Not(z3.BoolVal(False) != p.neg), FR(me)))
        return z3.BoolVal(False), dead1
    cond_case(k, "DeadlockCondition", setup)


@contract("C10", "por.cpp")
def visit_bounds(k):
    """bounds queries: raising the count of a place that is not known to be at its maximum needs a stubborn transition"""
    T = "UnfoldedUpperBoundsCondition"
    p = Por(k)
    el = Pql.obj(pq(k), T)
    p.el = el
    v = p.visitor()
    st = k.st
    n = k.u64("number of places in the query")
    st.assume(z3.ULT(n, BV(1 << 32, 64)))
    a = k.arr("places", P + T + "::place_t", n, ro=True)
    ar = st.mem[a.obj]
    pl, mx = ar.f[ar.names["_place"]].arr, ar.f[ar.names["_maxed_out"]].arr
    cb = lambda s, i, x: [z3.Implies(z3.ULT(i, n), z3.And(z3.ULT(z64(pl(i)), p.nP), z3.ULE(mx(i), 1)))]
    for f in ("_place", "_maxed_out"):
        fb = ar.f[ar.names[f]]
        ar.f[ar.names[f]] = FBase(fb.arr, fb.bits, cb)
    k.setvec(el, P + T, "_places", a, n)
    g = k.u64("g")
    st.assume(z3.ULT(g, n))
    st.assume(cb(st, g, None))
    st.assume(z3.Implies(mx(g) != 0, z3.ULE(p.M1(pl(g)), p.M0(pl(g)))))
    k.assume_note("a place recorded as maxed out holds the largest number of tokens it can ever hold")
    k.cover()

    def cands(ex, s, lv):
        out = []
        for i, ix in lv.idx(s, a):
            out.append(("%s<=n" % i, lambda s, e, ix=ix: z3.ULE(ix(s, e), n)))
            out.append(("%s places below" % i, lambda s, e, ix=ix: z3.Implies(z3.ULT(g, ix(s, e)), p.up(pl(g)))))
        return out
    k.ex.loop_cands = cands
    for o in k.run(r"^PetriEngine::InterestingTransitionVisitor::_accept\(PetriEngine::PQL::%s const\*\)$" % T, [v, el], st):
        k.prove(o.st, p.up(pl(g)), "raising the count of a place of the query needs a stubborn transition")


# ------------------------------------------------------------------ the set itself
FST = z3.Function("stubborn in the end", B32, z3.BoolSort())
FSP, FSQ, FSI = (z3.Function("%s added in the end" % n, B32, z3.BoolSort()) for n in ("preset", "postset", "inhibited transitions"))
BITS = ((1, FSP), (2, FSQ), (4, FSI))


class Set:
    """a stubborn set over any net: tables of arcs per place as constructPrePost builds them (bounded check only)"""
    def __init__(self, k, qp=None):
        self.k = k
        st = k.st
        self.net = net = Net(k)
        self.par, self.pm = net.state("parent", True)
        self.stub = k.rec("stubborn set", RSS)
        k.setf(self.stub, RSS, "_vptr$StubbornSet", Ptr("g:" + vtable(RSS), 16))
        k.setf(self.stub, RSS, "_net", net.p)
        k.setf(self.stub, RSS, "_parent", self.par)
        self.nA = k.u32("table size")
        st.assume(z3.ULT(self.nA, BV(0xfffffffe, 32)))
        nP = z64(net.nP)
        self.tp = k.arr("place table", SS + "::place_t", nP + 1, ro=True)
        a = st.mem[self.tp.obj]
        self._pre, self._post = (a.f[a.names[f]].arr for f in ("pre", "post"))
        for f in ("pre", "post"):
            a.f[a.names[f]] = FBase(a.f[a.names[f]].arr, 32, lambda s, i, v: self.table_wf(i))
        self.ta = k.arr("arc table", SS + "::trans_t", z64(self.nA), ro=True)
        b = st.mem[self.ta.obj]
        self._idx, self._dir = b.f[b.names["index"]].arr, b.f[b.names["direction"]].arr
        b.f[b.names["index"]] = FBase(self._idx, 32, lambda s, i, v: [z3.Implies(z3.ULT(i, z64(self.nA)), z3.ULT(v, net.nT))])
        k.assume_note("the tables of constructPrePost list, per place, the transitions with a producing arc and those with an input arc (bounded check only)")
        k.setf(self.stub, RSS, "_places", self.tp)
        k.setf(self.stub, RSS, "_arcs", self.ta)
        self.seen = k.arr("places seen", "unsigned char", nP)
        self.stb = k.arr("stubborn", "unsigned char", z64(net.nT))
        self.enb = k.arr("enabled", "unsigned char", z64(net.nT))
        self.dep = k.arr("dependency", "unsigned int", z64(net.nT), ro=True)
        for f, x in (("_places_seen", self.seen), ("_stubborn", self.stb), ("_enabled", self.enb), ("_dependency", self.dep)):
            k.setf(self.stub, RSS, f, x)
        for x in (self.stb, self.enb):
            o = st.mem[x.obj]
            o.f[(0, 1)] = FBase(o.f[(0, 1)].arr, 8, lambda s, i, v: [z3.ULE(v, 1)])
        o = st.mem[self.seen.obj]
        self.seen0 = o.f[(0, 1)].arr
        o.f[(0, 1)] = FBase(self.seen0, 8, lambda s, i, v: self.seen_inv(narrow(i), v))

    def table_wf(self, i):
        nP = z64(self.net.nP)
        w = lambda j: z3.Implies(z3.ULT(j, nP), z3.And(z3.ULE(self._pre(j), self._post(j)), z3.ULE(self._post(j), self._pre(j + 1)), z3.ULE(self._pre(j + 1), self.nA)))
        return [w(i), w(i - 1)]

    @staticmethod
    def seen_inv(p, v):
        return [z3.Implies(v & BV(b, 8) != 0, F(p)) for b, F in BITS]

    def get(self, st, arr, i):
        return st.mem[arr.obj].f[(0, 1)].sel(st, z64(i))

    def index(self, K):
        return self._idx(z64(K))

    def dirn(self, K):
        return self._dir(z64(K))

    def inpre(self, p, K):
        return z3.And(z3.ULE(self._pre(z64(p)), K), z3.ULT(K, self._post(z64(p))))

    def inpost(self, p, K):
        return z3.And(z3.ULE(self._post(z64(p)), K), z3.ULT(K, self._pre(z64(p) + 1)))

    def add_contract(self, also=None):
        def h(ex, st, args, ins):
            t = tobv(args[1], 32)
            ex.prove(st, z3.ULT(t, self.net.nT), "addToStub requires: a transition of the net", "pre")
            st.assume(FST(t))
            if also:
                also(ex, st, t)
            return [(st, None)]
        self.k.ex.contract(r"^PetriEngine::StubbornSet::addToStub\(", h)


@contract("C10", "por.cpp")
def add_to_stub(k):
    """after addToStub(t): t is in the set, nothing else changed, and a new member is queued for the closure"""
    S = Set(k)
    t, T = k.u32("t"), k.u32("T")
    st = k.st
    st.assume(z3.And(z3.ULT(t, S.net.nT), z3.ULT(T, S.net.nT)))
    pushed = k.ex.new_rec(st, "queue", 1)
    k.ex.store_raw(st, pushed, 1, BV(0, 8), None)
    dq = S.stub.plus(k.m.path(RSS, "_unprocessed")[0])

    def push(ex, s, args, ins):
        ex.prove(s, ex.aptr(args[0]).same(dq), "queued for the closure", "pre")
        v = tobv(ex.load_raw(s, ex.aptr(args[1]), 4, False, None), 32)
        ex.store_raw(s, pushed, 1, z3.If(v == T, BV(1, 8), tobv(ex.load_raw(s, pushed, 1, False, None), 8)), None)
        return [(s, None)]
    k.ex.contract(r"light_deque<unsigned int>::push_back\(", push)
    k.cover()
    b0 = S.get(st, S.stb, T)
    for o in k.run(r"^PetriEngine::StubbornSet::addToStub\(unsigned int\)$", [S.stub, t]):
        b1 = S.get(o.st, S.stb, T)
        k.prove(o.st, z3.If(T == t, b1 == 1, b1 == b0), "exactly t is added")
        pu = tobv(k.ex.load_raw(o.st, pushed, 1, False, None), 8) != 0
        k.prove(o.st, z3.Implies(z3.And(b1 != 0, b0 == 0), pu), "a new member is queued")


def table_cands(S, K, extra=()):
    def cands(ex, st, lv):
        out = []
        for nm, g in lv.ints(st):
            L = lambda s, e, g=g: z3.Extract(31, 0, g(s, e))
            out.append(("%s<=end" % nm, lambda s, e, L=L: z3.Or(z3.ULE(L(s, e), S._post(z64(S.place))), z3.ULE(L(s, e), S._pre(z64(S.place) + 1)))))
            out.append(("%s<=post" % nm, lambda s, e, L=L: z3.ULE(L(s, e), S._post(z64(S.place)))))
            out.append(("%s<=next pre" % nm, lambda s, e, L=L: z3.ULE(L(s, e), S._pre(z64(S.place) + 1))))
            out.append(("%s: entries below are in the set" % nm, lambda s, e, L=L: z3.Implies(z3.And(S.want, z3.ULT(K, L(s, e))), FST(S.index(K)))))
        return out + [x for f in extra for x in f(ex, st, lv)]
    return cands


def of_place(k, fn, bit, F, want):
    S = Set(k)
    st = k.st
    p, K, r = k.u32("place"), k.u32("table entry"), k.u32("other place")
    st.assume(z3.And(z3.ULT(p, S.net.nP), z3.ULT(r, S.net.nP)))
    S.place, S.want = p, want(S, p, K)
    st.assume(S.table_wf(z64(p)))
    st.assume(z3.ULT(K, S.nA))
    # representation invariant of the seen flags, at p
    st.assume(z3.Implies(z3.And(F(p), S.want), z3.Or(S.seen0(z64(p)) & BV(bit, 8) == 0, FST(S.index(K)))))
    mk = k.boolin("closure")
    S.add_contract()
    k.ex.contract(r"StubbornSet::closure<", lambda ex, s, args, ins: [(s, None)])
    k.cover()
    before = S.get(st, S.seen, r)
    k.ex.loop_cands = table_cands(S, K)
    for o in k.run(r"^PetriEngine::StubbornSet::%s\(unsigned int" % fn, [S.stub, p] + ([mk] if fn != "inhibitorPostsetOf" else [])):
        k.prove(o.st, z3.Implies(S.want, FST(S.index(K))), "every such transition of the place is in the set")
        now = S.get(o.st, S.seen, r)
        k.prove(o.st, z3.If(r == p, now & ~BV(bit, 8) == before & ~BV(bit, 8), now == before), "only this place is marked as done, and only for this")


@contract("C10", "por.cpp")
def preset_of(k):
    """after presetOf(p) every transition producing into p is in the set"""
    of_place(k, "presetOf", 1, FSP, lambda S, p, K: S.inpre(p, K))


@contract("C10", "por.cpp")
def postset_of(k):
    """after postsetOf(p) every transition that takes tokens away from p is in the set"""
    of_place(k, "postsetOf", 2, FSQ, lambda S, p, K: z3.And(S.inpost(p, K), S.dirn(K) < 0))


@contract("C10", "por.cpp")
def seen_flags(k):
    S = Set(k)
    p = k.u32("place")
    k.st.assume(z3.ULT(p, S.net.nP))
    k.cover()
    v = S.get(k.st, S.seen, p)
    for fn, bit in (("seenPre", 1), ("seenPost", 2)):
        for o in k.run(r"^PetriEngine::StubbornSet::%s\(unsigned int\) const$" % fn, [S.stub, p], k.st.copy()):
            k.prove(o.st, tobool(o.val) == (v & BV(bit, 8) != 0), fn + " tells whether it was added")


@contract("C10", "por.cpp")
def inhibited_of(k):
    """after inhibitorPostsetOf(p) every transition inhibited by p is in the set"""
    S = Set(k)
    st = k.st
    p, K, r = k.u32("place"), k.u64("entry"), k.u32("other place")
    st.assume(z3.And(z3.ULT(p, S.net.nP), z3.ULT(r, S.net.nP)))
    n = k.u64("inhibited transitions")
    st.assume(z3.ULT(n, BV(1 << 32, 64)))
    a = k.arr("inhibited", "unsigned int", n, {"": lambda s, i, v: z3.Implies(z3.ULT(i, n), z3.ULT(v, S.net.nT))}, ro=True)
    ent = st.mem[a.obj].f[(0, 4)].arr
    vec = k.rec("list", "std::vector<unsigned int, std::allocator<unsigned int> >")
    k.setvec(vec, "", "", a, n)
    st.assume(z3.ULT(K, n))
    st.assume(z3.Or(S.seen0(z64(p)) & BV(4, 8) == 0, FST(ent(K))))

    def at(ex, s, args, ins):
        ex.prove(s, tobv(args[1], 64) == z64(p), "looks at the list of the place", "pre")
        return [(s, vec)]
    k.ex.contract(r"std::vector<std::vector<unsigned int.*::operator\[\]\(", at)
    S.add_contract()
    k.cover()
    before = S.get(st, S.seen, r)

    def cands(ex, s, lv):
        out = []
        for i, ix in lv.idx(s, a):
            out.append(("%s<=n" % i, lambda s, e, ix=ix: z3.ULE(ix(s, e), n)))
            out.append(("%s entries below" % i, lambda s, e, ix=ix: z3.Implies(z3.ULT(K, ix(s, e)), FST(ent(K)))))
        return out
    k.ex.loop_cands = cands
    for o in k.run(r"^PetriEngine::StubbornSet::inhibitorPostsetOf\(unsigned int\)$", [S.stub, p]):
        k.prove(o.st, FST(ent(K)), "every transition inhibited by the place is in the set")
        now = S.get(o.st, S.seen, r)
        k.prove(o.st, z3.If(r == p, now & ~BV(4, 8) == before & ~BV(4, 8), now == before), "only this place is marked as done, and only for this")


@contract("C10", "por.cpp")
def post_preset_of(k):
    """postPresetOf(t): disabling t needs a stubborn transition"""
    S = Set(k)
    st = k.st
    net = S.net
    HIT = k.boolin("the sequence fires a stubborn transition")
    t, U = k.u32("t"), k.u32("arc unsatisfied then")
    st.assume(z3.ULT(t, net.nT))
    st.assume(net.trans_wf(st, z64(t)))
    st.assume(z3.And(net.inpre(t, U), net.arc_wf(U)))
    m0 = st.mem[S.pm.obj].f[(0, 4)].arr
    M0 = lambda q: m0(z64(q))
    M1_ = lambda q: M1(z64(q))
    sat = lambda x, M: z3.If(net.inh(x), z3.ULT(M(net.place(x)), net.tok(x)), z3.UGE(M(net.place(x)), net.tok(x)))
    st.assume(z3.And(sat(U, M0), z3.Not(sat(U, M1_))))
    for fn, f in (("presetOf", lambda p: z3.Implies(z3.UGT(M1_(p), M0(p)), HIT)), ("postsetOf", lambda p: z3.Implies(z3.ULT(M1_(p), M0(p)), HIT))):
        def h(ex, s, args, ins, f=f, fn=fn):
            p = tobv(args[1], 32)
            ex.prove(s, z3.ULT(p, net.nP), fn + " requires: a place of the net", "pre")
            s.assume(f(p))
            return [(s, None)]
        k.ex.contract(r"^PetriEngine::StubbornSet::%s\(" % fn, h)
    k.cover()

    def cands(ex, s, lv):
        out = []
        for nm, g in lv.ints(s) + lv.idx(s, net.arcs):
            out.append(("%s in range" % nm, lambda s, e, g=g: z3.And(z3.ULE(z64(net.inp(t)), g(s, e)), z3.ULE(g(s, e), z64(net.outp(t))))))
            out.append(("%s arcs below" % nm, lambda s, e, g=g: z3.Implies(z3.ULT(z64(U), g(s, e)), HIT)))
        return out
    k.ex.loop_cands = cands
    for o in k.run(r"^PetriEngine::StubbornSet::postPresetOf\(", [S.stub, t, k.boolin("closure")]):
        k.prove(o.st, HIT, "disabling the transition needs a stubborn transition")


@contract("C10", "por.cpp")
def least_dependent(k):
    S = Set(k)
    st = k.st
    G = k.u32("an enabled transition")
    st.assume(z3.ULT(G, S.net.nT))
    en = lambda s, t: S.get(s, S.enb, t) != 0
    st.assume(en(st, G))
    k.cover()

    def cands(ex, s, lv):
        out = []
        ints = [(n, (lambda s, e, g=g: z3.Extract(31, 0, g(s, e)))) for n, g in lv.ints(s)]
        for nm, g in ints:
            out.append(("%s<=n" % nm, lambda s, e, g=g: z3.ULE(g(s, e), S.net.nT)))
            for f, b in lv.flags(s):
                out.append(("%s %s enabled" % (nm, f), lambda s, e, g=g, b=b: z3.Implies(b(s, e), z3.And(z3.ULT(g(s, e), S.net.nT), en(s, g(s, e))))))
                out.append(("%s %s found" % (nm, f), lambda s, e, g=g, b=b: z3.Implies(z3.ULT(G, g(s, e)), b(s, e))))
            out.append(("%s enabled or none" % nm, lambda s, e, g=g: z3.Or(g(s, e) == 0xffffffff, z3.And(z3.ULT(g(s, e), S.net.nT), en(s, g(s, e))))))
            for n2, g2 in ints:
                if n2 != nm:
                    out.append(("%s found before %s" % (nm, n2), lambda s, e, g=g, g2=g2: z3.Implies(z3.ULT(G, g2(s, e)), g(s, e) != 0xffffffff)))
        return out
    k.ex.loop_cands = cands
    for o in k.run(r"^PetriEngine::StubbornSet::leastDependentEnabled\(\)$", [S.stub]):
        r = tobv(o.val, 32)
        k.prove(o.st, z3.And(z3.ULT(r, S.net.nT), en(o.st, r)), "an enabled transition is picked whenever there is one")


@contract("C10", "por.cpp", budget=400)
def closure(k):
    """after closure() an arbitrary member T of the set is closed:
    enabled: every transition with an input arc on a place from which T takes tokens, and every transition inhibited by a place into
    which T produces, is in the set; disabled: for some unsatisfied input arc of T everything that could satisfy it is in the set"""
    S = Set(k)
    st, net, ex0 = k.st, S.net, k.ex
    T, X, K, U = k.u32("T"), k.u32("arc of T"), k.u32("table entry"), k.u32("unsatisfied arc of T")
    st.assume(z3.ULT(T, net.nT))
    st.assume(net.trans_wf(st, z64(T)))
    m0 = st.mem[S.pm.obj].f[(0, 4)].arr
    M = lambda q: m0(z64(q))
    unsat = lambda x: z3.If(net.inh(x), z3.UGE(M(net.place(x)), net.tok(x)), z3.ULT(M(net.place(x)), net.tok(x)))
    en = S.get(st, S.enb, T) != 0
    st.assume(z3.Implies(z3.Not(en), z3.And(net.inpre(T, U), unsat(U))))
    k.assume_note("enabled[t] is exact for the marking (contract construct_enabled)")
    for x in (X, U):
        st.assume(net.arc_wf(x))
        st.assume(z3.Implies(z3.ULT(x, net.nI), S.table_wf(z64(net.place(x)))[0]))
    UNS, INS = (z3.Function(n, B32, z3.BoolSort()) for n in ("place lacks tokens for T", "place inhibits T"))
    CL = k.boolin("something that must happen before T is covered")
    use = lambda x: [z3.Implies(z3.And(net.inpre(T, x), z3.Not(net.inh(x)), unsat(x)), UNS(net.place(x))), z3.Implies(z3.And(net.inpre(T, x), net.inh(x), unsat(x)), INS(net.place(x)))]
    cov = lambda p: [z3.Implies(z3.And(UNS(p), FSP(p)), CL), z3.Implies(z3.And(INS(p), FSQ(p)), CL)]
    net.on_arc_read(lambda s, x: use(x) + cov(net.place(x)))
    contains = k.boolin("net contains inhibitor arcs")
    k.setf(S.stub, RSS, "_netContainsInhibitorArcs", contains)
    hasinh = lambda p: z3.Implies(z3.Not(contains), FSI(p))     # nothing is inhibited then
    dirn = lambda x: net._dir(z64(x))
    closed = lambda: [("a member takes tokens: all takers are members", z3.Implies(z3.And(en, net.inpre(T, X), dirn(X) < 0, S.inpost(net.place(X), K)), FST(S.index(K)))),
                      ("a member produces tokens: all inhibited are members", z3.Implies(z3.And(en, contains, net.inpost(T, X), dirn(X) > 0), FSI(net.place(X)))),
                      ("a disabled member: what could enable it is a member", z3.Or(en, CL))]
    gh = ex0.new_rec(st, "ghost", 3)
    gS, gQ, gD = gh, gh.plus(1), gh.plus(2)
    slot = ex0.new_rec(st, "front", 4)
    rd = lambda s, p: tobv(ex0.load_raw(s, p, 1, False, None), 8) != 0
    wr = lambda s, p, b: ex0.store_raw(s, p, 1, z3.If(b, BV(1, 8), BV(0, 8)), None)
    for p_, n in ((gS, "T stubborn"), (gQ, "T queued"), (gD, "T processed")):
        wr(st, p_, k.boolin(n))
    ex0.store_raw(st, slot, 4, fresh("front", 32), None)
    st.assume(z3.Implies(rd(st, gS), z3.Or(rd(st, gQ), rd(st, gD))))
    for n, f in closed():
        st.assume(z3.Implies(rd(st, gD), f))
    dq = S.stub.plus(k.m.path(RSS, "_unprocessed")[0])

    def grow(s, certain=None):
        a, b = rd(s, gS), rd(s, gQ)
        if certain is not None:
            wr(s, gQ, z3.Or(b, z3.And(certain, z3.Not(a))))
            wr(s, gS, z3.Or(a, certain))
        else:
            n = freshb("joins")
            wr(s, gQ, z3.Or(b, z3.And(n, z3.Not(a))))
            wr(s, gS, z3.Or(a, n))

    def isq(ex, s, args):
        if not ex.aptr(args[0]).same(dq):
            raise Unsupported("another queue")

    def empty(ex, s, args, ins):
        isq(ex, s, args)
        b = freshb("empty")
        s.assume(z3.Implies(b, z3.Not(rd(s, gQ))))
        return [(s, b)]

    def front(ex, s, args, ins):
        isq(ex, s, args)
        s2 = s.copy()
        ex.store_raw(s, slot, 4, T, None)
        t = fresh("t", 32)
        s2.assume(z3.And(z3.ULT(t, net.nT), t != T))
        s2.assume(net.trans_wf(s2, z64(t)))
        ex.store_raw(s2, slot, 4, t, None)
        return [(s, slot), (s2, slot)]

    def pop(ex, s, args, ins):
        isq(ex, s, args)
        t = tobv(ex.load_raw(s, slot, 4, False, None), 32)
        wr(s, gD, z3.Or(rd(s, gD), t == T))
        wr(s, gQ, z3.And(rd(s, gQ), z3.Or(t != T, freshb("queued again"))))
        return [(s, None)]
    k.ex.contract(r"light_deque<unsigned int>::empty\(", empty)
    k.ex.contract(r"light_deque<unsigned int>::front\(", front)
    k.ex.contract(r"light_deque<unsigned int>::pop_front\(", pop)
    S.add_contract(lambda ex, s, t: grow(s, t == T))
    for fn, F in (("presetOf", FSP), ("postsetOf", FSQ), ("inhibitorPostsetOf", FSI)):
        def h(ex, s, args, ins, fn=fn, F=F):
            p = tobv(args[1], 32)
            ex.prove(s, z3.ULT(p, net.nP), fn + " requires: a place of the net", "pre")
            s.assume(F(p))
            for f in cov(p):
                s.assume(f)
            grow(s)
            o = s.mem[S.seen.obj].copy()
            o.f[(0, 1)] = FBase(fresh_arr("seen", 8), 8, lambda s_, i, v: S.seen_inv(narrow(i), v))
            s.mem[S.seen.obj] = o
            return [(s, None)]
        k.ex.contract(r"^PetriEngine::StubbornSet::%s\(" % fn, h)
    k.cover()
    j = k.u64("some place")

    isT = lambda s: tobv(ex0.load_raw(s, slot, 4, False, None), 32) == T

    def cands(ex, s, lv):
        out = [("a member is queued or processed", lambda s, e: z3.Implies(rd(s, gS), z3.Or(rd(s, gQ), rd(s, gD)))),
               ("seen", UniInv(lambda s, e, q, v: S.seen_inv(z3.Extract(31, 0, q), v), S.seen, (0, 1), j))]
        for n, f in closed():
            out.append(("processed: " + n, lambda s, e, f=f: z3.Implies(rd(s, gD), f)))
            out.append(("another is processed: " + n, lambda s, e, f=f: z3.Implies(z3.And(rd(s, gD), z3.Not(isT(s))), f)))
        general = out
        out = []
        fl = [x for x in lv.flags(s) if "ghost" not in x[0]]
        arcs = lv.idx(s, net.arcs)
        ints = [(n, (lambda s, e, g=g: z3.Extract(31, 0, g(s, e)))) for n, g in lv.ints(s)]
        for nm, g in arcs:
            for a, b, n in ((net.inp(T), net.outp(T), "preset"), (net.outp(T), net.inp(T + 1), "postset")):
                out.append(("%s in %s" % (nm, n), lambda s, e, g=g, a=a, b=b: z3.And(z3.ULE(z64(a), g(s, e)), z3.ULE(g(s, e), z64(b)))))
            general.append(("%s arcs" % nm, lambda s, e, g=g: z3.ULE(g(s, e), z64(net.nI))))
            for i, (n, f) in enumerate(closed()[:2]):
                out.append(("%s arcs below: %s" % (nm, n), lambda s, e, g=g, f=f: z3.Implies(z3.ULT(z64(X), g(s, e)), f)))
            for n2, h in ints:
                for f, b in fl:
                    out.append(("%s arcs below: %s or %s" % (nm, f, n2), lambda s, e, g=g, b=b, h=h: z3.Implies(z3.And(z3.Not(en), z3.ULT(z64(U), g(s, e))), z3.Or(b(s, e), h(s, e) != 0xffffffff))))
        for f, b in fl:
            out.append(("%s means covered" % f, lambda s, e, b=b: z3.Implies(b(s, e), CL)))
        for nm, g in ints:
            for f, b in fl:
                out.append(("%s candidate %s" % (nm, f), lambda s, e, g=g, b=b: z3.Implies(z3.And(g(s, e) != 0xffffffff), z3.If(b(s, e), INS(g(s, e)), UNS(g(s, e))))))
                for f2, b2 in fl:
                    if f2 != f:
                        out.append(("%s candidate %s unless %s" % (nm, f, f2), lambda s, e, g=g, b=b, b2=b2: z3.Or(b2(s, e), g(s, e) == 0xffffffff, z3.If(b(s, e), INS(g(s, e)), UNS(g(s, e))))))
            general.append(("%s a place or none" % nm, lambda s, e, g=g: z3.Or(g(s, e) == 0xffffffff, z3.ULT(g(s, e), net.nP))))
            for n2, g2 in ints:
                if n2 != nm:
                    out.append(("%s %s none together" % (nm, n2), lambda s, e, g=g, g2=g2: z3.Implies(g(s, e) == 0xffffffff, g2(s, e) == 0xffffffff)))
            # table entries
            general.append(("%s table" % nm, lambda s, e, g=g: z3.ULE(g(s, e), S.nA)))
            for n2, a in lv.outer_idx(s, net.arcs):
                out.append(("%s table of %s" % (nm, n2), lambda s, e, g=g, a=a: z3.ULE(g(s, e), S._pre(z64(net.place(z3.Extract(31, 0, a(s, e)))) + 1))))
                out.append(("%s table entries below of %s" % (nm, n2), lambda s, e, g=g, a=a: z3.Implies(z3.And(a(s, e) == z64(X), S.inpost(net.place(X), K), z3.ULT(K, g(s, e))), FST(S.index(K)))))
        return general + [("T is processed: " + n, lambda s, e, f=f: z3.Implies(isT(s), f(s, e))) for n, f in out]
    k.ex.loop_cands = cands
    outs = k.run(r"StubbornSet::closure<std::nullptr_t>\(", [S.stub, NULLP])
    for o in outs:
        k.prove(o.st, z3.Not(rd(o.st, gQ)), "nothing is left to process")
        for n, f in closed():
            k.prove(o.st, z3.Implies(rd(o.st, gS), f), n)


from c02 import Enum


def enum_setup(k):
    S = Set(k)
    g = k.u32("g")
    k.st.assume(z3.ULT(g, S.net.nT))
    E = Enum(k, S.net, S.pm, g)
    E.attach()
    k.st.assume(S.net.trans_wf(k.st, z64(g)))
    k.st.assume(E.en_def(g))
    k.st.assume(E.bucket_def(g))
    return S, g, E


@contract("C10", "por.cpp")
def check_preset(k):
    """checkPreset(t) holds iff every input arc of t is satisfied in the marking"""
    S, g, E = enum_setup(k)
    net = S.net
    k.cover()
    U = E.unsat(g)

    def cands(ex, s, lv):
        out = []
        for nm, ix in lv.ints(s) + lv.idx(s, net.arcs):
            out.append(("%s in range" % nm, lambda s, e, ix=ix: z3.And(z3.ULE(z64(net.inp(g)), ix(s, e)), z3.ULE(ix(s, e), z64(net.outp(g))))))
            out.append(("%s arcs below are satisfied" % nm, lambda s, e, ix=ix: z3.Or(E.En(g), z3.UGE(z64(U), ix(s, e)))))
        return out
    k.ex.loop_cands = cands
    for o in k.run(r"^PetriEngine::StubbornSet::checkPreset\(unsigned int\)$", [S.stub, g]):
        k.prove(o.st, tobool(o.val) == E.En(g), "says whether the transition is enabled")


@contract("C10", "por.cpp")
def construct_enabled(k):
    """after constructEnabled: enabled[g] iff g is enabled, nothing is stubborn, and the enabled transitions are exactly those in the order"""
    S, g, E = enum_setup(k)
    net, st = S.net, k.st
    p2t = lambda q: net._p2t(z64(q))
    od = S.stub.plus(k.m.path(RSS, "_ordering")[0])
    cnt = k.ex.new_rec(st, "times g is in the order", 4)
    k.ex.store_raw(st, cnt, 4, fresh("before", 32), None)
    rd = lambda s: tobv(k.ex.load_raw(s, cnt, 4, False, None), 32)

    def isq(ex, args):
        if not ex.aptr(args[0]).same(od):
            raise Unsupported("another queue")

    def clear(ex, s, args, ins):
        isq(ex, args)
        ex.store_raw(s, cnt, 4, BV(0, 32), None)
        return [(s, None)]

    def push(ex, s, args, ins):
        isq(ex, args)
        v = tobv(ex.load_raw(s, ex.aptr(args[1]), 4, False, None), 32)
        ex.store_raw(s, cnt, 4, z3.If(v == g, rd(s) + 1, rd(s)), None)
        return [(s, None)]

    def chk(ex, s, args, ins):
        t = tobv(args[1], 32)
        ex.prove(s, z3.ULT(t, net.nT), "checkPreset requires: a transition of the net", "pre")
        s.assume(E.en_def(t))
        return [(s, E.En(t))]
    k.ex.contract(r"light_deque<unsigned int>::clear\(", clear)
    k.ex.contract(r"light_deque<unsigned int>::push_back\(", push)
    k.ex.contract(r"^PetriEngine::StubbornSet::checkPreset\(", chk)
    k.cover()
    en = lambda s: S.get(s, S.enb, g)
    B = E.bucket(g)
    done = lambda q: z3.ULT(B, q)

    def cands(ex, s, lv):
        out = []
        ints = [(n, (lambda s, e, x=x: z3.Extract(31, 0, x(s, e)))) for n, x in lv.ints(s)]
        outer = [(n, (lambda s, e, x=x: z3.Extract(31, 0, x(s, e)))) for n, x in lv.outer(s)]

        def facts(s, q):
            s.fact_once(("p2tf", q.get_id()), q, lambda: net.p2t_wf(s, z64(q), p2t(q)) + E.p2t_facts(z64(q)) + net.p2t_wf(s, z64(q + 1), p2t(q + 1)) + E.p2t_facts(z64(q + 1)))
            return q
        right = lambda s, c: z3.And(z3.Implies(c, z3.And(en(s) == z3.If(E.En(g), BV(1, 8), BV(0, 8)), rd(s) == z3.If(E.En(g), BV(1, 32), BV(0, 32)))),
                                    z3.Implies(z3.Not(c), z3.And(en(s) == 0, rd(s) == 0)))
        for nm, x in ints:
            out.append(("%s<=nP" % nm, lambda s, e, x=x: z3.ULE(x(s, e), net.nP)))
            out.append(("%s places below done" % nm, lambda s, e, x=x: right(s, z3.ULT(B, facts(s, x(s, e))))))
            out.append(("%s transitions below done" % nm, lambda s, e, x=x: right(s, z3.ULT(g, x(s, e)))))
            for n2, q in outer:
                out.append(("%s in the bucket %s" % (nm, n2), lambda s, e, x=x, q=q: z3.And(z3.ULE(p2t(facts(s, q(s, e))), x(s, e)), z3.ULE(x(s, e), p2t(q(s, e) + 1)))))
        out.append(("nothing stubborn", lambda s, e: S.get(s, S.stb, g) == 0))
        return out
    k.ex.loop_cands = cands
    for o in k.run(r"StubbornSet::constructEnabled<std::nullptr_t>\(", [S.stub, NULLP]):
        k.prove(o.st, (en(o.st) != 0) == E.En(g), "enabled is marked exactly for the enabled transitions")
        k.prove(o.st, rd(o.st) == z3.If(E.En(g), BV(1, 32), BV(0, 32)), "the order lists every enabled transition once")
        k.prove(o.st, S.get(o.st, S.stb, g) == 0, "the stubborn set starts empty")


@contract("C10", "por.cpp")
def next_stubborn(k):
    """next() returns a stubborn enabled transition and skips none"""
    S = Set(k)
    st = k.st
    g = k.u32("g")
    st.assume(z3.ULT(g, S.net.nT))
    od = S.stub.plus(k.m.path(RSS, "_ordering")[0])
    inq = k.ex.new_rec(st, "g is in the order", 1)
    rd = lambda s: tobv(k.ex.load_raw(s, inq, 1, False, None), 8) != 0
    wr = lambda s, b: k.ex.store_raw(s, inq, 1, z3.If(b, BV(1, 8), BV(0, 8)), None)
    b0 = k.boolin("g in the order")
    wr(st, b0)
    slot = k.ex.new_rec(st, "front", 4)
    k.ex.store_raw(st, slot, 4, fresh("front", 32), None)

    def isq(ex, args):
        if not ex.aptr(args[0]).same(od):
            raise Unsupported("another queue")

    def empty(ex, s, args, ins):
        isq(ex, args)
        b = freshb("empty")
        s.assume(z3.Implies(b, z3.Not(rd(s))))
        return [(s, b)]

    def front(ex, s, args, ins):
        isq(ex, args)
        t = fresh("t", 32)
        s.assume(z3.ULT(t, S.net.nT))
        ex.store_raw(s, slot, 4, t, None)
        return [(s, slot)]

    def pop(ex, s, args, ins):
        isq(ex, args)
        t = tobv(ex.load_raw(s, slot, 4, False, None), 32)
        wr(s, z3.And(rd(s), t != g))
        return [(s, None)]
    k.ex.contract(r"light_deque<unsigned int>::empty\(", empty)
    k.ex.contract(r"light_deque<unsigned int>::front\(", front)
    k.ex.contract(r"light_deque<unsigned int>::pop_front\(", pop)
    k.assume_note("light_deque is a first-in first-out queue (C14)")
    k.cover()
    good = lambda t: z3.And(S.get(st, S.stb, t) != 0, S.get(st, S.enb, t) != 0)

    def cands(ex, s, lv):
        return [("g still there", lambda s, e: z3.Implies(z3.And(b0, good(g)), rd(s)))]
    k.ex.loop_cands = cands
    for o in k.run(r"^PetriEngine::StubbornSet::next\(\)$", [S.stub]):
        r = tobv(o.val, 32)
        k.prove(o.st, z3.Or(r == 0xffffffff, z3.And(z3.ULT(r, S.net.nT), good(r))), "returns a stubborn enabled transition")
        k.prove(o.st, z3.Implies(z3.And(b0, good(g)), z3.Or(r == g, rd(o.st))), "no stubborn enabled transition is skipped")
        k.prove(o.st, z3.Implies(r == 0xffffffff, z3.Not(z3.And(b0, good(g)))), "ends only when all were returned")
        k.prove(o.st, z3.Implies(r != 0xffffffff, tobv(k.getf(S.stub, RSS, "_current", o.st), 32) == r), "fired() is the transition returned")


@contract("C10", "por.cpp")
def reset_set(k):
    S = Set(k)
    st = k.st
    g, p = k.u32("g"), k.u32("p")
    st.assume(z3.And(z3.ULT(g, S.net.nT), z3.ULT(p, S.net.nP)))
    cleared = k.ex.new_rec(st, "order cleared", 1)
    k.ex.store_raw(st, cleared, 1, BV(0, 8), None)

    def clear(ex, s, args, ins):
        ex.store_raw(s, cleared, 1, BV(1, 8), None)
        return [(s, None)]
    k.ex.contract(r"light_deque<unsigned int>::clear\(", clear)

    def fill(ex, s, args, ins):
        a, b = ex.aptr(args[0]), ex.aptr(args[1])
        v = tobv(ex.load_raw(s, ex.aptr(args[2]), 1, False, None), 8) if isinstance(args[2], Ptr) else tobv(args[2], 8)
        dem = ex.m.fns[ins["callee"][1]]["dem"]
        if "int>" in dem.split("(")[0] and isinstance(args[2], Ptr):
            v = z3.Extract(7, 0, tobv(ex.load_raw(s, ex.aptr(args[2]), 4, False, None), 32))
        o = s.mem[a.obj].copy()
        n = b.off.split(1)[0].bv()
        if a.obj != b.obj or a.off.const() != 0:
            raise Unsupported("fill")
        ex.prove(s, z3.ULE(n, o.n), "fills inside the array", "pre")
        w = v
        o.f[(0, 1)] = FCopy(o.f[(0, 1)], BV(0, 64), n, FBase(lambda i, w=w: w, 8), BV(0, 64))
        s.mem[a.obj] = o
        return [(s, None)]
    k.ex.contract(r"^void std::fill<", fill)
    k.assume_note("std::fill writes its value to every element of the range")
    k.cover()
    for o in k.run(r"^PetriEngine::StubbornSet::reset\(\)$", [S.stub]):
        for a, i, n in ((S.enb, g, "enabled"), (S.stb, g, "stubborn"), (S.seen, p, "places seen")):
            k.prove(o.st, S.get(o.st, a, i) == 0, n + " is cleared")
        k.prove(o.st, tobv(k.ex.load_raw(o.st, cleared, 1, False, None), 8) != 0, "the order is cleared")


@contract("C10", "por.cpp")
def prepare(k):
    """prepare: with one enabled transition it is the set; otherwise every query is evaluated in this marking, visited, and the set closed"""
    S = Set(k)
    st, ex0 = k.st, k.ex
    Q = k.u64("some query")
    n = k.u64("number of queries")
    st.assume(z3.And(z3.ULT(n, BV(1 << 32, 64)), z3.ULT(Q, n)))
    qs = k.arr("queries", "PetriEngine::PQL::Condition *", n, ro=True) if False else ex0.new_arr(st, "queries", "unsigned long", n, None, True)
    ids = st.mem[qs.obj].f[(0, 8)].arr
    k.setvec(S.stub, RSS, "_queries", qs, n)
    newpar, npm = S.net.state("new parent", True)
    names = ("reset", "enabled computed", "evaluated", "visited", "closed")
    gh = ex0.new_rec(st, "steps", 8)
    P_ = {nm: gh.plus(i) for i, nm in enumerate(names)}
    rd = lambda s, nm: tobv(ex0.load_raw(s, P_[nm], 1, False, None), 8) != 0
    wr = lambda s, nm, b: ex0.store_raw(s, P_[nm], 1, z3.If(b, BV(1, 8), BV(0, 8)), None)
    for nm in names:
        wr(st, nm, z3.BoolVal(False))
    size = k.u64("number of enabled transitions")
    first = k.u32("first enabled transition")
    st.assume(z3.Implies(z3.UGT(size, 0), z3.ULT(first, S.net.nT)))
    slot = ex0.new_rec(st, "front", 4)
    ex0.store_raw(st, slot, 4, first, None)
    T_ = z3.BoolVal(True)

    def reset(ex, s, args, ins):
        wr(s, "reset", T_)
        for nm in names[1:]:
            wr(s, nm, z3.BoolVal(False))
        return [(s, None)]
    k.ex.contract(r"StubbornSet::reset\(", reset)

    def ce(ex, s, args, ins):
        ex.prove(s, ex.aptr(k.getf(S.stub, RSS, "_parent", s, True)).same(newpar), "enabledness is computed in the given marking", "pre")
        ex.prove(s, rd(s, "reset"), "after the reset", "pre")
        wr(s, "enabled computed", T_)
        return [(s, None)]
    k.ex.contract(r"StubbornSet::constructEnabled<", ce)

    def sz(ex, s, args, ins):
        ex.prove(s, rd(s, "enabled computed"), "the order is asked after it was computed", "pre")
        return [(s, size)]
    k.ex.contract(r"light_deque<unsigned int>::size\(", sz)
    k.ex.contract(r"light_deque<unsigned int>::empty\(", lambda ex, s, args, ins: [(s, size == 0)])
    k.ex.contract(r"light_deque<unsigned int>::front\(", lambda ex, s, args, ins: [(s, slot)])

    def ident(ex, s, p):
        p = ex.aptr(p)
        return ex.ptr_bv(s, p) if isinstance(p, Ptr) else tobv(p, 64)
    k.assume_note("the queries of a set are distinct objects")

    def ev(ex, s, args, ins):
        c = ident(ex, s, args[0])
        cx = ex.aptr(args[1])
        mk = k.getf(cx, P + "EvaluationContext", "_marking", s, True)
        ex.prove(s, ex.aptr(mk).same(npm), "queries are evaluated in the given marking", "pre")
        wr(s, "evaluated", z3.Or(rd(s, "evaluated"), c == ids(Q)))
        return [(s, fresh("result", 32))]
    k.ex.contract(r"PQL::evaluateAndSet\(", ev)

    def vis(ex, s, args, ins):
        c = ident(ex, s, args[1])
        ex.prove(s, z3.Implies(c == ids(Q), rd(s, "evaluated")), "a query is visited after it was evaluated", "pre")
        wr(s, "visited", z3.Or(rd(s, "visited"), c == ids(Q)))
        wr(s, "closed", z3.BoolVal(False))
        return [(s, None)]
    k.ex.contract(r"PQL::Visitor::visit<", vis)

    def clo(ex, s, args, ins):
        wr(s, "closed", T_)
        return [(s, None)]
    k.ex.contract(r"StubbornSet::closure<", clo)
    k.cover()

    def cands(ex, s, lv):
        out = []
        for i, ix in lv.idx(s, qs):
            out.append(("%s<=n" % i, lambda s, e, ix=ix: z3.ULE(ix(s, e), n)))
            for nm in ("evaluated", "visited"):
                out.append(("%s %s below" % (i, nm), lambda s, e, ix=ix, nm=nm: z3.Implies(z3.ULT(Q, ix(s, e)), rd(s, nm))))
        for nm in ("reset", "enabled computed"):
            out.append((nm, lambda s, e, nm=nm: rd(s, nm)))
        return out
    k.ex.loop_cands = cands
    for o in k.run(r"^PetriEngine::ReachabilityStubbornSet::prepare\(", [S.stub, newpar]):
        r = tobool(o.val)
        s = o.st
        k.prove(s, r == (size != 0), "false exactly when nothing is enabled")
        k.prove(s, z3.Implies(r, z3.If(size == 1, z3.Or(S.get(s, S.stb, first) != 0, z3.And(rd(s, "visited"), rd(s, "closed"))), z3.And(rd(s, "evaluated"), rd(s, "visited"), rd(s, "closed")))),
                "the only enabled transition is in the set, or every query was visited and the set closed")
        k.prove(s, z3.And(rd(s, "reset"), rd(s, "enabled computed")), "set and enabled transitions were computed for this marking")
