from pqlmodel import *


def expr_case(k, tname):
    q = Pql(k)
    el = q.obj(tname)
    v = q.visitor("ExprEvalVisitor", "_vptr$Visitor")
    off = k.u64("instance offset")
    k.setf(v, P + "ExprEvalVisitor", "_offset", off)
    k.setf(v, P + "ExprEvalVisitor", "_value", fresh("stale", 64))
    q.expr_contract()
    return q, el, v, off


def run_visit(k, el, tname, v, cls=None):
    """the real visit: dispatch on the dynamic type, then the visitor's function for it"""
    cls = cls or "ExprEvalVisitor"
    base = "Expr" if cls == "ExprEvalVisitor" else "Condition"
    k.under.append("PetriEngine::PQL::%s::_accept(PetriEngine::PQL::%s*)" % (cls, tname))
    return k.run(r"^void PetriEngine::PQL::Visitor::visit<PetriEngine::PQL::%s, PetriEngine::PQL::%s>\(PetriEngine::PQL::%s\*, PetriEngine::PQL::%s\*\)$" % (cls, base, cls, base), [v, el])


def value_is(k, outs, v, want, name):
    for o in outs:
        if o.kind != "ret":
            k.prove(o.st, False, "does not throw")
            continue
        w = want(o.st) if callable(want) else want
        k.prove(o.st, tobv(k.getf(v, P + "ExprEvalVisitor", "_value", o.st), 64) == w, name)


@contract("C04", "pql.cpp")
def literal(k):
    q, el, v, off = expr_case(k, "LiteralExpr")
    x = k.u64("value")
    k.setf(el, P + "LiteralExpr", "_value", x)
    k.cover()
    value_is(k, run_visit(k, el, "LiteralExpr", v), v, x, "a literal evaluates to its value")


@contract("C04", "pql.cpp")
def minus(k):
    q, el, v, off = expr_case(k, "MinusExpr")
    c = q.shared(el, "MinusExpr", "_expr", "operand")
    k.cover()
    value_is(k, run_visit(k, el, "MinusExpr", v), v, -VAL(c, off), "minus negates the value of its operand")


@contract("C04", "pql.cpp")
def identifier(k):
    q, el, v, off = expr_case(k, "UnfoldedIdentifierExpr")
    p = k.u32("place")
    nP = k.u32("places of the net")
    net = k.rec("net", "PetriEngine::PetriNet", ro=True)
    k.setf(net, "PetriEngine::PetriNet", "_nplaces", nP)
    k.setf(q.ctx, P + "EvaluationContext", "_net", net)
    k.setf(el, P + "UnfoldedIdentifierExpr", "_offsetInMarking", p)
    k.st.assume(p >= 0)
    k.st.assume(off == 0)            # no instance selection: plain (non-hyper) queries
    k.st.assume(z3.ULT(z64(p), q.nP))
    k.cover()
    value_is(k, run_visit(k, el, "UnfoldedIdentifierExpr", v), v, q.at(p), "a place evaluates to its token count (never negative)")


@contract("C04", "pql.cpp")
def compiled_identifier(k):
    q, el, v, off = expr_case(k, "IdentifierExpr")
    c = q.shared(el, "IdentifierExpr", "_compiled", "compiled")
    k.cover()
    value_is(k, run_visit(k, el, "IdentifierExpr", v), v, VAL(c, off), "an identifier evaluates as the place it was bound to")


@contract("C04", "pql.cpp")
def path_select(k):
    q, el, v, off = expr_case(k, "PathSelectExpr")
    c = q.shared(el, "PathSelectExpr", "_child", "child")
    o2 = k.u64("selected instance")
    k.setf(el, P + "PathSelectExpr", "_offset", o2)
    k.cover()
    outs = run_visit(k, el, "PathSelectExpr", v)
    value_is(k, outs, v, VAL(c, o2), "a path selection evaluates its operand in the selected instance")
    for o in outs:
        k.prove(o.st, tobv(k.getf(v, P + "ExprEvalVisitor", "_offset", o.st), 64) == off, "the selection ends with the expression")


def fold_case(k, tname, op, unit, minus=False):
    """r = op over constant, places and operands (modulo 2^64)"""
    q, el, v, off = expr_case(k, tname)
    arr, n, ids = q.children(el, tname, "_exprs", "Expr", "operands")
    E = z3.Function("operands_folded", B64, B64)
    PF = z3.Function("places_folded", B64, B64)
    m = k.st.mem[q.marking.obj].f[(0, 4)]
    if not minus:
        cst = k.u64("constant")
        k.setf(el, P + tname, "_constant", cst)
        np_ = k.u64("number of places")
        k.st.assume(z3.ULT(np_, BV(1 << 40, 64)))
        ty = [t for t in k.m.types if t.startswith("std::pair<unsigned int, std::shared_ptr<const std::__cxx11::basic_string")][0]
        ar2 = k.arr("places", ty, np_, ro=True)
        pl = k.st.mem[ar2.obj].f[(0, 4)].arr

        # well formed: places of an analysed query lie within the marking
        a = k.st.mem[ar2.obj]
        a.f[(0, 4)] = FBase(pl, 32, lambda st, i, x: [z3.Implies(z3.ULT(i, np_), z3.ULT(z64(x), q.nP)), PF(i + 1) == op(PF(i), z3.ZeroExt(32, m.sel(st, z64(x))))])
        k.setvec(el, P + tname, "_ids", ar2, np_)
        k.st.assume(PF(BV(0, 64)) == cst)
        k.st.assume(E(BV(0, 64)) == PF(np_))
    else:
        ar2 = None
        k.st.assume(z3.UGT(n, 0))
        k.st.assume(E(BV(1, 64)) == VAL(ids(BV(0, 64)), off))
    a1 = k.st.mem[arr.obj]
    a1.f[(0, 8)] = FBase(ids, 64, lambda st, i, x: [E(i + 1) == op(E(i), VAL(x, off))] if not minus else [z3.Implies(i != 0, E(i + 1) == op(E(i), VAL(x, off)))])
    k.cover()

    def cands(ex, st, lv):
        out = []
        ints = lv.ints(st)
        for base, F, nn in [(arr, E, n)] + ([(ar2, PF, np_)] if ar2 else []):
            for i, ix in lv.idx(st, base):
                out.append(("%s<=n" % i, lambda s, e, ix=ix, nn=nn: z3.ULE(ix(s, e), nn)))
                out.append(("%s>0" % i, lambda s, e, ix=ix: z3.UGE(ix(s, e), 1)))
                for nm, g in ints:
                    out.append(("%s = folded up to %s" % (nm, i), lambda s, e, ix=ix, g=g, F=F: g(s, e) == F(ix(s, e))))
        return out
    k.ex.loop_cands = cands
    value_is(k, run_visit(k, el, tname, v), v, E(n), "evaluates to the folded value of constant, places and operands")


@contract("C04", "pql.cpp")
def plus(k):
    fold_case(k, "PlusExpr", lambda a, b: a + b, 0)


@contract("C04", "pql.cpp")
def multiply(k):
    fold_case(k, "MultiplyExpr", lambda a, b: a * b, 1)


@contract("C04", "pql.cpp")
def subtract(k):
    fold_case(k, "SubtractExpr", lambda a, b: a - b, 0, minus=True)


# ---------------------------------------------------------------- conditions
EV, ES = "EvaluateVisitor", "EvaluateAndSetVisitor"


def cond_case(k, tname, cls, facts=None):
    q = Pql(k)
    el = q.obj(tname)
    k.setf(el, P + tname, "_eval", fresh("stale", 32))
    v = q.visitor(cls)
    k.setf(v, P + cls, "_return_value", fresh("stale", 32))
    q.expr_contract()
    q.cond_contract(facts)
    return q, el, v, k.ex.ptr_bv(k.st, el)


def answer(k, o, v):
    return tobv(k.getf(v, P + "BaseEvaluationVisitor", "_return_value", o.st), 32)


def verdict(k, outs, v, el, tname, cls, holds, fails, definite, facts=None, record=True):
    """holds/fails: what must be true when the answer is 'true' / 'false'"""
    for o in outs:
        if o.kind != "ret":
            k.prove(o.st, False, "does not throw")
            continue
        st = o.st.copy()
        for f in (facts(st) if facts else []):
            st.assume(f)
        r = answer(k, o, v)
        k.prove(st, z3.Or(r == RU, r == RF, r == RT), "the answer is true, false or unknown")
        k.prove(st, z3.Implies(r == RT, holds(st) if callable(holds) else holds), "answers true only if the condition holds")
        k.prove(st, z3.Implies(r == RF, fails(st) if callable(fails) else fails), "answers false only if the condition fails")
        k.prove(st, z3.Implies(definite, r != RU), "answers when every operand is a state predicate")
        if cls == ES and record:
            k.prove(st, tobv(k.getf(el, P + tname, "_eval", o.st), 32) == r, "the recorded answer is the answer")


def both(fn):
    def mk(prop, cls):
        def f(k):
            fn(k, cls)
        f.__name__ = fn.__name__ + ("_recorded" if cls == ES else "")
        contract(prop, "pql.cpp")(f)
    mk("C04", EV)
    mk("C05", ES)
    return fn


def compare_case(k, cls, tname, rel):
    q, el, v, me = cond_case(k, tname, cls)
    a = q.shared(el, tname, "_expr1", "left")
    b = q.shared(el, tname, "_expr2", "right")
    k.cover()
    zero = BV(0, 64)
    outs = run_visit(k, el, tname, v, cls)
    t = rel(VAL(a, zero), VAL(b, zero))
    verdict(k, outs, v, el, tname, cls, t, z3.Not(t), z3.BoolVal(True))
    if cls == ES:
        for o in outs:
            for c, n in ((a, "left"), (b, "right")):
                off, size = k.m.path(P + "Expr", "_eval")[:2]
                e = o.st.heap.get((off, size))
                got = e.sel(o.st, c) if e is not None else fresh("unset", size * 8)
                k.prove(o.st, (z3.SignExt(64 - size * 8, got) if size < 8 else got) == VAL(c, zero), "the recorded value of the %s expression is its value" % n)


@both
def equal(k, cls):
    compare_case(k, cls, "EqualCondition", lambda a, b: a == b)


@both
def not_equal(k, cls):
    compare_case(k, cls, "NotEqualCondition", lambda a, b: a != b)


@both
def less(k, cls):
    compare_case(k, cls, "LessThanCondition", lambda a, b: a < b)


@both
def less_equal(k, cls):
    compare_case(k, cls, "LessThanOrEqualCondition", lambda a, b: a <= b)


@both
def not_(k, cls):
    q, el, v, me = cond_case(k, "NotCondition", cls)
    c = q.shared(el, "NotCondition", "_cond", "operand")
    k.cover()
    verdict(k, run_visit(k, el, "NotCondition", v, cls), v, el, "NotCondition", cls, FA(c), TA(c), TEMPORAL_FREE(c))


@both
def boolean(k, cls):
    q, el, v, me = cond_case(k, "BooleanCondition", cls)
    b = k.boolin("value")
    k.setf(el, P + "BooleanCondition", "value", b)
    k.cover()
    verdict(k, run_visit(k, el, "BooleanCondition", v, cls), v, el, "BooleanCondition", cls, b, z3.Not(b), z3.BoolVal(True))


@both
def deadlock(k, cls):
    q, el, v, me = cond_case(k, "DeadlockCondition", cls)
    dead = k.boolin("deadlocked")
    net = k.rec("net", "PetriEngine::PetriNet", ro=True)
    k.setf(q.ctx, P + "EvaluationContext", "_net", net)

    def h(ex, st, args, ins):
        ex.prove(st, ex.aptr(args[0]).same(net) and ex.aptr(args[1]).same(q.marking), "asks the net about the current marking", "pre")
        return [(st, tobv(dead, 1) if False else dead)]
    k.ex.contract(r"^PetriEngine::PetriNet::deadlocked\(", h)
    k.cover()
    verdict(k, run_visit(k, el, "DeadlockCondition", v, cls), v, el, "DeadlockCondition", cls, dead, z3.Not(dead), z3.BoolVal(True))


def nary(k, cls, tname, conj):
    G, Bd = (TA, FA) if conj else (FA, TA)          # what every operand must be / what one operand suffices for
    bad = k.boolin("some operand decides")
    alldef = k.boolin("every operand is a state predicate")
    # instances of: an operand that decides makes the whole decided; every operand is a state predicate
    q, el, v, me = cond_case(k, tname, cls, lambda c: [z3.Implies(Bd(c), bad), z3.Implies(alldef, TEMPORAL_FREE(c))])
    arr, n, ids = q.children(el, tname, "_conds", "Condition", "operands")
    g = k.u64("g")          # arbitrary operand
    k.st.assume(z3.ULT(g, n))
    k.cover()

    def cands(ex, st, lv):
        out = []
        good, badv = (RT, RF) if conj else (RF, RT)
        for nm, w in lv.ints(st):
            L = lambda s, e, w=w: z3.Extract(31, 0, w(s, e))
            out.append((nm + " is a verdict", lambda s, e, L=L: z3.Or(L(s, e) == RT, L(s, e) == RF, L(s, e) == RU)))
            out.append((nm + " known", lambda s, e, L=L: z3.Implies(alldef, L(s, e) != RU)))
            out.append((nm + " undecided", lambda s, e, L=L: L(s, e) != badv))
            out.append((nm + " decided rightly", lambda s, e, L=L: z3.Implies(L(s, e) == badv, bad)))
        for i, ix in lv.idx(st, arr):
            out.append(("%s<=n" % i, lambda s, e, ix=ix: z3.ULE(ix(s, e), n)))
            for nm, w in lv.ints(st):
                L = lambda s, e, w=w: z3.Extract(31, 0, w(s, e))
                out.append(("%s covers operands below %s" % (nm, i), lambda s, e, L=L, ix=ix: z3.Implies(z3.And(z3.ULT(g, ix(s, e)), L(s, e) == good), G(ids(g)))))
        return out
    k.ex.loop_cands = cands
    outs = run_visit(k, el, tname, v, cls)
    every = G(ids(g))
    verdict(k, outs, v, el, tname, cls, every if conj else bad, bad if conj else every, alldef)


@both
def and_(k, cls):
    nary(k, cls, "AndCondition", True)


@both
def or_(k, cls):
    nary(k, cls, "OrCondition", False)


def temporal(k, cls, tname, fld, law, record=True):
    q, el, v, me = cond_case(k, tname, cls)
    cs = [q.shared(el, tname, f, f) for f in fld]
    k.cover()
    outs = run_visit(k, el, tname, v, cls)
    if cls == ES:
        record = False
    verdict(k, outs, v, el, tname, cls, TA(me), FA(me), z3.BoolVal(False), facts=lambda st: law(me, *cs), record=record)
    if cls == ES:
        for o in outs:
            # a recorded answer, if any was recorded by this visit, is right
            e = tobv(k.getf(el, P + tname, "_eval", o.st), 32)
            st = o.st.copy()
            for f in law(me, *cs):
                st.assume(f)
            old = k.st.mem[el.obj].f[k.m.path(P + tname, "_eval")[0]][1]
            k.prove(st, z3.Or(e == old, e == RU, z3.And(e == RT, TA(me)), z3.And(e == RF, FA(me))), "a recorded answer is right")


# laws of the temporal operators at the first state of a path (immediate from the semantics):
GL = lambda me, c: [z3.Implies(FA(c), FA(me))]                                     # G phi implies phi now
FL = lambda me, c: [z3.Implies(TA(c), TA(me))]                                     # phi now implies F phi
UL = lambda me, a, b: [z3.Implies(TA(b), TA(me)), z3.Implies(z3.And(FA(a), FA(b)), FA(me))]
QL = lambda me, c: [z3.Implies(FA(c), FA(me)), z3.Implies(TA(c), TA(me))]           # some path exists
NL = lambda me, *c: []
for _t, _f, _l in (("EGCondition", ["_cond"], GL), ("AGCondition", ["_cond"], GL), ("GCondition", ["_cond"], GL), ("EFCondition", ["_cond"], FL), ("AFCondition", ["_cond"], FL),
                   ("FCondition", ["_cond"], FL), ("EXCondition", ["_cond"], NL), ("AXCondition", ["_cond"], NL), ("XCondition", ["_cond"], NL), ("ACondition", ["_cond"], QL),
                   ("ECondition", ["_cond"], QL), ("UntilCondition", ["_cond1", "_cond2"], UL), ("AUCondition", ["_cond1", "_cond2"], UL), ("EUCondition", ["_cond1", "_cond2"], UL),
                   ("AllPaths", ["_child"], QL), ("ExistPath", ["_child"], QL)):
    def _mk(t=_t, f=_f, l=_l):
        def g(k, cls):
            temporal(k, cls, t, f, l)
        g.__name__ = t
        both(g)
    _mk()


@both
def compare_conjunction(k, cls):
    T = "CompareConjunction"
    q, el, v, me = cond_case(k, T, cls)
    n = k.u64("number of bounds")
    k.st.assume(z3.ULT(n, BV(1 << 40, 64)))
    arr = k.arr("bounds", P + "CompareConjunction::cons_t", n, {"_place": lambda st, i, x: z3.Implies(z3.ULT(i, n), z3.ULT(z64(x), q.nP))}, ro=True)
    k.setvec(el, P + T, "_constraints", arr, n)
    neg = k.boolin("negated")
    k.setf(el, P + T, "_negated", neg)
    a = k.st.mem[arr.obj]
    pl, lo, up = (a.f[a.names[x]].arr for x in ("_place", "_lower", "_upper"))
    m = k.st.mem[q.marking.obj].f[(0, 4)].arr
    sat = lambda i: z3.And(z3.ULE(lo(i), m(z64(pl(i)))), z3.ULE(m(z64(pl(i))), up(i)))
    some = k.boolin("some bound violated")
    viol = lambda st, i, x: [z3.Implies(z3.And(z3.ULT(i, n), z3.Not(sat(i))), some)]
    for f in ("_place", "_lower", "_upper"):
        fb = a.f[a.names[f]]
        old = fb.cb
        a.f[a.names[f]] = FBase(fb.arr, fb.bits, lambda st, i, x, old=old: viol(st, i, x) + ([old(st, i, x)] if old else []))
    g = k.u64("g")
    k.st.assume(z3.ULT(g, n))
    k.cover()
    # the answer of the plain visit, when a recording visit delegates to it
    k.st.assume(TEMPORAL_FREE(me))
    every = sat(g)
    k.st.assume(TA(me) == z3.If(neg, some, every))       # at the arbitrary bound g: 'holds' means what the proof of the plain visit gives
    k.st.assume(FA(me) == z3.If(neg, every, some))

    def cands(ex, st, lv):
        out = []
        flags = lv.flags(st)
        for nm, w in flags:
            out.append((nm + " set", lambda s, e, w=w: w(s, e)))
            out.append((nm + " clear: violated", lambda s, e, w=w: z3.Implies(z3.Not(w(s, e)), some)))
        for i, ix in lv.idx(st, arr):
            out.append(("%s<=n" % i, lambda s, e, ix=ix: z3.ULE(ix(s, e), n)))
            out.append(("all bounds below %s hold" % i, lambda s, e, ix=ix: z3.Implies(z3.ULT(g, ix(s, e)), sat(g))))
            for nm, w in flags:
                out.append(("%s: all bounds below %s hold" % (nm, i), lambda s, e, ix=ix, w=w: z3.Implies(z3.And(w(s, e), z3.ULT(g, ix(s, e))), sat(g))))
        return out
    k.ex.loop_cands = cands
    outs = run_visit(k, el, T, v, cls)
    verdict(k, outs, v, el, T, cls, TA(me), FA(me), z3.BoolVal(True))


@contract("C04", "pql.cpp")
def evaluate_entry(k):
    """the public entry points return what the visit computed"""
    q = Pql(k)
    q.expr_contract()
    q.cond_contract()
    c = k.u64("condition")
    k.st.assume(z3.UGT(c, BV(4096, 64)))
    cp = k.ex.bv_ptr(k.st, c)
    k.cover()
    for o in k.run("PetriEngine::PQL::evaluate(PetriEngine::PQL::Condition*, PetriEngine::PQL::EvaluationContext const&)", [cp, q.ctx]):
        k.prove(o.st, tobv(o.val, 32) == KV(c), "evaluate returns the verdict of the condition") if o.kind == "ret" else k.prove(o.st, False, "no throw")
    for o in k.run("PetriEngine::PQL::evaluate(PetriEngine::PQL::Expr*, PetriEngine::PQL::EvaluationContext const&)", [cp, q.ctx]):
        k.prove(o.st, tobv(o.val, 64) == VAL(c, BV(0, 64)), "evaluate returns the value of the expression") if o.kind == "ret" else k.prove(o.st, False, "no throw")


@contract("C05", "pql.cpp")
def evaluate_and_set_entry(k):
    q = Pql(k)
    q.cond_contract()
    c = k.u64("condition")
    k.st.assume(z3.UGT(c, BV(4096, 64)))
    cp = k.ex.bv_ptr(k.st, c)
    k.cover()
    for o in k.run("PetriEngine::PQL::evaluateAndSet(PetriEngine::PQL::Condition*, PetriEngine::PQL::EvaluationContext const&)", [cp, q.ctx]):
        k.prove(o.st, tobv(o.val, 32) == KV(c), "evaluateAndSet returns the verdict of the condition") if o.kind == "ret" else k.prove(o.st, False, "no throw")


CT = P + "CompareConjunction::cons_t"


def cons(k, name):
    r = k.rec(name, CT)
    lo, up = k.u32(name + " lower"), k.u32(name + " upper")
    k.setf(r, CT, "_lower", lo)
    k.setf(r, CT, "_upper", up)
    return r, lo, up


def bounds(k, r, st):
    return tobv(k.getf(r, CT, "_lower", st), 32), tobv(k.getf(r, CT, "_upper", st), 32)


@contract("C04", "pql.cpp")
def bound_invert(k):
    """negating a one-sided, empty or full bound: a token count satisfies the result exactly when it violated the bound"""
    r, lo, up = cons(k, "bound")
    k.st.assume(z3.Or(lo == 0, up == RU, z3.UGT(lo, up)))
    x = k.u32("tokens")
    k.st.assume(x != RU)
    k.cover()
    for o in k.run(CT + "::invert()", [r]):
        if o.kind != "ret":
            k.prove(o.st, False, "no throw")
            continue
        l2, u2 = bounds(k, r, o.st)
        k.prove(o.st, z3.And(z3.ULE(l2, x), z3.ULE(x, u2)) == z3.Not(z3.And(z3.ULE(lo, x), z3.ULE(x, up))), "the negated bound holds exactly when the bound does not")


@contract("C04", "pql.cpp")
def bound_intersect(k):
    r, lo, up = cons(k, "bound")
    s, lo2, up2 = cons(k, "other")
    x = k.u32("tokens")
    k.cover()
    inb = lambda l, u: z3.And(z3.ULE(l, x), z3.ULE(x, u))
    for o in k.run(CT + "::intersect(%s const&)" % CT, [r, s]):
        if o.kind != "ret":
            k.prove(o.st, False, "no throw")
            continue
        k.prove(o.st, inb(*bounds(k, r, o.st)) == z3.And(inb(lo, up), inb(lo2, up2)), "the intersection holds exactly when both bounds do")
        k.prove(o.st, inb(*bounds(k, s, o.st)) == inb(lo2, up2), "the other bound is unchanged")


@contract("C04", "pql.cpp")
def bound_unsatisfiable(k):
    r, lo, up = cons(k, "bound")
    x = k.u32("tokens")
    k.cover()
    for o in k.run(CT + "::set_unsatisfiable()", [r]):
        if o.kind != "ret":
            k.prove(o.st, False, "no throw")
            continue
        l2, u2 = bounds(k, r, o.st)
        k.prove(o.st, z3.Not(z3.And(z3.ULE(l2, x), z3.ULE(x, u2))), "no token count satisfies it")
