"""C12: the explicit coloured engine: compiled guards and arc expressions mean what the net says, and the successor generator
enumerates exactly the enabled bindings.
q is an arbitrary colour; a multiset is abstracted to its count of q (its operations are contracts of C11)."""
from frame import *
from vecmodel import Vecs
from pqlmodel import vtable

X = "PetriEngine::ExplicitColored::"
MS = X + "SequenceMultiSet"
BIND = X + "Binding"
B64, B32 = z3.BitVecSort(64), z3.BitVecSort(32)
VALUE = z3.Function("value of the variable", B32, B32)
OFF = z3.Function("colour shifted cyclically", B32, B32, B32, B32)
GV = z3.Function("guard holds", B64, z3.BoolSort())
EQ_ = z3.Function("count of q in the value of the expression", B64, B64)
s64 = lambda x: z3.SignExt(32, x)
MAXB = BV((1 << 64) - 1, 64)


def srem_laws(k):
    a, b, d, r = z3.Ints("a b d r")
    k.ex.lemma("law: the remainder of 0 <= a < 2b by b > 0 is a or a - b (integers)",
               b > 0, a >= 0, a < 2 * b, a == b * d + r, r >= 0, r < b, z3.Not(r == z3.If(a < b, a, a - b)))


@contract("C12", "ecol.cpp")
def offsets(k):
    """addColorOffset / signedWrap: the colour reached by going offset steps forward (backward) in the cycle of max colours"""
    base, off, mx = k.u32("colour"), k.u32("offset"), k.u32("number of colours")
    R = z3.Function("remainder", B64, B64, B64)
    srem_laws(k)
    k.st.assume([mx != 0, z3.ULT(mx, BV(1 << 31, 32)), off != BV(1 << 31, 32)])
    k.assume_note("types have between 1 and 2^31-1 colours")

    def hook(st, op, w, a, b):
        if op == "srem" and w == 64:
            r = R(a, b)
            st.assume(z3.Implies(b > 0, z3.And(r < b, r > -b, z3.Implies(a >= 0, r >= 0), z3.Implies(z3.And(a >= 0, a < b + b), r == z3.If(a < b, a, a - b)))))
            return r
        return None
    k.ex.arith_hook = hook
    k.cover()
    a, m = z64(base) + s64(off), z64(mx)
    for o in k.run("std::make_unsigned<unsigned int>::type addColorOffset<unsigned int, int>(unsigned int, int, unsigned int)", [base, off, mx]):
        r = z64(tobv(o.val, 32))
        k.prove(o.st, z3.ULT(r, m), "a colour of the type")
        k.prove(o.st, z3.Or(r == R(a, m), r == R(a, m) + m), "congruent to colour + offset modulo the number of colours")
        k.prove(o.st, z3.Implies(z3.And(off == 1, z3.ULT(z64(base), m)), r == z3.If(z64(base) + 1 == m, BV(0, 64), z64(base) + 1)), "the successor of the last colour is the first")


def guard_env(k):
    ex = k.ex

    def val(ex_, st, args, ins):
        return [(st, VALUE(tobv(args[1], 32)))]
    ex.contract(r"ExplicitColored::Binding::getValue\(", val)

    def off(ex_, st, args, ins):
        return [(st, OFF(tobv(args[0], 32), tobv(args[1], 32), tobv(args[2], 32)))]
    ex.contract(r"addColorOffset<unsigned int, int>", off)
    k.assume_note("std::map look-up in Binding::getValue is assumed; every variable of a transition is bound when its guard and arcs are evaluated")
    return k.rec("binding", BIND)


def operand(v, off, mx, isvar):
    return z3.If(isvar, OFF(VALUE(v), off, mx), v)


VO = X + "VarOrColorWithOffset"


@contract("C12", "ecol.cpp")
def comparisons(k):
    """< and <=: compare the (shifted) values of the two operands"""
    b = guard_env(k)
    for cls, f in (("LessThan", z3.ULT), ("LessThanEq", z3.ULE)):
        C = X + "CompiledGuard%sExpression" % cls
        st = k.st.copy()
        g = k.rec("guard " + cls, C, st)
        V = {}
        for s in ("_lhs", "_rhs"):
            V[s] = [k.u32(cls + s + x) for x in ("value", "offset", "max")]
            for fld, v in zip((".value.variable", ".offset", ".color_max"), V[s]):
                try:
                    k.setf(g, C, s + fld, v, st)
                except Exception:
                    o, _, _ = k.m.path(C, s)
                    k.ex.store_raw(st, g.plus(o), 4, v, None)
        flag = k.bvin(cls + " flag", 8)
        k.setf(g, C, "_typeFlag", flag, st)
        k.cover(st)
        want = f(operand(*V["_lhs"], (flag & 1) != 0), operand(*V["_rhs"], (flag & 2) != 0))
        for o in k.run(C + "::eval(" + BIND + " const&)", [g, b], st):
            k.prove(o.st, tobool(o.val) == want, "%s compares the operands" % cls)


@contract("C12", "ecol.cpp")
def equalities(k):
    """== and !=: componentwise comparison of the two sequences"""
    b = guard_env(k)
    for cls, eq in (("Equality", True), ("Inequality", False)):
        C = X + "CompiledGuard%sExpression" % cls
        st0 = k.st
        k.st = st0.copy()
        g = k.rec("guard " + cls, C)
        n = k.u64("length " + cls)
        w = k.u64("w")
        k.st.assume(z3.ULT(n, BV(1 << 32, 64)))
        fl = k.arr("flags " + cls, "unsigned char", n, ro=True)
        L, Rr = k.arr("lhs " + cls, VO, n, ro=True), k.arr("rhs " + cls, VO, n, ro=True)
        k.setvec(g, C, "_typeFlags", fl, n)
        k.setvec(g, C, "_lhs", L, n)
        k.setvec(g, C, "_rhs", Rr, n)
        k.cover()
        last = {}
        ar = k.st.mem[fl.obj].copy()
        fkey = list(ar.f)[0]
        ar.f[fkey] = FBase(ar.f[fkey].arr, 8, lambda s, i, v: s.ghost.__setitem__("last", i) or [])
        k.st.mem[fl.obj] = ar

        def same(i):
            m = k.st.mem
            sel = lambda a, key: m[a.obj].f[key].arr(i)
            fv = ar.f[fkey].arr(i)
            keys = sorted(m[L.obj].f)
            return operand(*[sel(L, x) for x in keys], (fv & 1) != 0) == operand(*[sel(Rr, x) for x in keys], (fv & 2) != 0)

        def cands(ex, st, lv):
            out = []
            fi, li, ri = lv.idx(st, fl), lv.idx(st, L), lv.idx(st, Rr)
            for na, fa in fi:
                out.append(("inside " + na, (lambda fa: lambda s, e: z3.ULE(fa(s, e), n))(fa)))
                out.append(("passed components are equal " + na, (lambda fa: lambda s, e: z3.Implies(z3.ULT(w, fa(s, e)), same(w)))(fa)))
                for nb, fb in li + ri:
                    out.append(("in step %s %s" % (na, nb), (lambda fa, fb: lambda s, e: fa(s, e) == fb(s, e))(fa, fb)))
            return out
        k.ex.loop_cands = cands
        for o in k.run(C + "::eval(" + BIND + " const&)", [g, b], k.st):
            r = tobool(o.val)
            e = r if eq else z3.Not(r)
            k.prove(o.st, z3.Implies(z3.And(e, z3.ULT(w, n)), same(w)), "%s: equal sequences agree in every component" % cls)
            i = o.st.ghost.get("last")
            k.prove(o.st, z3.Implies(z3.Not(e), z3.BoolVal(False) if i is None else z3.And(z3.ULT(i, n), z3.Not(same(i)))), "%s: unequal sequences differ in some component" % cls)
        k.st = st0


def slots(k, cls):
    """vtable offset of every virtual member, by name"""
    g = k.ex.global_obj(vtable(X + cls))
    out = {}
    for o, (sz, v) in g.f.items():
        if isinstance(v, FnPtr):
            d = k.m.fns[v.name]["dem"] if v.name in k.m.fns else v.name
            out[o - 16] = re.sub(r"\(.*", "", d).split("::")[-1]
    return out


def slot_of(v):
    if not (isinstance(v, Ptr) and isinstance(v.obj, Abs)):
        return None
    m = re.match(r"heap_(\d+)_8", v.obj.h.decl().name())
    return int(m.group(1)) if m else None


@contract("C12", "ecol.cpp")
def connectives(k):
    """and / or of compiled guards"""
    b = k.rec("binding", BIND)
    for cls, conj in (("And", True), ("Or", False)):
        C = X + "CompiledGuard%sExpression" % cls
        st0 = k.st
        k.st = st0.copy()
        sl = slots(k, "CompiledGuard%sExpression" % cls)
        g = k.rec("guard " + cls, C)
        n, w = k.u64("operands " + cls), k.u64("w")
        k.st.assume(z3.ULT(n, BV(1 << 32, 64)))
        a = k.arr("operands " + cls, "std::unique_ptr<%sCompiledGuardExpression, std::default_delete<%sCompiledGuardExpression> >" % (X, X), n, ro=True)
        ids = k.st.mem[a.obj].f[(0, 8)].arr
        ar = k.st.mem[a.obj].copy()
        ar.f[(0, 8)] = FBase(ids, 64, lambda s, i, v: s.ghost.__setitem__("last", i) or [z3.UGT(v, BV(4096, 64))])
        k.st.mem[a.obj] = ar
        k.setvec(g, C, "_expressions", a, n)
        k.cover()

        def ind(ex, st, v, args, ins):
            if sl.get(slot_of(v)) != "eval" or not ex.aptr(args[1]).same(b):
                return None
            return [(st, GV(ex.ptr_bv(st, ex.aptr(args[0]))))]
        k.ex.indirect = ind
        hold = (lambda i: GV(ids(i))) if conj else (lambda i: z3.Not(GV(ids(i))))

        def cands(ex, st, lv):
            out = []
            for na, fa in lv.idx(st, a):
                out.append(("inside " + na, (lambda fa: lambda s, e: z3.ULE(fa(s, e), n))(fa)))
                out.append(("passed operands " + na, (lambda fa: lambda s, e: z3.Implies(z3.ULT(w, fa(s, e)), hold(w)))(fa)))
            return out
        k.ex.loop_cands = cands
        for o in k.run(C + "::eval(" + BIND + " const&)", [g, b], k.st):
            r = tobool(o.val)
            e = r if conj else z3.Not(r)
            k.prove(o.st, z3.Implies(z3.And(e, z3.ULT(w, n)), hold(w)), "%s: the answer holds for every operand" % cls)
            i = o.st.ghost.get("last")
            k.prove(o.st, z3.Implies(z3.Not(e), z3.BoolVal(False) if i is None else z3.And(z3.ULT(i, n), z3.Not(hold(i)))), "%s: an operand decides otherwise" % cls)
        k.st = st0


# ---------------------------------------------------------------- arc expressions
class Multi:
    """multisets as the count of q, kept in the first cell of the object; the operations are the contracts of C11"""
    def __init__(self, k):
        self.k = k
        ex = k.ex
        R = r"ExplicitColored::SequenceMultiSet::"
        g, p = self.get, self.put

        def asg(ex, st, args, ins):
            d = ex.m.fns[ins["callee"][1]]["dem"]
            p(st, args[0], g(st, args[1]))
            return [(st, ex.aptr(args[0]) if ins["ty"] == "ptr" else None)]
        ex.contract(R + r"operator=\(", asg)
        ex.contract(R + r"SequenceMultiSet\(.*SequenceMultiSet", asg)
        ex.contract(R + r"SequenceMultiSet\(\)", lambda ex, st, a, i: [(self.put(st, a[0], BV(0, 64)) or st, None)])
        ex.contract(R + r"~SequenceMultiSet\(\)", lambda ex, st, a, i: [(st, None)])

        def op(f):
            def h(ex, st, args, ins):
                p(st, args[0], f(g(st, args[0]), g(st, args[1])))
                return [(st, ex.aptr(args[0]))]
            return h
        ex.contract(R + r"operator\+=\(", op(lambda x, y: x + y))
        ex.contract(R + r"operator-=\(", op(lambda x, y: x - y))

        def fix(ex, st, args, ins):
            x = g(st, args[0])
            p(st, args[0], z3.If(x > 0, x, BV(0, 64)))
            return [(st, None)]
        ex.contract(R + r"fixNegative\(", fix)

        def le(ex, st, args, ins):
            x, y = g(st, args[0]), g(st, args[1])
            b = freshb("covered")
            st.assume(z3.Implies(b, x <= y))
            st.ghost["le"] = (b, x, y)
            return [(st, b)]
        ex.contract(R + r"operator<=\(", le)
        k.assume_note("multiset operations behave as their contracts of C11 say, on counts small enough not to be rejected (each count and total below 2^31); the difference of an empty multiset is clamped, which all callers do anyway")

    def get(self, st, p):
        return tobv(self.k.ex.load_raw(st, self.k.ex.aptr(p), 8, False, None), 64)

    def put(self, st, p, v):
        self.k.ex.store_raw(st, self.k.ex.aptr(p), 8, v, None)

    def small(self, x):
        return z3.And(x >= 0, x < BV(1 << 31, 64))

    def new(self, st, name, v):
        r = self.k.ex.new_rec(st, name, self.k.m.type(MS)["size"])
        self.put(st, r, v)
        return r


def children(k, M, b, sl):
    """virtual members of a sub-expression with value EQ_(id)"""
    def ind(ex, st, v, args, ins):
        nm = sl.get(slot_of(v))
        if nm not in ("eval", "produce", "consume", "isSubSet"):
            return None
        me = ex.ptr_bv(st, ex.aptr(args[0]))
        x = EQ_(me)
        st.assume(M.small(x))
        if nm == "eval":
            k.prove(st, z3.BoolVal(ex.aptr(args[1]).same(b)), "sub-expressions get the same binding")
            return [(st, M.new(st, "value", x))]
        k.prove(st, z3.BoolVal(ex.aptr(args[2]).same(b)), "sub-expressions get the same binding")
        out = ex.aptr(args[1])
        c = M.get(st, out)
        if nm == "produce":
            M.put(st, out, c + x)
            return [(st, None)]
        if nm == "consume":
            d = c - x
            M.put(st, out, z3.If(d > 0, d, BV(0, 64)))
            return [(st, None)]
        return None
    k.ex.indirect = ind


def arc_members(k, cls, mk, val, members=("eval", "produce", "consume", "isSubSet")):
    """eval gives the value, produce adds it, consume takes it away (never below zero), isSubSet compares it"""
    C = X + cls
    b = k.rec("binding", BIND)
    M = Multi(k)
    sl = slots(k, cls)
    e = k.rec(cls, C)
    k.ex.store_raw(k.st, e, 8, Ptr("g:" + vtable(C), 16), None)
    mk(e, M)
    children(k, M, b, sl)
    x = k.u64("count of q before")
    k.st.assume(M.small(x))
    v = val()
    k.st.assume(M.small(v))
    k.cover()
    clamp = lambda d: z3.If(d > 0, d, BV(0, 64))
    sig = {"eval": "(%s const&) const" % BIND, "isSubSet": "(%s const&, %s const&) const" % (MS, BIND)}
    for m in members:
        st = k.st.copy()
        out = M.new(st, "tokens", x)
        fn = C + "::" + m + sig.get(m, "(%s&, %s const&) const" % (MS, BIND))
        if m == "isSubSet" and fn not in [f["dem"] for f in k.m.fns.values()]:
            fn = X + "CompiledArcExpression::isSubSet" + sig[m]
        for o in k.run(fn, [e, b] if m == "eval" else [e, out, b], st):
            if o.kind != "ret":
                k.prove(o.st, False, "%s of %s does not fail" % (m, cls))
                continue
            s = o.st
            if m == "eval":
                k.prove(s, M.get(s, o.val) == v, "%s: eval gives the value of the expression" % cls)
            elif m == "produce":
                k.prove(s, M.get(s, out) == x + v, "%s: produce adds the value" % cls)
            elif m == "consume":
                k.prove(s, M.get(s, out) == clamp(x - v), "%s: consume takes the value away" % cls)
            else:
                le = s.ghost.get("le")
                k.prove(s, z3.And(tobool(o.val) == le[0], le[1] == v, le[2] == x) if le else z3.BoolVal(False), "%s: isSubSet compares the value with the tokens" % cls)
    return e, M


def ptr_child(k, e, C, fld, name):
    o, s, t = k.m.path(C, fld)
    c = k.u64(name)
    k.st.assume(z3.UGT(c, BV(4096, 64)))
    k.ex.store_raw(k.st, e.plus(o), 8, c, None)
    k.st.assume([EQ_(c) >= 0, EQ_(c) < BV(1 << 30, 64)])
    return c


@contract("C12", "ecol.cpp")
def arc_sum(k):
    """sum of arc expressions"""
    c = {}

    def mk(e, M):
        c["l"], c["r"] = [ptr_child(k, e, X + "ArcExpressionAddition", f, f) for f in ("_lhs", "_rhs")]
    arc_members(k, "ArcExpressionAddition", mk, lambda: EQ_(c["l"]) + EQ_(c["r"]))


@contract("C12", "ecol.cpp")
def arc_difference(k):
    """difference of arc expressions (never below zero)"""
    c = {}

    def mk(e, M):
        c["l"], c["r"] = [ptr_child(k, e, X + "ArcExpressionSubtraction", f, f) for f in ("_lhs", "_rhs")]

    def val():
        d = EQ_(c["l"]) - EQ_(c["r"])
        return z3.If(d > 0, d, BV(0, 64))
    arc_members(k, "ArcExpressionSubtraction", mk, val)


@contract("C12", "ecol.cpp")
def arc_constant(k):
    """constant arc expression"""
    v = k.u64("constant's count of q")

    def mk(e, M):
        o, s, t = k.m.path(X + "ArcExpressionConstant", "_constant")
        M.put(k.st, e.plus(o), v)
    arc_members(k, "ArcExpressionConstant", mk, lambda: v)


AV = X + "ArcExpressionVariableCollection"
PC = X + "ParameterizedColor"
CS = X + "ColorSequence"


@contract("C12", "ecol.cpp")
def tuples(k):
    """getColorSequence: component i is the variable's value (or the constant) shifted by its offset within the component's own type"""
    b = guard_env(k)
    n = k.u64("components")
    k.st.assume(z3.ULT(n, BV(1 << 32, 64)))
    e = k.rec("collection", AV)
    seq = k.ex.new_rec(k.st, "sequence", 24)
    a = k.arr("sequence", PC, n, ro=True)
    sz = k.arr("sizes", "unsigned int", n, ro=True)
    k.setvec(seq, None, "", a, n)
    k.setvec(e, AV, "_colorSizes", sz, n)
    ex, vm = k.ex, Vecs(k)
    cnt = ex.new_rec(k.st, "components built", 8)
    ex.store_raw(k.st, cnt, 8, BV(0, 64), None)
    built = lambda s: tobv(ex.load_raw(s, cnt, 8, False, None), 64)
    names = k.st.mem[a.obj].names
    ar = k.st.mem[a.obj].copy()
    ar.f[names["isVariable"]] = FBase(ar.f[names["isVariable"]].arr, 8, lambda s, i, v: [z3.ULE(v, BV(1, 8))])
    k.st.mem[a.obj] = ar
    k.cover()

    def want(st, i):
        f = lambda nm: st.mem[a.obj].f[names[nm]].sel(st, i)
        v = st.mem[a.obj].f[[key for nm, key in names.items() if nm.startswith("value")][0]].sel(st, i)
        size = st.mem[sz.obj].f[(0, 4)].sel(st, i)
        return OFF(z3.If(f("isVariable") != 0, VALUE(v), v), f("offset"), size)

    def push(ex, st, args, ins):
        i = built(st)
        k.prove(st, z3.ULT(i, n), "no more components than the tuple has")
        k.prove(st, tobv(ex.load_raw(st, ex.aptr(args[1]), 4, False, None), 32) == want(st, i), "component of the tuple")
        ex.store_raw(st, cnt, 8, i + 1, None)
        return [(st, None)]
    ex.contract(r"std::vector<unsigned int, .*::push_back\(", push)
    ex.contract(r"std::vector<unsigned int, .*::vector\(\)|std::vector<unsigned int, .*::~vector\(\)", lambda ex, st, a_, i: [(st, None)])
    code = z3.BitVec("code", 64)

    def ctor(ex, st, args, ins):
        k.prove(st, built(st) == n, "every component is built")
        k.prove(st, z3.BoolVal(ex.aptr(args[2]).same(e.plus(k.m.path(AV, "_colorSizes")[0]))), "encoded with the sizes of the components")
        ex.store_raw(st, ex.aptr(args[0]), 8, code, None)
        return [(st, None)]
    ex.contract(r"ColorSequence::ColorSequence\(std::vector<unsigned int", ctor)

    def cands(ex, st, lv):
        out = [("inside", lambda s, e_: z3.ULE(built(s), n))]
        for nm, f in lv.ints(st):
            out.append(("in step " + nm, (lambda f: lambda s, e_: f(s, e_) == built(s))(f)))
        return out
    ex.loop_cands = cands
    fn = AV + "::getColorSequence(std::vector<%s, std::allocator<%s>> const&, %s const&) const" % (PC, PC, BIND)
    for o in k.run(fn, [e, seq, b]):
        v = o.val
        if isinstance(v, (list, tuple)):
            v = v[0]
        k.prove(o.st, tobv(v, 64) == code, "returns the encoded tuple")


@contract("C12", "ecol.cpp")
def arc_tuples(k):
    """n'(t1), n'(t2), ...: eval, produce and consume over the tuples"""
    CODE = z3.Function("code of tuple", B64, B64)
    T = z3.Function("tokens of colour q among the first tuples", B64, B64)
    n = k.u64("tuples")
    cq, q = k.u32("count"), k.u32("q")
    k.st.assume([z3.ULT(n, BV(1 << 16, 64)), cq >= 0, z3.ULE(cq, BV(1 << 14, 32)), T(BV(0, 64)) == 0, T(n) >= 0, T(n) < BV(1 << 31, 64)])
    k.assume_note("n't with at most 2^16 tuples and n at most 2^14 (larger totals are rejected as too many tokens)")
    step = lambda i: z3.Implies(z3.ULT(i, n), z3.And(T(i + 1) == T(i) + z3.If(CODE(i) == z64(q), z64(cq), BV(0, 64)), T(i) >= 0, T(i) <= z64(cq) * i))
    hold = {}

    def mk(e, M):
        a = k.arr("tuples", "std::vector<%s, std::allocator<%s> >" % (PC, PC), n, ro=True)
        k.setvec(e, AV, "_parameterizedColorSequences", a, n)
        k.setf(e, AV, "_count", cq)
        hold["a"], hold["M"] = a, M

        def seq(ex, st, args, ins):
            # (this, sequence, binding) or with a result slot first
            ptrs = [ex.aptr(x) for x in args]
            p = [x for x in ptrs if x.obj == a.obj]
            if not p:
                raise Unsupported("tuple of another expression")
            i = p[0].off.split(24)[0].bv()
            st.assume(step(i))
            if ins["ty"] == "void":
                ex.store_raw(st, ptrs[0], 8, CODE(i), None)
                return [(st, None)]
            return [(st, CODE(i))]
        k.ex.contract_first(r"ArcExpressionVariableCollection::getColorSequence\(", seq)

        def add(ex, st, args, ins):
            c = tobv(ex.load_raw(st, ex.aptr(args[1]), 8, False, None), 64)
            x = M.get(st, args[0])
            M.put(st, args[0], x + z3.If(c == z64(q), s64(tobv(args[2], 32)), BV(0, 64)))
            return [(st, None)]
        k.ex.contract(r"SequenceMultiSet::addCount\(.*ColorSequence const&", add)

        def cands(ex, st, lv):
            out = []
            cells = [(oid, o) for oid, o in st.mem.items() if isinstance(o, Rec) and (o.name.startswith("tokens") or oid == e.obj)]
            for nm, f in lv.idx(st, a):
                def ins_(s, e_, f=f):
                    i = z64(f(s, e_))
                    s.assume(step(i))
                    return z3.ULE(i, n)
                out.append(("inside " + nm, ins_))
                for oid, o in cells:
                    off = 0 if oid != e.obj else k.m.path(AV, "_result")[0]
                    if off not in o.f:
                        continue
                    x0 = tobv(k.ex.load_raw(st, Ptr(oid, off), 8, False, None), 64)
                    for sg in (1, -1):
                        out.append(("%s after the first tuples (%d) %s" % (o.name, sg, nm), (lambda f, oid, off, x0, sg: lambda s, e_: tobv(k.ex.load_raw(s, Ptr(oid, off), 8, False, None), 64) == x0 + sg * T(z64(f(s, e_))))(f, oid, off, x0, sg)))
            return out
        k.ex.loop_cands = cands
    arc_members(k, "ArcExpressionVariableCollection", mk, lambda: T(n))


# ---------------------------------------------------------------- what is known about an expression before it is evaluated
TOT = z3.Function("total of the value of the expression", B64, B64)
MINC = z3.Function("minimal total", B64, B64)
UPC = z3.Function("maximal total", B64, B64)
MINQ = z3.Function("minimal count of q", B64, B64)
MAXQ = z3.Function("maximal fixed count of q", B64, B64)
MAXV = z3.Function("maximal count of tokens of variable colour", B64, B64)
CM = X + "ColoredMinimalMarking"
clamp = lambda d: z3.If(d > 0, d, BV(0, 64))


def bounds_of(c):
    lim = BV(1 << 28, 64)
    return [EQ_(c) >= 0, EQ_(c) <= TOT(c), MINC(c) >= 0, MINC(c) <= TOT(c), TOT(c) <= UPC(c), UPC(c) < lim, MINQ(c) > -lim, clamp(MINQ(c)) <= EQ_(c),
            MAXQ(c) >= 0, MAXQ(c) < lim, MAXV(c) >= 0, MAXV(c) < lim, EQ_(c) <= MAXQ(c) + MAXV(c)]


def bound_env(k, cls):
    M = Multi(k)
    ex = k.ex
    sl = slots(k, cls)
    mo, vo = k.m.path(CM, "minimalMarkingMultiSet")[0], k.m.path(CM, "variableCount")[0]

    def ind(ex, st, v, args, ins):
        nm = sl.get(slot_of(v))
        sret = nm == "getMaximalColorMarking"
        me = ex.ptr_bv(st, ex.aptr(args[1 if sret else 0]))
        st.assume(bounds_of(me))
        if nm == "getMinimalMarkingCount":
            return [(st, z3.Extract(31, 0, MINC(me)))]
        if nm == "getUpperBoundMarkingCount":
            return [(st, z3.Extract(31, 0, UPC(me)))]
        if nm == "getVariables":
            return [(st, ex.new_rec(st, "variables", 48))]
        if nm == "getMinimalColorMarking":
            r = ex.new_rec(st, "minimal marking", k.m.type(CM)["size"])
            M.put(st, r.plus(mo), MINQ(me))
            ex.store_raw(st, r.plus(vo), 4, fresh("vc", 32), None)
            return [(st, r)]
        if sret:
            r = ex.aptr(args[0])
            M.put(st, r.plus(mo), MAXQ(me))
            ex.store_raw(st, r.plus(vo), 4, z3.Extract(31, 0, MAXV(me)), None)
            return [(st, None)]
        return None
    ex.indirect = ind
    for rx in (r"std::set<unsigned int.*::(set|~set|operator=|merge)", r"std::_Rb_tree<unsigned int"):
        ex.contract(rx, lambda ex, st, a, i: [(st, ex.aptr(a[0]) if i["ty"] == "ptr" else None)])
    return M, mo, vo


def uptr(k, name):
    c = k.u64(name)
    k.st.assume(z3.UGT(c, BV(4096, 64)))
    k.st.assume(bounds_of(c))
    r = k.ex.new_rec(k.st, name, 8)
    k.ex.store_raw(k.st, r, 8, c, None)
    return r, c


@contract("C12", "ecol.cpp")
def bounds_sum(k):
    """what a sum needs at least and at most"""
    C = X + "ArcExpressionAddition"
    M, mo, vo = bound_env(k, "ArcExpressionAddition")
    (pl, l), (pr, r) = uptr(k, "lhs"), uptr(k, "rhs")
    e = k.rec("sum", C)
    k.cover()
    UP = "std::unique_ptr<%s, std::default_delete<%s>>" % (X + "CompiledArcExpression", X + "CompiledArcExpression")
    for o in k.run("%s::ArcExpressionAddition(%s, %s)" % (C, UP, UP), [e, pl, pr]):
        s = o.st
        k.prove(s, z64(tobv(k.getf(e, C, "_minimalMarkingCount", s), 32)) <= TOT(l) + TOT(r), "a sum never has fewer tokens than its minimum")
        k.prove(s, clamp(M.get(s, e.plus(k.m.path(C, "_minimalColorMarking")[0] + mo))) <= EQ_(l) + EQ_(r), "a sum never has fewer tokens of a colour than its minimum")
        for o2 in k.run(C + "::getUpperBoundMarkingCount() const", [e], s.copy()):
            k.prove(o2.st, z64(tobv(o2.val, 32)) >= TOT(l) + TOT(r), "a sum never has more tokens than its maximum")
        ret = k.ex.new_rec(s, "maximal", k.m.type(CM)["size"])
        for o2 in k.run(C + "::getMaximalColorMarking() const", [ret, e], s.copy()):
            k.prove(o2.st, M.get(o2.st, ret.plus(mo)) + z64(tobv(k.ex.load_raw(o2.st, ret.plus(vo), 4, False, None), 32)) >= EQ_(l) + EQ_(r), "a sum never has more tokens of a colour than its maximum")
        for o2 in k.run(C + "::getMinimalMarkingCount() const", [e], s.copy()):
            k.prove(o2.st, tobv(o2.val, 32) == tobv(k.getf(e, C, "_minimalMarkingCount", s), 32), "minimum")


@contract("C12", "ecol.cpp")
def bounds_difference(k):
    """what a difference needs at least and at most"""
    C = X + "ArcExpressionSubtraction"
    M, mo, vo = bound_env(k, "ArcExpressionSubtraction")
    (pl, l), (pr, r) = uptr(k, "lhs"), uptr(k, "rhs")
    e = k.rec("difference", C)
    val = clamp(EQ_(l) - EQ_(r))
    tot = k.u64("total of the difference")
    k.st.assume(tot >= TOT(l) - TOT(r))
    k.st.assume([tot >= 0, tot <= TOT(l)])
    k.assume_note("law: the total of a clamped difference is between the difference of the totals and the total of the left side")
    # the entries of the left minimum minus the right maximum: q occurs at most once
    n, Pq, q = k.u64("entries"), k.u64("position of q"), k.u32("q")
    k.st.assume(z3.ULT(n, BV(1 << 31, 64)))
    ent = k.arr("entries", "std::pair<unsigned int, int>", n, ro=True)
    ar = k.st.mem[ent.obj].copy()
    base = ar.f[(0, 4)].arr
    ar.f[(0, 4)] = FBase(base, 32, lambda s, i, v: [z3.Implies(z3.And(z3.ULT(i, n), v == q), i == Pq)])
    k.st.mem[ent.obj] = ar
    has = z3.And(z3.ULT(Pq, n), base(Pq) == q)
    vec = k.ex.new_rec(k.st, "entry vector", 24)
    k.setvec(vec, None, "", ent, n)

    def counts(ex, st, args, ins):
        st.assume(z3.Implies(z3.Not(has), M.get(st, args[0]) == 0))
        return [(st, vec)]
    k.ex.contract(r"SequenceMultiSet::counts\(\)", counts)

    def add(ex, st, args, ins):
        c = tobv(ex.load_raw(st, ex.aptr(args[1]), 4, False, None), 32)
        M.put(st, args[0], M.get(st, args[0]) + z3.If(c == q, s64(tobv(args[2], 32)), BV(0, 64)))
        return [(st, None)]
    k.ex.contract(r"SequenceMultiSet::addCount\(unsigned int const&", add)
    off = k.m.path(C, "_minimalColorMarking")[0] + mo
    k.cover()

    def cands(ex, st, lv):
        out = []
        x0 = M.get(st, e.plus(off))
        for nm, f in lv.idx(st, ent):
            out.append(("inside " + nm, (lambda f: lambda s, e_: z3.ULE(z64(f(s, e_)), n))(f)))
            out.append(("q reduced once " + nm, (lambda f: lambda s, e_: M.get(s, e.plus(off)) == x0 - z3.If(z3.And(has, z3.ULT(Pq, z64(f(s, e_)))), MAXV(r), BV(0, 64)))(f)))
        return out
    k.ex.loop_cands = cands
    UP = "std::unique_ptr<%s, std::default_delete<%s>>" % (X + "CompiledArcExpression", X + "CompiledArcExpression")
    for o in k.run("%s::ArcExpressionSubtraction(%s, %s)" % (C, UP, UP), [e, pl, pr]):
        s = o.st
        k.prove(s, z64(tobv(k.getf(e, C, "_minimalMarkingCount", s), 32)) <= tot, "a difference never has fewer tokens than its minimum")
        k.prove(s, clamp(M.get(s, e.plus(off))) <= val, "a difference never has fewer tokens of a colour than its minimum")
        for o2 in k.run(C + "::getUpperBoundMarkingCount() const", [e], s.copy()):
            k.prove(o2.st, z64(tobv(o2.val, 32)) >= tot, "a difference never has more tokens than its maximum")
        ret = k.ex.new_rec(s, "maximal", k.m.type(CM)["size"])
        for o2 in k.run(C + "::getMaximalColorMarking() const", [ret, e], s.copy()):
            k.prove(o2.st, M.get(o2.st, ret.plus(mo)) + z64(tobv(k.ex.load_raw(o2.st, ret.plus(vo), 4, False, None), 32)) >= val, "a difference never has more tokens of a colour than its maximum")


# ---------------------------------------------------------------- enabledness and firing
NET, SG, MARK = X + "ColoredPetriNet", X + "ColoredSuccessorGenerator", X + "ColoredPetriNetMarking"
PTOT = z3.Function("tokens in place", B64, B32)
SUBS = z3.Function("value of the expression is contained in the place", B64, B64, z3.BoolSort())
ENB = z3.Function("transition enabled with binding", B64, B64, z3.BoolSort())


class CNet:
    """a compiled net of arbitrary size; places are known by their number"""
    def __init__(self, k):
        self.k = k
        ex, st = k.ex, k.st
        self.nt, self.na, self.ni, self.np = [k.u64(x) for x in ("transitions", "arcs", "inhibitor arcs", "places")]
        for x in (self.nt, self.na, self.ni, self.np):
            st.assume(z3.ULT(x, BV((1 << 32) - 1, 64)))
        n = self.net = k.rec("net", NET)
        g = self.gen = k.rec("generator", SG)
        o, _, _ = k.m.path(SG, "_net")
        ex.store_raw(st, g.plus(o), 8, n, None)
        self.trans = k.arr("transitions", X + "ColoredPetriNetTransition", self.nt, ro=True)
        self.arcs = k.arr("arcs", X + "ColoredPetriNetArc", self.na, ro=True)
        self.inh = k.arr("inhibitors", X + "ColoredPetriNetInhibitor", self.ni, ro=True)
        self.ta = k.arr("transition arcs", "std::pair<unsigned int, unsigned int>", self.nt + 1, ro=True)
        self.ti = k.arr("transition inhibitors", "unsigned int", self.nt + 1, ro=True)
        for f, a, m in (("_transitions", self.trans, self.nt), ("_arcs", self.arcs, self.na), ("_inhibitorArcs", self.inh, self.ni),
                        ("_transitionArcs", self.ta, self.nt + 1), ("_transitionInhibitors", self.ti, self.nt + 1)):
            k.setvec(n, NET, f, a, m)
        self.mark = k.rec("marking", MARK)
        self.places = k.arr("places", MS, self.np)
        k.setvec(self.mark, MARK, "markings", self.places, self.np)
        self.arc = lambda key, i: self.sel(self.arcs, key, i)
        self.expr = lambda i: self.sel(self.arcs, "expression", i)
        fk = self.key(self.arcs, "from"), self.key(self.arcs, "to")
        self.put_cb(self.arcs, self.key(self.arcs, "from"), lambda s, i, v: [z3.Implies(z3.ULT(i, self.na), z3.ULT(z64(v), self.np))])
        self.put_cb(self.arcs, self.key(self.arcs, "to"), lambda s, i, v: [z3.Implies(z3.ULT(i, self.na), z3.ULT(z64(v), self.np))])
        self.put_cb(self.arcs, self.key(self.arcs, "expression"), lambda s, i, v: [z3.UGT(v, BV(4096, 64))])
        self.put_cb(self.inh, self.key(self.inh, "from"), lambda s, i, v: [z3.Implies(z3.ULT(i, self.ni), z3.ULT(z64(v), self.np))])
        A0, A1, I = (lambda t: z64(self.raw(self.ta, (0, 4), t))), (lambda t: z64(self.raw(self.ta, (4, 4), t))), (lambda t: z64(self.raw(self.ti, (0, 4), t)))
        self.A0, self.A1, self.I = A0, A1, I
        inv = lambda t: [z3.Implies(z3.ULT(t, self.nt), z3.And(z3.ULE(A0(t), A1(t)), z3.ULE(A1(t), A0(t + 1)), z3.ULE(A0(t + 1), self.na), z3.ULE(I(t), I(t + 1)), z3.ULE(I(t + 1), self.ni)))]
        self.tid = k.u32("transition")
        self.t = z64(self.tid)
        st.assume(z3.ULT(self.t, self.nt))
        st.assume(inv(self.t))
        self.inv = inv
        k.assume_note("the net's arrays are laid out as the builder leaves them: for each transition its input arcs, then its output arcs, then those of the next transition; arcs name existing places (the builder itself is outside)")
        ex.contract(r"SequenceMultiSet::totalCount\(\)", lambda ex, s, a, i: [(s, PTOT(self.place(a[0])))])

    def key(self, a, nm):
        ns = self.k.st.mem[a.obj].names
        c = [v for n, v in ns.items() if n == nm or n.startswith(nm + ".")]
        return c[0]

    def raw(self, a, key, i):
        f = self.k.st.mem[a.obj].f[key]
        return f.arr(i)

    def sel(self, a, nm, i):
        return self.raw(a, self.key(a, nm), i)

    def put_cb(self, a, key, cb):
        ar = self.k.st.mem[a.obj].copy()
        ar.f[key] = FBase(ar.f[key].arr, ar.f[key].w if hasattr(ar.f[key], "w") else key[1] * 8, cb)
        self.k.st.mem[a.obj] = ar

    def place(self, p):
        p = self.k.ex.aptr(p)
        if p.obj != self.places.obj:
            raise Unsupported("marking of no place")
        i, r = p.off.split(self.k.m.type(MS)["size"])
        return i.bv()


@contract("C12", "ecol.cpp")
def inhibitors(k):
    """checkInhibitor: no inhibitor arc of the transition has its weight (or more) in its place"""
    N = CNet(k)
    w = k.u64("w")
    lo, hi = N.I(N.t), N.I(N.t + 1)
    ok = lambda i: z3.UGT(N.sel(N.inh, "weight", i), PTOT(z64(N.sel(N.inh, "from", i))))
    N.put_cb(N.inh, N.key(N.inh, "weight"), lambda s, i, v: s.ghost.__setitem__("last", i) or [])
    k.cover()

    def cands(ex, st, lv):
        out = []
        for nm, f in lv.ints(st) + lv.idx(st, N.inh):
            out.append(("range " + nm, (lambda f: lambda s, e: z3.And(z3.ULE(lo, z64(f(s, e))), z3.ULE(z64(f(s, e)), hi)))(f)))
            out.append(("passed " + nm, (lambda f: lambda s, e: z3.Implies(z3.And(z3.ULE(lo, w), z3.ULT(w, z64(f(s, e)))), ok(w)))(f)))
        return out
    k.ex.loop_cands = cands
    for o in k.run(SG + "::checkInhibitor(%s const&, unsigned int) const" % MARK, [N.gen, N.mark, N.tid]):
        r = tobool(o.val)
        k.prove(o.st, z3.Implies(z3.And(r, z3.ULE(lo, w), z3.ULT(w, hi)), ok(w)), "not inhibited: every inhibitor arc is below its weight")
        i = o.st.ghost.get("last")
        k.prove(o.st, z3.Implies(z3.Not(r), z3.BoolVal(False) if i is None else z3.And(z3.ULE(lo, i), z3.ULT(i, hi), z3.Not(ok(i)))), "inhibited: some inhibitor arc reached its weight")


def virtuals(k, N, b, guard_slots, arc_slots):
    def ind(ex, st, v, args, ins):
        sl = slot_of(v)
        me = ex.ptr_bv(st, ex.aptr(args[0]))
        if len(args) == 2:
            if guard_slots.get(sl) != "eval":
                return None
            k.prove(st, z3.BoolVal(ex.aptr(args[1]).same(b)), "guard gets the binding")
            return [(st, GV(me))]
        if len(args) == 3 and arc_slots.get(sl) == "isSubSet":
            k.prove(st, z3.BoolVal(ex.aptr(args[2]).same(b)), "arcs get the binding")
            return [(st, SUBS(me, N.place(args[1])))]
        if len(args) == 3 and arc_slots.get(sl) in ("produce", "consume"):
            k.prove(st, z3.BoolVal(ex.aptr(args[2]).same(b)), "arcs get the binding")
            return N.effect(st, arc_slots[sl], me, N.place(args[1]))
        return None
    k.ex.indirect = ind


@contract("C12", "ecol.cpp")
def preset_and_guard(k):
    """checkPresetAndGuard: the guard holds (when there is one) and every input arc's value is in its place"""
    N = CNet(k)
    b = k.rec("binding", BIND)
    virtuals(k, N, b, slots(k, "CompiledGuardLessThanExpression"), slots(k, "ArcExpressionAddition"))
    w = k.u64("w")
    lo, hi = N.A0(N.t), N.A1(N.t)
    G = N.sel(N.trans, "guardExpression", N.t)
    k.st.assume(z3.Or(G == 0, z3.UGT(G, BV(4096, 64))))
    ok = lambda i: SUBS(N.expr(i), z64(N.arc("from", i)))
    N.put_cb(N.arcs, N.key(N.arcs, "from"), lambda s, i, v: s.ghost.__setitem__("last", i) or [z3.Implies(z3.ULT(i, N.na), z3.ULT(z64(v), N.np))])
    k.cover()

    def cands(ex, st, lv):
        out = []
        for nm, f in lv.ints(st) + lv.idx(st, N.arcs):
            out.append(("range " + nm, (lambda f: lambda s, e: z3.And(z3.ULE(lo, z64(f(s, e))), z3.ULE(z64(f(s, e)), hi)))(f)))
            out.append(("passed " + nm, (lambda f: lambda s, e: z3.Implies(z3.And(z3.ULE(lo, w), z3.ULT(w, z64(f(s, e)))), ok(w)))(f)))
        return out
    k.ex.loop_cands = cands
    for o in k.run(SG + "::checkPresetAndGuard(%s const&, unsigned int, %s const&) const" % (MARK, BIND), [N.gen, N.mark, N.tid, b]):
        r = tobool(o.val)
        k.prove(o.st, z3.Implies(z3.And(r, z3.ULE(lo, w), z3.ULT(w, hi)), ok(w)), "enabled: every input arc is covered")
        k.prove(o.st, z3.Implies(z3.And(r, G != 0), GV(G)), "enabled: the guard holds")
        i = o.st.ghost.get("last")
        k.prove(o.st, z3.Implies(z3.Not(r), z3.Or(z3.And(G != 0, z3.Not(GV(G))), z3.BoolVal(False) if i is None else z3.And(z3.ULE(lo, i), z3.ULT(i, hi), z3.Not(ok(i))))), "disabled: the guard fails or some input arc is not covered")


@contract("C12", "ecol.cpp")
def firing(k):
    """fire: every place loses what the input arcs take and gains what the output arcs bring, nothing else"""
    N = CNet(k)
    ex = k.ex
    b = k.rec("binding", BIND)
    P, x0 = k.u64("place"), k.u64("count of q before")
    k.st.assume(z3.ULT(P, N.np))
    cell = ex.new_rec(k.st, "count of q in the place", 8)
    ex.store_raw(k.st, cell, 8, x0, None)
    get = lambda s: tobv(ex.load_raw(s, cell, 8, False, None), 64)
    C = z3.Function("count after the first input arcs", B64, B64)
    D = z3.Function("count after the first output arcs", B64, B64)
    lo, mid, hi = N.A0(N.t), N.A1(N.t), N.A0(N.t + 1)
    k.st.assume([C(lo) == x0, D(mid) == C(mid)])
    cstep = lambda i: z3.Implies(z3.And(z3.ULE(lo, i), z3.ULT(i, mid)), C(i + 1) == z3.If(z64(N.arc("from", i)) == P, clamp(C(i) - EQ_(N.expr(i))), C(i)))
    dstep = lambda i: z3.Implies(z3.And(z3.ULE(mid, i), z3.ULT(i, hi)), D(i + 1) == z3.If(z64(N.arc("to", i)) == P, D(i) + EQ_(N.expr(i)), D(i)))

    def effect(st, what, me, p):
        c = get(st)
        ex.store_raw(st, cell, 8, z3.If(p == P, clamp(c - EQ_(me)) if what == "consume" else c + EQ_(me), c), None)
        return [(st, None)]
    N.effect = effect
    virtuals(k, N, b, {}, slots(k, "ArcExpressionAddition"))
    k.cover()

    def cands(ex, st, lv):
        out = []
        for nm, f in lv.ints(st) + lv.idx(st, N.arcs):
            for F, step, a, z in ((C, cstep, lo, mid), (D, dstep, mid, hi)):
                def rng(s, e, f=f, step=step, a=a, z=z):
                    i = z64(f(s, e))
                    s.assume(step(i))
                    return z3.And(z3.ULE(a, i), z3.ULE(i, z))
                out.append(("range %s %s" % (nm, F.name()), rng))
                out.append(("%s %s" % (F.name(), nm), (lambda f, F: lambda s, e: get(s) == F(z64(f(s, e))))(f, F)))
        return out
    ex.loop_cands = cands
    for o in k.run(SG + "::fire(%s&, unsigned int, %s const&) const" % (MARK, BIND), [N.gen, N.mark, N.tid, b]):
        k.prove(o.st, get(o.st) == D(hi), "every place holds what firing leaves there")


@contract("C12", "ecol.cpp")
def minimal_cardinality(k):
    """_hasMinimalCardinality only rejects markings in which no binding can be covered"""
    N = CNet(k)
    ex = k.ex
    M = Multi(k)
    N2 = z3.Function("count of q in the place", B64, B64)
    mo = k.m.path(CM, "minimalMarkingMultiSet")[0]
    sl = slots(k, "ArcExpressionAddition")

    def ind(ex, st, v, args, ins):
        nm = sl.get(slot_of(v))
        me = ex.ptr_bv(st, ex.aptr(args[0]))
        st.assume(bounds_of(me))
        if nm == "getMinimalMarkingCount":
            return [(st, z3.Extract(31, 0, MINC(me)))]
        if nm == "getMinimalColorMarking":
            r = ex.new_rec(st, "minimal marking", k.m.type(CM)["size"])
            M.put(st, r.plus(mo), MINQ(me))
            return [(st, r)]
        return None
    ex.indirect = ind
    # the value of the arc is covered by the place, at every colour and in total
    fits = lambda e, p: z3.And(EQ_(e) <= N2(p), TOT(e) <= s64(PTOT(p)))

    def le(ex, st, args, ins):
        x = M.get(st, args[0])
        p = N.place(args[1])
        st.ghost["le"] = (x, p)
        # q is an arbitrary colour: the comparison fails only because of some colour, which q may be taken to be
        return [(st, x <= N2(p))]
    ex.contract_first(r"SequenceMultiSet::operator<=\(", le)
    k.assume_note("minimal_cardinality: q is taken to be the colour on which the failing comparison differs")
    lo, hi = N.A0(N.t), N.A1(N.t)
    PT = lambda s, i, v: [z3.Implies(z3.ULT(i, N.na), z3.And(z3.ULT(z64(v), N.np), PTOT(z64(v)) >= 0, N2(z64(v)) >= 0, N2(z64(v)) < BV(1 << 31, 64)))]
    N.put_cb(N.arcs, N.key(N.arcs, "from"), lambda s, i, v: s.ghost.__setitem__("last", i) or PT(s, i, v))
    k.cover()

    def cands(ex, st, lv):
        out = []
        for nm, f in lv.ints(st) + lv.idx(st, N.arcs):
            out.append(("range " + nm, (lambda f: lambda s, e: z3.And(z3.ULE(lo, z64(f(s, e))), z3.ULE(z64(f(s, e)), hi)))(f)))
        return out
    ex.loop_cands = cands
    for o in k.run(SG + "::_hasMinimalCardinality(%s const&, unsigned int) const" % MARK, [N.gen, N.mark, N.tid]):
        r = tobool(o.val)
        i = o.st.ghost.get("last")
        k.prove(o.st, z3.Implies(z3.Not(r), z3.BoolVal(False) if i is None else z3.And(z3.ULE(lo, i), z3.ULT(i, hi), z3.Not(fits(N.expr(i), z64(N.arc("from", i)))))), "a rejected transition has an input arc that no binding covers")


FNV = SG + "::findNextValidBinding(%s const&, unsigned int, unsigned long, unsigned long, %s&, unsigned long) const" % (MARK, BIND)
CD = X + "ConstraintData"
ENC = z3.Function("enabled with the values of the code", B64, z3.BoolSort())
ENN = z3.Function("enabled with the binding of the number", B64, z3.BoolSort())
DEC = z3.Function("digit of the code", B64, B64, B32)


@contract("C12", "ecol.cpp")
def next_binding(k):
    """findNextValidBinding: the first enabled binding from bid on, none skipped; with constraint data, the first enabled combination of possible values"""
    N = CNet(k)
    ex, st = k.ex, k.st
    b = k.rec("binding", BIND)
    free = z3.Bool("not inhibited")
    PGN, PGC = ENN, ENC

    class En:
        def __init__(self, f):
            self.f = f

        def __call__(self, x):
            return z3.And(free, self.f(x))

        def name(self):
            return self.f.name()
    EN, EC = En(PGN), En(PGC)
    bid, total, sid, w = k.u64("bid"), k.u64("bindings"), k.u64("state"), k.u64("w")
    maxc, nv, W = k.u64("codes"), k.u64("variables"), k.u64("W")
    st.assume([total != MAXB, nv != 0, z3.ULT(nv, BV(1 << 31, 64)), maxc != MAXB, z3.Implies(bid != 0, free)])
    cell = ex.new_rec(st, "what is bound", 24)     # number of the binding, value of the arbitrary variable, code decoded last
    ex.store_raw(st, cell.plus(16), 8, MAXB, None)
    ex.store_raw(st, cell, 8, MAXB, None)
    ex.store_raw(st, cell.plus(8), 4, k.u32("value before"), None)
    bound = lambda s: tobv(ex.load_raw(s, cell, 8, False, None), 64)
    value = lambda s: tobv(ex.load_raw(s, cell.plus(8), 4, False, None), 32)
    coded = lambda s: tobv(ex.load_raw(s, cell.plus(16), 8, False, None), 64)
    end = ex.new_rec(st, "end of the constraint data", 32)
    node = ex.new_rec(st, "constraint data", 40 + k.m.type(CD)["size"])
    cd = node.plus(40)
    vi = k.arr("variables", "unsigned int", nv, ro=True)
    pv = k.arr("possible values", X + "PossibleValues", nv, ro=True)
    k.setvec(cd, CD, "variableIndex", vi, nv)
    k.setvec(cd, CD, "possibleVariableValues", pv, nv)
    names = dict(st.mem[pv.obj].names)
    # the variables of a transition are distinct
    base = st.mem[vi.obj].f[(0, 4)].arr
    N.put_cb(vi, (0, 4), lambda s, i, v: [z3.Implies(z3.And(z3.ULT(i, nv), z3.ULT(W, nv), v == base(W)), i == W)])
    akey = [v for n_, v in names.items() if "allColors" in n_][0]
    N.put_cb(pv, akey, lambda s, i, v: [z3.ULE(v, BV(1, 8))])
    allc = lambda i: N.raw(pv, akey, i) != 0
    colour = z3.Function("possible value", B64, B64, B32)
    want = lambda c: z3.If(allc(W), DEC(c, W), colour(W, z64(DEC(c, W))))

    H = []
    ex.contract(r"map<unsigned long, .*ConstraintData.*::find\(", lambda ex, s, a, i: [(s.copy(), end), (s, node)])
    ex.contract(r"map<unsigned long, .*ConstraintData.*::end\(", lambda ex, s, a, i: [(s, end)])

    def early(ex, s, a, i):
        r = freshb("no binding can be enabled")
        s.assume(z3.Implies(r, z3.And(z3.Not(EN(w)), z3.Not(EC(w)), z3.Not(EN(BV(0, 64))))))
        s.assume(z3.Implies(z3.Not(r), free))
        return [(s, r)]
    ex.contract(r"_shouldEarlyTerminateTransition\(", early)

    def calc(ex, s, a, i):
        s1, s2 = s.copy(), s
        p = ex.aptr(a[-1])
        ex.store_raw(s1, p, 1, BV(1, 8), None)
        s1.assume([z3.Not(EN(w)), z3.Not(EC(w))])
        return [(s1, end), (s2, node)]
    ex.contract(r"_calculateConstraintData\(", calc)

    def gb(ex, s, a, i):
        k.prove(s, z3.And(z3.BoolVal(ex.aptr(a[3]).same(b)), tobv(a[1], 32) == N.tid), "binding of this transition")
        ex.store_raw(s, cell, 8, tobv(a[2], 64), None)
        return [(s, None)]
    ex.contract(r"ColoredSuccessorGenerator::getBinding\(", gb)

    def check(ex, s, a, i):
        k.prove(s, z3.And(z3.BoolVal(ex.aptr(a[1]).same(N.mark)), tobv(a[2], 32) == N.tid), "this transition is checked in this marking")
        s.ghost["checked"] = True
        if not ex.aptr(a[3]).same(b):
            k.prove(s, total == 0, "the empty binding is only used for a transition without variables")
            return [(s, PGN(BV(0, 64)))]
        if s.ghost.get("mode") == "codes":
            k.prove(s, z3.Implies(z3.ULT(W, nv), value(s) == want(coded(s))), "every variable is bound to the value the code stands for")
            return [(s, PGC(coded(s)))]
        return [(s, PGN(bound(s)))]
    ex.contract(r"ColoredSuccessorGenerator::checkPresetAndGuard\(", check)

    def getmax(ex, s, a, i):
        s.ghost["mode"] = "codes"
        return [(s, maxc)]
    ex.contract(r"IntegerPackCodec<unsigned long, unsigned int>::getMax\(", getmax)

    def dec(ex, s, a, i):
        ex.store_raw(s, cell.plus(16), 8, tobv(a[1], 64), None)
        return [(s, DEC(tobv(a[1], 64), tobv(a[2], 64)))]
    ex.contract(r"IntegerPackCodec<unsigned long, unsigned int>::decode\(", dec)

    def colat(ex, s, a, i):
        p = ex.aptr(a[0])
        if p.obj != pv.obj:
            return NotImplemented
        ix, _ = p.off.split(k.m.type(X + "PossibleValues")["size"])
        r = ex.new_rec(s, "possible value", 4)
        ex.store_raw(s, r, 4, colour(ix.bv(), tobv(a[1], 64)), None)
        return [(s, r)]
    ex.contract(r"std::vector<unsigned int, .*::operator\[\]\(", colat)

    def setv(ex, s, a, i):
        k.prove(s, z3.BoolVal(ex.aptr(a[0]).same(b)), "the binding is filled")
        v, x = tobv(a[1], 32), tobv(a[2], 32)
        ex.store_raw(s, cell.plus(8), 4, z3.If(z3.And(z3.ULT(W, nv), v == base(W)), x, value(s)), None)
        return [(s, None)]
    ex.contract(r"Binding::setValue\(", setv)
    ex.contract(r"ExplicitColored::Binding::(Binding|~Binding)\(", lambda ex, s, a, i: [(s, None)])
    k.assume_note("the constraint data of a state are the ones computed for it (std::map look-up is assumed); _calculateConstraintData and getBinding are covered by the bounded harness only")
    k.cover()

    def cands(ex, st0, lv):
        out = []
        codes = [f for f in lv.ints(st0)]
        for nm, f in lv.ints(st0):
            g = lambda s, e, f=f: z64(f(s, e))
            for E in (EN, EC):
                out.append(("none skipped %s %s" % (nm, E.name()), (lambda g, E: lambda s, e: z3.And(z3.ULE(bid, g(s, e)), z3.Implies(z3.And(z3.ULE(bid, w), z3.ULT(w, g(s, e))), z3.Not(E(w)))))(g, E)))
            out.append(("below " + nm, (lambda g: lambda s, e: z3.ULE(g(s, e), nv))(g)))
            out.append(("W bound " + nm, (lambda g: lambda s, e: z3.Implies(z3.And(z3.ULT(W, g(s, e)), z3.ULT(W, nv)), value(s) == want(coded(s))))(g)))
            for n2, f2 in lv.outer(st0):
                out.append(("one code %s %s" % (nm, n2), (lambda g, f2: lambda s, e: z3.Implies(g(s, e) != 0, coded(s) == z64(f2(s, e))))(g, f2)))
        return out
    ex.loop_cands = cands
    for o in k.run(FNV, [N.gen, N.mark, N.tid, bid, total, b, sid]):
        s, r = o.st, tobv(o.val, 64)
        if s.ghost.get("mode") == "codes":
            k.prove(s, z3.Implies(z3.And(z3.ULE(bid, w), z3.ULT(w, maxc), z3.Or(r == MAXB, z3.ULT(w, r))), z3.Not(EC(w))), "constrained: no enabled code is skipped")
            k.prove(s, z3.Implies(r != MAXB, z3.And(z3.ULE(bid, r), z3.ULT(r, maxc), EC(r))), "constrained: the answer is enabled")
        else:
            only = z3.If(total == 0, BV(1, 64), total)
            k.prove(s, z3.Implies(z3.And(z3.ULE(bid, w), z3.ULT(w, only), z3.Or(r == MAXB, z3.ULT(w, r))), z3.Not(EN(w))), "no enabled binding is skipped")
            k.prove(s, z3.Implies(r != MAXB, z3.And(z3.ULE(bid, r), z3.ULT(r, only), EN(r), z3.Or(total == 0, bound(s) == r))), "the answer is enabled and bound")


@contract("C12", "ecol.cpp")
def early_termination(k):
    """_shouldEarlyTerminateTransition gives up only on inhibited or uncoverable transitions, and always on inhibited ones"""
    N = CNet(k)
    i, c = z3.Bool("not inhibited"), z3.Bool("has what is needed at least")
    k.ex.contract(r"ColoredSuccessorGenerator::checkInhibitor\(", lambda ex, s, a, n: [(s, i)])
    k.ex.contract(r"ColoredSuccessorGenerator::_hasMinimalCardinality\(", lambda ex, s, a, n: [(s, c)])
    k.cover()
    for o in k.run(SG + "::_shouldEarlyTerminateTransition(%s const&, unsigned int) const" % MARK, [N.gen, N.mark, N.tid]):
        r = tobool(o.val)
        k.prove(o.st, z3.Implies(r, z3.Not(z3.And(i, c))), "given up with a reason")
        k.prove(o.st, z3.Implies(z3.Not(i), r), "inhibited transitions are given up")


@contract("C12", "ecol.cpp")
def checked(k):
    """check: not inhibited, guard and preset hold"""
    N = CNet(k)
    b = k.rec("binding", BIND)
    i, c = z3.Bool("not inhibited"), z3.Bool("preset and guard hold")
    k.ex.contract(r"ColoredSuccessorGenerator::checkInhibitor\(", lambda ex, s, a, n: [(s, i)])
    k.ex.contract(r"ColoredSuccessorGenerator::checkPresetAndGuard\(", lambda ex, s, a, n: [(s, c)])
    k.cover()
    for o in k.run(SG + "::check(%s const&, unsigned int, %s const&) const" % (MARK, BIND), [N.gen, N.mark, N.tid, b]):
        k.prove(o.st, tobool(o.val) == z3.And(i, c), "enabled iff not inhibited and guard and preset hold")


SF, SE_ = X + "ColoredPetriNetStateFixed", X + "ColoredPetriNetStateEven"
FIRED = z3.Function("marking after firing", B64, B64, B64, B64)


class Gen:
    """the generator seen through findNextValidBinding and fire; a marking is known by a name kept in its first cell; (T, w) is an arbitrary pair"""
    def __init__(self, k, N, state, marking, ident):
        self.k, self.N = k, N
        ex = k.ex
        self.T, self.w = k.u64("T"), k.u64("w")
        k.st.assume(z3.ULT(self.T, N.nt))
        self.mk = k.u64("marking name")
        ex.store_raw(k.st, marking, 8, self.mk, None)
        TOTB = lambda t: N.sel(N.trans, "totalBindings", t)

        def fnv(ex, s, a, ins):
            tid, bid, total = z64(tobv(a[2], 32)), tobv(a[3], 64), tobv(a[4], 64)
            k.prove(s, z3.And(z3.BoolVal(ex.aptr(a[1]).same(marking)), z3.ULT(tid, N.nt), total == TOTB(tid)), "the bindings of the transition are searched in the marking of the state")
            if ident is not None:
                k.prove(s, tobv(a[6], 64) == ident, "constraint data of this state")
            r = fresh("next", 64)
            s.assume([z3.Implies(z3.And(tid == self.T, z3.ULE(bid, self.w), z3.Or(r == MAXB, z3.ULT(self.w, r))), z3.Not(ENB(self.T, self.w))),
                      z3.Implies(r != MAXB, z3.And(z3.ULE(bid, r), ENB(tid, r), r != MAXB - 1))])
            ex.store_raw(s, ex.aptr(a[5]), 8, r, None)
            s.ghost["found"] = (tid, r)
            return [(s, r)]
        ex.contract(r"ColoredSuccessorGenerator::findNextValidBinding\(", fnv)

        def fire(ex, s, a, ins):
            p = ex.aptr(a[1])
            m = self.name(s, p)
            bn = tobv(ex.load_raw(s, ex.aptr(a[3]), 8, False, None), 64)
            ex.store_raw(s, p, 8, FIRED(m, z64(tobv(a[2], 32)), bn), None)
            return [(s, None)]
        ex.contract(r"ColoredSuccessorGenerator::fire\(", fire)

        def cp(ex, s, a, ins):
            ex.store_raw(s, ex.aptr(a[0]), 8, self.name(s, a[1]), None)
            return [(s, ex.aptr(a[0]) if ins["ty"] == "ptr" else None)]
        ex.contract(r"ColoredPetriNetMarking::(ColoredPetriNetMarking\(.*ColoredPetriNetMarking|operator=)", cp)
        ex.contract(r"ColoredPetriNetMarking::ColoredPetriNetMarking\(\)", lambda ex, s, a, i: [(ex.store_raw(s, ex.aptr(a[0]), 8, BV(0, 64), None) or s, None)])
        ex.contract(r"ColoredPetriNetMarking::~ColoredPetriNetMarking", lambda ex, s, a, i: [(s, None)])
        ex.contract(r"ExplicitColored::Binding::(Binding|~Binding)\(", lambda ex, s, a, i: [(s, None)])
        k.assume_note("the number of bindings of a transition is below 2^64-2")

    def name(self, s, p):
        v = self.k.ex.load_raw(s, self.k.ex.aptr(p), 8, False, None)
        return self.k.ex.ptr_bv(s, v) if isinstance(v, Ptr) else tobv(v, 64)


def pairs(k, S):
    """offset of the trace step in the returned pair"""
    t = k.m.type(S)
    return (t["size"] + 7) // 8 * 8


@contract("C12", "ecol.cpp")
def next_fixed(k):
    """_nextFixed: the first enabled (transition, binding) at or after the cursor; the cursor moves just past it; done when there is none"""
    N = CNet(k)
    ex, st = k.ex, k.st
    s0 = k.rec("state", SF)
    G = Gen(k, N, s0, s0.plus(k.m.path(SF, "marking")[0]), k.getf(s0, SF, "id", k.st))
    t0, b0 = z64(tobv(k.getf(s0, SF, "_currentTransition", k.st), 32)), tobv(k.getf(s0, SF, "_currentBinding", k.st), 64)
    st.assume(z3.ULE(t0, N.nt))
    done0 = k.getf(s0, SF, "_done", k.st)
    id0 = tobv(k.getf(s0, SF, "id", k.st), 64)
    nid = tobv(k.getf(N.gen, SG, "_nextId", k.st), 64)
    ret = ex.new_rec(st, "returned", pairs(k, SF) + 40)
    T, w = G.T, G.w
    after = lambda t, b: z3.Or(z3.ULT(t0, t), z3.And(t0 == t, z3.ULE(b0, b)))
    cur = lambda s: (z64(tobv(k.getf(s0, SF, "_currentTransition", s), 32)), tobv(k.getf(s0, SF, "_currentBinding", s), 64))
    before = lambda s: z3.Or(z3.ULT(T, cur(s)[0]), z3.And(T == cur(s)[0], z3.ULT(w, cur(s)[1])))
    k.cover()

    def cands(ex, st, lv):
        return [("cursor", lambda s, e: z3.And(z3.ULE(cur(s)[0], N.nt), after(*cur(s)))),
                ("nothing enabled is passed", lambda s, e: z3.Implies(z3.And(after(T, w), before(s)), z3.Not(ENB(T, w)))),
                ("id", lambda s, e: tobv(k.getf(s0, SF, "id", s), 64) == id0)]
    ex.loop_cands = cands
    done = lambda s: (lambda v: v if z3.is_bool(v) else tobv(v, 8) != 0)(k.getf(s0, SF, "_done", s))
    for o in k.run(SG + "::_nextFixed(%s&) const" % SF, [ret, N.gen, s0]):
        s = o.st
        fired = s.mem[ret.obj].f.get(0)
        step = ret.plus(pairs(k, SF))
        L = lambda off, n: tobv(ex.load_raw(s, step.plus(off), n, False, None), n * 8)
        ti, bi = z64(L(16, 4)), L(24, 8)
        name = G.name(s, ret)
        ct, cb = cur(s)
        k.prove(s, z3.Implies(z3.And(after(T, w), ENB(T, w)), z3.If(ct == N.nt, z3.BoolVal(False), z3.Or(z3.UGT(T, ct), z3.And(T == ct, z3.UGE(w, cb)), z3.And(T == ti, w == bi)))), "every enabled pair is either returned or still to come")
        k.prove(s, z3.Implies(ct == N.nt, done(s)), "done when there is no pair left")
        k.prove(s, z3.Implies(ct != N.nt, z3.And(ti == ct, cb == bi + 1, ENB(ti, bi), after(ti, bi), name == FIRED(G.mk, ti, bi))), "the successor fires an enabled pair and the cursor moves past it")
        k.prove(s, z3.Implies(ct != N.nt, z3.And(L(0, 8) == nid, L(8, 8) == id0, tobv(k.getf(N.gen, SG, "_nextId", s), 64) == nid + 1, tobv(ex.load_raw(s, ret.plus(k.m.path(SF, "id")[0]), 8, False, None), 64) == nid)), "the successor gets a new id and the step names its predecessor")
        k.prove(s, G.name(s, s0.plus(k.m.path(SF, "marking")[0])) == G.mk, "the marking of the state itself is unchanged")


@contract("C12", "ecol.cpp")
def deadlock(k):
    """canFire / hasDeadlock"""
    N = CNet(k)
    ex = k.ex
    G = Gen(k, N, None, N.mark, None)
    sid = k.u64("state id")
    k.cover()
    FC = X + "FireabilityChecker::"
    for o in k.run(FC + "canFire(%s const&, unsigned int, %s const&, unsigned long)" % (SG, MARK), [N.gen, N.tid, N.mark, sid], k.st.copy()):
        r = tobool(o.val)
        k.prove(o.st, z3.Implies(z3.And(z3.Not(r), G.T == N.t), z3.Not(ENB(G.T, G.w))), "cannot fire: no binding is enabled")
        f = o.st.ghost.get("found")
        k.prove(o.st, z3.Implies(r, ENB(*f) if f else z3.BoolVal(False)), "can fire: some binding is enabled")

    def can(ex, s, a, ins):
        t = z64(tobv(a[1], 32))
        r = freshb("can fire")
        s.assume([z3.Implies(z3.And(z3.Not(r), t == G.T), z3.Not(ENB(G.T, G.w)))])
        k.prove(s, z3.And(z3.BoolVal(ex.aptr(a[2]).same(N.mark)), z3.ULT(t, N.nt)), "asked about a transition of the net in this marking")
        s.ghost["can"] = (r, t)
        return [(s, r)]
    ex.contract(r"FireabilityChecker::canFire\(", can)

    def cands(ex, st, lv):
        out = []
        for nm, f in lv.ints(st):
            out.append(("range " + nm, (lambda f: lambda s, e: z3.ULE(z64(f(s, e)), N.nt))(f)))
            out.append(("passed " + nm, (lambda f: lambda s, e: z3.Implies(z3.ULT(G.T, z64(f(s, e))), z3.Not(ENB(G.T, G.w))))(f)))
        return out
    ex.loop_cands = cands
    for o in k.run(FC + "hasDeadlock(%s const&, %s const&, unsigned long)" % (SG, MARK), [N.gen, N.mark, sid], k.st.copy()):
        r = tobool(o.val)
        k.prove(o.st, z3.Implies(r, z3.Not(ENB(G.T, G.w))), "deadlock: nothing is enabled")
        g = o.st.ghost.get("can")
        k.prove(o.st, z3.Implies(z3.Not(r), g[0] if g else z3.BoolVal(False)), "no deadlock: some transition can fire")


class Even:
    def __init__(self, k, N):
        self.k, self.N = k, N
        ex, st = k.ex, k.st
        self.s0 = k.rec("state", SE_)
        self.map = k.arr("next bindings", "unsigned long", N.nt)
        k.setvec(self.s0, SE_, "_map", self.map, N.nt)
        self.ix0 = z64(tobv(self.f("_currentIndex", st), 32))
        self.c0 = z64(tobv(self.f("_completedTransitions", st), 32))
        d = self.f("_done", st)
        if not z3.is_bool(d):
            st.assume(z3.ULE(tobv(d, 8), BV(1, 8)))
        st.assume(z3.ULE(self.ix0, N.nt))
        st.assume(z3.ULE(self.c0, N.nt))
        self.d0 = self.flag("_done", st)

    def f(self, nm, s):
        return self.k.getf(self.s0, SE_, nm, s)

    def flag(self, nm, s):
        v = self.f(nm, s)
        return v if z3.is_bool(v) else tobv(v, 8) != 0

    def at(self, s, i):
        return s.mem[self.map.obj].f[(0, 8)].sel(s, i)


@contract("C12", "ecol.cpp")
def next_pair(k):
    """getNextPair: the first unfinished transition from the cursor on; none skipped; back to the start when there is none"""
    N = CNet(k)
    E = Even(k, N)
    w = k.u64("w")
    k.cover()
    st0 = k.st.copy()
    cur = lambda s: z64(tobv(E.f("_currentIndex", s), 32))

    def cands(ex, st, lv):
        out = [("cursor", lambda s, e: z3.And(z3.ULE(E.ix0, cur(s)), z3.ULE(cur(s), N.nt))),
               ("passed are finished", lambda s, e: z3.Implies(z3.And(z3.ULE(E.ix0, w), z3.ULT(w, cur(s))), E.at(s, w) == MAXB))]
        for nm, f in lv.idx(st, E.map):
            out.append(("in step " + nm, (lambda f: lambda s, e: z64(f(s, e)) == cur(s))(f)))
        return out
    k.ex.loop_cands = cands
    for o in k.run(SE_ + "::getNextPair()", [E.s0]):
        s, v = o.st, o.val
        if isinstance(v, (list, tuple)):
            t, b = z64(tobv(v[0], 32)) if tobv(v[0], None if False else 32) is not None else None, tobv(v[1], 64)
        else:
            raise Unsupported("shape of the pair")
        k.prove(s, z3.Implies(b != MAXB, z3.And(z3.ULE(E.ix0, t), z3.ULT(t, N.nt), E.at(st0, t) == b, cur(s) == t + 1)), "an unfinished transition and its next binding; the cursor moves past it")
        k.prove(s, z3.Implies(z3.And(z3.Not(E.d0), z3.ULE(E.ix0, w), z3.ULT(w, z3.If(b == MAXB, N.nt, t))), E.at(st0, w) == MAXB), "no unfinished transition is passed over")
        k.prove(s, z3.Implies(z3.And(z3.Not(E.d0), b == MAXB), z3.And(cur(s) == 0, E.flag("shuffle", s))), "at the end it starts over")
        k.prove(s, z3.Implies(z3.ULT(w, N.nt), E.at(s, w) == E.at(st0, w)), "the next bindings are unchanged")
        k.prove(s, E.flag("_done", s) == E.d0, "done is unchanged")


@contract("C12", "ecol.cpp")
def update_pair(k):
    """updatePair: exactly the entry of the transition changes; finished transitions are counted once; done when all are finished"""
    N = CNet(k)
    E = Even(k, N)
    w, bid = k.u64("w"), k.u64("fired binding")
    k.st.assume(bid != MAXB - 1)
    k.st.assume(z3.ULT(w, N.nt))
    old = E.at(k.st, N.t)
    k.st.assume(z3.Implies(old != MAXB, z3.ULT(E.c0, N.nt)))
    k.assume_note("update_pair: the count of finished transitions is that of the entries that are finished (kept by update_pair itself)")
    st0 = k.st.copy()
    k.cover()
    for o in k.run(SE_ + "::updatePair(unsigned int, unsigned long)", [E.s0, N.tid, bid]):
        s = o.st
        new = z3.If(bid == MAXB, MAXB, bid + 1)
        k.prove(s, E.at(s, w) == z3.If(w == N.t, new, E.at(st0, w)), "only the entry of the transition changes, to the next binding")
        c1 = z64(tobv(E.f("_completedTransitions", s), 32))
        fin = z3.And(bid == MAXB, old != MAXB)
        k.prove(s, c1 == E.c0 + z3.If(fin, BV(1, 64), BV(0, 64)), "a transition is counted when it becomes finished")
        k.prove(s, E.flag("_done", s) == z3.Or(E.d0, z3.And(fin, c1 == N.nt)), "done exactly when all transitions are finished")


@contract("C12", "ecol.cpp")
def next_even(k):
    """_nextEven: no enabled (transition, binding) is ever lost; what is returned is enabled"""
    N = CNet(k)
    ex, st = k.ex, k.st
    E = Even(k, N)
    s0 = E.s0
    G = Gen(k, N, s0, s0.plus(k.m.path(SE_, "marking")[0]), tobv(k.getf(s0, SE_, "id", st), 64))
    id0 = tobv(k.getf(s0, SE_, "id", st), 64)
    nid = tobv(k.getf(N.gen, SG, "_nextId", st), 64)
    T, w = G.T, G.w
    orig = E.at(st, T)
    RT, RB = ex.new_rec(st, "returned transition", 4), None
    ret = ex.new_rec(st, "returned", pairs(k, SE_) + 40)
    cell = ex.new_rec(st, "next binding of T", 8)
    ex.store_raw(st, cell, 8, orig, None)
    get = lambda s: tobv(ex.load_raw(s, cell, 8, False, None), 64)

    def gnp(ex, s, a, ins):
        t, b = fresh("t", 32), fresh("b", 64)
        s.assume(z3.Implies(b != MAXB, z3.And(z3.ULT(z64(t), N.nt), z3.Implies(z64(t) == T, b == get(s)))))
        return [(s, [t, b])]
    ex.contract(r"ColoredPetriNetStateEven::getNextPair\(", gnp)

    def upd(ex, s, a, ins):
        t, b = z64(tobv(a[1], 32)), tobv(a[2], 64)
        ex.store_raw(s, cell, 8, z3.If(t == T, z3.If(b == MAXB, MAXB, b + 1), get(s)), None)
        return [(s, None)]
    ex.contract(r"ColoredPetriNetStateEven::updatePair\(", upd)

    def newmap(ex, s, a, ins):
        return [(s, ex.aptr(a[0]) if ins["ty"] == "ptr" else None)]
    ex.contract(r"std::vector<unsigned long, .*::(vector|~vector|operator=)", newmap)
    k.assume_note("next_even: the table of next bindings of a new state starts with zeros (std::vector construction assumed)")
    k.cover()
    lost = lambda s: z3.And(ENB(T, w), w != MAXB, z3.ULE(orig, w), z3.ULT(w, get(s)))

    def cands(ex, st, lv):
        out = [("nothing lost", lambda s, e: z3.Not(lost(s))), ("id", lambda s, e: tobv(k.getf(s0, SE_, "id", s), 64) == id0)]
        ii = lv.ints(st)
        for na, fa in ii:
            for nb, fb in ii:
                if na != nb:
                    out.append(("pair %s %s" % (na, nb), (lambda fa, fb: lambda s, e: z3.Implies(fb(s, e) != MAXB, z3.And(z3.ULT(fa(s, e), N.nt), z3.Implies(fa(s, e) == T, fb(s, e) == get(s)))))(fa, fb)))
        return out
    ex.loop_cands = cands
    for o in k.run(SG + "::_nextEven(%s&) const" % SE_, [ret, N.gen, s0]):
        s = o.st
        step = ret.plus(pairs(k, SE_))
        L = lambda off, n: tobv(ex.load_raw(s, step.plus(off), n, False, None), n * 8)
        ti, bi = z64(L(16, 4)), L(24, 8)
        found = L(0, 8) != 0
        k.prove(s, z3.Implies(lost(s), z3.And(T == ti, w == bi)), "every enabled pair is either returned or still to come")
        k.st.assume(nid != 0)
        s.assume(nid != 0)
        k.prove(s, z3.Implies(found, z3.And(ENB(ti, bi), G.name(s, ret) == FIRED(G.mk, ti, bi), L(0, 8) == nid, L(8, 8) == id0, tobv(k.getf(N.gen, SG, "_nextId", s), 64) == nid + 1)), "the successor fires an enabled pair")
        k.prove(s, G.name(s, s0.plus(k.m.path(SE_, "marking")[0])) == G.mk, "the marking of the state itself is unchanged")
