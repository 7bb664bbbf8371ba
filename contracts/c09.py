"""Simplifier: the simplified query has the truth value of the original in every reachable marking.

Meanings (as in c06) are sets of reachable markings (LTL: of positions on paths of the net).  A linear program stands for the set
of reachable markings its constraints allow, ALLOW; the contract of satisfiable() is that "no" is only answered when that set is
empty.  Linear forms: LIN(form) is the value of the linear part of a form in the marking at hand."""
from c06 import *

SV = P + "Simplifier"
SM = "PetriEngine::Simplification::"
MB = SM + "Member"
ALLOW = z3.Function("allowed_by", B64, D)
LOR, LAND = z3.Function("some_allowed", B64, D), z3.Function("all_allowed", B64, D)
LIN = z3.Function("linear_part", B64, B64)
SMALL = lambda x: z3.And(x < BV(1 << 60, 64), x > BV(-(1 << 60), 64))
OPS = {0: lambda a, b: a == b}


class SimpMeanings(Meanings):
    def alone(self, st, op, a, t):
        Meanings.alone(self, st, op, a, t)
        A = st.assume
        x = a[-1]
        if op in ("EF", "AF", "F", "E"):
            A([I(x == TOP, t == TOP), I(x == BOT, t == BOT)])           # ef_top af_top f_top
        elif op in ("EU", "AU", "U"):
            A(I(x == TOP, t == TOP))                                     # until_top
            A(I(a[0] == BOT, t == x))                                    # until_bot1
            A(I(a[0] == TOP, t == self(st, {"EU": "EF", "AU": "AF", "U": "F"}[op], x)))    # until_top1


class Simp(Push):
    def __init__(self, k):
        self.k = k
        st = k.st
        self.cx = k.rec("context", P + "SimplificationContext")
        self.negated = k.boolin("negated")
        k.setf(self.cx, P + "SimplificationContext", "_negated", self.negated)
        self.v = k.rec("simplifier", SV)
        vp = [f for f in ("_vptr$Visitor", "_vptr$MutatingVisitor", "_vptr$BaseVisitor") if self.has(SV, f)][0]
        k.setf(self.v, SV, vp, Ptr("g:" + vtable(SV), 16))
        k.setf(self.v, SV, "_context", self.cx)
        self.ro = k.m.path(SV, "_return_value")[0]
        self.off = {f: k.m.path(SM + "Retval", f)[0] for f in ("formula", "lps", "neglps")}
        self.g = z3.Const("g", S)
        self.s0 = z3.Const("other", S)
        self.initrw = z3.BoolVal(False)
        self.T = SimpMeanings([self.g])
        st.assume([TOP != BOT, DEAD != TOP, AT(TOP, self.g), z3.Not(AT(BOT, self.g))])
        self.T(st, "NOT", DEAD)
        self.constants()
        self.handlers()
        self.more()
        self.setret(st, self.v.plus(self.ro), self.lp(st, "none"), self.lp(st, "none"), self.mk(st, "nothing", None))
        k.ex.contract(r"shared_ptr<PetriEngine::(Simplification|PQL)::\w+( const)?>::operator bool", lambda ex, st, a, i: NotImplemented)
        self.listcands = []
        k.ex.loop_cands = self.cands

    def has(self, t, f):
        try:
            self.k.m.path(t, f)
            return True
        except Unsupported:
            return False

    def lp(self, st, name, allow=None):
        r = fresh(name, 64)
        st.assume(z3.UGT(r, BV(4096, 64)))
        if allow is not None:
            st.assume(ALLOW(r) == allow)
        return r

    def setret(self, st, p, l, n, f):
        self.put(st, p.plus(self.off["formula"]), f)
        self.put(st, p.plus(self.off["lps"]), l)
        self.put(st, p.plus(self.off["neglps"]), n)

    def getret(self, st, p):
        return [self.loadptr(st, p.plus(self.off[f])) for f in ("formula", "lps", "neglps")]

    def neg(self, st):
        return tobv(self.k.getf(self.cx, P + "SimplificationContext", "_negated", st), 8) != 0

    def good(self, f, l, n):
        """what a simplified result guarantees besides its meaning"""
        return z3.And(I(AT(DEN(f), self.g), AT(ALLOW(l), self.g)), I(z3.Not(AT(DEN(f), self.g)), AT(ALLOW(n), self.g)))

    def goodall(self, f, l, n):
        return z3.And(self.good(f, l, n), I(ALLOW(l) == BOT, DEN(f) == BOT), I(ALLOW(n) == BOT, DEN(f) == TOP))

    def more(self):
        k = self.k
        first = k.ex.contract_first

        def visit(ex, st, args, ins):
            p = ex.aptr(args[1])
            dem = ex.m.fns[ins["callee"][1]]["dem"]
            if "shared_ptr" in dem.split("(")[-1]:
                p = ex.aptr(ex.bv_ptr(st, self.loadptr(st, p)))
            d = self.meaning(st, p)
            f, l, n = self.mk(st, "simplified", None), self.lp(st, "lps"), self.lp(st, "neglps")
            st.assume(DEN(f) == z3.If(self.neg(st), self.T(st, "NOT", d), d))
            st.assume(self.goodall(f, l, n))
            self.T(st, "NOT", DEN(f))
            self.setret(st, ex.aptr(args[0]).plus(self.ro), l, n, f)
            return [(st, None)]
        k.ex.contract(r"PQL::Visitor::visit<PetriEngine::PQL::Simplifier,", visit)

        k.ex.contract(r"SimplificationContext::timeout\(\) const", lambda ex, st, a, i: [(st, freshb("timeout"))])
        k.ex.contract(r"SimplificationContext::(cache|getLpTimeout)\(\) const", lambda ex, st, a, i: [(st, ex.fresh_of(i["ty"], "c"))])

        def mkone(ex, st, args, ins):
            out, a = ex.aptr(args[0]), args[1:]
            if not a:
                self.put(st, out, self.lp(st, "unconstrained", TOP))
                return [(st, None)]
            m = ex.aptr(a[1])
            con = tobv(ex.load_raw(st, ex.aptr(a[2]), 8, False, None), 64)
            op = tobv(ex.load_raw(st, ex.aptr(a[3]), 4, False, None), 32)
            x = LIN(self.form(st, m)[0])
            names = self.opnames()
            r = self.lp(st, "program")
            for nm, f in (("OP_EQ", lambda a, b: a == b), ("OP_LE", lambda a, b: a <= b), ("OP_GE", lambda a, b: a >= b), ("OP_LT", lambda a, b: a < b), ("OP_GT", lambda a, b: a > b)):
                st.assume(I(op == names[nm], AT(ALLOW(r), self.g) == f(x, con)))
            ex.prove(st, SMALL(con) if False else z3.Or([op == v for v in names.values()]), "a known comparison operator at line %s" % ins.get("ln"))
            self.put(st, out, r)
            return [(st, None)]
        k.ex.contract(r"std::make_shared<PetriEngine::Simplification::SingleProgram", mkone)

        def union(ex, st, args, ins):
            out, a = ex.aptr(args[0]), args[1:]
            if len(a) == 2:
                d = self.T(st, "OR", *[ALLOW(self.loadptr(st, x)) for x in a])
            else:
                d = LOR(self.listid(st, a[0]))
            self.put(st, out, self.lp(st, "union", d))
            return [(st, None)]
        k.ex.contract(r"std::make_shared<PetriEngine::Simplification::UnionCollection", union)

        def merge(ex, st, args, ins):
            out, a = ex.aptr(args[0]), args[1:]
            self.put(st, out, self.lp(st, "merge", self.T(st, "AND", *[ALLOW(self.loadptr(st, x)) for x in a])))
            return [(st, None)]
        k.ex.contract(r"std::make_shared<PetriEngine::Simplification::MergeCollection", merge)

        def sat(ex, st, lpid):
            b = freshb("satisfiable")
            st.assume(I(z3.Not(b), ALLOW(lpid) == BOT))
            return [(st, b)]
        k.ex.contract(r"AbstractProgramCollection::satisfiable\(", lambda ex, st, a, i: sat(ex, st, self.ident(st, a[0])))
        old = k.ex.indirect

        def indirect(ex, st, v, args, ins):
            if ins["ty"] == "i1" and self.slot(v) == self.vslot(SM + "SingleProgram", "satisfiable"):
                return sat(ex, st, self.ident(st, args[0]))
            return old(ex, st, v, args, ins)
        k.ex.indirect = indirect

        # --- lists of linear programs
        V = r"std::vector<std::shared_ptr<PetriEngine::Simplification::AbstractProgramCollection>, std::allocator<std::shared_ptr<PetriEngine::Simplification::AbstractProgramCollection> ?> ?>::"

        def setv(st, p, i):
            for o, x in ((0, i), (8, BV(0, 64)), (16, BV(0, 64))):
                k.ex.store_raw(st, p.plus(o), 8, x, None)

        def vctor(ex, st, args, ins):
            i = self.lp(st, "programs")
            st.assume([LOR(i) == BOT, LAND(i) == TOP, SZ(i) == 0])
            setv(st, ex.aptr(args[0]), i)
            return [(st, None)]
        k.ex.contract(V + r"vector\(\)$", vctor)

        def vpush(ex, st, args, ins):
            p = ex.aptr(args[0])
            i = tobv(ex.load_raw(st, p, 8, False, None), 64)
            e = self.loadptr(st, args[1])
            j = self.lp(st, "programs")
            st.assume([LOR(j) == self.T(st, "OR", LOR(i), ALLOW(e)), LAND(j) == self.T(st, "AND", LAND(i), ALLOW(e)), SZ(j) == SZ(i) + 1, z3.ULT(SZ(i), BV(1 << 40, 64))])
            setv(st, p, j)
            return [(st, ex.bv_ptr(st, j) if ins["ty"] == "ptr" else None)]
        k.ex.contract(V + r"(push_back|emplace_back)", vpush)
        k.ex.contract(V + r"~vector\(\)$", lambda ex, st, a, i: [(st, None)])
        k.ex.contract(V + r"size\(\) const$", lambda ex, st, a, i: [(st, SZ(self.listid(st, a[0])))])

        def mergelps(ex, st, args, ins):
            i = self.listid(st, args[1])
            r = fresh("merged", 64)
            st.assume(z3.If(SZ(i) == 0, r == 0, z3.UGT(r, BV(4096, 64))))
            st.assume(ALLOW(r) == LAND(i))
            self.put(st, ex.aptr(args[0]), r)
            return [(st, None)]
        k.ex.contract(r"PetriEngine::PQL::mergeLps\(", mergelps)

        def mk2(op):
            def h(ex, st, args, ins):
                self.put(st, ex.aptr(args[0]), self.mk(st, "combined", self.T(st, op, DEN(self.loadptr(st, args[1])), DEN(self.loadptr(st, args[2])))))
                return [(st, None)]
            return h
        k.ex.contract(r"PetriEngine::PQL::makeOr\((const )?std::shared_ptr", mk2("OR"))
        k.ex.contract(r"PetriEngine::PQL::makeAnd\((const )?std::shared_ptr", mk2("AND"))
        self.members()

    def special(self, st, cls, a):
        if cls == "DeadlockCondition":
            return self.mk(st, cls, DEAD)
        if cls == "BooleanCondition":
            return self.mk(st, cls, z3.If(tobv(self.k.ex.load_raw(st, self.k.ex.aptr(a[0]), 1, False, None), 8) != 0, TOP, BOT))
        return None

    # --- linear forms
    def form(self, st, p):
        o = self.k.m.path(MB, "_variables")[0]
        return (tobv(self.k.ex.load_raw(st, p.plus(o), 8, False, None), 64), tobv(self.k.getf(p, MB, "_constant", st), 64), tobv(self.k.getf(p, MB, "_canAnalyze", st), 8) != 0)

    def setform(self, st, p, lin, con, can):
        o = self.k.m.path(MB, "_variables")[0]
        for q, x in ((0, lin), (8, BV(0, 64)), (16, BV(0, 64))):
            self.k.ex.store_raw(st, p.plus(o + q), 8, x, None)
        self.k.setf(p, MB, "_constant", con, st)
        self.k.setf(p, MB, "_canAnalyze", can, st)

    def shift(self, st, lin, con):
        """linear parts and constants are below 2^60 in absolute value, so comparisons may be rearranged (lemma below)"""
        for l2, c2 in st.ghost.get("forms", []):
            for a, b in (((lin, con), (l2, c2)), ((l2, c2), (lin, con))):
                for f in REL:
                    st.assume(f(a[0] + a[1], b[0] + b[1]) == f(a[0] - b[0], b[1] - a[1]))
        st.ghost["forms"] = st.ghost.get("forms", []) + [(lin, con)]

    def newlin(self, st, val=None, bound=True):
        i = fresh("linear", 64)
        if val is not None:
            st.assume(LIN(i) == val)
        return i

    def members(self):
        k = self.k

        def cons(ex, st, args, ins):
            e = self.ident(st, args[1])
            i, c, a = self.newlin(st), fresh("constant", 64), freshb("canAnalyze")
            st.assume(I(a, EV(e, self.g) == LIN(i) + c))
            self.shift(st, LIN(i), c)
            self.setform(st, ex.aptr(args[0]), i, c, a)
            return [(st, None)]
        k.ex.contract(r"^PetriEngine::PQL::constraint\(", cons)

        def place(ex, st, args, ins):
            q = tobv(args[1], 64)
            i, c = self.newlin(st), fresh("initial_tokens", 64)
            st.assume([c >= 0, c < BV(1 << 32, 64), LIN(i) + c == TOK(q), TOK(q) >= 0, TOK(q) < BV((1 << 32) - 1, 64)])
            self.shift(st, LIN(i), c)
            self.setform(st, ex.aptr(args[0]), i, c, z3.BoolVal(True))
            return [(st, None)]
        k.ex.contract(r"^PetriEngine::PQL::memberForPlace\(", place)

        def lit(ex, st, args, ins):
            i = self.newlin(st, BV(0, 64))
            c = tobv(args[1], 64) if args[1].size() == 64 else z3.SignExt(64 - args[1].size(), args[1])
            self.shift(st, LIN(i), c)
            self.setform(st, ex.aptr(args[0]), i, c, tobool(args[2]) if len(args) > 2 else z3.BoolVal(True))
            return [(st, None)]
        k.ex.contract(r"Simplification::Member::Member\((long|int)(, bool)?\)", lit)

        def copy(ex, st, args, ins):
            self.setform(st, ex.aptr(args[0]), *self.form(st, ex.aptr(args[1])))
            return [(st, args[0] if ins["ty"] == "ptr" else None)]
        k.ex.contract(r"Simplification::Member::(Member|operator=)\(PetriEngine::Simplification::Member (const)?&", copy)
        k.ex.contract(r"Simplification::Member::(Member|operator=)\(PetriEngine::Simplification::Member ?&&", copy)
        k.ex.contract(r"Simplification::Member::~Member\(\)", lambda ex, st, a, i: [(st, None)])

        def arith(op):
            def h(ex, st, args, ins):
                p = ex.aptr(args[0])
                a, b = self.form(st, p), self.form(st, ex.aptr(args[1]))
                i = self.newlin(st, LIN(a[0]) + LIN(b[0]) if op == "+" else LIN(a[0]) - LIN(b[0]))
                self.setform(st, p, i, a[1] + b[1] if op == "+" else a[1] - b[1], z3.And(a[2], b[2]))
                return [(st, args[0])]
            return h
        k.ex.contract(r"Simplification::Member::operator-=\(", arith("-"))
        k.ex.contract(r"Simplification::Member::operator\+=\(", arith("+"))

        def cmp(f):
            def h(ex, st, args, ins):
                a, b = self.form(st, ex.aptr(args[0])), self.form(st, ex.aptr(args[1]))
                t = fresh("trivial", 32)
                st.assume(z3.Or(t == 0, t == 1, t == 2))
                v = f(LIN(a[0]) + a[1], LIN(b[0]) + b[1])
                # decided comparisons hold in every reachable marking
                st.assume([I(t == 1, v), I(t == 0, z3.Not(v))])
                return [(st, t)]
            return h
        for o, f in (("<", lambda a, b: a < b), ("<=", lambda a, b: a <= b), (">", lambda a, b: a > b), (">=", lambda a, b: a >= b)):
            k.ex.contract(r"Simplification::Member::operator%s\(" % o, cmp(f))

        def zero(ex, st, args, ins):
            b = freshb("isZero")
            st.assume(I(b, LIN(self.form(st, ex.aptr(args[0]))[0]) == 0))
            return [(st, b)]
        k.ex.contract(r"Simplification::Member::isZero\(", zero)

        def subz(ex, st, args, ins):
            b = freshb("sameLinear")
            st.assume(I(b, LIN(self.form(st, ex.aptr(args[0]))[0]) == LIN(self.form(st, ex.aptr(args[1]))[0])))
            return [(st, b)]
        k.ex.contract(r"Simplification::Member::substrationIsZero\(", subz)

    def opnames(self):
        return {"OP_EQ": 0, "OP_LE": 1, "OP_GE": 2, "OP_LT": 3, "OP_GT": 4}

    def vslot(self, cls, fn):
        g = self.k.ex.global_obj(vtable(cls))
        for o, (sz, v) in g.f.items():
            if isinstance(v, FnPtr) and ("%d%s" % (len(fn), fn)) in v.name:
                return o - 16
        return None

    def cands(self, ex, st, lv):
        out = []
        for f in self.listcands:
            out += f(ex, st, lv)
        return out

    def run(self, el, cls):
        k = self.k
        k.under.append("PetriEngine::PQL::Simplifier::_accept(PetriEngine::PQL::%s const*)" % cls)
        fn = [f for f, d in k.m.fns.items() if re.search(r"^void PetriEngine::PQL::Visitor::visit<PetriEngine::PQL::Simplifier, PetriEngine::PQL::Condition>\(PetriEngine::PQL::Simplifier\*, PetriEngine::PQL::Condition\*\)$", d["dem"])]
        return k.run(fn[0], [self.v, el])

    def post(self, outs, d, cls):
        k = self.k
        for o in outs:
            if o.kind != "ret":
                k.prove(o.st, False, "%s: does not throw" % cls)
                continue
            f, l, n = self.getret(o.st, self.v.plus(self.ro))
            self.judge(o.st, f, l, n, d, cls)
            k.prove(o.st, self.neg(o.st) == self.negated, "%s: the negation flag is restored" % cls)

    def judge(self, st, f, l, n, d, cls, neg=None):
        k = self.k
        neg = self.negated if neg is None else neg
        k.prove(st, AT(DEN(f), self.g) == z3.Xor(AT(d, self.g), neg), "%s: the result means the same (negated when asked)" % cls)
        k.prove(st, I(AT(DEN(f), self.g), AT(ALLOW(l), self.g)), "%s: the constraints of the result hold where it holds" % cls)
        k.prove(st, I(z3.Not(AT(DEN(f), self.g)), AT(ALLOW(n), self.g)), "%s: the negated constraints hold where it fails" % cls)
        k.prove(st, z3.And(z3.UGT(f, BV(4096, 64)), z3.UGT(l, BV(4096, 64)), z3.UGT(n, BV(4096, 64))), "%s: there is a result" % cls)


TOK = z3.Function("tokens", B64, B64)
REL = (lambda a, b: a < b, lambda a, b: a <= b, lambda a, b: a == b)


@contract("C09", "simp.cpp")
def lemma_rearranging_comparisons(k):
    """x + a < y + b exactly when x - y < b - a, for values below 2^60"""
    x, a, y, b, u, v = (k.u64(n) for n in "xaybuv")
    st = k.st
    mid = lambda t: z3.And(t < BV(1 << 62, 64), t > BV(-(1 << 62), 64))
    for t in (x, a, y, b):
        st.assume(SMALL(t))
    st.assume([mid(u), mid(v)])
    k.cover()
    k.prove(st, mid(x + a), "sums of two such values stay below 2^62")
    k.prove(st, mid(x - y), "differences of two such values stay below 2^62")
    k.prove(State(), (x + a) - (y + b) == (x - y) - (b - a), "the difference of both sides is the same")
    k.prove(st, (u < v) == (u - v < 0), "values below 2^62 compare like their difference with 0 (<)")
    k.prove(st, (u <= v) == (u - v <= 0), "values below 2^62 compare like their difference with 0 (<=)")
    k.prove(State(), (x + a == y + b) == (x - y == b - a), "equations can be rearranged")


def scase(cls):
    def c(k):
        q = Simp(k)
        el = q.obj(cls)
        fs = ("_cond",) if cls in ONE else ("_cond1", "_cond2")
        ids = [DEN(q.shared(el, cls, f, f)) for f in fs]
        k.cover()
        d = q.T(k.st, ONE.get(cls) or TWO[cls], *ids)
        if cls == "XCondition":
            k.st.assume(q.T(k.st, "X", q.T(k.st, "NOT", ids[0])) == q.T(k.st, "NOT", d))     # x_not: paths are infinite
        q.post(q.run(el, cls), d, cls)
    c.__name__ = cls
    contract("C09", "simp.cpp")(c)


for _c in list(ONE) + list(TWO):
    if _c not in ("ControlCondition", "ACondition", "ECondition"):
        scase(_c)


def scompare(cls):
    def c(k):
        q = Simp(k)
        el = q.obj(cls)
        a, b = q.shared(el, cls, "_expr1", "left"), q.shared(el, cls, "_expr2", "right")
        me = q.ident(k.st, el)
        k.st.assume(AT(DEN(me), q.g) == CMP[cls](EV(a, q.g), EV(b, q.g)))
        k.cover()
        q.post(q.run(el, cls), DEN(me), cls)
    c.__name__ = cls
    contract("C09", "simp.cpp")(c)


for _c in CMP:
    scompare(_c)


@contract("C09", "simp.cpp")
def BooleanCondition(k):
    q = Simp(k)
    el = q.obj("BooleanCondition")
    v = k.boolin("value")
    k.setf(el, P + "BooleanCondition", "value", v)
    me = DEN(q.ident(k.st, el))
    k.st.assume(me == z3.If(v, TOP, BOT))
    k.cover()
    q.post(q.run(el, "BooleanCondition"), me, "BooleanCondition")


@contract("C09", "simp.cpp")
def DeadlockCondition(k):
    q = Simp(k)
    el = q.obj("DeadlockCondition")
    k.st.assume(DEN(q.ident(k.st, el)) == DEAD)
    k.cover()
    q.post(q.run(el, "DeadlockCondition"), DEAD, "DeadlockCondition")


def progcands(q, a, n, pre):
    """loop invariants of simplify_and / simplify_or: what the lists built so far stand for, in the marking at hand"""
    g = q.g

    def cands(ex, st, lv):
        out = []
        if a.obj not in st.mem:
            return out
        lists = [oid for oid, r in st.mem.items() if isinstance(r, Rec) and r.size == 24 and 0 in r.f and 8 in r.f and r.f[8][0] == 8]

        def lid(oid):
            return lambda s: tobv(s.mem[oid].f[0][1], 64) if 0 in s.mem[oid].f and not isinstance(s.mem[oid].f[0][1], Ptr) else fresh("none", 64)
        for oid in lists:
            L = lid(oid)
            out.append(("list %s proper" % oid, lambda s, e, L=L: z3.And(z3.ULT(SZ(L(s)), BV(1 << 40, 64)), z3.UGT(L(s), BV(4096, 64)))))
            for o2 in lists:
                if o2 != oid:
                    M = lid(o2)
                    out.append(("same length %s %s" % (oid, o2), lambda s, e, L=L, M=M: SZ(L(s)) == SZ(M(s))))
                    for nm, F in (("or", ORD), ("and", ANDD)):
                        for nm2, G in (("or", LOR), ("and", LAND)):
                            for neg in (False, True):
                                out.append(("%s %s(%s) allowed by %s(%s)" % ("not" if neg else "", nm, oid, nm2, o2),
                                            lambda s, e, L=L, M=M, F=F, G=G, neg=neg: I(z3.Xor(AT(F(L(s)), g), neg), AT(G(M(s)), g))))
            out.append(("list %s empty or" % oid, lambda s, e, L=L: I(SZ(L(s)) == 0, z3.And(z3.Not(AT(ORD(L(s)), g)), AT(ANDD(L(s)), g)))))
        for i, ix in lv.idx(st, a):
            out.append(("%s<=n" % i, lambda s, e, ix=ix: z3.ULE(ix(s, e), n)))
            for oid in lists:
                L = lid(oid)
                out.append(("length %s" % oid, lambda s, e, L=L, ix=ix: z3.ULE(SZ(L(s)), ix(s, e))))
                for nm, F in (("or", ORD), ("and", ANDD)):
                    out.append(("%s(%s) so far" % (nm, oid), lambda s, e, L=L, ix=ix, F=F: AT(F(L(s)), g) == AT(pre(ix(s, e)), g)))
        return out
    return cands


def sjunction(fn):
    def c(k):
        q = Simp(k)
        el = q.obj("AndCondition")
        arr, n, ids = q.children(el, "AndCondition", "_conds", "Condition", "operands")
        k.st.assume(z3.UGE(n, BV(1, 64)))
        conj = fn == "simplify_and"
        g = q.g
        pre = z3.Function("prefix", B64, D)
        whole = pre(n)
        k.st.assume(AT(pre(BV(0, 64)), g) == z3.BoolVal(conj))

        def step(s, i, x):
            d = z3.Xor(AT(DEN(x), g), q.negated)
            q.T(s, "NOT", DEN(x))
            return [AT(pre(i + 1), g) == (z3.And if conj else z3.Or)(AT(pre(i), g), d),
                    I(z3.ULT(i, n), I(z3.Not(d), z3.Not(AT(whole, g))) if conj else I(d, AT(whole, g))), z3.UGT(x, BV(4096, 64))]
        k.st.mem[arr.obj].f[(0, 8)] = FBase(ids, 64, step)
        k.cover()
        q.listcands = [progcands(q, arr, n, pre)]
        out = k.rec("result", SM + "Retval")
        for o in k.run(SV + r"::%s\(" % fn, [out, q.v, el]):
            if o.kind != "ret":
                k.prove(o.st, False, "%s: does not throw" % fn)
                continue
            f, l, m = q.getret(o.st, out)
            q.judge(o.st, f, l, m, whole, fn, neg=z3.BoolVal(False))
            k.prove(o.st, q.neg(o.st) == q.negated, "%s: the negation flag is kept" % fn)
    c.__name__ = fn
    contract("C09", "simp.cpp", budget=300)(c)


sjunction("simplify_and")
sjunction("simplify_or")


def sj(cls):
    def c(k):
        """a conjunction / disjunction, given the contracts of simplify_and and simplify_or"""
        q = Simp(k)
        el = q.obj(cls)
        arr, n, ids = q.children(el, cls, "_conds", "Condition", "operands")
        ALL, SOME = (z3.Function(x, z3.BoolSort(), D) for x in ("all_operands", "some_operand"))     # of the operands, negated or not
        for s in (k.st,):
            s.assume([AT(ALL(True), q.g) == z3.Not(AT(SOME(False), q.g)), AT(SOME(True), q.g) == z3.Not(AT(ALL(False), q.g))])

        def h(fn, F):
            def f(ex, st, args, ins):
                out, v, e = args
                ex.prove(st, q.ident(st, e) == q.ident(st, el), "%s gets the formula itself" % fn)
                r, l, m = q.mk(st, "combined", F(q.neg(st))), q.lp(st, "lps"), q.lp(st, "neglps")
                st.assume(q.goodall(r, l, m))
                q.setret(st, ex.aptr(out), l, m, r)
                return [(st, None)]
            k.ex.contract(r"Simplifier::%s\(" % fn, f)
        h("simplify_and", ALL)
        h("simplify_or", SOME)

        def mk(F):
            def f(ex, st, args, ins):
                vv = ex.load_raw(st, ex.aptr(args[1]), 8, True, None)
                l = q.ident(st, vv) if isinstance(vv, Ptr) else tobv(vv, 64)
                ex.prove(st, l == q.ident(st, arr), "the operands are handed over")
                q.put(st, ex.aptr(args[0]), q.mk(st, "combined", F(False)))
                return [(st, None)]
            return f
        k.ex.contract_first(r"PetriEngine::PQL::makeOr\(std::vector", mk(SOME))
        k.ex.contract_first(r"PetriEngine::PQL::makeAnd\(std::vector", mk(ALL))
        me = DEN(q.ident(k.st, el))
        k.st.assume(me == (ALL if cls == "AndCondition" else SOME)(False))
        k.cover()
        q.post(q.run(el, cls), me, cls)
    c.__name__ = cls
    contract("C09", "simp.cpp")(c)


sj("AndCondition")
sj("OrCondition")


@contract("C09", "simp.cpp")
def simplify_entry(k):
    q = Simp(k)
    k.st.assume(z3.Not(q.negated))
    c = fresh("formula", 64)
    k.st.assume(z3.UGT(c, BV(4096, 64)))
    sp = k.ex.new_rec(k.st, "formula pointer", 16)
    q.put(k.st, sp, c)
    out = k.rec("result", SM + "Retval")
    k.cover()
    for o in k.run(r"^PetriEngine::PQL::simplify\(", [out, sp, q.cx]):
        if o.kind != "ret":
            k.prove(o.st, False, "simplify: does not throw")
            continue
        f, l, n = q.getret(o.st, out)
        q.judge(o.st, f, l, n, DEN(c), "simplify", neg=z3.BoolVal(False))


# ------------------------------------------------------------------------------------------------
# linear forms, on their real representation: coefficients beyond the end of the list are 0
from vecmodel import Vecs
VEC = r"^std::vector<long, std::allocator<long>>::"


class Forms:
    def __init__(self, k):
        self.k, self.vm = k, Vecs(k)
        vm = self.vm
        self.j = k.u64("an arbitrary transition")

        def resize(ex, st, args, ins):
            v, n = ex.aptr(args[0]), tobv(args[1], 64)
            val = tobv(ex.load_raw(st, ex.aptr(args[2]), 8, False, None), 64)
            b = vm.begin(st, v)
            o, old = st.mem[b.obj], vm.size(st, v)
            f = FCopy(FBase(lambda i: val, 64), BV(0, 64), old, o.f[(0, 8)], BV(0, 64))
            vm.set(st, v, Ptr(ex.new_obj(st, Arr(o.name + "+", 8, n, {(0, 8): f}))), n)
            return [(st, None)]
        k.ex.contract(VEC + r"resize\(", resize)

        def clear(ex, st, args, ins):
            v = ex.aptr(args[0])
            vm.set(st, v, vm.begin(st, v), BV(0, 64))
            return [(st, None)]
        k.ex.contract(VEC + r"clear\(", clear)

        def assign(ex, st, args, ins):
            vm.copy(st, ex.aptr(args[0]), ex.aptr(args[1]))
            return [(st, args[0])]
        k.ex.contract(VEC + r"operator=\(", assign)

        def equal(ex, st, args, ins):
            a, e, b = (ex.aptr(x) for x in args)
            n = e.off.add(a.off, -1).split(8)[0].bv()
            r = freshb("equal")
            for i in (self.j,):
                x, y = st.mem[a.obj].f[(0, 8)].sel(st, i), st.mem[b.obj].f[(0, 8)].sel(st, i)
                st.assume(I(z3.And(r, z3.ULT(i, n)), x == y))
            return [(st, r)]
        k.ex.contract(r"^bool std::equal<__gnu_cxx::__normal_iterator<long const\*", equal)

    def form(self, name, small=False):
        k = self.k
        n = k.u64("coefficients of " + name)
        k.st.assume(z3.ULT(n, BV(1 << 31, 64)))
        a = k.arr(name, "long", n)
        p = k.rec(name, MB)
        k.setvec(p, MB, "_variables", a, n)
        c = k.u64("constant of " + name)
        can = k.boolin("analysable " + name)
        k.setf(p, MB, "_constant", c)
        k.setf(p, MB, "_canAnalyze", can)
        vp = k.m.path(MB, "_vptr$Member")[0]
        k.ex.store_raw(k.st, p.plus(vp), 8, Ptr("g:" + vtable(MB), 16), None)
        return p, a, n, c, can

    def vec(self, p):
        return p.plus(self.k.m.path(MB, "_variables")[0])

    def co(self, st, p, j):
        """coefficient j of the form (0 beyond its end)"""
        v = self.vec(p)
        return z3.If(z3.ULT(j, self.vm.size(st, v)), self.vm.at(st, v, (0, 8), j), BV(0, 64))

    def con(self, st, p):
        return tobv(self.k.getf(p, MB, "_constant", st), 64)

    def can(self, st, p):
        return tobv(self.k.getf(p, MB, "_canAnalyze", st), 8) != 0


def scan(k, F, arrs, preds):
    """loop invariants for scans: what holds of every coefficient seen so far (at the arbitrary index)"""
    j = F.j

    def cands(ex, st, lv):
        out = []
        ints = list(lv.ints(st))
        for a, n in arrs:
            if a.obj not in st.mem:
                continue
            pos = [(i, g) for i, g in lv.idx(st, a)] + [(i, (lambda s, e, g=g: z64(g(s, e)))) for i, g in ints]
            seen = set()
            for i, g in pos:
                if i in seen:
                    continue
                seen.add(i)
                out.append(("%s<=%s" % (i, n), lambda s, e, g=g, n=n: z3.ULE(g(s, e), n)))
                for nm, f in preds(st, lv, a, n):
                    out.append(("%s before %s" % (nm, i), lambda s, e, g=g, f=f: I(z3.ULT(j, g(s, e)), f(s, e))))
        return out
    k.ex.loop_cands = cands


@contract("C09", "simp.cpp")
def isZero(k):
    F = Forms(k)
    p, a, n, c, can = F.form("form")
    x = F.co(k.st, p, F.j)
    scan(k, F, [(a, n)], lambda st, lv, a, n: [("zero", lambda s, e: x == 0)])
    k.cover()
    for o in k.run(r"Member::isZero\(", [p]):
        if o.kind != "ret":
            k.prove(o.st, False, "isZero: does not throw")
            continue
        k.prove(o.st, I(tobool(o.val), x == 0), "isZero: every coefficient is 0")


@contract("C09", "simp.cpp")
def getType(k):
    F = Forms(k)
    p, a, n, c, can = F.form("form")
    x = F.co(k.st, p, F.j)

    def preds(st, lv, a, n):
        out = []
        for nm, g in list(lv.flags(st)):
            out += [("%s%s" % (nm, q), lambda s, e, g=g, f=f: I(g(s, e), f)) for q, f in (("=0", x == 0), (">=0", x >= 0), ("<=0", x <= 0))]
        return out
    scan(k, F, [(a, n)], preds)
    k.cover()
    for o in k.run(r"Member::getType\(", [p]):
        if o.kind != "ret":
            k.prove(o.st, False, "getType: does not throw")
            continue
        t = tobv(o.val, 32)
        k.prove(o.st, I(t == 0, x == 0), "getType: a constant form has no coefficients")
        k.prove(o.st, I(t == 1, x <= 0), "getType: an input form never grows")
        k.prove(o.st, I(t == 2, x >= 0), "getType: an output form never shrinks")


def same_linear(fn, rx):
    def c(k):
        F = Forms(k)
        p, a, n, _, _ = F.form("left")
        q, b, m, _, _ = F.form("right")
        x, y = F.co(k.st, p, F.j), F.co(k.st, q, F.j)
        scan(k, F, [(a, n), (b, m)], lambda st, lv, a, n: [("same", lambda s, e: x == y)])
        old = k.ex.loop_cands
        mx = z3.If(z3.ULT(n, m), m, n)
        k.ex.loop_cands = lambda ex, st, lv: old(ex, st, lv) + [("%s<=max" % i, lambda s, e, g=g: z3.ULE(z64(g(s, e)), mx)) for i, g in lv.ints(st)] + \
            [("%s>=min" % i, lambda s, e, g=g: z3.UGE(z64(g(s, e)), z3.If(z3.ULT(n, m), n, m))) for i, g in lv.ints(st)]
        k.cover()
        for o in k.run(rx, [p, q]):
            if o.kind != "ret":
                k.prove(o.st, False, "%s: does not throw" % fn)
                continue
            k.prove(o.st, I(tobool(o.val), x == y), "%s: every coefficient is the same" % fn)
    c.__name__ = fn
    contract("C09", "simp.cpp")(c)


same_linear("substrationIsZero", r"Member::substrationIsZero\(")
same_linear("equal_forms", r"Member::operator==\(")


def addsub(op):
    def c(k):
        F = Forms(k)
        p, a, n, c1, can1 = F.form("left")
        q, b, m, c2, can2 = F.form("right")
        vm, j = F.vm, F.j
        zero = BV(0, 64)
        A, B = k.st.mem[a.obj].f[(0, 8)], k.st.mem[b.obj].f[(0, 8)]
        at = lambda arr, n, st, i: z3.If(z3.ULT(i, n), arr.sel(st, i), zero)
        want = lambda st, i: at(A, n, st, i) + at(B, m, st, i) if op == "+" else at(A, n, st, i) - at(B, m, st, i)
        mx = z3.If(z3.ULT(n, m), m, n)

        def cands(ex, st, lv):
            bp = vm.begin(st, F.vec(p))
            out = []
            ints = [(i, (lambda s, e, g=g: z64(g(s, e)))) for i, g in lv.ints(st)] + list(lv.idx(st, b)) + list(lv.idx(st, bp))
            for i, g in ints:
                out.append(("%s<=max" % i, lambda s, e, g=g: z3.ULE(g(s, e), mx)))
                out.append(("%s<=right" % i, lambda s, e, g=g: z3.ULE(g(s, e), m)))
                out.append(("done before %s" % i, UniInv(lambda s, e, q2, v, g=g: v == z3.If(z3.ULT(q2, g(s, e)), want(st, q2), at(A, n, st, q2)), bp, (0, 8), j)))
            return out
        k.ex.loop_cands = cands
        k.cover()
        nm = "operator%s=" % op
        for o in k.run(r"Member::operator\%s=\(" % op, [p, q]):
            if o.kind != "ret":
                k.prove(o.st, False, nm + ": does not throw")
                continue
            st = o.st
            k.prove(st, F.co(st, p, j) == want(st, j), nm + ": coefficients are combined one by one")
            k.prove(st, F.con(st, p) == (c1 + c2 if op == "+" else c1 - c2), nm + ": constants are combined")
            k.prove(st, F.can(st, p) == z3.And(can1, can2), nm + ": analysable exactly when both are")
            k.prove(st, z3.And(F.co(st, q, j) == at(B, m, st, j), F.con(st, q) == c2), nm + ": the argument is unchanged")
    c.__name__ = "add_forms" if op == "+" else "subtract_forms"
    contract("C09", "simp.cpp")(c)


addsub("+")
addsub("-")


@contract("C09", "simp.cpp")
def multiply_forms(k):
    F = Forms(k)
    k.ex.uf_mul = True
    p, a, n, c1, can1 = F.form("left")
    q, b, m, c2, can2 = F.form("right")
    vm, j = F.vm, F.j
    zero = BV(0, 64)
    A, B = k.st.mem[a.obj].f[(0, 8)], k.st.mem[b.obj].f[(0, 8)]
    at = lambda arr, n, st, i: z3.If(z3.ULT(i, n), arr.sel(st, i), zero)
    # isZero by contract: "yes" means all coefficients are 0 (at j); the answer depends only on the coefficients
    memo = {}

    def iz(ex, st, args, ins):
        v = F.vec(ex.aptr(args[0]))
        bp = vm.begin(st, v)
        key = (bp.obj, st.mem[bp.obj].f[(0, 8)])
        if key not in memo:
            memo[key] = freshb("allzero")
        r = memo[key]
        st.assume(I(r, F.co(st, ex.aptr(args[0]), j) == 0))
        return [(st, r)]
    k.ex.contract(r"Member::isZero\(", iz)

    def cands(ex, st, lv):
        out = []
        bp = vm.begin(st, F.vec(p))
        base = st.mem[bp.obj].f[(0, 8)]
        for i, g in list(lv.idx(st, bp)) + [(i, (lambda s, e, g=g: z64(g(s, e)))) for i, g in lv.ints(st)]:
            for nm, f in (("c1", c1), ("c2", c2)):
                out.append(("times %s before %s" % (nm, i), UniInv(lambda s, e, q2, v, g=g, f=f: v == z3.If(z3.ULT(q2, g(s, e)), umul(base.sel(st, q2), f), base.sel(st, q2)), bp, (0, 8), j)))
            out.append(("%s in range" % i, lambda s, e, g=g: z3.ULE(g(s, e), vm.size(st, F.vec(p)))))
        return out
    k.ex.loop_cands = cands
    k.cover()
    x, y = at(A, n, k.st, j), at(B, m, k.st, j)
    nm = "operator*="
    for o in k.run(r"Member::operator\*=\(", [p, q]):
        if o.kind != "ret":
            k.prove(o.st, False, nm + ": does not throw")
            continue
        st = o.st
        r, rc, can = F.co(st, p, j), F.con(st, p), F.can(st, p)
        # (x·t + c1)(y·t + c2) is linear only when one linear part vanishes
        k.prove(st, I(can, z3.And(can1, can2)), nm + ": analysable only when both are")
        k.prove(st, I(can, rc == umul(c1, c2)), nm + ": constants are multiplied")
        k.prove(st, I(can, z3.Or(z3.And(x == 0, r == umul(y, c1)), z3.And(y == 0, r == umul(x, c2)))), nm + ": coefficients are scaled by the other constant")
        k.prove(st, F.con(st, q) == c2, nm + ": the argument is unchanged")


def triv(op, f):
    def c(k):
        """a decided comparison holds for every number of firings (SUM: value of the linear part, for non-negative firing counts)"""
        F = Forms(k)
        p, a, n, c1, can1 = F.form("left")
        q, b, m, c2, can2 = F.form("right")
        X = {p.obj: k.u64("value of the left linear part"), q.obj: k.u64("value of the right linear part")}
        x, y = X[p.obj], X[q.obj]
        for t in (x, y, c1, c2):
            k.st.assume(SMALL(t))
        kinds = {o: fresh("type", 32) for o in X}
        for o, v in X.items():
            t = kinds[o]
            # with non-negative firing counts: all coefficients 0 / <= 0 / >= 0 make the sum 0 / <= 0 / >= 0
            k.st.assume([z3.ULE(t, BV(3, 32)), I(t == 0, v == 0), I(t == 1, v <= 0), I(t == 2, v >= 0)])
        k.ex.contract(r"Member::getType\(", lambda ex, st, args, ins: [(st, kinds[ex.aptr(args[0]).obj])])
        eq = k.boolin("same linear part")
        k.st.assume(I(eq, x == y))

        def heq(ex, st, args, ins):
            ex.prove(st, z3.BoolVal({ex.aptr(args[0]).obj, ex.aptr(args[1]).obj} == set(X)), "the two forms are compared")
            return [(st, eq)]
        k.ex.contract(r"Member::operator==\(", heq)
        k.cover()
        for o in k.run(r"Member::operator%s\(" % op, [p, q]):
            if o.kind != "ret":
                k.prove(o.st, False, "operator%s: does not throw" % op)
                continue
            t = tobv(o.val, 32)
            k.prove(o.st, I(t == 1, f(x + c1, y + c2)), "operator%s: decided true only when it holds" % op)
            k.prove(o.st, I(t == 0, z3.Not(f(x + c1, y + c2))), "operator%s: decided false only when it fails" % op)
            k.prove(o.st, z3.ULE(t, BV(2, 32)), "operator%s: an answer" % op)
    c.__name__ = {"<": "less", "<=": "less_equal", ">": "greater", ">=": "greater_equal"}[op] + "_forms"
    contract("C09", "simp.cpp")(c)


for _o, _f in (("<", lambda a, b: a < b), ("<=", lambda a, b: a <= b), (">", lambda a, b: a > b), (">=", lambda a, b: a >= b)):
    triv(_o, _f)


# ------------------------------------------------------------------------------------------------
# translation of arithmetic into linear forms.  A form is seen through its value in one arbitrary reachable marking (kept in
# _constant); the operations on forms are replaced by the contracts proved above.
FVAL = z3.Function("value_of_expression", B64, B64)      # in the marking at hand
FCAN = z3.Function("analysable", B64, z3.BoolSort())
TOK = z3.Function("tokens", B64, B64)
PROD = z3.Function("product", B64, B64, B64)
CV = P + "ConstraintVisitor"


def translation(k, tname):
    q = Pql(k)
    el = q.obj(tname)
    cx = k.rec("context", P + "SimplificationContext")
    v = k.rec("visitor", CV)
    vp = [f for f in ("_vptr$Visitor", "_vptr$BaseVisitor") if any(x[0] == f or x[0].endswith(f) for x in k.m.leaves(CV))]
    k.ex.store_raw(k.st, v, 8, Ptr("g:" + vtable(CV), 16), None)
    k.setf(v, CV, "_context", cx)
    oc, on = k.m.path(MB, "_constant")[0], k.m.path(MB, "_canAnalyze")[0]
    ov = k.m.path(MB, "_variables")[0]
    ro = k.m.path(CV, "_return_value")[0]

    def put(ex, st, p, val, can):
        ex.store_raw(st, p.plus(oc), 8, val, None)
        ex.store_raw(st, p.plus(on), 1, z3.If(can, BV(1, 8), BV(0, 8)) if not isinstance(can, bool) else BV(int(can), 8), None)
        for o in (0, 8, 16):
            ex.store_raw(st, p.plus(ov + o), 8, NULLP, None)

    def get(ex, st, p):
        return tobv(ex.load_raw(st, p.plus(oc), 8, False, None), 64), tobv(ex.load_raw(st, p.plus(on), 1, False, None), 8) != 0

    put(k.ex, k.st, v.plus(ro), fresh("stale", 64), freshb("stale"))

    def copy(ex, st, args, ins):
        put(ex, st, ex.aptr(args[0]), *get(ex, st, ex.aptr(args[1])))
        return [(st, args[0])]

    def arith(f, exact):
        def h(ex, st, args, ins):
            a, b = get(ex, st, ex.aptr(args[0])), get(ex, st, ex.aptr(args[1]))
            can = z3.And(a[1], b[1])
            if not exact:                # a product is analysable only when one factor is constant
                can = z3.And(can, freshb("one factor is constant"))
            put(ex, st, ex.aptr(args[0]), z3.If(can, f(a[0], b[0]), fresh("no matter", 64)), can)
            return [(st, args[0])]
        return h
    mul = lambda a, b: PROD(a, b)
    k.ex.contract(r"^PetriEngine::Simplification::Member::(Member\(PetriEngine::Simplification::Member( const&|&&)\)|operator=\()", copy)
    k.ex.contract(r"^PetriEngine::Simplification::Member::~Member", lambda ex, st, args, ins: [(st, None)])
    k.ex.contract(r"^PetriEngine::Simplification::Member::operator\+=\(", arith(lambda a, b: a + b, True))
    k.ex.contract(r"^PetriEngine::Simplification::Member::operator-=\(", arith(lambda a, b: a - b, True))

    def times(ex, st, args, ins):
        a, b = get(ex, st, ex.aptr(args[0])), get(ex, st, ex.aptr(args[1]))
        st.assume([PROD(a[0], b[0]) == PROD(b[0], a[0]), I(b[0] == BV(-1, 64), PROD(a[0], b[0]) == -a[0]), I(b[0] == 1, PROD(a[0], b[0]) == a[0]), I(a[0] == 1, PROD(a[0], b[0]) == b[0])])
        return arith(PROD, False)(ex, st, args, ins)
    k.ex.contract(r"^PetriEngine::Simplification::Member::operator\*=\(", times)

    def mfp(ex, st, args, ins):
        put(ex, st, ex.aptr(args[0]), TOK(tobv(args[1], 64)), True)
        return [(st, None)]
    k.ex.contract(r"PQL::memberForPlace\(", mfp)

    def visit(ex, st, args, ins):
        c = q.child_id(ex, st, args, ins)
        put(ex, st, ex.aptr(args[0]).plus(ro), z3.If(FCAN(c), FVAL(c), fresh("no matter", 64)), FCAN(c))
        return [(st, None)]
    k.ex.contract(r"PQL::Visitor::visit<PetriEngine::PQL::ConstraintVisitor,", visit)
    return q, el, v, lambda st, p=v.plus(ro): get(k.ex, st, p)


def translated(k, tname, v, el, ret, want, name):
    k.under.append("PetriEngine::PQL::ConstraintVisitor::_accept(PetriEngine::PQL::%s const*)" % tname)
    for o in k.run(r"^PetriEngine::PQL::ConstraintVisitor::_accept\(PetriEngine::PQL::%s const\*\)$" % tname, [v, el]):
        if o.kind != "ret":
            k.prove(o.st, False, "translation does not throw")
            continue
        x, can = ret(o.st)
        k.prove(o.st, I(can, x == want), name)


@contract("C09", "simp.cpp")
def translate_literal(k):
    q, el, v, ret = translation(k, "LiteralExpr")
    x = k.u64("value")
    k.setf(el, P + "LiteralExpr", "_value", x)
    k.cover()
    translated(k, "LiteralExpr", v, el, ret, x, "a literal becomes the constant form")


@contract("C09", "simp.cpp")
def translate_place(k):
    q, el, v, ret = translation(k, "UnfoldedIdentifierExpr")
    p = k.u32("place")
    k.st.assume(p >= 0)
    k.setf(el, P + "UnfoldedIdentifierExpr", "_offsetInMarking", p)
    k.cover()
    translated(k, "UnfoldedIdentifierExpr", v, el, ret, TOK(z64(p)), "a place becomes its own form")


@contract("C09", "simp.cpp")
def translate_identifier(k):
    q, el, v, ret = translation(k, "IdentifierExpr")
    c = q.shared(el, "IdentifierExpr", "_compiled", "compiled")
    k.cover()
    translated(k, "IdentifierExpr", v, el, ret, FVAL(c), "an identifier becomes the form of what it was bound to")


@contract("C09", "simp.cpp")
def translate_minus(k):
    q, el, v, ret = translation(k, "MinusExpr")
    c = q.shared(el, "MinusExpr", "_expr", "operand")
    k.cover()
    translated(k, "MinusExpr", v, el, ret, -FVAL(c), "minus becomes the negated form")


def translate_fold(tname, op, unit, minus=False):
    def c(k):
        q, el, v, ret = translation(k, tname)
        arr, n, ids = q.children(el, tname, "_exprs", "Expr", "operands")
        E = z3.Function("operands_folded", B64, B64)
        PF = z3.Function("places_folded", B64, B64)
        cst = BV(0, 64)
        ar2 = None
        if not minus:
            cst = k.u64("constant")
            k.setf(el, P + tname, "_constant", cst)
            np_ = k.u64("number of places")
            k.st.assume(z3.ULT(np_, BV(1 << 40, 64)))
            ty = [t for t in k.m.types if t.startswith("std::pair<unsigned int, std::shared_ptr<const std::__cxx11::basic_string")][0]
            ar2 = k.arr("places", ty, np_, ro=True)
            pl = k.st.mem[ar2.obj].f[(0, 4)].arr
            k.st.mem[ar2.obj].f[(0, 4)] = FBase(pl, 32, lambda st, i, x: [PF(i + 1) == op(PF(i), TOK(z64(x)))] + unitlaw(PF(i), TOK(z64(x))))
            k.setvec(el, P + tname, "_ids", ar2, np_)
            k.st.assume(PF(BV(0, 64)) == cst)
            k.st.assume(E(BV(0, 64)) == PF(np_))
        else:
            k.st.assume(z3.UGT(n, 0))
            k.st.assume(E(BV(1, 64)) == FVAL(ids(BV(0, 64))))
        unitlaw = lambda a, b: [I(a == 1, PROD(a, b) == b)] if op is PROD else []
        k.st.mem[arr.obj].f[(0, 8)] = FBase(ids, 64, lambda st, i, x: [I(i != 0, E(i + 1) == op(E(i), FVAL(x)))] if minus else [E(i + 1) == op(E(i), FVAL(x))] + unitlaw(E(i), FVAL(x)))
        k.cover()

        def cands(ex, st, lv):
            out = []
            flags = list(lv.flags(st))
            mems = []
            for oid, o in st.mem.items():
                if isinstance(o, Rec) and getattr(o, "size", 0) == k.m.sizeof(MB):
                    mems.append(Ptr(oid))
            for base, F, nn in [(arr, E, n)] + ([(ar2, PF, np_)] if ar2 else []):
                for i, ix in list(lv.idx(st, base)) + [(i, (lambda s, e, g=g: z64(g(s, e)))) for i, g in lv.ints(st)]:
                    out.append(("%s<=n%d" % (i, F is E), lambda s, e, ix=ix, nn=nn: z3.ULE(ix(s, e), nn)))
                    out.append(("%s>0" % i, lambda s, e, ix=ix: z3.UGE(ix(s, e), 1)))
                    for fn, g in flags:
                        out.append(("%s: nothing yet (%s)" % (fn, i), lambda s, e, g=g, ix=ix: I(g(s, e), ix(s, e) == 0)))
                        if base is arr and ar2:
                            out.append(("%s: no places" % fn, lambda s, e, g=g: I(g(s, e), np_ == 0)))
                        out.append(("%s: neutral" % fn, lambda s, e, g=g: I(g(s, e), cst == unit)))
                        out.append(("%s: not empty" % fn, lambda s, e, g=g: I(g(s, e), z3.Or(n != 0, np_ != 0)) if ar2 else z3.BoolVal(True)))
                    for mp in mems:
                        def holds(s, e, mp=mp, ix=ix, F=F):
                            x, can = ret(s, mp)
                            return I(can, x == F(ix(s, e)))
                        out.append(("%s folded up to %s in %d" % (mp.obj, i, F is E), holds))
                        for fn, g in flags:
                            out.append(("%s folded up to %s in %d unless %s" % (mp.obj, i, F is E, fn), lambda s, e, h=holds, g=g: z3.Or(g(s, e), h(s, e))))
            return list({x[0]: x for x in out}.values())
        k.ex.loop_cands = cands
        translated(k, tname, v, el, ret, E(n), "the form has the folded value of constant, places and operands")
    c.__name__ = "translate_" + tname
    contract("C09", "simp.cpp")(c)


translate_fold("PlusExpr", lambda a, b: a + b, 0)
translate_fold("SubtractExpr", lambda a, b: a - b, 0, minus=True)
translate_fold("MultiplyExpr", PROD, 1)


from netmodel import Net, narrow


def arc_weight(fn, post):
    def c(k):
        net = Net(k)
        t, p = k.u32("transition"), k.u32("place")
        k.st.assume([z3.ULT(t, net.nT), z3.ULT(p, net.nP)])
        k.st.assume(net.trans_wf(k.st, z64(t)))
        k.st.assume(net.sel_place(t, p))
        net.on_arc_read(lambda st, x: net.sel_arc(t, x))
        has, arc, lo = (net.hasOut, net.arcOut, net.outp(t)) if post else (net.hasIn, net.arcIn, net.inp(t))
        hi = net.inp(t + 1) if post else net.outp(t)

        def cands(ex, st, lv):
            out = []
            for i, g in lv.ints(st):
                out.append(("%s in range" % i, lambda s, e, g=g: z3.And(z3.UGE(z64(g(s, e)), z64(lo)), z3.ULE(z64(g(s, e)), z64(hi)))))
                out.append(("not before %s" % i, lambda s, e, g=g: I(has(t, p), z3.UGE(z64(arc(t, p)), z64(g(s, e))))))
            for i, g in lv.idx(st, net.arcs):
                out.append(("@%s in range" % i, lambda s, e, g=g: z3.And(z3.UGE(g(s, e), z64(lo)), z3.ULE(g(s, e), z64(hi)))))
                out.append(("not before @%s" % i, lambda s, e, g=g: I(has(t, p), z3.UGE(z64(arc(t, p)), g(s, e)))))
            return out
        k.ex.loop_cands = cands
        k.cover()
        args = [net.p, t, p] if post else [net.p, p, t]
        for o in k.run(r"^PetriEngine::PetriNet::%s\(" % fn, args):
            if o.kind != "ret":
                k.prove(o.st, False, fn + ": does not throw")
                continue
            k.prove(o.st, tobv(o.val, 32) == (net.wout(t, p) if post else net.win(t, p)), fn + ": the weight of the arc, 0 if there is none")
    c.__name__ = fn
    contract("C09", "net.cpp")(c)


arc_weight("inArc", False)
arc_weight("outArc", True)


@contract("C09", "simp.cpp")
def memberForPlace(k):
    k.assume_note("state equation: a reachable marking is the initial marking plus the effects of the transitions fired (C01)")
    F = Forms(k)
    vm, j = F.vm, F.j
    nT, nP, p = k.u32("transitions"), k.u32("places"), k.u64("place")
    k.st.assume([z3.ULT(p, z64(nP))])
    net = k.rec("net", "PetriEngine::PetriNet", ro=False)
    k.setf(net, "PetriEngine::PetriNet", "_ntransitions", nT)
    k.setf(net, "PetriEngine::PetriNet", "_nplaces", nP)
    marking = k.arr("marking", "unsigned int", z64(nP), ro=True)
    m0 = k.st.mem[marking.obj].f[(0, 4)].sel(k.st, p)
    cx = k.rec("context", P + "SimplificationContext")
    k.setf(cx, P + "SimplificationContext", "_net", net)
    k.setf(cx, P + "SimplificationContext", "_marking", marking)
    IN, OUT = z3.Function("weight_in", B32, B32, B32), z3.Function("weight_out", B32, B32, B32)
    k.ex.contract(r"^PetriEngine::PetriNet::inArc\(", lambda ex, st, a, i: [(st, IN(tobv(a[1], 32), tobv(a[2], 32)))])
    k.ex.contract(r"^PetriEngine::PetriNet::outArc\(", lambda ex, st, a, i: [(st, OUT(tobv(a[2], 32), tobv(a[1], 32)))])
    p32 = narrow(p)
    want = lambda q: z64(OUT(p32, narrow(q))) - z64(IN(p32, narrow(q)))

    def fill(ex, st, args, ins):
        v, n = ex.aptr(args[0]), tobv(args[1], 64)
        val = tobv(ex.load_raw(st, ex.aptr(args[2]), 8, False, None), 64)
        vm.set(st, v, Ptr(ex.new_obj(st, Arr("row", 8, n, {(0, 8): FBase(lambda i: val, 64)}))), n)
        return [(st, None)]
    k.ex.contract(r"^std::vector<long, std::allocator<long>>::vector\(unsigned long, long const&", fill)
    k.ex.contract(r"^std::vector<long, std::allocator<long>>::shrink_to_fit", lambda ex, st, a, i: [(st, None)])
    k.ex.contract(r"^std::vector<long, std::allocator<long>>::~vector", lambda ex, st, a, i: [(st, None)])

    def move(ex, st, args, ins):
        d, s = ex.aptr(args[0]), ex.aptr(args[1])
        for o in (0, 8, 16):
            ex.store_raw(st, d.plus(o), 8, ex.load_raw(st, s.plus(o), 8, True, None), None)
            ex.store_raw(st, s.plus(o), 8, NULLP, None)
        return [(st, None)]
    k.ex.contract(r"^std::vector<long, std::allocator<long>>::vector\(std::vector<long, std::allocator<long>>&&", move)

    def cpy(ex, st, args, ins):
        vm.copy(st, ex.aptr(args[0]), ex.aptr(args[1]))
        return [(st, None)]
    k.ex.contract(r"^std::vector<long, std::allocator<long>>::vector\(std::vector<long, std::allocator<long>> const&", cpy)

    def cands(ex, st, lv):
        out = []
        for oid, o in list(st.mem.items()):
            if isinstance(o, Arr) and o.name == "row":
                bp = Ptr(oid)
                for i, g in [(i, (lambda s, e, g=g: z64(g(s, e)))) for i, g in lv.ints(st)] + list(lv.idx(st, bp)):
                    out.append(("%s in range" % i, lambda s, e, g=g: z3.ULE(g(s, e), z64(nT))))
                    out.append(("effects before %s" % i, UniInv(lambda s, e, q2, v, g=g: I(z3.ULT(q2, g(s, e)), v == want(q2)), bp, (0, 8), j)))
        return out
    k.ex.loop_cands = cands
    k.cover()
    ret = k.rec("result", MB)
    for o in k.run(r"^PetriEngine::PQL::memberForPlace\(", [ret, p, cx]):
        if o.kind != "ret":
            k.prove(o.st, False, "memberForPlace: does not throw")
            continue
        st = o.st
        k.prove(st, F.con(st, ret) == z64(m0), "memberForPlace: the constant is the initial token count")
        k.prove(st, I(z3.ULT(j, z64(nT)), F.co(st, ret, j) == want(j)), "memberForPlace: coefficient of a transition is its effect on the place")
        k.prove(st, I(z3.UGE(j, z64(nT)), F.co(st, ret, j) == 0), "memberForPlace: no coefficients beyond the transitions")
