"""PushNegation: the result of a visit means what the visited formula means (negated when asked).

Meaning: a formula object id has a meaning DEN(id), a set of states (or path positions).  Boolean connectives are exact
set operations; temporal operators are uninterpreted apart from the laws listed in LAWS (each a theorem about maximal paths,
listed there by name and assumed).  Recursive visits, construction and dynamic casts are handled by contract."""
from pqlmodel import *

S = z3.DeclareSort("StateOrPosition")
D = z3.DeclareSort("Meaning")
AT = z3.Function("holds_at", D, S, z3.BoolSort())
DEN = z3.Function("meaning", B64, D)
KIND = z3.Function("class_of", B64, z3.IntSort())
EV = z3.Function("value_at", B64, S, B64)
FN = {n: z3.Function(n, D, D) for n in "EF AF EX X F E NOT control".split()}
FN.update({n: z3.Function(n, D, D, D) for n in "EU AU U OR AND".split()})
INIT = z3.Function("on_initial_paths", D, D)      # restriction to the paths that start in the initial marking
FN["EP"] = z3.Function("exists_path", B64, D, D)
FN["SEL"] = z3.Function("select_path", B64, D, D)
DEAD, TOP, BOT = (z3.Const(n, D) for n in ("deadlocked", "true", "false"))
ND = FN["NOT"](DEAD)
I = z3.Implies


class Meanings:
    """Ground instances of the laws of the logic, for the terms a path mentions.  Boolean operators are pointwise; EG, AG, AX, G, A and
    the universal path quantifier are defined as duals; the temporal laws are assumed and named beside each use."""
    def __init__(self, points):
        self.points = points
        self.gen = 0        # terms that instances of the laws introduce are of a later generation

    def later(self, f):
        self.gen += 1
        try:
            return f()
        finally:
            self.gen -= 1

    def __call__(self, st, op, *a):
        if op in ("EG", "AG", "AX", "G", "A"):
            d = {"EG": "AF", "AG": "EF", "AX": "EX", "G": "F", "A": "E"}[op]
            return self(st, "NOT", self(st, d, self(st, "NOT", a[0])))
        if op == "ALLP":
            return self(st, "NOT", self(st, "EP", a[0], self(st, "NOT", a[1])))
        if op == "NOT" and a[0].decl().eq(FN["NOT"]):
            return a[0].arg(0)
        t = FN[op](*a)
        reg = st.ghost.get("terms", {})
        g = self.gen
        me = t.get_id()
        if me in reg and reg[me][3] <= g:
            return t
        vc._keep.append(t)
        st.ghost["terms"] = dict(reg)
        st.ghost["terms"][me] = (op, a, t, g)
        self.later(lambda: self.alone(st, op, a, t))
        for o2, a2, t2, g2 in list(reg.values()):
            if g + g2 <= 1 and t2.get_id() != me:
                self.later(lambda: self.pair(st, op, a, t, o2, a2, t2))
                self.later(lambda: self.pair(st, o2, a2, t2, op, a, t))
        return t

    def alone(self, st, op, a, t):
        A = st.assume
        if op in ("NOT", "OR", "AND"):
            for s in self.points:
                v = [AT(x, s) for x in a]
                A(AT(t, s) == (z3.Not(v[0]) if op == "NOT" else z3.Or(v) if op == "OR" else z3.And(v)))
        x = a[-1]
        if op == "NOT":
            A([I(x == TOP, t == BOT), I(x == BOT, t == TOP)])
        elif op in ("OR", "AND"):
            u, zr = (BOT, TOP) if op == "OR" else (TOP, BOT)
            for p, q in (a, a[::-1]):
                A([I(p == u, t == q), I(p == zr, t == zr)])
            A(I(a[0] == a[1], t == a[0]))
        elif op in ("EF", "AF", "EU", "AU"):
            A([I(x == ND, t == ND), I(x == BOT, t == BOT)])            # ef_nd af_nd eu_nd au_nd, *_bot
            if op in ("EU", "AU"):
                A(I(a[0] == DEAD, t == x))                              # eu_dead au_dead
                A(I(a[0] == ND, t == self(st, "EF" if op == "EU" else "AF", x)))   # eu_nd1 au_nd1
        elif op == "EX":
            A([I(x == BOT, t == BOT), I(x == TOP, t == ND)])           # ex_bot ex_top
        elif op == "X":
            A([I(x == BOT, t == BOT), I(x == TOP, t == TOP)])          # x_bot x_top
        elif op in ("F", "U"):
            A(I(x == BOT, t == BOT))                                    # f_bot u_bot

    def pair(self, st, op, a, t, op2, a2, t2):
        """op applied to a term that equals op2(a2)"""
        x = a[-1]
        A = st.assume
        if op == "NOT" and op2 == "NOT":
            A(I(x == t2, t == a2[0]))
        elif op == "E" and op2 == "E":
            A(I(INIT(a[0]) == INIT(a2[0]), AT(t, self.points[1]) == AT(t2, self.points[1])))     # a quantifier looks at the paths that start here
        elif op == "EP" and op2 == "EP":
            A(I(z3.And(a[0] == a2[0], INIT(a[1]) == INIT(a2[1])), AT(t, self.points[1]) == AT(t2, self.points[1])))
        elif (op, op2) in (("EF", "EF"), ("AF", "AF"), ("AF", "EF"), ("EU", "EF"), ("AU", "EF"), ("AU", "AF"), ("F", "F"), ("U", "F")):
            A(I(x == t2, t == t2))                                      # ef_ef af_af af_ef eu_ef au_ef au_af f_f u_f
        elif (op, op2) in (("EF", "AF"), ("EF", "EU"), ("EF", "AU"), ("AF", "AU"), ("F", "U")):
            A(I(x == t2, t == self(st, op, a2[-1])))                    # ef_af ef_eu ef_au af_au f_u
        elif op in ("EF", "F") and op2 == "OR":
            A(I(x == t2, t == self(st, "OR", self(st, op, a2[0]), self(st, op, a2[1]))))      # ef_or f_or
        elif op in ("AF", "AU", "EU") and op2 == "OR":
            for p, q in (a2, a2[::-1]):                                 # af_or_ef au_or_ef eu_or_ef
                A(I(z3.And(x == t2, q == self(st, "EF", q)), t == self(st, "OR", self(st, op, *a[:-1], p), q)))
        elif op == "X" and op2 == "NOT" and a2[0].decl().name() != "X":
            A(I(x == t2, t == self(st, "NOT", self(st, "X", a2[0]))))    # x_not


ONE = {"EFCondition": "EF", "AFCondition": "AF", "EXCondition": "EX", "AXCondition": "AX", "EGCondition": "EG", "AGCondition": "AG",
       "XCondition": "X", "FCondition": "F", "GCondition": "G", "ACondition": "A", "ECondition": "E", "NotCondition": "NOT", "ControlCondition": "control"}
TWO = {"EUCondition": "EU", "AUCondition": "AU", "UntilCondition": "U"}
CLASSES = list(ONE) + list(TWO) + ["OrCondition", "AndCondition", "DeadlockCondition", "BooleanCondition", "LessThanCondition", "LessThanOrEqualCondition",
                                  "EqualCondition", "NotEqualCondition", "CompareConjunction", "UnfoldedUpperBoundsCondition", "AllPaths", "ExistPath", "PathSelectCondition",
                                  "FireableCondition", "UnfoldedFireableCondition"]
NUM = {c: i for i, c in enumerate(CLASSES)}
CMP = {"LessThanCondition": lambda a, b: a < b, "LessThanOrEqualCondition": lambda a, b: a <= b, "EqualCondition": lambda a, b: a == b, "NotEqualCondition": lambda a, b: a != b}
ORD, ANDD, SZ, EL = z3.Function("some_of", B64, D), z3.Function("all_of", B64, D), z3.Function("length", B64, B64), z3.Function("element", B64, B64, B64)
VW = P + "PushNegationVisitor"


class Push(Pql):
    def __init__(self, k):
        self.k = k
        st = k.st
        self.ctx = k.rec("context", P + "EvaluationContext")
        self.stats = k.rec("stats", "negstat_t") if "negstat_t" in k.m.types else k.rec("stats", P + "negstat_t")
        self.v = k.rec("visitor", VW)
        self.nested, self.negated, self.initrw = k.boolin("nested"), k.boolin("negated"), k.boolin("initrw")
        k.setf(self.v, VW, "_vptr$MutatingVisitor", Ptr("g:" + vtable(VW), 16))
        for f in ("nested", "negated", "initrw"):
            k.setf(self.v, VW, f, getattr(self, f))
        k.setf(self.v, VW, "context", self.ctx)
        k.setf(self.v, VW, "stats", self.stats)
        k.setf(self.v, VW, "return_value", NULLP)
        o, s, t = k.m.path(VW, "return_value")
        k.ex.store_raw(st, self.v.plus(o + 8), 8, NULLP, None)
        self.s0 = z3.Const("initial", S)
        self.g = z3.Const("g", S)
        st.assume(z3.Implies(z3.And(self.initrw, z3.Not(self.nested)), self.g == self.s0))
        self.T = Meanings([self.g, self.s0])
        st.assume([TOP != BOT, DEAD != TOP, AT(TOP, self.g), AT(TOP, self.s0), z3.Not(AT(BOT, self.g)), z3.Not(AT(BOT, self.s0))])
        self.T(st, "NOT", DEAD)
        self.constants()
        self.handlers()

    def constants(self):
        k, st = self.k, self.k.st
        self.consts = {}
        for g, d, kd in (("_ZN11PetriEngine3PQL16BooleanCondition14FALSE_CONSTANTE", BOT, "BooleanCondition"), ("_ZN11PetriEngine3PQL16BooleanCondition13TRUE_CONSTANTE", TOP, "BooleanCondition"),
                         ("_ZN11PetriEngine3PQL17DeadlockCondition8DEADLOCKE", DEAD, "DeadlockCondition")):
            if g not in k.m.globals:
                continue
            c = fresh(g[-14:-1], 64)
            st.assume(z3.UGT(c, BV(4096, 64)))
            st.assume(DEN(c) == d)
            st.assume(KIND(c) == NUM[kd])
            r = Rec("g:" + g, 16)
            r.f[0], r.f[8] = (8, c), (8, NULLP)
            st.mem["g:" + g] = r
            self.consts[g] = c
        st.assume(z3.Distinct(*self.consts.values()))

    # --- meaning of an object in memory, or of an abstract one
    def ident(self, st, p):
        p = self.k.ex.aptr(p)
        return self.k.ex.ptr_bv(st, p)

    def loadptr(self, st, p):
        v = self.k.ex.load_raw(st, self.k.ex.aptr(p), 8, True, None)
        return self.ident(st, v) if isinstance(v, Ptr) else tobv(v, 64)

    def cls_of(self, st, p):
        if isinstance(p.obj, Abs) or p.obj == NULL:
            return None
        v = self.k.ex.load_raw(st, p, 8, True, None)
        if isinstance(v, Ptr) and isinstance(v.obj, str) and v.obj.startswith("g:_ZTV"):
            for c in CLASSES:
                if v.obj == "g:" + vtable(P + c):
                    return c
        return None

    def child(self, st, p, cls, f):
        o, s, t = self.k.m.path(P + cls, f)
        return self.loadptr(st, p.plus(o))

    def meaning(self, st, p):
        c = self.cls_of(st, p)
        if c in ONE:
            return self.T(st, ONE[c], DEN(self.child(st, p, c, "_cond")))
        if c in TWO:
            return self.T(st, TWO[c], DEN(self.child(st, p, c, "_cond1")), DEN(self.child(st, p, c, "_cond2")))
        if c in ("AllPaths", "ExistPath", "PathSelectCondition"):
            o, s, t = self.k.m.path(P + c, "_offset")
            return self.hyper(st, c, tobv(self.k.ex.load_raw(st, p.plus(o), 8, False, None), 64), DEN(self.child(st, p, c, "_child")))
        return DEN(self.ident(st, p))

    def hyper(self, st, c, off, d):
        return self.T(st, {"ExistPath": "EP", "AllPaths": "ALLP"}.get(c, "SEL"), off, d)

    def mk(self, st, cls, d, facts=()):
        r = fresh(cls, 64)
        st.assume(z3.UGT(r, BV(4096, 64)))
        if d is not None:
            st.assume(DEN(r) == d)
        if cls in NUM:
            st.assume(KIND(r) == NUM[cls])
        for f in facts:
            st.assume(f)
        return r

    def put(self, st, out, r):
        self.k.ex.store_raw(st, out, 8, r, None)
        self.k.ex.store_raw(st, out.plus(8), 8, NULLP, None)

    def compare(self, st, cls, a, b, r=None):
        r = self.mk(st, cls, None) if r is None else r
        st.assume(AT(DEN(r), self.g) == CMP[cls](EV(a, self.g), EV(b, self.g)))
        return r

    def known(self, st, idv, cls):
        """facts about an abstract object of a known class"""
        k = self.k
        p = k.ex.bv_ptr(st, idv)
        st.ghost["kind:%d" % idv.get_id()] = cls
        vc._keep.append(idv)
        if cls in ONE or cls in TWO:
            ids = []
            for f in ("_cond",) if cls in ONE else ("_cond1", "_cond2"):
                o, s, t = k.m.path(P + cls, f)
                c = tobv(k.ex.heap_load(st, p.plus(o), 8), 64)
                st.assume(z3.UGT(c, BV(4096, 64)))
                ids.append(DEN(c))
            st.assume(DEN(idv) == self.T(st, ONE.get(cls) or TWO[cls], *ids))
        elif cls in ("OrCondition", "AndCondition"):
            key = "ops:%d" % idv.get_id()
            if key not in st.ghost:
                n = fresh("operands", 64)
                st.assume(z3.ULT(n, BV(1 << 40, 64)))
                a = k.arr("operands of a disjunction", "std::shared_ptr<PetriEngine::PQL::Condition>", n, ro=True, st=st)
                pre = z3.Function("prefix%d" % len(k.ex.obls) + str(idv.get_id()), B64, D)
                op, unit = ("OR", BOT) if cls == "OrCondition" else ("AND", TOP)
                fb = st.mem[a.obj].f[(0, 8)]
                st.mem[a.obj].f[(0, 8)] = FBase(fb.arr, 64, lambda s, i, x: [pre(i + 1) == self.T(s, op, pre(i), DEN(x)), z3.UGT(x, BV(4096, 64))])
                z8 = st.mem[a.obj].f[(8, 8)]
                st.assume(pre(BV(0, 64)) == unit)
                st.assume(DEN(idv) == pre(n))
                st.ghost[key] = (a, n, pre)
                self.lists.append((a, n, pre, cls))

    def special(self, st, cls, a):
        return None

    def handlers(self):
        k = self.k
        self.lists = []

        def visit(ex, st, args, ins):
            p = ex.aptr(args[1])
            dem = ex.m.fns[ins["callee"][1]]["dem"] if ins["callee"][0] == "f" else ""
            if "shared_ptr" in dem.split("(")[-1]:
                p = ex.aptr(ex.bv_ptr(st, self.loadptr(st, p)))
            v = ex.aptr(args[0])
            d = self.meaning(st, p)
            neg = tobv(k.getf(v, VW, "negated", st), 8) != 0
            r = self.mk(st, "normal", None)
            nest = tobv(k.getf(v, VW, "nested", st), 8) != 0
            # contract of a nested visit: same meaning; of an outermost one with initial-marking rewriting: same truth value there
            nd, nr = self.T(st, "NOT", d), self.T(st, "NOT", DEN(r))
            first = z3.And(z3.Not(nest), self.initrw)
            st.assume(I(first, z3.And(AT(DEN(r), self.s0) == z3.Xor(AT(d, self.s0), neg), INIT(DEN(r)) == INIT(z3.If(neg, nd, d)), INIT(nr) == INIT(z3.If(neg, d, nd)))))
            st.assume(I(z3.Not(first), DEN(r) == z3.If(neg, nd, d)))
            o, s, t = k.m.path(VW, "return_value")
            self.put(st, v.plus(o), r)
            return [(st, None)]
        k.ex.contract(r"PQL::Visitor::visit<PetriEngine::PQL::PushNegationVisitor,", visit)

        def make(ex, st, args, ins):
            f = ex.m.fns[ins["callee"][1]]["dem"]
            cls = re.search(r"make_(?:shared|unique)<PetriEngine::PQL::(\w+)", f).group(1)
            out, a = ex.aptr(args[0]), args[1:]
            r = self.special(st, cls, a)
            if r is not None:
                pass
            elif cls in ONE:
                kid = self.loadptr(st, a[0])
                o, s, t = k.m.path(P + cls, "_cond")
                r = self.mk(st, cls, self.T(st, ONE[cls], DEN(kid)))
            elif cls in TWO:
                r = self.mk(st, cls, self.T(st, TWO[cls], *[DEN(self.loadptr(st, q)) for q in a]))
            elif cls in CMP:
                r = self.compare(st, cls, self.loadptr(st, a[0]), self.loadptr(st, a[1]))
            elif cls == "LiteralExpr":
                r = self.mk(st, cls, None)
                vv = ex.load_raw(st, ex.aptr(a[0]), 4, False, None)
                st.assume(EV(r, self.g) == z3.SignExt(32, tobv(vv, 32)))
            elif cls in ("AllPaths", "ExistPath", "PathSelectCondition"):
                off = tobv(ex.load_raw(st, ex.aptr(a[2]), 8, False, None), 64)
                r = self.mk(st, cls, self.hyper(st, cls, off, DEN(self.loadptr(st, a[1]))))
            elif cls == "CompareConjunction" and len(a) == 2:
                src = self.meaning(st, ex.aptr(a[0]))
                neg = tobv(ex.load_raw(st, ex.aptr(a[1]), 1, False, None), 8) != 0
                r = self.mk(st, cls, z3.If(neg, self.T(st, "NOT", src), src))
            elif cls in ("FireableCondition", "UnfoldedFireableCondition"):
                r = self.mk(st, cls, self.fireable(st, self.loadptr(st, a[0])))
            elif cls == "UnfoldedUpperBoundsCondition":
                r = self.mk(st, cls, None)
            else:
                raise Unsupported("construction of " + cls)
            self.put(st, out, r) if "make_shared" in f else ex.store_raw(st, out, 8, r, None)
            return [(st, None)]
        k.ex.contract(r"std::make_(shared|unique)<PetriEngine::PQL::", make)
        k.ex.contract(r"^std::unique_ptr<PetriEngine::PQL::\w+.*::~unique_ptr\(\)$", lambda ex, st, a, i: [(st, None)])

        def uniq2shared(ex, st, args, ins):
            out = ex.aptr(args[0])
            self.put(st, out, self.loadptr(st, args[1]))
            return [(st, None)]
        k.ex.contract(r"^std::shared_ptr<PetriEngine::PQL::Condition>::shared_ptr<.*>\(std::unique_ptr<", uniq2shared)

        def dcast(ex, st, args, ins):
            p = ex.aptr(args[0])
            ti = args[2]
            nm = ti.obj if isinstance(ti, Ptr) else str(ti)
            cls = [c for c in CLASSES if str(nm).endswith("N11PetriEngine3PQL%d%sE" % (len(c), c))]
            if p.obj == NULL:
                return [(st, NULLP)]
            own = self.cls_of(st, p)
            if own and cls:
                return [(st, p if own == cls[0] else NULLP)]
            i = ex.ptr_bv(st, p)
            isit = KIND(i) == NUM[cls[0]] if cls else freshb("is_" + str(nm))
            s2 = st.copy()
            outs = []
            if ex.mode == "discover" or ex.sp.feasible(st.pc, isit):
                st.assume(isit)
                if cls:
                    self.known(st, i, cls[0])
                outs.append((st, p))
            if ex.mode == "discover" or ex.sp.feasible(s2.pc, z3.Not(isit)):
                s2.assume(z3.Not(isit))
                outs.append((s2, NULLP))
            return outs
        k.ex.contract(r"^__dynamic_cast", dcast)

        def hook(ex, st, p, sz, isptr):
            if not isinstance(p.obj, Abs) or sz != 8:
                return None
            cls = st.ghost.get("kind:%d" % p.obj.h.get_id())
            c = p.off.const()
            if cls and c == 0:
                return Ptr("g:" + vtable(P + cls), 16)
            ops = st.ghost.get("ops:%d" % p.obj.h.get_id())
            if ops:
                o, s, t = k.m.path(P + cls, "_conds")
                if c == o:
                    return ops[0]
                if c in (o + 8, o + 16):
                    return ops[0].plus(Lin.of(ops[1]).scale(16))
            return None
        k.ex.load_hook = hook

        def indirect(ex, st, v, args, ins):
            """a virtual question to an object of unknown class: the answer is arbitrary"""
            t = ins["ty"]
            slot = self.slot(v)
            if t == "i1" and slot is not None and slot == self.placefree_slot():
                i = self.ident(st, args[0])
                b = z3.Function("place_free", B64, z3.BoolSort())(i)
                st.assume(z3.Implies(b, EV(i, self.g) == EV(i, self.s0)))
                return [(st, b)]
            if t == "ptr":
                c = fresh("cell", 64)
                st.assume(z3.UGT(c, BV(4096, 64)))
                return [(st, ex.bv_ptr(st, c))]
            if t == "void":
                return None
            return [(st, ex.fresh_of(t, "answer"))]
        k.ex.indirect = indirect

        k.ex.contract(r"^PetriEngine::PQL::Condition::~Condition\(\)$", lambda ex, st, a, i: [(st, None)])
        k.ex.contract(r"basic_string<.*::(basic_string|~basic_string|operator=)\(", lambda ex, st, a, i: [(st, None)])
        ANY = lambda ex, st, a, i: [(st, ex.fresh_of(i["ty"], "any"))]
        k.ex.contract(r"PetriEngine::PQL::isTemporal\(", ANY)

        def triv(which):
            def h(ex, st, args, ins):
                b = freshb("trivially")
                st.assume(z3.Implies(b, DEN(self.ident(st, args[0])) == which))
                return [(st, b)]
            return h
        k.ex.contract(r"PQL::Condition::isTriviallyTrue\(\)", triv(TOP))
        k.ex.contract(r"PQL::Condition::isTriviallyFalse\(\)", triv(BOT))

        def evalc(ex, st, args, ins):
            p = ex.aptr(args[0])
            e = fresh("evaluated", 32)
            d = self.meaning(st, p)
            st.assume(z3.Or(e == RU, e == RT, e == RF))
            st.assume(z3.Implies(e == RT, AT(d, self.s0)))
            st.assume(z3.Implies(e == RF, z3.Not(AT(d, self.s0))))
            if self.cls_of(st, p) in CMP:
                st.assume(e != RU)
            return [(st, e)]
        k.ex.contract(r"PQL::evaluate\(PetriEngine::PQL::Condition\*", evalc)

        def evale(ex, st, args, ins):
            i = self.ident(st, args[0])
            v = fresh("value", 64)
            st.assume(v == EV(i, self.s0))
            return [(st, v)]
        k.ex.contract(r"PQL::evaluate\(PetriEngine::PQL::Expr\*", evale)

        def trivial(ex, st, args, ins):
            """comparisons without places, or with identical sides, have one truth value"""
            d = self.meaning(st, ex.aptr(args[0]))
            b = freshb("trivial")
            st.assume(z3.Implies(b, AT(d, self.g) == AT(d, self.s0)))
            return [(st, b)]
        k.ex.contract(r"CompareCondition::isTrivial\(\)", trivial)

        def canneg(ex, st, args, ins):
            v = ex.aptr(args[0])
            i = self.ident(st, args[1])
            b = freshb("maynegative")
            st.assume(z3.Implies(z3.Not(b), EV(i, self.g) >= 0))
            k.setf(v, P + "CanBeNegativeVisitor", "result", z3.Or(b, tobv(k.getf(v, P + "CanBeNegativeVisitor", "result", st), 8) != 0), st)
            return [(st, None)]
        k.ex.contract(r"PQL::Visitor::visit<PetriEngine::PQL::CanBeNegativeVisitor,", canneg)
        k.ex.contract(r"CanBeNegativeVisitor::CanBeNegativeVisitor\(\)", lambda ex, st, a, i: (k.setf(ex.aptr(a[0]), P + "CanBeNegativeVisitor", "result", BV(0, 8), st), [(st, None)])[1])

        # --- local lists of formulas
        V = r"std::vector<std::shared_ptr<PetriEngine::PQL::Condition>, std::allocator<std::shared_ptr<PetriEngine::PQL::Condition> ?> ?>::"

        def setv(st, p, i):
            ex = k.ex
            ex.store_raw(st, p, 8, i, None)
            ex.store_raw(st, p.plus(8), 8, BV(0, 64), None)
            ex.store_raw(st, p.plus(16), 8, BV(0, 64), None)

        def vctor(ex, st, args, ins):
            i = fresh("list", 64)
            st.assume([ORD(i) == BOT, ANDD(i) == TOP, SZ(i) == 0, z3.UGT(i, BV(4096, 64))])
            setv(st, ex.aptr(args[0]), i)
            return [(st, None)]
        k.ex.contract(V + r"vector\(\)$", vctor)

        def vpush(ex, st, args, ins):
            p = ex.aptr(args[0])
            i = tobv(ex.load_raw(st, p, 8, False, None), 64)
            e = self.loadptr(st, args[1])
            j = fresh("list", 64)
            st.assume([ORD(j) == self.T(st, "OR", ORD(i), DEN(e)), ANDD(j) == self.T(st, "AND", ANDD(i), DEN(e)), SZ(j) == SZ(i) + 1, z3.UGT(j, BV(4096, 64)), EL(j, BV(0, 64)) == z3.If(SZ(i) == 0, e, EL(i, BV(0, 64))),
                       z3.ULT(SZ(i), BV(1 << 40, 64)), self.first(j)])
            # regrouping of a disjunction: (a | b) | e  =  (a | e) | b  =  a | (b | e)
            for oid, r in list(st.mem.items()):
                if isinstance(r, Rec) and r.size == 24 and oid != p.obj and 0 in r.f and 8 in r.f and r.f[0][0] == 8 and not isinstance(r.f[0][1], Ptr):
                    m = ORD(tobv(r.f[0][1], 64))
                    for u, w in ((ORD(i), m), (m, ORD(i))):
                        def regroup():
                            whole = self.T(st, "OR", self.T(st, "OR", u, w), DEN(e))
                            st.assume([whole == self.T(st, "OR", self.T(st, "OR", u, DEN(e)), w), whole == self.T(st, "OR", u, self.T(st, "OR", w, DEN(e)))])
                        self.T.later(regroup)
            setv(st, p, j)
            return [(st, ex.bv_ptr(st, j) if ins["ty"] == "ptr" else None)]
        k.ex.contract(V + r"(push_back|emplace_back)", vpush)
        k.ex.contract(V + r"~vector\(\)$", lambda ex, st, a, i: [(st, None)])

        def vsize(ex, st, args, ins):
            i = self.listid(st, args[0])
            return [(st, SZ(i))] if i is not None else NotImplemented
        k.ex.contract(V + r"size\(\) const$", vsize)

        def vempty(ex, st, args, ins):
            i = self.listid(st, args[0])
            return [(st, SZ(i) == 0)] if i is not None else NotImplemented
        k.ex.contract(V + r"empty\(\) const$", vempty)

        def vat(ex, st, args, ins):
            i = self.listid(st, args[0])
            if i is None:
                return NotImplemented
            q = tobv(args[1], 64)
            ex.prove(st, z3.ULT(q, SZ(i)), "list index in range at line %s" % ins.get("ln"), "safety")
            c = ex.new_rec(st, "cell", 16)
            ex.store_raw(st, c, 8, EL(i, q), None)
            ex.store_raw(st, c.plus(8), 8, NULLP, None)
            st.assume(z3.UGT(EL(i, q), BV(4096, 64)))
            st.assume(self.first(i))
            return [(st, c)]
        k.ex.contract(V + r"operator\[\]\(", vat)

        def mklog(which):
            def h(ex, st, args, ins):
                i = self.listid(st, args[1])
                if i is None:
                    return NotImplemented
                self.put(st, ex.aptr(args[0]), self.mk(st, "combined", which(i)))
                return [(st, None)]
            return h
        k.ex.contract(r"PetriEngine::PQL::makeOr\(std::vector", mklog(ORD))
        k.ex.contract(r"PetriEngine::PQL::makeAnd\(std::vector", mklog(ANDD))

    @staticmethod
    def first(i):
        e = DEN(EL(i, BV(0, 64)))
        return z3.And(z3.Implies(SZ(i) == 1, z3.And(ORD(i) == e, ANDD(i) == e)), z3.Implies(SZ(i) == 0, z3.And(ORD(i) == BOT, ANDD(i) == TOP)))

    def listid(self, st, p):
        p = self.k.ex.aptr(p)
        v = self.k.ex.load_raw(st, p, 8, True, None)
        if isinstance(v, Ptr) and not isinstance(v.obj, Abs):
            return None
        i = self.ident(st, v) if isinstance(v, Ptr) else tobv(v, 64)
        return i

    def fireable(self, st, name):
        return z3.Function("fireable", B64, D)(name)

    def slot(self, v):
        if not (isinstance(v, Ptr) and isinstance(v.obj, Abs)):
            return None
        m = re.match(r"heap_(\d+)_8", v.obj.h.decl().name())
        return int(m.group(1)) if m else None

    def placefree_slot(self):
        g = self.k.ex.global_obj(vtable(P + "PlusExpr"))
        for o, (sz, v) in g.f.items():
            if isinstance(v, FnPtr) and "placeFree" in v.name:
                return o - 16
        return None

    def run(self, el, cls):
        k = self.k
        k.under.append("PetriEngine::PQL::PushNegationVisitor::_accept(PetriEngine::PQL::%s*)" % cls)
        return k.run(r"^void PetriEngine::PQL::Visitor::visit<PetriEngine::PQL::PushNegationVisitor, PetriEngine::PQL::Condition>\(PetriEngine::PQL::PushNegationVisitor\*, PetriEngine::PQL::Condition\*\)$", [self.v, el])

    def post(self, outs, d, cls):
        k = self.k
        for o in outs:
            if o.kind != "ret":
                k.prove(o.st, False, "%s: does not throw" % cls)
                continue
            r = self.loadptr(o.st, self.v.plus(k.m.path(VW, "return_value")[0]))
            k.prove(o.st, AT(DEN(r), self.g) == z3.Xor(AT(d, self.g), self.negated), "%s: the result means the same (negated when asked)" % cls)
            k.prove(o.st, z3.UGT(r, BV(4096, 64)), "%s: there is a result" % cls)


def simple(cls, tier="quick"):
    def c(k):
        q = Push(k)
        el = q.obj(cls)
        fs = ("_cond",) if cls in ONE else ("_cond1", "_cond2")
        ids = [DEN(q.shared(el, cls, f, f)) for f in fs]
        k.cover()
        q.cands = listcands(k, q)
        d = q.T(k.st, ONE.get(cls) or TWO[cls], *ids)
        q.post(q.run(el, cls), d, cls)
    c.__name__ = cls
    contract("C06", "pql.cpp", tier=tier)(c)


def listcands(k, q):
    """loop invariants: what the local lists built so far mean together"""
    T = q.T

    def cands(ex, st, lv):
        out = []
        lists = [oid for oid, r in st.mem.items() if isinstance(r, Rec) and r.size == 24 and 0 in r.f and 8 in r.f and r.f[8][0] == 8]

        def lid(oid):
            return lambda s: tobv(s.mem[oid].f[0][1], 64) if 0 in s.mem[oid].f else fresh("none", 64)
        for oid in lists:
            L = lid(oid)
            out.append(("list %s proper" % oid, lambda s, e, L=L: z3.And(z3.ULT(SZ(L(s)), BV(1 << 40, 64)), z3.UGT(L(s), BV(4096, 64)), q.first(L(s)))))
            out.append(("list %s empty" % oid, lambda s, e, L=L: SZ(L(s)) == 0))
            out.append(("list %s has EF elements" % oid, lambda s, e, L=L: T(s, "EF", ORD(L(s))) == ORD(L(s))))
        for a, n, pre, cls in q.lists + getattr(q, "extra", []):
            if a.obj not in st.mem:
                continue
            for i, ix in lv.idx(st, a):
                out.append(("%s<=n" % i, lambda s, e, ix=ix: z3.ULE(ix(s, e), n)))
                P_ = lambda s, e, ix=ix: pre(ix(s, e))
                for oid in lists:
                    L = lid(oid)
                    out.append(("list %s length" % oid, lambda s, e, L=L, ix=ix: z3.ULE(SZ(L(s)), ix(s, e))))
                    for op in ("EF", "F"):
                        out.append(("list %s is %s" % (oid, op), lambda s, e, L=L, P_=P_, op=op: AT(ORD(L(s)), q.g) == AT(T(s, op, P_(s, e)), q.g)))
                    for oid2 in lists:
                        if oid2 == oid:
                            continue
                        M = lid(oid2)
                        out.append(("%s or %s" % (oid, oid2), lambda s, e, L=L, M=M, P_=P_: T(s, "OR", ORD(L(s)), ORD(M(s))) == P_(s, e)))
                        if cls != "AndCondition":
                            out.append(("%s or EF %s" % (oid, oid2), lambda s, e, L=L, M=M, P_=P_: z3.Or(AT(ORD(L(s)), q.g), AT(T(s, "EF", ORD(M(s))), q.g)) == AT(P_(s, e), q.g)))
                        if cls != "OrCondition":
                            out.append(("%s and not EF %s" % (oid, oid2), lambda s, e, L=L, M=M, P_=P_: z3.And(AT(ANDD(L(s)), q.g), z3.Not(AT(T(s, "EF", ORD(M(s))), q.g))) == AT(P_(s, e), q.g)))
        return out
    k.ex.loop_cands = cands


for _c in list(ONE) + list(TWO):
    if _c != "ControlCondition":
        simple(_c)


def both_ways(fn):
    def c(k):
        """pushAnd / pushOr over a list of operands, negating them first when asked"""
        q = Push(k)
        k.st.assume(z3.Not(q.initrw)) if False else None
        n = k.u64("number of operands")
        k.st.assume(z3.ULT(n, BV(1 << 40, 64)))
        a = k.arr("operands", "std::shared_ptr<PetriEngine::PQL::Condition>", n, ro=True)
        ids = k.st.mem[a.obj].f[(0, 8)].arr
        vec = k.ex.new_rec(k.st, "operand list", 24)
        k.setvec(vec, "", None, a, n)
        neg, nest = k.boolin("negate operands"), k.boolin("nested operands")
        pre = z3.Function("prefix", B64, D)
        g = q.g
        # outermost calls with initial-marking rewriting are judged in the initial marking
        k.st.assume(I(z3.And(q.initrw, z3.Not(nest)), g == q.s0))
        conj = fn == "pushAnd"
        whole = pre(n)
        k.st.assume(AT(pre(BV(0, 64)), g) == z3.BoolVal(conj))

        def step(s, i, x):
            d = z3.Xor(AT(DEN(x), g), neg)
            return [AT(pre(i + 1), g) == (z3.And if conj else z3.Or)(AT(pre(i), g), d),
                    I(z3.ULT(i, n), I(z3.Not(d), z3.Not(AT(whole, g))) if conj else I(d, AT(whole, g))), z3.UGT(x, BV(4096, 64))]
        k.st.mem[a.obj].f[(0, 8)] = FBase(ids, 64, step)
        k.cover()
        q.extra = [(a, n, pre, "AndCondition" if conj else "OrCondition")]
        listcands(k, q)
        out = k.ex.new_rec(k.st, "result", 16)
        for o in k.run(VW + r"::%s\(" % fn, [out, q.v, vec, neg_arg(nest), neg_arg(neg)]):
            if o.kind != "ret":
                k.prove(o.st, False, "%s: does not throw" % fn)
                continue
            r = q.loadptr(o.st, out)
            k.prove(o.st, AT(DEN(r), g) == AT(whole, g), "%s: the result means the %s of the operands" % (fn, "conjunction" if conj else "disjunction"))
            k.prove(o.st, z3.UGT(r, BV(4096, 64)), "%s: there is a result" % fn)
    c.__name__ = fn
    contract("C06", "pql.cpp", budget=400)(c)


def neg_arg(b):
    return b


both_ways("pushAnd")
both_ways("pushOr")


def junction(cls):
    def c(k):
        """a conjunction / disjunction, given the contracts of pushAnd and pushOr"""
        q = Push(k)
        el = q.obj(cls)
        arr, n, ids = q.children(el, cls, "_conds", "Condition", "operands")
        ALL, SOME = (z3.Function(x, B64, z3.BoolSort(), z3.BoolSort()) for x in ("all_hold", "some_holds"))   # of the list (optionally negated), at g
        L = q.ident(k.st, arr)
        k.st.assume([ALL(L, True) == z3.Not(SOME(L, False)), SOME(L, True) == z3.Not(ALL(L, False))])          # De Morgan

        def h(fn, F):
            def f(ex, st, args, ins):
                out, v, vec, nest, neg = args
                vv = ex.load_raw(st, ex.aptr(vec), 8, True, None)
                l = q.ident(st, vv) if isinstance(vv, Ptr) else tobv(vv, 64)
                en = ex.load_raw(st, ex.aptr(vec).plus(8), 8, True, None)
                l2 = q.ident(st, en) if isinstance(en, Ptr) else tobv(en, 64)
                ex.prove(st, z3.And(l == L, l2 == L + 16 * n), "%s gets all operands" % fn)
                nestb = tobool(nest)
                ex.prove(st, I(z3.And(q.initrw, z3.Not(nestb)), q.g == q.s0), "%s: operands visited as outermost only in an outermost formula" % fn)
                r = q.mk(st, "combined", None)
                st.assume(AT(DEN(r), q.g) == F(l, tobool(neg)))
                q.put(st, ex.aptr(out), r)
                return [(st, None)]
            k.ex.contract(r"PushNegationVisitor::%s\(" % fn, f)
        h("pushAnd", ALL)
        h("pushOr", SOME)
        me = DEN(q.ident(k.st, el))
        k.st.assume(AT(me, q.g) == (ALL if cls == "AndCondition" else SOME)(L, False))
        k.cover()
        q.post(q.run(el, cls), me, cls)
    c.__name__ = cls
    contract("C06", "pql.cpp")(c)


junction("AndCondition")
junction("OrCondition")


def fresh_d(n):
    return z3.Const(n, D)




def compare_case(cls):
    def c(k):
        q = Push(k)
        el = q.obj(cls)
        a, b = q.shared(el, cls, "_expr1", "left"), q.shared(el, cls, "_expr2", "right")
        me = q.ident(k.st, el)
        for s in (q.g, q.s0):
            k.st.assume(AT(DEN(me), s) == CMP[cls](EV(a, s), EV(b, s)))
        k.cover()
        q.post(q.run(el, cls), DEN(me), cls)
    c.__name__ = cls
    contract("C06", "pql.cpp")(c)


for _c in CMP:
    compare_case(_c)


@contract("C06", "pql.cpp")
def BooleanCondition(k):
    q = Push(k)
    el = q.obj("BooleanCondition")
    v = k.boolin("value")
    k.setf(el, P + "BooleanCondition", "value", v)
    me = DEN(q.ident(k.st, el))
    k.st.assume(me == z3.If(v, TOP, BOT))
    k.cover()
    q.post(q.run(el, "BooleanCondition"), me, "BooleanCondition")


@contract("C06", "pql.cpp")
def DeadlockCondition(k):
    q = Push(k)
    el = q.obj("DeadlockCondition")
    k.st.assume(DEN(q.ident(k.st, el)) == DEAD)
    k.cover()
    q.post(q.run(el, "DeadlockCondition"), DEAD, "DeadlockCondition")


@contract("C06", "pql.cpp")
def CompareConjunction(k):
    q = Push(k)
    el = q.obj("CompareConjunction")
    k.cover()
    q.post(q.run(el, "CompareConjunction"), DEN(q.ident(k.st, el)), "CompareConjunction")


def hyper_case(cls):
    def c(k):
        q = Push(k)
        el = q.obj(cls)
        d = DEN(q.shared(el, cls, "_child", "child"))
        off = k.u64("instance")
        k.setf(el, P + cls, "_offset", off)
        k.cover()
        me = q.hyper(k.st, cls, off, d)
        if cls == "PathSelectCondition":
            # selecting an instance commutes with negation, and only looks at that instance
            k.st.assume(q.T(k.st, "SEL", off, q.T(k.st, "NOT", d)) == q.T(k.st, "NOT", me))
        q.post(q.run(el, cls), me, cls)
    c.__name__ = cls
    contract("C06", "pql.cpp")(c)


for _c in ("AllPaths", "ExistPath"):
    hyper_case(_c)


@contract("C06", "pql.cpp")
def pushNegation_entry(k):
    """the public entry point hands over its arguments and returns what the visit produced"""
    q = Push(k)
    c = fresh("formula", 64)
    k.st.assume(z3.UGT(c, BV(4096, 64)))
    sp = k.ex.new_rec(k.st, "formula pointer", 16)
    q.put(k.st, sp, c)
    out = k.ex.new_rec(k.st, "result", 16)
    k.cover()
    fn = r"^PetriEngine::PQL::pushNegation\(std::shared_ptr<PetriEngine::PQL::Condition>, PetriEngine::PQL::negstat_t&|^PetriEngine::PQL::pushNegation\(std::shared_ptr<PetriEngine::PQL::Condition>, negstat_t&"
    for o in k.run(fn, [out, sp, q.stats, q.ctx, q.nested, q.negated, q.initrw]):
        if o.kind != "ret":
            k.prove(o.st, False, "does not throw")
            continue
        r = q.loadptr(o.st, out)
        k.prove(o.st, AT(DEN(r), q.g) == z3.Xor(AT(DEN(c), q.g), q.negated), "the returned formula means the same (negated when asked)")


# ------------------------------------------------------------------------------------------------
# CanBeNegativeVisitor: "no" is only answered for expressions without negative values.  NN(e): e has no negative value in any marking
NN = z3.Function("never_negative", B64, z3.BoolSort())


def negative_case(tname):
    def c(k):
        q = Pql(k)
        el = q.obj(tname)
        C = P + "CanBeNegativeVisitor"
        v = k.rec("visitor", C)
        k.ex.store_raw(k.st, v, 8, Ptr("g:" + vtable(C), 16), None)
        old = k.boolin("already found")
        k.setf(v, C, "result", old)
        res = lambda st: tobv(k.getf(v, C, "result", st), 8) != 0

        def visit(ex, st, args, ins):
            i = q.child_id(ex, st, args, ins)
            b = freshb("maybe negative")
            st.assume(z3.Implies(z3.Not(b), NN(i)))
            k.setf(v, C, "result", z3.Or(b, res(st)), st)
            return [(st, None)]
        k.ex.contract(r"PQL::Visitor::visit<PetriEngine::PQL::(CanBeNegative|Base|Expression|)Visitor,", visit)
        j = k.u64("an operand")
        good = z3.BoolVal(False)             # minus, subtraction: nothing is known
        if tname == "LiteralExpr":
            x = k.u64("value")
            k.setf(el, P + tname, "_value", x)
            good = x >= 0
        elif tname in ("PlusExpr", "MultiplyExpr"):
            arr, n, ids = q.children(el, tname, "_exprs", "Expr", "operands")
            cst = k.u64("constant")
            k.setf(el, P + tname, "_constant", cst)
            np_ = k.u64("number of places")
            k.st.assume(z3.ULT(np_, BV(1 << 40, 64)))
            ty = [t for t in k.m.types if t.startswith("std::pair<unsigned int, std::shared_ptr<const std::__cxx11::basic_string")][0]
            k.setvec(el, P + tname, "_ids", k.arr("places", ty, np_, ro=True), np_)
            good = z3.And(cst >= 0, z3.Implies(z3.ULT(j, n), NN(ids(j))))

            def cands(ex, st, lv):
                out = []
                for i, ix in list(lv.idx(st, arr)) + [(i, (lambda s, e, g=g: z64(g(s, e)))) for i, g in lv.ints(st)]:
                    out.append(("%s<=n" % i, lambda s, e, ix=ix: z3.ULE(ix(s, e), n)))
                    out.append(("never negative before %s" % i, lambda s, e, ix=ix: z3.Or(res(s), z3.Implies(z3.ULT(j, ix(s, e)), NN(ids(j))))))
                return out
            k.ex.loop_cands = cands
        elif tname in ("UnfoldedIdentifierExpr",):
            good = z3.BoolVal(True)
        elif tname == "MinusExpr":
            q.shared(el, tname, "_expr", "operand")
        elif tname == "SubtractExpr":
            q.children(el, tname, "_exprs", "Expr", "operands")
        elif tname == "IdentifierExpr":
            i = q.shared(el, tname, "_compiled", "what it is bound to")
            good = NN(i)
        k.cover()
        k.under.append("PetriEngine::PQL::CanBeNegativeVisitor::_accept (%s)" % tname)
        for o in k.run(r"^void PetriEngine::PQL::Visitor::visit<PetriEngine::PQL::CanBeNegativeVisitor, PetriEngine::PQL::Expr>\(PetriEngine::PQL::CanBeNegativeVisitor\*, PetriEngine::PQL::Expr\*\)$", [v, el]):
            if o.kind != "ret":
                k.prove(o.st, False, "%s: does not throw" % tname)
                continue
            k.prove(o.st, z3.Or(res(o.st), good), "%s: 'never negative' is only answered when nothing in it is negative" % tname)
            k.prove(o.st, z3.Implies(old, res(o.st)), "%s: what was found earlier is kept" % tname)
    c.__name__ = "maybe_negative_" + tname
    contract("C06", "pql.cpp")(c)


for _t in ("LiteralExpr", "PlusExpr", "MultiplyExpr", "SubtractExpr", "MinusExpr", "UnfoldedIdentifierExpr", "IdentifierExpr"):
    negative_case(_t)
