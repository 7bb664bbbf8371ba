"""Symbolic PQL objects: a node of the formula tree with abstract children, visitors with an evaluation context."""
from frame import *

P = "PetriEngine::PQL::"
RU, RF, RT = 0xffffffff, 0, 1
B64, B32 = z3.BitVecSort(64), z3.BitVecSort(32)
VAL = z3.Function("val", B64, B64, B64)          # value of the expression object in the marking (under an instance offset)
KV = z3.Function("verdict", B64, B32)            # what visiting the condition object returns
TA = z3.Function("holds", B64, z3.BoolSort())    # the condition holds (path formulas: on every path) in the state
FA = z3.Function("fails", B64, z3.BoolSort())    # the condition fails (path formulas: on every path) in the state
TEMPORAL_FREE = z3.Function("state_predicate", B64, z3.BoolSort())


def vtable(tname):
    parts = tname.split("::")
    return "_ZTVN" + "".join("%d%s" % (len(x), x) for x in parts) + "E"


class Pql:
    def __init__(self, k):
        self.k = k
        st = k.st
        self.nP = k.u64("marking length")
        st.assume(z3.ULT(self.nP, BV(1 << 40, 64)))
        self.marking = k.arr("marking", "unsigned int", self.nP, ro=True)
        self.ctx = k.rec("context", P + "EvaluationContext")
        k.setf(self.ctx, P + "EvaluationContext", "_marking", self.marking)
        k.setf(self.ctx, P + "EvaluationContext", "_offset", BV(0, 64))
        self.seen = []

    def obj(self, tname, name="el", vt=None):
        k = self.k
        r = k.rec(name, P + tname)
        g = vtable(P + (vt or tname))
        if g not in k.m.globals or "init" not in k.m.globals[g]:
            raise Unsupported("no vtable of %s" % tname)
        k.setf(r, P + tname, "_vptr$Condition" if self.is_cond(tname) else "_vptr$Expr", Ptr("g:" + g, 16))
        return r

    def is_cond(self, tname):
        try:
            self.k.m.path(P + tname, "_vptr$Condition")
            return True
        except Unsupported:
            return False

    def shared(self, p, tname, fld, name):
        """shared_ptr member -> an abstract, non-null child; -> its identity"""
        k = self.k
        o, s, ty = k.m.path(P + tname, fld)
        c = fresh(name, 64)
        k.st.assume(z3.UGT(c, BV(4096, 64)))
        k.ex.store_raw(k.st, p.plus(o), 8, c, None)
        k.ex.store_raw(k.st, p.plus(o + 8), 8, NULLP, None)
        return c

    def children(self, p, tname, fld, elem, name):
        k = self.k
        n = k.u64("number of " + name)
        k.st.assume(z3.ULT(n, BV(1 << 40, 64)))
        a = k.arr(name, "std::shared_ptr<PetriEngine::PQL::%s>" % elem, n, ro=True)
        ar = k.st.mem[a.obj]
        ids = ar.f[(0, 8)].arr
        k.setvec(p, P + tname, fld, a, n)
        return a, n, ids

    def visitor(self, cls, vt="_vptr$MutatingVisitor"):
        k = self.k
        v = k.rec("visitor", P + cls)
        k.setf(v, P + cls, vt, Ptr("g:" + vtable(P + cls), 16))
        k.setf(v, P + cls, "_context", self.ctx)
        return v

    def at(self, q):
        """tokens of place q, as a 64 bit value"""
        return z3.ZeroExt(32, self.k.st.mem[self.marking.obj].f[(0, 4)].sel(self.k.st, z64(q)))

    def child_id(self, ex, st, args, ins):
        dem = ex.m.fns[ins["callee"][1]]["dem"]
        p = ex.aptr(args[1])
        if "std::shared_ptr" in dem.split("(")[-1] or "shared_ptr" in dem:
            p = ex.load_raw(st, p, 8, True, ins.get("ln"))
        if isinstance(p, Ptr):
            return ex.ptr_bv(st, p)
        return tobv(p, 64)

    def expr_contract(self):
        k = self.k

        def h(ex, st, args, ins):
            c = self.child_id(ex, st, args, ins)
            v = ex.aptr(args[0])
            off = k.getf(v, P + "ExprEvalVisitor", "_offset", st)
            k.setf(v, P + "ExprEvalVisitor", "_value", VAL(c, tobv(off, 64)), st)
            st.assume(z3.UGT(c, BV(4096, 64)))
            return [(st, None)]
        k.ex.contract(r"PQL::Visitor::visit<PetriEngine::PQL::ExprEvalVisitor,", h)

    def cond_contract(self, facts=None):
        k = self.k

        def h(ex, st, args, ins):
            c = self.child_id(ex, st, args, ins)
            v = ex.aptr(args[0])
            st.assume(self.sound(c))
            if facts:
                for f in facts(c):
                    st.assume(f)
            k.setf(v, P + "BaseEvaluationVisitor", "_return_value", KV(c), st)
            return [(st, None)]
        k.ex.contract(r"PQL::Visitor::visit<PetriEngine::PQL::(Evaluate|BaseEvaluation|EvaluateAndSet)\w*Visitor,", h)

    @staticmethod
    def sound(c):
        """contract of a visit: definite answers are right; state predicates get a definite answer"""
        r = KV(c)
        return z3.And(z3.Or(r == RU, r == RF, r == RT), z3.Implies(r == RT, TA(c)), z3.Implies(r == RF, FA(c)),
                      z3.Implies(TEMPORAL_FREE(c), r != RU))
