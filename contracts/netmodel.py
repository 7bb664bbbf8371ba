"""Symbolic P/T net: every net of every size satisfying the representation invariant of PetriNet."""
from frame import *

PN = "PetriEngine::PetriNet"
SG = "PetriEngine::SuccessorGenerator"
STT = "PetriEngine::Structures::State"


class Net:
    def __init__(self, k, st=None):
        self.k = k
        st = st or k.st
        self.nP, self.nT, self.nI = k.u32("nplaces"), k.u32("ntransitions"), k.u32("narcs")
        st.assume(z3.UGT(self.nP, 0))
        # PetriNetBuilder indexes places/transitions/arcs with uint32_t and uses ~0 as 'none'
        for x in (self.nP, self.nT, self.nI):
            st.assume(z3.ULT(x, BV(0xfffffffe, 32)))
        self.p = k.rec("net", PN, ro=True)
        k.st.mem[self.p.obj].ro = False
        for f, v in (("_ninvariants", self.nI), ("_ntransitions", self.nT), ("_nplaces", self.nP)):
            k.setf(self.p, PN, f, v)
        self.trans = k.arr("transitions", "PetriEngine::TransPtr", z64(self.nT) + 1,
                           {"inputs": lambda st, i, v: self.trans_wf(st, i), "outputs": lambda st, i, v: self.trans_wf(st, i)}, ro=True)
        self.arcs = k.arr("arcs", "PetriEngine::Invariant", z64(self.nI),
                          {"place": lambda st, i, v: z3.Implies(z3.ULT(i, z64(self.nI)), z3.ULT(v, self.nP)),
                           "inhibitor": lambda st, i, v: z3.ULE(v, 1)}, ro=True)
        self.p2t = k.arr("placeToPtrs", "unsigned int", z64(self.nP) + 1, {"": lambda st, i, v: self.p2t_wf(st, i, v)}, ro=True)
        k.setvec(self.p, PN, "_transitions", self.trans, z64(self.nT) + 1)
        k.setvec(self.p, PN, "_invariants", self.arcs, z64(self.nI))
        k.setvec(self.p, PN, "_placeToPtrs", self.p2t, z64(self.nP) + 1)
        k.st.mem[self.p.obj].ro = True
        a = k.st.mem[self.trans.obj]
        self._in, self._out = a.f[a.names["inputs"]].arr, a.f[a.names["outputs"]].arr
        b = k.st.mem[self.arcs.obj]
        self._place, self._tok, self._inh = (b.f[b.names[x]].arr for x in ("place", "tokens", "inhibitor"))
        self._dir = b.f[b.names["direction"]].arr
        c = k.st.mem[self.p2t.obj]
        self._p2t = c.f[c.names[""]].arr
        k.ex.inputs.update({})
        k.assume_note("net representation invariant (established by PetriNetBuilder, not re-proved here): arc ranges of transitions are "
                      "contiguous and monotone, places of arcs < number of places, placeToPtrs monotone with last entry = number of transitions")

        # arc selector functions: the (unique) preset / postset arc of transition t at place q, if any
        u32 = z3.BitVecSort(32)
        self.hasIn = z3.Function("hasIn", u32, u32, z3.BoolSort())
        self.arcIn = z3.Function("arcIn", u32, u32, u32)
        self.hasOut = z3.Function("hasOut", u32, u32, z3.BoolSort())
        self.arcOut = z3.Function("arcOut", u32, u32, u32)
        k.assume_note("at most one preset arc and at most one postset arc per (place, transition) pair (PetriNetBuilder merges duplicates)")

    def sel_place(self, t, q):
        """definition of the selectors at place q (BV32)"""
        a, b = self.arcIn(t, q), self.arcOut(t, q)
        return [z3.Implies(self.hasIn(t, q), z3.And(self.inpre(t, a), self.place(a) == q)), self.arc_wf(a),
                z3.Implies(self.hasOut(t, q), z3.And(self.inpost(t, b), self.place(b) == q)), self.arc_wf(b)]

    def sel_arc(self, t, x):
        """uniqueness, instantiated at arc x (BV32)"""
        p = self.place(x)
        return [z3.Implies(self.inpre(t, x), z3.And(self.hasIn(t, p), self.arcIn(t, p) == x)),
                z3.Implies(self.inpost(t, x), z3.And(self.hasOut(t, p), self.arcOut(t, p) == x))]

    def win(self, t, q):
        a = self.arcIn(t, q)
        return z3.If(z3.And(self.hasIn(t, q), z3.Not(self.inh(a))), self.tok(a), BV(0, 32))

    def wout(self, t, q):
        return z3.If(self.hasOut(t, q), self.tok(self.arcOut(t, q)), BV(0, 32))

    def on_arc_read(self, f):
        """register facts to instantiate at every arc index that is read: f(x: BV32) -> facts"""
        b = self.k.st.mem[self.arcs.obj]
        for key, fb in list(b.f.items()):
            old = fb.cb

            def cb(st, i, v, old=old):
                r = old(st, i, v) if old else []
                r = [] if r is None else (list(r) if isinstance(r, (list, tuple)) else [r])
                return r + list(f(st, narrow(i)))
            b.f[key] = FBase(fb.arr, fb.bits, cb)

    # logical views -------------------------------------------------
    def inp(self, t):
        return self._in(z64(t))

    def outp(self, t):
        return self._out(z64(t))

    def place(self, g):
        return self._place(z64(g))

    def tok(self, g):
        return self._tok(z64(g))

    def inh(self, g):
        return self._inh(z64(g)) != 0

    def arc_wf(self, g):
        return z3.Implies(z3.ULT(z64(g), z64(self.nI)), z3.And(z3.ULT(self.place(g), self.nP), z3.ULE(self._inh(z64(g)), 1)))

    def trans_wf(self, st, i):
        nT = z64(self.nT)
        i1 = i + 1
        fs = []
        for j in (i, i1):
            fs.append(z3.Implies(z3.ULT(j, nT), z3.And(z3.ULE(self._in(j), self._out(j)),
                                                       z3.ULE(self._out(j), self._in(j + 1)),
                                                       z3.ULE(self._in(j + 1), self.nI))))
        fs.append(z3.And(self._in(nT) == self.nI, self._out(nT) == self.nI))
        return fs

    def p2t_wf(self, st, i, v):
        nP = z64(self.nP)
        s = lambda j: self._p2t(j)
        return [z3.Implies(z3.ULE(i, nP), z3.ULE(v, self.nT)), z3.Implies(z3.ULT(i, nP), z3.And(z3.ULE(v, s(i + 1)), z3.ULE(s(i + 1), self.nT))),
                s(nP) == self.nT, s(BV(0, 64)) == 0]

    def marking(self, name, ro, st=None):
        return self.k.arr(name, "unsigned int", z64(self.nP), ro=ro, st=st)

    def state(self, name, ro, st=None):
        k = self.k
        st = st or k.st
        m = self.marking(name, ro, st)
        r = k.rec(name + ".state", STT, st)
        k.setf(r, STT, "_marking", m, st)
        st.mem[r.obj].ro = True
        return r, m

    def gen(self, parent, name="gen", t=SG):
        k = self.k
        r = k.rec(name, t)
        k.setf(r, t, "_net", self.p)
        k.setf(r, t, "_parent", parent)
        k.setf(r, t, "_suc_pcounter", fresh("pc", 32))
        k.setf(r, t, "_suc_tcounter", fresh("tc", 32))
        return r

    def m(self, st, mp, p):
        return st.mem[mp.obj].f[(0, 4)].sel(st, z64(p))

    def sat(self, st, mp, g):
        """the firing condition of input arc g in marking mp"""
        v = self.m(st, mp, self.place(g))
        return z3.If(self.inh(g), z3.ULT(v, self.tok(g)), z3.UGE(v, self.tok(g)))

    def inpre(self, t, g):
        return z3.And(z3.ULE(self.inp(t), g), z3.ULT(g, self.outp(t)))

    def inpost(self, t, g):
        return z3.And(z3.ULE(self.outp(t), g), z3.ULT(g, self.inp(t + 1)))


def narrow(i):
    """BV64 index -> BV32 (looking through a zero extension)"""
    if z3.is_app(i) and i.decl().kind() == z3.Z3_OP_ZERO_EXT and i.arg(0).size() == 32:
        return i.arg(0)
    return z3.Extract(31, 0, i)


def index_views(net, st, lv, base):
    """32/64-bit views of loop counters: integer phis directly, pointer/iterator phis into `base` as element index"""
    out = []
    for i in lv.changed():
        def get(env, i=i):
            v = env[i]
            if isinstance(v, Ptr):
                o = None
                if v.obj == base.obj:
                    s = v.off.split(net.k.st.mem[base.obj].stride)
                    if s is not None:
                        return s[0].bv()
                raise Unsupported("other")
            if isinstance(v, Lin):
                return v.bv()
            if z3.is_bv(v) and v.size() in (32, 64):
                return z64(v)
            raise Unsupported("no index")
        try:
            get(lv.entry)
        except (Unsupported, KeyError):
            continue
        out.append((i, get))
    return out
