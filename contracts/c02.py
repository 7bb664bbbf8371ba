from netmodel import *
from c01 import frame, arc_terms


class Enum:
    """ghost: En(t) = t enabled in the (fixed) marking; bucket(t) = place under which t is filed"""
    def __init__(self, k, net, mp, g):
        self.k, self.net, self.mp, self.g = k, net, mp, g
        u32 = z3.BitVecSort(32)
        self.En = z3.Function("En", u32, z3.BoolSort())
        self.unsat = z3.Function("unsatArc", u32, u32)
        self.bucket = z3.Function("bucket", u32, u32)
        self.barc = z3.Function("bucketArc", u32, u32)
        self.done = {}
        k.assume_note("placeToPtrs representation invariant (established by PetriNetBuilder): a transition filed under place q>0 has a "
                      "non-inhibitor preset arc of weight>=1 on q; orphans are filed under place 0")

    def mval(self, q):
        return self.m0(z64(q))

    def attach(self):
        net, k = self.net, self.k
        self.m0 = k.st.mem[self.mp.obj].f[(0, 4)].arr
        a = k.st.mem[net.p2t.obj]
        fb = a.f[(0, 4)]
        old = fb.cb
        a.f[(0, 4)] = FBase(fb.arr, 32, lambda st, i, v: list(old(st, i, v)) + self.p2t_facts(i))
        net.on_arc_read(lambda st, x: self.arc_facts(x))

    def sat(self, x):
        net = self.net
        v = self.mval(net.place(x))
        return z3.If(net.inh(x), z3.ULT(v, net.tok(x)), z3.UGE(v, net.tok(x)))

    def arc_facts(self, x):
        """instances of the definition of enabledness at arc x: for the arbitrary transition g and for owners"""
        net = self.net
        return [z3.Implies(z3.And(self.En(self.g), net.inpre(self.g, x)), self.sat(x)), net.arc_wf(x)]

    def en_def(self, t):
        """definition of En at transition t (Skolemised)"""
        net = self.net
        u = self.unsat(t)
        return net.trans_wf(None, z64(t)) + [z3.Implies(z3.And(z3.Not(self.En(t)), z3.ULT(t, net.nT)), z3.And(net.inpre(t, u), z3.Not(self.sat(u)))), net.arc_wf(u)]

    def en_at(self, t, x):
        net = self.net
        return z3.Implies(z3.And(self.En(t), net.inpre(t, x)), self.sat(x))

    def bucket_def(self, t):
        net = self.net
        b, a = self.bucket(t), self.barc(t)
        p2t = lambda q: net._p2t(z64(q))
        return [z3.Implies(z3.ULT(t, net.nT), z3.And(z3.ULT(b, net.nP), z3.ULE(p2t(b), t), z3.ULT(t, p2t(b + 1)),
                                                     z3.Implies(b != 0, z3.And(net.inpre(t, a), z3.Not(net.inh(a)), net.place(a) == b, z3.UGE(net.tok(a), 1))))),
                net.arc_wf(a), self.en_at(t, a)] + net.p2t_wf(None, z64(b), p2t(b))

    def p2t_facts(self, i):
        """global monotonicity of placeToPtrs against the bucket of g"""
        net = self.net
        b = z64(self.bucket(self.g))
        nP = z64(net.nP)
        return [z3.Implies(z3.ULE(i, b), z3.ULE(net._p2t(i), net._p2t(b))),
                z3.Implies(z3.And(z3.UGT(i, b), z3.ULE(i, nP)), z3.ULE(net._p2t(b + 1), net._p2t(i)))]


def setup(k):
    net = Net(k)
    g = k.u32("g")            # arbitrary transition
    k.st.assume(z3.ULT(g, net.nT))
    par, pm = net.state("par", True)
    E = Enum(k, net, pm, g)
    E.attach()
    k.st.assume(net.trans_wf(k.st, z64(g)))
    k.st.assume(E.en_def(g))
    k.st.assume(E.bucket_def(g))
    return net, g, par, pm, E


def apply_checkPreset(E):
    def h(ex, st, args, ins):
        gen, t = args[0], args[-1]
        ex.prove(st, z3.ULT(t, E.net.nT), "checkPreset requires: transition index in range", "pre")
        st.assume(E.en_def(t))
        return [(st, E.En(t))]
    return h


def apply_fire(E, log):
    def h(ex, st, args, ins):
        gen, w, t = args
        ex.prove(st, z3.ULT(t, E.net.nT), "_fire requires: transition index in range", "pre")
        ex.prove(st, E.En(t), "_fire requires: transition enabled", "pre")
        E.k.setf(gen, SG, "_suc_tcounter", t + 1, st)
        st.ghost["fired"] = t
        st.ghost["into"] = w
        s2 = st.copy()
        return [(st, None), Outcome("throw", s2, None, "token limit")]
    return h


MAX = BV(0xffffffff, 32)


def next_contract(k, first):
    net, g, par, pm, E = setup(k)
    w, wm = net.state("write", False)
    gen = net.gen(par)
    pc0, tc0 = k.u32("pc0"), k.u32("tc0")
    k.setf(gen, SG, "_suc_pcounter", pc0)
    k.setf(gen, SG, "_suc_tcounter", tc0)
    p2t = lambda q: net._p2t(z64(q))
    st = k.st
    inb = lambda pc, tc: z3.And(z3.ULE(pc, net.nP), z3.Or(tc == MAX, z3.And(z3.ULT(pc, net.nP), z3.ULE(p2t(pc), tc), z3.ULE(tc, p2t(pc + 1)))))
    st.assume(inb(pc0, tc0))
    for q in (pc0,):
        st.assume(net.p2t_wf(st, z64(q), p2t(q)))
        st.assume(E.p2t_facts(z64(q)))
        st.assume(E.p2t_facts(z64(q + 1)))
    # resuming inside the bucket of place pc0: it was entered, so the place is marked (or is place 0)
    st.assume(z3.Implies(tc0 != MAX, z3.Or(pc0 == 0, E.mval(pc0) != 0)))
    pos = lambda pc, tc: z3.If(tc == MAX, p2t(pc), tc)
    start = pos(pc0, tc0)
    k.cover()
    k.ex.contract(r"SuccessorGenerator::checkPreset\(", apply_checkPreset(E))
    k.ex.contract(r"SuccessorGenerator::_fire\(", apply_fire(E, None))
    po, to = k.m.path(SG, "_suc_pcounter")[0], k.m.path(SG, "_suc_tcounter")[0]

    def fld(s, off):
        v = s.mem[gen.obj].f[off][1]
        if off == po:       # representation facts of the net at the current place
            for q in (v, v + 1):
                s.fact_once(("p2tf", q.get_id()), q, lambda: net.p2t_wf(s, z64(q), p2t(q)) + E.p2t_facts(z64(q)))
        return v

    def cands(ex, st, lv):
        out = [("position well-formed", lambda s, e: inb(fld(s, po), fld(s, to))),
               ("pc bound", lambda s, e: z3.ULE(fld(s, po), net.nP)),
               ("position after start", lambda s, e: z3.ULE(start, pos(fld(s, po), fld(s, to)))),
               ("pc advanced", lambda s, e: z3.ULE(pc0, fld(s, po))),
               ("tc set", lambda s, e: fld(s, to) != MAX),
               ("bucket entered", lambda s, e: z3.Implies(fld(s, to) != MAX, z3.Or(fld(s, po) == 0, E.mval(fld(s, po)) != 0))),
               ("nothing enabled skipped", lambda s, e: z3.Implies(z3.And(z3.ULE(start, g), z3.ULT(g, pos(fld(s, po), fld(s, to)))), z3.Not(E.En(g))))]
        return out
    k.ex.loop_cands = cands
    g0 = st.mem[gen.obj]
    outs = k.run(r"^PetriEngine::SuccessorGenerator::next\(PetriEngine::Structures::State&\)$", [gen, w])
    if not outs:
        raise Unsupported("no outcome")
    for o in outs:
        s = o.st
        if o.kind == "throw":
            k.prove(s, "fired" in s.ghost, "throws only while firing")
            continue
        r = tobool(o.val)
        if "fired" in s.ghost:
            u = s.ghost["fired"]
            s.assume(E.en_def(u))
            k.prove(s, r, "returns true after firing")
            k.prove(s, z3.And(z3.ULT(u, net.nT), E.En(u)), "fires only enabled transitions")
            k.prove(s, z3.ULE(start, u), "never fires a transition twice (strictly increasing)")
            k.prove(s, z3.Implies(z3.And(z3.ULE(start, g), z3.ULT(g, u)), z3.Not(E.En(g))), "no enabled transition skipped")
            k.prove(s, z3.And(inb(fld(s, po), fld(s, to)), pos(fld(s, po), fld(s, to)) == u + 1), "resumes right after the fired transition")
            k.prove(s, z3.Implies(fld(s, to) != MAX, z3.Or(fld(s, po) == 0, E.mval(fld(s, po)) != 0)), "resume bucket is a marked place")
            k.prove(s, s.ghost["into"].same(w), "successor written to the caller's state")
        else:
            k.prove(s, z3.Not(r), "returns false when nothing is fired")
            k.prove(s, z3.Implies(z3.ULE(start, g), z3.Not(E.En(g))), "at the end no enabled transition remains")
        frame(k, s, gen, g0, allow=(po, to))


@contract("C02", "net.cpp")
def successor_next(k):
    next_contract(k, True)


@contract("C02", "net.cpp")
def prepare_reset(k):
    net = Net(k)
    par, pm = net.state("par", True)
    old, _ = net.state("old", True)
    k.cover()
    pc, tc = k.u32("pcounter"), k.u32("tcounter")
    PREP = r"^PetriEngine::SuccessorGenerator::prepare\(PetriEngine::Structures::State const\*, unsigned int, unsigned int\)$"
    # every history: previously unprepared, prepared for another state, prepared for this very state object
    for hist, prev in (("fresh", NULLP), ("other state before", old), ("same state before", par)):
        for nm, fn, args in (("prepare", PREP, lambda gen: [gen, par, pc, tc]),
                             ("reset", r"^PetriEngine::SuccessorGenerator::reset\(\)$", lambda gen: [gen])):
            gen = net.gen(prev)
            for o in k.run(fn, args(gen)):
                s = o.st
                a, b = (pc, tc) if nm == "prepare" else (BV(0, 32), MAX)
                k.prove(s, z3.And(k.getf(gen, SG, "_suc_pcounter", s) == a, k.getf(gen, SG, "_suc_tcounter", s) == b), "%s (%s): enumeration starts at the requested position" % (nm, hist))
                pp = k.getf(gen, SG, "_parent", s, ptr=True)
                k.prove(s, pp.same(par if nm == "prepare" else prev), "%s (%s): parent marking is the given one" % (nm, hist))
                if nm == "prepare":
                    k.prove(s, tobool(o.val), "prepare succeeds (%s)" % hist)


@contract("C02", "net.cpp", budget=400)
def deadlocked(k):
    net, g, par, pm, E = setup(k)
    k.cover()
    p2t = lambda q: net._p2t(z64(q))

    def ivs(lv, st, env):
        return []

    def cands(ex, st, lv):
        out = []
        env0 = st.frames[-1].env
        fn = st.frames[-1].fn
        # every integer loop counter of this and the enclosing loops
        allphis = [ins["id"] for h in fn["loopmap"] for ins in fn["blocks"][h] if ins["op"] == "phi"]
        cur = set(lv.changed())

        def get(e, i):
            v = e[i]
            if isinstance(v, Lin):
                v = v.bv()
            if isinstance(v, Ptr):
                for base in (net.arcs, net.trans, net.p2t, pm):
                    if v.obj == base.obj:
                        s = v.off.split(k.st.mem[base.obj].stride)
                        if s:
                            return s[0].bv()
                raise Unsupported("x")
            if z3.is_bv(v) and v.size() in (32, 64):
                return z64(v)
            raise Unsupported("x")
        ids = []
        for i in allphis:
            try:
                get(lv.entry if i in lv.phis else env0, i)
                ids.append(i)
            except (Unsupported, KeyError):
                pass
        for i in ids:
            if i not in cur:
                continue
            out.append(("v%d<=nP" % i, lambda s, e, i=i: z3.ULE(get(e, i), z64(net.nP))))
            out.append(("v%d<=nT" % i, lambda s, e, i=i: z3.ULE(get(e, i), z64(net.nT))))
            # as a place counter: buckets below contain no enabled transition
            out.append(("v%d: buckets below disabled" % i, lambda s, e, i=i: z3.Implies(z3.ULT(z64(E.bucket(g)), get(e, i)), z3.Not(E.En(g)))))
            for j in ids:
                if j == i:
                    continue
                # i a transition counter within the bucket of place counter j
                out.append(("v%d in bucket v%d lo" % (i, j), lambda s, e, i=i, j=j: z3.ULE(z64(net._p2t(get(e, j))), get(e, i))))
                out.append(("v%d in bucket v%d hi" % (i, j), lambda s, e, i=i, j=j: z3.ULE(get(e, i), z64(net._p2t(get(e, j) + 1)))))
                out.append(("v%d in bucket v%d below disabled" % (i, j), lambda s, e, i=i, j=j: z3.Implies(
                    z3.And(z64(E.bucket(g)) == get(e, j), z3.ULT(z64(g), get(e, i))), z3.Not(E.En(g)))))
                # i an arc counter of transition counter j
                out.append(("v%d arc of v%d lo" % (i, j), lambda s, e, i=i, j=j: z3.ULE(z64(net._in(get(e, j))), get(e, i))))
                out.append(("v%d arc of v%d hi" % (i, j), lambda s, e, i=i, j=j: z3.ULE(get(e, i), z64(net._out(get(e, j))))))

                def arcsok(s, e, i=i, j=j):
                    t = z3.Extract(31, 0, get(e, j))
                    s.assume(E.en_def(t))
                    u = E.unsat(t)
                    return z3.Implies(z3.And(net.inpre(t, u), z3.ULT(z64(u), get(e, i))), E.sat(u))
                out.append(("v%d: arcs of v%d below satisfied" % (i, j), arcsok))
        # boolean / small flag phis: allgood-style accumulators stay true while looping
        for i in cur:
            v = lv.entry.get(i)
            if v is not None and z3.is_expr(v) and (z3.is_bool(v) or v.size() <= 8):
                out.append(("flag v%d true" % i, lambda s, e, i=i: e[i] if z3.is_bool(e[i]) else e[i] == 1))
                out.append(("flag v%d bit" % i, lambda s, e, i=i: z3.BoolVal(True) if z3.is_bool(e[i]) else z3.ULE(e[i], 1)))
        return out
    k.ex.loop_cands = cands
    k.ex.contract(r"PetriNet::fireable\(", apply_checkPreset(E))
    for o in k.run("PetriEngine::PetriNet::deadlocked(unsigned int const*) const", [net.p, pm]):
        s = o.st
        r = tobool(o.val)
        k.prove(s, z3.Implies(r, z3.Not(E.En(g))), "deadlocked only if no transition is enabled")
        s2 = s.copy()
        for t in trans_terms(net, s):
            s2.assume(E.en_def(t))
            s2.assume(z3.Implies(z3.ULT(t, net.nT), z3.Not(E.En(t))))
        k.prove(s2, r, "not deadlocked only if some transition is enabled")


def trans_terms(net, st):
    seen, out = set(), []

    def walk(e):
        if e.get_id() in seen:
            return
        seen.add(e.get_id())
        if z3.is_app(e) and e.num_args() == 1 and (e.decl().eq(net._in)):
            x = narrow(e.arg(0))
            if not any(x.eq(y) for y in out):
                out.append(x)
        for c in e.children():
            walk(c)
    for c in st.pc:
        walk(c)
    return out
