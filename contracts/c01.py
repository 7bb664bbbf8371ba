from netmodel import *


def arc_loop(k, net, st0, marking, lo, hi, g, extra=None):
    """candidate invariants of a scan over arcs [lo,hi) with the arbitrary-but-fixed arc g"""
    lo64, hi64, g64 = z64(lo), z64(hi), z64(g)

    def cands(ex, st, lv):
        out = []
        for i, ix in index_views(net, st, lv, net.arcs):
            n = "v%d" % i
            out.append((n + ">=lo", lambda s, e, ix=ix: z3.ULE(lo64, ix(e))))
            out.append((n + "<=hi", lambda s, e, ix=ix: z3.ULE(ix(e), hi64)))
            out.append((n + ": arcs below satisfied", lambda s, e, ix=ix: z3.Implies(z3.And(z3.ULE(lo64, g64), z3.ULT(g64, ix(e)), z3.ULT(g64, hi64)), net.sat(s, marking, g))))
            out.append((n + ": arcs above satisfied", lambda s, e, ix=ix: z3.Implies(z3.And(z3.UGE(g64, ix(e)), z3.ULT(g64, hi64), z3.ULE(lo64, g64)), net.sat(s, marking, g))))
            if extra:
                out += extra(st, lv, ix, n)
        return out
    return cands


def enabled_contract(k, fn, mk):
    net = Net(k)
    t = k.u32("t")
    k.st.assume(z3.ULT(t, net.nT))
    args, marking = mk(net, t)
    g = k.u32("g")                 # arbitrary arc of the preset
    k.st.assume(net.trans_wf(k.st, z64(t)))
    k.st.assume(net.arc_wf(g))
    k.cover()
    k.ex.loop_cands = arc_loop(k, net, k.st, marking, net.inp(t), net.outp(t), g)
    for o in k.run(fn, args):
        if o.kind != "ret":
            k.prove(o.st, False, "does not throw")
            continue
        r = tobool(o.val)
        st = o.st
        k.prove(st, z3.Implies(z3.And(r, net.inpre(t, g)), net.sat(st, marking, g)), "true only if every preset arc is satisfied")
        # false => some arc unsatisfied: assume all arcs the path looked at are satisfied (instances of the universal), derive r
        insts = [net.sat(st, marking, x) for x in arc_terms(net, st)]
        s2 = st.copy()
        for x in arc_terms(net, st):
            s2.assume(z3.Implies(net.inpre(t, x), net.sat(s2, marking, x)))
        k.prove(s2, r, "false only if some preset arc is unsatisfied")


def arc_terms(net, st):
    """all index terms at which the arc array was read on this path"""
    seen, out = set(), []

    def walk(e):
        if e.get_id() in seen:
            return
        seen.add(e.get_id())
        if z3.is_app(e) and e.decl().eq(net._place):
            x = e.arg(0)
            out.append(z3.Extract(31, 0, x) if not (z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ZERO_EXT) else x.arg(0))
        for c in e.children():
            walk(c)
    for c in st.pc:
        walk(c)
    return out


@contract("C01", "net.cpp")
def checkPreset(k):
    def mk(net, t):
        s, m = net.state("m", True)
        return [net.gen(s), t], m
    enabled_contract(k, "PetriEngine::SuccessorGenerator::checkPreset(unsigned int)", mk)


@contract("C01", "net.cpp")
def fireable(k):
    def mk(net, t):
        m = net.marking("m", True)
        k.st.assume(t >= 0)     # the parameter is an int
        return [net.p, m, t], m
    enabled_contract(k, "PetriEngine::PetriNet::fireable(unsigned int const*, int)", mk)


@contract("C01", "stubborn.cpp")
def stubborn_checkPreset(k):
    SS = "PetriEngine::StubbornSet"

    def mk(net, t):
        s, m = net.state("m", True)
        r = k.rec("stub", SS)
        k.setf(r, SS, "_net", net.p)
        k.setf(r, SS, "_parent", s)
        return [r, t], m
    enabled_contract(k, "PetriEngine::StubbornSet::checkPreset(unsigned int)", mk)


def mark_cands(k, net, t, lo, hi, target, value, g=None):
    """scan over arcs [lo,hi) updating the marking `target`; value(s,q,done) = expected content of place q
    when exactly the arcs in `done` (predicate on arc index) have been applied"""
    lo64, hi64 = z64(lo), z64(hi)

    def cands(ex, st, lv):
        out = []
        for i, ix in index_views(net, st, lv, net.arcs):
            n = "v%d" % i
            out.append((n + ">=lo", lambda s, e, ix=ix: z3.ULE(lo64, ix(e))))
            out.append((n + "<=hi", lambda s, e, ix=ix: z3.ULE(ix(e), hi64)))
            out.append((n + ": applied below", lambda s, e, q, v, ix=ix: v == value(s, narrow(q), lambda x: z3.ULT(z64(x), ix(e))), target, (0, 4)))
            out.append((n + ": applied above", lambda s, e, q, v, ix=ix: v == value(s, narrow(q), lambda x: z3.UGE(z64(x), ix(e))), target, (0, 4)))
        return out
    return cands


def fire_setup(k):
    net = Net(k)
    t = k.u32("t")
    p = k.u32("p")          # arbitrary place
    k.st.assume(z3.ULT(t, net.nT))
    k.st.assume(z3.ULT(p, net.nP))
    k.st.assume(net.trans_wf(k.st, z64(t)))
    k.st.assume(net.sel_place(t, p))
    net.on_arc_read(lambda st, x: net.sel_arc(t, x) + net.sel_place(t, net.place(x)))
    return net, t, p


def on_read(k, mp, f):
    """facts instantiated at every place read from marking mp"""
    a = k.st.mem[mp.obj].copy()
    fb = a.f[(0, 4)]
    a.f[(0, 4)] = FBase(fb.arr, fb.bits, lambda st, i, v: f(st, narrow(i), v))
    k.st.mem[mp.obj] = a
    return fb.arr


@contract("C01", "net.cpp")
def consumePreset(k):
    net, t, p = fire_setup(k)
    w, wm = net.state("write", False)
    # enabledness as far as consumption is concerned: every consuming arc is covered
    old = on_read(k, wm, lambda st, q, v: net.sel_place(t, q) + [z3.UGE(v, net.win(t, q))])
    par, _ = net.state("par", True)
    gen = net.gen(par)
    k.cover()
    O = lambda q: old(z64(q))

    def value(s, q, done):
        s.assume(net.sel_place(t, q))
        a = net.arcIn(t, q)
        return O(q) - z3.If(z3.And(net.hasIn(t, q), done(a), z3.Not(net.inh(a))), net.tok(a), BV(0, 32))
    k.ex.loop_cands = mark_cands(k, net, t, net.inp(t), net.outp(t), wm, value)
    g0 = k.st.mem[gen.obj]
    for o in k.run("PetriEngine::SuccessorGenerator::consumePreset(PetriEngine::Structures::State&, unsigned int)", [gen, w, t]):
        if o.kind != "ret":
            k.prove(o.st, False, "does not throw")
            continue
        k.prove(o.st, net.m(o.st, wm, p) == O(p) - net.win(t, p), "removes exactly the consumed weight from every place")
        frame(k, o.st, gen, g0)


def frame(k, st, obj, before, allow=()):
    a = st.mem[obj.obj]
    ok = z3.BoolVal(True)
    for f, (s, v) in before.f.items():
        if f in allow:
            continue
        n = a.f.get(f)
        if n is None or n[0] != s:
            ok = z3.BoolVal(False)
        elif not same_val(n[1], v):
            if isinstance(v, Ptr) or isinstance(n[1], Ptr):
                ok = z3.BoolVal(False)
            else:
                ok = z3.And(ok, tobv(n[1], s * 8) == tobv(v, s * 8))
    k.prove(st, ok, "frame: %s unchanged" % before.name, kind="frame")


MAXM = BV(0xffffffff, 64)


@contract("C01", "net.cpp")
def producePostset(k):
    net, t, p = fire_setup(k)
    w, wm = net.state("write", False)
    old = on_read(k, wm, lambda st, q, v: net.sel_place(t, q))
    par, _ = net.state("par", True)
    gen = net.gen(par)
    k.cover()
    O = lambda q: old(z64(q))

    def value(s, q, done):
        s.assume(net.sel_place(t, q))
        a = net.arcOut(t, q)
        return O(q) + z3.If(z3.And(net.hasOut(t, q), done(a)), net.tok(a), BV(0, 32))
    base = mark_cands(k, net, t, net.outp(t), net.inp(t + 1), wm, value)

    def cands(ex, st, lv):
        out = base(ex, st, lv)
        for i, ix in index_views(net, st, lv, net.arcs):
            a = net.arcOut(t, p)
            big = lambda: z64(O(p)) + z64(net.tok(a))
            out.append(("v%d: no overflow below" % i, lambda s, e, ix=ix: z3.Implies(z3.And(net.hasOut(t, p), z3.ULT(z64(a), ix(e))), z3.ULT(big(), MAXM))))
            out.append(("v%d: no overflow above" % i, lambda s, e, ix=ix: z3.Implies(z3.And(net.hasOut(t, p), z3.UGE(z64(a), ix(e))), z3.ULT(big(), MAXM))))
        return out
    k.ex.loop_cands = cands
    g0 = k.st.mem[gen.obj]
    for o in k.run("PetriEngine::SuccessorGenerator::producePostset(PetriEngine::Structures::State&, unsigned int)", [gen, w, t]):
        st = o.st
        if o.kind == "ret":
            k.prove(st, z64(net.m(st, wm, p)) == z64(O(p)) + z64(net.wout(t, p)), "adds exactly the produced weight to every place (no wrap-around)")
            k.prove(st, z3.Implies(net.hasOut(t, p), z3.ULT(z64(O(p)) + z64(net.wout(t, p)), MAXM)), "token bound respected")
            frame(k, st, gen, g0)
        else:
            s2 = st.copy()
            for x in arc_terms(net, st):
                s2.assume(z3.Implies(net.inpost(t, x), z3.ULT(z64(O(net.place(x))) + z64(net.tok(x)), MAXM)))
            k.prove(s2, False, "throws only if some produced place would reach the token limit")


def apply_consume(net):
    k = net.k

    def h(ex, st, args, ins):
        gen, w, t = args
        mp = k.getf(w, STT, "_marking", st, ptr=True)
        a = st.mem[mp.obj].copy()
        old = a.f[(0, 4)]
        na = fresh_arr("consumed", 32)
        # requires: enabled
        q = fresh("anyplace", 32)
        s2 = st.copy()
        s2.assume(z3.ULT(q, net.nP))
        s2.assume(net.sel_place(t, q))
        ex.prove(s2, z3.UGE(old.sel(s2, z64(q)), net.win(t, q)), "consumePreset requires: every consumed place holds enough tokens", "pre")
        a.f[(0, 4)] = FBase(na, 32, lambda s, i, v: net.sel_place(t, narrow(i)) + [v == old.sel(s, i) - net.win(t, narrow(i)), z3.UGE(old.sel(s, i), net.win(t, narrow(i)))])
        st.mem[mp.obj] = a
        return [(st, None)]
    return h


def apply_produce(net):
    k = net.k

    def h(ex, st, args, ins):
        gen, w, t = args
        mp = k.getf(w, STT, "_marking", st, ptr=True)
        a = st.mem[mp.obj].copy()
        old = a.f[(0, 4)]
        na = fresh_arr("produced", 32)
        thr = Outcome("throw", st.copy(), None, "limit")
        a.f[(0, 4)] = FBase(na, 32, lambda s, i, v: net.sel_place(t, narrow(i)) + [z64(v) == z64(old.sel(s, i)) + z64(net.wout(t, narrow(i)))])
        st.mem[mp.obj] = a
        return [(st, None), thr]
    return h


@contract("C01", "net.cpp")
def fire(k):
    """_fire: successor = parent - consumed + produced, parent untouched, fired() reports the transition"""
    net, t, p = fire_setup(k)
    par, pm = net.state("par", True)
    w, wm = net.state("write", False)
    old = on_read(k, pm, lambda st, q, v: net.sel_place(t, q) + [z3.UGE(v, net.win(t, q))])   # enabled
    gen = net.gen(par)
    k.cover()
    k.ex.contract(r"SuccessorGenerator::consumePreset\(", apply_consume(net))
    k.ex.contract(r"SuccessorGenerator::producePostset\(", apply_produce(net))
    O = lambda q: old(z64(q))
    g0 = k.st.mem[gen.obj]
    tco = k.m.path(SG, "_suc_tcounter")[0]
    for o in k.run("PetriEngine::SuccessorGenerator::_fire(PetriEngine::Structures::State&, unsigned int)", [gen, w, t]):
        if o.kind != "ret":
            continue
        st = o.st
        k.prove(st, z64(net.m(st, wm, p)) == z64(O(p)) - z64(net.win(t, p)) + z64(net.wout(t, p)), "successor marking = marking - consumed + produced at every place")
        k.prove(st, k.getf(gen, SG, "_suc_tcounter", st) == t + 1, "position advanced past the fired transition")
        fo = k.run(r"PetriEngine::SuccessorGenerator::fired\(\) const", [gen], st)
        for f in fo:
            k.prove(f.st, f.val == t, "fired() names the fired transition")
        frame(k, st, gen, g0, allow=(tco,))


@contract("C01", "net.cpp")
def inArc(k):
    net, t, p = fire_setup(k)
    k.cover()
    lo, hi = net.inp(t), net.outp(t)
    a = net.arcIn(t, p)

    def cands(ex, st, lv):
        out = []
        for i, ix in index_views(net, st, lv, net.arcs):
            out.append((">=lo", lambda s, e, ix=ix: z3.ULE(z64(lo), ix(e))))
            out.append(("<=hi", lambda s, e, ix=ix: z3.ULE(ix(e), z64(hi))))
            out.append(("not below", lambda s, e, ix=ix: z3.Implies(net.hasIn(t, p), z3.UGE(z64(a), ix(e)))))
            out.append(("not above", lambda s, e, ix=ix: z3.Implies(net.hasIn(t, p), z3.ULT(z64(a), ix(e)))))
        return out
    k.ex.loop_cands = cands
    for o in k.run("PetriEngine::PetriNet::inArc(unsigned int, unsigned int) const", [net.p, p, t]):
        k.prove(o.st, o.val == net.win(t, p), "inArc is the consumed weight") if o.kind == "ret" else k.prove(o.st, False, "no throw")


@contract("C01", "net.cpp")
def outArc(k):
    net, t, p = fire_setup(k)
    k.cover()
    lo, hi = net.outp(t), net.inp(t + 1)
    a = net.arcOut(t, p)

    def cands(ex, st, lv):
        out = []
        for i, ix in index_views(net, st, lv, net.arcs):
            out.append((">=lo", lambda s, e, ix=ix: z3.ULE(z64(lo), ix(e))))
            out.append(("<=hi", lambda s, e, ix=ix: z3.ULE(ix(e), z64(hi))))
            out.append(("not below", lambda s, e, ix=ix: z3.Implies(net.hasOut(t, p), z3.UGE(z64(a), ix(e)))))
            out.append(("not above", lambda s, e, ix=ix: z3.Implies(net.hasOut(t, p), z3.ULT(z64(a), ix(e)))))
        return out
    k.ex.loop_cands = cands
    for o in k.run("PetriEngine::PetriNet::outArc(unsigned int, unsigned int) const", [net.p, t, p]):
        k.prove(o.st, o.val == net.wout(t, p), "outArc is the produced weight") if o.kind == "ret" else k.prove(o.st, False, "no throw")


def ptr_range(k, net, st, v, lo, hi, what):
    ok = isinstance(v, list) and len(v) == 2 and all(isinstance(x, Ptr) and x.obj == net.arcs.obj for x in v)
    if not ok:
        return k.prove(st, False, what)
    s = k.st.mem[net.arcs.obj].stride
    a, b = v[0].off.split(s), v[1].off.split(s)
    if a is None or b is None or a[1] or b[1]:
        return k.prove(st, False, what)
    k.prove(st, z3.And(a[0].bv() == z64(lo), b[0].bv() == z64(hi)), what)


@contract("C01", "net.cpp")
def preset_postset(k):
    net, t, p = fire_setup(k)
    k.cover()
    for o in k.run(r"PetriEngine::PetriNet::preset\(unsigned int\) const", [net.p, t]):
        ptr_range(k, net, o.st, o.val, net.inp(t), net.outp(t), "preset range")
    for o in k.run(r"PetriEngine::PetriNet::postset\(unsigned int\) const", [net.p, t]):
        ptr_range(k, net, o.st, o.val, net.outp(t), net.inp(t + 1), "postset range")
