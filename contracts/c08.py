"""Colour intervals: single intervals, interval vectors, cyclic shifts."""
from frame import *
from vecmodel import Vecs

C = "PetriEngine::Colored::"
IT, IV = C + "interval_t", C + "interval_vector_t"
RNG = "PetriEngine::Reachability::range_t"
LO, UP = (0, 4), (4, 4)
B64 = z3.BitVecSort(64)
VB = r"std::vector<bool, std::allocator<bool>\s*>"
CI = C + "interval_t const&"
DG = z3.Function("diagonal position", B64, z3.BoolSort())


def i64(v):
    return v.bv() if isinstance(v, Lin) else tobv(v, 64)


def inr(x, lo, up):
    return z3.And(z3.ULE(lo, x), z3.ULE(x, up))


class Iv:
    """an interval: any number of ranges"""
    def __init__(self, k, name, n=None, facts=None):
        st = k.st
        F = lambda f: z3.Function(name + f, B64, z3.BitVecSort(32))
        self.n = k.u64(name + ".size") if n is None else n
        st.assume(z3.ULT(self.n, BV(1 << 31, 64)))
        self.lo, self.up = F(".lower"), F(".upper")
        self.facts = facts or (lambda i: [])
        cb = lambda s, i, v: [z3.Implies(z3.ULT(i, self.n), f) for f in self.facts(i)]
        self.a = k.arr(name, RNG, self.n)
        ar = st.mem[self.a.obj].copy()
        ar.f[LO], ar.f[UP] = FBase(self.lo, 32, cb), FBase(self.up, 32, cb)
        st.mem[self.a.obj] = ar
        self.p = k.rec(name + " interval", IT)
        k.setvec(self.p, IT, "_ranges", self.a, self.n)

    def at(self, k, s, i):
        o = s.mem[self.a.obj]
        return o.f[LO].sel(s, i), o.f[UP].sel(s, i)


def bits(k):
    """reading a std::vector<bool>: one bit per position (library, assumed)"""
    k.ex.contract(VB + r"::operator\[\]\(unsigned long\) const", lambda ex, s, a, i: [(s, DG(i64(a[1])))])
    k.assume_note("std::vector<bool>::operator[] reads the bit of the given position")


def idx_cands(a, n, more=lambda nm, g: []):
    def cands(ex, st, lv):
        out = []
        for nm, g in lv.idx(st, a.a):
            out.append(("%s<=n" % nm, lambda s, e, g=g: z3.ULE(g(s, e), n)))
            out += more(nm, g)
        return out
    return cands


@contract("C08", "col.cpp")
def sound(k):
    a = Iv(k, "a")
    j = k.u64("j")
    k.cover()
    ok = lambda i: z3.ULE(a.lo(i), a.up(i))
    k.ex.loop_cands = idx_cands(a, a.n, lambda nm, g: [("sound before %s" % nm, lambda s, e: z3.Implies(z3.And(z3.ULT(j, g(s, e)), z3.ULT(j, a.n)), ok(j)))])
    for o in k.run(IT + "::isSound() const", [a.p], k.st.copy()):
        k.prove(o.st, z3.Implies(z3.And(tobool(o.val), z3.ULT(j, a.n)), ok(j)), "a sound interval has no empty range")
    a.facts = lambda i: [ok(i)]
    for o in k.run(IT + "::isSound() const", [a.p], k.st.copy()):
        k.prove(o.st, tobool(o.val), "an interval without empty ranges is sound")


def relation(k, fn, rel, extra=(), name="", samesize=True, needdiag=False):
    """fn(a,b) holds exactly when rel holds for every component"""
    k.st = State()
    a = Iv(k, name + " a")
    b = Iv(k, name + " b")
    j = k.u64("j")
    st = k.st
    if samesize:
        st.assume(a.n == b.n)
    k.cover(st, name + ": precondition satisfiable")
    args = [a.p, b.p] + [k.ex.new_rec(st, "bits", 40) for _ in extra]
    r = lambda i: rel(i, a, b)
    mk = lambda: idx_cands(a, a.n, lambda nm, g: [("all before %s" % nm, lambda s, e: z3.Implies(z3.And(z3.ULT(j, g(s, e)), z3.ULT(j, a.n)), r(j)))])
    snd = lambda i: [z3.ULE(a.lo(i), a.up(i)), z3.ULE(b.lo(i), b.up(i))]
    a.facts = b.facts = snd
    k.ex.loop_cands = mk()
    for o in k.run(fn, args, st.copy()):
        k.prove(o.st, z3.Implies(tobool(o.val), a.n == b.n), name + ": same dimension")
        k.prove(o.st, z3.Implies(z3.And(tobool(o.val), z3.ULT(j, a.n)), r(j)), name + ": holds for every component when reported")
    a.facts = b.facts = lambda i: snd(i) + [r(i)]
    s = st.copy()
    s.assume(a.n == b.n)
    for o in k.run(fn, args, s):
        k.prove(o.st, tobool(o.val), name + ": reported when it holds for every component")


@contract("C08", "col.cpp")
def relations(k):
    bits(k)
    relation(k, IT + "::equals(%s) const" % CI, lambda i, a, b: z3.And(a.lo(i) == b.lo(i), a.up(i) == b.up(i)), name="equality", samesize=False)
    relation(k, IT + "::intersects(%s) const" % CI, lambda i, a, b: z3.And(z3.ULE(a.lo(i), b.up(i)), z3.ULE(b.lo(i), a.up(i))), name="intersection")
    fn = [f for f, d in ((f, k.m.fns[f]["dem"]) for f in k.m.fns) if d.startswith(IT + "::contains(")][0]
    relation(k, fn, lambda i, a, b: z3.Or(DG(i), z3.And(z3.ULE(a.lo(i), b.lo(i)), z3.ULE(b.up(i), a.up(i)))), extra=(1,), name="containment", samesize=False)


@contract("C08", "col.cpp")
def hull(k):
    a, b = Iv(k, "a"), Iv(k, "b")
    st = k.st
    st.assume(a.n == b.n)
    j, x = k.u64("j"), k.u32("x")
    k.cover()
    mn = lambda p, q: z3.If(z3.ULE(p, q), p, q)
    mx = lambda p, q: z3.If(z3.ULE(p, q), q, p)

    def cands(ex, s0, lv):
        out = []
        for nm, g in lv.idx(s0, a.a):
            out.append(("%s<=n" % nm, lambda s, e, g=g: z3.ULE(g(s, e), a.n)))
            for key, w in ((LO, lambda i: mn(a.lo(i), b.lo(i))), (UP, lambda i: mx(a.up(i), b.up(i)))):
                base = a.lo if key == LO else a.up
                out.append(("united before %s %s" % (nm, key), UniInv(lambda s, e, q, v, g=g, w=w, base=base: z3.Implies(z3.ULT(q, a.n), v == z3.If(z3.ULT(q, g(s, e)), w(q), base(q))), a.a, key, j)))
        return out
    k.ex.loop_cands = cands
    for o in k.run(IT + "::operator|=(%s)" % CI, [a.p, b.p], st):
        lo, up = a.at(k, o.st, j)
        k.prove(o.st, z3.Implies(z3.And(z3.ULT(j, a.n), z3.Or(inr(x, a.lo(j), a.up(j)), inr(x, b.lo(j), b.up(j)))), inr(x, lo, up)), "uniting: every colour of both is kept")
        k.prove(o.st, z3.Implies(z3.ULT(j, a.n), z3.And(z3.Or(lo == a.lo(j), lo == b.lo(j)), z3.Or(up == a.up(j), up == b.up(j)))), "uniting: the hull is the smallest")


class Grow:
    """vectors that the code builds by appending: the elements live in one array of sufficient capacity"""
    def __init__(self, k, tname="interval_t"):
        self.k = k
        self.objs = []

        def ctor(ex, s, a, i):
            p = ex.aptr(a[0])
            n = len(self.objs)
            F = lambda f: z3.Function("built%d%s" % (n, f), B64, z3.BitVecSort(32))
            arr = Arr("built%d" % n, 8, BV(1 << 40, 64), {LO: FBase(F(".lower"), 32), UP: FBase(F(".upper"), 32)})
            q = Ptr(ex.new_obj(s, arr))
            self.objs.append(q)
            for o in (0, 8, 16):
                ex.store_raw(s, p.plus(o), 8, q, None)
            return [(s, None)]
        k.ex.contract(r"std::vector<PetriEngine::Reachability::range_t.*>::vector\(\)", ctor)

        def push(ex, s, a, i):
            dem = ex.m.fns[i["callee"][1]]["dem"]
            v = ex.aptr(a[0])
            b, e = ex.load_raw(s, v, 8, True, None), ex.load_raw(s, v.plus(8), 8, True, None)
            if len(a) == 3:
                vals = [tobv(ex.load_raw(s, ex.aptr(q), 4, False, None), 32) for q in a[1:]]
            else:
                q = ex.aptr(a[1])
                vals = [tobv(ex.load_raw(s, q.plus(o), 4, False, None), 32) for o in (0, 4)]
            for o, val in zip((0, 4), vals):
                ex.store_raw(s, e.plus(o), 4, val, None)
            ex.store_raw(s, v.plus(8), 8, e.plus(8), None)
            return [(s, e if i["ty"] == "ptr" else None)]
        k.ex.contract(r"std::vector<PetriEngine::Reachability::range_t.*>::(emplace_back|push_back)", push)
        k.ex.contract(r"std::vector<PetriEngine::Reachability::range_t.*>::~vector\(\)", lambda ex, s, a, i: [(s, None)])
        k.assume_note("std::vector::emplace_back/push_back append the element (library, assumed)")

    def size(self, s, p):
        b, e = self.k.ex.load_raw(s, p, 8, True, None), self.k.ex.load_raw(s, p.plus(8), 8, True, None)
        return e.off.add(b.off, -1).split(8)[0].bv()

    def arr(self, s, p):
        return self.k.ex.load_raw(s, p, 8, True, None)


def overlap(k, fn, diag, name):
    k.st = State()
    st = k.st
    a, b = Iv(k, name + " a"), Iv(k, name + " b")
    j = k.u64("j")
    x = k.u32("x")
    k.cover(st, name + ": precondition satisfiable")
    gr = Grow(k)
    out = k.rec("result", IT)
    mn = lambda p, q: z3.If(z3.ULE(p, q), p, q)
    mx = lambda p, q: z3.If(z3.ULE(p, q), q, p)
    D = (lambda i: DG(i)) if diag else (lambda i: z3.BoolVal(False))
    want = {LO: lambda i: z3.If(D(i), a.lo(i), mx(a.lo(i), b.lo(i))), UP: lambda i: z3.If(D(i), a.up(i), mn(a.up(i), b.up(i)))}

    def cands(ex, s0, lv):
        o = []
        for nm, g in lv.idx(s0, a.a):
            o.append(("%s<=n" % nm, lambda s, e, g=g: z3.ULE(g(s, e), a.n)))
            o.append(("%s built" % nm, lambda s, e, g=g: gr.size(s, out) == g(s, e)))
        bp = gr.arr(s0, out)
        for key in (LO, UP):
            o.append(("built %s" % (key,), UniInv(lambda s, e, q, v, key=key: z3.Implies(z3.ULT(q, gr.size(s, out)), v == want[key](q)), bp, key, j)))
        return o
    k.ex.loop_cands = cands
    args = [out, a.p, b.p] + ([k.ex.new_rec(st, "bits", 40)] if diag else [])
    for r in k.run(fn, args, st):
        s = r.st
        n = gr.size(s, out)
        bp = gr.arr(s, out)
        ob = s.mem[bp.obj]
        lo, up = ob.f[LO].sel(s, j), ob.f[UP].sel(s, j)
        k.prove(s, n == z3.If(a.n == b.n, a.n, BV(0, 64)), name + ": dimension of the result")
        k.prove(s, z3.Implies(z3.And(a.n == b.n, z3.ULT(j, n)), inr(x, lo, up) == z3.And(inr(x, a.lo(j), a.up(j)), z3.Or(D(j), inr(x, b.lo(j), b.up(j))))), name + ": exactly the common colours")


@contract("C08", "col.cpp")
def overlaps(k):
    bits(k)
    overlap(k, IT + "::getOverlap(%s) const" % CI, False, "overlap")


@contract("C08", "col.cpp")
def overlaps_diagonal(k):
    bits(k)
    fn = [f for f in k.m.fns if k.m.fns[f]["dem"].startswith(IT + "::getOverlap(%s, std::vector<bool" % CI)][0]
    overlap(k, fn, True, "overlap (diagonal)")


@contract("C08", "col.cpp")
def cyclic_shift(k):
    c, m, n = k.u32("colour"), k.u32("modifier"), k.u32("size of the colour type")
    st = k.st
    st.assume(z3.And(z3.UGT(n, 0), z3.ULT(n, BV(1 << 31, 32)), z3.ULT(c, n)))
    k.cover()
    S = z3.SRem(z3.ZeroExt(32, c) + z3.SignExt(32, m), z3.ZeroExt(32, n))
    n64 = z3.ZeroExt(32, n)
    k.assume_note("law used: the remainder r of signed division of x by n > 0 satisfies -n < r < n and x - r is a multiple of n")
    st.assume(z3.And(S > -n64, S < n64))
    want = z3.Extract(31, 0, z3.If(S < 0, S + n64, S))
    up = k.u32("upper")
    S2 = z3.SRem(z3.ZeroExt(32, up) + z3.SignExt(32, m), n64)
    st.assume(z3.And(S2 > -n64, S2 < n64, z3.ULT(up, n)))
    want2 = z3.Extract(31, 0, z3.If(S2 < 0, S2 + n64, S2))
    for o in k.run(IV + "::shiftInterval(unsigned int, unsigned int, unsigned int, int)", [c, up, n, m], st.copy()):
        v = o.val
        if isinstance(v, (list, tuple)):
            f, s2 = tobv(v[0], 32), tobv(v[1], 32)
        else:
            v = tobv(v, 64)
            f, s2 = z3.Extract(31, 0, v), z3.Extract(63, 32, v)
        k.prove(o.st, z3.And(f == want, z3.ULT(f, n)), "the lower end moves modifier steps around the cycle")
        k.prove(o.st, z3.And(s2 == want2, z3.ULT(s2, n)), "the upper end moves modifier steps around the cycle")


# ---- vectors of intervals, abstractly: each interval is a set of colour tuples (its first word names it) ----
IN = z3.Function("t in interval", B64, z3.BoolSort())
SND = z3.Function("interval is sound", B64, z3.BoolSort())
Q = z3.Function("interval within the bound", B64, z3.BoolSort())
KEY = (0, 8)


class Boxes:
    """interval_vector_t over abstract intervals; t: arbitrary colour tuple, w: an interval holding it (if any)"""
    def __init__(self, k):
        self.k = k
        st = k.st
        self.vm = vm = Vecs(k)
        self.n = n = k.u64("number of intervals")
        st.assume(z3.ULT(n, BV(1 << 31, 64)))
        self.ID = z3.Function("interval", B64, B64)
        self.allQ = k.boolin("all sound intervals within the bound")
        cb = lambda s, i, v: self.laws(v) + [z3.Implies(z3.And(self.allQ, z3.ULT(i, n), SND(v)), Q(v))]
        arr = Arr("intervals", 24, n, {KEY: FBase(self.ID, 64, cb)})
        self.a = Ptr(k.ex.new_obj(st, arr))
        self.v = k.rec("interval vector", IV)
        k.setvec(self.v, IV, "_intervals", self.a, n)
        self.w0 = k.u64("interval holding t")
        self.has = z3.And(z3.ULT(self.w0, n), IN(self.ID(self.w0)))
        st.assume(self.laws(self.ID(self.w0)))
        self.G = k.ex.new_rec(st, "ghost", 8)
        k.ex.store_raw(st, self.G, 8, self.w0, None)
        c = k.ex.contract
        k.assume_note("interval_t::operator|= unites (contract hull), isSound is exact (contract sound): used as contracts")

        def erase(ex, s, args, ins):
            v = ex.aptr(args[0])
            pos = vm.pos(s, v, args[1])
            k.prove(s, z3.ULT(pos, vm.size(s, v)), "erasing an interval of the vector")
            g = self.w(s)
            k.ex.store_raw(s, self.G, 8, z3.If(z3.ULT(pos, g), g - 1, z3.If(pos == g, BV(-1, 64), g)), None)
            return [(s, vm.erase(s, v, pos))]
        c(r"std::vector<PetriEngine::Colored::interval_t.*::erase\(", erase)

        def ident(s, p):
            v = k.ex.load_raw(s, p, 8, False, None)
            v = k.ex.ptr_bv(s, v) if isinstance(v, Ptr) else i64(v)
            s.assume(self.laws(v))
            return v

        def unite(ex, s, args, ins):
            p, q = ex.aptr(args[0]), ex.aptr(args[1])
            x, y = ident(s, p), ident(s, q)
            z = fresh("united", 64)
            s.assume(z3.Implies(z3.Or(IN(x), IN(y)), IN(z)))
            s.assume(z3.Implies(z3.And(SND(x), SND(y)), SND(z)))
            s.assume(z3.Implies(z3.And(Q(x), Q(y)), Q(z)))
            s.assume(self.laws(z))
            ex.store_raw(s, p, 8, z, None)
            g = self.w(s)
            k.ex.store_raw(s, self.G, 8, z3.If(self.vm.pos(s, self.v, q) == g, self.vm.pos(s, self.v, p), g), None)
            return [(s, p)]
        c(r"interval_t::operator\|=\(PetriEngine::Colored::interval_t const&\)", unite)
        c(r"interval_t::isSound\(\) const", lambda ex, s, a, i: [(s, SND(ident(s, ex.aptr(a[0]))))])
        c(r"interval_t::intersects\(", lambda ex, s, a, i: [(s, freshb("intersect"))])

    def laws(self, v):
        return [z3.Implies(IN(v), SND(v))]

    def w(self, s):
        return i64(self.k.ex.load_raw(s, self.G, 8, False, None))

    def held(self, s):
        g = self.w(s)
        return z3.Implies(self.has, z3.And(z3.ULT(g, self.vm.size(s, self.v)), IN(self.vm.at(s, self.v, KEY, g))))

    def inside(self, s, q, v):
        return z3.Implies(z3.And(self.allQ, z3.ULT(q, self.vm.size(s, self.v)), SND(v)), Q(v))


@contract("C08", "col.cpp", budget=400)
def simplifying(k):
    B = Boxes(k)
    vm = B.vm
    j = k.u64("j")
    k.cover()

    def cands(ex, s0, lv):
        size = lambda s: vm.size(s, B.v)
        out = [("t is held", lambda s, e: B.held(s)), ("size", lambda s, e: z3.ULE(size(s), B.n)), ("within", UniInv(lambda s, e, q, v: B.inside(s, q, v), B.a, KEY, j)),
               ("not empty", lambda s, e: z3.UGT(size(s), 0)), ("first sound", lambda s, e: z3.Implies(z3.UGT(size(s), 0), SND(vm.at(s, B.v, KEY, BV(0, 64)))))]
        ints = list(lv.ints(s0)) + list(lv.outer(s0))
        for n, g in ints:
            out.append(("%s<size" % n, lambda s, e, g=g: z3.ULT(g(s, e), size(s))))
            out.append(("%s<=size" % n, lambda s, e, g=g: z3.ULE(g(s, e), size(s))))
            out.append(("%s>0" % n, lambda s, e, g=g: z3.UGT(g(s, e), 0)))
            out.append(("after first %s" % n, UniInv(lambda s, e, q, v, g=g: z3.Implies(z3.And(z3.UGT(g(s, e), 0), z3.ULT(q, size(s))), SND(v)), B.a, KEY, j)))
            out.append(("all sound", UniInv(lambda s, e, q, v, g=g: z3.Implies(z3.ULT(q, size(s)), SND(v)), B.a, KEY, j)))
            out.append(("sound behind %s" % n, UniInv(lambda s, e, q, v, g=g: z3.Implies(z3.And(z3.ULT(q, size(s)), z3.UGT(q, g(s, e))), SND(v)), B.a, KEY, j)))
            for m, h in ints:
                if m != n:
                    out.append(("%s<=%s" % (n, m), lambda s, e, g=g, h=h: z3.ULE(g(s, e), h(s, e))))
        return out
    k.ex.loop_cands = cands
    for o in k.run(IV + "::simplify()", [B.v]):
        s = o.st
        v = vm.at(s, B.v, KEY, j)
        inb = z3.ULT(j, vm.size(s, B.v))
        k.prove(s, B.held(s), "simplify: a colour of some interval is still in some interval")
        k.prove(s, B.inside(s, j, v), "simplify: no interval leaves the hull")
        k.prove(s, z3.Implies(inb, SND(v)), "simplify: only sound intervals remain")


@contract("C08", "col.cpp", budget=400)
def limiting(k):
    """restrict(k): relative to simplify's contract and getClosestIntervals returning two different intervals"""
    k.assume_note("getClosestIntervals returns two different intervals of the vector (assumed; exercised by the replay)")
    B = Boxes(k)
    vm = B.vm
    st = k.st
    lim = k.u32("k")
    j = k.u64("j")
    k.cover()

    def simp(ex, s, args, ins):
        n1, g1 = fresh("left", 64), fresh("holds t", 64)
        F = z3.Function("interval after simplify %d" % len(k.ex.obls), B64, B64)
        s.assume(z3.ULE(n1, vm.size(s, B.v)))
        k.prove(s, B.held(s), "t is held before simplify")
        s.assume(z3.Implies(B.has, z3.And(z3.ULT(g1, n1), IN(F(g1)))))
        o = s.mem[B.a.obj].copy()
        o.f[KEY] = FBase(F, 64, lambda s2, i, v: B.laws(v) + [z3.Implies(z3.ULT(i, n1), SND(v))])
        s.mem[B.a.obj] = o
        vm.set(s, B.v, B.a, n1)
        k.ex.store_raw(s, B.G, 8, g1, None)
        return [(s, None)]
    k.ex.contract(r"interval_vector_t::simplify\(\)", simp)

    CH = k.ex.new_rec(st, "chosen pair", 16)
    for o in (0, 8):
        k.ex.store_raw(st, CH.plus(o), 8, BV(0, 64), None)

    def closest(ex, s, args, ins):
        x, y = fresh("id1", 32), fresh("id2", 32)
        n = vm.size(s, B.v)
        k.prove(s, z3.UGE(n, 2), "two intervals to choose from")
        s.assume(z3.And(z3.ULT(x, y), z3.ULT(z64(y), n)))
        k.ex.store_raw(s, CH, 8, z64(x), None)
        k.ex.store_raw(s, CH.plus(8), 8, z64(y), None)
        if ins["ty"] == "void":
            p = ex.aptr(args[0])
            for o, v in ((0, x), (4, y), (8, fresh("dist", 32))):
                ex.store_raw(s, p.plus(o), 4, v, None)
            return [(s, None)]
        return [(s, [z3.Concat(y, x), fresh("dist", 32)])]
    k.ex.contract(r"interval_vector_t::getClosestIntervals\(\)", closest)
    # component-wise uniting: interval[l] |= other[l] for every l is what operator|= does (contract hull); seen here as one union when l starts
    comps = k.u64("components")
    st.assume(z3.And(z3.UGT(comps, 0), z3.ULT(comps, BV(1 << 31, 64))))
    k.ex.contract(r"interval_t::size\(\) const", lambda ex, s, a, i: [(s, comps)])
    cell = k.ex.new_rec(st, "component", 8)
    other = k.ex.new_rec(st, "other component", 8)
    U = k.ex.new_rec(st, "united so far", 24)       # elements being united, components done
    for o in (0, 8, 16):
        k.ex.store_raw(st, U.plus(o), 8, BV(-1 if o < 16 else 0, 64), None)
    k.assume_note("restrict: the component loop interval[l] |= other[l] is tracked by its component count; that all components united means the intervals united is the contract of operator|=")

    def at(ex, s, a, i):
        dem = ex.m.fns[i["callee"][1]]["dem"]
        pos = vm.pos(s, B.v, a[0])
        c = dem.endswith("const")
        k.ex.store_raw(s, U.plus(8 if c else 0), 8, pos, None)
        r = k.ex.new_rec(s, "range", 8)
        for o in (0, 4):
            k.ex.store_raw(s, r.plus(o), 4, i64(a[1]) if False else fresh("bound", 32), None)
        s.ghost[("comp", r.obj)] = (pos, i64(a[1]))
        return [(s, r)]
    k.ex.contract(r"interval_t::operator\[\]\(unsigned long\)( const)?", at)

    def ror(ex, s, a, i):
        x, y = ex.aptr(a[0]), ex.aptr(a[1])
        (p, l), (q, m) = s.ghost[("comp", x.obj)], s.ghost[("comp", y.obj)]
        done = i64(k.ex.load_raw(s, U.plus(16), 8, False, None))
        k.prove(s, z3.And(l == m, l == done), "components are united one by one")
        k.ex.store_raw(s, U.plus(16), 8, done + 1, None)
        k.ex.store_raw(s, U, 8, p, None)
        k.ex.store_raw(s, U.plus(8), 8, q, None)
        return [(s, x)]
    k.ex.contract(r"range_t::operator\|=\(PetriEngine::Reachability::range_t const&\)", ror)

    def erase(ex, s, args, ins):
        v = ex.aptr(args[0])
        pos = vm.pos(s, v, args[1])
        get = lambda o: i64(k.ex.load_raw(s, U.plus(o), 8, False, None))
        p, q, done = get(0), get(8), get(16)
        n = vm.size(s, v)
        k.prove(s, z3.And(z3.ULT(p, n), z3.ULT(q, n), p != q, pos == q, done == comps), "only an interval united into another one is erased")
        o = s.mem[B.a.obj].copy()
        x, y = o.f[KEY].sel(s, p), o.f[KEY].sel(s, q)
        z = fresh("united", 64)
        s.assume(z3.Implies(z3.Or(IN(x), IN(y)), IN(z)))
        s.assume(z3.Implies(z3.And(SND(x), SND(y)), SND(z)))
        s.assume(B.laws(z))
        o.f[KEY] = FStore(o.f[KEY], p, z)
        s.mem[B.a.obj] = o
        g = B.w(s)
        g = z3.If(q == g, p, g)
        k.ex.store_raw(s, B.G, 8, z3.If(z3.ULT(pos, g), g - 1, g), None)
        k.ex.store_raw(s, U.plus(16), 8, BV(0, 64), None)
        return [(s, vm.erase(s, v, pos))]
    k.ex.contract_first(r"std::vector<PetriEngine::Colored::interval_t.*::erase\(", erase)

    def cands(ex, s0, lv):
        size = lambda s: vm.size(s, B.v)
        get = lambda s, o: i64(k.ex.load_raw(s, U.plus(o), 8, False, None))
        out = [("t is held", lambda s, e: B.held(s)), ("size", lambda s, e: z3.ULE(size(s), B.n)), ("nothing half united", lambda s, e: get(s, 16) == 0), ("size>k", lambda s, e: z3.UGT(size(s), z64(lim)))]
        for n, g in lv.ints(s0):
            out.append(("%s components done" % n, lambda s, e, g=g: z3.And(get(s, 16) == g(s, e), z3.ULE(g(s, e), comps))))
        ids = lambda s: [i64(k.ex.load_raw(s, CH.plus(o), 8, False, None)) for o in (0, 8)]
        out.append(("the pair being united is the pair chosen", lambda s, e: z3.Implies(z3.UGT(get(s, 16), 0), z3.And(get(s, 0) == ids(s)[0], get(s, 8) == ids(s)[1]))))
        out.append(("chosen", lambda s, e: z3.And(z3.ULT(ids(s)[0], ids(s)[1]), z3.ULT(ids(s)[1], size(s)))))
        return out
    k.ex.loop_cands = cands
    for o in k.run(IV + "::restrict(unsigned int)", [B.v, lim]):
        s = o.st
        k.prove(s, B.held(s), "restrict: a colour of some interval is still in some interval")
        k.prove(s, z3.Implies(lim != 0, z3.ULE(vm.size(s, B.v), z64(lim))), "restrict: at most k intervals remain")


class Comp:
    """interval_vector_t seen at one arbitrary component c of every interval (element fields: lower and upper bound of component c);
    reading or writing another component is reading or writing unrelated memory"""
    def __init__(self, k, bound=None):
        self.k = k
        st = k.st
        self.vm = Vecs(k)
        self.n = n = k.u64("number of intervals")
        st.assume(z3.ULT(n, BV(1 << 31, 64)))
        F = lambda f: z3.Function("component" + f, B64, z3.BitVecSort(32))
        self.lo, self.up = F(".lower"), F(".upper")
        cb = lambda s, i, v: [z3.Implies(z3.ULT(i, n), z3.ULE(self.lo(i), self.up(i)))] + ([z3.ULT(v, bound)] if bound is not None else [])
        arr = Arr("intervals", 24, n, {LO: FBase(self.lo, 32, cb), UP: FBase(self.up, 32, cb)})
        self.a = Ptr(k.ex.new_obj(st, arr))
        self.v = k.rec("interval vector", IV)
        k.setvec(self.v, IV, "_intervals", self.a, n)
        self.c, self.dim = k.u64("c"), k.u64("components")
        st.assume(z3.And(z3.ULT(self.c, self.dim), z3.ULT(self.dim, BV(1 << 31, 64))))
        st.assume(z3.ULE(self.lo(BV(0, 64)), self.up(BV(0, 64))))
        self.X = k.ex.new_rec(st, "element written", 8)
        k.ex.store_raw(st, self.X, 8, BV(0, 64), None)
        self.junk = [k.ex.new_rec(st, "other component %d" % i, 8) for i in range(2)]
        for q in self.junk:
            for o in (0, 4):
                k.ex.store_raw(st, q.plus(o), 4, fresh("other", 32), None)
        k.assume_note("every interval of a vector has the same number of components")
        k.ex.contract(r"interval_t::size\(\) const", lambda ex, s, a, i: [(s, self.dim)])

        def at(ex, s, a, i):
            dem = ex.m.fns[i["callee"][1]]["dem"]
            const = dem.endswith("const")
            p = ex.aptr(a[0])
            j = i64(a[1])
            k.prove(s, z3.ULT(j, self.dim), "component inside the interval")
            t, f = s.copy(), s
            if not const and p.obj == self.a.obj:
                k.ex.store_raw(t, self.X, 8, self.vm.pos(t, self.v, p), None)
            t.assume(j == self.c)
            f.assume(j != self.c)
            q = self.junk[1 if const else 0]
            x, y = fresh("other", 32), fresh("other", 32)
            if bound is not None:
                f.assume(z3.And(z3.ULT(x, bound), z3.ULT(y, bound)))
            k.ex.store_raw(f, q, 4, x, None)
            k.ex.store_raw(f, q.plus(4), 4, y, None)
            return [(t, p), (f, q)]
        k.ex.contract(r"interval_t::operator\[\]\(unsigned long\)( const)?", at)

    def get(self, s, i):
        return self.vm.at(s, self.v, LO, i), self.vm.at(s, self.v, UP, i)

    def x(self, s):
        return i64(self.k.ex.load_raw(s, self.X, 8, False, None))


@contract("C08", "col.cpp", budget=400)
def adding(k):
    """addInterval: every interval keeps (or grows) its range in every component, and one interval covers the added one"""
    M = Comp(k)
    vm, st = M.vm, k.st
    b = k.rec("added interval", IT)
    bl, bu = k.u32("added.lower"), k.u32("added.upper")
    st.assume(z3.ULE(bl, bu))
    k.ex.store_raw(st, b, 4, bl, None)
    k.ex.store_raw(st, b.plus(4), 4, bu, None)
    w, j = k.u64("w"), k.u64("j")
    has = z3.ULT(w, M.n)
    G = k.ex.new_rec(st, "where w is", 16)
    k.ex.store_raw(st, G, 8, w, None)
    k.ex.store_raw(st, G.plus(8), 8, BV(0, 64), None)
    g_ = lambda s: i64(k.ex.load_raw(s, G, 8, False, None))
    k.cover()

    def ins(ex, s, args, i):
        dem = ex.m.fns[i["callee"][1]]["dem"]
        v = ex.aptr(args[0])
        n = vm.size(s, v)
        back = "emplace_back" in dem or "push_back" in dem
        pos = n if back else vm.pos(s, v, args[1])
        k.prove(s, z3.ULE(pos, n), "inserting inside the vector")
        src = ex.aptr(args[1] if back else args[2])
        vals = {key: tobv(k.ex.load_raw(s, src.plus(key[0]), 4, False, None), 32) for key in (LO, UP)}
        it = vm.insert(s, v, pos, vals)
        g = g_(s)
        k.ex.store_raw(s, G, 8, z3.If(z3.ULE(pos, g), g + 1, g), None)
        k.ex.store_raw(s, M.X, 8, pos, None)
        return [(s, it if i["ty"] == "ptr" else None)]
    k.ex.contract(r"std::vector<PetriEngine::Colored::interval_t.*::(emplace_back|push_back|emplace|insert)(<.*>)?\(", ins)

    def cands(ex, s0, lv):
        out = [("%s grows" % (key,), UniInv(lambda s, e, q, v, key=key: z3.Implies(z3.ULT(q, M.n), z3.ULE(v, M.lo(q)) if key == LO else z3.UGE(v, M.up(q))), M.a, key, j)) for key in (LO, UP)]
        cover = lambda s: (lambda r: z3.And(z3.ULE(r[0], bl), z3.UGE(r[1], bu)))(M.get(s, M.x(s)))
        for nm, g in lv.idx(s0, M.a):
            out.append(("%s<=n" % nm, lambda s, e, g=g: z3.ULE(g(s, e), M.n)))
        for nm, g in lv.ints(s0):
            for n2, h in lv.idx(s0, M.a):
                if n2 != nm:
                    out.append(("%s=%s" % (nm, n2), lambda s, e, g=g, h=h: g(s, e) == h(s, e)))
            out.append(("%s>c: covered" % nm, lambda s, e, g=g: z3.Implies(z3.UGT(g(s, e), M.c), z3.And(z3.ULT(M.x(s), M.n), cover(s)))))
            out.append(("%s<=dim" % nm, lambda s, e, g=g: z3.ULE(g(s, e), M.dim)))
        return out
    k.ex.loop_cands = cands
    for o in k.run(IV + "::addInterval(%s)" % CI, [M.v, b]):
        s = o.st
        if o.kind != "ret":
            continue
        n = vm.size(s, M.v)
        g, x = g_(s), M.x(s)
        lo, up = M.get(s, g)
        k.prove(s, z3.Implies(has, z3.And(z3.ULT(g, n), z3.ULE(lo, M.lo(w)), z3.UGE(up, M.up(w)))), "addInterval: every interval keeps its colours")
        lo, up = M.get(s, x)
        k.prove(s, z3.And(z3.ULT(x, n), z3.ULE(lo, bl), z3.UGE(up, bu)), "addInterval: the added colours are covered by one interval")


def constraining(k, lower):
    M = Comp(k)
    vm, st = M.vm, k.st
    strict = k.boolin("strict")
    VAL = z3.Function("value", B64, z3.BitVecSort(32))
    vals = k.arr("values", "unsigned int", M.dim, ro=True)
    a = st.mem[vals.obj].copy()
    a.f = {(0, 4): FBase(VAL, 32)}
    st.mem[vals.obj] = a
    vec = k.rec("values vector", "std::vector<unsigned int>") if False else k.ex.new_rec(st, "values vector", 24)
    k.setvec(vec, None, "", vals, M.dim)
    q0, x = k.u64("q"), k.u32("x")
    V = VAL(M.c)
    ok = lambda y: z3.If(strict, z3.UGT(y, V) if lower else z3.ULT(y, V), z3.UGE(y, V) if lower else z3.ULE(y, V))
    k.cover()
    done = []

    def spec(q, lo, up, y):
        return inr(y, lo, up) == z3.And(inr(y, M.lo(q), M.up(q)), ok(y))

    def cands(ex, s0, lv):
        out = []
        ints = list(lv.ints(s0)) + list(lv.outer(s0))
        for nm, g in ints:
            out.append(("%s<=n" % nm, lambda s, e, g=g: z3.ULE(g(s, e), M.n)))
            out.append(("%s<n" % nm, lambda s, e, g=g: z3.ULT(g(s, e), M.n)))
            out.append(("%s<=dim" % nm, lambda s, e, g=g: z3.ULE(g(s, e), M.dim)))

            def proc(s, e, q, g=g):
                return z3.ULT(q, g(s, e))
            out += uni("before %s" % nm, proc)
            for n2, h in ints:
                if n2 != nm:
                    def proc2(s, e, q, g=g, h=h):
                        return z3.Or(z3.ULT(q, g(s, e)), z3.And(q == g(s, e), z3.ULT(M.c, h(s, e))))
                    out += uni("before %s,%s" % (nm, n2), proc2)
        return out

    def uni(nm, proc):
        def f(s, e, q, v):
            lo, up = M.get(s, q)
            return z3.Implies(z3.ULT(q, M.n), z3.If(proc(s, e, q), spec(q, lo, up, x), z3.And(lo == M.lo(q), up == M.up(q))))
        return [("restricted %s %s" % (nm, key), UniInv(f, M.a, key, q0)) for key in (LO, UP)]
    k.ex.loop_cands = cands

    def simp(ex, s, args, ins):
        lo, up = M.get(s, q0)
        nm = "constrainLower" if lower else "constrainUpper"
        k.prove(s, z3.Implies(z3.ULT(q0, M.n), spec(q0, lo, up, x)), nm + ": before merging, each component keeps exactly the colours within the bound")
        k.prove(s, vm.size(s, M.v) == M.n, nm + ": no interval is dropped before merging")
        done.append(1)
        return [(s, None)]
    k.ex.contract(r"interval_vector_t::simplify\(\)", simp)
    nm = "constrainLower" if lower else "constrainUpper"
    fn = [f for f in k.m.fns if k.m.fns[f]["dem"].startswith(IV + "::%s(" % nm)][0]
    for o in k.run(fn, [M.v, vec, tobv(strict, 8) if False else strict]):
        k.prove(o.st, z3.BoolVal(bool(done)), nm + ": the result is simplified")


@contract("C08", "col.cpp", budget=400)
def lower_bounds(k):
    constraining(k, True)


@contract("C08", "col.cpp", budget=400)
def upper_bounds(k):
    constraining(k, False)
