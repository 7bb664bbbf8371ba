"""TAR predicates: range algebra, range vectors, refutation of a query by a range vector."""
from frame import *
from vecmodel import Vecs

R = "PetriEngine::Reachability::"
RT_, PR, PV = R + "range_t", R + "placerange_t", R + "prvector_t"
MAX = BV(0xffffffff, 32)
LO, UP, PL = (0, 4), (4, 4), (8, 4)


def rng(k, name, sound=True):
    r = k.rec(name, RT_)
    lo, up = k.u32(name + ".lower"), k.u32(name + ".upper")
    k.setf(r, RT_, "_lower", lo)
    k.setf(r, RT_, "_upper", up)
    if sound:
        k.st.assume(z3.ULE(lo, up))
    return r, lo, up


def i64(v):
    return v.bv() if isinstance(v, Lin) else tobv(v, 64)


def inr(x, lo, up):
    return z3.And(z3.ULE(lo, x), z3.ULE(x, up))


def pair(v):
    """std::pair<bool,bool> returned in an i16"""
    if isinstance(v, (list, tuple)):
        return tobool(v[0]), tobool(v[1])
    v = tobv(v, 16)
    return z3.Extract(7, 0, v) != 0, z3.Extract(15, 8, v) != 0


@contract("C07", "tar.cpp")
def range_predicates(k):
    """contains, unbound, compare, intersects say what the set of token counts says"""
    a, al, au = rng(k, "a")
    b, bl, bu = rng(k, "b")
    x = k.u32("x")
    k.cover()
    for o in k.run(RT_ + "::contains(unsigned int) const", [a, x]):
        k.prove(o.st, tobool(o.val) == inr(x, al, au), "contains")
    for o in k.run(RT_ + "::unbound() const", [a]):
        k.prove(o.st, z3.Implies(tobool(o.val), inr(x, al, au)), "unbound ranges contain every count")
        k.prove(o.st, z3.Implies(z3.Not(tobool(o.val)), z3.Not(z3.And(inr(BV(0, 32), al, au), inr(MAX, al, au)))), "a range that is not unbound excludes a count")
    for o in k.run(RT_ + "::no_lower() const", [a]):
        k.prove(o.st, tobool(o.val) == inr(BV(0, 32), al, au), "no_lower")
    for o in k.run(RT_ + "::no_upper() const", [a]):
        k.prove(o.st, tobool(o.val) == inr(MAX, al, au), "no_upper")
    for fn, args in ((RT_ + "::compare(", [a, b]),):
        for o in k.run(RT_ + "::compare(PetriEngine::Reachability::range_t const&) const", args):
            f, s = pair(o.val)
            k.prove(o.st, z3.Implies(z3.And(f, inr(x, bl, bu)), inr(x, al, au)), "compare.first: contains the other")
            k.prove(o.st, z3.Implies(z3.And(s, inr(x, al, au)), inr(x, bl, bu)), "compare.second: contained in the other")
            k.prove(o.st, z3.Implies(z3.And(inr(bl, al, au), inr(bu, al, au)), f), "compare.first is found")
            k.prove(o.st, z3.Implies(z3.And(inr(al, bl, bu), inr(au, bl, bu)), s), "compare.second is found")
    for o in k.run(RT_ + "::intersects(PetriEngine::Reachability::range_t const&) const", [a, b]):
        k.prove(o.st, z3.Implies(z3.And(inr(x, al, au), inr(x, bl, bu)), tobool(o.val)), "intersects when a common count exists")
        w = z3.If(z3.ULE(al, bl), bl, al)
        k.prove(o.st, z3.Implies(tobool(o.val), z3.And(inr(w, al, au), inr(w, bl, bu))), "a common count exists when intersects")


@contract("C07", "tar.cpp")
def range_updates(k):
    """&=, |=, -=, += on the set of token counts"""
    x, v = k.u32("x"), k.u32("v")
    g = lambda s, p, f: tobv(k.getf(p, RT_, f, s), 32)
    a, al, au = rng(k, "a")
    b, bl, bu = rng(k, "b")
    k.cover()
    res = lambda s: (g(s, a, "_lower"), g(s, a, "_upper"))
    st0 = k.st
    for o in k.run(RT_ + "::operator&=(PetriEngine::Reachability::range_t const&)", [a, b], st0.copy()):
        lo, up = res(o.st)
        k.prove(o.st, inr(x, lo, up) == z3.And(inr(x, al, au), inr(x, bl, bu)), "intersection of ranges")
    for o in k.run(RT_ + "::operator&=(unsigned int)", [a, v], st0.copy()):
        lo, up = res(o.st)
        k.prove(o.st, inr(x, lo, up) == (x == v), "restriction to a value")
    for o in k.run(RT_ + "::operator|=(PetriEngine::Reachability::range_t const&)", [a, b], st0.copy()):
        lo, up = res(o.st)
        k.prove(o.st, z3.Implies(z3.Or(inr(x, al, au), inr(x, bl, bu)), inr(x, lo, up)), "hull contains both")
        k.prove(o.st, z3.And(z3.Or(lo == al, lo == bl), z3.Or(up == au, up == bu)), "hull is the smallest")
    for o in k.run(RT_ + "::operator|=(unsigned int)", [a, v], st0.copy()):
        lo, up = res(o.st)
        k.prove(o.st, z3.Implies(z3.Or(inr(x, al, au), x == v), inr(x, lo, up)), "hull with a value contains both")
        k.prove(o.st, z3.And(z3.Or(lo == al, lo == v), z3.Or(up == au, up == v)), "hull with a value is the smallest")
    # -= v: counts from which producing v tokens lands in the range (no upper bound = unrestricted above)
    s = st0.copy()
    s.assume(z3.Or(au == MAX, z3.ULE(v, au)))
    w = lambda t: z3.ZeroExt(32, t)
    inx = lambda y, lo, up: z3.And(z3.ULE(w(lo), y), z3.Or(up == MAX, z3.ULE(y, w(up))))
    k.assume_note("-= v requires v <= upper unless the range has no upper bound; += v requires lower + v below 2^32-1 unless there is no lower bound (both asserted in the code)")
    for o in k.run(RT_ + "::operator-=(unsigned int)", [a, v], s):
        lo, up = res(o.st)
        k.prove(o.st, inx(w(x), lo, up) == inx(w(x) + w(v), al, au), "before producing v tokens")
    s = st0.copy()
    s.assume(z3.Or(al == 0, z3.ULT(w(al) + w(v), BV(0xffffffff, 64))))
    for o in k.run(RT_ + "::operator+=(unsigned int)", [a, v], s):
        lo, up = res(o.st)
        k.prove(o.st, z3.Implies(z3.And(inx(w(x), lo, up), z3.UGE(x, v), z3.ULT(w(au) + w(v), BV(0xffffffff, 64))), inx(w(x) - w(v), al, au)), "before consuming v tokens: lands in the range")
        k.prove(o.st, z3.Implies(inr(x, al, au), inx(w(x) + w(v), lo, up)), "before consuming v tokens: every such count is included")


@contract("C07", "tar.cpp")
def placerange_ops(k):
    """placerange_t: same operations on its range, same place only; ordering is by place"""
    a, b = k.rec("a", PR), k.rec("b", PR)
    x, v = k.u32("x"), k.u32("v")
    V = {}
    for n, p in (("a", a), ("b", b)):
        for f in ("_range._lower", "_range._upper", "_place"):
            V[n + f] = k.u32(n + f)
            k.setf(p, PR, f, V[n + f])
        k.st.assume(z3.ULE(V[n + "_range._lower"], V[n + "_range._upper"]))
    k.cover()
    al, au, bl, bu = V["a_range._lower"], V["a_range._upper"], V["b_range._lower"], V["b_range._upper"]
    for o in k.run(PR + "::operator<(PetriEngine::Reachability::placerange_t const&) const", [a, b], k.st.copy()):
        k.prove(o.st, tobool(o.val) == z3.ULT(V["a_place"], V["b_place"]), "ordered by place")
    res = lambda s: [tobv(k.getf(a, PR, f, s), 32) for f in ("_range._lower", "_range._upper", "_place")]
    for o in k.run(PR + "::compare(PetriEngine::Reachability::placerange_t const&) const", [a, b], k.st.copy()):
        f, s = pair(o.val)
        same = V["a_place"] == V["b_place"]
        k.prove(o.st, f == z3.And(same, z3.ULE(al, bl), z3.UGE(au, bu)), "compare.first")
        k.prove(o.st, s == z3.And(same, z3.UGE(al, bl), z3.ULE(au, bu)), "compare.second")
    st = k.st.copy()
    st.assume(V["a_place"] == V["b_place"])
    for o in k.run(PR + "::operator&=(PetriEngine::Reachability::placerange_t const&)", [a, b], st.copy()):
        lo, up, pl = res(o.st)
        k.prove(o.st, z3.And(inr(x, lo, up) == z3.And(inr(x, al, au), inr(x, bl, bu)), pl == V["a_place"]), "intersection at the place")
    for o in k.run(PR + "::operator&=(unsigned int)", [a, v], st.copy()):
        lo, up, pl = res(o.st)
        k.prove(o.st, z3.And(inr(x, lo, up) == (x == v), pl == V["a_place"]), "restriction to a value")


class PVec:
    """a range vector of any length, sorted strictly by place; q: arbitrary place, gi: its position when present"""
    def __init__(self, k, name, vm, q, compact=False, cbx=None):
        self.k, self.vm, self.q, self.name = k, vm, q, name
        st = k.st
        self.n = k.u64(name + ".size")
        st.assume(z3.ULT(self.n, BV(1 << 32, 64)))
        F = lambda f: z3.Function(name + f, z3.BitVecSort(64), z3.BitVecSort(32))
        self.lo, self.up, self.pl = F(".lower"), F(".upper"), F(".place")
        self.gi = k.u64(name + ".position of q")
        self.has = z3.And(z3.ULT(self.gi, self.n), self.pl(self.gi) == q)
        self.idx = [self.gi]
        self.a = k.arr(name, PR, self.n)
        ar = st.mem[self.a.obj].copy()

        def cb(s, i, v):
            fs = self.facts(i)
            if compact:
                fs.append(z3.Implies(z3.ULT(i, self.n), z3.Not(z3.And(self.lo(i) == 0, self.up(i) == MAX))))
            if cbx:
                fs += cbx(self, i)
            return fs
        ar.f[LO] = FBase(self.lo, 32, cb)
        ar.f[UP] = FBase(self.up, 32, cb)
        ar.f[PL] = FBase(self.pl, 32, cb)
        st.mem[self.a.obj] = ar
        self.v = k.rec(name + " vector", PV)
        k.setvec(self.v, PV, "_ranges", self.a, self.n)
        st.assume(cb(st, self.gi, None))

    def order(self, i, j):
        """strictly sorted (one instance)"""
        P, n = self.pl, self.n
        return [z3.Implies(z3.And(z3.ULT(i, j), z3.ULT(j, n)), z3.ULT(P(i), P(j))), z3.Implies(z3.And(z3.ULT(j, i), z3.ULT(i, n)), z3.ULT(P(j), P(i)))]

    def facts(self, i):
        fs = self.order(i, i + 1) + self.order(i - 1, i)
        for j in self.idx:
            fs += self.order(i, j)
        # q occurs at gi or nowhere
        fs.append(z3.Implies(z3.And(z3.ULT(i, self.n), self.pl(i) == self.q), i == self.gi))
        return fs

    def low(self):
        return z3.If(self.has, self.lo(self.gi), BV(0, 32))

    def upp(self):
        return z3.If(self.has, self.up(self.gi), MAX)


def lb_contract(k, vm, vec):
    """std::lower_bound over a range vector: by place, as placerange_t::operator< orders (contract placerange_ops)"""
    def h(ex, st, args, ins):
        dem = ex.m.fns[ins["callee"][1]]["dem"]
        a, b = ex.aptr(args[0]), ex.aptr(args[1])
        o = st.mem[a.obj]
        n = b.off.split(o.stride)[0].bv()
        byval = "unsigned int>" in dem.split("(")[0]
        p = ex.aptr(args[2])
        kv = tobv(ex.load_raw(st, p if byval else p.plus(8), 4, False, None), 32)
        r = fresh("lb", 64)
        st.assume(z3.ULE(r, n))
        sel = lambda i: o.f[PL].sel(st, i)
        for i in [r, r - 1] + list(vec.idx):
            st.assume(z3.Implies(z3.And(z3.ULT(i, r), z3.ULT(i, n)), z3.ULT(sel(i), kv)))
            st.assume(z3.Implies(z3.And(z3.UGE(i, r), z3.ULT(i, n)), z3.UGE(sel(i), kv)))
        vec.idx.append(r)
        for j in list(vec.idx):
            st.assume(vec.order(r, j))
            st.assume(vec.order(r - 1, j))
        st.ghost["lb"] = r
        return [(st, a.plus(Lin.of(r).scale(o.stride)))]
    k.ex.contract(r"std::lower_bound<", h)

    def ins_(ex, st, args, ins):
        dem = ex.m.fns[ins["callee"][1]]["dem"]
        v = ex.aptr(args[0])
        pos = vm.pos(st, v, args[1])
        o = st.mem[vm.begin(st, v).obj]
        n0 = vm.size(st, v)
        p = ex.aptr(args[2])
        if "::insert" in dem:
            vals = vm.elem(st, p, o)
        else:       # emplace(pos, place)
            vals = {LO: BV(0, 32), UP: MAX, PL: tobv(ex.load_raw(st, p, 4, False, None), 32)}
        k.prove(st, z3.ULE(pos, n0), "inserting inside the vector")
        it = vm.insert(st, v, pos, vals)
        st.ghost["ins"] = pos
        return [(st, it)]
    k.ex.contract(r"std::vector<PetriEngine::Reachability::placerange_t.*::(insert|emplace)(<.*>)?\(", ins_)


@contract("C07", "tar.cpp")
def lookups(k):
    """operator[], lower, upper, unbound: the range of the place, or no restriction"""
    vm = Vecs(k)
    q = k.u32("q")
    V = PVec(k, "r", vm, q)
    k.cover()
    lb_contract(k, vm, V)
    for suf in (" const", ""):
        V.idx = [V.gi]
        for o in k.run(PV + "::operator[](unsigned int)" + suf, [V.v, q], k.st.copy()):
            p = o.val
            isnull = k.ex.icmp(o.st, "eq", p, NULLP, None)
            k.prove(o.st, tobool(isnull) == z3.Not(V.has), "operator[]%s finds the place iff it is there" % suf)
            if isinstance(p, Ptr) and p.obj == V.a.obj:
                k.prove(o.st, p.off.split(12)[0].bv() == V.gi, "operator[]%s returns the entry of the place" % suf)
    for f, want in (("lower", V.low()), ("upper", V.upp()), ("unbound", None)):
        V.idx = [V.gi]
        for o in k.run(PV + "::%s(unsigned int) const" % f, [V.v, q], k.st.copy()):
            if f == "unbound":
                k.prove(o.st, tobool(o.val) == z3.And(V.low() == 0, V.upp() == MAX), "unbound")
            else:
                k.prove(o.st, tobv(o.val, 32) == want, "%s bound of the place" % f)


@contract("C07", "tar.cpp")
def add_and_restrict(k):
    """find_or_add and &=(placerange): the other places keep their range, sortedness is kept"""
    vm = Vecs(k)
    q, x = k.u32("q"), k.u32("x")
    V = PVec(k, "r", vm, q)
    p = k.u32("p")
    k.cover()
    lb_contract(k, vm, V)
    # an arbitrary pair of neighbours in the result for sortedness
    j = k.u64("j")

    def post(o, s, tag, plo, pup, gp):
        """value of q afterwards and order"""
        n2 = vm.size(s, V.v)
        r = s.ghost.get("ins")
        V.idx.append(j)
        for i in (j, j + 1, j - 1):
            s.assume(V.facts(i))
            for z in V.idx:
                s.assume(V.order(i, z))
        at = lambda key, i: vm.at(s, V.v, key, i)
        k.prove(s, z3.Implies(z3.And(z3.ULT(j, n2), z3.ULT(j + 1, n2)), z3.ULT(at(PL, j), at(PL, j + 1))), tag + ": still sorted by place")
        ng = V.gi if r is None else z3.If(z3.UGE(V.gi, r), V.gi + 1, V.gi)
        keep = z3.And(z3.ULT(ng, n2), at(PL, ng) == q, at(LO, ng) == V.lo(V.gi), at(UP, ng) == V.up(V.gi))
        k.prove(s, z3.Implies(z3.And(V.has, q != p), keep), tag + ": other places keep their range")
        k.prove(s, z3.Implies(z3.And(z3.Not(V.has), q != p, z3.ULT(j, n2)), at(PL, j) != q), tag + ": no other place appears")
        k.prove(s, z3.Implies(q == p, z3.And(z3.ULT(gp, n2), at(PL, gp) == p, at(LO, gp) == plo, at(UP, gp) == pup)), tag + ": the place has the expected range")

    for o in k.run(PV + "::find_or_add(unsigned int)", [V.v, p], k.st.copy()):
        s = o.st
        ret = o.val
        gp = ret.off.split(12)[0].bv()
        k.prove(s, z3.BoolVal(vm.begin(s, V.v).obj == ret.obj), "find_or_add returns an entry of the vector")
        k.prove(s, z3.And(z3.ULT(gp, vm.size(s, V.v)), vm.at(s, V.v, PL, gp) == p), "find_or_add returns the entry of the place")
        post(o, s, "find_or_add", V.low(), V.upp(), gp)
    V.idx = [V.gi]
    c = k.rec("other", PR)
    cl, cu = k.u32("c.lower"), k.u32("c.upper")
    for f, v in (("_range._lower", cl), ("_range._upper", cu), ("_place", p)):
        k.setf(c, PR, f, v)
    mx = lambda a, b: z3.If(z3.UGE(a, b), a, b)
    mn = lambda a, b: z3.If(z3.ULE(a, b), a, b)
    for o in k.run(PV + "::operator&=(PetriEngine::Reachability::placerange_t const&)", [V.v, c], k.st.copy()):
        s = o.st
        post(o, s, "&=", mx(V.low(), cl), mn(V.upp(), cu), s.ghost["lb"])


@contract("C07", "tar.cpp")
def compare_sound(k):
    """compare: what it claims about inclusion is so (at an arbitrary place q)"""
    vm = Vecs(k)
    q, x = k.u32("q"), k.u32("x")
    A, B = PVec(k, "a", vm, q, compact=True), PVec(k, "b", vm, q, compact=True)
    k.cover()

    def cands(ex, st, lv):
        out = []
        ia, ib = lv.idx(st, A.a), lv.idx(st, B.a)
        fl = lv.flags(st)
        for n1, ga in ia:
            out.append(("%s<=na" % n1, lambda s, e, ga=ga: z3.ULE(ga(s, e), A.n)))
            for n2, gb in ib:
                if n1 == n2:
                    continue
                def both(s, e, ga=ga, gb=gb):
                    i, j = ga(s, e), gb(s, e)
                    s.assume(A.facts(i)); s.assume(B.facts(j))
                    return i, j
                # q is passed in both or in neither
                out.append(("%s %s in step" % (n1, n2), lambda s, e, both=both: (lambda ij: z3.And(
                    z3.Implies(z3.And(z3.UGT(ij[0], 0), z3.ULT(ij[1], B.n)), z3.ULT(A.pl(ij[0] - 1), B.pl(ij[1]))),
                    z3.Implies(z3.And(z3.UGT(ij[1], 0), z3.ULT(ij[0], A.n)), z3.ULT(B.pl(ij[1] - 1), A.pl(ij[0])))))(both(s, e))))
                for fn_, gf in fl:
                    out.append(("%s: first, %s %s" % (fn_, n1, n2), lambda s, e, both=both, gf=gf: (lambda ij: z3.Implies(z3.And(gf(s, e), A.has, z3.ULT(A.gi, ij[0])), z3.And(B.has, z3.ULE(A.low(), B.low()), z3.UGE(A.upp(), B.upp()))))(both(s, e))))
                    out.append(("%s: second, %s %s" % (fn_, n1, n2), lambda s, e, both=both, gf=gf: (lambda ij: z3.Implies(z3.And(gf(s, e), B.has, z3.ULT(B.gi, ij[1])), z3.And(A.has, z3.ULE(B.low(), A.low()), z3.UGE(B.upp(), A.upp()))))(both(s, e))))
        for n2, gb in ib:
            out.append(("%s<=nb" % n2, lambda s, e, gb=gb: z3.ULE(gb(s, e), B.n)))
        return out + lv.bytes01(st)
    k.ex.loop_cands = cands
    for o in k.run(PV + "::compare(PetriEngine::Reachability::prvector_t const&) const", [A.v, B.v]):
        f, s = pair(o.val)
        st = o.st
        k.prove(st, z3.Implies(z3.And(f, inr(x, B.low(), B.upp())), inr(x, A.low(), A.upp())), "compare.first: the first predicate contains the second")
        k.prove(st, z3.Implies(z3.And(s, inr(x, A.low(), A.upp())), inr(x, B.low(), B.upp())), "compare.second: the second predicate contains the first")


def complete(which):
    def body(k):
        vm = Vecs(k)
        q = k.u32("q")
        W = z3.Function("where", z3.BitVecSort(64), z3.BitVecSort(64))
        box = {}

        def cbA(V, i):
            # assumption 'first contains second': every restricted place of A is restricted at least as much in B, at position W(i)
            if "B" not in box:
                return []
            B = box["B"]
            return inst(V, i)

        def inst(A, i):
            B = box["B"]
            w = W(i)
            return [z3.Implies(z3.ULT(i, A.n), z3.And(z3.ULT(w, B.n), B.pl(w) == A.pl(i), z3.ULE(A.lo(i), B.lo(w)), z3.UGE(A.up(i), B.up(w))))] + B.order(w, W(i + 1)) + B.order(W(i - 1), w)
        A = PVec(k, "a", vm, q, compact=True, cbx=cbA if which == 0 else None)
        B = PVec(k, "b", vm, q, compact=True, cbx=cbA if which == 1 else None)
        big, small = (A, B) if which == 0 else (B, A)
        box["B"] = small
        k.cover()
        k.assume_note("hypothesis of the completeness contracts: every restricted place of the larger predicate is restricted at least as tightly in the smaller one (Skolem position 'where')")

        def cands(ex, st, lv):
            out = []
            ia, ib = lv.idx(st, big.a), lv.idx(st, small.a)
            for n1, g in ia:
                out.append(("%s<=n" % n1, lambda s, e, g=g: z3.ULE(g(s, e), big.n)))
                for n2, h in ib:
                    if n1 == n2:
                        continue

                    def inv(s, e, g=g, h=h):
                        i, j = g(s, e), h(s, e)
                        for x in (i, i + 1):
                            s.assume(inst(big, x))
                            s.assume(big.facts(x))
                            s.assume(small.order(W(x), j))
                        s.assume(small.facts(j))
                        return z3.Implies(z3.ULT(i, big.n), z3.UGE(W(i), j))
                    out.append(("%s before %s" % (n1, n2), inv))
            for n2, h in ib:
                out.append(("%s<=n" % n2, lambda s, e, h=h: z3.ULE(h(s, e), small.n)))
            for f, g in lv.flags(st):
                out.append((f, g))
            return out + lv.bytes01(st)
        k.ex.loop_cands = cands
        for o in k.run(PV + "::compare(PetriEngine::Reachability::prvector_t const&) const", [A.v, B.v]):
            r = pair(o.val)[which]
            k.prove(o.st, r, "compare.%s is found whenever the inclusion holds" % ("first", "second")[which])
    return body


@contract("C07", "tar.cpp")
def compare_complete_first(k):
    complete(0)(k)


@contract("C07", "tar.cpp")
def compare_complete_second(k):
    complete(1)(k)


@contract("C07", "tar.cpp")
def scans(k):
    """is_true, is_false, is_compact"""
    vm = Vecs(k)
    q, x = k.u32("q"), k.u32("x")
    V = PVec(k, "r", vm, q)
    np = k.u64("nplaces")
    k.cover()
    for o in k.run(PV + "::is_true() const", [V.v], k.st.copy()):
        k.prove(o.st, tobool(o.val) == (V.n == 0), "is_true: no place is restricted")

    bad = {}

    def cands(ex, st, lv):
        out = []
        for n, g in lv.idx(st, V.a):
            out.append(("%s<=n" % n, lambda s, e, g=g: z3.ULE(g(s, e), V.n)))
            out.append(("%s: zero so far" % n, lambda s, e, g=g: z3.Implies(z3.And(z3.ULT(V.gi, g(s, e)), V.has), z3.And(V.lo(V.gi) == 0, V.up(V.gi) == 0))))
            out.append(("%s: restricted so far" % n, lambda s, e, g=g: z3.Implies(z3.And(z3.ULT(V.gi, g(s, e)), V.has), z3.Not(z3.And(V.lo(V.gi) == 0, V.up(V.gi) == MAX)))))
        return out
    k.ex.loop_cands = cands
    for o in k.run(PV + "::is_false(unsigned long) const", [V.v, np], k.st.copy()):
        k.prove(o.st, z3.Implies(z3.And(tobool(o.val), V.has), z3.And(V.lo(V.gi) == 0, V.up(V.gi) == 0)), "is_false: every range is [0,0]")
        k.prove(o.st, z3.Implies(tobool(o.val), V.n == np), "is_false: every place is restricted")
    for o in k.run(PV + "::is_compact() const", [V.v], k.st.copy()):
        k.prove(o.st, z3.Implies(z3.And(tobool(o.val), V.has), z3.Not(z3.And(V.lo(V.gi) == 0, V.up(V.gi) == MAX))), "is_compact: no listed place is unrestricted")
    # the other direction: when it is so for every entry, they say so
    for fn, fact, args in (("is_false(unsigned long) const", lambda i: z3.And(V.lo(i) == 0, V.up(i) == 0), [np]), ("is_compact() const", lambda i: z3.Not(z3.And(V.lo(i) == 0, V.up(i) == MAX)), [])):
        s = k.st.copy()
        s.assume(V.n == np)
        a = s.mem[V.a.obj].copy()
        for key, f in ((LO, V.lo), (UP, V.up), (PL, V.pl)):
            a.f[key] = FBase(f, 32, lambda st, i, v, fact=fact: [z3.Implies(z3.ULT(i, V.n), fact(i))])
        s.mem[V.a.obj] = a
        for o in k.run(PV + "::" + fn, [V.v] + args, s):
            k.prove(o.st, tobool(o.val), fn.split("(")[0] + " is recognised")


@contract("C07", "tar.cpp")
def restricts(k):
    """restricts(writes): true iff a written place has a restriction (both lists sorted)"""
    vm = Vecs(k)
    q = k.u32("q")
    m = k.u64("nwrites")
    k.st.assume(z3.ULT(m, BV(1 << 32, 64)))
    W = z3.Function("writes", z3.BitVecSort(64), z3.BitVecSort(64))
    wi = k.u64("position of q in writes")
    base = k.st
    for mode in ("sound", "complete"):
        st = k.st = base.copy()
        unb = lambda V, i: z3.And(V.lo(i) == 0, V.up(i) == MAX)

        def no_restricted(V, i, j):
            """hypothesis 'no written place is restricted', at write i and entry j"""
            return z3.Implies(z3.And(z3.ULT(i, m), z3.ULT(j, V.n), W(i) == z64(V.pl(j))), unb(V, j))

        cell = {}

        def worder(i, j):
            return [z3.Implies(z3.And(z3.ULT(i, j), z3.ULT(j, m)), W(i) < W(j)), z3.Implies(z3.And(z3.ULT(j, i), z3.ULT(i, m)), W(j) < W(i))]

        def wcb(s, i, v):
            fs = worder(i, wi) + worder(i, i + 1) + [z3.Implies(z3.ULT(i, m), z3.And(W(i) >= 0, W(i) < BV(1 << 32, 64)))]
            if mode == "sound":
                s.ghost["ws"] = s.ghost.get("ws", ()) + (i,)
                fs += [no_restricted(V, i, j) for j in s.ghost.get("vs", ())]
            return fs
        V = PVec(k, "r" + mode, vm, q)
        if mode == "sound":
            a = st.mem[V.a.obj].copy()

            def vcb(s, j, v):
                s.ghost["vs"] = s.ghost.get("vs", ()) + (j,)
                return list(V.facts(j)) + [no_restricted(V, i, j) for i in s.ghost.get("ws", ())]
            for key, f in ((LO, V.lo), (UP, V.up), (PL, V.pl)):
                a.f[key] = FBase(f, 32, vcb)
            st.mem[V.a.obj] = a
        else:
            st.assume(z3.And(V.has, z3.Not(unb(V, V.gi)), z3.ULT(wi, m), W(wi) == z64(q)))
        wa = k.arr("writes" + mode, "long", m, ro=True)
        a = st.mem[wa.obj].copy()
        a.f[(0, 8)] = FBase(W, 64, wcb)
        st.mem[wa.obj] = a
        wv = k.ex.new_rec(st, "writes vector", 24)
        k.setvec(wv, None, None, wa, m)
        k.cover(st, "%s: precondition satisfiable" % mode)

        def cands(ex, s0, lv, V=V, wa=wa, mode=mode):
            out = []
            for n1, g in lv.idx(s0, V.a):
                out.append(("%s<=n" % n1, lambda s, e, g=g: z3.ULE(g(s, e), V.n)))
                if mode == "complete":
                    out.append(("%s<=gi" % n1, lambda s, e, g=g: z3.ULE(g(s, e), V.gi)))
            for n2, h in lv.idx(s0, wa):
                out.append(("%s<=m" % n2, lambda s, e, h=h: z3.ULE(h(s, e), m)))
                if mode == "complete":
                    out.append(("%s<=wi" % n2, lambda s, e, h=h: z3.ULE(h(s, e), wi)))
            return out
        k.ex.loop_cands = cands
        for o in k.run(PV + "::restricts(std::vector<long, std::allocator<long>> const&) const", [V.v, wv], st):
            if mode == "complete":
                k.prove(o.st, tobool(o.val), "a written restricted place is reported")
            else:
                k.prove(o.st, z3.Not(tobool(o.val)), "nothing is reported when no written place is restricted")


@contract("C07", "tar.cpp")
def compacting(k):
    """compact/compress: the entries removed are the unrestricted ones, the others stay, in order"""
    vm = Vecs(k)
    q = k.u32("q")
    base = k.st
    for fn in ("compact", "compress"):
        st = k.st = base.copy()
        V = PVec(k, fn, vm, q)
        G = k.ex.new_rec(st, "ghost", 16)      # where the entry of q is now; 1 once removed
        k.ex.store_raw(st, G, 8, V.gi, None)
        k.ex.store_raw(st, G.plus(8), 8, BV(0, 64), None)
        k.cover(st, fn + ": precondition satisfiable")
        get = lambda s, o: tobv(k.ex.load_raw(s, G.plus(o), 8, False, None), 64)

        def erase(ex, s, args, ins):
            v = ex.aptr(args[0])
            pos = vm.pos(s, v, args[1])
            n = vm.size(s, v)
            k.prove(s, z3.ULT(pos, n), "erasing an entry of the vector")
            g = get(s, 0)
            dead = get(s, 8)
            k.ex.store_raw(s, G.plus(8), 8, z3.If(z3.And(dead == 0, V.has, pos == g), BV(1, 64), dead), None)
            k.ex.store_raw(s, G, 8, z3.If(z3.ULT(pos, g), g - 1, g), None)
            return [(s, vm.erase(s, v, pos))]
        k.ex.contract(r"std::vector<PetriEngine::Reachability::placerange_t.*::erase\(", erase)
        j = k.u64("j")

        def ent(s, i):
            return [vm.at(s, V.v, key, i) for key in (LO, UP, PL)]

        def kept(s):
            g = get(s, 0)
            lo, up, pl = ent(s, g)
            return z3.Implies(V.has, z3.If(get(s, 8) == 0, z3.And(z3.ULT(g, vm.size(s, V.v)), lo == V.lo(V.gi), up == V.up(V.gi), pl == q), z3.And(V.lo(V.gi) == 0, V.up(V.gi) == MAX)))

        def cands(ex, s0, lv, V=V):
            out = [("entry of q kept or unrestricted", lambda s, e: kept(s)), ("size", lambda s, e: z3.ULE(vm.size(s, V.v), V.n)),
                   ("flag", lambda s, e: z3.ULE(get(s, 8), 1))]
            for n, g in lv.ints(s0):
                out.append(("%s<n" % n, lambda s, e, g=g: z3.And(g(s, e) >= BV(-1, 64), g(s, e) < vm.size(s, V.v))))
                out.append(("%s<=n" % n, lambda s, e, g=g: z3.And(g(s, e) >= 0, g(s, e) <= vm.size(s, V.v))))
                for op, d in (("behind %s", 0), ("from %s", 1)):
                    def restr(s, e, q2, v, g=g, d=d):
                        up = vm.at(s, V.v, UP, q2)
                        return z3.Implies(z3.And(z3.ULT(q2, vm.size(s, V.v)), (q2 >= g(s, e)) if d else (q2 > g(s, e))), z3.Not(z3.And(v == 0, up == MAX)))
                    out.append((("restricted " + op) % n, UniInv(restr, V.a, LO, j)))
            # nothing new appears
            out.append(("absent places stay absent", UniInv(lambda s, e, q2, v: z3.Implies(z3.And(z3.Not(V.has), z3.ULT(q2, vm.size(s, V.v))), v != q), V.a, PL, j)))
            return out
        k.ex.loop_cands = cands
        for o in k.run(PV + "::%s()" % fn, [V.v], st):
            s = o.st
            n = vm.size(s, V.v)
            k.prove(s, kept(s), fn + ": a place keeps its range unless it is unrestricted")
            lo, up, pl = ent(s, j)
            k.prove(s, z3.Implies(z3.ULT(j, n), z3.Not(z3.And(lo == 0, up == MAX))), fn + ": only restricted places remain")
            k.prove(s, z3.Implies(z3.And(z3.ULT(j, n), z3.Not(V.has)), pl != q), fn + ": no place appears")
        k.st = base


@contract("C07", "tar.cpp")
def ordering(k):
    """operator<: lexicographic after size; false on equal predicates, so a map keyed by it separates distinct predicates"""
    vm = Vecs(k)
    q = k.u32("q")
    st = k.st
    fd = k.u64("first difference")
    A, B = PVec(k, "a", vm, q), PVec(k, "b", vm, q)
    st.assume(z3.ULE(fd, A.n))
    eqat = lambda i: z3.And(A.pl(i) == B.pl(i), A.lo(i) == B.lo(i), A.up(i) == B.up(i))
    st.assume(z3.Implies(z3.And(z3.ULT(fd, A.n), A.n == B.n), z3.Not(eqat(fd))))
    for V in (A, B):
        a = st.mem[V.a.obj].copy()
        for key, f in ((LO, V.lo), (UP, V.up), (PL, V.pl)):
            a.f[key] = FBase(f, 32, lambda s, i, v, V=V: V.facts(i) + [z3.Implies(z3.And(z3.ULT(i, fd), A.n == B.n), eqat(i))])
        st.mem[V.a.obj] = a
    k.cover()

    def cands(ex, s0, lv):
        return [("%s<=first difference" % n, lambda s, e, g=g: z3.ULE(g(s, e), fd)) for n, g in lv.ints(s0)]
    k.ex.loop_cands = cands
    less = z3.If(A.pl(fd) != B.pl(fd), z3.ULT(A.pl(fd), B.pl(fd)), z3.If(A.lo(fd) != B.lo(fd), z3.ULT(A.lo(fd), B.lo(fd)), z3.ULT(A.up(fd), B.up(fd))))
    for o in k.run(PV + "::operator<(PetriEngine::Reachability::prvector_t const&) const", [A.v, B.v]):
        k.prove(o.st, tobool(o.val) == z3.If(A.n != B.n, z3.ULT(A.n, B.n), z3.And(z3.ULT(fd, A.n), less)), "predicates are ordered by size, then by their first difference")


# ------------------------------------------------------------------ refuting a query
RC = "PetriEngine::RangeContext"
P = "PetriEngine::PQL::"
B64 = z3.BitVecSort(64)
VALB = z3.Function("value in the refuted marking", B64, B64)
VALM = z3.Function("value in an arbitrary marking of the result", B64, B64)


class Refute:
    """a RangeContext over any marking; the range vector is seen through its contract: a range per place"""
    def __init__(self, k):
        self.k = k
        if not hasattr(k, "ncontracts"):
            k.ncontracts = len(k.ex.contracts)
        del k.ex.contracts[k.ncontracts:]
        st = k.st
        self.nP = k.u64("nplaces")
        st.assume(z3.And(z3.UGT(self.nP, 0), z3.ULT(self.nP, BV(1 << 32, 64))))
        u = lambda n, w=32: z3.Function(n, B64, z3.BitVecSort(w))
        self.lo0, self.up0, self.B, self.M = u("lower0"), u("upper0"), u("base"), u("M")
        self.uses = u("uses", 64)
        self.dirt = z3.Function("unusable", B64, z3.BoolSort())
        inv = lambda p: [z3.Implies(z3.ULT(p, self.nP), z3.And(z3.ULE(self.lo0(p), self.B(p)), z3.ULE(self.B(p), self.up0(p))))]
        self.inv = inv
        self.ranges = k.arr("ranges", PR, self.nP)
        a = st.mem[self.ranges.obj].copy()
        a.f[LO] = FBase(self.lo0, 32, lambda s, p, v: inv(p))
        a.f[UP] = FBase(self.up0, 32, lambda s, p, v: inv(p))
        a.f[PL] = FBase(lambda i: z3.Extract(31, 0, i), 32)
        st.mem[self.ranges.obj] = a
        self.base = self.const_arr("base", self.B)
        self.vec = k.rec("ranges vector", PV)
        self.ctx = k.rec("context", RC)
        k.setf(self.ctx, RC, "_vptr$Visitor", Ptr("g:_ZTVN11PetriEngine12RangeContextE", 16))
        k.setf(self.ctx, RC, "_ranges", self.vec)
        k.setf(self.ctx, RC, "_base", self.base)
        k.setf(self.ctx, RC, "_marking", self.base)
        us = k.arr("uses", "unsigned long", self.nP, ro=True)
        b = st.mem[us.obj].copy()
        b.f[(0, 8)] = FBase(self.uses, 64)
        st.mem[us.obj] = b
        k.setf(self.ctx, RC, "_uses", us)
        k.setf(self.ctx, RC, "_is_dirty", BV(0, 8))
        k.setf(self.ctx, RC, "_dirty", k.ex.new_rec(st, "dirty vector", 40))
        self.g = k.u64("g")
        st.assume(z3.ULT(self.g, self.nP))
        st.assume(inv(self.g))
        k.assume_note("the refuted marking lies inside the ranges collected so far, and _marking and _base are the same marking (Solver::computeTerminal passes one array for both)")
        k.assume_note("the range vector is used through the contracts lookups/add_and_restrict/compacting: one range per place, unrestricted when absent")

        def dirty(ex, s, args, ins):
            return [(s, self.dirt(i64(args[1])))]
        k.ex.contract(r"std::vector<bool, std::allocator<bool>>::operator\[\]\(unsigned long\) const", dirty)

        def foa(ex, s, args, ins):
            p = z64(tobv(args[1], 32))
            k.prove(s, z3.ULT(p, self.nP), "only places of the net are restricted")
            s.ghost["asked"] = s.ghost.get("asked", ()) + (p,)
            return [(s, self.ranges.plus(Lin.of(p).scale(12)))]
        k.ex.contract(r"prvector_t::find_or_add\(", foa)
        k.ex.contract(r"prvector_t::compact\(\)", lambda ex, s, a, i: [(s, None)])

    def const_arr(self, name, f):
        k = self.k
        p = k.arr(name, "unsigned int", self.nP, ro=True)
        a = k.st.mem[p.obj].copy()
        a.f[(0, 4)] = FBase(f, 32)
        k.st.mem[p.obj] = a
        return p

    def now(self, s, p):
        o = s.mem[self.ranges.obj]
        return o.f[LO].sel(s, p), o.f[UP].sel(s, p)

    def dirty(self, s):
        return tobool(self.k.getf(self.ctx, RC, "_is_dirty", s))

    def inM(self, s, p):
        lo, up = self.now(s, p)
        return inr(self.M(p), lo, up)

    def keeps(self, s, p):
        """at place p: still contains the refuted marking, and only shrinks"""
        lo, up = self.now(s, p)
        return z3.And(inr(self.B(p), lo, up), z3.ULE(self.lo0(p), lo), z3.UGE(self.up0(p), up))

    def frame(self, s, tag):
        self.k.prove(s, z3.Implies(z3.Not(self.dirty(s)), self.keeps(s, self.g)), tag + ": the result contains the refuted marking and is inside the old ranges")
        lo, up = self.now(s, self.g)
        self.k.prove(s, z3.Implies(z3.And(z3.Not(self.dirty(s)), self.dirt(self.g)), z3.And(lo == self.lo0(self.g), up == self.up0(self.g))), tag + ": no unusable place is restricted")


@contract("C07", "tar.cpp")
def refute_identifier(k):
    """a single place: bounded by the limit in the right direction"""
    T = P + "UnfoldedIdentifierExpr"
    R_ = Refute(k)
    st = k.st
    el = k.rec("el", T)
    off = k.u32("offset")
    k.setf(el, T, "_offsetInMarking", off)
    p = z64(off)
    st.assume(z3.ULT(off, BV(1 << 31, 32)))
    k.assume_note("place offsets in a query are below 2^31 (the offset is an int)")
    L, lt = k.u64("limit"), k.boolin("lt")
    k.setf(R_.ctx, RC, "_limit", L)
    k.setf(R_.ctx, RC, "_lt", lt)
    st.assume(z3.ULT(p, R_.nP))
    st.assume(R_.inv(p))
    st.assume(z3.And(L >= 0, L <= BV(0xffffffff, 64)))
    k.assume_note("the limit handed to a single place fits a token count (comparisons of a place with a negative constant do not reach TAR)")
    st.assume(z3.If(lt, z3.ULE(z64(R_.B(p)), L), z3.UGE(z64(R_.B(p)), L)))
    k.cover()
    for o in k.run(RC + "::_accept(PetriEngine::PQL::UnfoldedIdentifierExpr const*)", [R_.ctx, el]):
        s = o.st
        R_.frame(s, "identifier")
        k.prove(s, z3.Implies(z3.And(z3.Not(R_.dirty(s)), R_.inM(s, p)), z3.If(lt, z3.ULE(z64(R_.M(p)), L), z3.UGE(z64(R_.M(p)), L))), "identifier: every marking of the result keeps the limit")


def expr_visits(R_, facts=None):
    """contract of visiting an operand with (limit, direction): unless given up, every marking of the result keeps the limit"""
    k = R_.k

    def h(ex, s, args, ins):
        c = ex.load_raw(s, ex.aptr(args[1]), 8, True, ins.get("ln"))
        c = ex.ptr_bv(s, c) if isinstance(c, Ptr) else tobv(c, 64)
        L = tobv(k.getf(R_.ctx, RC, "_limit", s), 64)
        lt = tobool(k.getf(R_.ctx, RC, "_lt", s))
        k.prove(s, z3.If(lt, VALB(c) <= L, VALB(c) >= L), "the limit of an operand holds in the refuted marking")
        d = freshb("gave up")
        s.assume(z3.Implies(z3.Not(d), z3.If(lt, VALM(c) <= L, VALM(c) >= L)))
        k.setf(R_.ctx, RC, "_is_dirty", tobv(z3.Or(R_.dirty(s), d), 8), s)
        if facts:
            facts(s, c)
        return [(s, None)]
    k.ex.contract(r"PQL::Visitor::visit<PetriEngine::RangeContext", h)
    k.ex.contract(r"PQL::Visitor::visit<", h)


@contract("C07", "tar.cpp")
def refute_compare(k):
    """left < right / left <= right, false in the marking: false in every marking of the result"""
    st0 = k.st
    for cls, strict in (("LessThanCondition", True), ("LessThanOrEqualCondition", False)):
        k.st = st0.copy()
        R_ = Refute(k)
        st = k.st
        T = P + cls
        el = k.rec("el" + cls, T)
        ids = []
        for i, f in enumerate(("_expr1", "_expr2")):
            o, _, _ = k.m.path(T, f)
            c = k.u64("operand%d" % i)
            st.assume(z3.UGT(c, BV(4096, 64)))
            k.ex.store_raw(st, el.plus(o), 8, c, None)
            k.ex.store_raw(st, el.plus(o + 8), 8, NULLP, None)
            ids.append(c)
            for f_ in (VALB, VALM):
                st.assume(z3.And(f_(c) > BV(-(1 << 62), 64), f_(c) < BV(1 << 62, 64)))
        l, r = ids
        k.assume_note("values of compared expressions fit 62 bits")
        st.assume(z3.Not(VALB(l) < VALB(r) if strict else VALB(l) <= VALB(r)))
        k.cover(st, cls + ": precondition satisfiable")
        PF = z3.Function("place_free", B64, z3.BoolSort())

        def ident(ex, s, p):
            p = ex.aptr(p)
            return ex.ptr_bv(s, p) if isinstance(p, Ptr) else tobv(p, 64)

        def ge(ex, s, args, ins):
            return [(s, VALB(ident(ex, s, args[0])))]
        k.ex.contract(r"PQL::Expr::getEval\(\) const", ge)

        def indirect(ex, s, v, args, ins):
            if ins["ty"] != "i1":
                return None
            i = ident(ex, s, args[0])
            s.assume(z3.Implies(PF(i), VALM(i) == VALB(i)))
            return [(s, PF(i))]
        k.ex.indirect = indirect
        expr_visits(R_)
        for o in k.run(RC + "::_accept(PetriEngine::PQL::%s const*)" % cls, [R_.ctx, el], st):
            k.prove(o.st, z3.Implies(z3.Not(R_.dirty(o.st)), z3.Not(VALM(l) < VALM(r) if strict else VALM(l) <= VALM(r))), cls + ": false in every marking of the result")
    k.st = st0


@contract("C07", "tar.cpp")
def refute_conjunction(k):
    """CompareConjunction: bounds on places, or the negation of such"""
    T = P + "CompareConjunction"
    st0 = k.st
    for neg in (False, True):
        k.st = st0.copy()
        R_ = Refute(k)
        st = k.st
        el = k.rec("el%d" % neg, T)
        n = k.u64("number of bounds")
        st.assume(z3.ULT(n, BV(1 << 40, 64)))
        arr = k.arr("bounds%d" % neg, T + "::cons_t", n, ro=True)
        a = st.mem[arr.obj].copy()
        names = a.names
        pl, lo, up = (a.f[names[x]].arr for x in ("_place", "_lower", "_upper"))
        fits = lambda f, i: z3.And(z3.ULE(lo(i), f(z64(pl(i)))), z3.ULE(f(z64(pl(i))), up(i)))

        def cb(s, i, v):
            fs = [z3.Implies(z3.ULT(i, n), z3.ULT(z64(pl(i)), R_.nP))] + R_.inv(z64(pl(i)))
            # negated: the marking satisfies every bound; otherwise suppose M satisfies every bound
            fs.append(z3.Implies(z3.ULT(i, n), fits(R_.B if neg else R_.M, i)))
            return fs
        for f in ("_place", "_lower", "_upper"):
            a.f[names[f]] = FBase(a.f[names[f]].arr, 32, cb)
        st.mem[arr.obj] = a
        a.names = names
        k.setvec(el, T, "_constraints", arr, n)
        k.setf(el, T, "_negated", z3.BoolVal(neg))
        j = k.u64("j")
        st.assume(z3.ULT(j, n))
        st.assume(cb(st, j, None))
        k.cover(st, "negated=%s: precondition satisfiable" % neg)

        def cands(ex, s0, lv, R_=R_, arr=arr, neg=neg):
            out = [("keeps at g", lambda s, e: R_.keeps(s, R_.g)), ("keeps at bound j", lambda s, e: R_.keeps(s, z64(pl(j)))), ("not given up", lambda s, e: z3.Not(R_.dirty(s)))]
            out.append(("keeps", lambda s, e, p, v: R_keep(R_, s, p, v), R_.ranges, LO))
            out.append(("keeps up", lambda s, e, p, v: R_keep_up(R_, s, p, v), R_.ranges, UP))
            lo1, up1 = None, None
            out.append(("unusable untouched", lambda s, e: z3.Implies(R_.dirt(R_.g), z3.And(*[x == y for x, y in zip(R_.now(s, R_.g), (R_.lo0(R_.g), R_.up0(R_.g)))]))))
            if not neg:
                out.append(("nothing changed at g", lambda s, e: z3.And(*[x == y for x, y in zip(R_.now(s, R_.g), (R_.lo0(R_.g), R_.up0(R_.g)))])))
            for nm, g in lv.idx(s0, arr):
                out.append(("%s<=n" % nm, lambda s, e, g=g: z3.ULE(g(s, e), n)))
                if neg:
                    out.append(("bound j kept before %s" % nm, lambda s, e, g=g: z3.Implies(z3.ULT(j, g(s, e)), within(R_, s, pl(j), lo(j), up(j)))))
            cells = [(oid, ob) for oid, ob in s0.mem.items() if isinstance(ob, Rec) and ob.size == 12]
            for oid, ob in cells:
                def chosen(s, e, oid=oid):
                    f = s.mem[oid].f
                    if not all(x in f for x in (0, 4, 8)):
                        raise Unsupported("not a range")
                    return [tobv(f[x][1], 32) for x in (0, 4, 8)]
                for nm, g in lv.ints(s0):
                    out.append(("%s>0: choice excludes M, contains base" % nm, lambda s, e, g=g, chosen=chosen: (lambda c: z3.Implies(g(s, e) != 0, z3.And(z3.ULT(z64(c[2]), R_.nP), z3.Not(inr(R_.M(z64(c[2])), c[0], c[1])), inr(R_.B(z64(c[2])), c[0], c[1]), z3.Not(R_.dirt(z64(c[2]))))))(chosen(s, e))))
            return out
        k.ex.loop_cands = cands
        for o in k.run(RC + "::_accept(PetriEngine::PQL::CompareConjunction const*)", [R_.ctx, el], st):
            s = o.st
            if o.kind != "ret":
                k.prove(s, False, "no throw")
                continue
            R_.frame(s, "negated=%s" % neg)
            if neg:
                k.prove(s, z3.Implies(z3.Not(R_.dirty(s)), within(R_, s, pl(j), lo(j), up(j))), "negated conjunction: every marking of the result satisfies every bound")
            else:
                asked = s.ghost.get("asked", ())
                k.prove(s, z3.Implies(z3.Not(R_.dirty(s)), z3.Or(*[z3.Not(R_.inM(s, p)) for p in asked])), "conjunction: no marking of the result satisfies every bound")
    k.st = st0


def within(R_, s, p, lo, up):
    l, u = R_.now(s, z64(p))
    return z3.And(z3.UGE(l, lo), z3.ULE(u, up))


def R_keep(R_, s, p, v):
    return z3.And(z3.ULE(v, R_.B(p)), z3.ULE(R_.lo0(p), v))


def R_keep_up(R_, s, p, v):
    return z3.And(z3.UGE(v, R_.B(p)), z3.UGE(R_.up0(p), v))


@contract("C07", "tar.cpp")
def refute_sum(k):
    """a sum: every place keeps its own share of the value, every nested operand is visited with its own value as limit"""
    T = P + "PlusExpr"
    R_ = Refute(k)
    st = k.st
    el = k.rec("el", T)
    n, m = k.u64("number of places in the sum"), k.u64("number of nested operands")
    for x in (n, m):
        st.assume(z3.ULT(x, BV(1 << 31, 64)))
    o_ids, _, tids = k.m.path(T, "_ids")
    o_ex, _, tex = k.m.path(T, "_exprs")
    arr = k.ex.new_arr(st, "summands", "std::pair<unsigned int, std::shared_ptr<const std::__cxx11::basic_string<char> > >", n, None, True) if False else None
    PID = z3.Function("summand place", B64, z3.BitVecSort(32))
    a = Arr("summands", 24, n, {(0, 4): FBase(PID, 32, lambda s, i, v: [z3.Implies(z3.ULT(i, n), z3.ULT(z64(v), R_.nP))] + R_.inv(z64(v)))}, True)
    arr = Ptr(k.ex.new_obj(st, a))
    EID = z3.Function("nested operand", B64, B64)
    b = Arr("operands", 16, m, {(0, 8): FBase(EID, 64, lambda s, i, v: [z3.UGT(v, BV(4096, 64))])}, True)
    brr = Ptr(k.ex.new_obj(st, b))
    k.setvec(el, T, "_ids", arr, n)
    k.setvec(el, T, "_exprs", brr, m)
    lt = k.boolin("lt")
    k.setf(R_.ctx, RC, "_lt", lt)
    j, h = k.u64("j"), k.u64("h")
    pj = z64(PID(j))
    st.assume(z3.Implies(z3.ULT(j, n), z3.ULT(pj, R_.nP)))
    st.assume(R_.inv(pj))
    G = k.ex.new_rec(st, "ghost", 8)         # the nested operand h has been visited with its value as limit
    k.ex.store_raw(st, G, 8, BV(0, 64), None)
    seen = lambda s: tobv(k.ex.load_raw(s, G, 8, False, None), 64) == 1
    k.cover()
    k.ex.contract(r"PQL::Expr::getEval\(\) const", lambda ex, s, args, ins: [(s, VALB(tobv(ex.ptr_bv(s, ex.aptr(args[0])), 64)))])

    def visit(ex, s, args, ins):
        c = ex.load_raw(s, ex.aptr(args[1]), 8, False, ins.get("ln"))
        c = ex.ptr_bv(s, c) if isinstance(c, Ptr) else tobv(c, 64)
        L = tobv(k.getf(R_.ctx, RC, "_limit", s), 64)
        k.prove(s, L == VALB(c), "a nested operand is visited with its own value as limit")
        d = freshb("gave up")
        k.setf(R_.ctx, RC, "_is_dirty", tobv(z3.Or(R_.dirty(s), d), 8), s)
        k.ex.store_raw(s, G, 8, z3.If(c == EID(h), BV(1, 64), tobv(k.ex.load_raw(s, G, 8, False, None), 64)), None)
        return [(s, None)]
    k.ex.contract(r"PQL::Visitor::visit<", visit)

    share = lambda s: z3.If(lt, z3.ULE(R_.now(s, pj)[1], R_.B(pj)), z3.UGE(R_.now(s, pj)[0], R_.B(pj)))

    def cands(ex, s0, lv):
        out = [("keeps at g", lambda s, e: R_.keeps(s, R_.g)), ("keeps at j", lambda s, e: R_.keeps(s, pj)), ("not given up", lambda s, e: z3.Not(R_.dirty(s))),
               ("keeps", lambda s, e, p, v: R_keep(R_, s, p, v), R_.ranges, LO), ("keeps up", lambda s, e, p, v: R_keep_up(R_, s, p, v), R_.ranges, UP),
               ("unusable untouched", lambda s, e: z3.Implies(R_.dirt(R_.g), z3.And(*[x == y for x, y in zip(R_.now(s, R_.g), (R_.lo0(R_.g), R_.up0(R_.g)))])))]
        for nm, g in lv.idx(s0, arr):
            out.append(("%s<=n" % nm, lambda s, e, g=g: z3.ULE(g(s, e), n)))
            out.append(("place j restricted before %s" % nm, lambda s, e, g=g: z3.Implies(z3.ULT(j, g(s, e)), share(s))))
        for nm, g in lv.idx(s0, brr):
            out.append(("%s<=m" % nm, lambda s, e, g=g: z3.ULE(g(s, e), m)))
            out.append(("operand h visited before %s" % nm, lambda s, e, g=g: z3.Implies(z3.ULT(h, g(s, e)), seen(s))))
        return out
    k.ex.loop_cands = cands
    for o in k.run(RC + "::_accept(PetriEngine::PQL::PlusExpr const*)", [R_.ctx, el]):
        s = o.st
        R_.frame(s, "sum")
        ok = z3.Not(R_.dirty(s))
        k.prove(s, z3.Implies(z3.And(ok, z3.ULT(j, n)), share(s)), "sum: every summand place keeps its share of the value")
        k.prove(s, z3.Implies(z3.And(ok, z3.ULT(h, m)), seen(s)), "sum: every nested operand is bounded by its value")
    # the lemma that puts the shares together: by induction over the summands
    SM, SB = (z3.Function(x, B64, B64) for x in ("sum in M", "sum in base"))
    i = k.u64("i")
    s = k.st.copy()
    s.assume(z3.And(SM(i) >= 0, SB(i) >= 0, SM(i) < BV(1 << 62, 64), SB(i) < BV(1 << 62, 64)))
    mi, bi = k.u32("M share"), k.u32("base share")
    s.assume(z3.And(SM(i + 1) == SM(i) + z64(mi), SB(i + 1) == SB(i) + z64(bi)))
    for nm, rel32, rel in (("at least", z3.UGE, lambda x, y: x >= y), ("at most", z3.ULE, lambda x, y: x <= y)):
        s2 = s.copy()
        s2.assume(z3.And(rel32(mi, bi), rel(SM(i), SB(i))))
        k.prove(s2, rel(SM(i + 1), SB(i + 1)), "sum lemma (%s the value in the refuted marking): step" % nm)


@contract("C07", "tar.cpp")
def refute_deadlock(k):
    """deadlock false in the marking: the result only contains markings enabling one fixed transition"""
    from netmodel import Net, narrow
    net = Net(k)
    R_ = Refute(k)
    st = k.st
    st.assume(R_.nP == z64(net.nP))
    k.setf(R_.ctx, RC, "_net", net.p)
    EN = z3.Function("enabled in the refuted marking, usable", z3.BitVecSort(32), z3.BoolSort())
    t0 = k.u32("t0")
    T = P + "DeadlockCondition"
    el = k.rec("el", T)
    okarc = lambda x: z3.And(z3.UGE(R_.B(z64(net.place(x))), net.tok(x)), z3.Not(R_.dirt(z64(net.place(x)))))
    WIT = z3.Function("failing arc", z3.BitVecSort(32), z3.BitVecSort(32))

    def defn(t):
        w = WIT(t)
        return [net.arc_wf(w), z3.Implies(z3.Not(EN(t)), z3.And(net.inpre(t, w), z3.Not(okarc(w))))]

    def atarc(t, x):
        return z3.Implies(z3.And(EN(t), net.inpre(t, x)), okarc(x))
    x0 = k.u32("x0")
    k.cover()
    cur = {}

    def arc_cb(s, x):
        fs = [net.arc_wf(x), z3.Implies(z3.ULT(z64(x), z64(net.nI)), z3.Not(net.inh(x)))] + R_.inv(z64(net.place(x)))
        for t in s.ghost.get("ts", ()):
            fs.append(atarc(t, x))
        return fs
    net.on_arc_read(arc_cb)
    k.assume_note("nets analysed by TAR have no inhibitor arcs (asserted in the code)")
    orig = k.st

    def preset(ex, s, args, ins):
        t = tobv(args[1], 32)
        k.prove(s, z3.ULT(t, net.nT), "preset of an existing transition")
        s.assume(net.trans_wf(s, z64(t)))
        s.assume(defn(t))
        s.ghost["ts"] = s.ghost.get("ts", ()) + (t,)
        s.ghost["t"] = t
        lo, hi = z64(net.inp(t)), z64(net.outp(t))
        return [(s, [net.arcs.plus(Lin.of(lo).scale(st.mem[net.arcs.obj].stride)), net.arcs.plus(Lin.of(hi).scale(st.mem[net.arcs.obj].stride))])]
    k.ex.contract(r"PetriNet::preset\(unsigned int\) const", preset)

    def low(s, x):
        return z3.UGE(R_.now(s, z64(net.place(x)))[0], net.tok(x))

    def cands(ex, s0, lv):
        out = [("keeps at g", lambda s, e: R_.keeps(s, R_.g)), ("not given up", lambda s, e: z3.Not(R_.dirty(s))),
               ("keeps", lambda s, e, p, v: R_keep(R_, s, p, v), R_.ranges, LO),
               ("unusable untouched", lambda s, e: z3.Implies(R_.dirt(R_.g), z3.And(*[x == y for x, y in zip(R_.now(s, R_.g), (R_.lo0(R_.g), R_.up0(R_.g)))])))]
        t = s0.ghost.get("t")
        ints = lv.ints(s0)
        for nm, g in ints:
            out.append(("%s<=nT" % nm, lambda s, e, g=g: z3.ULE(g(s, e), z64(net.nT))))
            for nm2, g2 in ints:
                if nm2 != nm:
                    out.append(("%s>0: transition %s is enabled and usable" % (nm, nm2), lambda s, e, g=g, g2=g2: z3.Implies(g(s, e) != 0, z3.And(z3.ULT(g2(s, e), z64(net.nT)), EN(z3.Extract(31, 0, g2(s, e)))))))
        for nm, g in lv.idx(s0, net.arcs):
            if t is not None:
                def rng(s, e, g=g, t=t):
                    i = g(s, e)
                    s.assume(atarc(t, narrow(i)))
                    return z3.And(z3.ULE(z64(net.inp(t)), i), z3.ULE(i, z64(net.outp(t))))
                out.append(("%s within the preset" % nm, rng))
                out.append(("arc x0 raised before %s" % nm, lambda s, e, g=g, t=t: z3.Implies(z3.And(net.inpre(t, x0), z3.ULT(z64(x0), g(s, e))), low(s, x0))))
                for fn_, f in lv.flags(s0):
                    out.append(("%s: arcs before %s fine" % (fn_, nm), lambda s, e, g=g, f=f, t=t: z3.Implies(z3.And(f(s, e), net.inpre(t, WIT(t)), z3.ULT(z64(WIT(t)), g(s, e))), okarc(WIT(t)))))
        return out
    k.ex.loop_cands = cands
    st.assume(net.arc_wf(x0))
    for o in k.run(RC + "::_accept(PetriEngine::PQL::DeadlockCondition const*)", [R_.ctx, el]):
        s = o.st
        R_.frame(s, "deadlock")
        t = s.ghost.get("t")
        if t is None:
            continue        # no candidate with a used place: gives up, or leaves the ranges alone (asserted unreachable in the code)
        k.prove(s, z3.Implies(z3.And(z3.Not(R_.dirty(s)), net.inpre(t, x0)), low(s, x0)), "deadlock: every marking of the result covers the inputs of one transition")


INM = z3.Function("M in set", B64, z3.BoolSort())
INB = z3.Function("base in set", B64, z3.BoolSort())
HB = z3.Function("operand holds in the refuted marking", B64, z3.BoolSort())
HM = z3.Function("operand holds in M", B64, z3.BoolSort())


class Logic:
    """And/Or over abstract operands; a range vector is an abstract set of markings (its first word names the set)"""
    def __init__(self, k, cls):
        self.k = k
        st = k.st
        T = P + cls
        self.n = n = k.u64("number of operands")
        st.assume(z3.ULT(n, BV(1 << 31, 64)))
        self.ID = ID = z3.Function("operand", B64, B64)
        self.facts = lambda i: []
        a = Arr("operands", 16, n, {(0, 8): FBase(ID, 64, lambda s, i, v: [z3.UGT(v, BV(4096, 64))] + self.facts(i))}, True)
        self.arr = Ptr(k.ex.new_obj(st, a))
        self.el = k.rec("el", T)
        k.setvec(self.el, T, "_conds", self.arr, n)
        k.setf(self.el, T, "_eval", BV(0, 32))
        k.assume_note("the refuted condition has been evaluated to false in the marking before (evaluateAndSet, see C05)")
        self.nP = k.u64("nplaces")
        self.ctx = k.rec("context", RC)
        self.S0 = k.u64("initial set")
        self.vec = k.rec("ranges vector", PV)
        k.ex.store_raw(st, self.vec, 8, self.S0, None)
        k.setf(self.ctx, RC, "_ranges", self.vec)
        k.setf(self.ctx, RC, "_is_dirty", BV(0, 8))
        st.assume(INB(self.S0))
        u = k.arr("uses", "unsigned long", self.nP, ro=True)
        k.setf(self.ctx, RC, "_uses", u)
        for f in ("_net", "_marking", "_base"):
            k.setf(self.ctx, RC, f, k.ex.new_rec(st, f, 8))
        SZ = z3.Function("entries of set", B64, B64)
        self.SZ = SZ
        ents = Arr("entries", 12, BV(1 << 32, 64), {LO: FBase(z3.Function("e.lo", B64, z3.BitVecSort(32)), 32), UP: FBase(z3.Function("e.up", B64, z3.BitVecSort(32)), 32),
                   PL: FBase(z3.Function("e.place", B64, z3.BitVecSort(32)), 32, lambda s, i, v: [z3.ULT(z64(v), self.nP)])}, True)
        self.ents = Ptr(k.ex.new_obj(st, ents))
        ld = self.set
        V = r"std::vector<PetriEngine::Reachability::placerange_t.*>::"
        c = k.ex.contract
        put = lambda s, p, x: k.ex.store_raw(s, p, 8, x, None)

        def size(ex, s, a, i):
            x = ld(s, ex.aptr(a[0]))
            s.assume(z3.ULT(SZ(x), BV(1 << 32, 64)))
            return [(s, SZ(x))]
        c(V + r"size\(\) const", size)
        c(V + r"begin\(\)( const)?$", lambda ex, s, a, i: [(s, self.ents)])

        def end(ex, s, a, i):
            x = ld(s, ex.aptr(a[0]))
            s.assume(z3.ULT(SZ(x), BV(1 << 32, 64)))
            return [(s, self.ents.plus(Lin.of(SZ(x)).scale(12)))]
        c(V + r"end\(\)( const)?$", end)
        RVT = PV.replace("(", "")

        def copy(ex, s, a, i):
            put(s, ex.aptr(a[0]), ld(s, ex.aptr(a[1])))
            return [(s, ex.aptr(a[0]) if i["ty"] == "ptr" else None)]
        c(r"prvector_t::(prvector_t|operator=)\(PetriEngine::Reachability::prvector_t(&&| const&)\)", copy)
        c(V + r"(vector|operator=)\(std::vector<PetriEngine::Reachability::placerange_t.*(const&|&&)\)$", copy)

        def ctor(ex, s, a, i):
            put(s, ex.aptr(a[0]), fresh("emptyset", 64))
            return [(s, None)]
        c(r"prvector_t::prvector_t\(\)", ctor)
        c(r"prvector_t::~prvector_t\(\)", lambda ex, s, a, i: [(s, None)])
        c(V + r"~vector\(\)", lambda ex, s, a, i: [(s, None)])

        def ev(ex, s, a, i):
            p = ex.aptr(a[0])
            x = ex.ptr_bv(s, p) if isinstance(p, Ptr) else tobv(p, 64)
            return [(s, z3.If(HB(x), BV(1, 32), BV(0, 32)))]
        c(r"PQL::evaluateAndSet\(", ev)

        def visit(ex, s, a, i):
            x = ex.load_raw(s, ex.aptr(a[1]), 8, False, i.get("ln"))
            x = ex.ptr_bv(s, x) if isinstance(x, Ptr) else tobv(x, 64)
            old = ld(s, self.vec)
            k.prove(s, z3.Not(HB(x)), "only operands false in the marking are refuted")
            k.prove(s, INB(old), "an operand is refuted inside a set containing the marking")
            new = fresh("set", 64)
            d = freshb("gave up")
            s.assume(z3.Implies(z3.Not(d), z3.And(INB(new), z3.Implies(INM(new), z3.And(INM(old), z3.Not(HM(x)))))))
            put(s, self.vec, new)
            k.setf(self.ctx, RC, "_is_dirty", tobv(z3.Or(self.dirty(s), d), 8), s)
            return [(s, None)]
        c(r"PQL::Visitor::visit<", visit)

    def set(self, s, p):
        v = self.k.ex.load_raw(s, p, 8, False, None)
        return self.k.ex.ptr_bv(s, v) if isinstance(v, Ptr) else i64(v)

    def dirty(self, s):
        return tobool(self.k.getf(self.ctx, RC, "_is_dirty", s))


@contract("C07", "tar.cpp")
def refute_or(k):
    L = Logic(k, "OrCondition")
    L.facts = lambda i: [z3.Implies(z3.ULT(i, L.n), z3.Not(HB(L.ID(i))))]
    j = k.u64("j")
    k.cover()

    def cands(ex, s0, lv):
        out = [("base in", lambda s, e: INB(L.set(s, L.vec))), ("not given up", lambda s, e: z3.Not(L.dirty(s))), ("shrinks", lambda s, e: z3.Implies(INM(L.set(s, L.vec)), INM(L.S0)))]
        for nm, g in lv.idx(s0, L.arr):
            out.append(("%s<=n" % nm, lambda s, e, g=g: z3.ULE(g(s, e), L.n)))
            out.append(("operand j refuted before %s" % nm, lambda s, e, g=g: z3.Implies(z3.And(z3.ULT(j, g(s, e)), INM(L.set(s, L.vec))), z3.Not(HM(L.ID(j))))))
        return out
    k.ex.loop_cands = cands
    for o in k.run(RC + "::_accept(PetriEngine::PQL::OrCondition const*)", [L.ctx, L.el]):
        s = o.st
        ok = z3.Not(L.dirty(s))
        k.prove(s, z3.Implies(ok, z3.And(INB(L.set(s, L.vec)), z3.Implies(INM(L.set(s, L.vec)), INM(L.S0)))), "disjunction: the result contains the marking and is inside the old set")
        k.prove(s, z3.Implies(z3.And(ok, z3.ULT(j, L.n), INM(L.set(s, L.vec))), z3.Not(HM(L.ID(j)))), "disjunction: every operand is false in every marking of the result")


@contract("C07", "tar.cpp")
def refute_and(k):
    L = Logic(k, "AndCondition")
    # suppose M satisfies every operand; then M is not in the result
    L.facts = lambda i: [z3.Implies(z3.ULT(i, L.n), HM(L.ID(i)))]
    k.cover()

    def cands(ex, s0, lv):
        out = [("not given up", lambda s, e: z3.Not(L.dirty(s))), ("base in", lambda s, e: INB(L.set(s, L.vec)))]
        sets = [(oid, ob) for oid, ob in s0.mem.items() if isinstance(ob, Rec) and ob.size == 24 and 0 in ob.f and ob.f[0][0] == 8]
        for nm, g in lv.idx(s0, L.arr):
            out.append(("%s<=n" % nm, lambda s, e, g=g: z3.ULE(g(s, e), L.n)))
        for nm, g in lv.idx(s0, L.ents):
            out.append(("%s<=size" % nm, lambda s, e, g=g: z3.And(z3.ULT(L.SZ(L.set(s, L.vec)), BV(1 << 32, 64)), z3.ULE(g(s, e), L.SZ(L.set(s, L.vec))))))
        for oid, ob in sets:
            q = Ptr(oid)
            out.append(("%s is the old set" % ob.name, lambda s, e, q=q: L.set(s, q) == L.S0))
            out.append(("%s refutes" % ob.name, lambda s, e, q=q: z3.And(INB(L.set(s, q)), z3.Not(INM(L.set(s, q))))))
            for nm, g in lv.ints(s0):
                out.append(("%s set: %s refutes" % (nm, ob.name), lambda s, e, q=q, g=g: z3.Implies(g(s, e) != BV(-1, 64), z3.And(INB(L.set(s, q)), z3.Not(INM(L.set(s, q)))))))
        return out
    k.ex.loop_cands = cands
    for o in k.run(RC + "::_accept(PetriEngine::PQL::AndCondition const*)", [L.ctx, L.el]):
        s = o.st
        if o.kind != "ret":
            k.prove(s, False, "no throw")
            continue
        ok = z3.Not(L.dirty(s))
        k.prove(s, z3.Implies(ok, INB(L.set(s, L.vec))), "conjunction: the result contains the marking")
        k.prove(s, z3.Implies(ok, z3.Not(INM(L.set(s, L.vec)))), "conjunction: no marking of the result satisfies every operand")
