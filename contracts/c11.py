"""C11: multisets of coloured tokens, product colours and encoded coloured markings of the explicit coloured engine.
A multiset is a vector of (colour, signed count) sorted strictly by colour together with the sum of the counts.
q is an arbitrary colour; P is its partition point in the vector (entries before P are below q, entries from P on are not);
count(q) is the count at P when the entry there is q, else 0. S(i) is the sum of the first i counts."""
from frame import *
from vecmodel import Vecs

MS = "PetriEngine::ExplicitColored::SequenceMultiSet"
COL, CNT = (0, 4), (4, 4)
PAIR = "std::pair<unsigned int, int>"
IMAX = (1 << 31) - 1
s64 = lambda x: z3.SignExt(32, x)


class MSet:
    def __init__(self, k, name, q, nonneg=True, n=None, order=True, sums=False, st=None):
        self.order, self.sums = order, sums
        self.k, self.q, self.name, self.nonneg = k, q, name, nonneg
        st = st or k.st
        self.n = n if n is not None else k.u64(name + ".size")
        st.assume(z3.ULT(self.n, BV(1 << 31, 64)))
        self.col = z3.Function(name + ".colour", z3.BitVecSort(64), z3.BitVecSort(32))
        self.cnt = z3.Function(name + ".count", z3.BitVecSort(64), z3.BitVecSort(32))
        self.S = z3.Function(name + ".sum", z3.BitVecSort(64), z3.BitVecSort(64))
        self.P = k.u64(name + ".position of q")
        st.assume(z3.ULE(self.P, self.n))
        self.card = k.u32(name + ".cardinality")
        self.idx = [self.P, BV(0, 64), self.n]
        self.a = k.arr(name, PAIR, self.n)
        ar = st.mem[self.a.obj].copy()

        def cb(s, i, v):
            s.ghost["last " + name] = i
            return self.facts(i)
        ar.f[COL] = FBase(self.col, 32, cb)
        ar.f[CNT] = FBase(self.cnt, 32, cb)
        st.mem[self.a.obj] = ar
        self.p = k.rec(name, MS)
        k.setvec(self.p, MS, "_counts", self.a, self.n)
        k.setf(self.p, MS, "_cardinality", self.card)
        if sums:
            st.assume([self.S(BV(0, 64)) == 0, self.S(self.n) == s64(self.card)])
        for i in (self.P, BV(0, 64), self.n):
            st.assume(self.facts(i))
        if nonneg:
            st.assume(self.card >= 0)
        k.assume_note("a multiset's stored total is the sum of its counts and its entries are sorted strictly by colour (class invariant, proved to be kept by every operation under contract); partial sums of the counts obey S(0)=0, S(i+1)=S(i)+count(i), and are monotone when counts are non-negative (law)")

    def facts(self, i):
        n, q, P = self.n, self.q, self.P
        c, w = self.col, self.cnt
        fs = []
        if self.order:
            fs += [z3.Implies(z3.And(z3.ULT(i, P), z3.ULT(i, n)), z3.ULT(c(i), q)),
                   z3.Implies(z3.And(z3.ULE(P, i), z3.ULT(i, n)), z3.UGE(c(i), q)),
                   z3.Implies(z3.And(z3.ULT(P, i), z3.ULT(i, n)), z3.UGT(c(i), q)),
                   z3.Implies(z3.And(z3.ULT(i, n), z3.ULT(i + 1, n)), z3.ULT(c(i), c(i + 1))),
                   z3.Implies(z3.And(z3.ULT(i - 1, i), z3.ULT(i, n)), z3.ULT(c(i - 1), c(i)))]
            for j in self.idx:
                if not (j.eq(self.P) or j.eq(self.n) or z3.is_bv_value(j)):
                    fs += [z3.Implies(z3.And(z3.ULT(i, j), z3.ULT(j, n)), z3.ULT(c(i), c(j))), z3.Implies(z3.And(z3.ULT(j, i), z3.ULT(i, n)), z3.ULT(c(j), c(i)))]
        if self.sums:
            fs.append(z3.Implies(z3.ULT(i, n), self.S(i + 1) == self.S(i) + s64(w(i))))
        if self.nonneg:
            fs += [z3.Implies(z3.ULT(i, n), z3.And(w(i) >= 0, w(i) <= self.card))]
            if self.sums:
                for j in self.idx:
                    fs += [z3.Implies(z3.And(z3.ULE(x, y), z3.ULE(y, n)), self.S(x) <= self.S(y)) for x, y in ((i, j), (j, i), (i + 1, j), (j + 1, i))]
        return fs

    def count(self):
        return z3.If(z3.And(z3.ULT(self.P, self.n), self.col(self.P) == self.q), self.cnt(self.P), BV(0, 32))


def b64(x):
    """a position as a 64-bit number; anything else that changes in the loop is not a cursor"""
    if isinstance(x, Lin):
        x = x.bv()
    if z3.is_expr(x) and z3.is_bv(x):
        return z64(x)
    raise Unsupported("not a cursor")


def w32(x):
    x = b64(x)
    return z3.Extract(31, 0, x)


def inside(f, X):
    def g(s, e):
        i = b64(f(s, e))
        s.assume(X.facts(i))        # instances of the laws above
        return z3.ULE(i, X.n)
    return g


def rel_loop(k, A, B, cands):
    """two cursors, i in A and j in B"""
    def c(ex, st, lv):
        out = []
        ia, jb = lv.idx(st, A.a), lv.idx(st, B.a)
        oa, ob = lv.outer_idx(st, A.a), lv.outer_idx(st, B.a)
        for na, fa in ia:
            out.append((na + " inside", inside(fa, A)))
        for nb, fb in jb:
            out.append((nb + " inside", inside(fb, B)))
        pa, pb = ia + oa, jb + ob
        for na, fa in pa:
            for nb, fb in pb:
                for nm, g in cands:
                    out.append(("%s [%s,%s]" % (nm, na, nb), (lambda fa, fb, g: lambda s, e: g(b64(fa(s, e)), b64(fb(s, e))))(fa, fb, g)))
        return out
    k.ex.loop_cands = c


@contract("C11", "ecol.cpp")
def equality(k):
    """operator==: equal exactly when every colour has the same count"""
    q = k.u32("q")
    A, B = MSet(k, "a", q, sums=True), MSet(k, "b", q, sums=True)
    k.cover()
    a, b = A.count(), B.count()
    rel_loop(k, A, B, [
        ("sums agree", lambda i, j: A.S(i) == B.S(j)),
        ("entries of a passed are matched", lambda i, j: z3.Implies(z3.And(a != 0, z3.ULT(A.P, i)), z3.And(a == b, z3.ULT(B.P, j)))),
        ("entries of b passed are matched", lambda i, j: z3.Implies(z3.And(b != 0, z3.ULT(B.P, j)), z3.And(a == b, z3.ULT(A.P, i))))])
    nf = 0
    for o in k.run(MS + "::operator==(" + MS + " const&) const", [A.p, B.p]):
        r = tobool(o.val)
        for X in (A, B):
            for i in [o.st.ghost.get("last " + X.name)]:
                if i is not None:
                    o.st.assume(X.facts(i))
        k.prove(o.st, z3.Implies(r, a == b), "equal multisets have the same count of every colour")
        i, j = o.st.ghost.get("last a"), o.st.ghost.get("last b")
        if i is None or j is None:
            k.prove(o.st, z3.Implies(z3.Not(r), A.card != B.card), "without looking at entries, different only when the totals differ")
            continue
        m = z3.If(z3.ULE(A.col(i), B.col(j)), A.col(i), B.col(j))
        k.prove(o.st, z3.Implies(z3.And(z3.Not(r), z3.ULT(i, A.n), z3.ULT(j, B.n), q == m), a != b), "different multisets differ in the count of some colour")
    k.assume_note("law: multisets with different totals differ in some colour")


def leq(k, le):
    q = k.u32("q")
    A, B = MSet(k, "a", q, nonneg=False), MSet(k, "b", q, nonneg=False)
    k.cover()
    S, L = (A, B) if le else (B, A)         # S <= L is asked
    s, l = S.count(), L.count()
    pos = lambda x: z3.If(x > 0, x, BV(0, 32))

    def ij(f):
        return (lambda i, j: f(i, j)) if le else (lambda i, j: f(j, i))
    rel_loop(k, A, B, [
        ("entries of the smaller side passed are covered", ij(lambda i, j: z3.Implies(z3.ULT(S.P, i), s <= pos(l)))),
        ("entries of the larger side passed are not needed any more", ij(lambda i, j: z3.Implies(z3.And(z3.ULT(L.P, j), l > 0, z3.ULE(i, S.P), z3.ULT(S.P, S.n)), z3.Not(S.col(S.P) == q)))),
        ("entries of the larger side passed are below", ij(lambda i, j: z3.Implies(z3.And(z3.ULT(L.P, j), z3.ULT(L.P, L.n), L.col(L.P) == q, l > 0, s > 0), z3.ULT(S.P, i))))])
    op = "<=" if le else ">="
    for o in k.run(MS + "::operator%s(" % op + MS + " const&) const", [A.p, B.p]):
        r = tobool(o.val)
        for X in (A, B):
            i = o.st.ghost.get("last " + X.name)
            if i is not None:
                o.st.assume(X.facts(i))
        k.prove(o.st, z3.Implies(r, z3.And(S.card <= L.card, s <= pos(l))), "%s holds only when every colour's count is covered" % op)
        i, j = o.st.ghost.get("last " + S.name), o.st.ghost.get("last " + L.name)
        ok = z3.Not(r) if i is None else z3.And(z3.Not(r), z3.Not(z3.And(z3.ULT(i, S.n), q != S.col(i))))
        k.prove(o.st, z3.Implies(z3.And(ok, S.card <= L.card), s > pos(l)), "%s fails only when the totals forbid it or some colour's count is not covered" % op)
    k.assume_note("law: when both sides are non-negative and every count is covered, the totals are ordered too")


@contract("C11", "ecol.cpp")
def at_most(k):
    """operator<=: the positive counts of this are covered by the other (and the totals are ordered)"""
    leq(k, True)


@contract("C11", "ecol.cpp")
def at_least(k):
    """operator>=: the positive counts of the other are covered by this (and the totals are ordered)"""
    leq(k, False)


def handlers(k, vm, A):
    """assumed contracts of std::lower_bound (with the comparator verified in comparators) and vector::insert"""
    def kv(ex, st, args):
        return tobv(ex.load_raw(st, ex.aptr(args[2]), 4, False, None), 32)

    def lb(ex, st, args, ins):
        a, b = ex.aptr(args[0]), ex.aptr(args[1])
        o = st.mem[a.obj]
        if a.obj != b.obj or a.off.const() != 0 or o.stride != 8 or COL not in o.f:
            return NotImplemented
        n = b.off.split(8)[0].bv()
        key = kv(ex, st, args)
        p = fresh("lb", 64)
        st.assume(z3.ULE(p, n))
        for i in [p, p - 1, A.P, A.P - 1]:
            e = o.f[COL].sel(st, i)
            st.assume(A.facts(i))
            st.assume(z3.Implies(z3.And(z3.ULT(i, p), z3.ULT(i, n)), z3.ULT(e, key)))
            st.assume(z3.Implies(z3.And(z3.UGE(i, p), z3.ULT(i, n)), z3.UGE(e, key)))
        st.ghost["lb"] = p
        return [(st, a.plus(Lin.of(p).scale(8)))]
    k.ex.contract(r"^(auto|.*) ?std::lower_bound<", lb)

    def insert(ex, st, args, ins):
        v = ex.aptr(args[0])
        if v.obj != A.p.obj:
            return NotImplemented
        o = st.mem[vm.begin(st, v).obj]
        pos = vm.pos(st, v, args[1])
        k.prove(st, z3.ULE(pos, vm.size(st, v)), "inserting inside the vector")
        vals, out = vm.elem(st, ex.aptr(args[2]), o), []
        for cond in (z3.ULT(vals[COL], A.q), vals[COL] == A.q, z3.UGT(vals[COL], A.q)):
            s = st.copy()
            s.assume(cond)
            s.ghost["ins"] = 0 if out else 1
            out.append((s, vm.insert(s, v, pos, vals)))
        return out
    k.ex.contract(r"std::vector<std::pair<unsigned int, int>.*::insert(<.*>)?\(", insert)


@contract("C11", "ecol.cpp")
def comparators(k):
    """the order lower_bound searches by is the order of colours"""
    for rx in (MS + "::lower_bound(unsigned int const&)::", MS + "::clower_bound(unsigned int const&) const::"):
        n = 0
        for f, d in k.m.fns.items():
            dem = d["dem"]
            if rx in dem and "lambda" in dem and "operator()" in dem and not dem.startswith(("bool __gnu_cxx", "__gnu_cxx")) and d.get("bbs", d.get("blocks")):
                if "_Iter" in dem.split("::operator()")[0][:40]:
                    continue
                st = k.st.copy()
                e, c, key = k.u32("entry colour"), k.u32("entry count"), k.u32("key")
                pe = k.ex.new_rec(st, "entry", 8)
                k.ex.store_raw(st, pe, 4, e, None)
                k.ex.store_raw(st, pe.plus(4), 4, c, None)
                pk = k.ex.new_rec(st, "key", 4)
                k.ex.store_raw(st, pk, 4, key, None)
                me = k.ex.new_rec(st, "lambda", 8)
                k.under.append(dem)
                for o in k.ex.run(f, [me, pe, pk], st):
                    k.prove(o.st, tobool(o.val) == z3.ULT(e, key), "entries are ordered by colour")
                n += 1
        k.prove(k.st, z3.BoolVal(n > 0), "comparator found")


@contract("C11", "ecol.cpp")
def get_count(k):
    """getCount: the count of the colour, 0 when absent"""
    vm = Vecs(k)
    q = k.u32("q")
    A = MSet(k, "a", q, nonneg=False)
    c = k.rec("colour", "PetriEngine::ExplicitColored::ColorSequence")
    k.setf(c, "PetriEngine::ExplicitColored::ColorSequence", "encodedValue", z64(q))
    k.cover()
    handlers(k, vm, A)
    for o in k.run(MS + "::getCount(PetriEngine::ExplicitColored::ColorSequence const&) const", [A.p, c]):
        k.prove(o.st, tobv(o.val, 32) == A.count(), "the count of the colour")


def change(k, fn, thrown, newcount, newcard):
    vm = Vecs(k)
    q, c = k.u32("q"), k.u32("c")
    A = MSet(k, "a", q)
    v = k.u32("count")
    t = k.u64("t")
    k.cover()
    handlers(k, vm, A)
    arg0 = k.ex.new_rec(k.st, "key", 4)
    k.ex.store_raw(k.st, arg0, 4, c, None)
    for o in k.run(fn, [A.p, arg0, v]):
        s = o.st
        p = s.ghost["lb"]
        for i in (t, t - 1):
            s.assume(A.facts(i))
            s.assume([z3.Implies(z3.And(z3.ULT(i, p), z3.ULT(i, A.n)), z3.ULT(A.col(i), c)), z3.Implies(z3.And(z3.UGE(i, p), z3.ULT(i, A.n)), z3.UGE(A.col(i), c))])      # lower_bound at t
        old = z3.If(z3.And(z3.ULT(p, A.n), A.col(p) == c), A.cnt(p), BV(0, 32))
        bad = thrown(A.card, old, v)
        if o.kind == "throw":
            k.prove(s, bad, "rejected only when the total would exceed the largest count")
            k.prove(s, z3.And(tobv(k.getf(A.p, MS, "_cardinality", s), 32) == A.card, vm.size(s, A.p) == A.n), "a rejected change changes nothing")
            continue
        k.prove(s, z3.Not(bad), "accepted only when the total fits")
        n2 = vm.size(s, A.p)
        at = lambda key, i: vm.at(s, A.p, key, i)
        ins = s.ghost.get("ins")
        P2 = A.P if not ins else A.P + BV(1, 64)
        k.prove(s, n2 == (A.n if ins is None else A.n + 1), "at most one entry is added")
        for g in (z3.Implies(z3.ULT(t, P2), z3.ULT(at(COL, t), q)), z3.Implies(z3.UGT(t, P2), z3.UGT(at(COL, t), q)), z3.Implies(t == P2, z3.UGE(at(COL, P2), q))):
            k.prove(s, z3.Implies(z3.ULT(t, n2), g), "entries stay sorted strictly: position of every colour afterwards")
        cnt2 = z3.If(z3.And(z3.ULT(P2, n2), at(COL, P2) == q), at(CNT, P2), BV(0, 32))
        nc = newcount(old, v)
        k.prove(s, z3.Implies(q == c, s64(cnt2) == nc), "the colour gets the new count")
        k.prove(s, z3.Implies(q != c, cnt2 == A.count()), "every other colour keeps its count")
        k.prove(s, s64(tobv(k.getf(A.p, MS, "_cardinality", s), 32)) == newcard(s64(A.card), s64(old), v), "the stored total is the sum of the counts")


@contract("C11", "ecol.cpp")
def set_count(k):
    """setCount"""
    change(k, MS + "::setCount(unsigned int const&, unsigned int)",
           lambda card, old, v: s64(card) - s64(old) + z64(v) > BV(IMAX, 64),
           lambda old, v: z64(v), lambda card, old, v: card - old + z64(v))


@contract("C11", "ecol.cpp")
def add_count(k):
    """addCount (counts may go below zero; never wrap)"""
    change(k, MS + "::addCount(unsigned int const&, int)",
           lambda card, old, v: s64(card) + s64(v) > BV(IMAX, 64),
           lambda old, v: s64(old) + s64(v), lambda card, old, v: card + s64(v))


@contract("C11", "ecol.cpp")
def by_sequence(k):
    """setCount / addCount of an encoded product colour are those of its code"""
    CS = "PetriEngine::ExplicitColored::ColorSequence"
    a, c = k.rec("a", MS), k.rec("colour", CS)
    code, v = k.u32("code"), k.u32("count")
    k.setf(c, CS, "encodedValue", z64(code))
    k.cover()
    for nm, ty in (("setCount", "unsigned int"), ("addCount", "int")):
        def h(ex, st, args, ins):
            st.ghost["calls"] = st.ghost.get("calls", 0) + 1
            k.prove(st, z3.And(z3.BoolVal(ex.aptr(args[0]).same(a)), tobv(ex.load_raw(st, ex.aptr(args[1]), 4, False, None), 32) == code, tobv(args[2], 32) == v), nm + " with the code and the count")
            return [(st, None)]
        n = len(k.ex.contracts)
        k.ex.contract(r"SequenceMultiSet::%s\(unsigned int const&" % nm, h)
        for o in k.run("%s::%s(%s const&, %s)" % (MS, nm, CS, ty), [a, c, v], k.st.copy()):
            k.prove(o.st, z3.BoolVal(o.st.ghost.get("calls") == 1), nm + " once")
        del k.ex.contracts[n:]


def one_loop(k, A, cands):
    def c(ex, st, lv):
        out = []
        for n, f in lv.idx(st, A.a):
            out.append((n + " inside", inside(f, A)))
            for nm, g in cands(lv, st):
                if isinstance(g, UniInv):
                    out.append((nm + " " + n, g))
                else:
                    out.append((nm + " " + n, (lambda f, g: lambda s, e: g(s, e, b64(f(s, e))))(f, g)))
        return out
    k.ex.loop_cands = c


@contract("C11", "ecol.cpp")
def fix_negative(k):
    """fixNegative: negative counts become 0, the others are kept, the total stays the sum"""
    q = k.u32("q")
    A = MSet(k, "a", q, nonneg=False, order=False, sums=True)
    T = z3.Function("sum of the positive counts", z3.BitVecSort(64), z3.BitVecSort(64))
    mx = lambda x: z3.If(x > 0, x, BV(0, 32))
    old = A.facts

    def facts(i):
        return old(i) + [z3.Implies(z3.ULT(i, A.n), z3.And(T(i + 1) == T(i) + s64(mx(A.cnt(i))), T(i + 1) <= BV(IMAX, 64), A.cnt(i) != BV(1 << 31, 32)))]
    A.facts = facts
    k.st.assume([T(BV(0, 64)) == 0, T(A.n) <= BV(IMAX, 64), T(A.n) >= 0])
    for i in (A.P, BV(0, 64)):
        k.st.assume(facts(i))
    k.assume_note("fixNegative: no count is -2^31 and the positive counts sum to at most 2^31-1 (a difference of two markings)")
    k.cover()
    t = k.u64("t")
    cur = lambda s, i: s.mem[A.a.obj].f[CNT].sel(s, i)
    col = lambda s, i: s.mem[A.a.obj].f[COL].sel(s, i)
    card = lambda s: s64(tobv(k.getf(A.p, MS, "_cardinality", s), 32))

    def cands(lv, st):
        return [("cardinality", lambda s, e, i: z3.Extract(31, 0, card(s)) == z3.Extract(31, 0, s64(A.card) + (T(i) - A.S(i)))),
                ("colour kept at P", lambda s, e, i: col(s, A.P) == A.col(A.P)),
                ("count at P", lambda s, e, i: cur(s, A.P) == z3.If(z3.ULT(A.P, i), mx(A.cnt(A.P)), A.cnt(A.P))),
                ] + [("entries from the cursor on are unchanged", UniInv((lambda f: lambda s, e, qq, v: z3.Implies(z3.UGE(qq, b64(f(s, e))), v == A.cnt(qq)))(f), A.a, CNT, t)) for n, f in lv.idx(st, A.a)]
    one_loop(k, A, cands)
    for o in k.run(MS + "::fixNegative()", [A.p]):
        s = o.st
        k.prove(s, z3.Implies(z3.ULT(A.P, A.n), z3.And(col(s, A.P) == A.col(A.P), cur(s, A.P) == mx(A.cnt(A.P)))), "negative counts become 0, the others are kept")
        k.prove(s, card(s) == T(A.n), "the total is the sum of the counts that are left")


@contract("C11", "ecol.cpp")
def highest_count(k):
    """getHighestCount: at least every count and equal to one of them (or 0)"""
    q = k.u32("q")
    A = MSet(k, "a", q, nonneg=False)
    t = k.u64("t")
    k.st.assume(z3.ULT(t, A.n))
    M = z3.Function("largest count", z3.BitVecSort(64), z3.BitVecSort(32))
    old = A.facts
    A.facts = lambda i: old(i) + [z3.Implies(z3.ULT(i, A.n), M(i + 1) == z3.If(A.cnt(i) > M(i), A.cnt(i), M(i)))] + [z3.Implies(z3.And(z3.ULT(t, i), z3.ULE(i, A.n)), A.cnt(t) <= M(i)), z3.Implies(z3.ULE(i, A.n), M(i) >= 0)]
    k.st.assume(M(BV(0, 64)) == 0)
    k.st.assume(A.facts(A.n))
    k.assume_note("law: M(i), the running maximum of 0 and the first i counts, bounds each of them")
    k.cover()

    def cands(lv, st):
        out = []
        for n, g in lv.ints(st):
            out.append(("running maximum %s" % n, lambda s, e, i, g=g: w32(g(s, e)) == M(i)))
        return out
    one_loop(k, A, cands)
    for o in k.run(MS + "::getHighestCount() const", [A.p]):
        k.prove(o.st, tobv(o.val, 32) == M(A.n), "the largest count")
        k.prove(o.st, tobv(o.val, 32) >= A.cnt(t), "no count is larger")


def mul_laws(k):
    """x*c and M/x as uninterpreted functions over 32 bits, with the laws proved here over the integers"""
    x, c, M, d = z3.Ints("x c M d")
    k.ex.lemma("law: for x > 0, c > M div x exactly when c * x > M (integers)",
               x > 0, c >= 0, M >= 0, d * x <= M, M < (d + 1) * x, z3.Not((c > d) == (c * x > M)))


MUL = z3.Function("product", z3.BitVecSort(32), z3.BitVecSort(32), z3.BitVecSort(64))
DIV = z3.Function("quotient", z3.BitVecSort(32), z3.BitVecSort(32), z3.BitVecSort(32))


@contract("C11", "ecol.cpp")
def scale(k):
    """operator*=: every count times the scalar, rejected exactly when the total would not fit"""
    q = k.u32("q")
    A = MSet(k, "a", q)
    x = k.u32("scalar")
    k.st.assume(A.facts(A.P))
    mul_laws(k)

    def law(st, c):
        """c * x exactly (c non-negative), and its quotient test"""
        st.assume([z3.Implies(x == 0, MUL(c, x) == 0), z3.Implies(c >= 0, z3.And(MUL(c, x) >= 0, z3.ULE(MUL(c, x), BV(((1 << 31) - 1) * ((1 << 32) - 1), 64)))),
                   z3.Implies(z3.And(c >= 0, x != 0), z3.UGT(c, DIV(BV(IMAX, 32), x)) == (MUL(c, x) > BV(IMAX, 64)))])

    def hook(st, op, w, a, b):
        if w != 32:
            return None
        if op == "mul":
            if a.eq(x):
                a, b = b, a
            law(st, a)
            return z3.Extract(31, 0, MUL(a, b))
        if op == "udiv":
            return DIV(a, b)
        return None
    k.ex.arith_hook = hook
    law(k.st, A.card)
    k.cover()
    t = k.u64("t")
    cur = lambda s, i: s.mem[A.a.obj].f[CNT].sel(s, i)
    col = lambda s, i: s.mem[A.a.obj].f[COL].sel(s, i)
    sc = lambda c: z3.Extract(31, 0, MUL(c, x))

    def cands(lv, st):
        return [("colour kept at P", lambda s, e, i: col(s, A.P) == A.col(A.P)),
                ("count at P", lambda s, e, i: cur(s, A.P) == z3.If(z3.ULT(A.P, i), sc(A.cnt(A.P)), A.cnt(A.P)))] + \
            [("entries from the cursor on are unchanged", UniInv((lambda f: lambda s, e, qq, v: z3.Implies(z3.UGE(qq, b64(f(s, e))), v == A.cnt(qq)))(f), A.a, CNT, t)) for n, f in lv.idx(st, A.a)]
    one_loop(k, A, cands)
    big = MUL(A.card, x) > BV(IMAX, 64)
    for o in k.run(MS + "::operator*=(unsigned int)", [A.p, x]):
        s = o.st
        if o.kind == "throw":
            k.prove(s, big, "rejected only when the total would exceed the largest count")
            continue
        k.prove(s, z3.Not(big), "accepted only when the total fits")
        k.prove(s, s64(tobv(k.getf(A.p, MS, "_cardinality", s), 32)) == MUL(A.card, x), "the total is scaled")
        k.prove(s, z3.Implies(z3.ULT(A.P, A.n), z3.And(col(s, A.P) == A.col(A.P), cur(s, A.P) == sc(A.cnt(A.P)))), "every count is scaled")
    k.assume_note("a scaled count does not wrap because it is at most the scaled total (law: a non-negative count is at most the total)")


def merge(k, plus, totals, case=None):
    """totals: the sums; otherwise: the entries (two contracts on the same run keep the obligations small)"""
    vm = Vecs(k)
    q = k.u32("q")
    A, B = [MSet(k, x, q, order=not totals, sums=totals) for x in "ab"]
    if case is not None:
        k.st.assume(B.card > 0 if case else B.card == 0)
    ex = k.ex
    # room for every entry of b: insertion moves entries inside the buffer (reallocation is not modelled)
    big = k.st.mem[A.a.obj].copy()
    big.n = BV(1 << 40, 64)
    k.st.mem[A.a.obj] = big
    gP = ex.new_rec(k.st, "position of q now", 8)
    ex.store_raw(k.st, gP, 8, A.P, None)
    P = lambda s: tobv(ex.load_raw(s, gP, 8, False, None), 64)
    k.cover()
    t = k.u64("t")
    a, b = A.count(), B.count()
    size = lambda s: vm.size(s, A.p)
    at = lambda s, key, i: s.mem[A.a.obj].f[key].sel(s, i)
    sg = 1 if plus else -1

    def put(ex, st, pos, vals):
        """one result per position of the new colour relative to q"""
        c, out = vals[COL], []
        for cond in (z3.ULT(c, q), c == q, z3.UGT(c, q)):
            s = st.copy()
            s.assume(cond)
            out.append((s, put1(ex, s, pos, vals, 1 if len(out) == 0 else 0)))
        return out

    def put1(ex, st, pos, vals, d):
        o = st.mem[A.a.obj].copy()
        n = size(st)
        for key, prev in list(o.f.items()):
            o.f[key] = FStore(FCopy(prev, pos + 1, n - pos, prev, pos), pos, vals[key])
        p0 = P(st)
        st.mem[A.a.obj] = o
        ex.store_raw(st, A.p.plus(8), 8, A.a.plus(Lin.of(n + 1).scale(8)), None)
        ex.store_raw(st, gP, 8, p0 + BV(d, 64), None)
        return A.a.plus(Lin.of(pos).scale(8))

    def ins_(ex, st, args, ins):
        v = ex.aptr(args[0])
        if v.obj != A.p.obj:
            raise Unsupported("insertion into another vector")
        pos = vm.pos(st, v, args[1])
        k.prove(st, z3.ULE(pos, size(st)), "inserting inside the vector")
        return put(ex, st, pos, vm.elem(st, ex.aptr(args[2]), st.mem[A.a.obj]))

    def push(ex, st, args, ins):
        v = ex.aptr(args[0])
        if v.obj != A.p.obj:
            raise Unsupported("insertion into another vector")
        if len(args) >= 3 and isinstance(ex.aptr(args[2]), Ptr):
            vals = {COL: tobv(ex.load_raw(st, ex.aptr(args[1]), 4, False, None), 32), CNT: tobv(ex.load_raw(st, ex.aptr(args[2]), 4, False, None), 32)}
        else:
            vals = vm.elem(st, ex.aptr(args[1]), st.mem[A.a.obj])
        return put(ex, st, size(st), vals)
    PV = r"std::vector<std::pair<unsigned int, int>.*::"
    ex.contract(PV + r"(insert|emplace)(<.*>)?\(", ins_)
    ex.contract(PV + r"(push_back|emplace_back)(<.*>)?\(", push)
    contrib = lambda j: z3.If(z3.ULT(B.P, j), b, BV(0, 32))
    cnow = lambda s: z3.If(z3.And(z3.ULT(P(s), size(s)), at(s, COL, P(s)) == q), at(s, CNT, P(s)), BV(0, 32))
    card = lambda s: s64(tobv(k.getf(A.p, MS, "_cardinality", s), 32))

    def part(s, i, v, w=None):
        p = P(s)
        if w is not None:
            return z3.Implies(z3.ULT(i, size(s)), z3.Implies(z3.ULT(i, p), z3.ULT(v, q)) if w == 0 else z3.Implies(z3.UGT(i, p), z3.UGT(v, q)))
        return z3.Implies(z3.ULT(i, size(s)), z3.And(z3.Implies(z3.ULT(i, p), z3.ULT(v, q)), z3.Implies(i == p, z3.UGE(v, q)), z3.Implies(z3.UGT(i, p), z3.UGT(v, q))))

    def cands(ex, st, lv):
        if totals:
            return tot_cands(st, lv)
        out = [("position inside", lambda s, e: z3.ULE(P(s), size(s))),
               ("entries before", UniInv(lambda s, e, i, v: part(s, i, v, 0), A.a, COL, t)),
               ("entries after", UniInv(lambda s, e, i, v: part(s, i, v, 1), A.a, COL, t)),
               ("partition at P", lambda s, e: part(s, P(s), at(s, COL, P(s))))]
        ia, jb = lv.idx(st, A.a), lv.idx(st, B.a)
        for n, f in jb:
            out.append((n + " inside", inside(f, B)))
            out.append(("count of q " + n, (lambda f: lambda s, e: cnow(s) == a + sg * contrib(b64(f(s, e))))(f)))
            out.append(("size " + n, (lambda f: lambda s, e: z3.ULE(size(s), A.n + b64(f(s, e))))(f)))
            nxt = lambda f, s, e: z3.And(z3.ULT(b64(f(s, e)), B.n), z3.ULE(B.col(b64(f(s, e))), q))
            out.append(("the end is not past q " + n, (lambda f: lambda s, e: z3.Implies(nxt(f, s, e), z3.ULE(size(s), P(s))))(f)))
            for m, g in ia:
                out.append(("cursor is not past q %s %s" % (m, n), (lambda f, g: lambda s, e: z3.Implies(nxt(f, s, e), z3.ULE(b64(g(s, e)), P(s))))(f, g)))
        for m, g in ia:
            out.append(("cursor inside " + m, (lambda g: lambda s, e: z3.ULE(b64(g(s, e)), size(s)))(g)))
        return out

    def tot_cands(st, lv):
        out = []
        for n, f in lv.idx(st, B.a):
            out.append((n + " inside", inside(f, B)))
            out.append(("total " + n, (lambda f: lambda s, e: card(s) == s64(A.card) + sg * B.S(b64(f(s, e))))(f)))
            out.append(("size " + n, (lambda f: lambda s, e: z3.ULE(size(s), A.n + b64(f(s, e))))(f)))
        for m, g in lv.idx(st, A.a):
            out.append(("cursor inside " + m, (lambda g: lambda s, e: z3.ULE(b64(g(s, e)), size(s)))(g)))
        return out
    ex.loop_cands = cands
    op = "operator%s=(" % ("+" if plus else "-")
    tot = s64(A.card) + sg * s64(B.card)
    for o in k.run(MS + "::" + op + MS + " const&)", [A.p, B.p]):
        s = o.st
        if o.kind == "throw":
            k.prove(s, z3.BoolVal(plus) if not plus else tot > BV(IMAX, 64), "rejected only when the total would exceed the largest count")
            continue
        if plus:
            k.prove(s, tot <= BV(IMAX, 64), "accepted only when the total fits")
        s.assume(B.facts(B.P))
        if totals:
            whole = z3.BoolVal(True) if plus else A.n != 0
            k.prove(s, z3.Implies(whole, card(s) == tot), "the stored total is the sum of the counts")
            continue
        want = s64(a) + sg * s64(b)
        whole = z3.BoolVal(True) if plus else A.n != 0      # an empty multiset has nothing to remove
        k.prove(s, z3.Implies(whole, s64(cnow(s)) == want), "the count of every colour is the %s of the two counts" % ("sum" if plus else "difference"))
        k.prove(s, part(s, t, at(s, COL, t)), "entries stay sorted strictly by colour")
        k.prove(s, z3.ULE(P(s), size(s)), "position of the colour inside")
        if not plus:
            k.prove(s, z3.Implies(A.n == 0, z3.Or(s64(cnow(s)) == want, z3.And(size(s) == 0, card(s) == s64(A.card)))), "subtracting from an empty multiset leaves it empty or gives the difference")
    k.assume_note("vector insertion is modelled in place (reallocation and capacity are not modelled); removing from an empty multiset leaves it empty (the code's convention: callers clamp negative counts to 0)")


@contract("C11", "ecol.cpp")
def add_entries(k):
    """operator+=: counts of every colour"""
    merge(k, True, False, True)


@contract("C11", "ecol.cpp")
def add_entries_of_zero_total(k):
    """operator+=: counts of every colour, when the other's total is 0"""
    merge(k, True, False, False)


@contract("C11", "ecol.cpp")
def add_total(k):
    """operator+=: total"""
    merge(k, True, True)


@contract("C11", "ecol.cpp")
def subtract_entries(k):
    """operator-=: counts of every colour"""
    merge(k, False, False)


@contract("C11", "ecol.cpp")
def subtract_total(k):
    """operator-=: total"""
    merge(k, False, True)
