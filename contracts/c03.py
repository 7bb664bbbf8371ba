"""Marking encodings: what encode writes is, place by place, what decode reads back."""
from frame import *

AE = "AlignedEncoder"
SAME, DB = 120, 240


def bit(buf, x):
    """bit x (most significant first inside a byte) of the byte function buf"""
    b = buf(z3.LShR(x, 3))
    return z3.Extract(7, 7, b << z3.Extract(7, 0, x & 7)) == 1


def word(buf, off, t):
    bs = [buf(off + BV(j, 64)) for j in range(t)]
    w = z3.Concat(*reversed(bs)) if t > 1 else bs[0]
    return z64(w)


class Enc:
    """symbolic encoder for any number of places with index width psize, and a marking D"""
    def __init__(self, k, psize=None, ro_scratch=False):
        self.k = k
        st = k.st
        self.P32 = k.u32("places")
        P = self.P = z64(self.P32)
        st.assume(z3.UGT(P, 0))
        st.assume(z3.ULT(P, BV((1 << 27) - 2, 64)))
        k.assume_note("0 < number of places < 2^27-2 (the scratch buffer is sized in bits with 32-bit arithmetic; the state set rejects far smaller encodings)")
        self.psize = psize
        if psize:
            st.assume({1: z3.ULT(P, 256), 2: z3.And(z3.UGE(P, 256), z3.ULT(P, 65536)), 4: z3.UGE(P, 65536)}[psize])
        self.nb = BV(8, 64) + P * 4
        self.D = z3.Function("D", z3.BitVecSort(64), z3.BitVecSort(32))
        self.R = z3.Function("rank", z3.BitVecSort(64), z3.BitVecSort(64))
        self.S = z3.Function("markedPlace", z3.BitVecSort(64), z3.BitVecSort(64))
        self.g = k.u64("g")           # arbitrary place
        st.assume(z3.ULT(self.g, P))
        self.N = self.R(P)
        self.data = k.arr("marking", "unsigned int", P, ro=True)
        a = st.mem[self.data.obj].copy()
        a.f[(0, 4)] = FBase(self.D, 32)
        st.mem[self.data.obj] = a
        self.scratch = k.arr("scratchpad", "unsigned char", self.nb, ro=ro_scratch)
        self.e = k.rec("encoder", AE)
        k.setf(self.e, AE, "_places", self.P32)
        if psize:
            k.setf(self.e, AE, "_psize", BV(psize, 32))
        k.setf(self.e, AE, "_scratchpad._blob", self.scratch)
        k.setf(self.e, AE, "_scratchpad._nbytes", self.nb)
        st.assume(self.facts(self.g))
        st.assume(self.facts(P))
        k.assume_note("lemma (checked by induction in contract rank_lemmas): the number of marked places below i is monotone in i and grows by at most one per place")

    def marked(self, i):
        return self.D(i) != 0

    def facts(self, i):
        """definition of rank at i and its monotonicity against g and P"""
        R, g, P = self.R, self.g, self.P
        one = lambda j: z3.If(self.marked(j), BV(1, 64), BV(0, 64))
        fs = [R(BV(0, 64)) == 0, R(i + 1) == R(i) + one(i), z3.ULE(R(i), i), R(g + 1) == R(g) + one(g)]
        for j in (g, P):
            fs += self.mono(i, j) + self.mono(i + 1, j) + self.mono(j, i) + self.mono(j + 1, i)
        return fs

    def mono(self, i, j):
        R = self.R
        return [z3.Implies(z3.ULE(i, j), z3.And(z3.ULE(R(i), R(j)), z3.ULE(R(j) - R(i), j - i)))]

    def sfacts(self, i):
        """the i-th marked place"""
        s = self.S(i)
        return [z3.Implies(z3.ULT(i, self.N), z3.And(z3.ULT(s, self.P), self.marked(s), self.R(s) == i)),
                z3.Implies(self.marked(self.g), self.S(self.R(self.g)) == self.g)]

    # layouts: what the buffer holds for place g -------------------------------------------------
    def bvbytes(self, bits=1):
        return z3.LShR(self.P * bits + 7, 3)

    def l_bits(self, buf, g):
        return bit(buf, g + 8) == self.marked(g)

    def l_two(self, buf, g):
        d = self.D(g)
        return z3.And(bit(buf, g * 2 + 8) == (z3.Extract(0, 0, d) == 1), bit(buf, g * 2 + 9) == (z3.Extract(1, 1, d) == 1))

    def l_places(self, buf, g):
        p = self.psize
        return z3.Implies(self.marked(g), word(buf, BV(1, 64) + (self.R(g) + 1) * p, p) == g)

    def l_count(self, buf):
        return word(buf, BV(1, 64), self.psize) == self.N

    def l_direct(self, buf, g, t):
        return word(buf, BV(1, 64) + g * t, t) == z64(self.D(g))

    def l_counts(self, buf, g, t, base):
        return z3.Implies(self.marked(g), word(buf, base + self.R(g) * t, t) == z64(self.D(g)))

    def pl_end(self):
        return BV(1, 64) + (self.N + 1) * self.psize

    def bv_end(self):
        return BV(1, 64) + self.bvbytes()

    def buf(self, st):
        f = st.mem[self.scratch.obj].f[(0, 1)]
        return lambda i: f.sel(st, i)


# mode -> (lo type, hi type, needs psize, token bytes)
class Mode:
    def __init__(self, name, lo, hi, places=False, bits=False, two=False, direct=0, counts=0):
        self.name, self.lo, self.hi, self.places, self.bits, self.two, self.direct, self.counts = name, lo, hi, places, bits, two, direct, counts

    def layout(self, E, buf, g):
        out = []
        if self.bits:
            out.append(("bit", E.l_bits(buf, g)))
        if self.two:
            out.append(("two-bit", E.l_two(buf, g)))
        if self.places:
            out.append(("place index", E.l_places(buf, g)))
        if self.direct:
            out.append(("token value", E.l_direct(buf, g, self.direct)))
        if self.counts:
            out.append(("token count", E.l_counts(buf, g, self.counts, E.pl_end() if self.places else E.bv_end())))
        return out

    def globals(self, E, buf):
        return [("number of marked places", E.l_count(buf))] if self.places else []

    def length(self, E):
        if self.two:
            return BV(1, 64) + E.bvbytes(2)
        if self.direct:
            return BV(1, 64) + E.P * self.direct
        n = E.pl_end() if self.places else E.bv_end()
        return n + E.N * self.counts if self.counts else n

    def value_ok(self, E, i, typ):
        """the token counts the type can represent (established by the type choice)"""
        d = E.D(i)
        if self.two:
            return z3.ULT(d, 4)
        t = self.direct or self.counts
        if t:
            return z3.ULT(z64(d), BV(1 << (8 * t), 64))
        v = z3.ZeroExt(24, typ) - (0 if self.bits else SAME)
        return z3.Or(d == 0, d == v)


MODES = [Mode("same_bits", 0, SAME, bits=True), Mode("same_places", SAME + 1, DB, places=True), Mode("twobit", DB + 1, DB + 1, two=True)] + \
        [Mode("direct%d" % t, DB + 2 + j, DB + 2 + j, direct=t) for j, t in enumerate((1, 2, 4))] + \
        [Mode("placecounts%d" % t, DB + 5 + j, DB + 5 + j, places=True, counts=t) for j, t in enumerate((1, 2, 4))] + \
        [Mode("bitcounts%d" % t, DB + 8 + j, DB + 8 + j, bits=True, counts=t) for j, t in enumerate((1, 2, 4))]


def int_phis(lv, env):
    out = []
    for i in lv.changed():
        v = env.get(i)
        if isinstance(v, (Lin,)) or (z3.is_expr(v) and z3.is_bv(v) and v.size() in (32, 64)):
            out.append(i)
    return out


def i64(v):
    return v.bv() if isinstance(v, Lin) else z64(v)


def setup(k, mode, psize, ro=False):
    E = Enc(k, psize if psize else None, ro)
    if not psize:
        # the width of place indices does not matter for this mode, but is what the constructor chooses
        ps = z3.If(z3.ULT(E.P, 256), BV(1, 32), z3.If(z3.ULT(E.P, 65536), BV(2, 32), BV(4, 32)))
        k.setf(E.e, AE, "_psize", ps)
    typ = k.bvin("type", 8)
    k.st.assume(z3.And(z3.UGE(typ, mode.lo), z3.ULE(typ, mode.hi)))
    k.st.assume(mode.value_ok(E, E.g, typ))
    L = mode.length(E)
    k.st.assume(z3.ULE(L, E.nb))
    k.assume_note("the chosen encoding fits the scratch buffer and represents every token count of the marking (proved from the type choice in contract type_choice)")
    return E, typ, L


def enc_contract(k, mode, psize):
    E, typ, L = setup(k, mode, psize)
    P, g = E.P, E.g
    k.cover()

    def cands(ex, st, lv):
        out = [("type byte", lambda s, e: E.buf(s)(BV(0, 64)) == typ)]
        ids = int_phis(lv, lv.entry)
        for nm, _ in mode.layout(E, E.buf(st), g):
            out.append(("%s of g" % nm, lambda s, e, nm=nm: dict(mode.layout(E, E.buf(s), g))[nm]))
        for nm, _ in mode.globals(E, E.buf(st)):
            out.append((nm, lambda s, e, nm=nm: dict(mode.globals(E, E.buf(s)))[nm]))
        for i in ids:
            def iv(e, s, i=i):
                x = i64(e[i])
                s.assume(E.facts(x))
                s.assume(mode.value_ok(E, x, typ))
                return x
            out.append(("v%d<=P" % i, lambda s, e, iv=iv: z3.ULE(iv(e, s), P)))
            for nm, _ in mode.layout(E, E.buf(st), g):
                out.append(("v%d>g: %s" % (i, nm), lambda s, e, nm=nm, iv=iv: z3.Implies(z3.ULT(g, iv(e, s)), dict(mode.layout(E, E.buf(s), g))[nm])))
            if mode.two:
                out.append(("v%d<=g: still zero" % i, lambda s, e, iv=iv: z3.Implies(z3.ULE(iv(e, s), g), z3.And(z3.Not(bit(E.buf(s), g * 2 + 8)), z3.Not(bit(E.buf(s), g * 2 + 9))))))
            for j in ids:
                if i != j:
                    for c in (1, 2, 4):
                        out.append(("v%d=%d*rank(v%d)" % (j, c, i), lambda s, e, iv=iv, j=j, c=c: i64(e[j]) == E.R(iv(e, s)) * c))
        return out
    k.ex.loop_cands = cands
    e0 = k.st.mem[E.e.obj]
    for o in k.run("AlignedEncoder::encode(unsigned int const*, unsigned char)", [E.e, E.data, typ]):
        st = o.st
        if o.kind != "ret":
            k.prove(st, False, "does not throw")
            continue
        buf = E.buf(st)
        k.prove(st, buf(BV(0, 64)) == typ, "first byte is the type")
        k.prove(st, i64(o.val) == L, "reported length")
        for nm, f in mode.layout(E, buf, g) + mode.globals(E, buf):
            k.prove(st, f, "%s of every place stored at its position" % nm)
        from c01 import frame
        frame(k, st, E.e, e0)


def dec_contract(k, mode, psize, what):
    E, typ, L = setup(k, mode, psize, ro=True)
    P, g = E.P, E.g
    st = k.st
    base = st.mem[E.scratch.obj].f[(0, 1)]
    B = lambda i: base.arr(i)
    st.assume(B(BV(0, 64)) == typ)
    for _, f in mode.globals(E, B):
        st.assume(f)

    def inst(s, i):
        """what holds of the buffer and the marking at every place i"""
        s.fact_once(("inst", i.get_id()), i, lambda: E.facts(i) + [z3.Implies(z3.ULT(i, P), z3.And(mode.value_ok(E, i, typ), *[f for _, f in mode.layout(E, B, i)]))])
    inst(st, g)
    for x in E.sfacts(g):
        st.assume(x)
    k.cover()
    dest = k.arr("destination", "unsigned int", P)

    def cands(ex, st, lv):
        out = []
        ids = int_phis(lv, lv.entry)
        D = lambda s: s.mem[dest.obj].f[(0, 4)].sel(s, g)
        for i in ids:
            def iv(e, s, i=i):
                x = i64(e[i])
                inst(s, x)
                if mode.places:
                    s.fact_once(("sf", x.get_id()), x, lambda: E.sfacts(x))
                    inst(s, E.S(x))
                return x
            out.append(("v%d<=P" % i, lambda s, e, iv=iv: z3.ULE(iv(e, s), P)))
            out.append(("v%d<=N" % i, lambda s, e, iv=iv: z3.ULE(iv(e, s), E.N)))
            if what == "decode":
                out.append(("v%d: g read" % i, lambda s, e, iv=iv: z3.Implies(z3.ULT(g, iv(e, s)), D(s) == E.D(g))))
                out.append(("v%d: g not yet read" % i, lambda s, e, iv=iv: z3.Implies(z3.UGE(g, iv(e, s)), D(s) == 0)))
                if mode.places:
                    out.append(("v%d: g by rank" % i, lambda s, e, iv=iv: D(s) == z3.If(z3.And(E.marked(g), z3.ULT(E.R(g), iv(e, s))), E.D(g), BV(0, 32))))
            for j in ids:
                if i != j:
                    for c in (1, 2, 4):
                        out.append(("v%d=%d*rank(v%d)" % (j, c, i), lambda s, e, iv=iv, j=j, c=c: i64(e[j]) == E.R(iv(e, s)) * c))
        return out
    k.ex.loop_cands = cands
    if what == "decode":
        outs = k.run("AlignedEncoder::decode(unsigned int*, unsigned char const*)", [E.e, dest, E.scratch])
    else:
        outs = k.run("AlignedEncoder::size(unsigned char const*) const", [E.e, E.scratch])
    for o in outs:
        s = o.st
        if o.kind != "ret":
            k.prove(s, False, "does not throw")
        elif what == "decode":
            k.prove(s, s.mem[dest.obj].f[(0, 4)].sel(s, g) == E.D(g), "decoded token count of every place is the encoded one")
        else:
            k.prove(s, i64(o.val) == L, "size of the encoding is the encoded length")


def _mk(mode, psize):
    n = mode.name + ("_p%d" % psize if psize else "")

    def e(k):
        enc_contract(k, mode, psize)

    def d(k):
        dec_contract(k, mode, psize, "decode")

    def z(k):
        dec_contract(k, mode, psize, "size")
    for f, nm in ((e, "encode_"), (d, "decode_"), (z, "size_")):
        f.__name__ = nm + n
        contract("C03", "enc.cpp", budget=300)(f)


for _m in MODES:
    for _p in ((1, 2, 4) if _m.places else (None,)):
        _mk(_m, _p)


def ps_of(P):
    return z3.If(z3.ULT(P, 256), BV(1, 32), z3.If(z3.ULT(P, 65536), BV(2, 32), BV(4, 32)))


@contract("C03", "enc.cpp")
def type_choice(k):
    """getType: the chosen type represents every token count and fits the scratch buffer"""
    for psize in (1, 2, 4):
        k.st = State()
        E = Enc(k, psize)
        st = k.st
        val, same, s = k.u32("maxtokens"), k.boolin("allsame"), k.u32("sum")
        pwt = z3.Extract(31, 0, E.N)
        st.assume(z3.ULE(E.N, E.P))
        st.assume(z3.ULE(E.D(E.g), val))
        st.assume(z3.Implies(same, z3.Or(E.D(E.g) == 0, E.D(E.g) == val)))
        st.assume((E.N == 0) == (val == 0))
        st.assume(z3.Implies(E.N == 0, E.D(E.g) == 0))
        k.cover(st)
        for o in k.run("AlignedEncoder::getType(unsigned int, unsigned int, bool, unsigned int) const", [E.e, s, pwt, same, val]):
            t = o.val
            if o.kind != "ret":
                k.prove(o.st, False, "no throw")
                continue
            k.prove(o.st, z3.Or(*[z3.And(z3.UGE(t, m.lo), z3.ULE(t, m.hi)) for m in MODES]), "the type is a known one (index width %d)" % psize)
            for m in MODES:
                s2 = o.st.copy()
                s2.assume(z3.And(z3.UGE(t, m.lo), z3.ULE(t, m.hi)))
                if not k.ex.sp.feasible(s2.pc):
                    continue
                k.prove(s2, m.value_ok(E, E.g, t), "type %s represents every token count (index width %d)" % (m.name, psize))
                k.prove(s2, z3.ULE(m.length(E), E.nb), "type %s fits the scratch buffer (index width %d)" % (m.name, psize))


@contract("C03", "enc.cpp")
def rank_lemmas(k):
    """induction steps behind the facts assumed about the ghost function rank"""
    R = z3.Function("rank", z3.BitVecSort(64), z3.BitVecSort(64))
    D = z3.Function("D", z3.BitVecSort(64), z3.BitVecSort(32))
    i, j = k.u64("i"), k.u64("j")
    st = k.st
    st.assume(z3.ULT(j, BV(1 << 40, 64)))
    k.cover()
    df = lambda x: R(x + 1) == R(x) + z3.If(D(x) != 0, BV(1, 64), BV(0, 64))
    st.assume(R(BV(0, 64)) == 0)
    st.assume(df(j))
    s = st.copy()
    s.assume(z3.ULE(R(j), j))
    k.prove(s, z3.ULE(R(j + 1), j + 1), "rank(j) <= j: step")
    k.prove(st, z3.ULE(R(BV(0, 64)), BV(0, 64)), "rank(j) <= j: base")
    s = st.copy()
    s.assume(z3.ULE(i, j))
    s.assume(z3.ULE(R(j), j))
    mono = lambda a, b: z3.And(z3.ULE(R(a), R(b)), z3.ULE(R(b) - R(a), b - a))
    s.assume(mono(i, j))
    k.prove(s, mono(i, j + 1), "monotone and 1-Lipschitz: step")
    k.prove(st, mono(i, i), "monotone and 1-Lipschitz: base")


@contract("C03", "enc.cpp")
def marking_stats(k):
    """markingStats: number of marked places, largest count, whether all non-zero counts agree"""
    T = "PetriEngine::Structures::EncodingStateSetInterface"
    E = Enc(k)
    st = k.st
    r = k.rec("stateset", T)
    k.setf(r, T, "_nplaces", E.P)
    k.cover()
    cells = {}
    for n, w, v in (("sum", 4, BV(0, 32)), ("allsame", 1, BV(1, 8)), ("val", 4, BV(0, 32)), ("active", 4, BV(0, 32)), ("last", 4, BV(0, 32))):
        c = k.ex.new_rec(st, n, w)
        k.ex.store_raw(st, c, w, v, None)
        cells[n] = c
    get = lambda s, n: tobv(s.mem[cells[n].obj].f[0][1], 8 if n == "allsame" else 32)
    g, P, D = E.g, E.P, E.D

    def cands(ex, st, lv):
        out = []
        ints = lv.ints(st)
        for i, gi in ints:
            def iv(e, s, gi=gi):
                x = gi(s, e)
                s.assume(E.facts(x))
                return x
            out.append(("%s<=P" % i, lambda s, e, iv=iv: z3.ULE(iv(e, s), P)))
            for j, gj in ints:
                if j != i:
                    out.append(("%s = rank(%s)" % (j, i), lambda s, e, iv=iv, gj=gj: gj(s, e) == E.R(iv(e, s))))
            out.append(("g <= max (%s)" % i, lambda s, e, iv=iv: z3.Implies(z3.ULT(g, iv(e, s)), z3.ULE(D(g), get(s, "val")))))
            out.append(("same (%s)" % i, lambda s, e, iv=iv: z3.Implies(z3.And(z3.ULT(g, iv(e, s)), get(s, "allsame") != 0), z3.Or(D(g) == 0, D(g) == get(s, "val")))))
            out.append(("%s = 0 iff max = 0" % i, lambda s, e, gi=gi: (gi(s, e) == 0) == (get(s, "val") == 0)))
        out.append(("flag", lambda s, e: z3.ULE(get(s, "allsame"), 1)))
        out.append(("some marked iff max > 0", lambda s, e: (get(s, "active") == 0) == (get(s, "val") == 0)))
        return out
    k.ex.loop_cands = cands
    for o in k.run(T + "::markingStats(unsigned int const*, unsigned int&, bool&, unsigned int&, unsigned int&, unsigned int&)",
                   [r, E.data] + [cells[n] for n in ("sum", "allsame", "val", "active", "last")]):
        s = o.st
        if o.kind != "ret":
            k.prove(s, False, "no throw")
            continue
        k.prove(s, z64(get(s, "active")) == E.N, "counts the marked places")
        k.prove(s, z3.ULE(D(g), get(s, "val")), "maximum bounds every place")
        k.prove(s, z3.Implies(get(s, "allsame") != 0, z3.Or(D(g) == 0, D(g) == get(s, "val"))), "'all same' only if every marked place holds the maximum")
        k.prove(s, (get(s, "active") == 0) == (get(s, "val") == 0), "maximum is positive iff some place is marked")


@contract("C03", "enc.cpp")
def constructor(k):
    """the scratch buffer is large enough and the index width fits the number of places"""
    P32 = k.u32("places")
    P = z64(P32)
    st = k.st
    st.assume(z3.And(z3.UGT(P, 0), z3.ULT(P, BV((1 << 27) - 2, 64))))
    e = k.rec("encoder", AE)
    k.cover()
    got = {}

    def calloc(ex, s, args, ins):
        n = i64(args[0]) * i64(args[1])
        b = ex.new_arr(s, "heap", "unsigned char", n)
        a = s.mem[b.obj].copy()
        a.f[(0, 1)] = FFill(a.f[(0, 1)], BV(0, 64), n, BV(0, 8))
        s.mem[b.obj] = a
        s.ghost["n"] = n
        s.ghost["p"] = b
        return [(s, b)]
    k.ex.contract(r"^calloc$", calloc)
    for o in k.run("AlignedEncoder::AlignedEncoder(unsigned int, unsigned int)", [e, P32, k.u32("k")]):
        s = o.st
        if o.kind != "ret":
            continue
        k.prove(s, k.getf(e, AE, "_psize", s) == ps_of(P), "index width fits the number of places")
        k.prove(s, k.getf(e, AE, "_places", s) == P32, "number of places kept")
        nb = k.getf(e, AE, "_scratchpad._nbytes", s)
        k.prove(s, i64(nb) == P * 4 + 8, "scratch buffer length")
        bl = k.getf(e, AE, "_scratchpad._blob", s, ptr=True)
        k.prove(s, "p" in s.ghost and bl.same(s.ghost["p"]), "scratch buffer allocated on the heap")
        if "n" in s.ghost:
            k.prove(s, z3.UGE(s.ghost["n"], P * 4 + 8), "allocation covers the scratch buffer")


@contract("C03", "enc.cpp")
def bit_access(k):
    """binarywrapper_t::set/at: writing a bit changes that bit only; at reads it"""
    BW = "ptrie::binarywrapper_t"
    st = k.st
    n = k.u64("nbytes")
    st.assume(z3.And(z3.UGT(n, 8), z3.ULT(n, BV(1 << 29, 64))))
    x, y, v = k.u32("bit"), k.u32("other"), k.boolin("value")
    st.assume(z3.ULT(z64(x), n * 8))
    st.assume(z3.ULT(z64(y), n * 8))
    b = k.arr("bytes", "unsigned char", n)
    w = k.rec("wrapper", BW)
    k.setf(w, BW, "_blob", b)
    k.setf(w, BW, "_nbytes", n)
    k.cover()
    buf = lambda s: (lambda i: s.mem[b.obj].f[(0, 1)].sel(s, i))
    s0 = st.copy()
    for o in k.run(BW + "::set(unsigned int, bool)", [w, x, v]):
        s = o.st
        k.prove(s, bit(buf(s), z64(y)) == z3.If(x == y, v, bit(buf(s0), z64(y))), "set changes exactly the addressed bit")
    for o in k.run(BW + "::at(unsigned int) const", [w, y]):
        k.prove(o.st, tobool(o.val) == bit(buf(o.st), z64(y)), "at reads the addressed bit")
