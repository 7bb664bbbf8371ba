"""C14: waiting lists. What is put in comes out exactly once.
x is an arbitrary id (or edge). A library container (std::queue, stack, priority_queue) is its size, the number of times it holds x, and the
element it offers next; a std::vector is its elements together with P(i), the number of occurrences of x among its first i elements."""
from frame import *
from pqlmodel import vtable

ST = "PetriEngine::Structures::"
SS = "SearchStrategy::"
one = lambda c: z3.If(c, BV(1, 64), BV(0, 64))


def dem(k, ins):
    c = ins["callee"]
    n = c[1] if isinstance(c, (list, tuple)) else c
    return k.m.fns[n]["dem"] if n in k.m.fns else ""


class Lists:
    def __init__(self, k, cls, bits=32, esz=4, etype="unsigned int", item=0):
        self.k, self.cls, self.bits, self.esz, self.etype = k, cls, bits, esz, etype
        st = k.st
        self.x = k.bvin("x", 64)
        if bits == 32:
            st.assume(z3.ULT(self.x, BV(1 << 32, 64)))
        self.this = k.rec("list", cls)
        self.vecs = []          # (field, array)
        self.boxes = []
        self.tot = None
        k.assume_note("std::queue, std::stack, std::priority_queue and std::vector hold what was put in (first in first out, last in first out, greatest first) and std::shuffle permutes its range (library contracts, assumed)")
        k.assume_note("state ids fit in 32 bits where a list stores 32-bit ids; a list holds fewer than 2^40 entries")
        C = r"std::(queue|stack|priority_queue)<"

        def kind(ins):
            d = dem(k, ins)
            m = re.search(r"std::(queue|stack|priority_queue)<", d)
            return m.group(1)

        def val(ex, s, p, d):
            """the value an element is made from"""
            p = ex.aptr(p)
            if self.esz == 8 and self.bits == 64:
                return self.hd(ex.load_raw(s, p, 8, True, None))
            w = 8 if "unsigned long" in d else 4
            return tobv(ex.load_raw(s, p, w, False, None), w * 8)

        def push(ex, s, args, ins):
            d = dem(k, ins)
            b = ex.aptr(args[0])
            kd = kind(ins)
            wt = None
            if len(args) == 3:
                wt = tobv(ex.load_raw(s, ex.aptr(args[1]), 4, False, None), 32)
                tail = d[d.rfind(">(") if ">(" in d else 0:]
                v = val(ex, s, args[2], tail.split(",")[-1])
            else:
                v = val(ex, s, args[1], d[d.rfind("("):] if "emplace" not in d else d[d.rfind(">("):])
            if v.size() == 64 and self.bits == 32:
                v = z3.Extract(31, 0, v)
            v = z64(v)
            n, c, t = self.rd(s, b)
            self.put(s, b, n + 1, c + one(v == self.x))
            if kd == "stack":
                nt = v
            elif kd == "queue":
                nt = z3.If(n == 0, v, t)
            else:
                nt = fresh("top", 64)
                s.assume(z3.Or(z3.And(nt == t, n != 0), nt == v))
            self.settop(s, b, nt)
            s.ghost["pushed"] = s.ghost.get("pushed", []) + [(v, wt)]
            return [(s, None)]
        k.ex.contract(C + r".*>::(push|emplace)[<(]", push)

        def top(ex, s, args, ins):
            b = ex.aptr(args[0])
            n, c, t = self.rd(s, b)
            ex.prove(s, n != 0, "the next element is asked for only when there is one", "pre")
            s.assume(self.okay(n, c, t))
            r = ex.new_rec(s, "next", 16)
            if item and kind(ins) == "priority_queue":
                w = fresh("weight", 32)
                ex.store_raw(s, r, 4, w, None)
                s.ghost["weight"] = w
            ex.store_raw(s, r.plus(item if kind(ins) == "priority_queue" else 0), self.esz if kind(ins) != "priority_queue" or not item else item, Ptr(Abs(t), 0) if self.bits == 64 and self.hdl else (z3.Extract(31, 0, t) if (item or self.esz) == 4 else t), None)
            return [(s, r)]
        k.ex.contract(C + r".*>::(top|front)\(", top)

        def pop(ex, s, args, ins):
            b = ex.aptr(args[0])
            n, c, t = self.rd(s, b)
            ex.prove(s, n != 0, "an element is removed only when there is one", "pre")
            s.assume(self.okay(n, c, t))
            self.put(s, b, n - 1, c - one(t == self.x))
            self.settop(s, b, fresh("top", 64))
            return [(s, None)]
        k.ex.contract(C + r".*>::pop\(", pop)
        k.ex.contract(C + r".*>::empty\(", lambda ex, s, args, ins: [(s, self.rd(s, ex.aptr(args[0]))[0] == 0)])
        k.ex.contract(C + r".*>::size\(", lambda ex, s, args, ins: [(s, self.rd(s, ex.aptr(args[0]))[0])])

        def vpush(ex, s, args, ins):
            d = dem(k, ins)
            v = ex.aptr(args[0])
            a, n = self.vec(s, v)
            e = val(ex, s, args[1], d[d.rfind("("):])
            if e.size() == 64 and self.bits == 32:
                e = z3.Extract(31, 0, e)
            o = s.mem[a.obj].copy()
            o.n = n + 1
            o.f[(0, self.esz)] = FStore(o.f[(0, self.esz)], n, e)
            s.mem[a.obj] = o
            P, P2 = self.P(s, a), z3.Function("P%d" % next(_c), z3.BitVecSort(64), z3.BitVecSort(64))
            s.assume([P2(n) == P(n), P2(n + 1) == P(n) + one(z64(e) == self.x), P2(BV(0, 64)) == 0])
            s.ghost["P", a.obj] = P2
            s.ghost["vpushed"] = s.ghost.get("vpushed", []) + [(v, z64(e))]
            ex.store_raw(s, v.plus(8), 8, a.plus(Lin.of(n + 1).scale(self.esz)), None)
            return [(s, a.plus(Lin.of(n).scale(self.esz)))]
        k.ex.contract(r"std::vector<(unsigned int|DependencyGraph::Edge\*).*>::(push_back|emplace_back)[<(]", vpush)

        def vclear(ex, s, args, ins):
            v = ex.aptr(args[0])
            a, n = self.vec(s, v)
            ex.store_raw(s, v.plus(8), 8, a, None)
            return [(s, None)]
        k.ex.contract(r"std::vector<(unsigned int|DependencyGraph::Edge\*).*>::clear\(", vclear)

        def vpop(ex, s, args, ins):
            v = ex.aptr(args[0])
            a, n = self.vec(s, v)
            ex.prove(s, n != 0, "an element is removed only when there is one", "pre")
            s.mem[a.obj].f[(0, self.esz)].sel(s, n - 1)
            ex.store_raw(s, v.plus(8), 8, a.plus(Lin.of(n - 1).scale(self.esz)), None)
            return [(s, None)]
        k.ex.contract(r"std::vector<(unsigned int|DependencyGraph::Edge\*).*>::pop_back\(", vpop)

        def shuffle(ex, s, args, ins):
            a, b = ex.aptr(args[0]), ex.aptr(args[1])
            if a.obj != b.obj:
                raise Unsupported("shuffle of two ranges")
            o = s.mem[a.obj].copy()
            i0, n = a.off.split(self.esz)[0].bv(), b.off.split(self.esz)[0].bv()
            old, P = o.f[(0, self.esz)], self.P(s, a)
            ex.prove(s, z3.And(z3.ULE(i0, n), z3.ULE(n, o.n)), "the shuffled range lies in the list", "pre")
            f, P2 = self.fn(s, a.obj, n, lambda i, v: [z3.Implies(z3.ULT(i, i0), v == old.sel(s, i))])
            s.assume([P2(n) == P(n), P2(i0) == P(i0)])
            o.f[(0, self.esz)] = f
            s.mem[a.obj] = o
            return [(s, None)]
        k.ex.contract(r"shuffle<", shuffle)
        k.ex.loop_cands = self.cands
    hdl = False

    def hd(self, v):
        if z3.is_expr(v) or isinstance(v, Lin):
            return tobv(v, 64)
        return self.k.ex.ptr_bv(None, self.k.ex.aptr(v))

    def okay(self, n, c, t):
        return [z3.ULE(c, n), z3.Implies(z3.And(t == self.x, n != 0), c != 0), z3.Implies(z3.And(c == n, n != 0), t == self.x)] + ([z3.ULT(t, BV(1 << 32, 64))] if self.bits == 32 else [])

    # ---- containers ---------------------------------------------------------
    def box(self, field):
        k, st = self.k, self.k.st
        p = self.this.plus(k.m.path(self.cls, field)[0])
        n, c, t = k.u64(field + ".size"), k.u64(field + ".occurrences of x"), k.u64(field + ".next")
        st.assume(z3.ULT(n, BV(1 << 40, 64)))
        st.assume(self.okay(n, c, t))
        for o, v in ((0, n), (8, c), (16, t)):
            k.ex.store_raw(st, p.plus(o), 8, v, None)
        self.boxes.append((p, n, c, t))
        return n, c, t

    def rd(self, s, b):
        return [tobv(self.k.ex.load_raw(s, b.plus(o), 8, False, None), 64) for o in (0, 8, 16)]

    def put(self, s, b, n, c):
        if self.tot is not None:
            n0, c0, _ = self.rd(s, b)
            for o, d in ((0, n - n0), (8, c - c0)):
                p = self.tot.plus(o)
                self.k.ex.store_raw(s, p, 8, tobv(self.k.ex.load_raw(s, p, 8, False, None), 64) + d, None)
        self.k.ex.store_raw(s, b, 8, n, None)
        self.k.ex.store_raw(s, b.plus(8), 8, c, None)

    def settop(self, s, b, t):
        self.k.ex.store_raw(s, b.plus(16), 8, t, None)

    # ---- vectors ------------------------------------------------------------
    def fn(self, s, obj, n, more=None):
        f = z3.Function("v%d" % next(_c), z3.BitVecSort(64), z3.BitVecSort(self.esz * 8))
        P = z3.Function("P%d" % next(_c), z3.BitVecSort(64), z3.BitVecSort(64))

        def law(i):
            return [z3.Implies(z3.ULT(i, n), P(i + 1) == P(i) + one(z64(f(i)) == self.x)), z3.Implies(z3.ULE(i, n), z3.ULE(P(i), i)), z3.Implies(z3.ULT(i, n), z3.ULE(P(i + 1), i + 1))]
        s.assume([P(BV(0, 64)) == 0, z3.ULE(P(n), n)])
        s.ghost["P", obj] = P
        return FBase(f, self.esz * 8, lambda s2, i, v: law(i) + (more(i, v) if more else [])), P

    def P(self, s, a):
        return s.ghost["P", a.obj]

    def vecf(self, field, ro=False):
        k, st = self.k, self.k.st
        n = k.u64(field + ".size")
        st.assume(z3.ULT(n, BV(1 << 40, 64)))
        a = Ptr(k.ex.new_obj(st, Arr(field, self.esz, n, {})))
        f, P = self.fn(st, a.obj, n)
        st.mem[a.obj].f[(0, self.esz)] = f
        k.setvec(self.this, self.cls, field, a, n)
        self.vecs.append((self.this.plus(k.m.path(self.cls, field)[0]), a, n, P))
        return n, P, a

    def vec(self, s, v):
        b, e = self.k.ex.load_raw(s, v, 8, True, None), self.k.ex.load_raw(s, v.plus(8), 8, True, None)
        if b.off.const() != 0 or b.obj != e.obj:
            raise Unsupported("an unusual vector")
        return b, e.off.split(self.esz)[0].bv()

    # ---- totals -------------------------------------------------------------
    def total(self, s):
        N, T = BV(0, 64), BV(0, 64)
        for p, *_ in self.boxes:
            n, c, t = self.rd(s, p)
            N, T = N + n, T + c
        for v, a, n0, P0 in self.vecs:
            b, n = self.vec(s, v)
            N, T = N + n, T + self.P(s, b)(n)
        if self.tot is not None:
            N = N + tobv(self.k.ex.load_raw(s, self.tot, 8, False, None), 64)
            T = T + tobv(self.k.ex.load_raw(s, self.tot.plus(8), 8, False, None), 64)
        return N, T

    def cands(self, ex, st, lv):
        out = []
        for v, a, n0, P0 in self.vecs:
            P = st.ghost["P", a.obj]
            cur = lv.idx(st, a) + [(n, f) for n, f in lv.ints(st)]
            for nm, f in cur:
                def g(s, e, f=f):
                    i = f(s, e)
                    st2 = s
                    s.mem[a.obj].f[(0, self.esz)].sel(s, i)
                    return i
                out.append((nm + " inside", lambda s, e, g=g, a=a: z3.ULE(g(s, e), n0)))
                out.append((nm + " before the last", lambda s, e, g=g: z3.ULT(g(s, e), n0)))
                for p, bn, bc, bt in self.boxes:
                    out.append((nm + " moved", lambda s, e, g=g, p=p, bn=bn: self.rd(s, p)[0] == bn + g(s, e)))
                    out.append((nm + " counted", lambda s, e, g=g, p=p, bc=bc, P=P: self.rd(s, p)[1] == bc + P(g(s, e))))
        for p, bn, bc, bt in self.boxes:
            out.append(("next kept", lambda s, e, p=p, bn=bn, bt=bt: z3.Implies(bn != 0, self.rd(s, p)[2] == bt)))
            out.append(("counts", lambda s, e, p=p: z3.And(*self.okay(*self.rd(s, p)))))
        return out

    # ---- obligations --------------------------------------------------------
    def pushed(self, outs, v):
        k = self.k
        N0, T0 = self.total(k.st)
        for o in outs:
            if o.kind != "ret":
                k.prove(o.st, z3.BoolVal(False), "putting in does not throw")
                continue
            N, T = self.total(o.st)
            k.prove(o.st, N == N0 + 1, "one more element waits")
            k.prove(o.st, T == T0 + one(v == self.x), "exactly the element put in was added")

    def popped(self, outs, st0, empty=True, wide=True, ret=None):
        k = self.k
        N0, T0 = self.total(st0)
        for o in outs:
            if o.kind != "ret":
                k.prove(o.st, z3.BoolVal(False), "taking does not throw")
                continue
            r = ret(o) if ret else tobv(o.val, 64)
            N, T = self.total(o.st)
            if empty:
                k.prove(o.st, z3.Implies(N0 == 0, r == BV(-1, 64)), "an empty list says so")
                k.prove(o.st, z3.Implies(N0 != 0, r != BV(-1, 64)), "a list with elements gives one")
                k.prove(o.st, z3.Implies(N0 == 0, N == 0), "an empty list stays empty")
            k.prove(o.st, z3.Implies(N0 != 0, N == N0 - 1), "one element less waits")
            k.prove(o.st, z3.Implies(N0 != 0, T + one(r == self.x) == T0), "exactly the element handed out was removed")
            k.prove(o.st, z3.Implies(z3.And(N0 != 0, r == self.x), T0 != 0), "the element handed out was waiting")


import itertools
_c = itertools.count()
PUSH = "(unsigned long, PetriEngine::PQL::DistanceContext*, PetriEngine::PQL::Condition const*)"


def query(k):
    q = k.ex.new_rec(k.st, "query", 256)
    k.ex.store_raw(k.st, q, 8, Ptr("g:_ZTVN3vpd1QE", 16), None)
    d = k.u32("distance")
    k.ex.contract(r"vpd::Q::distance\(", lambda ex, s, args, ins: [(s, d)])
    return q, d


def lists(k, name):
    L = Lists(k, ST + name, item=4 if name == "HeuristicQueue" else 0)
    if name == "BFSQueue":
        L.b, L.v = L.box("_queue"), L.vecf("_cache")
    elif name == "RDFSQueue":
        L.b, L.v = L.box("_stack"), L.vecf("_cache")
    elif name == "DFSQueue":
        L.b = L.box("_stack")
    else:
        L.b = L.box("_queue")
    return L


def mk(name):
    def push(k):
        L = lists(k, name)
        id = k.u64("id")
        k.st.assume(z3.ULT(id, BV(1 << 32, 64)))
        q, d = query(k)
        ctx = k.ex.new_rec(k.st, "context", 64)
        k.cover()
        outs = k.run(ST + name + "::push" + PUSH, [L.this, id, ctx, q])
        L.pushed(outs, id)
        for o in outs:
            if name == "HeuristicQueue":
                k.prove(o.st, z3.And(*[w == d for v, w in o.st.ghost.get("pushed", [])]), "the element is weighted by its distance to the goal")
            if name == "BFSQueue":
                k.prove(o.st, L.rd(o.st, L.boxes[0][0])[0] == L.b[0], "a new element waits behind the batches already ordered")

    def pop(k):
        L = lists(k, name)
        k.cover()
        st0 = k.st.copy()
        outs = k.run(ST + name + "::pop()", [L.this])
        L.popped(outs, st0)
        n, c, t = L.b
        for o in outs:
            r = tobv(o.val, 64)
            if name in ("DFSQueue", "HeuristicQueue"):
                k.prove(o.st, z3.Implies(n != 0, r == t), "the element the order puts first is taken")
            if name == "BFSQueue":
                k.prove(o.st, z3.Implies(n != 0, r == t), "older batches are taken first")
            if name == "RDFSQueue":
                k.prove(o.st, z3.Implies(z3.And(L.v[0] != 0, r == L.x), L.v[1](L.v[0]) != 0), "the latest batch is taken first")
                k.prove(o.st, z3.Implies(L.v[0] == 0, z3.Implies(n != 0, r == t)), "without a new batch the latest element is taken")

    def empty(k):
        L = lists(k, name)
        k.cover()
        N, T = L.total(k.st)
        for o in k.run(ST + name + "::empty() const", [L.this]):
            k.prove(o.st, tobool(o.val) == (N == 0), "empty exactly when nothing waits")
    for f in (push, pop, empty):
        f.__name__ = name.lower() + "_" + f.__name__
        contract("C14", "wait.cpp")(f)


for _n in ("BFSQueue", "DFSQueue", "RDFSQueue", "HeuristicQueue"):
    mk(_n)


def order(cls, isz):
    def f(k):
        T = ST + cls + "::weighted_t"
        a, b = k.rec("a", T), k.rec("b", T)
        v = {}
        for n, p in (("a", a), ("b", b)):
            v[n] = (k.bvin(n + ".weight", 32), k.bvin(n + ".item", isz))
            k.setf(p, T, "weight", v[n][0])
            k.setf(p, T, "item", v[n][1])
        k.cover()
        for o in k.run(T + "::operator<(" + T + " const&) const", [a, b]):
            w = z3.Or(z3.UGT(v["a"][0], v["b"][0]), z3.And(v["a"][0] == v["b"][0], z3.ULT(v["a"][1], v["b"][1])))
            k.prove(o.st, tobool(o.val) == w, "the closer element comes first, the later one of two equally close")
    f.__name__ = cls.lower() + "_order"
    contract("C14", "wait.cpp")(f)


order("HeuristicQueue", 32)
order("PotencyQueue", 64)

PQ, RPQ = ST + "PotencyQueue", ST + "RandomPotencyQueue"


class Potency(Lists):
    """one priority queue per transition; the totals over all of them are kept as ghost state (law: changing one entry changes the sum by the difference)"""
    def __init__(self, k, cls):
        Lists.__init__(self, k, cls, bits=64, esz=8, item=8)
        st = k.st
        self.nt = k.u64("transitions")
        st.assume([z3.ULT(self.nt, BV(1 << 32, 64)), self.nt != 0])
        self.tot = k.ex.new_rec(st, "totals", 16)
        self.N, self.T = k.u64("waiting"), k.u64("occurrences of x")
        st.assume([z3.ULT(self.N, BV(1 << 40, 64)), z3.ULE(self.T, self.N)])
        k.ex.store_raw(st, self.tot, 8, self.N, None)
        k.ex.store_raw(st, self.tot.plus(8), 8, self.T, None)
        F = lambda n: z3.Function("queues." + n, z3.BitVecSort(64), z3.BitVecSort(64))
        self.n, self.c, self.t = F("size"), F("occurrences of x"), F("next")
        self.w = k.u64("a transition with waiting states")
        st.assume(z3.Implies(self.N != 0, z3.And(z3.ULT(self.w, self.nt), self.n(self.w) != 0)))
        cb = lambda s, i, v: self.okay(self.n(i), self.c(i), self.t(i)) + [z3.Implies(z3.ULT(i, self.nt), z3.And(z3.ULE(self.n(i), self.N), z3.ULE(self.c(i), self.T)))]
        size = k.m.sizeof("std::priority_queue<PetriEngine::Structures::PotencyQueue::weighted_t, std::vector<PetriEngine::Structures::PotencyQueue::weighted_t, std::allocator<PetriEngine::Structures::PotencyQueue::weighted_t>>, std::less<PetriEngine::Structures::PotencyQueue::weighted_t>>") if False else 32
        a = Ptr(k.ex.new_obj(st, Arr("queues", size, self.nt, {(0, 8): FBase(self.n, 64, cb), (8, 8): FBase(self.c, 64, cb), (16, 8): FBase(self.t, 64, cb)})))
        self.queues = a
        k.setvec(self.this, cls, "_queues", a, self.nt)
        self.pot = z3.Function("potency", z3.BitVecSort(64), z3.BitVecSort(32))
        p = Ptr(k.ex.new_obj(st, Arr("potencies", 4, self.nt, {(0, 4): FBase(self.pot, 32, lambda s, i, v: [z3.Implies(z3.ULT(i, self.nt), v != 0)])})))
        self.pots = p
        k.setvec(self.this, cls, "_potencies", p, self.nt)
        k.setf(self.this, cls, "_size", self.N)
        k.setf(self.this, cls, "_best", BV(0, 64))
        k.assume_note("class invariant of the potency queue: one queue per transition (at least one), _size is the number of waiting elements, _best is 0, every potency is positive (kept by the operations under contract; set up by the constructors, which are checked by the replay)")

    def inv(self, o):
        k = self.k
        N, T = self.total(o.st)
        k.prove(o.st, tobv(k.getf(self.this, self.cls, "_size", o.st), 64) == N, "the recorded size is the number of waiting elements")
        j = k.u64("j")
        o.st.assume(z3.ULT(j, self.nt))
        k.prove(o.st, o.st.mem[self.pots.obj].f[(0, 4)].sel(o.st, j) != 0, "every potency stays positive")

    def cands(self, ex, st, lv):
        return [(nm + " not past a nonempty queue", lambda s, e, f=f: z3.ULE(f(s, e), self.w)) for nm, f in lv.ints(st)]


@contract("C14", "wait.cpp")
def potency_push(k):
    L = Potency(k, PQ)
    id = k.u64("id")
    q, d = query(k)
    ctx = k.ex.new_rec(k.st, "context", 64)
    k.cover()
    outs = k.run(PQ + "::push" + PUSH, [L.this, id, ctx, q])
    L.pushed(outs, id)
    for o in outs:
        L.inv(o)
        k.prove(o.st, z3.And(*[w == d for v, w in o.st.ghost.get("pushed", [])]), "the element is weighted by its distance to the goal")


@contract("C14", "wait.cpp")
def random_potency_push(k):
    L = Potency(k, RPQ)
    id, t = k.u64("id"), k.u32("t")
    k.st.assume(z3.ULT(z64(t), L.nt))
    k.setf(L.this, RPQ, "_currentParentDist", k.u32("distance of the parent"))
    q, d = query(k)
    ctx = k.ex.new_rec(k.st, "context", 64)
    k.cover()
    st0 = k.st.copy()
    outs = k.run(RPQ + "::push(unsigned long, PetriEngine::PQL::DistanceContext*, PetriEngine::PQL::Condition const*, unsigned int)", [L.this, id, ctx, q, t])
    L.pushed(outs, id)
    for o in outs:
        L.inv(o)
        k.prove(o.st, z3.And(*[w == d for v, w in o.st.ghost.get("pushed", [])]), "the element is weighted by its distance to the goal")
        k.prove(o.st, L.n(z64(t)) + 1 == o.st.mem[L.queues.obj].f[(0, 8)].sel(o.st, z64(t)), "it waits in the queue of the transition that led to it")


@contract("C14", "wait.cpp")
def potency_pop(k):
    L = Potency(k, PQ)
    k.cover()
    st0 = k.st.copy()
    outs = k.run(PQ + "::pop()", [L.this])
    for o in outs:
        o.st.assume(L.x != BV(-1, 64))
    L.popped(outs, st0, empty=False)
    for o in outs:
        r = tobv(o.val, 64)
        k.prove(o.st, z3.Implies(L.N == 0, r == BV(-1, 64)), "an empty list says so")
        L.inv(o)
        if "weight" in o.st.ghost:
            k.prove(o.st, tobv(k.getf(L.this, PQ, "_currentParentDist", o.st), 32) == o.st.ghost["weight"], "the distance of the state handed out is remembered")


RAND_MAX = (1 << 31) - 1


@contract("C14", "wait.cpp")
def random_potency_pop(k):
    L = Potency(k, RPQ)
    k.assume_note("rand() is between 0 and RAND_MAX; the double quotient of a positive 32-bit integer by itself is 1, and that of an integer between 0 and RAND_MAX by RAND_MAX is at most 1 (IEEE 754); otherwise floating point is arbitrary")
    B64, B32 = z3.BitVecSort(64), z3.BitVecSort(32)
    U, S, D = z3.Function("double of unsigned", B32, B64), z3.Function("double of signed", B32, B64), z3.Function("quotient", B64, B64, B64)

    def rand(ex, s, args, ins):
        r = fresh("rand", 32)
        s.assume(z3.And(r >= 0, r <= BV(RAND_MAX, 32)))
        return [(s, r)]
    k.ex.contract(r"^rand(\(\))?$", rand)

    def fl(ex, s, op, ins, v):
        if op in ("uitofp", "sitofp") and ins["ty"] == "double" and z3.is_bv(v[0]) and v[0].size() == 32:
            return (U if op == "uitofp" else S)(v[0])
        if op == "fdiv" and ins["ty"] == "double":
            return D(*v)
        if op == "fcmp" and ins["pred"] in ("ole", "oge"):
            a, b = v if ins["pred"] == "ole" else v[::-1]
            r = fresh("cmp", 1) == 1
            parts = [x for q in (a, b) if q.decl().eq(D) for x in q.children()]
            if len(parts) == 4:
                i, m, p, n = parts
                if i.decl().eq(S) and p.decl().eq(U) and n.decl().eq(U) and z3.is_bv_value(m) and m.as_long() == 4746794007244308480:
                    i, p, n = i.arg(0), p.arg(0), n.arg(0)
                    s.assume(z3.Implies(z3.And(i >= 0, i <= BV(RAND_MAX, 32), p == n, p != 0), r))
            return r
    k.ex.float_hook = fl

    def cands(ex, st, lv):
        out = []
        M = BV(-1, 64)
        ints = lv.ints(st)
        for a, f in ints:
            def held(s, e, f=f):
                c = f(s, e)
                L.k.ex  # the queue picked so far
                return z3.Or(c == M, z3.And(z3.ULT(c, L.nt), L.n(c) != 0))
            out.append((a + " is a queue with waiting states", held))
            for b, g in ints:
                if a != b:
                    out.append(("%s picked before %s passes" % (a, b), lambda s, e, f=f, g=g: z3.Or(f(s, e) != M, z3.ULE(g(s, e), L.w))))
                    out.append(("%s zero until %s is picked" % (b, a), lambda s, e, f=f, g=g: z3.Or(f(s, e) != M, g(s, e) == 0)))
                    out.append(("%s within" % b, lambda s, e, g=g: z3.ULE(g(s, e), L.nt)))
        return out
    k.ex.loop_cands = cands
    k.cover()
    st0 = k.st.copy()
    outs = k.run(RPQ + "::pop()", [L.this])
    for o in outs:
        o.st.assume(L.x != BV(-1, 64))
    L.popped(outs, st0, empty=False)
    for o in outs:
        k.prove(o.st, z3.Implies(L.N == 0, tobv(o.val, 64) == BV(-1, 64)), "an empty list says so")
        L.inv(o)
        if "weight" in o.st.ghost:
            k.prove(o.st, tobv(k.getf(L.this, RPQ, "_currentParentDist", o.st), 32) == o.st.ghost["weight"], "the distance of the state handed out is remembered")


@contract("C14", "wait.cpp")
def potency_empty(k):
    L = Potency(k, PQ)
    k.cover()
    for o in k.run(PQ + "::empty() const", [L.this]):
        k.prove(o.st, tobool(o.val) == (L.N == 0), "empty exactly when nothing waits")


# ---- waiting lists of edges (CTL) ------------------------------------------------
class Edges(Lists):
    hdl = True

    def __init__(self, k, cls):
        Lists.__init__(self, k, SS + cls, bits=64, esz=8)
        k.st.assume(self.x != 0)
        if cls == "BFSSearch":
            self.b, self.v = self.box("W"), self.vecf("_cache")
        elif cls == "RDFSSearch":
            self.v = self.vecf("W")
            self.lp = k.u64("last_parent")
            k.setf(self.this, self.cls, "last_parent", self.lp)
        else:
            self.b = self.box("W")


def edges(cls, flush=False):
    def push(k):
        L = Edges(k, cls)
        e = k.u64("edge")
        k.cover()
        outs = k.run(SS + cls + "::pushToW(DependencyGraph::Edge*)", [L.this, Ptr(Abs(e), 0)])
        L.pushed(outs, e)

    def pop(k):
        L = Edges(k, cls)
        N, T = L.total(k.st)
        k.st.assume(N != 0)          # SearchStrategy::popEdge asks only then (C13)
        k.cover()
        st0 = k.st.copy()
        outs = k.run(SS + cls + "::popFromW()", [L.this])
        L.popped(outs, st0, empty=False, ret=lambda o: L.hd(o.val))
        for o in outs:
            if cls in ("DFSSearch", "HeuristicSearch"):
                k.prove(o.st, L.hd(o.val) == L.b[2], "the edge the order puts first is taken")
            if cls == "BFSSearch":
                k.prove(o.st, z3.Implies(L.b[0] != 0, L.hd(o.val) == L.b[2]), "older batches are taken first")

    def size(k):
        L = Edges(k, cls)
        N, T = L.total(k.st)
        k.cover()
        for o in k.run(SS + cls + "::Wsize() const", [L.this]):
            k.prove(o.st, tobv(o.val, 64) == N, "the number of waiting edges is reported")

    def flushes(k):
        L = Edges(k, cls)
        N, T = L.total(k.st)
        k.cover()
        for o in k.run(SS + cls + "::flush()", [L.this]):
            N1, T1 = L.total(o.st)
            k.prove(o.st, z3.And(N1 == N, T1 == T), "reordering loses and adds nothing")
    flushes.__name__ = "flush"
    for f in (push, pop, size) + ((flushes,) if flush else ()):
        f.__name__ = cls.lower() + "_" + f.__name__
        contract("C14", "wait.cpp")(f)


edges("DFSSearch")
edges("BFSSearch")
edges("RDFSSearch", True)
edges("HeuristicSearch")


# ---- light_deque ------------------------------------------------------------------
LD = "light_deque<unsigned int>"


def alloc(k, esz=4):
    def new(ex, s, args, ins):
        n = Lin.of(args[0]).split(esz)
        if not isinstance(n, tuple):
            return NotImplemented
        a = Ptr(ex.new_obj(s, Arr("new data", esz, n[0].bv(), {(0, esz): FBase(z3.Function("fresh%d" % next(_c), z3.BitVecSort(64), z3.BitVecSort(8 * esz)), 8 * esz)})))
        s.ghost["new"] = a
        return [(s, a)]
    k.ex.contract(r"^operator new\[\]\(", new)


class Deque:
    """entry j of the deque is data[front + j] for j < back - front; front <= back < capacity"""
    def __init__(self, k, full=False, name="deque", nonempty=False):
        self.k, self.p = k, k.rec(name, LD)
        st = k.st
        self.f, self.b, self.s = k.u64("front"), k.u64("back"), k.u64("capacity")
        st.assume([z3.ULE(self.f, self.b), z3.ULT(self.b, self.s) if not full else self.b == self.s, z3.ULT(self.s, BV(1 << 40, 64)), self.s != 0])
        if nonempty:
            st.assume(self.f != self.b)
        self.a = k.arr("data", "unsigned int", self.s)
        self.A = st.mem[self.a.obj].f[(0, 4)]
        for fld, v in (("_front", self.f), ("_back", self.b), ("_size", self.s), ("_data", self.a)):
            k.setf(self.p, LD, fld, v)
        self.j = k.u64("j")
        k.assume_note("operator new[] returns fresh memory of the size asked for; capacities below 2^40; contracts are proved for the instance light_deque<uint32_t> (elements of class type: replay only)")
        alloc(k)
        k.ex.loop_cands = self.cands

    def cands(self, ex, st, lv):
        out = []
        cur = lv.idx(st, self.a)
        b, A = tobv(self.k.getf(self.p, LD, "_back", st), 64), st.mem[self.a.obj].f[(0, 4)]
        for nm, f in cur:
            out.append((nm + " inside", lambda s, e, f=f: z3.And(z3.ULE(self.f, f(s, e)), z3.ULE(f(s, e), b))))
        new = st.ghost.get("new")
        if new is not None:
            pos = [(nm, lambda s, e, f=f: f(s, e) - self.f) for nm, f in cur] + list(lv.ints(st)) + list(lv.idx(st, new))
            for nm, f in pos:
                for n2, g in cur:
                    out.append(("%s follows %s" % (nm, n2), lambda s, e, f=f, g=g: f(s, e) == g(s, e) - self.f))
                out.append((nm + " copied", UniInv(lambda s, e, q, v, f=f: z3.Implies(z3.ULT(q, f(s, e)), v == A.sel(s, self.f + q)), new, (0, 4), self.j)))
        return out

    def after(self, o):
        k = self.k
        g = lambda n: tobv(k.getf(self.p, LD, n, o.st), 64)
        f, b, s = g("_front"), g("_back"), g("_size")
        d = k.ex.aptr(k.ex.load_raw(o.st, self.p.plus(k.m.path(LD, "_data")[0]), 8, True, None))
        ar = o.st.mem[d.obj]
        k.prove(o.st, z3.And(z3.ULE(f, b), z3.ULT(b, s)), "there is always room for one more element")
        k.prove(o.st, z3.ULE(s, ar.n), "the capacity is the size of the data")
        return b - f, lambda i: ar.f[(0, 4)].sel(o.st, f + i)

    def old(self, st, i):
        return self.A.sel(st, self.f + i)


def dq(name, fn, args, post, **kw):
    def f(k):
        D = Deque(k, **kw)
        xs = args(k, D)
        k.cover()
        for o in k.run(LD + "::" + fn, [D.p] + xs):
            if o.kind != "ret":
                k.prove(o.st, z3.BoolVal(False), "does not throw")
                continue
            post(k, D, o)
    f.__name__ = "deque_" + name
    contract("C14", "wait.cpp")(f)


def elem(k, D):
    D.v = k.u32("element")
    r = k.ex.new_rec(k.st, "element", 4)
    k.ex.store_raw(k.st, r, 4, D.v, None)
    return [r]


def p_push(k, D, o):
    n, at = D.after(o)
    n0 = D.b - D.f
    k.prove(o.st, n == n0 + 1, "one more element")
    k.prove(o.st, at(n0) == D.v, "the element put in is the last")
    k.prove(o.st, z3.Implies(z3.ULT(D.j, n0), at(D.j) == D.old(o.st, D.j)), "the other elements are unchanged")


def p_keep(d, first):
    def p(k, D, o):
        n, at = D.after(o)
        n0 = D.b - D.f
        k.prove(o.st, n == n0 - d, "the number of elements")
        k.prove(o.st, z3.Implies(z3.ULT(D.j, n), at(D.j) == D.old(o.st, D.j + first)), "the elements left are unchanged and in order")
    return p


def p_val(g, n):
    def p(k, D, o):
        k.prove(o.st, tobool(o.val) == g(D) if n == "empty" else tobv(o.val, 64) == g(D), "reports its " + n)
    return p


def p_ref(i, what):
    def p(k, D, o):
        r = k.ex.aptr(o.val)
        k.prove(o.st, z3.BoolVal(r.obj == D.a.obj), what + " lies in the data")
        k.prove(o.st, r.off.split(4)[0].bv() == i(D), what + " is the right element")
    return p


none = lambda k, D: []
dq("push_back", "push_back(unsigned int const&)", elem, p_push)
dq("push_back_move", "push_back(unsigned int&&)", elem, p_push)
dq("expand", "expand()", none, p_keep(0, 0), full=True)
dq("pop_front", "pop_front()", none, p_keep(1, 1), nonempty=True)
dq("pop_back", "pop_back()", none, p_keep(1, 0), nonempty=True)
dq("empty", "empty() const", none, p_val(lambda D: D.f == D.b, "empty"))
dq("size", "size() const", none, p_val(lambda D: D.b - D.f, "size"))
for _s, _c2 in (("", ""), ("_const", " const")):
    dq("front" + _s, "front()" + _c2, none, p_ref(lambda D: D.f, "the front"), nonempty=True)
    dq("back" + _s, "back()" + _c2, none, p_ref(lambda D: D.b - 1, "the back"), nonempty=True)
    dq("begin" + _s, "begin()" + _c2, none, p_ref(lambda D: D.f, "the beginning"))
    dq("end" + _s, "end()" + _c2, none, p_ref(lambda D: D.b, "the end"))


@contract("C14", "wait.cpp")
def deque_clear(k):
    D = Deque(k)
    k.cover()
    for o in k.run(LD + "::clear()", [D.p]):
        n, at = D.after(o)
        k.prove(o.st, n == 0, "nothing is left")


@contract("C14", "wait.cpp")
def deque_index(k):
    D = Deque(k)
    i = k.u64("i")
    k.st.assume(z3.ULT(i, D.b - D.f))
    k.cover()
    for c in ("", " const"):
        for o in k.run(LD + "::operator[](unsigned long)" + c, [D.p, i], k.st.copy()):
            p_ref(lambda D: D.f + i, "the element asked for")(k, D, o)


@contract("C14", "wait.cpp")
def deque_make(k):
    """a new deque, of whatever capacity is asked for, is empty and has room"""
    D = Deque(k)
    p = k.rec("new deque", LD)
    n = k.u64("initial capacity")
    k.st.assume(z3.ULT(n, BV(1 << 40, 64)))
    D.p = p
    k.cover()
    for o in k.run(LD + "::light_deque(unsigned long)", [p, n]):
        m, at = D.after(o)
        k.prove(o.st, m == 0, "a new deque is empty")


# ---- successor queues ---------------------------------------------------------------
SQ = "SuccessorQueue<unsigned int>"


class Succ:
    """data[0..front) were taken, data[front..size) are left"""
    def __init__(self, k, left=False, taken=False):
        self.k, self.p = k, k.rec("queue", SQ)
        st = k.st
        self.f, self.s = k.u32("front"), k.u32("size")
        st.assume([z3.ULE(self.f, self.s), z3.ULT(self.s, BV(1 << 30, 32))])
        if left:
            st.assume(z3.ULT(self.f, self.s))
        if taken:
            st.assume(self.f != 0)
        self.a = k.arr("data", "unsigned int", z64(self.s))
        self.A = st.mem[self.a.obj].f[(0, 4)]
        k.setf(self.p, SQ, "_front", self.f)
        k.setf(self.p, SQ, "_size", self.s)
        self.od = k.m.path(SQ, "_data")[0]
        k.ex.store_raw(st, self.p.plus(self.od), 8, self.a, None)
        self.j = k.u64("j")
        k.assume_note("a successor queue holds fewer than 2^30 entries; contracts are proved for SuccessorQueue<uint32_t>")
        alloc(k)

        def mku(ex, s, args, ins):
            n = z64(tobv(args[1], 64))
            a = Ptr(ex.new_obj(s, Arr("new data", 4, n, {(0, 4): FBase(lambda i: BV(0, 32), 32)})))
            s.ghost["new"] = a
            ex.store_raw(s, ex.aptr(args[0]), 8, a, None)
            return [(s, None)]
        k.ex.contract(r"std::make_unique<unsigned int ?\[\]>\(", mku)

    def src(self, n):
        a = self.k.arr("src", "unsigned int", z64(n), ro=True)
        return a, self.k.st.mem[a.obj].f[(0, 4)]

    def after(self, o, p=None):
        k, p = self.k, p or self.p
        f, s = tobv(k.getf(p, SQ, "_front", o.st), 32), tobv(k.getf(p, SQ, "_size", o.st), 32)
        d = k.ex.load_raw(o.st, p.plus(self.od), 8, True, None)
        ar = o.st.mem[d.obj]
        k.prove(o.st, z3.And(z3.ULE(f, s), z3.ULE(z64(s), ar.n)), "positions stay inside the data")
        return f, s, lambda i: ar.f[(0, 4)].sel(o.st, i)

    def same(self, o, f, s):
        k = self.k
        f1, s1, at = self.after(o)
        k.prove(o.st, z3.And(f1 == f, s1 == s), "taken and known successors are counted exactly")
        k.prove(o.st, z3.Implies(z3.ULT(self.j, z64(self.s)), at(self.j) == self.A.sel(o.st, self.j)), "all successors are remembered in order")


@contract("C14", "wait.cpp")
def succ_pop(k):
    Q = Succ(k, left=True)
    k.cover()
    for o in k.run(SQ + "::pop()", [Q.p]):
        Q.same(o, Q.f + 1, Q.s)


@contract("C14", "wait.cpp")
def succ_observers(k):
    Q = Succ(k, left=True, taken=True)
    k.cover()
    run = lambda fn: k.run(SQ + "::" + fn, [Q.p], k.st.copy())
    for o in run("front() const"):
        k.prove(o.st, tobv(o.val, 32) == Q.A.sel(o.st, z64(Q.f)), "the next successor in the order given")
    for o in run("last_pop() const"):
        k.prove(o.st, tobv(o.val, 32) == Q.A.sel(o.st, z64(Q.f) - 1), "the successor taken last")


@contract("C14", "wait.cpp")
def succ_counts(k):
    Q = Succ(k)
    k.cover()
    run = lambda fn: k.run(SQ + "::" + fn, [Q.p], k.st.copy())
    for o in run("size() const"):
        k.prove(o.st, tobv(o.val, 64) == z64(Q.s - Q.f), "reports what is left")
    for o in run("empty() const"):
        k.prove(o.st, tobool(o.val) == (Q.s == Q.f), "empty exactly when nothing is left")
    for o in run("has_consumed() const"):
        k.prove(o.st, tobool(o.val) == (Q.f != 0), "reports whether something was taken")


@contract("C14", "wait.cpp")
def succ_make(k):
    Q = Succ(k)
    n = k.u32("nelem")
    k.st.assume(z3.ULT(n, BV(1 << 30, 32)))
    a, S = Q.src(n)
    p = k.rec("new queue", SQ)
    k.cover()
    for o in k.run(SQ + "::SuccessorQueue(unsigned int*, unsigned int)", [p, a, n]):
        f, s, at = Q.after(o, p)
        k.prove(o.st, z3.And(f == 0, s == n), "a new queue holds the whole list")
        k.prove(o.st, z3.Implies(z3.ULT(Q.j, z64(n)), at(Q.j) == S.sel(o.st, Q.j)), "in the order given")


@contract("C14", "wait.cpp")
def succ_append(k):
    Q = Succ(k)
    n = k.u32("nelem")
    k.st.assume(z3.ULT(n, BV(1 << 30, 32)))
    a, S = Q.src(n)
    k.cover()
    for o in k.run(SQ + "::append(unsigned int*, unsigned int)", [Q.p, a, n]):
        Q.same(o, Q.f, Q.s + n)
        f, s, at = Q.after(o)
        k.prove(o.st, z3.Implies(z3.ULT(Q.j, z64(n)), at(z64(Q.s) + Q.j) == S.sel(o.st, Q.j)), "the appended successors follow in order")


@contract("C14", "wait.cpp")
def succ_extend(k):
    """R(i): how many of the first i entries of the new list were not taken before; i0 is an arbitrary entry of it"""
    Q = Succ(k)
    st = k.st
    n, i0 = k.u32("nelem"), k.u64("i0")
    st.assume([z3.ULT(n, BV(1 << 30, 32)), z3.ULE(Q.s, n), z3.ULT(i0, z64(n))])
    a, S = Q.src(n)
    took = z3.Function("taken before", z3.BitVecSort(32), z3.BoolSort())
    R = z3.Function("R", z3.BitVecSort(64), z3.BitVecSort(64))
    N = z64(n)
    st.assume([R(BV(0, 64)) == 0, z64(Q.f) + R(N) == N])
    k.assume_note("precondition of extend_to, asserted in the code: the new list contains every successor taken before exactly once, so taken + not taken = its length")

    def law(s, i, v):
        fs = [z3.Implies(z3.ULT(i, N), R(i + 1) == R(i) + one(z3.Not(took(v)))), z3.Implies(z3.ULE(i, N), z3.ULE(R(i), R(N))), z3.Implies(z3.ULT(i, N), z3.ULE(R(i + 1), R(N)))]
        v0 = Sf(i0)
        fs += [z3.Implies(z3.And(z3.ULT(i0, i), z3.ULE(i, N), z3.Not(took(v0))), z3.ULE(R(i0) + 1, R(i))), z3.Implies(z3.ULT(i0, N), z3.ULE(R(i0 + 1), R(N))), z3.Implies(z3.ULT(i0, N), R(i0 + 1) == R(i0) + one(z3.Not(took(v0))))]
        return fs
    Sf = z3.Function("src.v", z3.BitVecSort(64), z3.BitVecSort(32))
    S = FBase(Sf, 32, law)
    ar = st.mem[a.obj].copy()
    ar.f[(0, 4)] = S
    st.mem[a.obj] = ar
    S.sel(st, i0)

    def find(ex, s, args, ins):
        b, e = ex.aptr(args[0]), ex.aptr(args[1])
        if b.obj != Q.a.obj or e.obj != Q.a.obj or b.off.const() != 0:
            return NotImplemented
        end = e.off.split(4)[0].bv()
        ex.prove(s, end == z64(Q.f), "the successors already taken are searched", "pre")
        v = tobv(ex.load_raw(s, ex.aptr(args[2]), 4, False, None), 32)
        p = fresh("found", 64)
        s.assume([z3.ULE(p, end), took(v) == (p != end), z3.Implies(p != end, Q.A.sel(s, p) == v)])
        return [(s, b.plus(Lin.of(p).scale(4)))]
    k.ex.contract(r"std::find<", find)

    def cands(ex, st, lv):
        out = []
        new = st.ghost.get("new")
        ints = lv.ints(st)
        for nm, f in ints:
            def g(s, e, f=f):
                i = f(s, e)
                S.sel(s, i)
                return i
            out.append((nm + " inside", lambda s, e, g=g: z3.ULE(g(s, e), N)))
            for n2, h in ints:
                if n2 != nm:
                    out.append(("%s counts up to %s" % (n2, nm), lambda s, e, g=g, h=h: h(s, e) == z64(Q.f) + R(g(s, e))))
            if new is not None:
                out.append(("entry i0 placed before " + nm, lambda s, e, g=g: z3.Implies(z3.And(z3.ULT(i0, g(s, e)), z3.Not(took(Sf(i0)))), s.mem[new.obj].f[(0, 4)].sel(s, z64(Q.f) + R(i0)) == Sf(i0))))
                out.append(("taken kept " + nm, UniInv(lambda s, e, q, v: z3.Implies(z3.ULT(q, z64(Q.f)), v == Q.A.sel(s, q)), new, (0, 4), Q.j)))
        return out
    k.ex.loop_cands = cands
    k.cover()
    for o in k.run(SQ + "::extend_to(unsigned int*, unsigned int)", [Q.p, a, n]):
        f, s, at = Q.after(o)
        k.prove(o.st, z3.And(f == Q.f, s == n), "what was taken stays taken, the rest of the new list is left")
        k.prove(o.st, z3.Implies(z3.ULT(Q.j, z64(Q.f)), at(Q.j) == Q.A.sel(o.st, Q.j)), "the successors taken are remembered in order")
        k.prove(o.st, z3.Implies(z3.Not(took(Sf(i0))), at(z64(Q.f) + R(i0)) == Sf(i0)), "every successor not taken before is left, in the order of the new list")


@contract("C14", "wait.cpp")
def deque_assign(k):
    D = Deque(k)
    st = k.st
    q = k.rec("other", LD)
    f, b, s = k.u64("other.front"), k.u64("other.back"), k.u64("other.capacity")
    st.assume([z3.ULE(f, b), z3.ULT(b, s), z3.ULT(s, BV(1 << 40, 64))])
    oa = k.arr("other data", "unsigned int", s, ro=True)
    O = st.mem[oa.obj].f[(0, 4)]
    for fld, v in (("_front", f), ("_back", b), ("_size", s), ("_data", oa)):
        k.setf(q, LD, fld, v)
    g = lambda s_, n: tobv(k.getf(D.p, LD, n, s_), 64)

    def push(ex, s_, args, ins):
        p = ex.aptr(args[0])
        if p.obj != D.p.obj:
            return NotImplemented
        d = ex.aptr(ex.load_raw(s_, p.plus(k.m.path(LD, "_data")[0]), 8, True, None))
        ar = s_.mem[d.obj].copy()
        ar.nobounds = True              # in bounds by the precondition proved here
        bk, sz = g(s_, "_back"), g(s_, "_size")
        ex.prove(s_, z3.And(z3.ULE(g(s_, "_front"), bk), z3.ULT(bk, sz)), "there is room for one more element", "pre")
        ar.f[(0, 4)] = FStore(ar.f[(0, 4)], d.off.split(4)[0].bv() + bk, tobv(ex.load_raw(s_, ex.aptr(args[1]), 4, False, None), 32))
        s_.mem[d.obj] = ar
        k.setf(D.p, LD, "_back", bk + 1, s_)
        k.setf(D.p, LD, "_size", z3.If(bk + 1 == sz, sz * 2, sz), s_)
        return [(s_, None)]
    k.ex.contract(r"light_deque<unsigned int>::push_back\(", push)
    base = D.cands

    def cands(ex, st, lv):
        out = base(ex, st, lv)
        cur = lv.idx(st, oa)
        new = st.ghost.get("new")
        for nm, c in cur:
            out.append((nm + " inside other", lambda s, e, c=c: z3.And(z3.ULE(f, c(s, e)), z3.ULE(c(s, e), b))))
            out.append((nm + " copied so far", lambda s, e, c=c: g(s, "_back") == c(s, e) - f))
            out.append((nm + " front", lambda s, e: g(s, "_front") == 0))
            out.append((nm + " room", lambda s, e: z3.And(z3.ULT(g(s, "_back"), g(s, "_size")), z3.ULT(g(s, "_size"), BV(1 << 41, 64)))))
            out.append((nm + " room in proportion", lambda s, e: z3.Or(g(s, "_size") == z3.If(b - f == 0, BV(1, 64), b - f), z3.And(g(s, "_back") == b - f, g(s, "_size") == 2 * (b - f)))))
            if new is not None:
                out.append((nm + " entries copied", UniInv(lambda s, e, q_, v, c=c: z3.Implies(z3.ULT(q_, c(s, e) - f), v == O.sel(s, f + q_)), new, (0, 4), D.j)))
        return out
    k.ex.loop_cands = cands
    k.cover()
    for o in k.run(LD + "::operator=(" + LD + " const&)", [D.p, q]):
        F, B, S = g(o.st, "_front"), g(o.st, "_back"), g(o.st, "_size")
        k.prove(o.st, z3.And(z3.ULE(F, B), z3.ULT(B, S)), "there is always room for one more element")
        k.prove(o.st, B - F == b - f, "as many elements as in the source")
        d = k.ex.aptr(k.ex.load_raw(o.st, D.p.plus(k.m.path(LD, "_data")[0]), 8, True, None))
        k.prove(o.st, z3.Implies(z3.ULT(D.j, b - f), o.st.mem[d.obj].f[(0, 4)].sel(o.st, F + D.j) == O.sel(o.st, f + D.j)), "the elements are those of the source, in order")
