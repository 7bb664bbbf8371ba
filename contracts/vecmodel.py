"""Assumed contracts of the std::vector operations the code under contract calls (library code, listed as assumed).
A vector is its three pointers; its elements are an array object; insert/erase/copy are exact on elements."""
from frame import *


class Vecs:
    def __init__(self, k):
        self.k = k
        k.assume_note("std::vector/std::lower_bound behave as the C++ standard says (insert, emplace, erase, push_back, copy, lower_bound are assumed contracts, not executed)")

    # ---- access -------------------------------------------------------------
    def begin(self, st, v):
        return self.k.ex.load_raw(st, v, 8, True, None)

    def size(self, st, v):
        b, e = self.begin(st, v), self.k.ex.load_raw(st, v.plus(8), 8, True, None)
        if isinstance(b, Ptr) and isinstance(e, Ptr) and b.obj == e.obj:
            d = e.off.add(b.off, -1)
            q = d.split(st.mem[b.obj].stride)
            if q is not None and isinstance(q, tuple):
                return q[0].bv()
            raise Unsupported("vector size")
        if b is e or (isinstance(b, Ptr) and b.same(e)):
            return BV(0, 64)
        raise Unsupported("vector bounds of different objects")

    def pos(self, st, v, it):
        b = self.begin(st, v)
        it = self.k.ex.aptr(it)
        if it.obj != b.obj:
            raise Unsupported("iterator of another vector")
        return it.off.add(b.off, -1).split(st.mem[b.obj].stride)[0].bv()

    def at(self, st, v, key, i):
        b = self.begin(st, v)
        o = st.mem[b.obj]
        if b.off.const() != 0:
            raise Unsupported("vector not at the start of its buffer")
        return o.f[key if isinstance(key, tuple) else o.names[key]].sel(st, i)

    def set(self, st, v, arrp, n):
        ex = self.k.ex
        a = st.mem[arrp.obj]
        e = arrp.plus(Lin.of(n).scale(a.stride))
        ex.store_raw(st, v, 8, arrp, None)
        ex.store_raw(st, v.plus(8), 8, e, None)
        ex.store_raw(st, v.plus(16), 8, e, None)

    # ---- operations ---------------------------------------------------------
    def it(self, st, v, i):
        b = self.begin(st, v)
        return b.plus(Lin.of(i).scale(st.mem[b.obj].stride))

    def insert(self, st, v, pos, vals):
        """vals: {(off,size): bv}"""
        b = self.begin(st, v)
        o = st.mem[b.obj]
        n = self.size(st, v)
        f = {}
        for key, prev in o.f.items():
            f[key] = FStore(FCopy(prev, pos + 1, n - pos, prev, pos), pos, vals[key])
        a = Arr(o.name + "'", o.stride, n + 1, f)
        if hasattr(o, "names"):
            a.names = o.names
        p = Ptr(self.k.ex.new_obj(st, a))
        self.set(st, v, p, n + 1)
        return self.it(st, v, pos)

    def erase(self, st, v, pos):
        b = self.begin(st, v)
        o = st.mem[b.obj].copy()
        n = self.size(st, v)
        for key, prev in list(o.f.items()):
            o.f[key] = FCopy(prev, pos, n - pos - 1, prev, pos + 1)
        st.mem[b.obj] = o
        self.k.ex.store_raw(st, v.plus(8), 8, b.plus(Lin.of(n - 1).scale(o.stride)), None)
        return self.it(st, v, pos)

    def copy(self, st, d, s):
        b = self.begin(st, s)
        o = st.mem[b.obj]
        n = self.size(st, s)
        a = Arr(o.name + "~", o.stride, n, dict(o.f))
        if hasattr(o, "names"):
            a.names = o.names
        self.set(st, d, Ptr(self.k.ex.new_obj(st, a)), n)

    def elem(self, st, p, o):
        """field values of the element object at p, keyed like the array o"""
        ex = self.k.ex
        out = {}
        for (off, sz) in o.f:
            v = ex.load_raw(st, p.plus(off), sz, False, None)
            out[(off, sz)] = tobv(v, sz * 8)
        return out

    def lower_bound(self, keyval, elemkey, probes, less=z3.ULT, rx=r"lower_bound<"):
        """keyval(ex,st,args)->key; elemkey(st,obj,i)->key; probes: extra positions at which the universal facts are instantiated"""
        def h(ex, st, args, ins):
            a, b = ex.aptr(args[0]), ex.aptr(args[1])
            o = st.mem[a.obj]
            if a.obj != b.obj or a.off.const() != 0:
                return NotImplemented
            n = b.off.split(o.stride)[0].bv()
            kv = keyval(ex, st, args)
            p = fresh("lb", 64)
            st.assume(z3.ULE(p, n))
            for i in [p, p - 1] + list(probes):
                e = elemkey(st, a.obj, i)
                st.assume(z3.Implies(z3.And(z3.ULT(i, p), z3.ULT(i, n)), less(e, kv)))
                st.assume(z3.Implies(z3.And(z3.UGE(i, p), z3.ULT(i, n)), z3.Not(less(e, kv))))
            return [(st, a.plus(Lin.of(p).scale(o.stride)))]
        self.k.ex.contract(rx, h)
