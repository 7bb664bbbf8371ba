"""Deductive verifier over LLVM IR generated mechanically from /repo's sources.

Each function under contract is executed symbolically for ALL inputs: loops are cut by
inductive invariants (candidate invariants supplied by the contract, the inductive subset
is computed and every kept invariant is an obligation: entry + preservation), calls to
functions under contract are replaced by their contracts, un-contracted helpers defined in
the module are inlined.  Machine integers are exact (bit-vectors).  There is no bound on
array lengths, iteration counts or values.
"""
import json, time, os, subprocess, itertools, re
import z3

BV = z3.BitVecVal
_cnt = itertools.count()


def fresh(name, bits):
    return z3.BitVec("%s!%d" % (name, next(_cnt)), bits)


def freshb(name):
    return z3.Bool("%s!%d" % (name, next(_cnt)))


def fresh_arr(name, bits):
    return z3.Function("%s!%d" % (name, next(_cnt)), z3.BitVecSort(64), z3.BitVecSort(bits))


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- linear 64-bit forms
class Lin:
    """c + sum coef*term over 64-bit terms (mod 2^64, coefficients kept as ints)."""
    __slots__ = ("c", "t")

    def __init__(self, c=0, t=None):
        self.c = c
        self.t = t or {}

    @staticmethod
    def of(x):
        if isinstance(x, Lin):
            return x
        if isinstance(x, int):
            return Lin(x)
        return _lin_bv(x)

    def add(self, o, k=1):
        o = Lin.of(o)
        t = dict(self.t)
        for i, (cf, tm) in o.t.items():
            n = t[i][0] + k * cf if i in t else k * cf
            if n == 0:
                t.pop(i, None)
            else:
                t[i] = (n, tm)
        return Lin(self.c + k * o.c, t)

    def scale(self, k):
        if k == 0:
            return Lin(0)
        return Lin(self.c * k, {i: (cf * k, tm) for i, (cf, tm) in self.t.items()})

    def divs(self, k):
        return all(cf % k == 0 for cf, _ in self.t.values())

    def split(self, k):
        """self = k*q + r with const 0<=r<k"""
        if not self.divs(k):
            return None
        q = self.c // k
        return Lin(q, {i: (cf // k, tm) for i, (cf, tm) in self.t.items()}), self.c - q * k

    def bv(self):
        r = None
        for i in sorted(self.t):
            cf, tm = self.t[i]
            x = tm if cf == 1 else tm * BV(cf % (1 << 64), 64)
            r = x if r is None else r + x
        c = self.c % (1 << 64)
        if r is None:
            return BV(c, 64)
        return r if c == 0 else r + BV(c, 64)

    def const(self):
        return self.c if not self.t else None

    def same(self, o):
        d = self.add(o, -1)
        return not d.t and d.c == 0

    def __repr__(self):
        return "Lin(%s)" % self.bv()


_keep = []


def _s64(v):
    return v - (1 << 64) if v >= (1 << 63) else v


def _lin_bv(x):
    k = x.decl().kind() if z3.is_app(x) else None
    if k == z3.Z3_OP_BNUM:
        return Lin(_s64(x.as_long()))
    if k == z3.Z3_OP_BADD:
        r = Lin(0)
        for a in x.children():
            r = r.add(_lin_bv(a))
        return r
    if k == z3.Z3_OP_BSUB:
        ch = x.children()
        r = _lin_bv(ch[0])
        for a in ch[1:]:
            r = r.add(_lin_bv(a), -1)
        return r
    if k == z3.Z3_OP_BNEG:
        return _lin_bv(x.arg(0)).scale(-1)
    if k == z3.Z3_OP_BMUL and x.num_args() == 2:
        a, b = x.children()
        if z3.is_bv_value(a):
            a, b = b, a
        if z3.is_bv_value(b):
            return _lin_bv(a).scale(_s64(b.as_long()))
    if k == z3.Z3_OP_BSHL and z3.is_bv_value(x.arg(1)):
        return _lin_bv(x.arg(0)).scale(1 << x.arg(1).as_long())
    _keep.append(x)
    return Lin(0, {x.get_id(): (1, x)})


# ---------------------------------------------------------------- pointers
class Abs:
    """an object known only by its (symbolic) address"""
    __slots__ = ("h",)

    def __init__(self, h):
        self.h = h

    def __eq__(self, o):
        return isinstance(o, Abs) and self.h.eq(o.h)

    def __hash__(self):
        return self.h.hash()

    def __repr__(self):
        return "Abs(%s)" % self.h


NULL = "null"


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off=0):
        self.obj = obj
        self.off = Lin.of(off)

    def plus(self, o):
        return Ptr(self.obj, self.off.add(o))

    def same(self, o):
        return isinstance(o, Ptr) and self.obj == o.obj and self.off.same(o.off)

    def __repr__(self):
        return "Ptr(%s,%s)" % (self.obj, self.off)


class PtrInt:
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p


class FnPtr:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


NULLP = Ptr(NULL, 0)


# ---------------------------------------------------------------- functional arrays
class FBase:
    __slots__ = ("arr", "bits", "cb", "tag")

    def __init__(self, arr, bits, cb=None, tag=None):
        self.arr, self.bits, self.cb, self.tag = arr, bits, cb, next(_cnt)

    def sel(self, st, i):
        v = self.arr(i)
        if self.cb is not None:
            st.fact_once((self.tag, i.get_id()), i, lambda: self.cb(st, i, v))
        return v


class FStore:
    __slots__ = ("prev", "i", "v", "bits")

    def __init__(self, prev, i, v):
        self.prev, self.i, self.v, self.bits = prev, i, v, prev.bits

    def sel(self, st, i):
        if self.i.eq(i):
            return self.v
        d = Lin.of(self.i).add(Lin.of(i), -1)
        if not d.t:
            if d.c % (1 << 64) == 0:
                return self.v
            return self.prev.sel(st, i)
        return z3.If(self.i == i, self.v, self.prev.sel(st, i))


class FCopy:
    """prev with [d,d+n) replaced by src[s..s+n)"""
    __slots__ = ("prev", "d", "n", "src", "s", "bits")

    def __init__(self, prev, d, n, src, s):
        self.prev, self.d, self.n, self.src, self.s, self.bits = prev, d, n, src, s, prev.bits

    def sel(self, st, i):
        r = Lin.of(i).add(self.d, -1)
        return z3.If(z3.ULT(r.bv(), self.n), self.src.sel(st, r.add(self.s).bv()), self.prev.sel(st, i))


class FCopyB:
    """bytes [d, d+n) are the little-endian bytes of src[s...] (elements of w bytes)"""
    def __init__(self, prev, d, n, src, s, w):
        self.prev, self.d, self.n, self.src, self.s, self.w, self.bits = prev, d, n, src, s, w, prev.bits

    def sel(self, st, i):
        sh = {2: 1, 4: 2, 8: 3}[self.w]
        r = i - self.d
        x = self.src.sel(st, self.s + z3.LShR(r, sh))
        b = z3.Extract(7, 0, z3.LShR(x, z3.ZeroExt(x.size() - 8, z3.Extract(7, 0, (r & (self.w - 1)) * 8)) if x.size() > 8 else x))
        return z3.If(z3.And(z3.UGE(i, self.d), z3.ULT(r, self.n)), b, self.prev.sel(st, i))


class FFill:
    __slots__ = ("prev", "d", "n", "v", "bits")

    def __init__(self, prev, d, n, v):
        self.prev, self.d, self.n, self.v, self.bits = prev, d, n, v, prev.bits

    def sel(self, st, i):
        r = Lin.of(i).add(self.d, -1)
        return z3.If(z3.ULT(r.bv(), self.n), self.v, self.prev.sel(st, i))


class FIte:
    __slots__ = ("c", "a", "b", "bits")

    def __init__(self, c, a, b):
        self.c, self.a, self.b, self.bits = c, a, b, a.bits

    def sel(self, st, i):
        return z3.If(self.c, self.a.sel(st, i), self.b.sel(st, i))


# ---------------------------------------------------------------- memory objects
class Rec:
    def __init__(self, name, size, fields=None, ro=False):
        self.name, self.size, self.f = name, size, dict(fields or {})
        self.ro = ro

    def copy(self):
        return Rec(self.name, self.size, self.f, self.ro)


class Arr:
    def __init__(self, name, stride, n, fields, ro=False):
        """fields: {(off,size): FArr};  n: BV64 length"""
        self.name, self.stride, self.n, self.f, self.ro = name, stride, n, dict(fields), ro

    def copy(self):
        a = Arr(self.name, self.stride, self.n, self.f, self.ro)
        for x in ("names", "nobounds"):
            if hasattr(self, x):
                setattr(a, x, getattr(self, x))
        return a


class Frame:
    __slots__ = ("fn", "bb", "ip", "env", "prev", "retid", "onret", "loops")

    def __init__(self, fn):
        self.fn, self.bb, self.ip, self.env, self.prev, self.retid, self.onret = fn, 0, 0, {}, None, None, None
        self.loops = {}

    def copy(self):
        f = Frame(self.fn)
        f.bb, f.ip, f.prev, f.retid, f.onret = self.bb, self.ip, self.prev, self.retid, self.onret
        f.env = dict(self.env)
        f.loops = dict(self.loops)
        return f


class State:
    def __init__(self):
        self.mem, self.heap, self.pc, self.frames, self.ghost = {}, {}, [], [], {}
        self.done = set()
        self.trace = []
        self.stop = None      # (loop key) when executing one loop iteration

    def copy(self):
        s = State()
        s.mem, s.heap, s.pc = dict(self.mem), dict(self.heap), list(self.pc)
        s.frames = [f.copy() for f in self.frames]
        s.ghost, s.done, s.trace, s.stop = dict(self.ghost), set(self.done), list(self.trace), self.stop
        return s

    def assume(self, c):
        if isinstance(c, (list, tuple)):
            for x in c:
                self.assume(x)
            return
        if isinstance(c, bool):
            c = z3.BoolVal(c)
        if z3.is_true(c):
            return
        self.pc.append(c)

    def fact_once(self, key, keep, mk):
        if key in self.done:
            return
        self.done.add(key)
        _keep.append(keep)
        fs = mk()
        if fs is not None:
            self.assume(fs)


class Outcome:
    def __init__(self, kind, st, val=None, info=None):
        self.kind, self.st, self.val, self.info = kind, st, val, info


# ---------------------------------------------------------------- module
class Module:
    def __init__(self, path):
        m = json.load(open(path))
        self.types, self.globals, self.fns = m["types"], m["globals"], m["functions"]
        self.bydem = {}
        for k, f in self.fns.items():
            f["name"] = k
            self.bydem.setdefault(f["dem"], []).append(k)
            f["loopmap"] = {l["h"]: l for l in f.get("loops", [])}
            for l in f.get("loops", []):
                l["bs"] = set(l["b"])

    def find(self, pat, defined=True):
        """unique function by demangled exact name or regex"""
        c = []
        if pat in self.bydem:
            c = [k for k in self.bydem[pat] if not defined or "blocks" in self.fns[k]]
        if not c:
            r = re.compile(pat)
            c = [k for k, f in self.fns.items() if r.search(f["dem"]) and (not defined or "blocks" in f)]
        # ctor C1/C2, prefer C1? identical bodies
        if len(c) > 1:
            ds = {self.fns[k]["dem"] for k in c}
            if len(ds) == 1:
                c = sorted(c)[-1:]
        if len(c) != 1:
            raise Unsupported("function %r: %d candidates %s" % (pat, len(c), [self.fns[k]["dem"] for k in c][:6]))
        return c[0]

    def type(self, name):
        if name in self.types:
            return self.types[name]
        c = [k for k in self.types if re.fullmatch(name, k)]
        if len(c) != 1:
            raise Unsupported("type %r: %d candidates" % (name, len(c)))
        return self.types[c[0]]

    def field(self, tname, fld):
        """-> (offset,size,typename), searches bases"""
        t = self.type(tname)
        for n, o, s, ty in t.get("members", []):
            if n == fld:
                return o, s, ty
        for n, o, s, ty in t.get("members", []):
            if n == "<base>" and ty in self.types:
                try:
                    o2, s2, t2 = self.field(ty, fld)
                    return o + o2, s2, t2
                except Unsupported:
                    pass
        raise Unsupported("field %s of %s not found" % (fld, tname))

    def path(self, tname, path):
        """a.b.c -> (offset,size,type)"""
        off = 0
        s = None
        for p in path.split("."):
            o, s, tname = self.field(tname, p)
            off += o
        return off, s, tname

    SCALARS = ("unsigned int", "int", "unsigned long", "long", "bool", "char", "unsigned char", "signed char",
               "short", "unsigned short", "long long", "unsigned long long")

    def leaves(self, tname):
        """flatten a type into scalar leaves [(path, off, size, typename)]"""
        t = tname[6:] if tname.startswith("const ") else tname
        if t in self.types and "members" in self.types[t]:
            out = []
            for n, o, s, ty in self.types[t]["members"]:
                for p, o2, s2, t2 in self.leaves(ty):
                    if n == "<base>":
                        out.append((p, o + o2, s2, t2))
                    else:
                        out.append((n + ("." + p if p else ""), o + o2, s2, t2))
            return [x for x in out if x[2] > 0]
        sz = self.sizeof(t)
        return [("", 0, sz, t)]

    def sizeof(self, t):
        if t.startswith("const "):
            t = t[6:]
        if t in self.types:
            return self.types[t]["size"]
        if t.endswith("*") or t.endswith("&"):
            return 8
        b = {"unsigned int": 4, "int": 4, "unsigned long": 8, "long": 8, "bool": 1, "char": 1, "unsigned char": 1,
             "signed char": 1, "short": 2, "unsigned short": 2, "double": 8, "float": 4, "long long": 8,
             "unsigned long long": 8}
        if t in b:
            return b[t]
        raise Unsupported("sizeof %s" % t)


def width(t):
    if isinstance(t, str) and t[0] == "i":
        return int(t[1:])
    if t == "double":
        return 64
    if t == "float":
        return 32
    raise Unsupported("width of %r" % (t,))


def nbytes(t):
    if t == "ptr":
        return 8
    if isinstance(t, list):
        return t[1]
    return (width(t) + 7) // 8


def tobv(v, w):
    if isinstance(v, Lin):
        r = v.bv()
        return r if w == 64 else z3.Extract(w - 1, 0, r)
    if isinstance(v, PtrInt):
        raise Unsupported("pointer value used as an integer")
    if isinstance(v, Ptr):
        raise Unsupported("pointer used as integer")
    if z3.is_bool(v):
        return z3.If(v, BV(1, w), BV(0, w))
    return v


def tobool(v):
    if z3.is_bool(v):
        return v
    return v != BV(0, v.size())


def ite(c, a, b):
    return z3.If(c, a, b)


# ---------------------------------------------------------------- solving
class SolverPool:
    def __init__(self, timeout=20000):
        self.timeout = timeout
        self.time = 0.0
        self.queries = 0

    def feasible(self, pc, extra=None, timeout=800):
        t = time.time()
        self.queries += 1
        r, _ = _tac("qfufbv", list(pc) + ([extra] if extra is not None else []), timeout, False)
        self.time += time.time() - t
        return r != z3.unsat

    def quick(self, pc, goal, timeout=3000):
        """one short attempt (callers fall back to the parts of the goal)"""
        t = time.time()
        if z3.is_true(z3.simplify(goal)):
            return "unsat", None, "simplify"
        self.queries += 1
        r, m = _tac("qfufbv", list(pc) + [z3.Not(goal)], timeout)
        self.time += time.time() - t
        return str(r), m, "z3/qfufbv"

    def implied(self, pc, goal, timeout=None):
        """-> ('unsat'|'sat'|'unknown', model)"""
        t = time.time()
        if z3.is_true(z3.simplify(goal)):
            return "unsat", None, "simplify"
        to = timeout or self.timeout
        self.queries += 1
        m = None
        fs = list(pc) + [z3.Not(goal)]
        r, m = _tac("qfufbv", fs, min(to, 6000))
        be = "z3/qfufbv"
        if r == z3.unknown:
            s = z3.Solver()
            s.set("timeout", to)
            s.add(*fs)
            r = s.check()
            be = "z3"
            if r == z3.sat:
                m = s.model()
            if r == z3.unknown:
                s2 = z3.Then("simplify", "propagate-values", "solve-eqs", "elim-uncnstr", "smt").solver()
                s2.set("timeout", to)
                s2.add(*pc)
                s2.add(z3.Not(goal))
                r = s2.check()
                if r == z3.sat:
                    m = s2.model()
                if r == z3.unknown:
                    r2 = cvc5_check(s, to)
                    if r2 == "unsat":
                        r = z3.unsat
                        be = "cvc5"
        self.time += time.time() - t
        return str(r), m, be


def _tac(name, fs, to, model=True):
    s = z3.Tactic(name).solver()
    s.set("timeout", to)
    s.add(*fs)
    try:
        r = s.check()
    except z3.Z3Exception:
        return z3.unknown, None
    return r, (s.model() if model and r == z3.sat else None)


def cvc5_check(s, to):
    import tempfile
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write("(set-logic ALL)\n" + s.to_smt2())
        p = f.name
    try:
        o = subprocess.run(["cvc5", "--tlimit=%d" % to, p], capture_output=True, text=True, timeout=to / 1000 + 10).stdout
        return o.strip().split("\n")[0]
    except Exception:
        return "unknown"
    finally:
        os.unlink(p)


_UMUL = z3.Function("umul", z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))


def umul(a, b):
    """multiplication of which only commutativity and 0*x = 0 are known: every fact proved of it holds of the product"""
    le = z3.ULE(a, b)
    return z3.If(z3.Or(a == 0, b == 0), z3.BitVecVal(0, 64), _UMUL(z3.If(le, a, b), z3.If(le, b, a)))


# ---------------------------------------------------------------- executor
class Exec:
    def __init__(self, mod, timeout=20000):
        self.m = mod
        self.sp = SolverPool(timeout)
        self.contracts = []        # (regex, handler(ex,st,args,inst)-> list[(st,val)] or list[Outcome])
        self.loop_cands = None     # f(ex, st, loop) -> list[(name, fn(st, phi))] or None
        self.obls = []             # obligations
        self.record = True
        self.max_unroll = 64
        self.max_depth = 60
        self.safety = True
        self.indirect = None
        self.float_hook = None
        self.names = []
        self.inlined = set()
        self.used_contracts = set()
        self.paths = 0
        self.fnname = "?"
        self.inputs = {}
        self.dead = []
        self.check_div = True
        self.load_hook = None
        self.deadline = None
        self.mode = "normal"
        self.modcache = {}
        self.candcache = {}
        self.cache_mods = True
        self.arith_hook = None
        self.uf_mul = False        # products of two unknowns as an uninterpreted commutative operation with zero

    # --- obligations
    def prove(self, st, goal, name, kind="post", fatal=True, timeout=None):
        if not self.record:
            return True
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        r, m, be = self.sp.implied(st.pc, goal, timeout)
        ob = {"fn": self.fnname, "name": name, "kind": kind, "result": {"unsat": "discharged", "sat": "refuted"}.get(r, "unknown"), "backend": be}
        if m is not None:
            ob["model"] = self.model_inputs(m)
        if r == "unknown":
            ob["pc"] = len(st.pc)
        self.obls.append(ob)
        if fatal and r == "unsat":
            pass
        return r == "unsat"

    def lemma(self, name, *parts, timeout=20000):
        """a mathematical law used by the contracts, discharged on its own (independent of the code): the parts must be unsatisfiable"""
        if not self.record:
            return True
        s = z3.Solver()
        s.set("timeout", timeout)
        s.add(*parts)
        r = str(s.check())
        self.obls.append({"fn": self.fnname, "name": name, "kind": "lemma", "result": {"unsat": "discharged", "sat": "refuted"}.get(r, "unknown"), "backend": "z3/int"})
        return r == "unsat"

    def model_inputs(self, m):
        out = {}
        for k, t in self.inputs.items():
            try:
                v = m.eval(t() if callable(t) else t, model_completion=True)
                if z3.is_bv_value(v):
                    out[k] = v.as_long()
                else:
                    out[k] = str(v)[:200]
            except Exception as e:
                out[k] = "?" + str(e)[:60]
        return out

    def cover(self, st, name):
        """vacuity guard: the assumptions must be satisfiable"""
        if not self.record:
            return
        t = time.time()
        s = z3.Solver()
        s.set("timeout", 10000)
        s.add(*st.pc)
        r = s.check()
        self.obls.append({"fn": self.fnname, "name": name, "kind": "cover",
                          "result": "discharged" if r == z3.sat else ("refuted" if r == z3.unsat else "unknown"), "backend": "z3"})

    def contract(self, rx, handler):
        self.contracts.append((re.compile(rx), handler))

    def contract_first(self, rx, handler):
        """takes precedence over the contracts registered before"""
        self.contracts.insert(0, (re.compile(rx), handler))

    # --- objects
    def new_obj(self, st, o):
        oid = "%s#%d" % (o.name, next(_cnt))
        st.mem[oid] = o
        return oid

    def new_rec(self, st, name, size, ro=False):
        return Ptr(self.new_obj(st, Rec(name, size, ro=ro)))

    def new_arr(self, st, name, tname, n, cb=None, ro=False):
        """array of n elements of C++ type tname; cb: {leafpath: callback(st,i,v)->facts}"""
        fields = {}
        stride = self.m.sizeof(tname)
        names = {}
        for p, o, s, ty in self.m.leaves(tname):
            a = fresh_arr("%s.%s" % (name, p or "v"), s * 8)
            fields[(o, s)] = FBase(a, s * 8, (cb or {}).get(p))
            names[p] = (o, s)
        ar = Arr(name, stride, n, fields, ro)
        ar.names = names
        return Ptr(self.new_obj(st, ar))

    def ptr_bv(self, st, p):
        if p.obj == NULL:
            return p.off.bv()
        if isinstance(p.obj, Abs):
            return p.off.add(p.obj.h).bv()
        a = z3.BitVec("addr:%s" % p.obj, 64)
        return p.off.add(a).bv()

    def bv_ptr(self, st, b):
        l = Lin.of(b)
        if l.const() is not None:
            return Ptr(NULL, l.c)
        for i, (cf, tm) in l.t.items():
            if cf == 1 and z3.is_const(tm) and tm.decl().kind() == z3.Z3_OP_UNINTERPRETED and tm.decl().name().startswith("addr:"):
                return Ptr(tm.decl().name()[5:], l.add(Lin(0, {i: (1, tm)}), -1))
        if len(l.t) == 1:
            (cf, tm), = l.t.values()
            if cf == 1:
                return Ptr(Abs(tm), l.c)
        return Ptr(Abs(l.bv()), 0)

    # --- loads / stores
    def load(self, st, p, t, ln=None):
        if isinstance(t, list):
            return self.load_agg(st, p, t, ln)
        sz = nbytes(t)
        v = self.load_raw(st, p, sz, t == "ptr", ln)
        if t == "ptr":
            if isinstance(v, (Ptr, FnPtr)):
                return v
            if isinstance(v, PtrInt):
                return v.p
            return self.bv_ptr(st, tobv(v, 64))
        if t == "i1":
            return z3.Extract(0, 0, tobv(v, 8)) == BV(1, 1)
        if isinstance(v, Ptr):
            return PtrInt(v)
        if isinstance(v, FnPtr):
            raise Unsupported("fnptr as int")
        w = width(t)
        if isinstance(v, (Lin, PtrInt)):
            return v
        if z3.is_bv(v) and v.size() != w:
            if v.size() < w:
                raise Unsupported("load of %s from %s yields %d bits" % (t, p, v.size()))
            v = z3.Extract(w - 1, 0, v)
        return v

    def load_agg(self, st, p, t, ln):
        if t[0] == "s":
            return [self.load(st, p.plus(o), ty, ln) for o, ty in t[2]]
        return [self.load(st, p.plus(i * t[4]), t[3], ln) for i in range(t[2])]

    def store(self, st, p, t, v, ln=None):
        if isinstance(t, list):
            if t[0] == "s":
                for (o, ty), x in zip(t[2], v):
                    self.store(st, p.plus(o), ty, x, ln)
            else:
                for i in range(t[2]):
                    self.store(st, p.plus(i * t[4]), t[3], v[i], ln)
            return
        sz = nbytes(t)
        if t == "i1" or (not isinstance(v, (Ptr, Lin, PtrInt, FnPtr)) and z3.is_bool(v)):
            v = tobv(v, 8 * sz)
        elif isinstance(t, str) and t[0] == "i" and not isinstance(v, (Lin, PtrInt)):
            w = width(t)
            if w != sz * 8:
                v = z3.ZeroExt(sz * 8 - w, v)
        if isinstance(v, PtrInt):
            v = v.p
        self.store_raw(st, p, sz, v, ln)

    def getobj(self, st, oid):
        if oid in st.mem:
            return st.mem[oid]
        if isinstance(oid, str) and oid.startswith("g:"):
            st.mem[oid] = self.global_obj(oid[2:])
            return st.mem[oid]
        raise Unsupported("access to unknown object %s" % (oid,))

    def global_obj(self, name):
        g = self.m.globals.get(name)
        if g is None:
            raise Unsupported("unknown global %s" % name)
        r = Rec("g:" + name, g["size"], ro=g["const"])
        if "init" in g and (g["const"]):
            self._init(r, 0, g["ty"], g["init"])
        return r

    def _init(self, r, off, ty, c):
        if c[0] in ("z", "agg"):
            if isinstance(ty, list) and ty[0] == "s":
                for i, (o, t2) in enumerate(ty[2]):
                    self._init(r, off + o, t2, c[2][i] if c[0] == "agg" else ["z", t2])
            elif isinstance(ty, list) and ty[0] == "a":
                if ty[2] > 4096:
                    return
                for i in range(ty[2]):
                    self._init(r, off + i * ty[4], ty[3], c[2][i] if c[0] == "agg" else ["z", ty[3]])
            elif ty == "ptr":
                r.f[off] = (8, NULLP)
            else:
                n = nbytes(ty)
                r.f[off] = (n, BV(0, n * 8))
            return
        v = self.const(c)
        n = nbytes(ty)
        if not isinstance(v, (Ptr, FnPtr)) and z3.is_bool(v):
            v = tobv(v, 8)
        r.f[off] = (n, v)

    def load_raw(self, st, p, sz, isptr, ln):
        if self.load_hook:
            r = self.load_hook(self, st, p, sz, isptr)
            if r is not None:
                return r
        if p.obj == NULL:
            self.prove(st, z3.BoolVal(False), "null dereference at line %s" % ln, "safety")
            raise PathEnd()
        if isinstance(p.obj, Abs):
            return self.heap_load(st, p, sz)
        o = self.getobj(st, p.obj)
        if isinstance(o, Rec):
            c = p.off.const()
            if c is None:
                return self.rec_load_sym(st, p, o, sz, ln)
            return self.rec_load(st, p.obj, o, c, sz, isptr, ln)
        return self.arr_load(st, p, o, sz, isptr, ln)

    def rec_load(self, st, oid, o, c, sz, isptr, ln):
        if c < 0 or c + sz > o.size:
            self.prove(st, z3.BoolVal(False), "out-of-bounds read of %s+%d at line %s" % (o.name, c, ln), "safety")
            raise PathEnd()
        if c in o.f and o.f[c][0] == sz:
            return o.f[c][1]
        # composite?
        parts = [(k, s, v) for k, (s, v) in o.f.items() if k < c + sz and c < k + s]
        if not parts:
            v = fresh("%s.%d" % (o.name, c), sz * 8)
            o2 = o.copy()
            o2.f[c] = (sz, v)
            st.mem[oid] = o2
            return v
        # containing one
        for k, s, v in parts:
            if k <= c and k + s >= c + sz:
                if isinstance(v, (Ptr, FnPtr)):
                    return fresh("ptrbyte", sz * 8)      # the bytes of a pointer are unconstrained
                b = tobv(v, s * 8)
                return z3.Extract((c - k + sz) * 8 - 1, (c - k) * 8, b)
        # assemble bytes
        out = []
        pos = c
        while pos < c + sz:
            hit = None
            for k, s, v in parts:
                if k <= pos < k + s:
                    hit = (k, s, v)
            if hit is None:
                nx = min([k for k, s, v in parts if k > pos] + [c + sz])
                nv = self.rec_load(st, oid, st.mem[oid], pos, nx - pos, False, ln)
                out.append(nv)
                pos = nx
            else:
                k, s, v = hit
                if isinstance(v, (Ptr, FnPtr)):
                    if sz == 16 and False:
                        pass
                    raise Unsupported("mixed read of pointer")
                e = min(k + s, c + sz)
                out.append(z3.Extract((e - k) * 8 - 1, (pos - k) * 8, tobv(v, s * 8)))
                pos = e
        return z3.Concat(*reversed(out)) if len(out) > 1 else out[0]

    def rec_load_sym(self, st, p, o, sz, ln):
        sp = p.off.split(sz)
        if sp is None:
            raise Unsupported("symbolic offset into record %s" % o.name)
        q, r = sp
        # element count
        n = (o.size - r) // sz
        if n > 64:
            raise Unsupported("symbolic index into large record %s" % o.name)
        qb = q.bv()
        if self.safety:
            self.prove(st, z3.ULT(qb, BV(n, 64)), "in-bounds read of %s at line %s" % (o.name, ln), "safety")
        st.assume(z3.ULT(qb, BV(n, 64)))
        v = None
        for i in reversed(range(n)):
            try:
                x = self.rec_load(st, p.obj, st.mem[p.obj], r + i * sz, sz, False, ln)
            except Unsupported:
                continue
            if isinstance(x, (Ptr, FnPtr)):
                raise Unsupported("symbolic index of pointer record")
            x = tobv(x, sz * 8)
            v = x if v is None else z3.If(qb == i, x, v)
        return v

    def rec_store(self, st, oid, o, c, sz, v, ln):
        if c < 0 or c + sz > o.size:
            self.prove(st, z3.BoolVal(False), "out-of-bounds write of %s+%d at line %s" % (o.name, c, ln), "safety")
            raise PathEnd()
        o2 = o.copy()
        for k, (s, ov) in list(o2.f.items()):
            if k < c + sz and c < k + s and not (k == c and s == sz):
                del o2.f[k]
                # keep the non-overlapped pieces
                if isinstance(ov, (Ptr, FnPtr)):
                    continue
                b = tobv(ov, s * 8)
                if k < c:
                    o2.f[k] = (c - k, z3.Extract((c - k) * 8 - 1, 0, b))
                if k + s > c + sz:
                    o2.f[c + sz] = (k + s - c - sz, z3.Extract(s * 8 - 1, (c + sz - k) * 8, b))
        o2.f[c] = (sz, v)
        st.mem[oid] = o2

    def arr_fields(self, o, inner, sz):
        return sorted([(k, s) for (k, s) in o.f if k < inner + sz and inner < k + s])

    def arr_load(self, st, p, o, sz, isptr, ln):
        spl = p.off.split(o.stride)
        if spl is None:
            raise Unsupported("array %s: offset %s not a multiple of element size" % (o.name, p.off))
        q, inner = spl
        qb = q.bv()
        if inner + sz <= o.stride:
            self.bounds(st, o, qb, "read", ln)
            return self.arr_elem(st, o, qb, inner, sz)
        # spans several elements (bytes)
        if inner == 0 and sz % o.stride == 0 and o.stride in (1, 2, 4) and len(o.f) == 1:
            k = sz // o.stride
            self.bounds(st, o, qb, "read", ln)
            self.bounds(st, o, q.add(k - 1).bv(), "read", ln)
            return z3.Concat(*reversed([self.arr_elem(st, o, q.add(j).bv(), 0, o.stride) for j in range(k)]))
        raise Unsupported("array %s: read of %d bytes at inner offset %d" % (o.name, sz, inner))

    def arr_elem(self, st, o, qb, inner, sz):
        if (inner, sz) in o.f:
            return o.f[(inner, sz)].sel(st, qb)
        fs = self.arr_fields(o, inner, sz)
        if len(fs) == 1 and fs[0][0] <= inner and fs[0][0] + fs[0][1] >= inner + sz:
            k, s = fs[0]
            return z3.Extract((inner - k + sz) * 8 - 1, (inner - k) * 8, o.f[(k, s)].sel(st, qb))
        out, pos = [], inner
        for k, s in fs:
            if k > pos:
                out.append(fresh("pad", (k - pos) * 8))
                pos = k
            e = min(k + s, inner + sz)
            x = o.f[(k, s)].sel(st, qb)
            out.append(x if (pos == k and e == k + s) else z3.Extract((e - k) * 8 - 1, (pos - k) * 8, x))
            pos = e
        if pos < inner + sz:
            out.append(fresh("pad", (inner + sz - pos) * 8))
        return z3.Concat(*reversed(out)) if len(out) > 1 else out[0]

    def bounds(self, st, o, qb, what, ln):
        if self.safety and not getattr(o, "nobounds", False):
            g = z3.ULT(qb, o.n)
            key = ("bnd", o.name, qb.get_id(), o.n.get_id())
            if key in st.done:
                return
            st.done.add(key)
            _keep.append(qb)
            self.prove(st, g, "in-bounds %s of %s at line %s" % (what, o.name, ln), "safety")
            st.assume(g)

    def arr_store_elem(self, st, o2, qb, inner, sz, v):
        if (inner, sz) in o2.f:
            o2.f[(inner, sz)] = FStore(o2.f[(inner, sz)], qb, v)
            return
        fs = self.arr_fields(o2, inner, sz)
        for k, s in fs:
            if k >= inner and k + s <= inner + sz:
                piece = z3.Extract((k - inner + s) * 8 - 1, (k - inner) * 8, v)
                o2.f[(k, s)] = FStore(o2.f[(k, s)], qb, piece)
            elif k <= inner and k + s >= inner + sz:
                old = o2.f[(k, s)].sel(st, qb)
                ps = []
                if k + s > inner + sz:
                    ps.append(z3.Extract(s * 8 - 1, (inner + sz - k) * 8, old))
                ps.append(v)
                if inner > k:
                    ps.append(z3.Extract((inner - k) * 8 - 1, 0, old))
                o2.f[(k, s)] = FStore(o2.f[(k, s)], qb, z3.Concat(*ps) if len(ps) > 1 else ps[0])
            else:
                raise Unsupported("partial array store")

    def store_raw(self, st, p, sz, v, ln):
        if p.obj == NULL:
            self.prove(st, z3.BoolVal(False), "null write at line %s" % ln, "safety")
            raise PathEnd()
        if isinstance(p.obj, Abs):
            return self.heap_store(st, p, sz, v)
        o = self.getobj(st, p.obj)
        if o.ro and self.safety:
            self.prove(st, z3.BoolVal(False), "frame: write to read-only %s at line %s" % (o.name, ln), "frame")
        if isinstance(o, Rec):
            c = p.off.const()
            if c is None:
                return self.rec_store_sym(st, p, o, sz, v, ln)
            return self.rec_store(st, p.obj, o, c, sz, v, ln)
        if isinstance(v, Ptr):
            v = self.ptr_bv(st, v)
        if isinstance(v, FnPtr):
            raise Unsupported("store of function pointer in array")
        v = tobv(v, sz * 8)
        spl = p.off.split(o.stride)
        if spl is None:
            raise Unsupported("array %s: store offset %s" % (o.name, p.off))
        q, inner = spl
        qb = q.bv()
        o2 = o.copy()
        if hasattr(o, "names"):
            o2.names = o.names
        if inner + sz <= o.stride:
            self.bounds(st, o, qb, "write", ln)
            self.arr_store_elem(st, o2, qb, inner, sz, v)
        elif inner == 0 and sz % o.stride == 0 and len(o.f) == 1:
            k = sz // o.stride
            self.bounds(st, o, qb, "write", ln)
            self.bounds(st, o, q.add(k - 1).bv(), "write", ln)
            for j in range(k):
                self.arr_store_elem(st, o2, q.add(j).bv(), 0, o.stride,
                                    z3.Extract((j + 1) * o.stride * 8 - 1, j * o.stride * 8, v))
        else:
            raise Unsupported("array %s: store of %d bytes at %d" % (o.name, sz, inner))
        st.mem[p.obj] = o2

    def rec_store_sym(self, st, p, o, sz, v, ln):
        if self.mode != "normal" and not self.sp.feasible(st.pc):
            raise PathEnd()
        sp = p.off.split(sz)
        if sp is None:
            raise Unsupported("symbolic offset store into record %s" % o.name)
        q, r = sp
        n = (o.size - r) // sz
        if n > 64:
            raise Unsupported("symbolic store into large record")
        qb = q.bv()
        if self.safety:
            self.prove(st, z3.ULT(qb, BV(n, 64)), "in-bounds write of %s at line %s" % (o.name, ln), "safety")
        st.assume(z3.ULT(qb, BV(n, 64)))
        for i in range(n):
            x = self.rec_load(st, p.obj, st.mem[p.obj], r + i * sz, sz, False, ln)
            if isinstance(x, (Ptr, FnPtr)):
                raise Unsupported("symbolic store over pointers")
            self.rec_store(st, p.obj, st.mem[p.obj], r + i * sz, sz, z3.If(qb == i, tobv(v, sz * 8), tobv(x, sz * 8)), ln)

    # component heap for abstract objects
    def heap_load(self, st, p, sz):
        c = p.off.const()
        if c is None:
            raise Unsupported("variable offset into an abstract object")
        k = (c, sz)
        if k not in st.heap:
            st.heap[k] = FBase(z3.Function("heap_%d_%d" % k, z3.BitVecSort(64), z3.BitVecSort(sz * 8)), sz * 8)
        return st.heap[k].sel(st, p.obj.h)

    def heap_store(self, st, p, sz, v):
        c = p.off.const()
        if c is None:
            raise Unsupported("variable offset into an abstract object")
        if isinstance(v, Ptr):
            v = self.ptr_bv(st, v)
        self.heap_load(st, p, sz)
        st.heap[(c, sz)] = FStore(st.heap[(c, sz)], p.obj.h, tobv(v, sz * 8))

    # --- memcpy / memset
    def memcpy(self, st, d, s, n, ln):
        n = Lin.of(n) if not isinstance(n, Lin) else n
        if n.const() == 0:
            return
        do = self.getobj(st, d.obj) if not isinstance(d.obj, Abs) and d.obj != NULL else None
        so = self.getobj(st, s.obj) if not isinstance(s.obj, Abs) and s.obj != NULL else None
        if do is None or so is None:
            c = n.const()
            if c is not None and c <= 64 and (isinstance(so, Rec) or isinstance(do, Rec)):
                return self.memcpy_small(st, d, s, c, ln)
            if (s.obj == NULL or d.obj == NULL):
                # only fine for length 0
                self.prove(st, n.bv() == 0, "memcpy with null pointer has length 0 at line %s" % ln, "safety")
                st.assume(n.bv() == 0)
                return
            raise Unsupported("memcpy on abstract objects")
        if do.ro and self.safety:
            self.prove(st, n.bv() == 0, "frame: write to read-only %s at line %s" % (do.name, ln), "frame")
        if isinstance(do, Arr) and isinstance(so, Arr) and do.stride == so.stride:
            sp = n.split(do.stride)
            dp, ss = d.off.split(do.stride), s.off.split(so.stride)
            if sp is not None and sp[1] == 0 and dp is not None and ss is not None and dp[1] == 0 and ss[1] == 0:
                k = sp[0].bv()
                if self.safety:
                    for o, q, w in ((do, dp[0], "write"), (so, ss[0], "read")):
                        self.prove(st, z3.Or(k == 0, z3.And(z3.ULE(q.bv(), o.n), z3.ULE(k, o.n - q.bv()))),
                                   "in-bounds block %s of %s at line %s" % (w, o.name, ln), "safety")
                o2 = do.copy()
                for key in do.f:
                    if key in so.f:
                        o2.f[key] = FCopy(do.f[key], dp[0].bv(), k, so.f[key], ss[0].bv())
                    else:
                        raise Unsupported("memcpy between arrays with different fields")
                st.mem[d.obj] = o2
                return
        c = n.const()
        if c is None and isinstance(do, Arr) and isinstance(so, Arr) and do.stride == 1 and len(so.f) == 1 and list(so.f)[0] == (0, so.stride) and so.stride in (2, 4, 8):
            ss = s.off.split(so.stride)
            if ss is not None and ss[1] == 0:
                k, q = n.bv(), d.off.bv()
                if self.safety:
                    self.prove(st, z3.Or(k == 0, z3.And(z3.ULE(q, do.n), z3.ULE(k, do.n - q))), "in-bounds block write of %s at line %s" % (do.name, ln), "safety")
                    e = z3.LShR(k + (so.stride - 1), {2: 1, 4: 2, 8: 3}[so.stride])
                    self.prove(st, z3.Or(k == 0, z3.And(z3.ULE(ss[0].bv(), so.n), z3.ULE(e, so.n - ss[0].bv()))), "in-bounds block read of %s at line %s" % (so.name, ln), "safety")
                o2 = do.copy()
                o2.f[(0, 1)] = FCopyB(do.f[(0, 1)], q, k, so.f[(0, so.stride)], ss[0].bv(), so.stride)
                st.mem[d.obj] = o2
                return
        if c is None and isinstance(do, Rec) and d.off.const() is not None and isinstance(so, Arr) and so.stride == 1:
            room = do.size - d.off.const()
            if room <= 64 and self.sp.implied(st.pc, z3.ULE(n.bv(), BV(min(room, 16), 64)))[0] == "unsat":
                nb = n.bv()
                for j in range(min(room, 16)):
                    src = s.off.add(j).bv()
                    if self.safety:
                        self.prove(st, z3.Implies(z3.UGT(nb, j), z3.ULT(src, so.n)), "in-bounds block read of %s at line %s" % (so.name, ln), "safety")
                    dc = d.off.const() + j
                    old = self.rec_load(st, d.obj, st.mem[d.obj], dc, 1, False, ln)
                    self.rec_store(st, d.obj, st.mem[d.obj], dc, 1, z3.If(z3.UGT(nb, j), so.f[(0, 1)].sel(st, src), tobv(old, 8)), ln)
                return
        if c is None or c > 256:
            raise Unsupported("memcpy of symbolic size between %s and %s" % (do.name, so.name))
        self.memcpy_small(st, d, s, c, ln)

    def memcpy_small(self, st, d, s, c, ln):
        so = st.mem.get(s.obj) if not isinstance(s.obj, Abs) else None
        do = st.mem.get(d.obj) if not isinstance(d.obj, Abs) else None
        segs = None
        if isinstance(so, Rec) and s.off.const() is not None:
            b = s.off.const()
            fs = [(k - b, sz) for k, (sz, v) in sorted(so.f.items()) if k >= b and k + sz <= b + c]
            segs, pos = [], 0
            for k, sz in fs:
                if k > pos:
                    segs += self._gap(pos, k)
                segs.append((k, sz))
                pos = k + sz
            segs += self._gap(pos, c)
        elif isinstance(so, Arr):
            segs = self._arrsegs(so, s, c)
        elif isinstance(do, Arr):
            segs = self._arrsegs(do, d, c)
        elif isinstance(do, Rec) and d.off.const() is not None and do.f:
            segs = self._gap(0, c)
        else:
            segs = self._gap(0, c)
        for k, sz in segs:
            v = self.load_raw(st, s.plus(k), sz, False, ln)
            self.store_raw(st, d.plus(k), sz, v, ln)

    @staticmethod
    def _gap(a, b):
        out = []
        while a < b:
            s = 8
            while s > b - a or a % s:
                s //= 2
            out.append((a, s))
            a += s
        return out

    def _arrsegs(self, o, p, c):
        spl = p.off.split(o.stride)
        if spl is None:
            raise Unsupported("memcpy array offset")
        inner = spl[1]
        segs = []
        e = 0
        while e * o.stride < inner + c:
            for k, s in sorted(o.f):
                a = e * o.stride + k - inner
                if a >= 0 and a + s <= c:
                    segs.append((a, s))
            e += 1
        return segs

    def memset(self, st, d, v, n, ln):
        n = Lin.of(n) if not isinstance(n, Lin) else n
        if n.const() == 0:
            return
        if d.obj == NULL:
            self.prove(st, n.bv() == 0, "memset null has length 0", "safety")
            st.assume(n.bv() == 0)
            return
        o = self.getobj(st, d.obj)
        if isinstance(o, Rec):
            c = n.const()
            if c is None or c > 4096:
                raise Unsupported("memset symbolic on record")
            for k, sz in self._gap(0, c):
                self.store_raw(st, d.plus(k), sz, z3.Concat(*([v] * sz)) if sz > 1 else v, ln)
            return
        sp, dp = n.split(o.stride), d.off.split(o.stride)
        if sp is None or sp[1] or dp is None or dp[1]:
            raise Unsupported("memset range on array")
        k, q = sp[0].bv(), dp[0].bv()
        if self.safety:
            self.prove(st, z3.Or(k == 0, z3.And(z3.ULE(q, o.n), z3.ULE(k, o.n - q))), "in-bounds memset of %s line %s" % (o.name, ln), "safety")
        o2 = o.copy()
        for (a, s) in o.f:
            o2.f[(a, s)] = FFill(o.f[(a, s)], q, k, z3.Concat(*([v] * s)) if s > 1 else v)
        st.mem[d.obj] = o2

    # --- operands
    def const(self, c):
        k = c[0]
        if k == "c":
            if c[1] == 1:
                return z3.BoolVal(int(c[2]) == 1)
            return BV(int(c[2]), c[1])
        if k == "n":
            return NULLP
        if k == "g":
            return Ptr("g:" + c[1], c[2])
        if k == "f":
            return FnPtr(c[1])
        if k == "gep":
            return self.const(c[1]).plus(c[2])
        if k == "u":
            return self.fresh_of(c[1], "undef")
        if k == "fp":
            return BV(int(c[2]), 64 if c[1] == "double" else 32)
        if k == "z":
            return self.zero(c[1])
        if k == "agg":
            return [self.const(x) for x in c[2]]
        if k == "m":
            return None
        if k == "ce" and c[1] == "ptrtoint":
            return PtrInt(self.const(c[3][0]))
        if k == "ce" and c[1] == "inttoptr":
            v = self.const(c[3][0])
            return Ptr(NULL, Lin.of(v)) if z3.is_bv_value(v) else Ptr(Abs(v), 0)
        raise Unsupported("constant %s" % (c[:3],))

    def zero(self, t):
        if isinstance(t, list):
            if t[0] == "s":
                return [self.zero(x[1]) for x in t[2]]
            return [self.zero(t[3]) for _ in range(t[2])]
        if t == "ptr":
            return NULLP
        if t == "i1":
            return z3.BoolVal(False)
        return BV(0, width(t))

    def fresh_of(self, t, name="v"):
        if isinstance(t, list):
            if t[0] == "s":
                return [self.fresh_of(x[1], name) for x in t[2]]
            return [self.fresh_of(t[3], name) for _ in range(t[2])]
        if t == "ptr":
            return Ptr(Abs(fresh(name, 64)), 0)
        if t == "i1":
            return freshb(name)
        if t == "void":
            return None
        return fresh(name, width(t))

    def val(self, st, o):
        if o[0] == "v":
            env = st.frames[-1].env
            if o[1] not in env:
                raise Unsupported("undefined SSA value %s" % o[1])
            return env[o[1]]
        return self.const(o)

    # --- running
    def run(self, fn, args, st, onret=None):
        """symbolically execute fn; -> list of Outcome (ret / throw)"""
        st = st.copy()
        outer = st.frames
        st.frames = []
        self.push(st, fn, args, None)
        outs = self.drive([st])
        for o in outs:
            o.st.frames = [f.copy() for f in outer]
        return outs

    def push(self, st, fn, args, retid, onret=None):
        f = self.m.fns[fn]
        if "blocks" not in f:
            raise Unsupported("no body for %s" % f["dem"])
        if len(st.frames) > self.max_depth:
            raise Unsupported("inlining depth exceeded at %s" % f["dem"])
        if sum(1 for x in st.frames if x.fn is f) > 2:
            raise Unsupported("recursive call of %s" % f["dem"])
        fr = Frame(f)
        for (i, t, *rest), a in zip(f["args"], args):
            if rest and rest[0] == "byval":
                np = self.new_rec(st, "byval", rest[1])
                self.memcpy_small(st, np, a, rest[1], None)
                a = np
            fr.env[i] = a
        fr.retid = retid
        fr.onret = onret
        st.frames.append(fr)
        self.inlined.add(f["dem"])

    def drive(self, work):
        outs = []
        while work:
            if self.deadline and time.time() > self.deadline:
                raise Unsupported("time budget for this contract exhausted")
            st = work.pop()
            try:
                r = self.step_path(st)
            except PathEnd:
                continue
            for x in r:
                if isinstance(x, Outcome):
                    self.paths += 1
                    outs.append(x)
                else:
                    work.append(x)
            if len(outs) + len(work) > 4000:
                raise Unsupported("path explosion")
        return outs

    def goto(self, st, bb):
        fr = st.frames[-1]
        fr.prev = fr.bb
        fr.bb = bb
        fr.ip = 0

    def step_path(self, st):
        """run until fork / end"""
        while True:
            fr = st.frames[-1]
            if fr.ip == 0 and fr.bb in fr.fn["loopmap"]:
                r = self.at_header(st)
                if r is not None:
                    return r
                fr = st.frames[-1]
            if fr.ip == 0:
                # evaluate phis in parallel
                insts = fr.fn["blocks"][fr.bb]
                new = {}
                n = 0
                for ins in insts:
                    if ins["op"] != "phi":
                        break
                    n += 1
                    if fr.bb in fr.loops and fr.loops[fr.bb] == "havocked":
                        continue
                    for b, o in ins["in"]:
                        if b == fr.prev:
                            new[ins["id"]] = self.val(st, o)
                            break
                    else:
                        raise Unsupported("phi without incoming")
                fr.env.update(new)
                if fr.loops.get(fr.bb) == "havocked":
                    fr.loops[fr.bb] = "in"
                fr.ip = n
            ins = fr.fn["blocks"][fr.bb][fr.ip]
            r = self.inst(st, fr, ins)
            if r is not None:
                return r

    # --- loops
    def phis(self, fr):
        return [i for i in fr.fn["blocks"][fr.bb] if i["op"] == "phi"]

    def phi_incoming(self, st):
        fr = st.frames[-1]
        out = {}
        for ins in self.phis(fr):
            for b, o in ins["in"]:
                if b == fr.prev:
                    out[ins["id"]] = self.val(st, o)
        return out

    def at_header(self, st):
        fr = st.frames[-1]
        loop = fr.fn["loopmap"][fr.bb]
        key = (len(st.frames), fr.fn["name"], fr.bb)
        if fr.loops.get(fr.bb) == "havocked":
            return None
        if st.stop is not None and st.stop == key and fr.prev in loop["bs"]:
            return [Outcome("back", st)]
        fromin = fr.prev in loop["bs"]
        if fromin and fr.loops.get(fr.bb) == "in":
            return []          # back edge of a cut loop in the final pass: path ends (checked)
        if fromin and isinstance(fr.loops.get(fr.bb), tuple):
            # unrolling
            n = fr.loops[fr.bb][1] + 1
            if n > self.max_unroll:
                raise Unsupported("loop in %s (line %s) has no invariant and exceeds the unroll limit" % (fr.fn["dem"], loop.get("ln")))
            fr.loops[fr.bb] = ("unroll", n)
            return None
        # entry
        cands = self.loop_cands(self, st, LoopView(self, st, loop)) if self.loop_cands else None
        if cands is None:
            fr.loops[fr.bb] = ("unroll", 0)
            return None
        return self.cut_loop(st, loop, key, cands)

    def discover(self, st, loop, key, entry_phi, mphi, mmem, mheap):
        """which phis / memory the loop body changes (fixpoint over symbolic iterations)"""
        saved, sm = self.record, self.mode
        self.record, self.mode = False, "discover"
        try:
            for _ in range(12):
                h = self.havoc(st, entry_phi, mphi, mmem, mheap, key)
                hphi = dict(h.frames[-1].env)
                hmem, hheap = dict(h.mem), dict(h.heap)
                h.stop = key
                backs = [o for o in self.drive_until(h, key) if o.kind == "back"]
                ch = False
                for o in backs:
                    if any(isinstance(b, Rec) and o.st.mem.get(oid) is not hmem[oid] for oid, b in st.mem.items()) and not self.sp.feasible(o.st.pc):
                        continue
                    inc = self.phi_incoming(o.st)
                    for i, v in inc.items():
                        if not same_val(v, hphi[i]):
                            k = self.kind_of_change(st, entry_phi[i], v, hphi[i])
                            if mphi.get(i) != k:
                                if i not in mphi or (mphi[i] != "abs" and k == "abs"):
                                    mphi[i] = k
                                    ch = True
                    for oid, ob in st.mem.items():
                        nb = o.st.mem.get(oid)
                        hb = hmem[oid]
                        if nb is hb or nb is None:
                            continue
                        for f in set(nb.f) | set(hb.f):
                            a, b = nb.f.get(f), hb.f.get(f)
                            if a is b or (isinstance(a, FBase) and isinstance(b, FBase) and a.arr is b.arr):
                                continue
                            if isinstance(ob, Rec):
                                if b is None or f not in ob.f:
                                    # lazily materialised: only a change if it is a write
                                    if b is None and a is not None and is_fresh_of(a[1], ob):
                                        continue
                                if a is not None and b is not None and a[0] == b[0] and same_val(a[1], b[1]):
                                    continue
                                if f not in ob.f:
                                    # materialise in the entry state so that it can be tracked
                                    if a is not None:
                                        self.materialize(st, oid, f, a[0])
                                        ch = True
                                        ob = st.mem[oid]
                                if a is None:
                                    if not self.sp.feasible(o.st.pc):
                                        break
                                    raise Unsupported("loop changes the layout of %s" % ob.name)
                                k = self.kind_of_change(st, ob.f[f][1], a[1], b[1] if b else None) if f in ob.f else "int"
                            else:
                                k = "arr"
                            if mmem.get((oid, f)) != k and not (mmem.get((oid, f)) == "abs"):
                                mmem[(oid, f)] = k
                                ch = True
                        if isinstance(nb, Arr) and not nb.n.eq(hb.n):
                            if (oid, "n") not in mmem:
                                mmem[(oid, "n")] = "n"
                                ch = True
                    for f, hv in o.st.heap.items():
                        if f in hheap and hheap[f] is not hv and f not in mheap:
                            mheap[f] = True
                            ch = True
                        elif f not in hheap and not isinstance(hv, FBase) and f not in mheap:
                            mheap[f] = True
                            ch = True
                if not ch:
                    break
            else:
                raise Unsupported("loop modification set does not stabilise")
        finally:
            self.record, self.mode = saved, sm

    def unmodified_ok(self, st, o, hphi, hmem, hheap, mphi, mmem, mheap):
        """the back-edge state o differs from the header state only inside the modification set"""
        for i, v in self.phi_incoming(o.st).items():
            if i not in mphi and not same_val(v, hphi[i]):
                if os.environ.get("VC_DEBUG"): print("UNSTABLE phi", i, v, hphi[i], self.mode)
                return False
        for oid in st.mem:
            nb, hb = o.st.mem.get(oid), hmem[oid]
            if nb is hb or nb is None:
                continue
            for f in set(nb.f) | set(hb.f):
                if (oid, f) in mmem:
                    continue
                x, y = nb.f.get(f), hb.f.get(f)
                if x is y or (isinstance(x, FBase) and isinstance(y, FBase) and x.arr is y.arr):
                    continue
                if isinstance(nb, Rec):
                    if y is None and is_fresh_of(x[1], nb):
                        continue
                    if x is not None and y is not None and x[0] == y[0] and same_val(x[1], y[1]):
                        continue
                if os.environ.get("VC_DEBUG"): print("UNSTABLE mem", oid, f, x, y)
                return False
            if isinstance(nb, Arr) and not nb.n.eq(hb.n) and (oid, "n") not in mmem:
                return False
        for f, hv in o.st.heap.items():
            if f not in mheap and ((f in hheap and hheap[f] is not hv) or (f not in hheap and not isinstance(hv, FBase))):
                return False
        return True

    def cut_loop(self, st, loop, key, cands):
        try:
            return self.cut_loop1(st, loop, key, cands)
        except Relearn:
            # what was learnt on another path does not cover this one: learn afresh
            ck = (st.frames[-1].fn["name"], st.frames[-1].bb)
            self.modcache.pop(ck, None)
            self.candcache.pop(ck, None)
            return self.cut_loop1(st, loop, key, cands)

    def cut_loop1(self, st, loop, key, cands):
        fr = st.frames[-1]
        entry_phi = self.phi_incoming(st)
        outer_stop = st.stop
        ck = (fr.fn["name"], fr.bb)
        mphi, mmem, mheap = {}, {}, {}
        cached = self.modcache.get(ck)
        if cached is not None:
            # reuse what was learnt for this loop on another path (re-validated on every back edge below)
            mphi.update(cached[0])
            for (oid, f), kd in cached[1].items():
                if oid in st.mem and (f == "n" or f in st.mem[oid].f):
                    mmem[(oid, f)] = kd
            mheap.update(cached[2])
        if cached is None or self.mode == "discover" or not self.cache_mods:
            self.discover(st, loop, key, entry_phi, mphi, mmem, mheap)
        self.modcache[ck] = (dict(mphi), dict(mmem), dict(mheap))
        if self.mode == "discover":
            h = self.havoc(st, entry_phi, mphi, mmem, mheap, key)
            h.stop = outer_stop
            return [h]
        saved, sm = self.record, self.mode
        self.record, self.mode = False, "houdini"
        lname = "loop in %s" % short(fr.fn["dem"])
        try:
            e = st.copy()
            e.frames[-1].env.update(entry_phi)
            lv = LoopView(self, e, loop)
            lv.mphi, lv.mmem = mphi, mmem
            cands = list(self.loop_cands(self, e, lv) or []) + lv.bytes01(e)
            live = []
            cands = [self.uni(c) if len(c) == 4 else c for c in cands]
            hope = self.candcache.get(ck)
            todo = []
            for nm, f in cands:
                if hope is not None and nm not in hope:
                    continue
                try:
                    g = f(e, e.frames[-1].env)
                except (Unsupported, KeyError):
                    continue
                if g is None:
                    continue
                if isinstance(g, (list, tuple)):
                    g = z3.And(*g)
                todo.append((nm, f, z3.BoolVal(g) if isinstance(g, bool) else g))
            while todo:
                r, m, _ = self.sp.quick(e.pc, z3.And(*[g for _, _, g in todo]))
                if r == "unsat":
                    break
                if m is not None:
                    nt = [x for x in todo if z3.is_true(m.eval(x[2], model_completion=True))]
                    if len(nt) == len(todo):
                        nt = todo[:-1]
                    todo = nt
                else:
                    todo = [x for x in todo if self.sp.implied(e.pc, x[2], 8000)[0] == "unsat"]
                    break
            live = [(nm, f) for nm, f, _ in todo]
            while True:
                h = self.havoc(st, entry_phi, mphi, mmem, mheap, key)
                kept = []
                for nm, f in live:
                    try:
                        self.assume_inv(h, f)
                        kept.append((nm, f))
                    except (Unsupported, KeyError):
                        pass
                live = kept
                h.stop = key
                hphi, hmem, hheap = dict(h.frames[-1].env), dict(h.mem), dict(h.heap)
                drop = set()
                nback = 0
                for o in self.drive_until(h, key):
                    if o.kind != "back":
                        continue
                    bs = o.st
                    nback += 1
                    if not self.unmodified_ok(st, o, hphi, hmem, hheap, mphi, mmem, mheap):
                        if cached is not None:
                            raise Relearn()
                        raise Unsupported("loop modification set unstable in %s" % fr.fn["dem"])
                    env = dict(bs.frames[-1].env)
                    env.update(self.phi_incoming(bs))
                    todo = []
                    for j, (nm, f) in enumerate(live):
                        if j not in drop:
                            g = f(bs, env)
                            if isinstance(g, (list, tuple)):
                                g = z3.And(*g)
                            todo.append((j, z3.BoolVal(g) if isinstance(g, bool) else g))
                    while todo:
                        r, m, _ = self.sp.quick(bs.pc, z3.And(*[g for _, g in todo]))
                        if r == "unsat":
                            break
                        if m is not None:
                            bad = [j for j, g in todo if not z3.is_true(m.eval(g, model_completion=True))]
                            if not bad:
                                bad = [todo[-1][0]]
                        else:
                            bad = [j for j, g in todo if self.sp.implied(bs.pc, g, 8000)[0] != "unsat"]
                            if not bad:
                                break
                        drop |= set(bad)
                        todo = [(j, g) for j, g in todo if j not in bad]
                if not drop:
                    break
                live = [c for j, c in enumerate(live) if j not in drop]
        finally:
            self.record, self.mode = saved, sm
        if ck not in self.candcache:
            self.candcache[ck] = {nm for nm, _ in live}
        if os.environ.get("VC_DEBUG", "0") > "1":
            print("   loop %s line %s: phis %s mem %s; invariants kept %s; dropped %s" % (fr.fn["dem"][:60], loop.get("ln"), list(mphi.items()), [(a, b) for a, b in mmem][:8], [n for n, _ in live], [n for n, _ in cands if n not in [x for x, _ in live]]), flush=True)
        if self.record:
            # entry and preservation of every kept invariant were proved above (last round): record them
            for nm, f in live:
                self.obls.append({"fn": self.fnname, "name": "%s: invariant '%s' holds on entry" % (lname, nm), "kind": "inv-entry", "result": "discharged", "backend": "z3/qfufbv"})
                for b in range(nback):
                    self.obls.append({"fn": self.fnname, "name": "%s: invariant '%s' preserved (back edge %d)" % (lname, nm, b), "kind": "inv-step", "result": "discharged", "backend": "z3/qfufbv"})
        h = self.havoc(st, entry_phi, mphi, mmem, mheap, key)
        for nm, f in live:
            self.assume_inv(h, f)
        h.stop = outer_stop
        return [h]

    def uni(self, c):
        nm, f, p, key = c
        q = fresh("any_" + "".join(ch for ch in nm if ch.isalnum())[:12], 64)
        return nm, UniInv(f, p, key, q)

    def assume_inv(self, h, f):
        env = h.frames[-1].env
        if isinstance(f, UniInv):
            f.assume(h, dict(env))
        else:
            h.assume(f(h, env))

    def drive_until(self, h, key, obl=False):
        saved = self.record
        self.record = saved and obl
        try:
            outs = self.drive_stop([h], key)
        finally:
            self.record = saved
        return outs

    def drive_stop(self, work, key):
        """like drive, but paths leaving the loop (frame popped or block outside) are dropped"""
        outs = []
        depth, fname, hb = key
        lbs = self.m.fns[fname]["loopmap"][hb]["bs"]
        while work:
            if self.deadline and time.time() > self.deadline:
                raise Unsupported("time budget for this contract exhausted")
            st = work.pop()
            if len(st.frames) < depth:
                continue
            fr = st.frames[depth - 1]
            if fr.bb not in lbs:
                continue
            try:
                r = self.step_path(st)
            except PathEnd:
                continue
            except Unsupported:
                if self.sp.feasible(st.pc):
                    raise
                continue
            for x in r:
                if isinstance(x, Outcome):
                    if x.kind == "back":
                        outs.append(x)
                else:
                    work.append(x)
            if len(outs) + len(work) > 3000:
                raise Unsupported("path explosion in loop")
        return outs

    def materialize(self, st, oid, off, sz):
        o = st.mem[oid].copy()
        if off not in o.f:
            o.f[off] = (sz, fresh("%s.%d" % (o.name, off), sz * 8))
        st.mem[oid] = o

    def kind_of_change(self, st, entry, new, cur):
        if isinstance(entry, Ptr) or isinstance(new, Ptr):
            if isinstance(entry, Ptr) and isinstance(new, Ptr) and entry.obj == new.obj and not isinstance(entry.obj, Abs) and entry.obj != NULL:
                return "off"
            return "abs"
        return "int"

    def havoc_val(self, st, v, kind, name):
        if kind == "off":
            o = st.mem.get(v.obj)
            stride = o.stride if isinstance(o, Arr) else 1
            sp = v.off.split(stride)
            inner = sp[1] if sp else 0
            return Ptr(v.obj, Lin.of(fresh(name + ".idx", 64)).scale(stride).add(inner))
        if kind == "abs" or isinstance(v, Ptr):
            return Ptr(Abs(fresh(name + ".p", 64)), 0)
        if isinstance(v, (Lin, PtrInt)):
            return fresh(name, 64)
        if isinstance(v, list):
            return [self.havoc_val(st, x, "int", name) for x in v]
        if z3.is_bool(v):
            return freshb(name)
        return fresh(name, v.size())

    def havoc(self, st, entry_phi, mphi, mmem, mheap, key):
        h = st.copy()
        fr = h.frames[-1]
        for i, v in entry_phi.items():
            fr.env[i] = self.havoc_val(h, v, mphi[i], "phi%d" % i) if i in mphi else v
        for (oid, f), k in mmem.items():
            o = h.mem[oid].copy()
            if isinstance(o, Rec):
                sz, v = o.f[f]
                o.f[f] = (sz, self.havoc_val(h, v, k, "%s.%s" % (o.name, f)))
            elif f == "n":
                o.n = fresh(o.name + ".n", 64)
            else:
                b = o.f[f].bits
                o.f[f] = FBase(fresh_arr("%s.%d" % (o.name, f[0]), b), b)
            h.mem[oid] = o
        for f in mheap:
            b = f[1] * 8
            h.heap[f] = FBase(fresh_arr("heap_%d_%d" % f, b), b)
        fr.loops[fr.bb] = "havocked"
        return h

    # --- instructions
    def inst(self, st, fr, ins):
        op = ins["op"]
        env = fr.env
        if op in ARITH:
            a, b = self.val(st, ins["ops"][0]), self.val(st, ins["ops"][1])
            env[ins["id"]] = self.arith(st, op, a, b, ins)
            fr.ip += 1
            return None
        if op == "load":
            env[ins["id"]] = self.load(st, self.aptr(self.val(st, ins["ops"][0])), ins["ty"], ins.get("ln"))
            fr.ip += 1
            return None
        if op == "store":
            self.store(st, self.aptr(self.val(st, ins["ops"][1])), ins["oty"][0], self.val(st, ins["ops"][0]), ins.get("ln"))
            fr.ip += 1
            return None
        if op == "getelementptr":
            if ins.get("bad"):
                raise Unsupported("gep")
            b = self.aptr(self.val(st, ins["base"]))
            off = Lin(ins["off"])
            for o, t, sc in ins["var"]:
                v = self.val(st, o)
                if not isinstance(v, (Lin,)):
                    w = v.size()
                    if w < 64:
                        v = z3.SignExt(64 - w, v)
                off = off.add(Lin.of(v).scale(sc))
            env[ins["id"]] = b.plus(off)
            fr.ip += 1
            return None
        if op == "icmp":
            env[ins["id"]] = self.icmp(st, ins["pred"], self.val(st, ins["ops"][0]), self.val(st, ins["ops"][1]), ins["oty"][0])
            fr.ip += 1
            return None
        if op == "br":
            if not ins["ops"]:
                self.goto(st, ins["succ"][0])
                return None
            c = tobool(self.val(st, ins["ops"][0]))
            return self.fork(st, c, lambda s, tv: self.goto(s, ins["succ"][0] if tv else ins["succ"][1]))
        if op == "switch":
            v = self.val(st, ins["ops"][0])
            outs = []
            rest = []
            for cv, bb in ins["cases"]:
                if z3.is_bool(v):
                    c = v if int(cv) else z3.Not(v)
                else:
                    c = v == BV(int(cv), v.size())
                outs += self.fork_one(st, c, lambda s: self.goto(s, bb))
                rest.append(z3.Not(c))
            outs += self.fork_one(st, z3.And(*rest) if rest else z3.BoolVal(True), lambda s: self.goto(s, ins["def"]))
            return outs
        if op == "ret":
            v = self.val(st, ins["ops"][0]) if ins["ops"] else None
            return self.do_ret(st, v)
        if op == "alloca":
            cnt = self.val(st, ins["ops"][0]) if ins["ops"] else BV(1, 64)
            if not z3.is_bv_value(cnt):
                raise Unsupported("vla")
            env[ins["id"]] = self.new_rec(st, "local%d" % ins["id"], ins["asz"] * cnt.as_long())
            fr.ip += 1
            return None
        if op in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "freeze"):
            env[ins["id"]] = self.cast(st, op, self.val(st, ins["ops"][0]), ins["oty"][0], ins["ty"])
            fr.ip += 1
            return None
        if op == "select":
            c = tobool(self.val(st, ins["ops"][0]))
            a, b = self.val(st, ins["ops"][1]), self.val(st, ins["ops"][2])
            if isinstance(a, (Ptr, FnPtr, list)) or isinstance(b, (Ptr, FnPtr, list, PtrInt)) or isinstance(a, PtrInt):
                if same_val(a, b):
                    env[ins["id"]] = a
                    fr.ip += 1
                    return None

                def setv(s, tv):
                    f2 = s.frames[-1]
                    f2.env[ins["id"]] = a if tv else b
                    f2.ip += 1
                return self.fork(st, c, setv)
            w = None if z3.is_bool(a) or z3.is_bool(b) else width(ins["ty"])
            env[ins["id"]] = z3.If(c, tobv(a, w) if w else a, tobv(b, w) if w else b)
            fr.ip += 1
            return None
        if op in ("call", "invoke"):
            return self.call(st, fr, ins)
        if op == "extractvalue":
            v = self.val(st, ins["ops"][0])
            for i in ins["idx"]:
                v = v[i]
            env[ins["id"]] = v
            fr.ip += 1
            return None
        if op == "insertvalue":
            v = self.val(st, ins["ops"][0])
            x = self.val(st, ins["ops"][1])
            env[ins["id"]] = insval(v, ins["idx"], x)
            fr.ip += 1
            return None
        if op == "unreachable":
            return []
        if op == "landingpad":
            raise Unsupported("landingpad reached")
        if op == "atomicrmw":
            p = self.val(st, ins["ops"][0])
            old = self.load(st, p, ins["ty"], ins.get("ln"))
            x = self.val(st, ins["ops"][1])
            r = {"add": lambda: old + x, "sub": lambda: old - x, "xchg": lambda: x}[ins["rmw"]]()
            self.store(st, p, ins["ty"], r, ins.get("ln"))
            env[ins["id"]] = old
            fr.ip += 1
            return None
        if op == "fence":
            fr.ip += 1
            return None
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem", "fneg", "fcmp", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc"):
            r = self.float_hook(self, st, op, ins, [self.val(st, x) for x in ins["ops"]]) if self.float_hook else None
            env[ins["id"]] = r if r is not None else self.fresh_of(ins["ty"], "float")   # floating point is not interpreted: any value
            fr.ip += 1
            return None
        raise Unsupported("instruction %s" % op)

    def aptr(self, v):
        if isinstance(v, Ptr):
            return v
        if isinstance(v, PtrInt):
            return v.p
        if isinstance(v, FnPtr):
            return Ptr("fn:" + v.name, 0)
        raise Unsupported("not a pointer: %s" % (v,))

    def fork(self, st, c, act):
        cs = z3.simplify(c)
        if z3.is_true(cs):
            act(st, True)
            return [st] if False else None
        if z3.is_false(cs):
            act(st, False)
            return None
        if self.mode == "discover":
            t = f = True
        else:
            t = self.sp.feasible(st.pc, c)
            f = self.sp.feasible(st.pc, z3.Not(c)) if t else True
        if t and not f:
            st.assume(c)
            act(st, True)
            return None
        if f and not t:
            st.assume(z3.Not(c))
            act(st, False)
            return None
        if not t and not f:
            return []
        s2 = st.copy()
        st.assume(c)
        act(st, True)
        s2.assume(z3.Not(c))
        act(s2, False)
        return [s2, st]

    def fork_one(self, st, c, act):
        cs = z3.simplify(c)
        if z3.is_false(cs) or (self.mode != "discover" and not self.sp.feasible(st.pc, c)):
            return []
        s2 = st.copy()
        s2.assume(c)
        act(s2)
        return [s2]

    def do_ret(self, st, v):
        fr = st.frames.pop()
        if fr.onret:
            v = fr.onret(st, v)
        if not st.frames:
            return [Outcome("ret", st, v)]
        caller = st.frames[-1]
        ins = fr.retid
        if ins is not None:
            self.finish_call(st, caller, ins, v)
        return None

    def finish_call(self, st, fr, ins, v):
        if ins["ty"] != "void":
            fr.env[ins["id"]] = v
        if ins["op"] == "invoke":
            self.goto(st, ins["to"])
        else:
            fr.ip += 1

    def arith(self, st, op, a, b, ins):
        w = width(ins["ty"])
        if w == 1:
            a, b = tobool(a), tobool(b)
            if op == "and":
                return z3.And(a, b)
            if op == "or":
                return z3.Or(a, b)
            if op in ("xor", "add", "sub"):
                return z3.Xor(a, b)
            raise Unsupported("i1 %s" % op)
        if isinstance(a, (PtrInt, Lin)) or isinstance(b, (PtrInt, Lin)):
            if op == "sub" and isinstance(a, PtrInt) and isinstance(b, PtrInt):
                if a.p.obj == b.p.obj:
                    return a.p.off.add(b.p.off, -1)
                if isinstance(a.p.obj, Abs) or isinstance(b.p.obj, Abs) or NULL in (a.p.obj, b.p.obj):
                    return Lin.of(self.ptr_bv(st, a.p)).add(Lin.of(self.ptr_bv(st, b.p)), -1)
                raise Unsupported("difference of pointers into different objects %s %s" % (a.p, b.p))
            if op in ("add", "sub"):
                if isinstance(a, PtrInt) and not isinstance(b, PtrInt):
                    return PtrInt(a.p.plus(Lin.of(b).scale(1 if op == "add" else -1)))
                if isinstance(b, PtrInt) and op == "add":
                    return PtrInt(b.p.plus(Lin.of(a)))
                if not isinstance(a, PtrInt) and not isinstance(b, PtrInt):
                    return Lin.of(a).add(b, 1 if op == "add" else -1)
            if isinstance(a, Lin) and not isinstance(b, (Lin, PtrInt)) and z3.is_bv_value(b):
                k = b.as_long()
                if op == "mul":
                    return a.scale(_s64(k))
                if op == "shl":
                    return a.scale(1 << k)
                if (op in ("sdiv", "udiv") and ins.get("exact")) or (op in ("sdiv", "udiv")):
                    s = a.split(k)
                    if s is not None and s[1] == 0:
                        q = s[0]
                        return q.bv() if not q.const() else BV(q.c % (1 << 64), 64)
                if op in ("ashr", "lshr") and ins.get("exact"):
                    s = a.split(1 << k)
                    if s is not None and s[1] == 0:
                        return s[0].bv()
                if op in ("ashr",):
                    s = a.split(1 << k)
                    if s is not None:
                        return s[0].bv()
            if isinstance(a, PtrInt):
                a = self.ptr_bv(st, a.p)
            if isinstance(b, PtrInt):
                b = self.ptr_bv(st, b.p)
            a, b = tobv(a, w), tobv(b, w)
        if op == "add":
            return a + b
        if op == "sub":
            return a - b
        if self.arith_hook is not None and op in ("mul", "udiv", "urem", "sdiv", "srem"):
            r = self.arith_hook(st, op, w, a, b)
            if r is not None:
                return r
        if op == "mul":
            if self.uf_mul and w == 64 and not z3.is_bv_value(a) and not z3.is_bv_value(b):
                return umul(a, b)
            return a * b
        if op in ("udiv", "sdiv", "urem", "srem") and self.check_div:
            if not (z3.is_bv_value(b) and b.as_long() != 0):
                self.prove(st, b != 0, "division by zero at line %s" % ins.get("ln"), "safety")
                st.assume(b != 0)
        if op == "udiv":
            return z3.UDiv(a, b)
        if op == "sdiv":
            return a / b
        if op == "urem":
            return z3.URem(a, b)
        if op == "srem":
            return z3.SRem(a, b)
        if op == "and":
            return a & b
        if op == "or":
            return a | b
        if op == "xor":
            return a ^ b
        if op == "shl":
            return a << b
        if op == "lshr":
            return z3.LShR(a, b)
        if op == "ashr":
            return a >> b
        raise Unsupported(op)

    def icmp(self, st, pred, a, b, t):
        if isinstance(a, PtrInt) and isinstance(b, PtrInt):
            a, b = a.p, b.p
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            if isinstance(a, FnPtr) and isinstance(b, FnPtr):
                e = a.name == b.name
            else:
                e = False
            return z3.BoolVal(e if pred == "eq" else not e)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj == b.obj:
                d = a.off.add(b.off, -1)
                stride = 1
                o = st.mem.get(a.obj) if not isinstance(a.obj, Abs) else None
                if isinstance(o, Arr):
                    stride = o.stride
                if d.const() is not None:
                    eq = z3.BoolVal(d.c == 0)
                    if pred == "eq":
                        return eq
                    if pred == "ne":
                        return z3.Not(eq)
                    lt, gt = d.c < 0, d.c > 0
                    return z3.BoolVal({"ult": lt, "ule": not gt, "ugt": gt, "uge": not lt}[pred])
                sa, sb = a.off.split(stride), b.off.split(stride)
                if sa and sb and sa[1] == sb[1]:
                    x, y = sa[0].bv(), sb[0].bv()
                else:
                    x, y = a.off.bv(), b.off.bv()
                return cmp(pred, x, y)
            conc = [p for p in (a, b) if not isinstance(p.obj, Abs) and p.obj != NULL]
            absx = [p for p in (a, b) if isinstance(p.obj, Abs)]
            if conc and not absx:
                # distinct objects (or an object and null)
                if pred == "eq":
                    return z3.BoolVal(False)
                if pred == "ne":
                    return z3.BoolVal(True)
            x, y = self.ptr_bv(st, a), self.ptr_bv(st, b)
            for p in conc:
                st.fact_once(("nonnull", p.obj), None, lambda: z3.BitVec("addr:%s" % p.obj, 64) != 0)
            return cmp(pred, x, y)
        if isinstance(a, Ptr):
            a = self.ptr_bv(st, a)
        if isinstance(b, Ptr):
            b = self.ptr_bv(st, b)
        if isinstance(a, PtrInt):
            a = self.ptr_bv(st, a.p)
        if isinstance(b, PtrInt):
            b = self.ptr_bv(st, b.p)
        if z3.is_expr(a) and z3.is_bool(a) or z3.is_expr(b) and z3.is_bool(b):
            a, b = tobool(a), tobool(b)
            if pred == "eq":
                return a == b
            if pred == "ne":
                return z3.Xor(a, b)
            a, b = tobv(a, 1), tobv(b, 1)
            return cmp(pred, a, b)
        w = width(t)
        return cmp(pred, tobv(a, w), tobv(b, w))

    def cast(self, st, op, v, ft, tt):
        if op == "freeze":
            return v
        if op == "ptrtoint":
            if isinstance(v, FnPtr):
                raise Unsupported("ptrtoint fn")
            return PtrInt(v)
        if op == "inttoptr":
            if isinstance(v, PtrInt):
                return v.p
            return self.bv_ptr(st, tobv(v, 64))
        if op == "bitcast":
            return v
        w = width(tt)
        if op == "trunc":
            if isinstance(v, PtrInt):
                v = self.ptr_bv(st, v.p)
            v = tobv(v, 64) if isinstance(v, Lin) else v
            if w == 1:
                return z3.Extract(0, 0, v) == BV(1, 1)
            return z3.Extract(w - 1, 0, v)
        if z3.is_bool(v):
            return z3.If(v, BV(1 if op == "zext" else (1 << w) - 1, w), BV(0, w))
        v = tobv(v, width(ft))
        return z3.ZeroExt(w - v.size(), v) if op == "zext" else z3.SignExt(w - v.size(), v)

    # --- calls
    def call(self, st, fr, ins):
        callee = ins["callee"]
        if ins.get("asm"):
            raise Unsupported("inline asm")
        name = None
        if callee[0] == "f":
            name = callee[1]
        else:
            v = self.val(st, callee)
            if isinstance(v, FnPtr):
                name = v.name
            elif isinstance(v, Ptr) and isinstance(v.obj, str) and v.obj.startswith("fn:"):
                name = v.obj[3:]
            else:
                args = [self.val(st, o) for o in ins["ops"]]
                if self.indirect:
                    r = self.indirect(self, st, v, args, ins)
                    if r is not None:
                        return self.apply_results(st, fr, ins, r)
                raise Unsupported("indirect call at line %s" % ins.get("ln"))
        if name.startswith("llvm."):
            return self.intrinsic(st, fr, ins, name)
        args = [self.val(st, o) for o in ins["ops"]]
        f = self.m.fns[name]
        dem = f["dem"]
        for rx, h in self.contracts:
            if rx.search(dem):
                r = h(self, st, args, ins)
                if r is not NotImplemented:
                    self.used_contracts.add(rx.pattern)
                    return self.apply_results(st, fr, ins, r)
        b = BUILTINS.get(name)
        if b:
            r = b(self, st, args, ins)
            return self.apply_results(st, fr, ins, r)
        for rx, h in DEM_BUILTINS:
            if rx.search(dem):
                r = h(self, st, args, ins)
                if r is not NotImplemented:
                    return self.apply_results(st, fr, ins, r)
        if "blocks" in f:
            self.push(st, name, args, ins)
            return None
        raise Unsupported("call to external %s at line %s" % (dem, ins.get("ln")))

    def apply_results(self, st, fr, ins, r):
        """r: list of (state,val) | Outcome | PathEnd marker"""
        if len(r) == 1 and not isinstance(r[0], Outcome) and r[0][0] is st:
            self.finish_call(st, st.frames[-1], ins, r[0][1])
            return None
        outs = []
        for x in r:
            if isinstance(x, Outcome):
                if x.kind == "throw":
                    outs.append(x)
                continue
            s, v = x
            self.finish_call(s, s.frames[-1], ins, v)
            outs.append(s)
        return outs

    def intrinsic(self, st, fr, ins, name):
        args = None
        ln = ins.get("ln")
        if name.startswith(("llvm.lifetime", "llvm.dbg", "llvm.experimental.noalias", "llvm.stack", "llvm.assume", "llvm.invariant")):
            self.finish_call(st, fr, ins, None)
            return None
        args = [self.val(st, o) for o in ins["ops"]]
        if name.startswith(("llvm.memcpy", "llvm.memmove")):
            self.memcpy(st, self.aptr(args[0]), self.aptr(args[1]), args[2], ln)
            self.finish_call(st, fr, ins, None)
            return None
        if name.startswith("llvm.memset"):
            self.memset(st, self.aptr(args[0]), args[1], args[2], ln)
            self.finish_call(st, fr, ins, None)
            return None
        if name.startswith("llvm.expect"):
            v = args[0]
        elif name.startswith("llvm.umin"):
            v = z3.If(z3.ULT(args[0], args[1]), args[0], args[1])
        elif name.startswith("llvm.umax"):
            v = z3.If(z3.ULT(args[0], args[1]), args[1], args[0])
        elif name.startswith("llvm.smin"):
            v = z3.If(args[0] < args[1], args[0], args[1])
        elif name.startswith("llvm.smax"):
            v = z3.If(args[0] < args[1], args[1], args[0])
        elif name.startswith("llvm.abs"):
            v = z3.If(args[0] < 0, -args[0], args[0])
        elif name.startswith("llvm.uadd.with.overflow"):
            a, b = [tobv(x, 64) for x in args]
            v = [a + b, z3.Not(z3.BVAddNoOverflow(a, b, False))]
        elif name.startswith("llvm.umul.with.overflow"):
            a, b = [tobv(x, 64) for x in args]
            v = [a * b, z3.Not(z3.BVMulNoOverflow(a, b, False))]
        elif name.startswith("llvm.sadd.with.overflow"):
            a, b = args
            v = [a + b, z3.Or(z3.Not(z3.BVAddNoOverflow(a, b, True)), z3.Not(z3.BVAddNoUnderflow(a, b)))]
        elif name.startswith("llvm.fshl"):
            raise Unsupported(name)
        elif name.startswith("llvm.trap"):
            return []
        elif name.startswith("llvm.eh.typeid"):
            v = fresh("typeid", 32)
        else:
            raise Unsupported("intrinsic %s" % name)
        self.finish_call(st, fr, ins, v)
        return None


class HeaderView:
    """memory as it was at the loop header; facts go to the current path"""
    def __init__(self, st, mem):
        self.__dict__["st"], self.__dict__["mem"] = st, dict(mem)

    def __getattr__(self, n):
        return getattr(self.__dict__["st"], n)

    def __setattr__(self, n, v):
        setattr(self.__dict__["st"], n, v)


class UniInv:
    """invariant over every element q of an array: proved at an arbitrary q, assumed at every q that is read"""
    def __init__(self, f, p, key, q):
        self.f, self.p, self.key, self.q = f, p, key, q

    def __call__(self, st, env):
        a = st.mem[self.p.obj]
        v = a.f[self.key].sel(st, self.q)
        return self.guard(a, self.q, self.f(st, env, self.q, v))

    @staticmethod
    def guard(a, q, g):
        if isinstance(g, (list, tuple)):
            g = z3.And(*g)
        return z3.Implies(z3.ULT(q, a.n), g)

    def assume(self, h, env):
        a = h.mem[self.p.obj]
        b = a.f[self.key]
        if not isinstance(b, FBase):
            # array not havocked by this loop: plain instance
            h.assume(self(h, env))
            return
        old = b.cb
        mem = {}

        def lst(r):
            return [] if r is None else (list(r) if isinstance(r, (list, tuple)) else [r])

        def cb(st, i, v):
            return (lst(old(st, i, v)) if old else []) + [self.guard(a, i, self.f(HeaderView(st, mem), env, i, v))]
        a2 = a.copy()
        if hasattr(a, "names"):
            a2.names = a.names
        a2.f[self.key] = FBase(b.arr, b.bits, cb)
        h.mem[self.p.obj] = a2
        mem.update(h.mem)
        h.assume(self(h, env))


class Relearn(Exception):
    pass


class PathEnd(Exception):
    pass


def z64_(v):
    return z3.ZeroExt(64 - v.size(), v) if v.size() < 64 else v


class LoopView:
    def __init__(self, ex, st, loop):
        self.ex, self.loop = ex, loop
        fr = st.frames[-1]
        self.fn = fr.fn
        self.phis = {i["id"]: i for i in ex.phis(fr)}
        self.entry = ex.phi_incoming(st) if fr.prev is not None and fr.loops.get(fr.bb) != "havocked" else {}
        self.mphi, self.mmem = None, None

    def changed(self):
        """phi ids that change in the loop"""
        return list(self.mphi) if self.mphi is not None else list(self.phis)

    def ints(self, st):
        """integer quantities that change in the loop: [(name, get(state, env))] (SSA values and memory cells)"""
        out = []
        for i in self.changed():
            v = self.entry.get(i)
            if isinstance(v, Lin) or (z3.is_expr(v) and z3.is_bv(v) and v.size() in (32, 64)):
                out.append(("v%d" % i, lambda s, e, i=i: e[i].bv() if isinstance(e[i], Lin) else (z3.ZeroExt(64 - e[i].size(), e[i]) if e[i].size() < 64 else e[i])))
        for (oid, f) in (self.mmem or {}):
            o = st.mem.get(oid)
            if not isinstance(o, Rec) or f not in o.f or o.f[f][0] not in (4, 8):
                continue
            v = o.f[f][1]
            if isinstance(v, Lin) or (z3.is_expr(v) and z3.is_bv(v)):
                def get(s, e, oid=oid, f=f):
                    w, v = s.mem[oid].f[f]
                    if isinstance(v, Lin):
                        return v.bv()
                    if not z3.is_bv(v):
                        raise Unsupported("cell is not an integer")
                    return z3.ZeroExt(64 - v.size(), v) if v.size() < 64 else v
                out.append(("%s+%s" % (str(oid).split("#")[0], f), get))
        return out

    def outer(self, st):
        """integer loop variables of enclosing loops (fixed during this loop): [(name, get(state, env))]"""
        fr = st.frames[-1]
        out = []
        for bi, blk in enumerate(fr.fn["blocks"]):
            for ins in blk:
                if ins["op"] != "phi" or ins["id"] in self.phis or ins["id"] not in fr.env:
                    continue
                v = fr.env[ins["id"]]
                if isinstance(v, Lin):
                    v = v.bv()
                if z3.is_expr(v) and z3.is_bv(v) and v.size() in (32, 64):
                    v = z64_(v)
                    out.append(("o%d" % ins["id"], lambda s, e, v=v: v))
        return out

    def outer_idx(self, st, base):
        """element positions in array object `base` held by variables that this loop does not change"""
        stride = st.mem[base.obj].stride
        out = []

        def add(n, v):
            if isinstance(v, Ptr) and v.obj == base.obj:
                q = v.off.split(stride)
                if isinstance(q, tuple) and q[0].const() is None:
                    b = q[0].bv()
                    if not any(b.eq(w) for _, w in out):
                        out.append((n, b))
        fr = st.frames[-1]
        for i, v in fr.env.items():
            if i not in self.phis:
                add("o%d" % i, v)
        for oid, o in st.mem.items():
            if isinstance(o, Rec):
                for f, (sz, v) in o.f.items():
                    if (oid, f) not in (self.mmem or {}):
                        add("o:%s+%s" % (str(oid).split("#")[0], f), v)
        return [(n, lambda s, e, b=b: b) for n, b in out]

    def idx(self, st, base):
        """element positions in array object `base` that change in the loop: [(name, get(state, env))]
        (iterators into it, in SSA values and memory cells, and integer counters)"""
        stride = st.mem[base.obj].stride

        def pos(v):
            if isinstance(v, PtrInt):
                v = v.p
            if not isinstance(v, Ptr) or v.obj != base.obj:
                raise Unsupported("not a position")
            q = v.off.split(stride)
            if q is None:
                raise Unsupported("not an element position")
            return q[0].bv()
        out = []
        for i in self.changed():
            v = self.entry.get(i)
            if isinstance(v, (Ptr, PtrInt)):
                try:
                    pos(v)
                except Unsupported:
                    continue
                out.append(("it%d" % i, lambda s, e, i=i: pos(e[i])))
        for (oid, f) in (self.mmem or {}):
            o = st.mem.get(oid)
            if isinstance(o, Rec) and f in o.f and isinstance(o.f[f][1], (Ptr, PtrInt)):
                try:
                    pos(o.f[f][1])
                except Unsupported:
                    continue
                out.append(("it:%s+%s" % (str(oid).split("#")[0], f), lambda s, e, oid=oid, f=f: pos(s.mem[oid].f[f][1])))
        return out + self.ints(st)

    def bytes01(self, st):
        """candidates: a changing byte is a C++ bool"""
        out = []
        for i in self.changed():
            x = self.entry.get(i)
            if z3.is_expr(x) and z3.is_bv(x) and x.size() == 8:
                out.append(("b%d is a bool" % i, lambda s, e, i=i: z3.ULE(e[i], 1)))
        for (oid, f) in (self.mmem or {}):
            o = st.mem.get(oid)
            if isinstance(o, Rec) and f in o.f and o.f[f][0] == 1 and z3.is_expr(o.f[f][1]) and z3.is_bv(o.f[f][1]):
                out.append(("%s+%s is a bool" % (o.name, f), lambda s, e, oid=oid, f=f: z3.ULE(tobv(s.mem[oid].f[f][1], 8), 1)))
        return out

    def flags(self, st):
        """boolean quantities that change in the loop"""
        out = [(n, lambda s, e, g=g: g(s, e) != 0) for n, g in self.ints(st)]
        for i in self.changed():
            x = self.entry.get(i)
            if z3.is_expr(x) and (z3.is_bool(x) or (z3.is_bv(x) and x.size() <= 8)):
                out.append(("b%d" % i, lambda s, e, i=i: tobool(e[i])))
        for (oid, f) in (self.mmem or {}):
            o = st.mem.get(oid)
            if isinstance(o, Rec) and f in o.f and o.f[f][0] == 1 and not isinstance(o.f[f][1], (Ptr, PtrInt, Lin)):
                out.append(("%s+%d" % (o.name, f), lambda s, e, oid=oid, f=f: tobool(s.mem[oid].f[f][1])))
        return out


def is_fresh_of(v, ob):
    return isinstance(v, z3.BitVecRef) and z3.is_const(v) and v.decl().name().startswith(ob.name + ".")


def same_val(a, b):
    if a is b:
        return True
    if isinstance(a, Ptr):
        return a.same(b) if isinstance(b, Ptr) else False
    if isinstance(a, FnPtr):
        return isinstance(b, FnPtr) and a.name == b.name
    if isinstance(a, PtrInt):
        return isinstance(b, PtrInt) and a.p.same(b.p)
    if isinstance(a, Lin) or isinstance(b, Lin):
        if isinstance(a, (Ptr, PtrInt, FnPtr)) or isinstance(b, (Ptr, PtrInt, FnPtr)):
            return False
        return Lin.of(a).same(Lin.of(b))
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same_val(x, y) for x, y in zip(a, b))
    if isinstance(b, (Ptr, FnPtr, PtrInt)):
        return False
    return a.eq(b)


def insval(v, idx, x):
    v = list(v)
    if len(idx) == 1:
        v[idx[0]] = x
    else:
        v[idx[0]] = insval(v[idx[0]], idx[1:], x)
    return v


def short(d):
    i = d.find("(")
    return d[:i] if i > 0 else d


def cmp(pred, x, y):
    return {"eq": lambda: x == y, "ne": lambda: x != y, "ult": lambda: z3.ULT(x, y), "ule": lambda: z3.ULE(x, y),
            "ugt": lambda: z3.UGT(x, y), "uge": lambda: z3.UGE(x, y), "slt": lambda: x < y, "sle": lambda: x <= y,
            "sgt": lambda: x > y, "sge": lambda: x >= y}[pred]()


ARITH = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr"}


def _throw(what):
    def h(ex, st, args, ins):
        return [Outcome("throw", st, None, what)]
    return h


def _new(ex, st, args, ins):
    n = args[0]
    c = Lin.of(n).const()
    if c is not None and c <= 65536:
        return [(st, ex.new_rec(st, "heap%s" % ins.get("ln"), c))]
    raise Unsupported("operator new of symbolic size at line %s" % ins.get("ln"))


def _noop(ex, st, args, ins):
    return [(st, None)]


def _memcmp(ex, st, args, ins):
    raise Unsupported("memcmp")


BUILTINS = {
    "__cxa_allocate_exception": _throw("exception"),
    "__cxa_throw": _throw("exception"),
    "_Znwm": _new, "_Znam": _new,
    "_ZdlPv": _noop, "_ZdaPv": _noop, "_ZdlPvm": _noop, "_ZdaPvm": _noop,
    "_ZSt9terminatev": lambda ex, st, a, i: [],
    "__cxa_pure_virtual": lambda ex, st, a, i: [],
    "abort": lambda ex, st, a, i: [Outcome("throw", st, None, "abort")],
}
DEM_BUILTINS = [
    (re.compile(r"^std::__throw_"), _throw("std exception")),
    (re.compile(r"^__clang_call_terminate"), lambda ex, st, a, i: []),
]
