"""Contract framework: module building, contract registry, worker processes."""
import os, sys, time, subprocess, hashlib, json, traceback, multiprocessing as mp, re, tempfile, shutil
import z3
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, HERE)
from vc import *
import vc

PASSES = "sroa,early-cse,simplifycfg,loop-simplify"


def tool():
    """the IR dumper; built by setup_cmd, or here when missing"""
    b = os.path.join(VERIF, ".build")
    os.makedirs(b, exist_ok=True)
    src = os.path.join(HERE, "irdump.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:12]
    exe = os.path.join(b, "irdump-" + h)
    if not os.path.exists(exe):
        t = exe + ".tmp%d" % os.getpid()
        subprocess.run(["g++", "-std=c++17", "-O1", "-fno-exceptions", "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS",
                        "-D__STDC_LIMIT_MACROS", "-I/usr/lib/llvm-18/include", src, "-o", t, "-L/usr/lib/llvm-18/lib", "-lLLVM-18"],
                       check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        os.rename(t, exe)
    return exe


INC = ["-I" + REPO + "/include", "-I/usr/include/rapidxml", "-I" + VERIF + "/drivers/stubs", "-I" + REPO + "/src"]


def build_module(driver, out, defs=()):
    """clang -> LLVM IR of the real sources (through a driver that only #includes them and
    instantiates templates) -> SSA -> JSON"""
    src = os.path.join(VERIF, "drivers", driver)
    ll = out + ".ll"
    cmd = ["clang++-18", "-std=c++17", "-O0", "-g", "-fstandalone-debug", "-Xclang", "-disable-O0-optnone", "-fno-access-control", "-DNDEBUG", "-w",
           "-DVP_REPO=" + REPO] + list(defs) + INC + ["-emit-llvm", "-S", src, "-o", ll]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise Unsupported("clang failed on %s: %s" % (driver, r.stderr[:2000]))
    subprocess.run(["opt-18", "-S", "-passes=" + PASSES, ll, "-o", out + ".o.ll"], check=True, capture_output=True)
    with open(out, "w") as f:
        subprocess.run([tool(), out + ".o.ll"], check=True, stdout=f)
    os.unlink(ll)
    os.unlink(out + ".o.ll")
    return out


CONTRACTS = {}     # property -> list of Contract


class ContractDef:
    def __init__(self, prop, name, driver, fn, budget, tier, fns):
        self.prop, self.name, self.driver, self.fn, self.budget, self.tier, self.fns = prop, name, driver, fn, budget, tier, fns


def contract(props, driver, budget=240, tier="quick", fns=None):
    def deco(f):
        for p in ([props] if isinstance(props, str) else props):
            CONTRACTS.setdefault(p, []).append(ContractDef(p, f.__name__, driver, f, budget, tier, fns or []))
        return f
    return deco


class Ctx:
    """what a contract function gets"""
    def __init__(self, mod, name, timeout=20000):
        self.m = mod
        self.ex = Exec(mod, timeout)
        self.ex.fnname = name
        self.name = name
        self.st = State()
        self.assumptions = []
        self.under = []           # functions executed as the subject of a contract

    def assume_note(self, s):
        if s not in self.assumptions:
            self.assumptions.append(s)

    def u32(self, n):
        v = z3.BitVec(n, 32)
        self.ex.inputs[n] = v
        return v

    def u64(self, n):
        v = z3.BitVec(n, 64)
        self.ex.inputs[n] = v
        return v

    def bvin(self, n, w):
        v = z3.BitVec(n, w)
        self.ex.inputs[n] = v
        return v

    def boolin(self, n):
        v = z3.Bool(n)
        self.ex.inputs[n] = v
        return v

    def find(self, pat):
        return self.m.find(pat)

    def rec(self, name, tname, st=None, ro=False):
        st = st or self.st
        return self.ex.new_rec(st, name, self.m.type(tname)["size"], ro=ro)

    def setf(self, p, tname, path, v, st=None):
        st = st or self.st
        o, s, ty = self.m.path(tname, path)
        if z3.is_expr(v) and z3.is_bool(v):
            v = tobv(v, 8)
        self.ex.rec_store(st, p.obj, st.mem[p.obj], p.off.const() + o, s, v, None) if not isinstance(p.obj, Abs) else self.ex.heap_store(st, p.plus(o), s, v)

    def getf(self, p, tname, path, st, ptr=False):
        o, s, ty = self.m.path(tname, path)
        v = self.ex.load_raw(st, p.plus(o), s, ptr, None)
        if ptr and not isinstance(v, (Ptr, FnPtr)):
            v = self.ex.bv_ptr(st, v)
        return v

    def setvec(self, p, tname, path, arrp, n, st=None):
        """std::vector member -> [arrp, arrp+n)"""
        st = st or self.st
        if path:
            o, s, ty = self.m.path(tname, path)
        else:
            o, s, ty = 0, 24, tname
        a = st.mem[arrp.obj]
        q = p.plus(o)
        self.ex.store_raw(st, q, 8, arrp, None)
        self.ex.store_raw(st, q.plus(8), 8, arrp.plus(Lin.of(n).scale(a.stride)), None)
        cap = fresh("cap", 64)
        st.assume(z3.UGE(cap, n))
        self.ex.store_raw(st, q.plus(16), 8, arrp.plus(Lin.of(n).scale(a.stride)), None)

    def arr(self, name, tname, n, cb=None, ro=False, st=None):
        return self.ex.new_arr(st or self.st, name, tname, n, cb, ro)

    def fsel(self, st, p, path_or_key, i):
        """read element field of array object through the logical view"""
        a = st.mem[p.obj]
        key = path_or_key if isinstance(path_or_key, tuple) else a.names[path_or_key]
        return a.f[key].sel(st, i)

    def run(self, fn, args, st=None):
        if fn not in self.m.fns:
            fn = self.m.find(fn)
        self.under.append(self.m.fns[fn]["dem"])
        return self.ex.run(fn, args, st or self.st)

    def prove(self, st, g, name, **kw):
        return self.ex.prove(st, g, name, **kw)

    def cover(self, st=None, name="precondition satisfiable"):
        self.ex.cover(st or self.st, name)


def z64(x):
    return z3.ZeroExt(64 - x.size(), x) if x.size() < 64 else x


def _worker(args):
    prop, name, modpath, budget, timeout = args
    cd = [c for c in CONTRACTS[prop] if c.name == name][0]
    t = time.time()
    res = {"contract": name, "obls": [], "error": None, "assumptions": [], "under": [], "inlined": [], "used": [], "paths": 0}
    k = None
    try:
        mod = Module(modpath)
        k = Ctx(mod, name, timeout)
        k.ex.deadline = time.time() + budget
        cd.fn(k)
    except Unsupported as e:
        res["error"] = "unsupported: %s" % e
        if os.environ.get("VC_DEBUG"):
            traceback.print_exc()
    except Exception as e:
        res["error"] = "internal: %s: %s" % (type(e).__name__, str(e)[:300])
        res["trace"] = traceback.format_exc()[-1500:]
        if os.environ.get("VC_DEBUG"):
            traceback.print_exc()
    if k is not None:
        res["obls"] = k.ex.obls
        res["assumptions"] = k.assumptions
        res["under"] = sorted(set(k.under))
        res["inlined"] = sorted(x for x in k.ex.inlined if x not in k.under)
        res["used"] = sorted(k.ex.used_contracts)
        res["paths"] = k.ex.paths
        res["solver_s"] = round(k.ex.sp.time, 2)
        res["queries"] = k.ex.sp.queries
    res["wall"] = round(time.time() - t, 2)
    return res


def run_contracts(prop, tier, scratch, only=None, jobs=8):
    defs = [c for c in CONTRACTS.get(prop, []) if (tier == "thorough" or c.tier == "quick") and (only is None or only in c.name)]
    mods = {}
    results = []
    drivers = sorted({d.driver for d in defs})

    def bm(d):
        try:
            return d, build_module(d, os.path.join(scratch, d + ".json"))
        except Unsupported as e:
            return d, e
        except Exception as e:
            return d, Unsupported("module build: %s" % e)
    from concurrent.futures import ThreadPoolExecutor
    tool()
    with ThreadPoolExecutor(8) as tp:
        for d, r in tp.map(bm, drivers):
            mods[d] = r
    todo = []
    for c in defs:
        if isinstance(mods[c.driver], Unsupported):
            results.append({"contract": c.name, "obls": [], "error": "unsupported: %s" % mods[c.driver], "assumptions": [], "under": [], "inlined": [], "used": [], "paths": 0, "wall": 0})
        else:
            todo.append((prop, c.name, mods[c.driver], c.budget, 20000 if tier == "quick" else 60000))
    if len(todo) == 1 or os.environ.get("VC_SEQ"):
        results += [_worker(t) for t in todo]
    elif todo:
        ctx = mp.get_context("fork")
        with ctx.Pool(min(jobs, len(todo)), maxtasksperchild=1) as pool:
            results += pool.map(_worker, todo, chunksize=1)
    return results
