"""Interprocedural path-sensitive abstract interpreter over LLVM IR."""
import time, sys, os
from .lin import *
from .state import *
from . import ir, witness

class Limits:
    pass

class Alarmed(Exception): pass

def wi(x, w):
    """canonical (signed) constant"""
    x &= (1 << w) - 1
    return x - (1 << w) if w > 1 and x >> (w - 1) else x

class Engine:
    def __init__(s, mod, models, mode="wide", pins=None, maxunroll=3, detmax=3000, timeout=600, maxpaths=200000, kinds=None, opts=None):
        s.mod = mod; s.models = models; s.mode = mode; s.pins = pins
        s.maxunroll = maxunroll; s.detmax = (opts or {}).get("detmax", detmax); s.deadline = time.time() + timeout; s.maxpaths = maxpaths
        s.alarms = []; s.alarmkeys = {}; s.obligations = 0; s.paths = 0; s.completed = 0; s.steps = 0
        s.incomplete = {}; s.funcs_seen = set(); s.calls = 0; s.covered = 0; s.widened = 0; s.splits = 0
        s.visited = {}; s.work = []; s.checks = {}; s.opts = opts or {}
        s.dispatch = {n[3:]: getattr(s, n) for n in dir(s) if n.startswith("op_")}
        s.stop = False; s.onlykinds = kinds; s.infeasible = 0; s.undecided = {}; s.lastnote = None
        s.blocks_seen = set(); s.actctr = 0; s.cut = {}
        s.lo = {}; s.srctab = {}; s.marks = {}

    def unroll_of(s, F):
        if F.file and F.file in s.opts.get("ctxfiles", ()): return 10 ** 9
        return s.opts.get("unroll", {}).get(F.name, s.maxunroll)
    # ------------------------------------------------------------ setup
    def initial(s):
        st = State(s)
        for n, g in s.mod.globals.items():
            r = st.newreg(g["size"], "global", n)
            st.globs[n] = r.id
        for n, g in s.mod.globals.items():
            r = st.regs[st.globs[n]]
            r.ro = g["const"]
            if g["init"] is None:
                r.dflt = "zero"; continue
            cells = g["init"]
            if len(cells) == 1 and isinstance(cells[0][2], bytes) and cells[0][1] == g["size"]:
                S = Source("lit", cells[0][2]); 
                if g["const"]: r.dflt = ("src", S.id)
                else:
                    r.dflt = "zero"
                    for i, b in enumerate(cells[0][2]): r.cells[i] = (1, b)
                continue
            r.dflt = "zero"
            for off, sz, v in cells:
                if isinstance(v, bytes):
                    for i, b in enumerate(v): r.cells[off + i] = (1, b)
                elif v == "zero" or v == "undef": continue
                else: r.cells[off] = (sz, s.constval(st, v))
        return st

    def constval(s, st, v):
        if isinstance(v, int): return v
        t = v[0]
        if t == "f": return Fn(v[1])
        if t == "g": return Ptr(st.globs[v[1]], v[2])
        if t == "undef": return UNDEF
        if t == "agg":
            ty = v[2]
            return s.aggconst(st, v[1], ty)
        return UNDEF
    def aggconst(s, st, cells, ty):
        if ty.k in ("s",):
            out = []
            for fo, ft in ty.fields:
                sub_ = [(o - fo, z, x) for o, z, x in cells if fo <= o < fo + max(ft.size, 1)]
                if ft.k in ("s", "a"): out.append(s.aggconst(st, sub_, ft)); continue
                val = 0
                for o, z, x in sub_:
                    if o == 0 and x == "undef": val = UNDEF
                    elif o == 0 and x != "zero": val = s.constval(st, x) if not isinstance(x, bytes) else int.from_bytes(x, "little")
                if not sub_:
                    for o, z, x in cells:
                        if o <= fo < o + z: val = UNDEF if x == "undef" else 0
                out.append(val)
            return Agg(out)
        if ty.k == "V":
            b = b""
            for o, z, x in cells:
                if isinstance(x, bytes): b += x
                elif x == "zero": b += bytes(z)
                elif isinstance(x, int): b += (x & ((1 << 8 * z) - 1)).to_bytes(z, "little")
            return int.from_bytes(b, "little")
        return UNDEF

    def val(s, st, env, a):
        if type(a) is int: return env[a]
        v = a.v
        if type(v) is int: return v
        return s.constval(st, v)

    # ------------------------------------------------------------ reports
    def where(s, st):
        out = []
        for f in st.frames:
            B = f.fn.blocks[f.blk]
            I = B.ins[min(f.idx, len(B.ins) - 1)]
            line = I.line
            fl = I.file
            if not line:
                for J in B.ins[f.idx:]:
                    if J.line: line = J.line; fl = J.file; break
            out.append("%s (%s:%s)" % (f.fn.name, fl or f.fn.file, line))
        return out
    def conditional_alarm(s, st, kind, msg, cond):
        # feasible part of the state that violates
        if cond is not None:
            op, e = cond
            e = st.num.norm(e)
            s2 = st.clone()
            if not s2.assume(op, e): return
        else: s2 = st
        s.report(s2, kind, msg() if callable(msg) else msg, [cond[1]] if cond else [])
    def report(s, st, kind, msg, exprs=()):
        if s.onlykinds is not None and kind not in s.onlykinds: return
        lossy = st.lossy
        if not lossy:
            sy = set()
            for e in exprs:
                e = st.num.norm(e)
                if isinstance(e, Lin): sy |= {v for v, _ in e.t}
            if sy:
                _, sy = st.num.component(sy)
                for v in sy:
                    if SymTab.lossy[v] == 1: lossy = "approximated value " + SymTab.name[v]; break
        w = s.where(st)
        key = (kind, w[-1], msg if len(msg) < 60 else msg[:60], len(w) and w[0])
        if s.alarmkeys.get(key) == "definite": return
        if lossy and key in s.alarmkeys: return
        model = None
        if not lossy:
            model = witness.find(st.num)
            if model is None: lossy = "no concrete witness of the path was found"
        if lossy and key in s.alarmkeys: return
        s.alarmkeys[key] = "undecided" if lossy else "definite"
        s.alarms.append({"kind": kind, "msg": msg, "stack": w, "trace": st.tracelist(), "lossy": lossy, "choices": list(st.choices), "model": model})
        if sum(1 for a in s.alarms if not a["lossy"]) >= s.opts.get("maxalarms", 4): s.stop = True

    def giveup(s, st, why):
        s.incomplete[why] = s.incomplete.get(why, 0) + 1

    # ------------------------------------------------------------ main loop
    def run(s, entry):
        st = s.initial()
        F = s.mod.funcs.get(entry)
        if F is None or F.decl: raise RuntimeError("no entry " + entry)
        s.models.setup(s, st)
        s.push(st, F, [], None)
        s.work = [st]
        while s.work and not s.stop:
            if time.time() > s.deadline:
                s.giveup(None, "time budget"); break
            if s.paths > s.maxpaths:
                s.giveup(None, "path budget"); break
            st = s.work.pop()
            s.explore(st)
        return s

    def push(s, st, F, args, ret):
        if len(st.frames) > 120: raise Unsupported("call depth")
        f = Frame(); f.fn = F; f.blk = 0; f.idx = 0; f.env = {}; f.allocas = []; f.loops = {}; f.ret = ret; f.owner = st.tok
        f.act = len(st.frames)
        s.funcs_seen.add(F.name)
        for i, p in enumerate(F.params):
            v = args[i] if i < len(args) else UNDEF
            if F.byval[i]:
                r = st.newreg(F.byval[i], "stack", "argument of " + F.name)
                st.copy(Ptr(r.id, 0), v, F.byval[i])
                f.allocas.append(r.id)
                v = Ptr(r.id, 0)
            f.env[p] = v
        st.frames.append(f)

    def explore(s, st):
        s.paths += 1
        try:
            while True:
                f = st.frames[-1]
                if f.owner is not st.tok: f = st.top()
                I = f.fn.blocks[f.blk].ins[f.idx]
                s.steps += 1
                if st.log: st.log = []
                s.snap = None
                try:
                    r = s.dispatch[I.op](st, f, I)
                    if st.replay: st.replay = []
                    if r == "done":
                        s.completed += 1; return
                    if r == "covered":
                        s.covered += 1; return
                except Split as e:
                    base = s.snap or st
                    log = list(st.log)
                    s.splits += 1
                    out = []
                    for op, ex in e.alts:
                        n = base.clone()
                        if base is not st: n.num = st.num.clone(); n.lossy = st.lossy
                        n.nsplit += 1
                        n.nsym = max(st.nsym, n.nsym)
                        if not n.lossy and isinstance(ex, Lin):
                            for v, _ in st.num.norm(ex).t if isinstance(st.num.norm(ex), Lin) else ():
                                if SymTab.lossy[v] == 1: n.lossy = "decision on approximated value " + SymTab.name[v]; break
                        n.log = []; n.replay = list(log)
                        if n.assume(op, ex): out.append(n)
                    if not out: s.infeasible += 1; return
                    for n in out[1:]: s.work.append(n)
                    if len(out) > 1 and not s.infn(st): pass
                    st = out[0]
                except Choose as e:
                    base = s.snap or st
                    log = list(st.log)
                    s.splits += 1
                    outs = []
                    for k in range(e.n):
                        n = base.clone()
                        if base is not st: n.num = st.num.clone(); n.lossy = st.lossy
                        n.nsplit += 1; n.nsym = max(st.nsym, n.nsym); n.log = []; n.replay = log + [("c", k)]
                        n.choices = n.choices + ((e.label, k),)
                        outs.append(n)
                    for n in outs[1:][::-1]: s.work.append(n)
                    st = outs[0]
                if s.steps % 2048 == 0 and time.time() > s.deadline:
                    s.giveup(st, "time budget"); return
        except Dead as e:
            s.infeasible += 1
        except Alarm as e:
            if e.kind in s.opts.get("kinds", (e.kind,)): s.report(st, e.kind, e.msg)
        except Unsupported as e:
            s.giveup(st, "unsupported: %s at %s" % (e, s.where(st)[-1]))
        except Infeasible:
            s.infeasible += 1
    def infn(s, st): return True
    def marks_end(s, st):
        for m in st.ghost.get("marks", ()): s.marks[m] = s.marks.get(m, 0) + 1

    # ------------------------------------------------------------ control flow
    def goto(s, st, f, target):
        F = f.fn
        src = f.blk
        B = F.blocks[target]
        if B.phis:
            env = f.env
            vals = []
            for I in B.phis:
                for pb, a in I.args:
                    if pb == src: vals.append((I.dst, s.val(st, env, a))); break
            for d, v in vals: env[d] = v
        f.blk = target; f.idx = 0
        if B.head: return s.at_head(st, f, B, src)

    def op_br(s, st, f, I):
        if not I.args: return s.goto(st, f, I.x[0])
        c = s.val(st, f.env, I.args[0])
        return s.goto(st, f, I.x[0] if s.truth(st, c) else I.x[1])
    def truth(s, st, c):
        if isinstance(c, (bool,)): return c
        if isinstance(c, int): return bool(c & 1)
        if isinstance(c, Cond): return st.decide(c)
        if c is UNDEF: raise Alarm("mem", "branch on uninitialised value")
        if isinstance(c, Lin): return not st.decide_eq(st.u(c, 1))
        raise Unsupported("condition %r" % (c,))
    def op_switch(s, st, f, I):
        v = s.val(st, f.env, I.args[0])
        if v is UNDEF: raise Alarm("mem", "switch on uninitialised value")
        if isinstance(v, Cond): v = 1 if st.decide(v) else 0
        w = I.ty.w
        for k, b in I.x[1]:
            if isinstance(v, int):
                if (v - k) & ((1 << w) - 1) == 0: return s.goto(st, f, b)
            else:
                c = s.cmp_eq(st, v, k, w)
                if st.decide(c): return s.goto(st, f, b)
        return s.goto(st, f, I.x[0])
    def op_unreachable(s, st, f, I):
        raise Dead("unreachable")
    def op_ret(s, st, f, I):
        v = s.val(st, f.env, I.args[0]) if I.args else None
        for rid in f.allocas: st.kill(rid)
        st.frames.pop()
        if not st.frames: 
            s.models.at_exit(s, st)
            return "done"
        g = st.top()
        if g is not None:
            J = g.fn.blocks[g.blk].ins[g.idx]
            if f.ret is not None:
                cont = f.ret
                return cont(s, st, g, J, v)
            if J.ty.k != "v": g.env[J.dst] = v
            g.idx += 1

    def op_alloca(s, st, f, I):
        n = s.val(st, f.env, I.args[0])
        if not isinstance(n, int): 
            size = scale(n, I.x)
        else: size = n * I.x
        r = st.newreg(size, "stack", "local of " + f.fn.name)
        f.allocas.append(r.id)
        f.env[I.dst] = Ptr(r.id, 0)
        f.idx += 1

    # ------------------------------------------------------------ memory
    def op_load(s, st, f, I):
        p = s.val(st, f.env, I.args[0])
        f.env[I.dst] = s.loadty(st, p, I.ty)
        f.idx += 1
    def loadty(s, st, p, ty):
        if ty.k in ("i", "p", "V", "F"):
            v = st.load(p, ty.size)
            if ty.k == "i" and isinstance(v, int) and not isinstance(v, bool): v = wi(v, ty.w)
            if ty.k == "p" and isinstance(v, Lin):
                pass
            return v
        if ty.k == "s":
            return Agg([s.loadty(st, s.padd(st, p, o), t) for o, t in ty.fields])
        if ty.k == "a":
            return Agg([s.loadty(st, s.padd(st, p, i * ty.elem.size), ty.elem) for i in range(ty.n)])
        raise Unsupported("load of %s" % ty.k)
    def op_store(s, st, f, I):
        v = s.val(st, f.env, I.args[0]); p = s.val(st, f.env, I.args[1])
        s.storety(st, p, I.ty, v)
        f.idx += 1
    def storety(s, st, p, ty, v):
        if isinstance(v, Agg):
            fs = ty.fields if ty.k == "s" else [(i * ty.elem.size, ty.elem) for i in range(ty.n)]
            for (o, t), x in zip(fs, v.v): s.storety(st, s.padd(st, p, o), t, x)
            return
        if v is UNDEF and ty.k in ("s", "a"):
            fs = ty.fields if ty.k == "s" else [(i * ty.elem.size, ty.elem) for i in range(ty.n)]
            for (o, t) in fs: s.storety(st, s.padd(st, p, o), t, UNDEF)
            return
        if isinstance(v, Cond): v = 1 if st.decide(v) else 0
        st.store(p, ty.size, v)
    def padd(s, st, p, o):
        if isinstance(o, int) and o == 0: return p
        if isinstance(p, Ptr):
            no = add(p.o, o)
            return Ptr(p.r, st.num.norm(no) if isinstance(no, Lin) else no, p.g)
        if isinstance(p, (int, Lin)): return add(p, o)
        if p is UNDEF: raise Alarm("mem", "arithmetic on uninitialised pointer")
        if isinstance(p, Fn): raise Unsupported("function pointer arithmetic")
        raise Unsupported("padd %r" % (p,))
    def op_gep(s, st, f, I):
        env = f.env
        p = s.val(st, env, I.args[0])
        off, var = I.x
        for a, stride, w in var:
            i = s.val(st, env, a)
            if isinstance(i, Cond): i = 1 if st.decide(i) else 0
            if i is UNDEF: raise Alarm("mem", "uninitialised index")
            if isinstance(i, Ptr):
                # integer holding a pointer (e.g. NULL + (char*)p)
                if p == 0 and stride == 1: p = i; continue
                raise Unsupported("pointer as index")
            if isinstance(i, Lin): i = st.sg(i, w)
            off = add(off, scale(i, stride))
        f.env[I.dst] = s.padd(st, p, off)
        f.idx += 1

    # ------------------------------------------------------------ integer ops
    def intval(s, st, v, w):
        if isinstance(v, (int, Lin)): return v
        if isinstance(v, Cond): return 1 if st.decide(v) else 0
        if v is UNDEF: raise Alarm("mem", "use of uninitialised value")
        if isinstance(v, Ptr):
            a = st.term(("addr", v.r), (), 4096, (1 << 47) - 1, lossy=True)
            return add(a, v.o)
        if isinstance(v, Fn): return st.term(("fnaddr", v.n), (), 4096, (1 << 47) - 1, lossy=True)
        raise Unsupported("int %r" % (v,))
    def setint(s, f, I, v):
        if isinstance(v, int): v = wi(v, I.ty.w)
        f.env[I.dst] = v
        f.idx += 1
    def op_add(s, st, f, I):
        a = s.val(st, f.env, I.args[0]); b = s.val(st, f.env, I.args[1])
        if type(a) is int and type(b) is int: return s.setint(f, I, a + b)
        if isinstance(a, Ptr) and isinstance(b, (int, Lin)): f.env[I.dst] = s.padd(st, a, st.sg(b, 64)); f.idx += 1; return
        if isinstance(b, Ptr) and isinstance(a, (int, Lin)): f.env[I.dst] = s.padd(st, b, st.sg(a, 64)); f.idx += 1; return
        w = I.ty.w
        if w == 1: return s.bitop(st, f, I, "xor", a, b)
        s.setint(f, I, s.small(st, add(s.intval(st, a, w), s.intval(st, b, w)), w))
    def small(s, st, e, w):
        """keep representatives from drifting"""
        if isinstance(e, Lin) and len(e.t) > 12:
            e = st.num.norm(e)
        return e
    def op_sub(s, st, f, I):
        a = s.val(st, f.env, I.args[0]); b = s.val(st, f.env, I.args[1])
        if type(a) is int and type(b) is int: return s.setint(f, I, a - b)
        if isinstance(a, Ptr):
            if isinstance(b, Ptr):
                if a.r == b.r: return s.setint(f, I, st.num.norm(sub(a.o, b.o)) if isinstance(sub(a.o, b.o), Lin) else sub(a.o, b.o))
            elif isinstance(b, (int, Lin)):
                f.env[I.dst] = s.padd(st, a, neg(st.sg(b, 64))); f.idx += 1; return
        w = I.ty.w
        if w == 1: return s.bitop(st, f, I, "xor", a, b)
        s.setint(f, I, s.small(st, sub(s.intval(st, a, w), s.intval(st, b, w)), w))
    def op_mul(s, st, f, I):
        w = I.ty.w
        a = s.intval(st, s.val(st, f.env, I.args[0]), w); b = s.intval(st, s.val(st, f.env, I.args[1]), w)
        if type(a) is int: return s.setint(f, I, scale(b, a))
        if type(b) is int: return s.setint(f, I, scale(a, b))
        a = st.num.norm(a); b = st.num.norm(b)
        if type(a) is int or type(b) is int: return s.setint(f, I, scale(b, a) if type(a) is int else scale(a, b))
        a = st.u(a, w); b = st.u(b, w)
        if type(a) is int or type(b) is int: return s.setint(f, I, scale(b, a) if type(a) is int else scale(a, b))
        la, ha = st.num.rng(a); lb, hb = st.num.rng(b)
        if hash(a) > hash(b): a, b = b, a; la, ha, lb, hb = lb, hb, la, ha
        if ha * hb >= 1 << w:
            return s.setint(f, I, st.term(("mulw", w), (a, b), 0, (1 << w) - 1, lossy=2))
        def init(r):
            if la >= 1: st.num.assume_ge(sub(r, b))
            if lb >= 1: st.num.assume_ge(sub(r, a))
        s.setint(f, I, st.term(("mul",), (a, b), la * lb, ha * hb, lossy=2, init=init))
    def op_udiv(s, st, f, I): s.divop(st, f, I, 0)
    def op_urem(s, st, f, I): s.divop(st, f, I, 1)
    def divop(s, st, f, I, which):
        w = I.ty.w
        a = s.intval(st, s.val(st, f.env, I.args[0]), w); b = s.intval(st, s.val(st, f.env, I.args[1]), w)
        a = st.u(a, w); b = st.u(b, w)
        if type(b) is not int and st.decide_eq(b): b = 0
        if b == 0: raise Alarm("abort", "division by zero")
        if type(b) is int:
            r = st.divmod_const(a, b)[which]
        elif type(a) is int and a == 0: r = 0
        else:
            la, ha = st.num.bounds(a); lb, hb = st.num.bounds(b)
            if which == 0: r = st.term(("udiv",), (a, b), 0, ha, lossy=2)
            else: r = st.term(("urem",), (a, b), 0, min(ha, hb - 1), lossy=2)
        s.setint(f, I, r)
    def op_sdiv(s, st, f, I): s.sdivop(st, f, I, 0)
    def op_srem(s, st, f, I): s.sdivop(st, f, I, 1)
    def sdivop(s, st, f, I, which):
        w = I.ty.w
        a = s.intval(st, s.val(st, f.env, I.args[0]), w); b = s.intval(st, s.val(st, f.env, I.args[1]), w)
        a = st.sg(a, w); b = st.sg(b, w)
        if type(b) is not int: raise Unsupported("signed division by a variable")
        if b == 0: raise Alarm("abort", "division by zero")
        na = nb = False
        if b < 0: nb = True; b = -b
        if not st.decide_ge(a): na = True; a = neg(a)
        q, r = st.divmod_const(a, b)
        v = (neg(q) if na != nb else q) if which == 0 else (neg(r) if na else r)
        s.setint(f, I, v)
    def op_shl(s, st, f, I):
        w = I.ty.w
        a = s.intval(st, s.val(st, f.env, I.args[0]), w); b = s.intval(st, s.val(st, f.env, I.args[1]), w)
        if type(b) is not int: b = st.pickvalue(st.u(b, w), *s.clip(st, b, 0, w - 1))
        r = scale(a, 1 << b)
        if isinstance(r, Lin):
            l, h = st.num.bounds(r)
            if h >= 4 << w: # only the low bits matter
                au = st.u(a, w)
                if isinstance(au, Lin):
                    _, au = st.divmod_const(au, 1 << (w - b))
                r = scale(au, 1 << b)
        s.setint(f, I, r)
    def clip(s, st, e, lo, hi):
        l, h = st.num.bounds(e)
        return max(l, lo), min(h, hi)
    def op_lshr(s, st, f, I):
        w = I.ty.w
        a = s.intval(st, s.val(st, f.env, I.args[0]), w); b = s.intval(st, s.val(st, f.env, I.args[1]), w)
        if type(b) is not int: b = st.pickvalue(st.u(b, w), *s.clip(st, b, 0, w - 1))
        a = st.u(a, w)
        s.setint(f, I, st.divmod_const(a, 1 << b)[0])
    def op_ashr(s, st, f, I):
        w = I.ty.w
        a = s.intval(st, s.val(st, f.env, I.args[0]), w); b = s.intval(st, s.val(st, f.env, I.args[1]), w)
        if type(b) is not int: raise Unsupported("variable ashr")
        a = st.sg(a, w)
        H = 1 << (w - 1)
        q, _ = st.divmod_const(add(a, H), 1 << b)
        s.setint(f, I, sub(q, H >> b))
    def op_and(s, st, f, I): s.bitop(st, f, I, "and", s.val(st, f.env, I.args[0]), s.val(st, f.env, I.args[1]))
    def op_or(s, st, f, I): s.bitop(st, f, I, "or", s.val(st, f.env, I.args[0]), s.val(st, f.env, I.args[1]))
    def op_xor(s, st, f, I): s.bitop(st, f, I, "xor", s.val(st, f.env, I.args[0]), s.val(st, f.env, I.args[1]))
    def tocond(s, st, v):
        if isinstance(v, Cond) or isinstance(v, bool): return v
        if isinstance(v, int): return bool(v & 1)
        if v is UNDEF: raise Alarm("mem", "use of uninitialised condition")
        if isinstance(v, Lin): return Cond("ne", st.u(v, 1))
        raise Unsupported("cond %r" % (v,))
    def bitop(s, st, f, I, op, a, b):
        w = I.ty.w
        if I.ty.k == "V":
            if isinstance(a, int) and isinstance(b, int): r = {"and": a & b, "or": a | b, "xor": a ^ b}[op]
            else: r = st.fresh("vec", 0, (1 << w) - 1, True)
            f.env[I.dst] = r; f.idx += 1; return
        if w == 1:
            a = s.tocond(st, a); b = s.tocond(st, b)
            if op == "and":
                r = False if a is False or b is False else b if a is True else a if b is True else Cond("and", a, b)
            elif op == "or":
                r = True if a is True or b is True else b if a is False else a if b is False else Cond("or", a, b)
            else:
                if isinstance(b, bool): r = cnot(a) if b else a
                elif isinstance(a, bool): r = cnot(b) if a else b
                else: r = st.decide(a) != st.decide(b)
            f.env[I.dst] = r; f.idx += 1; return
        if (isinstance(a, Ptr) and b is not UNDEF) or (isinstance(b, Ptr) and a is not UNDEF):
            if isinstance(a, Ptr) and isinstance(b, int) and op in ("and",):
                pass
        if a is UNDEF and op == "and" and isinstance(b, int) and b == 0: return s.setint(f, I, 0)
        a = s.intval(st, a, w); b = s.intval(st, b, w)
        if type(a) is int and type(b) is int:
            return s.setint(f, I, a & b if op == "and" else a | b if op == "or" else a ^ b)
        a = st.u(a, w); b = st.u(b, w)
        s.setint(f, I, s.bit2(st, op, a, b, w))
    def bit2(s, st, op, a, b, w):
        if type(a) is int and type(b) is int:
            return a & b if op == "and" else a | b if op == "or" else a ^ b
        if type(a) is int: a, b = b, a
        N = st.num
        if op == "or" and (SMEAR or type(b) is not int):
            r = s.smear(st, a, b)
            if r is not None: return r
        if type(b) is int:
            if b and op != "and" and N.bounds(a)[1] >= b & -b and N.implies(sub((b & -b) - 1, a)): return add(a, b)
            x = s.maskand(st, a, b, w)
            if op == "and": return x
            if op == "or": return sub(add(a, b), x)
            return sub(add(a, b), scale(x, 2))
        if a == b: return a if op in ("and", "or") else 0
        la, ha = N.bounds(a); lb, hb = N.bounds(b)
        for (x, l, h, y) in ((a, la, ha, b), (b, lb, hb, a)):
            if h - l <= 1:
                v = st.pickvalue(x, l, h)
                return s.bit2(st, op, v, y, w)
        # disjoint by alignment
        for x, y, hy in ((a, b, hb), (b, a, ha)):
            g = x.k
            from math import gcd
            for _, c in x.t: g = gcd(g, c)
            lowbit = g & -g if g else 0
            if lowbit and hy < lowbit:
                return add(x, y) if op in ("or", "xor") else 0
        top = 1 << max(ha, hb).bit_length()
        if hash(a) > hash(b): a, b = b, a
        if op == "or":
            def init(r):
                N.assume_ge(sub(r, a)); N.assume_ge(sub(r, b)); N.assume_ge(sub(add(a, b), r))
            return st.term(("or",), (a, b), max(la, lb), top - 1, lossy=2, init=init)
        if op == "and":
            def init(r):
                N.assume_ge(sub(a, r)); N.assume_ge(sub(b, r))
            return st.term(("and",), (a, b), 0, min(ha, hb), lossy=2, init=init)
        def init(r): N.assume_ge(sub(add(a, b), r))
        return st.term(("xor",), (a, b), 0, top - 1, lossy=2, init=init)
    def smear(s, st, a, b):
        """x | x >> j where the leading bits of x are known to be ones (rounding up to a power of two)"""
        N = st.num
        def info(x):
            return SMEAR.get(x.t[0][0]) if isinstance(x, Lin) and len(x.t) == 1 and x.k == 0 and x.t[0][1] == 1 else None
        if type(b) is int:
            i = info(a)
            if i is None: return None
            k, m, x0 = i
            low = (1 << (k + 1 - m)) - 1
            return (2 << k) - 1 if b < (2 << k) and b & low == low else None
        for x, y in ((a, b), (b, a)):
            j = None
            for n in (1, 2, 4, 8, 16, 32):
                for arg, v in N.terms.get(("div", 1 << n), ()):
                    if N.norm(sym(v)) == y and (N.norm(arg[0]) if isinstance(arg[0], Lin) else arg[0]) == x: j = n; break
                if j: break
                d = N.norm(sub(x, scale(y, 1 << n)))
                if isinstance(d, int) and 0 <= d < 1 << n: j = n; break
            if j is None: continue
            i = info(x)
            if i is None:
                l, h = N.bounds(x)
                while h > 0 and N.implies(sub((1 << (h.bit_length() - 1)) - 1, x)): h = (1 << (h.bit_length() - 1)) - 1
                if h > 0:
                    for q in range(h.bit_length() - 1, max(-1, h.bit_length() - 5), -1):
                        if l >= 1 << q: break
                        if N.implies(sub(x, 1 << q)): l = 1 << q; break
                if l < 1 or h.bit_length() - l.bit_length() > 2: return None
                while l.bit_length() < h.bit_length():
                    p = 1 << (h.bit_length() - 1)
                    if st.decide_ge(sub(x, p)): l = p
                    else: h = p - 1
                i = (h.bit_length() - 1, 1, x)
            k, m, x0 = i
            if m < j: return None
            m += j
            if m >= k + 1: return (2 << k) - 1
            r = st.term(("smear", k, m), (x0,), (2 << k) - (1 << (k + 1 - m)), (2 << k) - 1, lossy=2)
            if isinstance(r, Lin) and len(r.t) == 1 and r.k == 0 and r.t[0][1] == 1: SMEAR[r.t[0][0]] = (k, m, x0)
            return r
        return None
    def maskand(s, st, a, m, w):
        """a & m for constant m, exact"""
        m &= (1 << w) - 1
        if m == 0: return 0
        l, h = st.num.bounds(a)
        width = max(1, h.bit_length())
        m &= (1 << width) - 1
        if m == 0: return 0
        if m == (1 << width) - 1: return a
        # complement shorter?
        runs = []
        i = 0
        while i < width:
            if m >> i & 1:
                j = i
                while j < width and m >> j & 1: j += 1
                runs.append((i, j)); i = j
            else: i += 1
        out = 0
        for i, j in runs:
            x = a
            hi = None
            if j < width:
                _, x = st.divmod_const(x, 1 << j)
            if i > 0:
                _, r = st.divmod_const(x, 1 << i) if isinstance(x, Lin) else (0, x % (1 << i))
                x = sub(x, r)
            out = add(out, x)
        return out
    # ------------------------------------------------------------ casts
    def op_trunc(s, st, f, I):
        v = s.val(st, f.env, I.args[0]); w = I.ty.w
        if v is UNDEF: f.env[I.dst] = UNDEF; f.idx += 1; return
        if isinstance(v, Cond): v = 1 if st.decide(v) else 0
        if isinstance(v, (Ptr, Fn)): v = s.intval(st, v, 64)
        if w == 1:
            if isinstance(v, Lin):
                _, r = st.divmod_const(st.u(v, I.x.w), 2)
                v = Cond("ne", r) if isinstance(r, Lin) else bool(r)
            else: v = bool(v & 1)
            f.env[I.dst] = v; f.idx += 1; return
        if isinstance(v, Lin):
            l, h = st.num.bounds(v)
            if h >= 4 << w or l <= -(4 << w):
                v = st.u(v, I.x.w)
                if isinstance(v, Lin):
                    if w == 8 and False: pass
                    _, v = st.divmod_const(v, 1 << w)
        s.setint(f, I, v)
    def op_zext(s, st, f, I):
        v = s.val(st, f.env, I.args[0])
        if v is UNDEF: f.env[I.dst] = UNDEF; f.idx += 1; return
        if isinstance(v, (Cond, bool)): v = 1 if s.truth(st, v) else 0
        elif I.x.w == 1: v = v & 1 if isinstance(v, int) else v
        else: v = st.u(v, I.x.w)
        s.setint(f, I, v)
    def op_sext(s, st, f, I):
        v = s.val(st, f.env, I.args[0])
        if v is UNDEF: f.env[I.dst] = UNDEF; f.idx += 1; return
        if isinstance(v, (Cond, bool)): v = -1 if s.truth(st, v) else 0
        else: v = st.sg(v, I.x.w)
        s.setint(f, I, v)
    def op_ptrtoint(s, st, f, I):
        v = s.val(st, f.env, I.args[0])
        if I.ty.w != 64 and isinstance(v, Ptr): v = s.intval(st, v, 64)
        f.env[I.dst] = v; f.idx += 1
    def op_inttoptr(s, st, f, I): f.env[I.dst] = s.val(st, f.env, I.args[0]); f.idx += 1
    op_bitcast = op_inttoptr
    op_freeze = op_inttoptr
    def op_select(s, st, f, I):
        c = s.val(st, f.env, I.args[0])
        f.env[I.dst] = s.val(st, f.env, I.args[1] if s.truth(st, c) else I.args[2]); f.idx += 1
    def op_extractvalue(s, st, f, I):
        v = s.val(st, f.env, I.args[0])
        for i in I.x:
            if v is UNDEF: break
            v = v.v[i]
        f.env[I.dst] = v; f.idx += 1
    def op_insertvalue(s, st, f, I):
        a = s.val(st, f.env, I.args[0]); v = s.val(st, f.env, I.args[1])
        f.env[I.dst] = s.insv(a, I.x, v, I.ty); f.idx += 1
    def insv(s, a, ix, v, ty):
        n = len(ty.fields) if ty.k == "s" else ty.n
        l = list(a.v) if isinstance(a, Agg) else [UNDEF] * n
        if len(ix) == 1: l[ix[0]] = v
        else: l[ix[0]] = s.insv(l[ix[0]], ix[1:], v, ty.fields[ix[0]][1] if ty.k == "s" else ty.elem)
        return Agg(l)
    # ------------------------------------------------------------ comparisons
    def op_icmp(s, st, f, I):
        a = s.val(st, f.env, I.args[0]); b = s.val(st, f.env, I.args[1])
        p = I.x; w = I.ty.w
        if I.ty.k == "V": raise Unsupported("vector compare")
        f.env[I.dst] = s.icmp(st, p, a, b, w)
        f.idx += 1
    def icmp(s, st, p, a, b, w):
        if a is UNDEF or b is UNDEF: raise Alarm("mem", "comparison of uninitialised value")
        if isinstance(a, (Cond, bool)) or isinstance(b, (Cond, bool)):
            if w == 1:
                x, y = s.tocond(st, a), s.tocond(st, b)
                if isinstance(x, bool): x, y = y, x
                if isinstance(y, bool):
                    if p == "eq": return x if y else cnot(x)
                    if p == "ne": return cnot(x) if y else x
            a = s.intval(st, a, w); b = s.intval(st, b, w)
        if type(a) is int and type(b) is int:
            M = (1 << w) - 1
            if p[0] == "s" and p != "slt" or p == "slt":
                if p[0] == "s": a = wi(a, w); b = wi(b, w)
            if p[0] == "u": a &= M; b &= M
            if p == "eq": return (a - b) & M == 0
            if p == "ne": return (a - b) & M != 0
            return {"gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b}[p[1:]]
        if isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
            return s.pcmp(st, p, a, b)
        if p == "eq": return s.cmp_eq(st, a, b, w)
        if p == "ne": 
            return cnot(s.cmp_eq(st, a, b, w))
        if p[0] == "u": a = st.u(a, w); b = st.u(b, w)
        else: a = st.sg(a, w); b = st.sg(b, w)
        q = p[1:]
        if q == "gt": e = sub(sub(a, b), 1)
        elif q == "ge": e = sub(a, b)
        elif q == "lt": e = sub(sub(b, a), 1)
        else: e = sub(b, a)
        if isinstance(e, int): return e >= 0
        return Cond("ge", e)
    def cmp_eq(s, st, a, b, w):
        if isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)): return s.pcmp(st, "eq", a, b)
        d = sub(a, b)
        M = 1 << w
        if isinstance(d, int): return d % M == 0
        d = st.num.norm(d)
        if isinstance(d, int): return d % M == 0
        l, h = st.num.rng(d)
        if l > -M and h < M:
            if l > 0 or h < 0: return False
            return Cond("eq", d)
        k0 = -((-l) // M); k1 = h // M     # multiples of M in [l,h]
        if k0 > k1: return False
        if k0 == k1: return Cond("eq", sub(d, k0 * M))
        a = st.u(a, w); b = st.u(b, w)
        d = sub(a, b)
        if isinstance(d, int): return d == 0
        return Cond("eq", d)
    def pcmp(s, st, p, a, b):
        if isinstance(a, Fn) or isinstance(b, Fn):
            same = a == b
            if p == "eq": return same
            if p == "ne": return not same
            raise Unsupported("function pointer ordering")
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.r == b.r and a.g == b.g:
                d = sub(a.o, b.o)
                if p == "eq": return d == 0 if isinstance(d, int) else Cond("eq", d)
                if p == "ne": return d != 0 if isinstance(d, int) else Cond("ne", d)
                q = p[1:]
                e = {"gt": sub(d, 1), "ge": d, "lt": sub(-1, d), "le": neg(d)}[q]
                return e >= 0 if isinstance(e, int) else Cond("ge", e)
            if p == "eq": return False
            if p == "ne": return True
            st.lossy = st.lossy or "ordering of unrelated pointers"
            return bool(st.choose(2, "order of unrelated pointers"))
        # pointer vs integer
        if isinstance(a, Ptr): x = 1
        else: x = -1
        if p == "eq": return False
        if p == "ne": return True
        q = p[1:]
        other = b if x == 1 else a
        if isinstance(other, int) and (0 <= other < 4096):
            return (q in ("gt", "ge")) if x == 1 else (q in ("lt", "le"))
        if isinstance(other, int) and other < 0:
            return (q in ("lt", "le")) if x == 1 else (q in ("gt", "ge"))
        st.lossy = st.lossy or "ordering of unrelated pointers"
        return bool(st.choose(2, "order of unrelated pointers"))

    # ------------------------------------------------------------ vectors
    def op_extractelement(s, st, f, I):
        raise Unsupported("vector")
    op_insertelement = op_shufflevector = op_extractelement
    def op_fcmp(s, st, f, I): raise Unsupported("floating point")
    op_fneg = op_fcmp
    def op_fence(s, st, f, I): f.idx += 1
    def op_atomicrmw(s, st, f, I): raise Unsupported("atomic")
    op_cmpxchg = op_va_arg = op_invoke = op_atomicrmw

    # ------------------------------------------------------------ calls
    def op_call(s, st, f, I):
        callee = s.val(st, f.env, I.x[0]) if not (isinstance(I.x[0], Const_) and isinstance(I.x[0].v, tuple) and I.x[0].v[0] == "asm") else None
        if callee is None:
            return s.models.asm(s, st, f, I)
        if not isinstance(callee, Fn):
            if callee is UNDEF: raise Alarm("mem", "call through uninitialised function pointer")
            if isinstance(callee, int): raise Alarm("mem", "call through null function pointer")
            raise Alarm("mem", "call through invalid function pointer %r" % (callee,))
        n = callee.n
        F = s.mod.funcs.get(n)
        args = [s.val(st, f.env, a) for a in I.args]
        s.calls += 1
        m = s.models.get(n)
        if m is not None:
            if not m.pure: s.snap = st.clone()
            r = m.fn(s, st, f, I, args)
            if r is PUSHED: return
            g = st.top()
            if I.ty.k != "v": g.env[I.dst] = r
            g.idx += 1
            return
        if F is None or F.decl:
            raise Unsupported("call of unmodelled function " + n)
        if F.vararg: raise Unsupported("varargs function " + n)
        for i, bv in enumerate(I.x[1]):
            pass
        s.snap = st.clone() if any(F.byval) else None
        s.push(st, F, args, None)

    # ------------------------------------------------------------ loop heads
    def at_head(s, st, f, B, src):
        from . import cover
        return cover.at_head(s, st, f, B, src)

SMEAR = {}
class _Pushed: pass
PUSHED = _Pushed()
Const_ = ir.Const
