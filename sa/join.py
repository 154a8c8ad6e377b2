"""Abstract interpretation with joins and widening, for code whose loops run over input of any length.
At every place of the library where paths meet (blocks with several predecessors, loop heads, returns) the
states are joined: values that differ become new symbols, affine relations between them are kept, and the
inequalities kept are those of a fixed family (and of the states met) which hold in both.  Families are finite
and only shrink, so the iteration ends.  Alarms of the iteration are alarms of the fixpoint's states."""
import time, heapq
from math import gcd
from .lin import *
from .state import *
from .engine import Engine
from . import ir

BIG = 1 << 64
STEPS = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 17, 31, 32, 33, 47, 57, 64, 91, 127, 128, 255, 256, 1000, 4095, 4096, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 62), (1 << 63) - 1, (1 << 63), (1 << 64) - 1]
LADDER = sorted(set(STEPS + [-x for x in STEPS]))
COARSE = [-(1 << 64), -(1 << 63), -(1 << 32), -(1 << 31), -65536, -256, -1, 0, 1]
TINY = [-1, 0, 1]
import bisect

def coeffs(e):
    g = 0
    for _, c in (e.t if isinstance(e, Lin) else ()): g = gcd(g, c)
    return g

class Acc:
    __slots__ = ("st", "key", "slots", "joins", "pend", "grown")

class JoinEngine(Engine):
    def __init__(s, *a, **k):
        super().__init__(*a, **k)
        s.rids = {}; s.accs = {}; s.heap = []; s.hn = 0; s.syms = {}; s.rpo = {}; s.livec = {}; s.joins = 0; s.subs = {}
        s.partmax = s.opts.get("partitions", 8)
    # region names are a function of where they were made, so that states of different paths compare
    def newrid(s, st, kind, label):
        base = (tuple((f.fn.name, f.blk, f.idx) for f in st.frames), kind)
        k = 0
        while True:
            key = base + (k,)
            r = s.rids.get(key)
            if r is None: r = s.rids[key] = -1 - len(s.rids)
            if r not in st.regs: return r
            k += 1
    def islib(s, F): return not (F.file and F.file in s.opts.get("ctxfiles", ()))
    def order(s, F):
        r = s.rpo.get(F.name)
        if r is None:
            out = []; seen = {0}; stk = [(0, iter(F.blocks[0].succ))]
            while stk:
                b, it = stk[-1]
                for x in it:
                    if x not in seen: seen.add(x); stk.append((x, iter(F.blocks[x].succ))); break
                else: out.append(b); stk.pop()
            r = {b: i for i, b in enumerate(reversed(out))}
            s.rpo[F.name] = r
        return r
    def run(s, entry):
        st = s.initial()
        st.num = ZNum()
        s.post = None; args = []
        body = entry.startswith("body:")
        F = s.mod.funcs.get(entry[5:] if body else entry)
        if F is None or F.decl: raise RuntimeError("no entry " + entry)
        s.models.setup(s, st)
        if body:
            from .contracts import BODIES
            args, s.post, own = BODIES[F.name][0](s, st)
        s.push(st, F, args, None)
        if body: st.frames[-1].allocas.extend(own)
        s.work = [st]
        while not s.stop:
            if time.time() > s.deadline: s.giveup(None, "time budget"); break
            if s.work: s.explore(s.work.pop()); continue
            if not s.heap: break
            _, _, a = heapq.heappop(s.heap)
            a.pend = False
            st = a.st.clone()
            st.ghost["@arrive"] = False
            s.work.append(st)
        return s
    # ------------------------------------------------------------ stepping
    def goto(s, st, f, target):
        F = f.fn
        src = f.blk; B = F.blocks[target]
        if not s.islib(F): return super().goto(st, f, target)
        if B.phis:
            vals = []
            for I in B.phis:
                for pb, a in I.args:
                    if pb == src: vals.append((I.dst, s.val(st, f.env, a))); break
            for d, v in vals: f.env[d] = v
        f.blk = target; f.idx = 0
        if len(set(B.pred)) > 1 or B.head: st.ghost["@arrive"] = True
    def op_ret(s, st, f, I):
        lib = s.islib(f.fn)
        if s.post and len(st.frames) == 1: s.post(st, s.val(st, f.env, I.args[0]))
        r = super().op_ret(st, f, I)
        if r is None and lib: st.ghost["@arrive"] = True
        return r
    def push(s, st, F, args, ret):
        super().push(st, F, args, ret)
    def explore(s, st):
        # joins happen between instructions
        s.paths += 1
        cur = st
        try:
            while True:
                if st.ghost.get("@arrive"):
                    try:
                        if s.settle(st): 
                            s.arrive(st); return
                    except Split as e:
                        out = []
                        for op, ex in e.alts:
                            n = st.clone(); n.log = []; n.replay = []
                            if n.assume(op, ex): out.append(n)
                        s.work.extend(out)
                        return
                f = st.frames[-1]
                if f.owner is not st.tok: f = st.top()
                I = f.fn.blocks[f.blk].ins[f.idx]
                s.steps += 1
                if st.log: st.log = []
                s.snap = None
                try:
                    r = s.dispatch[I.op](st, f, I)
                    if st.replay: st.replay = []
                    if r == "done": s.completed += 1; return
                    if r == "covered": return
                except Split as e:
                    base = s.snap or st
                    log = list(st.log); s.splits += 1; out = []
                    for op, ex in e.alts:
                        n = base.clone()
                        if base is not st: n.num = st.num.clone()
                        n.nsplit += 1; n.nsym = max(st.nsym, n.nsym); n.log = []; n.replay = list(log)
                        if n.assume(op, ex): out.append(n)
                    if not out: s.infeasible += 1; return
                    s.work.extend(out[1:]); st = out[0]
                except Choose as e:
                    base = s.snap or st
                    log = list(st.log); outs = []
                    for k in range(e.n):
                        n = base.clone()
                        if base is not st: n.num = st.num.clone()
                        n.nsplit += 1; n.nsym = max(st.nsym, n.nsym); n.log = []; n.replay = log + [("c", k)]
                        n.choices = n.choices + ((e.label, k),); outs.append(n)
                    s.work.extend(outs[1:]); st = outs[0]
                if s.steps % 256 == 0 and time.time() > s.deadline: s.giveup(st, "time budget"); return
        except Dead: s.infeasible += 1
        except Alarm as e:
            if e.kind in s.opts.get("kinds", (e.kind,)): s.report(st, e.kind, e.msg)
        except Unsupported as e: s.giveup(st, "unsupported: %s at %s" % (e, s.where(st)[-1]))
        except Infeasible: s.infeasible += 1
    def report(s, st, kind, msg, exprs=()):
        w = s.where(st)
        key = (kind, w[-1], msg[:40])
        if key in s.alarmkeys: return
        s.alarmkeys[key] = 1
        s.alarms.append({"kind": kind, "msg": msg, "stack": w, "trace": st.tracelist(), "lossy": None, "choices": list(st.choices), "model": None, "join": True})
    # ------------------------------------------------------------ liveness
    def live(s, F, blk, idx):
        k = (F.name, blk)
        L = s.livec.get(k)
        if L is None:
            B = F.blocks[blk]
            out = set()
            for x in B.succ:
                S = F.blocks[x]
                out |= S.livein - {i.dst for i in S.phis}
                for ph in S.phis:
                    for pb, v in ph.args:
                        if pb == blk and type(v) is int: out.add(v)
            L = [None] * (len(B.ins) + 1)
            cur = set(out); L[len(B.ins)] = frozenset(cur)
            for i in range(len(B.ins) - 1, -1, -1):
                I = B.ins[i]
                if I.dst is not None: cur.discard(I.dst)
                cur |= set(ir.regs_of(I))
                L[i] = frozenset(cur)
            s.livec[k] = L
        return L[idx]
    def settle(s, st):
        """remove dead values, decide live conditions"""
        top = len(st.frames) - 1
        for i, f in enumerate(st.frames):
            if f.owner is not st.tok: f = f.copy(st.tok); st.frames[i] = f
            # a suspended frame stands at its call: what is live after it
            lv = s.live(f.fn, f.blk, f.idx if i == top else f.idx + 1)
            f.loops = {}
            f.env = {k: v for k, v in f.env.items() if k in lv}
            for k, v in f.env.items():
                if isinstance(v, Cond): f.env[k] = st.decide(v)
        for r in list(st.regs.values()):
            if r.dflt == "any" and r.cells:
                r = st.wreg(r.id)
                nm = lambda v: st.num.norm(v) if isinstance(v, Lin) else Ptr(v.r, st.num.norm(v.o), v.g) if isinstance(v, Ptr) and isinstance(v.o, Lin) else v
                r.cells = {nm(o): (n, nm(v)) for o, (n, v) in r.cells.items() if not isinstance(v, (Cond, Agg))}
        s.bytefacts(st)
        N = st.num; keep = []
        for d in list(N.neqs):
            d = N.norm(d)
            if isinstance(d, int): continue
            g = 0
            for _, c in d.t: g = gcd(g, c)
            if d.k % g: continue
            d = Lin(tuple((v, c // g) for v, c in d.t), d.k // g)
            l, h = N.rng(d)
            if l > 0 or h < 0: continue
            for x in (d, neg(d)):
                if N.implies(x):
                    N._add(add(x, -1)); break
            else:
                if len(d.t) == 1: keep.append(d)
        N.neqs = keep
        st.ghost["@arrive"] = False
        st.trace = None if len(st.frames) > 1 else st.trace
        return s.islib(st.frames[-1].fn) or True
    def bytefacts(s, st):
        """characters of disjoint ranges are at different positions, the same position holds one character"""
        N = st.num
        for key, lst in list(N.terms.items()):
            if key[0] != "byte" or len(lst) < 2: continue
            L = [(N.norm(a[0]) if isinstance(a[0], Lin) else a[0], v, N.norm(sym(v))) for a, v in lst]
            for i in range(len(L)):
                for j in range(i):
                    d = sub(L[i][0], L[j][0])
                    d = N.norm(d) if isinstance(d, Lin) else d
                    x = sub(L[i][2], L[j][2])
                    if d == 0:
                        if x != 0 and not N.assume_eq(x): raise Infeasible()
                        continue
                    if isinstance(d, int): continue
                    if (x != 0) if isinstance(x, int) else N.implies_ne(x):
                        if not N.assume_ne(d): raise Infeasible()
    # ------------------------------------------------------------ slots
    def slots(s, st):
        out = []
        def flat(k, v):
            if isinstance(v, Agg):
                for i, x in enumerate(v.v): flat(k + (i,), x)
            else: out.append((k, v))
        for i, f in enumerate(st.frames):
            for r in sorted(f.env): flat(("e", i, r), f.env[r])
        for rid in sorted(st.regs):
            r = st.regs[rid]
            if r.kind == "global" and r.ro: continue
            if isinstance(r.size, Lin): out.append((("z", rid), r.size))
            if r.pieces is not None or r.dflt == "any": continue
            for o in sorted(r.cells): flat(("c", rid, o, r.cells[o][0]), r.cells[o][1])
        return out
    def shape(s, st, slots, strict):
        N = st.num; out = []
        own = {rid for f in st.frames if s.islib(f.fn) for rid in f.allocas} if strict == 1 else ()
        for k, v in slots:
            if isinstance(v, bool): v = int(v)
            if isinstance(v, Lin): v = N.norm(v)
            if type(v) is int:
                if strict == 2 or strict == 1 and (k[0] == "e" or v < 0 or v < 2 and k[1] in own):
                    out.append((k, ("i", v) if -20 <= v <= 20 else "neg" if v < 0 else "n"))
                else: out.append((k, "neg" if k[0] == "e" and v < 0 else "n"))
            elif isinstance(v, Lin): out.append((k, "neg" if k[0] == "e" and N.rng(v)[1] < 0 else "n"))
            elif isinstance(v, Ptr): out.append((k, ("p", v.r, v.g)))
            elif v is UNDEF: out.append((k, "u"))
            elif isinstance(v, Fn): out.append((k, ("f", v.n)))
            else: raise Unsupported("value %r at a join" % (v,))
        regs = []
        for rid in sorted(st.regs):
            r = st.regs[rid]
            if r.kind == "global" and r.ro: continue
            regs.append((rid, r.gen, r.dflt if not isinstance(r.dflt, tuple) else r.dflt, None if r.pieces is None else repr([(N.norm(a) if isinstance(a, Lin) else a, N.norm(b) if isinstance(b, Lin) else b, c) for a, b, c in r.pieces])))
        gh = tuple(sorted((repr(k), repr(v)) for k, v in st.ghost.items() if k not in ("@arrive", "marks")))
        return (tuple(out), tuple(regs), gh)
    # ------------------------------------------------------------ arrival
    def arrive(s, st):
        loc = tuple((f.fn.name, f.blk, f.idx) for f in st.frames)
        sl = s.slots(st)
        keys = [s.shape(st, sl, 2), s.shape(st, sl, 1), s.shape(st, sl, 0)]
        tab = s.accs.setdefault((loc, keys[2][1], keys[2][2]), {})
        sub = s.subs.setdefault((loc, keys[1]), set())
        # states are kept apart by the small constants they hold, as long as that gives few of them
        a = key = None
        for i, k in enumerate(keys):
            a = tab.get(k)
            if a is not None: break
            if i == 0 and len(sub) < s.opts.get("parts0", 1) and len(tab) < 3 * s.partmax or i == 1 and len(tab) < 3 * s.partmax or i == 2: key = k; break
        if a is None:
            a = Acc(); a.st = st; a.joins = 0; a.grown = 0; a.pend = False; a.key = (loc, key)
            tab[key] = a; sub.add(key)
            s.schedule(a); return
        s.joins += 1
        if s.joinin(a, st, sl): s.schedule(a)
    def schedule(s, a):
        if a.pend: return
        a.pend = True; s.hn += 1
        pr = tuple((s.order(f.fn).get(f.blk, 0), f.idx) for f in a.st.frames)
        heapq.heappush(s.heap, (pr, s.hn, a))
    def newsym(s, key, k=0):
        v = s.syms.get((key, k))
        if v is None: v = s.syms[(key, k)] = SymTab.new("any", -BIG, BIG, 1)
        return v
    def joinin(s, acc, B, slB):
        """acc.st := join of acc.st and B; True if it grew"""
        A = acc.st; NA, NB = A.num, B.num
        acc.joins += 1
        slA = s.slots(A)
        vb = dict(slB); dict_a = dict(slA)
        nrm = lambda N, v: N.norm(v) if isinstance(v, Lin) else int(v) if isinstance(v, bool) else v
        pairs = []
        same0 = set()
        for k, v in slA:
            w = vb[k]
            v0 = v.o if isinstance(v, Ptr) else v; w0 = w.o if isinstance(w, Ptr) else w
            if isinstance(v0, Lin) and isinstance(w0, Lin):
                v0 = nrm(NA, v0)
                if isinstance(v0, Lin) and v0 == nrm(NB, w0): same0 |= {u for u, _ in v0.t}
            if isinstance(v, Ptr): pairs.append((k, nrm(NA, v.o), nrm(NB, w.o)))
            elif v is UNDEF or isinstance(v, Fn): continue
            else: pairs.append((k, nrm(NA, v), nrm(NB, w)))
        # what was written last to objects that are not followed
        last = {}
        def opposite(o, cb):
            """the offset in B that corresponds to o in A: the same, or the same function of some value"""
            if o in cb and not (isinstance(o, Lin) and any(u not in same0 for u, _ in o.t)): return o, None
            for o2 in cb:
                g = gcd(coeffs(o), coeffs(o2))
                if g < 2: continue
                for k, a, b in ints:
                    c = sub(o, scale(a, g) if isinstance(a, Lin) else g * a)
                    if isinstance(c, int) and 0 <= c < g and sub(o2, scale(b, g) if isinstance(b, Lin) else g * b) == c: return o2, (k, g, c)
            return None, None
        ints = [x for x in pairs if not isinstance(dict_a.get(x[0]), Ptr)]
        for rid, ra in A.regs.items():
            if ra.dflt != "any": continue
            cb = B.regs[rid].cells
            for o, (w, v) in ra.cells.items():
                o2, how = opposite(o, cb)
                if o2 is None or cb[o2][0] != w: continue
                x = cb[o2][1]
                if v is x or v == x and not isinstance(v, (Lin, Ptr)): last[rid, o] = (w, v, how); continue
                if isinstance(v, Ptr) and isinstance(x, Ptr) and (v.r, v.g) == (x.r, x.g): pairs.append((("m", rid, o), nrm(NA, v.o), nrm(NB, x.o)))
                elif isinstance(v, (int, Lin)) and isinstance(x, (int, Lin)): pairs.append((("m", rid, o), nrm(NA, v), nrm(NB, x)))
                else: continue
                last[rid, o] = (w, v, how); dict_a[("m", rid, o)] = v
        # where slices of objects end: a pointer and a length that was computed from it
        nt = lambda e: len(e.t) if isinstance(e, Lin) else 0
        ps = [x for x in pairs if isinstance(dict_a.get(x[0]), Ptr)]
        der = []; seen = {(a, b) for _, a, b in ps}
        for k, a, b in ps:
            if isinstance(a, int) and isinstance(b, int): continue
            for k2, a2, b2 in pairs:
                if isinstance(dict_a[k2], Ptr) or max(nt(a2), nt(b2)) < 2: continue
                da, db = nrm(NA, add(a, a2)), nrm(NB, add(b, b2))
                if (nt(da) < nt(a2) or nt(db) < nt(b2)) and (da, db) not in seen:
                    seen.add((da, db)); der.append((("d", k, k2), da, db))
        rest = [x for x in pairs if not isinstance(dict_a[x[0]], Ptr)]
        pairs = ps + der + rest
        def step(e):
            g = 0
            for _, c in (e.t if isinstance(e, Lin) else ()): g = gcd(g, c)
            return gcd(g, e.k) if isinstance(e, Lin) else abs(e)
        basis = {}
        for k, a, b in pairs:
            if a == b and isinstance(a, Lin):
                for v, _ in a.t: basis[v] = (sym(v), sym(v))
        res = {}; newsyms = []
        els = [(sym(v), sym(v), sym(v)) for v in basis]
        kept = set(basis)
        def closed(d): return isinstance(d, int) or all(v in kept for v, _ in d.t)
        for k, a, b in pairs:
            if a == b and (isinstance(a, int) or all(v in basis and basis[v] == (sym(v), sym(v)) for v, _ in a.t)): res[k] = a; continue
            r = None
            for ra, rb, rr in els:
                for c in (1, -1):
                    da = sub(a, scale(ra, c)); db = sub(b, scale(rb, c))
                    da = nrm(NA, da); db = nrm(NB, db)
                    if da == db and closed(da): r = add(scale(rr, c), da); break
                if r is not None: break
            if r is None and len(els) <= 24:
                for i in range(len(els)):
                    for j in range(i):
                        for c, d in ((1, -1), (-1, 1), (1, 1), (-1, -1)):
                            da = sub(sub(a, scale(els[i][0], c)), scale(els[j][0], d)); db = sub(sub(b, scale(els[i][1], c)), scale(els[j][1], d))
                            da = nrm(NA, da); db = nrm(NB, db)
                            if da == db and closed(da): r = add(add(scale(els[i][2], c), scale(els[j][2], d)), da); break
                        if r is not None: break
                    if r is not None: break
            if r is None:
                g = 0
                for e in (a, b):
                    if isinstance(e, int): g = gcd(g, e)
                    else:
                        g = gcd(g, e.k)
                        for _, c in e.t: g = gcd(g, c)
                g = g or 1
                div = lambda e: e // g if isinstance(e, int) else Lin(tuple((v, c // g) for v, c in e.t), e.k // g)
                a2, b2 = div(a), div(b)
                n = 0
                v = s.newsym((acc.key, k), n)
                while v in basis: n += 1; v = s.newsym((acc.key, k), n)
                basis[v] = (a2, b2); newsyms.append(v)
                els.append((a, b, scale(sym(v), g)))
                r = scale(sym(v), g)
            res[k] = r
        def to(e, i):
            """a value of the join in terms of state i"""
            if isinstance(e, int): return e
            out = e.k
            for v, c in e.t: out = add(out, scale(basis[v][i], c))
            return nrm((NA, NB)[i], out)
        # inverse of the substitution for A and B where it is a renaming
        def inverse(i):
            inv = {}
            for v, p in basis.items():
                x = p[i]
                if isinstance(x, Lin) and len(x.t) == 1 and x.t[0][1] in (1, -1):
                    u, c = x.t[0]
                    if u not in inv or v == u: inv[u] = scale(sub(sym(v), x.k), c)     # u = c*(v - k)
            return inv
        invA = inverse(0); invB = inverse(1)
        def back(e, inv):
            out = e.k
            for v, c in e.t:
                x = inv.get(v)
                if x is None: return None
                out = add(out, scale(x, c))
            return out
        holds = lambda e: NA.implies(to(e, 0)) and NB.implies(to(e, 1))
        cand = {}; extra = []
        same = {v for v, p in basis.items() if p[0] == p[1] == sym(v)}
        def offer(e):
            if e is None or isinstance(e, int): return
            e = tighten(e)
            if diff(e) is None and any(v not in same for v, _ in e.t): return
            lp = Lin(e.t, 0)
            k = cand.get(lp)
            if k is None or e.k < k: cand[lp] = e.k
        def facts(N, inv):
            for e in N.ineqs:
                e = N.norm(e)
                if isinstance(e, Lin): offer(back(e, inv))
            for v in set(N.lo) | set(N.hi):
                e = N.norm(sym(v))
                if not isinstance(e, Lin): continue
                b = back(e, inv)
                if b is None: continue
                l, h = N.rng(e)
                if l > -BIG: offer(sub(b, l))
                if h < BIG: offer(sub(h, b))
            for v in inv:
                if v in N.lo or v in N.hi: continue
                e = N.norm(sym(v))
                if not isinstance(e, Lin): continue
                b = back(e, inv)
                if b is None: continue
                l, h = N.rng(e)
                if l > -BIG: offer(sub(b, l))
                if h < BIG: offer(sub(h, b))
        def low(N, e):
            """greatest bound found with e >= bound"""
            if isinstance(e, int): return e
            l = N.rng(e)[0]
            d = diff(e)
            if d is not None:
                y, x, k = d
                D = N.dist(y)
                if x in D: l = max(l, k - D[x])
            if d is None or any(v in N.zone()[1] for v, _ in e.t):
                for c in (16, 8, 1, 0, -1):
                    if c <= l: break
                    if N.implies(add(e, -c)): l = c; break
            return l
        facts(NA, invA)
        if acc.joins == 1: facts(NB, invB)
        # a pointer that moves on while what is left shrinks: together they stay within the object
        for k, a, b in ps:
            for k2, a2, b2 in rest:
                if k2[0] not in ("e", "c") or isinstance(res[k], int) or isinstance(res[k2], int) or gcd(step(a2), step(b2)) < 2 or a2 == b2 and acc.grown < 2: continue
                ends = [res[q] for q, _, _ in ps if q != k and dict_a[q].r == dict_a[k].r]
                z = A.regs.get(dict_a[k].r)
                if z is not None and isinstance(z.size, Lin) and ("z", dict_a[k].r) in res: ends.append(res["z", dict_a[k].r])
                for z in ends:
                    y = sub(sub(z, res[k]), res[k2])
                    if isinstance(y, Lin) and diff(y) is None and low(NA, to(y, 0)) >= 0 and low(NB, to(y, 1)) >= 0: extra.append(y)
        # the family for values that have become unknown only now
        fresh = [v for v in newsyms if basis[v][0] != sym(v)]
        if fresh:
            exprs = {}
            for k, e in res.items():
                if isinstance(e, Lin):
                    exprs.setdefault(Lin(e.t, 0), 1)
            exprs = list(exprs)
            for e in exprs:
                if not any(v in fresh for v, _ in e.t): continue
                for d in [0] + exprs:
                    if d is e: continue
                    x = sub(e, d) 
                    if isinstance(x, int): continue
                    for y in (x, neg(x)):
                        y = tighten(Lin(y.t, 0))
                        if diff(y) is None or y in cand and len(y.t) > 1: continue
                        c = min(low(NA, to(y, 0)), low(NB, to(y, 1)))
                        if c <= -(1 << 62): continue
                        if y not in cand or -c < cand[y] or not holds(Lin(y.t, cand[y])): cand[y] = -c
        # bounds that follow from others may lose what they follow from
        for v in {v for e in res.values() if isinstance(e, Lin) for v, _ in e.t}:
            for y in (sym(v), scale(sym(v), -1)):
                if y in cand: continue
                c = low(NA, to(y, 0))
                if c > -(1 << 62): cand[y] = -c
        J = A.clone()
        N = ZNum()
        kept_c = {}
        for y in extra:
            y = tighten(y); lp = Lin(y.t, 0)
            if lp not in cand or cand[lp] > y.k: cand[lp] = y.k
        for lp, k in cand.items():
            e = Lin(lp.t, k)
            if holds(e): kept_c[lp] = k; continue
            # weaken along the ladder: lp >= c
            c = -k
            L = LADDER if acc.grown <= 2 else COARSE if acc.grown <= 5 else TINY
            i = bisect.bisect_left(L, c) - 1
            while i >= 0:
                if holds(Lin(lp.t, -L[i])): kept_c[lp] = -L[i]; break
                i -= 1
        try:
            for lp, k in kept_c.items(): N.assume_ge(Lin(lp.t, k)) if len(lp.t) == 1 else None
            for lp, k in kept_c.items():
                if len(lp.t) > 1: N.assume_ge(Lin(lp.t, k))
        except Infeasible: pass
        nq = []
        for M, inv in ((NA, invA),) + (((NB, invB),) if acc.joins == 1 else ()):
            for d in M.neqs:
                d = M.norm(d)
                if isinstance(d, int): continue
                e = back(d, inv)
                if e is None or isinstance(e, int) or e in nq or neg(e) in nq: continue
                if NA.implies_ne(to(e, 0)) and NB.implies_ne(to(e, 1)): nq.append(e)
        # characters at known positions
        terms = {}
        for key, lst in NA.terms.items():
            if key[0] != "byte": continue
            for (arg,), v in lst:
                arg = nrm(NA, arg)
                e = arg if isinstance(arg, int) else back(arg, invA)
                if e is None: e = s.express(arg, els, NA, nrm)
                if e is None: continue
                tb = to(e, 1) if isinstance(e, Lin) else e
                hit = None
                for (ab,), w in NB.terms.get(key, ()):
                    ab = nrm(NB, ab)
                    if ab == tb or (isinstance(sub(ab, tb), Lin) and NB.implies_eq(sub(ab, tb))): hit = w; break
                if hit is None: continue
                xa, xb = nrm(NA, sym(v)), nrm(NB, sym(hit))
                if isinstance(xa, Lin) and xa == xb and all(u in basis and basis[u] == (sym(u), sym(u)) for u, _ in xa.t):
                    terms.setdefault(key, []).append(((e,), v)); continue
                la, ha = NA.bounds(xa) if isinstance(xa, Lin) else (xa, xa)
                lb, hb = NB.bounds(xb) if isinstance(xb, Lin) else (xb, xb)
                n = 0
                u = s.newsym((acc.key, "byte", key, repr(e)), 0)
                while u in basis: n += 1; u = s.newsym((acc.key, "byte", key, repr(e)), n)
                basis[u] = (xa, xb)
                l, h = min(la, lb), max(ha, hb)
                if acc.grown > 4 and (l, h) != (la, ha): l, h = 0, 255
                N.lo[u] = l; N.hi[u] = h
                if l == h: N.subst[u] = l
                for c in (32, 9, 10, 13, 58):
                    if l <= c <= h and (NA.implies_ne(sub(xa, c)) if isinstance(xa, Lin) else xa != c) and (NB.implies_ne(sub(xb, c)) if isinstance(xb, Lin) else xb != c): nq.append(sub(sym(u), c))
                terms.setdefault(key, []).append(((e,), u))
        for k, l in terms.items(): N.terms[k] = tuple(l)
        for e in nq:
            e = N.norm(e)
            if isinstance(e, int) or e in N.neqs or neg(e) in N.neqs: continue
            l, h = N.rng(e)
            if l > 0 or h < 0: continue
            if l == 0 or h == 0: N.assume_ne(e)
            elif len(e.t) == 1: N.neqs.append(e)
        J.num = N
        s.put_slots(J, res)
        J.lossy = None
        smash = {rid: {} for rid, r in A.regs.items() if r.dflt == "any"}
        for (rid, o), (w, v, how) in last.items():
            if ("m", rid, o) in res: v = Ptr(v.r, res["m", rid, o], v.g) if isinstance(v, Ptr) else res["m", rid, o]
            if how: o = add(scale(res[how[0]], how[1]) if isinstance(res[how[0]], Lin) else how[1] * res[how[0]], how[2])
            smash[rid][o] = (w, v)
        for rid, c in smash.items(): J.wreg(rid).cells = c
        grew = not s.same(A, J, slA)
        for rid, c in smash.items():
            ca = A.regs[rid].cells
            if len(c) < len(ca): grew = True
            for o in c:
                if o not in ca: grew = True; continue
                x, y = ca[o][1], c[o][1]
                if (nrm(NA, x.o) != nrm(N, y.o)) if isinstance(x, Ptr) else nrm(NA, x) != nrm(N, y) if isinstance(x, Lin) else x != y: grew = True
        acc.st = J
        acc.grown += grew
        return grew
    def express(s, arg, els, N, nrm):
        for ra, rb, rr in els:
            d = nrm(N, sub(arg, ra))
            if isinstance(d, int): return add(rr, d)
        for i in range(len(els)):
            for j in range(i + 1):
                for c, d in ((1, 1), (1, -1), (-1, 1)):
                    x = nrm(N, sub(sub(arg, scale(els[i][0], c)), scale(els[j][0], d)))
                    if isinstance(x, int): return add(add(scale(els[i][2], c), scale(els[j][2], d)), x)
        return None
    def put_slots(s, J, res):
        def val(k, v):
            if isinstance(v, Agg): return Agg([val(k + (i,), x) for i, x in enumerate(v.v)])
            if k not in res: return v
            if isinstance(v, Ptr): return Ptr(v.r, res[k], v.g)
            return res[k]
        for i, f in enumerate(J.frames):
            f = f.copy(J.tok); J.frames[i] = f
            for r in f.env: f.env[r] = val(("e", i, r), f.env[r])
        for rid in list(J.regs):
            r = J.regs[rid]
            if r.kind == "global" and r.ro: continue
            if isinstance(r.size, Lin) or r.cells:
                r = J.wreg(rid)
                if r.dflt == "any":
                    if isinstance(r.size, Lin): r.size = res[("z", rid)]
                    continue
                if isinstance(r.size, Lin): r.size = res[("z", rid)]
                if r.pieces is None:
                    for o in list(r.cells): r.cells[o] = (r.cells[o][0], val(("c", rid, o, r.cells[o][0]), r.cells[o][1]))
    def facts_of(s, st):
        N = st.num
        out = set()
        for e in N.ineqs:
            e = N.norm(e)
            if isinstance(e, Lin): out.add(e)
        for v in set(N.lo) | set(N.hi): 
            if v not in N.subst: out.add((v, N.lo.get(v), N.hi.get(v)))
        for e in N.neqs:
            e = N.norm(e)
            if isinstance(e, Lin): out.add(("ne", e))
        for k, l in N.terms.items():
            if k[0] == "byte":
                for a, v in l: out.add((k, N.norm(a[0]) if isinstance(a[0], Lin) else a[0], v))
        return out
    def same(s, A, J, slA):
        """is everything known in J known in A and the other way round (the join is at least as large)"""
        nrm = lambda N, v: N.norm(v) if isinstance(v, Lin) else (v.r, nrm(N, v.o), v.g) if isinstance(v, Ptr) else v
        for (k, v), (k2, w) in zip(slA, s.slots(J)):
            if nrm(A.num, v) != nrm(J.num, w): return False
        # J's facts hold in A by construction; has any of A's been lost?
        for e in A.num.ineqs:
            e = A.num.norm(e)
            if isinstance(e, Lin) and not J.num.implies(e): return False
        for v in set(A.num.lo) | set(A.num.hi):
            if v in A.num.subst: continue
            if any(v in dict(e.t) for k, e in ((k, x) for k, x in slA if isinstance(x, Lin))) or v in J.num.lo or v in J.num.hi:
                l, h = A.num.rng(sym(v)); l2, h2 = J.num.bounds(sym(v))
                if l2 < l or h2 > h: return False
        fa = {x for x in s.facts_of(A) if isinstance(x, tuple) and (x[0] == "ne" or isinstance(x[0], tuple))}
        fj = {x for x in s.facts_of(J) if isinstance(x, tuple) and (x[0] == "ne" or isinstance(x[0], tuple))}
        return fa <= fj
