"""Linear integer expressions and the numeric domain: intervals + convex polyhedra
(conjunctions of linear inequalities) + disequalities + affine substitutions.
Entailment is decided by exact rational simplex on the connected component (sound for the
integers; constraints are gcd-tightened)."""
from fractions import Fraction
from math import gcd

class SymTab:
    lo = []; hi = []; name = []; lossy = []
    @classmethod
    def new(c, name, lo, hi, lossy=False):
        c.lo.append(lo); c.hi.append(hi); c.name.append(name); c.lossy.append(lossy)
        return len(c.lo) - 1
SLO, SHI = SymTab.lo, SymTab.hi

class Lin:
    __slots__ = ("t", "k", "h")
    def __init__(s, t, k):
        s.t = t; s.k = k; s.h = None
    def __hash__(s):
        if s.h is None: s.h = hash((s.t, s.k))
        return s.h
    def __eq__(s, o):
        return isinstance(o, Lin) and s.k == o.k and s.t == o.t
    def __ne__(s, o): return not s.__eq__(o)
    def __repr__(s): return show(s)

def sym(i): return Lin(((i, 1),), 0)

def show(e):
    if not isinstance(e, Lin): return str(e)
    out = []
    for v, c in e.t:
        n = "%s#%d" % (SymTab.name[v], v)
        out.append(("%+d*%s" % (c, n)) if c not in (1, -1) else ("+" if c == 1 else "-") + n)
    if e.k: out.append("%+d" % e.k)
    r = "".join(out)
    return r[1:] if r[0] == "+" else r

def mk(d, k):
    t = tuple(sorted((v, c) for v, c in d.items() if c))
    return Lin(t, k) if t else k

def add(a, b):
    if isinstance(a, int):
        if isinstance(b, int): return a + b
        return Lin(b.t, b.k + a) if a else b
    if isinstance(b, int): return Lin(a.t, a.k + b) if b else a
    d = dict(a.t)
    for v, c in b.t:
        n = d.get(v, 0) + c
        if n: d[v] = n
        else: d.pop(v, None)
    return mk(d, a.k + b.k)

def neg(a):
    if isinstance(a, int): return -a
    return Lin(tuple((v, -c) for v, c in a.t), -a.k)

def sub(a, b): 
    if isinstance(b, int): return add(a, -b)
    return add(a, neg(b))

def scale(a, c):
    if isinstance(a, int): return a * c
    if c == 0: return 0
    return Lin(tuple((v, x * c) for v, x in a.t), a.k * c)

def tighten(e):
    g = 0
    for _, c in e.t: g = gcd(g, c)
    if g > 1:
        return Lin(tuple((v, c // g) for v, c in e.t), e.k // g)
    return e

def _div(a, b):
    if type(a) is int and type(b) is int:
        if a % b == 0: return a // b
        return Fraction(a, b)
    r = a / b
    if r.denominator == 1: return r.numerator
    return r

class Stats:
    lp = 0; queries = 0; fast = 0

def simplex(cons, lo, hi, maxit=400):
    """cons: list of Lin (>=0). lo/hi: dict sym->bound. Returns point dict or None (infeasible) or False (gave up)."""
    Stats.lp += 1
    val = {}
    nb = []
    for c in cons:
        for v, _ in c.t:
            if v not in val:
                l, h = lo[v], hi[v]
                val[v] = l if l is not None else h
                nb.append(v)
    rows = {}   # basic var -> dict nonbasic->coef
    blo = {}; bhi = {}
    for v in nb: blo[v] = lo[v]; bhi[v] = hi[v]
    nxt = -1
    slack = []
    for c in cons:
        s = nxt; nxt -= 1
        rows[s] = dict(c.t)
        blo[s] = -c.k; bhi[s] = None
        val[s] = sum(cc * val[v] for v, cc in c.t)
    for it in range(maxit):
        # find violated basic (Bland: smallest index)
        b = None
        for r in sorted(rows):
            x = val[r]
            if (blo[r] is not None and x < blo[r]): b = r; up = True; break
            if (bhi[r] is not None and x > bhi[r]): b = r; up = False; break
        if b is None: return val
        row = rows[b]
        target = blo[b] if up else bhi[b]
        piv = None
        for v in sorted(row):
            c = row[v]
            if (c > 0) == up:
                if bhi[v] is None or val[v] < bhi[v]: piv = v; break
            else:
                if blo[v] is None or val[v] > blo[v]: piv = v; break
        if piv is None: return None
        a = row[piv]
        theta = _div(target - val[b], a) if target != val[b] else 0
        # pivot
        val[b] = target
        val[piv] = val[piv] + theta
        for r, rr in rows.items():
            if r != b:
                c = rr.get(piv)
                if c: val[r] = val[r] + c * theta
        del rows[b]
        new = {}
        for v, c in row.items():
            if v != piv: new[v] = _div(-c, a)
        new[b] = _div(1, a)
        for r, rr in rows.items():
            c = rr.pop(piv, None)
            if c:
                for v, x in new.items():
                    y = rr.get(v, 0) + c * x
                    if y: rr[v] = y
                    else: rr.pop(v, None)
        rows[piv] = new
    return False

class Infeasible(Exception): pass

class Num:
    __slots__ = ("lo", "hi", "ineqs", "neqs", "subst", "terms", "wit", "ct", "cf", "lossydep")
    def __init__(s):
        s.lo = {}; s.hi = {}; s.ineqs = []; s.neqs = []; s.subst = {}; s.terms = {}; s.wit = []; s.ct = set(); s.cf = set()
    def clone(s):
        n = s.__class__.__new__(s.__class__)
        n.lo = dict(s.lo); n.hi = dict(s.hi); n.ineqs = list(s.ineqs); n.neqs = list(s.neqs); n.subst = dict(s.subst)
        n.terms = dict(s.terms); n.wit = list(s.wit); n.ct = set(s.ct); n.cf = set(s.cf)
        return n

    # ---- normal form
    def norm(s, e):
        if isinstance(e, int): return e
        sb = s.subst
        if not sb: return e
        for v, _ in e.t:
            if v in sb: break
        else: return e
        d = {}; k = e.k
        for v, c in e.t:
            r = sb.get(v)
            if r is None: d[v] = d.get(v, 0) + c
            else:
                r2 = s.norm(r) if not isinstance(r, int) else r
                if r2 is not r: sb[v] = r2
                if isinstance(r2, int): k += c * r2
                else:
                    k += c * r2.k
                    for v2, c2 in r2.t: d[v2] = d.get(v2, 0) + c * c2
        return mk(d, k)

    def rng(s, e):
        """interval of a normalised expression"""
        if isinstance(e, int): return e, e
        l = h = e.k
        for v, c in e.t:
            a = s.lo.get(v); b = s.hi.get(v)
            if a is None: a = SLO[v]
            if b is None: b = SHI[v]
            if c > 0: l += c * a; h += c * b
            else: l += c * b; h += c * a
        return l, h

    def bounds(s, e): return s.rng(s.norm(e))

    # ---- entailment
    def implies(s, e):
        """e >= 0 entailed?"""
        e = s.norm(e)
        if isinstance(e, int): return e >= 0
        l, h = s.rng(e)
        if l >= 0: return True
        if h < 0: return False
        if e in s.ct: return True
        if e in s.cf: return False
        Stats.queries += 1
        for w in s.wit:
            x = e.k
            for v, c in e.t: x += c * w.get(v, SLO[v] if v not in s.lo else s.lo[v])
            if x < 0 and s._wvalid(w, e):
                Stats.fast += 1
                s.cf.add(e); return False
        r = s._lp(e)
        if not r and s.neqs:
            if s._strengthen(e): r = s._lp(e)
        (s.ct if r else s.cf).add(e)
        return r

    def _wvalid(s, w, e):
        for v, _ in e.t:
            if v not in w: return False
        return True

    def component(s, syms):
        syms = set(syms)
        pend = [s.norm(c) for c in s.ineqs]
        pend = [c for c in pend if not isinstance(c, int)]
        out = []
        ch = True
        while ch and pend:
            ch = False; rest = []
            for c in pend:
                for v, _ in c.t:
                    if v in syms:
                        out.append(c)
                        for v2, _ in c.t: syms.add(v2)
                        ch = True; break
                else: rest.append(c)
            pend = rest
        return out, syms

    def _bnds(s, syms):
        lo = {}; hi = {}
        for v in syms:
            a = s.lo.get(v); b = s.hi.get(v)
            lo[v] = SLO[v] if a is None else a
            hi[v] = SHI[v] if b is None else b
        return lo, hi

    def _lp(s, e):
        g = tighten(Lin(tuple((v, -c) for v, c in e.t), -e.k - 1))
        cons, syms = s.component([v for v, _ in e.t])
        if not cons: 
            return False
        lo, hi = s._bnds(syms)
        p = simplex([g] + cons, lo, hi)
        if p is None: return True
        if p:
            w = {v: x for v, x in p.items() if v >= 0}
            s.wit.append(w)
            if len(s.wit) > 8: s.wit.pop(0)
        return False

    def _strengthen(s, e):
        _, syms = s.component([v for v, _ in e.t])
        done = False
        for i, d in enumerate(list(s.neqs)):
            d = s.norm(d)
            if isinstance(d, int): continue
            if not any(v in syms for v, _ in d.t): continue
            for x in (d, neg(d)):
                l, h = s.rng(x)
                if l >= 1: break
                if l >= 0 or (x in s.ct) or s._lp(x):
                    y = add(x, -1)
                    if y in s.ineqs or y in s.ct: break
                    s._add(y); done = True; break
        return done

    # ---- adding facts
    def _invalidate(s, e):
        s.cf = set()
        if s.wit:
            out = []
            for w in s.wit:
                x = e.k; ok = True
                for v, c in e.t:
                    if v in w: x += c * w[v]
                    else: ok = False; break
                if ok and x >= 0: out.append(w)
                elif not ok and not any(v in w for v, _ in e.t): out.append(w)
            s.wit = out

    def _add(s, e):
        e = tighten(e)
        if len(e.t) == 1:
            (v, c), = e.t
            a = s.lo.get(v); b = s.hi.get(v)
            if a is None: a = SLO[v]
            if b is None: b = SHI[v]
            if c > 0:
                nl = -(e.k // c)
                if nl > a: s.lo[v] = a = nl
            else:
                nh = e.k // (-c)
                if nh < b: s.hi[v] = b = nh
            if a > b: raise Infeasible()
            s._invalidate(e)
            if a == b:
                s.subst[v] = a; s.wit = [w for w in s.wit if w.get(v, a) == a]
                s._resub(v)
            return
        if e in s.ineqs: return
        ne = neg(e)
        if ne in s.ineqs:
            s.add_eq(e); return
        s.ineqs.append(e)
        s._invalidate(e)

    def _resub(s, v):
        old = s.ineqs; s.ineqs = []
        redo = []
        for c in old:
            if any(x == v for x, _ in c.t): redo.append(c)
            else: s.ineqs.append(c)
        for c in redo:
            n = s.norm(c)
            if isinstance(n, int):
                if n < 0: raise Infeasible()
            else: s._add(n)
        if redo: s.wit = []

    def assume_ge(s, e):
        """add e >= 0; False if infeasible"""
        e = s.norm(e)
        if isinstance(e, int): return e >= 0
        l, h = s.rng(e)
        if l >= 0: return True
        if h < 0: return False
        if s.implies(sub(-1, e)): return False
        try: s._add(e)
        except Infeasible: return False
        return True

    def add_eq(s, e):
        e = s.norm(e)
        if isinstance(e, int):
            if e != 0: raise Infeasible()
            return
        g = 0
        for _, c in e.t: g = gcd(g, c)
        if e.k % g: raise Infeasible()
        if g > 1: e = Lin(tuple((v, c // g) for v, c in e.t), e.k // g)
        best = None
        for v, c in e.t:
            if c in (1, -1) and (best is None or v > best[0]): best = (v, c)
        if best is None:
            ne = neg(e)
            if len(e.t) == 1:
                (v, c), = e.t
                if e.k % c: raise Infeasible()
                s._addeq_const(v, -e.k // c); return
            if e not in s.ineqs: s.ineqs.append(e); s._invalidate(e)
            if ne not in s.ineqs: s.ineqs.append(ne); s._invalidate(ne)
            return
        v, c = best
        r = mk({x: (-y if c == 1 else y) for x, y in e.t if x != v}, -e.k if c == 1 else e.k)
        a = s.lo.get(v); b = s.hi.get(v)
        if a is None: a = SLO[v]
        if b is None: b = SHI[v]
        s.subst[v] = r
        s.wit = []; s.cf = set(); s.ct = set()
        s._resub(v)
        if isinstance(r, int):
            if not (a <= r <= b): raise Infeasible()
        else:
            for x in (add(r, -a), sub(b, r)):
                l, h = s.rng(x)
                if h < 0: raise Infeasible()
                if l < 0: s._add(x)
        for d in s.neqs:
            if s.norm(d) == 0: raise Infeasible()

    def _addeq_const(s, v, k):
        s.add_eq(Lin(((v, 1),), -k))

    def assume_eq(s, e):
        e = s.norm(e)
        if isinstance(e, int): return e == 0
        l, h = s.rng(e)
        if l > 0 or h < 0: return False
        if s.implies(add(e, -1)) or s.implies(sub(-1, e)): return False
        for d in s.neqs:
            d = s.norm(d)
            if d == e or d == neg(e): return False
        try: s.add_eq(e)
        except Infeasible: return False
        return True

    def assume_ne(s, e):
        e = s.norm(e)
        if isinstance(e, int): return e != 0
        if s.implies_eq(e): return False
        l, h = s.rng(e)
        if l > 0 or h < 0: return True
        s.cf = set()
        try:
            if l == 0: s._add(add(e, -1)); return True
            if h == 0: s._add(sub(-1, e)); return True
        except Infeasible: return False
        if e not in s.neqs: s.neqs.append(e)
        s._invalidate_all()
        return True

    def _invalidate_all(s):
        out = []
        for w in s.wit:
            ok = True
            for d in s.neqs:
                d = s.norm(d)
                if isinstance(d, int): continue
                if all(v in w for v, _ in d.t) and d.k + sum(c * w[v] for v, c in d.t) == 0: ok = False; break
            if ok: out.append(w)
        s.wit = out

    def implies_eq(s, e):
        e = s.norm(e)
        if isinstance(e, int): return e == 0
        l, h = s.rng(e)
        if l > 0 or h < 0: return False
        return s.implies(e) and s.implies(neg(e))

    def implies_ne(s, e):
        e = s.norm(e)
        if isinstance(e, int): return e != 0
        l, h = s.rng(e)
        if l > 0 or h < 0: return True
        ne = neg(e)
        for d in s.neqs:
            d = s.norm(d)
            if d == e or d == ne: return True
        return s.implies(add(e, -1)) or s.implies(sub(-1, e))

    def model(s, extra, syms):
        """an integer point of the component containing extra (list of Lin >= 0), best effort"""
        cons = []
        allv = set(syms)
        for e in extra:
            e = s.norm(e)
            if not isinstance(e, int):
                cons.append(e); allv |= {v for v, _ in e.t}
        c2, allv = s.component(allv)
        lo, hi = s._bnds(allv)
        p = simplex(cons + c2, lo, hi)
        if not p: return None
        for v in allv: p.setdefault(v, lo[v])
        if all(type(p[v]) is int for v in allv): return {v: p[v] for v in allv}
        # branch by fixing variables one at a time
        for v in sorted(allv):
            x = p[v]
            if type(x) is not int:
                f = x.numerator // x.denominator
                for (l, h) in ((lo[v], f), (f + 1, hi[v])):
                    if l > h: continue
                    lo2 = dict(lo); hi2 = dict(hi); lo2[v] = l; hi2[v] = h
                    q = simplex(cons + c2, lo2, hi2)
                    if q:
                        for u in allv: q.setdefault(u, lo2[u])
                        if all(type(q[u]) is int for u in allv): return {u: q[u] for u in allv}
        return None

class ZNum(Num):
    """decides differences of two values by shortest paths; everything else as Num does"""
    __slots__ = ("zc",)
    def __init__(s):
        Num.__init__(s); s.zc = None
    def clone(s):
        n = Num.clone(s); n.zc = s.zc
        return n
    def _invalidate(s, e):
        s.zc = None; Num._invalidate(s, e)
    def add_eq(s, e):
        s.zc = None; Num.add_eq(s, e); s.zc = None
    def zone(s):
        if s.zc is None:
            out = {}; other = set()
            for e in s.ineqs:
                e = s.norm(e)
                if isinstance(e, int): continue
                d = diff(e)
                if d is None: other.update(v for v, _ in e.t)
                else:
                    y, x, k = d          # y - x + k >= 0:  x - y <= k
                    out.setdefault(y, []).append((x, k))
            s.zc = (out, other, {})
        return s.zc
    def dist(s, src):
        """for every value v: least k known with v - src <= k (-1 stands for zero)"""
        out, other, memo = s.zone()
        d = memo.get(src)
        if d is not None: return d
        d = {src: 0}; q = [src]; n = 0
        lo, hi = s.lo, s.hi
        nodes = set(out)
        for l in out.values():
            for x, _ in l: nodes.add(x)
        nodes.discard(-1)
        if src >= 0: nodes.add(src)
        while q:
            n += 1
            if n > 4000: break
            u = q.pop(0); du = d[u]
            if u == -1:
                for x in nodes:
                    b = hi.get(x)
                    if b is None: b = SHI[x]
                    if x not in d or du + b < d[x]:
                        d[x] = du + b; q.append(x) if x not in q else None
                for x, k in out.get(-1, ()):
                    if x not in d or du + k < d[x]:
                        d[x] = du + k; q.append(x) if x not in q else None
            else:
                a = lo.get(u)
                if a is None: a = SLO[u]
                k = du - a                 # 0 - u <= -lo
                if -1 not in d or k < d[-1]:
                    d[-1] = k; q.append(-1) if -1 not in q else None
                for x, k in out.get(u, ()):
                    if x not in d or du + k < d[x]:
                        d[x] = du + k; q.append(x) if x not in q else None
        memo[src] = d
        return d
    def zimplies(s, df):
        y, x, k = df                     # x - y <= k ?
        D = s.dist(y)
        if x in D: return D[x] <= k
        # no constraint leads to it: by its own bounds
        z = D.get(-1)
        hx = s.hi.get(x)
        return z is not None and z + (SHI[x] if hx is None else hx) <= k
    def _strengthen(s, e):
        done = False
        for d in list(s.neqs):
            d = s.norm(d)
            if isinstance(d, int) or len(d.t) != 2: continue
            for x in (d, neg(d)):
                f = diff(x)
                if f is None: break
                l, h = s.rng(x)
                if l >= 1: break
                if l >= 0 or s.zimplies(f):
                    if s.zimplies((f[0], f[1], f[2] - 1)): break
                    s._add(add(x, -1)); done = True; break
        return done
    def implies(s, e):
        e = s.norm(e)
        if isinstance(e, int): return e >= 0
        l, h = s.rng(e)
        if l >= 0: return True
        if h < 0: return False
        if e in s.ct: return True
        if e in s.cf: return False
        e1 = tighten(e)
        df = diff(e1)
        if df is None:
            r = s._lp(e)
            if not r and any(len(d.t) > 1 for d in s.neqs if isinstance(d, Lin)) and s._strengthen(e): r = s._lp(e)
        else:
            r = s.zimplies(df)
            if not r:
                other = s.zone()[1]
                if other and any(v in other for v, _ in e.t): r = s._lp(e)
            if not r and any(isinstance(d, Lin) and len(d.t) > 1 for d in s.neqs) and s._strengthen(e): return s.implies(e)
        (s.ct if r else s.cf).add(e)
        return r

def diff(e):
    """(y, x, k) if e is y - x + k, with -1 for zero"""
    if len(e.t) == 1:
        (v, c), = e.t
        if c == 1: return (v, -1, e.k)
        if c == -1: return (-1, v, e.k)
        return None
    if len(e.t) == 2:
        (v, c), (w, d) = e.t
        if c == 1 and d == -1: return (v, w, e.k)
        if c == -1 and d == 1: return (w, v, e.k)
    return None
