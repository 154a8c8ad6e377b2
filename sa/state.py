"""Abstract states: symbolic heap of regions with cell/piece contents, numeric domain, ghost state."""
import itertools
from .lin import *

class _Undef:
    __slots__ = ()
    def __repr__(s): return "undef"
UNDEF = _Undef()

class Ptr:
    __slots__ = ("r", "o", "g")
    def __init__(s, r, o, g=0): s.r = r; s.o = o; s.g = g
    def __repr__(s): return "&R%s+%s" % (s.r, show(s.o))
    def __eq__(s, x): return isinstance(x, Ptr) and x.r == s.r and x.o == s.o and x.g == s.g
    def __hash__(s): return hash((s.r, s.o, s.g))

class Fn:
    __slots__ = ("n",)
    def __init__(s, n): s.n = n
    def __repr__(s): return "@" + s.n
    def __eq__(s, x): return isinstance(x, Fn) and x.n == s.n
    def __hash__(s): return hash(s.n)

class Agg:
    __slots__ = ("v",)
    def __init__(s, v): s.v = v
    def __repr__(s): return "{%s}" % (s.v,)

class Cond:
    """op: 'ge' (a>=0), 'eq' (a==0), 'ne', 'and','or' (a,b Conds), 'xor'"""
    __slots__ = ("op", "a", "b")
    def __init__(s, op, a, b=None): s.op = op; s.a = a; s.b = b
    def __repr__(s): return "(%s %s %s)" % (s.op, s.a, s.b if s.b is not None else "")

def cnot(c):
    if isinstance(c, bool): return not c
    if c.op == "ge": return Cond("ge", sub(-1, c.a))
    if c.op == "eq": return Cond("ne", c.a)
    if c.op == "ne": return Cond("eq", c.a)
    if c.op == "and": return Cond("or", cnot(c.a), cnot(c.b))
    if c.op == "or": return Cond("and", cnot(c.a), cnot(c.b))
    raise AssertionError

class Split(Exception):
    """alternatives: list of Cond-like (op, e)"""
    def __init__(s, alts): s.alts = alts
class Choose(Exception):
    def __init__(s, n, label): s.n = n; s.label = label
class Dead(Exception):
    """path ends here (infeasible or finished)"""
class Alarm(Exception):
    def __init__(s, kind, msg): s.kind = kind; s.msg = msg
class Unsupported(Exception): pass

class Source:
    """contents of unknown (or constant) origin; identity matters"""
    __slots__ = ("id", "label", "data", "lossy")
    ALL = []
    def __init__(s, label, data=None, lossy=False):
        s.id = len(Source.ALL); s.label = label; s.data = data; s.lossy = lossy
        Source.ALL.append(s)

_rid = itertools.count(1)
DEADLABEL = {}
CUTSRC = {}

class Region:
    __slots__ = ("id", "size", "kind", "gen", "label", "cells", "dflt", "pieces", "owner", "ro", "meta")
    # dflt: 'un' | 'zero' | ('src', sid)
    def __init__(s, size, kind, label, dflt="un", rid=None):
        s.id = next(_rid) if rid is None else rid
        s.size = size; s.kind = kind; s.gen = 0; s.label = label; s.cells = {}; s.dflt = dflt; s.pieces = None; s.owner = None; s.ro = False; s.meta = None
    def copy(s, owner):
        r = Region.__new__(Region)
        r.id = s.id; r.size = s.size; r.kind = s.kind; r.gen = s.gen; r.label = s.label; r.cells = dict(s.cells); r.dflt = s.dflt
        r.pieces = None if s.pieces is None else list(s.pieces); r.owner = owner; r.ro = s.ro; r.meta = s.meta
        return r

class Frame:
    __slots__ = ("fn", "blk", "idx", "env", "allocas", "loops", "ret", "owner", "act", "byvals")
    def copy(s, owner):
        f = Frame.__new__(Frame)
        f.fn = s.fn; f.blk = s.blk; f.idx = s.idx; f.env = dict(s.env); f.allocas = list(s.allocas); f.loops = dict(s.loops); f.ret = s.ret; f.owner = owner; f.act = s.act
        return f

class Tok:
    __slots__ = ()

class State:
    __slots__ = ("frames", "regs", "num", "ghost", "trace", "lossy", "tok", "nsym", "nsplit", "replay", "log", "globs", "steps", "eng", "choices", "depthcap", "unk")
    def __init__(s, eng):
        s.eng = eng; s.frames = []; s.regs = {}; s.num = Num(); s.ghost = {}; s.trace = None; s.lossy = None; s.tok = Tok()
        s.nsym = 0; s.nsplit = 0; s.replay = []; s.log = []; s.globs = {}; s.steps = 0; s.choices = (); s.unk = None
    def clone(s):
        n = State.__new__(State)
        n.eng = s.eng; n.frames = list(s.frames); n.regs = dict(s.regs); n.num = s.num.clone(); n.ghost = dict(s.ghost); n.trace = s.trace; n.lossy = s.lossy
        n.tok = Tok(); s.tok = Tok()
        n.nsym = s.nsym; n.nsplit = s.nsplit; n.replay = list(s.replay); n.log = list(s.log); n.globs = s.globs; n.steps = s.steps; n.choices = s.choices; n.unk = s.unk
        return n
    # frames
    def top(s):
        f = s.frames[-1]
        if f.owner is not s.tok:
            f = f.copy(s.tok); s.frames[-1] = f
        return f
    # regions
    def wreg(s, rid):
        r = s.regs[rid]
        if r.owner is not s.tok:
            r = r.copy(s.tok); s.regs[rid] = r
        return r
    def newreg(s, size, kind, label, dflt="un"):
        nr = getattr(s.eng, "newrid", None)
        r = Region(size, kind, label, dflt, nr(s, kind, label) if nr else None); r.owner = s.tok
        s.regs[r.id] = r
        return r
    # events
    def note(s, text):
        s.trace = (text, s.trace)
    def tracelist(s):
        out = []; t = s.trace
        while t: out.append(t[0]); t = t[1]
        return out[::-1]
    # symbols and nondeterminism (replayable within one instruction)
    def fresh(s, name, lo, hi, lossy=False):
        if s.replay:
            k = s.replay.pop(0)
            if k[0] == "s":
                s.log.append(k); return sym(k[1]) if not isinstance(k[1], tuple) else k[1][1]
            raise RuntimeError("replay mismatch")
        s.nsym += 1
        nm = "%s.%d" % (name, s.nsym)
        pin = s.eng.pins.get(nm) if s.eng.pins is not None else None
        if pin is not None and lo <= pin <= hi:
            s.log.append(("s", ("c", pin))); return pin
        if lo == hi:
            s.log.append(("s", ("c", lo))); return lo
        i = SymTab.new(nm, lo, hi, lossy)
        s.log.append(("s", i))
        return sym(i)
    def choose(s, n, label):
        if n == 1: return 0
        if s.replay:
            k = s.replay.pop(0)
            if k[0] != "c": raise RuntimeError("replay mismatch")
            s.log.append(k); return k[1]
        raise Choose(n, label)
    # decisions
    def decide_ge(s, e):
        if isinstance(e, int): return e >= 0
        N = s.num
        e = N.norm(e)
        if isinstance(e, int): return e >= 0
        if N.implies(e): return True
        ne = sub(-1, e)
        if N.implies(ne): return False
        raise Split([("ge", e), ("ge", ne)])
    def decide_eq(s, e):
        if isinstance(e, int): return e == 0
        N = s.num
        e = N.norm(e)
        if isinstance(e, int): return e == 0
        if N.implies_ne(e): return False
        if N.implies(e) and N.implies(neg(e)):
            N.add_eq(e); return True
        raise Split([("eq", e), ("ne", e)])
    def decide(s, c):
        if isinstance(c, bool): return c
        if c.op == "ge": return s.decide_ge(c.a)
        if c.op == "eq": return s.decide_eq(c.a)
        if c.op == "ne": return not s.decide_eq(c.a)
        if c.op == "and": return s.decide(c.a) and s.decide(c.b)
        if c.op == "or": return s.decide(c.a) or s.decide(c.b)
        raise AssertionError(c)
    def holds(s, c):
        """entailed (no split)?"""
        if isinstance(c, bool): return c
        if c.op == "ge": return s.num.implies(c.a)
        if c.op == "eq": return s.num.implies_eq(c.a)
        if c.op == "ne": return s.num.implies_ne(c.a)
        if c.op == "and": return s.holds(c.a) and s.holds(c.b)
        if c.op == "or": return s.holds(c.a) or s.holds(c.b)
    def assume(s, op, e):
        if op == "ge": ok = s.num.assume_ge(e)
        elif op == "eq": ok = s.num.assume_eq(e)
        else: ok = s.num.assume_ne(e)
        return ok
    def assume_or_die(s, op, e):
        if not s.assume(op, e): raise Dead("infeasible")
    # integers
    def u(s, e, w):
        """canonical unsigned representative"""
        if isinstance(e, int): return e & ((1 << w) - 1)
        e = s.num.norm(e)
        if isinstance(e, int): return e & ((1 << w) - 1)
        M = 1 << w
        l, h = s.num.rng(e)
        if l >= 0 and h < M: return e
        if s.num.implies(e) and s.num.implies(sub(M - 1, e)): return e
        if l < -4 * M or h > 4 * M or w == 64 and h - l >= M and s.eng.opts.get("opaque"): return s.wrapterm(e, w, 0)
        # tighten
        k = l // M
        if k == h // M: return add(e, -k * M)
        if s.num.implies(e) and s.num.implies(sub(M - 1, e)): return e
        for m in range(k, h // M + 1):
            if m == h // M or not s.decide_ge(sub(e, (m + 1) * M)):
                return add(e, -m * M)
    def sg(s, e, w):
        M = 1 << w; H = M >> 1
        if isinstance(e, int):
            e &= M - 1
            return e - M if e >= H else e
        e = s.num.norm(e)
        if isinstance(e, int): return s.sg(e, w)
        l, h = s.num.rng(e)
        if l >= -H and h < H: return e
        if s.num.implies(add(e, H)) and s.num.implies(sub(H - 1, e)): return e
        if l < -4 * M or h > 4 * M: return s.wrapterm(e, w, 1)
        k = (l + H) // M
        if k == (h + H) // M: return add(e, -k * M)
        if s.num.implies(add(e, H)) and s.num.implies(sub(H - 1, e)): return e
        for m in range(k, (h + H) // M + 1):
            if m == (h + H) // M or not s.decide_ge(sub(add(e, H), (m + 1) * M)):
                return add(e, -m * M)
    def wrapterm(s, e, w, signed):
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        return s.term(("wrap", w, signed), (e,), lo, hi, lossy=2)
    def term(s, key, args, lo, hi, lossy=False, init=None):
        """hash-consed opaque term; args are Lins"""
        N = s.num
        nargs = tuple(N.norm(a) if isinstance(a, Lin) else a for a in args)
        lst = N.terms.get(key, ())
        for a, v in lst:
            if a == nargs: return N.norm(sym(v))
        for a, v in lst:
            if tuple(N.norm(x) if isinstance(x, Lin) else x for x in a) == nargs: return N.norm(sym(v))
        v = SymTab.new("%s" % (key[0],), lo, hi, lossy)
        N.terms[key] = lst + ((nargs, v),)
        r = sym(v)
        if lo == hi: return lo
        if init: init(r)
        return r
    # ---- term pinned evaluation helpers used by arithmetic
    def divmod_const(s, e, c):
        """e >= 0 canonical unsigned; returns q, r"""
        if isinstance(e, int): return e // c, e % c
        l, h = s.num.rng(s.num.norm(e))
        e = s.num.norm(e)
        if l // c == h // c: return l // c, sub(e, (l // c) * c)
        # exact when coefficients divisible
        if all(x % c == 0 for _, x in e.t):
            return Lin(tuple((v, x // c) for v, x in e.t), e.k // c), e.k % c
        if h - l > 2 * c and s.num.implies(sub(c - 1, e)): return 0, e
        q = s.term(("div", c), (e,), max(0, l // c), h // c)
        if isinstance(q, int): return q, sub(e, q * c)
        r = s.num.norm(sub(e, scale(q, c)))
        if not isinstance(r, int):
            s.num.assume_ge(r); s.num.assume_ge(sub(c - 1, r))
        return q, r

    # ================================================================ memory
    def region(s, p, what):
        if not isinstance(p, Ptr):
            if isinstance(p, int):
                raise Alarm("mem", "%s through %s pointer" % (what, "null" if 0 <= p < 4096 else "wild"))
            if p is UNDEF: raise Alarm("mem", "%s through uninitialised pointer" % what)
            if isinstance(p, Fn): raise Alarm("mem", "%s on function" % what)
            if isinstance(p, Lin):
                raise Alarm("mem", "%s through unknown pointer %s" % (what, show(s.num.norm(p))))
            raise Unsupported("pointer %r" % (p,))
        r = s.regs.get(p.r)
        if r is None:
            raise Alarm("mem", "%s of released memory (%s)" % (what, DEADLABEL.get(p.r, "object")))
        if r.gen != p.g:
            raise Alarm("mem", "%s through a pointer invalidated by reallocation (%s)" % (what, r.label))
        return r
    def access(s, p, n, what, write=False):
        """bounds-check; n int or Lin (> 0 assumed by caller). returns region"""
        r = s.region(p, what)
        o = p.o
        if isinstance(o, int) and isinstance(n, int) and isinstance(r.size, int):
            if o < 0 or o + n > r.size:
                raise Alarm("mem", "%s of %d bytes at offset %d outside %s of %d bytes" % (what, n, o, r.label, r.size))
        else:
            s.oblige_ge(o, "mem", lambda: "%s before the start of %s (offset %s)" % (what, r.label, show(s.num.norm(o))))
            s.oblige_ge(sub(sub(r.size, o), n), "mem", lambda: "%s of %s bytes at offset %s beyond %s of %s bytes" % (what, show(s.num.norm(n)), show(s.num.norm(o)), r.label, show(s.num.norm(r.size))))
        if write and r.ro: raise Alarm("mem", "write to constant %s" % r.label)
        return r
    def oblige_ge(s, e, kind, msg):
        s.eng.obligations += 1
        if s.num.implies(e): return
        bad = sub(-1, e)
        # violating part reported, surviving part continues
        s.eng.conditional_alarm(s, kind, msg, ("ge", bad))
        if not s.num.assume_ge(e): raise Dead("no safe continuation")

    # --- pieces
    def to_pieces(s, r):
        if r.pieces is not None: return r
        r = s.wreg(r.id)
        out = []; pos = 0
        def gap(a, b):
            if r.dflt == "un": return (a, sub(b, a), ("un",))
            if r.dflt == "zero": return (a, sub(b, a), ("z",))
            return (a, sub(b, a), ("src", r.dflt[1], a))
        for o in sorted(r.cells):
            n, v = r.cells[o]
            if o > pos: out.append(gap(pos, o))
            if o < pos: raise Unsupported("overlapping cells")
            out.append((o, n, ("s", v)))
            pos = o + n
        if not (isinstance(r.size, int) and r.size <= pos): out.append(gap(pos, r.size))
        r.pieces = out; r.cells = {}
        return r
    def splitat(s, r, off):
        """index of the first piece starting at off (r writable, pieces mode)"""
        N = s.num
        off = N.norm(off) if isinstance(off, Lin) else off
        P = r.pieces
        i = 0
        while i < len(P):
            po, pl, pv = P[i]
            d = sub(off, po); d = N.norm(d) if isinstance(d, Lin) else d
            if d == 0: return i
            e = sub(d, pl); e = N.norm(e) if isinstance(e, Lin) else e
            if e == 0: i += 1; continue
            if s.decide_ge(e): i += 1; continue
            # off < end. inside or at start?
            if isinstance(d, Lin) and s.decide_eq(d): return i
            a, b = s.cut(pv, pl, d)
            P[i:i + 1] = [(po, d, a), (add(po, d), sub(pl, d), b)]
            return i + 1
        return i
    def cut(s, v, n, k):
        t = v[0]
        if t in ("un", "z"): return v, v
        if t == "src": return v, ("src", v[1], add(v[2], k))
        if t == "f": return v, v
        # scalar
        x = v[1]
        if x is UNDEF: return ("un",), ("un",)
        if x == 0 and isinstance(x, int): return ("z",), ("z",)
        if isinstance(n, int) and n <= 16 and isinstance(k, Lin):
            for j in range(1, n):
                if s.decide_eq(sub(k, j)): k = j; break
            else: raise Dead("no byte boundary inside the value")
        if isinstance(x, int) and isinstance(k, int) and isinstance(n, int):
            x &= (1 << (8 * n)) - 1
            return ("s", x & ((1 << (8 * k)) - 1)), ("s", x >> (8 * k))
        if isinstance(x, Fn) or isinstance(x, Ptr) or isinstance(x, Lin) or isinstance(x, Cond):
            key = (n if isinstance(n, int) else show(n), repr(x))
            src = CUTSRC.get(key)
            if src is None: src = CUTSRC[key] = Source("bytes of a value", lossy=True)
            return ("src", src.id, 0), ("src", src.id, k)
        raise Unsupported("cutting %r" % (v,))
    def coalesce(s, r):
        N = s.num; P = r.pieces; out = []
        for p in P:
            po, pl, pv = p
            l = N.norm(pl) if isinstance(pl, Lin) else pl
            if l == 0: continue
            if out:
                qo, ql, qv = out[-1]
                if qv[0] == pv[0]:
                    if pv[0] in ("un", "z"): out[-1] = (qo, N.norm(add(ql, l)) if isinstance(add(ql, l), Lin) else add(ql, l), qv); continue
                    if pv[0] == "src" and qv[1] == pv[1]:
                        d = sub(add(qv[2], ql), pv[2])
                        if isinstance(d, Lin): d = N.norm(d)
                        if d == 0:
                            x = add(ql, l)
                            out[-1] = (qo, N.norm(x) if isinstance(x, Lin) else x, qv); continue
            out.append((po, l, pv))
        r.pieces = out
    def extract(s, r, off, n):
        """list of (len, val) covering [off, off+n)"""
        r = s.to_pieces(r); r = s.wreg(r.id)
        i = s.splitat(r, off)
        j = s.splitat(r, add(off, n))
        i = s.splitat(r, off)
        return [(l, v) for _, l, v in r.pieces[i:j]]
    def put(s, r, off, items):
        """overwrite starting at off with items (len,val)"""
        r = s.to_pieces(r); r = s.wreg(r.id)
        tot = 0
        for l, _ in items: tot = add(tot, l)
        s.splitat(r, off)
        j = s.splitat(r, add(off, tot))
        i = s.splitat(r, off)
        new = []; o = off
        for l, v in items:
            new.append((o, l, v)); o = add(o, l)
        r.pieces[i:j] = new
        s.coalesce(r)

    # --- scalar load/store
    def load(s, p, n, isptr=False):
        r = s.access(p, n, "read")
        if r.dflt == "any":
            c = r.cells.get(s.num.norm(p.o) if isinstance(p.o, Lin) else p.o)
            if c is None or c[0] != n: raise Unsupported("contents of an object that are not followed")
            return c[1]
        o = p.o
        if isinstance(o, Lin):
            o = s.num.norm(o)
        if r.pieces is None:
            if isinstance(o, int):
                c = r.cells.get(o)
                if c is not None and c[0] == n: return c[1]
                if c is None:
                    for k in range(max(0, o - 15), o + n):
                        q = r.cells.get(k)
                        if q is not None and k + q[0] > o: break
                    else:
                        return s.dfl(r, o, n)
                return s.partial(r, o, n)
            # symbolic offset into const table?
            if r.ro and not isinstance(r.dflt, tuple): pass
            if isinstance(r.dflt, tuple) and not r.cells: return s.srcload(r.dflt[1], o, n)
            if r.dflt == "zero" and not r.cells: return 0
            if r.ro and isinstance(r.size, int): return s.tableload(r, o, n)
            r = s.to_pieces(r)
        N = s.num
        for po, pl, pv in r.pieces:
            d = sub(o, po); d = N.norm(d) if isinstance(d, Lin) else d
            e = sub(d, pl); e = N.norm(e) if isinstance(e, Lin) else e
            if not (d == 0 and not isinstance(pl, Lin)) and s.decide_ge(e): continue
            if pv[0] == "s" and pl == n and isinstance(d, Lin) and s.decide_eq(d): d = 0
            if pv[0] == "s" and d == 0 and pl == n: return pv[1]
            f = sub(sub(pl, d), n)
            if pv[0] != "s" and (s.num.implies(f)):
                if pv[0] == "un": return UNDEF
                if pv[0] == "z": return 0
                return s.srcload(pv[1], add(pv[2], d), n)
            break
        items = s.extract(r, o, n)
        return s.assemble(items, n)
    def dfl(s, r, o, n):
        if r.dflt == "un": return UNDEF
        if r.dflt == "zero": return 0
        return s.srcload(r.dflt[1], o, n)
    def partial(s, r, o, n):
        for k in range(max(0, o - 31), o + 1):
            c = r.cells.get(k)
            if c is not None and k + c[0] >= o + n:
                v = c[1]
                if v is UNDEF: return UNDEF
                if isinstance(v, int): return (v >> (8 * (o - k))) & ((1 << (8 * n)) - 1)
                if isinstance(v, Lin):
                    x = s.u(v, 8 * c[0])
                    if o > k: x, _ = s.divmod_const(x, 1 << (8 * (o - k)))
                    _, y = s.divmod_const(x, 1 << (8 * n)) if not isinstance(x, int) else (0, x & ((1 << (8 * n)) - 1))
                    return y
                return s.fresh("part", 0, (1 << (8 * n)) - 1, True)
        items = s.extract(r, o, n)
        return s.assemble(items, n)
    def assemble(s, items, n):
        val = 0; pos = 0; und = False
        for l, v in items:
            l = s.num.norm(l) if isinstance(l, Lin) else l
            if isinstance(l, Lin): return s.fresh("mix", 0, (1 << (8 * n)) - 1, True)
            if v[0] == "z": x = 0
            elif v[0] == "un": und = True; x = 0
            elif v[0] == "s": 
                x = v[1]
                if x is UNDEF: und = True; x = 0
            else: x = s.srcload(v[1], v[2], l)
            if isinstance(x, int): x &= (1 << (8 * l)) - 1
            elif isinstance(x, Lin): x = s.u(x, 8 * l)
            else:
                if len(items) == 1: return x
                return s.fresh("mix", 0, (1 << (8 * n)) - 1, True)
            val = add(val, scale(x, 1 << (8 * pos))); pos += l
        if und: return UNDEF
        return val
    def srcload(s, sid, so, n):
        S = Source.ALL[sid]
        so = s.num.norm(so) if isinstance(so, Lin) else so
        if S.data is not None:
            if isinstance(so, int): return int.from_bytes(S.data[so:so + n], "little")
            return s.constload(S, so, n)
        if n == 1 and S.label and S.label.startswith("cstr"):
            pass
        v = s.term(("byte", sid, n), (so,), 0, (1 << (8 * n)) - 1, lossy=S.lossy)
        return v
    def constload(s, S, so, n):
        return s.table([int.from_bytes(S.data[i:i + n], "little") for i in range(0, len(S.data) - n + 1)], so, n)
    def tableload(s, r, o, n):
        tab = []
        for k in range(0, r.size - n + 1):
            try:
                v = s.load(Ptr(r.id, k, r.gen), n) if (k in r.cells or r.dflt != "un") else None
            except Exception: v = None
            tab.append(v if isinstance(v, (int, Ptr, Fn)) else None)
        return s.table(tab, o, n)
    def table(s, tab, o, n):
        """abstraction of a constant table indexed by expression o: o = g*i + b; linear templates in i, i div 10, i mod 10"""
        N = s.num
        l, h = N.rng(o)
        l = max(l, 0); h = min(h, len(tab) - 1)
        g = 0
        for _, c in o.t:
            from math import gcd
            g = gcd(g, c)
        b = o.k % g
        idx = Lin(tuple((v, c // g) for v, c in o.t), (o.k - b) // g)   # o = g*idx + b
        il = (l - b + g - 1) // g; ih = (h - b) // g
        vals = [(i, tab[g * i + b]) for i in range(il, ih + 1)]
        if any(not isinstance(v, int) for _, v in vals):
            if len(vals) <= 64:
                i = s.pickvalue(idx, il, ih)
                return tab[g * i + b]
            raise Unsupported("table lookup")
        vs = [v for _, v in vals]
        if min(vs) == max(vs): return vs[0]
        if len(vals) <= 4:
            i = s.pickvalue(idx, il, ih); return tab[g * i + b]
        best = None
        def lin_fit(f):
            # v = a*f(i)+c by majority over the first entries
            cand = {}
            for (i1, v1), (i2, v2) in zip(vals, vals[1:]):
                if f(i2) != f(i1) and (v2 - v1) % (f(i2) - f(i1)) == 0:
                    a = (v2 - v1) // (f(i2) - f(i1)); c = v1 - a * f(i1)
                    cand[(a, c)] = cand.get((a, c), 0) + 1
            if not cand: return None
            a, c = max(cand, key=lambda k: cand[k])
            bad = [i for i, v in vals if a * f(i) + c != v]
            return a, c, bad
        fits = []
        for nm, f in (("i", lambda i: i), ("d", lambda i: i // 10), ("m", lambda i: i % 10)):
            r = lin_fit(f)
            if r: fits.append((len(r[2]), nm, r))
        fits.sort(key=lambda x: x[0])
        if fits and fits[0][0] <= len(vals) // 4:
            _, nm, (a, c, bad) = fits[0]
            for i in bad:
                if s.decide_eq(sub(idx, i)): return tab[g * i + b]
            if nm == "i": x = idx
            else:
                q, m = s.divmod_const(idx, 10)
                x = q if nm == "d" else m
            return add(scale(x, a), c)
        # group into maximal runs of equal values when few
        runs = []
        for i, v in vals:
            if runs and runs[-1][2] == v: runs[-1][1] = i
            else: runs.append([i, i, v])
        if len(runs) <= 40:
            for a, z, v in runs[:-1]:
                if not s.decide_ge(sub(idx, z + 1)): return v
            return runs[-1][2]
        return s.term(("table", n, tuple(tab)), (o,), min(vs), max(vs), lossy=2)
    def pickvalue(s, e, lo, hi):
        e = s.num.norm(e)
        if isinstance(e, int): return e
        for i in range(lo, hi):
            if s.decide_eq(sub(e, i)): return i
        s.assume_or_die("eq", sub(e, hi))
        return hi
    def store(s, p, n, v):
        r = s.access(p, n, "write", True)
        o = p.o
        if isinstance(o, Lin): o = s.num.norm(o)
        if r.dflt == "any":
            # what was written last at a place is known as long as nothing may have overwritten it
            r = s.wreg(r.id); d = {}
            for q, (m, w) in r.cells.items():
                x = sub(o, q)
                x = s.num.norm(x) if isinstance(x, Lin) else x
                if isinstance(x, int) and (x >= m or x <= -n): d[q] = (m, w)
            d[o] = (n, v); r.cells = d
            return
        if r.pieces is None and isinstance(o, int):
            r = s.wreg(r.id)
            c = r.cells.get(o)
            if c is not None and c[0] == n:
                r.cells[o] = (n, v); return
            hit = False
            for k in range(max(0, o - 31), o + n):
                q = r.cells.get(k)
                if q is not None and k + q[0] > o: hit = True; break
            if not hit:
                r.cells[o] = (n, v); return
            # overlapping: remove covered cells, cut partial ones
            for k in range(max(0, o - 31), o + n):
                q = r.cells.get(k)
                if q is None or k + q[0] <= o: continue
                if k >= o and k + q[0] <= o + n: del r.cells[k]; continue
                if isinstance(q[1], int) or q[1] is UNDEF:
                    del r.cells[k]
                    x = q[1]
                    if k < o: r.cells[k] = (o - k, x if x is UNDEF else x & ((1 << (8 * (o - k))) - 1))
                    e = k + q[0]
                    if e > o + n: r.cells[o + n] = (e - o - n, x if x is UNDEF else (x >> (8 * (o + n - k))) & ((1 << (8 * (e - o - n))) - 1))
                else:
                    s.put(r, o, [(n, ("s", v))]); return
            r.cells[o] = (n, v)
            return
        s.put(r, o, [(n, ("s", v))])
    # --- block ops; n int or Lin, may be zero
    def nonzero(s, n):
        """False if n is zero (may split)"""
        if isinstance(n, int): return n != 0
        return not s.decide_eq(n)
    def items(s, p, n, what="read"):
        r = s.access(p, n, what)
        if r.dflt == "any": raise Unsupported("contents of an object that are not followed")
        o = p.o
        if r.pieces is None and isinstance(o, int) and isinstance(n, int):
            # direct cells
            out = []; pos = o; end = o + n; ok = True
            cells = r.cells
            ks = sorted(k for k in cells if k + cells[k][0] > o and k < end)
            for k in ks:
                m, v = cells[k]
                if k < o or k + m > end: ok = False; break
                if k > pos: out.append((k - pos, s.gapval(r, pos)))
                out.append((m, ("s", v))); pos = k + m
            if ok:
                if pos < end: out.append((end - pos, s.gapval(r, pos)))
                return out
        elif r.pieces is None and not r.cells:
            return [(n, s.gapval(r, o))]
        return s.extract(r, o, n)
    def gapval(s, r, o):
        if r.dflt == "un": return ("un",)
        if r.dflt == "zero": return ("z",)
        return ("src", r.dflt[1], o)
    def write_items(s, p, n, items):
        r = s.access(p, n, "write", True)
        if r.dflt == "any":
            s.wreg(r.id).cells = {}
            return
        o = p.o
        if r.pieces is None and isinstance(o, int) and isinstance(n, int) and all(isinstance(l, int) for l, _ in items) and n <= 4096 and all(v[0] != "src" for _, v in items):
            # cells mode
            r = s.wreg(r.id)
            bad = [k for k in r.cells if k < o + n and k + r.cells[k][0] > o and (k < o or k + r.cells[k][0] > o + n)]
            for k in bad:
                m, v = r.cells[k]
                if not (isinstance(v, int) or v is UNDEF): break
            else:
                for k in bad:
                    m, v = r.cells.pop(k)
                    if k < o: r.cells[k] = (o - k, v if v is UNDEF else v & ((1 << (8 * (o - k))) - 1))
                    e = k + m
                    if e > o + n: r.cells[o + n] = (e - o - n, v if v is UNDEF else (v >> (8 * (o + n - k))) & ((1 << (8 * (e - o - n))) - 1))
                for k in [k for k in r.cells if o <= k < o + n]: del r.cells[k]
                pos = o
                for l, v in items:
                    if v[0] == "s": r.cells[pos] = (l, v[1])
                    elif v[0] == "un":
                        if r.dflt != "un": r.cells[pos] = (l, UNDEF)
                    elif v[0] == "z":
                        if r.dflt != "zero":
                            q = pos; rem = l
                            while rem > 0:
                                st = min(8 - q % 8, rem)
                                r.cells[q] = (st, 0); q += st; rem -= st
                    pos += l
                return
        s.put(r, o, items)
    def copy(s, d, src, n):
        n = s.num.norm(n) if isinstance(n, Lin) else n
        if isinstance(n, int) and n == 0: return
        if not (isinstance(d, Ptr) and isinstance(src, Ptr)) or isinstance(n, Lin):
            if not s.nonzero(n): return
        it = s.items(src, n)
        s.write_items(d, n, it)
    # --- lifetime
    def free(s, p, what="free"):
        if isinstance(p, int) and p == 0: return
        if not isinstance(p, Ptr): raise Alarm("mem", "%s of invalid pointer %r" % (what, p))
        r = s.regs.get(p.r)
        if r is None: raise Alarm("mem", "%s of already released memory (%s)" % (what, DEADLABEL.get(p.r, "object")))
        if r.kind != "heap": raise Alarm("mem", "%s of non-heap memory (%s)" % (what, r.label))
        if r.gen != p.g: raise Alarm("mem", "%s through a stale pointer (%s)" % (what, r.label))
        o = s.num.norm(p.o) if isinstance(p.o, Lin) else p.o
        if o != 0:
            if isinstance(o, int) or not s.decide_eq(o): raise Alarm("mem", "%s of pointer into the middle of %s" % (what, r.label))
        DEADLABEL[r.id] = r.label
        del s.regs[r.id]
    def kill(s, rid):
        r = s.regs.pop(rid, None)
        if r is not None: DEADLABEL[rid] = r.label
