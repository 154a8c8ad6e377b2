"""Environment models, part 1: C library (memory, strings, time, assertions) and the
intrinsics of the analysis contexts.  Every model is a transfer function on abstract states:
it branches into the outcomes the interface allows."""
from .lin import *
from .state import *
import re
from .engine import PUSHED

class Mod:
    __slots__ = ("name", "pure", "fn")
    def __init__(s, name, pure, fn): s.name = name; s.pure = pure; s.fn = fn

REG = {}
def model(*names, pure=False):
    def d(f):
        for n in names: REG[n] = Mod(n, pure, f)
        return f
    return d

class Models:
    def __init__(s, cfg=None, override=()):
        s.tab = dict(REG); s.cfg = cfg or {}
        for n in override: s.tab.pop(n, None)
        s.marks = {}
    def get(s, n): return s.tab.get(n)
    def setup(s, eng, st):
        r = st.newreg(4, "env", "errno"); r.dflt = "zero"
        st.ghost["errno"] = r.id
        for k, v in s.cfg.items(): st.ghost["cfg:" + k] = v
    def at_exit(s, eng, st):
        eng.marks_end(st)
    def asm(s, eng, st, f, I):
        txt = I.x[0].v[1]
        if txt.strip() == "":
            if I.ty.k != "v": raise Unsupported("inline assembly with a result")
            f.idx += 1; return
        if "RDTSC" in txt.upper():
            g = st.top()
            a = st.fresh("tsc", 0, 2**32 - 1); b = st.fresh("tsc", 0, 2**32 - 1)
            g.env[I.dst] = Agg([a, b]); g.idx += 1; return
        raise Unsupported("inline assembly")

# ------------------------------------------------------------------ helpers
def iv(eng, st, v, w, signed=False):
    v = eng.intval(st, v, w)
    return st.sg(v, w) if signed else st.u(v, w)
def nint(st, e):
    e = st.num.norm(e) if isinstance(e, Lin) else e
    return e
def set_errno(st, v):
    r = st.wreg(st.ghost["errno"]); r.cells[0] = (4, v)
def fname(st): return st.frames[-1].fn.name
def cint(st, v, w=32, what="value"):
    """concretise a small integer"""
    if isinstance(v, Cond): v = 1 if st.decide(v) else 0
    if isinstance(v, int): return v
    if v is UNDEF: raise Alarm("mem", "uninitialised %s" % what)
    if isinstance(v, Lin):
        v = st.num.norm(v)
        if isinstance(v, int): return v
        l, h = st.num.rng(v)
        if h - l <= 64: return st.pickvalue(v, l, h)
    raise Unsupported("symbolic %s" % what)
def isz(st, v):
    """is pointer value null (may split)"""
    if isinstance(v, (Ptr, Fn)): return False
    if isinstance(v, int): return v == 0
    if v is UNDEF: raise Alarm("mem", "use of an uninitialised pointer")
    if isinstance(v, Lin): return st.decide_eq(v)
    raise Unsupported("pointer %r" % (v,))
def constbytes(st, p, limit=4096):
    """bytes of a constant C string"""
    out = []
    o = p.o
    if not isinstance(o, int): raise Unsupported("string at a variable offset")
    while len(out) < limit:
        b = st.load(Ptr(p.r, o + len(out), p.g), 1)
        if not isinstance(b, int): raise Unsupported("non-constant string")
        if b & 255 == 0: return bytes(out)
        out.append(b & 255)
    raise Unsupported("long string")

# ------------------------------------------------------------------ memory allocation
def alloc(eng, st, n, dflt, kind="heap", label=None):
    r = st.newreg(n, kind, label or "memory allocated in %s" % fname(st), dflt)
    st.ghost["allocs"] = st.ghost.get("allocs", 0) + 1
    return Ptr(r.id, 0)
@model("malloc")
def m_malloc(eng, st, f, I, a):
    return alloc(eng, st, nint(st, iv(eng, st, a[0], 64)), "un")
@model("calloc")
def m_calloc(eng, st, f, I, a):
    n = nint(st, iv(eng, st, a[0], 64)); m = nint(st, iv(eng, st, a[1], 64))
    if isinstance(n, int): t = scale(m, n)
    elif isinstance(m, int): t = scale(n, m)
    else: raise Unsupported("calloc of symbolic product")
    return alloc(eng, st, t, "zero")
@model("realloc")
def m_realloc(eng, st, f, I, a):
    n = nint(st, iv(eng, st, a[1], 64))
    p = a[0]
    if isz(st, p): return alloc(eng, st, n, "un")
    if isinstance(n, Lin) and st.decide_eq(n): n = 0
    r = st.region(p, "realloc")
    if n == 0:
        st.free(p, "realloc"); return 0
    if r.kind != "heap": raise Alarm("mem", "realloc of non-heap memory (%s)" % r.label)
    o = nint(st, p.o)
    if o != 0: raise Alarm("mem", "realloc of a pointer into the middle of %s" % r.label)
    q = alloc(eng, st, n, "un")
    old = r.size
    d = sub(n, old)
    m = old if (isinstance(d, int) and d >= 0) or (isinstance(d, Lin) and st.decide_ge(d)) else n
    m = nint(st, m)
    if not (isinstance(m, int) and m == 0) and (isinstance(m, int) or st.nonzero(m)):
        st.write_items(q, m, st.items(p, m))
    st.free(p, "realloc")
    DEADLABEL[p.r] = r.label + ", moved by realloc"
    return q
@model("reallocarray")
def m_reallocarray(eng, st, f, I, a):
    n = nint(st, iv(eng, st, a[1], 64)); m = nint(st, iv(eng, st, a[2], 64))
    t = scale(m, n) if isinstance(n, int) else scale(n, m) if isinstance(m, int) else None
    if t is None: raise Unsupported("reallocarray")
    return m_realloc(eng, st, f, I, [a[0], t])
@model("free", pure=False)
def m_free(eng, st, f, I, a):
    eng.obligations += 1
    if isz(st, a[0]): return None
    st.region(a[0], "free")
    for k, v in list(st.ghost.items()):
        if k[0] == "thr" and v.status == "run" and isinstance(v.arg, Ptr) and v.arg.r == a[0].r:
            raise Alarm("mem", "memory freed while a background thread may still use it")
    st.free(a[0])
@model("strdup")
def m_strdup(eng, st, f, I, a):
    n = strlen(eng, st, a[0])
    q = alloc(eng, st, add(n, 1), "un")
    st.write_items(q, add(n, 1), st.items(a[0], add(n, 1)))
    return q
@model("strndup")
def m_strndup(eng, st, f, I, a):
    n = strlen(eng, st, a[0], iv(eng, st, a[1], 64))
    q = alloc(eng, st, add(n, 1), "un")
    if st.nonzero(n): st.write_items(q, n, st.items(a[0], n))
    st.store(Ptr(q.r, n), 1, 0)
    return q

# ------------------------------------------------------------------ block operations
def blockargs(eng, st, d, s, n):
    n = nint(st, iv(eng, st, n, 64))
    if isinstance(n, int): return n
    if st.decide_eq(n): return 0
    return nint(st, n)
@model("llvm.memcpy.p0.p0.i64", "memcpy", "llvm.memcpy.inline.p0.p0.i64", "mempcpy")
def m_memcpy(eng, st, f, I, a):
    n = blockargs(eng, st, a[0], a[1], a[2])
    eng.obligations += 1
    if n == 0: return a[0]
    d, s = a[0], a[1]
    if isinstance(d, Ptr) and isinstance(s, Ptr) and d.r == s.r and not (d.o == s.o and I.op == "call" and fnisintr(I)):
        # overlap?
        x = sub(sub(d.o, s.o), n); y = sub(sub(s.o, d.o), n)
        if not (st.num.implies(x) if isinstance(x, Lin) else x >= 0) and not (st.num.implies(y) if isinstance(y, Lin) else y >= 0):
            dd = sub(d.o, s.o)
            if not (isinstance(dd, int) and dd == 0 and fnisintr(I)):
                if isinstance(x, int) and isinstance(y, int) or not (isinstance(x, Lin) and st.decide_ge(x)) and not (isinstance(y, Lin) and st.decide_ge(y)):
                    raise Alarm("mem", "memcpy between overlapping areas")
    if isinstance(d, Ptr): st.access(d, n, "write", True)
    st.copy(d, s, n)
    return a[0]
def fnisintr(I): return False
@model("llvm.memmove.p0.p0.i64", "memmove")
def m_memmove(eng, st, f, I, a):
    n = blockargs(eng, st, a[0], a[1], a[2])
    eng.obligations += 1
    if n == 0: return a[0]
    if isinstance(a[0], Ptr): st.access(a[0], n, "write", True)
    st.copy(a[0], a[1], n)
    return a[0]
@model("llvm.memset.p0.i64", "memset", "bzero", "explicit_bzero")
def m_memset(eng, st, f, I, a):
    if len(a) == 2: a = [a[0], 0, a[1]]
    n = blockargs(eng, st, a[0], None, a[2])
    if n == 0: return a[0]
    c = a[1]
    if isinstance(c, int) and c & 255 == 0: it = [(n, ("z",))]
    elif isinstance(n, int) and n <= 256: it = [(1, ("s", c if not isinstance(c, int) else c & 255))] * n
    else: it = [(n, ("src", Source("fill", lossy=True).id, 0))]
    st.write_items(a[0], n, it)
    return a[0]

def bytesof(st, v, l):
    """known bytes of an item or None"""
    if not isinstance(l, int): 
        return None
    if v[0] == "z": return bytes(l)
    if v[0] == "s":
        x = v[1]
        if x is UNDEF: raise Alarm("mem", "use of uninitialised bytes")
        if isinstance(x, int): return (x & ((1 << 8 * l) - 1)).to_bytes(l, "little")
        return None
    if v[0] == "src":
        S = Source.ALL[v[1]]
        if S.data is not None and isinstance(v[2], int): return S.data[v[2]:v[2] + l]
    if v[0] == "un": raise Alarm("mem", "use of uninitialised bytes")
    return None
LOWER = bytes(c + 32 if 65 <= c <= 90 else c for c in range(256))
def ci_group(S):
    return S.label[3:].split(":")[0] if S.label and S.label.startswith("ci:") else None
def cmp_items(st, A, B, ci=False):
    """compare two item lists of equal total length: 'eq', 'ne' or None (unknown)"""
    A = [(nint(st, l), v) for l, v in A]; B = [(nint(st, l), v) for l, v in B]
    i = j = 0; unknown = False
    la = lb = None
    while i < len(A) and j < len(B):
        l1, v1 = A[i]; l2, v2 = B[j]
        if l1 == 0 or isinstance(l1, Lin) and st.decide_eq(l1): i += 1; continue
        if l2 == 0 or isinstance(l2, Lin) and st.decide_eq(l2): j += 1; continue
        d = nint(st, sub(l1, l2))
        if d == 0: l = l1; n1 = n2 = True
        else:
            if (d > 0 if isinstance(d, int) else st.decide_ge(add(d, -1))): l = l2; n1 = False; n2 = True
            elif (d < 0 if isinstance(d, int) else not st.decide_eq(d)): l = l1; n1 = True; n2 = False
            else: l = l1; n1 = n2 = True
        h1 = v1; h2 = v2
        if not n1:
            h1, rest = st.cut(v1, l1, l); A[i] = (nint(st, sub(l1, l)), rest)
        if not n2:
            h2, rest = st.cut(v2, l2, l); B[j] = (nint(st, sub(l2, l)), rest)
        r = cmp_one(st, h1, h2, l, ci)
        if r == "ne": return "ne"
        if r is None: unknown = True
        if n1: i += 1
        if n2: j += 1
    return None if unknown else "eq"
def cmp_one(st, a, b, l, ci):
    if a[0] == "un" or b[0] == "un" or (a[0] == "s" and a[1] is UNDEF) or (b[0] == "s" and b[1] is UNDEF):
        raise Alarm("mem", "comparison of uninitialised bytes")
    if a[0] == "src" and b[0] == "src":
        S, T = Source.ALL[a[1]], Source.ALL[b[1]]
        if a[1] == b[1] or (ci and ci_group(S) and ci_group(S) == ci_group(T)):
            d = nint(st, sub(a[2], b[2]))
            if d == 0: return "eq"
    x = bytesof(st, a, l); y = bytesof(st, b, l)
    if x is not None and y is not None:
        if ci: x = x.translate(LOWER); y = y.translate(LOWER)
        return "eq" if x == y else "ne"
    if a[0] == "z" and b[0] == "z": return "eq"
    for p, q in ((a, b), (b, a)):
        if p[0] == "src" and (Source.ALL[p[1]].label or "").startswith("cstr"):
            if q[0] == "z": return "ne"
            z = bytesof(st, q, l)
            if z is not None and 0 in z: return "ne"
    if a[0] == "s" and b[0] == "s" and isinstance(a[1], (int, Lin)) and isinstance(b[1], (int, Lin)) and isinstance(l, int):
        u, v = st.u(a[1], 8 * l), st.u(b[1], 8 * l)
        d = nint(st, sub(u, v))
        if d == 0: return "eq"
        if isinstance(d, int): return "ne"
        if not ci: return "eq" if st.decide_eq(d) else "ne"
    if isinstance(l, int) and l <= 16:
        # compare byte by byte through terms
        try:
            allx = []
            for k in range(l):
                allx.append((byteval(st, a, l, k), byteval(st, b, l, k)))
        except Unsupported: return None
        for u, v in allx:
            d = nint(st, sub(u, v))
            if d == 0: continue
            if ci:
                if isinstance(d, int):
                    if LOWER[u if isinstance(u, int) else 0] == LOWER[v if isinstance(v, int) else 0] and isinstance(u, int): continue
                    if isinstance(u, int): return "ne"
                return None
            if isinstance(d, int): return "ne"
            if not st.decide_eq(d): return "ne"
        return "eq"
    return None
def byteval(st, v, l, k):
    if v[0] == "z": return 0
    if v[0] == "src": return st.srcload(v[1], add(v[2], k), 1)
    if v[0] == "s":
        x = v[1]
        if isinstance(x, int): return (x >> (8 * k)) & 255
        if isinstance(x, Lin) and l == 1: return st.u(x, 8)
    raise Unsupported("byte of value")
def compare(eng, st, p, q, n, ci=False):
    """0 or nonzero result of a comparison of n bytes"""
    eng.obligations += 1
    n = nint(st, n)
    if n == 0: return 0
    if not isinstance(n, int) and st.decide_eq(n): return 0
    A = st.items(p, n); B = st.items(q, n)
    r = cmp_items(st, A, B, ci)
    if r == "eq": return 0
    if r == "ne":
        x = knownbytes(st, p, n); y = knownbytes(st, q, n)
        if x is not None and y is not None and not ci: return 1 if x > y else -1
        return st.choose(2, "sign of comparison") * 2 - 1
    key = ("cmp", ci, tuple(sorted([str([(show(nint(st, l)), v[0], v[1] if v[0] != "s" else str(v[1]), show(nint(st, v[2])) if v[0] == "src" else "") for l, v in X]) for X in (A, B)])))
    k = st.ghost.get(key)
    if k is None:
        k = st.choose(3, "comparison of unrelated bytes") - 1
        st.ghost[key] = k
    return k
@model("memcmp", "bcmp")
def m_memcmp(eng, st, f, I, a):
    return compare(eng, st, a[0], a[1], iv(eng, st, a[2], 64))
@model("strncasecmp")
def m_strncasecmp(eng, st, f, I, a):
    return strcmpn(eng, st, a[0], a[1], iv(eng, st, a[2], 64), True)
@model("strncmp")
def m_strncmp(eng, st, f, I, a):
    return strcmpn(eng, st, a[0], a[1], iv(eng, st, a[2], 64), False)
@model("strcmp")
def m_strcmp(eng, st, f, I, a):
    return strcmpn(eng, st, a[0], a[1], None, False)
@model("strcasecmp")
def m_strcasecmp(eng, st, f, I, a):
    return strcmpn(eng, st, a[0], a[1], None, True)
def zero_in(st, p, n):
    """offset of the first certain NUL among the first n bytes, None if certainly none; raises Unsupported if unknown"""
    pos = 0
    for l, v in st.items(p, n):
        l = nint(st, l)
        b = bytesof(st, v, l) if isinstance(l, int) else None
        if b is not None:
            k = b.find(0)
            if k >= 0: return add(pos, k)
        elif v[0] == "z": return pos
        elif v[0] == "src" and Source.ALL[v[1]].label and Source.ALL[v[1]].label.split(":")[0] in ("cstr", "ci"): pass
        elif v[0] == "src" and Source.ALL[v[1]].data is not None and 0 not in Source.ALL[v[1]].data[:-1]: pass
        else: raise Unsupported("unknown bytes in string")
        pos = add(pos, l)
    return None
def knownbytes(st, p, n):
    out = b""
    for l, v in st.items(p, n):
        l = nint(st, l)
        b = bytesof(st, v, l) if isinstance(l, int) else None
        if b is None and v[0] == "z" and isinstance(l, int): b = bytes(l)
        if b is None and v[0] == "src" and isinstance(l, int) and isinstance(v[2], int) and Source.ALL[v[1]].data is not None: b = Source.ALL[v[1]].data[v[2]:v[2] + l]
        if b is None or len(b) != l: return None
        out += b
    return out
def strcmpn(eng, st, p, q, n, ci):
    if n is not None:
        n = nint(st, n)
        if n == 0 or (isinstance(n, Lin) and st.decide_eq(n)): return 0
    l1 = strlen(eng, st, p, n); l2 = strlen(eng, st, q, n)
    d = nint(st, sub(l1, l2))
    if d == 0 or (isinstance(d, Lin) and st.decide_eq(d)):
        if isinstance(l1, int):
            x = knownbytes(st, p, l1); y = knownbytes(st, q, l1)
            if x is not None and y is not None:
                if ci: x = x.lower(); y = y.lower()
                return 0 if x == y else 1 if x > y else -1
        return compare(eng, st, p, q, l1, ci)
    # different lengths: never equal; the sign is known for constants only
    if isinstance(l1, int) and isinstance(l2, int):
        x = knownbytes(st, p, l1); y = knownbytes(st, q, l2)
        if x is not None and y is not None:
            if ci: x = x.lower(); y = y.lower()
            return 1 if x > y else -1
    return st.choose(2, "sign of comparison") * 2 - 1
def strlen(eng, st, p, n=None):
    """length of a C string (bounded by n if given)"""
    eng.obligations += 1
    r = st.region(p, "string read")
    rest = sub(r.size, p.o)
    if n is not None:
        n = nint(st, n)
        d = sub(n, rest)
        if (d <= 0 if isinstance(d, int) else st.decide_ge(neg(d))): lim = n; over = False
        else: lim = rest; over = True
    else: lim = rest; over = True
    lim = nint(st, lim)
    if isinstance(lim, int) and lim <= 0: raise Alarm("mem", "string read outside %s" % r.label)
    pos = 0
    for l, v in st.items(Ptr(p.r, p.o, p.g), lim):
        l = nint(st, l)
        if v[0] == "un" or (v[0] == "s" and v[1] is UNDEF): raise Alarm("mem", "string function reads uninitialised bytes of %s" % r.label)
        if v[0] == "z": return pos
        b = bytesof(st, v, l) if isinstance(l, int) else None
        if b is not None:
            k = b.find(0)
            if k >= 0: return nint(st, add(pos, k))
        elif v[0] == "s" and l == 1 and isinstance(v[1], Lin):
            if st.decide_eq(st.u(v[1], 8)): return nint(st, pos)
        elif v[0] == "src":
            S = Source.ALL[v[1]]
            if S.data is not None:
                if isinstance(v[2], int):
                    k = S.data.find(b"\0", v[2])
                    if k >= 0: return add(pos, k - v[2])
                else:
                    z = [i for i, c in enumerate(S.data) if c == 0]
                    raise Unsupported("strlen at a variable offset of a constant")
            elif S.label and S.label.split(":")[0] in ("cstr", "ci", "free"): pass
            else:
                key = ("strlen", v[1], show(nint(st, v[2])))
                if isinstance(l, int) and l <= 4:
                    for k in range(l):
                        if st.decide_eq(st.srcload(v[1], add(v[2], k), 1)): return nint(st, add(pos, k))
                else:
                    ks = ("nuls", v[1])
                    seen = st.ghost.get(ks, ())
                    o1 = nint(st, v[2]); hit = None
                    for (o2, l2, r2) in seen:
                        if nint(st, sub(o1, o2)) == 0 and nint(st, sub(l, l2)) == 0: hit = r2
                    if hit is None:
                        if seen: st.lossy = st.lossy or "string length of unknown bytes"
                        if st.choose(2, "NUL in unknown bytes"):
                            x = st.fresh("strlen", 0, 1 << 40)
                            st.assume_or_die("ge", sub(sub(l, 1), x))
                            st.assume_or_die("eq", st.srcload(v[1], add(v[2], x), 1))
                            hit = x
                        else: hit = -1
                        st.ghost[ks] = seen + ((o1, l, hit),)
                    if hit != -1: return nint(st, add(pos, hit))
        elif v[0] == "s":
            raise Alarm("mem", "string function reads a pointer value")
        pos = add(pos, l)
    if over:
        raise Alarm("mem", "string function reads beyond %s of %s bytes (no terminator)" % (r.label, show(nint(st, r.size))))
    return nint(st, lim)
@model("strlen")
def m_strlen(eng, st, f, I, a): return strlen(eng, st, a[0])
@model("strnlen")
def m_strnlen(eng, st, f, I, a):
    n = iv(eng, st, a[1], 64)
    if not st.nonzero(n): return 0
    return strlen(eng, st, a[0], n)
@model("memchr")
def m_memchr(eng, st, f, I, a):
    n = nint(st, iv(eng, st, a[2], 64)); c = a[1]
    if n == 0: return 0
    if not isinstance(n, int) and st.decide_eq(n): return 0
    if not isinstance(c, int): raise Unsupported("memchr")
    pos = 0
    for l, v in st.items(a[0], n):
        l = nint(st, l)
        b = bytesof(st, v, l)
        if b is not None:
            k = b.find(bytes([c & 255]))
            if k >= 0: return eng.padd(st, a[0], nint(st, add(pos, k)))
        elif isinstance(l, int) and l <= 4:
            for k in range(l):
                if st.decide_eq(sub(byteval(st, v, l, k), c & 255)): return eng.padd(st, a[0], nint(st, add(pos, k)))
        else:
            st.lossy = st.lossy or "search in unknown bytes"
            if st.choose(2, "memchr finds"):
                x = st.fresh("memchr", 0, 1 << 40, True); st.assume_or_die("ge", sub(sub(l, 1), x))
                return eng.padd(st, a[0], nint(st, add(pos, x)))
        pos = add(pos, l)
    return 0
@model("memmem")
def m_memmem(eng, st, f, I, a):
    hl = nint(st, iv(eng, st, a[1], 64)); nl = nint(st, iv(eng, st, a[3], 64))
    eng.obligations += 1
    if nl == 0 or (isinstance(nl, Lin) and st.decide_eq(nl)): return a[0]
    d = sub(hl, nl)
    if not (d >= 0 if isinstance(d, int) else st.decide_ge(d)):
        if st.nonzero(hl): st.items(a[0], hl)
        return 0
    H = [(nint(st, l), v) for l, v in st.items(a[0], hl)]; N = [(nint(st, l), v) for l, v in st.items(a[2], nl)]
    pos = 0
    if all(bytesof(st, v, l) is not None for l, v in H) and all(bytesof(st, v, l) is not None for l, v in N):
        k = b"".join(bytesof(st, v, l) for l, v in H).find(b"".join(bytesof(st, v, l) for l, v in N))
        return 0 if k < 0 else eng.padd(st, a[0], k)
    for i, (l, v) in enumerate(H):
        if v[0] == "src" and (Source.ALL[v[1]].label or "").split(":")[0] == "free":
            pos = add(pos, l); continue
        if len(N) == 1 and v[0] == "src" and N[0][1][0] == "src" and N[0][1][1] == v[1]:
            dd = nint(st, sub(v[2], N[0][1][2])); ll = sub(l, nl)
            if dd == 0 and (ll >= 0 if isinstance(ll, int) else st.num.implies(ll)):
                return eng.padd(st, a[0], nint(st, pos))
            if isinstance(dd, Lin) and not st.decide_ge(sub(-1, dd)) and st.decide_eq(dd):
                if (ll >= 0 if isinstance(ll, int) else st.decide_ge(ll)): return eng.padd(st, a[0], nint(st, pos))
            # the middle of a match: assumed self-overlap free
            pos = add(pos, l); continue
        st.lossy = st.lossy or "search in unknown bytes"
        if st.choose(2, "memmem finds"):
            x = st.fresh("memmem", 0, 1 << 40, True)
            st.assume_or_die("ge", sub(d, x))
            return eng.padd(st, a[0], x)
        return 0
    return 0
@model("strcpy", "stpcpy", "strcat")
def m_strcpy(eng, st, f, I, a):
    n = strlen(eng, st, a[1]); d = a[0]
    if "strcat" in I.x[0].v[1]: d = eng.padd(st, d, strlen(eng, st, a[0]))
    eng.obligations += 1
    st.copy(d, a[1], add(n, 1))
    return eng.padd(st, d, n) if "stpcpy" in I.x[0].v[1] else a[0]
@model("strchr", "strrchr")
def m_strchr(eng, st, f, I, a):
    b = constbytes(st, a[0]) + b"\0"; c = cint(st, a[1]) & 255
    k = b.rfind(bytes([c])) if "strrchr" in I.x[0].v[1] else b.find(bytes([c]))
    return 0 if k < 0 else eng.padd(st, a[0], k)
def digits(st, e, w):
    """items of the last w decimal digits of e >= 0"""
    out = []
    for i in range(w):
        e, r = st.divmod_const(e, 10)
        out.append((1, ("s", add(r, 48))))
    return out[::-1]
def decimal(st, e, width=0, zero=False, signed=False):
    out = []
    neg = signed and (e < 0 if isinstance(e, int) else st.decide_ge(sub(-1, e)))
    if neg: e = sub(0, e)
    if isinstance(e, int): out = [(1, ("s", c)) for c in str(e).encode()]
    else:
        h = st.num.rng(e)[1]; k = 1
        while 10 ** k <= h and st.decide_ge(sub(e, 10 ** k)): k += 1
        out = digits(st, e, k)
    pad = max(0, width - len(out) - neg)
    sign = [(1, ("s", 45))] if neg else []
    return sign + [(1, ("s", 48))] * pad + out if zero else [(1, ("s", 32))] * pad + sign + out
FORMAT = re.compile(r"%(-?)(0?)([0-9]*|\*)(?:\.([0-9]+|\*))?(hh|h|ll|l|z|j|t)?([a-zA-Z%])")
def formatted(eng, st, fmt, a):
    """items of a formatted text, and its size"""
    out = []; tot = 0; i = 0; a = list(a)
    while i < len(fmt):
        if fmt[i] != "%":
            out.append((1, ("s", ord(fmt[i])))); tot = add(tot, 1); i += 1; continue
        m = FORMAT.match(fmt, i)
        if not m: raise Unsupported("format " + fmt)
        i = m.end(); left, zero, width, prec, size, c = m.groups()
        if c == "%": out.append((1, ("s", 37))); tot = add(tot, 1); continue
        if width == "*": width = cint(st, a.pop(0))
        width = int(width or 0)
        if prec == "*": prec = nint(st, iv(eng, st, a.pop(0), 32, True))
        elif prec is not None: prec = int(prec)
        x = a.pop(0)
        w = 64 if size in ("l", "ll", "z", "j", "t") else 32
        if c in "diu":
            if prec is not None or left or x is UNDEF: raise Unsupported("format " + fmt)
            it = decimal(st, nint(st, iv(eng, st, x, w, c != "u")), width, bool(zero), c != "u")
        elif c == "c": it = [(1, ("s", iv(eng, st, x, 8)))]
        elif c == "s" and not width:
            if prec is None: n = strlen(eng, st, x)
            elif prec == 0: n = 0
            else: n = strlen(eng, st, x, prec)
            it = st.items(x, n) if st.nonzero(n) else []
        else: raise Unsupported("format " + fmt)
        out += it
        for l, _ in it: tot = add(tot, l)
    return out, nint(st, tot)
@model("snprintf", "sprintf", "__snprintf_chk", "__sprintf_chk")
def m_snprintf(eng, st, f, I, a):
    n = I.x[0].v[1]; chk = "chk" in n; lim = "snprintf" in n
    k = 1 + lim + 2 * chk
    eng.obligations += 1
    it, tot = formatted(eng, st, constbytes(st, a[k]).decode("latin1"), a[k + 1:])
    if lim:
        mx = nint(st, iv(eng, st, a[1], 64))
        dd = sub(sub(mx, tot), 1)
        if not (dd >= 0 if isinstance(dd, int) else st.decide_ge(dd)):
            if not isinstance(mx, int): raise Unsupported("snprintf cut off at an unknown size")
            if mx:
                out = []; left = mx - 1
                for l, v in it:
                    l = nint(st, l)
                    if left == 0: break
                    if not isinstance(l, int):
                        raise Unsupported("snprintf cuts text of unknown size")
                    if l > left:
                        raise Unsupported("snprintf cuts text")
                    out.append((l, v)); left -= l
                st.write_items(a[0], mx, out + [(1, ("s", 0))])
            return tot
    st.write_items(a[0], add(tot, 1), it + [(1, ("s", 0))])
    return tot
@model("memrchr", "strstr", "strtol", "strtoul", "strncpy", "strncat")
def m_uns(eng, st, f, I, a): raise Unsupported("call of an unmodelled string function")

# ------------------------------------------------------------------ integers
@model("llvm.ctlz.i32", "llvm.ctlz.i64", pure=True)
def m_ctlz(eng, st, f, I, a):
    w = I.ty.w
    v = iv(eng, st, a[0], w)
    if isinstance(v, int): return w - v.bit_length()
    l, h = st.num.bounds(v)
    for k in range(l.bit_length(), h.bit_length()):
        if not st.decide_ge(sub(v, 1 << k)): return w - k
    return w - h.bit_length()
@model("llvm.cttz.i32", "llvm.cttz.i64", pure=True)
def m_cttz(eng, st, f, I, a):
    w = I.ty.w
    v = iv(eng, st, a[0], w)
    if isinstance(v, int): return (v & -v).bit_length() - 1 if v else w
    return st.fresh("cttz", 0, w, True)
@model("llvm.expect.i64", "llvm.expect.i32", "llvm.expect.i1", "llvm.expect.with.probability.i64", pure=True)
def m_expect(eng, st, f, I, a): return a[0]
@model("llvm.umin.i64", "llvm.umin.i32", "llvm.umax.i64", "llvm.umax.i32", pure=True)
def m_umin(eng, st, f, I, a):
    w = I.ty.w
    x, y = iv(eng, st, a[0], w), iv(eng, st, a[1], w)
    d = sub(x, y)
    g = d >= 0 if isinstance(d, int) else st.decide_ge(d)
    return (y if g else x) if "umin" in I.x[0].v[1] else (x if g else y)
@model("llvm.bswap.i32", "llvm.bswap.i64", "llvm.bswap.i16", pure=True)
def m_bswap(eng, st, f, I, a):
    w = I.ty.w
    if isinstance(a[0], int): return int.from_bytes((a[0] & ((1 << w) - 1)).to_bytes(w // 8, "little"), "big")
    v = iv(eng, st, a[0], w)
    return st.term(("bswap", w), (v,), 0, (1 << w) - 1, lossy=2)
@model("llvm.fshl.i32", "llvm.fshl.i64", "llvm.fshr.i32", "llvm.fshr.i64", pure=True)
def m_fsh(eng, st, f, I, a):
    w = I.ty.w
    if all(isinstance(x, int) for x in a):
        x, y, k = a[0] & ((1 << w) - 1), a[1] & ((1 << w) - 1), a[2] % w
        v = (x << w | y)
        return (v >> (w - k)) & ((1 << w) - 1) if "fshl" in I.x[0].v[1] else (v >> k) & ((1 << w) - 1)
    return st.fresh("rot", 0, (1 << w) - 1, True)
@model("llvm.umul.with.overflow.i64", "llvm.uadd.with.overflow.i64", "llvm.usub.with.overflow.i64", pure=True)
def m_ovf(eng, st, f, I, a):
    x, y = iv(eng, st, a[0], 64), iv(eng, st, a[1], 64)
    n = I.x[0].v[1]
    if "umul" in n:
        if isinstance(x, int): r = scale(y, x)
        elif isinstance(y, int): r = scale(x, y)
        else: raise Unsupported("multiplication overflow check")
    elif "uadd" in n: r = add(x, y)
    else: r = sub(x, y)
    if "usub" in n:
        o = not (r >= 0 if isinstance(r, int) else st.decide_ge(r))
    else:
        e = sub(r, 1 << 64)
        o = e >= 0 if isinstance(e, int) else st.decide_ge(e)
    return Agg([r, o])
@model("llvm.stacksave.p0", "llvm.stacksave", pure=True)
def m_ss(eng, st, f, I, a): return 0
@model("llvm.stackrestore.p0", "llvm.stackrestore", "llvm.donothing", "llvm.assume", pure=True)
def m_sr(eng, st, f, I, a): return None
@model("llvm.threadlocal.address.p0", "llvm.threadlocal.address", pure=True)
def m_tls(eng, st, f, I, a): return a[0]
@model("llvm.trap", "abort", "exit", "_exit", "__assert_rtn", "raise")
def m_trap(eng, st, f, I, a): raise Alarm("abort", "the process is aborted")
@model("__assert_fail")
def m_assert(eng, st, f, I, a):
    try: t = constbytes(st, a[0]).decode()
    except Exception: t = "?"
    raise Alarm("abort", "assertion `%s' fails" % t)
@model("mock_assert")
def m_mock(eng, st, f, I, a): raise Unsupported("mock")
@model("__errno_location", pure=True)
def m_errno(eng, st, f, I, a): return Ptr(st.ghost["errno"], 0)
@model("llvm.x86.sse42.pcmpestri128", pure=True)
def m_pcmpestri(eng, st, f, I, a):
    # a[0] ranges, a[1] len, a[2] data, a[3] len, imm: index of the first byte within a range, or 16
    return st.fresh("pcmpestri", 0, 16)
@model("tolower", "toupper")
def m_tolower(eng, st, f, I, a):
    v = iv(eng, st, a[0], 32, True)
    lowr = "tolower" in I.x[0].v[1]
    A, Z, d = (65, 90, 32) if lowr else (97, 122, -32)
    if isinstance(v, int): return v + d if A <= v <= Z else v
    if st.decide_ge(sub(v, A)) and st.decide_ge(sub(Z, v)): return add(v, d)
    return v

# ------------------------------------------------------------------ time
@model("clock_gettime")
def m_clock(eng, st, f, I, a):
    s = st.fresh("sec", 1, 1 << 33); n = st.fresh("nsec", 0, 999999999)
    if len(a) < 2: raise Unsupported("clock")
    st.store(a[1], 8, s); st.store(eng.padd(st, a[1], 8), 8, n)
    st.ghost["clock"] = st.ghost.get("clock", 0) + 1
    st.ghost["clock.s"] = s; st.ghost["clock.n"] = n
    st.ghost["clock.id"] = a[0]
    if st.ghost.get("clock.first") is None:
        st.ghost["clock.first"] = (s, n, a[0]); st.ghost["clock.firsttime"] = add(scale(s, 10**9), n)
    st.ghost["clock.realtime"] = int(a[0] in (0, 5))
    return 0
@model("time")
def m_time(eng, st, f, I, a):
    t = st.fresh("time", 0, 1 << 36)
    if not isz(st, a[0]): st.store(a[0], 8, t)
    return t
TMF = (("sec", 0, 60), ("min", 0, 59), ("hour", 0, 23), ("mday", 1, 31), ("mon", 0, 11), ("year", 70, 8099), ("wday", 0, 6), ("yday", 0, 365), ("isdst", 0, 0))
def digits_src(st, name, e):
    S = Source("digits:" + name); return S.id
def cfgm(st, k): return st.ghost.get("cfg:" + k)
@model("gmtime", "localtime")
def m_gmtime1(eng, st, f, I, a):
    r = st.ghost.get("tmbuf")
    if r is None: r = st.ghost["tmbuf"] = Ptr(st.newreg(56, "static", "the buffer of gmtime", "z").id, 0)
    return m_gmtime(eng, st, f, I, [a[0], r])
@model("gmtime_r", "localtime_r")
def m_gmtime(eng, st, f, I, a):
    gm = "gmtime" in I.x[0].v[1]
    tm = {}
    pick = st.choose(12, "month") if cfgm(st, "tmpick") else None
    for i, (n, lo, hi) in enumerate(TMF):
        v = pick % 7 if pick is not None and n == "wday" else pick if pick is not None and n == "mon" else lo + (hi - lo) // 2 if st.ghost.get("cfg:fixeddate") else st.fresh("tm_" + n, lo, hi)
        tm[n] = v
        st.store(eng.padd(st, a[1], 4 * i), 4, v)
    st.store(eng.padd(st, a[1], 40), 8, 0); st.store(eng.padd(st, a[1], 48), 8, UNDEF)
    st.ghost["tm"] = (gm, tuple(sorted(tm.items())))
    return a[1]
STRF = {"d": ("mday", 2, 0), "H": ("hour", 2, 0), "M": ("min", 2, 0), "S": ("sec", 2, 0), "Y": ("year", 4, 1900), "m": ("mon", 2, 1)}
STRX = {"T": "%H:%M:%S", "F": "%Y-%m-%d", "R": "%H:%M"}
@model("strftime")
def m_strftime(eng, st, f, I, a):
    fmt = constbytes(st, a[2]).decode("latin1")
    for k, v in STRX.items(): fmt = fmt.replace("%" + k, v)
    mx = nint(st, iv(eng, st, a[1], 64))
    items = []; tot = 0; i = 0
    off = {n: 4 * k for k, (n, _, _) in enumerate(TMF)}
    while i < len(fmt):
        c = fmt[i]
        if c != "%":
            items.append((1, ("s", ord(c)))); tot = add(tot, 1); i += 1; continue
        d = fmt[i + 1]; i += 2
        if d == "%": items.append((1, ("s", 37))); tot = add(tot, 1); continue
        if d in STRF:
            fn, w, base = STRF[d]
            v = st.load(eng.padd(st, a[3], off[fn]), 4)
            if v is UNDEF: raise Alarm("mem", "strftime reads uninitialised fields")
            items += digits(st, add(iv(eng, st, v, 32), base), w); tot = add(tot, w); continue
        if d in "aAbBhpcxXZ":
            # locale dependent: unknown text of unknown length
            n = st.fresh("locale", 1, 40)
            items.append((n, ("src", Source("locale").id, 0))); tot = add(tot, n); continue
        raise Unsupported("strftime %" + d)
    need = add(tot, 1)
    dd = sub(mx, need)
    ok = dd >= 0 if isinstance(dd, int) else st.decide_ge(dd)
    if not ok:
        if st.nonzero(mx): st.write_items(a[0], mx, [(mx, ("src", Source("garbage").id, 0))])
        return 0
    items.append((1, ("s", 0)))
    st.write_items(a[0], need, items)
    return tot
