"""Contracts used in place of functions that have checks of their own.

phr_parse_request: the contract established by the checks H03 and H04 (reads only the input, writes only the
results and the header slots, results lie within the consumed prefix) together with determinism: the outcome
is a function of the bytes, so parsing the same bytes again gives the same outcome and more input never
changes the end of a complete request."""
from .lin import *
from .state import *
from .models import model, iv, nint, cint, isz
from .env import cfg

def ge0(st, e): return e >= 0 if isinstance(e, int) else st.decide_ge(e)
def eq0(st, e): return e == 0 if isinstance(e, int) else st.decide_eq(e)
MINREQ = 14     # "A B HTTP/1.0\n\n"

@model("contract:phr_parse_request")
def c_phr(eng, st, f, I, a):
    eng.obligations += 1
    buf, ln = a[0], nint(st, iv(eng, st, a[1], 64))
    cap = nint(st, st.u(eng.intval(st, st.load(a[8], 8), 64), 64))
    last = nint(st, iv(eng, st, a[9], 64))
    if not (isinstance(ln, int) and ln == 0): st.access(buf, ln, "read")
    if not (isinstance(cap, int) and cap == 0): st.access(a[7], scale(cap, 32) if isinstance(cap, Lin) else 32 * cap, "write", True)
    for p in (a[2], a[3], a[4], a[5]): st.store(p, 8, 0)
    st.store(a[6], 4, -1); st.store(a[8], 8, 0)
    # which bytes are these?
    src = None; pos = None; fd = -1; atend = 0
    if not (isinstance(ln, int) and ln == 0):
        it = [x for x in st.items(buf, ln)]
        if len(it) == 1 and it[0][1][0] == "src":
            src, pos = it[0][1][1], nint(st, it[0][1][2])
    if src is not None:
        for k, F in st.ghost.items():
            if k[0] == "fd" and F.insrc == src: fd = k[1]; atend = int(eq0(st, nint(st, sub(F.inpos, add(pos, ln)))))
    st.ghost["parse.count"] = st.ghost.get("parse.count", 0) + 1
    st.ghost["parse.fd"] = fd; st.ghost["parse.pos"] = pos if pos is not None else 0; st.ghost["parse.len"] = ln
    st.ghost["parse.one"] = int(src is not None); st.ghost["parse.whole"] = atend
    memo = st.ghost.get("phr", ())
    uid = st.ghost["fd", fd].uid if fd != -1 else -1
    def done(r, n=0):
        x = st.ghost["parse.res"] = r if isinstance(r, int) and r < 0 else n
        st.ghost["parsed", uid] = (st.ghost["parse.pos"], ln, x, st.ghost.get(("parsed", uid), (0, 0, 0, 0))[3] + 1)
        return r
    known = None; i = len(memo)
    if src is not None:
        for j, (s, p, kind, v) in enumerate(memo):
            if s == src and eq0(st, nint(st, sub(p, pos))): known = (kind, v); i = j; break
    def put(kind, v):
        if src is None: return
        m = list(memo)
        if i < len(m): m[i] = (src, pos, kind, v)
        else: m.append((src, pos, kind, v))
        st.ghost["phr"] = tuple(m)
    if not (isinstance(last, int) and last == 0):
        # only correct if the first `last` bytes are known to be incomplete
        ok = known is not None and known[0] == "need" and ge0(st, nint(st, sub(known[1], last)))
        if not ok and st.choose(2, "input taken as incomplete because of a wrong previous length"): return done(-2)
    if known and known[0] == "ok":
        n = known[1]
        if ge0(st, nint(st, sub(ln, n))): return finish(eng, st, a, buf, ln, n, cap, done)
        return done(-2)
    if known and known[0] == "bad":
        if ge0(st, nint(st, sub(ln, known[1]))): return done(-1)
        return done(-2)
    low = known[1] if known else 0
    if known and ge0(st, nint(st, sub(low, ln))): return done(-2)
    outs = ["need"]
    if st.ghost.get("phr.ok", 0) < cfg(st, "requests", 9): outs.append("ok")
    if st.ghost.get("phr.bad", 0) < cfg(st, "badreq", 1): outs.append("bad")
    o = outs[st.choose(len(outs), "request parser")]
    if o == "need":
        put("need", ln); st.note("parser: incomplete"); return done(-2)
    if o == "bad":
        st.ghost["phr.bad"] = st.ghost.get("phr.bad", 0) + 1
        put("bad", ln); st.note("parser: malformed"); return done(-1)
    if not ge0(st, nint(st, sub(ln, MINREQ))): raise Dead("too short for a request")
    if cfg(st, "half") and isinstance(ln, int) and isinstance(low, int):
        # one request and nothing more, or two equal halves
        c = [x for x in (ln // 2, ln) if x > low and x >= MINREQ]
        if not c: raise Dead("too short for a request")
        n = c[st.choose(len(c), "request's part of the input")]
    else: n = st.fresh("reqlen", MINREQ, (1 << 31) - 1)
    st.assume_or_die("ge", sub(ln, n))
    st.assume_or_die("ge", sub(sub(n, low), 1))
    st.ghost["phr.ok"] = st.ghost.get("phr.ok", 0) + 1
    put("ok", n)
    st.note("parser: complete request")
    return finish(eng, st, a, buf, ln, n, cap, done)

def finish(eng, st, a, buf, ln, n, cap, done):
    if cfg(st, "half"):
        st.store(a[2], 8, eng.padd(st, buf, 0)); st.store(a[3], 8, 1)
        st.store(a[4], 8, eng.padd(st, buf, 2)); st.store(a[5], 8, 1)
        st.store(a[6], 4, 1); st.store(a[8], 8, 0)
        return done(n, n)
    mo = st.fresh("method.off", 0, 2); ml = st.fresh("method.len", 1, 1 << 20)
    to = st.fresh("target.off", 2, 1 << 20); tl = st.fresh("target.len", 1, 1 << 20)
    st.assume_or_die("ge", sub(to, add(add(mo, ml), 1)))
    st.assume_or_die("ge", sub(n, add(add(to, tl), 11)))
    st.store(a[2], 8, eng.padd(st, buf, mo)); st.store(a[3], 8, ml)
    st.store(a[4], 8, eng.padd(st, buf, to)); st.store(a[5], 8, tl)
    st.store(a[6], 4, st.fresh("minor", 0, 1))
    st.store(a[8], 8, 0)
    return done(n, n)

# findchar_fast(buf, buf_end, ranges, ranges_size, found): from a position in an object up to an end in it, finds a
# position between them; if it reports having found something there is a character at that position.
FINDCHAR = 5

@model("contract:findchar_fast")
def c_findchar(eng, st, f, I, a):
    eng.obligations += 2
    b, e = a[0], a[1]
    if not isinstance(b, Ptr) or not isinstance(e, Ptr): raise Alarm("mem", "characters are looked for outside any object")
    if b.r != e.r: raise Alarm("mem", "characters are looked for beyond the object")
    d = nint(st, sub(e.o, b.o))
    st.access(b, 0, "read")
    if not ge0(st, d): raise Alarm("mem", "characters are looked for beyond their end")
    if not (isinstance(d, int) and d == 0): st.access(b, d, "read")
    n = nint(st, iv(eng, st, a[3], 64))
    if not ge0(st, sub(16, n)): raise Alarm("mem", "more characters than a set of ranges holds")
    st.access(a[2], 16, "read")
    st.access(a[4], 4, "write", True)
    found = st.choose(2, "a character is found")
    st.store(a[4], 4, found)
    if found and not ge0(st, nint(st, sub(d, 1))): raise Dead("nothing to find")
    o = st.fresh("found.at", 0, 1 << 62)
    st.assume_or_die("ge", sub(o, b.o))
    st.assume_or_die("ge", sub(sub(e.o, o), found))
    return Ptr(b.r, o, b.g)

def body_findchar(eng, st):
    """the arguments the contract allows, and what it promises about the result"""
    n = st.fresh("size", 0, (1 << 31) - 1)
    from .ctxlib import ghost_src
    r = st.newreg(n, "env", "the characters", ("src", ghost_src(st, "bytes:characters"))); r.ro = True
    b = st.fresh("from", 0, (1 << 31) - 1); e = st.fresh("to", 0, (1 << 31) - 1)
    st.assume_or_die("ge", sub(e, b)); st.assume_or_die("ge", sub(n, e))
    rr = st.newreg(16, "env", "the ranges", ("src", ghost_src(st, "bytes:ranges"))); rr.ro = True
    m = st.fresh("ranges", 0, 16)
    fr = st.newreg(4, "stack", "found")
    keep = st.newreg(16, "stack", "the arguments")
    st.store(Ptr(keep.id, 0), 8, Ptr(r.id, b)); st.store(Ptr(keep.id, 8), 8, Ptr(r.id, e))
    def post(st, v):
        eng.obligations += 1
        b, e = st.load(Ptr(keep.id, 0), 8).o, st.load(Ptr(keep.id, 8), 8).o
        if not isinstance(v, Ptr) or v.r != r.id: raise Alarm("mem", "what is found is not in the object")
        k = eng.intval(st, st.load(Ptr(fr.id, 0), 4), 32)
        k = nint(st, k)
        some = not eq0(st, k)
        if not ge0(st, nint(st, sub(v.o, b))): raise Alarm("mem", "what is found lies before the start")
        if not ge0(st, nint(st, sub(sub(e, v.o), int(some)))): raise Alarm("mem", "what is found lies beyond the end")
    return [Ptr(r.id, b), Ptr(r.id, e), Ptr(rr.id, 0), m, Ptr(fr.id, 0)], post, [fr.id]
BODIES = {"findchar_fast": (body_findchar, ["p", "p", "p", "i", "p"])}

def applies(mod, name):
    F = mod.funcs.get(name)
    return F is not None and not F.decl and [t.k for t in F.ptys] == BODIES[name][1]
