"""Meaning of the intrinsics used by the analysis contexts."""
from .lin import *
from .state import *
from .engine import PUSHED
from .models import model, iv, nint, cint, isz, alloc, constbytes, cmp_items, bytesof
from .env import mkfd, getfd, setfd, ghost_src, will_wake_out, EPOLLIN, EPOLLET, mkaddr, bitnames, stall_check

def cs(st, p): return constbytes(st, p).decode("latin1")
@model("__sa_choice")
def x_choice(eng, st, f, I, a):
    n = cint(st, a[0]); l = cs(st, a[1])
    k = st.choose(n, l)
    st.note("%s = %d" % (l, k))
    return k
@model("__sa_range")
def x_range(eng, st, f, I, a):
    lo = cint(st, a[1]); hi = cint(st, a[2])
    lo &= (1 << 64) - 1; hi &= (1 << 64) - 1
    return st.fresh(cs(st, a[0]), lo, hi)
@model("__sa_assume")
def x_assume(eng, st, f, I, a):
    v = st.u(eng.intval(st, a[0], 32), 32)
    if isinstance(v, int): 
        if not v: raise Dead("assumption")
    elif st.decide_eq(v): raise Dead("assumption")
@model("__sa_check")
def x_check(eng, st, f, I, a):
    eng.obligations += 1
    v = a[0]
    if v is UNDEF: raise Alarm("mem", "check of an uninitialised value: " + cs(st, a[1]))
    msg = cs(st, a[1])
    eng.checks[msg] = eng.checks.get(msg, 0) + 1
    v = eng.intval(st, v, 32)
    v = st.u(v, 32)
    if isinstance(v, int): bad = v == 0
    else: bad = st.decide_eq(v)
    if bad: raise Alarm("check", msg)
@model("__sa_fail")
def x_fail(eng, st, f, I, a): raise Alarm("check", cs(st, a[0]))
@model("__sa_mark")
def x_mark(eng, st, f, I, a):
    m = st.ghost.get("marks", frozenset())
    st.ghost["marks"] = m | {cs(st, a[0])}
@model("__sa_same")
def x_same(eng, st, f, I, a):
    eng.obligations += 1
    msg = cs(st, a[3])
    eng.checks[msg] = eng.checks.get(msg, 0) + 1
    n = nint(st, iv(eng, st, a[2], 64))
    if n == 0 or (isinstance(n, Lin) and st.decide_eq(n)): return
    A = st.items(a[0], n); B = st.items(a[1], n)
    same(st, A, B, msg)
def same(st, A, B, msg):
    for X in (A, B):
        for l, v in X:
            if v[0] == "un" or (v[0] == "s" and v[1] is UNDEF): raise Alarm("check", msg + " (bytes never written)")
    r = cmp_items(st, A, B)
    if r == "eq": return
    if r is None:
        for X in (A, B):
            for l, v in X:
                if v[0] == "src" and Source.ALL[v[1]].lossy: st.lossy = st.lossy or "approximated contents"
    st.note("have %s, want %s" % (showitems(st, A), showitems(st, B)))
    raise Alarm("check", msg)
def showitems(st, X):
    out = []
    for l, v in X:
        b = bytesof(st, v, l) if v[0] != "un" and not (v[0] == "s" and v[1] is UNDEF) and isinstance(nint(st, l), int) else None
        if b is not None: out.append(repr(b)[1:])
        elif v[0] == "src": out.append("<%s bytes of %s at %s>" % (show(nint(st, l)), Source.ALL[v[1]].label, show(nint(st, v[2]))))
        elif v[0] == "s": out.append("<%s>" % (show(v[1]) if isinstance(v[1], Lin) else v[1],))
        else: out.append("<%s %s bytes>" % (show(nint(st, l)), v[0]))
    return " ".join(out)[:400]
@model("__sa_no_leaks")
def x_leaks(eng, st, f, I, a):
    eng.obligations += 1
    msg = cs(st, a[0])
    for r in st.regs.values():
        if r.kind in ("heap", "addrinfo", "ssl"): raise Alarm("leak", "%s: %s is never released" % (msg, r.label))
    for k, v in st.ghost.items():
        if k[0] == "fd": raise Alarm("leak", "%s: %s descriptor %d is never closed" % (msg, v.kind, k[1]))
        if k[0] == "thr" and v.joinable: raise Alarm("leak", "%s: a thread is never joined" % msg)
        if k[0] == "thr" and v.status == "run": raise Alarm("leak", "%s: a thread is still running" % msg)
@model("__sa_live")
def x_live(eng, st, f, I, a):
    eng.obligations += 1
    if not isinstance(a[0], Ptr): raise Alarm("check", cs(st, a[1]))
    r = st.regs.get(a[0].r)
    if r is None or r.gen != a[0].g: raise Alarm("check", cs(st, a[1]))
@model("__sa_is_live")
def x_islive(eng, st, f, I, a):
    if not isinstance(a[0], Ptr): return 0
    r = st.regs.get(a[0].r)
    return 1 if r is not None and r.gen == a[0].g else 0
@model("__sa_bytes")
def x_bytes(eng, st, f, I, a):
    n = nint(st, iv(eng, st, a[1], 64)); nm = cs(st, a[0])
    r = st.newreg(n, "env", "the object " + nm, ("src", ghost_src(st, "bytes:" + nm))); r.ro = True
    return Ptr(r.id, 0)
@model("__sa_forget")
def x_forget(eng, st, f, I, a):
    """accesses of the object stay checked, its contents are not followed"""
    r = st.wreg(a[0].r)
    r.cells = {}; r.pieces = None; r.dflt = "any"

@model("__sa_cstr")
def x_cstr(eng, st, f, I, a):
    n = nint(st, iv(eng, st, a[1], 64)); nm = cs(st, a[0])
    r = st.newreg(add(n, 1), "env", "the string " + nm)
    s = ghost_src(st, "cstr:" + nm)
    r.pieces = ([] if n == 0 else [(0, n, ("src", s, 0))]) + [(n, 1, ("s", 0))]
    r.ro = True
    return Ptr(r.id, 0)
@model("__sa_fill")
def x_fill(eng, st, f, I, a):
    n = nint(st, iv(eng, st, a[1], 64)); nm = cs(st, a[2])
    if n == 0 or (isinstance(n, Lin) and st.decide_eq(n)): return
    s = ghost_src(st, nm if ":" in nm else "bytes:" + nm)
    st.write_items(a[0], n, [(n, ("src", s, 0))])
@model("__sa_ghost")
def x_ghost(eng, st, f, I, a):
    r = st.newreg(1 << 62, "ghost", "ghost memory " + cs(st, a[0])); r.pieces = []
    r.pieces = [(0, 1 << 62, ("un",))]
    return Ptr(r.id, 0)
@model("__sa_copy")
def x_copy(eng, st, f, I, a):
    n = nint(st, iv(eng, st, a[2], 64))
    if n == 0 or (isinstance(n, Lin) and st.decide_eq(n)): return
    st.copy(a[0], a[1], n)
@model("__sa_objsize")
def x_objsize(eng, st, f, I, a):
    r = st.region(a[0], "size of")
    return nint(st, sub(r.size, a[0].o))
@model("__sa_config")
def x_config(eng, st, f, I, a): st.ghost["cfg:" + cs(st, a[0])] = cint(st, a[1])
@model("__sa_sock")
def x_sock(eng, st, f, I, a): return mkfd(eng, st, "sock")
@model("__sa_pipe")
def x_pipe(eng, st, f, I, a): return mkfd(eng, st, "pipe")
@model("__sa_file")
def x_file(eng, st, f, I, a): return mkfd(eng, st, "file", nonblock=False)
def fdv(eng, st, v): return cint(st, iv(eng, st, v, 32, True), what="descriptor")
@model("__sa_fd_open")
def x_fdopen(eng, st, f, I, a): return 1 if getfd(st, fdv(eng, st, a[0])) else 0
@model("__sa_fd_uid")
def x_fduid(eng, st, f, I, a):
    F = getfd(st, fdv(eng, st, a[0])); return F.uid if F else 0
@model("__sa_open_fds")
def x_openfds(eng, st, f, I, a): return sum(1 for k in st.ghost if k[0] == "fd")
@model("__sa_ep_events")
def x_epev(eng, st, f, I, a):
    F = getfd(st, fdv(eng, st, a[0]))
    return -1 if F is None or F.ep is None else (F.ep & 0x7fffffff)
@model("__sa_wakes_out")
def x_wakes(eng, st, f, I, a):
    F = getfd(st, fdv(eng, st, a[0])); return 1 if F and will_wake_out(st, F) else 0
@model("__sa_wakes_in")
def x_wakesin(eng, st, f, I, a):
    F = getfd(st, fdv(eng, st, a[0]))
    return 1 if F and F.ep is not None and F.ep & EPOLLIN else 0
@model("__sa_broken")
def x_broken(eng, st, f, I, a):
    F = getfd(st, fdv(eng, st, a[0])); return 1 if F is None or F.broken else 0
@model("__sa_outlog")
def x_outlog(eng, st, f, I, a):
    F = getfd(st, fdv(eng, st, a[0]))
    if F is None: raise Alarm("check", "descriptor unexpectedly closed")
    return Ptr(F.outlog, 0)
@model("__sa_outlen")
def x_outlen(eng, st, f, I, a):
    F = getfd(st, fdv(eng, st, a[0]))
    if F is None: raise Alarm("check", "descriptor unexpectedly closed")
    return nint(st, st.ghost["outlen", F.uid])
@model("__sa_inlog")
def x_inlog(eng, st, f, I, a):
    F = getfd(st, fdv(eng, st, a[0]))
    if F is None: raise Alarm("check", "descriptor unexpectedly closed")
    r = st.newreg(1 << 62, "ghost", "input", ("src", F.insrc))
    return Ptr(r.id, 0)
@model("__sa_inlen")
def x_inlen(eng, st, f, I, a):
    F = getfd(st, fdv(eng, st, a[0]))
    if F is None: raise Alarm("check", "descriptor unexpectedly closed")
    return nint(st, F.inpos)
@model("__sa_batch")
def x_batch(eng, st, f, I, a): return len(st.ghost.get("batch", ()))
@model("__sa_batch_fd")
def x_batchfd(eng, st, f, I, a):
    b = st.ghost.get("batch", ()); i = cint(st, a[0])
    return b[i][0] if i < len(b) else -1
@model("__sa_batch_uid")
def x_batchuid(eng, st, f, I, a):
    b = st.ghost.get("batch", ()); i = cint(st, a[0])
    return b[i][3] if i < len(b) else -1
@model("__sa_batch_bits")
def x_batchbits(eng, st, f, I, a):
    b = st.ghost.get("batch", ()); i = cint(st, a[0])
    return b[i][1] if i < len(b) else 0
@model("__sa_waits")
def x_waits(eng, st, f, I, a): return st.ghost.get("waits", 0)
@model("__sa_nothing_left")
def x_nothing_left(eng, st, f, I, a): stall_check(eng, st)
@model("__sa_uid_outlog")
def x_uoutlog(eng, st, f, I, a): return Ptr(st.ghost["outlogof", fdv(eng, st, a[0])], 0)
@model("__sa_uid_outlen")
def x_uoutlen(eng, st, f, I, a): return nint(st, st.ghost["outlen", fdv(eng, st, a[0])])
@model("__sa_uid_open")
def x_uopen(eng, st, f, I, a):
    u = fdv(eng, st, a[0])
    return int(any(k[0] == "fd" and F.uid == u for k, F in st.ghost.items()))
@model("__sa_ghost_int")
def x_gi(eng, st, f, I, a):
    k = cs(st, a[0])
    k = tuple(int(x) if x.isdigit() else x for x in k.split("/")) if "/" in k else k
    v = st.ghost.get(k, 0)
    if v is None: v = 0
    if isinstance(v, bool) or isinstance(v, Fn): v = int(bool(v))
    if isinstance(v, tuple): v = len(v)
    return nint(st, v)
@model("__sa_ghost_set")
def x_gs(eng, st, f, I, a): st.ghost[cs(st, a[0])] = nint(st, iv(eng, st, a[1], 64))
@model("__sa_find_fd")
def x_find(eng, st, f, I, a):
    k = cs(st, a[0]); i = cint(st, a[1])
    l = sorted(x[1] for x, v in st.ghost.items() if x[0] == "fd" and v.kind == k)
    return l[i] if i < len(l) else -1
@model("__sa_in_thread")
def x_inthr(eng, st, f, I, a): return 1 if st.ghost.get("inthread") else 0
@model("__sa_threads_running")
def x_thrrun(eng, st, f, I, a): return sum(1 for k, v in st.ghost.items() if k[0] == "thr" and v.status == "run")
@model("__sa_threads_unreaped")
def x_thrunr(eng, st, f, I, a): return sum(1 for k, v in st.ghost.items() if k[0] == "thr" and v.joinable)
@model("__sa_ssl_live")
def x_ssll(eng, st, f, I, a): return sum(1 for k in st.ghost if k[0] == "ssl")
@model("__sa_sslctx")
def x_sslctx(eng, st, f, I, a):
    r = st.newreg(1, "sslctx", "TLS context", "zero"); return Ptr(r.id, 0)
@model("__sa_addrinfo")
def x_addr(eng, st, f, I, a):
    fl = cint(st, a[0]); return mkaddr(eng, st, None if fl < 0 else fl)

@model("__sa_ep_et")
def x_epet(eng, st, f, I, a):
    F = getfd(st, fdv(eng, st, a[0]))
    return -1 if F is None or F.ep is None else int(bool(F.ep & EPOLLET))
@model("__sa_listen")
def x_listen(eng, st, f, I, a): return mkfd(eng, st, "listen")

@model("__sa_armed")
def x_armed(eng, st, f, I, a):
    v = st.ghost.get(("armed", fdv(eng, st, a[0])))
    if v is None: return -1
    return nint(st, v[cint(st, a[1])])
def rec(eng, st, a):
    r = st.ghost.get("nrecs", ()); i = cint(st, a[0])
    return r[i] if 0 <= i < len(r) else None
@model("__sa_rec_wd")
def x_recwd(eng, st, f, I, a):
    r = rec(eng, st, a); return r.wd if r else -99
@model("__sa_rec_mask")
def x_recmask(eng, st, f, I, a):
    r = rec(eng, st, a); return nint(st, r.mask) if r else 0
@model("__sa_rec_namelen")
def x_recnl(eng, st, f, I, a):
    r = rec(eng, st, a); return nint(st, r.namelen) if r else 0
@model("__sa_rec_name")
def x_recname(eng, st, f, I, a):
    r = rec(eng, st, a)
    if not r or r.namesrc is None: return 0
    g = st.newreg(1 << 62, "ghost", "file name", ("src", r.namesrc))
    return Ptr(g.id, 0)
@model("__sa_sock_state")
def x_sockstate(eng, st, f, I, a):
    return int(cs(st, a[1]) in st.ghost.get(("sockst", fdv(eng, st, a[0])), ()))
@model("__sa_sock_reuse")
def x_sockreuse(eng, st, f, I, a):
    """1: address reuse set, 2: before binding"""
    n = fdv(eng, st, a[0]); out = 0
    v = st.ghost.get(("sockopt", n, 1, 2))
    if v is not None and v[0] not in (0, None) and v[0] is not UNDEF: out |= 1 | (0 if v[1] else 2)
    return out
@model("__sa_nonblocking")
def x_nonblock(eng, st, f, I, a):
    F = getfd(st, fdv(eng, st, a[0])); return int(bool(F and F.nonblock))
@model("__sa_ctx_loaded")
def x_ctxloaded(eng, st, f, I, a):
    return len({n.replace("_chain", "") for n, ok in st.ghost.get("ctxuse", ()) if ok}) if all(ok for n, ok in st.ghost.get("ctxuse", ())) else 0
@model("__sa_tm")
def x_tm(eng, st, f, I, a):
    t = st.ghost.get("tm")
    if t is None: return -1
    k = cint(st, a[0])
    if k < 0: return int(t[0])
    return dict(t[1])[("sec", "min", "hour", "mday", "mon", "year", "wday")[k]]
@model("__sa_ctxs")
def x_ctxs(eng, st, f, I, a): return sum(1 for r in st.regs.values() if r.kind == "sslctx")

@model("__sa_parsed")
def x_parsed(eng, st, f, I, a):
    """the last parse of a connection's input: 0 position, 1 length, 2 result, 3 how many"""
    return nint(st, st.ghost.get(("parsed", fdv(eng, st, a[0])), (0, 0, 0, 0))[fdv(eng, st, a[1])])
