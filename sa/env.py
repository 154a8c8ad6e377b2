"""Environment models, part 2: descriptors, epoll, sockets, TLS, threads, timers, inotify, resolver.
The state of the environment is a set of typestate automata kept in the abstract state (ghost)."""
from collections import namedtuple
from .lin import *
from .state import *
from .engine import PUSHED
from .models import model, iv, nint, set_errno, cint, isz, alloc, constbytes, strlen, Models

EPOLLIN, EPOLLPRI, EPOLLOUT, EPOLLERR, EPOLLHUP, EPOLLRDHUP, EPOLLET, EPOLLONESHOT = 1, 2, 4, 8, 0x10, 0x2000, 1 << 31, 1 << 30
EAGAIN, EINTR, EBADF, EPIPE, ECONNRESET, ENOENT, EEXIST, EMFILE, EINVAL, ECONNABORTED, EADDRINUSE, EINPROGRESS, EFAULT = 11, 4, 9, 32, 104, 2, 17, 24, 22, 103, 98, 115, 14

FD = namedtuple("FD", "uid kind ep data iedge oedge nonblock inpos insrc eof drained outready broken outlog cnt sem armed exps qlen pending flags")
def mkfd(eng, st, kind, nonblock=True, sem=False):
    n = 0 if cfg(st, "fd0") else 3
    while ("fd", n) in st.ghost: n += 1
    for k, v in st.ghost.items():
        if k[0] == "ssl" and v.fd == n and v.alive:
            raise Alarm("env", "descriptor %d reused while a TLS session of its former connection is still alive" % n)
    st.ghost["fduid"] = u = st.ghost.get("fduid", 0) + 1
    insrc = outlog = None
    if kind in ("sock", "pipe", "file"):
        insrc = ghost_src(st, "input of descriptor %d (#%d)" % (n, u))
        r = st.newreg(1 << 62, "ghost", "output log"); r.pieces = []; outlog = r.id
        st.ghost["outlogof", u] = outlog
    st.ghost["fd", n] = FD(u, kind, None, None, False, False, nonblock, 0, insrc, False, True, True, False, outlog, 0, sem, None, 0, 0, 0, 0)
    st.ghost["outlen", u] = 0
    return n
def ghost_src(st, label):
    """a source that is stable under re-execution of the same instruction"""
    k = st.ghost.get("srcctr", 0); st.ghost["srcctr"] = k + 1
    tab = st.eng.srctab
    key = (label, k)
    if key not in tab: tab[key] = Source(label).id
    return tab[key]
def getfd(st, n):
    return st.ghost.get(("fd", n)) if isinstance(n, int) else None
def setfd(st, n, **kw): st.ghost["fd", n] = st.ghost["fd", n]._replace(**kw)
def cfg(st, k, d=0): return st.ghost.get("cfg:" + k, d)
def fdarg(eng, st, v): return cint(st, iv(eng, st, v, 32, True), what="descriptor")
def err(st, e): set_errno(st, e); return -1
def outlog_put(st, n, items, k):
    F = st.ghost["fd", n]
    r = st.wreg(F.outlog)
    pos = st.ghost["outlen", F.uid]
    from .state import sub
    P = list(r.pieces)
    o = pos
    for l, v in items: P.append((o, l, v)); o = add(o, l)
    r.pieces = P
    st.coalesce(r)
    st.ghost["outlen", F.uid] = nint(st, add(pos, k))

# ------------------------------------------------------------------ epoll
@model("epoll_create1", "epoll_create")
def m_epoll_create(eng, st, f, I, a): return mkfd(eng, st, "epoll")
def epdata(eng, st, ev):
    e = st.load(ev, 4)
    if e is UNDEF: raise Alarm("mem", "epoll_ctl with uninitialised events")
    e = cint(st, st.u(eng.intval(st, e, 32), 32), what="epoll events")
    d = st.load(eng.padd(st, ev, 4), 8)
    return e & 0xffffffff, d
@model("epoll_ctl")
def m_epoll_ctl(eng, st, f, I, a):
    eng.obligations += 1
    ep = fdarg(eng, st, a[0]); op = cint(st, a[1]); n = fdarg(eng, st, a[2])
    E = getfd(st, ep)
    if E is None or E.kind != "epoll": return err(st, EBADF)
    F = getfd(st, n)
    if F is None: return err(st, EBADF)
    if op == 1:
        if F.ep is not None: return err(st, EEXIST)
        ev, d = epdata(eng, st, a[3])
    elif op == 3:
        if F.ep is None: return err(st, ENOENT)
        ev, d = epdata(eng, st, a[3])
    elif op == 2:
        if F.ep is None: return err(st, ENOENT)
        st.ghost["lastdata", n] = F.data
        setfd(st, n, ep=None, data=None, iedge=False, oedge=False); return 0
    else: return err(st, EINVAL)
    avail = F.cnt > 0 or (not isinstance(F.exps, int)) or F.exps > 0 or F.qlen > 0 or F.pending > 0 or not F.drained
    setfd(st, n, ep=ev, data=d, iedge=bool(ev & EPOLLIN) and avail, oedge=bool(ev & EPOLLOUT) and F.outready)
    st.ghost["epseq"] = st.ghost.get("epseq", 0) + 1
    return 0
def stall_check(eng, st):
    for k, F in sorted(((k, v) for k, v in st.ghost.items() if k[0] == "fd"), key=lambda x: x[0][1]):
        if F.ep is None: continue
        et = F.ep & EPOLLET
        eng.obligations += 1
        if F.kind in ("eventfd", "timerfd", "inotify", "listen"):
            pend = {"eventfd": F.cnt, "timerfd": 0 if isinstance(F.exps, int) and F.exps == 0 else 1, "inotify": F.qlen, "listen": F.pending}[F.kind]
            if pend and et and not F.iedge:
                raise Alarm("stall", {"eventfd": "a signal is pending on an edge triggered event descriptor whose edge has been used: it is never delivered",
                    "timerfd": "timer expirations are left unread on an edge triggered timer descriptor", "inotify": "file system notifications are left unread on an edge triggered descriptor",
                    "listen": "connections are left waiting on an edge triggered listening descriptor"}[F.kind])
            if pend and not (F.ep & EPOLLIN): raise Alarm("stall", "pending %s but no read interest is registered" % F.kind)
        elif F.kind in ("sock", "pipe"):
            if not F.drained and (F.ep & EPOLLIN) and et and not F.iedge and not F.eof and not F.broken:
                raise Alarm("stall", "input is left unread on an edge triggered descriptor whose edge has been used")
    for k, S in list(st.ghost.items()):
        if k[0] == "ssl" and S.alive and S.fd is not None:
            F = getfd(st, S.fd)
            if F is None or F.ep is None: continue
            if S.want == "w" and not S.fatal:
                if not (F.ep & EPOLLOUT): raise Alarm("stall", "the TLS layer waits to write but the descriptor is not registered for write readiness")
            if S.want == "r" and not S.fatal and not (F.ep & EPOLLIN) and F.flags & 1:
                raise Alarm("stall", "the TLS layer waits to read but the descriptor is not registered for read readiness")
def will_wake_out(st, F):
    """a write readiness event will be reported without further action of the program"""
    if F.ep is None or not (F.ep & EPOLLOUT): return False
    return (not F.outready) or F.oedge or not (F.ep & EPOLLET)
def eligible(st, n, F, lim):
    """list of (bits, kind-of-environment-step)"""
    out = []
    if F.ep is None: return out
    et = F.ep & EPOLLET
    IN = F.ep & EPOLLIN; OUT = F.ep & EPOLLOUT; RD = F.ep & EPOLLRDHUP
    if F.kind == "eventfd":
        if F.cnt > 0 and IN and (F.iedge or not et): out.append((EPOLLIN, "e"))
    elif F.kind == "timerfd":
        if F.armed is not None and IN and not F.flags & 2: out.append((EPOLLIN, "t"))
        elif not (isinstance(F.exps, int) and F.exps == 0) and IN and (F.iedge or not et): out.append((EPOLLIN, "t0"))
    elif F.kind == "inotify":
        if IN and F.flags & 4 and not cfg(st, "quiet"): out.append((EPOLLIN, "n"))
        elif F.qlen and IN and (F.iedge or not et): out.append((EPOLLIN, "n0"))
    elif F.kind == "listen":
        left = cfg(st, "accepts") - st.ghost.get("accepted", 0)
        b = cfg(st, "acceptexact")
        for k in ([b] if b and left >= b else []) if b else range(1, min(left, cfg(st, "acceptburst", 2)) + 1):
            if IN: out.append((EPOLLIN, "l%d" % k))
    elif F.kind in ("sock", "pipe"):
        oute = OUT and (F.oedge or not F.outready or not et)
        menu = cfg(st, "menu", 0)
        if menu == 2:           # every combination the kernel may report
            for b in range(1, 32):
                bits = (EPOLLIN if b & 1 else 0) | (EPOLLOUT if b & 2 else 0) | (EPOLLRDHUP if b & 4 else 0) | (EPOLLHUP if b & 8 else 0) | (EPOLLERR if b & 16 else 0)
                if (bits & (EPOLLIN | EPOLLOUT | EPOLLRDHUP)) & ~F.ep: continue
                out.append((bits, "a"))
            return out
        ine = IN and not F.eof and st.ghost.get(("inrounds", F.uid), 0) < cfg(st, "inrounds", 9)
        if ine: out.append((EPOLLIN | (EPOLLOUT if OUT and F.outready and cfg(st, "truebits") else 0), "s"))
        if oute: out.append((EPOLLOUT, "s"))
        if not F.flags & 8:     # hang-up not reported yet
            if menu >= 0:
                out.append((EPOLLHUP, "h"))
                if menu >= 1:
                    if ine and RD: out.append((EPOLLIN | EPOLLRDHUP, "h"))
                    if oute: out.append((EPOLLOUT | EPOLLERR | EPOLLHUP, "h"))
                    if ine and oute: out.append((EPOLLIN | EPOLLOUT | EPOLLHUP | EPOLLERR | RD, "h"))
                    if RD: out.append((EPOLLRDHUP, "h"))
                    out.append((EPOLLERR, "h"))
        if menu >= 1 and ine and oute: out.append((EPOLLIN | EPOLLOUT, "s"))
    return out
@model("epoll_wait", "epoll_pwait")
def m_epoll_wait(eng, st, f, I, a):
    ep = fdarg(eng, st, a[0])
    E = getfd(st, ep)
    if E is None or E.kind != "epoll": return err(st, EBADF)
    mx = iv(eng, st, a[2], 32, True)
    st.ghost["waits"] = st.ghost.get("waits", 0) + 1
    st.ghost["clock.first"] = None
    st.ghost["clock.wait"] = st.ghost.get("clock", 0)
    if "cfg:maxwaits" in st.ghost and st.ghost["waits"] > cfg(st, "maxwaits"): raise Dead("wait limit")
    if isinstance(mx, int) and mx <= 0: return err(st, EINVAL)
    # threads may run while the loop waits
    for k, T in sorted(((k, v) for k, v in st.ghost.items() if k[0] == "thr"), key=lambda x: x[0][1]):
        if T.status == "run":
            run_thread(eng, st, k[1], T)
            return PUSHED
    r = st.access(a[1], 1, "write", True)
    room = sub(r.size, a[1].o); need = scale(mx, 12)
    st.oblige_ge(sub(room, need), "check", lambda: "the kernel is asked for up to %s events but there is room for %s bytes only" % (show(nint(st, mx)), show(nint(st, room))))
    stall_check(eng, st)
    hook = st.ghost.get("cfg:waithook")
    if cfg(st, "eintr") and st.ghost.get("eintrs", 0) < cfg(st, "eintr") and st.choose(2, "wait interrupted"):
        st.ghost["eintrs"] = st.ghost.get("eintrs", 0) + 1; st.ghost["batch"] = ()
        if st.ghost.get("sig") and cfg(st, "sigs") and st.choose(2, "by a termination signal"):
            return raise_signal(eng, st, st.ghost["sig"], lambda e, s: err(s, EINTR))
        return err(st, EINTR)
    timeout = iv(eng, st, a[3], 32, True)
    if timeout != -1 and not (isinstance(timeout, int) and timeout < 0):
        if st.choose(2, "wait times out"): st.ghost["batch"] = (); return 0
    batch = []; used = set()
    if cfg(st, "fullbatch"):
        for k, F in sorted(((k, v) for k, v in st.ghost.items() if k[0] == "fd"), key=lambda x: x[0][1]):
            c = eligible(st, k[1], F, None)
            if not c or (isinstance(mx, int) and len(batch) >= mx): continue
            bits = c[0][0]; i = len(batch)
            batch.append((k[1], bits, F.data, F.uid))
            p = eng.padd(st, a[1], 12 * i)
            st.store(p, 4, bits); st.store(eng.padd(st, p, 4), 8, F.data)
        if not batch: raise Dead("idle")
        st.ghost["batch"] = tuple(batch)
        return len(batch)
    nev = min(cfg(st, "nev", 1), mx if isinstance(mx, int) else 99)
    for i in range(nev):
        cand = []
        for k, F in sorted(((k, v) for k, v in st.ghost.items() if k[0] == "fd"), key=lambda x: x[0][1]):
            if k[1] in used: continue
            for bits, step in eligible(st, k[1], F, None): cand.append((k[1], bits, step))
        if not cand:
            if not batch:
                if cfg(st, "noidle"): raise Alarm("stall", "the loop waits although a notification is due that nothing will trigger")
                raise Dead("idle")
            break
        if cfg(st, "fixedorder"): 
            cand = [c for c in cand if not used or c[0] > max(used)] or []
            if not cand: break
        c = st.choose(len(cand) + (1 if batch else 0), "event")
        if c == len(cand): break
        n, bits, step = cand[c]
        used.add(n)
        F = getfd(st, n)
        if step[0] == "e": setfd(st, n, iedge=False)
        elif step == "t":
            x = st.fresh("expirations", 1, 1 << 20)
            setfd(st, n, exps=nint(st, add(F.exps, x)), iedge=False, flags=F.flags | 2 if F.armed is not None and F.armed[1] == (0, 0) else F.flags)
        elif step in ("t0", "n0"): setfd(st, n, iedge=False)
        elif step == "n":
            k = 1 + st.choose(cfg(st, "records", 2), "records queued")
            setfd(st, n, qlen=F.qlen + k, iedge=False, flags=F.flags & ~4)
        elif step[0] == "l":
            k = int(step[1:])
            st.ghost["accepted"] = st.ghost.get("accepted", 0) + k
            setfd(st, n, pending=F.pending + k, iedge=False)
        else:
            kw = {}
            if bits & EPOLLIN:
                kw["iedge"] = False; kw["drained"] = False
                st.ghost["inrounds", F.uid] = st.ghost.get(("inrounds", F.uid), 0) + 1
            if bits & EPOLLOUT: kw["oedge"] = False; kw["outready"] = True
            if step == "h": kw["flags"] = F.flags | 8
            setfd(st, n, **kw)
        batch.append((n, bits, F.data, F.uid))
        p = eng.padd(st, a[1], 12 * i)
        st.store(p, 4, bits); st.store(eng.padd(st, p, 4), 8, F.data)
    st.ghost["batch"] = tuple(batch)
    st.note("epoll_wait reports " + ", ".join("descriptor %d: %s" % (n, bitnames(b)) for n, b, _, _ in batch))
    return len(batch)
def bitnames(b):
    return "|".join(n for v, n in ((1, "IN"), (4, "OUT"), (8, "ERR"), (16, "HUP"), (0x2000, "RDHUP")) if b & v)

# ------------------------------------------------------------------ descriptors
def uses_fd(st, p, n):
    """the object a thread was given holds the descriptor (it is where the descriptor's handler was)"""
    d = st.ghost.get(("lastdata", n))
    return not isinstance(p, Ptr) or not isinstance(d, Ptr) or p.r == d.r
@model("close")
def m_close(eng, st, f, I, a):
    eng.obligations += 1
    n = fdarg(eng, st, a[0])
    F = getfd(st, n)
    if F is None:
        if n < 0: raise Alarm("env", "close of descriptor %d" % n)
        raise Alarm("env", "close of a descriptor that is not open (%d)" % n)
    if F.ep is not None: raise Alarm("env", "%s descriptor closed while still registered with epoll" % F.kind)
    for k, T in st.ghost.items():
        if k[0] == "thr" and T.status == "run" and F.kind == "eventfd" and uses_fd(st, T.arg, n):
            raise Alarm("env", "event descriptor closed while the background thread that signals it may still be running")
    if F.kind == "file":
        st.ghost["file.outlen"] = st.ghost["outlen", F.uid]; st.ghost["file.inlen"] = F.inpos
        t = st.ghost.get("truncated")
        fl = st.ghost.get("open.flags", 0)
        ok = bool(fl & 0o1000) and st.ghost.get("open.uid") == F.uid
        if t and t[0] == F.uid:
            ok = ok or (t[1] == 0 and t[2] == 0) or nint(st, sub(t[1], st.ghost["outlen", F.uid])) == 0
        st.ghost["file.replaced"] = int(ok)
    del st.ghost["fd", n]
    st.ghost["closed"] = st.ghost.get("closed", ()) + ((n, F.uid),)
    return 0
@model("eventfd")
def m_eventfd(eng, st, f, I, a):
    v = cint(st, a[0]); fl = cint(st, a[1])
    n = mkfd(eng, st, "eventfd", nonblock=bool(fl & 0o4000), sem=bool(fl & 1))
    setfd(st, n, cnt=v)
    return n
@model("timerfd_create")
def m_timerfd(eng, st, f, I, a):
    return mkfd(eng, st, "timerfd", nonblock=bool(cint(st, a[1]) & 0o4000))
@model("timerfd_settime")
def m_settime(eng, st, f, I, a):
    eng.obligations += 1
    n = fdarg(eng, st, a[0]); F = getfd(st, n)
    if F is None or F.kind != "timerfd": return err(st, EBADF)
    v = []
    for o in (0, 8, 16, 24):
        x = st.load(eng.padd(st, a[2], o), 8)
        if x is UNDEF: raise Alarm("mem", "timerfd_settime with uninitialised times")
        v.append(nint(st, st.sg(eng.intval(st, x, 64), 64)))
    for x in (v[1], v[3]):
        if not (isinstance(x, int) and 0 <= x < 10**9):
            if (x < 0 or x >= 10**9) if isinstance(x, int) else (not st.decide_ge(x) or st.decide_ge(sub(x, 10**9))): return err(st, EINVAL)
    for x in (v[0], v[2]):
        if not (x >= 0 if isinstance(x, int) else st.decide_ge(x)): return err(st, EINVAL)
    dis = (v[2] == 0 if isinstance(v[2], int) else st.decide_eq(v[2])) and (v[3] == 0 if isinstance(v[3], int) else st.decide_eq(v[3]))
    fl = cint(st, a[1])
    setfd(st, n, armed=None if dis else (("abs" if fl & 1 else "rel",) + tuple(v[2:]), tuple(v[:2])), exps=0, flags=F.flags & ~2, drained=True)
    st.ghost["armed", n] = None if dis else (fl, v[2], v[3], v[0], v[1])
    st.ghost["armcount"] = st.ghost.get("armcount", 0) + 1
    return 0
@model("read", "recv")
def m_read(eng, st, f, I, a):
    n = fdarg(eng, st, a[0]); F = getfd(st, n)
    sz = nint(st, iv(eng, st, a[2], 64))
    if F is None: return err(st, EBADF)
    eng.obligations += 1
    k = F.kind
    if k == "eventfd":
        if isinstance(sz, int) and sz < 8: return err(st, EINVAL)
        st.access(a[1], 8, "write", True)
        if F.cnt == 0:
            if F.nonblock: return err(st, EAGAIN)
            raise Alarm("stall", "blocking read of an event descriptor without signals")
        v = 1 if F.sem else F.cnt
        st.store(a[1], 8, v)
        setfd(st, n, cnt=F.cnt - v, drained=True)
        st.ghost["evread"] = st.ghost.get("evread", 0) + v
        return 8
    if k == "timerfd":
        if isinstance(sz, int) and sz < 8: return err(st, EINVAL)
        st.access(a[1], 8, "write", True)
        if isinstance(F.exps, int) and F.exps == 0:
            # it may expire right now
            if F.armed is not None and not F.flags & 2 and st.ghost.get("lateexp", 0) < cfg(st, "lateexp", 1) and st.choose(2, "timer expires during the read loop"):
                st.ghost["lateexp"] = st.ghost.get("lateexp", 0) + 1
                x = st.fresh("expirations", 1, 1 << 20)
                st.store(a[1], 8, x)
                if F.armed[1] == (0, 0): setfd(st, n, flags=F.flags | 2)
                st.ghost["expread"] = nint(st, add(st.ghost.get("expread", 0), x))
                return 8
            if F.nonblock: return err(st, EAGAIN)
            raise Alarm("stall", "blocking read of a timer without expirations")
        st.store(a[1], 8, F.exps)
        st.ghost["expread"] = nint(st, add(st.ghost.get("expread", 0), F.exps))
        setfd(st, n, exps=0)
        return 8
    if k == "inotify": return read_inotify(eng, st, n, F, a[1], sz)
    if k in ("sock", "pipe", "file"):
        if sz == 0 or (isinstance(sz, Lin) and st.decide_eq(sz)): return 0
        st.access(a[1], sz, "write", True)
        outs = []
        st.ghost["reads"] = min(st.ghost.get("reads", 0), cfg(st, "maxreads", -1)) + 1
        if F.eof:
            return 0
        if cfg(st, "maxreads", 10**9) < st.ghost["reads"]: raise Dead("read limit")
        outs = ["full", "short", "eof"]
        if F.nonblock and k != "file": outs += ["again"]
        if k == "sock": outs += ["reset"]
        if cfg(st, "readfail"): outs += ["eio"]
        outs = plan(st, "reads", outs, "full", "again")
        if cfg(st, "oneread") and k == "sock": outs = ["short"]
        o = outs[st.choose(len(outs), "read of descriptor %d" % n)]
        if o == "again": setfd(st, n, drained=True); return err(st, EAGAIN)
        if o == "eof":
            setfd(st, n, drained=True, eof=True); st.ghost["eofs"] = st.ghost.get("eofs", 0) + 1
            return 0
        if o == "reset": setfd(st, n, drained=True, eof=True, broken=True); return err(st, ECONNRESET)
        if o == "eio": setfd(st, n, drained=True); return err(st, 5)
        if o == "full": c = sz
        else:
            hi = st.num.bounds(sz)[1] if isinstance(sz, Lin) else sz
            if hi <= 1: raise Dead("no short read")
            c = sz // 2 if cfg(st, "half") and isinstance(sz, int) else st.fresh("received", 1, hi - 1)
            st.assume_or_die("ge", sub(sub(sz, 1), c))
        st.write_items(a[1], c, [(c, ("src", F.insrc, F.inpos))])
        setfd(st, n, inpos=nint(st, add(F.inpos, c)), drained=(o == "short"))
        st.note("read: %s of %s bytes" % (o, show(nint(st, sz))))
        return c
    if k in ("listen", "epoll"): return err(st, EINVAL)
    raise Unsupported("read of " + k)
@model("write", "send")
def m_write(eng, st, f, I, a):
    n = fdarg(eng, st, a[0]); F = getfd(st, n)
    sz = nint(st, iv(eng, st, a[2], 64))
    eng.obligations += 1
    if F is None:
        return err(st, EBADF)
    k = F.kind
    if k == "eventfd":
        v = st.load(a[1], 8)
        if not isinstance(v, int): raise Unsupported("eventfd write")
        setfd(st, n, cnt=F.cnt + v, iedge=True)
        st.ghost["evsig"] = st.ghost.get("evsig", 0) + v
        return 8
    if k in ("sock", "pipe", "file"):
        if sz == 0 or (isinstance(sz, Lin) and st.decide_eq(sz)): return 0
        st.access(a[1], sz, "read")
        if F.broken: return epipe(eng, st, I, a)
        outs = ["full", "part"]
        if k != "file": 
            if F.nonblock: outs += ["again"]
            outs += ["pipe", "reset"] if k == "sock" else ["pipe"]
        c = cfg(st, "writes", 0)
        if c:
            w = st.ghost.get("writecalls", 0); st.ghost["writecalls"] = w + 1
            if w >= c: outs = ["full"]
        if cfg(st, "nowriteerr"): outs = [o for o in outs if o not in ("pipe", "reset")]
        outs = plan(st, "writes", outs, "part", "full")
        o = outs[st.choose(len(outs), "write to descriptor %d" % n)]
        if o == "again": setfd(st, n, outready=False); st.note("write: would block"); return err(st, EAGAIN)
        if o in ("pipe", "reset"):
            setfd(st, n, broken=True); st.note("write: connection broken")
            return epipe(eng, st, I, a) if o == "pipe" else err(st, ECONNRESET)
        return put_out(eng, st, n, F, a[1], sz, o)
    if k in ("listen", "epoll", "timerfd", "inotify"): return err(st, EINVAL)
    raise Unsupported("write to " + k)
def epipe(eng, st, I, a):
    """writing to a connection the peer has closed raises SIGPIPE unless that is prevented"""
    if cfg(st, "sigpipe"):
        nosig = len(a) > 3 and I.x[0].v[1] == "send" and isinstance(a[3], int) and a[3] & 0x4000
        if not nosig and isz(st, st.ghost.get(("sig", 13), 0)): raise Alarm("abort", "writing to a connection closed by the peer ends the process (SIGPIPE is neither ignored nor handled)")
    return err(st, EPIPE)
def plan(st, key, outs, first, then):
    """a long run of calls that end alike: the first n one way, all others another"""
    n = cfg(st, "deep")
    if key == "writes" and cfg(st, "fullwrites"): return ["full"]
    if not n: return outs
    c = st.ghost["deep", key] = st.ghost.get(("deep", key), 0) + 1
    o = first if c <= n else then
    return [o] if o in outs else outs
def put_out(eng, st, n, F, p, sz, o, blocks=True):
    if o == "full": c = sz
    else:
        hi = st.num.bounds(sz)[1] if isinstance(sz, Lin) else sz
        if hi <= 1: raise Dead("no partial write")
        c = cfg(st, "piece") or (sz // 2 if cfg(st, "half") and isinstance(sz, int) else st.fresh("sent", 1, hi - 1))
        st.assume_or_die("ge", sub(sub(sz, 1), c))
        if blocks and F.kind != "file": setfd(st, n, outready=False)
    it = st.items(p, c)
    for l, v in it:
        if v[0] == "un" or (v[0] == "s" and v[1] is UNDEF): raise Alarm("mem", "uninitialised bytes are sent")
    outlog_put(st, n, it, c)
    st.note("write: %s of %s bytes" % ("all" if o == "full" else show(nint(st, c)), show(nint(st, sz))))
    return c
@model("open", "open64")
def m_open(eng, st, f, I, a):
    fl = cint(st, a[1])
    st.ghost["open.flags"] = fl
    if st.choose(2, "open fails"): return err(st, ENOENT)
    n = mkfd(eng, st, "file", nonblock=False)
    st.ghost["opens"] = st.ghost.get("opens", 0) + 1
    st.ghost["open.fd"] = n; st.ghost["open.uid"] = getfd(st, n).uid
    return n
@model("ftruncate")
def m_ftruncate(eng, st, f, I, a):
    n = fdarg(eng, st, a[0])
    if getfd(st, n) is None: return err(st, EBADF)
    st.ghost["truncated"] = (getfd(st, n).uid, nint(st, iv(eng, st, a[1], 64, True)), st.ghost["outlen", getfd(st, n).uid])
    return 0
@model("fstat", "fstat64", "__fxstat")
def m_fstat(eng, st, f, I, a):
    n = fdarg(eng, st, a[0]); F = getfd(st, n)
    if F is None: return err(st, EBADF)
    mode = {"sock": 0o140666, "listen": 0o140666, "pipe": 0o010600, "file": 0o100644}.get(F.kind, 0)
    st.write_items(a[1], 144, [(24, ("src", Source("stat").id, 0)), (4, ("s", mode)), (116, ("src", Source("stat").id, 0))])
    return 0
@model("fcntl", "fcntl64")
def m_fcntl(eng, st, f, I, a):
    n = fdarg(eng, st, a[0]); F = getfd(st, n)
    if F is None: return err(st, EBADF)
    op = cint(st, a[1])
    if op == 3: return 0o4000 if F.nonblock else 2
    if op == 4: setfd(st, n, nonblock=bool(cint(st, a[2]) & 0o4000)); return 0
    if op in (1, 2): return 0
    raise Unsupported("fcntl")
@model("fsync", "fdatasync", "shutdown")
def m_nop0(eng, st, f, I, a):
    return 0 if getfd(st, fdarg(eng, st, a[0])) else err(st, EBADF)

# ------------------------------------------------------------------ sockets
@model("socket")
def m_socket(eng, st, f, I, a):
    if st.choose(2, "socket fails"): st.ghost["sockfail"] = 1; return err(st, EMFILE)
    ty = iv(eng, st, a[1], 32)
    nb = True
    if isinstance(ty, int): nb = bool(ty & 0o4000)
    else:
        m = eng.maskand(st, ty, 0o4000, 32)
        nb = m != 0 if isinstance(m, int) else not st.decide_eq(m)
    n = mkfd(eng, st, "sock", nonblock=nb)
    st.ghost["sockargs", n] = (a[0], ty, a[2])
    return n
@model("setsockopt")
def m_setsockopt(eng, st, f, I, a):
    n = fdarg(eng, st, a[0])
    if getfd(st, n) is None: return err(st, EBADF)
    lv = cint(st, a[1]); op = cint(st, a[2])
    v = st.load(a[3], 4) if isinstance(a[3], Ptr) else None
    st.ghost["sockopt", n, lv, op] = (v, "bound" in st.ghost.get(("sockst", n), ()))
    return 0
def sockst(st, n, x): st.ghost["sockst", n] = st.ghost.get(("sockst", n), ()) + (x,)
@model("bind")
def m_bind(eng, st, f, I, a):
    n = fdarg(eng, st, a[0])
    if getfd(st, n) is None: return err(st, EBADF)
    if st.choose(2, "bind fails"): sockst(st, n, "bindfail"); return err(st, EADDRINUSE)
    sockst(st, n, "bound"); st.ghost["bindargs", n] = (a[1], a[2])
    return 0
@model("listen")
def m_listen(eng, st, f, I, a):
    n = fdarg(eng, st, a[0])
    if getfd(st, n) is None: return err(st, EBADF)
    if st.choose(2, "listen fails"): sockst(st, n, "listenfail"); return err(st, EADDRINUSE)
    sockst(st, n, "listening"); setfd(st, n, kind="listen")
    return 0
@model("connect")
def m_connect(eng, st, f, I, a):
    n = fdarg(eng, st, a[0])
    if getfd(st, n) is None: return err(st, EBADF)
    sockst(st, n, "connected"); st.ghost["connargs", n] = (a[1], a[2])
    c = st.choose(3, "connect")
    if c == 0: return 0
    return err(st, EINPROGRESS if c == 1 else 111)
@model("accept4", "accept")
def m_accept(eng, st, f, I, a):
    n = fdarg(eng, st, a[0]); F = getfd(st, n)
    if F is None: return err(st, EBADF)
    if F.kind != "listen": return err(st, EINVAL)
    fl = cint(st, a[3]) if len(a) > 3 else 0
    if F.pending == 0:
        setfd(st, n, drained=True)
        if not F.nonblock: raise Alarm("stall", "blocking accept")
        return err(st, EAGAIN)
    if cfg(st, "accepterr") and st.ghost.get("accepterrs", 0) < cfg(st, "accepterr") and st.choose(2, "accept fails"):
        st.ghost["accepterrs"] = st.ghost.get("accepterrs", 0) + 1
        setfd(st, n, pending=F.pending - 1)
        return err(st, ECONNABORTED)
    setfd(st, n, pending=F.pending - 1)
    m = mkfd(eng, st, "sock", nonblock=bool(fl & 0o4000))
    st.ghost["acc"] = st.ghost.get("acc", ()) + (m,)
    return m
AddrInfo = "addrinfo"
@model("getaddrinfo")
def m_getaddrinfo(eng, st, f, I, a):
    for i in (0, 1):
        if not isz(st, a[i]): strlen(eng, st, a[i])
    st.ghost["gai"] = st.ghost.get("gai", 0) + 1
    h = a[2]
    if isinstance(h, Ptr):
        st.ghost["gai.hints"] = tuple(st.load(eng.padd(st, h, o), 4) for o in (0, 4, 8))
    if st.choose(2, "name resolution fails"): return -2
    st.store(a[3], 8, mkaddr(eng, st))
    st.ghost["gai.ok"] = st.ghost.get("gai.ok", 0) + 1
    return 0
def mkaddr(eng, st, flags=None):
    r = st.newreg(48, "addrinfo", "address list")
    al = st.fresh("addrlen", 1, 128)
    ad = st.newreg(128, "addr", "socket address", ("src", Source("addr").id))
    for o, v in ((0, flags if flags is not None else st.fresh("ai_flags", 0, 255)), (4, st.fresh("ai_family", 0, 40)), (8, st.fresh("ai_socktype", 0, 10)), (12, st.fresh("ai_protocol", 0, 255))):
        r.cells[o] = (4, v)
    r.cells[16] = (4, al); r.cells[24] = (8, Ptr(ad.id, 0)); r.cells[32] = (8, 0); r.cells[40] = (8, 0)
    return Ptr(r.id, 0)
@model("freeaddrinfo")
def m_freeaddrinfo(eng, st, f, I, a):
    eng.obligations += 1
    if isz(st, a[0]): return None
    r = st.region(a[0], "freeaddrinfo")
    if r.kind != "addrinfo" or nint(st, a[0].o) != 0: raise Alarm("mem", "freeaddrinfo of something that is not an address list")
    for k, T in st.ghost.items():
        if k[0] == "thr" and T.status == "run" and st.ghost.get("thrgai") == a[0].r: raise Alarm("mem", "address list freed while the background lookup may use it")
    ad = r.cells[24][1]
    st.kill(a[0].r); st.kill(ad.r)
    st.ghost["gaifreed"] = st.ghost.get("gaifreed", 0) + 1
    return None

# ------------------------------------------------------------------ inotify
@model("inotify_init1", "inotify_init")
def m_inotify_init(eng, st, f, I, a):
    n = mkfd(eng, st, "inotify", nonblock=bool(cint(st, a[0]) & 0o4000) if a else False)
    st.ghost["wds", getfd(st, n).uid] = ()
    return n
@model("inotify_add_watch")
def m_add_watch(eng, st, f, I, a):
    n = fdarg(eng, st, a[0]); F = getfd(st, n)
    if F is None or F.kind != "inotify": return err(st, EBADF)
    strlen(eng, st, a[1])
    if cfg(st, "watchfail", 1) and st.choose(2, "inotify_add_watch fails"): return err(st, ENOENT)
    w = st.ghost["wds", F.uid]
    key = a[1]
    for wd, k, live in w:
        if k == key and live: return wd
    wd = len(w) + 1
    st.ghost["wds", F.uid] = w + ((wd, key, True),)
    setfd(st, n, flags=F.flags | 4)
    return wd
@model("inotify_rm_watch")
def m_rm_watch(eng, st, f, I, a):
    n = fdarg(eng, st, a[0]); F = getfd(st, n); wd = cint(st, iv(eng, st, a[1], 32, True))
    if F is None or F.kind != "inotify": return err(st, EBADF)
    w = st.ghost["wds", F.uid]
    if not any(x[0] == wd and x[2] for x in w): return err(st, EINVAL)
    st.ghost["wds", F.uid] = tuple((x, k, live and x != wd) for x, k, live in w)
    return 0
NRec = namedtuple("NRec", "wd mask namelen namesrc")
def read_inotify(eng, st, n, F, p, sz):
    if F.qlen == 0:
        setfd(st, n, drained=True)
        return err(st, EAGAIN)
    wds = st.ghost["wds", F.uid]
    o = 0; recs = []
    q = F.qlen
    while q > 0:
        # every read returns at least one record if there is room for it
        if recs and st.choose(2, "record in the next read"): break
        opts = [w[0] for w in wds]
        if cfg(st, "oddwd", 1): opts = opts + [-1, len(wds) + 7]
        if not opts: raise Dead("no watches")
        wd = opts[st.choose(len(opts), "watch of the record")]
        mask = 0x4000 if wd == -1 else st.fresh("mask", 1, 0xffff)
        if wd != -1 and st.choose(2, "record has a name"):
            m = st.fresh("namelen16", 1, 17)     # name length rounded up to a multiple of 16
            ln = scale(m, 16)
            nl = st.fresh("namechars", 1, 255)
            st.assume_or_die("ge", sub(sub(ln, 1), nl)); 
            src = ghost_src(st, "cstr:name")
            nm = [(nl, ("src", src, 0)), (sub(ln, nl), ("z",))]
        else: ln = 0; nl = 0; src = None; nm = []
        tot = add(16, ln)
        if not isinstance(sz, int) or True:
            room = sub(sub(sz, o), tot)
            if not (room >= 0 if isinstance(room, int) else st.decide_ge(room)):
                if recs: break
                return err(st, EINVAL)
        st.write_items(eng.padd(st, p, o), 16, [(4, ("s", wd)), (4, ("s", mask)), (4, ("s", 0)), (4, ("s", ln))])
        if nm:
            st.write_items(eng.padd(st, p, add(o, 16)), ln, nm)
        recs.append(NRec(wd, mask, nl, src))
        o = nint(st, add(o, tot)); q -= 1
    setfd(st, n, qlen=q, flags=F.flags | 4 if q == 0 and st.ghost.get("inrounds.n", 0) < cfg(st, "inrounds", 2) else F.flags)
    st.ghost["inrounds.n"] = st.ghost.get("inrounds.n", 0) + 1
    st.ghost["nrecs"] = st.ghost.get("nrecs", ()) + tuple(recs)
    st.note("inotify read: %d records" % len(recs))
    return o

# ------------------------------------------------------------------ TLS
SSLS = namedtuple("SSLS", "fd alive server role lastop lastret lasterr want fatal mode pend shut")
@model("TLS_server_method", "TLS_client_method", "TLS_method")
def m_tlsm(eng, st, f, I, a):
    return Ptr(envobj(st, "method"), 0)
def envobj(st, name):
    k = "obj:" + name
    if k not in st.ghost:
        r = st.newreg(1, "env", name); st.ghost[k] = r.id
    return st.ghost[k]
@model("SSL_CTX_new")
def m_ctxnew(eng, st, f, I, a):
    r = st.newreg(1, "sslctx", "TLS context", "zero")
    st.ghost["ctxs"] = st.ghost.get("ctxs", 0) + 1
    return Ptr(r.id, 0)
@model("SSL_CTX_free")
def m_ctxfree(eng, st, f, I, a):
    eng.obligations += 1
    if isz(st, a[0]): return None
    r = st.region(a[0], "SSL_CTX_free")
    if r.kind != "sslctx": raise Alarm("mem", "SSL_CTX_free of something else")
    st.kill(a[0].r)
@model("SSL_CTX_use_certificate_file", "SSL_CTX_use_PrivateKey_file", "SSL_CTX_use_certificate_chain_file")
def m_ctxuse(eng, st, f, I, a):
    st.region(a[0], "TLS context use")
    nm = I.x[0].v[1]
    c = st.choose(3, nm)
    st.ghost["ctxuse"] = st.ghost.get("ctxuse", ()) + ((nm, c == 0),)
    return 1 if c == 0 else 0 if c == 1 else -1
@model("SSL_CTX_check_private_key")
def m_ctxchk(eng, st, f, I, a):
    return st.choose(2, "key check")
@model("SSL_CTX_ctrl", "SSL_CTX_set_options", "SSL_CTX_set_session_cache_mode", "SSL_CTX_set_alpn_select_cb", "SSL_CTX_set_mode")
def m_ctxctl(eng, st, f, I, a): return 1
@model("ERR_clear_error")
def m_errclear(eng, st, f, I, a): st.ghost["errq"] = None; return None
@model("ERR_get_error", "ERR_peek_error")
def m_errget(eng, st, f, I, a): return st.fresh("sslerr", 0, 2**32 - 1)
def ssl_of(st, v, what):
    if isz(st, v): raise Alarm("mem", "%s on a null TLS session" % what)
    r = st.region(v, what)
    S = st.ghost.get(("ssl", r.id))
    if S is None: raise Alarm("mem", "%s on something that is not a TLS session" % what)
    return r.id, S
def setssl(st, r, **kw):
    st.ghost["ssl", r] = st.ghost["ssl", r]._replace(**kw)
    if kw.get("lastop") == "write": st.ghost["sslwwant"] = {2: 1, 3: 2}.get(kw["lasterr"], 0)
    if "want" in kw: st.ghost["sslwant"] = {None: 0, "r": 1, "w": 2}[kw["want"]]
@model("SSL_new")
def m_sslnew(eng, st, f, I, a):
    if isz(st, a[0]): return 0
    st.region(a[0], "SSL_new")
    r = st.newreg(1, "ssl", "TLS session", "zero")
    st.ghost["ssl", r.id] = SSLS(None, True, True, None, None, None, None, None, False, 0, 0, False)
    st.ghost["sslwant"] = st.ghost["sslwwant"] = 0
    st.ghost["sslnew"] = st.ghost.get("sslnew", 0) + 1
    return Ptr(r.id, 0)
@model("SSL_free")
def m_sslfree(eng, st, f, I, a):
    eng.obligations += 1
    if isz(st, a[0]): return None
    if isinstance(a[0], Ptr) and a[0].r not in st.regs: raise Alarm("mem", "TLS session released twice")
    r, S = ssl_of(st, a[0], "SSL_free")
    del st.ghost["ssl", r]
    st.kill(r); DEADLABEL[r] = "TLS session"
    st.ghost["sslfree"] = st.ghost.get("sslfree", 0) + 1
@model("SSL_set_fd")
def m_sslsetfd(eng, st, f, I, a):
    r, S = ssl_of(st, a[0], "SSL_set_fd")
    n = fdarg(eng, st, a[1])
    if getfd(st, n) is None: return 0
    for k, T in st.ghost.items():
        if k[0] == "ssl" and k[1] != r and T.alive and T.fd == n: raise Alarm("env", "two TLS sessions on one descriptor")
    setssl(st, r, fd=n); return 1
@model("SSL_is_server")
def m_sslserver(eng, st, f, I, a):
    r, S = ssl_of(st, a[0], "SSL_is_server"); return 1
@model("SSL_set_accept_state", "SSL_set_connect_state")
def m_sslrole(eng, st, f, I, a):
    r, S = ssl_of(st, a[0], "SSL_set_accept_state")
    setssl(st, r, role="accept" if "accept" in I.x[0].v[1] else "connect")
@model("SSL_ctrl")
def m_sslctrl(eng, st, f, I, a):
    r, S = ssl_of(st, a[0], "SSL_ctrl")
    if cint(st, a[1]) == 33:
        m = cint(st, iv(eng, st, a[2], 64)); setssl(st, r, mode=S.mode | m); return S.mode | m
    return 1
@model("SSL_set_mode")
def m_sslmode(eng, st, f, I, a):
    r, S = ssl_of(st, a[0], "SSL_set_mode"); setssl(st, r, mode=S.mode | cint(st, a[1])); return 1
@model("SSL_get_error")
def m_sslgeterr(eng, st, f, I, a):
    eng.obligations += 1
    r, S = ssl_of(st, a[0], "SSL_get_error")
    ret = iv(eng, st, a[1], 32, True)
    if S.lastop is None: raise Alarm("check", "SSL_get_error without a preceding operation")
    d = nint(st, sub(ret, S.lastret))
    if not (d == 0 if isinstance(d, int) else st.decide_eq(d)):
        raise Alarm("check", "SSL_get_error is asked about a result that is not the one of the last operation")
    if S.lasterr == 0: return 0
    return S.lasterr
@model("SSL_pending", "SSL_has_pending")
def m_sslpending(eng, st, f, I, a):
    r, S = ssl_of(st, a[0], "SSL_pending"); return st.fresh("sslpending", 0, 16384)
@model("SSL_shutdown")
def m_sslshutdown(eng, st, f, I, a):
    r, S = ssl_of(st, a[0], "SSL_shutdown")
    c = st.choose(3, "SSL_shutdown") - 1
    setssl(st, r, lastop="shutdown", lastret=c, lasterr=0 if c == 1 else 5)
    return c
@model("SSL_do_handshake", "SSL_accept", "SSL_connect")
def m_sslhs(eng, st, f, I, a):
    r, S = ssl_of(st, a[0], "SSL handshake")
    return ssl_err(eng, st, r, S, "handshake", ["ok", "want_read", "want_write", "fatal"][st.choose(4, "TLS handshake")])
def ssl_pre(eng, st, v, what):
    r, S = ssl_of(st, v, what)
    if S.fd is None: raise Alarm("check", "%s on a TLS session without a descriptor" % what)
    F = getfd(st, S.fd)
    if F is None: raise Alarm("env", "%s on a TLS session whose descriptor is closed" % what)
    if S.role is None: raise Alarm("check", "%s on a TLS session whose role (accept or connect) was never set" % what)
    return r, S, F
def ssl_progress(st, r):
    """an operation succeeds although the last one had to wait for input: input has arrived since, and unless
    its arrival has been reported already the next wait reports the descriptor with all it is ready for"""
    S = st.ghost["ssl", r]; F = getfd(st, S.fd)
    if S.want == "r" and st.ghost.get(("wantr", r)) == st.ghost.get(("inrounds", F.uid), 0) and F.ep is not None and F.outready:
        setfd(st, S.fd, oedge=bool(F.ep & EPOLLOUT))
def ssl_err(eng, st, r, S, op, o):
    if o == "ok":
        setssl(st, r, lastop=op, lastret=1, lasterr=0, want=None); return 1
    if o == "want_read":
        e, ret = 2, -1; setssl(st, r, want="r")
        st.ghost["wantr", r] = st.ghost.get(("inrounds", getfd(st, S.fd).uid), 0)
    elif o == "want_write":
        e, ret = 3, -1; setssl(st, r, want="w"); setfd(st, S.fd, outready=False)
    elif o == "zero": e, ret = 6, 0; setssl(st, r, want=None, shut=True)
    elif o == "syscall": e, ret = 5, -1; setssl(st, r, want=None, fatal=True)
    else:
        e, ret = 1, -1; setssl(st, r, want=None, fatal=True); st.ghost["errq"] = r
    setssl(st, r, lastop=op, lastret=ret, lasterr=e)
    if st.ghost["ssl", r].fatal: st.ghost["sslfatal"] = 1
    st.note("SSL_%s: %s" % (op, o))
    return ret
@model("SSL_read")
def m_sslread(eng, st, f, I, a):
    eng.obligations += 1
    r, S, F = ssl_pre(eng, st, a[0], "SSL_read")
    sz = nint(st, iv(eng, st, a[2], 32, True))
    st.access(a[1], sz, "write", True)
    outs = ["full", "short", "want_read", "want_write", "zero", "fatal", "syscall"]
    st.ghost["sslreads"] = min(st.ghost.get("sslreads", 0), cfg(st, "sslreads", -1)) + 1
    if cfg(st, "sslreads", 10**9) < st.ghost["sslreads"]: outs = ["want_read"]
    if S.fatal: outs = ["syscall"]
    elif S.shut: outs = ["zero"]
    outs = plan(st, "reads", outs, "full", "want_read")
    if cfg(st, "oneread") and not S.fatal and not S.shut:
        o = st.ghost["oneread"] = 1 - st.ghost.get("oneread", 0)
        outs = ["short" if o else "want_read"]
    o = outs[st.choose(len(outs), "SSL_read")]
    if o in ("full", "short"):
        if o == "full": c = sz
        else:
            hi = st.num.bounds(sz)[1] if isinstance(sz, Lin) else sz
            if hi <= 1: raise Dead("no short read")
            c = sz // 2 if cfg(st, "half") and isinstance(sz, int) else st.fresh("received", 1, hi - 1)
            st.assume_or_die("ge", sub(sub(sz, 1), c))
        st.write_items(a[1], c, [(c, ("src", F.insrc, F.inpos))])
        setfd(st, S.fd, inpos=nint(st, add(F.inpos, c)), drained=False)
        ssl_progress(st, r)
        setssl(st, r, lastop="read", lastret=c, lasterr=0, want=None)
        st.note("SSL_read: %s" % o)
        return c
    setfd(st, S.fd, drained=True)
    if o in ("zero", "fatal", "syscall"): setfd(st, S.fd, eof=True)
    return ssl_err(eng, st, r, S, "read", o)
@model("SSL_write")
def m_sslwrite(eng, st, f, I, a):
    eng.obligations += 1
    r, S, F = ssl_pre(eng, st, a[0], "SSL_write")
    sz = nint(st, iv(eng, st, a[2], 32, True))
    if (sz <= 0 if isinstance(sz, int) else not st.decide_ge(sub(sz, 1))):
        # nothing is sent; the session may progress
        outs = ["nothing", "want_write", "want_read", "fatal", "syscall"]
        st.ghost["sslwrites"] = min(st.ghost.get("sslwrites", 0), cfg(st, "sslwrites", -1)) + 1
        if cfg(st, "sslwrites", 10**9) < st.ghost["sslwrites"]: outs = ["nothing"]
        if S.fatal: outs = ["syscall"]
        o = outs[st.choose(len(outs), "SSL_write of nothing")]
        if o == "nothing":
            ssl_progress(st, r)
            setssl(st, r, lastop="write", lastret=0, lasterr=5, want=None); return 0
        return ssl_err(eng, st, r, S, "write", o)
    st.access(a[1], sz, "read")
    if not (isinstance(S.pend, int) and S.pend == 0):
        d = sub(sz, S.pend)
        if not (d >= 0 if isinstance(d, int) else st.decide_ge(d)): raise Alarm("check", "SSL_write is retried with less data than the pending attempt")
        if not S.mode & 2 and st.ghost.get(("sslbuf", r)) != a[1]: raise Alarm("check", "SSL_write is retried from a different address without SSL_MODE_ACCEPT_MOVING_WRITE_BUFFER")
    outs = ["full", "part", "want_write", "want_read", "fatal", "syscall"]
    if not S.mode & 1: outs.remove("part")
    st.ghost["sslwrites"] = min(st.ghost.get("sslwrites", 0), cfg(st, "sslwrites", -1)) + 1
    if cfg(st, "sslwrites", 10**9) < st.ghost["sslwrites"]: outs = ["full"]
    if S.fatal: outs = ["syscall"]
    outs = plan(st, "writes", outs, "part", "full")
    o = outs[st.choose(len(outs), "SSL_write")]
    if o in ("full", "part"):
        c = put_out(eng, st, S.fd, F, a[1], sz, o, blocks=False)
        ssl_progress(st, r)
        setssl(st, r, lastop="write", lastret=c, lasterr=0, want=None, pend=0)
        return c
    setssl(st, r, pend=sz if o in ("want_write", "want_read") else 0)
    st.ghost["sslbuf", r] = a[1]
    return ssl_err(eng, st, r, S, "write", o)

# ------------------------------------------------------------------ threads and signals
Thr = namedtuple("Thr", "status joinable fn arg cancelled")
@model("pthread_attr_init")
def m_attrinit(eng, st, f, I, a):
    st.store(a[0], 4, 0); st.ghost["attrs"] = st.ghost.get("attrs", 0) + 1
    return 0
@model("pthread_attr_destroy")
def m_attrdestroy(eng, st, f, I, a): return 0
@model("pthread_attr_setdetachstate")
def m_attrdet(eng, st, f, I, a): st.store(a[0], 4, cint(st, a[1])); return 0
@model("pthread_attr_setstacksize")
def m_attrstk(eng, st, f, I, a): return 0
@model("pthread_create")
def m_pcreate(eng, st, f, I, a):
    eng.obligations += 1
    det = 0
    if isinstance(a[1], Ptr): det = cint(st, st.load(a[1], 4), what="thread attribute")
    k = st.ghost.get("thrctr", 0) + 1; st.ghost["thrctr"] = k
    h = 0x7f0000000000 + 4096 * k
    st.store(a[0], 8, h)
    st.ghost["thr", h] = T = Thr("run", det == 0, a[2], a[3], False)
    if cfg(st, "thrnow", 1) and st.choose(2, "the new thread runs at once"):
        def then(e, s, g, J):
            g.env[J.dst] = 0; g.idx += 1
        run_thread(eng, st, h, T, then)
        return PUSHED
    return 0
def thr_of(st, eng, v):
    v = nint(st, iv(eng, st, v, 64))
    if not isinstance(v, int): raise Unsupported("thread handle")
    return v, st.ghost.get(("thr", v))
def run_thread(eng, st, h, T, then=None):
    """run the thread's body to its end (its effects happen while the loop's thread is in this call)"""
    if not isinstance(T.fn, Fn): raise Alarm("mem", "thread started with an invalid function")
    F = eng.mod.funcs.get(T.fn.n)
    if F is None or F.decl: raise Unsupported("thread function")
    st.ghost["thr", h] = T._replace(status="running")
    st.ghost["inthread"] = h
    def cont(e, s, g, J, v):
        s.ghost["thr", h] = s.ghost["thr", h]._replace(status="done")
        s.ghost["inthread"] = None
        if then: then(e, s, g, J)
    eng.push(st, F, [T.arg], cont)
@model("pthread_cancel")
def m_pcancel(eng, st, f, I, a):
    eng.obligations += 1
    h, T = thr_of(st, eng, a[0])
    if T is None: raise Alarm("thread", "pthread_cancel of a thread that does not exist (any more)")
    if not T.joinable:
        raise Alarm("thread", "pthread_cancel of a detached thread which may already have ended: its handle may be invalid")
    st.ghost["thr", h] = T._replace(cancelled=True)
    return 0
@model("pthread_kill")
def m_pkill(eng, st, f, I, a): return m_pcancel(eng, st, f, I, a)
@model("pthread_detach")
def m_pdetach(eng, st, f, I, a):
    h, T = thr_of(st, eng, a[0])
    if T is None or not T.joinable: raise Alarm("thread", "pthread_detach of an invalid thread handle")
    st.ghost["thr", h] = T._replace(joinable=False)
    return 0
@model("pthread_join")
def m_pjoin(eng, st, f, I, a):
    eng.obligations += 1
    h, T = thr_of(st, eng, a[0])
    if T is None: raise Alarm("thread", "pthread_join of a thread that does not exist (any more)")
    if not T.joinable: raise Alarm("thread", "pthread_join of a detached thread")
    if st.ghost.get("inthread") == h: raise Alarm("thread", "a thread joins itself")
    if T.status == "run":
        if T.cancelled and st.choose(2, "cancelled before it ran"):
            del st.ghost["thr", h]; return 0
        run_thread(eng, st, h, T)
        return PUSHED
    del st.ghost["thr", h]
    return 0
@model("pthread_self", pure=True)
def m_pself(eng, st, f, I, a): return st.ghost.get("inthread") or 0x7f0000000000
@model("pthread_setcancelstate", "pthread_setcanceltype", "pthread_testcancel", "pthread_setname_np")
def m_pnop(eng, st, f, I, a): return 0
@model("pthread_sigmask", "sigemptyset", "sigaddset", "sigfillset", "sigprocmask")
def m_sigmask(eng, st, f, I, a): return 0
@model("signal")
def m_signal(eng, st, f, I, a):
    s = cint(st, a[0])
    old = st.ghost.get(("sig", s), 0)
    st.ghost["sig", s] = a[1]
    if s in (15, 2) and isinstance(a[1], Fn): st.ghost["sig"] = s
    return old
@model("sigaction")
def m_sigaction(eng, st, f, I, a):
    s = cint(st, a[0])
    if isinstance(a[1], Ptr):
        h = st.load(a[1], 8); st.ghost["sig", s] = h
        if s in (15, 2) and isinstance(h, Fn): st.ghost["sig"] = s
    return 0
def raise_signal(eng, st, s, res):
    h = st.ghost.get(("sig", s))
    if not isinstance(h, Fn): raise Alarm("abort", "the process is killed by signal %d" % s)
    F = eng.mod.funcs.get(h.n)
    def cont(e, x, g, J, v):
        r = res(e, x)
        if J.ty.k != "v": g.env[J.dst] = r
        g.idx += 1
    eng.push(st, F, [s], cont)
    st.ghost["raised"] = st.ghost.get("raised", 0) + 1
    st.ghost.setdefault("raised.waits", st.ghost.get("waits", 0))
    return PUSHED
