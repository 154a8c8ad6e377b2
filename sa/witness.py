"""Confirmation of alarms: looks for one concrete assignment of the symbols of an abstract state that
satisfies every recorded constraint, with approximated terms replaced by their exact values.  An alarm
without such an assignment is an artefact of the abstraction and is not reported as a violation."""
import time
from .lin import *

def evalterm(key, a):
    k = key[0]
    if k == "or": return a[0] | a[1]
    if k == "and": return a[0] & a[1]
    if k == "xor": return a[0] ^ a[1]
    if k == "mul": return a[0] * a[1]
    if k == "mulw": return (a[0] * a[1]) & ((1 << key[1]) - 1)
    if k == "udiv": return a[0] // a[1]
    if k == "urem": return a[0] % a[1]
    if k == "div": return a[0] // key[1]
    if k == "wrap":
        v = a[0] & ((1 << key[1]) - 1)
        return v - (1 << key[1]) if key[2] and v >> (key[1] - 1) else v
    if k == "bswap": return int.from_bytes((a[0] & ((1 << key[1]) - 1)).to_bytes(key[1] // 8, "little"), "big")
    if k == "table": return key[2][a[0]]
    return None

class Fail(Exception): pass

def propagate(N):
    """give every term with constant arguments its exact value; False if impossible"""
    ch = True
    while ch:
        ch = False
        bytes_ = {}
        for key, lst in list(N.terms.items()):
            for args, v in lst:
                a = [N.norm(x) if isinstance(x, Lin) else x for x in args]
                if any(isinstance(x, Lin) for x in a): continue
                cur = N.norm(sym(v))
                if key[0] == "byte":
                    k = (key[1], key[2], a[0])
                    if k in bytes_:
                        d = sub(cur, bytes_[k])
                        if isinstance(d, int):
                            if d: return False
                        elif not N.assume_eq(d): return False
                        else: ch = True
                    else: bytes_[k] = cur
                    continue
                try: x = evalterm(key, a)
                except (ZeroDivisionError, IndexError, ValueError): return False
                if x is None: continue
                if isinstance(cur, int):
                    if cur != x: return False
                    continue
                if not N.assume_eq(sub(cur, x)): return False
                ch = True
    return True

def freesyms(N):
    out = set()
    for c in N.ineqs:
        c = N.norm(c)
        if isinstance(c, Lin): out |= {v for v, _ in c.t}
    for c in N.neqs:
        c = N.norm(c)
        if isinstance(c, Lin): out |= {v for v, _ in c.t}
    for key, lst in N.terms.items():
        for args, v in lst:
            for x in tuple(args) + (sym(v),):
                x = N.norm(x) if isinstance(x, Lin) else x
                if isinstance(x, Lin): out |= {u for u, _ in x.t}
    for v in list(N.subst):
        x = N.norm(sym(v))
        if isinstance(x, Lin): out |= {u for u, _ in x.t}
    for v in set(N.lo) | set(N.hi):
        if v not in N.subst: out.add(v)
    return out

def find(N, budget=400, seconds=10):
    """dict name -> value, or None"""
    end = time.time() + seconds
    nodes = [budget]
    isterm = {v for key, lst in N.terms.items() if key[0] not in ("byte", "addr", "fnaddr") for _, v in lst}
    def rec(N):
        nodes[0] -= 1
        if nodes[0] < 0 or time.time() > end: raise Fail()
        try:
            if not propagate(N): return None
        except Infeasible: return None
        fs = freesyms(N)
        for d in N.neqs:
            if N.norm(d) == 0: return None
        if not fs: return N
        base = sorted(v for v in fs if v not in isterm)
        v = base[0] if base else min(fs)
        l, h = N.rng(sym(v))
        cand = []
        m = N.model([], [v])
        if m is not None and type(m.get(v)) is int: cand.append(m[v])
        elif any(v in {x for x, _ in c.t} for c in N.ineqs): 
            pass
        for x in (l, h, l + 1, h - 1, 1, 2, 3, 4, 7, 8, 9, 16, 17, 64, (l + h) // 2):
            if l <= x <= h and x not in cand: cand.append(x)
        for x in cand:
            N2 = N.clone()
            try:
                if not N2.assume_eq(sub(sym(v), x)): continue
            except Infeasible: continue
            r = rec(N2)
            if r is not None: return r
        return None
    try:
        r = rec(N.clone())
    except (Fail, RecursionError): return None
    if r is None: return None
    out = {}
    for v in sorted(set(N.lo) | set(N.hi) | set(N.subst)):
        x = r.norm(sym(v))
        if isinstance(x, int): out["%s" % SymTab.name[v]] = x
    return out
