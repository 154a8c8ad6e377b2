"""Loop treatment at loop heads: deterministic iterations are followed, nondeterministic
iterations of library loops are followed up to a bound (recorded as an incompleteness)."""
from .state import Dead, Alarm

def at_head(eng, st, f, B, src):
    F = f.fn
    body = F.loopof.get(B.id, ())
    back = src in body
    L = f.loops
    if not back:
        L[B.id] = (0, 0, st.nsplit)
        L.pop((B.id,), None)
        # inner loops restart
        return None
    nd, det, ns = L.get(B.id, (0, 0, st.nsplit))
    if st.nsplit == ns:
        det += 1
        if det >= 64 and F.file not in eng.opts.get("ctxfiles", ()): cycle(eng, st, f, B, det)
        if det > eng.detmax:
            eng.giveup(st, "loop in %s runs more than %d iterations" % (F.name, eng.detmax)); raise Dead("cut")
    else:
        nd += 1
        lim = eng.unroll_of(F)
        if nd > lim:
            eng.cut[F.name] = eng.cut.get(F.name, 0) + 1
            raise Dead("cut")
    L[B.id] = (nd, det, st.nsplit)
    return None

def cycle(eng, st, f, B, det):
    """the same state met twice at the head of a loop without any decision in between: the loop never ends"""
    env = f.env
    old = f.loops.get((B.id,))
    if old is not None and old[0] < det and old[1] == env and old[3] == st.ghost:
        regs = old[2]
        if regs.keys() == st.regs.keys() and all(v is w or (v.cells == w.cells and v.pieces == w.pieces and v.gen == w.gen) for v, w in ((regs[k], st.regs[k]) for k in regs)):
            raise Alarm("hang", "loop in %s never ends" % f.fn.name)
    if det & (det - 1) == 0:
        f.loops[(B.id,)] = (det, dict(env), {k: r.copy(None) for k, r in st.regs.items()}, dict(st.ghost))
