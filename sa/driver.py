"""check <PROPERTY>: builds the current sources together with the property's contexts, analyses every
context and turns the alarms into a verdict."""
import sys, os, json, time, tempfile, shutil, multiprocessing, traceback, re, resource
from . import ir, lin, state, engine, models, env, ctxlib, contracts, join
from .specs import SPECS

VERIF = ir.VERIF
KNOWN = os.path.join(VERIF, "known_findings.json")

_job = {}
def run_entry(job):
    name, spec, tier, idx = job
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception: pass
    sys.setrecursionlimit(20000)
    mod = _job["mods"][idx]
    t0 = time.time()
    try:
        opts = dict(spec.get("opts", {}))
        opts["ctxfiles"] = (os.path.basename(_job["ctx"][idx]),)
        opts["unroll"] = spec.get("unroll", {})
        o = spec.get("entries", {}).get(name, {})
        if "unroll" in o: opts["unroll"] = o["unroll"]
        thorough = tier == "thorough"
        mu = o.get("maxunroll", spec.get("maxunroll", 3))
        if thorough: mu = o.get("maxunroll_t", spec.get("maxunroll_t", mu + 1))
        tmo = o.get("timeout", spec.get("timeout", 100)) * (6 if thorough else 1)
        M = models.Models(override=spec.get("override", ()))
        for k in spec.get("use", ()): 
            if name != "body:" + k: M.tab[k] = models.REG["contract:" + k]
        e = (join.JoinEngine if spec.get("join") else engine.Engine)(mod, M, maxunroll=mu, timeout=tmo, opts=opts, detmax=spec.get("detmax", 3000))
        e.run(name)
        return {"entry": name, "alarms": e.alarms, "obligations": e.obligations, "paths": e.paths, "completed": e.completed, "steps": e.steps,
                "calls": e.calls, "covered": e.covered, "incomplete": e.incomplete, "cut": e.cut, "marks": e.marks, "checks": e.checks,
                "funcs": sorted(e.funcs_seen), "splits": e.splits, "infeasible": e.infeasible, "wall": time.time() - t0, "lp": lin.Stats.lp}
    except Exception as ex:
        return {"entry": name, "error": traceback.format_exc()}

def entries_of(mod, ctx):
    b = os.path.basename(ctx)
    return sorted(n for n, F in mod.funcs.items() if not F.decl and F.file == b and n.startswith("ctx_"))

def expected_marks(path):
    out = set()
    for m in re.finditer(r'__sa_mark\("([^"]+)"\)', open(path).read()): out.add(m.group(1))
    return out

def check(prop, tier, quiet=False, only=None):
    t0 = time.time()
    spec = SPECS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tmp = tempfile.mkdtemp(prefix="sa_" + prop + "_")
    units = []
    try:
        mods = []; ctxs = []; jobs = []
        marks = set()
        for k, v in enumerate(spec.get("variants", [{}])):
            s = dict(spec); s.update(v)
            ctx = os.path.join(VERIF, "ctx", s["ctx"])
            extra = list(s.get("cflags", ()))
            if tier == "thorough": extra.append("-DTHOROUGH=1")
            bc = ir.build(ctx, os.path.join(tmp, "b%d" % k), extra)
            m = ir.Module(bc)
            mods.append(m); ctxs.append(ctx)
            es = entries_of(m, ctx)
            if not es: raise RuntimeError("no analysis context found in " + ctx)
            marks |= {m for m in expected_marks(ctx) if not re.match(r"[A-Z]\d\d: ", m) or m.startswith(prop + ": ")}
            # functions replaced by their contract are analysed on their own
            s["use"] = tuple(u for u in s.get("use", ()) if u not in contracts.BODIES or contracts.applies(m, u))
            for u in s["use"]:
                if u in contracts.BODIES: es = es + ["body:" + u]
            for e in es:
                if only and e not in only: continue
                jobs.append((e, s, tier, k))
            missing = [a for a in s.get("anchors", ()) if a not in m.funcs or m.funcs[a].decl]
            if missing: raise RuntimeError("anchor function vanished: " + ", ".join(missing))
        _job["mods"] = mods; _job["ctx"] = ctxs
        # library functions defined in the analysed module
        ctxfiles = {os.path.basename(c) for c in ctxs}
        libfuncs = sorted({n for m in mods for n, F in m.funcs.items() if not F.decl and F.file not in ctxfiles})
        w = spec.get("entries", {})
        jobs.sort(key=lambda j: -w.get(j[0], {}).get("weight", 1))
        if len(jobs) == 1 or os.environ.get("SA_SERIAL"):
            res = [run_entry(j) for j in jobs]
        else:
            with multiprocessing.get_context("fork").Pool(min(8, len(jobs)), maxtasksperchild=1) as pool:
                res = pool.map(run_entry, jobs, chunksize=1)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    errs = [r for r in res if "error" in r]
    ok = [r for r in res if "error" not in r]
    known = json.load(open(KNOWN)) if os.path.exists(KNOWN) else {"known": []}
    viol = []; und = []; kf = []
    for r in ok:
        for a in r["alarms"]:
            a["entry"] = r["entry"]
            if a["lossy"]: und.append(a); continue
            for k in known.get("known", ()):
                if k["property"] == prop and k["entry"] == r["entry"] and k["function"] == a["stack"][-1].split(" ")[0] and k["message"] in a["msg"]:
                    kf.append((k, a)); break
            else: viol.append(a)
    tot = lambda k: sum(r[k] for r in ok)
    reached = set()
    for r in ok: reached |= set(r["marks"])
    inc = {}
    for r in ok:
        for k, v in r["incomplete"].items(): inc[r["entry"] + ": " + k] = v
    cuts = {}
    for r in ok:
        for k, v in r["cut"].items(): cuts[k] = cuts.get(k, 0) + v
    funcs = sorted({f for r in ok for f in r["funcs"]} & set(libfuncs))
    broken = []
    if errs: broken.append("analysis error: " + errs[0]["error"])
    if not viol:
        if ok and tot("obligations") < spec.get("minobl", 1): broken.append("only %d obligations were analysed" % tot("obligations"))
        missing = sorted(marks - reached)
        if missing and not only and not inc: broken.append("context points never reached: " + ", ".join(missing))
        if ok and tot("completed") == 0 and not inc: broken.append("no path of any context completed")
        for r in ok:
            if r["completed"] == 0 and not r["incomplete"]: broken.append("no path of %s completed" % r["entry"])
    checks = {}
    for r in ok:
        for k, v in r["checks"].items(): checks[k] = checks.get(k, 0) + v
    replay = None
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    evp = os.path.join(VERIF, "evidence", prop + ".json")
    if viol:
        replay = os.path.join(VERIF, "evidence", prop + ".violation.txt")
        with open(replay, "w") as f:
            for a in viol: f.write(describe(prop, a) + "\n")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "other",
          "coverage": {
              "explanation": spec["rule"] + "  Deciding method: abstract interpretation of the LLVM IR compiled from the current sources (symbolic heap x linear constraints x environment typestates), path sensitive; see DESIGN.md.",
              "contexts": [{"context": r["entry"], "paths": r["paths"], "completed": r["completed"], "obligations": r["obligations"], "calls": r["calls"], "steps": r["steps"], "covered": r["covered"], "seconds": round(r["wall"], 1)} for r in ok],
              "obligations": tot("obligations"), "abstract_paths": tot("paths"), "completed_paths": tot("completed"), "call_sites_evaluated": tot("calls"), "ir_instructions_evaluated": tot("steps"),
              "functions_analysed": funcs, "rules_checked": checks, "points_reached": sorted(reached),
              "loops_cut_after_bound": cuts, "undecided_paths": inc,
              "undecided_alarms": [{"kind": a["kind"], "message": a["msg"], "at": a["stack"][-1], "why": a["lossy"]} for a in und][:20],
              "known_findings_seen": sorted({k["id"] for k, _ in kf})},
          "assumptions": spec.get("assumptions", []) + ["memory allocation succeeds", "system, C library, pthread and OpenSSL calls behave as their interfaces allow (sa/models.py, sa/env.py)"],
          "violations": len(viol), "wall_s": round(time.time() - t0, 2)}
    json.dump(ev, open(evp, "w"), indent=1)
    for r in ok:
        if not quiet: print("%-38s paths %6d completed %6d obligations %7d steps %8d lp %6d covered %d cut %s  %.1fs" % (r["entry"], r["paths"], r["completed"], r["obligations"], r["steps"], r["lp"], r["covered"], sum(r["cut"].values()), r["wall"]))
    for k, v in inc.items(): print("  incomplete: %s (%d)" % (k, v))
    if os.environ.get("SA_UND"):
        for a in und: print(describe(prop, a))
    for a in und[:20]: print("  undecided: %s: %s at %s (%s)" % (a["kind"], a["msg"], a["stack"][-1], a["lossy"]))
    for k in {id(k): k for k, _ in kf}.values(): print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for a in viol: print(describe(prop, a))
    for b in broken: print("ANALYSIS-BROKEN " + b)
    if viol:
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(replay, VERIF)))
        return 1
    if broken: return 2
    print("property %s held: %d contexts, %d obligations on %d paths through %d library functions, %.1fs" % (prop, len(ok), tot("obligations"), tot("completed"), len(funcs), time.time() - t0))
    return 0

def describe(prop, a):
    out = ["%s [%s] %s" % (prop, a["kind"], a["msg"]), "  context %s, path:" % a["entry"]]
    for s in a["stack"]: out.append("    in %s" % s)
    for t in a["trace"][-25:]: out.append("    event: %s" % t)
    if a["model"]:
        it = [(k, v) for k, v in a["model"].items() if not k.startswith(("byte", "div"))]
        if it: out.append("    for example with " + ", ".join("%s=%s" % x for x in it[:24]))
    return "\n".join(out)

def main(argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    args = []
    only = None
    for x in argv:
        if x in ("quick", "thorough"): tier = x
        elif x.startswith(("ctx_", "body:")): only = (only or []) + [x]
        else: args.append(x)
    rc = 0
    for p in args:
        try: r = check(p, tier, only=only)
        except ir.BuildError as e:
            print("ANALYSIS-BROKEN", e); r = 2
        except Exception:
            traceback.print_exc(); r = 2
        rc = max(rc, r) if r != 1 else 1 if rc in (0, 1) else rc
    return rc
