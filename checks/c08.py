"""C08: failing transitions of Repo.tla replayed, and every read of the working tree made to fail in commands of its
behaviours: the repository must be in the state before the command, the working tree untouched."""
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import engine, faults, repo, snap, vlib
from snap import Dump

TAGS = {"changed"}
SPILL = [random.Random(77).randbytes(5 << 20), random.Random(78).randbytes(3 << 20), b"small", b"x" * 40000]
ERR = {"5": "EIO", "13": "EACCES", "2": "ENOENT"}


def hook(p, a, o, d):
    ms = []
    if a["a"] == "fail" and getattr(p, "wt_dirty", None):
        ms.append(("wt", "failing %s changed the working tree: %s" % (a, p.wt_dirty)))
        p.wt_dirty = None
    if a["a"] in ("insert", "commit", "committree", "refupdate", "reflogpush", "refbad") and p.last is not None and p.wt_now() != p.c.tree(p.wt):
        ms.append(("wt", "%s changed the working tree" % a))
    # whatever the model thinks: a command that reported an error has changed nothing
    if p.last is not None and p.last.failed and a["a"] != "fail" and not (p.prev == p.before):
        ms.append(("changed", "%s failed and changed the repository: %s" % (a, repo.diff_dumps(p.before, p.prev))))
    return ms


def injected(job):
    cli, shim, walk, seed, consts, pool, cap = job
    rng = random.Random(seed)
    bad, st = [], {"evaluations": 0, "distinct_nontrivial": 0}
    with vlib.Scratch() as sc:
        k = dict(engine.DEF)
        k.update(consts)
        p = repo.Rep(sc, cli, rng, *[engine.SETS[k[x]] for x in ("Names", "Contents", "Refs", "Remotes", "Msgs")], contentpool=pool)
        cand = [j for j, (a, o, d) in enumerate(walk) if o["ok"] and a["a"] in ("commit", "insert", "status", "compare", "checkouthead", "committree", "checkouthead")]
        pick = set(rng.sample(cand, min(len(cand), 2)))
        for j, (a, o, d) in enumerate(walk):
            hist = [x for x, _, _ in walk[:j + 1]]
            if j not in pick:
                if any(t == "outcome" for t, _ in p.step(a, o, d)):
                    break
                continue
            # the working tree, without the database (which is below it): everything but .snapcd
            tops = [os.path.join(p.w.repo, n) for n in os.listdir(p.w.repo) if n != ".snapcd"]
            if not tops or any(":" in t for t in tops):
                if any(t == "outcome" for t, _ in p.step(a, o, d)):
                    break
                continue
            before, after, ops, s, s2, ms = faults.clean_run(p, a, o, d, shim, tops, "rt")
            if any(t == "outcome" for t, _ in ms):
                break
            wt = p.wt_now()
            pts = [(n, m) for n in ops for m in ("5", "13", "2", "5:sticky")]
            if len(pts) > cap:
                pts = rng.sample(pts, cap)
            for n, m in pts:
                r = faults.run_with(p, a, s, {"SHIM_FAIL": "%d:%s" % (n, m)}, shim, tops, "rt")
                st["evaluations"] += 1
                dd = Dump(p.w.dbfile)
                what = None
                if r.failed:
                    st["distinct_nontrivial"] += 1
                    if not (dd == before):
                        what = "failed and changed the repository: %s" % repo.diff_dumps(before, dd)
                if p.wt_now() != wt:
                    what = "changed the working tree"
                if what:
                    bad.append((("inject", "%s with %s failing with %s %s" % (a, (r.hit or ops[n])[1], ERR.get(m.split(":")[0]), what)), hist,
                                {"operation": (r.hit or ops[n])[:5], "path": os.path.relpath((r.hit or ops[n])[5], p.w.repo), "result": repr(r)}))
                    break
            # what it prints can not be taken
            for to in ("/dev/full", "closed pipe"):
                p.w.stdout = to
                r = faults.run_with(p, a, s, {}, shim, tops, "rt")
                p.w.stdout = None
                st["evaluations"] += 1
                dd = Dump(p.w.dbfile)
                what = None
                if r.failed:
                    st["distinct_nontrivial"] += 1
                    if not (dd == before):
                        what = "failed and changed the repository: %s" % repo.diff_dumps(before, dd)
                if p.wt_now() != wt:
                    what = "changed the working tree"
                if what:
                    bad.append((("inject", "%s with standard output to %s %s" % (a, to, what)), hist, {"result": repr(r)}))
                    break
            faults.cleanup(p, s, s2, after)
    return bad, st


def run(c):
    cli, shim = vlib.build_cli(), vlib.build_shim()
    q = c.quick
    engine.lts_check(c, cli, dict(Acts="AFail", WTs="W3", MaxCommits=1, MaxLog=1, MaxRoots=1), TAGS, hook=hook, limit=2500 if q else 30000, budget=25 if q else 300)
    engine.sim_check(c, cli, dict(Acts="AAllFail", Names="N3", Refs="R3", Remotes="M1", WTs="WNone", MaxDepth=3, Contents="C3", XSets="X1", MaxCommits=8, MaxLog=6, MaxRoots=4),
                     60 if q else 800, 35, TAGS, hook=hook, budget=25 if q else 300)
    # outcome mismatches of commands that are not failing ones belong to other properties
    kw = dict(Acts="AAll", Names="N3", Contents="C3", Refs="R2", Remotes="M1", WTs="WNone", MaxDepth=2, XSets="X0", MaxCommits=9, MaxLog=9, MaxRoots=4)
    jobs = []
    for num, depth, pool, cap in ((48 if q else 500, 16, None, 70 if q else 400), (8 if q else 40, 12, SPILL, 20 if q else 60)):
        r = engine.model_run(c, kw, simulate=num, depth=depth, seed=c.seed * 17 + depth)
        for i, b in enumerate(repo.behaviours(r.emitted)):
            jobs.append((cli, shim, [(e["a"], e["o"], e["d"]) for e in b], c.seed * 4001 + i, kw, pool, cap))
    for bad, st in vlib.pmap(injected, jobs):
        c.traces(1)
        for k, v in st.items():
            c.count(k, v)
        for what, hist, extra in bad:
            c.violate("%s" % (what,), {"what": what, "behaviour": hist, **extra})
    c.cov["rule"] = "commands of Repo.tla behaviours with each read of the working tree failing (EIO, EACCES, ENOENT); non-trivial: the command reported an error"
    c.assumptions = ["failures caused by inputs; failures of the repository's own storage are C11's"]


vlib.main("C08", run, "fault_enumeration")
