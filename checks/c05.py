"""C05: repository states observed after every step of Repo.tla behaviours (failing commands among them), in the middle of
commands, after kills at every operation and after refused operations; judged by GraphTrace.tla."""
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import engine, faults, graph, repo, sched, snap, vlib
from faults import args_of

STORING = ("commit", "insert", "committree", "refupdate", "reflogpush", "checkouthead", "init")
DEEP = [random.Random(77).randbytes(5 << 20), random.Random(78).randbytes(300000), b"small", random.Random(79).randbytes(70000)]


def job(j):
    cli, shim, walk, seed, consts, pool, cap, probe = j
    rng = random.Random(seed)
    bad, st = [], {"midway": 0, "kills": 0, "faults": 0, "steps": 0}
    ob = graph.Observer()
    with vlib.Scratch() as sc:
        k = dict(engine.DEF)
        k.update(consts)
        p = repo.Rep(sc, cli, rng, *[engine.SETS[k[x]] for x in ("Names", "Contents", "Refs", "Remotes", "Msgs")], contentpool=pool, initcmd="init" in str(consts.get("_acts", "")))
        cand = [i for i, (a, o, d) in enumerate(walk) if a["a"] in STORING and o["ok"]]
        pick = set(rng.sample(cand, min(probe, len(cand))))
        dbdir = os.path.join(p.w.repo, ".snapcd")
        hist = []
        for i, (a, o, d) in enumerate(walk):
            hist.append(a)
            if i in pick:
                before, after, ops, s, s2, ms = faults.clean_run(p, a, o, d, shim, [dbdir], "w")
                if any(t == "outcome" for t, _ in ms):
                    break
                total = max(ops, default=0)
                pts = [("SHIM_KILL", x, m) for x in range(1, total + 1) for m in ("before", "half", "after")] + \
                      [("SHIM_FAIL", x, m) for x in range(1, total + 1) for m in ("5", "28:sticky", "short")]
                if len(pts) > cap:
                    pts = rng.sample(pts, cap)
                base = ob
                for kind, x, m in pts:
                    faults.run_with(p, a, s, {kind: "%d:%s" % (x, m)}, shim, [dbdir], "w")
                    st["kills" if kind == "SHIM_KILL" else "faults"] += 1
                    ob.add(snap.Dump(p.w.dbfile), (hist[-8:], kind, x, m))
                # ---- stopped before locks and writes, looked at from outside
                p.load(s)
                p.prev = before
                args, ex = args_of(p, a)
                S = sched.Sched(sc, p.w, shim, [dbdir], cls="lw")
                try:
                    q = S.spawn("A", args, excl=ex)
                    n = 0
                    skip = max(1, total // cap)
                    while not q.done:
                        S.go(q)
                        n += 1
                        if n % skip == 0 or rng.random() < .1:
                            st["midway"] += ob.look(p.w.dbfile, (hist[-8:], "while it runs", n))
                        if n > 20000:
                            raise vlib.ToolError("command does not end")
                finally:
                    S.close()
                faults.cleanup(p, s, s2, after)
            else:
                ms = p.step(a, o, d)
                if a["a"] == "refbad" and any(t in ("outcome", "changed") for t, _ in ms):
                    bad.append(("pointing a ref at something that is not a commit: %s" % (ms[0],), hist[-12:]))
                    break
            st["steps"] += 1
            ob.add(p.w.dump(), (list(hist[-12:]), "afterwards"))
            if any(t == "outcome" for t, _ in ms):
                break
    return bad, st, (ob.obs, ob.why)


def run(c):
    cli, shim = vlib.build_cli(), vlib.build_shim()
    q = c.quick
    c.model(vlib.tlc("Graph", constants={} if q else {"N": 5}, timeout=2000))
    for k in ({"Txn": "FALSE", "ChildFirst": "FALSE"}, {"TrustCache": "TRUE"}, {"CheckRef": "FALSE", "Txn": "FALSE"}):
        if not vlib.tlc("Graph", constants=k, expect_violation=True).violated:
            raise vlib.ToolError("Graph.tla does not depend on %s" % k)
    kw = dict(Acts="AAllFail", Names="N2", Contents="C3", Refs="R3", Remotes="M1", Msgs="G2", WTs="WNone", MaxDepth=2, XSets="XB", MaxCommits=12, MaxLog=12, MaxRoots=8)
    jobs = []
    for consts, num, depth, pool, cap, probe in ((dict(kw), 60 if q else 1200, 40, None, 0, 0),
                                                 (dict(kw, Acts="AGraph"), 40 if q else 400, 22, None, 24 if q else 120, 3),
                                                 (dict(kw, Acts="AGraph"), 12 if q else 80, 14, DEEP, 14 if q else 100, 2)):
        r = engine.model_run(c, consts, simulate=num, depth=depth, seed=c.seed * 17 + depth)
        for i, b in enumerate(repo.behaviours(r.emitted)):
            jobs.append((cli, shim, [(e["a"], e["o"], e["d"]) for e in b], c.seed * 4001 + i, consts, pool, cap, probe))
    jobs.sort(key=lambda j: -j[6] - (100 if j[5] else 0))
    res = []
    for bad, st, obs in vlib.pmap(job, jobs):
        c.traces(1)
        for k, v in st.items():
            c.count(k, v)
        for what, hist in bad:
            c.violate(what, {"behaviour": hist})
        res.append(obs)
    graph.judge(c, res)
    c.sample({"observation": res[-1][1][-1]})
    c.cov["rule"] = "every distinct repository state other processes observed: after each command of Repo.tla behaviours, between the operations of a running command, after a kill or a refused operation"


vlib.main("C05", run)
