"""C14: status and compare against every pair of small trees of TreePairs.tla, and along behaviours of Repo.tla."""
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import engine, pairs, refuse, snap, vlib
from vlib import Scratch


def job(j):
    cli, recs, seed, names, via = j
    rng = random.Random(seed)
    bad, n = [], 0
    cc = pairs.conc(rng, names)
    with Scratch() as sc:
        w = snap.World(sc, cli)
        if w.run("init").failed:
            return 0, [("init failed", {})]
        keys = {}
        todo = {}
        for r in recs:
            todo.setdefault(pairs.key(r["b"]), r["b"])
        src = os.path.join(sc, "src")
        refs = {}
        for k, b in todo.items():
            t = cc.tree(b)
            if via == "status":
                # one ref per commit tree; status compares with HEAD's commit
                snap.write_tree(w.repo, t, rng)
                refs[k] = "ref %d" % len(refs)
                if w.run("commit", "-m", "m", refs[k]).failed:
                    return n, [("commit failed", {"tree": b})]
            else:
                snap.write_tree(src, t, rng)
                x = w.insert(src)
                if not x.key:
                    return n, [("insert failed %r" % x, {"tree": b})]
                keys[k] = x.key
        cur = other = None
        recs = sorted(recs, key=lambda r: (pairs.key(r["b"]) if via == "status" else pairs.key(r["a"])))
        head = None
        for r in recs:
            if cur != pairs.key(r["a"]):
                cur = pairs.key(r["a"])
                snap.write_tree(w.repo, cc.tree(r["a"]), rng)
            k = pairs.key(r["b"])
            ex = pairs.globs(cc, r["x"], rng)
            if via == "status":
                if head != k:
                    w.run("debug", "set-head", refs[k])
                    head = k
                res = w.run("status", excl=ex) if rng.random() < .7 else w.run("compare", excl=ex)
            elif rng.random() < .8:
                res = w.run("compare", keys[k][:rng.choice([20, 30])], excl=ex)
            else:
                # any directory can be compared, under any spelling of its path
                if other != cur:
                    other = cur
                    snap.write_tree(src, cc.tree(r["a"]), rng)
                arg, cwd = w.near(src, rng) if rng.random() < .5 else (rng.choice([src, src + "/", "../src", "../src/.", ".././src/"]), None)
                res = w.run("compare", "-p", arg, keys[k][:20], excl=ex, cwd=cwd)
            n += 1
            got = snap.parse_diff(res.text)
            want = {s: sorted(cc.path(p if isinstance(p, str) else p[0]) for p in r[s]) for s in ("added", "deleted", "modified")}
            have = {s: sorted(got[s]) for s in want}
            if res.failed or have != want or got.get("other"):
                bad.append(("%s of %s with %s excluding %s: reported %s (%r), expected %s"
                            % (via, cc.tree(r["a"]).keys(), cc.tree(r["b"]).keys(), ex, got, res.err[-200:], want), {"pair": r, "names": cc.n}))
                if len(bad) > 2:
                    break
    return n, bad


def run(c):
    cli = vlib.build_cli()
    q = c.quick
    # all pairs of trees: the comparison algorithm against its meaning, in the model
    if not q:
        pairs.pairs(c, "none", xsets="X2", sa=0, sb=0)
    plan = [("compare", "N2", "X2", 60 if q else 361, 110 if q else 361), ("status", "N2", "X2", 40 if q else 150, 40 if q else 150),
            ("compare", "N3", "X3", 50 if q else 200, 50 if q else 300)]
    for i, (via, names, xs, sa, sb) in enumerate(plan):
        recs = pairs.pairs(c, "diff", names=names, contents="C2", xsets=xs, sa=0 if sa == 361 else sa, sb=0 if sb == 361 else sb, seed=i)
        rng = random.Random(c.seed * 77 + i)
        g = pairs.groups(recs, (lambda r: pairs.key(r["b"])) if via == "status" else (lambda r: pairs.key(r["a"])))
        rng.shuffle(g)
        parts = [[] for _ in range(16 if q else 64)]
        for k, x in enumerate(g):
            parts[k % len(parts)].extend(x)
        jobs = [(cli, p, c.seed * 1000 + i * 100 + k, names, via) for k, p in enumerate(parts) if p]
        for n, bad in vlib.pmap(job, jobs):
            c.traces(n)
            for b in bad:
                c.violate(*b)
        c.sample({"via": via, "pair": {k: v for k, v in recs[len(recs) // 2].items()}})
    # deeper trees and growing repositories
    engine.sim_check(c, cli, dict(Acts="AInspect", Names="N3", Contents="C3", Refs="R2", WTs="WNone", MaxDepth=3, XSets="X1", MaxCommits=6, MaxLog=6, MaxRoots=6),
                     40 if q else 600, 30, {"diff", "outcome"}, only=lambda a: a["a"] in ("status", "compare"), repkw={"_ballast": .1}, budget=15 if q else 200)

    refuse.run(c, cli, {"status", "compare"}, "AInspect")

vlib.main("C14", run)
