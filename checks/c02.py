"""C02: every small tree of TreePairs.tla (and file roots) inserted and fetched; later commands leave it fetchable."""
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import engine, pairs, refuse, snap, vlib
from vlib import Scratch
import shutil


def job(j):
    cli, recs, seed, names = j
    rng = random.Random(seed)
    bad, n = [], 0
    cc = pairs.conc(rng, names, contentpool=snap.CONTENTPOOL + [os.urandom(rng.choice([1, 5000, 200000, 1500000])) for _ in range(3)], hard=.35, nottext=True)
    if rng.random() < .15:
        cc.ballast = snap.ballast(rng)
    with Scratch() as sc:
        w = snap.World(sc, cli)
        if w.run("init").failed:
            return 0, [("init failed", {})]
        src = os.path.join(sc, "src dir")
        done = []
        for i, r in enumerate(recs):
            if any(not snap.text(cc.n[x]) for x in r["x"]):
                continue        # no glob can say these
            t = cc.tree(r["snap"])
            snap.write_tree(src, cc.tree(r["a"]), rng)
            how = rng.choice(["abs", "rel", "slash"])
            arg = {"abs": src, "rel": "../src dir", "slash": src + "/"}[how]
            ins = w.insert(arg, excl=pairs.globs(cc, r["x"], rng))
            if not ins.key and not all(map(snap.text, t)):
                continue        # a name that is not text
            if not ins.key:
                bad.append(("insert failed: %r" % ins, {"tree": r}))
                break
            done.append((ins.key, t))
            # a single file or subdirectory as the root
            files = [p for p in t]
            if files and rng.random() < .4:
                f = rng.choice(files)
                arg, cwd = w.near(os.path.join(src, f), rng)
                fi = w.insert(arg, cwd=cwd, excl=pairs.globs(cc, r["x"], rng))
                if fi.key and t[f] != "D":
                    done.append((fi.key, {"": t[f]}))
                elif not all(map(snap.text, t)):
                    continue
                elif fi.key:
                    done.append((fi.key, {p[len(f) + 1:]: v for p, v in t.items() if p.startswith(f + "/")}))
                else:
                    bad.append(("insert of %r failed: %r" % (f, fi), {"tree": r}))
            key, want = done[-1] if rng.random() < .6 else rng.choice(done)
            n += 1
            d = os.path.join(sc, rng.choice(["out", "new/deep/out", "out with space"]))
            if os.path.dirname(d) != sc and "" not in want and rng.random() < .5:
                os.makedirs(os.path.dirname(d), exist_ok=True)
            if rng.random() < .15 and "" not in want:
                os.makedirs(d, exist_ok=True)
            dest, cwd = w.near(d, rng) if rng.random() < .4 else (d, None)
            f = w.run("fetch", key[:rng.choice([25, 40])], dest, cwd=cwd)
            got = snap.read_tree(d) if os.path.exists(d) else None
            if f.failed or got != want:
                bad.append(("fetched %s, expected %s (%r)" % (pairs.summ(got), pairs.summ(want), f), {"tree": r, "names": cc.n}))
                break
            shutil.rmtree(d) if os.path.isdir(d) else os.unlink(d)
            shutil.rmtree(os.path.join(sc, "new"), ignore_errors=True)
    return n, bad


def run(c):
    cli = vlib.build_cli()
    q = c.quick
    pairs.discover(c, cli)
    for i, (names, cont, xs, sa, sb) in enumerate([("N2", "C2", "X2", 0, 1), ("N3", "C2", "X3", 250 if q else 3000, 1)]):
        recs = pairs.pairs(c, "snap", names=names, contents=cont, xsets=xs, sa=sa, sb=sb, seed=i)
        random.Random(c.seed).shuffle(recs)
        parts = vlib.split(recs, 32 if q else 96)
        for rep in range(1 if q else 4):
            for n, bad in vlib.pmap(job, [(cli, p, c.seed * 1000 + i * 100 + k + rep * 7777, names) for k, p in enumerate(parts)]):
                c.traces(n)
                for b in bad:
                    c.violate(*b)
    if q:
        pairs.pairs(c, "none", contents="C1", xsets="X2")
    else:
        pairs.pairs(c, "none", xsets="X0")
    # histories: every stored root and commit tree stays fetchable after whatever comes later
    engine.sim_check(c, cli, dict(Acts="AFetch", Names="N3", Contents="C3", WTs="WNone", MaxDepth=3, XSets="X1", MaxCommits=8, MaxLog=8, MaxRoots=8),
                     60 if q else 800, 30, {"fetch", "outcome", "tree"}, only=lambda a: a["a"] in ("fetch", "insert"), repkw={"_ballast": .1}, budget=15 if q else 250)

    refuse.run(c, cli, {"fetch"}, "AFetch")

vlib.main("C02", run)
