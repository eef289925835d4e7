"""checkout replayed on pairs of trees (TreePairs.tla) in the permitted location, as an unprivileged account."""
import os, random, shutil
import pairs, snap, vlib
from vlib import Scratch


def job(j):
    cli, recs, seed, names, base = j
    vlib.drop_privileges()
    rng = random.Random(seed)
    bad, n = [], 0
    cc = pairs.conc(rng, names, hard=.2)
    if rng.random() < .15:
        cc.ballast = snap.ballast(rng)
        recs = [r for r in recs if not r["x"]]
        recs = recs[:max(25, len(recs) // 6)]       # costly
        # where something excluded keeps a directory, its ballast goes all the same
    with Scratch(base=base) as sc:
        w = snap.World(sc, cli)
        if w.run("init").failed:
            return 0, [("init", "init failed", {})]
        # bystanders: next to the repository, and below names that look like parts of it
        side = os.path.join(sc, "side")
        for p in ("f", "d/e/g", ".snapcd/snapcd.db", "repo/x"):
            q = os.path.join(side, p)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, "wb") as f:
                f.write(b"bystander " + p.encode())
        with open(os.path.join(sc, "repo.txt"), "wb") as f:
            f.write(b"bystander")
        refs = {}
        for r in recs:
            k = pairs.key(r["b"])
            if k not in refs:
                snap.write_tree(w.repo, cc.tree(r["b"]), rng)
                refs[k] = "ref%d" % len(refs)
                if w.run("commit", "-m", "m", refs[k]).failed:
                    return n, [("init", "commit failed", {})]

        def outside():
            t = snap.read_tree(sc, skip=("repo", "cache"))
            return t

        def dbfiles():
            return {p: v for p, v in snap.read_tree(os.path.join(w.repo, ".snapcd")).items() if p != "snapcd.db"}
        out0 = outside()
        recs = sorted(recs, key=lambda r: pairs.key(r["b"]))
        head, got_clean = None, False
        for r in recs:
            k = pairs.key(r["b"])
            if head != k:
                if w.run("debug", "set-head", refs[k]).failed:
                    return n, [("init", "set-head failed", {})]
                head = k
                dump = w.dump()
            elif rng.random() < .35:        # what the ref went through before does not matter
                name = refs[k]
                mine = w.dump().log_of(name)
                other = [x for x in refs.values() if x != name]
                for _ in range(rng.randrange(1, 4)):
                    how = rng.randrange(6)
                    cs = []
                    if how < 2:
                        cs = [("ref", "update", snap.b3.user_key(mine[-1]))]
                    elif how == 2 and other:        # away and back
                        o = w.dump().log_of(rng.choice(other))
                        cs = [("ref", "update", snap.b3.user_key(o[-1])), ("ref", "update", snap.b3.user_key(mine[-1]))]
                    elif how == 3 and other:
                        cs = [("debug", "set-head", rng.choice(other)), ("debug", "set-head", name)]
                    elif how == 4:
                        cs = [("status",), ("compare",), ("ref", "log")][:rng.randrange(1, 4)]
                    elif how == 5:                  # the same tree in another commit
                        cs = [("commit", "-m", "again", name)] if got_clean else []
                    for x in cs:
                        if w.run(*x).failed:
                            return n, [("init", "%s failed" % (x,), {})]
                mine = w.dump().log_of(name)
                dump = w.dump()
            got_clean = False
            a = cc.tree(r["a"])
            snap.write_tree(w.repo, a, rng)
            # something of someone else's in the database directory
            extra = os.path.join(w.repo, ".snapcd", "extra")
            with open(extra, "wb") as f:
                f.write(b"mine")
            d0 = dbfiles()
            ex = pairs.globs(cc, r["x"], rng)
            cwd = None
            if rng.random() < .2:
                ds = [p for p, v in a.items() if v == "D" and cc.tree(r["b"]).get(p) == "D"]
                if ds:
                    cwd = os.path.join(w.repo, rng.choice(ds))
            f = w.run("checkout", excl=ex, cwd=cwd)
            n += 1
            got = snap.read_tree(w.repo, skip=(".snapcd",))
            want = cc.tree(r["r"])
            excl = cc.tree(r["excl"])
            desc = "checkout of %s over %s excluding %s" % (pairs.summ(cc.tree(r["b"])), pairs.summ(a), ex)
            info = {"pair": r, "names": cc.n}
            m = []
            got_clean = r["ok"] and not r["x"] and got == want and set(got) == set(cc.tree(r["b"]))
            if r["ok"]:
                if f.failed:
                    m.append(("checkout", "%s failed: %r" % (desc, f), info))
                elif got != want:
                    m.append(("checkout", "%s gave %s, expected %s" % (desc, pairs.summ(got), pairs.summ(want)), info))
                elif rng.random() < .3:
                    f = w.run("checkout", excl=ex)
                    if f.failed or snap.read_tree(w.repo, skip=(".snapcd",)) != got:
                        m.append(("checkout", "%s: running it again failed or changed something: %r" % (desc, f), info))
            hurt = {p: v for p, v in excl.items() if got.get(p) != v}
            if hurt:
                m.append(("touched", "%s changed excluded %s" % (desc, pairs.summ(hurt)), info))
            made = [p for p in got if p not in a and p not in cc.tree(r["b"])]
            if made:
                m.append(("touched", "%s invented %s" % (desc, made), info))
            if outside() != out0:
                m.append(("touched", "%s changed something outside the working tree" % desc, info))
            if dbfiles() != d0:
                m.append(("touched", "%s changed the database directory" % desc, info))
            if not m and rng.random() < .1 or m:
                if w.dump() != dump:
                    m += [("touched", "%s changed the repository" % desc, info), ("checkout", "%s changed the repository" % desc, info)]
            if m:
                bad += m
                if len(bad) > 3:
                    break
    return n, bad


def run(c, cli, plan, tags, P):
    pairs.discover(c, cli, P)
    for i, (names, cont, xs, sa, sb) in enumerate(plan):
        recs = pairs.pairs(c, "checkout", names=names, contents=cont, xsets=xs, sa=sa, sb=sb, seed=i)
        rng = random.Random(c.seed * 55 + i)
        g = pairs.groups(recs, lambda r: pairs.key(r["b"]))
        rng.shuffle(g)
        parts = [[] for _ in range(16 if c.quick else 64)]
        for k, x in enumerate(g):
            parts[k % len(parts)].extend(x)
        for n, bad in vlib.pmap(job, [(cli, p, c.seed * 1000 + i * 100 + k, names, P.path) for k, p in enumerate(parts) if p]):
            c.traces(n)
            for t, what, info in bad:
                if t in tags or t == "init":
                    c.violate(what, info)
        c.sample({"pair": recs[len(recs) // 3]})
