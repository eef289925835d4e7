"""C16: behaviours of Repo.tla with every command started in a random directory below the top; nested repositories (Nearest.tla)."""
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import engine, repo, snap, vlib
from vlib import Scratch


def elsewhere(top, base, rng):
    """keep the database somewhere else, behind a link"""
    db, to = os.path.join(top, ".snapcd"), os.path.join(base, "kept%d" % rng.randrange(10**9))
    if not os.path.isdir(db) or os.path.islink(db):
        return
    os.rename(db, to)
    os.symlink(rng.choice([to, os.path.relpath(to, os.path.realpath(top))]), db)


def setup(p):
    def cwd():
        ds = [p.w.repo]
        for d, sub, fs in os.walk(p.w.repo):
            if ".snapcd" in sub:
                if p.rng.random() < .7 or os.path.islink(os.path.join(d, ".snapcd")):
                    sub.remove(".snapcd")
            for s in sub:
                q = os.path.join(d, s)
                try:
                    q.encode()
                    ds.append(q)
                except UnicodeEncodeError:
                    pass
        # the deeper ones are the interesting ones; sometimes start through a symbolic link from outside
        d = p.rng.choice(ds + ds[1:] * 3 + sorted(ds, key=lambda q: q.count("/"))[-1:] * (len(ds) // 2))
        # the permissions of directories in between do not matter to someone who may pass
        for q in ds:
            os.chmod(q, p.rng.choice([0o755] * 6 + [0o555, 0o500, 0o700, 0o1777, 0o2775, 0o111]))
        if p.rng.random() < .1:
            l = os.path.join(p.w.base, "link%d" % p.rng.randrange(10**9))
            os.symlink(d, l)
            return l
        return d
    p.cwd = cwd
    if p.rng.random() < .3:
        elsewhere(p.w.repo, p.w.base, p.rng)
    p.w.pwd = pwds(p.w, p.rng)


def pwds(w, rng):
    """PWD is the caller's business: right, through a link, stale, not set, another repository"""
    other = os.path.join(w.base, "other")
    os.makedirs(other)
    o = snap.World(w.base, w.cli, repo=other)
    o.run("init")
    with open(os.path.join(other, "other file"), "wb") as f:
        f.write(b"not here")
    o.run("commit", "-m", "in the other one")

    def pwd(cwd):
        k = rng.randrange(8)
        if k < 2:
            return None
        if k < 4:
            return cwd
        return ["/", other, w.base, "relative"][k - 4]
    return pwd


def hook(p, a, o, d):
    """the same query from the top prints the same"""
    if a["a"] not in ("status", "compare", "reflog", "log", "show", "gethead", "refget") or p.last is None or p.rng.random() < .4:
        return
    args, cwd, excl, _ = p.w.log[-1]
    r = p.w.run(*args, excl=excl)
    if r.out != p.last.out or r.rc != p.last.rc:
        return [("cwd", "%s from %s: %r; from the top: %r" % (args, cwd, p.last, r))]


def nested(j):
    cli, walk, seed = j
    rng = random.Random(seed)
    bad = []
    with Scratch() as sc:
        nm = dict(zip("abcd", rng.sample(["a", "b b", ".snapcd2", "sub", "\u00fc", "repo", ".hid", "c"], 4)))
        w = snap.World(sc, cli)
        top = os.path.join(sc, "top")
        w.pwd = pwds(w, rng)
        real = lambda d: os.path.join(top, *[nm[x] for x in d])
        os.makedirs(real(("a", "b", "c")))
        os.makedirs(real(("d",)))
        for d in [(), ("a",), ("a", "b"), ("a", "b", "c"), ("d",)]:
            with open(os.path.join(real(d), "file"), "wb") as f:
                f.write(b"in " + "/".join(d).encode())
        for n, (a, lens) in enumerate(walk):
            d = real(a["d"])
            for q in [("a",), ("a", "b"), ("a", "b", "c"), ("d",)]:
                os.chmod(real(q), rng.choice([0o755] * 3 + [0o555, 0o500, 0o700, 0o1777]))
                for noise in (".git", ".hg", "snapcd.db", ".snapcd.bak"):
                    x = os.path.join(real(q), noise)
                    if rng.random() < .1 and not os.path.exists(x):
                        os.mkdir(x)
            if a["a"] == "init":
                r = w.run("init", cwd=d)
                if not r.failed and rng.random() < .25:
                    elsewhere(d, sc, rng)
            elif a["a"] == "commit":
                mark = b"edit %d" % n
                with open(os.path.join(d, "file"), "wb") as f:
                    f.write(mark)
                r = w.run("commit", "-m", "commit %d" % n, cwd=d)
            elif a["a"] == "reflog":
                r = w.run("ref", "log", cwd=d)
            else:
                r = w.run("status", cwd=d)
            desc = "%s from %s" % (a["a"], "/".join(a["d"]) or "top")
            if r.failed == a["ok"]:
                bad.append("%s: %r" % (desc, r))
                break
            have = {}
            for q in [(), ("a",), ("a", "b"), ("a", "b", "c"), ("d",)]:
                db = os.path.join(real(q), ".snapcd", "snapcd.db")
                if os.path.exists(db):
                    have[q] = snap.Dump(db)
            want = {tuple(q): k for q, k in lens}
            if {q: len(x.reflog) for q, x in have.items()} != want:
                bad.append("%s: histories have lengths %s, expected %s" % (desc, {q: len(x.reflog) for q, x in have.items()}, want))
                break
            if a["ok"] and a["a"] == "commit":
                x = have[tuple(a["r"])]
                c = x.commit(x.reflog[-1][2])
                t = x.tree(c["tree"])
                rel = os.path.relpath(os.path.join(d, "file"), real(a["r"]))
                if c["message"] != "commit %d" % n or t.get(rel) != mark or t.get("file") is None:
                    bad.append("%s: committed %s" % (desc, sorted(t)))
                    break
            if a["ok"] and a["a"] == "reflog":
                got = [l.split(": ")[1] for l in r.text.split("\n") if ": b" in l]
                x = have[tuple(a["r"])]
                if got != [snap.b3.user_key(k) for _, _, k in reversed(x.reflog)]:
                    bad.append("%s printed %s" % (desc, got))
                    break
    return len(walk), bad, walk


def run(c):
    cli = vlib.build_cli()
    q = c.quick
    r = vlib.tlc("Nearest", cfg="NearestX", constants=dict(MaxOps=3 if q else 4))
    c.model(r)
    r = vlib.tlc("Nearest", constants=dict(MaxOps=14), simulate=80 if q else 1500, depth=15, workers=1, seed=c.seed)
    c.model(r)
    walks, cur = [], []
    for e in r.emitted:
        if e["l"] == 1:
            cur = []
            walks.append(cur)
        if e["a"]["a"] != "start":
            cur.append((e["a"], e["len"]))
    for n, bad, w in vlib.pmap(nested, [(cli, x, c.seed * 1000 + i) for i, x in enumerate(walks) if x]):
        c.traces(1)
        c.count("nested_steps", n)
        for b in bad:
            c.violate(b, {"behaviour": w})
    engine.sim_check(c, cli, dict(Acts="AAll", Names="N3", Contents="C3", Refs="R2", Remotes="M1", MaxDepth=3, XSets="X1", WTs="WNone", MaxCommits=8, MaxLog=8, MaxRoots=6),
                     80 if q else 1200, 40, None, hook=hook, repkw={"_setup": setup, "contentpool": snap.TEXTPOOL, "_ballast": .15}, budget=40 if q else 400)


vlib.main("C16", run)
