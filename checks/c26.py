"""C26: walk-tree, walk-fs-tree and pretty-print at every point of Repo.tla behaviours list exactly what the model says is there."""
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import engine, listing, refuse, snap, vlib

LIST = {"walktree", "walkfs", "pretty"}
TAGS = {"list", "outcome"}
POOL = snap.NAMEPOOL + [n for n in snap.HARDNAMES if snap.text(n)]


def only(a):
    return a["a"] in LIST


def hook(p, a, o, d):
    """everything stored, put together again from what pretty-print prints"""
    if a["a"] != "pretty" or not o["ok"] or p.rng.random() > .1 or p.c.ballast:
        return []
    k = p.rng.choice(sorted(p.treekeys))
    try:
        got = listing.tree(p, p.treekeys[k])
    except (listing.Unreadable, ValueError, KeyError) as e:
        return [("list", "%r" % e)]
    want = p.prev.tree(p.treekeys[k])
    return [] if got == want else [("list", "pretty-print of everything below gives another tree")]


def wide(j):
    """one directory with many entries, one path with many directories, one big file, in every order of making them"""
    cli, seed, n = j
    rng = random.Random(seed)
    bad = []
    with vlib.Scratch() as sc:
        w = snap.World(sc, cli)
        w.run("init")
        t = {"d": "D"}
        names = rng.sample(POOL, 8)
        for i in range(n):
            q = "d/" + (names[i] if i < 8 else rng.choice(["e%d", "%d", "x %d", "\u00e9%d", "q\"%d", "l\n%d", "b\\%d"]) % i)
            t[q] = "D" if rng.random() < .2 else rng.choice([b"", b"same", b"%d" % i, rng.randbytes(rng.choice([10, 100, 70000]))])
        q = "deep"
        for i in range(rng.choice([3, 40, 200])):
            t[q] = "D"
            q += "/" + rng.choice("ab")
        t[q] = rng.randbytes(400000)
        snap.write_tree(w.repo, t, rng)
        r = w.run("insert", w.repo)
        k = r.text.split()[-1]
        if r.failed or len(k) != 53:
            return 0, [("insert failed: %r" % r, {})]
        d = w.dump()
        root = snap.key_to_db(k)
        try:
            got = sorted(listing.walk_tree(w.run("debug", "walk-tree", k).text))
            want = sorted((p, d.find(root, p), c == "D") for p, c in t.items())
            if got != want:
                bad.append(("walk-tree of %d entries: %d rows" % (len(t), len(got)), {"seed": seed, "n": n}))
            got = sorted(x for x in listing.walk_fs(w.run("debug", "walk-fs-tree", w.repo).text) if x[0].split("/")[0] != ".snapcd")
            if got != sorted((p, c == "D") for p, c in t.items()):
                bad.append(("walk-fs-tree of %d entries: %d rows" % (len(t), len(got)), {"seed": seed, "n": n}))
            ks = sorted(d.objs)
            for k in rng.sample(ks, min(len(ks), 40)) + [root]:
                o = d.decode(k)
                if listing.pretty(w.run("debug", "pretty-print", snap.b3.user_key(k)).text) != (o.type, o.keys, o.data):
                    bad.append(("pretty-print of a %s with %d keys and %d bytes differs from what is stored" % (o.type, len(o.keys), len(o.data)), {"seed": seed, "key": k.hex()}))
                    break
        except listing.Unreadable as e:
            bad.append(("%r" % e, {"seed": seed, "n": n}))
    return 1, bad


def check(c):
    cli = vlib.build_cli()
    q = c.quick
    k = dict(Acts="AList", Names="N1", Contents="C1", Refs="R1", WTs="W2", MaxCommits=2, MaxLog=2, MaxRoots=1)
    engine.model_run(c, k, invariant_only=True)
    for kk in [dict(WTs="W5", MaxCommits=1, MaxLog=1)] + ([] if q else [dict(WTs="W2", MaxCommits=2, MaxLog=2)]):
        engine.lts_check(c, cli, dict(k, Names="N2", Contents="C2", MaxRoots=2, **kk), TAGS, only=only, hook=hook,
                         repkw={"namepool": POOL}, limit=3000 if q else None, budget=60 if q else 900)
    engine.sim_check(c, cli, dict(Acts="AList", Names="N3", Contents="C3", Refs="R2", MaxDepth=3, WTs="WNone", XSets="X0", MaxCommits=6, MaxLog=6, MaxRoots=6),
                     80 if q else 1500, 30, TAGS, hook=hook, only=only, repkw={"_ballast": .15, "namepool": POOL}, budget=40 if q else 900)
    for n, bad in vlib.pmap(wide, [(cli, c.seed * 41 + i, x) for i, x in enumerate([5, 300, 1200, 40, 700, 20] * (1 if q else 8))]):
        c.count("large_trees", n)
        for b in bad:
            c.violate(*b)
    refuse.run(c, cli, LIST, acts="AList", cap=25)
    c.assumptions = ["rows of walk-fs-tree below .snapcd are not judged (the storage engine's files come and go)",
                     "the deserialised form pretty-print adds at the end is not judged"]


vlib.main("C26", check)
