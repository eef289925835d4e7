"""Links.tla: checkout where files have several names.  Tags: "checkout" (the tree is not the commit's), "touched"
(what an excluded name or a name outside holds has changed)."""
import os, random
import pairs, snap, vlib
from vlib import Scratch

CONTENT = [b"", b"one\n", b"two\n", b"2\n", b"\x00\xff\x80", b"long " * 9000, b"o" * 70000, b"new\n\n", b"x"]


def job(j):
    cli, recs, seed, base = j
    vlib.drop_privileges()
    rng = random.Random(seed)
    bad, n = [], 0
    with Scratch(base=base) as sc:
        w = snap.World(sc, cli)
        if w.run("init").failed:
            return 0, [("init", "init failed", {})]
        side = os.path.join(sc, "side")
        src = os.path.join(sc, "src")
        heads = {}
        for r in recs:
            cont = dict(zip([1, 2, 3, 4], rng.sample(CONTENT, 4)))
            pm = rng.sample(["a", "b", "sub/c", "sub/d", "z y", "deep/er/f", "B"], 2)
            at = {"M1": pm[0], "M2": pm[1], "X": rng.choice(["keep.ex", "sub/keep.ex", "0.ex"]), "Q": "../side/q"}
            tree = {}
            for m in ("M1", "M2"):
                v = r["com"][m]
                d = os.path.dirname(at[m])
                while d:
                    tree[d] = "D"
                    d = os.path.dirname(d)
                if v:
                    tree[at[m]] = "D" if v == 9 else cont[v]
            snap.write_tree(src, tree, rng)
            if w.run("commit", "-p", src, "-m", "m").failed:
                return n, [("init", "commit failed", {})]
            snap.clear_dir(w.repo, skip=(".snapcd",))
            snap.clear_dir(side) if os.path.isdir(side) else os.makedirs(side)
            first = {}
            order = ["M1", "M2", "X", "Q"]
            rng.shuffle(order)
            for m in order:
                v = r["was"][m]
                if not v:
                    continue
                p = os.path.normpath(os.path.join(w.repo, at[m]))
                os.makedirs(os.path.dirname(p), exist_ok=True)
                if v == 9:
                    os.mkdir(p)
                    if rng.random() < .5:
                        open(os.path.join(p, "in"), "wb").write(b"in")
                elif v in first:
                    os.link(first[v], p)
                else:
                    with open(p, "wb") as f:
                        f.write(cont[v])
                    if rng.random() < .2:
                        os.chmod(p, 0o755)
                    first[v] = p
            dump = w.dump()
            for again in range(2):
                f = w.run("checkout", excl=["**/*.ex"])
                n += 1
                hold = {m: open(os.path.normpath(os.path.join(w.repo, at[m])), "rb").read() if os.path.isfile(os.path.join(w.repo, at[m])) else None for m in ("X", "Q")}
                got = {p: v for p, v in snap.read_tree(w.repo, skip=(".snapcd",)).items() if not p.endswith(".ex")}
                want = dict(tree)
                d = os.path.dirname(at["X"])
                if d:
                    want[d] = "D"
                desc = "checkout%s of %s over files with names %s (%s)" % (" again" if again else "", pairs.summ(tree), {at[m]: r["was"][m] for m in at}, pm)
                info = {"case": r, "at": at}
                m = []
                if f.failed:
                    m.append(("checkout", "%s failed: %r" % (desc, f), info))
                elif got != want:
                    m.append(("checkout", "%s gave %s" % (desc, pairs.summ(got)), info))
                for x, k in (("X", "an excluded file"), ("Q", "a file outside the working tree")):
                    if hold[x] != cont[r["was"][x]]:
                        m.append(("touched", "%s changed what %s holds" % (desc, k), info))
                if m:
                    break
            if w.dump() != dump:
                m.append(("touched", desc + ": changed the repository", info))
            bad += m
            if len(bad) > 3:
                break
    return n, bad


def run(c, cli, tags, P, budget):
    if not vlib.tlc("Links", cfg="LinksBad", workers=2, expect_violation=True).violated:
        raise vlib.ToolError("Links.tla: writing in place would be right")
    r = vlib.tlc("Links", workers=4)
    c.model(r)
    rng = random.Random(c.seed * 31)
    # every way names share files, each with a few commits
    by = {}
    for e in r.emitted:
        by.setdefault(tuple(sorted(e["was"].items())), []).append(e)
    recs = []
    for k in sorted(by):
        rng.shuffle(by[k])
        recs += by[k][:max(1, budget // len(by))]
    c.count("cases_of_shared_files", len(recs))
    for n, bad in vlib.pmap(job, [(cli, p, c.seed * 700 + k, P.path) for k, p in enumerate(vlib.split(recs, 16)) if p]):
        c.traces(n)
        for t, what, info in bad:
            if t in tags or t == "init":
                c.violate(what, info)
