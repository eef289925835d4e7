"""Commands of Repo.tla behaviours that read the repository or write files for the user, with each file operation they do
refused in turn: they either fail or give the answer the model has for them."""
import os, random, shutil
import engine, faults, repo, snap, vlib

POOL = [random.Random(78).randbytes(300000), b"small", b"", b"x" * 40000, b"line\nline\n" * 9]


QUERIES = ("status", "compare", "log", "show", "showfile", "reflog", "refget", "gethead", "walktree", "walkfs", "pretty")


def answer(p, a, r):
    """what the command gave its user"""
    x = {"printed": sorted(r.out.split(b"\n"))}
    if a["a"] == "fetch":
        x["fetched"] = r.tree
    if a["a"] == "checkout":
        x["working tree"] = p.wt_now()
    return x


def job(j):
    cli, shim, walk, seed, consts, kinds, cap, base = j
    rng = random.Random(seed)
    bad, st = [], {"refused_operations": 0, "refused_failed": 0}
    if base:
        vlib.drop_privileges()
    with vlib.Scratch(base=base) as sc:
        k = dict(engine.DEF)
        k.update(consts)
        p = repo.Rep(sc, cli, rng, *[engine.SETS[k[x]] for x in ("Names", "Contents", "Refs", "Remotes", "Msgs")], contentpool=POOL)
        cand = [i for i, (a, o, d) in enumerate(walk) if o["ok"] and a["a"] in kinds]
        pick = set()
        for x in sorted({walk[i][0]["a"] for i in cand}):
            pick.add(rng.choice([i for i in cand if walk[i][0]["a"] == x]))
        for i, (a, o, d) in enumerate(walk):
            if i not in pick:
                if any(t == "outcome" for t, _ in p.step(a, o, d)):
                    break
                continue
            hist = [x for x, _, _ in walk[:i + 1]]
            nf = getattr(p, "nf", 0)
            dirs = [p.w.repo, os.path.join(sc, "cache"), os.path.join(sc, "fetch%d" % (nf + 1))]
            rs = p.rng.getstate()
            before, after, ops, s, s2, ms = faults.clean_run(p, a, o, d, shim, dirs, "wrt")
            if ms or p.last is None or p.last.failed:
                break           # the check of the command without faults reports this
            want = answer(p, a, p.last)
            pts = []
            for n, rec in ops.items():
                pts += [(n, m) for m in ("5", "13", "5:sticky", "4")]
                if rec[1] in ("write", "pwrite"):
                    pts += [(n, "28"), (n, "28:sticky"), (n, "short")]
            if len(pts) > cap:
                pts = rng.sample(pts, cap)
            for n, m in pts:
                p.nf = nf
                p.rng.setstate(rs)
                r = faults.run_with(p, a, s, {"SHIM_FAIL": "%d:%s" % (n, m)}, shim, dirs, "wrt")
                st["refused_operations"] += 1
                if r.failed or getattr(r, "refused", False):
                    st["refused_failed"] += 1
                    continue
                got = answer(p, a, r)
                d = [x for x in want if want[x] != got[x]]
                if d:
                    rec = r.hit or ops[n]
                    bad.append(("%s reported success although %s of %s was refused (%s), and %s is %s instead of %s" % (
                        a, rec[1], os.path.relpath(rec[5], sc), m, d[0], _s(got[d[0]]), _s(want[d[0]])), {"behaviour": hist, "result": repr(r), "names": p.c.n}))
                    break
            if a["a"] in QUERIES and any(want["printed"]):
                p.rng.setstate(rs)
                p.w.stdout = "/dev/full"
                r = faults.run_with(p, a, s, {}, shim, dirs, "wrt")
                p.w.stdout = None
                if not (r.rc or r.failed):
                    bad.append(("%s reported success although none of what it had to print could be written" % a, {"behaviour": hist, "result": repr(r), "names": p.c.n}))
            p.nf = nf + 1
            faults.cleanup(p, s, s2, after)
            if bad:
                break
    return bad, st


def _s(x):
    return repr(repo.summ(x) if isinstance(x, dict) else x)[:700]


def run(c, cli, kinds, acts="AAll", num=None, cap=None, base=None, **kw):
    q = c.quick
    shim = vlib.build_shim()
    if base:
        shim = shutil.copy(shim, os.path.join(base.path, "shim.so"))
        os.chmod(shim, 0o755)
    k = dict(dict(Acts=acts, Names="N2", Contents="C3", Refs="R2", Remotes="M1", WTs="WNone", MaxDepth=2, XSets="X0", MaxCommits=6, MaxLog=6, MaxRoots=4), **kw)
    r = engine.model_run(c, k, simulate=(num or 48) if q else 300, depth=16, seed=c.seed * 29 + 3)
    jobs = [(cli, shim, [(e["a"], e["o"], e["d"]) for e in b], c.seed * 7001 + i, k, kinds, (cap or 60) if q else 400, base and base.path)
            for i, b in enumerate(repo.behaviours(r.emitted))]
    for bad, st in vlib.pmap(job, jobs):
        c.traces(1)
        for x, v in st.items():
            c.count(x, v)
        for b in bad:
            c.violate(*b)
