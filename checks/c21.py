"""C21: commit graphs of Repo.tla behaviours built for real (merges, file roots, equal trees, long chains); what log and show
print of every reached commit is judged by LogJudge.tla, and show of every stored file is the file."""
import json, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import bulk, engine, outparse, refuse, repo, snap, vlib

BIG = [random.Random(i).randbytes(n) for i, n in enumerate((3 << 20, 200000, 65537, 33000))] + [b"\n" * 70000, b"\xff", b""]
TEXT = snap.TEXTPOOL + [b"--- a\n+++ b\n@@ -1,1 +1,1 @@\n", b"commit: x\n\n\n", b"a\nb\nc\nd\ne\nf\ng\nh\ni\nj\nk\n", b"a\nb\nc\nD\ne\nf\ng\nh\ni\nj\nk\nl\n", b"\n\n", b"x\n"]
MSGS = [m for m in repo.MSGPOOL if m and not m.startswith("-")] + ["commit: b" + "a" * 52 + "\n\nfake", "a  +1 -1", "end\n\n", "--- a\n+++ b\n@@ -1,1 +1,1 @@\n-x\n+y", "\n\nstarts late", "\u00e9" * 200]


def trace(p, q, ask):
    """the commit graph as LogJudge.tla reads it"""
    d = p.prev
    idx = {k: i + 1 for i, k in enumerate(p.commits)}
    user = {snap.b3.user_key(k): k for k in p.commits}
    cid, mid = {}, {}

    def num(t, x):
        return t.setdefault(x, len(t) + 1)
    cm, stored = [], {}
    for k in p.commits:
        r = d.commit(k)
        t = d.tree(r["tree"])
        stored[snap.b3.user_key(k)] = r["message"]
        cm.append({"par": [idx.get(x, 0) for x in r["parents"]], "msg": num(mid, r["message"]),
                   "files": [[f, num(cid, v)] for f, v in sorted(t.items()) if v != "D"]})
    qs, why = [], []
    for start, kind, args, text in ask:
        es, pre = outparse.entries(text, stored)
        out, clean = [], not pre.strip("\n")
        for k, m, body in es:
            if kind == "log":
                st, junk = outparse.stat_lines(body)
                ch = [f for f, _, _ in st]
            else:
                ps, junk = outparse.patches(body)
                ch = [x["new"] for x in ps]
                clean = clean and all(x["old"] == x["new"] for x in ps)
            clean = clean and not junk
            out.append({"id": idx.get(user.get(k), 0), "msg": num(mid, m), "changed": ch})
        qs.append({"start": start, "all": kind == "log", "out": out, "clean": clean})
        why.append({"command": args, "printed": text[:600]})
    return {"cm": cm, "qs": qs}, why


def job(j):
    cli, walk, seed, consts, pool, every = j
    rng = random.Random(seed)
    bad, ask, hist = [], [], []
    with vlib.Scratch() as sc:
        k = dict(engine.DEF)
        k.update(consts)
        p = repo.Rep(sc, cli, rng, *[engine.SETS[k[x]] for x in ("Names", "Contents", "Refs", "Remotes", "Msgs")], contentpool=pool)
        p.msg.update(zip(sorted(x for x in p.msg if x), rng.sample(MSGS, len(p.msg))))
        n = 0
        for i, (a, o, d) in enumerate(walk):
            hist.append(a)
            ms = p.step(a, o, d)
            n += 1
            stop = any(t == "outcome" for t, _ in ms)
            if a["a"] in ("log", "show", "showfile"):
                for t, m in ms:
                    if t in ("outcome", "show", "changed"):
                        bad.append((m, {"behaviour": hist[-15:], "commands": p.w.log[-10:]}))
            if stop or bad:
                break
            if a["a"] in ("log", "show") and o["ok"] and p.last:
                ask.append((a["id"] or o["chain"][0]["id"], a["a"], p.w.log[-1], p.last.text))
        else:
            # every commit, in every way
            for i, ck in enumerate(p.commits if every else []):
                for kind in ("log", "show"):
                    if i % every and i != len(p.commits) - 1:
                        continue
                    r = p.run(kind, p.key(ck))
                    if r.failed:
                        bad.append(("%s of a commit failed: %r" % (kind, r), {"behaviour": hist[-15:]}))
                    else:
                        ask.append((i + 1, kind, [kind, i + 1], r.text))
        try:
            t = trace(p, None, ask) if p.commits else None
        except Exception as e:          # the store itself is judged by other checks
            t = None
            bad.append(("commits cannot be read back: %r" % e, {"behaviour": hist[-15:]}))
        return n, bad, t, hist[-30:], len(ask)


def deep(j):
    """a very long history, written through the store interface; log from its tip and from further down"""
    cli, h, seed, total = j
    rng = random.Random(seed)
    with vlib.Scratch() as sc:
        w = snap.World(sc, cli)
        w.run("init")
        b = bulk.Bulk(h, w.dbfile)
        fs = [b.file(x) for x in TEXT[:6]]
        msgs = rng.sample(MSGS, 5)
        names = ["a", "b b", "c/d"][:2]
        keys, cm, stored = [], [], {}
        cur = {}
        width = rng.choice([0, 0, 1, 40])          # how often a commit has more parents
        trees = {}
        for i in range(total):
            if rng.random() < .3:
                n = rng.choice(names)
                cur = {x: y for x, y in cur.items() if x != n} if rng.random() < .3 else {**cur, n: rng.randrange(len(fs))}
            tk = tuple(sorted(cur.items()))
            if tk not in trees:
                trees[tk] = b.dir({n: fs[x] for n, x in cur.items()})
            par = [len(keys)] if keys else []
            if len(keys) > 2 and width and rng.random() < width / 100:
                par.append(rng.randrange(1, len(keys)))
            m = rng.randrange(len(msgs))
            k = b.commit(trees[tk], [keys[x - 1] for x in par], msgs[m])
            if k in keys[-1:]:
                continue
            keys.append(k)
            cm.append({"par": par, "msg": m + 1, "files": [[n, x + 1] for n, x in sorted(cur.items())]})
            stored[snap.b3.user_key(k)] = msgs[m]
        b.push("master", None, keys[-1])
        b.done()
        idx = {snap.b3.user_key(k): i + 1 for i, k in enumerate(keys)}
        qs, why = [], []
        for at in [len(keys)] + [rng.randrange(1, len(keys) + 1) for _ in range(2 if total < 5000 else 0)]:
            arg = snap.b3.user_key(keys[at - 1])
            # with the stack any thread would have: how much is needed must not depend on how long the history is
            r = w.run("log", arg, stack=2 << 20)
            if r.failed:
                return None, ("log of a long history failed: %r" % r, {"commits": len(keys), "from": at})
            es, pre = outparse.entries(r.text, stored)
            out, clean = [], not pre.strip("\n")
            for k, m, body in es:
                st, junk = outparse.stat_lines(body)
                clean = clean and not junk
                out.append({"id": idx.get(k, 0), "msg": msgs.index(m) + 1 if m in msgs else 0, "changed": [f for f, _, _ in st]})
            qs.append({"start": at, "all": True, "out": out, "clean": clean})
            why.append({"command": ["log", "of a history %d commits long" % at], "printed": r.text[:600]})
        return {"cm": cm, "qs": qs}, why


def run(c):
    cli = vlib.build_cli()
    q = c.quick
    # the model's own statement of the property
    c.model(vlib.tlc("MCRepo", constants=dict(Acts="ALog", Names="N1" if q else "N2", WTs="W3" if q else "W6", MaxCommits=3, MaxLog=2, MaxRoots=2, Refs="R2"), timeout=3000))
    kw = dict(Names="N2", Contents="C3", Refs="R3", Msgs="G3", WTs="WNone", MaxDepth=2, MaxCommits=14, MaxLog=14, MaxRoots=6)
    jobs = []
    for consts, num, depth, pool, every in ((dict(kw, Acts="ALog3"), 70 if q else 1500, 40, TEXT, 1),
                                            (dict(kw, Acts="ALong", MaxCommits=90, MaxLog=90, Names="N3", Refs="R1"), 3 if q else 30, 160, TEXT, 12),
                                            (dict(kw, Acts="AShow"), 50 if q else 800, 16, snap.CONTENTPOOL + BIG, 0)):
        r = engine.model_run(c, consts, simulate=num, depth=depth, seed=c.seed * 31 + depth)
        for i, b in enumerate(repo.behaviours(r.emitted)):
            jobs.append((cli, [(e["a"], e["o"], e["d"]) for e in b], c.seed * 7001 + i, consts, pool, every))
    jobs.sort(key=lambda j: -len(j[1]))
    recs, why = [], []
    for n, bad, t, hist, asked in vlib.pmap(job, jobs):
        c.traces(1)
        c.count("steps_replayed", n)
        c.count("outputs_judged", asked)
        for what, info in bad:
            c.violate(what, info)
        if t:
            recs.append(t[0])
            why.append((t[1], hist))
    h = vlib.try_harness(c)
    for t, x in vlib.pmap(deep, [(cli, h, c.seed * 17 + i, n) for i, n in enumerate([6000, 1500, 700] if q else [30000, 12000, 8000] + [1500, 700, 2300] * 6)] if h else []):
        if t is None:
            c.violate(*x)
            continue
        recs.append(t)
        why.append((x, []))
        c.count("deep_commits", len(t["cm"]))

    def one(part):
        return part[0], vlib.tlc("LogJudge", extra_files={"logs.json": json.dumps(recs[part[0]:part[1]])}, workers=1, heap="2g")
    step = max(1, (len(recs) + vlib.NCPU - 1) // vlib.NCPU)
    seen = 0
    for off, r in vlib.pmap(one, [(i, i + step) for i in range(0, len(recs), step)]):
        c.model(r)
        for e in r.emitted:
            if e["k"] == 0:
                seen += e["v"]
            else:
                g = off + e["r"] - 1
                w = why[g][0][e["k"] - 1]
                c.violate("%s printed wrongly (%s)" % (w["command"], ", ".join(x for x in e["v"] if not e["v"][x])),
                          {"output": w, "parsed": str(recs[g]["qs"][e["k"] - 1])[:3000], "commits": recs[g]["cm"][:20], "behaviour": why[g][1]})
    if seen != sum(len(x["qs"]) for x in recs):
        raise vlib.ToolError("the judge did not finish")
    c.count("merges", sum(len(x["par"]) > 1 for t in recs for x in t["cm"]))
    if recs:
        c.sample(recs[0]["qs"][:3])
    refuse.run(c, cli, {"log", "show"}, "ALog", num=24, cap=40)
    refuse.run(c, cli, {"showfile"}, "AShow", num=24, cap=40)
    c.cov["rule"] = "log and show of every commit of random commit graphs (parents in stored order), judged by LogJudge.tla; show of stored files"


vlib.main("C21", run)
