"""C07: every transition of Repo.tla's ref-history fragment (refs x remotes) replayed on the program; long histories of many
refs with names alike, judged by RefRows.tla."""
import json, os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import bulk, engine, refuse, repo, snap, vlib


def only(a):
    return a["a"] in ("refupdate", "reflogpush", "refget", "reflog")


def alike(rng, n):
    """names that a sloppy comparison takes for one"""
    base = rng.choice(["master", "feature/x", "Release", "r" * 200, "x" * 254, "caf\u00e9 main", "a" * 1000])
    fs = [lambda s: s + "x", lambda s: s[:-1], lambda s: s.upper(), lambda s: s.lower(), lambda s: s + " ", lambda s: " " + s, lambda s: s + "\n",
          lambda s: s.replace("\u00e9", "e\u0301"), lambda s: s.replace("e", "\u0435"), lambda s: s + "/", lambda s: "/" + s, lambda s: s + s, lambda s: s[::-1],
          lambda s: s[:len(s) // 2] + "_" + s[len(s) // 2 + 1:], lambda s: s + "%", lambda s: s + "\t", lambda s: s + "\u200b", lambda s: s.swapcase(),
          lambda s: s + ".lock", lambda s: "refs/" + s, lambda s: s + str(rng.randrange(99)), lambda s: s.title(), lambda s: s + "*", lambda s: s[:255],
          lambda s: s.replace("s", "\u017f"), lambda s: s.replace("k", "\u212a"), lambda s: "0" + s, lambda s: s + "\ufeff"]
    out = [base]
    while len(out) < n:
        s = rng.choice(fs)(rng.choice(out))
        if s not in out and not s.startswith("-") and len(s) < 5000:
            out.append(s)
    return out


def long(j):
    cli, h, seed = j
    rng = random.Random(seed)
    with vlib.Scratch() as sc:
        w = snap.World(sc, cli)
        w.run("init")
        names = alike(rng, rng.choice([2, 6, 14]))
        rems = [None] + alike(rng, rng.choice([1, 3]))
        b = bulk.Bulk(h, w.dbfile)
        cs = []
        t = b.dir({})
        for i in range(6):
            cs.append(b.commit(t, cs[-1:], "m%d" % i))
        user = {snap.b3.user_key(k): i + 1 for i, k in enumerate(cs)}
        rows = []
        total = rng.choice([300, 700, 1100, 2600])
        hot = rng.choice([(n, m) for n in names for m in rems])
        for i in range(total):
            n, m = hot if rng.random() < .7 else (rng.choice(names), rng.choice(rems))
            k = rng.randrange(len(cs))
            b.push(n, m, cs[k])
            rows.append((n, m, k + 1))
        b.done()
        for i in range(8):          # and through the program on top
            n, m = hot if rng.random() < .6 else (rng.choice(names), rng.choice(rems))
            k = rng.randrange(len(cs))
            if m is None and rng.random() < .5:
                r = w.run("ref", "update", snap.b3.user_key(cs[k]), n)
            else:
                r = w.run("debug", "reflog-push", snap.b3.user_key(cs[k]), n, *([] if m is None else [m]))
            if r.failed:
                return None, [("recording an entry failed: %r" % r, n, m)], 0
            rows.append((n, m, k + 1))
        nid, mid = {}, {None: 0}
        for n, m, _ in rows:
            nid.setdefault(n, len(nid) + 1)
            mid.setdefault(m, len(mid))
        qs, why = [], []
        for n in names + alike(rng, 3)[1:]:
            for m in rems:
                for kind in ("get", "list"):
                    if kind == "get":
                        r = w.run("debug", "reflog-get", n, *([] if m is None else [m]))
                        got = [] if r.failed else [user.get(r.text.strip(), 0)]
                    else:
                        r = w.run("ref", "log", n, *([] if m is None else [m]))
                        got = [user.get(x, 0) for x in re.findall(r"^\d+: (\S+)$", r.text, re.M)]
                        if r.failed:
                            got = [0]
                    qs.append({"k": kind, "n": nid.get(n, 0), "m": mid.get(m, 999), "out": got})
                    why.append((kind, n[:60], len(n), m and m[:60], "%d rows" % len(rows)))
        return {"rows": [(nid[n], mid[m], k) for n, m, k in rows], "qs": qs}, why, len(rows)


def longs(c, cli):
    h = vlib.try_harness(c)
    if not h:
        return
    recs, whys = [], []
    for t, why, n in vlib.pmap(long, [(cli, h, c.seed * 61 + i) for i in range(16 if c.quick else 160)]):
        if t is None:
            c.violate(why[0][0], {"ref": why[0][1:]})
            continue
        recs.append(t)
        whys.append(why)
        c.count("long_history_entries", n)
        c.traces(1)

    def one(p):
        return p[0], vlib.tlc("RefRows", extra_files={"rows.json": json.dumps(recs[p[0]:p[1]])}, workers=1, heap="2g")
    step = max(1, (len(recs) + 7) // 8)
    seen = 0
    for off, r in vlib.pmap(one, [(i, i + step) for i in range(0, len(recs), step)]):
        c.model(r)
        for e in r.emitted:
            if e["k"] == 0:
                seen += 1
            else:
                q = recs[off + e["i"] - 1]["qs"][e["k"] - 1]
                c.violate("%s answered wrongly" % (whys[off + e["i"] - 1][e["k"] - 1],), {"answer": q["out"][:20], "length": len(q["out"])})
    if seen != len(recs):
        raise vlib.ToolError("the judge did not finish")


def run(c):
    cli = vlib.build_cli()
    tags = {"outcome", "log", "query", "head", "changed"}
    q = c.quick
    engine.lts_check(c, cli, dict(Acts="ARef", Names="N1", WTs="W2", MaxCommits=2, MaxLog=1 if q else 2, Remotes="M1", Refs="R2"), tags, only=only,
                     limit=4000 if q else 60000, budget=20 if q else 300)
    engine.lts_check(c, cli, dict(Acts="ARef", Names="N1", WTs="W2", MaxCommits=2, MaxLog=2 if q else 3, Remotes="M1", Refs="R1"), tags, only=only,
                     limit=4000 if q else 60000, budget=15 if q else 300)
    engine.sim_check(c, cli, dict(Acts="ARef", Names="N1", WTs="W2", Refs="R3", Remotes="M2", Msgs="G2", MaxCommits=4, MaxLog=12),
                     80 if q else 1500, 40, tags, only=only, budget=20 if q else 200)
    longs(c, cli)
    refuse.run(c, cli, {"reflog", "refget", "gethead"}, "ARef", num=32, cap=40)
    c.assumptions += ["ref and remote names are drawn from a pool of look-alikes (case, blanks, prefixes, SQL and glob metacharacters, Unicode look-alikes)"]


vlib.main("C07", run)
