"""C22: pairs of texts of Patch.tla (all small ones, and long ones made by random edit scripts) committed for real; every printed
patch is applied by the specification's Apply, and the line statistics are judged against it."""
import itertools, json, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import outparse, snap, vlib

LINES = ["", "x", "y", "  indented", "-", "+", "-- a", "++ b", "--- a", "+++ b", "@@ -1,1 +1,1 @@", "@@ -0,0 +1,3 @@", "\\ No newline at end of file", "tab\tin", "x\r", "\r",
         "\u00e9t\u00e9", "\u2028", "\x0c", "\x85", "\x0b", "z" * 300, "commit: b" + "a" * 52, "}", "\U0001f980", " ", "X", "x "]


def SET(n):
    return "{%s}" % ", ".join(map(str, range(1, n + 1)))


def pieces(t):
    """a text's lines: the pieces between newline characters; an empty text has none"""
    return t.split("\n") if t else []


def job(j):
    cli, pairs, seed, nested = j
    rng = random.Random(seed)
    recs, bad = [], []
    with vlib.Scratch() as sc:
        w = snap.World(sc, cli)
        def name(i):
            n = "f%d" % i
            return os.path.join(*(["d%d" % (i % 3)] * (nested and i % 4)), n + rng.choice(["", "", ".txt", " sp", "\t", "'q\"", "\\b", "\u00fc"]))
        names = [name(i) for i in range(len(pairs))]
        if w.run("init").failed:
            return [], ["init failed"]
        only = {}
        for side in (0, 1):
            for n, p in zip(names, pairs):
                f = os.path.join(w.repo, n)
                os.makedirs(os.path.dirname(f), exist_ok=True)
                with open(f, "wb") as fh:
                    fh.write(p[side].encode())
            if nested:      # files only one version has, among the others
                for i in range(4):
                    f = os.path.join(w.repo, "d1", "o%d%d" % (i, side))
                    os.makedirs(os.path.dirname(f), exist_ok=True)
                    with open(f, "wb") as fh:
                        fh.write(b"@@ -1,1 +1,1 @@\n--- a\n" * i)
                    o = f[:-1] + str(1 - side)
                    if os.path.exists(o):
                        os.unlink(o)
            r = w.run("commit", "-m", "m%d" % side)
            if r.failed:
                return [], ["commit failed: %r" % r]
        d = w.dump()
        old = d.commit(d.reflog[0][2])["tree"]
        new = d.commit(d.reflog[1][2])["tree"]
        outs = {"show": w.run("show"), "log": w.run("log")}
        # the working tree holds the new version; then compare the other way round
        outs["stat"] = w.run("compare", "--stat", snap.b3.user_key(old))
        for n, p in zip(names, pairs):
            with open(os.path.join(w.repo, n), "wb") as fh:
                fh.write(p[0].encode())
        outs["back"] = w.run("compare", "--stat", snap.b3.user_key(new))
        for k, r in outs.items():
            if r.failed:
                bad.append("%s failed: %r" % (k, r))
        if bad:
            return [], bad
        users = {snap.b3.user_key(e[2]): d.commit(e[2])["message"] for e in d.reflog}
        shown, _ = outparse.entries(outs["show"].out.decode(), users)
        logged, _ = outparse.entries(outs["log"].out.decode(), users)
        ps, junk = outparse.patches(shown[0][2] if shown else "")
        st = {}
        for k, text in (("log", logged[0][2] if logged else ""), ("stat", outs["stat"].out.decode()), ("back", outs["back"].out.decode())):
            ls, more = outparse.stat_lines(text)
            junk += more
            for n, a, b in ls:
                st.setdefault(n, []).append((k, a, b))
        by = {}
        for x in ps:
            by.setdefault(x["new"], []).append(x)
        ids = {}
        for n, p in zip(names, pairs):
            num = lambda ls: [ids.setdefault(x, len(ids) + 1) for x in ls]
            mine = by.get(n, [])
            stats = st.get(n, [])
            ok = len(mine) == 1 and sorted(k for k, _, _ in stats) == ["back", "log", "stat"] and not junk and mine[0]["old"] == n
            hs = [{"os": h["os"], "oc": h["oc"], "ns": h["ns"], "nc": h["nc"],
                   "lines": [{"m": m, "t": ids.setdefault(t, len(ids) + 1)} for m, t in h["lines"]]} for h in (mine[0]["hunks"] if mine else [])]
            recs.append(({"old": num(pieces(p[0])), "new": num(pieces(p[1])), "haspatch": bool(mine), "hunks": hs, "clean": ok,
                          "stats": [[a, b] if k != "back" else [b, a] for k, a, b in stats]},
                         {"name": n, "old": p[0], "new": p[1], "patch": mine[:1], "stats": stats, "unparsed": junk[:5]}))
    return recs, bad


def run(c):
    cli = vlib.build_cli()
    q = c.quick
    for k in ([{"MaxLen": 6}, {"MaxLen": 6, "Before": 0, "After": 1}] if q else [{"MaxLen": 8}, {"MaxLen": 7, "Before": 0, "After": 0}, {"MaxLen": 6, "Lines": "{1, 2, 3}"}, {"MaxLen": 9, "Lines": "{1}"}]):
        c.model(vlib.tlc("Patch", constants=k, timeout=3000))
    if not vlib.tlc("Patch", constants={"OwnCounts": "FALSE"}, expect_violation=True).violated:
        raise vlib.ToolError("Patch.tla does not depend on the counts")
    rng = random.Random(c.seed)

    def text(ls, m):
        return "\n".join(m[x] for x in ls)
    # ---- every pair of small texts
    n = 3 if q else 4
    small = [t for k in range(n + 1) for t in itertools.product((1, 2, 3), repeat=k)]
    pairs = []
    for m in ([{1: "", 2: "a", 3: "b"}] if q else [{1: "", 2: "a", 3: "b"}, {1: "x", 2: "x\r", 3: ""}, {1: "- x", 2: "x", 3: "+ x"}]):
        pairs += [(text(a, m), text(b, m)) for a in small for b in small]
    # ---- long ones
    sims = vlib.pmap(lambda k: vlib.tlc("Patch", cfg="PatchGen", constants=k[0], simulate=k[1], depth=60, workers=1, seed=c.seed * 5 + k[2]),
                     [({"MaxLen": m, "Lines": l}, z if q else z * 20, i) for i, (m, l, z) in enumerate(((14, "{1, 2}", 150), (40, "{1, 2, 3, 4}", 150), (40, SET(24), 100), (160, SET(20), 12), (25, "{1, 2, 3}", 150)))])
    for r in sims:
        c.model(r)
        for e in r.emitted:
            m = dict(enumerate(rng.sample(LINES, 24), 1))
            if rng.random() < .5:
                m[1] = ""
            a, b = text(e["o"], m), text(e["n"], m)
            if rng.random() < .5:
                a += "\n"
            if rng.random() < .5:
                b += "\n"
            pairs.append((a, b))
    for s in range(2):      # far apart
        ls = ["line %d" % rng.randrange(300) for _ in range(1500)]
        new = list(ls)
        for _ in range(40):
            i = rng.randrange(len(new))
            new[i:i + rng.randrange(3)] = ["new %d" % rng.randrange(50)] * rng.randrange(4)
        pairs.append(("\n".join(ls), "\n".join(new) + "\n"))
    pairs = [p for p in dict.fromkeys(pairs) if p[0] != p[1]]
    rng.shuffle(pairs)
    step = 220
    jobs = [(cli, pairs[i:i + step], c.seed * 13 + i, (i // step) % 2) for i in range(0, len(pairs), step)]
    jobs += [(cli, [p], c.seed * 17 + i, 0) for i, p in enumerate(rng.sample(pairs, 16 if q else 200))]     # alone in a commit
    recs = []
    for rs, bad in vlib.pmap(job, jobs, chunks=1):
        recs += rs
        for b in bad:
            c.violate(b[:300], {"what": b})
    c.count("pairs", len(recs))
    c.count("hunks", sum(len(r["hunks"]) for r, _ in recs))

    def one(part):
        return part[0], vlib.tlc("PatchJudge", extra_files={"patches.json": json.dumps([r for r, _ in recs[part[0]:part[1]]])}, workers=1, heap="2g")
    step = max(1, (len(recs) + vlib.NCPU - 1) // vlib.NCPU)
    seen = 0
    for off, r in vlib.pmap(one, [(i, i + step) for i in range(0, len(recs), step)]):
        c.model(r)
        for e in r.emitted:
            if e["k"] == 0:
                seen += e["v"]
            else:
                g, info = recs[off + e["k"] - 1]
                c.violate("wrong output for %r -> %r (%s)" % (info["old"][:60], info["new"][:60], ", ".join(x for x in e["v"] if not e["v"][x])), {"parsed": g, "case": info})
    if seen != len(recs):
        raise vlib.ToolError("the judge did not finish")
    c.traces(len(recs))
    if recs:
        c.sample(recs[len(recs) // 2][1])
    c.cov["rule"] = "show, log and compare --stat of modified text files: all pairs of texts of up to %d lines over three lines, and random edit scripts of up to 160 lines" % n
    c.assumptions = ["a text's lines are the pieces between newline characters; an empty text has none", "files are UTF-8"]


vlib.main("C22", run)
