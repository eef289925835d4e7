"""C19: what insert, commit, status and compare take from a tree, for every position of the database directory and of
links to it (SnapRule.tla), and with exclusions along behaviours of Repo.tla."""
import os, random, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import engine, pairs, repo, snap, vlib
from vlib import Scratch

POOL = [n for n in snap.NAMEPOOL] + [".snapcd", "snapcd.db", ".git", ".snapcd2", "snapcd"]
HARD = [n for n in snap.HARDNAMES if snap.text(n) and len(n) < 100] + [".snapcd"]


def odd(q, rng):
    """something a snapshot can not hold"""
    how = rng.randrange(7)
    if how == 0:
        os.mkfifo(q)
    elif how == 1:
        os.symlink(os.path.basename(q), q)
    elif how == 2:
        os.symlink("..", q)
    elif how == 3:
        os.symlink("/dev/null", q)
    elif how == 4:
        os.symlink("/nowhere/at/all", q)
    elif how == 5:
        import socket
        s = socket.socket(socket.AF_UNIX)
        try:
            s.bind(q)
        except OSError:             # too long a path
            os.symlink("nowhere", q)
        s.close()
    else:
        os.symlink("nowhere", q)


def job(j):
    cli, recs, seed, names = j
    rng = random.Random(seed)
    bad, n = [], 0
    with Scratch() as sc:
        for i, r in enumerate(recs):
            fixed = None
            rows = {p: (k, c) for p, k, c in r["t"]}
            dbp = [p for p, (k, c) in rows.items() if k == "B"][0]
            cc = snap.Conc(rng, pairs.NAMES[names], ["c1"], namepool=HARD if rng.random() < .2 else POOL)
            if rng.random() < .4:       # the usual name
                cc.n[dbp.split("/")[-1]] = ".snapcd"
                vals = [v for v in POOL if v not in cc.n.values()]
                for k in cc.n:
                    if k != dbp.split("/")[-1] and cc.n[k] == ".snapcd":
                        cc.n[k] = rng.choice(vals)
            base = os.path.join(sc, "w%d" % i)
            os.makedirs(base)
            w = snap.World(base, cli)
            top = w.repo
            db = os.path.join(top, cc.path(dbp))
            os.makedirs(os.path.dirname(db), exist_ok=True)
            if w.run("-d", db, "init").failed:
                bad.append(("init -d failed", {"case": r}))
                break
            with open(os.path.join(db, "inner"), "wb") as f:
                f.write(b"inside the database directory")
            os.mkdir(os.path.join(db, "innerdir"))
            for p in rng.sample(sorted(rows), len(rows)):
                k, c = rows[p]
                q = os.path.join(top, cc.path(p))
                if k == "D":
                    os.makedirs(q, exist_ok=True)
                    continue
                os.makedirs(os.path.dirname(q), exist_ok=True)
                if k == "F":
                    with open(q, "wb") as f:
                        f.write(cc.c[c])
                elif k == "U":
                    odd(q, rng)
                elif k == "L":
                    tgt = db if c == "db" else rng.choice([os.path.join(db, "inner"), os.path.join(db, "innerdir"), os.path.join(db, "snapcd.db")])
                    if rng.random() < .5:
                        tgt = os.path.relpath(tgt, os.path.dirname(q))
                    os.symlink(tgt, q)
            want = cc.tree(r["snap"])
            byname = pairs.globs(cc, r["x"], rng)
            dbrel = os.path.relpath(db, top)
            repotop = os.path.dirname(db)        # what the program takes for the working tree
            sub = os.path.relpath(repotop, top)
            wantsub = want if sub == "." else {p[len(sub) + 1:]: v for p, v in want.items() if p.startswith(sub + "/")}
            subexcluded = sub != "." and sub not in want
            how = rng.choice(["insert", "insertrel", "insertrel", "insertlink", "insertslash", "commit", "commitp", "insertsub"])
            if how == "commit" and subexcluded and any(k == "U" for k, _ in rows.values()):
                how = "insert"          # what the root of a snapshot lies in does not exclude it
            if how == "insertslash" and r["y"]:
                how = "insertrel"
            link = os.path.join(base, "link")
            os.symlink(top, link)
            dbarg = rng.choice([db, os.path.join(link, dbrel), dbrel])
            root = {"insert": top, "insertrel": rng.choice([".", ".", "./", "./."]), "insertlink": link, "insertslash": top + "//", "commitp": rng.choice([top, ".", link])}.get(how)
            D = ["--db=" + dbarg]

            def exfor(shown, below=""):
                """the exclusions, for a root which is shown as that: single paths are given as they are shown"""
                shown = "" if shown in (".", "./", "./.") else shown.rstrip("/")
                out = list(byname)
                for p in sorted(r["y"]):
                    p = cc.path(p)
                    if below:
                        if not p.startswith(below + "/"):
                            continue
                        p = p[len(below) + 1:]
                    out.append(repo.glob_escape(os.path.join(shown, p)))
                rng.shuffle(out)
                return out
            # where the program finds the top of the repository
            shownrepo = os.path.dirname(dbarg if dbarg.startswith("/") else os.path.join(top, dbarg))
            ex = exfor(shownrepo, "" if sub == "." else sub) if how == "commit" else exfor(root or top)
            key = None
            if how == "insertsub":
                dirs = [p for p, v in want.items() if v == "D"]
                if not dirs:
                    how, root = "insert", top
                    ex = exfor(top)
                else:
                    s = rng.choice(dirs)
                    ex = exfor(os.path.join(top, s), s)
                    f = w.run(*D, "insert", os.path.join(top, s), excl=ex)
                    expect = {p[len(s) + 1:]: v for p, v in want.items() if p.startswith(s + "/")}
            if how.startswith("insert") and how != "insertsub":
                f = w.run(*D, "insert", root, excl=ex)
                expect = want
            if how == "commitp":
                f = w.run(*D, "commit", "-p", root, "-m", "m", excl=ex)
                expect = want
            if how == "commit":
                f = w.run(*D, "commit", "-m", "m", excl=ex)
                expect = None if subexcluded else wantsub
            n += 1
            desc = "%s -d %s -e %s" % (how, dbarg, ex)
            if f.failed:
                bad.append(("%s failed: %r" % (desc, f), {"case": r, "names": cc.n}))
                break
            d = snap.Dump(os.path.join(db, "snapcd.db"))
            try:
                if how.startswith("commit"):
                    k = d.commit(d.reflog[-1][2])["tree"]
                else:
                    import re
                    k = snap.key_to_db(re.search(rb"inserted hash (\S+)", f.out).group(1).decode())
                got = d.tree(k)
            except Exception as e:
                bad.append(("%s stored nothing usable: %r" % (desc, e), {"case": r}))
                break
            if expect is not None and got != expect:
                bad.append(("%s stored %s, expected %s" % (desc, pairs.summ(got), pairs.summ(expect)), {"case": r, "names": cc.n}))
            if how in ("commit", "commitp"):
                # the same rule: the same exclusions report nothing
                if how == "commit":
                    st = w.run(*D, "status", excl=ex)
                else:
                    cp = rng.choice([top, ".", link])
                    st = w.run(*D, "compare", "-p", cp, excl=exfor(cp))
                res = snap.parse_diff(st.text)
                if st.failed or any(res[x] for x in ("added", "deleted", "modified")):
                    bad.append(("%s, then status with the same exclusions: %r" % (desc, st), {"case": r, "names": cc.n}))
                else:
                    st = w.run(*D, *(["status"] if how == "commit" else ["compare", "-p", top]))
                    res = snap.parse_diff(st.text)
                    rep = res["added"] + res["deleted"] + res["modified"]
                    if any(os.path.realpath(os.path.join(repotop if how == "commit" else top, p)).startswith(os.path.realpath(db) + "/") or os.path.realpath(os.path.join(repotop if how == "commit" else top, p)) == os.path.realpath(db) for p in rep):
                        bad.append(("%s: status reports the database directory: %s" % (desc, rep), {"case": r, "names": cc.n}))
            if len(bad) > 2:
                break
            shutil.rmtree(base)
    return n, bad


def run(c):
    cli = vlib.build_cli()
    q = c.quick
    for i, (names, xs, depth, sample, pool) in enumerate([("N2", "X2", 2, 900 if q else 0, 0), ("N3", "X3", 2, 500 if q else 6000, 10 if q else 30)]):
        r = vlib.tlc("MCSnapRule", constants=dict(Names=names, XSets=xs, PSets="P" + names[1:], Depth=depth, Sample=sample, Pool=pool), workers=1, seed=c.seed * 13 + i)
        c.model(r)
        recs = r.emitted
        random.Random(c.seed).shuffle(recs)
        for n, bad in vlib.pmap(job, [(cli, p, c.seed * 1000 + 100 * i + k, names) for k, p in enumerate(vlib.split(recs, 16))]):
            c.traces(n)
            for b in bad:
                c.violate(*b)
        c.sample(recs[0])
    engine.sim_check(c, cli, dict(Acts="AInspect", Names="N3", Contents="C2", Refs="R2", MaxDepth=3, XSets="X1", WTs="WNone", MaxCommits=6, MaxLog=6, MaxRoots=6),
                     40 if q else 600, 30, {"tree", "diff"}, only=lambda a: a["a"] in ("insert", "commit", "status", "compare"), budget=15 if q else 200)
    c.assumptions = ["exclusions name entries (**/NAME and equivalent globs) or single paths"]


vlib.main("C19", run)
