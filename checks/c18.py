"""C18: what checkout must not touch: pairs of trees with exclusions and bystanders (TreePairs.tla), places it is not
permitted in however they are spelled (Guard.tla), commits naming the database directory, symbolic links."""
import os, random, shutil, sqlite3, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import b3, cocheck, links, pairs, snap, vlib
from vlib import Scratch


def everything(dirs):
    out = {}
    for d in dirs:
        for p, v in snap.read_tree(d).items():
            if not p.endswith(".snapcd/snapcd.db") and "/cache/" not in "/" + p and not p.startswith("cache"):
                out[d + "/" + p] = v
    return out


def guard(j):
    cli, recs, seed, base, sib, q = j
    vlib.drop_privileges()
    rng = random.Random(seed)
    bad, n = [], 0
    with Scratch(base=base) as pw, Scratch(base=sib) as ps, Scratch(base=q) as pq, Scratch() as po:
        node = {"W": os.path.join(pw, "w"), "V": os.path.join(pw, "v"), "O": os.path.join(po, "o"), "S": os.path.join(ps, "s"), "Q": os.path.join(pq, "q")}
        worlds = {}
        old = {"keep": b"committed", "sub": "D", "sub/f": b"one", "typ": "D", "typ/in": b"x"}
        new = {"keep": b"edited since", "sub": "D", "sub/g": b"unsaved work", "extra": b"only here", "typ": b"now a file"}
        for k, d in node.items():
            w = worlds[k] = snap.World(po, cli, repo=d)
            if w.run("init").failed:
                return 0, [("init failed", {})]
            snap.write_tree(d, old, rng)
            if w.run("commit", "-m", "m").failed:
                return 0, [("commit failed", {})]
            with open(os.path.join(d, ".snapcd", "other"), "wb") as f:
                f.write(b"other")

        def rel(a, b):
            return os.path.relpath(node[b], node[a])
        # links are kept next to the repositories, so that the working trees hold only ordinary files
        os.symlink(node["O"], os.path.join(pw, "link"))
        os.symlink(node["S"], os.path.join(pw, "linkS"))
        os.symlink(node["W"], os.path.join(po, "back"))
        os.symlink(node["O"], os.path.join(ps, "link"))
        dirs = list(node.values())

        def spell(r):
            p, at = [], r["start"]
            edge = {"link": "../link", "linkS": "../linkS", "back": "../back", "dot": ".", "down": rel("Q", "W")}
            for s in r["steps"]:
                if s.startswith("dotdot"):
                    p.append(rel(at, s[-1]))
                    at = s[-1]
                else:
                    p.append(edge[s])
                    at = {"link": "O", "linkS": "S", "back": "W", "dot": at, "down": "W"}[s]
            return os.path.join(*p) if p else "."
        for r in recs:
            for d in dirs:
                snap.write_tree(d, new, rng)
            st = everything(dirs)
            dumps = {k: w.dump() for k, w in worlds.items()}
            s = spell(r)
            start = node[r["start"]]
            how = rng.choice(["rel", "abs", "cwd"])
            w = worlds[r["at"]]
            if how == "rel":
                f = w.run("-d", os.path.join(s, ".snapcd"), "checkout", cwd=start)
            elif how == "abs":
                f = w.run("-d", os.path.join(start, s, ".snapcd"), "checkout", cwd=po)
            else:
                f = w.run("checkout", cwd=os.path.join(start, s))
            n += 1
            now = everything(dirs)
            changed = {p for p in set(st) | set(now) if st.get(p) != now.get(p)}
            desc = "checkout (%s) from %s spelled %s, which is %s" % (how, r["start"], s, r["at"])
            if not r["may"] and changed:
                bad.append((desc + ": changed %s" % sorted(changed)[:4], {"case": r}))
            elif not r["may"] and not f.failed:
                bad.append((desc + ": reported success", {"case": r}))
            elif r["may"] and any(not p.startswith(node[r["at"]] + "/") or p.startswith(node[r["at"]] + "/.snapcd") for p in changed):
                bad.append((desc + ": changed %s" % sorted(changed)[:4], {"case": r}))
            elif any(w.dump() != dumps[k] for k, w in worlds.items()):
                bad.append((desc + ": changed a repository", {"case": r}))
            if len(bad) > 2:
                break
    return n, bad


def special(j):
    """commits that name the database directory, working trees with symbolic links, crafted names"""
    cli, k, seed, base = j
    vlib.drop_privileges()
    rng = random.Random(seed)
    bad, n = [], 0
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    with Scratch(base=base) as sc:
        w = snap.World(sc, cli)
        dbname = rng.choice([".snapcd", "sub/my db", "deep/er/db"])
        dbarg = [] if dbname == ".snapcd" else ["-d", os.path.join(w.repo, dbname)]
        run = lambda *a, **kw: w.run(*(dbarg + list(a)), **kw)
        if run("init").failed:
            return 0, [("init failed", {})]
        dbdir = os.path.join(w.repo, dbname)
        # the working tree checkout acts on is the directory holding the database directory
        top = os.path.dirname(dbdir)
        db = os.path.basename(dbdir)
        src = os.path.join(sc, "src")
        side = os.path.join(sc, "side")
        os.makedirs(os.path.join(side, "sub"))
        for p in ("f", "sub/g"):
            with open(os.path.join(side, p), "wb") as f:
                f.write(b"bystander")
        kind = ["dbdir", "dbfile", "symlink", "crafted", "clean", "odd"][k % 6]
        tree = {"a": b"1", "d": "D", "d/e": b"2"}
        if kind == "dbdir":
            tree.update({db: "D", db + "/snapcd.db": b"not a database", db + "/x": b"y"})
        if kind == "dbfile":
            tree.update({db: b"a file named like it"})
        if kind == "crafted":
            objs = {}
            blob = b"\x01" + b""
            def put(data, keys, typ):
                raw = snap.enc_obj(data, keys, typ)
                key = b"\x01" + b3.blake3(raw)
                objs[key] = raw
                return key
            blob = put(b"hostile", [], "FileBlob")
            file = put(b3.cbor_encode({"size": 7, "itemtype": "File", "children_names": []}), [blob], "FSItemFile")
            nm = rng.choice(["../side/f", "../../side/f", "../side/new", side + "/f", side + "/new", "d/../../side/f", "..", ".", "", "/",
                             "d/e", db + "/snapcd.db", db + "/new", "./" + db])
            inner = lambda ents: put(b3.cbor_encode({"size": len(ents), "itemtype": "Dir", "children_names": [x for x, _ in ents]}), [y for _, y in ents], "FSItemDir")
            root = inner([("a", file), (nm, file)]) if rng.random() < .5 else inner([("d", inner([(nm, file), (nm.replace("../", "../../"), file)])), ("z", file)])
            c = sqlite3.connect(os.path.join(dbdir, "snapcd.db"))
            c.executemany("insert or ignore into data (key, value) values (?, ?)", list(objs.items()))
            c.commit()
            c.close()
            f = run("debug", "commit-tree", snap.b3.user_key(root)[:25])
            key = f.text.strip().split("\n")[-1]
            if f.failed or run("ref", "update", key[:25]).failed:
                return 0, []
        else:
            snap.write_tree(src, tree, rng)
            if run("commit", "-p", src, "-m", "m").failed:
                return 0, [("commit failed", {})]
        wt = {"a": b"other", "z": "D", "z/q": b"w"}
        for p, v in wt.items():
            q = os.path.join(top, p)
            if v == "D":
                os.makedirs(q)
            else:
                open(q, "wb").write(v)
        if kind == "symlink":
            what = rng.randrange(5)
            d = os.path.join(top, "d")
            if what == 0:
                os.symlink(os.path.join(side, "sub"), d)
            elif what == 1:
                os.symlink(side, os.path.join(top, "z", "l"))
            elif what == 2:
                os.unlink(os.path.join(top, "a"))
                os.symlink(os.path.join(side, "f"), os.path.join(top, "a"))
            elif what == 3:
                os.mkdir(d)
                os.symlink(os.path.join(side, "f"), os.path.join(d, "e"))
            else:
                os.symlink(side, os.path.join(top, "extra"))
        with open(os.path.join(dbdir, "other"), "wb") as f:
            f.write(b"other")
        ex = [] if rng.random() < .6 else ["**/q"]
        odds = []
        if kind == "odd":           # excluded entries that are neither files nor directories stay, wherever they are
            ex = ["**/odd*", "odd*"] + ex
            for m, dd in enumerate(rng.sample(["", "z", "d", "other"], rng.randrange(1, 4))):
                os.makedirs(os.path.join(top, dd), exist_ok=True)
                q = os.path.join(top, dd, "odd%d" % m)
                how = rng.randrange(5)
                if how == 0:
                    os.mkfifo(q)
                else:
                    os.symlink([side, os.path.join(side, "f"), "nowhere", "."][how - 1], q)
                odds.append((q, os.lstat(q).st_ino))
        dump = snap.Dump(os.path.join(dbdir, "snapcd.db"))
        s0 = (snap.read_tree(side), {p: v for p, v in snap.read_tree(dbdir).items() if p != "snapcd.db"}, {p: v for p, v in snap.read_tree(sc).items() if not p.startswith(("repo", "cache", "src"))})
        for _ in range(2):
            f = run("checkout", excl=ex, cwd=top)
        n += 1
        s1 = (snap.read_tree(side), {p: v for p, v in snap.read_tree(dbdir).items() if p != "snapcd.db"}, {p: v for p, v in snap.read_tree(sc).items() if not p.startswith(("repo", "cache", "src"))})
        desc = "checkout, %s, database %s" % (kind, dbname)
        if s1 != s0:
            for a, b, what in zip(s0, s1, ("bystanders", "the database directory", "files outside")):
                if a != b:
                    bad.append(("%s: changed %s: %s" % (desc, what, sorted(p for p in set(a) | set(b) if a.get(p) != b.get(p))), {"seed": seed}))
        elif snap.Dump(os.path.join(dbdir, "snapcd.db")) != dump:
            bad.append((desc + ": changed the repository", {"seed": seed}))
        elif any(not os.path.lexists(q) or os.lstat(q).st_ino != i for q, i in odds):
            bad.append((desc + ": removed or replaced an excluded entry", {"seed": seed}))
        elif odds and f.failed:
            bad.append((desc + ": failed because of what is excluded: %r" % f, {"seed": seed}))
        elif "**/q" in ex and not os.path.exists(os.path.join(top, "z/q")):
            bad.append((desc + ": removed an excluded file", {"seed": seed}))
        elif kind in ("dbdir", "clean") and not ex:
            got = {p: v for p, v in snap.read_tree(top, skip=(db,)).items()}
            if f.failed or got != {"a": b"1", "d": "D", "d/e": b"2"}:
                bad.append((desc + ": gave %s %r" % (pairs.summ(got), f), {"seed": seed}))
    return n, bad


def run(c):
    q = c.quick
    with vlib.Permitted() as P:
        cli = P.cli(vlib.build_cli())
        cocheck.run(c, cli, [("N2", "C2", "X2", 40 if q else 0, 30 if q else 100), ("N3", "C2", "X3", 40 if q else 300, 40 if q else 150)], {"touched"}, P)
        links.run(c, cli, {"touched"}, P, 300 if q else 9000)
        snapcd = os.path.dirname(vlib.PERMITTED)
        sib = tempfile.mkdtemp(prefix="repo2-", dir=snapcd)
        par = tempfile.mkdtemp(prefix="rep", dir=snapcd)
        try:
            for d in (sib, par):
                os.chmod(d, 0o755)
                os.chown(d, vlib.UNPRIV, vlib.UNPRIV)
            r = vlib.tlc("Guard", constants=dict(MaxSteps=3 if q else 5), workers=1)
            c.model(r)
            recs = [x for x in r.emitted]
            rng = random.Random(c.seed)
            rng.shuffle(recs)
            recs = recs[:480 if q else 4000]
            for n, bad in vlib.pmap(guard, [(cli, p, c.seed * 1000 + k, P.path, sib, par) for k, p in enumerate(vlib.split(recs, 16))]):
                c.traces(n)
                for b in bad:
                    c.violate(*b)
            c.count("spelled_locations", len(recs))
            for n, bad in vlib.pmap(special, [(cli, k, c.seed * 5000 + k, P.path) for k in range(160 if q else 2000)]):
                c.traces(n)
                for b in bad:
                    c.violate(*b)
        finally:
            shutil.rmtree(sib, ignore_errors=True)
            shutil.rmtree(par, ignore_errors=True)
    c.assumptions = ["everything runs as an account that owns only the scratch directories"]


vlib.main("C18", run)
