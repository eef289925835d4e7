"""C03: fetch onto every small existing destination (TreePairs.tla), and objects with hostile names (PathJoin.tla)."""
import os, random, shutil, sqlite3, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import b3, pairs, snap, vlib
from vlib import Scratch, ToolError


def build_dest(d, t, outside, rng):
    """existing destination; some of its files are symlinks to (or hard links of) files elsewhere"""
    os.makedirs(d)
    links = {}
    for p in sorted(t):
        q = os.path.join(d, p)
        if t[p] == "D":
            os.makedirs(q, exist_ok=True)
            continue
        os.makedirs(os.path.dirname(q), exist_ok=True)
        how = rng.random()
        if how < .15:
            o = os.path.join(outside, "o%d" % len(os.listdir(outside)))
            with open(o, "wb") as f:
                f.write(t[p])
            os.symlink(o, q)
        elif how < .25:
            os.symlink(os.path.join(outside, "dangling%d" % len(os.listdir(outside))), q)
        elif how < .4:
            o = os.path.join(outside, "o%d" % len(os.listdir(outside)))
            with open(o, "wb") as f:
                f.write(t[p])
            os.link(o, q)
        else:
            with open(q, "wb") as f:
                f.write(t[p])


def job(j):
    cli, recs, seed, names = j
    rng = random.Random(seed)
    bad, n = [], 0
    cc = pairs.conc(rng, names)
    with Scratch() as sc:
        w = snap.World(sc, cli)
        w.run("init")
        src, outside, area = (os.path.join(sc, x) for x in ("src", "outside", "area"))
        keys = {}
        for r in recs:
            shutil.rmtree(outside, ignore_errors=True)
            shutil.rmtree(area, ignore_errors=True)
            os.makedirs(outside)
            os.makedirs(os.path.join(area, "sibling"))
            with open(os.path.join(area, "sibling", "f"), "wb") as f:
                f.write(b"sibling")
            ka = pairs.key(r["a"])
            if ka not in keys:
                snap.write_tree(src, cc.tree(r["a"]), rng)
                keys[ka] = w.insert(src).key
                if keys[ka] is None:
                    return n, [("insert failed", {})]
            d = os.path.join(area, "dest")
            build_dest(d, cc.tree(r["b"]), outside, rng)
            before, obefore = snap.read_tree(area), snap.read_tree(outside)
            dest, cwd = w.near(d, rng) if rng.random() < .3 else (d, None)
            f = w.run("fetch", keys[ka][:25], dest, cwd=cwd)
            after, oafter = snap.read_tree(area), snap.read_tree(outside)
            n += 1
            what = None
            lost = [p for p in before if after.get(p) != before[p]]
            new = {p: v for p, v in after.items() if p not in before}
            a = cc.tree(r["a"])
            rogue = [p for p in new if not p.startswith("dest/") or a.get(p[5:]) is None]
            if oafter != obefore:
                what = "something outside the destination changed: %s -> %s" % (pairs.summ(obefore), pairs.summ(oafter))
            elif lost:
                what = "existing files changed: %s" % {p: (before[p], after.get(p)) for p in lost[:3]}
            elif rogue:
                what = "created %s, which the tree does not hold" % rogue[:3]
            elif r["ok"] and (f.failed or any(after.get("dest/" + p) != v for p, v in a.items() if not (before.get("dest/" + p) == "D"))):
                what = "nothing stood in the way but fetch gave %s (%r)" % (pairs.summ(after), f)
            elif not r["ok"] and not f.failed:
                what = "fetch over %s reported success" % r["clash"]
            if what:
                bad.append((what, {"pair": r, "names": cc.n}))
                if len(bad) > 2:
                    break
        # a single file onto whatever is there
        for _ in range(8):
            p = os.path.join(sc, "one")
            with open(p, "wb") as f:
                f.write(rng.choice([b"", b"stored", b"x" * 70000]))
            k = w.insert(p).key
            d = os.path.join(area, "target%d" % rng.randrange(10**9))
            kind = rng.choice(["file", "dir", "symlink", "same", "dangling"])
            tgt = os.path.join(outside, "t%d" % rng.randrange(10**9))
            if kind == "file":
                open(d, "wb").write(b"precious longer content")
            elif kind == "same":
                shutil.copy(p, d)
            elif kind == "dir":
                os.mkdir(d)
                open(os.path.join(d, "f"), "wb").write(b"precious")
            else:
                if kind == "symlink":
                    open(tgt, "wb").write(b"precious")
                os.symlink(tgt, d)
            b0 = (snap.read_tree(area), snap.read_tree(outside))
            f = w.run("fetch", k[:25], d)
            n += 1
            if (snap.read_tree(area), snap.read_tree(outside)) != b0 or not f.failed:
                bad.append(("fetching a file onto an existing %s: %r" % (kind, f), {}))
    return n, bad


def name_of(m, sc, plain):
    cs = [plain if x == "n" else x for x in m["c"]]
    s = "/".join(cs)
    if m["abs"]:
        s = sc + "/a1/a2/a3/a4/a5/a6/a7" + ("/" + s if s else "")
    return s


def put(objs, data, keys, typ):
    raw = snap.enc_obj(data, keys, typ)
    k = b"\x01" + b3.blake3(raw)
    objs[k] = raw
    return k


def put_dir(objs, entries):
    meta = b3.cbor_encode({"size": len(entries), "itemtype": "Dir", "children_names": [n for n, _ in entries]})
    return put(objs, meta, [k for _, k in entries], "FSItemDir")


def hostile(j):
    cli, recs, seed = j
    rng = random.Random(seed)
    bad, n, control = [], 0, 0
    with Scratch() as sc:
        w = snap.World(sc, cli)
        w.run("init")
        dest = os.path.join(sc, "d1/d2/d3/d4/d5/d6/d7/dest")
        objs, roots = {}, []
        for i, r in enumerate(recs):
            blob = put(objs, b"hostile%d" % i, [], "FileBlob")
            file = put(objs, b3.cbor_encode({"size": 9, "itemtype": "File", "children_names": []}), [blob], "FSItemFile")
            a, b = name_of(r["n1"], sc, "n"), name_of(r["n2"], sc, "n")
            style = rng.randrange(4)
            if r["plain"]:
                pass
            elif style == 0:      # trailing slash, doubled slash: other spellings of the same components
                a += "/"
            elif style == 1 and b:
                b = b.replace("/", "//", 1)
            kind = rng.random()
            ent = [(b, file)]
            if kind < .3:
                ent = [("good", file)] + ent
            inner = put_dir(objs, ent)
            if kind > .8:
                roots.append((put_dir(objs, [(a, file)]), r))     # the hostile name directly
            roots.append((put_dir(objs, [("aa", file), (a, inner)] if kind < .5 else [(a, inner)]), r))
        c = sqlite3.connect(w.dbfile)
        c.executemany("insert or ignore into data (key, value) values (?, ?)", list(objs.items()))
        c.commit()
        c.close()

        def fresh():
            for x in ("a1", "d1"):
                shutil.rmtree(os.path.join(sc, x), ignore_errors=True)
            os.makedirs(os.path.join(sc, "a1/a2/a3/a4/a5/a6/a7"))
            os.makedirs(os.path.dirname(dest))
            p = sc
            for x in ["d1", "d2", "d3", "d4", "d5", "d6", "d7"]:
                p = os.path.join(p, x)
                with open(os.path.join(p, "keep"), "wb") as f:
                    f.write(b"keep")

        def state():
            return {p: v for p, v in snap.read_tree(sc).items() if not p.startswith(("repo/.snapcd", "cache", "d1/d2/d3/d4/d5/d6/d7/dest"))}
        fresh()
        base = state()
        for k, r in roots:
            arg, cwd = w.near(dest, rng) if rng.random() < .3 else (dest, None)
            f = w.run("fetch", snap.b3.user_key(k)[:25], arg, cwd=cwd)
            n += 1
            if r["plain"]:
                control += 0 if f.failed else 1
            now = state()
            if now != base or any(os.path.islink(os.path.join(d, x)) for d, ds, fs in os.walk(dest) for x in fs + ds):
                bad.append(("extracting entries named %r / %r changed %s outside the destination" % (name_of(r["n1"], "", "n"), name_of(r["n2"], "", "n"),
                            sorted(set(now.items()) ^ set(base.items()), key=str)[:3]), {"names": r}))
                fresh()
                if len(bad) > 2:
                    break
            elif os.path.exists(dest):
                shutil.rmtree(dest) if os.path.isdir(dest) else os.unlink(dest)
    return n, bad, control


def run(c):
    cli = vlib.build_cli()
    q = c.quick
    pairs.discover(c, cli)
    for i, (names, cont, sa, sb) in enumerate([("N2", "C2", 50 if q else 361, 60 if q else 361), ("N3", "C1", 30 if q else 200, 40 if q else 200)]):
        recs = pairs.pairs(c, "fetch", names=names, contents=cont, sa=0 if sa == 361 else sa, sb=0 if sb == 361 else sb, seed=i)
        random.Random(c.seed).shuffle(recs)
        for n, bad in vlib.pmap(job, [(cli, p, c.seed * 1000 + i * 100 + k, names) for k, p in enumerate(vlib.split(recs, 16 if q else 64))]):
            c.traces(n)
            for b in bad:
                c.violate(*b)
        c.sample({"pair": recs[0]})
    r = vlib.tlc("MCPathJoin", constants=dict(MaxComps=2 if q else 3), workers=1)
    c.model(r)
    recs = r.emitted
    random.Random(c.seed).shuffle(recs)
    ctl = 0
    for n, bad, k in vlib.pmap(hostile, [(cli, p, c.seed * 1000 + k) for k, p in enumerate(vlib.split(recs, 16 if q else 64))]):
        c.traces(n)
        ctl += k
        for b in bad:
            c.violate(*b)
    if not ctl and not c.violations:
        raise ToolError("crafted directory objects with ordinary names are not accepted: the object format has changed")
    c.count("hostile_name_pairs", len(recs))
    c.assumptions = ["symbolic links to directories that the user placed inside the destination are part of the destination"]


vlib.main("C03", run)
