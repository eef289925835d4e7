"""C27: versions of a file, made from the pairs Shared.tla describes and at random, stored one after the other; the content each one
adds is judged by SharedJudge.tla."""
import hashlib, os, json, random, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import gear, snap, vlib
from harness import Harness

UNIT, BLOCK = 16384, 65536


def unit(m, fill, rng):
    u = bytearray([fill]) * UNIT
    while True:
        t = rng.randbytes(10)
        if max(gear.steps(bytes([fill]) * 64 + t + bytes([fill]) * 64)) < 13:
            break
    u[200:210] = t
    if m:
        w = bytes.fromhex(rng.choice(gear.W[fill][m]))
        u[UNIT - len(w):] = w
    return bytes(u)


def blocks(b):
    return [hashlib.sha256(b[i:i + BLOCK]).hexdigest()[:20] for i in range(0, len(b), BLOCK)]


def pair(g, rng):
    """bytes of two versions in units"""
    fill = rng.choice([0, 0x61])
    us = [unit(m, fill, rng) for m in g["d"]]
    n = rng.choice([1, 2, 64, 300, UNIT // 2, UNIT - 1])
    a, b = b"".join(us), None
    df = set(g["x"])
    ws = [us[i] if i < len(us) and i + 1 not in df and g["d"][i] == m else unit(m, fill, rng) for i, m in enumerate(g["e"])]
    b = b"".join(ws)
    if g["s"]:
        a = a[:len(a) - UNIT + n]
    if g["u"]:
        b = b[:len(b) - UNIT + n]
    return [a, b]


def edits(rng, n):
    """versions of a large file: changed in place, appended to, cut"""
    kind = rng.choice(["random", "random", "zeros", "text", "period"])
    size = rng.choice([0, 1, 65535, 65536, 65537, 98304, 131072, rng.randrange(1, 3000000), rng.randrange(1, 400000)])
    if kind == "random":
        v = rng.randbytes(size)
    elif kind == "zeros":
        v = bytes(size)
    elif kind == "text":
        v = b"".join(b"line %d of it\n" % i for i in range(size // 12 + 1))[:size]
    else:
        p = rng.randbytes(rng.choice([1, 100, 8192, 40000, 65536]))
        v = (p * (size // len(p) + 1))[:size]
    out = [v]
    for _ in range(n):
        b = bytearray(v)
        for _ in range(rng.choice([1, 1, 1, 2, 5])):
            k = rng.randrange(5)
            if k == 0:
                b += rng.randbytes(rng.choice([1, 100, 10000, 65536, 200000]))
            elif k == 1 and b:
                del b[len(b) - rng.randrange(1, min(len(b), 150000) + 1):]
            elif b:
                at = rng.choice([rng.randrange(len(b)), len(b) - 1, 0, min(len(b) - 1, 65535), min(len(b) - 1, 32768)])
                x = rng.randbytes(rng.choice([1, 1, 2, 64, 5000]))
                b[at:at + len(x)] = x[:len(b) - at]
        v = bytes(b)
        out.append(v)
    return out


def content(db):
    return sum(len(o.data) for o in (snap.Obj(v) for v in db.objs.values()) if o.type == "FileBlob")


def job(j):
    cli, seed, groups = j
    rng = random.Random(seed)
    recs, meta = [], []
    for g in groups:
        vs = pair(g, rng) if g else edits(rng, rng.choice([1, 2, 4]))
        if rng.random() < .3:
            vs = vs[::-1]
        how = rng.choice(["insert", "insert", "commit", "insert dir"])
        with vlib.Scratch() as sc:
            w = snap.World(sc, cli)
            w.run("init")
            d = os.path.join(w.repo, "d")
            os.mkdir(d)
            f = os.path.join(d, "f")
            added, at, bad = [], None, None
            for i, b in enumerate(vs):
                snap.write_file(f, b, rng)
                r = w.run("insert", f) if how == "insert" else w.run("insert", d) if how == "insert dir" else w.run("commit", "-m", "v%d" % i)
                if r.failed:
                    bad = "%s failed: %r" % (how, r)
                    break
                n = content(w.dump())
                if at is not None:
                    added.append(n - at)
                at = n
            if bad:
                continue        # C02 and C06 say so
        recs.append({"versions": [blocks(b) for b in vs], "added": added})
        meta.append({"given": g, "sizes": [len(b) for b in vs], "how": how, "seed": seed})
    return recs, meta


def lib_job(j):
    binp, seed, groups = j
    rng = random.Random(seed)
    recs, meta = [], []
    with vlib.Scratch() as sc:
        for n, g in enumerate(groups):
            vs = pair(g, rng) if g else edits(rng, rng.choice([1, 3, 6]))
            db, f = os.path.join(sc, "db%d" % n), os.path.join(sc, "f")
            h = Harness(binp)
            h.ask("x", "open", db)
            added, at, bad = [], None, False
            for b in vs:
                with open(f, "wb") as fh:
                    fh.write(b)
                h.ask("x", "begin")
                ok, a = h.ask("x", "putdata", raw=[f.encode().hex(), rng.choice(["1000000", "65535,1", "3,0,0,70000", "40000"])])
                ok2, _ = h.ask("x", "commit")
                if not (ok and ok2):
                    bad = True
                    break
                m = content(snap.Dump(db))
                if at is not None:
                    added.append(m - at)
                at = m
            h.kill()
            if not bad:
                recs.append({"versions": [blocks(b) for b in vs], "added": added})
                meta.append({"given": g, "sizes": [len(b) for b in vs], "how": "library", "seed": seed})
    return recs, meta


def given(rng):
    d = [rng.choice([0, 0, 1, 1, 5, 3]) for _ in range(rng.randrange(1, 22))]
    keep = rng.choice([len(d), len(d), rng.randrange(len(d) + 1)])
    e = d[:keep] + [rng.choice([0, 1, 5]) for _ in range(rng.choice([0, 0, 1, 3, 6]))]
    x = set(range(keep + 1, len(e) + 1))
    for _ in range(rng.choice([0, 1, 1, 2])):
        if e:
            i = rng.randrange(len(e))
            for k in range(i, min(len(e), i + rng.choice([1, 1, 2, 5]))):
                x.add(k + 1)
                if rng.random() < .5:
                    e[k] = rng.choice([0, 1, 5])
    return {"d": d, "s": d[-1] == 0 and rng.random() < .5, "e": e, "u": bool(e) and e[-1] == 0 and rng.random() < .5, "x": sorted(x)}


def check(c):
    q = c.quick
    rng = random.Random(c.seed)
    gs = [given(rng) for _ in range(250 if q else 3000)]
    with ThreadPoolExecutor(4) as ex:
        fb = ex.submit(vlib.build_cli)
        fm = ex.submit(vlib.tlc, "Shared", constants={"MaxUnits": 5 if q else 8}, workers=4, timeout=3000)
        fg = ex.submit(vlib.tlc, "Shared", cfg="SharedGiven", constants={"Emit": "TRUE"}, workers=1, extra_files={"versions.json": json.dumps(gs)})
        cli = fb.result()
        c.model(fm.result())
        c.model(fg.result())
    byi = {x["i"][0]: x for x in fg.result().emitted}
    if len(byi) != len({json.dumps(g) for g in gs}):
        c.count("versions_given_twice", len(gs) - len(byi))
    binp = vlib.try_harness(c)
    gs = [dict(x, x=sorted(x["x"])) for x in byi.values()]
    work = gs + [None] * (120 if q else 1500)
    rng.shuffle(work)
    jobs = [(job, (cli, c.seed * 51 + i, p)) for i, p in enumerate(vlib.split(work, 32))]
    if binp:
        jobs += [(lib_job, (binp, c.seed * 53 + i, p)) for i, p in enumerate(vlib.split(work[:len(work) // 2], 16))]
    recs, meta = [], []
    for r, m in vlib.pmap(run1, jobs):
        recs += r
        meta += m
    r = vlib.tlc("SharedJudge", extra_files={"records.json": json.dumps(recs)}, workers=1)
    c.model(r)
    c.traces(len(recs))
    drift = sum(1 for q_, m in zip(recs, meta) if m["given"] and m["how"] == "library" and q_["added"] and 2 * q_["added"][0] > m["given"]["n"] * UNIT)
    c.count("more_than_the_model_expects", drift)
    for x in r.emitted:
        q_, m = recs[x["n"] - 1], meta[x["n"] - 1]
        i = x["at"]
        c.violate("version %d of a file (%d bytes, one before %d) added %d bytes of content" % (i + 1, m["sizes"][i], m["sizes"][i - 1], q_["added"][i - 1]), {"record": q_, "how": m})
    c.sample({"versions": gs[3]})


def run1(j):
    return j[0](j[1])


vlib.main("C27", check)
