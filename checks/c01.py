"""C01: data with every pattern of chunk boundaries, levels and full lists that Chunker.tla describes, delivered in
pieces, stored and read back by the library and by the program."""
import hashlib, json, os, random, sqlite3, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import b3, gear, snap, vlib
from harness import Harness

UNIT = 16384


def make(marks, short, rng, plain=False):
    """the bytes of a sequence of units"""
    fill = rng.choice([0, 0x61])
    out = bytearray()
    for i, m in enumerate(marks):
        u = bytearray([fill]) * UNIT
        if not plain:
            while True:         # a tag that makes no boundary, so that every unit is different
                t = rng.randbytes(10)
                if max(gear.steps(bytes([fill]) * 64 + t + bytes([fill]) * 64)) < 13:
                    break
            u[200:210] = t
        if m:
            w = bytes.fromhex(rng.choice(gear.W[fill][m]))
            u[UNIT - len(w):] = w
        out += u
    if short:
        n = rng.choice([1, 2, 64, 300, UNIT // 2, UNIT - 1])
        out = out[:len(out) - UNIT + n]
    return bytes(out)


PATS = ["1000000", "65536", "65535", "65537", "32768", "4096", "0,1000000", "1,1000000", "32767,1", "8191,0", "16384,0,49152",
        "65535,1", "3,0,0,70000", "40000"]


def pieces(case, rng):
    if case.get("p"):
        return ",".join(str(x * UNIT) for x in case["p"]) + ",1000000"
    return rng.choice(PATS + [",".join(str(rng.choice([0, 1, 100, 5000, 16384, 32768, 65535, 65536, 70000])) for _ in range(6)) + ",1000"])


def dig(b):
    return hashlib.sha256(b).hexdigest()[:24] + "/%d" % len(b)



def content(case, rng):
    k = case["k"]
    if k == "marks":
        return make(case["d"], case["s"], rng, case.get("plain", False))
    n = case["n"]
    if k == "random":
        return rng.randbytes(n)
    if k == "const":
        return bytes([case["b"]]) * n
    if k == "text":
        return (b"".join(b"line %d of it\n" % i for i in range(n // 9 + 1)))[:n]
    p = rng.randbytes(case["b"])
    return (p * (n // len(p) + 1))[:n]


def shape(con, key):
    row = con.execute("select value from data where key=?", (key,)).fetchone()
    return [shape(con, k) for k in snap.Obj(row[0]).keys]


def lib_job(j):
    binp, cases, seed = j
    rng = random.Random(seed)
    recs, meta, drift = [], [], 0
    with vlib.Scratch() as sc:
        db, f, o = (os.path.join(sc, x) for x in ("db", "in", "out"))
        h = Harness(binp)

        def reopen():
            h.ask("x", "open", db)
            h.ask("x", "begin")
        reopen()
        for case in cases:
            b = content(case, rng)
            with open(f, "wb") as fh:
                fh.write(b)
            r = {"data": dig(b), "keys": [], "outs": [], "want": case.get("t", []), "got": case.get("t", [])}
            pats = ["1000000"] + [pieces(case, rng) for _ in range(case.get("n_frag", 1))]
            errs = []
            for p in pats:
                try:
                    ok, a = h.ask("x", "putdata", raw=[f.encode().hex(), p])
                except EOFError as e:
                    ok, a = False, str(e)
                    h = Harness(binp)
                    reopen()
                r["keys"].append(a if ok else "failed: " + a[:100])
            h.ask("x", "commit")
            h.ask("x", "close")
            reopen()
            for q in ["1000000", rng.choice(["1,4096", "0,1000000", "4095", "65536,0", "1000000,1"])]:
                if os.path.exists(o):
                    os.unlink(o)
                try:
                    ok, a = h.ask("x", "readdata", raw=[r["keys"][0], o.encode().hex(), q]) if r["keys"][0][:2] == "01" else (False, "no key")
                except EOFError as e:
                    ok, a = False, str(e)
                    h = Harness(binp)
                    reopen()
                r["outs"].append(dig(open(o, "rb").read()) if ok else "failed: " + a[:100])
            if "t" in case and r["keys"][0][:2] == "01":
                con = sqlite3.connect(db)
                try:
                    r["got"] = shape(con, bytes.fromhex(r["keys"][0]))
                except Exception as e:
                    r["got"] = [str(e)[:80]]
                con.close()
            recs.append(r)
            meta.append({"case": {k: v for k, v in case.items() if k != "t"}, "seed": seed, "delivered": pats, "via": "library", "height": case.get("h")})
        h.kill()
    return recs, meta


def cli_job(j):
    cli, shim, cases, seed = j
    rng = random.Random(seed)
    recs, meta = [], []
    with vlib.Scratch() as sc:
        w = snap.World(sc, cli)
        w.run("init")
        src, dst = os.path.join(sc, "src"), os.path.join(sc, "dst")
        os.mkdir(src)
        env = {"LD_PRELOAD": shim, "SHIM_DIRS": src + ":" + dst, "SHIM_CLASS": "", }
        for case in cases:
            b = content(case, rng)
            with open(os.path.join(src, "f"), "wb") as fh:
                fh.write(b)
            r = {"data": "file " + dig(b), "keys": [], "outs": [], "want": [], "got": []}
            pats = [None, pieces(case, rng), pieces(case, rng)]
            for p in pats:
                x = w.run("insert", os.path.join(src, "f"), extra_env=dict(env, SHIM_PIECES=p) if p else None)
                k = x.out.split()[-1].decode() if x.out.startswith(b"inserted hash ") and not x.failed else "failed: " + repr(x)[:200]
                r["keys"].append(k)
            os.mkdir(dst)
            for p in [None, rng.choice(["1,4096", "0,1000000", "4095", "65536,0", "7,1000000,0"])]:
                t = os.path.join(dst, "f" + (p or ""))
                x = w.run("fetch", r["keys"][0], t, extra_env=dict(env, SHIM_PIECES=p) if p else None)
                try:
                    with open(t, "rb") as fh:
                        r["outs"].append("file " + dig(fh.read()) if not x.failed else "failed: " + repr(x)[:200])
                except OSError as e:
                    r["outs"].append("failed: %s %r" % (e, x))
            for n in os.listdir(dst):
                os.unlink(os.path.join(dst, n))
            os.rmdir(dst)
            recs.append(r)
            meta.append({"case": {k: v for k, v in case.items() if k != "t"}, "seed": seed, "delivered": pats, "via": "program"})
    return recs, meta


def check(c):
    jobs = [("Chunker", {}), ("Chunker", {"Block": 4, "Force": 2, "MinChunk": 2, "MaxUnits": 4 if c.quick else 5, "MaxPieces": 2}),
            ("Chunker", {"MaxCount": 3, "MaxPieces": 1, "MaxUnits": 4 if c.quick else 5})]
    if not c.quick:
        jobs += [("Chunker", {"Block": 3, "Force": 2, "MinChunk": 2, "MaxUnits": 5, "MaxPieces": 2})]
    rng = random.Random(c.seed)
    datas = [[rng.choice([0, 0, 0, 1, 1, 2, 3, 4, 5]) for _ in range(rng.randrange(1, 26))] for _ in range(40 if c.quick else 300)]
    emits = [("ChunkCases", {"MaxUnits": 3 if c.quick else 4}, None), ("ChunkCases", {"Family": '"counts"', "MaxUnits": 5}, None),
             ("ChunkCases", {"Family": '"file"'}, {"datas.json": json.dumps(datas)})]
    with ThreadPoolExecutor(8) as ex:
        fb = ex.submit(lambda: (vlib.build_cli(), vlib.build_shim()))
        fm = [ex.submit(vlib.tlc, m, constants=k, workers=2) for m, k in jobs]
        fp = ex.submit(vlib.tlc, "Chunker", constants={"Block": 4, "Force": 2, "MinChunk": 2, "MaxUnits": 3 if c.quick else 4, "MaxPieces": 3, "Emit": "TRUE"}, workers=2)
        fe = [ex.submit(vlib.tlc, m, constants=k, workers=1, extra_files=x) for m, k, x in emits]
        cli, shim = fb.result()
        for f in fm + [fp] + fe:
            c.model(f.result())
        lv, ct, rd = [f.result().emitted for f in fe]
        pc = fp.result().emitted
    binp = vlib.try_harness(c)
    rng.shuffle(pc)
    cases = []
    for x in lv + rd:
        cases.append({"k": "marks", "d": x["d"], "s": x["s"], "t": x["t"], "h": x["h"], "plain": rng.random() < .15})
    for x in pc[:600 if c.quick else 8000]:
        cases.append({"k": "marks", "d": x["d"], "s": x["s"], "t": x["t"], "h": x["h"], "p": x["p"]})
    big = []
    seen = set()
    for x in ct:
        m = x["d"][3]
        if c.quick and (m, x["d"][-1] == 0) in seen:
            continue
        seen.add((m, x["d"][-1] == 0))
        big.append({"k": "marks", "d": x["d"], "s": x["s"], "t": x["t"], "h": x["h"], "n_frag": 1 if c.quick else 2})
    sizes = [0, 1, 2, 63, 64, 65] + [x + d for x in (16384, 32768, 65536, 98304, 131072, 196608) for d in (-1, 0, 1)]
    plain = []
    for n in sizes:
        plain += [{"k": "random", "n": n, "n_frag": 3}, {"k": "const", "n": n, "b": rng.choice([0, 97, 255]), "n_frag": 3}, {"k": "text", "n": n, "n_frag": 2}]
    for _ in range(60 if c.quick else 1500):
        plain += [{"k": "random", "n": rng.randrange(1, 600000), "n_frag": 2},
                  {"k": "period", "n": rng.randrange(1, 400000), "b": rng.choice([1, 2, 3, 64, 1000, 8192, 65536, rng.randrange(1, 70000)])}]
    plain += [{"k": "random", "n": 3000000}, {"k": "const", "n": 5000000, "b": 0}, {"k": "random", "n": 17000000}]
    clic = [x for x in plain[:66:2]] + rng.sample(cases, (40 if binp else 400) if c.quick else 600) + big[:(2 if binp else 10) if c.quick else 20]
    rng.shuffle(cases)
    work = plain + cases
    rng.shuffle(work)
    parts = [[b] for b in big] + vlib.split(work, 24) if binp else []
    jobs = [("lib", binp, p, c.seed * 1000 + i) for i, p in enumerate(parts)]
    jobs += [("cli", cli, shim, p, c.seed * 2000 + i) for i, p in enumerate(vlib.split(clic, 12))]
    res = vlib.pmap(lambda j: (lib_job if j[0] == "lib" else cli_job)(j[1:]), jobs)
    recs, meta = [], []
    for r, m in res:
        recs += r
        meta += m
    # the specification does not say what exists above: the shape of the tree is compared, but a difference is no failure
    r = vlib.tlc("ChunkJudge", extra_files={"records.json": json.dumps(recs)}, workers=1)
    drift = 0
    heights = {}
    for x in meta:
        heights[x.get("height")] = heights.get(x.get("height"), 0) + 1
    for x in r.emitted:
        if x["drift"]:
            drift += 1
        if not x["ok"]:
            if x["n"] == 0:
                by = {}
                for i, q in enumerate(recs):
                    by.setdefault(q["data"], set()).add((q["keys"][0], i))
                c.violate("one content has two keys, or two contents have one", {"groups": [[(k, meta[i]) for k, i in v] for v in by.values() if len({k for k, _ in v}) > 1][:5]})
                continue
            q = recs[x["n"] - 1]
            c.violate("stored %s: keys %s, read back %s" % (q["data"], q["keys"], q["outs"]), {"record": {k: v for k, v in q.items() if k not in ("want", "got")}, "how": meta[x["n"] - 1]})
    c.model(r)
    c.traces(len(recs))
    c.count("trees_of_unexpected_shape", drift)
    c.cov["expected_tree_heights"] = {str(k): v for k, v in heights.items() if k is not None}
    c.sample({"marks": lv[7]["d"], "height": lv[7]["h"]})


vlib.main("C01", check)
