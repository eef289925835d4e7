"""C04: keys are the hash of what is stored, stored objects never change, equal content has one key and one copy."""
import os, random, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import b3, engine, pairs, snap, vlib
from vlib import Scratch


SHM = "/dev/shm"
TWINS = [["a", "A", "b", "B"], ["e\u0301", "\u00e9", "E\u0301", "\u00c9"], ["x", "x ", " x", "x."], ["1", "01", "001", "10"], ["\u00df", "ss", "SS", "\u1e9e"],
         ["a", "a.b", "a-b", "a b", "ab"], ["I", "i", "\u0131", "\u0130"], ["_a", ".a", "-a", "a"], ["z" * 255, "z" * 254 + "Z", "z" * 254]]


def hook(p, a, o, d):
    ms = []
    for k, v in p.before.objs.items():
        if p.prev.objs.get(k) != v:
            ms.append(("immut", "%s changed or removed object %s" % (a["a"], k.hex()[:12])))
            break
    for k, v in p.prev.objs.items():
        if k not in p.before.objs and len(v) < 20000 and b"\x01" + b3.blake3(v) != k:
            ms.append(("hash", "%s stored an object under a key that is not the hash of its bytes" % a["a"]))
            break
    return ms


def job(j):
    """trees of the model, written in random creation order at different places: same tree <=> same key"""
    cli, recs, seed, names, xs = j
    rng = random.Random(seed)
    bad, n = [], 0
    cc = pairs.conc(rng, names, contentpool=[b"", b"one\n", b"two\n", b"x" * 100, os.urandom(40000), b"one", b"\n", b"D", bytes(9000), b"s" + bytes(50000)])
    with Scratch() as sc, Scratch(base=SHM if os.path.isdir(SHM) and os.access(SHM, os.W_OK) else None) as sc2:
        w = snap.World(sc, cli)
        w.run("init")
        byk, byt = {}, {}
        dump = w.dump()
        for i, r in enumerate(recs):
            t = cc.tree(r["snap"])
            full = cc.tree(r["a"])
            if not r["x"] and rng.random() < .4:           # names that only a sloppy comparison takes for equal
                tw = {"tw/" + x: b"%d" % k for k, x in enumerate(rng.choice(TWINS))}
                full, t = {**full, "tw": "D", **tw}, {**t, "tw": "D", **tw}
            ks = []
            order = sorted(full)
            rng.shuffle(order)
            for v in range(2):
                # a directory of a tmpfs lists the newest entries first, a disk file system in hash order
                src = os.path.join(rng.choice([sc, sc2, sc2]), "p%d" % rng.randrange(10**9), "src")
                snap.write_tree(src, {x: full[x] for x in order}, rng, shuffle=False)
                order.reverse()
                if rng.random() < .3:      # other times, other permissions: not content
                    for d, ds, fs in os.walk(src):
                        for f in fs:
                            os.utime(os.path.join(d, f), (rng.randrange(10**9),) * 2)
                            os.chmod(os.path.join(d, f), rng.choice([0o644, 0o755, 0o600]))
                arg, cwd = w.near(src, rng) if rng.random() < .3 else (src, None)
                ins = w.insert(arg, cwd=cwd, excl=pairs.globs(cc, r["x"], rng))
                if not ins.key:
                    bad.append(("insert failed: %r" % ins, {"tree": r}))
                    return n, bad
                ks.append(ins.key)
                if v == 0:
                    d1 = w.dump()
                shutil.rmtree(os.path.dirname(src))
            d2 = w.dump()
            n += 1
            tk = pairs.key([(p, c if isinstance(c, str) else c.hex()) for p, c in t.items()])
            if ks[0] != ks[1]:
                bad.append(("the same tree got keys %s and %s" % tuple(ks), {"tree": r, "names": cc.n}))
            elif byt.setdefault(tk, ks[0]) != ks[0]:
                bad.append(("the same tree got another key later", {"tree": r}))
            elif byk.setdefault(ks[0], tk) != tk:
                bad.append(("different trees got one key", {"tree": r}))
            elif d2.objs != d1.objs:
                bad.append(("inserting equal content again changed the stored objects", {"tree": r}))
            elif any(d1.objs.get(k) != v for k, v in dump.objs.items()):
                bad.append(("an insert changed an older object", {"tree": r}))
            dump = d2
            if bad:
                break
    return n, bad


def files(j):
    """single files: equal bytes one key, one flipped, added or removed byte another"""
    cli, seed = j
    rng = random.Random(seed)
    bad, n = [], 0
    with Scratch() as sc:
        w = snap.World(sc, cli)
        w.run("init")
        size = rng.choice([0, 1, 2, 100, 4095, 4096, 16383, 16384, 16385, 32768, 65536, 65537, 131072, 300000, 1 << 20])
        base = os.urandom(size) if rng.random() < .6 else bytes([rng.choice([0, rng.randrange(256)])]) * size
        variants = {base}
        for _ in range(6):
            b = bytearray(base)
            k = rng.randrange(3)
            if k == 0 and b:
                b[rng.choice([0, len(b) - 1, rng.randrange(len(b))])] ^= 1 << rng.randrange(8)
            elif k == 1:
                b += bytes([rng.choice([0, 10, rng.randrange(256)])])
            elif b:
                del b[rng.choice([0, len(b) - 1])]
            variants.add(bytes(b))
        seen = {}
        for v in sorted(variants):
            ks = set()
            for i in range(2):
                p = os.path.join(sc, "f%d" % rng.randrange(10**9))
                snap.write_file(p, v, rng)
                if rng.random() < .1:       # with another name
                    os.link(p, p + "l")
                ks.add(w.insert(p).key)
            n += 1
            if len(ks) != 1 or None in ks:
                bad.append(("%d equal bytes got keys %s" % (len(v), ks), {}))
            elif ks & set(seen):
                bad.append(("files of %d and %d different bytes got one key" % (len(v), len(seen[min(ks)])), {}))
            seen.update({k: v for k in ks})
    return n, bad


def run(c):
    cli = vlib.build_cli()
    q = c.quick
    pairs.pairs(c, "none", contents="C1", xsets="X0")
    for i, (names, cont, xs, sa) in enumerate([("N2", "C2", "X2", 0), ("N3", "C2", "X3", 200 if q else 4000)]):
        recs = pairs.pairs(c, "snap", names=names, contents=cont, xsets=xs, sa=sa, sb=1, seed=i)
        random.Random(c.seed).shuffle(recs)
        for n, bad in vlib.pmap(job, [(cli, p, c.seed * 1000 + k, names, xs) for k, p in enumerate(vlib.split(recs, 8 if q else 32))]):
            c.traces(n)
            for b in bad:
                c.violate(*b)
    for n, bad in vlib.pmap(files, [(cli, c.seed * 999 + k) for k in range(48 if q else 1000)], chunks=2):
        c.traces(n)
        for b in bad:
            c.violate(*b)
    pool = [b"", bytes(8192), b"one\n", b"two\n", b"x", b"y" * 200, b"\x00\xff"]
    engine.sim_check(c, cli, dict(Acts="AAllFail", Names="N3", Contents="C3", Remotes="M1", WTs="WNone", MaxCommits=8, MaxLog=8, MaxRoots=6),
                     50 if q else 600, 35, {"rekey", "immut", "hash"}, hook=hook, repkw={"contentpool": pool, "_ballast": .1}, budget=20 if q else 250)


vlib.main("C04", run)
