"""Pairs of directory trees enumerated by TreePairs.tla, and their replay on the program."""
import os, random, shutil
import shimlib, snap, vlib
from repo import glob_escape, summ
from vlib import Scratch, ToolError

NAMES = {"N2": ["a", "b"], "N3": ["a", "b", "x"]}
CONT = {"C1": ["c1"], "C2": ["c1", "c2"]}
# names related by prefixes, order and case: folding and sorting by text instead of by path goes wrong on these
RELATED = [["a", "a.b", "a-"], ["ab", "a", "a b"], ["a", "a0", "a.0"], ["dir", "dir.txt", "dir-old"], ["x", "X", "xx"], ["b", "a", "ba"],
           ["lib", "lib ", " lib"], ["e\u0301", "\u00e9", "e"], ["..b", "..a", ".a"], ["a\\b", "a", "b"]]


STRAY = []      # (name, another name the program used while it wrote that one)
BASES = ["a", "a.b", "name.txt", "dir", "x", "archive.tar.gz", ".hidden"]


def discover(c, cli, base=None):
    """names the program itself uses in passing, next to those it was told to write: the ones that matter most"""
    shim = vlib.build_shim()
    if base:
        shim = shutil.copy(shim, os.path.join(base.path, "shim.so"))
        os.chmod(shim, 0o755)
    a, b = vlib.pmap(_discover, [(cli, shim, base and base.path)] * 2, workers=2)
    STRAY[:] = sorted(set(a) & set(b))
    c.count("names_used_in_passing", len(STRAY))


def _discover(j):
    cli, shim, base = j
    if base:
        vlib.drop_privileges()
    found = set()
    with Scratch(base=base) as sc:
        w = snap.World(sc, cli)
        w.run("init")
        tree = {n: b"content of " + n.encode() for n in BASES}
        tree.update({"d": "D"}, **{"d/" + n: b"x" * 50000 for n in BASES})
        tree.update({"e": "D", "e/empty": "D"})
        snap.write_tree(w.repo, tree)
        w.run("commit", "-m", "m")
        root = w.insert(w.repo).key
        for k, cmd in enumerate([("checkout",), ("checkout",), ("checkout",), ("fetch", root or "b", os.path.join(sc, "out")), ("insert", w.repo), ("commit", "-m", "m"), ("status",)]):
            if k == 0:
                snap.write_tree(w.repo, {n: b"else" for n in BASES})
            elif k == 1:
                snap.write_tree(w.repo, {})
            log = os.path.join(sc, "log")
            w.run(*cmd, extra_env={"LD_PRELOAD": shim, "SHIM_DIRS": w.repo + ":" + os.path.join(sc, "out"), "SHIM_LOG": log, "SHIM_CLASS": "w"})
            used = []
            for n, op, a, b, res, path, data in shimlib.parse(log)[0]:
                ps = [path] + ([os.fsdecode(data)] if op == "rename" else [])
                for p in ps:
                    for top in (w.repo, os.path.join(sc, "out")):
                        if p.startswith(top + "/") and not p.startswith(w.repo + "/.snapcd"):
                            used.append(os.path.relpath(p, top))
            for i, p in enumerate(used):
                if p not in tree and p.split("/")[-1] not in BASES:
                    for q in used[max(0, i - 6):i + 7]:
                        if q in tree and tree[q] != "D":
                            found.add((os.path.basename(q), os.path.basename(p)))
                    near = [b for b in BASES if b in os.path.basename(p)]
                    if near:
                        found.add((max(near, key=len), os.path.basename(p)))
            os.path.exists(log) and os.unlink(log)
    return sorted(found)


def pairs(c, emit, names="N2", contents="C2", depth=2, xsets="X0", sa=0, sb=0, invariants=True, seed=0):
    order = "O" + names[1:]
    r = vlib.tlc("MCTreePairs", constants=dict(Names=names, Order=order, Contents=contents, MaxDepth=depth, XSets=xsets, SampleA=sa,
                                               SampleB=sb, EmitWhat='"%s"' % emit),
                 seed=c.seed * 31 + seed, workers=1 if emit != "none" else vlib.NCPU, timeout=800)
    c.model(r)
    if emit != "none" and not r.emitted:
        raise ToolError("no pairs")
    return r.emitted


def conc(rng, names="N2", contents="C2", contentpool=None, hard=0, nottext=False):
    ns = NAMES[names]
    fixed = None
    if STRAY and rng.random() < .5:
        b, s = rng.choice(STRAY)
        fixed = dict(zip(rng.sample(ns, len(ns)), [b, s, "other"]))
    elif rng.random() < hard:
        fixed = dict(zip(ns, rng.sample(snap.HARDNAMES if nottext else [x for x in snap.HARDNAMES if snap.text(x)], len(ns))))
    elif rng.random() < .5:
        fixed = dict(zip(ns, rng.sample(rng.choice(RELATED), len(ns))))
    return snap.Conc(rng, ns, CONT[contents], fixed=fixed, contentpool=contentpool)


def key(rows):
    return tuple(sorted(map(tuple, rows)))


NOISE = ["**/nothing-has-this-name/**", "nothing, at all", "{no, thing}/**", ", ", "no;thing:here", "/no/thing", "!no", "#no", "**/no{,-such}-name", "./no/../thing"]


def globs(cc, x, rng=None):
    """ways to say the same exclusion: every entry with one of these names"""
    out, alt = [], []
    for n in sorted(x):
        g = glob_escape(cc.n[n])
        how = rng.randrange(7) if rng else 0
        b = g.replace(",", "[,]")           # within braces
        if how == 1:
            g = rng.choice(["{%s,no-such-name}", "{no, such name,%s}", "{no-such-name,%s, nor this}", "{no-such,%s,no-such}"]) % b
        if how == 3:
            alt.append("**/" + b)
            continue
        out.append("**/" + g)
        if how == 2:
            out.append(rng.choice(NOISE))
    if alt:         # several in one pattern
        alt.insert(rng.randrange(len(alt) + 1), rng.choice(["no/thing[,] at all", "no-such-name", "no,such"]))
        out.append("{%s}" % ",".join(alt))
    if rng:
        if rng.random() < .2:
            out.append(rng.choice(NOISE))
        rng.shuffle(out)
    return out


def groups(recs, by):
    g = {}
    for r in recs:
        g.setdefault(by(r), []).append(r)
    return list(g.values())
