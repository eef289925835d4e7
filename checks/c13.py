"""C13: full-length texts, looked up and given to every command that takes a key."""
import os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import keycheck, snap, vlib
from snap import Dump, Obj, b3


def spellings(k, rng):
    u = b3.user_key(k)
    return [u, "b" + u[1:].upper(), "b" + "".join(x.upper() if rng.random() < .5 else x for x in u[1:])]


def commands(j):
    """every command that takes a key, with full keys as printed, absent ones and near misses"""
    cli, seed = j
    rng = random.Random(seed)
    bad, n = [], 0
    with vlib.Scratch() as sc:
        w = snap.World(sc, cli)
        w.run("init")
        trees, printed = [], []
        for i in range(3):
            snap.write_tree(w.repo, {"f%d" % x: rng.choice(snap.TEXTPOOL) + b"%d" % rng.randrange(10 ** 6) for x in range(rng.randrange(1, 4))})
            r = w.insert(w.repo)
            printed.append((r.key, None))
            w.run("commit", "--message=m%d" % i)
        d = w.dump()
        # keys as the tool prints them
        r = w.run("ref", "log")
        printed += [(x, "Commit") for x in re.findall(r"^\d+: (b\S+)", r.text, re.M)]
        r = w.run("log")
        printed += [(x, "Commit") for x in re.findall(r"^commit: (b\S+)", r.text, re.M)]
        r = w.run("debug", "walk-tree", printed[0][0])
        printed += [(x, None) for x in re.findall(r"\b(b[a-z2-7]{52})\b", r.text)]
        for text, kind in printed:
            k = snap.key_to_db(text)
            if k not in d.objs or b3.user_key(k) != text:
                bad.append("printed %s, which is no stored object" % text)
                continue
            t = Obj(d.objs[k]).type
            if kind and t != kind:
                bad.append("printed %s as a commit" % text)
        coms = [k for k, v in d.objs.items() if Obj(v).type == "Commit"]
        trs = [k for k, v in d.objs.items() if Obj(v).type == "FSItemDir"]
        files = [k for k, v in d.objs.items() if Obj(v).type == "FSItemFile"]

        def ask(kind, text, k, want):
            out = os.path.join(sc, "out%d" % rng.randrange(10 ** 9))
            if kind == "fetch":
                r = w.run("fetch", text, out)
                good = not r.failed and snap.read_tree(out) == (d.tree(k) if k else None)
            elif kind == "show":
                r = w.run("show", text)
                o = Obj(d.objs[k]) if k else None
                good = not r.failed and (r.out == d.tree(k)[""] if o and o.type == "FSItemFile" else ("commit: " + b3.user_key(k)) in r.text if k else False)
            elif kind == "log":
                r = w.run("log", text)
                good = not r.failed and k and r.text.startswith("commit: " + b3.user_key(k))
            elif kind == "compare":
                r = w.run("compare", text)
                r2 = w.run("compare", text[:30])
                good = not r.failed and r.text == r2.text
            elif kind == "refupdate":
                r = w.run("ref", "update", text, "r")
                x = w.dump()
                good = not r.failed and x.log_of("r")[-1:] == [k]
            elif kind == "push":
                r = w.run("debug", "reflog-push", text, "p", "rem")
                x = w.dump()
                good = not r.failed and x.log_of("p", "rem")[-1:] == [k]
            elif kind == "committree":
                r = w.run("debug", "commit-tree", text)
                m = re.match(r"(b\S+)\n", r.text)
                good = not r.failed and m and w.dump().commit(snap.key_to_db(m.group(1)))["tree"] == k
            elif kind == "parent":
                r = w.run("debug", "commit-tree", b3.user_key(trs[0]), text)
                m = re.match(r"(b\S+)\n", r.text)
                good = not r.failed and m and w.dump().commit(snap.key_to_db(m.group(1)))["parents"] == [k]
            elif kind == "print":
                r = w.run("debug", "pretty-print", text)
                good = not r.failed and ("--type: %s--" % Obj(d.objs[k]).type if k else "?") in r.text
            elif kind == "walk":
                r = w.run("debug", "walk-tree", text)
                good = not r.failed
            if want and not good:
                return "%s of the full key %s of a stored object: %r" % (kind, text, r)
            if not want and (not r.failed or r.rc == 0):
                return "%s of %s, the key of nothing: %r" % (kind, text, r)
        per = {"fetch": trs, "show": coms + files, "log": coms, "compare": trs, "refupdate": coms, "push": coms, "committree": trs,
               "parent": coms, "print": list(d.objs), "walk": trs}
        for kind, ks in per.items():
            k = rng.choice(sorted(ks))
            for text in spellings(k, rng):
                n += 1
                x = ask(kind, text, k, True)
                if x:
                    bad.append(x)
            absent = b"\x01" + rng.randbytes(32)
            u = b3.user_key(k)
            near = [b3.user_key(absent), u + "a", u + u[1:], u[:-1] + rng.choice([x for x in keycheck.A if keycheck.DIG[x] % 16]),
                    u[:-1] + ("q" if u[-1] == "a" else "a")]
            if rng.random() < .5:
                v = k[:-1] + bytes([k[-1] ^ 1])
                near.append(b3.user_key(v))
            for text in near:
                before = w.dump()
                n += 1
                x = ask(kind, text, None, False)
                if x:
                    bad.append(x)
                if not (w.dump() == before):
                    bad.append("%s of %s changed the repository" % (kind, text))
    return bad, n


def run(c):
    cli = vlib.build_cli()
    keycheck.run(c, lambda x: x["n"] == 52 or (x["n"] == 51 and x["w"] == "long"), 120, 8)
    for bad, n in vlib.pmap(commands, [(cli, c.seed * 67 + i) for i in range(8 if c.quick else 120)]):
        c.count("evaluations", n)
        c.count("command_lookups", n)
        for b in bad:
            c.violate(b, {"what": b})


vlib.main("C13", run)
