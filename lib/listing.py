"""What walk-tree, walk-fs-tree and pretty-print print, read back."""
import ast, re
import b3, snap

STR = r'"((?:[^"\\]|\\.)*)"'
TREEROW = re.compile(r"\(" + STR + r", \((.*?), (true|false)\)\)\n", re.S)
FSROW = re.compile(STR + r", (true|false)\n", re.S)
KEY = re.compile(r"Blake3B\(\[([0-9, ]*)\]\)|\b(b[a-z2-7]{52})\b")


class Unreadable(Exception):
    pass


def unescape(s):
    def f(m):
        x = m.group(1)
        if x[0] == "u":
            return chr(int(x[2:-1], 16))
        if x[0] in "xX":
            return chr(0xdc00 + int(x[1:], 16))
        return {"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(x, x)
    return re.sub(r"\\(u\{[0-9a-fA-F]+\}|[xX][0-9a-fA-F]{2}|.)", f, s, flags=re.S)


def key(s):
    m = KEY.search(s)
    if not m:
        raise Unreadable("no key in %r" % s)
    if m.group(1) is not None:
        return b"\x01" + bytes(int(x) for x in m.group(1).split(","))
    return snap.key_to_db(m.group(2))


def rows(rx, text):
    out, at = [], 0
    while at < len(text):
        m = rx.match(text, at)
        if not m:
            raise Unreadable("cannot read %r" % text[at:at + 100])
        out.append(m.groups())
        at = m.end()
    return out


def walk_tree(text):
    """[(path, key, is a directory)]"""
    return [(unescape(p), key(k), d == "true") for p, k, d in rows(TREEROW, text)]


def walk_fs(text):
    return [(unescape(p), d == "true") for p, d in rows(FSROW, text)]


def pretty(text):
    """type, keys in order (each printed in both forms), data"""
    m = re.match(r"--type: (\w+)--\n--keys--\n(.*?)-/keys--\n--data--\n((?:[0-9a-f]*\n)*)-/data--\n--deserialised data--\n.*--/deserialised data--\n$", text, re.S)
    if not m:
        raise Unreadable("cannot read %r" % text[:200])
    ks = [key(l) for l in m.group(2).split("\n") if l]
    forms = [ks[i::2] for i in (0, 1)]
    if forms[0] != forms[1]:
        raise Unreadable("the two forms of the keys disagree")
    return m.group(1), forms[0], bytes.fromhex(m.group(3).replace("\n", ""))


def show(p, k):
    r = p.run("debug", "pretty-print", p.key(k))
    if r.failed:
        raise Unreadable("pretty-print failed: %r" % r)
    return pretty(r.text)


def content(p, k, left=60):
    """a file's content from what pretty-print says about its objects"""
    t, ks, data = show(p, k)
    if t == "FileBlob" and not ks:
        return data
    if t == "FileBlobTree" and not data:
        return b"".join(content(p, x, left - 1) for x in ks)
    raise Unreadable("%s with %d keys and %d bytes is no data" % (t, len(ks), len(data)))


def tree(p, k, path=""):
    t, ks, data = show(p, k)
    m = b3.cbor_decode(data)
    if t == "FSItemDir":
        out = {path: "D"} if path else {}
        if len(ks) != len(m["children_names"]):
            raise Unreadable("%d keys for %d names" % (len(ks), len(m["children_names"])))
        for n, x in zip(m["children_names"], ks):
            out.update(tree(p, x, (path + "/" if path else "") + n))
        return out
    if t == "FSItemFile" and len(ks) == 1:
        return {path: content(p, ks[0])}
    raise Unreadable("%s with %d keys is no tree" % (t, len(ks)))
