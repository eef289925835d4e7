"""What log, show and compare --stat print."""
import re

HEAD = re.compile(r"commit: (b[a-z2-7]{52})\n\n")
STAT = re.compile(r"(.*)  \+(\d+) -(\d+)\Z", re.S)
HUNK = re.compile(r"@@ -(\d+),(\d+) \+(\d+),(\d+) @@\Z")


def stat_lines(text):
    """[(file, added, removed)], rest"""
    res, junk = [], []
    for l in text.split("\n"):
        m = STAT.match(l)
        if m:
            res.append((m.group(1), int(m.group(2)), int(m.group(3))))
        elif l:
            junk.append(l)
    return res, junk


ESC = {"0": "\0", "n": "\n", "r": "\r", "t": "\t", '"': '"', "\\": "\\"}


def unquote(s):
    if len(s) >= 2 and s[0] == s[-1] == '"':
        return re.sub(r"\\(.)", lambda m: ESC.get(m.group(1), m.group(1)), s[1:-1], flags=re.S)
    return s


def patches(text):
    """[{old, new, hunks: [{os, oc, ns, nc, lines: [(mark, text)]}]}], rest; hunks are as long as their headers say"""
    ls = text.split("\n")
    i, res, junk = 0, [], []
    while i < len(ls):
        l = ls[i]
        if l.startswith("--- ") and i + 1 < len(ls) and ls[i + 1].startswith("+++ "):
            p = {"old": unquote(l[4:]), "new": unquote(ls[i + 1][4:]), "hunks": []}
            i += 2
            while i < len(ls):
                m = HUNK.match(ls[i])
                if not m:
                    break
                os_, oc, ns, nc = map(int, m.groups())
                h = {"os": os_, "oc": oc, "ns": ns, "nc": nc, "lines": []}
                i += 1
                a = b = 0
                while i < len(ls) and (a < oc or b < nc) and ls[i][:1] in (" ", "+", "-"):
                    k = ls[i][0]
                    a += k != "+"
                    b += k != "-"
                    h["lines"].append((k, ls[i][1:]))
                    i += 1
                p["hunks"].append(h)
            res.append(p)
        else:
            if l:
                junk.append(l)
            i += 1
    return res, junk


def entries(text, messages):
    """[(key, message, body)], text before the first; messages: {user key: stored message}, only used to find where a message ends"""
    res, i = [], 0
    m = HEAD.match(text, 0)
    pre = ""
    if not m:
        m = HEAD.search(text)
        pre = text[:m.start()] if m else text
    while m:
        k, j = m.group(1), m.end()
        msg = messages.get(k)
        if msg is not None and text.startswith(msg + "\n\n", j):
            j += len(msg) + 2
        else:
            e = text.find("\n\n", j)
            e = len(text) if e < 0 else e
            msg = text[j:e]
            j = min(len(text), e + 2)
        n = re.compile(r"^" + HEAD.pattern, re.M).search(text, j)
        res.append((k, msg, text[j:n.start() if n else len(text)]))
        m = n
    return res, pre
