"""Minimal BLAKE3 (hash mode, 32 byte output) and CBOR decoding, independent of the code under test."""
import struct
IV = (0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19)
PERM = (2, 6, 3, 10, 7, 0, 4, 13, 1, 11, 12, 5, 9, 14, 15, 8)
M = 0xFFFFFFFF
CHUNK_START, CHUNK_END, PARENT, ROOT = 1, 2, 4, 8


def _compress(cv, block, counter, blen, flags):
    m = list(struct.unpack("<16I", block))
    v = list(cv) + list(IV[:4]) + [counter & M, (counter >> 32) & M, blen, flags]

    def g(a, b, c, d, x, y):
        va, vb, vc, vd = v[a], v[b], v[c], v[d]
        va = (va + vb + x) & M
        vd ^= va; vd = ((vd >> 16) | (vd << 16)) & M
        vc = (vc + vd) & M
        vb ^= vc; vb = ((vb >> 12) | (vb << 20)) & M
        va = (va + vb + y) & M
        vd ^= va; vd = ((vd >> 8) | (vd << 24)) & M
        vc = (vc + vd) & M
        vb ^= vc; vb = ((vb >> 7) | (vb << 25)) & M
        v[a], v[b], v[c], v[d] = va, vb, vc, vd
    for r in range(7):
        g(0, 4, 8, 12, m[0], m[1]); g(1, 5, 9, 13, m[2], m[3])
        g(2, 6, 10, 14, m[4], m[5]); g(3, 7, 11, 15, m[6], m[7])
        g(0, 5, 10, 15, m[8], m[9]); g(1, 6, 11, 12, m[10], m[11])
        g(2, 7, 8, 13, m[12], m[13]); g(3, 4, 9, 14, m[14], m[15])
        m = [m[p] for p in PERM]
    return [v[i] ^ v[i + 8] for i in range(8)]


def _chunk(data, counter, root):
    cv = IV
    blocks = [data[i:i + 64] for i in range(0, len(data), 64)] or [b""]
    for i, b in enumerate(blocks):
        f = (CHUNK_START if i == 0 else 0)
        if i == len(blocks) - 1:
            f |= CHUNK_END | (ROOT if root else 0)
        cv = _compress(cv, b.ljust(64, b"\0"), counter, len(b), f)
    return cv


def _tree(data, counter, root):
    if len(data) <= 1024:
        return _chunk(data, counter, root)
    n = (len(data) + 1023) // 1024
    left = 1
    while left * 2 < n:
        left *= 2
    k = left * 1024
    l = _tree(data[:k], counter, False)
    r = _tree(data[k:], counter + left, False)
    return _compress(IV, struct.pack("<16I", *(l + r)), 0, 64, PARENT | (ROOT if root else 0))


def blake3(data):
    return struct.pack("<8I", *_tree(bytes(data), 0, True))


B32 = "abcdefghijklmnopqrstuvwxyz234567"


def b32(b):
    n = int.from_bytes(b, "big")
    bits = len(b) * 8
    pad = (-bits) % 5
    n <<= pad
    return "".join(B32[(n >> s) & 31] for s in range(bits + pad - 5, -1, -5))


def user_key(dbkey):
    assert dbkey[0] == 1 and len(dbkey) == 33
    return "b" + b32(dbkey[1:])


class CborError(Exception):
    pass


def cbor_decode(b):
    v, i = _dec(b, 0)
    if i != len(b):
        raise CborError("trailing bytes")
    return v


def _dec(b, i):
    if i >= len(b):
        raise CborError("eof")
    ib = b[i]; i += 1
    mt, ai = ib >> 5, ib & 31
    if mt == 7:
        if ai == 20: return False, i
        if ai == 21: return True, i
        if ai in (22, 23): return None, i
        if ai == 25: return struct.unpack(">e", b[i:i + 2])[0], i + 2
        if ai == 26: return struct.unpack(">f", b[i:i + 4])[0], i + 4
        if ai == 27: return struct.unpack(">d", b[i:i + 8])[0], i + 8
        raise CborError("simple")
    if ai < 24: n = ai
    elif ai == 24: n = b[i]; i += 1
    elif ai == 25: n = int.from_bytes(b[i:i + 2], "big"); i += 2
    elif ai == 26: n = int.from_bytes(b[i:i + 4], "big"); i += 4
    elif ai == 27: n = int.from_bytes(b[i:i + 8], "big"); i += 8
    else: raise CborError("indef")
    if mt == 0: return n, i
    if mt == 1: return -1 - n, i
    if mt in (2, 3):
        if i + n > len(b): raise CborError("eof")
        s = b[i:i + n]
        return (bytes(s) if mt == 2 else s.decode("utf-8")), i + n
    if mt == 4:
        r = []
        for _ in range(n):
            v, i = _dec(b, i); r.append(v)
        return r, i
    if mt == 5:
        r = {}
        for _ in range(n):
            k, i = _dec(b, i); v, i = _dec(b, i); r[k] = v
        return r, i
    raise CborError("tag")


def cbor_encode(v):
    def head(mt, n):
        if n < 24: return bytes([mt << 5 | n])
        if n < 256: return bytes([mt << 5 | 24, n])
        if n < 65536: return bytes([mt << 5 | 25]) + n.to_bytes(2, "big")
        if n < 1 << 32: return bytes([mt << 5 | 26]) + n.to_bytes(4, "big")
        return bytes([mt << 5 | 27]) + n.to_bytes(8, "big")
    if isinstance(v, bool): return b"\xf5" if v else b"\xf4"
    if v is None: return b"\xf6"
    if isinstance(v, int): return head(0, v) if v >= 0 else head(1, -1 - v)
    if isinstance(v, (bytes, bytearray)): return head(2, len(v)) + bytes(v)
    if isinstance(v, str):
        s = v.encode(); return head(3, len(s)) + s
    if isinstance(v, (list, tuple)): return head(4, len(v)) + b"".join(map(cbor_encode, v))
    if isinstance(v, dict): return head(5, len(v)) + b"".join(cbor_encode(k) + cbor_encode(x) for k, x in v.items())
    raise TypeError(v)


assert blake3(b"").hex().startswith("af1349b9f5f9a1a6a0404dea36dcc949")
