"""Encoders: abstract signature entries -> bytes of a signature file (tar, possibly gzipped).

An entry is a dict:
  p     path, bytes without leading or trailing slash (the root is b"")
  d     True for a deletion
  t     modification time in seconds; uid, gid, mode: ints or None (unreadable field)
  un, gn  bytes or None;  ty: byte of the tar type flag;  ln: bytes or None
  sz    ("exact", n) | ("sig", block length, number of blocks, strong sum length) | ("raw", bytes)
"""
import gzip, io, re, struct, tarfile, zlib
from names import limbs

SPLITSEC = 86400


def entry(p, d=False, t=1434565545, uid=1000, gid=1000, mode=0o644, un=b"user", gn=b"group", ty=48, ln=None, sz=("exact", 0)):
    return dict(p=p, d=d, t=t, uid=uid, gid=gid, mode=mode, un=un, gn=gn, ty=ty, ln=ln, sz=sz)


def opt(x):
    return [] if x is None else [x]


def abst(e):
    """What the specification sees of an entry."""
    if e["d"]:
        return {"p": list(e["p"]), "d": True}
    k = e["sz"]
    sz = ({"k": "exact", "n": limbs(k[1])} if k[0] == "exact" else
          {"k": "sig", "blk": limbs(k[1]), "n": limbs(k[2])} if k[0] == "sig" else {"k": "bad"})
    return {"p": list(e["p"]), "d": False, "t": [e["t"] // SPLITSEC, e["t"] % SPLITSEC],
            "uid": [] if e["uid"] is None else [limbs(e["uid"])], "gid": [] if e["gid"] is None else [limbs(e["gid"])],
            "mode": [] if e["mode"] is None else [limbs(e["mode"])],
            "un": [] if e["un"] is None else [list(e["un"])], "gn": [] if e["gn"] is None else [list(e["gn"])],
            "ty": e["ty"], "ln": [] if e["ln"] is None else [list(e["ln"])], "sz": sz}


def payload(e):
    if e["d"]:
        return b""
    k = e["sz"]
    if k[0] == "exact":
        return b"\0" * k[1]
    if k[0] == "sig":
        return struct.pack(">III", 0x72730136, k[1], k[3]) + b"\x5a" * (k[2] * (4 + k[3]))
    return k[1]


def octal(n, width):
    s = b"%0*o" % (width - 1, n)
    assert len(s) == width - 1, (n, width)
    return s + b"\0"


def num(n, width, base256=False):
    """A number field; None gives a field that is no number."""
    if n is None:
        return b"x" * (width - 1) + b"\0"
    if not base256 and 0 <= n < 8 ** (width - 1):
        return octal(n, width)
    if width == 8:
        assert 0 <= n < 2 ** 56
        return b"\x80" + n.to_bytes(7, "big")
    return (b"\x80" if n >= 0 else b"\xff") + b"\0" * 3 + (n & (2 ** 64 - 1)).to_bytes(8, "big") if n >= 0 else \
        b"\xff" * 4 + (n & (2 ** 64 - 1)).to_bytes(8, "big")


def header(name, size, ty, mode=0o644, uid=0, gid=0, t=0, ln=b"", un=b"", gn=b"", magic=b"ustar\x0000", prefix=b"", b256=False):
    assert len(name) <= 100 and len(ln) <= 100 and len(prefix) <= 155 and len(un) <= 32 and len(gn) <= 32
    h = bytearray(512)
    h[0:len(name)] = name
    h[100:108] = num(mode, 8)
    h[108:116] = num(uid, 8, b256)
    h[116:124] = num(gid, 8, b256)
    h[124:136] = num(size, 12)
    h[136:148] = num(t, 12, b256)
    h[148:156] = b" " * 8
    h[156] = ty
    h[157:157 + len(ln)] = ln
    if magic:
        h[257:265] = magic
        h[265:265 + len(un)] = un
        h[297:297 + len(gn)] = gn
        h[329:337] = octal(0, 8)
        h[337:345] = octal(0, 8)
        h[345:345 + len(prefix)] = prefix
    h[148:156] = b"%06o\0 " % sum(h)
    return bytes(h)


def pad(b):
    return b + b"\0" * (-len(b) % 512)


def pax_record(k, v):
    body = b" " + k + b"=" + v + b"\n"
    n = len(body)
    while n != len(str(n)) + len(body):
        n = len(str(n)) + len(body)
    return str(n).encode() + body


def tar_name(e):
    top = b"deleted/" if e["d"] else b"signature/" if e["sz"][0] != "exact" else b"snapshot/"
    return top + e["p"] + (b"/" if not e["d"] and e["ty"] == 53 and e["p"] else b"")


def utf8(b):
    try:
        b.decode()
        return True
    except UnicodeDecodeError:
        return False


def split_name(n):
    """ustar: <prefix>/<name>, or None."""
    if len(n) <= 100:
        return b"", n
    for i in range(min(155, len(n) - 1), 0, -1):
        if n[i:i + 1] == b"/" and 0 < len(n) - i - 1 <= 100:
            return n[:i], n[i + 1:]
    return None


GNU = b"ustar  \0"


def member(e, style="gnu", rng=None):
    """The bytes of one entry, in the first style that can express it."""
    name, body = tar_name(e), payload(e)
    if e["d"]:
        t, uid, gid, mode, un, gn, ln, ty = 0, 0, 0, 0, b"", b"", b"", 48
        if rng and e["p"] and rng.random() < 0.15:      # what is gone was a directory, and the record says so
            name, ty = name + b"/", 53
    else:
        t, uid, gid, mode, un, gn, ln, ty = e["t"], e["uid"], e["gid"], e["mode"], e["un"], e["gn"], e["ln"] or b"", e["ty"]
    small = (t >= 0 and t < 8 ** 11 and (uid is None or uid < 8 ** 7) and (gid is None or gid < 8 ** 7))
    if style == "v7":
        if small and len(name) <= 100 and len(ln) <= 100 and (e["d"] or (un is None and gn is None)):
            return header(name, len(body), ty, mode, uid, gid, t, ln, magic=b"") + pad(body)
        style = "gnu"
    if not e["d"] and (un is None or gn is None):
        # names are absent: only v7 headers can say so
        assert un is None and gn is None and small and len(name) <= 100 and len(ln) <= 100, e
        return header(name, len(body), ty, mode, uid, gid, t, ln, magic=b"") + pad(body)
    if style == "ustar":
        sp = split_name(name)
        if sp and small and len(ln) <= 100 and len(un) <= 32 and len(gn) <= 32:
            return header(sp[1], len(body), ty, mode, uid, gid, t, ln, un, gn, prefix=sp[0]) + pad(body)
        style = "gnu"
    if style == "pax":
        assert b"\n" not in name and b"\n" not in ln
        recs, h = b"", dict(name=name, ln=ln, uid=uid, gid=gid, t=t, un=un, gn=gn, size=len(body))

        def put(k, key, v, fallback, must):
            nonlocal recs
            if must or (rng and rng.random() < 0.4):
                recs += pax_record(k, v)
                h[key] = fallback
        put(b"path", "name", name, name[:100], len(name) > 100)
        if ln:
            put(b"linkpath", "ln", ln, ln[:100], len(ln) > 100)
        if uid is not None:
            put(b"uid", "uid", b"%d" % uid, 0, uid >= 8 ** 7)
        if gid is not None:
            put(b"gid", "gid", b"%d" % gid, 0, gid >= 8 ** 7)
        frac = rng and rng.random() < 0.3 and t >= 0
        put(b"mtime", "t", b"%d%s" % (t, b".%d" % rng.randrange(10 ** 6) if frac else b""), 0 if t < 0 or t >= 8 ** 11 else rng.choice([t, min(t + 1, 8 ** 11 - 1)]) if frac else t, t < 0 or t >= 8 ** 11 or frac)
        ascii_ = lambda x: all(c < 128 for c in x)
        # (PAX records hold UTF-8)
        # (and what the header says besides is cut, or has lost its letters)
        besides = lambda n: rng.choice([b"", n[:32], bytes(c if c < 128 else 63 for c in n)[:32]]) if rng else b""
        if utf8(un):
            put(b"uname", "un", un, besides(un), len(un) > 32 or not ascii_(un))
        if utf8(gn):
            put(b"gname", "gn", gn, besides(gn), len(gn) > 32 or not ascii_(gn))
        if body and rng and rng.random() < 0.5:     # as for sizes which the header has no room for
            put(b"size", "size", b"%d" % len(body), rng.choice([0, len(body), 8 ** 11 - 1]), False)
        if rng and rng.random() < 0.2:
            recs += pax_record(b"atime", b"1.5")
        pre = header(b"./PaxHeaders/x", len(recs), ord("x")) + pad(recs) if recs else b""
        return pre + header(h["name"], h["size"], ty, mode, h["uid"], h["gid"], h["t"], h["ln"], h["un"], h["gn"]) + pad(body)
    pre = b""
    if len(name) > 100:
        pre += header(b"././@LongLink", len(name) + 1, ord("L"), magic=GNU) + pad(name + b"\0")
    if len(ln) > 100:
        pre += header(b"././@LongLink", len(ln) + 1, ord("K"), magic=GNU) + pad(ln + b"\0")
    b256 = bool(rng and rng.random() < 0.2)
    return pre + header(name[:100], len(body), ty, mode, uid, gid, t, ln[:100], un, gn, magic=GNU, b256=b256) + pad(body)


def sigtar(es, style="gnu", rng=None):
    """style may be a list of styles to choose from for each entry."""
    return sigtar_parts(es, style, rng)[0]


def sigtar_parts(es, style="gnu", rng=None):
    """The tar and the offsets at which its entries end."""
    out, ends = b"", []
    for e in es:
        out += member(e, rng.choice(style) if isinstance(style, list) else style, rng)
        ends.append(len(out))
    out += b"\0" * 1024
    if rng and rng.random() < 0.5:
        out += b"\0" * (-len(out) % 10240)
    return out, ends


def pack(name, data):
    """As the suffix of the file name asks for it."""
    n = bytes(name).lower()
    if n.endswith(b".gz") or n.endswith(b".z"):
        o = io.BytesIO()
        with gzip.GzipFile(fileobj=o, mode="wb", mtime=0, compresslevel=6) as f:
            f.write(data)
        return o.getvalue()
    return data


def decode(data):
    """The abstract entries of a real signature file (written by duplicity itself)."""
    es = []
    with tarfile.open(fileobj=io.BytesIO(data), mode="r:*", errors="surrogateescape") as tf:
        for m in tf:
            top, _, rest = m.name.partition("/")
            enc = lambda s: s.encode("utf-8", "surrogateescape")
            p = enc(rest.rstrip("/"))
            if top == "deleted":
                es.append(entry(p, d=True))
                continue
            if top == "signature":
                b = tf.extractfile(m).read()
                magic, blk, ss = struct.unpack(">III", b[:12])
                sz = ("sig", blk, (len(b) - 12) // (4 + ss), ss)
            else:
                sz = ("exact", m.size)
            es.append(entry(p, t=int(m.mtime), uid=m.uid, gid=m.gid, mode=m.mode, un=enc(m.uname), gn=enc(m.gname),
                            ty=m.type[0] or 48, ln=enc(m.linkname) if m.linkname else None, sz=sz))
    return es


def unpacked(name, data):
    """What can be had of a file's contents, all of it or what comes before the damage."""
    n = bytes(name).lower()
    if not n.endswith((b".gz", b".z")):
        return data
    d, out = zlib.decompressobj(31), b""
    try:
        out = d.decompress(data)
    except zlib.error:
        # byte by byte up to the damage
        d, out = zlib.decompressobj(31), b""
        for i in range(len(data)):
            try:
                out += d.decompress(data[i:i + 1])
            except zlib.error:
                break
    return out


def tar_end(plain):
    """Where the block of zeros starts that ends the archive."""
    o, size = 0, None
    while o + 512 <= len(plain) and any(plain[o:o + 512]):
        n = int(plain[o + 124:o + 135], 8) if size is None else size
        size = None
        if plain[o + 156] == ord("x"):
            m = re.search(rb"(?:^|\n)\d+ size=(\d+)\n", plain[o + 512:o + 512 + n])
            size = int(m.group(1)) if m else None
        o += 512 + -(-n // 512) * 512
    return o


def surely_read(name, data, at):
    """Whoever reads this signature file to its end needs the byte at this offset."""
    end = tar_end(unpacked(name, data)) + 512
    if bytes(name).lower().endswith((b".gz", b".z")):
        return at < len(data) and len(unpacked(name, data[:at])) + 600 <= end
    return at < end
