"""Histories of directory trees and archives made of them (inputs only)."""
import arch, names as N
from arch import entry

POOL = [b"a", b"b", b"c", b"a.b", b"a-b", b"a b", b"a!b", b"a0", b"A", b"ab", b"aa", b"a.", b".a", b"..a", b"-", b"~", b"a\x01", b"0", b"a,b",
        b"a\xff", b"\xff", b"\xc3\xa9", b"\xe6\x97\xa5", b"x'y", b'x"y', b"x\\y", b"x\ty", b"deleted", b"snapshot", b"signature", b"%41",
        b"a#", b"a+b", b"!", b" ", b" a", b"a ", b"\x7f", b"\xf0\x9f\x98\x80", b"n" * 60, b"m" * 120, b"CON", b"...", b"*", b"?"]
POOLS = [[b"a", b"b", b"a.b", b"a-b", b"a0"], [b"a", b"a ", b"a!", b"a.", b"a0", b"ab"], [b"d", b"d.x", b"d-y", b"e"], POOL, POOL]
MODES = [0o644, 0o755, 0o600, 0, 0o7777, 0o4755, 0o2755, 0o1777, 0o100644, 0o40755, 0o777]


def rand_entry(rng, p, isdir, plain, users):
    if plain:
        return entry(p, t=1434500000 + rng.randrange(10 ** 6), ty=53 if isdir else 48,
                     sz=("exact", 0) if isdir else ("sig", 512, rng.randrange(0, 4), 8))
    uid, un = rng.choice(users)
    gid, gn = rng.choice(users)
    gid, gn = gid + 1, gn and gn + b"g"
    if un is None or gn is None:
        un = gn = None
    t = rng.choice([1434500000 + rng.randrange(10 ** 6), 0, 1, 8 ** 11 - 1, rng.randrange(0, 2 ** 32), 2 ** 31, rng.randrange(2 ** 31)])
    ty, ln, sz = 48, None, None
    if isdir:
        ty, sz = 53, ("exact", 0)
    else:
        k = rng.randrange(10)
        if k < 5:
            blk, ss = rng.choice([(512, 8), (512, 8), (1024, 8), (2048, 16), (1, 8), (300, 4), (65536, 8), (2 ** 31, 8), (2 ** 32 - 1, 8)])
            sz = ("sig", blk, rng.choice([0, 1, 2, 3, rng.randrange(0, 9)]), ss)
        elif k == 5:
            sz = ("raw", rng.choice([b"", b"rs", b"\x72\x73\x01\x36", b"\x72\x73\x01\x36" + b"\0\0\x02\0", b"\0" * 12, b"\x52\x73\x01\x36\0\0\2\0\0\0\0\x08"]))
        elif k == 6:
            ty, ln, sz = 50, rng.choice([b"target", b"../a/b", b"/abs/olute", b"t" * 130, b"\xff\xfe", b"a b"]), ("exact", 0)
        elif k == 7:
            ty, sz = rng.choice([54, 51, 52]), ("exact", 0)
        elif k == 8:
            ty, ln, sz = 49, b"some/where", ("exact", 0)
        else:
            sz = ("exact", rng.choice([0, 1, 511, 512, 513, rng.randrange(0, 3000)]))
    if un is None and (uid >= 8 ** 7 or gid >= 8 ** 7 or len(p) > 85 or t >= 8 ** 11 or len(ln or b"") > 100):
        un = gn = b""           # only old headers lack names altogether
    return entry(p, t=t, uid=uid, gid=gid, mode=rng.choice(MODES), un=un, gn=gn, ty=ty, ln=ln, sz=sz)


USERS = [(0, b"root"), (1000, b"michele"), (1001, b"anna"), (65534, b"nobody"), (8 ** 7, b"big"), (2 ** 31, b"bigger"), (1234, b"\xc3\xa9mile"),
         (1235, b"u" * 31)]


def tweak(rng, e, users):
    """The same entry with one thing changed, perhaps nothing that a quick look would tell."""
    e = dict(e)
    k = rng.choice(["t", "mode", "uid", "gid", "ln", "ty", "sz", "no"])
    if k == "t":
        e["t"] = max(0, min(8 ** 11 - 1, e["t"] + rng.choice([-1, 1, 60, 86400])))
    elif k == "mode":
        e["mode"] = e["mode"] ^ rng.choice([1, 0o100, 0o4000])
    elif k in ("uid", "gid"):
        u, n = rng.choice([u for u in users if u[0] < 8 ** 6 and u[1] is not None] or [(7, b"seven")])
        e[k] = u if k == "uid" else u + 1
        if e["un"] is not None:
            e["un" if k == "uid" else "gn"] = n if k == "uid" else n + b"g"
    elif k == "ln" and e["ln"] is not None:
        e["ln"] = rng.choice([b"elsewhere", e["ln"][:90] + b"x", b"x" + e["ln"][1:90]])
    elif k == "ty" and e["ty"] in (54, 51, 52):
        e["ty"] = {54: 51, 51: 52, 52: 54}[e["ty"]]
    elif k == "sz" and e["ty"] == 48:
        if e["sz"][0] == "sig":
            e["sz"] = e["sz"][:2] + (e["sz"][2] + 1,) + e["sz"][3:]
        elif e["sz"][0] == "exact":
            e["sz"] = ("exact", e["sz"][1] + 1)
    return e


def key(p):
    return [c for c in p.split(b"/") if c]


def history(rng, n, size, plain=False, pool=None, users=None):
    """n backups of a changing tree: what each signature file records."""
    pool = pool or rng.choice(POOLS)
    users = users or rng.sample(USERS, 3)
    tree, out = {}, []
    seen = []
    for i in range(n):
        old = dict(tree)
        dirty = set()
        if i == 0:
            tree[b""] = rand_entry(rng, b"", True, plain, users)
            dirty.add(b"")
        for _ in range(size if i == 0 else rng.choice([0, 1, 2, 3, size])):
            k = rng.random()
            dirs = [p for p in tree if tree[p]["ty"] == 53 and p.count(b"/") < 4]
            if k < 0.15 and i:
                p = rng.choice(list(tree))
                tree[p] = tweak(rng, tree[p], users)
                dirty.add(p)
            elif k < 0.6 or i == 0 or len(tree) == 1:
                d = rng.choice(dirs)
                p = (d + b"/" if d else b"") + rng.choice(pool)
                if rng.random() < 0.2 and seen:
                    p = rng.choice(seen)        # something that was there before
                    par = p.rsplit(b"/", 1)[0] if b"/" in p else b""
                    if par not in tree or tree[par]["ty"] != 53:
                        continue
                if p in tree and tree[p]["ty"] == 53 and any(q.startswith(p + b"/") for q in tree):
                    isdir = True
                else:
                    isdir = rng.random() < 0.4
                if p in tree and rng.random() < 0.5:
                    tree[p] = tweak(rng, tree[p], users)
                else:
                    tree[p] = rand_entry(rng, p, isdir, plain, users)
                dirty.add(p)
                seen.append(p)
                if rng.random() < 0.5:
                    tree[d] = rand_entry(rng, d, True, plain, users)
                    dirty.add(d)
            else:
                p = rng.choice([q for q in tree if q])
                sub = [q for q in tree if q == p or q.startswith(p + b"/")]
                for q in sub:
                    del tree[q]
                if rng.random() < 0.2:          # a file takes the place of the directory, or back
                    tree[p] = rand_entry(rng, p, False, plain, users)
                    dirty.add(p)
        es = [tree[p] for p in dirty if p in tree] + [entry(p, d=True) for p in old if p not in tree]
        if rng.random() < 0.03:                 # deleted although never there: harmless
            q = rng.choice(pool) + b"~gone"
            if q not in tree and q not in old:
                es.append(entry(q, d=True))
        es.sort(key=lambda e: key(e["p"]))
        out.append(es)
    return out


def seqs(rng, n, gap=None):
    t = 1434565545 + rng.randrange(0, 10 ** 7)
    out = []
    for _ in range(n):
        out.append(t)
        t += gap or rng.choice([1, 60, 3600, 86400, 10 ** 6])
    return out


SIGSFX = [".gz", ".gz", ".gz", "", ".z"]
STYLES = ["gnu", "ustar", "pax", "v7"]


def style_for(es):
    return STYLES if all(b"\n" not in e["p"] for e in es) else ["gnu", "ustar", "v7"]


def sigfile(rng, t0, t1, es, sfx=None, style=None):
    n = N.sig(t0, t1, rng.choice(SIGSFX) if sfx is None else sfx).encode()
    return {"n": n, "k": "sig", "es": es, "data": arch.pack(n, arch.sigtar(es, style or style_for(es), rng))}


def manifest_text(host, local, vols, quote=None):
    """vols: (start path, block, end path, block, hash type, hash)."""
    quote = quote or globals()["quote"]
    out = b"Hostname " + host + b"\nLocaldir " + quote(local) + b"\n"
    for i, (s, sb, e, eb, ht, h) in enumerate(vols):
        blk = lambda b: b" " if b is None else b"%d" % b
        out += b"Volume %d:\n    StartingPath   %s %s\n    EndingPath     %s %s\n    Hash %s %s\n" % (
            i + 1, quote(s), blk(sb), quote(e), blk(eb), ht, h.hex().encode())
    return out


def quote(b):
    special = b" \t\n\r\f\v\\\"'"
    if b and not any(c in special for c in b):
        return b
    return b'"' + b"".join(b"\\x%02x" % c if c in special else bytes([c]) for c in b) + b'"'


def small_manifest(rng, nvol, tag=b""):
    vols = []
    for i in range(nvol):
        vols.append((b"." if i == 0 else b"p%d" % i, None, b"p%d%s" % (i + 1, tag), rng.choice([None, None, i]), b"SHA1",
                     bytes(rng.randrange(256) for _ in range(20))))
    return manifest_text(b"host", b"/home/me " + tag, vols)


def manfile(rng, t0, t1, nvol=1, sfx="", raw=None):
    n = N.man(t0, t1, sfx).encode()
    raw = raw if raw is not None else small_manifest(rng, nvol, b"%d" % ((t1 or t0) % 1000))
    return {"n": n, "k": "man", "raw": raw, "data": raw}


def volfile(t0, t1, v=1, sfx=".gz"):
    return {"n": N.vol(t0, t1, v, sfx).encode(), "k": "vol", "data": b"not a volume"}


def chain(rng, hist, times, sfx=None, style=None, nvol=1, mans=True, retry=0.0):
    """The files of a chain: full backup and increments, some of them begun before and given up."""
    fs = []
    for i, es in enumerate(hist):
        a, b = (times[0], None) if i == 0 else (times[i - 1], times[i])
        if i and b - a > 1 and rng.random() < retry:
            t = rng.randrange(a + 1, b)
            if rng.random() < 0.8:
                fs.append(sigfile(rng, a, t, rng.choice([es, es[:len(es) // 2], hist[i - 1], []]), sfx, style))
            if rng.random() < 0.5:
                fs.append(manfile(rng, a, t, 1, ".part"))
            fs.append(volfile(a, t, 1))
        fs.append(sigfile(rng, a, b, es, sfx, style))
        nv = rng.choice(nvol) if isinstance(nvol, list) else nvol
        if mans:
            fs.append(manfile(rng, a, b, nv))
        for v in range(1, nv + 1):
            fs.append(volfile(a, b, v))
    return fs


def from_tlc(rng, m):
    """An archive reached by the writer model, with contents."""
    fs = []
    for f in m["files"]:
        n = bytes(f["n"])
        i = f["i"]
        t0 = m["log"][i - 1]
        if f["k"] == "sig":
            es = [entry(bytes(e["p"]), d=e["d"], t=e["t"][0] * 86400 + e["t"][1], ty=48 if e["p"] else 53,
                        sz=("sig", 512, i, 8) if e["p"] else ("exact", 0)) for e in m["recs"][i - 1]]
            data = b"\x85\x02encrypted" if n.endswith((b".gpg", b".g")) else arch.pack(n, arch.sigtar(es, ["gnu", "ustar"], rng))
            fs.append({"n": n, "k": "sig", "es": es, "data": data})
        elif f["k"] == "man":
            raw = small_manifest(rng, t0["nvol"], b"%d" % i)
            fs.append({"n": n, "k": "man", "raw": raw, "data": raw})
        else:
            fs.append({"n": n, "k": "vol", "data": b"v"})
    return fs


# ------------------------------------------------------- contents for given names
import re
SIGRE = re.compile(r"duplicity-(?:full-signatures\.(\w{16})|new-signatures\.(\w{16})\.to\.(\w{16}))\.", re.I)
_tag = [0]


def tagged(rng, i, prev, full):
    """What backup number i records: it adds n<i>, changes m and deletes n<prev>."""
    es = [entry(b"", t=1434000000 + i, ty=53), entry(b"m", t=1434000000 + i, sz=("sig", 512, i % 7, 8)),
          entry(b"n%d" % i, t=1434000000 + i, sz=("exact", i % 5))]
    if not full and prev is not None:
        es.append(entry(b"n%d" % prev, d=True))
    if i % 3 == 0:
        es.append(entry(b"n%d/x" % i, t=1434000000 + i))
        es.append(entry(b"n%d.y" % i, t=1434000000 + i))
    return sorted(es, key=lambda e: key(e["p"]))


def with_contents(rng, names, mani=None):
    """Files for a listing of names: every signature file is recognisable by what it lists."""
    fs, i = [], 0
    names = [bytes(N.nb(n)) for n in names]
    order = sorted(names, key=lambda n: (SIGRE.match(n.decode("latin1")) is None, n[::-1]))
    num = {}
    sigs = [n for n in names if SIGRE.match(n.decode("latin1"))]

    def end(n):
        m = SIGRE.match(n.decode("latin1"))
        return (m.group(3) or m.group(1)).lower()
    sigs.sort(key=end)
    for i, n in enumerate(sigs):
        num[n] = i + 1
    for n in names:
        low = n.lower()
        if n in num:
            i = num[n]
            full = SIGRE.match(n.decode("latin1")).group(1) is not None
            es = tagged(rng, i, rng.choice([i - 1, i - 2]) if i > 2 else i - 1 if i > 1 else None, full)
            data = b"\x85\x02encrypted" if low.endswith((b".gpg", b".g")) else arch.pack(n, arch.sigtar(es, ["gnu", "ustar", "pax"], rng))
            fs.append({"n": n, "k": "sig", "es": es, "data": data})
        elif b".manifest" in low:
            raw = mani(n) if mani else small_manifest(rng, rng.choice([0, 1, 1, 2]), b"%d" % (len(fs) % 10))
            fs.append({"n": n, "k": "man", "raw": raw, "data": raw})
        else:
            fs.append({"n": n, "k": "vol", "data": b"v"})
    return fs
