"""Manifests: read back, looked up in, damaged."""
import base64
import core, hist as H
from core import b64
from names import limbs

CHUNKS = [8192, 1, 2, 3, 7, 64, 511]


def run_manifests(ctx, items):
    """items: dicts raw, m, items, cuts, q, chunks."""
    cases, recs = [], []
    for k, it in enumerate(items):
        for c in it["chunks"]:
            cases.append({"id": "%d.%d" % (k, c), "op": "manifest", "b64": b64(it["raw"]), "chunk": c, "q": [list(p) for p in it["q"]]})
    res = ctx.run_cases(cases)
    for k, it in enumerate(items):
        runs, dead = [], None
        for c in it["chunks"]:
            x = res["%d.%d" % (k, c)]
            dead = dead or core.failed(x)
            runs.append(x.get("r"))
        if dead:
            ctx.violate(show(it), dead, None, ("manifest", pack(it)))
            continue
        recs.append({"id": k, "raw": list(it["raw"]), "m": [js_man(it["m"])] if it.get("m") else [],
                     "items": [[{"p": list(p), "nb": n} for p, n in it["items"]]] if it.get("items") else [],
                     "cuts": [it["cuts"]] if it.get("items") else [], "q": [list(p) for p in it["q"]], "runs": runs})
    bad = ctx.validate("TraceManifest", recs)
    for r in recs:
        if r["id"] in bad:
            it = items[r["id"]]
            ctx.violate(show(it), bad[r["id"]], r["runs"], ("manifest", pack(it)))
    for it in items[:2]:
        ctx.samples.append({"manifest": it["raw"].decode("latin1")[:300]})
    good = sum(1 for r in recs if r["runs"] and r["runs"][0]["ok"])
    ctx.notes["accepted"] = ctx.notes.get("accepted", 0) + good
    ctx.notes["rejected"] = ctx.notes.get("rejected", 0) + len(recs) - good


def show(it):
    return {"manifest": it["raw"].decode("latin1"), "lookups": [p.decode("latin1") for p in it["q"]], "chunks": it["chunks"]}


def pack(it):
    d = dict(it, raw=b64(it["raw"]), q=[list(p) for p in it["q"]])
    if it.get("m"):
        d["m"] = js_man(it["m"])
        d["packed"] = True
    if it.get("items"):
        d["items"] = [[list(p), n] for p, n in it["items"]]
    return d


def unpack(it):
    d = dict(it, raw=base64.b64decode(it["raw"]), q=[bytes(p) for p in it["q"]])
    if it.get("items"):
        d["items"] = [(bytes(p), n) for p, n in it["items"]]
    return d


def js_man(m):
    if isinstance(m, dict):
        return m
    host, local, vols = m
    o = lambda b: [] if b is None else [limbs(b)]
    return {"host": list(host), "dir": list(local),
            "vols": [{"s": list(s), "sb": o(sb), "e": list(e), "eb": o(eb), "ht": list(ht), "h": list(h)} for s, sb, e, eb, ht, h in vols]}


def man_item(m, q=(), chunks=(8192,), **kw):
    return dict(raw=H.manifest_text(*m), m=m, q=list(q), chunks=list(chunks), **kw)


# ------------------------------------------------------------------------ C07
HOSTS = [b"", b"host", b"dellxps", b"a.b.c", b"h\xc3\xb6st", b"x" * 300, b"Volume", b"1", b":", b"Hostname"]
BLOCKS = [None, 0, 1, 2, 10, 65535, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 63, 2 ** 64 - 1, 12345678901]
HASHES = [(b"SHA1", 20), (b"SHA1", 0x10), (b"MD5", 16), (b"SHA256", 32), (b"X", 1), (b"SHA1", 255)]


def nasty_path(rng):
    k = rng.random()
    if k < 0.15:
        return rng.choice([b".", b"a", b"Volume", b"Hash", b"StartingPath", b"Volume 1:", b"1", b"\\x20", b"\\", b"\\x", b"\\x2", b"\"", b"'", b"a\"b",
                           b"\"a\"", b" ", b"  ", b" a", b"a ", b"a  b", b"\n", b"a\nVolume 2:\n", b"\r", b"a\r", b"\r\n", b"\t", b"\x0b", b"\x0c", b"\x00",
                           b"\xff", b"\xc2\xa0", b"\xe2\x80\xa8", b"\x85", b"\x1c", b"\x7f", b"x" * 4000, b"\\\\x5c", b"/", b"../..", b"%20", b"\xed\xa0\x80"])
    n = rng.choice([1, 2, 3, 5, 9, 30])
    if k < 0.6:
        alpha = rng.choice([b"ab /\\\"'\n", b"a\\x20x", b" \t\r\n\x0b\x0c", b"abc/", b"\xff\xfe\x80a", b"0123 :", b"\"'\\"])
        return bytes(rng.choice(alpha) for _ in range(n))
    return bytes(rng.randrange(256) for _ in range(n))


def rand_man(rng, nvol, simple=False):
    vols = []
    for _ in range(nvol):
        p = (lambda: rng.choice([b"a", b"b/c", b"."])) if simple else (lambda: nasty_path(rng))
        ht, n = rng.choice(HASHES)
        vols.append((p(), rng.choice(BLOCKS), p(), rng.choice(BLOCKS), ht, bytes(rng.randrange(256) for _ in range(n))))
    return (rng.choice(HOSTS), b"" if rng.random() < 0.05 else nasty_path(rng), vols)


def over_quote(rng, b):
    """Quoted, with more bytes escaped than have to be."""
    special = b" \t\n\r\f\v\\\"'"
    return b'"' + b"".join(b"\\x%02x" % c if c in special or rng.random() < 0.3 else bytes([c]) for c in b) + b'"'


def c07(ctx):
    rng = ctx.rng
    k = 8 if ctx.thorough else 1
    ctx.model_check("MCManifest", consts={"MaxVols": "1", "PathLen": "1", "Bytes": "12"})
    ctx.model_check("MCManifest", consts={"MaxVols": "2", "PathLen": "1", "Bytes": "4"} if not ctx.thorough else {"MaxVols": "1", "PathLen": "3", "Bytes": "6"})
    items = []
    ctx.refute_all(*[("MCManifest", {"MaxVols": "1", "PathLen": "1", "Bytes": "5"}, {a: b}) for a, b in
                     (("MustQuote", "OnlySpaces"), ("MustQuote", "NotBackslash"), ("UnescAt", "HalfUnesc"))])
    for _ in range(900 * k):
        m = rand_man(rng, rng.choice([0, 1, 1, 2, 3, 5]))
        items.append(man_item(m, chunks=rng.sample(CHUNKS, 2)))
    for c in range(256):                 # every byte, in every place a path has
        b = bytes([c])
        items.append(man_item((b"h", b"d" + b, [(b + b"x", None, b"x" + b, 1, b"SHA1", b)])))
        items.append(man_item((b"h", b, [(b, 1, b, None, b"SHA1", b + b), (b"a" + b + b"b", None, b + b + b, None, b"SHA1", b)]), chunks=[1]))
    for c in range(256):                 # escaped more than needed: every byte has an escape
        e = b"\\x%02x" % c
        for w in (b'"' + e + b'"', b'"a' + e + b'b"', b'"' + e + b"/" + e + e + b'41"'):
            raw = b"Hostname h\nLocaldir %s\nVolume 1:\n    StartingPath   %s  \n    EndingPath     %s 7\n    Hash SHA1 %02x\n" % (w, w, w, c)
            items.append(raw_item(raw, q=[bytes([c])], chunks=[8192]))
    for _ in range(150 * k):
        m = rand_man(rng, rng.choice([1, 2]))
        items.append(raw_item(H.manifest_text(*m, quote=lambda b: over_quote(rng, b)), chunks=rng.sample(CHUNKS, 2)))
    for a in b" \\\"'\nx0/\xff\r\t":     # every pair of the bytes that matter
        for b in b" \\\"'\nx0/\xff\r\t":
            p = bytes([a, b])
            items.append(man_item((b"h", p, [(p, None, p + b"z", 3, b"SHA1", p)])))
    for b in BLOCKS:
        items.append(man_item((b"h", b"d", [(b"a", b, b"b", None, b"SHA1", b"1"), (b"b", None, b"c", b, b"SHA1", b"2"), (b"b", b, b"c", b, b"SHA1", b"3")])))
    for n in (9, 10, 11, 99, 100, 101, 257):      # many volumes
        items.append(man_item(rand_man(rng, n, simple=True), chunks=[8192, 100]))
    for n in (1001, 2100) + ((4200, 9000) if ctx.thorough else ()):
        vols = [(b"a", None, b"b", rng.choice((None, i)), b"X", bytes([i % 251])) for i in range(n)]
        items.append(man_item((b"h", b"d", vols)))
    run_manifests(ctx, items)
    sessions(ctx, 120 * k)


def sessions(ctx, n):
    """The same through a backup: each snapshot gets its own manifest."""
    import checks_sess as C
    rng, items = ctx.rng, []
    for _ in range(n):
        nb = rng.randrange(1, 5)
        ts = H.seqs(rng, nb)
        fs = []
        for i, t in enumerate(ts):
            t0, t1 = (t, None) if i == 0 else (ts[i - 1], t)
            name = C.N.man(t0, t1, rng.choice(["", "", "", ".gz"] if False else [""])).encode()
            fs.append({"n": name, "k": "man", "raw": H.manifest_text(*rand_man(rng, rng.randrange(0, 4)))})
            fs[-1]["data"] = fs[-1]["raw"]
            fs.append(H.volfile(t0, t1))
        rng.shuffle(fs)
        st = [C.S("open")]
        order = list(range(nb))
        rng.shuffle(order)
        for i in order + order[:1]:
            st += [C.S("manifest", i=i, m=i), C.S("mdump", m=i, q=[])]
        st += [C.S("mdump", m=i, q=[]) for i in range(nb)]
        items.append({"files": fs, "steps": st, "variants": [{"chunk": rng.choice([0, 1, 2, 5, 100])}, {"chunk": 3}]})
    C.run_sessions(ctx, ctx.prop, items)


# ------------------------------------------------------------------------ C08
def packed(items, cuts, host=b"h", local=b"/d"):
    """The manifest of a packing (TLC asserts that it is the specification's)."""
    at = [(i, b) for i, (p, n) in enumerate(items) for b in range(n)]
    assert sum(cuts) == len(at)
    vols, x = [], 0
    w = lambda p: p or b"."
    for k, c in enumerate(cuts):
        (i, a), (j, z) = at[x], at[x + c - 1]
        vols.append((w(items[i][0]), a or None, w(items[j][0]), None if z == items[j][1] - 1 else z, b"SHA1", bytes([k % 256])))
        x += c
    return (host, local, vols)


def cut_up(rng, total):
    cuts = []
    how = rng.choice(["one", "ones", "few", "any"])
    while total:
        c = {"one": total, "ones": 1, "few": rng.randrange(1, 4), "any": rng.randrange(1, total + 1)}[how]
        c = min(c, total)
        cuts.append(c)
        total -= c
    return cuts


def c08(ctx):
    rng = ctx.rng
    k = 8 if ctx.thorough else 1
    items = []
    for t in (1, 2, 3, 4):
        consts = {"Trees": str(t)}
        if ctx.thorough:
            consts.update({"MaxItems": "4", "MaxVols": "4", "MaxBlocks": "3" if t == 3 else "2"})
        elif t in (1, 3):
            consts.update({"MaxItems": "4", "MaxVols": "4"})
        ctx.model_check("MCPacking", consts=consts)
        r = ctx.tlc("GenPacking", ctx.cfg("GenPacking.cfg", dict(consts, MaxItems="3", MaxVols="4" if ctx.thorough else "3")), workers=1)
        ms = r.messages
        for m in ms if ctx.thorough or len(ms) <= 700 else rng.sample(ms, 700):
            its = [(bytes(e["p"]), e["nb"]) for e in m["items"]]
            man = packed(its, m["cuts"])
            q = [bytes(p) for p in m["all"]] + [b"", b".", b"zz", b"\x00", b"a/"[:1] + b"/zzz"]
            items.append(dict(man_item(man, q=list(dict.fromkeys(q))), items=its, cuts=m["cuts"]))
    ctx.refute_all(*[("MCPacking", {"Trees": t}, {"Within": w}) for t, w in (("3", "AsBytes"), ("1", "StartsIn"), ("2", "EndsIn"))])
    for _ in range(250 * k):
        es = H.history(rng, 1, rng.choice([3, 8, 20, 40]), pool=rng.choice(H.POOLS))[0]
        paths = [e["p"] for e in es]
        if rng.random() < 0.3:
            paths = paths[rng.randrange(len(paths)):]     # an incremental backup need not contain the root
        its = [(p, rng.choice([1, 1, 1, 2, 5, 30])) for p in paths]
        cuts = cut_up(rng, sum(n for _, n in its))
        man = packed(its, cuts, rng.choice(HOSTS), b"/" + nasty_path(rng))
        stored = set(paths)
        other = {p + s for p in rng.sample(paths, min(6, len(paths))) for s in (b"-", b"/~~", b"0", b"\x01", b"/\x01") if p + s not in stored}
        other |= {b"~~~~", b"\x01\x01", b"zzzz/y", b"", b"."}
        q = paths + sorted(x for x in other if not x.startswith(b"/"))
        items.append(dict(man_item(man, q=q), items=its, cuts=cuts))
    for m in (200, 300):                 # one file over very many volumes, between two others
        its = [(b"", 1), (b"a", 1), (b"b/huge", m), (b"b!", 2)]
        cuts = [1] * (m + 4) if m == 300 else [2] * ((m + 4) // 2)
        items.append(dict(man_item(packed(its, cuts), q=[b"", b"a", b"b/huge", b"b!", b"b", b"0", b"c"]), items=its, cuts=cuts))
    run_manifests(ctx, items)


# ------------------------------------------------------------------------ C09
def damage(rng, m, every=False):
    """Texts like this manifest, with something wrong."""
    raw = H.manifest_text(*m)
    lines = raw.split(b"\n")[:-1]
    join = lambda ls: b"".join(l + b"\n" for l in ls)
    out = []
    cuts = range(len(raw)) if every else [rng.randrange(len(raw) + 1) for _ in range(3)]
    out += [raw[:c] for c in cuts]
    for i in range(len(lines)) if every else [rng.randrange(len(lines))]:
        out.append(join(lines[:i] + lines[i + 1:]))                      # a line is missing
        out.append(join(lines[:i] + [lines[i]] + lines[i:]))             # twice
        out.append(join(lines[:i] + [b""] + lines[i:]))                  # an empty line
        out.append(join(lines[:i] + [lines[i] + b" "] + lines[i + 1:]))
        out.append(join(lines[:i] + [b" " + lines[i]] + lines[i + 1:]))
        out += [join(lines[:i] + [b" " * n] + lines[i + 1:]) for n in (1, 4)]                        # only blanks
        ws = [w for w in lines[i].split(b" ") if w]
        for j in range(len(ws)):
            out.append(join(lines[:i] + [b" ".join(ws[:j] + ws[j + 1:])] + lines[i + 1:]))       # a word is missing
            for w in ([b"\xff", b"x", ws[j].upper() + b"X", ws[j].lower(), b"\xc3\x28", b"-1", b"0", b"18446744073709551616", b"99999999999999999999",
                       b"1e3", b"0x1", ws[j] + b"\xfe", ws[j][:-1], ws[j] + b"s", ws[j] + ws[j], b"x" + ws[j], b"1:2:", b"::", b"\xe2\x82", b'"\xff"', b'"', b'""', b'"a', b'"\\xff"']
                      if every else rng.sample([b"\xff", b"x", ws[j].lower(), b"-1", b"0", b"18446744073709551616", ws[j] + b"\xfe", b'"', b"12a", ws[j] + b"s"], 2)):
                out.append(join(lines[:i] + [b" ".join(ws[:j] + [w] + ws[j + 1:])] + lines[i + 1:]))
            out.append(join(lines[:i] + [b" ".join(ws[:j + 1] + ws[j:])] + lines[i + 1:]))
        if every:
            out.append(join(lines[:i] + [b" ".join(ws[:1])] + lines[i + 1:]))
    if len(lines) > 3:
        i = rng.randrange(len(lines) - 1)
        out.append(join(lines[:i] + [lines[i + 1], lines[i]] + lines[i + 2:]))
        out.append(join(lines[i:]))
    out.append(raw.replace(b"\n", b"\r\n"))
    out.append(raw.replace(b"\n", b"\n\n"))
    out.append(raw[:-1])
    for _ in range(20 if every else 3):
        b = bytearray(raw)
        for _ in range(rng.choice([1, 1, 1, 2, 5])):
            k = rng.randrange(3)
            x = rng.randrange(len(b) + 1)
            if k == 0 and x < len(b):
                b[x] = rng.choice(b" \n\r\"\\x0\xff:") if rng.random() < 0.6 else rng.randrange(256)
            elif k == 1:
                b[x:x] = bytes([rng.choice(b" \n\r\"\\x0\xff:VH") if rng.random() < 0.7 else rng.randrange(256)])
            elif x < len(b):
                del b[x]
        out.append(bytes(b))
    return out


def renumbered(rng, n):
    """Volumes with numbers of any kind."""
    m = rand_man(rng, n, simple=True)
    lines = H.manifest_text(*m).split(b"\n")[:-1]
    nums = [i for i, l in enumerate(lines) if l.startswith(b"Volume ")]
    how = rng.randrange(7)
    new = list(range(1, n + 1))
    if how == 0:
        rng.shuffle(new)
    elif how == 1:
        new = [x - 1 for x in new]
    elif how == 2:
        new[rng.randrange(n)] += rng.choice([1, 2, 256, 2 ** 32, 2 ** 64 - 1])
    elif how == 3:
        new[rng.randrange(n)] = rng.choice([0, 1, n, n + 1, 2 ** 64])
    elif how == 4:
        new[-1] = new[0]
    elif how == 5:                # the same number again, or one left out, and on from there
        x = rng.randrange(n)
        new = new[:x + 1] + [y - 1 for y in new[x + 1:]] if rng.random() < 0.5 else new[:x] + [new[x - 1]] + new[x + 1:]
    for i, x in zip(nums, new):
        lines[i] = b"Volume " + rng.choice([b"%d", b"%d", b"%03d"]) % x + b":"
    return b"".join(l + b"\n" for l in lines)


def raw_item(raw, q=(), chunks=(8192,)):
    return {"raw": raw, "q": list(q), "chunks": list(chunks)}


def c09(ctx):
    rng = ctx.rng
    k = 8 if ctx.thorough else 1
    ctx.model_check("MCManifest", consts={"MaxVols": "1", "PathLen": "1", "Bytes": "12" if ctx.thorough else "5", "Cutting": "TRUE"})
    items = []
    ctx.refute_all(("MCManifest", {"MaxVols": "1", "PathLen": "1", "Bytes": "2", "Cutting": "TRUE"}, {"VolsFrom": "Lenient"}))
    base = (b"host", b"/home/x", [(b".", None, b"a", None, b"SHA1", b"\x12\xab"), (b"a b", 3, b"c\xff", 12, b"SHA1", b"\xff")])
    texts = damage(rng, base, every=True)
    texts += damage(rng, (b"", b"", [(b"\\", None, b"\n", None, b"MD5", b"")]), every=True)
    for _ in range(90 * k):
        texts += damage(rng, rand_man(rng, rng.choice([0, 1, 2, 3])))
    texts += [renumbered(rng, rng.randrange(1, 6)) for _ in range(170 * k)]
    texts += [b"", b"\n", b"\n\n\n", b"\0", b" ", b"Hostname", b"Hostname\n", b"Hostname\nLocaldir", b"Hostname\nLocaldir\n", b"Hostname h\nLocaldir d\n\n\n",
              b"Hostname h\nLocaldir d\n \n", b"Localdir d\nHostname h\n", b"hostname h\nLocaldir d\n", b"Hostname \xff\nLocaldir d\n", b"Hostname h\nLocaldir \xff\n",
              b"\xff\xfe", b"Hostname h\rLocaldir d\r", b"Hostname \"\nLocaldir \"\n", b"Hostname h\nLocaldir \"\n", b"Hostname h\nLocaldir \\\n",
              b"Hostname h\nLocaldir d\nFilelist 1\n    new  a\n"]
    for _ in range(250 * k):
        n = rng.choice([1, 5, 30, 200])
        kind = rng.random()
        if kind < 0.4:
            texts.append(bytes(rng.randrange(256) for _ in range(n)))
        elif kind < 0.8:      # words of the format in any order
            texts.append(b"".join(rng.choice([b"Hostname", b"Localdir", b"Volume", b"StartingPath", b"EndingPath", b"Hash", b"SHA1", b"h", b"1:", b"2:", b"\n", b"\n",
                                              b"\n", b" ", b" ", b" ", b"0f", b"\"", b"\\x20", b"\xff"]) for _ in range(n)))
        else:
            texts.append(b"Hostname h\nLocaldir d\n" + bytes(rng.randrange(256) for _ in range(n)))
    texts = list(dict.fromkeys(texts))
    items = [raw_item(t, q=[b"a", b""], chunks=[8192] if i % 4 else [8192, rng.choice([1, 2, 3, 17])]) for i, t in enumerate(texts)]
    run_manifests(ctx, items)
    ctx.notes["texts"] = len(texts)
