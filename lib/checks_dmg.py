"""C13: damaged signature files."""
import arch, core, hist as H, names as N
from arch import entry
from checks_sess import S, abstract, show, pack_item, real_archives
from core import b64


def run_damaged(ctx, items):
    """items: files (what was recorded), data: {index: damaged bytes}, dmg, weak, steps."""
    cases, recs = [], []
    for k, it in enumerate(items):
        cases.append({"id": k, "op": "session", "chunk": it.get("chunk", 0), "steps": it["steps"],
                      "files": [{"n": list(f["n"]), "b64": b64(it["data"].get(i, f["data"]))} for i, f in enumerate(it["files"])]})
    res = ctx.run_cases(cases)
    for k, it in enumerate(items):
        r = res[k]
        if core.failed(r):
            ctx.violate(showd(it), core.failed(r), None, ("damage", packd(it)))
            continue
        recs.append({"id": k, "prop": "C13", "files": [abstract(f) for f in it["files"]], "steps": it["steps"], "outs": [r["r"]],
                     "dmg": [dict(d, n=list(it["files"][d["f"]]["n"])) for d in it["dmg"]],
                     "weak": [list(it["files"][i]["n"]) for i in it["weak"]]})
    bad = ctx.validate("TraceDamage", recs)
    for r in recs:
        if r["id"] in bad:
            it = items[r["id"]]
            ctx.violate(showd(it), bad[r["id"]], r["outs"][0], ("damage", packd(it)))
    ctx.samples += [showd(it) for it in items[:2]]


def showd(it):
    return {"what": it["what"], "files": [bytes(f["n"]).decode("latin1") for f in it["files"]],
            "damaged": {bytes(it["files"][i]["n"]).decode("latin1"): b64(d) for i, d in it["data"].items()}, "dmg": it["dmg"], "weak": it["weak"]}


def packd(it):
    p = pack_item({"files": it["files"], "steps": it["steps"]})
    return dict(it, files=p["files"], data={str(i): b64(d) for i, d in it["data"].items()})


def unpackd(it):
    import base64
    from checks_sess import unpack_item
    return dict(unpack_item(it), data={int(i): base64.b64decode(d) for i, d in it["data"].items()})


def view(n, text=True):
    st = [S("open")]
    for i in range(n):
        st += [S("entries", i=i, h=i), S("dump", h=i)] + ([S("text", h=i)] if text else [])
    return st


class Sig:
    """A signature file that knows where its entries are."""
    def __init__(self, rng, t0, t1, es, style=None, sfx=None):
        self.n = N.sig(t0, t1, rng.choice(["", ".gz"]) if sfx is None else sfx).encode()
        self.es = es
        self.plain, self.ends = arch.sigtar_parts(es, style or H.style_for(es), rng)
        # where the data of each entry ends (padding left out)
        self.data_ends = [e - (-len(arch.payload(x)) % 512) for e, x in zip(self.ends, es)]
        self.starts = [0] + self.ends[:-1]
        self.gz = self.n.endswith(b".gz")
        self.file = {"n": self.n, "k": "sig", "es": es, "data": arch.pack(self.n, self.plain)}

    def before(self, off):
        """Entries that come wholly before an offset."""
        return sum(1 for e in self.data_ends if e <= off)

    def header_at(self, j):
        """Where the header of entry j is (extensions come before it)."""
        o = self.starts[j]
        while self.plain[o + 156] in b"xLKg":
            o += 512 + -(-int(self.plain[o + 124:o + 135], 8) // 512) * 512
        return o

    def packed(self, plain):
        return arch.pack(self.n, plain)


def checksum_ok(h):
    try:
        return int(h[148:156].split(b"\0")[0].strip() or b"0", 8) == sum(h[:148]) + sum(h[156:]) + 256
    except ValueError:
        return False


def fix_checksum(h):
    h = bytearray(h)
    h[148:156] = b" " * 8
    h[148:156] = b"%06o\0 " % sum(h)
    return bytes(h)


def archive(rng, n=None, size=None, plain=None, gz=None):
    n = n or rng.choice([1, 2, 3])
    plain = rng.random() < 0.5 if plain is None else plain
    h = H.history(rng, n, size or rng.choice([2, 4, 8]), plain=plain)
    ts = H.seqs(rng, n)
    return [Sig(rng, ts[0] if i == 0 else ts[i - 1], None if i == 0 else ts[i], es, sfx=gz) for i, es in enumerate(h)]


def case(sigs, what, damaged, dmg, weak=(), chunk=0):
    return {"what": what, "files": [s.file for s in sigs], "data": damaged, "dmg": dmg, "weak": list(weak), "steps": view(len(sigs)), "chunk": chunk}


def D(f, lo, hi, soft=False):
    return {"f": f, "lo": lo, "hi": hi, "soft": soft}


def cut(sigs, f, off):
    s = sigs[f]
    n = len(s.es)
    lo = s.before(off)
    return case(sigs, "cut at %d" % off, {f: s.packed(s.plain[:off])}, [D(f, lo, min(n, lo + 1), True)])


def cut_gz(sigs, f, at):
    s = sigs[f]
    data = s.file["data"][:at]
    have = len(arch.unpacked(s.n, data))
    # (decoders differ in how much they make of the last bytes)
    return case(sigs, "compressed file cut at %d" % at, {f: data}, [D(f, s.before(max(0, have - 300)), min(len(s.es), s.before(have) + 1), True)])


def flip_header(rng, sigs, f, j):
    s = sigs[f]
    o = s.header_at(j)
    h = bytearray(s.plain[o:o + 512])
    while checksum_ok(h):
        for _ in range(rng.choice([1, 1, 3, 30])):
            h[rng.choice([rng.randrange(512), rng.choice([0, 100, 124, 130, 148, 149, 156, 157, 257, 262, 265])])] ^= rng.choice([1, 2, 64, 128, 255])
    if not any(h):
        h[0] = 1
    return case(sigs, "header of entry %d damaged" % j, {f: s.packed(s.plain[:o] + bytes(h) + s.plain[o + 512:])}, [D(f, j, len(s.es))])


def blank_header(rng, sigs, f, j):
    s = sigs[f]
    o = rng.choice([s.header_at(j), s.starts[j]])
    w = rng.choice([512, 512, 1024, len(s.plain) - o])
    return case(sigs, "zeros at entry %d" % j, {f: s.packed((s.plain[:o] + b"\0" * w + s.plain[o + w:])[:len(s.plain)])}, [D(f, j, len(s.es))])


def overwrite(rng, sigs, f, j):
    """Something else from the start of entry j on."""
    s = sigs[f]
    o = s.starts[j]
    junk = rng.choice([bytes(rng.randrange(256) for _ in range(rng.choice([512, 700, 5000]))), b"\xff" * 1024, b"A" * 3000, s.plain[:rng.randrange(1, 512)],
                       b"\x1f\x8b\x08" + b"\0" * 600])
    blk = junk[:512] + b"\0" * (512 - len(junk[:512]))
    if checksum_ok(blk):
        junk = b"\xff" + junk[1:]
    return case(sigs, "garbage from entry %d on" % j, {f: s.packed(s.plain[:o] + junk)}, [D(f, j, len(s.es))])


def strange_entries(rng, sigs, f):
    """Entries that are none of ours lie between the others: they are passed over."""
    s = sigs[f]
    out, o = b"", 0
    for e in s.ends + [None]:
        while rng.random() < 0.5:
            name = rng.choice([b"garbage/x", b"x", b"Signature/a", b"signatures/a", b"snapshot", b"deletedx/a", b"/signature/a", b"./a", b"x" * 99, b"multivol_snapshot",
                               b"\xff\xfe/a", b" signature/a", b"signature", b"..", b"/"])
            body = rng.choice([b"", b"data" * 100])
            out += arch.header(name, len(body), rng.choice([48, 53, 50, 49, 54, 0, 55]), t=rng.randrange(2 ** 31), un=b"", gn=b"",
                               uid=77777, gid=88888) + arch.pad(body)
        if e is not None:
            out += s.plain[o:e]
            o = e
    n = len(s.es)
    return case(sigs, "strange entries", {f: s.packed(out + rng.choice([b"", b"\0" * 512, b"\0" * 1024, b"\0" * 1024 + b"junk" * 300]))}, [D(f, n, n)])


def tail(rng, sigs, f):
    s = sigs[f]
    n = len(s.es)
    end = s.ends[-1] if s.ends else 0
    t = rng.choice([b"", b"\0" * 512, b"\0" * 511, b"\0" * 1024 + b"x" * 513, b"\0" * 1024 + s.plain[:512]])
    data = s.packed(s.plain[:end] + t)
    if rng.random() < 0.4:
        data += rng.choice([b"x", b"\0" * 100, b"\x1f\x8b", bytes(rng.randrange(256) for _ in range(50))]) if s.gz else b""
    return case(sigs, "another end", {f: data}, [D(f, n, n)])


def flip_gz(rng, sigs, f):
    s = sigs[f]
    data = bytearray(s.file["data"])
    for _ in range(rng.choice([1, 1, 2, 5])):
        data[rng.randrange(len(data)) if rng.random() < 0.8 else rng.randrange(min(len(data), 20))] ^= 1 << rng.randrange(8)
    have = arch.unpacked(s.n, bytes(data))
    n = len(s.es)
    if s.plain[:len(have)] == have:
        # everything that can be unpacked is right (what is lost of it is up to the decoder)
        return case(sigs, "compressed bytes damaged", {f: bytes(data)}, [D(f, 0, min(n, s.before(len(have)) + 1), True)])
    return case(sigs, "compressed bytes damaged", {f: bytes(data)}, [], weak=[f])


FIELDS = [(0, 100), (100, 8), (108, 8), (116, 8), (124, 12), (136, 12), (156, 1), (157, 100), (257, 8), (265, 32), (297, 32), (329, 8), (337, 8), (345, 155)]


def wild_value(rng, w):
    return rng.choice([b"\xff" * w, b"\x80" + b"\xff" * (w - 1), b"\x80" + b"\0" * (w - 1), b"\x80" + b"\x7f" * (w - 1), b"7" * w, b" " * w, b"\0" * w, b"-1" + b"\0" * w,
                       b"8" * w, bytes(rng.randrange(256) for _ in range(w)), b"\xbf" + b"\xff" * w, b"\x80" + b"\0" * max(0, w - 9) + b"\xff" * 8,
                       b"\x80" + b"\0" * max(0, w - 9) + b"\x7f" + b"\xff" * 7, b"a/" * w, b"signature/" + b"\xff" * w, b"deleted/", b"snapshot/" + b"/" * w,
                       b"signature//", b"signature/./..", b"snapshot/\0x"])[:w].ljust(w, b"\0")


def wild(rng, sigs, f):
    """Field values nobody writes, with good checksums."""
    s = sigs[f]
    plain = bytearray(s.plain)
    for _ in range(rng.choice([1, 1, 2, 4])):
        j = rng.randrange(len(s.es))
        o = rng.choice([s.header_at(j), s.header_at(j), s.starts[j]])
        h = bytearray(plain[o:o + 512])
        a, w = rng.choice(FIELDS)
        h[a:a + w] = wild_value(rng, w)
        plain[o:o + 512] = fix_checksum(h)
        if rng.random() < 0.4:        # and of the data
            a = o + 512
            b = bytes(rng.choice([0, 255, 1, 127, 128, rng.randrange(256)]) for _ in range(12))
            b = b"\x72\x73\x01\x36" + b[4:] if rng.random() < 0.8 else b
            plain[a:a + 12] = b
    return case(sigs, "wild values", {f: s.packed(bytes(plain))}, [], weak=[f], chunk=rng.choice([0, 0, 1, 100]))


def wild_sizes(rng):
    """The last entry claims to be of any size, its signature to be of any kind."""
    es = [entry(b"", ty=53, t=5, sz=("exact", 0)), entry(b"ok", t=6)]
    s = Sig(rng, H.seqs(rng, 1)[0], None, es)
    U = [0, 1, 4, 511, 512, 2 ** 16, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 5, 2 ** 32 - 4, 2 ** 32 - 1]
    v = lambda: rng.choice(U).to_bytes(4, "big")
    size = rng.choice([0, 11, 12, 13, 2 ** 31, 2 ** 32, 2 ** 33, 2 ** 40, 2 ** 62, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, 2 ** 64 - 512, 2 ** 64 - 513, 8 ** 11 - 1])
    h = bytearray(arch.header(rng.choice([b"signature/z", b"signature/z", b"snapshot/z", b"deleted/z"]), 0, rng.choice([48, 48, 53, 50]), un=b"u", gn=b"g"))
    h[124:136] = b"\x80\0\0\0" + size.to_bytes(8, "big")
    return case([s], "size %d" % size, {0: s.packed(s.plain[:s.ends[-1]] + fix_checksum(h) + b"\x72\x73\x01\x36" + v() + v() + b"x" * rng.choice([0, 500, 5000]))},
                [], weak=[0])


WILD = [b"9223372036854775807", b"-9223372036854775808", b"9223372036854775808", b"99999999999999999999999", b"-1", b"", b"x", b"1e9", b"67768036191676799", b"67768036191676800",
        b"-67768040609740800", b"-67768040609740801", b"0.999999999999999999999", b"18446744073709551615", b"18446744073709551616", b" 1", b"+1", b"\xff", b"-", b"."]


def wild_pax(rng):
    """Values of extension records nobody writes, alone in an archive."""
    es = [entry(b"", ty=53, t=5, sz=("exact", 0)), entry(b"ok", t=6)]
    out = b""
    for _ in range(rng.choice([1, 3, 6])):
        recs = b""
        for _ in range(rng.choice([1, 1, 2, 5])):
            k = rng.choice([b"mtime", b"mtime", b"uid", b"gid", b"size", b"uname", b"gname", b"path", b"linkpath", b"atime", b"GNU.sparse.major", b"GNU.sparse.name", b"hdrcharset", b""])
            recs += rng.choice([arch.pax_record(k, rng.choice(WILD)), arch.pax_record(k, rng.choice(WILD)), b"5 x=\n", b"99999 mtime=1\n", b"0 =\n", b"x", b"12 mtime=1\n",
                                b"99999999999999999999 a=b\n", b"7 a=b\n", b"\xff\xff", arch.pax_record(b"path", rng.choice([b"signature/q", b"", b"/", b"deleted/ok", b"signature/" + b"\xff" * 300]))])
        ty = rng.choice(b"xxxgLK")
        out += arch.header(b"./PaxHeaders/x", len(recs), ty) + arch.pad(recs)
        if rng.random() < 0.9:
            out += arch.header(b"signature/w%d" % rng.randrange(9), 12, rng.choice([48, 53, 50]), un=b"u", gn=b"g") + arch.pad(b"\x72\x73\x01\x36" + b"\xff" * 8)
    t = H.seqs(rng, 1)[0]
    s = Sig(rng, t, None, es)
    return case([s], "wild extension records", {0: s.packed(rng.choice([b"", s.plain[:s.ends[0]]]) + out + s.plain)}, [], weak=[0])


def garbage(rng, sigs, f):
    s = sigs[f]
    g = rng.choice([b"", b"\0" * rng.choice([1, 511, 512, 1024, 20000]), bytes(rng.randrange(256) for _ in range(rng.choice([1, 10, 511, 512, 513, 3000]))), b"\x1f\x8b",
                    b"\x1f\x8b\x08\0\0\0\0\0\0\xff", b"BZh9", b"\x85\x02\x0c\x03encrypted", b"\xff" * 2000])
    if not s.gz and checksum_ok(g[:512].ljust(512, b"\0")) and any(g):
        g = b""
    return case(sigs, "garbage", {f: s.packed(g) if rng.random() < 0.3 else g}, [D(f, 0, len(s.es))])


def c13(ctx):
    rng = ctx.rng
    k = 8 if ctx.thorough else 1
    for shape in (1, 2, 3):
        ctx.model_check("MCDamage", consts={"Shape": str(shape), "N": "3" if ctx.thorough and shape == 1 else "2"})
    ctx.refuted("MCDamage", {"Bug": '"drop"'})
    ctx.refuted("MCDamage", {"Bug": '"stop"', "N": "3"})
    items = []
    # every place around what the format is made of, in small archives
    for _ in range(4 * k):
        sigs = archive(rng, n=rng.choice([1, 2]), size=2, gz="")
        f = rng.randrange(len(sigs))
        s = sigs[f]
        for off in sorted(set(x for e in [0] + s.starts + s.ends + s.data_ends + [s.header_at(j) for j in range(len(s.es))]
                              for x in (e - 1, e, e + 1, e + 11, e + 12, e + 100, e + 511, e + 512, e + 513, e + 520, e + 523, e + 524, e + 525) if 0 <= x <= len(s.plain))):
            items.append(cut(sigs, f, off))
    for _ in range(2 * k):
        sigs = archive(rng, n=2, size=3, gz=".gz")
        f = rng.randrange(2)
        for at in range(0, len(sigs[f].file["data"]) + 1, 1 if ctx.thorough else 5):
            items.append(cut_gz(sigs, f, at))
    for _ in range(110 * k):
        sigs = archive(rng)
        f = rng.randrange(len(sigs))
        s = sigs[f]
        items.append(cut(sigs, f, rng.randrange(len(s.plain) + 1)))
        if s.gz:
            items += [cut_gz(sigs, f, rng.randrange(len(s.file["data"]) + 1)), flip_gz(rng, sigs, f)]
        for _ in range(2):
            j = rng.randrange(len(s.es)) if s.es else None
            if j is not None:
                items.append(rng.choice([flip_header, flip_header, blank_header, overwrite])(rng, sigs, f, j))
        if s.es:
            items += [wild(rng, sigs, f), wild(rng, sigs, f)]
        items.append(rng.choice([garbage, tail, strange_entries])(rng, sigs, f) if s.es else garbage(rng, sigs, f))
        items += [wild_pax(rng), wild_sizes(rng)]
    for _ in range(25 * k):                # two files of a chain at once
        sigs = archive(rng, n=3, size=3)
        if all(s.es for s in sigs):
            a, b = rng.sample(range(3), 2)
            x, y = [rng.choice([flip_header, overwrite])(rng, sigs, g, rng.randrange(len(sigs[g].es))) for g in (a, b)]
            items.append(dict(x, what=x["what"] + ", " + y["what"], data={**x["data"], **y["data"]}, dmg=x["dmg"] + y["dmg"]))
    for d, fs in real_archives():          # files as duplicity wrote them
        sg = [i for i, f in enumerate(fs) if f["k"] == "sig"]
        for i in sg:
            data = fs[i]["data"]
            for at in [0, 1, 10, len(data) // 2, len(data) - 1] + [rng.randrange(len(data)) for _ in range(10 * k)]:
                # (how many entries that leaves is left open)
                items.append({"what": "real file cut at %d" % at, "files": fs, "data": {i: data[:at]}, "dmg": [D(i, 0, len(fs[i]["es"]), True)], "weak": [],
                              "steps": view(len(sg)), "chunk": 0})
    run_damaged(ctx, items)
