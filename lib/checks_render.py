"""C16: listings and collections as text."""
import arch, core, hist as H, names as N
from arch import entry
from checks_sess import (S, abstract, lq, show, pack_item, real_archives, big_archive, wide_archive, meta_item, nsnaps, Q)
from checks_time import NOW, ZONES, clock, secs, year, zone
from core import b64
from names import nb

# narrow characters only, none of them a control character
WORDS = [b"a", b"b", b"c", b"a.b", b"a-b", b"a b", b"A", b"ab", b".a", b"-", b"~", b"x'y", b'x"y', b"x\\y", b"\xc3\xa9", b"\xc3\xa9t\xc3\xa9", b"\xd0\x96", b"\xff",
         b"a\xfe", b"n" * 60, b"m" * 120, b" ", b" a", b"a ", b"?", b".", b"d.x", b"%41", b"|", b"..a", b"...", b"#", b"->", b"\xc2\xa0", b"\xe2\x82\xac"]
WORDS = [w for w in WORDS if w != b"."]
NAMES = [b"root", b"michele", b"u", b"\xc3\xa9mile", b"u" * 31, b"a b", b"?", b"-", b"1000", b"", b"DOM\\user"]


def run_render(ctx, items):
    """items: files, steps, zone (index), now (or any)."""
    recs = []
    for zi, z in enumerate(ZONES):
        mine = [(k, it) for k, it in enumerate(items) if it["zone"] == zi]
        if not mine:
            continue
        for k, it in mine:
            it.setdefault("now", NOW + ctx.rng.randrange(8000000) if ctx.rng.random() < 0.7 else clock(ctx.rng, z))
        res = ctx.run_cases([{"id": k, "op": "session", "now": str(it["now"]), "chunk": 0, "steps": it["steps"],
                              "files": [{"n": list(f["n"]), "b64": b64(f["data"])} for f in it["files"]]} for k, it in mine], env={"TZ": z[0]})
        for k, it in mine:
            x = res[k]
            if core.failed(x):
                ctx.violate(show(it), core.failed(x), None, ("render", packr(it)))
            else:
                recs.append({"id": k, "prop": ctx.prop, "files": [abstract(f) for f in it["files"]], "steps": [lq(s) for s in it["steps"]], "outs": [x["r"]],
                             "zone": zone(z), "now": [it["now"] // 86400, it["now"] % 86400]})
    bad = ctx.validate("TraceRender", recs)
    for r in recs:
        if r["id"] in bad:
            it = items[r["id"]]
            why = bad[r["id"]]
            ctx.violate(dict(show(it), zone=ZONES[it["zone"]][0]), why, [readable(r["outs"][0][w[0] - 1]) for w in why[:3] if w[0] and w[0] <= len(r["outs"][0])], ("render", packr(it)))
    for r in recs[:2]:
        t = [o for o in r["outs"][0] if "text" in o]
        ctx.samples.append({"zone": ZONES[items[r["id"]]["zone"]][0], "text": readable(t[0])["text"] if t else None})
    ctx.notes["lines"] = ctx.notes.get("lines", 0) + sum(len(o["text"]["l"]) for r in recs for o in r["outs"][0] if "text" in o)
    return recs


def readable(o):
    if isinstance(o, dict) and set(o) == {"l", "nl"}:
        return [bytes(x).decode("utf-8", "replace") for x in o["l"]] + ([] if o["nl"] else ["(no newline)"])
    if isinstance(o, dict):
        return {k: readable(v) for k, v in o.items()}
    if isinstance(o, list) and o and all(isinstance(x, dict) for x in o):
        return [readable(x) for x in o]
    return o


def packr(it):
    return dict(pack_item({"files": it["files"], "steps": it["steps"]}), zone=it["zone"], now=it["now"])


def when(rng, z):
    """A time of interest to whoever shows it: years, ends of years, changes of summer time."""
    now = year(NOW)
    k = rng.randrange(8)
    if k == 0:
        return secs(rng.choice([now, now, now + 1])) - rng.choice([z[1], z[2], 0]) + rng.choice([-86400, -61, -1, 0, 1, 60, 86399])
    if k in (1, 2, 3):
        return secs(now) + rng.randrange(366 * 86400)
    if k == 4:
        return secs(rng.choice([now, now - 1, 2007]), rng.choice([3, 4, 10, 11]), rng.randrange(1, 29)) + rng.randrange(86400)
    if k == 5:
        return rng.choice([2 ** 31 - 1, 2 ** 31, 8 ** 11 - 1, 951782399, 951782400, 951868800, 86400 * 400])
    return rng.randrange(366 * 86400, rng.choice([10 ** 9, 2 * 10 ** 9, 8 ** 11]))


def retimed(rng, z, es):
    for e in es:
        if not e["d"]:
            e["t"] = when(rng, z)
    return es


def listing_steps(rng, n, sig=True):
    st = [S("open"), S("coll", text=True)]
    for i in range(n):
        st += [S("entries", i=i, h=0), S("text", h=0, k=rng.choice([0, 1, 2, 5, 1000]))]
    if sig:
        st += [S("sigtext", i=0), S("sigtext", i=1)]
    return st


def users(rng):
    ids = rng.sample([0, 1, 1000, 1001, 65534, 2 ** 31, 12345], 4)
    us = [(i, rng.choice(NAMES)) for i in ids]
    if rng.random() < 0.4:
        us.append((77, None))
    if rng.random() < 0.2:
        us.append((78, b"\xff\xfe"))
    return us


def matrix(rng):
    E = entry
    t = 1434565545
    for a in range(0, 0o10000, 128):           # every permission
        yield [E(b"m%04o" % m, mode=m, ty=rng.choice([48, 53, 50, 54])) for m in range(a, a + 128)]
    yield [E(b"m%06o" % m, mode=m) for m in (0o100644, 0o120777, 0o40755, 0o777777, 0o7777777, 0o10000, 0)]
    yield [E(b"t%d" % x, ty=x, ln=b"l" if x in (49, 50) else None, sz=("exact", 0)) for x in [0] + list(range(48, 56)) + [65, 68, 86, 88, 255]]
    yield [E(b"none1", uid=None, gid=3), E(b"none2", gid=None, uid=4), E(b"none3", mode=None), E(b"none4", uid=None, gid=None, mode=None)]
    yield [E(b"none1", un=None, gn=None, uid=None, gid=None, mode=None, sz=("raw", b"x"), t=t)]
    yield [E(b"x%d" % n, sz=("exact", n)) for n in (0, 1, 9, 10, 99, 100, 999, 1000, 9999, 10000, 100000)]
    yield [E(b"s%d" % i, sz=("sig", b, n, 8)) for i, (b, n) in enumerate([(512, 1), (2048, 5), (65536, 100), (2 ** 32 - 1, 3), (2 ** 32 - 1, 1000), (2 ** 31, 999), (1, 1)])]
    for n in range(0, 33, 4):                  # widths of names
        yield [E(b"n%d" % i, uid=i, gid=i, un=b"u" * i, gn=b"g" * (32 - i)) for i in range(max(1, n), n + 5) if i < 32]
    yield [E(b"p%d" % i, uid=i, gid=i + 50, un=x, gn=x) for i, x in enumerate([b"\xc3\xa9", b"\xc3\xa9\xc3\xa9", b"\xff", b"\xe2\x82\xac", b"a b", b"DOM\\user", b"user@host", b"1000", b"-", b"ab"])]
    yield []
    yield [E(b"")]
    yield [E(b"", ty=53), E(b"a/b/c"), E(b"\xff"), E(b"a\xfe/b"), E(b"p" * 600)]


def count(rng, n):
    """A listing with that many entries, the widest of them anywhere."""
    es = [entry(b"f%05d" % i, un=b"u", gn=b"g", sz=("exact", 0)) for i in range(n)]
    for _ in range(rng.choice([1, 2])):
        i = rng.randrange(n)
        es[i]["un"], es[i]["uid"] = b"somebody", 5
        i = rng.randrange(n)
        es[i]["sz"] = ("sig", 65536, 50, 8)
    return es


def single(rng, es, zi):
    it = meta_item(rng, es)
    return dict(it, steps=[S("open"), S("coll", text=True), S("entries", i=0, h=0), S("text", h=0, k=rng.choice([0, 1, max(0, len(es) - 1)])), S("sigtext", i=0)], zone=zi)


def c16(ctx):
    rng = ctx.rng
    k = 8 if ctx.thorough else 1
    ctx.model_check("MCRender", consts={"MaxRows": "2", "MaxWidth": "4"} if ctx.thorough else None)
    ctx.refuted("MCRender", {"Bug": '"first"'})
    ctx.refuted("MCRender", {"Bug": '"sticky"', "MaxWidth": "1", "MaxRows": "1"})
    items = []
    nz = len(ZONES)
    for d, fs in real_archives():
        for zi in rng.sample(range(nz), 2):
            items.append({"files": fs, "steps": listing_steps(rng, nsnaps(fs)), "zone": zi})
    for i, es in enumerate(matrix(rng)):
        items.append(single(rng, es, i % nz))
    for n in (1, 63, 64, 65, 127, 128, 129, 255, 257, 300, 513, 700):
        for _ in range(k if n > 200 else 2 * k):
            items.append(single(rng, count(rng, n), rng.randrange(nz)))
    for i in range(110 * k):
        zi = rng.randrange(nz)
        n = rng.choice([1, 1, 2, 3])
        h = [retimed(rng, ZONES[zi], es) for es in H.history(rng, n, rng.choice([3, 8, 14, 30]), pool=WORDS, users=users(rng))]
        items.append({"files": H.chain(rng, h, H.seqs(rng, n), mans=False, nvol=rng.choice([0, 1, 3])), "steps": listing_steps(rng, n), "zone": zi})
    # collections: any times, any numbers of volumes
    for i in range(130 * k):
        zi = rng.randrange(nz)
        z = ZONES[zi]
        if i % 3 == 0:
            fs = big_archive(rng, pool=WORDS)
        elif i % 3 == 1:
            fs = chains(rng, z)
        else:
            fs = H.with_contents(rng, N.listing(rng, rng.randrange(1, 7), huge=False))
        # (where the C library knows about summer time)
        if z[3] and not all(ok(f["n"]) for f in fs):
            zi = rng.randrange(7)
        items.append({"files": fs, "steps": [S("open"), S("coll", text=True), S("sigtext", i=rng.randrange(3))], "zone": zi})
    for lens in ([30], [1] * 20, [5, 7, 9]):
        items.append({"files": wide_archive(rng, lens, pool=WORDS), "steps": [S("open"), S("coll", text=True), S("sigtext", i=0)], "zone": rng.randrange(nz)})
    run_render(ctx, items)
    cases = [{"id": 0, "op": "etype", "b": list(range(256))}]
    r = ctx.run_cases(cases)[0]
    if core.failed(r):
        ctx.violate("entry types", core.failed(r))
    else:
        rec = {"id": 0, "types": r["r"]}
        bad = ctx.validate("TraceRender", [rec])
        if bad:
            ctx.violate("entry types", bad[0], rec)


def ok(n):
    import re
    return all(1971 <= int(y) <= 9999 for y in re.findall(rb"(\d{4})\d{4}[tT]\d{6}", bytes(n)))


def chains(rng, z):
    """Sets of any number of volumes, at times of interest."""
    fs = []
    ts = sorted(set(when(rng, z) for _ in range(rng.randrange(2, 12))))
    ts = [t for t in ts if t < 8 ** 10]
    prev = None
    for t in ts:
        full = prev is None or rng.random() < 0.3
        a, b = (t, None) if full else (prev, t)
        nv = rng.choice([0, 0, 1, 1, 2, 3, 9, 10, 11, 30])
        for v in range(1, nv + 1):
            if rng.random() < 0.95:
                fs.append(H.volfile(a, b, v))
        if nv == 0 or rng.random() < 0.8:
            fs.append(H.manfile(rng, a, b))
        if rng.random() < 0.7:
            fs.append(H.sigfile(rng, a, b, [entry(b"x")]))
        prev = t
    rng.shuffle(fs)
    return fs
