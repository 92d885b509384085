"""C03-C06: what the library understands from a listing of names."""
import re
import core, names as N
from names import nb, limbs


def run_listings(ctx, prop, items, text=False):
    """items: list of (names as byte lists, volume numbers as strings, number of orders or list of permutations)."""
    cases, metas = [], []
    for k, (ns, q, orders) in enumerate(items):
        for o in range(norders(orders)):
            order = list(ns)
            if isinstance(orders, list):
                order = [ns[i] for i in orders[o]]
            elif o == 1:
                order.reverse()
            elif o > 1:
                ctx.rng.shuffle(order)
            cases.append({"id": "%d.%d" % (k, o), "op": "collections", "names": order, "q": q, "text": text})
    res = ctx.run_cases(cases)
    by = {c["id"]: c for c in cases}
    recs = []
    for k, (ns, q, orders) in enumerate(items):
        outs = []
        for o in range(norders(orders)):
            r = res["%d.%d" % (k, o)]
            why = core.failed(r)
            if why:
                ctx.violate(show(by["%d.%d" % (k, o)]), why, None, ("listing", [ns, q, orders]))
                outs = None
                break
            outs.append(r["r"])
        if outs:
            recs.append({"id": k, "prop": prop, "names": ns, "q": [limbs(x) for x in q], "outs": outs})
    bad = ctx.validate("TraceColl", recs)
    for r in recs:
        if r["id"] in bad:
            ctx.violate(show(by["%d.0" % r["id"]]), bad[r["id"]], r["outs"][:2], ("listing", list(items[r["id"]])))
    for r in recs[:2]:
        ctx.samples.append({"names": [bytes(n).decode("latin1") for n in r["names"]][:12],
                            "chains": len(r["outs"][0]["chains"]), "snapshots": r["outs"][0]["n"]})
    ctx.notes["distinct_listings"] = len({str(sorted(map(str, i[0]))) for i in items})
    return recs


def norders(o):
    return len(o) if isinstance(o, list) else o


def show(c):
    return {"op": c["op"], "names": [bytes(n).decode("utf-8", "backslashreplace") for n in c["names"]], "case": c}


def assemblies(ctx, pool, size):
    """Every listing of up to size files out of a pool, as enumerated by TLC."""
    r = ctx.tlc("GenAssembly", ctx.cfg("GenAssembly.cfg", {"Pool": str(pool), "Size": str(size)}), workers=1)
    return [m["ns"] for m in r.messages]


def archives(ctx, num, consts=None, seed_off=0, depth=44):
    """Archives reached by the writer model (TLC -simulate)."""
    path = ctx.cfg("GenArchive.cfg", consts)
    r = ctx.tlc("GenArchive", path, workers=1,
                args=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(ctx.seed * 1000 + seed_off)])
    seen, out = set(), []
    for m in r.messages:
        k = str(m["files"])
        if k not in seen:
            seen.add(k)
            out.append(m)
    ctx.notes["writer_behaviours"] = ctx.notes.get("writer_behaviours", 0) + num
    return out


Q = [str(i) for i in range(0, 15)] + ["255", "256", "18446744073709551615"]


def gen_items(ctx, n, prop):
    rng = ctx.rng
    items = []
    for _ in range(n):
        ns = [nb(x) for x in N.listing(rng, rng.randrange(1, 8), distinct_ends=rng.random() < 0.9)]
        rng.shuffle(ns)
        items.append((ns, Q, 1))
    return items


def archive_items(ctx, num, consts=None, off=0, cap=10**9):
    its = []
    for m in archives(ctx, num, consts, off)[:cap]:
        ns = [f["n"] for f in m["files"]]
        if ctx.rng.random() < 0.1:
            ns = [nb(n) for n in N.recase_some(ctx.rng, [bytes(n).decode("latin1") for n in ns])]
        ctx.rng.shuffle(ns)
        its.append((ns, Q, 1))
    return its


def c03(ctx):
    big = ctx.thorough
    ctx.prove("ChainProof")
    ctx.model_check("MCArchive", consts={"MaxBackups": "5"} if big else None, timeout=2000)
    if big:
        ctx.model_check("MCArchive", consts={"MaxVols": "2"}, timeout=2000)
        ctx.model_check("MCArchive", consts={"MaxLoss": "2"}, timeout=2000)
    ctx.model_check("MCArchive", consts={"MaxBackups": "4", "Cache": "TRUE", "MaxLoss": "1" if big else "0"})
    ctx.refute_all(*[("MCArchive", {}, {a: b}) for a, b in (("Replaces", "NeverReplaces"), ("Appends", "LateAppends"), ("BackupChains", "AsTheyBegan"), ("AddSet", "OrphansToo"))])
    k = 10 if big else 1
    items = archive_items(ctx, 500 * k, {"MaxLoss": "0"}, 1) + archive_items(ctx, 400 * k, None, 2) \
        + archive_items(ctx, 200 * k, {"Cache": "TRUE"}, 3) + archive_items(ctx, 60 * k, {"MaxBackups": "14", "Every": "25"}, 4)
    ctx.notes["from_writer_model"] = len(items)
    items += gen_items(ctx, 700 * k, "C03")
    for n in [2, 3, 4, 5, 6, 8, 11, 15, 20] * (16 * k):
        ns = [nb(x) for x in N.long_chain(ctx.rng, n)]
        if ctx.rng.random() < 0.2:
            ns += [nb(x) for x in N.long_chain(ctx.rng, ctx.rng.randrange(1, 4))]
        ctx.rng.shuffle(ns)
        items.append((dedup(ns), Q, 1))
    for _ in range(120 * k):
        ns = [nb(x) for x in overlaps(ctx.rng)]
        ctx.rng.shuffle(ns)
        items.append((ns, Q, 1))
    run_listings(ctx, "C03", items)


def perms(n):
    import itertools
    return [list(p) for p in itertools.permutations(range(n))]


def c04(ctx):
    k = 8 if ctx.thorough else 1
    rng = ctx.rng
    items = []
    for n in range(350 * k):                      # whole listings, shuffled
        ns = [nb(x) for x in N.listing(rng, rng.randrange(2, 7), distinct_ends=rng.random() < 0.6)]
        items.append((ns, Q, 6))
    for n in range(120 * k):                      # every permutation of small listings
        ns = [nb(x) for x in N.listing(rng, rng.randrange(1, 4), distinct_ends=rng.random() < 0.5, vols=rng.choice([0, 1, 1, 2]))]
        rng.shuffle(ns)
        # all the files of a set matter most: keep files of few sets
        ns = sorted(ns[:5])
        rng.shuffle(ns)
        ns = ns[:5 if ctx.thorough else 4]
        items.append((ns, Q, perms(len(ns))))
    for pool in (1, 2):
        consts = {"Pool": str(pool), "Size": "5" if ctx.thorough else "4"}
        ctx.model_check("MCAssembly", consts=consts)
        for ns in assemblies(ctx, pool, 4 if ctx.thorough else 3):
            items.append((ns, ["1", "2", "300", "0"], perms(len(ns))))
    ctx.refute_all(*[("MCAssembly", {}, {a: b}) for a, b in (("BetterMan", "LastManifest"), ("BetterMan", "WholeOrFirst"), ("BetterVol", "FirstVolume"))])
    for n in range(60 * k):                       # every permutation of the files of one set
        ns = [nb(x) for x in one_set(rng)]
        items.append((ns, Q, perms(len(ns))))
    for m in archives(ctx, 150 * k, {"MaxLoss": "1"}, 5) + archives(ctx, 100 * k, {"Cache": "TRUE"}, 6):
        items.append(([f["n"] for f in m["files"]], Q, 6))
    run_listings(ctx, "C04", items, text=True)


def one_set(rng):
    """Some of the files one set may have, including contradictory ones."""
    t = sorted(N.times(rng, 2))
    k = (t[0], None) if rng.random() < 0.6 else (t[0], t[1])
    pool = [N.man(*k), N.man(*k, sfx=".part"), N.man(*k, sfx=".gpg"), N.sig(*k), N.sig(*k, sfx=".part"), N.sig(*k, sfx=".gpg"),
            N.sig(*k, sfx=".part.gz"), N.vol(*k, 1), N.vol(*k, 1, ".gpg"), N.vol(*k, 1, ""), N.vol(*k, 2), N.vol(*k, "01"), N.vol(*k, 300),
            N.man(*k).upper()]
    ns = rng.sample(pool, rng.choice([2, 3, 3, 4]))
    if k[1] is not None:
        ns.append(N.vol(t[0], None, 1))
    return ns


def overlaps(rng):
    """Sets between any of a few instants, so that many begin or end together."""
    ts = sorted(N.times(rng, rng.randrange(3, 6)))
    pairs = [(a, b) for i, a in enumerate(ts) for b in ts[i + 1:]]
    keys = [(ts[0], None)] + rng.sample(pairs, rng.randrange(1, min(len(pairs), 7) + 1))
    keys += [(t, None) for t in ts[1:] if rng.random() < 0.15]
    ns = []
    for k in keys:
        own = [N.vol(*k, v, rng.choice(["", ".gz", ".gpg"])) for v in rng.sample(range(1, 6), rng.choice([0, 1, 2, 3]))]
        own += [f for f in (N.man(*k, rng.choice(["", "", ".gpg", ".part"])), N.sig(*k, rng.choice(["", ".gz", ".part"]))) if rng.random() < 0.6]
        ns += own or [N.man(*k)]
    return ns


# ------------------------------------------------------------------ C05: names
SUFFIX = ["", ".gz", ".gpg", ".g", ".z", ".part", ".part.gz", ".gz.gpg", ".gpg.gz", ".", "..gz", ".txt", ".gzx", "gz", "x", ".Z",
          ".partial", ".gz.part", "\n", ".\n", ".gz ", " ", ".gz\0", ".vol2", ".vol2.difftar", ".manifest", ".sigtar", ".to."]


# what copies, backups of editors, transfers and synchronisers add to names
TAILS = ["~", "~1~", "#", ",v", " (1)", "(1)", "-1", "_1", ".1", ".bak", ".BAK", "_old", ".old", ".tmp", "tmp", "+", "$", "\t", "\r", "\r\n", "%", "&", "=", "@", "!", "?", "*", "'", '"', "\\",
         "-conflict", ".filepart", ".crdownload", ".torrent", ":Zone.Identifier", ";1", ".gz~", ".asc", ".sig", ".md5", ".xz", ".bz2", ".gz.1", ".part~", ".part.gpg", ".partgz", "part", "\u00a0",
         "\u200b", "\ufeff", "\u0085"]
HEADS = ["#", "~", ".", "._", ".#", "old-", "copy of ", "@", "\t", " ", "\n", "\ufeff", "\u200b", "x", "duplicity-", "dup-", "prefix.", "./", "../", "a/", "/", "C:", "\\", "-", "'", '"', "\0"]


def full_name(rng, kind, t0, t1, sfx=None, num=None):
    sfx = rng.choice(SUFFIX) if sfx is None else sfx
    if kind == "vol":
        return N.vol(t0, t1, num if num is not None else N.volnum(rng), sfx)
    return {"man": N.man, "sig": N.sig}[kind](t0, t1, sfx)


BADTIMES = ["20150229T000000Z", "20160230T000000Z", "20150431T101010Z", "20151301T000000Z", "20150001T000000Z", "20150100T000000Z",
            "20150132T000000Z", "20150101T240000Z", "20150101T236000Z", "20150101T235960Z", "20150101T235961Z", "19000229T000000Z",
            "2015010T000000Z", "201501011T000000Z", "20150101 000000Z", "20150101T000000", "20150101T000000+", "20150101T000000ZZ",
            "20150101T000000Z0", " 20150101T00000Z", "+2150101T000000Z", "-2150101T000000Z", "2015 1 1T000000Z", "2015 101T 00000Z",
            "20150101T0000 0Z", "20150101Z000000T", "0x150101T000000Z", "2015.101T000000Z", "99999999T999999Z", "00000000T000000Z",
            "20000230T000000Z", "21000229T000000Z", "20150101T00000aZ", "", "Z", "20150101T000000UTC", "2015-01-01T00:00:00Z",
            "20150931T000000Z", "20151131T000000Z", "20150631T000000Z", "20150131T246060Z", "20150101T120060Z"]
GOODTIMES = ["20160229T235959Z", "20000229T000000Z", "00010101T000000Z", "99991231T235959Z", "19700101T000000Z", "19691231T235959Z",
             "20151231T235959Z", "20150131T000000Z", "24000229T120000Z", "19000228T235959Z", "00000229T000000Z", "00991231T000001Z"]
T1 = "20150617T182545Z"
T2 = "20150617T182629Z"


def surround(name):
    """A listing in which the name makes a difference if it is recognised."""
    return ["duplicity-full.%s.vol1.difftar.gz" % T1, "duplicity-full-signatures.%s.sigtar.gz" % T1, name]


# (only to choose what goes together in a listing)
PLAUSIBLE = re.compile(r"duplicity-(full|inc|full-signatures|new-signatures)\.(\d{8}T\d{6}Z\.to\.)?\d{8}T\d{6}Z\.(vol\d+\.difftar|manifest|sigtar)(\..*)?$", re.I)


def c05_names(ctx):
    rng = ctx.rng
    k = 6 if ctx.thorough else 1
    out = []
    # grammatical names, all kinds, suffixes, any case
    for _ in range(700 * k):
        t0 = N.rand_time(rng)
        kind = rng.choice(["vol", "man", "sig"])
        if rng.random() < 0.5:
            nm = full_name(rng, kind, t0, None)
        else:
            t0, t1 = sorted([t0, rng.choice([N.rand_time(rng), 1434565546 + rng.randrange(0, 10**9)])])
            nm = full_name(rng, kind, t0, t1)
            if rng.random() < 0.8:     # from the full backup that is there
                if t1 > 1434565545:
                    nm = nm.replace(N.stamp(t0), T1, 1)
        out.append(N.recase(rng, nm) if rng.random() < 0.3 else nm)
    bases = ["duplicity-full.%s.vol1.difftar.gz" % T2, "duplicity-full.%s.manifest" % T2, "duplicity-full.%s.manifest.part" % T2,
             "duplicity-inc.%s.to.%s.vol12.difftar.gpg" % (T1, T2), "duplicity-inc.%s.to.%s.manifest.gpg" % (T1, T2),
             "duplicity-full-signatures.%s.sigtar.gz" % T2, "duplicity-new-signatures.%s.to.%s.sigtar.part" % (T1, T2)]
    # times: valid and not, in every kind of name
    for t in BADTIMES + GOODTIMES:
        for b in bases:
            out.append(b.replace(T2, t))
    # one edit of a valid name: every byte removed, replaced, doubled, every position with an inserted byte, every prefix
    edits = []
    for b in bases:
        e = set()
        for i in range(len(b)):
            e.add(b[:i] + b[i + 1:])
            e.add(b[:i] + b[i] + b[i:])
            e.add(b[i:])
            e.add(b[:i])
            for c in (".", "0", "9", "x", "/", " ", "-", "_", "Z", "T"):
                e.add(b[:i] + c + b[i + 1:])
                e.add(b[:i] + c + b[i:])
        edits += sorted(e)
    out += edits if ctx.thorough else rng.sample(edits, 600)
    # letters and digits that only look alike
    for b in bases:
        for a, c in (("k", "\u212a"), ("s", "\u017f"), ("S", "\u017f"), ("i", "\u0130"), ("i", "\u0131"), ("1", "\u0661"), ("1", "\uff11"),
                     ("0", "\u0660"), ("z", "\uff5a"), (".", "\uff0e"), ("-", "\u2010"), ("2", "\u00b2")):
            for bb in (b, b.lower()):
                for i in [i for i, x in enumerate(bb) if x == a][:3]:
                    out.append(bb[:i] + c + bb[i + 1:])
    # bytes that are not text, arbitrary bytes
    for _ in range(60 * k):
        b = bytearray(rng.choice(bases).encode())
        i = rng.randrange(len(b) + 1)
        b[i:i] = rng.choice([b"\xff", b"\xc3", b"\xc0\xae", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xc3\xa9", b"\xe2\x82", b"\x80", b"\n", b"\r", b"\0"])
        out.append(bytes(b))
    for b in bases:
        out += [b.encode() + x for x in (b"\xff", b"\xc3\xa9", b".\xff", b".\xc3\xa9", b"\n", b".\n", b"/", b"\0")]
    for _ in range(40 * k):
        out.append(bytes(rng.randrange(256) for _ in range(rng.randrange(0, 40))))
    # volume numbers
    for num in N.HUGE + ["0", "00", "007", "1", "+1", "-1", "1a", "a", "", " 1", "1 ", "1.0", "18446744073709551616", "9" * 40, "0" * 40 + "3"]:
        out += [N.vol(1434565545, None, num), "duplicity-inc.%s.to.%s.vol%s.difftar.gz" % (T1, T2, num)]
    for b in bases:
        for x in SUFFIX + TAILS:
            out.append(b + x)
        for x in HEADS:
            out.append(x + b)
    return out, edits


def c05(ctx):
    rng = ctx.rng
    ctx.model_check("MCNaming", consts={"Wide": "TRUE"} if ctx.thorough else None)
    ctx.refute_all(*[("MCNaming", {}, {a: b}) for a, b in (("Lower", "AsIs"), ("TailOk", "AnyTail"), ("EndsWith", "SomeWhere"))])
    names, edits = c05_names(ctx)
    seen, items = set(), []
    q = Q + ["12"] + N.HUGE
    for n in names:
        b = bytes(nb(n))
        if b in seen:
            continue
        seen.add(b)
        if b"/" in b and rng.random() < 0.5:
            continue
        ns = [nb(x) for x in surround("")[:2]] + [list(b)]
        rng.shuffle(ns)
        items.append((ns, q, 1))
    # every edit that probably makes the name foreign, many in a listing
    edits = [e for e in dict.fromkeys(edits) if not PLAUSIBLE.match(e)]
    rng.shuffle(edits)
    for i in range(0, len(edits), 40):
        ns = [nb(x) for x in surround("")[:2] + edits[i:i + 40]]
        rng.shuffle(ns)
        items.append((dedup(ns), q, 1))
    for _ in range(250 * (6 if ctx.thorough else 1)):
        ns = [nb(x) for x in N.listing(rng, rng.randrange(1, 5))]
        for _ in range(rng.randrange(0, 4)):
            ns.append(nb(rng.choice(names)))
        rng.shuffle(ns)
        items.append((dedup(ns), Q, 1))
    run_listings(ctx, "C05", items)


def dedup(ns):
    return [list(x) for x in dict.fromkeys(bytes(n) for n in ns)]


def c06(ctx):
    rng = ctx.rng
    k = 8 if ctx.thorough else 1
    ctx.model_check("MCArchive", consts={"MaxBackups": "3", "MaxVols": "2", "MaxLoss": "2"})
    q = Q + N.HUGE + ["1000", "65537"]
    items = []
    for _ in range(900 * k):
        ns = [nb(x) for x in N.listing(rng, rng.randrange(1, 6))]
        rng.shuffle(ns)
        items.append((ns, q, 1))
    for _ in range(300 * k):
        ns = [nb(x) for x in one_set(rng)]
        rng.shuffle(ns)
        items.append((ns, q + ["300"], 1))
    for _ in range(200 * k):
        ns = [nb(x) for x in overlaps(rng)]
        rng.shuffle(ns)
        items.append((ns, q, 1))
    ctx.model_check("MCAssembly")
    ctx.refute_all(("MCAssembly", {}, {"BetterMan": "FirstManifest"}), ("MCAssembly", {}, {"BetterVol": "FirstVolume"}))
    for pool in (1, 2):
        for ns in assemblies(ctx, pool, 4 if ctx.thorough else 3):
            items.append((ns, ["1", "2", "300", "0"], 1))
    for n in ([1000] if not ctx.thorough else [1000, 3000]):   # many volumes
        t = 1434565545
        ns = [nb(N.vol(t, None, i)) for i in range(1, n + 1) if i % 7]
        rng.shuffle(ns)
        items.append((ns, [str(i) for i in range(0, n + 2)], 1))
    items += archive_items(ctx, 250 * k, None, 7) + archive_items(ctx, 120 * k, {"Cache": "TRUE"}, 8)
    run_listings(ctx, "C06", items)
