"""Sessions: archives with contents, opened and queried through the public API."""
import os, shutil, tempfile
import arch, core, hist as H, names as N
from core import b64
from names import nb, limbs

Q = [str(i) for i in range(0, 6)]


def S(s, **kw):
    d = dict(s=s)
    d.update(kw)
    if s in ("snaps", "coll"):
        d.setdefault("q", Q)
    return d


def fault(n, kind, e="Other", at=0):
    return S("fault", n=list(n), kind=kind, e=e, at=at)


def read_fault(rng, f, e, at=None):
    """A file breaks off with an error while it is read."""
    n = len(f["data"])
    at = at if at is not None else rng.choice([0, 1, 17, n // 4, n // 2, n - 1, n, rng.randrange(n + 1)])
    at = max(0, min(at, n))
    if f["k"] == "man":
        return fault(f["n"], "read", e, at)
    enc = bytes(f["n"]).lower().endswith((b".gpg", b".g"))
    return dict(fault(f["n"], "read", e, at), sure=not enc and arch.surely_read(f["n"], f["data"], at))


def lq(step):
    d = dict(step)
    if "q" in d and d["s"] in ("snaps", "coll"):
        d["lq"] = [limbs(x) for x in d["q"]]
    if d["s"] == "iter":        # numbers of steps far past the end
        d["ops"] = [[o[0]] + [min(int(k), 2 ** 30) for k in o[1:]] for o in d["ops"]]
    return d


def abstract(f):
    d = {"n": list(f["n"]), "k": f["k"]}
    if f["k"] == "sig":
        d["es"] = [arch.abst(e) for e in f["es"]]
    elif f["k"] == "man":
        d["raw"] = list(f["raw"])
    return d


def nsnaps(files):
    """An upper bound of the number of snapshots."""
    return len({tuple(bytes(f["n"]).lower().split(b".vol")[0].split(b".man")[0].replace(b"full-signatures", b"full")
                      .replace(b"new-signatures", b"inc").split(b".sigtar")[0:1]) for f in files})


def everything(files, sess=None, dump="dump"):
    """Opens a backup, looks at everything once."""
    st = [S("open"), S("snaps"), S("coll")]
    for i in range(nsnaps(files) + 1):
        st += [S("entries", i=i, h=0), S(dump, h=0), S("drop", h=0), S("manifest", i=i, m=0), S("mdump", m=0, q=[]), S("mdrop", m=0)]
    return st


def run_sessions(ctx, prop, items):
    """items: dicts files, steps, variants (list of {order, backend, chunk}); default: one run in memory."""
    cases, scratch = [], None
    try:
        for k, it in enumerate(items):
            files = it["files"]
            for v, var in enumerate(it.get("variants") or [{}]):
                order = var.get("order") or range(len(files))
                c = {"id": "%d.%d" % (k, v), "op": "session", "chunk": var.get("chunk", 0), "intr": var.get("intr", 0), "backend": var.get("backend", "mem"),
                     "files": [{"n": list(files[i]["n"]), "b64": b64(files[i]["data"])} for i in order], "steps": it["steps"]}
                if c["backend"] == "local":
                    scratch = scratch or tempfile.mkdtemp(prefix="rup")
                    c["dir"] = os.path.join(scratch, str(k) + "." + str(v))
                    os.mkdir(c["dir"])
                cases.append(c)
        res = ctx.run_cases(cases)
    finally:
        if scratch:
            shutil.rmtree(scratch, ignore_errors=True)
    recs = []
    for k, it in enumerate(items):
        outs, dead = [], None
        for v in range(len(it.get("variants") or [{}])):
            r = res["%d.%d" % (k, v)]
            dead = dead or core.failed(r)
            outs.append(r.get("r"))
        if dead:
            ctx.violate(show(it), dead, None, ("session", pack_item(it)))
            continue
        recs.append({"id": k, "prop": prop, "files": [abstract(f) for f in it["files"]], "steps": [lq(s) for s in it["steps"]],
                     "outs": outs})
    bad = ctx.validate("TraceSession", recs)
    for r in recs:
        if r["id"] in bad:
            it = items[r["id"]]
            why = bad[r["id"]]
            ctx.violate(show(it), why, [[o[w[0] - 1] if w[0] and w[0] <= len(o) else None for o in r["outs"]] for w in why[:3]],
                        ("session", pack_item(it)))
    for r in recs[:2]:
        ctx.samples.append({"files": [bytes(f["n"]).decode("latin1") for f in r["files"]][:8], "steps": len(r["steps"])})
    ctx.notes["requests"] = ctx.notes.get("requests", 0) + sum(len(r["steps"]) * len(r["outs"]) for r in recs)
    return recs


def show(it):
    return {"files": [bytes(f["n"]).decode("utf-8", "backslashreplace") for f in it["files"]], "steps": it["steps"],
            "variants": it.get("variants")}


def pack_item(it):
    fs = []
    for f in it["files"]:
        d = {"n": list(f["n"]), "k": f["k"], "data": b64(f["data"])}
        if "raw" in f:
            d["raw"] = list(f["raw"])
        if "es" in f:
            d["es"] = [dict(e, p=list(e["p"]), un=e["un"] and list(e["un"]), gn=e["gn"] and list(e["gn"]), ln=e["ln"] and list(e["ln"]),
                            sz=[e["sz"][0], list(e["sz"][1])] if e["sz"][0] == "raw" else list(e["sz"])) for e in f["es"]]
        fs.append(d)
    return {"files": fs, "steps": it["steps"], "variants": [dict(v, order=list(v["order"])) if v.get("order") else v for v in it.get("variants") or [{}]]}


def unpack_item(it):
    import base64
    fs = []
    for f in it["files"]:
        d = dict(f, n=bytes(f["n"]), data=base64.b64decode(f["data"]))
        if "raw" in f:
            d["raw"] = bytes(f["raw"])
        if "es" in f:
            by = lambda x: None if x is None else bytes(x)
            d["es"] = [dict(e, p=bytes(e["p"]), un=by(e["un"]), gn=by(e["gn"]), ln=by(e["ln"]),
                            sz=("raw", bytes(e["sz"][1])) if e["sz"][0] == "raw" else tuple(e["sz"])) for e in f["es"]]
        fs.append(d)
    return dict(it, files=fs)


def shuffled(rng, files):
    o = list(range(len(files)))
    rng.shuffle(o)
    return o


# ---------------------------------------------------------------- real backups
def real_archives():
    base = os.path.join(core.REPO, "tests", "backups")
    for d in sorted(os.listdir(base)):
        p = os.path.join(base, d)
        if not os.path.isdir(p):
            continue
        fs = []
        for n in sorted(os.listdir(p)):
            if not os.path.isfile(os.path.join(p, n)):
                continue
            data = open(os.path.join(p, n), "rb").read()
            f = {"n": n.encode(), "data": data, "k": "vol"}
            if ".sigtar" in n:
                f.update(k="sig", es=arch.decode(data))
            elif n.endswith(".manifest"):
                f.update(k="man", raw=data)
            else:
                f["data"] = b""
            fs.append(f)
        if any(f["k"] == "sig" for f in fs):
            yield d, fs


# ------------------------------------------------------------------------ C01
def c01(ctx):
    rng = ctx.rng
    k = 8 if ctx.thorough else 1
    for shape in (1, 2, 3):
        ctx.model_check("MCSigMerge", consts={"Shape": str(shape), "N": "3" if shape == 1 or ctx.thorough else "2"})
    ctx.refute_all(("MCSigMerge", {"Order": '"bytes"', "N": "3"}, {}))
    items = []
    for d, fs in real_archives():
        items.append({"files": fs, "steps": everything(fs)})
    # histories out of the model, one archive per history
    for shape in (1, 2, 3):
        for n, num in ((2, 140 * k), (4, 100 * k)):
            for m in gen_histories(ctx, shape, n, num):
                fs = H.chain(rng, [[arch.entry(bytes(e["p"]), d=e["d"], t=1434000000 + e["v"], ty=53 if not e["p"] else 48,
                                               sz=("exact", e["v"])) for e in es] for es in m["recs"]],
                             H.seqs(rng, len(m["recs"])), mans=False, style=["gnu", "ustar"])
                items.append({"files": fs, "steps": all_listings(rng, len(m["recs"]))})
    for _ in range(330 * k):
        n = rng.choice([1, 2, 2, 3, 4, 6, 9])
        h = H.history(rng, n, rng.choice([3, 6, 10, 16]), plain=rng.random() < 0.3)
        fs = H.chain(rng, h, H.seqs(rng, n), mans=False, retry=rng.choice([0, 0, 0.3]))
        if rng.random() < 0.1:
            recased(rng, fs)
        items.append({"files": fs, "steps": all_listings(rng, n)})
    for n in (40, 90):         # long histories
        h = H.history(rng, n, 3, plain=True)
        fs = H.chain(rng, h, H.seqs(rng, n), mans=False, retry=0.1)
        items.append({"files": fs, "steps": [S("open")] + [x for i in rng.sample(range(n), 6) + [n - 1]
                                                         for x in (S("entries", i=i, h=0), S("dump", h=0))]})
    run_sessions(ctx, "C01", items)


def recased(rng, fs):
    """Names in other letter case, as some file systems give them."""
    for f, n in zip(fs, N.recase_some(rng, [f["n"].decode("latin1") for f in fs])):
        f["n"] = n.encode("latin1")


def all_listings(rng, n):
    """Every snapshot's listing, in some order."""
    order = list(range(n))
    if rng.random() < 0.5:
        rng.shuffle(order)
    st = [S("open")]
    for i in order:
        st += [S("entries", i=i, h=0), S("dump", h=0)]
    if rng.random() < 0.3:     # and again once everything is loaded
        st += [S("entries", i=0, h=1), S("dump", h=1)]
    return st


def gen_histories(ctx, shape, n, num):
    r = ctx.tlc("GenSigMerge", ctx.cfg("GenSigMerge.cfg", {"Shape": str(shape), "N": str(n)}), workers=1,
                args=["-simulate", "num=%d" % max(20, num // 4), "-depth", str(n + 1), "-seed", str(ctx.seed * 100 + shape * 10 + n)])
    seen, out = set(), []
    for m in r.messages:
        s = str(m)
        if s not in seen:
            seen.add(s)
            out.append(m)
    # (TLC prints every successor of the states it walks through)
    return ctx.rng.sample(out, min(num, len(out)))


# ------------------------------------------------------------------------ C02
def c02(ctx):
    rng = ctx.rng
    k = 8 if ctx.thorough else 1
    ctx.model_check("MCArchive", consts={"MaxBackups": "3", "MaxVols": "1", "MaxLoss": "2"})
    ctx.model_check("MCArchive", consts={"MaxBackups": "4" if ctx.thorough else "3", "MaxLoss": "1", "Cache": "TRUE"})
    ctx.refute_all(*[("MCArchive", {}, {"SigPos": x}) for x in ("ByPlace", "ByPlaceInChain", "NotLater")])
    items = []
    gens = (archives(ctx, 120 * k, {"MaxLoss": "3"}, 21) + archives(ctx, 80 * k, {"Cache": "TRUE", "MaxLoss": "1"}, 22)
            + archives(ctx, 60 * k, {"MaxLoss": "6", "MaxBackups": "8", "MaxVols": "1"}, 23, depth=60))
    for m in rng.sample(gens, min(len(gens), 420 * k)):
        fs = H.from_tlc(rng, m)
        items.append({"files": fs, "steps": looks(rng, fs)})
    for _ in range(260 * k):          # any listing of names, also such as no writer leaves
        fs = H.with_contents(rng, N.listing(rng, rng.randrange(1, 7), distinct_ends=rng.random() < 0.9, vols=rng.choice([0, 1]), huge=False))
        items.append({"files": fs, "steps": looks(rng, fs)})
    for n in [2, 3, 4, 5, 6, 7, 8, 12] * (5 * k):     # longer chains with backups given up and redone, now and then a file lost
        fs = N.long_chain(rng, n)
        if rng.random() < 0.4:
            fs.pop(rng.randrange(len(fs)))
        rng.shuffle(fs)
        fs = H.with_contents(rng, fs)
        items.append({"files": fs, "steps": looks(rng, fs)})
    for _ in range(200 * k):          # several chains, with signatures lost or foreign ones left over
        fs = []
        chains = rng.randrange(1, 4)
        ts = H.seqs(rng, chains * 4 + 2)
        for c in range(chains):
            own = ts[c * 4:c * 4 + rng.randrange(1, 5)]
            names = []
            for i, t in enumerate(own):
                kk = (t, None) if i == 0 else (own[i - 1], t)
                if rng.random() < 0.8:
                    names.append(N.sig(kk[0], kk[1], rng.choice(H.SIGSFX)))
                if rng.random() < 0.9:
                    names.append(N.man(*kk))
                if rng.random() < 0.9:
                    names.append(N.vol(kk[0], kk[1], 1))
            if rng.random() < 0.3 and len(own) > 1:     # an interrupted attempt that was redone
                t = own[-1] - (own[-1] - own[-2]) // 2
                if t not in own:
                    names += rng.sample([N.sig(own[-2], t), N.vol(own[-2], t, 1), N.man(own[-2], t, ".part"), N.sig(own[-2], t, ".part")],
                                        rng.randrange(1, 3))
            if rng.random() < 0.4 and len(own) > 1:     # begun anew from an earlier backup, as its successor's signature was gone
                j = rng.randrange(len(own) - 1)
                t = rng.choice([own[-1] + rng.randrange(1, 30), rng.randrange(own[j] + 1, own[-1] + 1)])
                if t not in ts:
                    names += rng.sample([N.sig(own[j], t), N.sig(own[j], t, ".gz"), N.vol(own[j], t, 1), N.man(own[j], t)], rng.randrange(1, 3))
                    if rng.random() < 0.7:
                        names = [n for n in names if not n.startswith(N.sig(own[j], own[j + 1], ""))]
            fs += names
        fs = list(dict.fromkeys(fs))
        if rng.random() < 0.3:
            fs = N.recase_some(rng, fs)
        rng.shuffle(fs)
        fs = H.with_contents(rng, fs)
        items.append({"files": fs, "steps": looks(rng, fs)})
    run_sessions(ctx, "C02", items)


def looks(rng, files):
    """Every snapshot of the archive, in some order."""
    order = list(range(nsnaps(files) + 1))
    if rng.random() < 0.5:
        rng.shuffle(order)
    st = [S("open"), S("snaps", q=["1"])]
    for i in order:
        st += [S("entries", i=i, h=i % 16), S("dump", h=i % 16)]
    return st


def archives(ctx, num, consts, seed_off, depth=44):
    import checks_coll
    return checks_coll.archives(ctx, num, consts, seed_off, depth)


# ----------------------------------------------------------------- C10 C11 C12
def programs(ctx, template, steps, faults, num, exhaustive=False, every=1):
    """Programs of requests out of the reading machine: walks, or all of them up to a length."""
    cfg = ctx.cfg("GenSession.cfg", {"Template": str(template), "MaxSteps": str(steps), "Faults": str(faults), "Every": str(every)})
    if exhaustive:
        r = ctx.tlc("GenSession", cfg, workers=1)
    else:
        r = ctx.tlc("GenSession", cfg, workers=1,
                    args=["-simulate", "num=%d" % max(15, num // 4), "-depth", str(steps + 1), "-seed", str(ctx.seed * 1000 + template * 10 + steps)])
    seen, out = set(), []
    for m in r.messages:
        s = str(m["prog"])
        if s not in seen:
            seen.add(s)
            out.append(m)
    return out if len(out) <= num else ctx.rng.sample(out, num)


def concrete(ctx, m, extra=True):
    """A program with contents; what a request gave is looked at at once and again at the end."""
    rng = ctx.rng
    fs = H.with_contents(rng, [bytes(f["n"]) for f in m["files"]])
    rng.shuffle(fs)
    st, up = [], False
    for s in m["prog"]:
        st.append(s)
        if s["s"] in ("open", "close"):
            up = s["s"] == "open"
            if up and extra and rng.random() < 0.5:
                st.append(S("snaps", q=["1"]))
        elif s["s"] == "entries":
            st.append(S("dump", h=s["h"]))
        elif s["s"] == "manifest":
            st.append(S("mdump", m=s["m"], q=[]))
        elif up and extra and rng.random() < 0.3:
            st += [S("dump", h=0), S("coll", q=["1"])]
    st += [S("dump", h=0), S("dump", h=1), S("mdump", m=0, q=[]), S("mdump", m=1, q=[]), S("snaps", q=["1"]), S("coll", q=["1"])]
    return {"files": fs, "steps": fix_open(st)}


def fix_open(st):
    """Requests only make sense while a backup is open."""
    out, up = [], False
    for s in st:
        if s["s"] == "open":
            up = True
        elif s["s"] == "close":
            up = False
        elif not up and s["s"] not in ("fault", "heal", "listfault"):
            continue
        out.append(s)
    return out


def big_archive(rng, lossy=True, pool=None):
    """Several chains with real contents."""
    fs = []
    nch = rng.randrange(1, 4)
    ts = H.seqs(rng, nch * 5)
    for c in range(nch):
        n = rng.randrange(1, 5)
        h = H.history(rng, n, rng.choice([2, 4, 8]), plain=rng.random() < 0.6, pool=pool)
        if lossy and rng.random() < 0.08:         # a signature that lists nothing
            h[0 if rng.random() < 0.6 else rng.randrange(n)] = []
        fs += H.chain(rng, h, ts[c * 5:c * 5 + n], nvol=rng.choice([0, 1, 2, 3, [0, 1, 2, 3]]), retry=0.1 if lossy else 0)
    if lossy:
        for f in [f for f in fs if f["k"] == "man" and rng.random() < 0.15]:     # interrupted: a partial manifest, alone or beside the whole
            part = dict(f, n=f["n"] + b".part")
            if rng.random() < 0.5:
                fs.remove(f)
            else:
                part["raw"] = part["data"] = H.small_manifest(rng, rng.choice([0, 1, 2]), b"part")
            fs.append(part)
    if rng.random() < 0.1:
        recased(rng, fs)
    if lossy and rng.random() < 0.5:
        for _ in range(rng.randrange(1, 3)):
            if len(fs) > 2:
                fs.pop(rng.randrange(len(fs)))
    fs.append({"n": b"README", "k": "vol", "data": b"x"})
    rng.shuffle(fs)
    return fs


KINDS = ["TimedOut", "PermissionDenied", "ConnectionReset", "InvalidData", "UnexpectedEof", "BrokenPipe", "Other", "NotFound",
         "WouldBlock", "ConnectionAborted", "ConnectionRefused", "NotConnected", "InvalidInput", "AlreadyExists", "WriteZero"]


def random_program(rng, fs, n, faults=0, reopen=True):
    ns = nsnaps(fs)
    st = [S("open")]
    readable = [f for f in fs if f["k"] in ("sig", "man")]
    for _ in range(n):
        k = rng.random()
        if k < 0.42:
            h = rng.randrange(4)
            st += [S("entries", i=rng.randrange(ns), h=h), S("dump", h=h)]
        elif k < 0.62:
            h = rng.randrange(4)
            st += [S("manifest", i=rng.randrange(ns), m=h), S("mdump", m=h, q=[])]
        elif k < 0.70:
            st.append(S(rng.choice(["drop", "dump"]), h=rng.randrange(4)))
        elif k < 0.74:
            st.append(S("mdrop", m=rng.randrange(4)))
        elif k < 0.82:
            st.append(S("snaps", q=["1"]) if rng.random() < 0.6 else S("coll", q=["1"]))
        elif reopen and k < 0.85:
            st += [S("close"), S("open")]
        elif faults:
            if rng.random() < 0.55 and readable:
                f = rng.choice(readable)
                if rng.random() < 0.5:
                    st.append(read_fault(rng, f, rng.choice(KINDS)))
                else:
                    st.append(fault(f["n"], "open", rng.choice(KINDS)))
                i, h = rng.randrange(ns), rng.randrange(4)
                st += [S("entries", i=i, h=h), S("dump", h=h), S("manifest", i=i, m=h), S("mdump", m=h, q=[])]
            elif rng.random() < 0.6:
                st.append(S("heal"))
            elif rng.random() < 0.5:
                st += [S("close"), S("listfault", e=rng.choice(KINDS)), S("open")]
                return st                      # the backend is gone with it
            else:
                f = rng.choice(readable) if readable else fs[0]
                st.append(fault(f["n"], "none"))
    st += [S("heal")] if faults else []
    for i in range(ns):
        st += [S("entries", i=i, h=5), S("dump", h=5), S("manifest", i=i, m=5), S("mdump", m=5, q=[])]
    st += [S("dump", h=h) for h in range(4)] + [S("mdump", m=m, q=[]) for m in range(4)]
    return st


def wide_archive(rng, lens, pool=None):
    """Chains of the given lengths; few entries each."""
    ts = H.seqs(rng, sum(lens) + len(lens), gap=rng.choice([1, 3600]))
    fs, x = [], 0
    for n in lens:
        h = H.history(rng, n, 2, plain=True, pool=pool)
        if rng.random() < 0.1:
            h[0] = []
        fs += H.chain(rng, h, ts[x:x + n], nvol=rng.choice([0, 1, 3, [0, 1, 2, 3]]))
        x += n + 1
    rng.shuffle(fs)
    return fs


def wide_program(rng, fs, some=12):
    """Every manifest and some listings, what was got first still held."""
    ns = nsnaps(fs)
    order = list(range(ns))
    if rng.random() < 0.5:
        rng.shuffle(order)
    st = [S("open")]
    for n, i in enumerate(order):
        st += [S("manifest", i=i, m=n % 16), S("mdump", m=n % 16, q=[])]
        if n % max(1, ns // some) == 0:
            st += [S("entries", i=i, h=n % 16), S("dump", h=n % 16)]
    for n, i in enumerate(rng.sample(order, min(ns, 20))):
        st += [S("manifest", i=i, m=0), S("mdump", m=0, q=[])]
        if n < 8:
            st += [S("entries", i=i, h=n), S("dump", h=n)]
    return st + [S("mdump", m=m, q=[]) for m in range(1, 16)] + [S("dump", h=h) for h in range(16)]


def session_items(ctx, faults, scale=1):
    rng = ctx.rng
    k = (8 if ctx.thorough else 1) * scale
    items = []
    for t in (1, 2, 3):
        for m in programs(ctx, t, 9, faults, int(130 * k)):
            items.append(concrete(ctx, m))
    if not faults:
        for t in (1, 2, 3):
            # all programs of two requests (thorough: three) on a backup just opened
            for m in programs(ctx, t, 4 if ctx.thorough else 3, 0, 10 ** 6 if ctx.thorough else 400, exhaustive=True):
                items.append(concrete(ctx, m, extra=False))
    for _ in range(int(170 * k)):
        fs = big_archive(rng)
        items.append({"files": fs, "steps": random_program(rng, fs, rng.choice([6, 12, 20]), faults)})
    return items


def mc_session(ctx, faults):
    for t in (1, 2, 3):
        ctx.model_check("MCSession", consts={"Template": str(t), "Faults": str(faults),
                                             "MaxSteps": ("7" if t != 2 else "6") if ctx.thorough else "5"})


def c10(ctx):
    mc_session(ctx, 0)
    ctx.refute_all(("MCSession", {}, {"KeptAs": "OneSlot"}), ("MCSession", {}, {"ManKeptAs": "OneSlot"}))
    items = session_items(ctx, 0)
    for lens in ([20], [1] * 18, [9, 1, 30], [70], [40, 40], [2] * 35, [270]) + (([600], [130, 3, 140]) if ctx.thorough else ()):
        fs = wide_archive(ctx.rng, lens)
        items.append({"files": fs, "steps": wide_program(ctx.rng, fs)})
    # as many chains as a narrow index of them would wrap at
    fs = wide_archive(ctx.rng, [1] * 262)
    st = [S("open")]
    for h, i in enumerate((0, 1, 2, 3, 254, 255, 256, 257, 258, 259, 1, 257)):
        st += [S("entries", i=i, h=h), S("manifest", i=i, m=h)]
    items.append({"files": fs, "steps": st + [S("dump", h=h) for h in range(12)] + [S("mdump", m=h, q=[]) for h in range(12)]})
    run_sessions(ctx, "C10", items)


def c11(ctx):
    rng = ctx.rng
    mc_session(ctx, 0)
    ctx.refute_all(("MCSession", {}, {"KeptAs": "Fresher"}))
    items = session_items(ctx, 0, 0.6) + session_items(ctx, 1, 0.4)
    for _ in range(40):                       # on a directory as well
        fs = big_archive(rng)
        items.append({"files": fs, "steps": random_program(rng, fs, 10), "variants": [{"backend": "local"}]})
    for lens in ([6], [8, 3], [12], [33], [1] * 12, [70], [5, 9, 7]):      # long chains
        fs = wide_archive(rng, lens)
        items.append({"files": fs, "steps": wide_program(rng, fs, 6)})
    run_sessions(ctx, "C11", items)


def c12(ctx):
    rng = ctx.rng
    k = 8 if ctx.thorough else 1
    mc_session(ctx, 1)
    ctx.refute_all(("MCSession", {}, {"AfterFailure": "KeepsFailed"}))
    if ctx.thorough:
        ctx.model_check("MCSession", consts={"Template": "1", "Faults": "2", "MaxSteps": "7"})
    items = session_items(ctx, 1)
    for _ in range(60 * k):
        # every single file of an archive fails once, with every request made while it does, before and after
        fs = big_archive(rng, lossy=rng.random() < 0.3)
        ns = nsnaps(fs)
        for f in rng.sample([f for f in fs if f["k"] in ("sig", "man")] or fs[:1], 1 if rng.random() < 0.5 else len([f for f in fs if f["k"] in ("sig", "man")][:4]) or 1):
            st = [S("open")]
            if rng.random() < 0.4:
                i = rng.randrange(ns)
                st += [S("entries", i=i, h=1), S("manifest", i=i, m=1)]
            if rng.random() < 0.6:
                st.append(read_fault(rng, f, rng.choice(KINDS)))
            else:
                st.append(fault(f["n"], "open", rng.choice(KINDS)))
            order = list(range(ns))
            rng.shuffle(order)
            for i in order:
                st += [S("entries", i=i, h=0), S("dump", h=0), S("manifest", i=i, m=0), S("mdump", m=0, q=[]), S("dump", h=1), S("mdump", m=1, q=[])]
            st.append(S("heal"))
            for i in order:
                st += [S("entries", i=i, h=0), S("dump", h=0), S("manifest", i=i, m=0), S("mdump", m=0, q=[])]
            items.append({"files": fs, "steps": st})
    for e in KINDS:                           # every kind of error, from every kind of request
        fs = wide_archive(rng, [2, 1])
        ns = nsnaps(fs)
        for f in [rng.choice([f for f in fs if f["k"] == kind]) for kind in ("sig", "man")]:
            st = [S("open")]
            n = len(f["data"])
            for flt in [fault(f["n"], "open", e)] + [read_fault(rng, f, e, x) for x in sorted({0, 1, n // 2, max(0, n - 1)})]:
                st.append(flt)
                for i in rng.sample(range(ns), ns):
                    st += [S("entries", i=i, h=0), S("dump", h=0), S("manifest", i=i, m=0), S("mdump", m=0, q=[])]
                st += [S("heal"), S("close"), S("open")]
            items.append({"files": fs, "steps": st})
    for lens in [[6], [9], [14], [3, 8], [25], [40]] * (2 * k):      # anywhere in a long chain
        fs = wide_archive(rng, lens)
        ns = nsnaps(fs)
        st = [S("open")]
        sigs = sorted((f for f in fs if f["k"] == "sig"), key=lambda f: f["n"].split(b".")[-3])
        for f in [sigs[-1], sigs[len(sigs) // 2]] + rng.sample(sigs, min(3, len(sigs))):
            st.append(read_fault(rng, f, rng.choice(KINDS)) if rng.random() < 0.5 else fault(f["n"], "open", rng.choice(["NotFound", rng.choice(KINDS)])))
            for i in rng.sample(range(ns), 2) + [ns - 1]:
                st += [S("entries", i=i, h=0), S("dump", h=0)]
            st += [S("heal")] + ([S("close"), S("open")] if rng.random() < 0.6 else [])
            st += [S("entries", i=i, h=0), S("dump", h=0), S("close"), S("open")]
        items.append({"files": fs, "steps": st})
    for e in KINDS:                           # the listing fails
        fs = big_archive(rng)
        items.append({"files": fs, "steps": [S("listfault", e=e), S("open")]})
        items.append({"files": fs, "steps": [S("open"), S("listfault", e=e), S("snaps"), S("coll")] + random_program(rng, fs, 5, 0, reopen=False)[1:]})
        items.append({"files": fs, "steps": [S("open"), S("snaps"), S("close"), S("listfault", e=e), S("heal"), S("open"), S("snaps")]})
    run_sessions(ctx, "C12", items)


# ------------------------------------------------------------------------ C18
def variants(rng, fs, n=4, local=True):
    out = [{}]
    for c in rng.sample([1, 2, 3, 7, 13, 100, 511, 512, 513, 1000, 4095], n):
        out.append({"chunk": c, "order": shuffled(rng, fs)})
        if rng.random() < 0.4:           # some reads are interrupted and have to be tried again
            out[-1]["intr"] = rng.choice([2, 2, 3, 5])
    if local and all(b"/" not in f["n"] and b"\0" not in f["n"] and f["n"] not in (b"", b".", b"..") and len(f["n"]) < 256 for f in fs):
        out.append({"backend": "local"})
    return out


def c18(ctx):
    rng = ctx.rng
    k = 8 if ctx.thorough else 1
    mc_session(ctx, 0)
    items = []
    for d, fs in real_archives():
        items.append({"files": fs, "steps": everything(fs), "variants": variants(rng, fs)})
    for _ in range(90 * k):
        fs = big_archive(rng)
        if rng.random() < 0.5:               # names of any kind lie around
            for n in rng.sample([b"duplicity-full.manifest", b"\xff\xfe.vol1.difftar.gz", b"a b", b".hidden", b"\xc3\xa9", b"new\nline", b"-rf",
                                 b"duplicity-full.20150617T182545Z.vol1.difftar.gz~", b"x" * 200], 4):
                fs.append({"n": n, "k": "vol", "data": b""})
        items.append({"files": fs, "steps": everything(fs), "variants": variants(rng, fs, 3)})
    for _ in range(60 * k):
        fs = H.with_contents(rng, [n for n in N.listing(rng, rng.randrange(1, 6), vols=1, huge=False) if n != "."])
        items.append({"files": fs, "steps": everything(fs), "variants": variants(rng, fs, 2)})
    run_sessions(ctx, "C18", items)
    backends(ctx)


LOCALNAMES = [b"a", b"A", b"b.c", b".hidden", b"..x", b"...", b" ", b"a b", b"tab\tname", b"new\nline", b"\xff\xfe", b"\xc3\xa9", b"\xe2\x82", b"-rf", b"~",
              b"*", b"?", b"\\x", b"'q'", b'"q"', b"x" * 255, b"duplicity-full.20150617T182545Z.manifest", b"duplicity-full.20150617T182545Z.manifest~",
              b"DUPLICITY-FULL.20150617T182545Z.VOL1.DIFFTAR.GZ", b"%41", b"\x01", b"\x7f", b"lost+found", b"#x#", b"con", b"nul.txt", b"a:b"]


def backends(ctx):
    """The local backend against the directories it is given."""
    rng = ctx.rng
    scratch = tempfile.mkdtemp(prefix="rup")
    try:
        cases, recs = [], []
        for k in range(40 * (8 if ctx.thorough else 1)):
            d = os.path.join(scratch, rng.choice(["d%d", "d %d", "d.%d", "\u00e9%d"]) % k)
            if k % 10 == 8:
                fs = {"k": "none"}
            elif k % 10 == 9:
                open(d, "wb").close()
                fs = {"k": "file"}
            else:
                os.mkdir(d)
                ents = []
                for n in rng.sample(LOCALNAMES, rng.choice([0, 1, 2, 5, len(LOCALNAMES)])):
                    kind = rng.choice(["file"] * 6 + ["dir", "gone", "link"])
                    p = os.path.join(os.fsencode(d), n)
                    data = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 5, 40])))
                    if kind == "dir":
                        os.mkdir(p)
                        open(os.path.join(p, b"inner"), "wb").close()
                    elif kind == "gone":
                        os.symlink(b"/nonexistent/x", p)
                    elif kind == "link":
                        t = os.path.join(os.fsencode(scratch), b"t%d.%d" % (k, len(ents)))
                        open(t, "wb").write(data)
                        os.symlink(t, p)
                        kind = "file"
                    else:
                        open(p, "wb").write(data)
                    ents.append({"n": list(n), "k": kind, "data": list(data)})
                for i in range(400 if k == 3 else 0):       # more than one read of the directory gives
                    n = b"many-%d" % i + b"y" * 200
                    open(os.path.join(os.fsencode(d), n), "wb").close()
                    ents.append({"n": list(n), "k": "file", "data": []})
                fs = {"k": "dir", "fs": ents}
            names = [e["n"] for e in fs.get("fs", [])[:40]] + [list(n) for n in rng.sample(LOCALNAMES, 2)] + [list(b"never there")]
            dd = d + rng.choice(["", "", "/", "/."]) if fs["k"] == "dir" else d
            cases.append({"id": k, "op": "local", "dir": list(os.fsencode(dd)), "open": names})
            recs.append({"id": k, "fs": fs, "names": names})
        res = ctx.run_cases(cases)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    run = []
    for r in recs:
        x = res[r["id"]]
        if core.failed(x):
            ctx.violate(r, core.failed(x))
            continue
        run.append(dict(r, **x["r"]))
    bad = ctx.validate("TraceLocal", run)
    for r in run:
        if r["id"] in bad:
            ctx.violate({"directory": r["fs"]}, bad[r["id"]], r)


# ------------------------------------------------------------------------ C04
def c04(ctx):
    """Collections from permuted listings, and everything that hangs on them."""
    import checks_coll
    checks_coll.c04(ctx)
    rng = ctx.rng
    k = 8 if ctx.thorough else 1
    items = []
    for n in range(130 * k):
        if n % 3 == 0:
            fs = big_archive(rng)
        elif n % 3 == 1:
            fs = H.with_contents(rng, N.listing(rng, rng.randrange(1, 6), distinct_ends=rng.random() < 0.7, vols=1, huge=False))
        else:
            fs = H.with_contents(rng, [nb(x) for x in checks_coll.one_set(rng)])
        st = everything(fs)
        st[2]["text"] = True
        items.append({"files": fs, "steps": st, "variants": [{}] + [{"order": shuffled(rng, fs)} for _ in range(3)] + [{"order": list(reversed(range(len(fs))))}]})
    run_sessions(ctx, "C04", items)


# ------------------------------------------------------------------------ C15
def c15(ctx):
    rng = ctx.rng
    ctx.prove("SizeProof")
    k = 8 if ctx.thorough else 1
    ctx.model_check("MCSize", consts={"MaxSize": "300", "MaxBlock": "24"} if ctx.thorough else None)
    ctx.refuted("MCSize", over={"SigMin": "FullBlocks"})
    ctx.refuted("MCSize", over={"SigMax": "OneLess"})
    items = []
    for style in H.STYLES + ["mix"]:
        for _ in range(60 * k):
            n = rng.choice([1, 1, 2, 3])
            h = H.history(rng, n, rng.choice([4, 8, 14]), pool=H.POOL, users=meta_users(rng))
            st = None if style == "mix" else style
            fs = H.chain(rng, h, H.seqs(rng, n), mans=False, style=[st] if st else None)
            items.append({"files": fs, "steps": all_listings(rng, n), "variants": [{}, {"chunk": rng.choice([1, 5, 100, 511, 513])}]})
    items += [meta_item(rng, es) for es in meta_matrix(rng)]
    long_names = [b"u" * n for n in (31, 32, 33, 34, 64, 100, 255, 256, 1000)] + [b"\xc3\xa9" * n for n in (1, 15, 16, 17, 50)] + [b"u" * 31 + b"\xc3\xa9x", b"a=b", b"7 uname=x"]
    for _ in range(3):
        items.append(meta_item(rng, [arch.entry(b"n%02d" % i, uid=i, gid=i, un=n, gn=n) for i, n in enumerate(long_names)], ["pax"]))
    run_sessions(ctx, "C15", items)


def meta_users(rng):
    pool = H.USERS + [(7, b""), (8, None), (9, b"\xff\xfe"), (10, b"a" * 30), (11, b"name with space"), (12, b"x" * 31), (2 ** 32, b"huge"), (2 ** 40, b"huger")]
    us = rng.sample(pool, 4)
    if rng.random() < 0.3:      # the same id with two names
        us.append((us[0][0], b"other" if us[0][1] is not None else None))
    return us


def meta_item(rng, es, style=None):
    t = 1434565545
    n = N.sig(t, None, rng.choice([".gz", ""])).encode()
    es = sorted(es, key=lambda e: H.key(e["p"]))
    f = {"n": n, "k": "sig", "es": es, "data": arch.pack(n, arch.sigtar(es, style or H.style_for(es), rng))}
    return {"files": [f, H.volfile(t, None)], "steps": [S("open"), S("entries", i=0, h=0), S("dump", h=0)]}


def meta_matrix(rng):
    """Systematic values of each field."""
    E = arch.entry
    # every permission
    yield [E(b"m%04o" % m, mode=m) for m in range(0, 0o10000, 7)]
    yield [E(b"m%06o" % m, mode=m) for m in (0o100644, 0o120777, 0o40755, 0o777777, 0o7777777, 0o10000, 0)]
    # every type flag (apart from those that introduce extensions)
    yield [E(b"t%d" % t, ty=t, ln=b"l" if t in (49, 50) else None, sz=("exact", 0)) for t in list(range(0, 1)) + list(range(48, 56)) + [65, 68, 86, 88, 255]]
    # lengths of paths and links around the limits of the fields
    for n in (1, 2, 89, 90, 91, 92, 99, 100, 101, 149, 155, 156, 200, 255, 256, 257, 511, 512, 513, 1000):
        es = []
        for sep in (0, 10, 50, 90, 100):
            p = bytearray(b"%d" % sep + b"p" * n)[:max(n, 2)]
            for i in range(sep, len(p) - 1, max(sep, 1)) if sep else ():
                if i:
                    p[i] = 47
            es.append(E(bytes(p).replace(b"//", b"/x")))
        es = list({e["p"]: e for e in es}.values())
        es.append(E(b"~link", ty=50, ln=b"t" * n))
        es.append(E(b"~~hard", ty=49, ln=b"h" * n))
        for st in (["gnu"], ["ustar"], ["pax"]):
            yield es
    # times
    ts = [0, 1, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 8 ** 11 - 1, 8 ** 11, 2 ** 35, -1, -86400, -86401, -2 ** 31, 951782399, 951782400, 253402300799,
          10 ** 11, -62135596800]
    yield [E(b"time%d" % i, t=t) for i, t in enumerate(ts)]
    # ids
    ids = [0, 1, 8 ** 7 - 1, 8 ** 7, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 2, 2 ** 32, 2 ** 55]
    yield [E(b"id%d" % i, uid=u, gid=ids[-1 - i], un=b"u%d" % i, gn=b"g%d" % i) for i, u in enumerate(ids)]
    yield [E(b"none1", uid=None, gid=3), E(b"none2", gid=None, uid=4), E(b"none3", mode=None), E(b"none4", uid=None, gid=None, mode=None)]
    # sizes
    es = []
    for blk in (1, 2, 3, 511, 512, 1000, 2048, 65536, 2 ** 31, 2 ** 32 - 1):
        for nb_ in (0, 1, 2, 3, 10, 100):
            for ss in (0, 4, 8, 16, 32):
                es.append(E(b"s%d-%d-%d" % (blk, nb_, ss), sz=("sig", blk, nb_, ss)))
    yield es
    yield [E(b"x%d" % n, sz=("exact", n)) for n in (0, 1, 2, 511, 512, 513, 1023, 1024, 1025, 100000)]
    yield [E(b"big", sz=("sig", 4096, 60000, 8)), E(b"big2", sz=("sig", 2 ** 32 - 1, 70000, 4))]
    yield [E(b"r%d" % i, sz=("raw", b)) for i, b in enumerate([b"", b"r", b"\x72\x73\x01", b"\x72\x73\x01\x36", b"\x72\x73\x01\x36\0\0\2",
           b"\x72\x73\x01\x36\0\0\2\0\0\0\0", b"\0" * 40, b"\x36\x01\x73\x72\0\0\2\0\0\0\0\x08" + b"z" * 24])]
    # names
    yield [E(b"n%d" % i, uid=i, gid=i, un=b"u" * i, gn=b"g" * i) for i in range(1, 33)]
    yield [E(b"p%d" % i, uid=i, gid=i, un=n, gn=n) for i, n in enumerate([b"\xc3\xa9", b"\xff", b"\xe2\x82", b"a b", b"DOM\\user", b"user@host", b"1000", b"-"])]
    yield [E(b"q%d" % i, uid=i, gid=i, un=n, gn=n) for i, n in enumerate([b"", b" a", b"a ", b" ", b"\ta", b"a\t", b"A", b"a", b".", b"/", b"a/", b"0", b"\x7f"])]
    # links to anywhere
    for ty in (49, 50):
        yield [E(b"l%d" % i, ty=ty, ln=n) for i, n in enumerate([b"/", b"//", b"d/", b"d//", b"/d/", b"a//b", b".", b"..", b"./", b"./a", b"../", b"a/../b", b"a/.", b" a", b"a ", b" ", b"a\t",
                                                                    b"\\", b"C:\\x", b"~", b"A", b"-", b"*", b"\xff/", b"\xc3\xa9/"])]
    # every byte in a path
    yield [E(b"b" + bytes([c]) + b"x") for c in range(1, 256) if c != 47]
    yield [E(bytes([c])) for c in range(1, 256) if c not in (47, 46)]
