"""C17: enumerations, driven step by step."""
import arch, hist as H
from checks_sess import S, run_sessions, wide_archive, real_archives, nsnaps, big_archive
from arch import entry

# far past the end of anything
FAR = [2 ** 8 - 1, 2 ** 8, 2 ** 16 - 1, 2 ** 16, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 2, 2 ** 64 - 1]
EXACT = ("sig", "chains", "incs", "sigchains", "incsigs")
FORK = ("entries", "chains", "incs", "sigchains", "incsigs")


def it(what, ops, i=0, h=0):
    ops = [o for o in ops if o[0] != "len" or what in EXACT]
    ops = [o for o in ops if o[0] != "fork" or what in FORK]
    if what == "snaps":      # dropping many snapshots one by one is all it can do
        ops = [o if len(o) < 2 or int(o[1]) < 2 ** 40 else [o[0], 2 ** 20] for o in ops]
    return S("iter", what=what, i=i, h=h, ops=[[o[0], str(o[1])] if len(o) > 1 and o[1] >= 2 ** 31 else list(o) for o in ops])


def rand_ops(rng, n, count):
    """count steps over an enumeration of n things."""
    def step():
        k = rng.random()
        if k < 0.45:
            return rng.choice([0, 0, 1, 1, 2, 3, rng.randrange(0, n + 2)])
        if k < 0.7:
            return max(0, n + rng.choice([-3, -2, -1, 0, 1, 2]))
        if k < 0.85:
            return rng.randrange(0, n + 3)
        return rng.choice(FAR)
    out = []
    for _ in range(count):
        o = rng.choice(["next", "next", "nth", "nth", "nth", "skip", "len", "hint", "rest", "stepby", "take", "fork", "count", "last", "collect", "reset"])
        if o in ("nth", "skip", "take"):
            out.append([o, step()])
        elif o == "stepby":
            out.append([o, max(1, step())])
        else:
            out.append([o])
        if o in ("nth", "skip") and rng.random() < 0.5:
            out += [["len"], ["next"]]
    return out


def chain_of(rng, n):
    """A chain whose snapshots differ in what they list first (the root, changed every time)."""
    ts = H.seqs(rng, n, gap=60)
    h = [[entry(b"", ty=53, t=1434000000 + 17 * x, sz=("exact", 0))] + ([entry(b"f", d="S", t=5 + x)] if x % 3 == 0 else []) for x in range(n)]
    return H.chain(rng, h, ts, nvol=0, mans=rng.random() < 0.5, retry=rng.choice([0, 0, 0.1]) if n > 3 else 0)


def c17(ctx):
    rng = ctx.rng
    ctx.prove("IterProof")
    k = 6 if ctx.thorough else 1
    ctx.model_check("MCIter", consts={"MaxChains": "3", "MaxLen": "3", "MaxSkip": "4", "MaxOps": "6" if ctx.thorough else "5"})
    ctx.refuted("MCIter", {"Bugs": '{"slot"}'})
    ctx.refuted("MCIter", {"Bugs": '{"stay"}'})
    items = []
    # every program of a few steps over few things
    for size in (1, 2, 3, 4) if ctx.thorough else (1, 2, 3):
        depth = {1: 4, 2: 3, 3: 3, 4: 3}[size] if ctx.thorough else 3 if size < 3 else 2
        r = ctx.tlc("GenIter", ctx.cfg("GenIter.cfg", {"Size": str(size), "Depth": str(depth)}), workers=1)
        progs = [m["ops"] for m in r.messages]
        ctx.notes["enumeration programs of %d steps over %d things" % (depth, size)] = len(progs)
        rng.shuffle(progs)
        for x in range(0, len(progs), 250):
            ops = [o for p in progs[x:x + 250] for o in p + [["reset"]]]
            fs = chain_of(rng, size)
            st = [S("open"), it("sig", ops), it("snaps", ops), it("incsigs", ops), it("sigchains", ops), it("chains", ops), it("incs", ops)]
            st += [S("entries", i=size - 1, h=0), it("entries", ops)]
            items.append({"files": fs, "steps": st})
    # lengths of all kinds
    for n in [1, 2, 3, 5, 8, 16, 33, 64, 100] * k + [126, 127, 128, 129, 254, 255, 256, 257, 258, 300] + ([511, 512, 513, 600] if ctx.thorough else [513]) + [1030] + ([2100] if ctx.thorough else []):
        fs = chain_of(rng, n)
        st = [S("open"), it("sig", [["len"], ["nth", n - 1], ["len"], ["next"], ["len"], ["reset"], ["nth", n], ["len"], ["next"], ["reset"], ["rest"], ["len"]]
                            + rand_ops(rng, n, 60))]
        st += [it("sig", sum(([["nth", x], ["len"], ["next"], ["len"], ["reset"]] for x in sorted(set(v for v in list(range(0, 4)) + list(range(n - 3, n + 3)) if v >= 0) | set(FAR))), []))]
        if n < 130:
            st += [it("snaps", rand_ops(rng, n, 20)), it("incs", rand_ops(rng, n - 1, 40)), it("incsigs", rand_ops(rng, n - 1, 40)), it("incsigs", rand_ops(rng, 1, 4), i=1)]
        if n < 300:
            # the entries at either side of where a narrow index would wrap
            for h, x in enumerate(sorted({v for v in (0, n // 2, n - 2, n - 1, 254, 255, 256, 257) if 0 <= v < n})):
                st += [S("entries", i=x, h=h), it("entries", rand_ops(rng, 2, 10), h=h)]
        items.append({"files": fs, "steps": st})
    # archives of several chains
    for lens in [[1], [1, 1], [2, 1, 3], [1] * 12, [30], [3, 20], [1] * 40] + [[rng.randrange(1, 6) for _ in range(rng.randrange(1, 5))] for _ in range(30 * k)]:
        fs = wide_archive(rng, lens)
        n = sum(lens)
        st = [S("open"), it("snaps", rand_ops(rng, n, 25)), it("chains", rand_ops(rng, len(lens), 25)), it("sigchains", rand_ops(rng, len(lens), 25))]
        for c in rng.sample(range(len(lens) + 1), min(len(lens) + 1, 3)):
            m = lens[c] if c < len(lens) else 1
            st += [it("incs", rand_ops(rng, m, 15), i=c), it("incsigs", rand_ops(rng, m, 15), i=c)]
        for h in range(2):
            st += [S("entries", i=rng.randrange(n), h=h), it("entries", rand_ops(rng, 3, 15), h=h)]
        for m in range(6):       # what is reached by skipping ahead is read, too
            x = rng.randrange(n)
            st += [S("manifest", i=x, m=m), S("mdump", m=m, q=[]), S("entries", i=x, h=m), S("dump", h=m)]
        items.append({"files": fs, "steps": st})
    # trees of many entries
    for size in [4, 10, 30] * (3 * k) + [150, 300]:
        n = rng.choice([1, 2, 4])
        h = H.history(rng, n, size, plain=size > 99 or rng.random() < 0.5)
        fs = H.chain(rng, h, H.seqs(rng, n), mans=False)
        st = [S("open")]
        for x in range(n):
            st += [S("entries", i=x, h=x), it("entries", rand_ops(rng, size, 40), h=x), S("dump", h=x)]
        items.append({"files": fs, "steps": st})
    # archives as they are found, some of their files lost
    for _ in range(40 * k):
        fs = big_archive(rng)
        st = [S("open"), it("snaps", rand_ops(rng, 6, 20)), it("chains", rand_ops(rng, 3, 20)), it("sigchains", rand_ops(rng, 3, 20)), it("incs", rand_ops(rng, 3, 20)),
              it("incsigs", rand_ops(rng, 3, 20)), it("sig", [["len"], ["reset"], ["count"], ["hint"]])]
        for x in range(nsnaps(fs)):
            st += [S("entries", i=x, h=0), it("entries", rand_ops(rng, 5, 20)), S("drop", h=0)]
        items.append({"files": fs, "steps": st})
    for d, fs in real_archives():
        st = [S("open"), it("snaps", rand_ops(rng, 3, 40)), it("chains", rand_ops(rng, 1, 20)), it("incs", rand_ops(rng, 2, 20)), it("incsigs", rand_ops(rng, 2, 20)),
              it("sig", [o for o in rand_ops(rng, 3, 40)])]
        for x in range(3):
            st += [S("entries", i=x, h=0), it("entries", rand_ops(rng, 12, 40))]
        items.append({"files": fs, "steps": st})
    run_sessions(ctx, "C17", items)
