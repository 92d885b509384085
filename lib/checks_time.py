"""Timestamps: read, and shown in UTC and local time."""
import datetime
import core
from names import nb

NOW = 1782000000           # in 2026
CYCLE = 146097 * 86400      # 400 years
# POSIX zone, and the same as the specification wants it
R = lambda m, w, d, s: [m, w, d, s]
ZONES = [("UTC0", 0, 0, None, None), ("XXX-5:30", 19800, 19800, None, None), ("XXX+11", -39600, -39600, None, None), ("XXX-14", 50400, 50400, None, None),
         ("XXX+3:30", -12600, -12600, None, None), ("XXX-12:45", 45900, 45900, None, None), ("XXX+0:00:01", -1, -1, None, None),
         ("EST5EDT,M3.2.0,M11.1.0", -18000, -14400, R(3, 2, 0, 7200), R(11, 1, 0, 7200)),
         ("CET-1CEST,M3.5.0,M10.5.0/3", 3600, 7200, R(3, 5, 0, 7200), R(10, 5, 0, 10800)),
         ("AEST-10AEDT,M10.1.0,M4.1.0/3", 36000, 39600, R(10, 1, 0, 7200), R(4, 1, 0, 10800)),
         ("LHST-10:30LHDT-11,M10.1.0,M4.1.0", 37800, 39600, R(10, 1, 0, 7200), R(4, 1, 0, 7200))]


def zone(z):
    return {"std": z[1], "dst": z[2], "from": z[3] or [], "to": z[4] or []}


def secs(y, m=1, d=1, h=0, mi=0, s=0):
    """Seconds from 1970 (input generation only)."""
    y2, a = y, 0
    while y2 < 1:
        y2, a = y2 + 400, a - CYCLE
    while y2 > 9999:
        y2, a = y2 - 400, a + CYCLE
    return a + int((datetime.datetime(y2, m, d, h, mi, s) - datetime.datetime(1970, 1, 1)).total_seconds())


def year(t):
    return (datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t)).year


def clock(rng, z):
    """A moment to look at the clock: mostly close to a new year, there or in UTC."""
    y = rng.choice([2026, 2026, 2024, 2025, 1999, 2000, 2037, 2038, 2099, 2100, rng.randrange(1972, 2400)])
    d = rng.choice([-1, 0, 0, 1, -60, 60, -3600, 3600, -43000, 43000])
    k = rng.randrange(6)
    if k < 2:
        return secs(y) - rng.choice([z[1], z[2]]) + d
    if k == 2:
        return secs(y) + d
    if k == 3:          # new year in one of the two already
        return secs(y) - rng.randrange(min(z[1], 0), max(z[1], 0) + 1)
    return secs(y) + rng.randrange(365 * 86400)


def run_times(ctx, items):
    """items: zone index, now, parse (byte strings), show (seconds)."""
    recs = []
    for zi, z in enumerate(ZONES):
        mine = [(k, it) for k, it in enumerate(items) if it["zone"] == zi]
        if not mine:
            continue
        cases = [{"id": k, "op": "time", "now": str(it["now"]), "parse": it["parse"], "show": [{"sec": str(x), "ns": it.get("ns", 0)} for x in it["show"]]} for k, it in mine]
        res = ctx.run_cases(cases, env={"TZ": z[0]})
        for k, it in mine:
            x = res[k]
            if core.failed(x):
                ctx.violate(it, core.failed(x), None, ("time", it))
                continue
            r = x["r"]
            if r["year"] != year(it["now"]):
                raise core.ToolError("the clock cannot be set")
            recs.append({"id": k, "zone": zone(z), "parse": it["parse"], "parsed": r["parse"], "now": [it["now"] // 86400, it["now"] % 86400],
                         "show": [[v // CYCLE, v % CYCLE // 86400, v % 86400] for v in it["show"]], "shown": r["show"]})
    bad = ctx.validate("TraceTime", recs)
    for r in recs:
        for why, i in bad.get(r["id"], []):
            it = items[r["id"]]
            small = dict(it, parse=[], show=[])
            if why.startswith("shown"):
                small["show"] = [it["show"][i - 1]]
                obs = {k: bytes(v).decode() for k, v in r["shown"][i - 1].items()}
            elif i:
                small["parse"] = [it["parse"][i - 1]]
                obs = r["parsed"][i - 1]
            else:
                obs = None
            ctx.violate({"zone": ZONES[it["zone"]][0], "now": it["now"], "text": [bytes(b).decode("utf-8", "replace") for b in small["parse"]], "instant": small["show"]},
                        why, obs, ("time", small))
    for r in recs[:2]:
        ctx.samples.append({"zone": r["zone"], "texts": [bytes(b).decode("utf-8", "replace") for b in r["parse"][:3]], "instants": r["show"][:3]})
    ctx.notes["texts"] = sum(len(r["parse"]) for r in recs)
    ctx.notes["instants"] = sum(len(r["show"]) for r in recs)


def stamps(rng, k):
    out = []
    f = lambda y, m, d, h, mi, s: "%04d%02d%02dt%02d%02d%02dz" % (y, m, d, h, mi, s)
    ys = [0, 1, 4, 99, 100, 400, 1000, 1582, 1600, 1700, 1899, 1900, 1901, 1969, 1970, 1972, 1999, 2000, 2001, 2015, 2016, 2038, 2100, 2400, 9996, 9999]
    for y in ys:                                     # every date of leap, common and century years
        for m in range(0, 14):
            for d in ([0, 1, 28, 29, 30, 31, 32] if y not in (1900, 2000, 2015, 2016) else range(0, 33)):
                out.append(f(y, m, d, 12, 30, 15))
    for v in range(0, 100):
        out += [f(2015, v, 1, 0, 0, 0), f(2015, 1, v, 0, 0, 0), f(2015, 6, 17, v, 0, 0), f(2015, 6, 17, 0, v, 0), f(2015, 6, 17, 0, 0, v), f(v * 100, 6, 17, 0, 0, 0),
                f(2016, 12, 31, 23, 59, v), f(2016, 6, 30, 23, 59, v), f(2015, 12, 31, 23, v, 60)]
    ok = "20150617t182545z"
    for i in range(len(ok)):
        for c in "0919 -+tzTZ/:.\t\n\0ax\u00e9":
            out += [ok[:i] + c + ok[i + 1:], ok[:i] + c + ok[i:]]
        out += [ok[:i] + ok[i + 1:], ok[:i], ok[i:]]
    out += ["", " ", ok + " ", " " + ok, ok + ok, ok.upper(), "20150617T182545z", "20150617t182545Z", "2015617t182545z", "2015 6 7t182545z", "20150617t 82545z", "20150617t18 545z",
            "20150617t1825 5z", "+2015617t182545z", "-0150617t182545z", "20150617t182545utc", "20150617t182545+0000", "20150617t182545+01", "20150617182545z", "20150617t1825z",
            "2015-06-17t18:25:45z", "\u0662\u0660150617t182545z", "20150617t182545zz", "020150617t182545z", "20150617t2400z", "%Y%m%dt%H%M%S%Z", "20150617t240000z"]
    for _ in range(1500 * k):
        b = list(f(rng.randrange(10000), rng.randrange(1, 13), rng.randrange(1, 32), rng.randrange(24), rng.randrange(60), rng.randrange(60)))
        if rng.random() < 0.25:
            b[rng.randrange(16)] = rng.choice("0123456789 -+tz")
        out.append("".join(b))
    return [nb(s) for s in dict.fromkeys(out)]


def instants(rng, now, z, k):
    out = []
    edge = lambda x: [x + d for d in (-86400, -50401, -3601, -3600, -61, -60, -59, -1, 0, 1, 59, 60, 3599, 3600, 50400, 86399, 86400)]
    for y in (now - 1, now, now + 1, now + 2):
        out += edge(secs(y))
    # the same around the ends of the year in local time
    for y in (now, now + 1):
        for off in (z[1], z[2]):
            out += [secs(y) - off + d for d in (-61, -60, -1, 0, 1, 60)]
    for m in range(1, 13):
        out += [secs(now, m) + d for d in (-1, 0, 1)] + [secs(now, m, 15, h, mi, 59) for h in (0, 9, 12, 23) for mi in (0, 7, 59)]
    # around the changes of summer time, this year and others
    for y in (now, now - 3, 1999, 2007, 2100):
        for d in range(0, 366, 1 if y == now else 7):
            out.append(secs(y) + d * 86400 + rng.randrange(86400))
        for m in (3, 4, 10, 11):
            for d in range(1, 32, 1):
                if d <= 30:
                    out += [secs(y, m, d) - z[1] + 3600 * h + e for h in (1, 2, 3) for e in (-1, 0)] if d <= 8 or d > 24 else []
    for y in (-400, -101, -100, -1, 0, 1, 4, 99, 100, 999, 1000, 1582, 1752, 1899, 1900, 1901, 1969, 1970, 1971, 2000, 2037, 2038, 2039, 2099, 2100, 9999, 10000, 10001, 99999,
              123456, 2 * 10 ** 9, -2 * 10 ** 9):
        out += edge(secs(y))[4:13]
    out += [0, 1, -1, 2 ** 31 - 1, 2 ** 31, -2 ** 31, 2 ** 32 - 1, 2 ** 32, 8 ** 11 - 1, 8 ** 11, 951782399, 951782400, 951868800, 4107542399, 4107542400,
            67766999999 * 10 ** 6, -67766999999 * 10 ** 6]
    out += [rng.randrange(-10 ** 11, 10 ** 12) for _ in range(100 * k)] + [secs(now) + rng.randrange(366 * 86400) for _ in range(150 * k)]
    if z[3]:         # the C library knows summer time from 1970 on, and not for ever
        out = [x for x in out if 366 * 86400 <= x < 10 ** 14]
    return list(dict.fromkeys(out))


def c14(ctx):
    rng = ctx.rng
    k = 6 if ctx.thorough else 1
    # around this year, century ends, the first and last year with four digits
    ranges = [(0, 146100), (-720000, -573900), (2932800, 2933000)] if ctx.thorough else [(18000, 21600), (-719600, -719100), (-25700, -25000), (10900, 11100), (47400, 47600), (2932700, 2933000)]
    for lo, hi in ranges:
        ctx.model_check("MCCivil", consts={"Lo": str(lo + 720000), "Hi": str(hi + 720000)})
    ctx.refute_all(("MCCivil", {"Lo": "694300", "Hi": "695000"}, {"IsLeap": "Julian"}), ("MCCivil", {}, {"OffsetAt": "Northern"}), ("MCCivil", {}, {"ThisYear": "Greenwich"}))
    items = []
    st = stamps(rng, k)
    zs = range(len(ZONES))
    for n, i in enumerate(range(0, len(st), 100)):
        items.append({"zone": n % len(ZONES), "now": NOW, "parse": st[i:i + 100], "show": []})
    for zi in zs:
        xs = instants(rng, year(NOW), ZONES[zi], k)
        for i in range(0, len(xs), 60):
            items.append({"zone": zi, "now": NOW, "parse": [], "show": xs[i:i + 60], "ns": rng.choice([0, 0, 1, 999999999])})
        # other years, and around the new year
        for _ in range(25 * k):
            now = clock(rng, ZONES[zi])
            xs = [now, now - 1, now - rng.randrange(60), now - rng.randrange(86400), now + rng.randrange(86400), now - 86400 * rng.randrange(367), now + 86400 * rng.randrange(367)]
            for y in (year(now), year(now) + 1):
                xs += [secs(y) - off + d for off in {0, ZONES[zi][1], ZONES[zi][2]} for d in (-1, 0, rng.randrange(-40000, 40000))]
            items.append({"zone": zi, "now": now, "parse": [], "show": xs, "ns": 0})
    run_times(ctx, items)
    # beyond any calendar: only that it is shown at all
    cases = [{"id": i, "op": "time", "now": str(NOW), "parse": [], "show": [str(x)]} for i, x in
             enumerate([2 ** 63 - 1, -2 ** 63, 2 ** 62, -2 ** 62, 2 ** 56, -2 ** 56, 67768 * 10 ** 12, -67769 * 10 ** 12, 67768036191676799, 67768036191676800])]
    for z in (ZONES[0], ZONES[7]):
        res = ctx.run_cases(cases, env={"TZ": z[0]})
        for c in cases:
            if core.failed(res[c["id"]]):
                ctx.violate({"zone": z[0], "instant": c["show"]}, core.failed(res[c["id"]]), None, ("time", {"zone": ZONES.index(z), "now": NOW, "parse": [], "show": [int(c["show"][0])]}))
