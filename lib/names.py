"""Random duplicity file names and listings (inputs only; their meaning is decided by the spec)."""
import datetime

EPOCH = datetime.datetime(1970, 1, 1)


def stamp(sec):
    t = EPOCH + datetime.timedelta(seconds=sec)
    return "%04d%02d%02dT%02d%02d%02dZ" % (t.year, t.month, t.day, t.hour, t.minute, t.second)


VOLSFX = [".gz", ".gz", ".gz", ".gpg", "", ".g", ".z"]


def vol(t0, t1, n, sfx=".gz"):
    if t1 is None:
        return "duplicity-full.%s.vol%s.difftar%s" % (stamp(t0), n, sfx)
    return "duplicity-inc.%s.to.%s.vol%s.difftar%s" % (stamp(t0), stamp(t1), n, sfx)


def man(t0, t1, sfx=""):
    if t1 is None:
        return "duplicity-full.%s.manifest%s" % (stamp(t0), sfx)
    return "duplicity-inc.%s.to.%s.manifest%s" % (stamp(t0), stamp(t1), sfx)


def sig(t0, t1, sfx=".gz"):
    if t1 is None:
        return "duplicity-full-signatures.%s.sigtar%s" % (stamp(t0), sfx)
    return "duplicity-new-signatures.%s.to.%s.sigtar%s" % (stamp(t0), stamp(t1), sfx)


def recase(rng, s):
    m = rng.randrange(4)
    if m == 0:
        return s.lower()
    if m == 1:
        return s.upper()
    return "".join(c.upper() if rng.random() < 0.3 else c.lower() if rng.random() < 0.3 else c for c in s)


def recase_some(rng, names):
    """All of the names, or some, in other letter case."""
    p = rng.choice([1, 0.5, 0.2])
    return [recase(rng, n) if rng.random() < p else n for n in names]


def rand_time(rng):
    k = rng.randrange(6)
    if k == 0:      # around now
        return rng.randrange(0, 2**31 - 1)
    if k == 1:      # any year 1..9999
        return rng.randrange(-62135596800, 253402300799)
    if k == 2:      # around a leap day or a new year
        y = rng.choice([1970, 1999, 2000, 2004, 2015, 2016, 1900, 2100, 2400, 1968])
        b = datetime.datetime(y, rng.choice([1, 2, 3, 12]), rng.choice([1, 28, 27, 2])) - EPOCH
        return int(b.total_seconds()) + rng.randrange(0, 3 * 86400)
    return 1434500000 + rng.randrange(0, 10**8)


def times(rng, n):
    s = set()
    if rng.random() < 0.5:
        b = 1434500000
        while len(s) < n:
            s.add(b + rng.randrange(0, 4 * n))
    else:
        while len(s) < n:
            s.add(rand_time(rng))
    return sorted(s)


HUGE = ["18446744073709551615", "18446744073709551614", "9223372036854775807", "9223372036854775808",
        "4294967295", "4294967296", "2147483648", "1000000000000", "65536", "65535", "256", "255"]


def volnum(rng):
    k = rng.randrange(10)
    if k < 6:
        return str(rng.randrange(1, 13))
    if k == 6:
        return "0" * rng.randrange(1, 3) + str(rng.randrange(0, 12))
    if k == 7:
        return rng.choice(HUGE)
    if k == 8:
        return str(rng.randrange(0, 2000))
    return "0"


def listing(rng, nsets, distinct_ends=True, vols=None, huge=True):
    """A random set of names: sets with random parents, missing and partial files, foreign files."""
    ts = times(rng, nsets + 1)
    names = []
    ends = set()
    keys = []
    for _ in range(nsets):
        full = rng.random() < 0.3 or not keys
        if full:
            k = (rng.choice(ts), None)
            end = k[0]
        else:
            if rng.random() < 0.85:
                p = rng.choice(keys[-3:])
                t0 = p[1] if p[1] is not None else p[0]
                if rng.random() < 0.25 and p[1] is not None:
                    t0 = p[0]     # a sibling of the previous one
            else:
                t0 = rng.choice(ts)
            end = rng.choice(ts)
            if rng.random() < 0.9:
                later = [t for t in ts if t > t0]
                if later:
                    end = rng.choice(later[:3])
            k = (t0, end)
        if distinct_ends and end in ends:
            continue
        ends.add(end)
        keys.append(k)
        fs = []
        enc = rng.random() < 0.2
        nv = vols if vols is not None else rng.choice([0, 1, 1, 2, 3, 12])
        for v in range(1, nv + 1):
            if rng.random() < 0.9:
                fs.append(vol(k[0], k[1], v, ".gpg" if enc else rng.choice(VOLSFX) if rng.random() < 0.2 else ".gz"))
        if huge and rng.random() < 0.15:
            fs.append(vol(k[0], k[1], volnum(rng)))
        r = rng.random()
        if r < 0.6:
            fs.append(man(k[0], k[1], ".gpg" if enc else ""))
        elif r < 0.75:
            fs.append(man(k[0], k[1], ".part"))
        elif r < 0.8:
            fs += [man(k[0], k[1]), man(k[0], k[1], ".part")]
        r = rng.random()
        if r < 0.7:
            fs.append(sig(k[0], k[1], ".gpg" if enc else ".gz"))
        elif r < 0.8:
            fs.append(sig(k[0], k[1], ".part"))
        names += fs
    for _ in range(rng.randrange(0, 4)):
        names.append(rng.choice(["README", "duplicity-full.manifest", ".", "lost+found", "foo.vol1.difftar.gz",
                                 "duplicity-inc.20150617T182545Z.vol1.difftar.gz", "xduplicity-full.20150617T182545Z.manifest"]))
    names = list(dict.fromkeys(names))
    if rng.random() < 0.15:
        names = recase_some(rng, names)
    return list(dict.fromkeys(names))


def long_chain(rng, n):
    """A chain of n backups, some of which had been begun before and given up."""
    ts = times(rng, 3 * n + 1)
    out, prev, x = [], None, 0
    for i in range(n):
        if i and rng.random() < (0.4 if n < 6 else 0.25):       # given up: it left some of its files
            a = (prev, ts[x])
            x += 1
            out += rng.sample([vol(*a, 1), vol(*a, 2), man(*a), man(*a, ".part")], rng.randrange(0, 4))
            if rng.random() < 0.8:
                out.append(sig(*a, rng.choice([".gz", ".gz", ".part.gz"])))
        k = (ts[x], None) if i == 0 else (prev, ts[x])
        prev = ts[x]
        x += 1
        fs = [man(*k), sig(*k)] + [vol(*k, v) for v in range(1, rng.choice([1, 1, 2]) + 1)]
        out += fs if rng.random() < 0.93 else rng.sample(fs, len(fs) - 1)
    return list(dict.fromkeys(out))


def nb(s):
    return list(s.encode("utf-8", "surrogateescape") if isinstance(s, str) else s)


def limbs(n):
    n = int(n)
    out = []
    while n:
        out.append(n % 10000)
        n //= 10000
    return out
