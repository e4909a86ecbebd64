"""C07: StringData."""

from lib import core, gen, judge
from lib import wire as w

RULE = ("all 32 subsets of the five strings x Unicode/code page with random and special contents; "
        "every length 0..300 and boundaries up to 65535 of every string; counts above 260 of the "
        "three strings Windows limits; NULs inside of a string; runs of one character; section cut at every byte; "
        "non-trivial = new string section whose five strings were compared with the model")
ASSUMPTIONS = ["description, relative path and working directory hold at most 260 characters, "
               "whatever their count says", "a string ends at its first NUL, its extent does not"]
MUST_SEE = {"subsets": 64, "strings compared": 10000, "limited": 30, "cut sections": 250,
            "inner NUL": 100, "runs of one character": 600}
PATHS = [("data",)]
LIMITED = ("description", "relative_path", "working_directory")


def judged(rec, strs, uni, cp="cp1252", sample=None, **kw):
    b = w.build(strings=strs, unicode_=uni, **kw)
    rec.state("subsets", (tuple(sorted(strs)), uni))
    o = judge.conform(rec, MOD, b, PATHS, cp, sample=sample)
    if o is None:
        return
    rec.seen("strings compared", len(strs))
    sd = o.lnk.string_data
    for _, key in w.STRINGS:
        exp = strs[key].exp if key in strs else None
        if getattr(sd, key)() != exp:
            rec.violation(f"{key}() is {getattr(sd, key)()!r}, expected {exp!r}", b.data)


def string(r, key, uni, cp, maxlen=120):
    m = min(maxlen, 260) if key in LIMITED else maxlen
    if uni:
        return w.string_data(key, gen.text(r, m), True, cp)
    return w.string_data(key, gen.ansi(r, cp, m), False, cp)


def limited(key, n, uni, cp):
    """A count beyond the limit; only the characters within the limit are there."""
    t = "".join(chr(0x41 + i % 26) for i in range(260))
    body = t.encode("utf-16le") if uni else t.encode()
    return w.Part("string", w.u16(n) + body, t, None, 2, [(0, 2)], name=key)


def with_nul(r, key, uni, cp):
    a, z = gen.text(r, 40, ascii_only=True), gen.text(r, 40, ascii_only=True)
    t = a + "\0" + z
    body = t.encode("utf-16le") if uni else t.encode()
    return w.Part("string", w.u16(len(t)) + body, a, False, 2, [(0, 2)], name=key)


def cut(rec, r, uni):
    strs = {}
    for _, key in w.STRINGS:
        t = "".join(r.choice("abcXYZ 123") for _ in range(r.randrange(1, 9)))
        strs[key] = w.string_data(key, t if uni else t.encode(), uni, "cp1252")
    b = w.build(strings=strs, unicode_=uni, terminator=False)
    for n in range(76, len(b.data)):
        data = b.data[:n]
        o = core.observe(MOD, data)
        if o.exc is not None:
            rec.violation(o.problem(), data, trace=o.trace)
            return
        rec.seen("cut sections")
        rec.ok(data)
        got, pos = judge.section(o.json_all, ("data",)), 76
        for _, key in w.STRINGS:
            end = pos + len(strs[key].raw)
            v, e = got.get(key), strs[key].exp
            if end <= n:
                bad = v != e
            elif pos + 2 <= n:
                bad = v is not None and not e.startswith(v.rstrip("\ufffd"))
            else:
                bad = v is not None
            if bad:
                rec.violation(f"strings cut after {n - 76} bytes: {key} is {v!r}, was {e!r}", data)
                return
            pos = end


def link(rec, r, b, cp):
    judge.conform(rec, MOD, b, PATHS, cp)


def cases(tier, seed):
    keys = [k for _, k in w.STRINGS]
    reps = 12 if tier == "quick" else 300
    for mask in range(32):
        for uni in (False, True):
            def subset(rec, mask=mask, uni=uni):
                r = gen.rng_for("C07", seed, mask, uni)
                for _ in range(reps):
                    cp = r.choice(gen.CODEPAGES)
                    judged(rec, {k: string(r, k, uni, cp) for i, k in enumerate(keys) if mask >> i & 1},
                           uni, cp, flags=gen.num(r, 4))
            yield f"subset{mask}-{uni}", subset

    def lengths(rec, key, uni):
        top = 260 if key in LIMITED else 300
        ns = list(range(0, top + 1)) + ([] if key in LIMITED else [511, 512, 4095, 4096, 8191, 32767, 32768, 65534, 65535])
        r = gen.rng_for("C07", seed, "len", key, uni)
        for n in ns:
            t = "".join(chr(r.randrange(0x21, 0x7F)) for _ in range(n))
            other = keys[(keys.index(key) + 1) % 5]
            strs = {key: w.string_data(key, t if uni else t.encode(), uni, "cp1252"),
                    other: w.string_data(other, "next" if uni else b"next", uni, "cp1252")}
            judged(rec, strs, uni)
            if n % 7 == 0 and n < 131 and uni:  # astral characters take two units each
                strs[key] = w.string_data(key, "\U0001f600" * n, True, "cp1252")
                judged(rec, strs, uni)
    for key in keys:
        for uni in (False, True):
            yield f"lengths-{key}-{uni}", lambda rec, k=key, u=uni: lengths(rec, k, u)

    def runs(rec, key, uni):
        """One character again and again: padding, as far as it goes, is text like any other."""
        r = gen.rng_for("C07", seed, "runs", key, uni)
        for c in gen.RUNS if uni else [x for x in gen.RUNS if x.encode("cp1252", "ignore")]:
            for n in (r.randrange(2, 40), r.randrange(40, 250), r.randrange(200, 260) if key in LIMITED else
                      r.choice([260, 261, 300, 512, 1024, 2000, 4096])):
                if c >= "\U00010000":
                    n //= 2
                t = c * n
                k = r.randrange(4)
                t = t[1:] + "x" if k == 1 else "x" + t[1:] if k == 2 else t
                other = keys[(keys.index(key) + 1) % 5]
                rec.seen("runs of one character")
                judged(rec, {key: w.string_data(key, t if uni else t.encode("cp1252"), uni, "cp1252"),
                             other: w.string_data(other, "next" if uni else b"next", uni, "cp1252")}, uni)
    for key in keys:
        for uni in (False, True):
            yield f"runs-{key}-{uni}", lambda rec, k=key, u=uni: runs(rec, k, u)

    def limits(rec):
        r = gen.rng_for("C07", seed, "limit")
        for key in LIMITED:
            for uni in (False, True):
                for n in (261, 262, 300, 511, 520, 521, 1000, 4096, 32768, 65535):
                    strs = {k: string(r, k, uni, "cp1252", 40) for k in keys}
                    strs[key] = limited(key, n, uni, "cp1252")
                    rec.seen("limited")
                    judged(rec, strs, uni)
    yield "limits", limits

    def nuls(rec, i):
        r = gen.rng_for("C07", seed, "nul", i)
        uni = i % 2 == 0
        strs = {k: (with_nul if r.random() < 0.5 else string)(r, k, uni, "cp1252") for k in keys}
        rec.seen("inner NUL")
        judged(rec, strs, uni)
    for i in range(200 if tier == "quick" else 5000):
        yield f"nul{i}", lambda rec, i=i: nuls(rec, i)

    for i in range(8 if tier == "quick" else 100):
        yield f"cut{i}", lambda rec, i=i: cut(rec, gen.rng_for("C07", seed, "cut", i), i % 2 == 0)

    def rand(rec, i):
        r = gen.rng_for("C07", seed, "r", i)
        cp, uni = r.choice(gen.CODEPAGES), r.random() < 0.5
        strs = gen.strings(r, cp, uni, maxlen=300)
        judged(rec, strs, uni, cp, {"strings": {k: repr(v.exp)[:60] for k, v in strs.items()}} if i < 5 else None,
               items=[gen.item(r, cp)] if r.random() < 0.3 else None,
               info=gen.info(r, cp) if r.random() < 0.3 else None,
               blocks=[gen.block(r, cp)] if r.random() < 0.3 else (), flags=gen.num(r, 4))
    for i in range(1500 if tier == "quick" else 60000):
        yield f"rand{i}", lambda rec, i=i: rand(rec, i)
