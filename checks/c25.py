"""C25: of any bytes, damaged ones included, the report shows what they say and nothing else."""

import ast
import base64
import time

from checks.c01 import shape
from lib import core, gen, judge, ref
from lib import wire as w

RULE = ("damaged and random inputs of every kind (fields set to corners, cuts, overwritten, deleted, inserted and "
        "copied parts, random bytes behind every header, arbitrary contents in well framed components, search guided "
        "by the shape of the reports), each read by the reference reader; the whole report (and the default one) is "
        "compared entry by entry; non-trivial = new input")
ASSUMPTIONS = ["what the documents do not say about damaged structures is left open (lib/ref.py: Any, Open, Loose, Maybe)"]
MUST_SEE = {"inputs": 6000, "values compared": 200000, "fields set": 2500, "cut files": 1500, "inputs with new reports": 150,
            "open places": 20, "places clipped": 400}
PARALLEL = True
CPS = [None, None, None, "cp932", "utf-8", "cp1251", "ascii", "gb18030", "big5", "latin-1", "cp037"]


def opens(x):
    """How many places of an expectation are left open."""
    if isinstance(x, w.Maybe):
        return 1 + opens(x.value)
    n = isinstance(x, (w.Any, w.OneOf, w.Open, w.Loose))
    if isinstance(x, dict):
        return n + sum(map(opens, x.values()))
    if isinstance(x, (list, tuple)):
        return n + sum(map(opens, x))
    return n


def attempt(rec, data, cp=None, allow=True, source="indata"):
    if len(data) < 76:
        return None
    kw = judge.kwargs(cp, allow)
    o = core.observe(MOD, data, ("json_all",), source=source, **kw)
    rec.seen("inputs")
    rec.ok(data)
    if o.exc is not None:
        rec.violation(o.problem(), data, kw, trace=o.trace)
        return None
    exp = ref.read(data, cp, allow)
    n = opens(exp)
    rec.seen("values compared", core.count_leaves(exp))
    rec.seen("inputs wholly settled" if n <= 0 else "inputs with open places")
    rec.seen("open places", max(0, n))
    d = core.differs(exp, o.json_all)
    if d:
        rec.violation(d, data, kw)
        return None
    return o


def replay(rec, v):
    kw = {k: ast.literal_eval(x) for k, x in v.get("kwargs", {}).items()}
    rec.case = v["case"]
    attempt(rec, base64.b64decode(v["data_b64"]), kw.get("cp"), kw.get("allow_terminal_blocks", True))


def rng(rec, *key):
    return gen.rng_for("C25", rec.seed, *key)


def base(r, corpus):
    k = r.random()
    if k < 0.2:
        return r.choice(corpus)
    return gen.link(r, r.choice(["cp1252", "cp932", "utf-8"]), maxlen=r.choice([6, 20, 80]))


def mutant(rec, i, corpus):
    r = rng(rec, "m", i)
    data = gen.mutate(r, base(r, corpus), corpus)
    attempt(rec, data, r.choice(CPS), r.random() < 0.75, r.choice(["indata", "fhandle"]))


def guided(rec, seconds, i, samples):
    """Inputs which show something new in the report are damaged further."""
    r = rng(rec, "guided", i)
    pool = list(samples.values()) + [gen.link(r, maxlen=20).data for _ in range(40)]
    seen = set()
    end = time.monotonic() + seconds
    n = 0
    while time.monotonic() < end:
        data = pool[n] if n < len(pool) else gen.mutate(r, r.choice(pool), pool)[:8000]
        n += 1
        o = attempt(rec, data, r.choice(CPS))
        if o is None:
            if rec.violations:
                return
            continue
        marks = shape(o.json_all)
        if not marks <= seen:
            seen |= marks
            if n > len(pool):
                pool.append(data)
            rec.seen("inputs with new reports")
    rec.maximum("guided pool", len(pool))


def fields(rec, i, quick):
    r = rng(rec, "fields", i)
    b = gen.link(r, maxlen=12)
    data = b.data
    places = sorted(set(b.fields))
    if quick:
        places = r.sample(places, min(14, len(places)))
    for o, wd in places:
        if o + wd > len(data):
            continue
        cur = int.from_bytes(data[o : o + wd], "little")
        top = (1 << 8 * wd) - 1
        vals = {0, 1, 2, 3, 4, 7, 8, 9, 0x14, 0x1C, 0x24, 0x78, top, top - 1, top >> 1, (top >> 1) + 1, cur + 1, cur - 1,
                cur + 2, cur - 2, cur + 4, cur * 2, len(data), len(data) - o, len(data) - o - 1, len(data) - o - wd}
        vals = {v & top for v in vals} - {cur}
        for v in r.sample(sorted(vals), min(7, len(vals))) if quick else vals:
            rec.seen("fields set")
            if attempt(rec, data[:o] + v.to_bytes(wd, "little") + data[o + wd :], r.choice(CPS), r.random() < 0.8) is None:
                return


def cut(rec, i, quick, corpus):
    r = rng(rec, "cut", i)
    data = r.choice(corpus) if i % 4 == 0 else gen.link(r, maxlen=12).data
    ns = range(76, len(data))
    if quick or len(data) > 3000:
        ns = r.sample(ns, min(len(ns), 80 if quick else 1500))
    for n in ns:
        rec.seen("cut files")
        if attempt(rec, data[:n], r.choice(CPS), r.random() < 0.8) is None:
            return


def raw(rec, i):
    r = rng(rec, "raw", i)
    n = r.choice([0, 1, 2, 3, 4, 7, 8, 20, 60, 200, 900])
    k = r.random()
    if k < 0.3:
        body = gen.rbytes(r, n)
    elif k < 0.5:
        body = bytes(r.choice([0, 0, 1, 2, 4, 8, 0x10, 0x1C, 0x31, 0xFF]) for _ in range(n))
    else:
        body = b""
        for _ in range(r.randrange(8)):
            p = r.choice([lambda: gen.item(r, "cp1252", maxlen=10).raw, lambda: gen.info(r, "cp1252", maxlen=10).raw,
                          lambda: gen.block(r, "cp1252", maxlen=10).raw, lambda: gen.rbytes(r, r.randrange(9)),
                          lambda: w.u16(gen.num(r, 2)), lambda: w.u32(gen.num(r, 4)), lambda: bytes(r.randrange(5))])()
            body += p if r.random() < 0.7 else p[: r.randrange(len(p) + 1)]
    head = gen.rbytes(r, 76)
    if r.random() < 0.85:
        head = w.header(**dict(gen.header_fields(r), link_flags=r.choice([gen.num(r, 4), r.randrange(512)])))[0]
    attempt(rec, head + body, r.choice(CPS), r.random() < 0.8, r.choice(["indata", "fhandle"]))


def plausible(r, n):
    """Bytes which look like numbers and texts."""
    out = b""
    while len(out) < n:
        out += r.choice([lambda: w.u32(r.randrange(n + 40)), lambda: w.u16(r.randrange(n + 9)), lambda: gen.rbytes(r, 1),
                         lambda: w.u32(gen.num(r, 4)), lambda: b"abc\0", lambda: "x\u017e\0".encode("utf-16le"),
                         lambda: bytes(r.randrange(5)), lambda: w.u32(r.choice([0x14, 0x1C, 0x18, 0x24, 0x10]))])()
    return out[:n]


def payload(rec, kind, i):
    """Well framed components with arbitrary contents of any length."""
    r = rng(rec, "payload", kind, i)
    n = r.choice([0, 1, 2, 3, 5, 8, 13, 20, 26, 40, 60, 100, 300])
    p = gen.rbytes(r, n) if r.random() < 0.3 else plausible(r, n)
    if kind < 256:
        body = w.u16(n + 3) + w.u8(kind) + p
        part = w.Part("x", body, {}, None)
        lists = [w.item_plain(0x52, b"")] * r.randrange(2) + [part] + [w.item_plain(0x52, b"")] * r.randrange(2)
        b = w.build(items=lists) if r.random() < 0.6 else w.build(blocks=[w.block_idlist(lists)])
    elif kind < 264:
        p = w.u32(r.choice([0x1C, 0x24, r.randrange(60)])) + w.u32(kind & 3) + p
        b = w.build(info=w.Part("info", w.u32(len(p) + 4) + p, {}, None, 4), items=[w.item_plain(0x52, b"")],
                    strings={"description": w.string_data("description", "text", True, "cp1252")}, unicode_=True)
    elif kind < 268:
        uni = kind & 1 == 0
        b = w.build(strings={k: w.Part("string", w.u16(r.choice([len(p), len(p) // 2, r.randrange(300), gen.num(r, 2)]))
                                       + p[: r.randrange(len(p) + 1)], None, None, 2, name=k)
                             for _, k in w.STRINGS if r.random() < 0.5}, unicode_=uni)
    else:
        one = w._block("x", 0xA0000000 + kind - 268, p, "X", {})
        around = [w.block_known_folder(bytes(16), 3)] if kind != 268 + 0xB and r.random() < 0.5 else []
        b = w.build(blocks=r.choice([[one] + around, around + [one]]))
    attempt(rec, b.data, r.choice(CPS), r.random() < 0.8)


def clipped(rec, i):
    """Components which end too early (their sizes say so, or the file ends there)."""
    r = rng(rec, "clipped", i)
    cp = r.choice([None, "cp1252", "cp932"])
    items = [gen.item(r, cp or "cp1252", maxlen=12) for _ in range(r.choice([1, 2, 3]))]
    blocks = [gen.block(r, cp or "cp1252", maxlen=12) for _ in range(r.choice([1, 2, 3]))]
    inner = r.random() < 0.3
    if inner:
        blocks.append(w.block_idlist(items))
    for part in r.sample(items, r.choice([0, 1, 1])) + r.sample(blocks, r.choice([0, 1, 1])):
        lead = {2: 3, 4: 8}[part.size_len]
        ends = [o + wd for o, wd in part.fields if o + wd <= len(part.raw)] or [lead]
        n = r.choice([r.choice(ends), r.choice(ends) - 1, r.choice(ends) + 1, r.randrange(lead, len(part.raw) + 1)])
        n = min(max(n, lead), len(part.raw))
        rec.state("places clipped", (part.kind, n))
        part.raw = n.to_bytes(part.size_len, "little") + part.raw[part.size_len : n]
        part.fields = []
    if r.random() < 0.3:  # the list in a block again, now with what is left
        blocks.append(w.block_idlist(items))
    r.shuffle(blocks)
    b = w.build(items=items if r.random() < 0.8 else None, blocks=blocks)
    data = b.data if r.random() < 0.8 else b.data[: r.randrange(76, len(b.data) + 1)]
    attempt(rec, data, cp, r.random() < 0.8)


def store(rec, i):
    """Property stores whose bytes are damaged inside."""
    r = rng(rec, "store", i)
    part = w.block_property_store([gen.storage(r, 8) for _ in range(r.randrange(1, 4))])
    raw = bytearray(part.raw)
    for _ in range(r.choice([1, 1, 2, 4])):
        o = r.randrange(8, len(raw))
        wd = r.choice([1, 2, 4])
        v = r.choice([gen.num(r, wd), int.from_bytes(raw[o : o + wd], "little") + r.choice([-1, 1, 2, -2, 4, -4])])
        raw[o : o + wd] = (v & ((1 << 8 * wd) - 1)).to_bytes(wd, "little")[: len(raw) - o]
    b = w.build(blocks=[w.Part("x", bytes(raw), {}, None, name="X")])
    attempt(rec, b.data)


def link(rec, r, b, cp):
    if attempt(rec, b.data, cp, b.allow) is None:
        return
    for _ in range(2):
        attempt(rec, gen.mutate(r, b), cp, r.random() < 0.8)


def cases(tier, seed):
    quick = tier == "quick"
    samples = judge.load_samples()
    corpus = list(samples.values())
    for i in range(8):
        yield f"guided{i}", lambda rec, i=i: guided(rec, 6 if quick else 240, i, samples)
    for name, data in samples.items():
        for cp in (None, "cp932"):
            yield f"sample-{name}-{cp}", lambda rec, d=data, cp=cp: attempt(rec, d, cp)
    for i in range(40 if quick else 1200):
        yield f"fields{i}", lambda rec, i=i: fields(rec, i, quick)
    for i in range(30 if quick else 600):
        yield f"cut{i}", lambda rec, i=i: cut(rec, i, quick, corpus)
    for i in range(1200 if quick else 60000):
        yield f"raw{i}", lambda rec, i=i: raw(rec, i)
    for i in range(1500 if quick else 60000):
        yield f"clipped{i}", lambda rec, i=i: clipped(rec, i)
    for i in range(600 if quick else 30000):
        yield f"store{i}", lambda rec, i=i: store(rec, i)
    for i in range(4 if quick else 150):
        for kind in range(268 + 16):
            for k in range(1 if kind < 256 else 6):
                yield f"payload{kind}-{i}-{k}", lambda rec, kind=kind, i=i, k=k: payload(rec, kind, (i, k))
    for i in range(2500 if quick else 120000):
        yield f"mutant{i}", lambda rec, i=i: mutant(rec, i, corpus)
