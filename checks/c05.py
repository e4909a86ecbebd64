"""C05: the target ID list is reported item by item, completely and in order."""

from lib import core, gen, judge
from lib import wire as w

RULE = ("ID lists made of every class type indicator (all 256), every item kind with random and "
        "boundary contents in several code pages, all sort indexes and categories, name lengths "
        "0..300 and up to the 64 KiB limit, list lengths up to thousands, items cut short at every "
        "length; non-trivial = new list bytes whose reported items were compared with the model")
ASSUMPTIONS = ["an item whose body ends before a field may be reduced to its class name",
               "the label of a 'share' flagged entry (7) is not settled by the documentation"]
MUST_SEE = {"items judged": 8000, "type indicators": 256, "item kinds": 10, "short items": 400}
PATHS = [("target",)]


def judged(rec, items, cp="cp1252", sample=None, **kw):
    b = w.build(items=items, **kw)
    for i in items:
        rec.state("type indicators", i.raw[2])
        rec.state("item kinds", i.kind)
    if len(b.data) > 76 and judge.conform(rec, MOD, b, PATHS, cp, sample=sample) is not None:
        rec.seen("items judged", len(items))


def short_items(rec, r, kind, cp):
    """A middle item which ends early: its class survives, so do all the other items."""
    first, last = gen.item(r, cp), gen.item(r, cp)
    full = gen.item(r, cp, kind, maxlen=12)
    for n in range(3, len(full.raw)):
        cut = w.u16(n) + full.raw[2:n]
        part = w.Part(full.kind, cut, {"class": w.ANY}, None, 2)
        b = w.build(items=[first, part, last])
        o = core.observe(MOD, b.data, cp=cp)
        if o.exc is not None:
            rec.violation(o.problem(), b.data, {"cp": cp}, trace=o.trace)
            return
        rec.seen("short items")
        rec.ok(b.data)
        got = judge.section(o.json_all, ("target", "items"))
        if got is core.MISSING or len(got) != 3:
            rec.violation(f"item {full.kind} cut to {n} bytes: got {core.short(got)}", b.data)
            return
        for exp, g in ((first.exp, got[0]), (last.exp, got[2])):
            d = core.differs(exp, g, "items")
            if d:
                rec.violation(f"next to an item {full.kind} cut to {n} bytes: {d}", b.data)
                return
        if got[1].get("class") != full.exp["class"]:
            rec.violation(f"item {full.kind} cut to {n} bytes is reported as {got[1]!r}", b.data)
            return
        # Whatever is still reported must come from the bytes of the item.
        for k, v in got[1].items():
            e = full.exp.get(k, core.MISSING)
            if isinstance(v, int) and not isinstance(v, bool) and k != "size":
                if core.differs(e, v):
                    rec.violation(f"item {full.kind} cut to {n} bytes: {k}={v!r}, was {e!r}", b.data)
                    return


def truncated_list(rec, r, cp):
    """The list size says less than what its items need: whole items stay."""
    items = [gen.item(r, cp, maxlen=20) for _ in range(4)]
    b = w.build(items=items)
    body = b"".join(i.raw for i in items)
    for n in range(0, len(body) + 1, max(1, len(body) // 60)):
        data = b.data[:76] + w.u16(n) + body[:n] + w.u32(0)
        o = core.observe(MOD, data, cp=cp)
        if o.exc is not None:
            rec.violation(o.problem(), data, {"cp": cp}, trace=o.trace)
            return
        rec.seen("short lists")
        rec.ok(data)
        got = judge.section(o.json_all, ("target", "items"))
        whole, pos = 0, 0
        for i in items:
            pos += len(i.raw)
            whole += pos <= n
        if got is core.MISSING or len(got) < whole or len(got) > whole + 1:
            rec.violation(f"{whole} whole items of a cut list, reported: {core.short(got)}", data)
            return
        for i in range(whole):
            d = core.differs(items[i].exp, got[i], f"items[{i}]")
            if d:
                rec.violation("cut list: " + d, data, {"cp": cp})
                return


def link(rec, r, b, cp):
    judge.conform(rec, MOD, b, PATHS, cp)


def cases(tier, seed):
    r0 = gen.rng_for("C05", seed, "sys")
    reps = 3 if tier == "quick" else 60
    for t in range(256):
        def one(rec, t=t):
            r = gen.rng_for("C05", seed, "type", t)
            for _ in range(reps):
                cp = r.choice(gen.CODEPAGES)
                judged(rec, [gen.item_of_type(r, t, cp)], cp)
                judged(rec, [gen.item(r, cp), gen.item_of_type(r, t, cp), gen.item(r, cp)], cp)
        yield f"type{t:#x}", one

    def sorts(rec):
        judged(rec, [w.item_root(s, bytes(range(s & 15, (s & 15) + 16)), t)
                     for s in range(256) for t in (0x1E, 0x1F)])
        judged(rec, [w.item_category(c) for c in list(range(20)) + gen.U32])
    yield "sorts", sorts

    def numbers(rec):
        for v in gen.U32:
            judged(rec, [w.item_file(0x32, v, 0, 0, v & 0xFFFF, b"x", "cp1252"),
                         w.item_cpl(v, "p", "n", "c", True, "cp1252"),
                         w.item_cpl(v, b"p", b"n", b"c", False, "cp1252")])
        for v in range(256):
            judged(rec, [w.item_network(0x42, v, b"\\\\srv", b"desc", b"comm", "cp1252"),
                         w.item_file(0x31, 1, 2, 3, v << 8 | v, b"a", "cp1252", unknown=v)])
    yield "numbers", numbers

    lengths = list(range(0, 40)) + [63, 64, 127, 128, 129, 254, 255, 256, 257, 259, 260, 261, 300,
                                    511, 512, 1000, 4096, 0x3FF0, 0x7FD0, 0x7FF0, 0x7FF1, 0x7FF2,
                                    0x7FFF, 0x8000, 0x8001, 0xC000, 0xFF00]

    def length(rec, n):
        r = gen.rng_for("C05", seed, "len", n)
        name = bytes(r.randrange(0x21, 0x7F) for _ in range(n))
        judged(rec, [w.item_file(0x32, 1, 2, 3, 4, name, "cp1252"), w.item_plain(0x52, b"")])
        u = name.decode().encode("utf-16le")
        if len(u) < 0xFF80:
            judged(rec, [w.item_file(0x36, 1, 0x21, 3, 4, u, "cp1252"), w.item_plain(0x52, b"")])
        if n < 0x5000:
            judged(rec, [w.item_network(0x41, 0xC0, name, name[::-1], name[1:], "cp1252")])
        if n < 0x2000:
            t = name.decode()
            judged(rec, [w.item_cpl(0, t, t[::-1], t[1:], True, "cp1252")])
            if n:
                judged(rec, [w.item_cpl(0, name, name[::-1], name[1:], False, "cp1252")])
        judged(rec, [w.item_unknown(0x99, name[:0xFE00]), w.item_plain(0x61, name[: 0xFF])])
        judged(rec, [w.item_volume(0x2F, name, "cp1252", b"z" * (n % 7))])
    for n in lengths:
        yield f"length{n}", lambda rec, n=n: length(rec, n)

    def large(rec, i):
        """Sizes and offsets inside of an item beyond what a signed number holds."""
        r = gen.rng_for("C05", seed, "large", i)
        n = r.choice([0x7FD0, 0x7FF0, 0x7FFF, 0x8000, 0x8001, 0x9000, 0xC000, 0xFE00, 0xFF00, r.randrange(0x7000, 0xFF00)])
        name = (bytes(r.randrange(0x21, 0x7F) for _ in range(97)) * 700)[:n]
        t = name.decode()
        k = i % 5
        if k == 0:
            entry = w.item_file(0x32, 1, 2, 3, 4, name, "cp1252")
            item = w.item_users_files(entry, gen.guid(r), gen.guid(r))
        elif k == 1:
            half = t[: n // 2 - 20]
            entry = w.item_file(0x36, 1, 0x21, 3, 4, half.encode("utf-16le"), "cp1252")
            item = w.item_users_files(entry, gen.guid(r), gen.guid(r))
        elif k == 2:
            cuts = sorted(r.randrange(1, n - 100) for _ in range(2)) if r.random() < 0.7 else [n - 100, n - 80]
            parts = name[: cuts[0]], name[cuts[0] : cuts[1]], name[cuts[1] : -60]
            item = w.item_cpl(r.getrandbits(32), *parts, False, "cp1252")
        elif k == 3:
            cuts = sorted(r.randrange(1, n // 2 - 60) for _ in range(2))
            half = t[: n // 2 - 40]
            item = w.item_cpl(r.getrandbits(32), half[: cuts[0]], half[cuts[0] : cuts[1]], half[cuts[1] :], True, "cp1252")
        else:
            cuts = sorted(r.randrange(1, n - 60) for _ in range(2))
            item = w.item_network(0x41, 0xC0, name[: cuts[0]], name[cuts[0] : cuts[1]], name[cuts[1] : -40], "cp1252")
        rec.seen("large items")
        rec.maximum("bytes of an item", len(item.raw))
        judged(rec, [item, w.item_plain(0x52, b"")] if len(item.raw) < 0xFFF0 else [item])
    for i in range(60 if tier == "quick" else 3000):
        yield f"large{i}", lambda rec, i=i: large(rec, i)

    def many(rec, n):
        r = gen.rng_for("C05", seed, "many", n)
        items, total = [], 0
        while len(items) < n and total < 0xFF00:
            i = gen.item(r, "cp1252", maxlen=8)
            total += len(i.raw)
            if total < 0xFFF0:
                items.append(i)
        judged(rec, items)
    for n in (0, 1, 2, 3, 10, 100, 255, 256, 257, 1000, 5000):
        yield f"many{n}", lambda rec, n=n: many(rec, n)
    yield "tiny", lambda rec: judged(rec, [w.item_plain(0x52, b"")] * 21840)

    def tail(rec, r):
        """Nothing behind the terminal ID belongs to the list."""
        items = [gen.item(r, "cp1252") for _ in range(r.randrange(4))]
        more = b"".join(gen.item(r, "cp1252").raw for _ in range(2))
        judged(rec, items, id_tail=b"\0\0" + more + b"\0\0")
    for i in range(20 if tier == "quick" else 300):
        yield f"tail{i}", lambda rec, i=i: tail(rec, gen.rng_for("C05", seed, "tail", i))

    for i in range(2 if tier == "quick" else 30):
        for kind in gen.ITEM_KINDS:
            if kind == "unknown":
                continue
            yield f"short-{kind}-{i}", lambda rec, i=i, k=kind: short_items(
                rec, gen.rng_for("C05", seed, "short", k, i), k, "cp1252")
        yield f"cut-{i}", lambda rec, i=i: truncated_list(
            rec, gen.rng_for("C05", seed, "cut", i), "cp1252")

    def rand(rec, i):
        r = gen.rng_for("C05", seed, "rand", i)
        cp = r.choice(gen.CODEPAGES)
        items = [gen.item(r, cp) for _ in range(r.choice([1, 1, 2, 3, 4, 8]))]
        judged(rec, items, cp, {"items": [i.raw[:48].hex() for i in items], "cp": cp} if i < 5 else None)
    for i in range(2500 if tier == "quick" else 60000):
        yield f"rand{i}", lambda rec, i=i: rand(rec, i)
