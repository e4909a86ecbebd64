"""C22: an ID list says the same in a block of the extra data as in the target."""

import itertools

from lib import core, gen, judge
from lib import wire as w

RULE = ("the same ID list bytes (all type indicators, random items of all kinds, damaged, short, "
        "random bytes as payload, repeated items, lists without their end) as the target of one link and as the "
        "identifier block of another one: the reported lists are equal, entry for entry, in the data "
        "and in the printed forms; well formed ones against the reference as well; non-trivial = "
        "new list with at least one item")
ASSUMPTIONS = ["the list ends at its terminal ID, at the end of the block or of the target list"]
MUST_SEE = {"lists": 3000, "items compared": 6000, "first bytes": 256, "classes": 13, "lists with repeated items": 200}


def pair(rec, raw, cp, exp=None):
    """`raw`: the list with its end."""
    a = w.header(link_flags=1)[0] + w.u16(len(raw)) + raw + w.u32(0)
    b = w.header()[0] + w.u32(len(raw) + 8) + w.u32(0xA000000C) + raw + w.u32(0)
    oa = core.observe(MOD, a, cp=cp)
    ob = core.observe(MOD, b, cp=cp)
    for o, data in ((oa, a), (ob, b)):
        if o.exc is not None:
            rec.violation(o.problem(), data, {"cp": cp}, trace=o.trace)
            return
    ia = judge.section(oa.json_all, ("target", "items"))
    ib = judge.section(ob.json_all, ("extra", "SHELL_ITEM_IDENTIFIER_BLOCK", "id_list"))
    rec.seen("lists")
    rec.ok(raw, {"list": raw[:60].hex(), "items": core.short(ia, 200)} if rec.counts["lists"] % 500 == 1 else None)
    if ia is core.MISSING or ib is core.MISSING:
        rec.violation(f"{'target' if ia is core.MISSING else 'block'}: no list is reported", a if ia is core.MISSING else b, {"cp": cp})
        return
    for x in ia:
        rec.seen("items compared")
        if isinstance(x, dict):
            rec.state("classes", x.get("class"))
    d = core.differs(ia, ib, "id_list")
    if d:
        rec.violation("target and block do not agree: " + d, b, {"cp": cp})
        return
    if bool(oa.warnings) != bool(ob.warnings):
        rec.violation(f"warnings of the target {oa.warnings}, of the block {ob.warnings}", b, {"cp": cp})
        return
    if exp is not None:
        d = core.differs(exp, ib, "id_list")
        if d:
            rec.violation(d, b, {"cp": cp})


def spoil(r, raw):
    raw = bytearray(raw)
    for _ in range(r.choice([1, 1, 2, 4])):
        if not raw:
            break
        i = r.randrange(len(raw))
        k = r.random()
        if k < 0.4:
            raw[i] = r.choice([0, 0xFF, r.randrange(256)])
        elif k < 0.6:
            raw[i : i + 2] = w.u16(gen.num(r, 2))
        elif k < 0.8:
            del raw[i:]
        else:
            del raw[i : i + r.randrange(1, 9)]
    return bytes(raw[:65000])


def stub(r, cp):
    """A well framed item which is too short."""
    raw = gen.item(r, cp, maxlen=10).raw
    n = r.choice([3, 3, 4, 5, 6, 10, 14, max(3, len(raw) - 1)])
    return w.u16(min(n, len(raw))) + raw[2:n]


DIRECTED = {"top": 1 << 17}


def link(rec, r, b, cp):
    items = [p for label, p, _, _ in b.regions if label == "item"]
    if items:
        raw = b"".join(p.raw for p in items)
        if len(raw) < 65530:
            pair(rec, raw + w.u16(0), cp, [p.exp for p in items])


def cases(tier, seed):
    quick = tier == "quick"
    for t in range(256):
        def by_type(rec, t=t):
            r = gen.rng_for("C22", seed, "t", t)
            rec.state("first bytes", t)
            for _ in range(6 if quick else 60):
                cp = r.choice(gen.CODEPAGES)
                it = gen.item_of_type(r, t, cp)
                after = gen.item(r, cp, maxlen=20)
                pair(rec, it.raw + after.raw + w.u16(0), cp, [it.exp, after.exp])
                if it.raw[2] == t:
                    rec.seen("types")
                for n in range(0, 60, 7 if quick else 1):  # any payload of any length
                    p = gen.rbytes(r, n)
                    pair(rec, w.u16(n + 3) + w.u8(t) + p + after.raw + w.u16(0), cp)
                if rec.violations:
                    return
        yield f"type{t}", by_type
    def many(rec):
        """Lists of as many items as there is room for."""
        r = gen.rng_for("C22", seed, "many")
        for n in (100, 255, 256, 257, 300, 1000, 1025, 4097, 10000, 20000):
            kinds = [w.u16(3) + w.u8(0x52), w.u16(3) + w.u8(0x61)] if n > 4500 else \
                [gen.item(r, "cp1252", k, maxlen=3).raw for k in ("plain", "unknown", "file", "category") if k in gen.ITEM_KINDS]
            kinds = [k for k in kinds if len(k) * n < 65000] or [w.u16(3) + w.u8(0x72)]
            rec.maximum("items of a list", n)
            pair(rec, b"".join(r.choice(kinds) for _ in range(n)) + w.u16(0), "cp1252")
    yield "many", many
    for i in range(1500 if quick else 40000):
        def rand(rec, i=i):
            r = gen.rng_for("C22", seed, i)
            cp = r.choice(gen.CODEPAGES)
            items = [gen.item(r, cp, maxlen=30) for _ in range(r.randrange(6))]
            raw = b"".join(x.raw for x in items)
            k = r.random()
            if k < 0.4:
                pair(rec, raw + w.u16(0) + gen.rbytes(r, r.choice([0, 0, 5])), cp, [x.exp for x in items])
            elif k < 0.7:
                pair(rec, spoil(r, raw + w.u16(0)), cp)
            elif k < 0.9:  # the same ones again and again, whole or not
                few = [stub(r, cp) if r.random() < 0.6 else gen.item(r, cp, maxlen=10).raw for _ in range(r.choice([1, 2, 3]))]
                runs = [r.choice(few) for _ in range(r.choice([1, 2, 3, 6]))]
                raw = b"".join(x * r.choice([1, 1, 2, 3, 5]) for x in runs)
                rec.maximum("equal items in a row", max(len(list(g)) for _, g in itertools.groupby(runs)))
                rec.seen("lists with repeated items")
                pair(rec, raw + w.u16(0), cp)
            else:
                pair(rec, gen.rbytes(r, r.randrange(300)), cp)
        yield f"random{i}", rand


PARALLEL = True
