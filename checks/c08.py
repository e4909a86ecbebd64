"""C08: the extra data blocks."""

import itertools

from lib import core, gen, judge
from lib import wire as w

RULE = ("every kind of block alone, all ordered pairs of kinds, random sequences of up to 14 "
        "blocks, boundary values of every number, blocks larger than their documented size, equal and nearly equal blocks, "
        "every single bit of the signature flipped, unknown blocks of many sizes, terminal "
        "values 0-3; non-trivial = new extra data section compared as a whole with the model")
ASSUMPTIONS = ["of several known blocks of one kind the last one is reported (finding duplicate-block)",
               "of the colour table only the first entry is reported"]
MUST_SEE = {"kinds": 12, "pairs": 120, "signatures": 300, "values compared": 20000,
            "oversized": 40, "duplicates": 10, "links with blocks alike": 140}
PATHS = [("extra",), ("size",)]


def judged(rec, blocks, cp="cp1252", sample=None, **kw):
    b = w.build(blocks=blocks, **kw)
    for x in blocks:
        rec.state("kinds", x.kind)
        rec.state("signatures", x.raw[4:8])
    return judge.conform(rec, MOD, b, PATHS, cp, sample=sample)


def enlarged(part, r):
    """The same block with bytes of a later version behind its fields."""
    more = gen.rbytes(r, r.choice([1, 2, 4, 100, 1000]))
    raw = w.u32(len(part.raw) + len(more)) + part.raw[4:] + more
    return w.Part(part.kind, raw, dict(part.exp, size=len(raw)), part.warn, 4, name=part.name)


def duplicates(rec, r, kind):
    """Two blocks of one known kind: nothing which was stored may get lost silently."""
    one, two = gen.block(r, "cp1252", kind, True), gen.block(r, "cp1252", kind, True)
    other = gen.block(r, "cp1252", r.choice([k for k in gen.BLOCK_KINDS if k != kind]), True)
    b = w.build(blocks=[one, other, two])
    o = core.observe(MOD, b.data)
    if o.exc is not None:
        rec.violation(o.problem(), b.data, trace=o.trace)
        return
    rec.seen("duplicates")
    rec.ok(b.data)
    extra = judge.section(o.json_all, ("extra",))
    d = core.differs(other.exp if other.name != "UNKNOWN_BLOCK" else [other.exp],
                     extra.get(other.name, core.MISSING), other.name)
    if d:
        rec.violation("next to duplicates: " + d, b.data)
        return
    got = extra.get(one.name, core.MISSING)
    if one.name == "UNKNOWN_BLOCK":
        if core.differs([one.exp, two.exp], got, one.name):
            rec.violation("two unknown blocks: " + str(core.differs([one.exp, two.exp], got)), b.data)
        return
    if one.exp == two.exp:
        return
    if core.differs([one.exp, two.exp], got) is None:
        return  # both are there
    if core.differs(two.exp, got) is None and not o.warnings:
        rec.known_finding("duplicate-block")
        return
    if core.differs(two.exp, got) is None:
        return  # announced
    rec.violation(f"two blocks {one.name}: reported is {core.short(got)}", b.data)


DIRECTED = {"top": 1 << 25}


def link(rec, r, b, cp):
    judge.conform(rec, MOD, b, PATHS, cp)


def cases(tier, seed):
    known = [k for k in gen.BLOCK_KINDS if k != "unknown"]
    reps = 25 if tier == "quick" else 600
    for kind in gen.BLOCK_KINDS:
        def alone(rec, kind=kind):
            r = gen.rng_for("C08", seed, "alone", kind)
            for _ in range(reps):
                cp = r.choice(gen.CODEPAGES)
                judged(rec, [gen.block(r, cp, kind)], cp, terminal=r.randrange(4))
        yield f"alone-{kind}", alone

        def big(rec, kind=kind):
            r = gen.rng_for("C08", seed, "big", kind)
            for _ in range(6 if tier == "quick" else 100):
                part = gen.block(r, "cp1252", kind)
                if kind in ("unknown", "propstore"):
                    continue
                rec.seen("oversized")
                judged(rec, [enlarged(part, r), gen.block(r, "cp1252", "codepage" if kind != "codepage" else "known")])
        yield f"oversized-{kind}", big
    for a, b in itertools.permutations(gen.BLOCK_KINDS, 2):
        def pair(rec, a=a, b=b):
            r = gen.rng_for("C08", seed, a, b)
            rec.state("pairs", (a, b))
            judged(rec, [gen.block(r, "cp1252", a), gen.block(r, "cp1252", b)])
        yield f"pair-{a}-{b}", pair

    def numbers(rec):
        for v in gen.U32:
            judged(rec, [w.block_codepage(v), w.block_special_folder(v, v ^ 0xFFFFFFFF),
                         w.block_known_folder(bytes(range(16)), v)])
            judged(rec, [w.block_special_folder(v ^ 1, v)])
            judged(rec, [w.block_tracker(b"m", [bytes([i] * 16) for i in range(4)], "cp1252", v, v ^ 3)])
        for i in range(196):
            for x in (1, 0x80, 0xFF):
                raw = bytearray(196)
                raw[i] = x
                judged(rec, [w.block_console(bytes(raw), "Consolas")])
    yield "numbers", numbers

    def signatures(rec):
        for sig in sorted(w.KNOWN_SIGS):
            for bit in range(32):
                s = sig ^ 1 << bit
                if s not in w.KNOWN_SIGS:
                    judged(rec, [w.block_unknown(s, bytes(range(40)))])
        for low in range(256):
            for top in (0xA0000000, 0x0A000000, 0xA0000100):
                if top | low not in w.KNOWN_SIGS:
                    judged(rec, [w.block_unknown(top | low, b"payload")])
    yield "signatures", signatures

    def unknowns(rec):
        r = gen.rng_for("C08", seed, "unknown")
        for n in list(range(0, 70)) + [255, 256, 1000, 65536, 200000]:
            judged(rec, [w.block_unknown(0xBEEF0000 + n, gen.rbytes(r, n)), w.block_codepage(1)])
        judged(rec, [w.block_unknown(0x100 + i, gen.rbytes(r, i % 9)) for i in range(500)])
        for n in (1001, 1500, 5000, 20000 if tier == "quick" else 100000):  # many blocks, known ones last
            rec.maximum("blocks of a link", n)
            judged(rec, [w.block_unknown(0x100 + i, gen.rbytes(r, i % 5)) for i in range(n)]
                   + [w.block_tracker(b"m", [bytes([i] * 16) for i in range(4)], "cp1252"), w.block_codepage(n)])
            judged(rec, [w.block_unknown(7, b"")] * n)
    yield "unknowns", unknowns

    def lengths(rec):
        """Blocks whose texts have no limit but the block, and lists of any length."""
        r = gen.rng_for("C08", seed, "lengths")
        for n in list(range(0, 70)) + [100, 127, 128, 129, 255, 256, 257, 1000, 32767, 32768, 40000, 70000]:
            rec.seen("lengths")
            letter = r.choice("aB\u017e\u65e5")
            judged(rec, [w.block_shim("".join(r.choice("abcdefg") for _ in range(n)), r.choice([0, 128])),
                         w.block_codepage(n)])
            judged(rec, [w.block_codepage(n), w.block_shim(letter * n)])
        for n in (0, 1, 2, 50, 700, 4000):
            one = w.item_file(0x31, n, 0, 0, 0, b"x" * (n % 70), "cp1252")
            judged(rec, [w.block_idlist([one] * n), w.block_codepage(n)])
        for n in (1000, 32700, 60000, 65000):
            judged(rec, [w.block_idlist([w.item_file(0x31, n, 0, 0, 0, b"x" * n, "cp1252")] * 3), w.block_codepage(n)])
    yield "lengths", lengths

    for kind in gen.BLOCK_KINDS:
        for i in range(1 if tier == "quick" else 10):
            yield f"twice-{kind}-{i}", lambda rec, k=kind, i=i: duplicates(
                rec, gen.rng_for("C08", seed, "twice", k, i), k)

    def alike(rec, i):
        """Unknown blocks which are equal, or differ in nothing but signature, payload or place."""
        r = gen.rng_for("C08", seed, "alike", i)
        pay = gen.rbytes(r, r.choice([0, 1, 4, 16, 16, 300]))
        sig, other = 0xBEEF0001, 0xBEEF0001 ^ 1 << r.randrange(32)
        pool = [(sig, pay), (other, pay), (sig, pay[::-1]), (sig, pay + b"\0"), (sig, b"")]
        picked = [r.choice(pool[: r.choice([1, 2, 5])]) for _ in range(r.randrange(2, 9))]
        blocks = [w.block_unknown(s, p) for s, p in picked]
        for k in r.sample(known, r.randrange(3)):
            blocks.insert(r.randrange(len(blocks) + 1), gen.block(r, "cp1252", k))
        rec.seen("links with blocks alike")
        judged(rec, blocks, terminal=r.randrange(4), terminator=r.random() < 0.8)
    for i in range(150 if tier == "quick" else 4000):
        yield f"alike{i}", lambda rec, i=i: alike(rec, i)

    def rand(rec, i):
        r = gen.rng_for("C08", seed, "r", i)
        cp = r.choice(gen.CODEPAGES)
        kinds = r.sample(known, r.randrange(1, 12)) + ["unknown"] * r.choice([0, 0, 1, 2, 3])
        r.shuffle(kinds)
        blocks = [gen.block(r, cp, k) for k in kinds]
        judged(rec, blocks, cp, {"blocks": kinds, "cp": cp} if i < 5 else None,
               terminal=r.randrange(4), unicode_=r.random() < 0.5,
               terminator=r.random() < 0.9)
    for i in range(500 if tier == "quick" else 20000):
        yield f"rand{i}", lambda rec, i=i: rand(rec, i)
