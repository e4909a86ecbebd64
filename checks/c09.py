"""C09: the property store."""

from lib import core, gen, judge
from lib import wire as w

RULE = ("property stores of 0..many storages with 0..many values: every documented value type "
        "with random payloads, integer and string names, all boundary 16-bit integers, texts of "
        "length 0..300 and special texts, non-zero padding, values larger than needed, text "
        "counts beyond the value; non-trivial = new store compared as a whole with the model")
ASSUMPTIONS = ["only VT_I2 and VT_LPWSTR values are decoded, others are reported as null",
               "a value whose padding is not zero is not decoded"]
MUST_SEE = {"value types": 70, "values compared": 8000, "16-bit integers": 1000,
            "string names": 100, "bounded": 100}
PATHS = [("extra", "METADATA_PROPERTIES_BLOCK")]


def judged(rec, storages, sample=None, tail=b"", **kw):
    b = w.build(blocks=[w.block_property_store(storages, tail)] + kw.pop("more", []), **kw)
    for _, s in storages:
        for v in s["serialized_property_values"]:
            rec.state("value types", v["value_type"])
            if "name" in v:
                rec.seen("string names")
    return judge.conform(rec, MOD, b, PATHS, sample=sample)


def inside(rec, r):
    """A text which claims to be longer than its value ends with the value; a neighbour which
    follows is not part of it."""
    t = "".join(r.choice("abcdef") for _ in range(r.randrange(1, 20)))
    claim = len(t) + r.choice([1, 2, 3, 10, 1000, 0x7FFFFFFF, 0xFFFFFFFF - len(t)])
    raw = w.u16(0x1F) + w.u16(0) + w.u32(claim) + t.encode("utf-16le")
    body = w.u32(r.randrange(99)) + b"\0" + raw
    key = int.from_bytes(body[:4], "little")
    full = w.u32(len(body) + 4) + body
    v1 = (full, {"value_size": len(full), "id": key, "value": t, "value_type": "VT_LPWSTR"})
    v2 = w.property_value(7, 0x1F, "NEIGHBOUR")
    s2 = w.property_storage(gen.guid(r), [w.property_value(8, 2, 1)])
    vals = [v1, v2] if r.random() < 0.5 else [v1]
    rec.seen("bounded")
    judged(rec, [w.property_storage(b"\1" * 16, vals), s2],
           more=[w.block_shim("NeighbourBlock")])


def link(rec, r, b, cp):
    judge.conform(rec, MOD, b, PATHS, cp)


def cases(tier, seed):
    def types(rec):
        r = gen.rng_for("C09", seed, "types")
        for vt in w.VARTYPES:
            for n in (0, 2, 4, 8, 16, 33):
                if vt in (2, 0x1F):
                    continue
                for fmt in (b"\2" * 16, w.STRING_NAMED):
                    key = "name%d" % n if fmt == w.STRING_NAMED else n
                    judged(rec, [w.property_storage(fmt, [w.property_value(key, vt, gen.rbytes(r, n)),
                                                          w.property_value(key, 2, -n)])])
    yield "types", types

    def ints(rec):
        for base in range(-32768, 32768, 65536 // (16 if tier == "quick" else 256)):
            vals = [w.property_value(i & 0xFFFF, 2, v) for i, v in enumerate(range(base, base + 128))
                    if -32768 <= v < 32768]
            rec.seen("16-bit integers", len(vals))
            judged(rec, [w.property_storage(b"\3" * 16, vals)])
        judged(rec, [w.property_storage(b"\3" * 16, [w.property_value(v, 2, i) for i, v in enumerate(gen.U32)])])
    yield "ints", ints

    def texts(rec):
        ts = ["x" * n for n in range(0, 300)] + [t for t in gen.SPECIAL_TEXT if "\0" not in t]
        for i in range(0, len(ts), 10):
            judged(rec, [w.property_storage(b"\4" * 16, [w.property_value(i, 0x1F, t) for t in ts[i : i + 10]]),
                         w.property_storage(w.STRING_NAMED, [w.property_value(t, 2, 5) for t in ts[i : i + 10]])])
        for n in (1000, 32768, 65536, 100000):
            judged(rec, [w.property_storage(b"\4" * 16, [w.property_value(1, 0x1F, "y" * n)])])
    yield "texts", texts

    def shapes(rec):
        for v in gen.U32:
            judged(rec, [w.property_storage(bytes(range(16)), [], v)])
        for n in (0, 1, 2, 3, 10, 100, 600, 1100, 5000 if tier == "quick" else 50000):
            rec.maximum("storages of a store, values of a storage", n)
            judged(rec, [w.property_storage(bytes([i & 255] * 16), []) for i in range(n)])
            judged(rec, [w.property_storage(b"\5" * 16, [w.property_value(i, 2, i) for i in range(n)])] * 2)
        for bit in range(128):  # one bit away from the string-named format
            fmt = bytearray(w.STRING_NAMED)
            fmt[bit // 8] ^= 1 << bit % 8
            judged(rec, [w.property_storage(bytes(fmt), [w.property_value(77, 0x1F, "v")])])
        for pad in (1, 0x100, 0xFFFF):
            judged(rec, [w.property_storage(b"\6" * 16, [w.property_value(1, 0x1F, "t", pad),
                                                         w.property_value(2, 2, 7, pad),
                                                         w.property_value(3, 2, 7)])])
        for tail in (b"", b"\0", b"junk", b"\0" * 8, b"\x20\0\0\0" + b"1SPS" + b"\0" * 24):
            judged(rec, [w.property_storage(b"\7" * 16, [w.property_value(3, 2, 7)])], tail=tail)
    yield "shapes", shapes

    for i in range(150 if tier == "quick" else 4000):
        yield f"inside{i}", lambda rec, i=i: inside(rec, gen.rng_for("C09", seed, "in", i))

    def rand(rec, i):
        r = gen.rng_for("C09", seed, "r", i)
        ss = [gen.storage(r, r.choice([10, 60, 200])) for _ in range(r.randrange(5))]
        judged(rec, ss, {"store": [s[0][:40].hex() for s in ss]} if i < 5 else None,
               tail=b"" if r.random() < 0.7 else gen.rbytes(r, 7),
               more=[gen.block(r, "cp1252", "idlist")] if r.random() < 0.2 else [])
    for i in range(1200 if tier == "quick" else 40000):
        yield f"rand{i}", lambda rec, i=i: rand(rec, i)
