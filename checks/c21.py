"""C21: identifiers keep every bit."""

import uuid

from lib import core, gen, judge, places
from lib import wire as w

RULE = ("every place which holds a GUID x every byte of it with all 256 values, single bits, the "
        "corners and random values, against the uuid module; packed (Darwin) identifiers: every "
        "value of every digit, corners, random ones, with feature names of every length and "
        "character, with and without component; malformed ones: every foreign character in every "
        "place, overflowing digits, missing digits and terminators; structures which end within an identifier at every byte; non-trivial = new (place, GUID)")
ASSUMPTIONS = ["a malformed packed identifier is reported as None, with a warning",
               "characters of feature names are those of MSI identifiers and a few more, not < or >"]
MUST_SEE = {"GUIDs": 5000, "places": 17, "Darwin texts": 1500, "malformed": 800, "cut identifiers": 400}
A = "cp1252"
PLACES = list(places.guids())


def check(rec, place, values):
    name, build, path = place
    for g in values:
        data = build(g).data
        o = core.observe(MOD, data)
        if o.exc is not None:
            rec.violation(o.problem(), data, trace=o.trace)
            return
        rec.seen("GUIDs")
        rec.state("places", name)
        rec.ok((name, g))
        got = places.at(o.json_all, path)
        want = str(uuid.UUID(bytes_le=g)).upper()
        if got != want:
            rec.violation(f"{name}: {g.hex()} is {want}, reported {got!r}", data)
            return
        if name == "link class" and bool(o.warnings) != (g != w.CLSID.bytes_le):
            rec.violation(f"link class {want}: warnings {o.warnings}", data)
            return


def darwin(rec, text, product, feature, component, bad=False, key="Darwin texts"):
    raw = text.encode("utf-16le")
    body = w.fixed_ansi(b"x", 260) + raw + b"\0" * (520 - len(raw))
    data = w.build(blocks=[w._block("x", 0xA0000006, body, "DARWIN_BLOCK", {})]).data
    o = core.observe(MOD, data, ("json_all", "pjson_all", "text_all"))
    if o.exc is not None:
        rec.violation(o.problem(), data, trace=o.trace)
        return False
    rec.seen(key)
    rec.ok(("darwin", text), {"text": text, "product": product, "feature": str(feature), "component": component}
           if rec.counts[key] % 400 == 1 else None)
    d = o.json_all["extra"].get("DARWIN_BLOCK")
    if d is None:
        rec.violation(f"{text!r}: the block is not reported", data)
        return False
    exp = {"product_code_id": product, "feature_name": feature, "component_id": component,
           "darwin_data_unicode": text}
    for k, v in exp.items():
        diff = core.differs(v, d.get(k, core.MISSING), k)
        if diff:
            rec.violation(f"{text!r}: {diff}", data)
            return False
    if bad != bool(o.warnings):
        rec.violation(f"{text!r}: warnings {o.warnings}", data)
        return False
    return True


def holders():
    """(name, structure with the identifier, key it is reported under): structures which can be cut."""
    def block(sig):
        return lambda raw: w.u32(len(raw)) + raw[4:], lambda raw: w.build(blocks=[w.Part("x", raw, {}, None)])
    item = (lambda raw: w.u16(len(raw)) + raw[2:],
            lambda raw: w.build(items=[w.Part("x", raw, {}, None), w.item_plain(0x52, b"")]))
    inner = (lambda raw: w.u16(len(raw)) + raw[2:],
             lambda raw: w.build(blocks=[w.block_idlist([w.Part("x", raw, {}, None), w.item_plain(0x52, b"")])]))
    entry = w.item_file(0x32, 1, 2, 3, 4, b"n", A)
    other = bytes([7] * 16)
    makers = {"guid": lambda g: w.item_root(0x50, g), "volume_identifier": lambda g: w.item_volume(0x2E, g, A),
              "item_identifier": lambda g: w.item_control_panel(0x71, g),
              "delegate_class_id": lambda g: w.item_users_files(entry, g, other),
              "delegate_folder_id": lambda g: w.item_users_files(entry, other, g)}
    for key, make in makers.items():
        yield key, make, item
        yield key, make, inner
    for k, key in enumerate(["droid_volume_identifier", "droid_file_identifier",
                             "birth_droid_volume_identifier", "birth_droid_file_identifier"]):
        yield key, lambda g, k=k: w.block_tracker(b"m", [other] * k + [g] + [other] * (3 - k), A), block(0)
    yield "known_folder_id", lambda g: w.block_known_folder(g, 7), block(0)
    yield "format_id", lambda g: w.block_property_store([w.property_storage(g, [])]), block(0)


def everywhere(doc, key):
    if isinstance(doc, dict):
        for k, v in doc.items():
            if k == key:
                yield v
            yield from everywhere(v, key)
    elif isinstance(doc, list):
        for v in doc:
            yield from everywhere(v, key)


def cut(rec, r):
    """A structure which ends within the identifier: it is no identifier any more."""
    for key, make, (sized, link) in holders():
        for k in range(16):
            g = gen.rbytes(r, 16)
            raw = make(g).raw
            raw = raw[: raw.index(g) + k]
            data = link(sized(raw)).data
            o = core.observe(MOD, data)
            rec.seen("cut identifiers")
            rec.ok((key, g, k))
            if o.exc is not None:
                rec.violation(o.problem(), data, trace=o.trace)
                return
            got = [v for where in ("target", "extra") for v in everywhere(o.json_all.get(where), key)]
            if any(v is not None for v in got):
                rec.violation(f"{key}: only {k} bytes of it are in the structure, reported {got}", data)
                return


def good(rec, r, product, component, feature):
    return darwin(rec, w.darwin_text(product, feature, component), w.guid_text(product), feature or None,
                  w.guid_text(component) if component else None)


def digits(rec, i, tier):
    """All values of the i-th digit."""
    r = gen.rng_for("C21", rec.seed, "digit", i)
    for k in range(85):
        n = [r.randrange(1 << 32) for _ in range(4)]
        q, p = divmod(i, 5)
        m = n[q] - (n[q] // 85 ** p % 85 - k) * 85 ** p
        if not 0 <= m < 1 << 32:
            m = k * 85 ** p
            if m >= 1 << 32:
                continue
        n[q] = m
        g = b"".join(w.u32(x) for x in n)
        other = gen.rbytes(r, 16)
        if not good(rec, r, g, other, "F") or not good(rec, r, other, g, "Feature_1.x"):
            return


def malformed(rec, i):
    """Foreign characters in the i-th place; overflow of the group."""
    r = gen.rng_for("C21", rec.seed, "bad", i)
    p, c = gen.rbytes(r, 16), gen.rbytes(r, 16)
    pt, ct = w.pack_guid(p), w.pack_guid(c)
    foreign = [chr(x) for x in range(1, 0x7F) if chr(x) not in w.BASE85 and chr(x) not in "<>"]
    foreign += ["é", "日", "０", "\x7f", "\u200b"]
    for f in foreign:
        t = pt[:i] + f + pt[i + 1 :]
        if not darwin(rec, t + "F>" + ct, None, "F", w.guid_text(c), True, "malformed"):
            return
        t = ct[:i] + f + ct[i + 1 :]
        if not darwin(rec, pt + "F>" + t, w.guid_text(p), "F", None, True, "malformed"):
            return
    q = i // 5 * 5
    def group(n):
        return "".join(w.BASE85[n // 85 ** k % 85] for k in range(5))
    for over in ["~~~~~", "00000"[:4] + "~", "$!!!}"] + [group((1 << 32) + k) for k in (0, 1, 2, 84, 255)]:
        value = sum(w.BASE85.index(ch) * 85 ** k for k, ch in enumerate(over))
        if value < 1 << 32:
            continue
        t = pt[:q] + over + pt[q + 5 :]
        if not darwin(rec, t + "F<", None, "F", None, True, "malformed"):
            return
    # digits missing at the end
    if not darwin(rec, pt + "F>" + ct[:i], w.guid_text(p), "F", None, True, "malformed"):
        return
    # no terminator: the name must not lose anything
    name = "Feature_Name_%d" % i
    darwin(rec, pt + name, w.guid_text(p), w.OneOf(name, None), None, True, "malformed")


def link(rec, r, b, cp):
    """Every GUID of a link."""
    o = core.observe(MOD, b.data, cp=cp)
    if o.exc is not None:
        rec.violation(o.problem(), b.data, {"cp": cp}, trace=o.trace)
        return
    rec.ok(b.data)
    for path, exp in core.leaves(b.exp):
        if type(exp) is not str or len(exp) != 36 or exp.count("-") != 4:
            continue
        got = places.at(o.json_all, path)
        rec.seen("GUIDs of links judged")
        if got != exp:
            rec.violation(f"{path}: reported {core.short(got)}, is {exp}", b.data, {"cp": cp})
            return


def cases(tier, seed):
    quick = tier == "quick"
    for place in PLACES:
        for pos in range(16):
            def bytes_(rec, place=place, pos=pos):
                r = gen.rng_for("C21", seed, place[0], pos)
                base = bytes(range(0x10, 0x20)) if pos % 2 else gen.rbytes(r, 16)
                vals = range(256) if not quick else r.sample(range(256), 14) + [0, 9, 10, 0x0F, 0x80, 0xFF]
                check(rec, place, [base[:pos] + bytes([v]) + base[pos + 1 :] for v in vals])
            yield f"{place[0]}-{pos}", bytes_

        def corners(rec, place=place):
            r = gen.rng_for("C21", seed, place[0], "corners")
            one = [(1 << b).to_bytes(16, "little") for b in range(128)]
            ones = [((1 << 128) - 1 ^ 1 << b).to_bytes(16, "little") for b in range(128)]
            vals = [bytes(16), b"\xff" * 16, w.CLSID.bytes_le] + (r.sample(one + ones, 24) if quick else one + ones)
            check(rec, place, vals + [gen.rbytes(r, 16) for _ in range(20 if quick else 2000)])
        yield f"{place[0]}-corners", corners
    for i in range(20):
        yield f"digit{i}", lambda rec, i=i: digits(rec, i, tier)
        yield f"malformed{i}", lambda rec, i=i: malformed(rec, i)

    for i in range(2 if quick else 30):
        yield f"cut{i}", lambda rec, i=i: cut(rec, gen.rng_for("C21", seed, "cut", i))

    def names(rec, part):
        r = gen.rng_for("C21", seed, "names", part)
        for n in range(part, 200, 8):
            f = "".join(r.choice(gen.FEATURE_CHARS + "-+äß日") for _ in range(n))
            c = gen.rbytes(r, 16) if r.random() < 0.5 else None
            if not good(rec, r, gen.rbytes(r, 16), c, f):
                return
        for ch in gen.FEATURE_CHARS:
            if not good(rec, r, gen.rbytes(r, 16), gen.rbytes(r, 16) if part % 2 else None, ch):
                return
    for part in range(8):
        yield f"names{part}", lambda rec, p=part: names(rec, p)

    def randoms(rec, i):
        r = gen.rng_for("C21", seed, "random", i)
        for _ in range(50):
            c = gen.guid(r) if r.random() < 0.7 else None
            f = "".join(r.choice(gen.FEATURE_CHARS) for _ in range(r.randrange(39)))
            if not good(rec, r, gen.guid(r), c, f):
                return
    for i in range(8 if quick else 1000):
        yield f"random{i}", lambda rec, i=i: randoms(rec, i)


PARALLEL = True
