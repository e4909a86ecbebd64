"""C17: the parser speaks up about what is wrong, and only about that."""

import ast
import base64
import contextlib
import io
import struct

from lib import core, gen, judge, ref
from lib import wire as w

RULE = ("links which follow the documents in everything (no warning in any stage), the same links "
        "with exactly one deviation out of a catalogue (at least one warning by the end of the "
        "report), random links whose deviations are known, damaged links whose irregularities the "
        "reference reader counts (as many warnings at least; none when there are none); "
        "non-trivial = new file judged")
ASSUMPTIONS = ["conforming = [MS-SHLLINK] and libfwsi's shell items, times in the range of the "
               "calendar, texts valid in the code page, at least the terminal block",
               "bytes in the code page cp1252 unless the case says otherwise"]
MUST_SEE = {"conforming links": 1500, "deviating links": 1500, "deviations": 45,
            "warnings recorded": 1500, "damaged links without irregularities": 400, "damaged links with irregularities": 2000,
            "irregularities told": 3500, "kinds of irregularities": 22}
STAGES = core.STAGES


def run(rec, data, cp="cp1252", stages=STAGES, allow=True):
    out, err = io.StringIO(), io.StringIO()
    kw = judge.kwargs(cp, allow)
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        o = core.observe(MOD, data, stages, **kw)
    if o.exc is not None:
        rec.violation(o.problem(), data, kw, trace=o.trace)
        return None
    if out.getvalue() or err.getvalue():
        rec.violation("parsing and get_json() print: "
                      + core.short(out.getvalue() + err.getvalue()), data, kw)
        return None
    rec.seen("warnings recorded", len(o.warnings))
    for cat, _ in o.warnings:
        rec.state("categories", cat)
        if cat in ("DeprecationWarning", "PendingDeprecationWarning", "ImportWarning",
                   "ResourceWarning"):  # nobody gets to see these
            rec.violation(f"a warning of the category {cat}: {o.warnings[0][1]}", data, kw)
            return None
    return o


def conforming(rec, r, cp):
    b = gen.link(r, cp, conforming=True, maxlen=40)
    if b.warn is not False:
        return
    o = run(rec, b.data, cp, allow=b.allow)
    if o is None:
        return
    rec.seen("conforming links")
    rec.ok(b.data, judge.describe(b) if rec.counts["conforming links"] < 3 else None)
    if o.warnings:
        rec.violation("warned about a conforming link: " + core.short(o.warnings), b.data, {"cp": cp})


def known(rec, r, cp):
    b = gen.link(r, cp, maxlen=40)
    o = run(rec, b.data, cp, ("json_all",), b.allow)
    if o is None:
        return
    rec.ok(b.data)
    if b.warn is True:
        rec.seen("deviating links")
        if not o.warnings:
            rec.violation("no warning, though: " + ", ".join(
                p.kind for _, p, _, _ in b.regions if p is not None and p.warn) or "header",
                b.data, {"cp": cp})
    elif b.warn is False:
        rec.seen("conforming links")
        if o.warnings:
            rec.violation("warned about a conforming link: " + core.short(o.warnings), b.data, {"cp": cp})


BAD = b"a\x81b"  # 0x81 is not a character of cp1252 and starts nothing in UTF-8
A = "cp1252"
G = bytes(range(16))


def rest(r):
    """Conforming neighbours."""
    return dict(strings=gen.strings(r, A, True, True, 20, 0.5),
                blocks=[gen.block(r, A, k, True, 20) for k in
                        r.sample([k for k in gen.BLOCK_KINDS if k not in ("propstore",)], 2)
                        if k != "idlist"])


def with_item(r, *items):
    k = rest(r)
    other = [gen.item(r, A, r.choice(["root", "volume", "file", "file_u", "network"]), True, 20)
             for _ in range(r.randrange(3))]
    i = r.randrange(len(other) + 1)
    return w.build(gen.header_fields(r, True), other[:i] + list(items) + other[i:], **k).data


def with_block(r, *blocks):
    k = rest(r)
    names = {b.name for b in blocks}
    k["blocks"] = [b for b in k["blocks"] if b.name not in names]
    i = r.randrange(len(k["blocks"]) + 1)
    k["blocks"][i:i] = blocks
    return w.build(gen.header_fields(r, True), **k).data


def with_info(r, info):
    return w.build(gen.header_fields(r, True), info=info, **rest(r)).data


def with_head(r, **kw):
    h = gen.header_fields(r, True)
    h.update(kw)
    return w.build(h, **rest(r)).data


def plain(r):
    items = [gen.item(r, A, k, True, 20) for k in ("root", "volume", "file")]
    return w.build(gen.header_fields(r, True), items, gen.info(r, A, r.choice(["local", "network"]), True, 20),
                   **rest(r))


def cut_into(r, label, lead, upto=1 << 20):
    b = plain(r)
    while not any(g[0] == label for g in b.regions):
        b = plain(r)
    g = r.choice([g for g in b.regions if g[0] == label])
    return b.data[: r.randrange(g[2] + lead, min(g[3], g[2] + upto))]


VOL = w.volume_id(3, 1, b"L", A)
BAD_TIME = (1 << 63) | 12345


def raw_item(type_, payload):
    return w.Part("x", w.u16(len(payload) + 3) + w.u8(type_) + payload, {}, None)


def nz(r, bits):
    return r.randrange(1, 1 << bits)


def bad_utf16(r):
    u = r.choice([0xD800, 0xDBFF, 0xDC00, 0xDFFF])
    return b"a\0" + w.u16(u) + b"b\0"


def fixed(raw, n):
    return raw.ljust(n, b"\0")


def str_part(key, raw, unicode_):
    return w.Part("string", w.u16(len(raw) // (2 if unicode_ else 1)) + raw, None, None, 2, name=key)


DEVIATIONS = [
    ("reserved1", lambda r: with_head(r, reserved1=nz(r, 16))),
    ("reserved2", lambda r: with_head(r, reserved2=nz(r, 32))),
    ("reserved3", lambda r: with_head(r, reserved3=nz(r, 32))),
    ("link class", lambda r: with_head(r, clsid=gen.rbytes(r, 16))),
    ("link class by a bit", lambda r: with_head(r, clsid=(int.from_bytes(w.CLSID.bytes_le, "little") ^ 1 << r.randrange(128)).to_bytes(16, "little"))),
    ("creation time", lambda r: with_head(r, creation=BAD_TIME + nz(r, 60))),
    ("access time", lambda r: with_head(r, access=BAD_TIME + nz(r, 60))),
    ("write time", lambda r: with_head(r, write=BAD_TIME + nz(r, 60))),
    ("root sort index", lambda r: with_item(r, w.item_root(r.choice([x for x in range(256) if x not in w.SORT_INDEX]), G))),
    ("volume name", lambda r: with_item(r, w.item_volume(0x2F, BAD, A))),
    ("file flags", lambda r: with_item(r, w.item_file(r.choice([0x30, 0xB0, 0x38]), 1, 0, 0, 0, b"n", A))),
    ("file date", lambda r: with_item(r, w.item_file(0x32, 1, r.choice([1, 0x20, 0x1E1, 0x5A5, 0x21A0 | 0]), r.choice([0, 5]), 0, b"n", A))),
    ("file time", lambda r: with_item(r, w.item_file(0x32, 1, 0x21, r.choice([0xFFFF, 24 << 11, 60 << 5, 30]), 0, b"n", A))),
    ("file name", lambda r: with_item(r, w.item_file(0x32, 1, 0, 0, 0, BAD, A))),
    ("Unicode file name", lambda r: with_item(r, w.item_file(0x36, 1, 0, 0, 0, bad_utf16(r), A))),
    ("network flags", lambda r: with_item(r, w.item_network(0x40, 0, b"l", b"", b"", A))),
    ("network location", lambda r: with_item(r, w.item_network(0x41, 0xC0, BAD, b"d", b"c", A))),
    ("network description", lambda r: with_item(r, w.item_network(0x41, 0xC0, b"l", BAD, b"c", A))),
    ("network comments", lambda r: with_item(r, w.item_network(0x41, 0xC0, b"l", b"d", BAD, A))),
    ("category", lambda r: with_item(r, w.item_category(r.randrange(12, 1 << 32)))),
    ("cpl path", lambda r: with_item(r, w.item_cpl(1, BAD, b"n", b"c", False, A))),
    ("cpl name", lambda r: with_item(r, w.item_cpl(1, b"p", BAD, b"c", False, A))),
    ("cpl comments", lambda r: with_item(r, w.item_cpl(1, b"p", b"n", BAD, False, A))),
    ("users file", lambda r: with_item(r, w.item_users_files(w.item_file(0x32, 1, 0, 0, 0, BAD, A), G, G))),
    ("unknown item", lambda r: with_item(r, gen.item(r, A, "unknown"))),
    ("short root", lambda r: with_item(r, raw_item(0x1F, b"\x50" + G[: r.randrange(16)]))),
    ("short volume GUID", lambda r: with_item(r, raw_item(0x2E, b"\x80" + G[: r.randrange(16)]))),
    ("short file", lambda r: with_item(r, raw_item(0x32, b"\0" + G[: r.randrange(10)]))),
    ("short control panel", lambda r: with_item(r, raw_item(0x71, b"\x80" + bytes(10) + G[: r.randrange(16)]))),
    ("short category", lambda r: with_item(r, raw_item(0x01, bytes(r.randrange(9))))),
    ("short users files", lambda r: with_item(r, raw_item(0x74, b"\0" + bytes(r.randrange(6))))),
    ("cut item", lambda r: cut_into(r, "item", 3)),
    ("cut LinkInfo", lambda r: cut_into(r, "info", 4, 0x1C)),
    ("cut LinkInfo size", lambda r: (lambda b: b.data[: next(g[2] for g in b.regions if g[0] == "info") + r.randrange(4)])(plain(r))),
    ("cut count of a string", lambda r: (lambda b: b.data[: next(g[2] for g in b.regions if g[0] == "string") + r.randrange(2)])(
        w.build(strings={"description": w.string_data("description", "abc", True, A)}, info=None))),
    ("missing strings", lambda r: w.header(link_flags=r.choice([4, 8, 16, 32, 64]))[0]),
    ("missing LinkInfo", lambda r: w.header(link_flags=2)[0]),
    ("missing ID list", lambda r: w.header(link_flags=1)[0] + b"\0" * r.randrange(2)),
    ("ID list without end", lambda r: w.header(link_flags=1)[0] + w.u16(1) + b"\0"),
    ("label", lambda r: with_info(r, w.link_info(A, (w.volume_id(3, 1, BAD, A), b"b"), None, b"s"))),
    ("base path", lambda r: with_info(r, w.link_info(A, (VOL, BAD), None, b"s"))),
    ("suffix", lambda r: with_info(r, w.link_info(A, (VOL, b"b"), None, BAD))),
    ("net name", lambda r: with_info(r, w.link_info(A, None, w.network_link(BAD, b"d", None, A), b"s"))),
    ("device name", lambda r: with_info(r, w.link_info(A, None, w.network_link(b"n", BAD, None, A), b"s"))),
    ("string", lambda r: w.build(strings={k: str_part(k, BAD, False) for k in [r.choice(w.STRINGS)[1]]}, unicode_=False).data),
    ("Unicode string", lambda r: w.build(strings={k: str_part(k, bad_utf16(r), True) for k in [r.choice(w.STRINGS)[1]]}).data),
    ("tracker length", lambda r: with_block(r, w.block_tracker(b"m", [G] * 4, A, length=r.choice([0, 0x57, 0x59, 0x60, 0x5800])))),
    ("tracker version", lambda r: with_block(r, w.block_tracker(b"m", [G] * 4, A, version=nz(r, 32)))),
    ("machine", lambda r: with_block(r, w.block_tracker(BAD, [G] * 4, A))),
    ("environment", lambda r: with_block(r, w.block_environment(BAD, "u", A))),
    ("Unicode environment", lambda r: with_block(r, w._block("x", 0xA0000001, bytes(260) + fixed(bad_utf16(r), 520), "ENVIRONMENTAL_VARIABLES_LOCATION_BLOCK", {}))),
    ("icon", lambda r: with_block(r, w.block_icon(BAD, "u", A))),
    ("Unicode icon", lambda r: with_block(r, w._block("x", 0xA0000007, bytes(260) + fixed(bad_utf16(r), 520), "ICON_LOCATION_BLOCK", {}))),
    ("Darwin text", lambda r: with_block(r, w.block_darwin(G, "F", G, A, BAD))),
    ("Darwin product", lambda r: with_block(r, w._block("x", 0xA0000006, bytes(260) + fixed(("\"" + w.darwin_text(G, "F", G)[1:]).encode("utf-16le"), 520), "DARWIN_BLOCK", {}))),
    ("Darwin component", lambda r: with_block(r, w._block("x", 0xA0000006, bytes(260) + fixed((w.darwin_text(G, "F", G)[:-1] + "\x7f").encode("utf-16le"), 520), "DARWIN_BLOCK", {}))),
    ("face name", lambda r: with_block(r, w._block("x", 0xA0000002, bytes(36) + fixed(bad_utf16(r), 64) + bytes(96), "CONSOLE_PROPERTIES_BLOCK", {}))),
    ("layer", lambda r: with_block(r, w._block("x", 0xA0000008, fixed(bad_utf16(r), 128), "SHIM_LAYER_BLOCK", {}))),
    ("property type", lambda r: with_block(r, w._block("x", 0xA0000009, *(lambda st: (st + w.u32(0),))(
        (lambda val: (lambda s: w.u32(len(s) + 4) + s)(w.u32(0x53505331) + G + val + w.u32(0)))(
            (lambda s: w.u32(len(s) + 4) + s)(w.u32(1) + b"\0" + w.u16(r.choice([9, 12, 13, 15, 0x4A, 0x999, 0xFFFF])) + w.u16(0) + w.u32(0)))),
        "METADATA_PROPERTIES_BLOCK", {}))),
    ("item of a block", lambda r: with_block(r, w.block_idlist([w.item_file(0x32, 1, 0, 0, 0, BAD, A)]))),
    ("unknown item of a block", lambda r: with_block(r, w.block_idlist([gen.item(r, A, "unknown")]))),
    ("short item of a block", lambda r: with_block(r, w.block_idlist([raw_item(0x1F, b"\x50")]))),
]


def tiny(r):
    """The file ends before the signature of a block does."""
    k = rest(r)
    size = r.choice([4, 5, 6, 7, 8, 9, 12, 1000, 0xFFFFFFFF])
    return w.build(gen.header_fields(r, True), terminator=False, **k).data + (
        w.u32(size) + gen.rbytes(r, 3))[: r.randrange(4, 8)]


DEVIATIONS.append(("block without a signature", tiny))
for _k, _n in (("console", 144), ("tracker", 0x60), ("codepage", 12), ("special", 16), ("known", 28)):
    def _short(r, k=_k, n=_n):
        b = gen.block(r, A, k, True, 10)
        m = r.randrange(8, n)
        b.raw = w.u32(m) + b.raw[4:m]
        return with_block(r, b)
    DEVIATIONS.append(("short " + _k, _short))


def deviation(rec, name, make, r):
    data = make(r)
    o = run(rec, data, "cp1252", ("json_all",) if r.random() < 0.7 else STAGES)
    if o is None:
        return
    rec.seen("deviating links")
    rec.state("deviations", name)
    rec.ok(data, {"deviation": name, "bytes": len(data)} if rec.counts["deviating links"] % 400 == 1 else None)
    if not o.warnings:
        rec.violation(f"{name}: not a single warning", data, {"cp": "cp1252"})


def neighbours(rec, r):
    """The surroundings of the deviations are conforming themselves."""
    for data in (with_item(r), with_block(r), with_head(r), plain(r).data,
                 with_info(r, gen.info(r, A, "local", True, 20))):
        o = run(rec, data, "cp1252", ("json_all",))
        if o is None:
            return
        rec.seen("conforming links")
        rec.ok(data)
        if o.warnings:
            rec.violation("warned about a conforming link: " + core.short(o.warnings), data)
            return


def counted(rec, data, cp=None, allow=True):
    """At least one warning for each irregularity which the reference reader is sure about."""
    o = run(rec, data, cp, ("json_all",), allow)
    if o is None:
        return False
    ref.read(data, cp, allow)
    due = ref.warnings_due()
    rec.ok(data)
    for what, _, sure in ref.NOTES:
        if sure:
            rec.state("kinds of irregularities", what)
    if due is None:
        rec.seen("damaged links not judged")
    elif due == 0:
        rec.seen("damaged links without irregularities")
        if o.warnings:
            rec.violation("warned about a regular link: " + core.short(o.warnings), data, judge.kwargs(cp, allow))
            return False
    else:
        rec.seen("damaged links with irregularities")
        rec.seen("irregularities told", due)
        if len(o.warnings) < due:
            rec.violation(f"{len(o.warnings)} warnings, {due} are due: {core.short([n for n in ref.NOTES if n[2]], 400)}; "
                          f"told: {core.short(o.warnings, 400)}", data, judge.kwargs(cp, allow))
            return False
    return True


def damaged(rec, i, corpus):
    r = gen.rng_for("C17", rec.seed, "d", i)
    k = r.random()
    cp = r.choice([None, None, "cp932", "utf-8", "ascii"])
    b = r.choice(corpus) if k < 0.15 else gen.link(r, cp or "cp1252", conforming=k < 0.8, maxlen=20)
    data = b if k < 0.15 else b.data
    if r.random() < 0.2:
        data = data[: r.randrange(76, len(data) + 1)]
    elif r.random() < 0.9:
        data = gen.mutate(r, b, corpus)
    if len(data) >= 76:
        counted(rec, data, cp, r.random() < 0.8)


def replay(rec, v):
    kw = {k: ast.literal_eval(x) for k, x in v.get("kwargs", {}).items()}
    rec.case = v["case"]
    if v["case"].startswith("damaged"):
        counted(rec, base64.b64decode(v["data_b64"]), kw.get("cp"), kw.get("allow_terminal_blocks", True))
        return
    for case, fn in cases(v["tier"], v["seed"]):
        if case == v["case"]:
            fn(rec)


DIRECTED = {"conforming": True, "maxlen": 40}


def link(rec, r, b, cp):
    if b.warn is False:
        o = run(rec, b.data, cp, allow=b.allow)
        if o is None:
            return
        rec.seen("conforming links")
        rec.ok(b.data)
        if o.warnings:
            rec.violation("warned about a conforming link: " + core.short(o.warnings), b.data, {"cp": cp})
            return
    if len(b.data) < 1 << 17:
        data = gen.mutate(r, b)
        if len(data) >= 76:
            counted(rec, data, cp)


def cases(tier, seed):
    corpus = list(judge.load_samples().values())
    for i in range(5000 if tier == "quick" else 400000):
        yield f"damaged{i}", lambda rec, i=i: damaged(rec, i, corpus)
    quick = tier == "quick"
    for i in range(1800 if quick else 40000):
        def one(rec, i=i):
            r = gen.rng_for("C17", seed, "c", i)
            conforming(rec, r, r.choice(gen.CODEPAGES))
        yield f"conforming{i}", one
    for i in range(300 if quick else 6000):
        yield f"neighbours{i}", lambda rec, i=i: neighbours(rec, gen.rng_for("C17", seed, "n", i))
    for name, make in DEVIATIONS:
        for i in range(25 if quick else 500):
            def two(rec, name=name, make=make, i=i):
                deviation(rec, name, make, gen.rng_for("C17", seed, name, i))
            yield f"{name}-{i}", two
    for i in range(1500 if quick else 40000):
        def three(rec, i=i):
            r = gen.rng_for("C17", seed, "k", i)
            known(rec, r, r.choice(gen.CODEPAGES))
        yield f"known{i}", three


PARALLEL = True
