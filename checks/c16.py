"""C16: texts are decoded the same way wherever they are."""

import codecs
import encodings.aliases

from lib import core, gen, judge, places
from lib import wire as w

RULE = ("every place which holds a text of the code page x every byte, runs of one character and lead-byte pairs of many "
        "code pages, lengths up to the field, undefined bytes behind the terminator; every text codec by every name it has; every place "
        "which holds UTF-16 x the planes, pairs and lone surrogates, under several code pages; "
        "non-trivial = new (place, text, code page) judged against an independent decoding")
ASSUMPTIONS = ["bytes which are not valid in the code page are tried as UTF-8, then replaced",
               "the default code page is cp1252"]
MUST_SEE = {"ANSI texts": 4000, "UTF-16 texts": 2000, "ANSI places": 24, "UTF-16 places": 22,
            "code pages": 30, "undecodable": 200, "lone surrogates": 200,
            "texts without an end": 700, "odd texts": 300, "open places": 17, "texts beside a code page": 1500,
            "spellings": 1000, "runs of one character": 900}
ANSI = list(places.ansi())
UTF16 = list(places.utf16())
OPEN = list(places.open_utf16())
PAGES = gen.CODEPAGES + ["cp1254", "cp1256", "cp1257", "cp1258", "cp850", "cp852", "cp866", "ascii",
                         "shift_jis", "gb18030", "iso8859-2", "cp1252"]
# Code pages in which the bytes of ASCII mean something else.
ODD = ["utf-7", "iso2022_jp", "iso2022_kr", "hz", "cp037", "cp500", "cp1026", "shift_jisx0213", "cp864"]
SHIFTS = [b"C:+AH4-", b"+-", b"a+IKw-b", b"+AGEAYg", b"\x1b$B$\"\x1b(B", b"x\x1b(Jy\\\x1b(B", b"\x1b$)C\x0e!!\x0f", b"\x0ea",
          b"~{<:Ky~}", b"~~", b"a~\n", b"C:\\", b"~", b"name.txt", b"\xc3\x81", b"+2D3cAA-", b"50%", b"\x81\x5c"]


def one_ansi(rec, place, raw, cp, fill=b"\0"):
    name, top, build, path = place
    raw = raw[:top]
    b = build(raw, fill)
    if b is None:
        return True
    eff = cp or "cp1252"
    exp, ok = w.decode_ansi(raw, eff)
    o = core.observe(MOD, b.data, cp=cp)
    if o.exc is not None:
        rec.violation(o.problem(), b.data, {"cp": cp}, trace=o.trace)
        return False
    rec.seen("ANSI texts")
    rec.state("ANSI places", name)
    rec.state("code pages", eff)
    rec.ok((name, raw, cp))
    got = places.at(o.json_all, path)
    if not exp and got is None and name in ("net name", "device name"):
        return True
    if got != exp:
        rec.violation(f"{name} {raw!r} in {cp}: reported {got!r}, is {exp!r}", b.data, {"cp": cp})
        return False
    if not ok:
        rec.seen("undecodable")
        if not o.warnings:
            rec.violation(f"{name} {raw!r} is not valid in {cp}, not a warning", b.data, {"cp": cp})
            return False
    return True


def one_utf16(rec, place, raw, cp, fill=b"\0"):
    name, top, build, path = place
    raw = raw[:top]
    b = build(raw, fill)
    exp, ok = w.decode_utf16(raw)
    o = core.observe(MOD, b.data, cp=cp)
    if o.exc is not None:
        rec.violation(o.problem(), b.data, {"cp": cp}, trace=o.trace)
        return False
    rec.seen("UTF-16 texts")
    rec.state("UTF-16 places", name)
    rec.ok((name, raw))
    got = places.at(o.json_all, path)
    if got != exp:
        rec.violation(f"{name} UTF-16 {raw.hex()} (cp {cp}): reported {got!r}, is {exp!r}", b.data, {"cp": cp})
        return False
    if not ok:
        rec.seen("lone surrogates")
        if not o.warnings:
            rec.violation(f"{name} UTF-16 {raw.hex()} is not valid, not a warning", b.data)
            return False
    return True


def one_open(rec, place, raw):
    """A UTF-16 text without an end, and perhaps half a character at the end of its structure."""
    name, top, build, path = place
    raw = raw[:top]
    b = build(raw)
    if b is None:
        return True
    exp, ok = w.decode_utf16(raw)
    o = core.observe(MOD, b.data)
    if o.exc is not None:
        rec.violation(o.problem(), b.data, trace=o.trace)
        return False
    rec.seen("texts without an end")
    rec.seen("odd texts", len(raw) % 2)
    rec.state("open places", name)
    rec.ok(("open", name, raw))
    got = places.at(o.json_all, path)
    if got != exp and (exp or got):
        rec.violation(f"{name} UTF-16 {raw.hex()} to the end of its structure: reported {got!r}, is {exp!r}", b.data)
        return False
    if not ok and not o.warnings:
        rec.violation(f"{name} UTF-16 {raw.hex()} is not valid, not a warning", b.data)
        return False
    return True


def beside_pages(rec, r, page):
    """The code page of the console, whatever it says and wherever it is, is of no concern for the texts."""
    for place in ANSI:
        name, top, build, path = place
        cp = r.choice(PAGES)
        raw = bytes(r.randrange(0x80, 0x100) if r.random() < 0.5 else r.randrange(0x21, 0x7F) for _ in range(r.randrange(1, 12)))[:top]
        b = build(raw, b"\0")
        if b is None:
            continue
        # the block is put in front of the others
        data = w.with_blocks(b, [w.block_codepage(page)], r.random() < 0.8)
        exp, ok = w.decode_ansi(raw, cp)
        o = core.observe(MOD, data, cp=cp)
        if o.exc is not None:
            rec.violation(o.problem(), data, {"cp": cp}, trace=o.trace)
            return
        rec.seen("texts beside a code page")
        rec.ok((name, raw, cp, page))
        got = places.at(o.json_all, path)
        if got != exp and (exp or got):
            rec.violation(f"{name} {raw!r} in {cp} beside the code page {page}: reported {got!r}, is {exp!r}", data, {"cp": cp})
            return


def spellings():
    """Every text codec by every name it has."""
    names = set()
    for alias, codec in encodings.aliases.aliases.items():
        for n in (alias, codec):
            names |= {n, n.upper(), n.title(), n.replace("_", "-"), n.replace("_", " ")}
    names |= {"windows-1252", "Windows-1251", "cp-1252", "ISO 8859-15", "iso-8859-1", "latin-1", "UTF8", "utf-8-sig", "u8",
              "mac-roman", "x-mac-japanese", "SJIS", "ms932", "euc-jp", "cp65001", "koi8-u", "cp1125", "palmos", "tis-620"}
    out = []
    for n in sorted(names):
        try:
            c = codecs.lookup(n)
        except LookupError:
            continue
        # these four decode nothing, or tell of errors in ways of their own
        if c._is_text_encoding and c.name not in ("idna", "punycode", "undefined", "unicode_escape", "unicode-escape",
                                                  "raw_unicode_escape", "raw-unicode-escape", "mbcs", "oem"):
            out.append(n)
    return out


def spelled(rec, r, names):
    for cp in names:
        for place in r.sample(ANSI, 3):
            raw = bytes(r.randrange(0x80, 0x100) if r.random() < 0.6 else r.randrange(0x21, 0x7F)
                        for _ in range(r.randrange(1, 9)))
            if not one_ansi(rec, place, raw, cp):
                return
        rec.state("spellings", cp)


def both(rec, i, r):
    """The code page changes texts of the code page only."""
    a, c = r.choice(PAGES), r.choice(PAGES)
    b = gen.link(r, "cp1252", maxlen=30)
    oa, oc = core.observe(MOD, b.data, cp=a), core.observe(MOD, b.data, cp=c)
    for o in (oa, oc):
        if o.exc is not None:
            rec.violation(o.problem(), b.data, {"cp": (a, c)}, trace=o.trace)
            return
    rec.ok(b.data)
    la, lc = dict(core.leaves(oa.json_all)), dict(core.leaves(oc.json_all))
    maybe = {"volume_name", "primary_name", "location", "description", "comments", "cpl_file_path", "name",
             "volume_label", "local_base_path", "common_path_suffix", "net_name", "device_name", "relative_path",
             "working_directory", "command_line_arguments", "icon_location", "target_ansi", "darwin_data_ansi",
             "machine_identifier"}
    for path in set(la) | set(lc):
        if la.get(path) != lc.get(path) and path[-1] not in maybe:
            rec.violation(f"{path} is {la.get(path)!r} with {a}, {lc.get(path)!r} with {c}", b.data)
            return
        if la.get(path) != lc.get(path) and b.unicode and path[0] == "data":
            rec.violation(f"{path} of Unicode strings depends on the code page", b.data)
            return
    rec.seen("pairs of code pages")


def link(rec, r, b, cp):
    """Every text of a link."""
    o = core.observe(MOD, b.data, cp=cp)
    if o.exc is not None:
        rec.violation(o.problem(), b.data, {"cp": cp}, trace=o.trace)
        return
    rec.ok(b.data)
    for path, exp in core.leaves(b.exp):
        if type(exp) is not str:
            continue
        got = places.at(o.json_all, path)
        rec.seen("texts of links judged")
        if got != exp:
            rec.violation(f"{path}: reported {core.short(got)}, is {core.short(exp)}", b.data, {"cp": cp})
            return


def cases(tier, seed):
    def every_byte(rec, place, cp):
        vals = [bytes([b]) for b in range(1, 256)] + [bytes([0x41, b, 0x42]) for b in range(0x80, 256)]
        r = gen.rng_for("C16", seed, place[0], cp)
        pairs = [bytes([a, b]) for a in range(0x81, 256, 3) for b in (0x20, 0x40, 0x5C, 0x7C, 0x80, 0xA1, 0xFE)]
        if cp in ODD:
            vals += SHIFTS * (8 if tier == "quick" else 1)
        if tier == "quick":
            vals = r.sample(vals, 10) + r.sample(pairs, 4)
        else:
            vals += pairs
        for v in vals:
            if not one_ansi(rec, place, v, cp, r.choice([b"\0", b"x", b"\xff"])):
                return
    for place in ANSI:
        for cp in PAGES + ODD + [None, ""]:
            yield f"bytes-{place[0]}-{cp}", lambda rec, p=place, c=cp: every_byte(rec, p, c)

    def lengths(rec, place):
        r = gen.rng_for("C16", seed, "len", place[0])
        top = place[1]
        ns = sorted({0, 1, 2, 3, top, top - 1, top // 2, 127, 128, 255, 256} & set(range(top + 1))) \
            if tier == "quick" else range(top + 1)
        for n in ns:
            for cp in ("cp1252", "cp932", "utf-8"):
                raw = "".join(r.choice("aé日b") for _ in range(n)).encode(cp, "ignore")[:n].ljust(n, b"z")
                if not one_ansi(rec, place, raw, cp, r.choice([b"\0", b"x", b"\xe9"])):
                    return
    for place in ANSI:
        yield f"lengths-{place[0]}", lambda rec, p=place: lengths(rec, p)

    def runs(rec, place, wide):
        """One character again and again; how far depends on the place only."""
        r = gen.rng_for("C16", seed, "runs", place[0], wide)
        top = place[1]
        for c in gen.RUNS:
            for k in range(1 if tier == "quick" else 12):
                n = min(top // (2 if wide else 1), r.choice([2, 3, 16, r.randrange(2, 300), 255, 256, 260, 300, 1000, top]), 5000)
                t = c * max(1, n // 2 if c >= "\U00010000" else n)
                t = r.choice([t, t[1:] + "x", "x" + t[1:]])
                rec.seen("runs of one character")
                if wide:
                    if not one_utf16(rec, place, t.encode("utf-16le"), r.choice(PAGES + [None]), r.choice([b"\0", b"x"])):
                        return
                elif c.encode("cp1252", "ignore"):
                    if not one_ansi(rec, place, t.encode("cp1252"), r.choice([None, "cp1252"]), r.choice([b"\0", b"x"])):
                        return
    for place in ANSI:
        yield f"runs-{place[0]}", lambda rec, p=place: runs(rec, p, False)
    for place in UTF16:
        yield f"wide-runs-{place[0]}", lambda rec, p=place: runs(rec, p, True)

    def planes(rec, place):
        r = gen.rng_for("C16", seed, "u", place[0])
        n = 160 if tier == "quick" else 1500
        for i in range(n):
            k = r.random()
            if k < 0.15:  # lone surrogates
                units = [r.choice([0xD800, 0xDBFF, 0xDC00, 0xDFFF, r.randrange(0xD800, 0xE000), 0x41, 0x20AC])
                         for _ in range(r.randrange(1, 5))]
            elif k < 0.3:  # bytes of the terminator which are not one
                units = [r.choice([0x100, 0x4100, 0x0041, 0x00FF, 0xFF00, 0x0001, 0x2000]) for _ in range(r.randrange(1, 9))]
            elif k < 0.4:
                units = [r.choice([0xFEFF, 0xFFFE, 0xFFFD, 0x200E, 0x85, 0x2028, 0xD, 0xA, 0x1B]) for _ in range(3)]
            elif k < 0.5:
                units = [0x61] * r.choice([1, place[1] // 2 - 1, place[1] // 2, 30, 31])
            else:
                units = []
                for _ in range(r.randrange(12)):
                    c = r.choice([r.randrange(1, 0xD800), r.randrange(0xE000, 0x10000), r.randrange(0x10000, 0x110000)])
                    units += list(memoryview(chr(c).encode("utf-16le")).cast("H"))
            raw = b"".join(w.u16(u) for u in units if u)
            if not one_utf16(rec, place, raw, r.choice(PAGES + [None]), r.choice([b"\0", b"x", b"\xd8"])):
                return
    for place in UTF16:
        yield f"utf16-{place[0]}", lambda rec, p=place: planes(rec, p)

    def opened(rec, place):
        r = gen.rng_for("C16", seed, "open", place[0])
        for n in list(range(1, 24)) + [127, 128, 129, 130, 131, 254, 255, 256, 257, 515, 519, 521, 599]:
            raw = b"".join(w.u16(r.choice([0x41, 0x20AC, 0x3042, r.randrange(1, 0xD800)])) for _ in range(n // 2 + 1))[:n]
            if r.random() < 0.2:  # whatever the last byte is
                raw = raw[:-1] + r.choice([b"\0", b"\xd8", b"\xff"])
            if not one_open(rec, place, raw):
                return
        for _ in range(20 if tier == "quick" else 600):
            n = r.randrange(1, 60)
            raw = bytes(r.choice([0x41, 0x42, 0xD8, 0xDC, 0x30, r.randrange(256)]) for _ in range(n + (128 if place[0] == "shim" else 0)))
            if not one_open(rec, place, raw):
                return
    for place in OPEN:
        yield f"open-{place[0]}", lambda rec, p=place: opened(rec, p)

    names = spellings()
    for i in range(0, len(names), 20):
        for k in range(1 if tier == "quick" else 30):
            yield f"spelled{i}-{k}", lambda rec, i=i, k=k: spelled(rec, gen.rng_for("C16", seed, "spelled", i, k), names[i : i + 20])
    for page in w.KNOWN_CODEPAGES:
        for i in range(2 if tier == "quick" else 40):
            yield f"page{page}-{i}", lambda rec, p=page, i=i: beside_pages(rec, gen.rng_for("C16", seed, "page", p, i), p)

    for i in range(150 if tier == "quick" else 6000):
        yield f"pair{i}", lambda rec, i=i: both(rec, i, gen.rng_for("C16", seed, "pair", i))


PARALLEL = True
