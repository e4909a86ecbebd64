"""C13: both printed forms carry exactly the report, whatever the strings contain."""

import os
import time

from lib import core, gen, judge, render
from lib import wire as w

RULE = ("random links, samples and mutants, every special text (YAML syntax, line breaks, control "
        "and bidirectional characters, look-alikes of sections) in every place a string can be "
        "in; the text and JSON forms, default and verbose, are read back with strict readers "
        "(no repeated keys, anchors, foreign lines) and compared with the report; non-trivial = "
        "new input whose four printed forms were read back")
ASSUMPTIONS = ["where two names of a section become equal in the text form the later value is shown",
               "the JSON form has whole seconds"]
MUST_SEE = {"texts read back": 2000, "JSON read back": 2000, "special texts": 100, "places": 20,
            "time zones": 4, "characters in alphabets": 60000}


# What is printed does not depend on where the process is.
ZONES = ["UTC", "America/New_York", "UTC", "Asia/Kolkata", "XXX-13:37", "EST5EDT,M3.2.0,M11.1.0"]


def zone(name):
    os.environ["TZ"] = name
    time.tzset()


def judged(rec, data, cp="cp1252", sample=None, verbose=(True, False)):
    for full in verbose:
        s = "_all" if full else ""
        tz = ZONES[(len(data) + full) % len(ZONES)]
        zone(tz)
        rec.state("time zones", tz)
        try:
            o = core.observe(MOD, data, ("json" + s, "pjson" + s, "text" + s), cp=cp)
        finally:
            zone("UTC")
        if o.exc is not None:
            rec.violation(o.problem(), data, {"cp": cp}, trace=o.trace)
            return False
        doc = o.json_all if full else o.json
        text = o.text_all if full else o.text
        js = o.pjson_all if full else o.pjson
        try:
            got = render.read_json(js)
        except ValueError as e:
            rec.violation(f"JSON form is not readable: {e}", data, {"cp": cp})
            return False
        rec.seen("JSON read back")
        d = core.differs(render.expected_json(doc), got)
        if d:
            rec.violation("JSON form: " + d, data, {"cp": cp})
            return False
        odd = [c for c in set(text) if not c.isprintable() and c not in "\n\xa0"
               and (ord(c) < 0x20 or 0x7F <= ord(c) < 0xA0)]
        if odd:
            rec.violation(f"text form holds control characters {odd!r}", data, {"cp": cp})
            return False
        try:
            got = render.read_text(text)
        except ValueError as e:
            rec.violation(f"text form: {e}", data, {"cp": cp})
            return False
        rec.seen("texts read back")
        exp = render.expected_text(doc)
        d = render.text_differs(exp, got)
        if d:
            rec.violation("text form: " + d, data, {"cp": cp})
            return False
    rec.ok(data, sample)
    return True


def everywhere(t):
    """Links which hold the text `t` in one place each."""
    enc = t.encode("utf-16le")
    byt = t.encode("utf-8").replace(b"\0", b"")
    short = t
    while len(short.encode("utf-16le")) > 60:
        short = short[:-1]
    for key in [k for _, k in w.STRINGS]:
        if len(enc) // 2 <= 260 or key in ("command_line_arguments", "icon_location"):
            yield key, w.build(strings={key: w.string_data(key, t, True, "utf-8")})
    yield "file", w.build(items=[w.item_file(0x36, 1, 0, 0, 0, enc, "utf-8")])
    yield "file ansi", w.build(items=[w.item_file(0x32, 1, 0, 0, 0, byt, "utf-8")])
    yield "network", w.build(items=[w.item_network(0x41, 0xC0, byt, byt, byt, "utf-8")])
    yield "volume", w.build(items=[w.item_volume(0x2F, byt[:20], "utf-8")])
    yield "cpl", w.build(items=[w.item_cpl(1, t, t, t, True, "utf-8")])
    yield "users", w.build(items=[w.item_users_files(
        w.item_file(0x36, 1, 0, 0, 0, enc, "utf-8"), b"\1" * 16, b"\2" * 16)])
    yield "idlist block", w.build(blocks=[w.block_idlist([w.item_file(0x36, 1, 0, 0, 0, enc, "utf-8")])])
    yield "local", w.build(info=w.link_info("utf-8", (w.volume_id(3, 1, byt, "utf-8"), byt), None, byt,
                                            None, t, t))
    yield "label", w.build(info=w.link_info("utf-8", (w.volume_id(3, 1, t, "utf-8", True), byt), None, byt))
    yield "share", w.build(info=w.link_info("utf-8", None, w.network_link(byt, byt, 1, "utf-8"), byt))
    yield "share unicode", w.build(info=w.link_info("utf-8", None, w.network_link(
        byt, byt, 1, "utf-8", t, t), byt))
    yield "environment", w.build(blocks=[w.block_environment(byt[:250], t[:129], "utf-8")])
    yield "icon", w.build(blocks=[w.block_icon(byt[:250], t[:129], "utf-8")])
    yield "console", w.build(blocks=[w.block_console(b"", short)])
    yield "tracker", w.build(blocks=[w.block_tracker(byt[:15], [b"\1" * 16] * 4, "utf-8")])
    yield "shim", w.build(blocks=[w.block_shim(t, 2 * len(enc) + 128)])
    yield "property", w.build(blocks=[w.block_property_store(
        [w.property_storage(b"\1" * 16, [w.property_value(1, 0x1F, t)]),
         w.property_storage(w.STRING_NAMED, [w.property_value(t, 2, 3)])])])
    d = w.darwin_text(b"\1" * 16, "F", b"\2" * 16) + t
    if len(d.encode("utf-16le")) < 500:
        a = w.fixed_ansi(d.encode("utf-8")[:250], 260) + w.fixed_utf16(d, 520)
        yield "darwin", w.build(blocks=[w._block("darwin", 0xA0000006, a, "DARWIN_BLOCK", {})])


def forged():
    """Texts which look like parts of the report itself."""
    yield "x\n\n   EXTRA:\n      FAKE BLOCK:\n         Size: 1\n"
    yield "\n   DATA:\n      Description: forged"
    yield "x\n   LINK INFO: {}\n\n   DATA:\n      a: b"
    yield "Windows Shortcut Information:\n   Guid: 0"
    yield "- a\n- b: c"
    yield "a: &x b\nc: *x"
    yield "\"}, \"forged\": {\"a\": \"b"
    yield "x' \n   y: 'z"
    yield "EMPTY_LINE_PLACEHOLDER" * 3
    yield "\n".join(["l%d" % i for i in range(40)])
    yield "  \n  \n"
    yield "a\x85   EXTRA: {}"
    yield "a\u2028   EXTRA: {}"
    yield ("word " * 40).strip()
    yield "x" * 140 + "\n" + "y" * 140
    yield "!!python/object:os.system"
    yield "%YAML 1.1\n---\nx"
    yield "? complex\n: key"


def link(rec, r, b, cp):
    judged(rec, b.data, cp)


def cases(tier, seed):
    corpus = judge.load_samples()
    for name, data in corpus.items():
        yield f"sample-{name}", lambda rec, d=data: judged(rec, d)
    for n, t in enumerate(list(forged()) + gen.SPECIAL_TEXT):
        def special(rec, t=t, n=n):
            rec.state("special texts", t)
            for place, b in everywhere(t):
                rec.state("places", place)
                if not judged(rec, b.data, "utf-8", {"text": repr(t)[:60], "place": place} if n == 0 else None,
                              verbose=(True,) if tier == "quick" else (True, False)):
                    return
        yield f"special{n}", special

    def chars(rec, base):
        """Every character of the first planes on its own and between others."""
        for c in range(base, base + 64):
            if c == 0 or 0xD800 <= c < 0xE000:
                continue
            t = chr(c) if c % 2 else "a" + chr(c) + "b"
            key = w.STRINGS[c % 5][1]
            if not judged(rec, w.build(strings={key: w.string_data(key, t, True, "cp1252")}).data,
                          verbose=(True,)):
                return
    step = 64
    blocks = list(range(0, 0x300, step)) + [0x2000, 0x2040, 0x2060, 0x3000, 0xFE00, 0xFEC0, 0xFF00, 0xFFC0, 0x1F600, 0xE0000,
                                            0xD7C0, 0xE000, 0x10FFC0]
    if tier == "thorough":
        blocks = range(0, 0x30000, step)
    for base in blocks:
        yield f"chars{base:#x}", lambda rec, base=base: chars(rec, base)

    def alphabet(rec, base, n):
        """Very many characters in one text, with and without blanks and breaks between them."""
        chars = [chr(c) for c in range(max(base, 1), base + n) if not 0xD800 <= c < 0xE000]
        for glue in ("", " ") if base % 4000 else ("", "\n", ": "):
            t = glue.join(chars)
            rec.seen("characters in alphabets", len(chars))
            if not judged(rec, w.build(strings={"command_line_arguments": w.string_data(
                    "command_line_arguments", t, True, "cp1252")}).data, verbose=(True,)):
                return
    for base in [*range(0, 0x10000, 2000), *range(0x10000, 0x110000, 0x10000 if tier == "quick" else 2000)]:
        yield f"alphabet{base:#x}", lambda rec, base=base: alphabet(rec, base, 2000)

    def rand(rec, i):
        r = gen.rng_for("C13", seed, i)
        cp = r.choice(gen.CODEPAGES)
        b = gen.link(r, cp, maxlen=r.choice([20, 80, 260]))
        judged(rec, b.data, cp, w and judge.describe(b) if i < 3 else None)
    for i in range(500 if tier == "quick" else 15000):
        yield f"rand{i}", lambda rec, i=i: rand(rec, i)

    def hostile(rec, i):
        r = gen.rng_for("C13", seed, "h", i)
        data = gen.mutate(r, gen.link(r, "cp1252", maxlen=60) if r.random() < 0.6 else
                          r.choice(list(corpus.values())), list(corpus.values()))
        if len(data) >= 76:
            judged(rec, data)
    for i in range(500 if tier == "quick" else 25000):
        yield f"hostile{i}", lambda rec, i=i: hostile(rec, i)


PARALLEL = True
