"""C11: the size of a link, what is appended to it, and walking concatenated links."""

import hashlib
import io
import warnings

from lib import core, gen, judge
from lib import wire as w

RULE = ("single links with and without a terminal block and appended data of many sizes, chains of "
        "2-8 concatenated links walked by the reported size in the mode which leaves the rest "
        "alone, file handles not at their start, hostile inputs (size must stay within the data); "
        "non-trivial = new input whose size, appended-data digest and sections were judged")
ASSUMPTIONS = ["a link without a terminal block ends with the data",
               "without allow_terminal_blocks the appended data is neither sized nor reported"]
MUST_SEE = {"links walked": 400, "chains": 100, "appended": 100, "hostile sizes": 800,
            "terminal values": 4}


def full(rec, data, b, cp, source="indata", at=None):
    kw = judge.kwargs(cp, b.allow)
    o = core.observe(MOD, data, ("json_all",), source=source, **kw)
    if o.exc is not None:
        rec.violation(o.problem(), data, kw, trace=o.trace)
        return None
    d = core.differs(b.exp, o.json_all)
    rec.ok(data)
    if d is None and o.lnk.size != b.exp["size"]:
        d = f"size attribute is {o.lnk.size}, expected {b.exp['size']}"
    if d:
        rec.violation((f"link at {at}: " if at is not None else "") + d, data, kw)
        return None
    return o


def no_providers(r, **kw):
    """Links whose report is settled (no network provider: finding provider-table of C06)."""
    return gen.link(r, **kw)


def some_blocks(r, cp, upto):
    """Blocks of some kinds, and unknown ones which resemble each other."""
    blocks = [gen.block(r, cp, k, maxlen=20) for k in r.sample(gen.BLOCK_KINDS, r.randrange(upto))]
    if r.random() < 0.4:
        n = r.choice([0, 4, 16])
        for _ in range(r.randrange(1, 5)):
            pay = r.choice([b"A" * n, b"B" * n, gen.rbytes(r, r.randrange(20))])
            blocks.insert(r.randrange(len(blocks) + 1), w.block_unknown(r.choice([0xBEEF0001, 0xBEEF0002]), pay))
    return blocks


def appended(rec, r, n, terminal, cp="cp1252"):
    base = gen.link(r, cp, maxlen=20)
    blocks = some_blocks(r, cp, 3)
    tail = gen.rbytes(r, n) if r.random() < 0.7 else base.data[:n]
    for allow in (True, False):
        b = w.build(gen.header_fields(r), [gen.item(r, cp)] if r.random() < 0.5 else None,
                    gen.info(r, cp, maxlen=10) if r.random() < 0.5 else None,
                    gen.strings(r, cp, True, maxlen=20), blocks, True, terminal, tail, allow=allow)
        rec.state("terminal values", terminal)
        rec.seen("appended")
        full(rec, b.data, b, cp)


def chain(rec, r):
    cp = r.choice(gen.CODEPAGES)
    links = []
    for _ in range(r.randrange(2, 8)):
        k = r.random()
        if k < 0.2:  # nothing but a header and a terminal block
            links.append(w.build(allow=False, terminal=r.randrange(4)))
        else:
            uni = r.random() < 0.6
            links.append(w.build(
                gen.header_fields(r), [gen.item(r, cp, maxlen=20) for _ in range(r.randrange(3))]
                if r.random() < 0.6 else None,
                gen.info(r, cp, maxlen=20) if r.random() < 0.6 else None,
                gen.strings(r, cp, uni, maxlen=40),
                some_blocks(r, cp, 4),
                uni, r.randrange(4), flags=gen.num(r, 4), allow=False, force_no_info=r.random() < 0.1))
    blob = b"".join(b.data for b in links) + (gen.rbytes(r, r.randrange(9)) if r.random() < 0.3 else b"")
    pos = 0
    rec.seen("chains")
    for b in links:
        o = full(rec, blob[pos:], b, cp, at=pos)
        if o is None:
            return
        rec.seen("links walked")
        if r.random() < 0.3:  # the same from a file handle which stands there
            fh = io.BytesIO(blob)
            fh.seek(pos)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                lnk = MOD.lnk_file(fhandle=fh, cp=cp, allow_terminal_blocks=False)
            if lnk.size != b.exp["size"]:
                rec.violation(f"from a handle at {pos}: size {lnk.size}, not {b.exp['size']}", blob)
                return
        pos += o.lnk.size
    # The first one with everything behind it.
    o = core.observe(MOD, blob, cp=cp)
    if o.exc is not None:
        rec.violation(o.problem(), blob, trace=o.trace)
        return
    rest = blob[links[0].exp["size"]:]
    t = o.json_all["extra"].get("TERMINAL_BLOCK")
    exp = {"size": 4 + len(rest), "appended_data_sha256": hashlib.sha256(rest).hexdigest()}
    if core.differs(exp, t) or o.lnk.size != len(blob):
        rec.violation(f"appended data: {core.differs(exp, t)}; size {o.lnk.size} of {len(blob)}", blob)


def hostile(rec, r, corpus):
    cp = "cp1252"
    data = gen.mutate(r, gen.link(r, cp, maxlen=30) if r.random() < 0.7 else r.choice(corpus), corpus)
    if len(data) < 76:
        return
    allow = r.random() < 0.5
    o = core.observe(MOD, data, ("json_all",), cp=cp, allow_terminal_blocks=allow)
    if o.exc is not None:
        rec.violation(o.problem(), data, {"allow_terminal_blocks": allow}, trace=o.trace)
        return
    rec.ok(data)
    rec.seen("hostile sizes")
    size = o.json_all.get("size")
    # A damaged HeaderSize is announced by a warning and followed.
    least = min(76, int.from_bytes(data[:4], "little"))
    if type(size) is not int or size != o.lnk.size or not least <= size <= len(data):
        rec.violation(f"size is {size!r} (attribute {o.lnk.size!r}) for {len(data)} bytes", data,
                      {"allow_terminal_blocks": allow})
        return
    t = o.json_all.get("extra", {}).get("TERMINAL_BLOCK")
    if t is not None:
        n = t["size"] - 4
        if not allow or not 0 < n < len(data) or hashlib.sha256(data[-n:]).hexdigest() != t["appended_data_sha256"]:
            rec.violation(f"appended data {t!r} is not the end of the data", data,
                          {"allow_terminal_blocks": allow})
            return
        # What is before it is the link itself: the same without the appended data.
        rec.seen("appended data cut off")
        p = core.observe(MOD, data[:-n], ("json_all",), cp=cp, allow_terminal_blocks=allow)
        q = dict(o.json_all, size=None, extra={k: v for k, v in o.json_all["extra"].items() if k != "TERMINAL_BLOCK"})
        if p.exc is not None:
            rec.violation(p.problem(), data[:-n], trace=p.trace)
        elif not info_reaches(data, n, o) and dict(p.json_all, size=None) != q:
            rec.violation("the appended data changes the rest: " + str(core.differs(dict(p.json_all, size=None), q)),
                          data)


def info_reaches(data, n, o):
    """Offsets of a damaged LinkInfo may point behind the link; it is not judged then."""
    return bool(o.json_all.get("link_info"))


DIRECTED = {"top": 1 << 25}


def link(rec, r, b, cp):
    full(rec, b.data, b, cp, r.choice(["indata", "fhandle"]))


def cases(tier, seed):
    corpus = list(judge.load_samples().values())
    for n in [1, 2, 3, 4, 5, 7, 8, 75, 76, 77, 100, 255, 256, 1000, 4096, 65536, 300000, (1 << 24) - 4, 1 << 24, (1 << 24) + 77]:
        if n >> 20 and tier == "quick":
            yield f"tail{n}-0", lambda rec, n=n: appended(rec, gen.rng_for("C11", seed, "tail", n, 0), n, 0)
            continue
        for terminal in range(4):
            yield f"tail{n}-{terminal}", lambda rec, n=n, t=terminal: appended(
                rec, gen.rng_for("C11", seed, "tail", n, t), n, t)
    for n in range(0, 12):
        def none(rec, n=n):
            r = gen.rng_for("C11", seed, "none", n)
            for term in (True, False):
                for kinds in ([], ["codepage"], ["unknown", "known"]):
                    b = w.build(strings={"description": w.string_data("description", "x" * n, True, "cp1252")},
                                blocks=[gen.block(r, "cp1252", k) for k in kinds], terminator=term)
                    full(rec, b.data, b, "cp1252")
                    full(rec, b.data, b, "cp1252", source="fhandle")
        yield f"plain{n}", none
    for i in range(150 if tier == "quick" else 6000):
        yield f"chain{i}", lambda rec, i=i: chain(rec, gen.rng_for("C11", seed, "chain", i))
    for i in range(1500 if tier == "quick" else 60000):
        yield f"hostile{i}", lambda rec, i=i: hostile(rec, gen.rng_for("C11", seed, "h", i), corpus)

    def samples(rec):
        for name, data in judge.load_samples().items():
            o = core.observe(MOD, data, cp="cp1252")
            if o.exc is None:
                rec.ok(data, {"sample": name, "bytes": len(data), "size": o.lnk.size})
                if not 76 <= o.lnk.size <= len(data):
                    rec.violation(f"{name}: size {o.lnk.size} of {len(data)}", data)
            else:
                rec.violation(f"{name}: {o.problem()}", data, trace=o.trace)
    yield "samples", samples
