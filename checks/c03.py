"""C03: every field of the header is reported as it is stored."""

from lib import core, gen, judge
from lib import wire as w

RULE = ("header-only links and links with random sections; every single bit of both flag fields, "
        "all boundary values of every field, hot keys low x high byte, random headers; a case is "
        "non-trivial when its 76 header bytes are new; all 17 reported header values are compared "
        "with the reference decoding, the has_*/is_* helpers with the flag bits")
ASSUMPTIONS = ["undefined flag bits need not be named; bits named by Windows headers only "
               "(attributes 3, 6, 15-17) are expected under these names"]
MUST_SEE = {"values compared": 20000, "link flag bits": 27, "file attribute bits": 18,
            "hot keys": 500}
PATHS = [("header",)]
HELPERS = {"has_relative_path": "HasRelativePath", "has_arguments": "HasArguments",
           "is_unicode": "IsUnicode", "has_name": "HasName", "has_working_dir": "HasWorkingDir",
           "has_icon_location": "HasIconLocation", "has_target_id_list": "HasTargetIDList",
           "has_link_info": "HasLinkInfo", "force_no_link_info": "ForceNoLinkInfo"}


def bare(flags=0, **fields):
    """A header followed by nothing else, whatever its flags promise."""
    b = w.Built()
    raw, exp, conforming = w.header(link_flags=flags, **fields)
    b.data = raw + b"\0" * 64
    b.exp = {"header": exp}
    b.allow = True
    b.fields = []
    return b


def check(rec, b, sample=None):
    f = int.from_bytes(b.data[20:24], "little")
    for i in range(32):
        if f >> i & 1:
            rec.state("link flag bits", i)
        if b.data[24 + i // 8] >> i % 8 & 1:
            rec.state("file attribute bits", i)
    rec.state("hot keys", b.data[64:66])
    rec.state("show commands", b.data[60:64])
    o = judge.conform(rec, MOD, b, PATHS, key=b.data[:76], sample=sample)
    if o is None:
        return
    for name, flag in HELPERS.items():
        fn = getattr(o.lnk, name, None)
        if fn is None:
            continue
        rec.seen("helper calls")
        if bool(fn()) != bool(f & w.FLAG[flag]):
            rec.violation(f"{name}() is {fn()} for link flags {f:#x}", b.data)
            return


def link(rec, r, b, cp):
    check(rec, b)


def cases(tier, seed):
    for bit in range(32):
        yield f"lflag{bit}", lambda rec, bit=bit: check(rec, bare(1 << bit))
        yield f"lflag~{bit}", lambda rec, bit=bit: check(rec, bare(0xFFFFFFFF ^ 1 << bit))
        yield f"aflag{bit}", lambda rec, bit=bit: check(rec, bare(0, file_flags=1 << bit))
        yield f"aflag~{bit}", lambda rec, bit=bit: check(rec, bare(0, file_flags=0xFFFFFFFF ^ 1 << bit))
    for name, _, width in w.HEADER_FIELDS:
        if name in ("clsid", "link_flags"):
            continue
        pool = {2: gen.U16, 4: gen.U32, 8: gen.U64}[width]
        for v in sorted(set(pool) | {1 << i for i in range(8 * width)}):
            if name == "header_size" and not 0 <= v <= 0xFFFFFFFF:
                continue
            yield f"{name}={v:#x}", lambda rec, n=name, v=v: check(rec, bare(**{n: v}))
    shows = list(range(0, 64))
    for v in (1, 3, 7):  # nearly a documented one
        shows += [v | 1 << i for i in range(3, 32)] + [v << i for i in (8, 16, 24)] + [(1 << 32) - v, v * 0x01010101]
    for v in sorted(set(shows)):
        yield f"show={v:#x}", lambda rec, v=v: check(rec, bare(show=v))
    highs = range(256) if tier == "thorough" else [0, 1, 2, 3, 4, 5, 6, 7, 8, 0x10, 0x80, 0xFF]

    def keys(rec, high):
        for low in range(256):
            check(rec, bare(hotkey=high << 8 | low))
    for high in highs:
        yield f"hotkeys{high}", lambda rec, high=high: keys(rec, high)

    def rand(rec, i):
        r = gen.rng_for("C03", seed, i)
        fields = gen.header_fields(r)
        fields["clsid"] = gen.guid(r)
        for k, wd in (("reserved1", 2), ("reserved2", 4), ("reserved3", 4)):
            fields[k] = gen.num(r, wd)
        if r.random() < 0.5:
            b = bare(gen.num(r, 4), **fields)
        else:
            items = [gen.item(r, "cp1252")] if r.random() < 0.5 else None
            b = w.build(fields, items, strings=gen.strings(r, "cp1252", True), flags=gen.num(r, 4))
        check(rec, b, {"header": b.data[:76].hex()} if i < 6 else None)
    for i in range(3000 if tier == "quick" else 60000):
        yield f"rand{i}", lambda rec, i=i: rand(rec, i)
