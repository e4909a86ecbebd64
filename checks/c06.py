"""C06: LinkInfo is reported as it is stored."""

from lib import core, gen, judge
from lib import wire as w

RULE = ("LinkInfo structures: local, network, both and neither; header sizes 0x1C, 0x24 and above; "
        "every drive type, boundary serials, label in code page or Unicode, every documented "
        "network provider and others, net/device names present or not, Unicode names, gaps and "
        "reordered areas, offsets beyond 255 and 65535, structures cut short at every length; "
        "non-trivial = new LinkInfo bytes whose whole report was compared with the model")
ASSUMPTIONS = ["when both views are present only the local one is reported",
               "an empty net or device name may be left out of the report",
               "names of network providers: see the finding provider-table"]
MUST_SEE = {"values compared": 15000, "drive types": 8, "providers": 41, "cut structures": 500,
            "views": 4, "names of providers compared": 500}
PATHS = [("link_info",)]


def judged(rec, part, view, cp="cp1252", sample=None, **kw):
    b = w.build(info=part, **kw)
    rec.state("views", view)
    before = core.KNOWN_SEEN["provider-table"]
    o = judge.conform(rec, MOD, b, PATHS, cp, sample=sample)
    for _ in range(core.KNOWN_SEEN["provider-table"] - before):
        rec.known_finding("provider-table")
    same_name(rec, b, o)
    return b, o


NAMES = {}  # provider type -> the name it was reported with, and the bytes


def same_name(rec, b, o):
    """Whatever the name of a provider type, it does not depend on anything but the type
    (which the comparison can not tell, see the finding provider-table)."""
    got = judge.section(o.json_all, ("link_info", "location_info")) if o is not None and o.exc is None else None
    if not isinstance(got, dict) or not isinstance(got.get("common_network_relative_link_flags"), int):
        return
    if got["common_network_relative_link_flags"] & 2:
        rec.seen("names of providers compared")
        value, name = got.get("r_network_provider_type"), got.get("network_provider_type")
        first = NAMES.setdefault(value, name)
        if first != name:
            rec.violation(f"provider type {value} is called {name!r} here and {first!r} in another link", b.data)


def shuffled_local(r, cp):
    """The same fields in another order: offsets decide, not the order."""
    uni = r.random() < 0.5
    label = gen.text(r, 40) if uni else gen.ansi(r, cp, 40)
    vol, vexp, ok = w.volume_id(r.randrange(7), gen.num(r, 4), label, cp, uni,
                                b"\0" * r.choice([0, 4, 9]))
    base, suffix = gen.ansi(r, cp, 60), gen.ansi(r, cp, 60)
    hs = r.choice([0x1C, 0x24, 0x28])
    areas = [["vol", vol], ["base", base + b"\0"], ["suff", suffix + b"\0"]]
    bu, su = gen.text(r, 60), gen.text(r, 60)
    if hs >= 0x24:
        areas += [["baseu", bu.encode("utf-16le") + b"\0\0"], ["suffu", su.encode("utf-16le") + b"\0\0"]]
    r.shuffle(areas)
    off, body = {}, b""
    for name, raw in areas:
        body += gen.rbytes(r, r.choice([0, 0, 1, 2, 300, 70000 if r.random() < 0.05 else 5]))
        off[name] = hs + len(body)
        body += raw
    flags = 1 | (gen.num(r, 4) & ~3)
    head = w.u32(hs) + w.u32(flags) + w.u32(off["vol"]) + w.u32(off["base"]) + w.u32(0) + w.u32(off["suff"])
    exp = {"link_info_header_size": hs, "link_info_flags": flags, "volume_id_offset": off["vol"],
           "local_base_path_offset": off["base"], "common_network_relative_link_offset": 0,
           "common_path_suffix_offset": off["suff"], "location": "Local", "location_info": vexp,
           "local_base_path": w.decode_ansi(base, cp)[0],
           "common_path_suffix": w.decode_ansi(suffix, cp)[0]}
    if hs >= 0x24:
        head += w.u32(off["baseu"]) + w.u32(off["suffu"])
        exp.update(local_base_path_offset_unicode=off["baseu"], local_base_path_unicode=bu,
                   common_path_suffix_offset_unicode=off["suffu"], common_path_suffix_unicode=su)
    raw = head.ljust(hs - 4, b"\0") + body
    raw = w.u32(len(raw) + 4) + raw
    exp["link_info_size"] = len(raw)
    return w.Part("info", raw, exp, None, 4)


TEXTS = {  # offset of the field in the structure -> (value, key, Unicode), relative to the part
    "local": [(16, "local_base_path_offset", "local_base_path", False),
              (24, "common_path_suffix_offset", "common_path_suffix", False),
              (28, "local_base_path_offset_unicode", "local_base_path_unicode", True),
              (32, "common_path_suffix_offset_unicode", "common_path_suffix_unicode", True)],
    "volume": [(12, "volume_label_offset", "volume_label", False)],
    "volume_u": [(16, "volume_label_unicode_offset", "volume_label_unicode", True)],
    "network": [(8, "net_name_offset", "net_name", False), (12, "device_name_offset", "device_name", False)],
    "network_u": [(20, "net_name_offset_unicode", "net_name_unicode", True),
                  (24, "device_name_offset_unicode", "device_name_unicode", True)],
}


def anywhere(rec, r, where):
    """Each offset of a text led to every place of the structure, fixed fields, other texts and
    the very last byte included: the text is what is there, all the rest stays as it was."""
    cp = r.choice(["cp1252", "cp1251", "cp437", "latin-1"])
    t = lambda n: "".join(r.choice("abcdefgh\\") for _ in range(n))
    hs = r.choice([0x24, 0x24, 0x2C])
    if where in ("local", "volume", "volume_u"):
        part = w.link_info(cp, (w.volume_id(3, 0x00420041, t(3) if where == "volume_u" else t(4).encode(), cp,
                                            where == "volume_u"), t(6).encode()),
                           None, t(4).encode(), hs, t(3), t(4), b"\0" * r.randrange(3))
        inner = part.exp["volume_id_offset"] if where != "local" else 0
    else:
        part = w.link_info(cp, None, w.network_link(b"\\\\" + t(4).encode(), t(2).encode(), 0x1A0000, cp,
                                                    *((t(4), t(5)) if where == "network_u" else ())), t(4).encode())
        inner = part.exp["common_network_relative_link_offset"]
    size = part.exp["link_info_size"]
    for at, offset, key, uni in TEXTS[where]:
        for n in [*range(1, size - inner + 12), size - inner + 40, size + 300, 0x7FFFFFFF, 0xFFFFFFFF]:
            if where in ("network",) and offset == "net_name_offset" and n > 0x14:
                continue  # stands for the longer form of the structure
            if where == "volume" and n == 0x14:
                continue  # stands for a Unicode label
            raw = bytearray(part.raw)
            raw[inner + at : inner + at + 4] = w.u32(n)
            exp = dict(part.exp)
            inside = where != "local"
            sub = dict(exp["location_info"]) if inside else exp
            sub[offset] = n
            rest = bytes(raw)[inner + n :]  # all texts are within the structure
            if uni:
                chars = [rest[k : k + 2] for k in range(0, len(rest), 2)]
                stop = chars.index(b"\0\0") if b"\0\0" in chars else len(chars)
                rest = b"".join(chars[:stop])
                text = rest.decode("utf-16le", "replace")
            else:
                rest = rest[: rest.index(b"\0")] if b"\0" in rest else rest
                text = w.decode_ansi(rest, cp)[0]
            sub[key] = text
            if text == "" and key in ("net_name", "device_name"):
                sub.pop(key)
            if inside:
                exp["location_info"] = sub
            rec.seen("offsets led elsewhere")
            got = w.Part(part.kind, bytes(raw), exp, None, 4)
            b = w.build(info=got, strings=gen.strings(r, cp, True, prob=0.5) if r.random() < 0.3 else ())
            o = judge.conform(rec, MOD, b, PATHS, cp)
            if o is None:
                return


def cut_info(rec, r, kind, cp):
    """The file ends inside of the structure: fields before the cut survive."""
    t = lambda n: "".join(r.choice("abcdefgh\\") for _ in range(n))
    if kind == "local":
        part = w.link_info(cp, (w.volume_id(3, 0x1234ABCD, t(5).encode(), cp, False), t(12).encode()),
                           None, t(6).encode(), None, t(7), t(8))
    elif kind == "local_u":
        part = w.link_info(cp, (w.volume_id(2, 0xFFFFFFFF, t(5), cp, True), t(12).encode()),
                           None, t(6).encode())
    else:
        part = w.link_info(cp, None, w.network_link(b"\\\\" + t(9).encode(), t(2).encode(), 0x1A0000, cp,
                                                    *(() if kind == "network" else (t(4), t(5)))),
                           t(6).encode(), *(() if kind == "network" else (0x24, None, t(6))))
    b = w.build(info=part, terminator=False)
    base = 76
    exp = dict(core.leaves(part.exp))
    for n in range(0, len(part.raw)):
        data = b.data[: base + n]
        o = core.observe(MOD, data, cp=cp)
        if o.exc is not None:
            rec.violation(o.problem(), data, trace=o.trace)
            return
        rec.seen("cut structures")
        rec.ok(data)
        got = judge.section(o.json_all, ("link_info",))
        if got is core.MISSING:
            rec.violation(f"LinkInfo cut to {n} bytes: no link_info reported", data)
            return
        for path, v in core.leaves(got):
            if v is None:
                continue
            e = exp.get(path, core.MISSING)
            if isinstance(v, str) and isinstance(e, str):
                if e.startswith(v.rstrip("\ufffd")):
                    continue
            elif isinstance(e, w.Provider):
                if v in (e.name, e.pinned):
                    continue
            elif core.differs(e, v) is None:
                continue
            rec.violation(f"LinkInfo {kind} cut to {n} bytes: {path} = {v!r}, was {e!r}", data)
            return
        # numbers in the fixed header which are wholly there
        if n >= 12:
            for name, off in (("link_info_size", 0), ("link_info_header_size", 4), ("link_info_flags", 8),
                              ("volume_id_offset", 12), ("local_base_path_offset", 16),
                              ("common_network_relative_link_offset", 20),
                              ("common_path_suffix_offset", 24)):
                if n >= off + 4 and got.get(name) != part.exp[name]:
                    rec.violation(f"LinkInfo {kind} cut to {n} bytes: {name} is {got.get(name)!r}, "
                                  f"was {part.exp[name]!r}", data)
                    return
        if not o.warnings:
            rec.violation(f"LinkInfo {kind} cut to {n} of {len(part.raw)} bytes: no warning", data) \
                if n < 12 else rec.seen("cut without warning")


def link(rec, r, b, cp):
    same_name(rec, b, judge.conform(rec, MOD, b, PATHS, cp))


def cases(tier, seed):
    def drives(rec):
        for d in list(range(10)) + gen.U32:
            rec.state("drive types", d)
            for serial in (0, 1, 0xABCDEF01, 0xFFFFFFFF):
                for uni in (False, True):
                    label = "DISK č" if uni else b"DISK"
                    judged(rec, w.link_info("cp1252", (w.volume_id(d, serial, label, "cp1252", uni), b"C:\\x"),
                                            None, b"sfx"), "local")
    yield "drives", drives

    def providers(rec):
        vals = list(w.PROVIDERS) + [v >> 4 for v in w.PROVIDERS] + gen.U32 + [0x1A, 0x20, 0x280000, 0x440000]
        for v in vals:
            rec.state("providers", v)
            judged(rec, w.link_info("cp1252", None, w.network_link(b"\\\\s\\x", b"Z:", v, "cp1252"), b"y"),
                   "network")
            judged(rec, w.link_info("cp1252", None, w.network_link(b"\\\\s\\x", None, v, "cp1252", "\\\\s"),
                                    b"y"), "network")
    yield "providers", providers

    def shapes(rec):
        for dev in (None, b"", b"Z:"):
            for prov in (None, 0x20000):
                for net_u in (None, "", "\\\\srv\\šare"):
                    for net in (b"", b"\\\\srv\\share"):
                        for hs in (None, 0x1C, 0x1D, 0x23, 0x24, 0x25, 0x40):
                            judged(rec, w.link_info("cp1252", None, w.network_link(
                                net, dev, prov, "cp1252", net_u, "Z:" if net_u else None),
                                b"dir", hs, suffix_u="dir" if (hs or 0) >= 0x24 else None), "network")
        for flags in [1 << i for i in range(2, 32)]:
            judged(rec, w.link_info("cp1252", (w.volume_id(3, 1, b"L", "cp1252"), b"C:"), None, b"s",
                                    extra_flags=flags), "local")
            judged(rec, w.link_info("cp1252", None, None, b"s", extra_flags=flags), "none")
            for prov, stale in ((0x43000, 0), (0x20000, 0), (None, 0x43000), (None, 0x20000)):
                for dev in (None, b"Z:"):
                    judged(rec, w.link_info("cp1252", None, w.network_link(
                        b"\\\\s\\x", dev, prov, "cp1252", *(("u",) if dev else ()), more=flags, stale=stale), b"s",
                        extra_flags=flags), "network")
        for n in (0, 1, 2, 100, 255, 256, 260, 1000, 65536, 70000):
            for gap in (0, 1):
                judged(rec, w.link_info("cp1252", (w.volume_id(3, 1, b"v" * n, "cp1252"), b"b" * n), None,
                                        b"s" * n, None, "B" * n, "S" * n, b"\0" * gap), "local")
                judged(rec, w.link_info("cp1252", None, w.network_link(b"n" * n, b"d" * n, 5, "cp1252"),
                                        b"s" * n, None, None, "S" * n, b"\0" * gap), "network")
                judged(rec, w.link_info("cp1252", None, w.network_link(
                    b"n" * n, b"d" * n, 5, "cp1252", "N" * n, "D" * n), b"s" * n), "network")
    yield "shapes", shapes

    for kind in ("local", "local_u", "network", "network_u"):
        for i in range(2 if tier == "quick" else 20):
            yield f"cut-{kind}-{i}", lambda rec, k=kind, i=i: cut_info(
                rec, gen.rng_for("C06", seed, "cut", k, i), k, "cp1252")

    for where in TEXTS:
        for i in range(2 if tier == "quick" else 30):
            yield f"anywhere-{where}-{i}", lambda rec, k=where, i=i: anywhere(
                rec, gen.rng_for("C06", seed, "any", k, i), k)

    def rand(rec, i):
        r = gen.rng_for("C06", seed, i)
        cp = r.choice(gen.CODEPAGES)
        if r.random() < 0.3:
            part, view = shuffled_local(r, cp), "local"
        else:
            view = r.choice(["local", "local", "network", "network", "both", "none"])
            part = gen.info(r, cp, view)
        items = [gen.item(r, cp)] if r.random() < 0.2 else None
        judged(rec, part, view, cp, {"view": view, "cp": cp, "bytes": part.raw[:64].hex()} if i < 6 else None,
               items=items, strings=gen.strings(r, cp, True, prob=0.2),
               blocks=[gen.block(r, cp)] if r.random() < 0.2 else ())
    for i in range(2500 if tier == "quick" else 80000):
        yield f"rand{i}", lambda rec, i=i: rand(rec, i)
