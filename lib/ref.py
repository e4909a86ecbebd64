"""Reference reader: what has to be reported of any bytes, damaged ones included.

Independent of the parser, like lib/wire.py whose tables and decoding it shares.  Where the
documents do not say what a damaged structure means, the expectation is left open (Any, Open,
Loose, Maybe), so that only what the bytes do say is demanded."""

import contextlib
import hashlib
import struct

from lib import wire as w
from lib.wire import ANY, Loose, Maybe, OneOf, Open


NOTES = []  # irregularities of what was read last: (what, where, whether it has to be told)
WHERE = []


def tell(what):
    """An irregularity which the report can not show: a warning has to tell."""
    NOTES.append((what, tuple(WHERE), True))


def odd(what):
    """An irregularity about which a warning may be given."""
    NOTES.append((what, tuple(WHERE), False))


def cut_short(what):
    """A component too short for its values: nothing else in it has to be told."""
    here = tuple(WHERE)
    NOTES[:] = [(a, b, c and b[: len(here)] != here) for a, b, c in NOTES]
    tell(what)


def warnings_due():
    """How many warnings there have to be at least; None when there need not be any or none."""
    sure = [(a, b) for a, b, c in NOTES if c]
    if NOTES and not sure:
        return None
    cut = [x for x in sure if x[0] in ("LinkInfo cut in a number", "no LinkInfo")]
    return len(sure) - len(cut) + bool(cut)


@contextlib.contextmanager
def inside(where):
    WHERE.append(where)
    yield
    WHERE.pop()


class Short(Exception):
    """The bytes a number or identifier would be in are not there."""


def at(raw, off, fmt):
    n = struct.calcsize("<" + fmt)
    if off < 0 or off + n > len(raw):
        raise Short
    return struct.unpack_from("<" + fmt, raw, off)[0]


def guid(raw, off):
    if off + 16 > len(raw):
        raise Short
    return w.guid_text(raw[off : off + 16])


def ansi(raw, cp, ends=True):
    text, ok = w.decode_ansi(raw, cp)
    if not ok:
        tell("undecodable text")
    if ends and 0 not in raw:
        odd("text without an end")
    return text


def wide(raw, ends=True):
    text, ok = w.decode_utf16(raw)
    if not ok:
        tell("undecodable UTF-16")
    if ends and len(w.cut_utf16(raw)) == len(raw):
        odd("UTF-16 without an end")
    return text


# ---------------------------------------------------------------- items

def item_class(t):
    kind = t & 0x70
    if kind in (0x20, 0x30, 0x40):
        return {0x20: "Volume Item", 0x30: "File entry", 0x40: "Network location"}[kind]
    if t in w.PLAIN_ITEMS:
        return w.PLAIN_ITEMS[t]
    return {0x00: "Control panel CPL file", 0x01: "Control panel category", 0x1E: "Root Folder",
            0x1F: "Root Folder", 0x70: "Control panel", 0x71: "Control panel",
            0x74: "Users files folder"}.get(t, "Unknown")


def fields(base, spec, what="short item"):
    """The entries of a component, each of them read by a function.  When the values of some are
    not there, those must not be made up; the others may be left out."""
    out, missing = dict(base), []
    for key, read_it in spec.items():
        try:
            out[key] = read_it()
        except Short:
            missing.append(key)
    if not missing:
        return out
    cut_short(what)
    for key in spec:
        out[key] = Maybe(None if key in missing else OneOf(out[key], None))
    return out


def file_entry(body, cp):
    name = body[12:]
    if len(body) > 0 and w.class_flag_text(body[0] & 15)[1]:
        tell("flags of a file entry")
    if len(body) >= 10 and not w.fat_valid(at(body, 6, "H"), at(body, 8, "H")):
        tell("FAT date")
    return fields({"class": "File entry"}, {
        "flags": lambda: w.class_flag_text(at(body, 0, "B") & 15)[0], "file_size": lambda: at(body, 2, "I"),
        "modification_time": lambda: w.fat_value(at(body, 6, "H"), at(body, 8, "H")),
        "file_attribute_flags": lambda: at(body, 10, "H"),
        "primary_name": lambda: wide(name) if at(body, 0, "B") & 4 else ansi(name, cp)})


def cpl(body, cp):
    uni = len(body) >= 22 and body[10] == 0
    start = 22 if uni else 10
    name, comments = (18, 20) if uni else (6, 8)
    width = 2 if uni else 1
    other = lambda o: text(at(body, o, "H"))
    text = (lambda o: wide(body[start + o * width:])) if uni else (lambda o: ansi(body[start + o:], cp))
    return fields({"class": "Control panel CPL file"}, {
        "signature": lambda: "0x%08X" % at(body, 2, "I"), "cpl_file_path": lambda: text(0), "name": lambda: other(name),
        "comments": lambda: other(comments) if at(body, comments, "H") else ""})


def network(body, cp):
    if len(body) < 3:
        none = lambda: at(b"", 0, "B")
        return fields({"class": "Network location"}, {
            "flags": lambda: w.class_flag_text(at(body, 0, "B") & 15)[0], "content_flags": none,
            "location": lambda: "", "description": lambda: "", "comments": lambda: ""})
    t, content = body[0], body[2]
    texts = bytes(body[3:]).split(b"\0")
    if w.class_flag_text(t & 15)[1]:
        tell("flags of a network location")
    if len(texts) < 2 + bool(content & 0x80) + bool(content & 0x40):
        odd("network location without an end")
    exp = {"class": "Network location", "flags": w.class_flag_text(t & 15)[0], "content_flags": content,
           "location": ansi(texts[0], cp, False), "description": None, "comments": None}
    k = 1
    for bit, key in ((0x80, "description"), (0x40, "comments")):
        if content & bit:
            if k < len(texts):
                exp[key] = ansi(texts[k], cp, False)
                if not texts[k] and k == len(texts) - 1:
                    exp[key] = OneOf("", None)
            k += 1
    return exp


def item(raw, size, cp):
    """`raw`: what there is of an item of `size` bytes."""
    body = raw[2:size]
    t = body[0]
    cls = item_class(t)
    kind = {"class": cls}
    if cls == "Volume Item":
        if t & 1 and len(body) < 21:
            odd("short volume name")
        return fields(kind, {"flags": lambda: hex(t & 15), **({"volume_name": lambda: ansi(body[1:21], cp, False)} if t & 1
                             else {"volume_identifier": lambda: guid(body, 2)})})
    if cls == "File entry":
        return file_entry(body, cp)
    if cls == "Network location":
        return network(body, cp)
    if cls == "Control panel CPL file":
        return cpl(body, cp)
    if cls == "Control panel category":
        name = lambda n: w.CATEGORIES[n] if n < len(w.CATEGORIES) else tell("category") or "Unknown"
        return fields(kind, {"category_id": lambda: at(body, 6, "I"), "category": lambda: name(at(body, 6, "I"))})
    if cls == "Root Folder":
        if len(body) > 1 and body[1] not in w.SORT_INDEX:
            tell("sort index")
        return fields(kind, {"sort_index": lambda: w.SORT_INDEX.get(at(body, 1, "B"), "Unknown"),
                             "sort_index_value": lambda: at(body, 1, "B"), "guid": lambda: guid(body, 2)})
    if cls == "Control panel":
        return fields(kind, {"item_identifier": lambda: guid(body, 12)})
    if cls == "Users files folder":
        inner = lambda: at(body, 2, "H")

        def entry():
            got = file_entry(body[10 : 8 + at(body, 8, "H")], cp)
            if any(isinstance(v, Maybe) for v in got.values()):
                shorts.append(got)
                raise Short
            return got
        shorts = []
        exp = fields(kind, {"signature": lambda: bytes(body[4:8]).decode("ascii", "replace"), "file_entry": entry,
                            "delegate_class_id": lambda: guid(body, 4 + inner()),
                            "delegate_folder_id": lambda: guid(body, 20 + inner())})
        if shorts:
            exp["file_entry"] = Maybe(OneOf(shorts[0], None))
        return exp
    if cls == "Unknown":
        tell("unknown item")
        return {"class": cls, "size": size}
    return {"class": cls}


def id_list(raw, cp):
    out, pos = [], 0
    while pos + 2 <= len(raw):
        size = at(raw, pos, "H")
        if size == 0:
            return out
        if size < 3:  # an item without a type: not settled, and what follows neither
            odd("item without a type")
            return Open(out)
        if pos + 3 > len(raw):
            tell("item without a type at the end")
            return out
        if pos + size > len(raw):
            odd("item longer than its list")
        with inside(("item", len(out))):
            out.append(item(raw[pos : pos + size], size, cp))
        pos += size
    if pos < len(raw):
        tell("half a size in a list")
    odd("list without an end")
    return out


# ---------------------------------------------------------------- LinkInfo

def link_info(raw, cp):
    def num(off, fmt="I"):
        try:
            return at(raw, off, fmt)
        except Short:
            tell("LinkInfo cut in a number")
            return None

    def text(base, off, uni):
        if off is None or base is None:
            return None
        part = raw[base + off:]
        return wide(part) if uni else ansi(part, cp)
    flags = num(8)
    if flags is None or not flags & 3:
        odd("LinkInfo of no kind")
        return {}
    head = num(4)
    if flags & 3 == 3:
        odd("LinkInfo of both kinds")
    if head is None or head < 0x1C or 0x1C < head < 0x24:
        odd("header size of LinkInfo")
    size = num(0)
    if size is None or not 0x1C <= size <= len(raw):
        odd("size of LinkInfo")
    kind = flags & 3
    if size is not None:
        raw = raw[:size]  # everything has to fit within the structure
    flags, head = num(8), num(4)
    exp = {"link_info_size": num(0), "link_info_header_size": head, "link_info_flags": flags,
           "volume_id_offset": num(12), "local_base_path_offset": num(16),
           "common_network_relative_link_offset": num(20), "common_path_suffix_offset": num(24)}
    if num(16):
        exp["local_base_path"] = text(0, num(16), False)
    if num(24):
        exp["common_path_suffix"] = text(0, num(24), False)
    if head is not None and head >= 0x24:
        for off, key in ((28, "local_base_path"), (32, "common_path_suffix")):
            if num(off):
                exp[key + "_offset_unicode"] = num(off)
                exp[key + "_unicode"] = text(0, num(off), True)
    if kind & 1:
        v = num(12)
        exp["location"] = "Local"
        if v is None:
            exp["location_info"] = {k: Maybe(None) for k in (
                "volume_id_size", "r_drive_type", "volume_label_offset", "drive_serial_number", "drive_type", "volume_label")}
            return exp
        drive, serial, label = num(v + 4), num(v + 8), num(v + 12)
        loc = {"volume_id_size": num(v), "r_drive_type": drive, "volume_label_offset": label,
               "drive_serial_number": None if serial is None else hex(serial),
               "drive_type": w.DRIVE_TYPES[drive] if drive is not None and drive < len(w.DRIVE_TYPES) else None,
               "volume_label": None if label == 0x14 else text(v, label, False)}
        if label == 0x14 and num(v + 16):
            loc["volume_label_unicode_offset"] = num(v + 16)
            loc["volume_label_unicode"] = text(v, num(v + 16), True)
        exp["location_info"] = loc
        return exp
    n = num(20)
    exp["location"] = "Network"
    if n is None:
        exp["location_info"] = {k: Maybe(None) for k in (
            "common_network_relative_link_size", "common_network_relative_link_flags", "net_name_offset",
            "device_name_offset", "r_network_provider_type")}
        return exp
    net, dev, prov, nflags = num(n + 8), num(n + 12), num(n + 16), num(n + 4)
    loc = {"common_network_relative_link_size": num(n), "common_network_relative_link_flags": nflags,
           "net_name_offset": net, "device_name_offset": dev,
           "r_network_provider_type": None if prov is None else hex(prov)}
    if nflags is not None and nflags & 2 and prov is not None:
        loc["network_provider_type"] = w.Provider(prov)
    if net is not None and net > 0x14:
        for off, key in ((20, "net_name"), (24, "device_name")):
            o = num(n + off)
            if o:
                loc[key + "_offset_unicode"] = o
                loc[key + "_unicode"] = text(n, o, True)
    elif net is not None:
        name = text(n, net, False)
        if name:
            loc["net_name"] = name
        if dev:
            name = text(n, dev, False)
            if name:
                loc["device_name"] = name
    exp["location_info"] = loc
    return exp


# ---------------------------------------------------------------- extra data

def unpack_guid(text):
    """A packed identifier of 20 characters, None when it is none."""
    got = _unpack_guid(text)
    if got is None:
        tell("packed identifier")
    return got


def _unpack_guid(text):
    if len(text) < 20:
        return None
    raw = b""
    for i in range(0, 20, 5):
        n = 0
        for c in reversed(text[i : i + 5]):
            if c not in w.BASE85:
                return None
            n = n * 85 + w.BASE85.index(c)
        if n >> 32:
            return None
        raw += w.u32(n)
    return w.guid_text(raw)


def darwin(body, cp):
    text = wide(body[268:788])
    exp = {"darwin_data_ansi": ansi(body[8:268], cp), "darwin_data_unicode": text,
           "product_code_id": unpack_guid(text[:20])}
    lt, gt = text.find("<"), text.find(">")
    if lt >= 0 and gt >= 0 or 0 <= max(lt, gt) < 20:
        exp["feature_name"] = exp["component_id"] = ANY
        odd("descriptor with both marks")
        return exp
    end = max(lt, gt)
    if end < 0:
        tell("feature name without an end")
    name = text[20:] if end < 0 else text[20:end]
    exp["feature_name"] = name if name or end < 0 else None
    if not name:
        exp["feature_name"] = OneOf("", None)
    exp["component_id"] = None
    if gt >= 0:
        exp["component_id"] = unpack_guid(text[gt + 1:]) if len(text) - gt - 1 <= 20 else ANY
        if len(text) - gt - 1 > 20:
            odd("characters behind a component")
    return exp


def values(raw, named):
    """The values of a storage, None when they are not well formed."""
    out, pos = [], 24
    while True:
        size = at(raw, pos, "I")
        if size == 0:
            return out
        if size < 9:
            return None
        one = raw[pos : pos + size]
        if named:
            n = at(one, 4, "I")
            off = 9 + n
            exp = {"value_size": size, "name_size": n, "name": wide(one[9:off])}
        else:
            off = 9
            exp = {"value_size": size, "id": at(one, 4, "I")}
        vt, padding = at(one, off, "H"), at(one, off + 2, "H")
        if vt not in w.VARTYPES:
            return None
        exp["value_type"] = w.VARTYPES[vt]
        exp["value"] = None
        if padding == 0 and vt == 2:
            exp["value"] = at(one, off + 4, "h")
        elif padding == 0 and vt == 0x1F:
            n = at(one, off + 4, "I")
            exp["value"] = wide(one[off + 8 : off + 8 + 2 * n])
        out.append(exp)
        pos += size


def property_store(raw):
    out, pos = [], 8
    while True:
        size = at(raw, pos, "I")
        if size == 0:
            return out
        if size < 28:
            return None
        one = raw[pos : pos + size]
        fmt = guid(one, 8)
        vals = values(one, fmt == w.guid_text(w.STRING_NAMED))
        if vals is None:
            return None
        out.append({"storage_size": size, "version": hex(at(one, 4, "I")), "format_id": fmt,
                    "serialized_property_values": vals})
        pos += size


NAMES = {0xA0000001: "ENVIRONMENTAL_VARIABLES_LOCATION_BLOCK", 0xA0000002: "CONSOLE_PROPERTIES_BLOCK",
         0xA0000003: "DISTRIBUTED_LINK_TRACKER_BLOCK", 0xA0000004: "CONSOLE_CODEPAGE_BLOCK",
         0xA0000005: "SPECIAL_FOLDER_LOCATION_BLOCK", 0xA0000006: "DARWIN_BLOCK",
         0xA0000007: "ICON_LOCATION_BLOCK", 0xA0000008: "SHIM_LAYER_BLOCK",
         0xA0000009: "METADATA_PROPERTIES_BLOCK", 0xA000000B: "KNOWN_FOLDER_LOCATION_BLOCK",
         0xA000000C: "SHELL_ITEM_IDENTIFIER_BLOCK"}


SIZES = {0xA0000001: 0x314, 0xA0000002: 0xCC, 0xA0000003: 0x60, 0xA0000004: 12, 0xA0000005: 16, 0xA0000006: 0x314,
         0xA0000007: 0x314, 0xA000000B: 28}


def block(raw, size, sig, cp):
    """`raw`: what there is of a block of `size` bytes, 8 at least."""
    name = NAMES.get(sig, "UNKNOWN_BLOCK")
    exp = {"size": size}
    if size > len(raw):
        odd("block longer than the file")
    if sig in SIZES and size != SIZES[sig] or sig == 0xA0000008 and size < 0x88:
        odd("size of a block")
    if len(raw) >= 16 and sig == 0xA0000003:
        if at(raw, 8, "I") != 0x58:
            tell("length of the tracker")
        if at(raw, 12, "I") != 0:
            tell("version of the tracker")
    if sig in (0xA0000001, 0xA0000007):
        spec = {"target_ansi": lambda: ansi(raw[8:268], cp), "target_unicode": lambda: wide(raw[268:788])}
    elif sig == 0xA0000002:
        spec = {key: lambda o=off, f=f: at(raw, o, f) for key, f, off in w.CONSOLE}
        spec["face_name"] = lambda: wide(raw[44:108])
    elif sig == 0xA0000003:
        spec = {"length": lambda: at(raw, 8, "I"), "version": lambda: at(raw, 12, "I"),
                "machine_identifier": lambda: ansi(raw[16:32], cp)}
        for i, key in enumerate(("droid_volume", "droid_file", "birth_droid_volume", "birth_droid_file")):
            spec[key + "_identifier"] = lambda i=i: guid(raw, 32 + 16 * i)
    elif sig == 0xA0000004:
        spec = {"code_page": lambda: at(raw, 8, "I")}
    elif sig == 0xA0000005:
        spec = {"special_folder_id": lambda: at(raw, 8, "I"), "offset": lambda: at(raw, 12, "I")}
    elif sig == 0xA0000006:
        got = darwin(raw, cp)
        spec = {key: lambda v=v: v for key, v in got.items()}
    elif sig == 0xA0000008:
        spec = {"layer_name": lambda: wide(raw[8:])}
    elif sig == 0xA0000009:
        try:
            stores = property_store(raw)
        except Short:
            cut_short("short block")
            stores = None
        if stores is None:
            odd("property store")
            return name, Maybe({**exp, "property_store": Maybe(ANY)})
        spec = {"property_store": lambda: stores}
    elif sig == 0xA000000B:
        spec = {"known_folder_id": lambda: guid(raw, 8), "offset": lambda: at(raw, 24, "I")}
    elif sig == 0xA000000C:
        spec = {"id_list": lambda: id_list(raw[8:size], cp)}
    else:
        spec = {"extra_data_sha256": lambda: hashlib.sha256(raw[4:]).hexdigest()}
    exp = fields(exp, spec, "short block")
    return name, Maybe(exp) if any(isinstance(v, Maybe) for v in exp.values()) else exp


def extra(raw, cp, allow):
    """The blocks, and their extent (with what follows them), None when that is not settled."""
    out, pos = [], 0
    while pos + 4 <= len(raw):
        size = at(raw, pos, "I")
        if size < 4:
            break
        if size < 8:
            odd("tiny block")
            return out, None
        if pos + 8 > len(raw):
            tell("block without a signature")
            odd("extent of a block without a signature")
            return out, len(raw)
        with inside(("block", len(out))):
            out.append(block(raw[pos : pos + size], size, at(raw, pos + 4, "I"), cp))
        pos += size
    rest = raw[pos:]
    if 0 < len(rest) < 4:
        tell("rest of the file")
    elif not rest:
        odd("no terminal block")
    if allow and len(rest) > 4:
        out.append(("TERMINAL_BLOCK", {"size": len(rest), "appended_data_sha256": hashlib.sha256(rest[4:]).hexdigest()}))
        return out, len(raw)
    return out, min(pos + 4, len(raw))


# ---------------------------------------------------------------- the whole

def header(data):
    vals = {}
    for name, off, width in w.HEADER_FIELDS:
        raw = data[off : off + width]
        vals[name] = bytes(raw) if width == 16 else int.from_bytes(raw, "little")
    for key in ("creation", "access", "write"):
        if isinstance(w.filetime_value(vals[key]), OneOf):
            odd("time at the end of the calendar")
    for key in vals:
        if not w.header(**{key: vals[key]})[2]:
            tell("header: " + key)
    return w.header(**vals)[1], vals


def read(data, cp=None, allow=True):
    """What has to be reported of `data` (76 bytes at least): the complete report."""
    cp = cp or "cp1252"
    del NOTES[:], WHERE[:]
    head, vals = header(data)
    flags = vals["link_flags"]
    has = lambda name: flags & w.FLAG[name]
    exp = {"size": ANY, "header": head, "link_info": {}, "data": {}, "extra": {}}
    pos = vals["header_size"]
    if has("HasTargetIDList") and pos + 2 > len(data):
        tell("no ID list")
    elif has("HasTargetIDList"):
        n = at(data, pos, "H")
        if pos + 2 + n > len(data):
            odd("list longer than the file")
        exp["target"] = {"size": n, "items": id_list(data[pos + 2 : pos + 2 + n], cp), "index": pos + 2}
        pos += 2 + n
    if has("HasLinkInfo"):
        raw = data[pos:]
        if len(raw) < 12:
            tell("no LinkInfo")
        if not has("ForceNoLinkInfo"):
            with inside("LinkInfo"):
                exp["link_info"] = link_info(raw, cp)
        if len(raw) >= 4:
            pos += at(raw, 0, "I")
        else:
            pos = len(data)
    for flag, key in w.STRINGS:
        if not has(flag):
            continue
        if pos + 2 > len(data):
            tell("no string")
            break
        n = at(data, pos, "H")
        if key in ("description", "relative_path", "working_directory"):
            n = min(n, 260)
        raw = data[pos + 2 : pos + 2 + n * (2 if has("IsUnicode") else 1)]
        if len(raw) < n * (2 if has("IsUnicode") else 1):
            odd("string longer than the file")
        with inside(key):
            exp["data"][key] = wide(raw, False) if has("IsUnicode") else ansi(raw, cp, False)
        pos += 2 + n * (2 if has("IsUnicode") else 1)
    blocks, end = extra(data[pos:], cp, allow)
    settled = end is not None
    if settled:  # sizes of damaged structures may exceed the data
        exp["size"] = min(pos + end, len(data))
        if any("extent" in n[0] for n in NOTES):
            exp["size"] = ANY
    out = {}
    for name, e in blocks:
        if name == "UNKNOWN_BLOCK":
            out.setdefault(name, []).append(e)
        else:
            out.setdefault(name, []).insert(0, e)
    # Of several blocks of one kind one has to be reported (finding duplicate-block: the last).
    for name, es in out.items():
        if name == "UNKNOWN_BLOCK":
            if not settled:
                out[name] = Open(es)
            continue
        sure = [e for e in es if not isinstance(e, Maybe)]
        vals = [e.value if isinstance(e, Maybe) else e for e in es]
        one = vals[0] if len(vals) == 1 else OneOf(*vals)
        out[name] = one if sure else Maybe(one)
        if not settled:
            out[name] = OneOf(one, ANY) if sure else Maybe(ANY)
    exp["extra"] = out if settled else Loose(out)
    return exp
