"""Reference encoder for shell links.

Written from [MS-SHLLINK] and libfwsi's shell item documentation, not from the parser.
Every function returns (bytes on the wire, what a correct parser has to report for them),
so that a monitor can hold any execution of the real parser against it.  Nothing here
imports the code under test.
"""

import hashlib
import struct
import uuid as _uuid
from datetime import datetime, timedelta, timezone

UTC = timezone.utc
EPOCH = datetime(1601, 1, 1, tzinfo=UTC)
MAX_MICROSECONDS = (datetime.max.replace(tzinfo=UTC) - EPOCH) // timedelta(microseconds=1)
CLSID = _uuid.UUID("00021401-0000-0000-C000-000000000046")


def u8(v):
    return struct.pack("<B", v & 0xFF)


def u16(v):
    return struct.pack("<H", v & 0xFFFF)


def u32(v):
    return struct.pack("<I", v & 0xFFFFFFFF)


def u64(v):
    return struct.pack("<Q", v & 0xFFFFFFFFFFFFFFFF)


def guid_text(raw):
    return str(_uuid.UUID(bytes_le=bytes(raw))).upper()


class Near:
    """A timestamp which may be off by the last microsecond (rounding is not specified)."""

    def __init__(self, value):
        self.value = value

    def __repr__(self):
        return f"Near({self.value})"


class OneOf:
    def __init__(self, *values):
        self.values = values

    def __repr__(self):
        return "OneOf" + repr(self.values)


class Open(list):
    """A list whose further entries are not settled."""


class Loose(dict):
    """A dictionary whose further entries are not settled."""


class Maybe:
    """An entry of a dictionary which may be missing."""

    def __init__(self, value):
        self.value = value

    def __repr__(self):
        return f"Maybe({self.value!r})"


class Any:
    """The documents do not say what has to be reported here."""

    def __repr__(self):
        return "Any()"


ANY = Any()


def filetime_value(n):
    """None or the instant of a FILETIME."""
    if n == 0:
        return None
    try:
        value = Near(EPOCH + timedelta(microseconds=n // 10))
    except OverflowError:
        return None
    if n // 10 == MAX_MICROSECONDS:  # its rounding may leave the range
        return OneOf(value, None)
    return value


def filetime_in_range(n):
    return n == 0 or filetime_value(n) is not None


def fat_value(date, time):
    """Instant of a FAT date and time, `None` when it denotes none."""
    if date == 0 and time == 0:
        return None
    try:
        return datetime(
            1980 + (date >> 9), (date >> 5) & 15, date & 31,
            time >> 11, (time >> 5) & 63, (time & 31) * 2, tzinfo=UTC,
        )
    except ValueError:
        return None


def fat_valid(date, time):
    return (date == 0 and time == 0) or fat_value(date, time) is not None


# ---------------------------------------------------------------- text

def decode_ansi(raw, cp):
    """(text, lossless).  Code page, else UTF-8, else code page with replacement."""
    raw = raw.split(b"\0", 1)[0]
    try:
        return raw.decode(cp), True
    except UnicodeDecodeError:
        try:
            return raw.decode("utf-8"), True
        except UnicodeDecodeError:
            return raw.decode(cp, errors="replace"), False


def cut_utf16(raw):
    for i in range(0, len(raw), 2):
        if raw[i : i + 2] == b"\0\0":
            return raw[:i]
    return raw


def decode_utf16(raw):
    raw = cut_utf16(raw)
    try:
        return raw.decode("utf-16le"), True
    except UnicodeDecodeError:
        return raw.decode("utf-16le", errors="replace"), False


# ---------------------------------------------------------------- header

LINK_FLAGS = [
    "HasTargetIDList", "HasLinkInfo", "HasName", "HasRelativePath", "HasWorkingDir",
    "HasArguments", "HasIconLocation", "IsUnicode", "ForceNoLinkInfo", "HasExpString",
    "RunInSeparateProcess", None, "HasDarwinID", "RunAsUser", "HasExpIcon", "NoPidlAlias",
    None, "RunWithShimLayer", "ForceNoLinkTrack", "EnableTargetMetadata",
    "DisableLinkPathTracking", "DisableKnownFolderTracking", "DisableKnownFolderAlias",
    "AllowLinkToLink", "UnaliasOnSave", "PreferEnvironmentPath", "KeepLocalIDListForUNCTarget",
]
FLAG = {name: 1 << i for i, name in enumerate(LINK_FLAGS) if name}
RESERVED_LINK_BITS = {11: "Reserved0", 16: "Reserved1"}

FILE_FLAGS = {
    0: "READONLY", 1: "HIDDEN", 2: "SYSTEM", 4: "DIRECTORY", 5: "ARCHIVE", 7: "NORMAL",
    8: "TEMPORARY", 9: "SPARSE_FILE", 10: "REPARSE_POINT", 11: "COMPRESSED", 12: "OFFLINE",
    13: "NOT_CONTENT_INDEXED", 14: "ENCRYPTED",
}
# Bits the [MS-SHLLINK] leaves undefined or reserved but Windows' headers do define.
FILE_FLAGS_EXTRA = {
    3: "Reserved, not used by the LNK format", 6: "FILE_ATTRIBUTE_DEVICE",
    15: "FILE_ATTRIBUTE_INTEGRITY_STREAM", 16: "FILE_ATTRIBUTE_VIRTUAL",
    17: "FILE_ATTRIBUTE_NO_SCRUB_DATA",
}

HOTKEY_HIGH = {0: "UNSET", 1: "SHIFT", 2: "CONTROL", 4: "ALT"}
HOTKEY_LOW = {0: "UNSET"}
HOTKEY_LOW.update({c: chr(c) for c in range(0x30, 0x3A)})
HOTKEY_LOW.update({c: chr(c) for c in range(0x41, 0x5B)})
HOTKEY_LOW.update({0x6F + i: "F%d" % i for i in range(1, 25)})
HOTKEY_LOW.update({0x90: "NUM_LOCK", 0x91: "SCROLL_LOCK"})


def link_flag_names(flags):
    out = []
    for bit in range(32):
        if flags >> bit & 1:
            if bit in RESERVED_LINK_BITS:
                out.append(RESERVED_LINK_BITS[bit])
            elif bit < len(LINK_FLAGS):
                out.append(LINK_FLAGS[bit])
    return out


def file_flag_names(flags):
    out = []
    for bit in range(32):
        if flags >> bit & 1:
            if bit in FILE_FLAGS:
                out.append("FILE_ATTRIBUTE_" + FILE_FLAGS[bit])
            elif bit in FILE_FLAGS_EXTRA:
                out.append(FILE_FLAGS_EXTRA[bit])
    return out


def hotkey_text(value):
    low, high = value & 0xFF, value >> 8
    raw = "%02x%02x" % (low, high)
    if low in HOTKEY_LOW and high in HOTKEY_HIGH:
        return "%s - %s {0x%s}" % (HOTKEY_HIGH[high], HOTKEY_LOW[low], raw)
    return raw


HEADER_FIELDS = [  # name, offset, width
    ("header_size", 0, 4), ("clsid", 4, 16), ("link_flags", 20, 4), ("file_flags", 24, 4),
    ("creation", 28, 8), ("access", 36, 8), ("write", 44, 8), ("file_size", 52, 4),
    ("icon_index", 56, 4), ("show", 60, 4), ("hotkey", 64, 2), ("reserved1", 66, 2),
    ("reserved2", 68, 4), ("reserved3", 72, 4),
]

HEADER_DEFAULTS = {
    "header_size": 0x4C, "clsid": CLSID.bytes_le, "link_flags": 0, "file_flags": 0,
    "creation": 0, "access": 0, "write": 0, "file_size": 0, "icon_index": 0, "show": 1,
    "hotkey": 0, "reserved1": 0, "reserved2": 0, "reserved3": 0,
}


def header(**kw):
    f = dict(HEADER_DEFAULTS)
    f.update(kw)
    raw = (
        u32(f["header_size"]) + bytes(f["clsid"]) + u32(f["link_flags"]) + u32(f["file_flags"])
        + u64(f["creation"]) + u64(f["access"]) + u64(f["write"]) + u32(f["file_size"])
        + u32(f["icon_index"]) + u32(f["show"]) + u16(f["hotkey"]) + u16(f["reserved1"])
        + u32(f["reserved2"]) + u32(f["reserved3"])
    )
    assert len(raw) == 76
    icon = f["icon_index"] & 0xFFFFFFFF
    if icon >= 1 << 31:
        icon -= 1 << 32
    show = {1: "SW_SHOWNORMAL", 3: "SW_SHOWMAXIMIZED", 7: "SW_SHOWMINNOACTIVE"}
    exp = {
        "guid": guid_text(f["clsid"]),
        "r_link_flags": f["link_flags"],
        "r_file_flags": f["file_flags"],
        "creation_time": filetime_value(f["creation"]),
        "accessed_time": filetime_value(f["access"]),
        "modified_time": filetime_value(f["write"]),
        "file_size": f["file_size"] & 0xFFFFFFFF,
        "icon_index": icon,
        "windowstyle": show.get(f["show"], "SW_SHOWNORMAL"),
        "hotkey": hotkey_text(f["hotkey"]),
        "r_hotkey": f["hotkey"],
        "link_flags": link_flag_names(f["link_flags"]),
        "file_flags": file_flag_names(f["file_flags"]),
        "header_size": f["header_size"],
        "reserved0": f["reserved1"],
        "reserved1": f["reserved2"],
        "reserved2": f["reserved3"],
    }
    conforming = (
        f["header_size"] == 0x4C and bytes(f["clsid"]) == CLSID.bytes_le
        and not f["reserved1"] and not f["reserved2"] and not f["reserved3"]
        and all(filetime_in_range(f[k]) for k in ("creation", "access", "write"))
    )
    return raw, exp, conforming


# ---------------------------------------------------------------- parts

class Part:
    """A piece of a shell link: its bytes, what it has to be reported as, and its fields.

    `exp` is the expected report, `warn` tells whether the parser has to speak up about it
    (None: it may), `size_len` is the width of the leading size field,
    `fields` are (offset, width) of numbers inside of it, for mutators.
    """

    def __init__(self, kind, raw, exp, warn=False, size_len=2, fields=(), name=None, info=None):
        self.kind = kind
        self.raw = raw
        self.exp = exp
        self.warn = warn
        self.size_len = size_len
        self.fields = list(fields)
        self.name = name
        self.info = info or {}

    def __repr__(self):
        return f"<{self.kind} {len(self.raw)} B>"


def _item(kind, body, exp, warn=False, fields=(), info=None):
    raw = u16(len(body) + 2) + body
    assert len(raw) < 0x10000
    return Part(kind, raw, exp, warn, 2, [(0, 2), (2, 1)] + [(o + 2, w) for o, w in fields], info=info)


SORT_INDEX = {
    0x00: "Internet Explorer", 0x42: "Libraries", 0x44: "Users", 0x48: "My Documents",
    0x4C: "Public Folder", 0x50: "My Computer", 0x54: "UsersLibraries",
    0x58: "My Networs Places/Network", 0x60: "Recycle Bin", 0x68: "Internet Explorer",
    0x78: "Recycle Bin", 0x80: "My Games",
}


def item_root(sort, guid, type_=0x1F, ext=b""):
    known = sort in SORT_INDEX
    return _item(
        "root", u8(type_) + u8(sort) + guid + ext,
        {"class": "Root Folder", "sort_index": SORT_INDEX.get(sort, "Unknown"),
         "sort_index_value": sort, "guid": guid_text(guid)},
        warn=not known, fields=[(1, 1)],
    )


def item_volume(type_, payload, cp, pad=b""):
    """`payload`: a name (type has bit 0) of up to 20 bytes with its NUL, or a GUID."""
    exp = {"class": "Volume Item", "flags": hex(type_ & 15)}
    warn = False
    if type_ & 1:
        field = payload[:20].ljust(20, b"\0")
        text, ok = decode_ansi(field, cp)
        exp["volume_name"] = text
        warn = not ok
        body = u8(type_) + field + pad
    else:
        exp["volume_identifier"] = guid_text(payload)
        body = u8(type_) + u8(0x80) + payload + pad
    return _item("volume", body, exp, warn)


def class_flag_text(type_):
    """Label of the flags of a file entry; (label, unknown)."""
    low = type_ & 0x0F
    kind = {1: "directory", 2: "file", 3: "share"}
    if low & 7 == 7:  # both "directory" and "file" (a share); the label is not settled
        return OneOf("Is Unicode share", "Is Unicode directory", "Is Unicode file"), False
    if low & 3:
        return ("Is Unicode " if low & 4 else "Is ") + kind[low & 3], False
    if low & 4:
        return "Has Unicode strings", False
    return "Unknown", True


def item_file(type_, size, date, time, attrs, name_raw, cp, tail=b"", unknown=0):
    """`name_raw`: encoded name without its terminator; `tail`: whatever follows the name."""
    flags, unk = class_flag_text(type_)
    if type_ & 4:
        text, ok = decode_utf16(name_raw + b"\0\0")
        name = name_raw + b"\0\0"
    else:
        text, ok = decode_ansi(name_raw + b"\0", cp)
        name = name_raw + b"\0"
    body = u8(type_) + u8(unknown) + u32(size) + u16(date) + u16(time) + u16(attrs) + name + tail
    return _item(
        "file", body,
        {"class": "File entry", "flags": flags, "file_size": size,
         "modification_time": fat_value(date, time), "file_attribute_flags": attrs,
         "primary_name": text},
        warn=unk or not ok or not fat_valid(date, time),
        fields=[(2, 4), (6, 2), (8, 2), (10, 2)],
    )


def item_network(type_, content, location, description, comments, cp, tail=b"", unknown=0):
    flags, unk = class_flag_text(type_)
    body = u8(type_) + u8(unknown) + u8(content) + location + b"\0"
    text, ok = decode_ansi(location, cp)
    exp = {"class": "Network location", "flags": flags, "content_flags": content,
           "location": text, "description": None, "comments": None}
    if content & 0x80:
        body += description + b"\0"
        exp["description"], ok2 = decode_ansi(description, cp)
        ok = ok and ok2
    if content & 0x40:
        body += comments + b"\0"
        exp["comments"], ok2 = decode_ansi(comments, cp)
        ok = ok and ok2
    return _item("network", body + tail, exp, warn=unk or not ok, fields=[(2, 1)])


PLAIN_ITEMS = {0x52: "Compressed folder", 0x61: "Internet", 0x72: "Printers",
               0x73: "Common places folder"}


def item_plain(type_, payload):
    return _item("plain", u8(type_) + payload, {"class": PLAIN_ITEMS[type_]})


def item_control_panel(type_, guid, pad=b"\0" * 10, tail=b""):
    return _item("cpanel", u8(type_) + u8(0x80) + pad + guid + tail,
                 {"class": "Control panel", "item_identifier": guid_text(guid)})


CATEGORIES = [
    "All Control Panel Items", "Appearance and Personalization", "Hardware and Sound",
    "Network and Internet", "Sounds, Speech, and Audio Devices", "System and Security",
    "Clock, Language, and Region", "Ease of Access", "Programs", "User Accounts",
    "Security Center", "Mobile PC",
]


def item_category(cat, tail=b""):
    known = cat < len(CATEGORIES)
    return _item(
        "category", u8(0x01) + u8(0) + u32(0x39DE2184) + u32(cat) + tail,
        {"class": "Control panel category", "category_id": cat,
         "category": CATEGORIES[cat] if known else "Unknown"},
        warn=not known, fields=[(2, 4), (6, 4)],
    )


def item_cpl(sig, path, name, comments, unicode_, cp, gap=0, with_comments=True):
    """Path, name and comments as text (Unicode format) or bytes (older format)."""
    if unicode_:
        enc = lambda t: t.encode("utf-16le") + b"\0\0"
        width = 2
    else:
        enc = lambda t: t + b"\0"
        width = 1
    area = enc(path) + b"\0" * (gap * width)
    name_off = len(area) // width
    area += enc(name)
    if with_comments:
        com_off = len(area) // width
        area += enc(comments)
    else:
        com_off, comments = 0, "" if unicode_ else b""
    head = u8(0) + u8(0) + u32(sig)
    if unicode_:
        head += b"\0" * 12
        ok = True
        texts = [path, name, comments]
    else:
        texts, oks = [], []
        for t in (path, name, comments):
            s, o = decode_ansi(t, cp)
            texts.append(s)
            oks.append(o)
        ok = all(oks)
    body = head + u16(name_off) + u16(com_off) + area
    return _item(
        "cpl", body,
        {"class": "Control panel CPL file", "signature": "0x%08X" % sig,
         "cpl_file_path": texts[0], "name": texts[1], "comments": texts[2]},
        warn=not ok, fields=[(2, 4)],
    )


def item_users_files(entry, class_id, folder_id, tail=b""):
    """`entry`: a Part of an embedded file entry item."""
    inner = b"CFSF" + entry.raw + u16(0)
    body = u8(0x74) + u8(0) + u16(len(inner)) + inner + class_id + folder_id + tail
    return _item(
        "users", body,
        {"class": "Users files folder", "signature": "CFSF", "file_entry": entry.exp,
         "delegate_class_id": guid_text(class_id), "delegate_folder_id": guid_text(folder_id)},
        warn=entry.warn, fields=[(2, 2), (8, 2)],
    )


KNOWN_ITEM_TYPES = {0x00, 0x01, 0x1E, 0x1F, 0x52, 0x61, 0x70, 0x71, 0x72, 0x73, 0x74}


def is_unknown_item_type(t):
    return t not in KNOWN_ITEM_TYPES and t & 0x70 not in (0x20, 0x30, 0x40)


def item_unknown(type_, payload):
    assert is_unknown_item_type(type_)
    raw = u16(len(payload) + 3) + u8(type_) + payload
    return Part("unknown", raw, {"class": "Unknown", "size": len(raw)}, True, 2, [(0, 2), (2, 1)])


# ---------------------------------------------------------------- LinkInfo

DRIVE_TYPES = ["DRIVE_UNKNOWN", "DRIVE_NO_ROOT_DIR", "DRIVE_REMOVABLE", "DRIVE_FIXED",
               "DRIVE_REMOTE", "DRIVE_CDROM", "DRIVE_RAMDISK"]

# [MS-SHLLINK] 2.3.2, NetworkProviderType
PROVIDERS = {
    0x001A0000: "WNNC_NET_AVID", 0x001B0000: "WNNC_NET_DOCUSPACE",
    0x001C0000: "WNNC_NET_MANGOSOFT", 0x001D0000: "WNNC_NET_SERNET",
    0x001E0000: "WNNC_NET_RIVERFRONT1", 0x001F0000: "WNNC_NET_RIVERFRONT2",
    0x00200000: "WNNC_NET_DECORB", 0x00210000: "WNNC_NET_PROTSTOR",
    0x00220000: "WNNC_NET_FJ_REDIR", 0x00230000: "WNNC_NET_DISTINCT",
    0x00240000: "WNNC_NET_TWINS", 0x00250000: "WNNC_NET_RDR2SAMPLE",
    0x00260000: "WNNC_NET_CSC", 0x00270000: "WNNC_NET_3IN1",
    0x00290000: "WNNC_NET_EXTENDNET", 0x002A0000: "WNNC_NET_STAC",
    0x002B0000: "WNNC_NET_FOXBAT", 0x002C0000: "WNNC_NET_YAHOO",
    0x002D0000: "WNNC_NET_EXIFS", 0x002E0000: "WNNC_NET_DAV",
    0x002F0000: "WNNC_NET_KNOWARE", 0x00300000: "WNNC_NET_OBJECT_DIRE",
    0x00310000: "WNNC_NET_MASFAX", 0x00320000: "WNNC_NET_HOB_NFS",
    0x00330000: "WNNC_NET_SHIVA", 0x00340000: "WNNC_NET_IBMAL",
    0x00350000: "WNNC_NET_LOCK", 0x00360000: "WNNC_NET_TERMSRV",
    0x00370000: "WNNC_NET_SRT", 0x00380000: "WNNC_NET_QUINCY",
    0x00390000: "WNNC_NET_OPENAFS", 0x003A0000: "WNNC_NET_AVID1",
    0x003B0000: "WNNC_NET_DFS", 0x003C0000: "WNNC_NET_KWNP",
    0x003D0000: "WNNC_NET_ZENWORKS", 0x003E0000: "WNNC_NET_DRIVEONWEB",
    0x003F0000: "WNNC_NET_VMWARE", 0x00400000: "WNNC_NET_RSFX",
    0x00410000: "WNNC_NET_MFILES", 0x00420000: "WNNC_NET_MS_NFS",
    0x00430000: "WNNC_NET_GOOGLE",
}


class Provider:
    """Name of a network provider: a documented value has its name, others have none.

    `pinned` is what the parser is known to report instead (finding provider-table): the
    keys of its table are the documented values divided by 16, and they match only when
    their hexadecimal form has no letters."""

    def __init__(self, value):
        self.value = value

    @property
    def name(self):
        return PROVIDERS.get(self.value)

    @property
    def pinned(self):
        if hex(self.value)[2:].isdigit():
            return PROVIDERS.get(self.value << 4)
        return None

    def __repr__(self):
        return f"Provider({self.value:#x}: {self.name})"


def volume_id(drive, serial, label, cp, unicode_=False, gap=b""):
    """VolumeID; `label` bytes in the code page or text."""
    if unicode_:
        text, ok = label, True
        raw = u32(drive) + u32(serial) + u32(0x14) + u32(0x14 + len(gap)) + gap
        raw += label.encode("utf-16le") + b"\0\0"
    else:
        text, ok = decode_ansi(label, cp)
        off = 0x10 + len(gap)
        if off == 0x14:
            gap, off = gap + b"\0", off + 1
        raw = u32(drive) + u32(serial) + u32(off) + gap + label + b"\0"
    raw = u32(len(raw) + 4) + raw
    exp = {
        "volume_id_size": len(raw), "r_drive_type": drive,
        "volume_label_offset": struct.unpack("<I", raw[12:16])[0],
        "drive_serial_number": hex(serial),
        "drive_type": DRIVE_TYPES[drive] if drive < len(DRIVE_TYPES) else None,
        "volume_label": None if unicode_ else text,
    }
    if unicode_:
        exp["volume_label_unicode_offset"] = 0x14 + len(gap)
        exp["volume_label_unicode"] = text
    return raw, exp, ok


def network_link(net, device, provider, cp, net_u=None, device_u=None, more=0, stale=0):
    """CommonNetworkRelativeLink.  `device`/`provider` None: not valid.
    `net_u`: text, makes the Unicode fields present.  `more`: further bits of the flags,
    `stale`: what the field of the provider holds when it is not valid."""
    flags = (1 if device is not None else 0) | (2 if provider is not None else 0) | (more & ~3)
    stored = stale if provider is None else provider
    head = 0x1C if net_u is not None else 0x14
    area, off = b"", {}

    def put(raw):
        nonlocal area
        o = head + len(area)
        area += raw
        return o

    off["net"] = put(net + b"\0")
    off["dev"] = put(device + b"\0") if device is not None else 0
    off["netu"] = off["devu"] = 0
    if net_u is not None:
        off["netu"] = put(net_u.encode("utf-16le") + b"\0\0")
        if device is not None:
            off["devu"] = put((device_u or "").encode("utf-16le") + b"\0\0")
    raw = u32(head + len(area)) + u32(flags) + u32(off["net"]) + u32(off["dev"])
    raw += u32(stored)
    if net_u is not None:
        raw += u32(off["netu"]) + u32(off["devu"])
    raw += area
    exp = {
        "common_network_relative_link_size": len(raw),
        "common_network_relative_link_flags": flags,
        "net_name_offset": off["net"], "device_name_offset": off["dev"],
        "r_network_provider_type": hex(stored),
    }
    ok = True
    if provider is not None:
        exp["network_provider_type"] = Provider(provider)
    if net_u is not None:
        exp["net_name_offset_unicode"] = off["netu"]
        exp["net_name_unicode"] = net_u
        if device is not None:
            exp["device_name_offset_unicode"] = off["devu"]
            exp["device_name_unicode"] = device_u or ""
    else:
        text, ok = decode_ansi(net, cp)
        if text:  # the parser leaves empty names out
            exp["net_name"] = text
        if device is not None:
            text, ok2 = decode_ansi(device, cp)
            ok = ok and ok2
            if text:
                exp["device_name"] = text
    return raw, exp, ok


def link_info(cp, local=None, network=None, suffix=b"", header_size=None, base_u=None,
              suffix_u=None, gap=b"", extra_flags=0, tail=b""):
    """`local`: (volume_id() result, base path bytes), `network`: network_link() result."""
    flags = (1 if local else 0) | (2 if network else 0) | extra_flags
    if header_size is None:
        header_size = 0x24 if base_u is not None or suffix_u is not None else 0x1C
    head = header_size
    area = b""
    ok = True

    def put(raw):
        nonlocal area
        o = head + len(area)
        area += raw + gap
        return o

    vol_off = base_off = net_off = baseu_off = suffu_off = 0
    exp_more = {}
    if local:
        vol_off = put(local[0][0])
        base_off = put(local[1] + b"\0")
        text, o = decode_ansi(local[1], cp)
        ok = ok and o and local[0][2]
        exp_more["local_base_path"] = text
    if network:
        net_off = put(network[0])
        if not local:  # when both are there, the local view is what is reported
            ok = ok and network[2]
    suff_off = put(suffix + b"\0")
    text, o = decode_ansi(suffix, cp)
    ok = ok and o
    exp_more["common_path_suffix"] = text
    if header_size >= 0x24:
        if local and base_u is not None:
            baseu_off = put(base_u.encode("utf-16le") + b"\0\0")
            exp_more["local_base_path_offset_unicode"] = baseu_off
            exp_more["local_base_path_unicode"] = base_u
        if suffix_u is not None:
            suffu_off = put(suffix_u.encode("utf-16le") + b"\0\0")
            exp_more["common_path_suffix_offset_unicode"] = suffu_off
            exp_more["common_path_suffix_unicode"] = suffix_u
    raw = u32(header_size) + u32(flags) + u32(vol_off) + u32(base_off) + u32(net_off) + u32(suff_off)
    if header_size >= 0x24:
        raw += u32(baseu_off) + u32(suffu_off)
    raw += b"\0" * (header_size - len(raw) - 4)
    raw += area + tail
    raw = u32(len(raw) + 4) + raw
    if not (local or network):
        return Part("info", raw, {}, None, 4, _info_fields(header_size))
    exp = {
        "link_info_size": len(raw), "link_info_header_size": header_size,
        "link_info_flags": flags, "volume_id_offset": vol_off,
        "local_base_path_offset": base_off, "common_network_relative_link_offset": net_off,
        "common_path_suffix_offset": suff_off,
    }
    exp.update(exp_more)
    if local:
        exp["location"] = "Local"
        exp["location_info"] = dict(local[0][1])
    else:
        exp["location"] = "Network"
        exp["location_info"] = dict(network[1])
    fields = _info_fields(header_size)
    base = vol_off if local else net_off
    fields += [(base + 4 * i, 4) for i in range(5)]
    return Part("info", raw, exp, not ok, 4, fields)


def _info_fields(header_size):
    return [(i, 4) for i in range(0, min(header_size, 0x24), 4)]


# ---------------------------------------------------------------- StringData

STRINGS = [("HasName", "description"), ("HasRelativePath", "relative_path"),
           ("HasWorkingDir", "working_directory"), ("HasArguments", "command_line_arguments"),
           ("HasIconLocation", "icon_location")]


def string_data(key, content, unicode_, cp):
    """`content`: text when `unicode_`, else bytes of the code page."""
    if unicode_:
        body = content.encode("utf-16le", "surrogatepass")
        count = len(body) // 2
        text, ok = decode_utf16(body)
    else:
        body, count = content, len(content)
        text, ok = decode_ansi(content, cp)
    return Part("string", u16(count) + body, text, not ok, 2, [(0, 2)], name=key)


# ---------------------------------------------------------------- extra data

def _block(kind, sig, body, name, exp, warn=False, fields=(), info=None):
    raw = u32(len(body) + 8) + u32(sig) + body
    exp = dict({"size": len(raw)}, **exp)
    return Part("block:" + kind, raw, exp, warn, 4,
                [(0, 4), (4, 4)] + [(o + 8, w) for o, w in fields], name=name, info=info)


def fixed_ansi(raw, width, fill=b"\0"):
    """A field of so many bytes; a text which fills it has no end."""
    if len(raw) >= width:
        return raw[:width]
    raw = raw[: width - 1] + b"\0"
    return raw + (fill * width)[: width - len(raw)]


def fixed_utf16(text, width, fill=b"\0"):
    raw = text.encode("utf-16le", "surrogatepass")
    if len(raw) >= width:
        return raw[:width]
    raw = raw[: width - 2] + b"\0\0"
    return raw + (fill * width)[: width - len(raw)]


def block_environment(ansi, uni, cp, fill=b"\0", kind="environment"):
    a, u = fixed_ansi(ansi, 260, fill), fixed_utf16(uni, 520, fill)
    ta, ok1 = decode_ansi(a, cp)
    tu, ok2 = decode_utf16(u)
    sig, name = {"environment": (0xA0000001, "ENVIRONMENTAL_VARIABLES_LOCATION_BLOCK"),
                 "icon": (0xA0000007, "ICON_LOCATION_BLOCK")}[kind]
    return _block(kind, sig, a + u, name, {"target_ansi": ta, "target_unicode": tu},
                  unended(not (ok1 and ok2), len(ansi) >= 260 or len(u16_of(uni)) >= 520))


def u16_of(text):
    return text.encode("utf-16le", "surrogatepass")


def unended(warn, full):
    """Whether a warning has to be given: it may, of a text without its end."""
    return None if full and not warn else warn


def block_icon(ansi, uni, cp, fill=b"\0"):
    return block_environment(ansi, uni, cp, fill, "icon")


CONSOLE = [  # name, format, offset in the block
    ("fill_attributes", "H", 8), ("popup_fill_attributes", "H", 10),
    ("screen_buffer_size_x", "h", 12), ("screen_buffer_size_y", "h", 14),
    ("window_size_x", "h", 16), ("window_size_y", "h", 18),
    ("window_origin_x", "h", 20), ("window_origin_y", "h", 22),
    ("font_size", "I", 32), ("font_family", "I", 36), ("font_weight", "I", 40),
    ("cursor_size", "I", 108), ("full_screen", "I", 112), ("quick_edit", "I", 116),
    ("insert_mode", "I", 120), ("auto_position", "I", 124), ("history_buffer_size", "I", 128),
    ("number_of_history_buffers", "I", 132), ("history_no_dup", "I", 136),
    ("color_table", "I", 140),
]


def block_console(raw_body, face, fill=b"\0"):
    """`raw_body`: 196 bytes the numbers are taken from."""
    body = bytearray(raw_body[:196].ljust(196, b"\0"))
    body[36:100] = fixed_utf16(face, 64, fill)
    text, ok = decode_utf16(bytes(body[36:100]))
    exp = {name: struct.unpack_from("<" + f, body, off - 8)[0] for name, f, off in CONSOLE}
    exp["face_name"] = text
    return _block("console", 0xA0000002, bytes(body), "CONSOLE_PROPERTIES_BLOCK", exp,
                  unended(not ok, len(u16_of(face)) >= 64),
                  [(off - 8, struct.calcsize(f)) for _, f, off in CONSOLE])


def block_tracker(machine, guids, cp, length=0x58, version=0, fill=b"\0"):
    m = fixed_ansi(machine, 16, fill)
    text, ok = decode_ansi(m, cp)
    return _block(
        "tracker", 0xA0000003, u32(length) + u32(version) + m + b"".join(guids),
        "DISTRIBUTED_LINK_TRACKER_BLOCK",
        {"length": length, "version": version, "machine_identifier": text,
         "droid_volume_identifier": guid_text(guids[0]),
         "droid_file_identifier": guid_text(guids[1]),
         "birth_droid_volume_identifier": guid_text(guids[2]),
         "birth_droid_file_identifier": guid_text(guids[3])},
        unended(not ok or length != 0x58 or version != 0, len(machine) >= 16), [(0, 4), (4, 4)],
    )


# Numbers of code pages Python knows.
KNOWN_CODEPAGES = [37, 437, 500, 720, 737, 850, 852, 855, 858, 862, 866, 874, 932, 936, 949, 950, 1026, 1200, 1250, 1251,
                   1252, 1253, 1254, 1255, 1256, 1257, 1258, 1361, 20127, 20866, 28592, 50220, 54936, 65000, 65001]


def block_codepage(cp_number):
    return _block("codepage", 0xA0000004, u32(cp_number), "CONSOLE_CODEPAGE_BLOCK",
                  {"code_page": cp_number}, fields=[(0, 4)])


def block_special_folder(folder, offset):
    return _block("special", 0xA0000005, u32(folder) + u32(offset),
                  "SPECIAL_FOLDER_LOCATION_BLOCK",
                  {"special_folder_id": folder, "offset": offset}, fields=[(0, 4), (4, 4)])


def block_known_folder(guid, offset):
    return _block("known", 0xA000000B, guid + u32(offset), "KNOWN_FOLDER_LOCATION_BLOCK",
                  {"known_folder_id": guid_text(guid), "offset": offset}, fields=[(16, 4)])


def block_shim(name, pad_to=128):
    raw = name.encode("utf-16le") + b"\0\0"
    raw += b"\0" * (pad_to - len(raw))
    return _block("shim", 0xA0000008, raw, "SHIM_LAYER_BLOCK", {"layer_name": name})


BASE85 = "!$%&'()*+,-.0123456789=?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{}~"


def pack_guid(guid):
    """Packed (Darwin) form of a GUID given as bytes_le: each dword of the structure in
    memory order, least significant base-85 digit first."""
    out = ""
    for n in struct.unpack("<4I", guid):
        for _ in range(5):
            out += BASE85[n % 85]
            n //= 85
    return out


def darwin_text(product, feature, component):
    """`product`, `component`: GUIDs as bytes_le (component may be None), `feature`: str."""
    return pack_guid(product) + feature + (">" + pack_guid(component) if component else "<")


def block_darwin(product, feature, component, cp, ansi=None, fill=b"\0"):
    text = darwin_text(product, feature, component)
    if ansi is None:
        ansi = text.encode(cp, "replace")
    a, u = fixed_ansi(ansi, 260, fill), fixed_utf16(text, 520, fill)
    ta, ok = decode_ansi(a, cp)
    assert len(text) < 260
    return _block(
        "darwin", 0xA0000006, a + u, "DARWIN_BLOCK",
        {"darwin_data_ansi": ta, "darwin_data_unicode": text,
         "product_code_id": guid_text(product), "feature_name": feature or None,
         "component_id": guid_text(component) if component else None},
        unended(not ok, len(ansi) >= 260),
    )


def block_idlist(items):
    raw = b"".join(i.raw for i in items) + u16(0)
    fields, pos = [], 0
    for i in items:
        fields += [(pos + o, w) for o, w in i.fields]
        pos += len(i.raw)
    return _block("idlist", 0xA000000C, raw, "SHELL_ITEM_IDENTIFIER_BLOCK",
                  {"id_list": [i.exp for i in items]},
                  _warn_any(i.warn for i in items), fields)


def _warn_any(ws):
    ws = list(ws)
    return True if True in ws else (None if None in ws else False)


VARTYPES = {
    0: "VT_EMPTY", 1: "VT_NULL", 2: "VT_I2", 3: "VT_I4", 4: "VT_R4", 5: "VT_R8", 6: "VT_CY",
    7: "VT_DATE", 8: "VT_BSTR", 10: "VT_ERROR", 11: "VT_BOOL", 14: "VT_DECIMAL", 16: "VT_I1",
    17: "VT_UI1", 18: "VT_UI2", 19: "VT_UI4", 20: "VT_I8", 21: "VT_UI8", 22: "VT_INT",
    23: "VT_UINT", 30: "VT_LPSTR", 31: "VT_LPWSTR", 0x40: "VT_FILETIME", 0x41: "VT_BLOB",
    0x42: "VT_STREAM", 0x43: "VT_STORAGE", 0x44: "VT_STREAMED_Object",
    0x45: "VT_STORED_Object", 0x46: "VT_BLOB_Object", 0x47: "VT_CF", 0x48: "VT_CLSID",
    0x49: "VT_VERSIONED_STREAM",
}
for _n in (2, 3, 4, 5, 6, 7, 8, 10, 11, 12, 16, 17, 18, 19, 20, 21, 30, 31, 0x40, 0x47, 0x48):
    VARTYPES[0x1000 | _n] = "VT_VECTOR_" + {12: "VARIANT"}.get(_n, VARTYPES.get(_n, "")[3:])
for _n in (2, 3, 4, 5, 6, 7, 8, 10, 11, 12, 14, 16, 17, 18, 19, 22, 23):
    VARTYPES[0x2000 | _n] = "VT_ARRAY_" + {12: "VARIANT"}.get(_n, VARTYPES.get(_n, "")[3:])
VARTYPE_WIDTH = {0: 0, 1: 0, 2: 4, 3: 4, 4: 4, 5: 8, 6: 8, 7: 8, 10: 4, 11: 4, 14: 16, 16: 4,
                 17: 4, 18: 4, 19: 4, 20: 8, 21: 8, 22: 4, 23: 4, 0x40: 8, 0x48: 16}

STRING_NAMED = _uuid.UUID("D5CDD505-2E9C-101B-9397-08002B2CF9AE").bytes_le


def prop_value(vt, data, padding=0):
    """Typed value; returns (raw, expected value)."""
    if vt == 0x1F and isinstance(data, str):
        enc = data.encode("utf-16le") + b"\0\0"
        raw = u32(len(enc) // 2) + enc
        raw += b"\0" * (-len(raw) % 4)
        exp = data
    elif vt == 2 and isinstance(data, int):
        raw = struct.pack("<h", data) + b"\0\0"
        exp = data
    else:
        raw, exp = data, None
    if padding:
        exp = None
    return u16(vt) + u16(padding) + raw, exp


class Value(dict):
    """What a value is reported as, and what it says besides."""

    padding = 0


def property_value(key, vt, data, padding=0, end=b"\0\0"):
    raw, value = prop_value(vt, data, padding)
    if isinstance(key, str):
        name = key.encode("utf-16le") + end
        body = u32(len(name)) + b"\0" + name + raw
        exp = Value({"name_size": len(name), "name": key})
    else:
        body = u32(key) + b"\0" + raw
        exp = Value({"id": key})
    exp.padding = padding
    full = u32(len(body) + 4) + body
    exp.update({"value_size": len(full), "value": value, "value_type": VARTYPES[vt]})
    return full, exp


def property_storage(fmt, values, version=0x53505331):
    body = u32(version) + fmt + b"".join(v[0] for v in values) + u32(0)
    raw = u32(len(body) + 4) + body
    return raw, {"storage_size": len(raw), "version": hex(version), "format_id": guid_text(fmt),
                 "serialized_property_values": [v[1] for v in values]}


def block_property_store(storages, tail=b""):
    body = b"".join(s[0] for s in storages) + u32(0) + tail
    fields, pos = [], 0
    for s in storages:
        fields += [(pos, 4), (pos + 4, 4), (pos + 24, 4), (pos + 28, 4)]
        pos += len(s[0])
    part = _block("propstore", 0xA0000009, body, "METADATA_PROPERTIES_BLOCK",
                  {"property_store": [s[1] for s in storages]}, fields=fields)
    if any(getattr(v, "padding", 0) for s in storages for v in s[1]["serialized_property_values"]):
        part.warn = None
    return part


KNOWN_SIGS = {0xA0000000 | n for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 0xB, 0xC)}


def block_unknown(sig, payload):
    assert sig not in KNOWN_SIGS
    raw = u32(len(payload) + 8) + u32(sig) + payload
    return Part("block:unknown", raw,
                {"size": len(raw), "extra_data_sha256": hashlib.sha256(raw[4:]).hexdigest()},
                False, 4, [(0, 4), (4, 4)], name="UNKNOWN_BLOCK")


# ---------------------------------------------------------------- whole file

class Built:
    pass


def build(head=None, items=None, info=None, strings=(), blocks=(), unicode_=True,
          terminal=0, tail=b"", flags=0, force_no_info=False, allow=True, id_tail=b"\0\0",
          terminator=True):
    """Assemble a shell link.

    items: list of Part or None (no ID list); info: Part or None; strings: dict key -> Part;
    blocks: list of Part; terminal: value of the terminal block; tail: bytes behind it.
    """
    strings = dict(strings)
    flags &= ~0x1FF
    if items is not None:
        flags |= FLAG["HasTargetIDList"]
    if info is not None:
        flags |= FLAG["HasLinkInfo"]
    if force_no_info:
        flags |= FLAG["ForceNoLinkInfo"]
    for flag, key in STRINGS:
        if key in strings:
            flags |= FLAG[flag]
    if unicode_:
        flags |= FLAG["IsUnicode"]
    head = dict(head or {})
    head["link_flags"] = flags
    raw, hexp, conforming = header(**head)
    assert len(raw) == 76
    b = Built()
    b.regions = [("header", None, 0, 76)]
    b.fields = [(o, w) for _, o, w in HEADER_FIELDS]
    out = [raw]
    pos = 76
    warns = [not conforming]
    exp = {"header": hexp}

    def add(label, part, raw):
        nonlocal pos
        b.regions.append((label, part, pos, pos + len(raw)))
        if part is not None:
            b.fields += [(pos + o, w) for o, w in part.fields if o + w <= len(raw)]
        out.append(raw)
        pos += len(raw)

    if items is not None:
        body = b"".join(i.raw for i in items) + id_tail
        exp["target"] = {"size": len(body), "items": [i.exp for i in items], "index": pos + 2}
        b.fields.append((pos, 2))
        add("idlist_size", None, u16(len(body)))
        for i in items:
            add("item", i, i.raw)
            warns.append(i.warn)
        add("idlist_end", None, id_tail)
    exp["link_info"] = {}
    if info is not None:
        add("info", info, info.raw)
        if not force_no_info:
            exp["link_info"] = info.exp
            warns.append(info.warn)
    exp["data"] = {}
    for _, key in STRINGS:
        if key in strings:
            add("string", strings[key], strings[key].raw)
            exp["data"][key] = strings[key].exp
            warns.append(strings[key].warn)
    exp["extra"] = {}
    for blk in blocks:
        add("block", blk, blk.raw)
        warns.append(blk.warn)
        if blk.name == "UNKNOWN_BLOCK":
            exp["extra"].setdefault(blk.name, []).append(blk.exp)
        else:
            exp["extra"][blk.name] = blk.exp
    if terminator:
        b.fields.append((pos, 4))
        add("terminal", None, u32(terminal))
        end = pos
        if tail:
            add("tail", None, tail)
            if allow:
                end = pos
                exp["extra"]["TERMINAL_BLOCK"] = {
                    "size": 4 + len(tail),
                    "appended_data_sha256": hashlib.sha256(tail).hexdigest(),
                }
    else:
        end = pos
    exp["size"] = end
    b.data = b"".join(out)
    b.exp = exp
    b.warn = _warn_any(warns)
    b.allow = allow
    b.unicode = unicode_
    b.flags = flags
    return b


def with_blocks(b, blocks, in_front):
    """The bytes of the link with these blocks in front of its own ones, or behind them."""
    starts = [lo for label, _, lo, _ in b.regions if label == "terminal" or (in_front and label == "block")]
    at = min(starts)
    return b.data[:at] + b"".join(x.raw for x in blocks) + b.data[at:]
