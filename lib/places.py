"""Every place of a shell link which holds a text of the code page, UTF-16 or a GUID."""

from lib import wire as w

G = b"\x11\x22\x33\x44\x55\x66\x77\x88\x99\xaa\xbb\xcc\xdd\xee\xff\x10"
NO = ()


def ansi():
    """(name, longest text, build(raw, fill) -> Built, path of the report)."""
    A = "cp1252"  # only the bytes matter, the expectation is made by the caller

    def item(i):
        return w.build(items=[i, w.item_plain(0x52, b"")])
    yield "volume name", 20, lambda s, f: item(w.item_volume(0x2F, s.ljust(20, b"\0") if len(s) == 20 else (s + b"\0").ljust(20, f), A)), ("target", "items", 0, "volume_name")
    yield "file name", 300, lambda s, f: item(w.item_file(0x32, 1, 2, 3, 4, s, A, tail=f * 9)), ("target", "items", 0, "primary_name")
    yield "network location", 300, lambda s, f: item(w.item_network(0x41, 0xC0, s, b"d", b"c", A)), ("target", "items", 0, "location")
    yield "network description", 300, lambda s, f: item(w.item_network(0x41, 0xC0, b"l", s, b"c", A)), ("target", "items", 0, "description")
    yield "network comments", 300, lambda s, f: item(w.item_network(0x41, 0xC0, b"l", b"d", s, A, tail=f * 5)), ("target", "items", 0, "comments")
    yield "network comments alone", 300, lambda s, f: item(w.item_network(0x41, 0x40, b"l", b"d", s, A, tail=f * 5)), ("target", "items", 0, "comments")
    yield "cpl path", 300, lambda s, f: item(w.item_cpl(1, s or b"p", b"n", b"c", False, A)) if s else None, ("target", "items", 0, "cpl_file_path")
    yield "cpl name", 300, lambda s, f: item(w.item_cpl(1, b"p", s, b"c", False, A)), ("target", "items", 0, "name")
    yield "cpl comments", 300, lambda s, f: item(w.item_cpl(1, b"p", b"n", s, False, A)), ("target", "items", 0, "comments")
    yield "users file name", 300, lambda s, f: item(w.item_users_files(w.item_file(0x32, 1, 2, 3, 4, s, A), G, G)), ("target", "items", 0, "file_entry", "primary_name")
    vol = w.volume_id(3, 1, b"L", A)
    yield "volume label", 300, lambda s, f: w.build(info=w.link_info(A, (w.volume_id(3, 1, s, A), b"b"), None, b"s")), ("link_info", "location_info", "volume_label")
    yield "local base path", 300, lambda s, f: w.build(info=w.link_info(A, (vol, s), None, b"s", gap=f * 2)), ("link_info", "local_base_path")
    yield "common path suffix", 300, lambda s, f: w.build(info=w.link_info(A, (vol, b"b"), None, s, tail=f * 4)), ("link_info", "common_path_suffix")
    yield "net name", 300, lambda s, f: w.build(info=w.link_info(A, None, w.network_link(s, b"d", None, A), b"s")) if s else None, ("link_info", "location_info", "net_name")
    yield "device name", 300, lambda s, f: w.build(info=w.link_info(A, None, w.network_link(b"n", s, None, A), b"s")) if s else None, ("link_info", "location_info", "device_name")
    for _, key in w.STRINGS:
        top = 260 if key in ("description", "relative_path", "working_directory") else 300
        yield key, top, lambda s, f, key=key: w.build(strings={key: w.string_data(key, s, False, A)}, unicode_=False), ("data", key)
    E = "ENVIRONMENTAL_VARIABLES_LOCATION_BLOCK"
    yield "environment", 260, lambda s, f: w.build(blocks=[w.block_environment(s, "u", A, f)]), ("extra", E, "target_ansi")
    yield "icon", 260, lambda s, f: w.build(blocks=[w.block_icon(s, "u", A, f)]), ("extra", "ICON_LOCATION_BLOCK", "target_ansi")
    yield "darwin", 260, lambda s, f: w.build(blocks=[w.block_darwin(G, "F", G, A, s, f)]), ("extra", "DARWIN_BLOCK", "darwin_data_ansi")
    yield "machine", 16, lambda s, f: w.build(blocks=[w.block_tracker(s, [G] * 4, A, fill=f)]), ("extra", "DISTRIBUTED_LINK_TRACKER_BLOCK", "machine_identifier")
    yield "block file name", 300, lambda s, f: w.build(blocks=[w.block_idlist([w.item_file(0x32, 1, 2, 3, 4, s, A)])]), ("extra", "SHELL_ITEM_IDENTIFIER_BLOCK", "id_list", 0, "primary_name")


def utf16():
    """(name, longest text in bytes, build(raw UTF-16, fill), path)."""
    A = "cp1252"

    def item(i):
        return w.build(items=[i, w.item_plain(0x52, b"")])

    def cpl(path=b"p\0", name=b"n\0", comments=b"c\0"):
        area = b""
        offs = []
        for t in (path, name, comments):
            offs.append(len(area) // 2)
            area += t + b"\0\0"
        body = b"\0\0" + w.u32(1) + b"\0" * 12 + w.u16(offs[1]) + w.u16(offs[2]) + area
        return item(w._item("cpl", body, {}))

    def fixed(raw, width, f):
        raw = raw[:width]
        raw += b"\0\0" if len(raw) < width else b""
        return raw + (f * width)[: width - len(raw)]
    yield "file name", 600, lambda s, f: item(w.item_file(0x36, 1, 2, 3, 4, s, A, tail=f * 9)), ("target", "items", 0, "primary_name")
    yield "cpl path", 600, lambda s, f: cpl(path=s), ("target", "items", 0, "cpl_file_path")
    yield "cpl name", 600, lambda s, f: cpl(name=s), ("target", "items", 0, "name")
    yield "cpl comments", 600, lambda s, f: cpl(comments=s), ("target", "items", 0, "comments")
    yield "users file name", 600, lambda s, f: item(w.item_users_files(w.item_file(0x36, 1, 2, 3, 4, s, A), G, G)), ("target", "items", 0, "file_entry", "primary_name")

    def info(kind, s, f):
        """LinkInfo with the raw text in one of the Unicode places."""
        if kind == "label":
            vol = w.u32(3) + w.u32(1) + w.u32(0x14) + w.u32(0x14) + s + b"\0\0"
            vol = w.u32(len(vol) + 4) + vol
        else:
            vol = w.volume_id(3, 1, b"L", A)[0]
        if kind in ("net", "dev"):
            n = s if kind == "net" else b"n\0"
            d = s if kind == "dev" else b"d\0"
            head = 0x1C
            net = w.u32(3) + w.u32(head) + w.u32(head + 2) + w.u32(1) + w.u32(head + 4) + w.u32(head + 4 + len(n) + 2)
            net += b"n\0d\0" + n + b"\0\0" + d + b"\0\0"
            net = w.u32(len(net) + 4) + net
            raw = w.u32(0x1C) + w.u32(2) + w.u32(0) + w.u32(0) + w.u32(0x1C) + w.u32(0x1C + len(net)) + net + b"s\0" + f * 3
            return w.build(info=w.Part("info", w.u32(len(raw) + 4) + raw, {}, None, 4))
        base = s if kind == "base" else b"b\0"
        suff = s if kind == "suffix" else b"s\0"
        o = 0x24 + len(vol)
        raw = w.u32(0x24) + w.u32(1) + w.u32(0x24) + w.u32(o) + w.u32(0) + w.u32(o + 2)
        raw += w.u32(o + 4) + w.u32(o + 4 + len(base) + 2) + vol + b"b\0s\0" + base + b"\0\0" + suff + b"\0\0" + f * 3
        return w.build(info=w.Part("info", w.u32(len(raw) + 4) + raw, {}, None, 4))
    yield "volume label", 600, lambda s, f: info("label", s, f), ("link_info", "location_info", "volume_label_unicode")
    yield "local base path", 600, lambda s, f: info("base", s, f), ("link_info", "local_base_path_unicode")
    yield "common path suffix", 600, lambda s, f: info("suffix", s, f), ("link_info", "common_path_suffix_unicode")
    yield "net name", 600, lambda s, f: info("net", s, f), ("link_info", "location_info", "net_name_unicode")
    yield "device name", 600, lambda s, f: info("dev", s, f), ("link_info", "location_info", "device_name_unicode")
    for _, key in w.STRINGS:
        top = 520 if key in ("description", "relative_path", "working_directory") else 600

        def string(s, f, key=key):
            return w.build(strings={key: w.Part("string", w.u16(len(s) // 2) + s, None, None, 2, name=key)})
        yield key, top, string, ("data", key)
    E = "ENVIRONMENTAL_VARIABLES_LOCATION_BLOCK"

    def block(sig, body):
        return w.build(blocks=[w._block("x", sig, body, "X", {})])
    yield "environment", 520, lambda s, f: block(0xA0000001, w.fixed_ansi(b"a", 260) + fixed(s, 520, f)), ("extra", E, "target_unicode")
    yield "icon", 520, lambda s, f: block(0xA0000007, w.fixed_ansi(b"a", 260) + fixed(s, 520, f)), ("extra", "ICON_LOCATION_BLOCK", "target_unicode")
    yield "darwin", 520, lambda s, f: block(0xA0000006, w.fixed_ansi(b"a", 260) + fixed(s, 520, f)), ("extra", "DARWIN_BLOCK", "darwin_data_unicode")
    yield "face name", 64, lambda s, f: block(0xA0000002, b"\0" * 36 + fixed(s, 64, f) + b"\0" * 96), ("extra", "CONSOLE_PROPERTIES_BLOCK", "face_name")
    yield "shim", 600, lambda s, f: block(0xA0000008, s + b"\0\0" + f * 2 * max(0, (126 - len(s)) // 2)), ("extra", "SHIM_LAYER_BLOCK", "layer_name")

    def prop(s, f, named):
        if named:
            name = s + b"\0\0"
            body = w.u32(len(name)) + b"\0" + name + w.u16(2) + w.u16(0) + w.u32(5)
            fmt = w.STRING_NAMED
        else:
            v = s + b"\0\0"
            body = w.u32(1) + b"\0" + w.u16(0x1F) + w.u16(0) + w.u32(len(v) // 2) + v
            fmt = G
        val = w.u32(len(body) + 4) + body
        st = w.u32(0x53505331) + fmt + val + w.u32(0)
        return block(0xA0000009, w.u32(len(st) + 4) + st + w.u32(0))
    P = ("extra", "METADATA_PROPERTIES_BLOCK", "property_store", 0, "serialized_property_values", 0)
    yield "property text", 600, lambda s, f: prop(s, f, False), P + ("value",)
    yield "property name", 600, lambda s, f: prop(s, f, True), P + ("name",)
    yield "block file name", 600, lambda s, f: w.build(blocks=[w.block_idlist([w.item_file(0x36, 1, 2, 3, 4, s, A)])]), ("extra", "SHELL_ITEM_IDENTIFIER_BLOCK", "id_list", 0, "primary_name")


def open_utf16():
    """(name, longest text in bytes, build(raw), path): texts which end with what they are in."""
    A = "cp1252"

    def item(raw, kind, *more):
        return w.build(items=[w._item(kind, raw, {})] + list(more))
    head = w.u8(0x36) + w.u8(0) + w.u32(1) + w.u16(2) + w.u16(3) + w.u16(4)
    last = w.item_plain(0x52, b"")
    yield "file name", 600, lambda s: item(head + s, "file", last), ("target", "items", 0, "primary_name")
    yield "file name of the last item", 600, lambda s: item(head + s, "file"), ("target", "items", 0, "primary_name")
    cpl = b"\0\0" + w.u32(1) + b"\0" * 12
    yield "cpl comments", 600, lambda s: item(cpl + w.u16(2) + w.u16(4) + b"p\0\0\0n\0\0\0" + s, "cpl", last), ("target", "items", 0, "comments")
    vol = w.volume_id(3, 1, b"L", A)[0]

    def local(s, which):
        o = 0x24 + len(vol)
        raw = w.u32(0x24) + w.u32(1) + w.u32(0x24) + w.u32(o) + w.u32(0) + w.u32(o + 2)
        raw += (w.u32(o + 8) + w.u32(o + 4)) if which == "base" else (w.u32(o + 4) + w.u32(o + 8))
        raw += vol + b"b\0s\0" + b"x\0\0\0" + s
        return w.build(info=w.Part("info", w.u32(len(raw) + 4) + raw, {}, None, 4))
    yield "local base path", 600, lambda s: local(s, "base"), ("link_info", "local_base_path_unicode")
    yield "common path suffix", 600, lambda s: local(s, "suffix"), ("link_info", "common_path_suffix_unicode")

    def net(s, which):
        part = w.u32(3) + w.u32(0x1C) + w.u32(0x1E) + w.u32(1)
        part += (w.u32(0x24) + w.u32(0x20)) if which == "net" else (w.u32(0x20) + w.u32(0x24))
        part += b"n\0d\0" + b"x\0\0\0" + s
        raw = w.u32(0x1C) + w.u32(2) + w.u32(0) + w.u32(0) + w.u32(0x1C) + w.u32(0) + w.u32(len(part) + 4) + part
        return w.build(info=w.Part("info", w.u32(len(raw) + 4) + raw, {}, None, 4))
    yield "net name", 600, lambda s: net(s, "net"), ("link_info", "location_info", "net_name_unicode")
    yield "device name", 600, lambda s: net(s, "dev"), ("link_info", "location_info", "device_name_unicode")

    def label(s):
        part = w.u32(3) + w.u32(1) + w.u32(0x14) + w.u32(0x14) + s
        raw = w.u32(0x1C) + w.u32(1) + w.u32(0x1C) + w.u32(0) + w.u32(0) + w.u32(0) + w.u32(len(part) + 4) + part
        return w.build(info=w.Part("info", w.u32(len(raw) + 4) + raw, {}, None, 4))
    yield "volume label", 600, label, ("link_info", "location_info", "volume_label_unicode")
    for _, key in w.STRINGS:  # cut by the end of the file
        top = 519 if key in ("description", "relative_path", "working_directory") else 599

        def string(s, key=key):
            return w.build(strings={key: w.Part("string", w.u16((len(s) + 2) // 2) + s, None, None, 2, name=key)}, terminator=False)
        yield key, top, string, ("data", key)

    def block(sig, body):
        return w.build(blocks=[w._block("x", sig, body, "X", {})])
    yield "shim", 600, lambda s: block(0xA0000008, s) if len(s) >= 128 else None, ("extra", "SHIM_LAYER_BLOCK", "layer_name")

    def prop(s, named):
        if named:
            body = w.u32(len(s)) + b"\0" + s + w.u16(2) + w.u16(0) + w.u32(5)
        else:
            body = w.u32(1) + b"\0" + w.u16(0x1F) + w.u16(0) + w.u32((len(s) + 1) // 2) + s
        val = w.u32(len(body) + 4) + body
        st = w.u32(0x53505331) + (w.STRING_NAMED if named else G) + val + w.u32(0)
        return block(0xA0000009, w.u32(len(st) + 4) + st + w.u32(0))
    P = ("extra", "METADATA_PROPERTIES_BLOCK", "property_store", 0, "serialized_property_values", 0)
    yield "property text", 600, lambda s: prop(s, False), P + ("value",)
    yield "property name", 600, lambda s: prop(s, True), P + ("name",)
    yield "block file name", 600, lambda s: w.build(blocks=[w.block_idlist([w._item("file", head + s, {})])]), ("extra", "SHELL_ITEM_IDENTIFIER_BLOCK", "id_list", 0, "primary_name")


def guids():
    """(name, build(16 bytes), path)."""
    A = "cp1252"
    other = [bytes([i] * 16) for i in range(1, 5)]

    def item(i):
        return w.build(items=[i, w.item_plain(0x52, b"")])

    def tracker(k, g):
        gs = list(other)
        gs[k] = g
        return w.build(blocks=[w.block_tracker(b"m", gs, A)])
    yield "link class", lambda g: w.build({"clsid": g}), ("header", "guid")
    yield "root folder", lambda g: item(w.item_root(0x50, g)), ("target", "items", 0, "guid")
    yield "volume", lambda g: item(w.item_volume(0x2E, g, A)), ("target", "items", 0, "volume_identifier")
    yield "control panel", lambda g: item(w.item_control_panel(0x71, g)), ("target", "items", 0, "item_identifier")
    entry = w.item_file(0x32, 1, 2, 3, 4, b"n", A)
    yield "delegate class", lambda g: item(w.item_users_files(entry, g, other[0])), ("target", "items", 0, "delegate_class_id")
    yield "delegate folder", lambda g: item(w.item_users_files(entry, other[0], g)), ("target", "items", 0, "delegate_folder_id")
    T = "DISTRIBUTED_LINK_TRACKER_BLOCK"
    for k, name in enumerate(["droid_volume_identifier", "droid_file_identifier",
                              "birth_droid_volume_identifier", "birth_droid_file_identifier"]):
        yield name, lambda g, k=k: tracker(k, g), ("extra", T, name)
    yield "known folder", lambda g: w.build(blocks=[w.block_known_folder(g, 7)]), ("extra", "KNOWN_FOLDER_LOCATION_BLOCK", "known_folder_id")
    yield "format", lambda g: w.build(blocks=[w.block_property_store([w.property_storage(g, [])])]), ("extra", "METADATA_PROPERTIES_BLOCK", "property_store", 0, "format_id")
    yield "darwin product", lambda g: w.build(blocks=[w.block_darwin(g, "Feat", other[0], A)]), ("extra", "DARWIN_BLOCK", "product_code_id")
    yield "darwin component", lambda g: w.build(blocks=[w.block_darwin(other[0], "Feat", g, A)]), ("extra", "DARWIN_BLOCK", "component_id")
    yield "darwin component, no feature", lambda g: w.build(blocks=[w.block_darwin(other[0], "", g, A)]), ("extra", "DARWIN_BLOCK", "component_id")
    yield "root folder in a block", lambda g: w.build(blocks=[w.block_idlist([w.item_root(0x50, g)])]), ("extra", "SHELL_ITEM_IDENTIFIER_BLOCK", "id_list", 0, "guid")
    yield "volume in a block", lambda g: w.build(blocks=[w.block_idlist([w.item_volume(0x2E, g, A)])]), ("extra", "SHELL_ITEM_IDENTIFIER_BLOCK", "id_list", 0, "volume_identifier")


def at(doc, path):
    for k in path:
        try:
            doc = doc[k]
        except (KeyError, IndexError, TypeError):
            return None
    return doc
