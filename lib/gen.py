"""Random and systematic workloads on top of the reference encoder."""

import copy
import random
import struct
import sys

from lib import directed
from lib import wire as w

CODEPAGES = ["cp1252", "cp1250", "cp1251", "cp437", "cp932", "gbk", "utf-8", "latin-1",
             "cp1253", "cp949", "big5", "cp1255", "cp874", "koi8-r"]

U16 = [0, 1, 2, 3, 4, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF]
U32 = [0, 1, 2, 3, 4, 5, 7, 8, 0xFF, 0x100, 0xFFFF, 0x10000, 0x7FFFFFFF, 0x80000000,
       0xFFFFFFFE, 0xFFFFFFFF]
U64 = [0, 1, 9, 10, 11, 116444736000000000, 116444735999999999, 116444736000000001,
       131801461434640486, 125911584000000000, 2650467743999999989, 2650467744000000000, 1 << 62, (1 << 63) - 1, 1 << 63, (1 << 64) - 1,
       0x01D5A5A500000000, 864000000000, 2 ** 53, 2 ** 53 + 1, 100000000000000001]

SPECIAL_TEXT = [
    "", " ", "  lead", "trail  ", "a: b", "- item", "# no comment", "null", "true", "~", "1.5",
    "0x10", "1e3", "2020-01-01", "2008-09-12 20:27:17.101000+00:00", "'", '"', "''", '""',
    "a'b\"c", "{}", "[]", "{a: b}", "&anchor", "*alias", "!tag", "%dir", "@at", "`tick", "|", ">",
    "\\", "\\\\srv\\share", "C:\\dir\\file.txt", "tab\there", "nl\nhere", "cr\rhere", "\n", "\n\n",
    "a\n\nb", "a\n b", " \n ", "EMPTY_LINE_PLACEHOLDER", "EMPTY_LINE_PLACEHOLDERHEADER",
    "xEMPTY_LINE_PLACEHOLDERSize: 1", "x\n   Size: 1\n\n   EXTRA:\n      FAKE: 1", "---", "...",
    "? a", "a\u0085b", "a\u2028b", "a\u2029b", "\ufeffbom", "\u200e", "\x01\x02\x1b[31m", "\x7f",
    "příliš žluťoučký", "日本語", "Ω≈ç√", "\U0001f600", "\U0010ffff", "\ufffd", "\ufffe",
    "\ue000", "%windir%\\system32\\cmd.exe", "/c \"a b\" 'c'", "a" * 131 + " b",
    "word " * 60, "x" * 259, "x" * 260, "x" * 261, "ab" * 300, "class", "header", "<<", "=",
    "\t", "a\t", ",", "a,b", "a #b", ":", "a:", "trailing\\", "trailing \\\"", "Network", "Local",
    "location", "modification_time", "None", "null\tnull", "yes", "off", "0o7", "+1", ".inf",
    "12:30:45", "1_000", "0b1", "\x0b\x0c\x1c\x1d\x1e",
    # what is invisible, or what a normalization, trimming or cleaning of texts alters
    "a\u202egpj.exe", "\u202a\u202b\u202c\u202d\u2066\u2067\u2068\u2069", "a\u200bb\u200cc\u200dd", "x\u00ady",
    "e\u0301", "\u00e9 e\u0301 \u212b \u2126 \u2160", "\uff21\uff1a\uff3c\uff0e", "\ufb01\u00b2\u2460", "\u00a0a\u00a0",
    "\u3000a\u3000", "\u2003a\u2009", "a\u00a0b\u202fc", "\u0130\u0131\u017f\u00df", "\u0653\u0300", "a\u034fb\u061cc\u180ed",
    "\u2060\ufe0e\ufe0f", "\u2018a\u2019 \u201cb\u201d \u2013 \u2014 \u2026", "\u00d7\u2212\u2044\u2215", "\U000e0041\U000e007f", "\ufff9a\ufffab\ufffb",
    "\u1d2c\u2113", "\r", "\r\n", "a\r\nb\rc", "\x1b]0;x\x07", "\x08\x08", "\x7f\x80\x9f", "A\\..\\B\\.\\C", "a//b\\\\c", "\\\\?\\C:\\a",
    "file:///C:/a%20b", "&amp;&#65;<b>", "%41%20", "\\u0041\\x41\\n", "${HOME}", "{0}{x}", "%s%d%(a)s", "a\u0345\u03b9", "\uac00\u1100\u1161",
    # what a reader of YAML or JSON may take for something else
    ".nan", "-.INF", "on", "y", "N", "No", "True", "NULL", "!!str a", "!!", "&a b", "*a", "0777", "1.e+3", "6.85e+5", ".5", "5.",
    "2001-12-14t21:59:43.10-05:00", "2002-1-1", "NaN", "Infinity", "-", "- ", "-a", "?", "a :b", "a\tb: c", "<script>", "%", "@a",
    "!", "&", "*", ".", "..", "0", "-1", "00", "1e400", "9" * 200, "---\na", "# a", "a\n# b", "\n---\n", "\n...\n", "a\n...\nb",
    "--- a", "%YAML 1.1", "%TAG ! x", "[a", "]", "}", "{", "a]", "a, b: c", "\"a\": 1", "\\\"", "|-\n a", ">+", "\\ud800", "a\x00b"[:1],
    " a\n  b", "\n a", "a\n", "a\n\n", "\ta\n\tb", "a: |\n  b", "key: &x *x", "true\n", "~\n",
]


class Rng(random.Random):
    """A generator of values which sometimes is in a mood: most of its numbers, texts and
    identifiers come from a pool of one or two, so that parts of a link coincide."""

    mood = None
    directed = False  # the mood is one of constants of the code
    longest = 0  # text of such a mood

    def likes(self, what):
        if self.mood and what in self.mood and self.random() < 0.6:
            return self.choice(self.mood[what])
        return None


def rng_for(*key):
    r = Rng("/".join(map(str, key)))
    k = r.random()
    if 0.2 <= k < (0.55 if directed.any_novel() else 0.24):
        r.mood = directed.mood(r, text, guid)
        r.directed = True
        r.longest = max(len(t.encode("utf-16le")) // 2 for t in r.mood["text"])
    elif k < 0.2:
        n = r.choice([1, 1, 2])
        mood = {
            "num": [r.choice([0, 0, 1, 2, 3, 0x80, 0x8000, r.getrandbits(8) * 0x0101010101010101,
                              (1 << 64) - 1, r.getrandbits(64)]) for _ in range(n)],
            "text": [text(r, 30) for _ in range(n)],
            "guid": [guid(r) for _ in range(n)],
        }
        mood["ansi"] = [t.encode("ascii", "ignore") for t in mood["text"]]
        r.mood = mood
    return r


def twins(r, parts, prob=0.25):
    """Now and then some of the parts appear again, next to themselves or further on."""
    parts = list(parts)
    if parts and r.random() < prob:
        for _ in range(r.choice([1, 1, 2, 3])):
            p = r.choice(parts)
            parts.insert(r.choice([parts.index(p), r.randrange(len(parts) + 1)]), copy.deepcopy(p))
    return parts


def rbytes(r, n):
    return r.getrandbits(8 * n).to_bytes(n, "little") if n else b""


def num(r, width):
    liked = r.likes("num")
    if liked is not None:
        return liked & ((1 << 8 * width) - 1)
    pool = {1: [0, 1, 2, 0x7F, 0x80, 0xFF], 2: U16, 4: U32, 8: U64}[width]
    k = r.random()
    if k < 0.4:
        return r.choice(pool)
    if k < 0.6:
        return 1 << r.randrange(8 * width)
    if k < 0.7:
        return r.randrange(300) & ((1 << 8 * width) - 1)
    return r.getrandbits(8 * width)


RUNS = " \t\n\r\xa0\u3000.\"'\\/%a0-_~\ufeff\ufffd\u0301\u65e5\U0001f600\x01\x7f\x85\u2028"


def run(r, maxlen):
    """One character again and again, perhaps with others around it."""
    c = r.choice(RUNS)
    n = r.choice([2, 3, 8, 16, 32, 64, 128, 256, 260, maxlen, maxlen - 1])
    t = c * min(n, maxlen // (1 if c < "\U00010000" else 2))
    k = r.random()
    return (t if k < 0.5 else t[1:] + "x" if k < 0.7 else "x" + t[1:] if k < 0.9 else t[: len(t) // 2] + "x" + t[len(t) // 2 + 1 :])


def text(r, maxlen=80, nul=False, ascii_only=False):
    """Random text without NUL and lone surrogates."""
    k = r.random()
    liked = r.likes("text")
    if liked is not None and (not ascii_only or liked.isascii()) and len(liked.encode("utf-16le")) // 2 <= maxlen:
        return liked
    if k < 0.04:
        t = run(r, maxlen)
        if ascii_only:
            t = t.encode("ascii", "ignore").decode()
    elif k < 0.25:
        t = r.choice(SPECIAL_TEXT)
        if ascii_only:
            t = t.encode("ascii", "ignore").decode()
    else:
        n = r.choice([0, 1, 2, 3, 5, 8, 13, 21, r.randrange(maxlen + 1)])
        if k < 0.6 or ascii_only:
            t = "".join(chr(r.randrange(0x20, 0x7F)) for _ in range(n))
        elif k < 0.8:
            pool = [(0x20, 0x7F), (0xA0, 0x250), (0x370, 0x530), (0x3040, 0x30FF),
                    (0x4E00, 0x9FFF), (0x1F300, 0x1F6FF)]
            a, b = r.choice(pool)
            t = "".join(chr(r.randrange(a, b)) for _ in range(n))
        else:
            t = ""
            while len(t) < n:
                c = r.choice([r.randrange(1, 0x80), r.randrange(0x80, 0xD800),
                              r.randrange(0xE000, 0x10000), r.randrange(0x10000, 0x110000)])
                t += chr(c)
    while len(t.encode("utf-16le")) // 2 > maxlen:
        t = t[: maxlen * len(t) // max(1, len(t.encode("utf-16le")) // 2)] if len(t) > maxlen else t[:-1]
    return t


def ansi(r, cp, maxlen=80):
    """Random bytes without NUL: encodable text, UTF-8 or plain garbage."""
    liked = r.likes("ansi")
    if liked is not None and len(liked) <= maxlen:
        return liked
    k = r.random()
    if k < 0.55:
        raw = text(r, maxlen, ascii_only=k < 0.3).encode(cp, "ignore")
    elif k < 0.7:
        raw = text(r, maxlen).encode("utf-8")
    elif k < 0.85:
        raw = bytes(r.randrange(1, 256) for _ in range(r.randrange(min(maxlen, 24) + 1)))
    else:
        raw = bytes(r.randrange(0x80, 0x100) for _ in range(r.randrange(min(maxlen, 12) + 1)))
    return raw.replace(b"\0", b"")[:maxlen]


def clean_ansi(r, cp, maxlen=80):
    raw = text(r, maxlen, ascii_only=r.random() < 0.5).encode(cp, "ignore").replace(b"\0", b"")
    while True:
        raw = raw[:maxlen]
        try:
            raw.decode(cp)
            return raw
        except UnicodeDecodeError:
            maxlen -= 1


def guid(r):
    liked = r.likes("guid")
    if liked is not None:
        return liked
    k = r.random()
    if k < 0.1:
        return r.choice([b"\0" * 16, b"\xff" * 16, bytes(range(16)), w.CLSID.bytes_le])
    return rbytes(r, 16)


def fat(r, valid=False):
    liked = r.likes("fat")
    if liked is not None and (not valid or w.fat_valid(*liked)):
        return liked
    if valid or r.random() < 0.7:
        y, m, d = r.randrange(128), r.randrange(1, 13), r.randrange(1, 29)
        if r.random() < 0.2:
            y, m, d = r.choice([(0, 1, 1), (127, 12, 31), (40, 2, 29), (20, 2, 29), (40, 1, 31)])
        date = y << 9 | m << 5 | d
        time = r.randrange(24) << 11 | r.randrange(60) << 5 | r.randrange(30)
        if r.random() < 0.1:
            time = 0
        return date, time
    return num(r, 2), num(r, 2)


ITEM_KINDS = ["root", "volume", "volume_guid", "file", "file_u", "network", "plain", "cpanel",
              "category", "cpl", "cpl_u", "users", "unknown"]


def item(r, cp, kind=None, conforming=False, maxlen=80):
    maxlen = max(maxlen, min(r.longest, 600))
    kind = kind or r.choice(ITEM_KINDS)
    ab = (lambda m=maxlen: clean_ansi(r, cp, m)) if conforming else (lambda m=maxlen: ansi(r, cp, m))
    junk = rbytes(r, r.choice([0, 0, 1, 2, 7, 30]))
    hi = r.choice([0, 0, 0, 0x80])
    if kind == "root":
        sort = r.choice(list(w.SORT_INDEX)) if conforming or r.random() < 0.6 else num(r, 1)
        return w.item_root(sort, guid(r), r.choice([0x1F, 0x1E]), junk)
    if kind == "volume":
        return w.item_volume(hi | r.choice([0x21, 0x23, 0x25, 0x29, 0x2B, 0x2D, 0x2F]),
                             ab(20), cp, junk)
    if kind == "volume_guid":
        return w.item_volume(hi | r.choice([0x20, 0x22, 0x24, 0x26, 0x28, 0x2A, 0x2C, 0x2E]),
                             guid(r), cp, junk)
    if kind in ("file", "file_u"):
        low = r.choice([1, 2, 3] if conforming else [1, 2, 3, 9, 10, 11, 0, 8])
        if kind == "file_u":
            low = r.choice([5, 6, 7] if conforming else [4, 5, 6, 7, 0xC, 0xD, 0xE])
        date, time = fat(r, conforming)
        name = text(r, maxlen).encode("utf-16le") if kind == "file_u" else ab()
        return w.item_file(hi | 0x30 | low, num(r, 4), date, time, num(r, 2), name, cp,
                           junk, num(r, 1))
    if kind == "network":
        return w.item_network(hi | 0x40 | r.choice([1, 2, 3] if conforming else [1, 2, 3, 6, 7, 13]),
                              r.choice([0, 0x40, 0x80, 0xC0, 0xC2, 0x85, 0xFF, 0x3F]),
                              ab(), ab(), ab(), cp, junk, num(r, 1))
    if kind == "plain":
        return w.item_plain(r.choice(list(w.PLAIN_ITEMS)), rbytes(r, r.randrange(40)))
    if kind == "cpanel":
        return w.item_control_panel(r.choice([0x70, 0x71]), guid(r), rbytes(r, 10), junk)
    if kind == "category":
        cat = r.randrange(12) if conforming or r.random() < 0.6 else num(r, 4)
        return w.item_category(cat, junk)
    sig = r.choice([0, 0xFFFFEE79, 0xFFFFF444, 0xFFFFFF36, 0xFFFFFF9C, 0xFFFFFFFF, num(r, 4)])
    if kind == "cpl":
        path = ab() or b"a.cpl"
        return w.item_cpl(sig, path, ab(), ab(), False, cp, r.randrange(3), r.random() < 0.8)
    if kind == "cpl_u":
        return w.item_cpl(sig, text(r, maxlen), text(r, maxlen), text(r, maxlen), True, cp,
                          r.randrange(3), r.random() < 0.8)
    if kind == "users":
        e = item(r, cp, r.choice(["file", "file_u"]), conforming, maxlen)
        return w.item_users_files(e, guid(r), guid(r), junk)
    assert kind == "unknown"
    while True:
        t = r.randrange(256)
        if w.is_unknown_item_type(t):
            return w.item_unknown(t, rbytes(r, r.randrange(40)))


def info(r, cp, kind=None, conforming=False, maxlen=80):
    maxlen = max(maxlen, min(r.longest, 6000))
    kind = kind or r.choice(["local", "local", "network", "network", "both", "none"])
    ab = (lambda m=maxlen: clean_ansi(r, cp, m)) if conforming else (lambda m=maxlen: ansi(r, cp, m))
    local = network = None
    if kind in ("local", "both"):
        uni = r.random() < 0.4
        vol = w.volume_id(r.randrange(7) if r.random() < 0.7 else num(r, 4), num(r, 4),
                          text(r, maxlen) if uni else ab(), cp, uni,
                          b"\0" * r.choice([0, 0, 4, 5]))
        local = (vol, ab())
    if kind in ("network", "both"):
        uni = r.random() < 0.4
        dev = ab() if r.random() < 0.6 else None
        prov = r.choice([None, 0x00020000, 0x00430000, 0x1A0000, r.choice(list(w.PROVIDERS)), num(r, 4)])
        odd = not conforming and r.random() < 0.3
        network = w.network_link(ab(), dev, prov, cp, text(r, maxlen) if uni else None,
                                 text(r, maxlen) if uni else None, num(r, 4) if odd else 0,
                                 r.choice([0x00020000, 0x00430000, 0x43000, num(r, 4)]) if odd else 0)
    hs = None
    base_u = suff_u = None
    k = r.random()
    if k < 0.4:
        base_u, suff_u = text(r, maxlen), text(r, maxlen)
    elif k < 0.5:
        base_u = text(r, maxlen)
    elif k < 0.6:
        suff_u = text(r, maxlen)
    if (base_u is not None or suff_u is not None) and r.random() < 0.3:
        hs = r.choice([0x25, 0x28, 0x30, 0x40])
    return w.link_info(cp, local, network, ab(), hs, base_u, suff_u, b"\0" * r.choice([0, 0, 1, 3]),
                       0 if conforming or r.random() < 0.7 else num(r, 4) & ~3,
                       tail=rbytes(r, r.choice([0, 0, 3])))


def strings(r, cp, unicode_, conforming=False, maxlen=200, prob=0.6):
    maxlen = max(maxlen, r.longest)
    out = {}
    for flag, key in w.STRINGS:
        if r.random() < prob:
            m = maxlen if key != "command_line_arguments" or r.random() < 0.8 else 4000
            if key in ("description", "relative_path", "working_directory"):
                m = min(m, 260)
            if unicode_:
                t = text(r, m)
                out[key] = w.string_data(key, t, True, cp)
            else:
                raw = clean_ansi(r, cp, m) if conforming else ansi(r, cp, m)
                out[key] = w.string_data(key, raw, False, cp)
    return out


BLOCK_KINDS = ["environment", "console", "tracker", "codepage", "special", "darwin", "icon",
               "shim", "propstore", "known", "idlist", "unknown"]

FEATURE_CHARS = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_. "


def prop(r, key=None, conforming=False, maxlen=60, string_named=False):
    maxlen = max(maxlen, r.longest)
    if string_named:
        key = text(r, maxlen)
    else:
        key = num(r, 4)
    k = r.random()
    if not conforming and r.random() < 0.07:
        pad = r.choice([1, 0x100, 0x7FFF, 0x8000, 0xFFFF, num(r, 2) or 1])
        return w.property_value(key, *r.choice([(2, r.randrange(-32768, 32768)), (0x1F, text(r, maxlen))]), pad)
    if string_named and not conforming and r.random() < 0.3:  # names without an end, or with more behind it
        end = r.choice([b"", b"\0\0\0", b"\0\0\0\0", b"\0\0" + rbytes(r, r.randrange(1, 6))])
        return w.property_value(key, *r.choice([(2, r.randrange(-32768, 32768)), (0x1F, text(r, maxlen))]), end=end)
    if k < 0.4:
        return w.property_value(key, 0x1F, text(r, maxlen))
    if k < 0.6:
        return w.property_value(key, 2, r.choice([0, 1, -1, 127, 128, 255, 256, -32768, 32767,
                                                  r.randrange(-32768, 32768)]))
    if k < 0.7:
        vt = r.choice([v for v in w.VARTYPES if v not in (2, 0x1F)])
        return w.property_value(key, vt, rbytes(r, r.randrange(30)))
    vt = r.choice(list(w.VARTYPE_WIDTH))
    if vt == 2:
        vt = 3
    return w.property_value(key, vt, rbytes(r, w.VARTYPE_WIDTH[vt]))


def storage(r, maxlen=60, conforming=False):
    named = r.random() < 0.3
    fmt = w.STRING_NAMED if named else guid(r)
    return w.property_storage(fmt, [prop(r, string_named=named or fmt == w.STRING_NAMED, maxlen=maxlen,
                                         conforming=conforming)
                                    for _ in range(r.randrange(4))],
                              0x53505331 if r.random() < 0.8 else num(r, 4))


def block(r, cp, kind=None, conforming=False, maxlen=80):
    kind = kind or r.choice(BLOCK_KINDS)
    ab = (lambda m=maxlen: clean_ansi(r, cp, m)) if conforming else (lambda m=maxlen: ansi(r, cp, m))
    fill = b"\0" if r.random() < 0.5 else bytes([r.randrange(1, 256)])
    fills = 0 if conforming else 0.1  # texts which fill their field have no end
    full = lambda n: r.random() < fills and (clean_ansi(r, cp, n) + bytes(r.randrange(0x21, 0x7F) for _ in range(n)))[:n]
    wide = lambda n: r.random() < fills and (text(r, n // 3) + "".join(chr(r.randrange(0x21, 0x17F)) for _ in range(n)))[:n]
    if kind in ("environment", "icon"):
        return w.block_environment(full(260) or ab(259), wide(260) or text(r, r.choice([maxlen, 259])), cp, fill, kind)
    if kind == "console":
        return w.block_console(b"".join(w.u16(num(r, 2)) for _ in range(98)), wide(32) or text(r, 31), fill)
    if kind == "tracker":
        odd = not conforming and r.random() < 0.3
        return w.block_tracker(full(16) or ab(15), [guid(r) for _ in range(4)], cp,
                               num(r, 4) if odd else 0x58, num(r, 4) if odd else 0, fill)
    if kind == "codepage":
        return w.block_codepage(num(r, 4) if r.random() < 0.4 else r.choice(w.KNOWN_CODEPAGES))
    if kind == "special":
        return w.block_special_folder(num(r, 4), num(r, 4))
    if kind == "darwin":
        feature = "".join(r.choice(FEATURE_CHARS) for _ in range(r.choice([0, 1, 5, 38])))
        return w.block_darwin(guid(r), feature, guid(r) if r.random() < 0.6 else None, cp,
                              None if conforming or r.random() < 0.5 else full(260) or ansi(r, cp, 259), fill)
    if kind == "shim":
        return w.block_shim(text(r, r.choice([63, 63, 63, 64, max(300, r.longest)])), r.choice([128, 128, 200]))
    if kind == "propstore":
        return w.block_property_store(twins(r, [storage(r, conforming=conforming) for _ in range(r.randrange(4))]),
                                      b"" if r.random() < 0.8 else rbytes(r, 5))
    if kind == "known":
        return w.block_known_folder(guid(r), num(r, 4))
    if kind == "idlist":
        return w.block_idlist(twins(r, [
            item(r, cp, conforming=conforming, maxlen=40,
                 kind=r.choice([k for k in ITEM_KINDS if k != "unknown" or not conforming]))
            for _ in range(r.randrange(5))]))
    assert kind == "unknown"
    while True:
        if r.mood and r.random() < 0.5:
            return w.block_unknown(0xBEEF0001, (r.likes("guid") or b"")[: r.choice([0, 4, 16])])
        sig = r.choice([0xA000000A, 0xA000000D, 0xA0000000, 0xA0000010, 0, 0x000000A0, 0x0A000001,
                        0xB0000001, num(r, 4)])
        if sig not in w.KNOWN_SIGS:
            return w.block_unknown(sig, rbytes(r, r.choice([0, 1, 2, 3, 4, 30, 300])))


def header_fields(r, conforming=False):
    h = {
        "file_flags": num(r, 4), "file_size": num(r, 4), "icon_index": num(r, 4),
        "show": r.choice([1, 3, 7, 0, 2, num(r, 4)]), "hotkey": r.choice([0, num(r, 2),
            r.randrange(8) << 8 | r.choice(list(w.HOTKEY_LOW))]),
    }
    for k in ("creation", "access", "write"):
        h[k] = num(r, 8)
        if conforming:
            while not w.filetime_in_range(h[k]):
                h[k] = num(r, 8) >> r.randrange(8)
    if not conforming:
        if r.random() < 0.1:
            h["clsid"] = guid(r)
        for k, wd in (("reserved1", 2), ("reserved2", 4), ("reserved3", 4)):
            if r.random() < 0.1:
                h[k] = num(r, wd)
    return h


def link(r, cp="cp1252", conforming=False, maxlen=80, allow=True, no_items=False):
    """A random, well framed shell link."""
    if r.directed and r.random() < 0.5:
        made = directed.link(r, sys.modules[__name__], cp, conforming, maxlen, allow, no_items)
        if made is not None:
            return made
    uni = r.random() < 0.6
    items = None
    if not no_items and r.random() < 0.75:
        kinds = [k for k in ITEM_KINDS if not (conforming and k == "unknown")]
        items = [item(r, cp, r.choice(kinds), conforming, maxlen)
                 for _ in range(r.choice([0, 1, 1, 2, 3, 4, 6, 12]))]
        items = twins(r, items)
    inf = None
    if r.random() < 0.7:
        inf = info(r, cp, conforming=conforming, maxlen=maxlen)
    kinds = r.sample(BLOCK_KINDS, r.choice([0, 0, 1, 2, 3, 5, 12]))
    blocks = []
    for k in kinds:
        blocks.append(block(r, cp, k, conforming, maxlen))
        if k == "unknown" and r.random() < 0.5:
            blocks.insert(r.randrange(len(blocks) + 1), block(r, cp, k, conforming, maxlen))
    if r.random() < 0.4:  # known blocks are not repeated: finding duplicate-block
        again = twins(r, [b for b in blocks if b.name == "UNKNOWN_BLOCK"], 1)
        for b in again[sum(b.name == "UNKNOWN_BLOCK" for b in blocks):]:
            blocks.insert(r.randrange(len(blocks) + 1), b)
    tail = b""
    if r.random() < 0.25:
        tail = rbytes(r, r.choice([1, 2, 3, 4, 5, 76, 200]))
    return w.build(
        header_fields(r, conforming), items, inf, strings(r, cp, uni, conforming), blocks, uni,
        terminal=r.choice([0, 0, 0, 1, 2, 3]), tail=tail, flags=num(r, 4) & ~0x1FF,
        force_no_info=r.random() < 0.15, allow=allow, terminator=bool(tail) or r.random() < 0.95,
        id_tail=b"\0\0",
    )


# ---------------------------------------------------------------- hostile mutation

def mutate(r, built, corpus=()):
    """Damage a shell link, preferring the places which steer the parser."""
    data = bytearray(built.data if hasattr(built, "data") else built)
    fields = getattr(built, "fields", None) or [(o, wd) for _, o, wd in w.HEADER_FIELDS]
    for _ in range(r.choice([1, 1, 1, 2, 3, 6])):
        if not data:
            break
        k = r.random()
        if k < 0.45:
            o, wd = r.choice(fields)
            if o + wd <= len(data):
                cur = int.from_bytes(data[o : o + wd], "little")
                v = r.choice([num(r, wd) if wd in (1, 2, 4, 8) else r.getrandbits(8 * wd),
                              cur + r.choice([-4, -2, -1, 1, 2, 4]), len(data), len(data) - o,
                              cur ^ 1 << r.randrange(8 * wd)])
                data[o : o + wd] = (v & ((1 << 8 * wd) - 1)).to_bytes(wd, "little")
        elif k < 0.6:
            i = r.randrange(len(data))
            data[i] = r.choice([0, 0xFF, 0x80, data[i] ^ 1 << r.randrange(8), r.randrange(256)])
        elif k < 0.7:
            i = r.randrange(len(data))
            wd = r.choice([2, 4])
            data[i : i + wd] = num(r, wd).to_bytes(wd, "little")
        elif k < 0.8:
            del data[max(76, r.randrange(len(data) + 1)):]
        elif k < 0.87:
            i = r.randrange(len(data))
            del data[i : i + r.choice([1, 2, 4, 16])]
        elif k < 0.94:
            i = r.randrange(len(data) + 1)
            data[i:i] = rbytes(r, r.choice([1, 2, 4, 16]))
        elif corpus:
            other = r.choice(corpus)
            i = r.randrange(len(data) + 1)
            j = r.randrange(len(other) + 1)
            data = data[:i] + other[j : j + r.choice([4, 40, 4000])]
        else:
            i = r.randrange(len(data))
            n = r.choice([2, 8, 40])
            data[i : i + n] = data[i : i + n] * 2
    return bytes(data)


def item_of_type(r, t, cp, maxlen=40):
    """A well formed item with this class type indicator."""
    low = t & 0x0F
    if w.is_unknown_item_type(t):
        return w.item_unknown(t, rbytes(r, r.randrange(40)))
    if t in (0x1E, 0x1F):
        return w.item_root(r.choice(list(w.SORT_INDEX)), guid(r), t)
    if t == 0:
        return item(r, cp, r.choice(["cpl", "cpl_u"]), maxlen=maxlen)
    if t == 1:
        return item(r, cp, "category")
    if t in w.PLAIN_ITEMS:
        return w.item_plain(t, rbytes(r, r.randrange(40)))
    if t in (0x70, 0x71):
        return w.item_control_panel(t, guid(r))
    if t == 0x74:
        return item(r, cp, "users", maxlen=maxlen)
    kind = t & 0x70
    if kind == 0x20:
        return w.item_volume(t, ansi(r, cp, 20) if low & 1 else guid(r), cp)
    if kind == 0x30:
        d, tm = fat(r)
        name = text(r, maxlen).encode("utf-16le") if t & 4 else ansi(r, cp, maxlen)
        return w.item_file(t, num(r, 4), d, tm, num(r, 2), name, cp)
    return w.item_network(t, num(r, 1), ansi(r, cp, maxlen), ansi(r, cp, maxlen),
                          ansi(r, cp, maxlen), cp)
