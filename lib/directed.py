"""Workload which goes where the code under test looks.

The generators know the format, not the code: a threshold of 4711 somewhere in the code is met by
chance only.  As fuzzers do with a dictionary, the constants of the code under test steer a part
of the workload: those which are not in `constants.json` (the tree these checks were written
against) come first, and numbers become lengths, counts, sizes, fields and times, texts become
texts.  Nothing is judged here: the oracles of the checks do not know where a link came from."""

import ast
import collections
import datetime
import functools
import json
import os
import struct
import time
import uuid

from lib import wire as w

HERE = os.path.dirname(os.path.abspath(__file__))
BASELINE = os.path.join(HERE, "constants.json")
CORNERS = [15, 16, 17, 31, 32, 63, 64, 99, 100, 127, 128, 200, 255, 256, 257, 259, 260, 300, 500, 512, 999,
           1000, 1023, 1024, 1025, 2048, 4095, 4096, 5000, 8191, 8192, 10000, 16384, 32767, 32768, 65535, 65536]
SEEN = collections.Counter()
MOST = 48  # constants used by one run


def fold(node):
    """The number an expression of constants stands for, or None."""
    if isinstance(node, ast.Constant) and type(node.value) is int:
        return node.value
    if isinstance(node, ast.UnaryOp):
        v = fold(node.operand)
        if v is None:
            return None
        return {ast.USub: lambda: -v, ast.Invert: lambda: ~v, ast.UAdd: lambda: v}.get(type(node.op), lambda: None)()
    if isinstance(node, ast.BinOp):
        a, b = fold(node.left), fold(node.right)
        if a is None or b is None or abs(a) >> 80 or abs(b) >> 80:
            return None
        if isinstance(node.op, (ast.LShift, ast.RShift, ast.Pow)) and not 0 <= b <= 80:
            return None
        try:
            return {
                ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.FloorDiv: lambda: a // b,
                ast.Mod: lambda: a % b, ast.LShift: lambda: a << b, ast.RShift: lambda: a >> b, ast.BitOr: lambda: a | b,
                ast.BitAnd: lambda: a & b, ast.BitXor: lambda: a ^ b, ast.Pow: lambda: a ** b if abs(a) < 1 << 16 else None,
            }.get(type(node.op), lambda: None)()
        except (ZeroDivisionError, OverflowError):
            return None
    return None


def collect(root):
    """Every constant below `root`: Counter of (kind, text)."""
    seen = collections.Counter()
    for folder, dirs, files in sorted(os.walk(root)):
        dirs.sort()
        for name in sorted(files):
            if not name.endswith(".py"):
                continue
            try:
                with open(os.path.join(folder, name), encoding="utf-8") as f:
                    tree = ast.parse(f.read())
            except (SyntaxError, ValueError, OSError):
                continue
            docs = set()
            for node in ast.walk(tree):
                if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
                    docs.add(id(node.value))
            for node in ast.walk(tree):
                if id(node) in docs:
                    continue
                if isinstance(node, (ast.BinOp, ast.UnaryOp)):
                    v = fold(node)
                    if v is not None:
                        seen["i", str(v)] += 1
                elif isinstance(node, ast.Constant):
                    v = node.value
                    if type(v) is int:
                        seen["i", str(v)] += 1
                    elif type(v) is float and v == v and abs(v) < 1 << 40:
                        seen["i", str(int(v))] += 1
                    elif isinstance(v, str):
                        seen["s", v.encode("utf-8", "surrogatepass").hex()] += 1
                    elif isinstance(v, bytes):
                        seen["b", v.hex()] += 1
    return seen


@functools.lru_cache(None)
def novel():
    """(numbers, texts, byte strings) which the tree has and the baseline has not."""
    from lib import core
    with open(BASELINE, encoding="utf-8") as f:
        known = {(k, v): n for k, v, n in json.load(f)}
    new = [key for key, n in sorted(collect(os.path.join(core.REPO, "LnkParse3")).items()) if n > known.get(key, 0)]
    ints = [abs(int(v)) for k, v in new if k == "i"]
    strs = [bytes.fromhex(v).decode("utf-8", "replace") for k, v in new if k == "s"]
    raws = [bytes.fromhex(v) for k, v in new if k == "b"]
    for s in strs:
        if s.isdigit() and s.isascii() and len(s) < 12:
            ints.append(int(s))
    ints = [n for n in dict.fromkeys(ints) if n < 1 << 64]
    strs = [t for t in dict.fromkeys(s.replace("\0", "")[:20000] for s in strs) if t]
    raws = [b for b in dict.fromkeys(raws) if b]
    return ints, strs, raws


def any_novel():
    return any(novel())


def mood(r, plain_text, plain_guid, n=None, of=None):
    """Numbers, texts and identifiers around a few of the constants, for one generator."""
    ints, strs, raws = novel()
    SEEN["generators in the mood of constants of the code"] += 1
    if not ints:
        ints = CORNERS
    if of is not None:
        strs = [of]
    if n is None:
        n = r.choice(ints[:MOST] if len(ints) <= MOST else r.sample(ints, MOST))
    near = [n, n, n, n + 1, max(0, n - 1)]
    k = r.random()
    nums = []
    for _ in range(r.choice([1, 1, 2, 4])):
        v = r.choice(near)
        j = r.random()
        if j < 0.5:
            nums.append(v)
        elif j < 0.6:
            nums.append(~v & (1 << 64) - 1)
        elif j < 0.7:
            nums.append(v << r.choice([8, 16, 32, 48]) & (1 << 64) - 1)
        elif j < 0.8:
            nums.append(v * r.choice([2, 3, 10, 1000]) & (1 << 64) - 1)
        elif j < 0.9:
            nums.append((v | r.getrandbits(64) << max(1, v.bit_length())) & (1 << 64) - 1)
        else:
            nums.append(filetime(r, v))
    texts = []
    if strs and k < 0.7:
        s = r.choice(strs)
        texts = [dress(r, s, plain_text) for _ in range(r.choice([1, 2, 3]))]
    if not texts or k < 0.2:
        length = r.choice(near) if n <= 12000 else r.choice([n % 1000, 5, 20])
        texts.append(exactly(r, length))
    guids = [r.choice(identifiers(strs, raws) or [plain_guid(r)])]
    if r.random() < 0.3:
        guids.append((n.to_bytes(8, "little") * 2)[:16])
    ansi = [t.encode("ascii", "ignore") for t in texts]
    ansi += [b.replace(b"\0", b"") for b in raws if b.strip(b"\0")][:3]
    return {"num": nums, "text": texts, "guid": guids, "ansi": ansi, "fat": [fat(r, n)]}


def identifiers(strs, raws):
    out = [b for b in raws if len(b) == 16]
    for s in strs:
        try:
            out.append(uuid.UUID(s).bytes_le)
        except ValueError:
            pass
    return out


def dress(r, s, plain_text):
    k = r.random()
    if k < 0.35:
        return s
    if k < 0.55:
        return s + plain_text(r, 20)
    if k < 0.75:
        return plain_text(r, 20) + s
    if k < 0.8:
        return plain_text(r, 9) + s + plain_text(r, 9)
    return r.choice([s.upper(), s.lower(), s.swapcase(), s * 2, "C:\\a\\" + s, "\\\\srv\\" + s + "\\x", s[:-1] or s,
                     s + " " + s, s + "\\", " " + s, s.title()])


def exactly(r, n):
    """A text of so many UTF-16 units."""
    k = r.random()
    if k < 0.5:
        a, b = 0x21, 0x7F
    else:
        a, b = r.choice([(0x20, 0x7F), (0xA0, 0x250), (0x4E00, 0x9FFF)])
    return "".join(chr(r.randrange(a, b)) for _ in range(n))


def filetime(r, n):
    """A FILETIME of which a part is n."""
    parts = {"year": r.randrange(1601, 2100), "month": r.randrange(1, 13), "day": r.randrange(1, 29),
             "hour": r.randrange(24), "minute": r.randrange(60), "second": r.randrange(60),
             "microsecond": r.choice([0, r.randrange(1000000)])}
    for _ in range(4):
        part = r.choice(list(parts))
        try:
            t = datetime.datetime(**dict(parts, **{part: n}), tzinfo=w.UTC)
        except (ValueError, OverflowError):
            continue
        if t >= w.EPOCH:
            return (t - w.EPOCH) // datetime.timedelta(microseconds=1) * 10
    return n * r.choice([1, 10, 10000, 10000000]) & (1 << 64) - 1


def fat(r, n):
    y = n - 1980 if 1980 <= n < 2108 else r.randrange(128)
    m = n if 1 <= n <= 12 and r.random() < 0.5 else r.randrange(1, 13)
    d = n if 1 <= n <= 28 and r.random() < 0.5 else r.randrange(1, 29)
    hh = n if n < 24 and r.random() < 0.5 else r.randrange(24)
    mm = n if n < 60 and r.random() < 0.5 else r.randrange(60)
    ss = n // 2 if n < 60 and r.random() < 0.5 else r.randrange(30)
    return y << 9 | m << 5 | d, hh << 11 | mm << 5 | ss


# ---------------------------------------------------------------- shapes of whole links

COUNT_CAP = {"items": 9000, "blocks": 3000, "storages": 3000, "values": 3000, "ids": 3000}


def sized(part, n, r, at=None):
    """The part with bytes added to its end so that it has n bytes, its size field included."""
    more = n - len(part.raw)
    if more < 0 or n >= 1 << 8 * part.size_len:
        return None
    raw = part.raw + bytes(r.randrange(256) for _ in range(min(more, 64))) + b"\0" * max(0, more - 64)
    return raw


def shape(r):
    """Which dimension of a link is to be at a constant, and at which number."""
    ints, _, _ = novel()
    n = r.choice(ints or CORNERS)
    n = r.choice([n, n, n, n + 1, max(0, n - 1), n // 2, 2 * n])
    what = r.choice(DIMENSIONS)
    if n > limit(what, 1 << 21):
        what, n = "page", n & 0xFFFFFFFF
    return what, n


DIMENSIONS = ["items", "blocks", "storages", "values", "ids", "item size", "block size", "info size", "list size",
              "tail", "file size", "block at", "page", "texts", "sub size", "item text", "info text", "known size",
              "kinds"]


def limit(what, top):
    """The largest number which makes sense for a dimension."""
    if what in ("tail", "file size", "block at", "block size", "known size"):
        return top
    return {"page": 0xFFFFFFFF, "item text": 0xFE00, "info text": 200000, "sub size": 300000, "texts": 60000,
            "kinds": 400}.get(what, COUNT_CAP.get(what, 65535))


def small_item(r, gen, cp):
    return r.choice([w.item_plain(r.choice(list(w.PLAIN_ITEMS)), b""), w.item_root(0x50, gen.rbytes(r, 16)),
                     w.item_plain(0x52, b"abc")])


def unknown_of(r, n):
    """An unknown block of n bytes, or None."""
    if n < 8:
        return None
    body = bytes(r.randrange(256) for _ in range(min(n - 8, 40)))
    return w.block_unknown(r.choice([0xBEEF0001, 0xA000000A, 0xA000000D]), body + b"\x5a" * (n - 8 - len(body)))


def with_text(r, gen, cp, n):
    """An item with a text of n characters, or several."""
    name = bytes(r.randrange(0x21, 0x7F) for _ in range(min(n, 300)))
    name = (name * (n // 300 + 1))[:n] if n > 300 else name
    t = name.decode()
    k = r.randrange(8)
    a, b = r.choice([(name, b"x"), (b"x", name), (name[: n // 2], name[n // 2 :])])
    if k == 0 or n > 0x7E00:
        return w.item_file(0x32, 1, 2, 3, 4, name, cp)
    if k == 1:
        return w.item_file(0x36, 1, 0x21, 3, 4, t.encode("utf-16le"), cp)
    if k == 2:
        return w.item_network(0x41, 0xC0, a, b, b"c", cp)
    if k == 3:
        return w.item_network(0x41, 0xC0, b"n", a, b, cp)
    if k == 4 and n and n < 0x3F00:
        return w.item_cpl(0, t, a.decode(), b.decode(), True, cp)
    if k == 5 and n:
        return w.item_cpl(0, b"p", a, b, False, cp)
    if k == 6:
        return w.item_users_files(w.item_file(0x32, 1, 2, 3, 4, name, cp), b"\1" * 16, b"\2" * 16)
    return w.item_volume(0x2F, name, cp)


def enlarged(part, n):
    """A block with so many bytes behind its fields that its size is n, or None."""
    more = n - len(part.raw)
    if more < 0 or part.kind in ("block:unknown", "block:propstore", "block:shim", "block:idlist"):
        return None
    raw = w.u32(n) + part.raw[4:] + b"\x7e" * more
    return w.Part(part.kind, raw, dict(part.exp, size=n), None, 4, name=part.name)


def link(r, gen, cp, conforming, maxlen, allow, no_items, what=None, n=0):
    """A random link with one of its dimensions at a constant of the code, or None."""
    if what is None:
        what, n = shape(r)
    uni = r.random() < 0.6
    kinds = [k for k in gen.ITEM_KINDS if not (conforming and k == "unknown")]
    items = None
    if not no_items and r.random() < 0.8:
        items = [gen.item(r, cp, r.choice(kinds), conforming, min(maxlen, 40)) for _ in range(r.choice([1, 2, 3]))]
    inf = gen.info(r, cp, conforming=conforming, maxlen=min(maxlen, 40)) if r.random() < 0.7 else None
    known = r.sample([k for k in gen.BLOCK_KINDS if k != "unknown"], r.choice([1, 2, 3]))
    blocks = [gen.block(r, cp, k, conforming, min(maxlen, 40)) for k in known]
    tail = b""
    texts = gen.strings(r, cp, uni, conforming, min(maxlen, 60))
    if what in ("items", "list size", "item size", "item text") and no_items:
        what, n = "page", n & 0xFFFFFFFF
    if what == "items":
        items = [small_item(r, gen, cp) for _ in range(n)]
        if n and r.random() < 0.5:
            items[r.choice([-1, 0, len(items) // 2])] = gen.item(r, cp, r.choice(kinds), conforming, 20)
        if sum(len(i.raw) for i in items) > 65500:
            items = [w.item_plain(0x52, b"") for _ in range(n)]
    elif what == "blocks":
        blocks[r.randrange(len(blocks) + 1):0] = [w.block_unknown(0xBEEF0000 + i % 7, b"ab"[: i % 3]) for i in range(n)]
    elif what in ("storages", "values"):
        blocks = [b for b in blocks if b.kind != "block:propstore" and b.name != "METADATA_PROPERTIES_BLOCK"]
        if what == "storages":
            pool = [gen.rbytes(r, 16) for _ in range(r.choice([1, 2, n + 1]))]
            stores = [w.property_storage(r.choice(pool), [gen.prop(r)] if i % 3 == 0 else []) for i in range(n)]
        else:
            many = r.choice([1, 2, n + 1])
            stores = [w.property_storage(gen.rbytes(r, 16), [w.property_value(i % many, 2, i % 30000) for i in range(n)])]
        blocks.insert(r.randrange(len(blocks) + 1), w.block_property_store(stores))
    elif what == "ids":
        blocks = [b for b in blocks if b.name != "SHELL_ITEM_IDENTIFIER_BLOCK"]
        blocks.insert(r.randrange(len(blocks) + 1), w.block_idlist([small_item(r, gen, cp) for _ in range(n)]))
    elif what in ("item size", "list size"):
        items = items or []
        need = n
        if what == "list size":
            need = n - 2 - sum(len(i.raw) for i in items)
        if not 24 <= need <= 65400:
            return None
        at = r.randrange(len(items) + 1)
        k = r.randrange(3)
        if k == 0 and not conforming:
            items.insert(at, w.item_unknown(0x99, gen.rbytes(r, need - 3)))
        elif k == 1:
            items.insert(at, w.item_root(0x50, gen.rbytes(r, 16), 0x1F, b"\0" * (need - 20)))
        else:
            items.insert(at, w.item_plain(0x61, b"\1" * (need - 3)))
            if len(items[at].raw) != need:
                items[at] = w.item_plain(0x61, b"\1" * (need - 3 + need - len(items[at].raw)))
        if sum(len(i.raw) for i in items) > 65500:
            items = items[at:at + 1]
    elif what == "item text":
        try:
            one = with_text(r, gen, cp, n)
        except (struct.error, OverflowError):
            return None
        if len(one.raw) > 65000:
            return None
        items = items or []
        items.insert(r.randrange(len(items) + 1), one)
        if sum(len(i.raw) for i in items) > 65500:
            items = [one]
    elif what == "info text":
        name = bytes(r.randrange(0x21, 0x7F) for _ in range(min(n, 300)))
        name = (name * (n // 300 + 1))[:n] if n > 300 else name
        a, b, c, d = r.choice([(name, b"b", b"c", b"d"), (b"a", name, b"c", b"d"), (b"a", b"b", name, b"d"),
                               (b"a", b"b", b"c", name)])
        if r.random() < 0.5:
            inf = w.link_info(cp, (w.volume_id(3, 1, a, cp), b), None, c)
        else:
            inf = w.link_info(cp, None, w.network_link(a, b if r.random() < 0.5 else None, None, cp), c + d[1:])
    elif what == "known size":
        known = [b for b in blocks if enlarged(b, n) is not None]
        if not known:
            return None
        one = r.choice(known)
        blocks[blocks.index(one)] = enlarged(one, n)
    elif what == "kinds":  # many items of every kind, and many different blocks
        if not no_items:
            items = [gen.item(r, cp, r.choice(kinds), conforming, 8) for _ in range(n)]
            while sum(len(i.raw) for i in items) > 65500:
                items.pop(r.randrange(len(items)))
        for _ in range(min(n, 200)):
            blocks.insert(r.randrange(len(blocks) + 1), gen.block(r, cp, "unknown", conforming, 8))
    elif what == "block size":
        one = unknown_of(r, n)
        if one is None:
            return None
        blocks.insert(r.randrange(len(blocks) + 1), one)
    elif what == "info size":
        vol = w.volume_id(3, 1, b"L", cp)
        base = w.link_info(cp, (vol, b"C:\\b"), None, b"s")
        if n < len(base.raw) or n > 65535:
            return None
        inf = w.link_info(cp, (vol, b"C:\\b"), None, b"s", tail=b"\7" * (n - len(base.raw)))
    elif what == "sub size":  # a storage, a value
        if n < 40:
            return None
        blocks = [b for b in blocks if b.name != "METADATA_PROPERTIES_BLOCK"]
        v = w.property_value(5, 0x1F, "x" * ((n - 20) // 2))
        blocks.append(w.block_property_store([w.property_storage(gen.rbytes(r, 16), [v])]))
    elif what == "page":
        blocks = [b for b in blocks if b.kind != "block:codepage" and b.name != "CONSOLE_CODEPAGE_BLOCK"]
        blocks.insert(r.randrange(len(blocks) + 1), w.block_codepage(n & 0xFFFFFFFF))
    elif what == "texts" and n <= 60000:
        key = r.choice(["command_line_arguments", "icon_location"] if n > 260 else [k for _, k in w.STRINGS])
        if uni:
            texts[key] = w.string_data(key, exactly(r, n), True, cp)
        else:
            texts[key] = w.string_data(key, bytes(r.randrange(0x21, 0x7F) for _ in range(n)), False, cp)
    head = gen.header_fields(r, conforming)
    flags = gen.num(r, 4) & ~0x1FF
    make = lambda blocks, tail: w.build(
        head, items, inf, texts, blocks, uni, terminal=r.choice([0, 0, 1, 3]), tail=tail, flags=flags, allow=allow)
    if what == "tail":
        tail = b"\xa5" * min(n, 1 << 21)
    elif what in ("file size", "block at"):
        b = make(blocks, b"")
        have = len(b.data)
        if what == "block at":
            have -= 4 + len(blocks[-1].raw)
            one = unknown_of(r, n - have)
            if one is not None:
                blocks.insert(len(blocks) - 1, one)
        elif r.random() < 0.5 and n > have:
            tail = b"\x33" * (n - have)
        else:
            one = unknown_of(r, n - have)
            if one is not None:
                blocks.insert(0, one)
    SEEN["links with a dimension at a constant of the code"] += 1
    return make(blocks, tail)


# ---------------------------------------------------------------- cases for a check

PLAIN = {"quick": (24, 25), "thorough": (400, 120)}  # links, seconds
STEERED = {"quick": (420, 100), "thorough": (3000, 300)}


def plan(tier, seed, top):
    """(dimension or None, number or None, text or None) for every directed case."""
    from lib import gen
    ints, strs, raws = novel()
    r = gen.Rng("plan/%s" % seed)
    out = []
    if not any_novel():
        for what in DIMENSIONS:
            for n in r.sample(CORNERS, len(CORNERS)):
                if n <= limit(what, top):
                    out.append((what, n, None))
        r.shuffle(out)
        return out[: PLAIN[tier][0]]
    ints = ints if len(ints) <= MOST else r.sample(ints, MOST)
    for what in DIMENSIONS:
        for n in ints:
            for v in {n, n + 1, max(0, n - 1), n // 2, 2 * n}:
                if v <= limit(what, top):
                    out.append((what, v, None))
    out *= max(1, min(4, STEERED[tier][0] // 2 // max(1, len(out))))
    r.shuffle(out)
    out = out[: STEERED[tier][0] * 2 // 3]
    for s in strs if len(strs) <= MOST else r.sample(strs, MOST):
        out += [(None, None, s)] * max(2, min(60, STEERED[tier][0] // 3 // len(strs)))
    for n in ints:
        out += [(None, n, None)] * max(2, min(60, STEERED[tier][0] // 3 // len(ints)))
    out += [(None, None, None)] * (20 if raws else 0)
    r.shuffle(out)
    return out


def cases(check, tier, seed):
    """Cases of links which have something to do with the constants of the code, for a check with
    a function link(rec, r, built, cp)."""
    if not hasattr(check, "link"):
        return
    from lib import gen
    opts = getattr(check, "DIRECTED", {})
    top = opts.get("top", 1 << 21)
    seconds = (STEERED if any_novel() else PLAIN)[tier][1]
    clock = {}

    def one(rec, i, what, n, text):
        clock.setdefault("end", time.monotonic() + seconds)
        if time.monotonic() > clock["end"] and rec.only is None:
            rec.seen("directed links left out, for they took too long")
            return
        r = gen.Rng("directed/%s/%s/%d" % (check.__name__, seed, i))
        r.mood = mood(r, gen.text, gen.guid, n, text)
        r.directed = True
        r.longest = max(len(t.encode("utf-16le")) // 2 for t in r.mood["text"])
        cp = r.choice(opts.get("cps") or gen.CODEPAGES)
        conforming = opts.get("conforming", False)
        if what is None:
            r.directed = False
            b = gen.link(r, cp, conforming=conforming, maxlen=opts.get("maxlen", 80), no_items=opts.get("no_items", False))
        else:
            b = link(r, gen, cp, conforming, opts.get("maxlen", 80), True, opts.get("no_items", False), what, n)
        if b is None or len(b.data) > top + 4096 + (1 << 21):
            return
        rec.seen("directed links judged")
        rec.state("dimensions of directed links", str(what))
        check.link(rec, r, b, cp)

    for i, (what, n, text) in enumerate(plan(tier, seed, top)):
        yield f"directed{i}", lambda rec, i=i, a=what, n=n, t=text: one(rec, i, a, n, t)


def main():
    """Write the baseline from the current tree."""
    from lib import core
    seen = collect(os.path.join(core.REPO, "LnkParse3"))
    with open(BASELINE, "w", encoding="utf-8") as f:
        f.write("[\n" + ",\n".join(json.dumps([k, v, n]) for (k, v), n in sorted(seen.items())) + "\n]\n")
    print(len(seen), "constants")


if __name__ == "__main__":
    main()
