"""C12: damage stays where it is."""

from lib import core, gen, judge
from lib import wire as w

RULE = ("links with items, LinkInfo, strings and blocks; (a) the contents of one to three, or of all but one or two, "
        "components are overwritten (random bytes, zeros, 0xFF, single bits, counts), their sizes "
        "and block signatures kept: every other component must be reported as stored; (b) likewise with "
        "well framed items and blocks which hold too little; (c) the "
        "file is cut at every byte: every component which is wholly there must be reported as "
        "stored and none which is not there at all; non-trivial = new damaged file judged")
ASSUMPTIONS = ["a damaged component itself may be reported in any way, or not at all"]
MUST_SEE = {"damaged files": 2500, "cut files": 4000, "components judged": 20000,
            "damaged kinds": 18, "files with stumps": 1400, "stumps": 18}


def make(r, cp, maxlen=24):
    if r.random() < 0.06:
        return crowd(r, cp)
    uni = r.random() < 0.6
    items = [gen.item(r, cp, maxlen=maxlen) for _ in range(r.choice([1, 2, 3, 4, 8]))] if r.random() < 0.85 else None
    inf = gen.info(r, cp, r.choice(["local", "network"]), maxlen=maxlen) if r.random() < 0.75 else None
    kinds = r.sample(gen.BLOCK_KINDS, r.choice([0, 1, 2, 3, 3, 6, 12]))
    return w.build(gen.header_fields(r), items, inf, gen.strings(r, cp, uni, maxlen=maxlen),
                   [gen.block(r, cp, k, maxlen=maxlen) for k in kinds], uni,
                   terminal=r.randrange(4), flags=gen.num(r, 4))


def crowd(r, cp):
    """A link of very many components."""
    n = r.choice([17, 33, 40, 65, 66, 100, 130, 257, 300])
    kinds = r.choice([["plain", "category"], ["file", "root"], gen.ITEM_KINDS])
    items = [gen.item(r, cp, r.choice(kinds), maxlen=6) for _ in range(n)] if r.random() < 0.7 else None
    known = [gen.block(r, cp, k, maxlen=8) for k in r.sample([k for k in gen.BLOCK_KINDS if k != "unknown"], r.randrange(12))]
    for _ in range(n if r.random() < 0.7 else 2):
        known.insert(r.randrange(len(known) + 1), gen.block(r, cp, "unknown", maxlen=8))
    if r.random() < 0.2:
        known = [b for b in known if b.name != "SHELL_ITEM_IDENTIFIER_BLOCK"]
        known.append(w.block_idlist([gen.item(r, cp, "file", maxlen=4) for _ in range(n)]))
    return w.build(gen.header_fields(r), fitting(items), gen.info(r, cp, "local", maxlen=9) if r.random() < 0.5 else None,
                   gen.strings(r, cp, True, maxlen=9), known, True, terminal=r.randrange(4), flags=gen.num(r, 4))


def fitting(items):
    """As many of the items as the 16-bit size of an ID list can hold."""
    out, n = [], 2
    for i in items or []:
        n += len(i.raw)
        if n > 0xFFF0:
            break
        out.append(i)
    return out if items is not None else None


KEEP = {"header": 0, "item": 2, "info": 4, "string": 2, "block": 8}


def damage(r, data, start, end):
    body = data[start:end]
    n = end - start
    k = r.random()
    if k < 0.3:
        return gen.rbytes(r, n)
    if k < 0.4:
        return bytes([r.choice([0, 0xFF, 0x80, 0x41])]) * n
    body = bytearray(body)
    for _ in range(r.choice([1, 1, 2, 4])):
        i = r.randrange(n)
        if k < 0.7:
            wd = r.choice([1, 2, 4])
            v = gen.num(r, wd).to_bytes(wd, "little")[: n - i]
            body[i : i + len(v)] = v
        else:
            body[i] ^= 1 << r.randrange(8)
    return bytes(body)


def damaged(rec, r, cp, b=None):
    b = b or make(r, cp)
    data = bytearray(b.data)
    places = [(i, g) for i, g in enumerate(b.regions) if g[0] in KEEP and g[3] - g[2] > KEEP[g[0]]]
    if r.random() < 0.3:  # everything of a kind but one or two of them
        label = r.choice(["item", "string", "block"])
        some = [x for x in places if x[1][0] == label]
        spared = r.sample(some, min(len(some), r.choice([1, 1, 2])))
        picked = [x for x in some if x not in spared]
        if r.random() < 0.3:
            picked += [x for x in places if x[1][0] != label]
    else:
        picked = r.sample(places, min(len(places), r.choice([1, 1, 1, 2, 3])))
    rec.maximum("components damaged", len(picked))
    rec.maximum("components of a link", len(b.regions))
    hit = set()
    for i, (label, part, start, end) in picked:
        start += KEEP[label]
        new = damage(r, data, start, end)
        if label == "header":
            keep = bytes(data[0:4]), bytes(data[20:24])
            data[start:end] = new
            data[0:4], data[20:24] = keep
        else:
            data[start:end] = new
        hit.add(i)
        rec.state("damaged kinds", part.kind if part is not None else label)
    data = bytes(data)
    o = core.observe(MOD, data, ("json_all", "text_all"), cp=cp)
    if o.exc is not None:
        rec.violation(o.problem(), data, {"cp": cp}, trace=o.trace)
        return
    rec.seen("damaged files")
    rec.ok(data)
    what = [b.regions[i][0] if b.regions[i][1] is None else b.regions[i][1].kind for i in hit]
    d = compare(rec, b, o.json_all, lambda i: None if i in hit else True)
    if d:
        rec.violation(f"damage in {what} shows elsewhere: {d}", data, {"cp": cp})


def stump(r, part):
    """The same component, well framed, with too little in it."""
    lead = {2: 3, 4: 8}[part.size_len] if part.kind != "info" else 4
    n = r.choice([lead, lead, lead + 1, r.randrange(lead, max(lead + 1, min(len(part.raw), lead + 24)))])
    if n >= len(part.raw):
        return False
    part.raw = n.to_bytes(part.size_len, "little") + part.raw[part.size_len : n]
    part.fields = []
    return True


def stumps(rec, r, cp):
    """Many components which hold too little, and a few which are intact."""
    items = [gen.item(r, cp, maxlen=20) for _ in range(r.choice([2, 4, 6, 9, 9, r.choice([40, 70, 150])]))]
    blocks = [gen.block(r, cp, k, maxlen=20) for k in r.sample(gen.BLOCK_KINDS, r.choice([0, 2, 5, 9]))]
    bad = set()
    rate = r.choice([0.3, 0.7, 0.9])
    for p in items + [x for x in blocks if x.name != "UNKNOWN_BLOCK"]:
        if r.random() < rate and stump(r, p):
            bad.add(id(p))
            rec.state("stumps", p.kind)
    b = w.build(gen.header_fields(r), fitting(items), gen.info(r, cp, r.choice(["local", "network"]), maxlen=20)
                if r.random() < 0.5 else None, gen.strings(r, cp, True, maxlen=20), blocks, True,
                flags=gen.num(r, 4))
    o = core.observe(MOD, b.data, ("json_all", "text_all"), cp=cp)
    if o.exc is not None:
        rec.violation(o.problem(), b.data, {"cp": cp}, trace=o.trace)
        return
    rec.seen("files with stumps")
    rec.ok(b.data)
    rec.maximum("stumps in a file", len(bad))
    d = compare(rec, b, o.json_all, lambda i: None if id(b.regions[i][1]) in bad else True)
    if d:
        rec.violation(f"next to {len(bad)} components with too little in them: {d}", b.data, {"cp": cp})


def compare(rec, b, got, whole):
    """whole(i): True when region i is intact, False when it is absent, None when damaged."""
    if whole(0):
        d = core.differs(b.exp["header"], got.get("header"), "header")
        rec.seen("components judged")
        if d:
            return d
    item = -1
    items = judge.section(got, ("target", "items"))
    lost = False
    for i, (label, part, start, end) in enumerate(b.regions):
        state = whole(i)
        if label == "item":
            item += 1
            if state is False:
                lost = True
                if items is not core.MISSING and len(items) > item:
                    return f"item {item} is not in the file, reported: {core.short(items[item:])}"
                continue
            if items is core.MISSING or len(items) <= item:
                if state:
                    return f"item {item} ({part.kind}) is not reported"
                lost = True
                continue
            if state:
                d = core.differs(part.exp, items[item], f"items[{item}]")
                if d:
                    return d
        elif label == "info":
            if state:
                d = core.differs(b.exp["link_info"], got.get("link_info"), "link_info")
                if d:
                    return d
            elif state is False and any(v is not None for _, v in core.leaves(got.get("link_info"))):
                return "link_info is not in the file, reported: " + core.short(got["link_info"])
        elif label == "string":
            v = judge.section(got, ("data", part.name))
            if state:
                d = core.differs(part.exp, v, part.name)
                if d:
                    return d
            elif state is False and v is not core.MISSING:
                return f"{part.name} is not in the file, reported: {v!r}"
            elif state is None and v is core.MISSING and end - start > 2 and whole is not None:
                pass
        elif label == "block" and part.name != "UNKNOWN_BLOCK":
            v = judge.section(got, ("extra", part.name))
            if state:
                d = core.differs(part.exp, v, part.name)
                if d:
                    return d
            elif state is False and v is not core.MISSING:
                return f"{part.name} is not in the file, reported: {core.short(v)}"
        elif label == "block":
            vs = judge.section(got, ("extra", part.name))
            same = vs is not core.MISSING and any(core.differs(part.exp, v) is None for v in vs)
            if state and not same:
                return f"unknown block of {len(part.raw)} bytes is not reported"
        else:
            continue
        rec.seen("components judged")
    if item >= 0 and not lost and items is not core.MISSING and len(items) != item + 1:
        return f"{item + 1} items in the file, {len(items)} reported"
    return None


def cut(rec, r, cp, all_stages, b=None, most=None):
    b = b or make(r, cp, maxlen=10)
    size = len(b.data)
    step = max(1, size // 150)
    cuts = sorted(set(range(76, size, step)) | {e + d for _, _, s, e in b.regions for d in (-1, 0, 1, 2, 3, 4)
                                              if 76 <= e + d < size})
    if most is None and len(b.regions) > 30:
        most = 40
    if most is not None:
        cuts = r.sample(cuts, min(len(cuts), most))
    for n in cuts:
        data = b.data[:n]
        o = core.observe(MOD, data, ("json_all", "text_all", "target") if all_stages else ("json_all",), cp=cp)
        if o.exc is not None:
            rec.violation(o.problem(), data, {"cp": cp}, trace=o.trace)
            return
        rec.seen("cut files")
        rec.ok(data)

        def whole(i):
            _, _, start, end = b.regions[i]
            if end <= n:
                return True
            return False if start >= n else None
        d = compare(rec, b, o.json_all, whole)
        if d:
            rec.violation(f"cut to {n} of {size} bytes: {d}", data, {"cp": cp})
            return
        if not 76 <= o.lnk.size <= n:
            rec.violation(f"cut to {n} bytes: size {o.lnk.size}", data, {"cp": cp})
            return


DIRECTED = {"maxlen": 24}


def link(rec, r, b, cp):
    if r.random() < 0.8:
        damaged(rec, r, cp, b)
    else:
        cut(rec, r, cp, False, b, 6)


def cases(tier, seed):
    for i in range(3000 if tier == "quick" else 80000):
        def one(rec, i=i):
            r = gen.rng_for("C12", seed, "d", i)
            damaged(rec, r, r.choice(gen.CODEPAGES))
        yield f"damage{i}", one
    for i in range(1500 if tier == "quick" else 40000):
        def three(rec, i=i):
            r = gen.rng_for("C12", seed, "s", i)
            stumps(rec, r, r.choice(gen.CODEPAGES))
        yield f"stumps{i}", three
    for i in range(60 if tier == "quick" else 1500):
        def two(rec, i=i):
            r = gen.rng_for("C12", seed, "c", i)
            cut(rec, r, r.choice(gen.CODEPAGES), i % 8 == 0)
        yield f"cut{i}", two


PARALLEL = True
