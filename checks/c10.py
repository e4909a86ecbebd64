"""C10: the link flags decide which sections there are, and each is found in its place."""

from lib import core, gen, judge
from lib import wire as w

RULE = ("all 512 combinations of the nine flags which steer the layout, with random contents and "
        "the other 23 flag bits varied (each alone, all, random), sections of many sizes, empty ID "
        "list, minimal LinkInfo; non-trivial = new layout + contents whose whole report was "
        "compared with the model")
ASSUMPTIONS = []
MUST_SEE = {"layouts": 512, "values compared": 25000, "other bits": 23}
STEER = 0x1FF
PATHS = [("header", "r_link_flags"), ("target",), ("link_info",), ("data",), ("extra",), ("size",)]


def one(rec, r, mask, others, sample=None):
    cp = r.choice(gen.CODEPAGES)
    uni = bool(mask & w.FLAG["IsUnicode"])
    items = info = None
    if mask & 1:
        items = [gen.item(r, cp, maxlen=20) for _ in range(r.choice([0, 1, 2]))]
    if mask & 2:
        info = gen.info(r, cp, maxlen=20)
    strs = {}
    for flag, key in w.STRINGS:
        if mask & w.FLAG[flag]:
            strs[key] = (w.string_data(key, gen.text(r, 20), True, cp) if uni
                         else w.string_data(key, gen.ansi(r, cp, 20), False, cp))
    blocks = [gen.block(r, cp, k, maxlen=20) for k in r.sample(gen.BLOCK_KINDS, r.randrange(3))]
    b = w.build(gen.header_fields(r), items, info, strs, blocks, uni, flags=others,
                force_no_info=bool(mask & w.FLAG["ForceNoLinkInfo"]))
    assert b.flags & STEER == mask, (hex(b.flags), hex(mask))
    rec.state("layouts", mask)
    for i in range(32):
        if others >> i & 1 and i not in range(9):
            rec.state("other bits", i)
    o = judge.conform(rec, MOD, b, PATHS, cp, sample=sample)
    if o is not None:
        top = {"size", "header", "link_info", "data", "extra"} | ({"target"} if mask & 1 else set())
        if set(o.json_all) != top:
            rec.violation(f"reported sections are {sorted(o.json_all)}", b.data)


def link(rec, r, b, cp):
    judge.conform(rec, MOD, b, PATHS, cp)


def cases(tier, seed):
    reps = 4 if tier == "quick" else 100
    for mask in range(512):
        def layout(rec, mask=mask):
            r = gen.rng_for("C10", seed, mask)
            for i in range(reps):
                others = [0, 0xFFFFFFFF, 1 << 9 + (mask % 23), gen.num(r, 4)][i % 4] & ~STEER
                one(rec, r, mask, others, {"layout": hex(mask), "others": hex(others)}
                    if mask in (0, 0x103, 0x1FF) and i == 0 else None)
        yield f"layout{mask:#x}", layout
