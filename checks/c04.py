"""C04: time stamps denote the instants stored in the file."""

import datetime
import json
import os
import time

from lib import core, gen, judge
from lib import wire as w

RULE = ("FILETIMEs (0, boundaries of the representable range, all powers of two +-1, day/DST/leap "
        "boundaries, random) in the three header fields; FAT dates and times (all 65536 dates and "
        "65536 times, valid and invalid) in file entries of ID lists; local time zone of the "
        "process varied; non-trivial = a new raw time stamp value that was judged")
ASSUMPTIONS = ["sub-microsecond rounding is not specified: +-1 us accepted",
               "a FAT value of zero and a FILETIME of zero mean 'not set'"]
MUST_SEE = {"filetimes judged": 3000, "FAT stamps judged": 60000, "unset or invalid": 500,
            "time zones": 3, "JSON stamps judged": 300}

ZONES = ["UTC", "America/New_York", "Asia/Kolkata", "XXX-13:37", "EST5EDT,M3.2.0,M11.1.0"]
FIELDS = [("creation", "creation_time"), ("access", "accessed_time"), ("write", "modified_time")]


def zone(name):
    os.environ["TZ"] = name
    time.tzset()


def filetimes(rec, values, tz, stages=False):
    zone(tz)
    rec.state("time zones", tz)
    try:
        values = list(values)
        while len(values) % 3:
            values.append(values[0])
        for i in range(0, len(values), 3):
            trio = values[i : i + 3]
            b = w.build({f: v for (f, _), v in zip(FIELDS, trio)})
            o = core.observe(MOD, b.data, ("json_all", "pjson") if stages else ("json_all",))
            if o.exc is not None:
                rec.violation(o.problem(), b.data, {"TZ": tz}, trace=o.trace)
                return
            got = o.json_all.get("header", {})
            doc = json.loads(o.pjson)["header"] if stages else None
            for (f, key), v in zip(FIELDS, trio):
                exp = w.filetime_value(v)
                rec.seen("filetimes judged")
                if exp is None:
                    rec.seen("unset or invalid")
                d = core.differs(exp, got.get(key, core.MISSING), key)
                if d:
                    rec.violation(f"FILETIME {v:#x}, TZ={tz}: {d}", b.data, {"TZ": tz})
                    return
                if doc is not None:
                    rec.seen("JSON stamps judged")
                    if not json_stamp(exp, doc.get(key)):
                        rec.violation(f"FILETIME {v:#x}: printed as {doc.get(key)!r}, is {exp!r}",
                                      b.data)
                        return
                rec.ok(("F", v))
            if len(rec.samples) < 3:
                rec.samples.append({"filetimes": [hex(v) for v in trio], "TZ": tz,
                                    "reported": [str(got.get(k)) for _, k in FIELDS]})
            if any(not w.filetime_in_range(v) for v in trio) and not o.warnings:
                rec.violation(f"FILETIMEs {trio} denote no date, not a warning", b.data)
                return
    finally:
        zone("UTC")


def json_stamp(exp, got):
    if isinstance(exp, w.OneOf):
        return any(json_stamp(e, got) for e in exp.values)
    if exp is None:
        return got is None
    try:
        t = datetime.datetime.fromisoformat(got)
    except (TypeError, ValueError):
        return False
    return t.tzinfo is not None and abs(t - exp.value) <= datetime.timedelta(seconds=1)


def fats(rec, pairs, tz, block=False):
    """Many file entries in one ID list."""
    zone(tz)
    rec.state("time zones", tz)
    try:
        pairs = list(pairs)
        for i in range(0, len(pairs), 2000):
            part = pairs[i : i + 2000]
            items = [w.item_file(0x32, 0, d, t, 0, b"n", "cp1252") for d, t in part]
            if block:
                b = w.build(blocks=[w.block_idlist(items)])
            else:
                b = w.build(items=items)
            o = core.observe(MOD, b.data)
            if o.exc is not None:
                rec.violation(o.problem(), b.data, trace=o.trace)
                return
            if block:
                got = judge.section(o.json_all, ("extra", "SHELL_ITEM_IDENTIFIER_BLOCK", "id_list"))
            else:
                got = judge.section(o.json_all, ("target", "items"))
            if got is core.MISSING or len(got) != len(items):
                rec.violation("file entries are missing", b.data)
                return
            bad = 0
            for (d, t), g in zip(part, got):
                exp = w.fat_value(d, t)
                rec.seen("FAT stamps judged")
                if exp is None:
                    rec.seen("unset or invalid")
                bad += not w.fat_valid(d, t)
                x = core.differs(exp, g.get("modification_time", core.MISSING), "modification_time")
                if x:
                    rec.violation(f"FAT date {d:#06x} time {t:#06x} TZ={tz}: {x}", b.data, {"TZ": tz})
                    return
                rec.ok(("D", d, t))
            if len(o.warnings) < bad:
                rec.violation(f"{bad} stamps denote no date, {len(o.warnings)} warnings", b.data)
                return
    finally:
        zone("UTC")


def interesting():
    vals = set(gen.U64)
    for i in range(64):
        vals |= {1 << i, (1 << i) - 1, (1 << i) + 1}
    for y, m, d in [(1601, 1, 1), (1601, 1, 2), (1900, 3, 1), (1969, 12, 31), (1970, 1, 1), (2000, 2, 29),
                    (2020, 3, 8), (2020, 11, 1), (2038, 1, 19), (2100, 3, 1), (9999, 12, 31), (2400, 2, 29)]:
        base = (datetime.datetime(y, m, d, tzinfo=w.UTC) - w.EPOCH) // datetime.timedelta(microseconds=1) * 10
        for off in (0, 1, 5, 9, 10, -1, 9999999, 10000000, 72000000000, 863999999999, 864000000000):
            if base + off >= 0:
                vals.add(base + off)
    return sorted(vals)


def link(rec, r, b, cp):
    """All time stamps of a link, wherever the process is."""
    tz = r.choice(ZONES)
    zone(tz)
    try:
        o = core.observe(MOD, b.data, cp=cp)
    finally:
        zone("UTC")
    if o.exc is not None:
        rec.violation(o.problem(), b.data, {"TZ": tz}, trace=o.trace)
        return
    rec.ok(b.data)
    for path in (("header",), ("target", "items"), ("extra", "SHELL_ITEM_IDENTIFIER_BLOCK", "id_list")):
        exp, got = judge.section(b.exp, path), judge.section(o.json_all, path)
        if exp is core.MISSING:
            continue
        for i, e in enumerate(exp if isinstance(exp, list) else [exp]):
            if not isinstance(e, dict):
                continue
            for k in e:
                if not k.endswith("_time") and k != "file_entry":
                    continue
                try:
                    g = got[i] if isinstance(exp, list) else got
                except (IndexError, KeyError, TypeError):
                    g = {}
                d = core.differs(e[k], g.get(k, core.MISSING) if isinstance(g, dict) else core.MISSING, "/".join(path) + f"[{i}]/{k}")
                rec.seen("stamps of links judged")
                if d:
                    rec.violation(f"TZ={tz}: {d}", b.data, {"TZ": tz})
                    return


def cases(tier, seed):
    vals = interesting()
    for tz in ZONES:
        yield f"filetimes-{tz}", lambda rec, tz=tz: filetimes(rec, vals, tz, True)
    chunk = 8192 if tier == "quick" else 65536
    for n, tz in enumerate(ZONES):
        r = gen.rng_for("C04", seed, tz)
        if n == 0 or tier == "thorough":
            lo, hi = 0, 65536
        else:
            lo = (n * 13 + seed) % 8 * chunk
            hi = lo + chunk
        time_ = r.randrange(24) << 11 | r.randrange(60) << 5 | r.randrange(30)
        yield f"fatdates-{tz}", lambda rec, tz=tz, lo=lo, hi=hi, t=time_: fats(
            rec, ((d, t) for d in range(lo, hi)), tz)
        date = (r.randrange(128) << 9 | r.randrange(1, 13) << 5 | r.randrange(1, 29))
        yield f"fattimes-{tz}", lambda rec, tz=tz, lo=lo, hi=hi, d=date: fats(
            rec, ((d, t) for t in range(lo, hi)), tz, n % 2 == 1)

    def rand(rec, i):
        r = gen.rng_for("C04", seed, "r", i)
        k = r.random()
        if k < 0.6:
            filetimes(rec, [r.choice([gen.num(r, 8), r.randrange(2650467744000000000),
                                      131000000000000000 + r.randrange(10 ** 16)])
                            for _ in range(60)], r.choice(ZONES), k < 0.1)
        else:
            fats(rec, [gen.fat(r) for _ in range(200)], r.choice(ZONES), k < 0.8)
    for i in range(60 if tier == "quick" else 2000):
        yield f"rand{i}", lambda rec, i=i: rand(rec, i)
