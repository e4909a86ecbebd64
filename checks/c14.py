"""C14: the default report is the verbose one without its offsets, sizes and reserved fields."""

from lib import core, gen, judge
from lib import wire as w

RULE = ("random links of every view, samples and mutants: default and verbose report of the same "
        "object and of separate ones, in both orders; non-trivial = new input whose two reports "
        "were compared leaf by leaf")
ASSUMPTIONS = ["what the default report leaves out is the set the pinned sources leave out: header "
               "size and reserved fields; sizes and offsets of LinkInfo, of its volume and of its "
               "network part; size and index of the ID list; modification times of its items"]
MUST_SEE = {"reports compared": 1500, "ways to ask": 1500, "left out": 18, "views": 3}
OMIT = {
    ("header",): {"header_size", "reserved0", "reserved1", "reserved2"},
    ("link_info",): {"link_info_size", "link_info_header_size", "volume_id_offset", "local_base_path_offset",
                     "common_network_relative_link_offset", "common_path_suffix_offset"},
    ("target",): {"index", "size"},
}
LOCAL = {"volume_id_size", "volume_label_offset"}
NETWORK = {"common_network_relative_link_size", "net_name_offset", "device_name_offset"}


def default(doc, rec=None):
    out = core.copy.deepcopy(doc)

    def drop(d, keys, where):
        for k in keys:
            if k in d:
                del d[k]
                if rec is not None:
                    rec.state("left out", where + "/" + k)
    for path, keys in OMIT.items():
        d = judge.section(out, path)
        if isinstance(d, dict):
            drop(d, keys, "/".join(path))
    info = out.get("link_info", {})
    if rec is not None:
        rec.state("views", info.get("location"))
    if info.get("location") in ("Local", "Network"):
        drop(info["location_info"], LOCAL if info["location"] == "Local" else NETWORK, "link_info/location_info")
    for item in judge.section(out, ("target", "items")) or [] if "target" in out else []:
        drop(item, {"modification_time"}, "target/items")
    return out


def judged(rec, data, cp, sample=None):
    kw = {"cp": cp}
    first = core.observe(MOD, data, ("json_all", "json"), **kw)
    second = core.observe(MOD, data, ("json", "json_all"), **kw)
    third = core.observe(MOD, data, ("text", "json", "pjson", "json_all"), **kw)
    for o in (first, second, third):
        if o.exc is not None:
            rec.violation(o.problem(), data, kw, trace=o.trace)
            return
    exp = default(first.json_all, rec)
    for what, a, b in (("default", exp, first.json), ("default first", exp, second.json),
                       ("default after text", exp, third.json),
                       ("verbose after default", first.json_all, second.json_all),
                       ("verbose after all", first.json_all, third.json_all)):
        rec.seen("reports compared")
        d = core.differs(a, b)
        if d:
            rec.violation(f"{what}: {d}", data, kw)
            return
    rec.ok(data, sample)


def ways(rec, data, cp):
    """However a report is asked for, the argument decides which one it is."""
    o = core.observe(MOD, data, (), cp=cp)
    if o.exc is not None:
        rec.violation(o.problem(), data, {"cp": cp}, trace=o.trace)
        return
    lnk = o.lnk
    calls = {
        "get_json": (lnk.get_json, "get_all"), "print_json": (lnk.print_json, "print_all"),
        "print_lnk_file": (lnk.print_lnk_file, "print_all"), "print_shortcut_target": (lnk.print_shortcut_target, "pjson"),
    }
    with core.warnings.catch_warnings():
        core.warnings.simplefilter("ignore")
        for name, (func, key) in calls.items():
            got = {}

            def ask(spelling, *args, **kw):
                value = {}
                text = core._capture(lambda: value.update(r=func(*args, **kw)))
                got[spelling] = value["r"] if name == "get_json" else text
                rec.seen("ways to ask")
            ask("()")
            for no in (False, 0):
                ask(f"({no})", no)
                ask(f"({key}={no})", **{key: no})
            for yes in (True, 1):
                ask(f"({yes})", yes)
                ask(f"({key}={yes})", **{key: yes})
            for spelling, value in got.items():
                like = "()" if spelling == "()" or any(x in spelling for x in ("False", "0")) else "(True)"
                d = core.differs(got[like], value)
                if d or (like == "()" and name == "get_json" and core.differs(default(got["(True)"]), value)):
                    rec.violation(f"{name}{spelling} is not {name}{like}: {d}", data, {"cp": cp})
                    return
            if name == "get_json":
                whole = got["(True)"]
            elif name == "print_json":
                for spelling, doc in (("()", default(whole)), ("(True)", whole)):
                    if core.json.loads(got[spelling]).keys() != doc.keys() or any(
                            set(core.json.loads(got[spelling])[k]) != set(doc[k]) for k in doc if isinstance(doc[k], dict)):
                        rec.violation(f"{name}{spelling} has other entries than the report", data, {"cp": cp})
                        return
            elif name == "print_lnk_file":
                for spelling, has in (("()", False), ("(True)", True)):
                    if ("header size:" in got[spelling].lower()) != has:
                        rec.violation(f"{name}{spelling} is the other form", data, {"cp": cp})
                        return
            elif got["()"] == got["(True)"] or not got["(True)"].startswith("{"):
                rec.violation(f"{name}(): {got['()']!r}, {name}(True): {got['(True)']!r}", data, {"cp": cp})
                return
    rec.ok((data, "ways"))


def link(rec, r, b, cp):
    judged(rec, b.data, cp)
    if r.random() < 0.2:
        ways(rec, b.data, cp)


def cases(tier, seed):
    corpus = judge.load_samples()
    for name, data in corpus.items():
        yield f"sample-{name}", lambda rec, d=data: judged(rec, d, "cp1252")

    def minimal(rec):
        """The smallest link of every kind: a key may be there though its value is nothing."""
        local = (w.volume_id(0, 0, b"", "cp1252"), b"")
        for prov in (None, 0, 1, 0x20000, 0xFFFFFFFF):
            for dev in (None, b"", b"Z:"):
                for name in (b"", b"\\\\a\\b"):
                    for u in (None, "", "u"):
                        net = w.network_link(name, dev, prov, "cp1252", u, u)
                        for info in (w.link_info("cp1252", None, net, b""), w.link_info("cp1252", local, net, b"")):
                            judged(rec, w.build(info=info).data, "cp1252")
        for info in (w.link_info("cp1252", local, None, b""), w.link_info("cp1252", None, None, b""),
                     w.link_info("cp1252", local, None, b"", base_u="", suffix_u="")):
            judged(rec, w.build(info=info).data, "cp1252")
            judged(rec, w.build(info=info, force_no_info=True).data, "cp1252")
        judged(rec, w.build().data, "cp1252")
        judged(rec, w.build(items=[]).data, "cp1252")
        r = gen.rng_for("C14", seed, "minimal")
        for kind in gen.ITEM_KINDS:
            for _ in range(4):
                judged(rec, w.build(items=[gen.item(r, "cp1252", kind), gen.item(r, "cp1252", "root")]).data, "cp1252")
        for kind in gen.BLOCK_KINDS:
            judged(rec, w.build(blocks=[gen.block(r, "cp1252", kind)]).data, "cp1252")
        for _, key in w.STRINGS:
            for t in ("", "x"):
                judged(rec, w.build(strings={key: w.string_data(key, t, True, "cp1252")}).data, "cp1252")
        for name, _, width in w.HEADER_FIELDS:
            if name in ("clsid", "link_flags", "header_size"):
                continue
            for v in (0, 1, (1 << 8 * width) - 1):
                judged(rec, w.build({name: v}).data, "cp1252")
    yield "minimal", minimal

    def rand(rec, i):
        r = gen.rng_for("C14", seed, i)
        cp = r.choice(gen.CODEPAGES)
        b = gen.link(r, cp)
        if i % 10 == 0:
            ways(rec, w.build(gen.header_fields(r), strings=gen.strings(r, cp, True), info=gen.info(r, cp),
                              items=[gen.item(r, cp) for _ in range(3)]).data if i % 20 else b.data, cp)
        judged(rec, b.data, cp, judge.describe(b) if i < 4 else None)
    for i in range(600 if tier == "quick" else 30000):
        yield f"rand{i}", lambda rec, i=i: rand(rec, i)

    def hostile(rec, i):
        r = gen.rng_for("C14", seed, "h", i)
        vals = list(corpus.values())
        data = gen.mutate(r, gen.link(r, "cp1252", maxlen=60) if r.random() < 0.6 else r.choice(vals), vals)
        if len(data) >= 76:
            judged(rec, data, "cp1252")
    for i in range(500 if tier == "quick" else 30000):
        yield f"hostile{i}", lambda rec, i=i: hostile(rec, i)


PARALLEL = True
