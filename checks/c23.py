"""C23: the objects a link consists of answer what its report shows, whoever asks in what order."""

import inspect
import io
import warnings

from lib import core, gen, judge
from lib import wire as w

RULE = ("random well formed links of every kind of component, their objects questioned in random "
        "orders, repeatedly, before, between and after the reports, by interleaved iterators, on "
        "second readings of the same object and when the link itself is gone; damaged links, whose "
        "objects are held against their own reports; non-trivial = new link whose answers were "
        "compared with the model or the report")
ASSUMPTIONS = ["a question is a public method which needs no argument; one the objects no longer "
               "have is not judged",
               "numbers the report shows in hexadecimal may be answered as numbers"]
MUST_SEE = {"answers": 30000, "kinds of objects": 28, "questions": 110, "interleaved iterations": 100,
            "links gone": 100, "answers of damaged links": 10000, "silent questions": 5000,
            "questions about what is not there": 500}

HEADER = {"guid": "link_cls_id", "accessed_time": "access_time", "modified_time": "write_time",
          "windowstyle": "window_style", "hotkey": "hot_key", "r_hotkey": "raw_hot_key",
          "header_size": "size"}
INFO = {"link_info_size": "size", "link_info_header_size": "header_size", "link_info_flags": "flags"}
BLOCKS = {"machine_identifier": "machine_id", "droid_volume_identifier": "droid_volume_id",
          "droid_file_identifier": "droid_file_id",
          "birth_droid_volume_identifier": "droid_birth_volume_id",
          "birth_droid_file_identifier": "droid_birth_file_id"}
ITEMS = {"item_identifier": "control_panel_item_identifier"}
CPL = {"name": "name_string"}
ALIASES = {"guid": ["guid"]}  # further questions with the same answer, on the header
# What LinkInfo need not have, by the kind of location; if it has not, the answer is None.
OPTIONAL = ("local_base_path", "common_path_suffix", "local_base_path_offset_unicode", "local_base_path_unicode",
            "common_path_suffix_offset_unicode", "common_path_suffix_unicode")
OPTIONAL_OF = {"Local": ("volume_label", "volume_label_unicode", "volume_label_unicode_offset"),
               "Network": ("net_name_unicode", "net_name_offset_unicode", "device_name_unicode",
                           "device_name_offset_unicode", "network_provider_type")}
# The public methods without arguments which answer a question; methods added later are not judged.
QUESTIONS = frozenset("""
access_time appended_data auto_position category category_id class_type_indicator code_page color_table
command_line_arguments comments common_network_relative_link common_network_relative_link_flags
common_network_relative_link_offset common_network_relative_link_size common_path_suffix
common_path_suffix_offset common_path_suffix_offset_unicode common_path_suffix_unicode component_id
content_flags control_panel_item_identifier cpl_file_path creation_time cursor_size darwin_data_ansi
darwin_data_unicode delegate_class_id delegate_folder_id description device_name device_name_offset
device_name_offset_unicode device_name_unicode drive_serial_number drive_type droid_birth_file_id
droid_birth_volume_id droid_file_id droid_volume_id extension_block extra_data face_name feature_name
file_attribute_flags file_entry file_entry_size file_flags file_size fill_attributes flags font_family
font_size font_weight force_no_link_info format_id full_screen guid has_arguments has_icon_location
has_link_info has_name has_relative_path has_target_id_list has_unicode_strings has_working_dir header_size
history_buffer_size history_no_dup hot_key icon_index icon_location id id_list id_list_size inner_data_size
insert_mode is_unicode item_type known_folder_id layer_name length link_cls_id link_flags local_base_path
local_base_path_offset local_base_path_offset_unicode local_base_path_unicode location machine_id
modification_time name name_size name_string net_name net_name_offset net_name_offset_unicode net_name_unicode
network_provider_type number_of_history_buffers offset popup_fill_attributes primary_name product_code_id
property_store quick_edit r_drive_type r_file_flags r_link_flags r_network_provider_type raw_hot_key
relative_path reserved0 reserved1 reserved2 screen_buffer_size_x screen_buffer_size_y secondary_name
serialized_property_values shell_folder_identifier signature size sort_index sort_index_value
special_folder_id storage_size store_size target_ansi target_unicode value value_padding value_size value_type
version volume_id_offset volume_id_size volume_identifier volume_label volume_label_offset
volume_label_unicode volume_label_unicode_offset volume_name window_origin_x window_origin_y window_size_x
window_size_y window_style working_directory write_time
""".split())


class Wrong(Exception):
    pass


def same(exp, got):
    """Is this what the report shows?"""
    if isinstance(exp, str) and isinstance(got, int) and not isinstance(got, bool):
        return None if exp.lower().startswith("0x") and int(exp, 16) == got else core.differs(exp, got)
    if isinstance(exp, str) and isinstance(got, (bytes, bytearray)):
        return core.differs(exp, bytes(got).decode("ascii", "replace"))
    if exp is None and got is core.MISSING:
        return None
    return core.differs(exp, got)


class Asker:
    """Collects the questions to the objects of one link, and asks them."""

    def __init__(self, rec, r, strict):
        self.rec, self.r, self.strict = rec, r, strict
        self.questions = []  # (kind, what, callable, expected)

    def add(self, kind, obj, name, exp):
        if not hasattr(obj, name):
            self.rec.seen("gone questions")
            return
        value = getattr(obj, name)
        self.questions.append((kind, name, value if callable(value) else lambda: value, exp))

    def absent(self, kind, obj, name):
        """There is no such value; an offset may be answered as zero as well."""
        if callable(getattr(obj, name, None)):
            self.rec.seen("questions about what is not there")
            fn = getattr(obj, name)
            self.questions.append((kind, name, (lambda: fn() or None) if "offset" in name else fn, None))

    def components(self, kind, obj, exp, names):
        self.rec.state("kinds of objects", kind)
        for key, e in exp.items():
            if isinstance(e, (dict, list)) and key not in ("link_flags", "file_flags"):
                continue
            self.add(kind, obj, names.get(key, key), e)

    def header(self, header, exp):
        self.components("header", header, exp, HEADER)
        for key, more in ALIASES.items():
            for name in more:
                self.add("header", header, name, exp[key])

    def info(self, info, exp):
        if info is None or not exp:
            return
        flat = {k: v for k, v in exp.items() if k != "location_info"}
        self.components("info", info, flat, INFO)
        self.components("info:" + str(exp.get("location")), info, exp.get("location_info") or {}, {})
        if self.strict:
            for key in OPTIONAL:
                if key not in exp:
                    self.absent("info", info, key)
            for key in OPTIONAL_OF.get(exp.get("location"), ()):
                if key not in exp["location_info"]:
                    self.absent("info:" + exp["location"], info, key)

    def strings(self, data, exp):
        self.rec.state("kinds of objects", "strings")
        for _, key in w.STRINGS:
            self.add("strings", data, key, exp.get(key, None))
        self.add("strings", data, "as_dict", exp)

    def item(self, item, exp, where="item:"):
        kind = where + exp["class"]
        names = dict(ITEMS, **(CPL if "cpl_file_path" in exp else {}))
        self.components(kind, item, {k: v for k, v in exp.items() if k != "class"}, names)
        if "cpl_file_path" not in exp:
            self.questions.append((kind, "name", lambda: item.name, exp["class"]))
        self.add(kind, item, "as_item", exp)
        inner = exp.get("file_entry")
        if isinstance(inner, dict) and len(inner) > 1 and hasattr(item, "file_entry"):
            if self.strict:
                self.item(item.file_entry(), inner, "inner:")

    def block(self, block, exp, name):
        self.components("block:" + name, block, exp, BLOCKS)
        self.add("block:" + name, block, "name", name)
        self.add("block:" + name, block, "as_dict", exp)
        if name == "SHELL_ITEM_IDENTIFIER_BLOCK" and "id_list" in exp:
            self.add("block:" + name, block, "id_list", exp["id_list"])
        if self.strict and "property_store" in exp and hasattr(block, "property_store"):
            for s, e in self.both("storages", block.property_store(), exp["property_store"]):
                if not hasattr(s, "serialized_property_values"):
                    self.rec.seen("gone questions")
                    continue
                self.components("storage", s, e, {})
                self.add("storage", s, "as_dict", e)
                for v, ve in self.both("values", s.serialized_property_values(),
                                       e["serialized_property_values"]):
                    self.components("value:" + ("name" if "name" in ve else "id"), v,
                                    {k: x for k, x in ve.items() if k not in ("value", "value_type")}, {})
                    self.add("value", v, "as_dict", ve)
                    typed = v.value() if callable(getattr(v, "value", None)) else None
                    if not callable(getattr(typed, "value", None)):
                        self.rec.seen("gone questions")
                        continue
                    self.questions.append(("typed value", "value", typed.value, ve["value"]))
                    self.add("typed value", typed, "value_padding", getattr(ve, "padding", core.MISSING))
                    number = [n for n, t in w.VARTYPES.items() if t == ve["value_type"]]
                    if callable(getattr(typed, "value_type", None)):
                        self.questions.append(("typed value", "value_type", lambda typed=typed: int(typed.value_type()), number[0]))

    def both(self, what, objs, exps):
        objs = list(objs)
        if len(objs) != len(exps):
            raise Wrong(f"{len(objs)} {what}, expected {len(exps)}")
        return zip(objs, exps)

    def ask(self, q):
        kind, name, fn, exp = q
        try:
            got = fn()
        except Exception as e:
            if self.strict or exp is core.MISSING:
                raise Wrong(f"{kind}.{name}(): {type(e).__name__}: {e}") from None
            if isinstance(exp, (dict, list)) or exp is None:
                self.rec.seen("refusals of damaged links")
                return
            raise Wrong(f"{kind}.{name}(): {type(e).__name__}: {e}, the report has {exp!r}") from None
        self.rec.state("questions", (kind.split(":")[0], name))
        self.rec.seen("answers" if self.strict else "answers of damaged links")
        d = same(exp, got)
        if d:
            raise Wrong(f"{kind}.{name}(){d}")

    def all(self):
        qs = list(self.questions)
        self.r.shuffle(qs)
        for q in qs:
            self.ask(q)
            if self.r.random() < 0.1:
                self.ask(q)


def blocks_of(extra):
    """The entries of the section `extra`, by name."""
    out = {}
    for name, e in extra.items():
        out[name] = list(e) if isinstance(e, list) else [e]
    return out


def gather(a, lnk, exp, r):
    """The questions to all the objects of a link."""
    a.header(lnk.header, exp["header"])
    a.info(lnk.info, exp["link_info"])
    a.strings(lnk.string_data, exp["data"])
    if "target" in exp:
        items = exp["target"]["items"]
        a.add("targets", lnk.targets, "id_list_size", exp["target"]["size"])
        a.add("targets", lnk.targets, "as_list", items)
        if r.random() < 0.4:  # two readings at the same time
            a.rec.seen("interleaved iterations")
            one, two = iter(lnk.targets), iter(lnk.targets)
            objs, again = [], []
            while len(objs) <= len(items):
                x = next(one, None)
                if x is None:
                    break
                objs.append(x)
                if r.random() < 0.5:
                    y = next(two, None)
                    if y is not None:
                        again.append(y)
            again += list(two)
            if len(again) != len(objs):
                raise Wrong(f"{len(objs)} items by one iterator, {len(again)} by another one")
            objs = r.choice([objs, again])
        else:
            objs = list(lnk.targets)
        for obj, e in a.both("items", objs, items):
            if len(e) > 1 or a.strict:
                a.item(obj, e)
    elif lnk.targets is not None:
        raise Wrong("there is an ID list which the report does not have")
    left = blocks_of(exp["extra"])
    for obj in lnk.extras:
        name = obj.name()
        if name not in left or not left[name]:
            if a.strict:
                raise Wrong(f"a block {name} which the report does not have")
            continue
        # Of two known blocks of a kind the report has the last one (finding duplicate-block).
        if a.strict or name == "UNKNOWN_BLOCK" or sum(o.name() == name for o in lnk.extras) == 1:
            a.block(obj, left[name].pop(0), name)
    if a.strict and any(left.values()):
        raise Wrong(f"blocks which can not be found: {[k for k, v in left.items() if v]}")


def silent(rec, lnk):
    """Every public question of every object of a well formed link has an answer, twice the same."""
    objs = [lnk, lnk.header, lnk.info, lnk.string_data, lnk.targets, lnk.extras]
    objs += list(lnk.targets or ()) + list(lnk.extras or ())
    for obj in objs:
        if obj is None:
            continue
        for name in dir(type(obj)):
            if name not in QUESTIONS:
                continue
            member = inspect.getattr_static(type(obj), name)
            if not inspect.isfunction(member):
                continue
            if any(p.default is p.empty and p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD, p.KEYWORD_ONLY)
                   for p in list(inspect.signature(member).parameters.values())[1:]):
                continue
            rec.seen("silent questions")
            try:
                one, two = getattr(obj, name)(), getattr(obj, name)()
            except Exception as e:
                raise Wrong(f"{type(obj).__name__}.{name}(): {type(e).__name__}: {e}") from None
            if isinstance(one, (str, int, bytes, float, bool, type(None))) and one != two:
                raise Wrong(f"{type(obj).__name__}.{name}(): {one!r}, then {two!r}")


def well_formed(rec, r, b=None, cp=None):
    if b is None:
        cp = r.choice(gen.CODEPAGES)
        b = gen.link(r, cp, maxlen=40) if r.random() < 0.6 else rich(r, cp)
    kw = judge.kwargs(cp, b.allow)
    log = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        lnk = MOD.lnk_file(indata=b.data, **kw)
        a = Asker(rec, r, True)
        try:
            if r.random() < 0.4:
                log.append("report")
                lnk.get_json(r.random() < 0.5)
            if r.random() < 0.15 and hasattr(lnk, "process"):
                log.append("process")
                lnk.process()
            gather(a, lnk, b.exp, r)
            size = lnk.size
            if r.random() < 0.5:
                k = r.randrange(3)
                log.append("print" + str(k))
                core._capture([lambda: lnk.print_json(True), lambda: lnk.print_lnk_file(True),
                               lambda: lnk.print_shortcut_target()][k])
            if r.random() < 0.3:
                log.append("link gone")
                rec.seen("links gone")
                silent(rec, lnk)
                del lnk
                a.all()
            else:
                a.all()
                silent(rec, lnk)
                log.append("asked")
                d = core.differs(b.exp, lnk.get_json(True))
                if d:
                    raise Wrong("the report afterwards: " + d)
            if size != b.exp["size"]:
                raise Wrong(f"size {size}, expected {b.exp['size']}")
        except Wrong as e:
            rec.violation(f"after {log}: {e}", b.data, kw)
            return
    rec.ok(b.data, {"questions": len(a.questions), "bytes": len(b.data), "history": log} if r.random() < 0.01 else None)


def rich(r, cp):
    """A link with every kind of item and block."""
    uni = r.random() < 0.5
    kinds = list(gen.ITEM_KINDS)
    r.shuffle(kinds)
    blocks = list(gen.BLOCK_KINDS)
    r.shuffle(blocks)
    return w.build(gen.header_fields(r), [gen.item(r, cp, k, maxlen=30) for k in kinds],
                   gen.info(r, cp, r.choice(["local", "network", "both"]), maxlen=30),
                   gen.strings(r, cp, uni, maxlen=60, prob=0.8),
                   [gen.block(r, cp, k, maxlen=30) for k in blocks], uni, tail=b"tail" if r.random() < 0.3 else b"",
                   flags=gen.num(r, 4))


def damaged(rec, r, corpus):
    """The answers of a damaged link's objects are those of its own report."""
    cp = r.choice(gen.CODEPAGES)
    src = r.random()
    b = rich(r, cp) if src < 0.4 else gen.link(r, cp, maxlen=30)
    data = gen.mutate(r, b, corpus) if src < 0.85 else r.choice(corpus)
    if len(data) < 76:
        return
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        first = r.random() < 0.5
        lnk = MOD.lnk_file(indata=data, cp=cp)
        report = lnk.get_json(True)
        if first:
            lnk = MOD.lnk_file(indata=data, cp=cp)
        a = Asker(rec, r, False)
        try:
            gather(a, lnk, report, r)
            a.all()
            d = core.differs(report, lnk.get_json(True))
            if d:
                raise Wrong("the report afterwards: " + d)
        except Wrong as e:
            rec.violation(f"damaged link: {e}", data, {"cp": cp})
            return
    rec.ok(data)


def header_alone(rec, r):
    """The header read from a handle or from data, by itself."""
    from importlib import import_module
    cls = getattr(import_module("LnkParse3.lnk_header"), "LnkHeader", None)
    if cls is None:
        return
    if not {"indata", "fhandle"} <= set(inspect.signature(cls).parameters):
        return
    b = gen.link(r)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for h in (cls(indata=b.data), cls(fhandle=io.BytesIO(b.data))):
            a = Asker(rec, r, True)
            a.header(h, b.exp["header"])
            try:
                a.all()
            except Wrong as e:
                rec.violation(str(e), b.data)
                return
    rec.ok(b.data[:76])


DIRECTED = {"maxlen": 40, "top": 1 << 18}


def link(rec, r, b, cp):
    well_formed(rec, r, b, cp)


def cases(tier, seed):
    corpus = list(judge.load_samples().values())
    n = 500 if tier == "quick" else 20000
    for i in range(n):
        yield f"link{i}", lambda rec, i=i: well_formed(rec, gen.rng_for("C23", seed, i))
        yield f"damaged{i}", lambda rec, i=i: damaged(rec, gen.rng_for("C23", seed, "d", i), corpus)
    for i in range(50 if tier == "quick" else 2000):
        yield f"header{i}", lambda rec, i=i: header_alone(rec, gen.rng_for("C23", seed, "h", i))
