"""Reading back what was printed."""

import datetime
import json

import yaml

from lib import core


class StrictLoader(yaml.SafeLoader):
    """Refuses repeated keys, anchors and aliases."""

    def compose_node(self, parent, index):
        if self.check_event(yaml.events.AliasEvent):
            raise yaml.composer.ComposerError(None, None, "alias in the output", None)
        return super().compose_node(parent, index)


def _mapping(loader, node):
    out = {}
    for k, v in node.value:
        key = loader.construct_object(k, deep=True)
        if key in out:
            raise ValueError(f"key {key!r} twice")
        out[key] = loader.construct_object(v, deep=True)
    return out


StrictLoader.add_constructor(yaml.resolver.BaseResolver.DEFAULT_MAPPING_TAG, _mapping)

def pairs(seq):
    out = {}
    for k, v in seq:
        if k in out:
            raise ValueError(f"key {k!r} twice")
        out[k] = v
    return out


def read_json(text):
    return json.loads(text, object_pairs_hook=pairs)


def read_text(text):
    """The tree of the human readable form, or ValueError."""
    lines = text.split("\n")
    if text.splitlines() != lines[:-1]:
        raise ValueError("other line breaks than line feeds")
    if not lines or lines[0] != "Windows Shortcut Information:":
        raise ValueError(f"first line is {lines[0]!r}")
    body = []
    for line in lines[1:]:
        if line and not line.startswith("   "):
            raise ValueError(f"line outside of the report: {line!r}")
        body.append(line[3:])
    try:
        doc = yaml.load("\n".join(body), StrictLoader)
    except yaml.YAMLError as e:
        raise ValueError("not readable: " + str(e)[:300]) from None
    if not isinstance(doc, dict):
        raise ValueError("no mapping")
    return doc


def nice(key, top=False):
    if key.startswith("r_"):
        key = key[2:]
    if top or key == key.upper():
        return key.upper().replace("_", " ")
    return key[:1].upper() + key[1:].lower().replace("_", " ")


def _nice(x, top=False):
    if isinstance(x, dict):
        if "class" in x:
            return {x["class"]: _nice({k: v for k, v in x.items() if k != "class"})}
        return {nice(k, top): _nice(v) for k, v in x.items()}
    if isinstance(x, list):
        return [_nice(v) for v in x]
    return x


def expected_text(doc):
    """The tree which the human readable form of a report has to have."""
    head = dict(doc["header"])
    head.pop("r_hotkey", None)
    for names, raw in (("link_flags", "r_link_flags"), ("file_flags", "r_file_flags")):
        value = head.pop(raw)
        text = " | ".join(head[names])
        head[names] = text + (f" - ({value})" if value else f"({value})")
    out = {nice(k): _nice(v) for k, v in head.items()}
    rest = {k: v for k, v in doc.items() if k != "header"}
    out.update(_nice(rest, True))
    return out


def text_differs(exp, got, path=""):
    if isinstance(exp, dict) and isinstance(got, dict):
        if set(exp) != set(got):
            return f"{path}: expected keys {sorted(map(str, exp))}, got {sorted(map(str, got))}"
        for k in exp:
            d = text_differs(exp[k], got[k], f"{path}/{k}")
            if d:
                return d
        return None
    if isinstance(exp, list) and isinstance(got, list):
        if len(exp) != len(got):
            return f"{path}: expected {len(exp)} entries, got {len(got)}"
        for i, (a, b) in enumerate(zip(exp, got)):
            d = text_differs(a, b, f"{path}[{i}]")
            if d:
                return d
        return None
    if isinstance(exp, str) and isinstance(got, str):
        if exp == got:
            return None
        return f"{path}: expected {core.short(exp)}, got {core.short(got)}"
    if isinstance(exp, datetime.datetime) and isinstance(got, datetime.datetime):
        if got.tzinfo is not None and exp == got:
            return None
    elif type(exp) is type(got) and exp == got:
        return None
    return f"{path}: expected {core.short(exp)}, got {core.short(got)}"


def expected_json(x):
    """What the JSON form of a report has to be."""
    if isinstance(x, dict):
        return {k: expected_json(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [expected_json(v) for v in x]
    if isinstance(x, datetime.datetime):
        return x.replace(microsecond=0).isoformat()
    return x
