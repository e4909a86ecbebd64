"""C19: the shortcut command."""

import json

from lib import core, gen, judge
from lib import wire as w

RULE = ("links with every combination of relative path and arguments (blanks, tabs, quotes, runs of "
        "backslashes, quotes behind backslashes, empty, long, Unicode, code pages), parsed back with "
        "an own implementation of the Windows rules for command lines; plain and JSON form; links "
        "with other parts around, damaged and cut ones; non-trivial = new (path, arguments)")
ASSUMPTIONS = ["the command is the relative path as one argument, a blank, the arguments as stored"]
MUST_SEE = {"commands": 3000, "combinations": 5, "quoted paths": 800, "cut files": 100}


def split_first(cmd):
    """(first argument, the rest) by the rules of the Microsoft C run time."""
    i, n = 0, len(cmd)
    arg, quoted = "", False
    while i < n:
        c = cmd[i]
        if c in " \t" and not quoted:
            break
        if c == "\\":
            j = i
            while j < n and cmd[j] == "\\":
                j += 1
            k = j - i
            if j < n and cmd[j] == '"':
                arg += "\\" * (k // 2)
                if k % 2:
                    arg += '"'
                    i = j + 1
                else:
                    i = j
            else:
                arg += "\\" * k
                i = j
            continue
        if c == '"':
            if quoted and i + 1 < n and cmd[i + 1] == '"':
                arg += '"'
                i += 2
                continue
            quoted = not quoted
            i += 1
            continue
        arg += c
        i += 1
    return arg, cmd[i:], quoted


def judge_command(rec, cmd, path, args):
    """None or what is wrong."""
    if path is None and args is None:
        return None if cmd == "" else f"there is nothing to run, reported {cmd!r}"
    if path is None:
        return None if cmd == args else f"arguments {args!r} reported as {cmd!r}"
    first, rest, quoted = split_first(cmd)
    if '"' in cmd:
        rec.seen("quoted paths")
    if quoted:
        return f"quotes of {cmd!r} do not match"
    if first != path:
        return f"the path {path!r} comes back from {cmd!r} as {first!r}"
    want = "" if args is None else " " + args
    if rest != want:
        return f"what follows the path {path!r} in {cmd!r} is {rest!r}, not {want!r}"
    return None


PIECES = ["\\", "\\\\", '"', '\\"', '\\\\"', " ", "\t", "a", "b c", "..", ".\\", "'", "%x%", "^", "&", "|", "é", "日本",
          "\U0001f600", "-", "/c", "\n", "\r", "$", "`", "cmd.exe", "\u00a0", "\u3000", "\x0b", "="]


def random_text(r, top=40):
    k = r.random()
    if k < 0.05:
        return ""
    if k < 0.15:
        return gen.text(r, 60)
    return "".join(r.choice(PIECES) for _ in range(r.randrange(1, 9)))


def command(rec, r, which, cp, path=None, args=None):
    uni = cp is None
    page = cp or "cp1252"
    strings = {}
    want = {"relative_path": None, "command_line_arguments": None}
    for bit, key in ((1, "relative_path"), (2, "command_line_arguments")):
        if which & bit:
            t = (path if bit == 1 else args)
            t = random_text(r) if t is None else t
            strings[key] = w.string_data(key, t if uni else t.encode(page, "ignore"), uni, page)
            want[key] = strings[key].exp
    if which & 4:
        for key in ("description", "working_directory", "icon_location"):
            t = random_text(r)
            strings[key] = w.string_data(key, t if uni else t.encode(page, "ignore"), uni, page)
    items = [gen.item(r, page, maxlen=20)] if which & 8 else None
    info = gen.info(r, page, maxlen=20) if which & 8 else None
    blocks = [w.block_environment(b"other.exe", "other.exe", page)] if which & 8 else []
    b = w.build({}, items, info, strings, blocks, uni)
    data = b.data
    o = core.observe(MOD, data, ("target", "jtarget", "json_all"), cp=page)
    if o.exc is not None:
        rec.violation(o.problem(), data, {"cp": page}, trace=o.trace)
        return False
    cmd = o.lnk.lnk_command
    rec.seen("commands")
    rec.state("combinations", which & 7)
    rec.ok((which & 3, want["relative_path"], want["command_line_arguments"]),
           {"command": cmd[:80], **{k: v if v is None else v[:60] for k, v in want.items()}}
           if rec.counts["commands"] % 97 == 1 else None)
    d = judge_command(rec, cmd, want["relative_path"], want["command_line_arguments"])
    if d is None and o.target != cmd + "\n":
        d = f"the command is {cmd!r}, printed as {o.target!r}"
    if d is None:
        try:
            j = json.loads(o.jtarget)
        except ValueError as e:
            d = f"the JSON form is not JSON ({e}): {o.jtarget!r}"
        else:
            if j != {"shortcut_target": cmd}:
                d = f"the command is {cmd!r}, in JSON {j!r}"
    if d:
        rec.violation(d, data, {"cp": page})
        return False
    return True


def damaged(rec, r):
    """Whatever the file looks like, the command is made of the strings which are reported."""
    b = gen.link(r, maxlen=20)
    if r.random() < 0.5:
        data = b.data[: r.randrange(76, len(b.data) + 1)]
    else:
        data = gen.mutate(r, b)
    if len(data) < 76:
        return
    o = core.observe(MOD, data, ("json_all", "target", "jtarget"))
    if o.exc is not None:
        rec.violation(o.problem(), data, trace=o.trace)
        return
    rec.seen("cut files")
    rec.ok(data)
    d = o.json_all["data"]
    cmd = o.lnk.lnk_command
    bad = judge_command(rec, cmd, d.get("relative_path"), d.get("command_line_arguments"))
    if bad is None and (o.target != cmd + "\n" or json.loads(o.jtarget) != {"shortcut_target": cmd}):
        bad = f"the command {cmd!r} is printed as {o.target!r}, {o.jtarget!r}"
    if bad:
        rec.violation(bad, data)


def self_test(rec):
    """The oracle on documented examples of the Microsoft C run time."""
    for cmd, first in (('"a b c" d e', "a b c"), ('"ab\\"c" "\\\\" d', 'ab"c'), ("a\\\\\\b d\"e f\"g h", "a\\\\\\b"),
                       ('a\\\\\\"b c d', 'a\\"b'), ('a\\\\\\\\"b c" d e', "a\\\\b c")):
        if split_first(cmd)[0] != first:
            raise RuntimeError("the oracle is wrong about " + cmd)
    rec.ok("self test")


DIRECTED = {"maxlen": 200}


def link(rec, r, b, cp):
    o = core.observe(MOD, b.data, ("target", "jtarget"), cp=cp)
    if o.exc is not None:
        rec.violation(o.problem(), b.data, {"cp": cp}, trace=o.trace)
        return
    rec.seen("commands")
    rec.ok(b.data)
    d = b.exp["data"]
    cmd = o.lnk.lnk_command
    bad = judge_command(rec, cmd, d.get("relative_path"), d.get("command_line_arguments"))
    if bad is None and (o.target != cmd + "\n" or json.loads(o.jtarget) != {"shortcut_target": cmd}):
        bad = f"the command {cmd!r} is printed as {o.target!r}, {o.jtarget!r}"
    if bad:
        rec.violation(bad, b.data, {"cp": cp})


def cases(tier, seed):
    quick = tier == "quick"
    yield "self-test", self_test
    # every path of up to three (thorough: four) of the characters which matter
    alphabet = ["\\", '"', " ", "a", "\t"]
    paths = [""]
    layer = [""]
    for _ in range(3 if quick else 5):
        layer = [p + c for p in layer for c in alphabet]
        paths += layer

    def systematic(rec, part):
        r = gen.rng_for("C19", seed, "s")
        for p in part:
            for args in ("", "x", ' "q" \\', None):
                if not command(rec, r, 1 if args is None else 3, None, p, args):
                    return
    for i in range(0, len(paths), 40):
        yield f"paths{i}", lambda rec, part=paths[i : i + 40]: systematic(rec, part)
    for i in range(2500 if quick else 60000):
        def one(rec, i=i):
            r = gen.rng_for("C19", seed, i)
            command(rec, r, r.randrange(16), r.choice([None, None, "cp1252", "cp932", "utf-8", "cp1251"]))
        yield f"random{i}", one
    for i in range(400 if quick else 10000):
        yield f"damaged{i}", lambda rec, i=i: damaged(rec, gen.rng_for("C19", seed, "d", i))

    def long(rec):
        r = gen.rng_for("C19", seed, "long")
        for n in (258, 259, 260):
            for m in (259, 260, 261, 4096, 30000, 65535):
                for cp in (None, "cp1252"):
                    if not command(rec, r, 3, cp, ("ab c" * 99)[:n], ("x y" * 30000)[:m]):
                        return
    yield "long", long
