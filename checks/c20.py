"""C20: the command line tool shows what the library reports."""

import contextlib
import importlib
import io
import itertools
import json
import os
import subprocess
import sys
import tempfile
import warnings

import yaml

from lib import core, gen, judge, render
from lib import wire as w

RULE = ("every combination of the options (short, long, joined, before and behind the file) on "
        "samples, random and damaged links, run through main() and through the interpreter as a "
        "process; stdout byte for byte against the library's reports of the same bytes, JSON "
        "against get_json(); errors: exit codes, nothing on stdout; non-trivial = new (file, options)")
ASSUMPTIONS = ["the plain form of the command needs an output which has its characters: the tool may fail "
               "otherwise, but not print another command"]
MUST_SEE = {"main() runs": 1500, "processes": 40, "option sets": 16, "errors": 20, "code pages": 12, "file names": 30, "full outputs": 10,
            "runs on odd names": 450, "spellings": 40, "narrow outputs": 250, "escaped outputs": 40}


def main(args, out=None):
    """(exit code, stdout, stderr, exception) of the tool in this process."""
    given, out, err = out, out or io.StringIO(), io.StringIO()
    argv = sys.argv
    sys.argv = ["lnkparse"] + args
    code, exc = 0, None
    try:
        with warnings.catch_warnings(record=True), contextlib.redirect_stdout(out), \
                contextlib.redirect_stderr(err):
            warnings.simplefilter("always")
            try:
                r = importlib.import_module("LnkParse3.lnk_file").main()
                code = 0 if r is None else r
            except SystemExit as e:
                code = e.code
            except Exception as e:
                code, exc = 1, e
    finally:
        sys.argv = argv
    return code, None if given else out.getvalue(), err.getvalue(), exc


def expected(data, target, js, everything, cp):
    stage = {(0, 0): "text", (0, 1): "pjson"}.get((target, js))
    if target:
        stage = "jtarget" if js else "target"
    elif everything:
        stage += "_all"
    o = core.observe(MOD, data, (stage, "json_all" if everything else "json"), cp=cp or "cp1252")
    return o, None if o.exc else getattr(o, stage)


def options(r, target, js, everything, cp):
    """The options in some spelling, with the place of the file."""
    short, out = "", []
    for on, s, l in ((target, "t", "--target"), (js, "j", "--json"), (everything, "a", "--all")):
        if on:
            k = r.random()
            if k < 0.4:
                short += s
            elif k < 0.7:
                out.append("-" + s)
            else:
                out.append(l)
    if cp:
        out.append(r.choice([["-c", cp], ["--codepage", cp], ["--codepage=" + cp], ["-c" + cp]]))
    if short:
        out.append("-" + "".join(r.sample(short, len(short))))
    r.shuffle(out)
    return [x for o in out for x in (o if isinstance(o, list) else [o])]


# The names a code page may be asked for by; the last ones are none.
SPELLINGS = ["CP1252", "windows-1252", "Windows-1251", "1250", "latin1", "L1", "ISO-8859-1", "iso8859_15", "iso 8859 2",
             "UTF8", "utf_8", "U8", "utf-8-sig", "cp65001", "SJIS", "ms932", "shift-jis", "gb2312", "GBK", "936", "euc_kr",
             "ks_c-5601-1987", "koi8_u", "mac-roman", "IBM437", "437", "cp037", "IBM500", "ascii", "us-ascii", "646", "big5hkscs",
             "hz", "utf-7", "iso2022_jp", "cp_1252", "cp-1252", "CP437 ", " cp437", "no-such", "0", "cp99999", "rot13", "hex",
             "undefined"]

NAMES = ["x.lnk", "a b.lnk", "žluť.lnk", "%s.lnk", "no extension", "'q\".lnk", "日本.lnk", " a.lnk", "a.lnk ", '"q"',
         "'q'", "x.LNK", "a\n", "\ta", ".lnk", "~", "~root", "$HOME", "%TEMP%", "${PATH}", "*", "?.lnk", "[a].lnk", "a=b",
         "@x", "+j", "{}", "cp1252", "null", "con", "a:b", "file:x", "http:", "a\\b", "x.lnk.zip", "x.gz", "e\u0301",
         "\u00e9", "\udcff\udc80", "-j", "--all", "--json", "-x", "x" * 250, "-", "--", "stdin", "0", "None", "nul", "..lnk", "a..b", "\x1b[1m", "a\rb"]


def place(r, d, data, name=None):
    path = os.path.join(d, name or r.choice(NAMES))
    with open(path, "wb") as f:
        f.write(data)
    return path


def with_file(r, opts, path):
    if os.path.basename(path) == path and path.startswith("-") and r.random() < 0.5:
        return opts + ["--", path]
    if path != "-" and path.startswith("-"):
        path = "./" + path
    i = r.choice([0, len(opts)])
    return opts[:i] + [path] + opts[i:]


@contextlib.contextmanager
def inside(d):
    """Names are often relative ones."""
    here = os.getcwd()
    os.chdir(d)
    try:
        yield
    finally:
        os.chdir(here)


def one(rec, r, data, t, j, a, cp, by, name=None):
    with tempfile.TemporaryDirectory() as d:
        path = place(r, d, data, name)
        rec.state("file names", os.path.basename(path))
        arg = r.choice([path, os.path.basename(path), os.path.join("..", os.path.basename(d), os.path.basename(path))])
        args = with_file(r, options(r, t, j, a, cp), arg)
        if by == "main":
            with inside(d):
                code, out, err, exc = main(args)
            rec.seen("main() runs")
        else:
            p = process(args, r, cwd=d)
            code, out, err, exc = p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace"), None
            rec.seen("processes")
    rec.state("option sets", (t, j, a, bool(cp)))
    rec.state("code pages", cp)
    rec.ok((data, t, j, a, cp), {"arguments": args[:-1] if args[-1] == path else args, "bytes": len(data), "lines": out.count("\n")}
           if rec.evaluations % 211 == 0 else None)
    o, want = expected(data, t, j, a, cp)
    if o.exc is not None:
        if code == 0 or out:
            rec.violation(f"{args}: the library raises {o.problem()}, the tool exits with {code} and "
                          f"prints {core.short(out)}", data, {"cp": cp})
        return
    if code:
        rec.violation(f"{args}: exits with {code}: {exc!r} {err[-500:]}", data, {"cp": cp})
        return
    if out != want:
        i = next((i for i, (x, y) in enumerate(zip(out, want)) if x != y), min(len(out), len(want)))
        rec.violation(f"{args}: prints {core.short(out[max(0, i - 60):])}, the library {core.short(want[max(0, i - 60):])}",
                      data, {"cp": cp})
        return
    if j and not t:  # and not only the same mistake twice
        doc = render.expected_json(o.json_all if a else o.json)
        got = json.loads(out)
        diff = core.differs(doc, got)
        if diff:
            rec.violation(f"{args}: JSON output: {diff}", data, {"cp": cp})
    elif t:
        if (json.loads(out) if j else out) != ({"shortcut_target": o.lnk.lnk_command} if j else o.lnk.lnk_command + "\n"):
            rec.violation(f"{args}: prints {core.short(out)}, the command is {o.lnk.lnk_command!r}", data, {"cp": cp})
    elif not out.startswith("Windows Shortcut Information:\n"):
        rec.violation(f"{args}: prints no report: {core.short(out)}", data, {"cp": cp})


def process(args, r, env_more={}, **kw):
    env = {"PATH": os.environ.get("PATH", ""), "PYTHONPATH": core.REPO, "PYTHONDONTWRITEBYTECODE": "1",
           "LC_ALL": r.choice(["C.UTF-8", "C"]), "TZ": r.choice(["UTC", "Asia/Tokyo", "America/New_York"]),
           "COLUMNS": r.choice(["20", "200"]), "PYTHONUTF8": "1", **env_more}
    mode = r.choice([["-m", "LnkParse3.lnk_file"], ["-c", "from LnkParse3.lnk_file import main; main()"]])
    return subprocess.run([sys.executable, "-B"] + mode + args, env=env, stdin=subprocess.DEVNULL,
                          capture_output=True, timeout=60, **{"cwd": "/", **kw})


def fails(rec, what, args, code, out):
    rec.seen("errors")
    rec.ok(("error", what, tuple(args)))
    if code == 0 or code is None:
        rec.violation(f"{what}: {args} exits with {code}")
    elif out:
        rec.violation(f"{what}: {args} prints {core.short(out)}")


def errors(rec, by):
    r = gen.rng_for("C20", rec.seed, "errors", by)
    link = gen.link(r).data
    with tempfile.TemporaryDirectory() as d:
        def path(name, data):
            p = os.path.join(d, name)
            with open(p, "wb") as f:
                f.write(data)
            return p
        good = path("good", link)
        for what, args in (
            ("no file", [os.path.join(d, "missing")]), ("a directory", [d]), ("an empty file", [path("empty", b"")]),
            ("a short file", [path("short", link[:75])]), ("one byte", [path("one", b"L")]), ("no argument", []),
            ("two files", [good, good]), ("an unknown option", ["--frobnicate", good]), ("-x", ["-x", good]),
            ("no code page", [good, "-c"]), ("only options", ["-j", "-a"]), ("no file, JSON", ["-j", os.path.join(d, "m")]),
            ("short, JSON", ["-j", path("short2", b"\0" * 20)]), ("short, target", ["-t", path("short3", b"\0" * 20)]),
        ):
            if by == "main":
                code, out, err, exc = main(args)
            else:
                p = process(args, r)
                code, out, err = p.returncode, p.stdout.decode(), p.stderr.decode()
            fails(rec, what, args, code, out)
            if not err and by != "main":
                rec.violation(f"{what}: {args} fails without a word")


def full(rec, k):
    """An output nobody took is no success."""
    r = gen.rng_for("C20", rec.seed, "full", k)
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "x.lnk")
        with open(path, "wb") as f:
            f.write(gen.link(r).data)
        for opts in ([], ["-j"], ["-a"], ["-t"], ["-t", "-j"]):
            env = {"PATH": os.environ.get("PATH", ""), "PYTHONPATH": core.REPO, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONUTF8": "1"}
            if k % 2:
                env["PYTHONUNBUFFERED"] = "1"
            with open("/dev/full", "wb") as sink:
                p = subprocess.run([sys.executable, "-B", "-c", "from LnkParse3.lnk_file import main; main()", path] + opts,
                                   env=env, stdin=subprocess.DEVNULL, stdout=sink, stderr=subprocess.PIPE, timeout=60)
            rec.seen("full outputs")
            rec.ok(("full", k, tuple(opts)))
            if p.returncode == 0:
                rec.violation(f"{opts}: exits with 0 though nothing could be written")


ENCODINGS = ["ascii", "cp1252", "cp437", "cp932", "koi8-r", "latin-1", "utf-16", "utf-8", "utf-8-sig", "gb18030", "shift_jis"]


def narrow(rec, k):
    """Outputs which do not have all characters: nothing is lost, nothing is changed."""
    r = gen.rng_for("C20", rec.seed, "narrow", k)
    for n in range(12):
        kw = {"cp": r.choice(["cp1252", "cp932", "cp1251"])}
        data = gen.link(r, **kw).data if n % 4 else w.build(strings={
            "relative_path": w.string_data("relative_path", r.choice(["a", "é", "日本", "a \U0001f600", "ž\u2028x", "\x85"]), True, "cp1252"),
            "command_line_arguments": w.string_data("command_line_arguments", r.choice(["-x", "é: 1", "я # б"]), True, "cp1252")}).data
        with tempfile.TemporaryDirectory() as d:
            path = place(r, d, data)
            for t, j in ((False, False), (False, True), (True, False), (True, True)):
                a, enc = r.random() < 0.5, r.choice(ENCODINGS)
                errors = r.choice(["strict", "strict", "strict", "replace", "backslashreplace"])
                narrow_one(rec, r, data, path, t, j, a, kw["cp"], enc, errors, n == 0)


def narrow_one(rec, r, data, path, t, j, a, cp, enc, errors, as_process):
    o, want = expected(data, t, j, a, cp)
    if o.exc is not None:
        return
    args = [path] + options(r, t, j, a, cp)
    if as_process:
        if os.path.basename(path) == path:
            return
        p = process(args, r, env_more={"PYTHONUTF8": "0", "PYTHONIOENCODING": f"{enc}:{errors}"})
        code, raw, exc = p.returncode, p.stdout, p.stderr.decode("utf-8", "replace")[-300:]
        rec.seen("processes")
    else:
        sink = io.BytesIO()
        out = io.TextIOWrapper(sink, enc, errors, newline="\n")
        code, _, _, exc = main(args, out)
        with contextlib.suppress(ValueError):
            out.flush()
        raw = sink.getvalue()
        rec.seen("main() runs")
    what = f"{args[1:]} with an output in {enc} ({errors})"
    rec.seen("narrow outputs")
    rec.ok(("narrow", data, t, j, a, cp, enc, errors, as_process))
    try:
        fits = want.encode(enc, errors)
    except UnicodeEncodeError:
        fits = None
    if t and not j and fits is None:
        if code == 0:
            rec.violation(f"{what}: exits with 0, prints {core.short(raw)}", data, {"cp": cp})
        return
    if code:
        rec.violation(f"{what}: exits with {code}: {exc!r}", data, {"cp": cp})
    elif fits is not None:
        if raw.decode(enc, "replace") != fits.decode(enc, "replace"):
            rec.violation(f"{what}: prints {core.short(raw)}, the library {core.short(want)}", data, {"cp": cp})
    else:
        rec.seen("escaped outputs")
        got = raw.decode(enc)
        head = "Windows Shortcut Information:\n"
        if not got.startswith(head) or read_back(got[len(head):]) != read_back(want[len(head):]):
            rec.violation(f"{what}: prints {core.short(got)}, which does not read as {core.short(want)}", data, {"cp": cp})


def read_back(text):
    return yaml.load(text, yaml.BaseLoader)


def help_(rec):
    code, out, err, exc = main(["-h"])
    rec.ok("help")
    if code != 0 or not all(x in out for x in ("--target", "--json", "--codepage", "--all", "FILE")):
        rec.violation(f"-h: exits with {code}, prints {core.short(out)}")


DIRECTED = {"cps": ["cp1252", "cp932", "utf-8"]}


def link(rec, r, b, cp):
    t, j, a = (r.random() < 0.4 for _ in range(3))
    one(rec, r, b.data, t, j, a, cp, "main")


def cases(tier, seed):
    quick = tier == "quick"
    fd = os.open(os.devnull, os.O_RDONLY)  # main() must not wait for anything which it does not read
    os.dup2(fd, 0)
    os.close(fd)
    yield "help", help_
    yield "errors-main", lambda rec: errors(rec, "main")
    for k in range(20 if quick else 300):
        yield f"narrow{k}", lambda rec, k=k: narrow(rec, k)
    for k in range(2):
        yield f"full{k}", lambda rec, k=k: full(rec, k)
    yield "errors-process", lambda rec: errors(rec, "process")
    combos = list(itertools.product((0, 1), repeat=3))
    samples = judge.load_samples()
    for name, data in samples.items():
        for t, j, a in combos:
            def sample(rec, n=name, d=data, o=(t, j, a)):
                r = gen.rng_for("C20", seed, n, *o)
                one(rec, r, d, *o, r.choice([None, None, "cp1251", "utf-8"]), "main")
            yield f"{name}-{t}{j}{a}", sample
    for cp in gen.CODEPAGES:  # a text whose bytes mean something else in every code page
        for t, j, a in combos:
            def local(rec, cp=cp, o=(t, j, a)):
                r = gen.rng_for("C20", seed, "local", cp, *o)
                raw = bytes([0xC0, 0xE1, 0xB0, 0xA1, 0xD5, 0xE9]) + b"x"
                s = {k: w.string_data(k, raw, False, cp) for k in ("relative_path", "command_line_arguments", "description")}
                data = w.build(items=[w.item_file(0x32, 1, 0x21, 0, 0, raw, cp)], strings=s,
                               blocks=[w.block_environment(raw, "u", cp)], unicode_=False).data
                one(rec, r, data, *o, cp, "main")
                one(rec, r, data, *o, None, "main")
            yield f"local-{cp}-{t}{j}{a}", local
    def spelled(rec, k):
        r = gen.rng_for("C20", seed, "spelled", k)
        for cp in r.sample(SPELLINGS, 12):
            raw = bytes(r.choice([0xC0, 0xE1, 0xB0, 0xA1, 0xD5, 0xE9, 0x80, 0x5C, 0x7E]) for _ in range(r.randrange(1, 7)))
            s = {k: w.string_data(k, raw, False, "latin-1") for k in ("relative_path", "command_line_arguments", "description")}
            data = w.build(items=[w.item_file(0x32, 1, 0x21, 0, 0, raw, "latin-1")], strings=s,
                           blocks=[w.block_environment(raw, "u", "latin-1")], unicode_=False).data
            rec.state("spellings", cp)
            one(rec, r, data, *r.choice(combos), cp, "main")
    for k in range(25 if quick else 600):
        yield f"spelled{k}", lambda rec, k=k: spelled(rec, k)
    for i in range(1600 if quick else 40000):
        def rand(rec, i=i):
            r = gen.rng_for("C20", seed, i)
            cp = r.choice([None, None, r.choice(gen.CODEPAGES)])
            data = gen.link(r, cp or "cp1252", maxlen=40)
            data = gen.mutate(r, data) if r.random() < 0.25 else data.data
            if r.random() < 0.05:
                data = gen.rbytes(r, r.randrange(200))
            one(rec, r, data, *r.choice(combos), cp, "main")
        yield f"random{i}", rand
    for k, name in enumerate(NAMES):
        def named(rec, k=k, name=name):
            r = gen.rng_for("C20", seed, "named", k)
            for by in ["main"] * 8 + ["process"] * (1 if quick else 8):
                data = gen.link(r, "cp1252", maxlen=10).data
                one(rec, r, data, *r.choice(combos), None, by, name)
                rec.seen("runs on odd names")
        yield f"named{k}", named
    names = list(samples)
    for i in range(48 if quick else 1500):
        def proc(rec, i=i):
            r = gen.rng_for("C20", seed, "p", i)
            cp = r.choice([None, r.choice(gen.CODEPAGES)])
            data = samples[r.choice(names)] if i % 3 == 0 else gen.link(r, cp or "cp1252", maxlen=40).data
            one(rec, r, data, *combos[i % 8], cp, "process")
        yield f"process{i}", proc


PARALLEL = True
