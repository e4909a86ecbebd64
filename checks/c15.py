"""C15: parsing and reporting are pure: the same file gives the same report, whatever happened."""

import copy
import hashlib
import io
import json
import os
import random
import subprocess
import sys
import threading
import time
import warnings

from lib import core, gen, judge, render
from lib import wire as w

RULE = ("histories over groups of links which share most of their bytes: repeated and interleaved "
        "reports, prints between, results scrambled by the caller, other code pages, the same data "
        "from handles; the same batch in another process in reverse order with another hash seed, "
        "time zone and directory; threads on shared and separate objects with forced switches at "
        "source lines; parsing, reports and prints interrupted at a source line, or by a warning "
        "made an error, then done again; non-trivial = new history judged against the model or a fresh process")
ASSUMPTIONS = []
MUST_SEE = {"reports judged": 1500, "scrambled results": 200, "thread switches": 2000,
            "interleavings": 15, "other process": 200, "interruptions": 250, "interrupted at": 100,
            "warnings made errors": 10}


def scramble(x, r):
    """What a caller may do with a result it got."""
    if isinstance(x, dict):
        for k in list(x):
            scramble(x[k], r)
            if r.random() < 0.5:
                x[k] = "SCRAMBLED"
            if r.random() < 0.2:
                del x[k]
        x["EXTRA KEY"] = 1
    elif isinstance(x, list):
        for v in x:
            scramble(v, r)
        x.append("SCRAMBLED")
        if r.random() < 0.5:
            x.reverse()
            x.clear()


def twins(r, cp):
    """Links of one shape: equal sizes, contents which differ in a few places."""
    k = r.random()
    if k < 0.5:
        uni = r.random() < 0.6
        n = r.randrange(1, 12)
        t = lambda: "".join(chr(r.randrange(0x61, 0x7B)) for _ in range(n))
        sort = lambda: r.choice(list(w.SORT_INDEX))
        out = []
        for _ in range(3):
            s = {key: w.string_data(key, t() if uni else t().encode(), uni, cp) for _, key in w.STRINGS}
            items = [w.item_root(sort(), gen.guid(r)), w.item_volume(0x2F, b"C:\\" + t().encode()[:8].ljust(8, b"x"), cp),
                     w.item_file(r.choice([0x31, 0x32]), gen.num(r, 4), 0x5021, r.randrange(24) << 11, 32, t().encode(), cp)]
            out.append(w.build(gen.header_fields(r), items,
                               w.link_info(cp, (w.volume_id(r.randrange(7), gen.num(r, 4), t().encode(), cp), t().encode()),
                                           None, t().encode()),
                               s, [w.block_tracker(t().encode(), [gen.guid(r) for _ in range(4)], cp),
                                   w.block_unknown(0xBEEF, t().encode()), w.block_codepage(gen.num(r, 4)),
                                   w.block_idlist(items[:r.randrange(4)])], uni,
                               tail=t().encode() * 2 if r.random() < 0.5 else b""))
        return out
    return [gen.link(gen.rng_for(r.random()), cp, maxlen=30) for _ in range(3)]


def history(rec, r):
    cp = r.choice(gen.CODEPAGES)
    group = twins(r, cp)
    alive = []
    log = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for step in range(r.randrange(12, 30)):
            k = r.random()
            if k < 0.3 or not alive:
                i = r.randrange(len(group))
                b = group[i]
                buf = bytearray(b.data)
                kw = judge.kwargs(cp, b.allow)
                if r.random() < 0.4:
                    fh = io.BytesIO(b.data)
                    lnk = MOD.lnk_file(fhandle=fh, **kw)
                    if fh.closed:
                        rec.violation("the caller's handle was closed", b.data)
                        return
                    fh.close()
                else:
                    lnk = MOD.lnk_file(indata=bytes(buf), **kw)
                alive.append((lnk, b))
                log.append(f"parse {i}")
                continue
            lnk, b = r.choice(alive)
            if k < 0.65:
                full = r.random() < 0.7
                got = lnk.get_json(full)
                d = core.differs(b.exp, got) if full else None
                if not full:
                    d = core.differs(b.exp["data"], got.get("data"), "data") or core.differs(
                        b.exp["extra"], got.get("extra"), "extra")
                rec.seen("reports judged")
                log.append(f"report {full}")
                if d:
                    rec.violation(f"after {log}: {d}", b.data, kw)
                    return
                if r.random() < 0.7:
                    scramble(got, r)
                    rec.seen("scrambled results")
                    log.append("scramble")
            elif k < 0.8:
                core._capture(r.choice([lambda: lnk.print_json(r.random() < 0.5),
                                        lambda: lnk.print_lnk_file(r.random() < 0.5),
                                        lambda: lnk.print_shortcut_target(),
                                        lambda: lnk.print_shortcut_target(pjson=True)]))
                log.append("print")
            elif k < 0.9:
                other = r.choice(gen.CODEPAGES)
                MOD.lnk_file(indata=r.choice(group).data, cp=other).get_json(True)
                log.append("other code page " + other)
            else:
                bad = gen.mutate(r, r.choice(group))
                try:
                    MOD.lnk_file(indata=bad, cp=cp).get_json(True)
                except Exception:
                    rec.seen("rejected mutants")
                log.append("mutant")
    rec.ok(hashlib.sha256(repr(log).encode() + group[0].data).digest(), {"history": log[:20]} if r.random() < 0.02 else None)


# ---- another process

def batch(seed, n):
    out = []
    corpus = list(judge.load_samples().values())
    for i in range(n):
        r = gen.rng_for("C15", seed, "batch", i)
        cp = r.choice(gen.CODEPAGES)
        data = gen.link(r, cp, maxlen=40).data
        if i % 3 == 1:
            data = gen.mutate(r, data, corpus)
        if i % 10 == 2:
            data = r.choice(corpus)
        out.append((data, cp))
    return out


def digest(mod, data, cp):
    o = core.observe(mod, data, ("json_all", "json", "pjson_all", "text_all", "target", "jtarget"), cp=cp)
    if o.exc is not None:
        return "raises " + type(o.exc).__name__
    h = hashlib.sha256()
    for x in (repr(o.json_all), repr(o.json), o.pjson_all, o.text_all, o.target, o.jtarget, repr(o.warnings)):
        h.update(x.encode("utf-8", "surrogatepass"))
    return h.hexdigest()


CHILD = """
import json, sys, time
sys.path.insert(0, {verif!r}); sys.dont_write_bytecode = True
from lib import core
from checks import c15
mod = core.load()
inputs = c15.batch({seed!r}, {n})
out = {{}}
for i in {order}:
    out[i] = c15.digest(mod, *inputs[i])
print(json.dumps(out))
"""


def processes(rec, seed, n):
    here = [digest(MOD, d, cp) for d, cp in batch(seed, n)]
    orders = ["reversed(range(%d))" % n, "sorted(range(%d), key=lambda i: (i * 7919) %% 997)" % n,
              "sorted(range(%d), key=lambda i: (i * 31) %% 251)" % n]
    envs = [{"PYTHONHASHSEED": "1234", "TZ": "America/New_York", "LC_ALL": "C", "HOME": "/", "USER": "nobody",
             "PYTHONOPTIMIZE": "1"},
            {"PYTHONHASHSEED": "random", "TZ": "Asia/Kolkata", "LANG": "cs_CZ.UTF-8", "COLUMNS": "10",
             "HOME": "/root", "PYTHONDEVMODE": "1", "TERM": "xterm", "PATH": "/nowhere"},
            {"PYTHONHASHSEED": "0", "PYTHONMALLOC": "debug", "PYTHONUTF8": "0", "PYTHONOPTIMIZE": "2",
             "LC_ALL": "POSIX", "PYTHONINTMAXSTRDIGITS": "640", "TZ": "Pacific/Kiritimati"}]
    args = ([], [], ["-bb"])
    for order, extra, cwd, arg in zip(orders, envs, ("/", "/tmp", "/usr"), args):
        env = {"PATH": os.environ.get("PATH", ""), "VERIF_REPO": core.REPO, "PYTHONIOENCODING": "utf-8"}
        env.update(extra)
        p = subprocess.run([sys.executable, "-B", *arg, "-c",
                            CHILD.format(verif=core.VERIF, seed=seed, n=n, order=order)],
                           env=env, cwd=cwd, capture_output=True, text=True, timeout=300)
        if p.returncode:
            rec.violation("the other process failed: " + p.stderr[-600:])
            return
        there = json.loads(p.stdout)
        for i, (data, cp) in enumerate(batch(seed, n)):
            rec.seen("other process")
            if here[i] != there[str(i)]:
                rec.violation(f"input {i} is reported differently in another process ({extra}): "
                              f"{here[i]} / {there[str(i)]}", data, {"cp": cp})
                return
        rec.ok(("process", seed, order))


# ---- threads

class Switcher:
    """Gives the other threads a chance at source lines of the code under test."""

    def __init__(self, seed, rate):
        self.r, self.rate = random.Random(seed), rate
        self.last, self.switches, self.trail = None, 0, []

    def line(self, code, line):
        if "LnkParse3" not in code.co_filename:
            return sys.monitoring.DISABLE
        me = threading.get_ident()
        if self.last != me:
            self.switches += 1
            if len(self.trail) < 64:
                self.trail.append((me, line))
            self.last = me
        if self.r.random() < self.rate:
            time.sleep(0)

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(4, "switcher")
        m.register_callback(4, m.events.LINE, self.line)
        m.set_events(4, m.events.LINE)
        self.old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(4, 0)
        m.register_callback(4, m.events.LINE, None)
        m.free_tool_id(4)
        m.restart_events()
        sys.setswitchinterval(self.old)


def threads(rec, r, shared):
    cp = r.choice(gen.CODEPAGES)
    group = twins(r, cp)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        objs = [MOD.lnk_file(indata=b.data, cp=cp, allow_terminal_blocks=b.allow) for b in group] if shared else None
        failures = []
        start = threading.Barrier(4)

        def work(k):
            start.wait()
            for n in range(3):
                i = (k + n) % len(group) if not shared else n % len(group)
                try:
                    lnk = objs[i] if shared else MOD.lnk_file(
                        indata=group[i].data, cp=cp, allow_terminal_blocks=group[i].allow)
                    got = lnk.get_json(True)
                except Exception as e:
                    failures.append((i, repr(e)))
                    return
                d = core.differs(group[i].exp, got)
                if d:
                    failures.append((i, d))
                    return
        with Switcher(r.random(), r.choice([0.002, 0.02, 0.1])) as s:
            ts = [threading.Thread(target=work, args=(k,)) for k in range(4)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
    rec.seen("reports judged", 12)
    rec.seen("thread switches", s.switches)
    names = {}
    rec.state("interleavings", tuple((names.setdefault(a, len(names)), b) for a, b in s.trail))
    rec.ok(("threads", tuple(s.trail[:10])))
    if failures:
        i, d = failures[0]
        rec.violation(f"with threads ({'shared objects' if shared else 'separate objects'}): {d}",
                      group[i].data, {"cp": cp})


# ---- interruptions

class Interruption(BaseException):
    """What a signal handler or a time limit raises: at any line, and no handler is meant for it."""


class Interrupter:
    """Raises at the n-th source line of the code under test which is executed."""

    def __init__(self, n):
        self.left, self.where = n, None

    def line(self, code, line):
        if "LnkParse3" not in code.co_filename:
            return sys.monitoring.DISABLE
        self.left -= 1
        if self.left == 0:
            self.where = f"{os.path.basename(code.co_filename)}:{line}"
            raise Interruption(self.where)

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(4, "interrupter")
        m.register_callback(4, m.events.LINE, self.line)
        m.set_events(4, m.events.LINE)
        self.hook, sys.unraisablehook = sys.unraisablehook, lambda x: None  # an interrupted destructor
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        sys.unraisablehook = self.hook
        m.set_events(4, 0)
        m.register_callback(4, m.events.LINE, None)
        m.free_tool_id(4)
        m.restart_events()


def interrupted(rec, r):
    """Parsing, reporting or printing cut short at some line, or by a warning made an error."""
    cp = r.choice(gen.CODEPAGES)
    group = twins(r, cp)
    log = []

    def parse(b):
        return MOD.lnk_file(indata=b.data, **judge.kwargs(cp, b.allow))

    def held(lnk, b, what):
        d = core.differs(b.exp, lnk.get_json(True))
        rec.seen("reports judged")
        if d:
            rec.violation(f"{what} after {log}: {d}", b.data, judge.kwargs(cp, b.allow))
        return not d

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        lines = {}
        for step in range(r.randrange(2, 5)):
            b = r.choice(group)
            kind, act = r.choice([("parse", lambda lnk: parse(b)), ("report", lambda lnk: lnk.get_json(True)),
                                  ("print", lambda lnk: core._capture(lambda: lnk.print_lnk_file(True))),
                                  ("dump", lambda lnk: core._capture(lambda: lnk.print_json(True))),
                                  ("target", lambda lnk: core._capture(lnk.print_shortcut_target))])
            lnk = parse(b)
            if r.random() < 0.8:
                if (kind, id(b)) not in lines:
                    fresh = parse(b)
                    with Interrupter(-1) as count:
                        act(fresh)
                    lines[kind, id(b)] = -1 - count.left
                with Interrupter(r.randrange(lines[kind, id(b)]) + 1) as stop:
                    try:
                        act(lnk)
                    except Interruption:
                        pass
                if stop.where is None:
                    continue
                rec.seen("interruptions")
                rec.state("interrupted at", stop.where)
                log.append(f"{kind} interrupted at {stop.where}")
            else:
                bad = gen.mutate(r, b)
                with warnings.catch_warnings():
                    warnings.simplefilter("error")
                    try:
                        MOD.lnk_file(indata=bad, cp=cp).get_json(True)
                    except Exception:
                        rec.seen("warnings made errors")
                        log.append("a warning was an error")
            if kind != "parse" and not held(lnk, b, "the same object"):
                return
            other = r.choice(group)
            if not held(parse(other), other, "another object"):
                return
            if not held(parse(b), b, "a new object of the same file"):
                return
    rec.ok(hashlib.sha256(repr(log).encode() + group[0].data).digest(), {"interrupted": log} if r.random() < 0.02 else None)


DIRECTED = {"maxlen": 30}


def link(rec, r, b, cp):
    """The report again and again, whatever became of the first ones."""
    kw = judge.kwargs(cp, b.allow)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        lnk = MOD.lnk_file(indata=b.data, **kw)
        for step in range(3):
            got = lnk.get_json(True)
            d = core.differs(b.exp, got)
            rec.seen("reports judged")
            if d:
                rec.violation(f"report {step} of one object: {d}", b.data, kw)
                return
            scramble(got, r)
            rec.seen("scrambled results")
            lnk.get_json()
            core._capture(lambda: lnk.print_json(True))
        other = MOD.lnk_file(indata=b.data, **kw)
        d = core.differs(b.exp, other.get_json(True))
        if d:
            rec.violation(f"report of another object: {d}", b.data, kw)
            return
    rec.ok(b.data)


def cases(tier, seed):
    for i in range(300 if tier == "quick" else 12000):
        yield f"history{i}", lambda rec, i=i: history(rec, gen.rng_for("C15", seed, i))
    for i in range(150 if tier == "quick" else 6000):
        yield f"interrupted{i}", lambda rec, i=i: interrupted(rec, gen.rng_for("C15", seed, "stop", i))
    yield "process", lambda rec: processes(rec, seed, 250)
    if tier == "thorough":
        for i in range(40):
            yield f"process{i}", lambda rec, i=i: processes(rec, f"{seed}-{i}", 600)
    for i in range(40 if tier == "quick" else 1500):
        yield f"threads{i}", lambda rec, i=i: threads(rec, gen.rng_for("C15", seed, "t", i), i % 2 == 0)
