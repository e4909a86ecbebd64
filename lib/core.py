"""Loading the code under test, watching it, judging, evidence."""

import base64
import collections
import contextlib
import copy
import datetime
import hashlib
import importlib
import io
import itertools
import json
import os
import pickle
import resource
import signal
import sys
import tempfile
import time
import traceback
import warnings

from lib import directed
from lib import wire as w

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
SAMPLES = os.path.join(REPO, "tests", "samples")


class Hang(BaseException):
    pass


def load():
    """Import LnkParse3 from the current tree, without reading or leaving any byte code."""
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), "verif-no-pycache-%d" % os.getpid())
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    mod = importlib.import_module("LnkParse3")
    where = os.path.realpath(mod.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError("LnkParse3 is imported from " + where)
    return mod


def limit_memory(gib=6):
    resource.setrlimit(resource.RLIMIT_AS, (gib << 30, gib << 30))


@contextlib.contextmanager
def watchdog(seconds):
    """Raise Hang in the code under test when it does not come back."""
    def ring(signum, frame):
        raise Hang("no answer in %g s" % seconds)
    old = signal.signal(signal.SIGALRM, ring)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class Obs:
    """What an execution of the parser showed."""

    __slots__ = ("lnk", "exc", "stage", "warnings", "json_all", "json", "text_all", "text",
                 "pjson_all", "pjson", "target", "jtarget", "size", "trace")

    def __init__(self):
        for s in self.__slots__:
            setattr(self, s, None)
        self.warnings = []

    def problem(self):
        return f"{self.stage}: {type(self.exc).__name__}: {self.exc}"


STAGES = ("json_all", "json", "pjson_all", "pjson", "text_all", "text", "target", "jtarget")


def _capture(call):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        call()
    return out.getvalue()


def observe(mod, data, stages=("json_all",), timeout=30, source="indata", **kw):
    """Run the real parser on `data`, recording results, warnings and whatever it raises."""
    o = Obs()
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        o.stage = "parse"
        try:
            with watchdog(timeout):
                if source == "fhandle":
                    lnk = mod.lnk_file(fhandle=io.BytesIO(data), **kw)
                else:
                    lnk = mod.lnk_file(indata=data, **kw)
                o.lnk = lnk
                o.size = lnk.size
                for s in stages:
                    o.stage = s
                    if s == "json_all":
                        o.json_all = lnk.get_json(True)
                    elif s == "json":
                        o.json = lnk.get_json()
                    elif s == "pjson_all":
                        o.pjson_all = _capture(lambda: lnk.print_json(True))
                    elif s == "pjson":
                        o.pjson = _capture(lambda: lnk.print_json())
                    elif s == "text_all":
                        o.text_all = _capture(lambda: lnk.print_lnk_file(True))
                    elif s == "text":
                        o.text = _capture(lambda: lnk.print_lnk_file())
                    elif s == "target":
                        o.target = _capture(lambda: lnk.print_shortcut_target())
                    elif s == "jtarget":
                        o.jtarget = _capture(lambda: lnk.print_shortcut_target(pjson=True))
                o.stage = None
        except (Exception, Hang) as e:
            o.exc = e
            o.trace = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-4:])
    o.warnings = [(c.category.__name__, str(c.message)) for c in caught]
    return o


# ---------------------------------------------------------------- comparing

MISSING = type("Missing", (), {"__repr__": lambda self: "nothing"})()
KNOWN_SEEN = collections.Counter()


def differs(exp, got, path=""):
    """None when `got` is what was expected, else where and how it is not."""
    if isinstance(exp, w.Any):
        return None
    if isinstance(exp, w.OneOf):
        if any(differs(v, got, path) is None for v in exp.values):
            return None
        return f"{path}: expected one of {exp.values!r}, got {got!r}"
    if isinstance(exp, w.Near):
        if (isinstance(got, datetime.datetime) and got.tzinfo is not None
                and abs(got - exp.value) <= datetime.timedelta(microseconds=1)):
            return None
        return f"{path}: expected {exp.value!r}, got {got!r}"
    if isinstance(exp, w.Provider):
        if got is MISSING:
            got = None
        if got == exp.name:
            return None
        if got == exp.pinned:
            KNOWN_SEEN["provider-table"] += 1
            return None
        return f"{path}: expected {exp!r}, got {got!r}"
    if isinstance(exp, dict):
        if not isinstance(got, dict):
            return f"{path}: expected {short(exp)}, got {short(got)}"
        for k in exp:
            if isinstance(exp[k], w.Provider):
                d = differs(exp[k], got.get(k, MISSING), f"{path}/{k}")
                if d:
                    return d
                continue
            want = exp[k]
            if isinstance(want, w.Maybe):
                if k not in got:
                    continue
                want = want.value
            if k not in got:
                return f"{path}/{k}: missing (expected {short(want)})"
            d = differs(want, got[k], f"{path}/{k}")
            if d:
                return d
        for k in got:
            if k not in exp and not isinstance(exp, w.Loose):
                return f"{path}/{k}: not in the file, reported as {short(got[k])}"
        return None
    if isinstance(exp, (list, tuple)):
        if not isinstance(got, (list, tuple)):
            return f"{path}: expected a list, got {short(got)}"
        for i, (a, b) in enumerate(zip(exp, got)):
            d = differs(a, b, f"{path}[{i}]")
            if d:
                return d
        if len(exp) != len(got) and not (isinstance(exp, w.Open) and len(got) > len(exp)):
            return f"{path}: expected {len(exp)} entries, got {len(got)}"
        return None
    if exp is None or got is None or isinstance(exp, bool) != isinstance(got, bool):
        return None if exp is got else f"{path}: expected {short(exp)}, got {short(got)}"
    if type(exp) is not type(got) and not (isinstance(exp, int) and isinstance(got, int)):
        return f"{path}: expected {short(exp)}, got {short(got)} ({type(got).__name__})"
    if exp != got:
        return f"{path}: expected {short(exp)}, got {short(got)}"
    return None


def short(x, n=160):
    s = repr(x)
    return s if len(s) <= n else s[: n - 20] + "..." + s[-15:]


def leaves(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from leaves(v, path + (k,))
    elif isinstance(x, (list, tuple)):
        for i, v in enumerate(x):
            yield from leaves(v, path + (i,))
    else:
        yield path, x


def count_leaves(x):
    return sum(1 for _ in leaves(x))


# ---------------------------------------------------------------- the check runner

class Recorder:
    """Counts what the monitors observed and collects violations of one property."""

    def __init__(self, prop, tier, seed, only=None):
        self.prop, self.tier, self.seed, self.only = prop, tier, seed, only
        self.t0 = time.monotonic()
        self.evaluations = 0
        self.distinct = set()
        self.counts = collections.Counter()
        self.sets = collections.defaultdict(set)
        self.samples = []
        self.violations = []
        self.known = collections.Counter()
        self.notes = []
        self.case = None
        self.rule = ""
        self.assumptions = []
        self.maxima = {}

    def maximum(self, kind, value):
        if value > self.maxima.get(kind, float("-inf")):
            self.maxima[kind] = value

    def seen(self, kind, n=1):
        self.counts[kind] += n

    def state(self, kind, value):
        self.sets[kind].add(value)

    def ok(self, key, sample=None):
        """One execution was judged; `key` identifies what was non-trivially exercised."""
        self.evaluations += 1
        if key is not None:
            if isinstance(key, (bytes, bytearray)):
                key = hashlib.blake2b(key, digest_size=8).digest()
            self.distinct.add(key)
        if sample is not None and len(self.samples) < 8:
            self.samples.append(sample)

    def violation(self, what, data=None, kw=None, **more):
        v = {"property": self.prop, "case": self.case, "what": what, "tier": self.tier,
             "seed": self.seed}
        if data is not None:
            v["data_b64"] = base64.b64encode(bytes(data)).decode()
            v["data_len"] = len(data)
        if kw:
            v["kwargs"] = {k: repr(x) for k, x in kw.items()}
        v.update(more)
        self.violations.append(v)

    def known_finding(self, fid):
        self.known[fid] += 1


def known_findings(prop):
    """Entries `known: property=<id> id=<finding id> <text>` of the known-findings file."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    with open(path, encoding="utf-8") as f:
        for line in f:
            line = line.strip()
            if line.startswith("known: "):
                parts = line.split(" ", 3)
                if parts[1] == "property=" + prop and parts[2].startswith("id="):
                    out[parts[2][3:]] = parts[3]
    return out


MAX_VIOLATIONS = 5


def run_cases(check, rec, deadline, part=0, parts=1):
    stopped = None
    both = itertools.chain(directed.cases(check, rec.tier, rec.seed), check.cases(rec.tier, rec.seed))
    for n, (case_id, fn) in enumerate(both):
        if rec.only is not None and case_id != rec.only:
            continue
        if n % parts != part and rec.only is None:
            continue
        rec.case = case_id
        rec.seen("cases")
        fn(rec)
        if len(rec.violations) >= MAX_VIOLATIONS:
            stopped = "violations"
            break
        if time.monotonic() > deadline:
            stopped = "time"
            break
    for kind, n in directed.SEEN.items():
        rec.seen(kind, n)
    return stopped


def run_parallel(check, rec, deadline, parts):
    """The same cases, dealt out to forked workers; what they observed is merged."""
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % rec.prop)
    pids, stopped = [], None
    sys.stdout.flush()
    try:
        for k in range(parts):
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    end = run_cases(check, rec, deadline, k, parts)
                    with open(os.path.join(tmp, str(k)), "wb") as f:
                        pickle.dump((rec.__dict__, end), f)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stderr.flush()
                    os._exit(code)
            pids.append(pid)
        for pid in pids:
            os.waitpid(pid, 0)
        for k in range(parts):
            try:
                with open(os.path.join(tmp, str(k)), "rb") as f:
                    d, end = pickle.load(f)
            except (OSError, EOFError, pickle.UnpicklingError):
                raise RuntimeError("a worker of the check died") from None
            stopped = stopped or end
            rec.evaluations += d["evaluations"]
            rec.distinct |= d["distinct"]
            rec.counts.update(d["counts"])
            for kind, vals in d["sets"].items():
                rec.sets[kind] |= vals
            rec.samples = (rec.samples + d["samples"])[:8]
            rec.violations += d["violations"]
            rec.known.update(d["known"])
            rec.notes += [x for x in d["notes"] if x not in rec.notes]
            for kind, v in d["maxima"].items():
                rec.maximum(kind, v)
        rec.violations = rec.violations[:MAX_VIOLATIONS]
    finally:
        for name in os.listdir(tmp):
            os.unlink(os.path.join(tmp, name))
        os.rmdir(tmp)
    return stopped


def evidence(rec, stopped, inconclusive):
    cov = {
        "evaluations": rec.evaluations,
        "distinct_nontrivial": len(rec.distinct),
        "rule": rec.rule,
        "samples": rec.samples or ["(none)"],
        "monitor_events": dict(sorted(rec.counts.items())),
        "distinct_states": {k: len(v) for k, v in sorted(rec.sets.items())},
        "maxima": {k: round(v, 4) for k, v in sorted(rec.maxima.items())},
        "known_findings_seen": dict(rec.known),
        "stopped_early": stopped,
        "inconclusive": inconclusive,
        "constants_new_in_the_code": [len(x) for x in directed.novel()],
    }
    if rec.notes:
        cov["notes"] = rec.notes
    ev = {
        "property": rec.prop, "tier": rec.tier, "seed": rec.seed, "level": "exploration",
        "coverage": cov, "assumptions": rec.assumptions,
        "wall_s": round(time.monotonic() - rec.t0, 3), "violations": len(rec.violations),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, rec.prop + ".json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")


def write_replay(v, n):
    d = os.path.join(EVIDENCE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{v['property']}-{n}.json")
    with open(path, "w", encoding="utf-8") as f:
        json.dump(v, f, indent=1, default=str, ensure_ascii=True)
        f.write("\n")
    return path
