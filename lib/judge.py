"""Shared oracles."""

import base64
import os

from lib import core, gen
from lib import wire as w


def kwargs(cp=None, allow=True):
    kw = {}
    if cp is not None:
        kw["cp"] = cp
    if not allow:
        kw["allow_terminal_blocks"] = False
    return kw


def section(doc, path):
    for k in path:
        if not isinstance(doc, dict) or k not in doc:
            return core.MISSING
        doc = doc[k]
    return doc


def conform(rec, mod, built, paths, cp=None, key=None, sample=None, extra_stages=()):
    """One execution against the reference model: everything below `paths` has to be reported
    exactly.  Returns the observation, or None when it was a violation."""
    kw = kwargs(cp, built.allow)
    o = core.observe(mod, built.data, ("json_all",) + tuple(extra_stages), **kw)
    if o.exc is not None:
        rec.violation(o.problem(), built.data, kw, trace=o.trace)
        return None
    fine = True
    for path in paths:
        exp, got = section(built.exp, path), section(o.json_all, path)
        if exp is core.MISSING and got is core.MISSING:
            continue
        if exp is core.MISSING:
            rec.violation("/".join(path) + ": not in the file, reported as " + core.short(got),
                          built.data, kw)
            fine = False
            break
        if got is core.MISSING:
            rec.violation("/".join(path) + ": missing, expected " + core.short(exp),
                          built.data, kw)
            fine = False
            break
        d = core.differs(exp, got, "/".join(path))
        rec.seen("values compared", core.count_leaves(exp))
        if d:
            rec.violation(d, built.data, kw)
            fine = False
            break
    rec.seen("warnings recorded", len(o.warnings))
    rec.ok(built.data if key is None else key, sample)
    return o if fine else None


def load_samples():
    out = {}
    for name in sorted(os.listdir(core.SAMPLES)):
        with open(os.path.join(core.SAMPLES, name), "rb") as f:
            raw = f.read()
        try:
            out[name] = base64.b64decode(raw, validate=False)
        except ValueError:
            continue
    return out


def describe(built):
    """A short account of a generated shell link, for the evidence."""
    return {
        "bytes": len(built.data), "link_flags": hex(built.flags),
        "parts": [(lab if part is None else part.kind) for lab, part, _, _ in built.regions],
        "head": built.data[:96].hex(),
    }
