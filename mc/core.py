"""Case bookkeeping shared by all checks.

A check module lists *cases* (JSON-able dicts, one finite sub-space each) and a
function that explores one case completely.  Every case runs in its own freshly
forked process, so a case never sees state left behind by another one and a
recorded case can be replayed alone.
"""
import hashlib
import traceback

import numpy

RTOL = 1e-9


class Violation(Exception):
    pass


class Ctx(object):
    """Counts what one case explores and compares implementation with model."""

    max_fail = 3

    def __init__(self, case):
        self.case = case
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.fails = []
        self.samples = []
        self.notes = {}

    # -- counting -----------------------------------------------------------
    def state(self, n=1):
        self.states += n

    def step(self, n=1):
        self.transitions += n

    def outcome(self, *objs):
        if len(self.outcomes) > 20000:
            return
        h = hashlib.blake2b(digest_size=8)
        for o in objs:
            _feed(h, o)
        self.outcomes.add(h.hexdigest())

    def sample(self, **kw):
        if len(self.samples) < 2:
            self.samples.append(kw)

    def note(self, key, n=1):
        self.notes[key] = self.notes.get(key, 0) + n

    # -- oracles ------------------------------------------------------------
    def fail(self, what, **detail):
        self.fails.append({"what": what, "detail": _short(detail)})
        if len(self.fails) >= self.max_fail:
            raise Violation(what)

    def check(self, cond, what, **detail):
        self.traces += 1
        if not cond:
            self.fail(what, **detail)
        return bool(cond)

    def same(self, what, got, ref, rtol=RTOL, scale=None, **detail):
        """Implementation value equals model value (shape and numbers)."""
        self.traces += 1
        g = numpy.asarray(got)
        r = numpy.asarray(ref)
        if g.shape != r.shape:
            self.fail(what + ": shape %s instead of %s" % (g.shape, r.shape), **detail)
            return False
        if g.dtype == object:
            self.fail(what + ": not a numeric array", **detail)
            return False
        if g.size == 0:
            return True
        d = numpy.abs(g - r)
        m = float(numpy.max(numpy.abs(r)))
        lim = rtol*(max(1.0, m) if scale is None else scale)
        bad = ~(d <= lim)
        if bad.any():
            idx = tuple(int(x) for x in numpy.argwhere(bad)[0]) if bad.ndim else ()
            self.fail(what, index=idx, got=_num(g[idx]), expected=_num(r[idx]), **detail)
            return False
        return True


def _num(x):
    x = complex(x)
    return x.real if x.imag == 0 else [x.real, x.imag]


def _short(d):
    out = {}
    for k, v in d.items():
        s = v
        if isinstance(v, numpy.ndarray):
            s = v.tolist() if v.size <= 64 else "array%s" % (v.shape,)
            if numpy.iscomplexobj(v):
                s = str(s)
        elif isinstance(v, (numpy.integer,)):
            s = int(v)
        elif isinstance(v, (numpy.floating,)):
            s = float(v)
        elif isinstance(v, tuple):
            s = [x if isinstance(x, (int, float, str)) else str(x) for x in v]
        elif not isinstance(v, (int, float, str, list, dict, bool, type(None))):
            s = str(v)
        out[k] = s
    return out


def _feed(h, o):
    if isinstance(o, numpy.ndarray) or numpy.isscalar(o) and not isinstance(o, str):
        a = numpy.asarray(o)
        if a.dtype.kind in "fc":
            a = numpy.round(a, 6) + 0.0
        h.update(str(a.shape).encode())
        h.update(numpy.ascontiguousarray(a).tobytes())
    elif isinstance(o, (tuple, list)):
        for x in o:
            _feed(h, x)
    else:
        h.update(str(o).encode())


def explore(mod, case):
    """Run one case; returns a plain dict."""
    ctx = Ctx(case)
    try:
        mod.run(case, ctx)
    except Violation:
        pass
    except MemoryError:
        raise
    except Exception as e:  # noqa: the code under test must not raise here
        tb = traceback.format_exc()
        ctx.fails.append({"what": "%s: %s" % (type(e).__name__, e), "detail": {"traceback": tb[-2500:]}})
    return {"case": case, "states": ctx.states, "transitions": ctx.transitions,
            "traces": ctx.traces, "outcomes": ctx.outcomes, "fails": ctx.fails,
            "samples": ctx.samples, "notes": ctx.notes}
