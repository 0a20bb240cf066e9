"""Vocabulary of the checks: violations, calls into the code under test, comparisons."""
import math

try:
    import numpy as np
except ImportError:
    np = None

CONFIG = "n"  # set by the worker: f(ull) / n(umpy only) / s(tdlib only)


class Violation(Exception):
    """The code under test broke the property."""


class Hang(BaseException):
    """A case did not finish."""


class Rec:
    """What one executed case reports besides pass/fail."""

    def __init__(self, known=()):
        self.tags = []
        self.trivial = False
        self.known_seen = []
        self._known = known

    def tag(self, *t):
        self.tags.extend(str(x) for x in t)

    def known(self, key, msg):
        """A listed finding (by key) may fail in its recorded way; an unlisted one may not."""
        if key not in self._known:
            raise Violation(msg)
        self.known_seen.append(key)


class Sub:
    def __init__(self, prop, name, strategy, check, n, cfgs, fixed, rule):
        self.prop, self.name, self.strategy, self.check = prop, name, strategy, check
        self.n, self.cfgs, self.fixed, self.rule = n, cfgs, fixed or [], rule


REGISTRY = {}
RULES = {}


def sub(prop, strategy, n=150, cfgs="fns", fixed=None, name=None, rule=None):
    """Register one executable check of a property.

    strategy: hypothesis strategy (or zero-argument function returning one) of JSON-able cases
    n: examples per shard in the quick tier
    """

    def deco(fn):
        s = Sub(prop, name or fn.__name__, strategy, fn, n, cfgs, fixed, rule)
        REGISTRY.setdefault(prop, []).append(s)
        return fn

    return deco


def desc(fn):
    return getattr(fn, "__name__", str(fn))


def call(fn, *args, **kw):
    """Call code under test on valid input: any exception is a violation."""
    try:
        return fn(*args, **kw)
    except Exception as e:  # noqa: BLE001
        raise Violation(f"{desc(fn)}{args}{kw or ''} raised {type(e).__name__}: {e}") from None


def must_raise(exc, fn, *args, **kw):
    try:
        r = fn(*args, **kw)
    except exc:
        return
    except Exception as e:  # noqa: BLE001
        raise Violation(
            f"{desc(fn)}{args}{kw or ''} raised {type(e).__name__}: {e} instead of {exc.__name__}"
        ) from None
    raise Violation(f"{desc(fn)}{args}{kw or ''} returned {r!r} instead of raising {exc.__name__}")


def fl(x, what=""):
    try:
        if isinstance(x, complex):
            raise TypeError("complex")
        return float(x)
    except Exception as e:  # noqa: BLE001
        raise Violation(f"{what}: {x!r} is not a real scalar ({e})") from None


def flat(r):
    """outputs of a call as a tuple"""
    return r if isinstance(r, (tuple, list)) else (r,)


FORMS = ["s", "s", "np", "a1", "a0", "a2", "a7", "m", "i"] * 8 + ["f"] * 4 + ["a3", "sq", "bc", "bd"] * 2 + ["big"] * 4 + ["huge"]
# array forms: shape, and what stands where (v: the case, o, b: another point)
LAYOUT = {"a1": ((1,), "v"), "a0": ((2,), "vo"), "a2": ((2,), "bv"), "a7": ((7,), "vovvbvv"), "m": ((1, 2), "bv"), "f": ((2, 3), "obvvob"), "a3": ((3,), "ovo"), "sq": ((3, 3), "obvvobbbo"), "bc": ((3, 3), "oboobobvo"), "bd": ((3, 3), "oboobobvo"), "big": ((1201,), "vobb" + "ob" * 598 + "v"), "huge": ((10007,), "vobb" + "ob" * 5001 + "v")}
AT = {f: (1 if f == "a3" else 5 if f == "a7" else 2 if f == "f" else 3 if f == "sq" else 7 if f in ("bc", "bd") else len(s) - 1 if s[-1] == "v" else 0) for f, (_, s) in LAYOUT.items()}


def laid_out(form, v, o, b):
    shape, places = LAYOUT[form]
    x = np.array([{"v": v, "o": o, "b": b}[k] for k in places]).reshape(shape)
    return np.asfortranarray(x) if form == "f" else x


def forms():
    return FORMS if np is not None else ["s", "s", "s", "i"]


def whole(form, *vals):
    """form i: the whole numbers towards zero, still as floats"""
    return tuple(float(math.trunc(v)) for v in vals) if form == "i" else vals


def asint(v):
    """a whole number as int; the sign of a zero is kept"""
    if isinstance(v, float) and v.is_integer() and abs(v) < 2**53 and (v or math.copysign(1, v) > 0):
        return int(v)
    return v


def lift(form, fn, args, kw=None, skip=(), other=None):
    """Call fn with the float arguments lifted to the given form; return the outputs of the case.

    s: Python floats, i: whole numbers as int, np: numpy scalars, a1: length-1 arrays, a0: [x, other], a2: [other, x],
    a7: seven elements of which two are other, m: (1,2), f: (2,3) in Fortran order, a3: three of which the first and last are the same, sq: (3,3), bc, bd: (3,3) with every third or
    second argument of shape (3,), big: 1201 elements, huge: 10007.  'other' is a different valid point, so a result that leaks between
    elements, or a branch taken for the whole array, shows up.
    skip: positions never lifted.  other: its arguments, or half of each, or twice what is small.
    """
    kw = kw or {}
    if form == "i":
        args = [v if k in skip else asint(v) for k, v in enumerate(args)]
    if np is None or form in ("s", "i"):
        out = flat(call(fn, *args, **kw))
        return tuple(fl(o, desc(fn)) for o in out)

    small = 45.0 if kw.get("deg", True) else 0.78  # twice that is a valid latitude

    def up(i, v):
        if i in skip or not isinstance(v, (float, int)) or isinstance(v, bool):
            return v
        v = float(v)
        o = v * 0.5 if other is None else float(other[i])
        big = 2 * v if other is None and abs(v) <= small else o
        if form == "np":
            return np.float64(v)
        nonlocal lifted
        lifted += 1
        row = form == "bc" and lifted % 3 == 0 or form == "bd" and lifted % 2 == 0
        return laid_out("a3" if row else form, v, o, big)

    lifted = 0
    out = flat(call(fn, *[up(i, v) for i, v in enumerate(args)], **kw))
    res = []
    for o in out:
        if form == "np":
            res.append(fl(o, desc(fn)))
            continue
        try:
            arr = np.asarray(o, dtype=float)
        except Exception as e:  # noqa: BLE001
            raise Violation(f"{desc(fn)}: output {o!r} is not numeric ({e})") from None
        want = LAYOUT[form][0]
        if form in ("bc", "bd") and arr.shape == (3,):  # depends on the arguments of that shape only
            arr = np.broadcast_to(arr, want)
        if arr.shape != want:
            # size-1 squeezing is documented for some functions; elementwise size must agree
            if form in ("a1", "m") and arr.size == math.prod(want):
                pass
            else:
                raise Violation(f"{desc(fn)}{args}{kw}: shape {arr.shape} for inputs of {want}")
        flatarr = arr.reshape(-1)
        res.append(float(flatarr[AT[form]]))
    return tuple(res)


def require(cond, msg):
    if not cond:
        raise Violation(msg)


def near(got, want, tol, what=""):
    """|got-want| <= tol, NaN equals NaN only, infinities equal themselves."""
    got = fl(got, what)
    want = float(want)
    if math.isnan(want) or math.isnan(got):
        if math.isnan(want) and math.isnan(got):
            return
    elif got == want or abs(got - want) <= tol:
        return
    raise Violation(f"{what}: got {got!r}, want {want!r} (diff {got - want!r}, tol {tol!r})")


MARGINS = {}  # label -> (largest error/tolerance seen, case text); for choosing tolerances


def bounded(err, tol, what, label=None):
    """err <= tol, with the largest ratio kept per label"""
    err = float(err)
    r = err / tol if tol > 0 else (0.0 if err == 0 else math.inf)
    if label and not r <= MARGINS.get(label, -1.0):
        MARGINS[label] = r
    if not err <= tol:
        raise Violation(f"{what}: error {err!r} exceeds {tol!r}")


def angdiff(a, b, period=360.0):
    return math.remainder(a - b, period)


def near_angle(got, want, tol, what="", period=360.0):
    got = fl(got, what)
    if not (math.isfinite(got) and math.isfinite(want)):
        if math.isnan(got) and math.isnan(want):
            return
        raise Violation(f"{what}: got {got!r}, want {want!r}")
    d = angdiff(got, want, period)
    if abs(d) > tol:
        raise Violation(f"{what}: got {got!r}, want {want!r} (angle diff {d!r}, tol {tol!r})")


def in_range(x, lo, hi, what="", slack=0.0):
    x = fl(x, what)
    if not (lo - slack <= x <= hi + slack):
        raise Violation(f"{what}: {x!r} outside [{lo},{hi}]")
