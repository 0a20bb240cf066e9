"""C37-C41, C43, C45: relations every function obeys"""
import functools
import math
import struct

from hypothesis import strategies as st

import pymap3d as pm

from harness import compare, core
from harness import gens as g
from harness import registry as R
from harness.compare import agree, scalars
from harness.core import Violation, bounded, call, fl, flat, must_raise, require, sub

np = core.np
WGS = "wgs84"


def setup(c, f):
    a, b = g.ab(c.get("ell", WGS) if f.ell else WGS)
    return a, (g.mk_ell(c["ell"]) if f.ell else None)


def alike(f, n):
    """n rows of arguments, some of them sharing what is special about the first"""
    if n == 1:
        return st.lists(R.rows(f), min_size=1, max_size=1)

    def other(first, new, how, k):
        if how == "mixed":  # one argument differs
            return [y if i == k % len(first) else x for i, (x, y) in enumerate(zip(first, new))]
        if how == "kept":  # one argument is the same
            return [x if i == k % len(first) else y for i, (x, y) in enumerate(zip(first, new))]
        if how == "negated":
            return [-x if q in R.SIGNED else x for q, x in zip(f.ins, first)]
        return list(first) if how == "same" else new

    vec = any(tuple(f.ins[i:i + 3]) in GROUPS for i in range(len(f.ins)))
    hows = ["new", "new", "new", "same", "negated"] + ["mixed", "kept"] * (not vec)
    more = st.lists(st.tuples(R.rows(f), st.sampled_from(hows), st.integers(0, 11)), min_size=n - 1, max_size=n - 1)
    return st.tuples(R.rows(f), more).map(lambda x: [list(x[0]), *[other(x[0], *m) for m in x[1]]])


def one(n, nrows=1, **kw):
    """case: rows of arguments of a function"""
    f = R.ALL[n]
    return st.fixed_dictionaries(dict(
        fn=st.just(n), rows=alike(f, nrows),
        ell=g.ellspec(0.12, amin=5, amax=8) if f.ell else st.just(WGS), deg=g.deg() if f.deg else st.just(True), **kw))


OFK = {}  # check name -> strategy of one function (for exploring by hand)


def of(check, names, nrows=1, **kw):
    names = sorted(names)
    OFK[check] = functools.lru_cache(None)(lambda n: one(n, nrows, **kw) if n in names else None)
    return st.sampled_from(names).flatmap(OFK[check])


# --- C37

GROUPS = [("pX", "pY", "pZ"), ("n1", "n2", "n3"), ("X", "Y", "Z")]


def groups(f):
    i, out = 0, []
    while i < len(f.ins):
        n = 3 if tuple(f.ins[i:i + 3]) in GROUPS else 1
        out.append(list(range(i, i + n)))
        i += n
    return out


# small grids, also ones whose sides are all three; with "|": of every second argument
GRIDS = ["2x2", "3x3", "2x3", "3x2", "3x3", "4x4", "6x3", "3x6", "3x3x3", "2x3x3", "4", "6", "9", "12", "3x3|3", "3|3x3", "2x3|3", "2x1x3|3x1", "3x1|3", "3|3x1|1", "3x3|1x3"]
SHAPES = ["3", "3", "1", "31", "13", "0d", "np", "131", "strided", "f", "outer", "outer", "0", "back", "232", "T", "67", "67", "4099", "20011"] * 3 + ["131101"] + GRIDS * 2
SLOW = ("vdist", "track2")  # element by element where the iteration fails: no more than 20011
PATTERN = [0, 1, 2, 0, 0, 2, 1, 2, 1, 1, 0]
DTYPES = ["float", "float", "float", "int64", "int32"]


def arrange(col, shape):
    x = np.array(col)
    if "x" in shape or shape in GRIDS:
        dims = [int(n) for n in shape.split("x")]
        return x[[PATTERN[k % len(PATTERN)] for k in range(math.prod(dims))]].reshape(dims)
    if shape == "3" or shape == "1":
        return x
    if shape == "31":
        return x.reshape(3, 1)
    if shape == "13":
        return x.reshape(1, 3)
    if shape == "131":
        return x.reshape(1, 3, 1)
    if shape == "strided":
        y = np.full((3, 2), np.nan)
        y[:, 0] = x
        return y[:, 0]
    if shape == "0":
        return x[:0]
    if shape == "232":
        return np.resize(x, 12).reshape(2, 3, 2)
    if shape == "T":
        return np.resize(x, 6).reshape(3, 2).T
    if shape.isdigit() and int(shape) >= 67 and shape not in ("131", "232"):
        return np.resize(x, int(shape))
    if shape == "back":
        return x[::-1].copy()[::-1]
    if shape == "f":
        return np.asfortranarray(x.reshape(3, 1))
    if shape == "0d":
        return np.array(col[0])
    if shape == "np":
        return np.float64(col[0])
    raise ValueError(shape)


def arranged(f, rows, shape, mask, dtype="float", a=1.0):
    """the arguments as arrays: which of them, how laid out and of which type"""
    arr = [False] * len(f.ins)
    for k, idx in enumerate(groups(f)):
        for i in idx:
            arr[i] = bool(mask >> k & 1)
    if not any(arr):
        arr = [True] * len(f.ins)
    args = []
    for k, idx in enumerate(groups(f)):
        for i in idx:
            if not arr[i]:
                args.append(rows[0][i])
                continue
            how = shape
            if shape == "outer":
                how = "31" if k % 2 else "13"
            if "|" in shape:
                how = shape.split("|")[k % (shape.count("|") + 1)]
            x = arrange([r[i] for r in rows], how)
            kind = f.ins[i]
            big = a > 1e5 and kind not in ("pX", "pY", "pZ") or kind in R.ANG or kind in R.DEGREES
            if dtype != "float" and big and kind not in ("n1", "n2", "n3", "frac") and np.all(np.abs(x) < 2e9):
                x = np.trunc(x).astype(dtype)
            args.append(x)
    return args


def bits(r):
    return struct.pack(f"{len(r)}d", *r)


def table_of(columns):
    """columns of floats and the numbers of the rows that differ (bit for bit) from all before"""
    m = np.ascontiguousarray(np.column_stack([np.asarray(x, float).ravel() for x in columns]))
    if not m.size:
        return m, []
    keys = m.view(np.dtype((np.void, m.dtype.itemsize * m.shape[1]))).ravel()
    return m, sorted(np.unique(keys, return_index=True)[1].tolist())


if np is not None:

    @sub("C37", of("elementwise", [n for n, f in R.ALL.items() if f.arrays and f.ins], 3, shape=st.sampled_from(SHAPES), dtype=st.sampled_from(DTYPES), mask=st.integers(0, 2**12 - 1)), n=6000, cfgs="fn")
    def elementwise(c, rec):
        f = R.ALL[c["fn"]]
        a, ell = setup(c, f)
        kw = f.kw(ell, c["deg"])
        deg = c["deg"]
        rows = [R.row_values(f, r, a, deg) for r in c["rows"]]
        if c["shape"] in ("1", "0d", "np"):
            rows = rows[:1]
        shape = "20011" if c["shape"] == "131101" and f.name.endswith(SLOW) else c["shape"]
        # the rhumb functions squeeze: which argument a result has the shape of must be plain
        mask = -1 if f.name.startswith("lox.") and (shape == "outer" or "|" in shape) else c["mask"]
        args = arranged(f, rows, shape, mask, c.get("dtype", "float"), a)
        arr = [isinstance(x, (np.ndarray, np.generic)) for x in args]
        keep = [np.copy(x) for x in args]
        what = f"{f.name}{tuple(args)} {kw}"
        ins = np.broadcast_arrays(*args)
        singles = {}
        m, which = table_of(ins)
        for i in which:
            r = m[i].tolist()
            singles[bits(r)] = [fl(x, f.name) for x in flat(call(f.fn, *r, **kw))]
        out = flat(call(f.fn, *args, **kw))
        require(len(out) == len(f.outs), what + f" -> {out!r}")
        for x, y in zip(args, keep):
            require(np.array_equal(x, y, equal_nan=True), what + ": arguments changed")
        shape = np.broadcast_shapes(*[np.shape(x) for x in args])
        cols = []
        for k, o in enumerate(out):
            try:
                o = np.asarray(o, dtype=float)
            except Exception as e:  # noqa: BLE001
                raise Violation(what + f": result {k} is {o!r}: {e}") from None
            if o.shape != shape:
                squeezed = tuple(n for n in shape if n != 1)
                if o.shape == squeezed and (f.name.startswith(("lox.", "rcurve.")) or len(shape) <= 1 or o.size == 1):
                    o = o.reshape(shape)
                elif o.shape == () or o.size == 1:
                    # a result that does not depend on the array arguments may stay a scalar
                    o = np.broadcast_to(o.reshape(()), shape)
                elif (c["shape"] == "outer" or "|" in c["shape"]) and np.broadcast_shapes(o.shape, shape) == shape:
                    o = np.broadcast_to(o, shape)  # or have the shape of those it depends on
                else:
                    raise Violation(what + f": result {k} has shape {o.shape}, arguments broadcast to {shape}")
            cols.append(o.ravel())
        m, which = table_of([*ins, *cols])
        for i in which:
            r, got = m[i, :len(args)].tolist(), m[i, len(args):].tolist()
            w = singles[bits(r)]
            how = agree(f, got, w, r, a, deg, lambda v: scalars(f, v, kw), what + f": element {i}", "C37 " + f.name)
            rec.tag(how)
        rec.tag(c["shape"], "mixed" if not all(arr) else "all arrays", f.name, c.get("dtype", "float"))


if np is not None:

    TIMES = st.one_of(g.iso((1975, 1, 1), (2026, 1, 1)), st.sampled_from(["2000-01-01T12:00:00", "2020-06-30T23:59:59"]))
    TARR = [n for n, f in R.TIMED.items() if f.arrays and n not in R.ASTROPY]

    @sub("C37", st.sampled_from(TARR).flatmap(functools.lru_cache(None)(lambda n: st.fixed_dictionaries(dict(
        fn=st.just(n), rows=st.lists(R.rows(R.TIMED[n]), min_size=3, max_size=3), t=TIMES, shape=st.sampled_from(["3", "31", "1", "strided", "np", "outer", "0", "0d", "232", "67", "4099", "20011"] * 3 + ["131101"] + [x for x in GRIDS if "1" not in x]), dtype=st.sampled_from(DTYPES), mask=st.integers(0, 255))))), n=200, cfgs="fn")
    def elementwise_in_time(c, rec):
        f = R.TIMED[c["fn"]]
        a, t = 6378137.0, g.dt(c["t"])
        rows = [R.row_values(f, r, a) for r in c["rows"]]
        if c["shape"] in ("1", "np", "0d"):
            rows = rows[:1]
        args = arranged(f, rows, c["shape"], c["mask"], c.get("dtype", "float"), a)
        what = f"{f.name}{tuple(args)} at {c['t']}"
        out = flat(call(f.fn, *args, t, **f.kw()))
        require(len(out) == len(f.outs), what + f" -> {out!r}")
        size = np.broadcast(*[np.asarray(x) for x in args]).size
        cols = []
        for k, o in enumerate(out):
            o = np.asarray(o, dtype=float)
            full = np.broadcast_shapes(*[np.shape(x) for x in args])
            if (c["shape"] == "outer" or "|" in c["shape"]) and 1 < o.size < size and np.broadcast_shapes(o.shape, full) == full:
                o = np.broadcast_to(o, full)  # the shape of the arguments it depends on
            require(o.size == size or o.size == 1, what + f": result {k} has shape {o.shape}")
            cols.append(np.broadcast_to(o.ravel(), (size,)))
        singles = {}
        m, which = table_of([*np.broadcast_arrays(*args), *cols])
        for i in which:
            r, got = m[i, :len(args)].tolist(), m[i, len(args):].tolist()
            if bits(r) not in singles:
                singles[bits(r)] = [fl(x) for x in flat(call(f.fn, *r, t, **f.kw()))]
            want = singles[bits(r)]
            agree(f, got, want, r, a, True, lambda v: [fl(x) for x in flat(f.fn(*v, t, **f.kw()))], what + f": element {i}", "C37t " + f.name)
        rec.tag(c["shape"], f.name)


@sub("C37", of("integers", [n for n, f in R.ALL.items() if f.ins], 1), n=500)
def integers(c, rec):
    """whole numbers given as int are the same arguments as given as float"""
    f = R.ALL[c["fn"]]
    a, ell = setup(c, f)
    kw = f.kw(ell, c["deg"])
    v = R.row_values(f, c["rows"][0], a, c["deg"])
    ints = [int(x) if k in R.ANG or k in R.DEGREES or a > 1e5 and k in R.LEN and not k.startswith("p") else x for k, x in zip(f.ins, v)]
    if all(isinstance(x, float) for x in ints):
        rec.trivial = True
        return
    what = f"{f.name}{tuple(ints)} {kw}"
    floats = [float(x) for x in ints]

    def ev(u):
        return [fl(x) for x in flat(f.fn(*u, **kw))]

    try:
        want = ev(floats)
    except Exception as e:  # noqa: BLE001
        try:
            ev(ints)
        except type(e):
            return
        raise Violation(what + f" answers where the floats raise {e!r}") from None
    agree(f, [fl(x) for x in flat(call(f.fn, *ints, **kw))], want, floats, a, c["deg"], ev, what, "C37i " + f.name)
    rec.tag(f.name)


# --- C38


def arguments(f, op, pool=None):
    """fresh arguments of an operation"""
    a, ell = setup(op, f)
    rows = [R.row_values(f, r, a, op["deg"]) for r in op["rows"]]
    shape = op["shape"]
    if np is None or not f.arrays or not f.ins:
        shape = "scalar"
    if shape == "scalar":
        args = list(rows[0])
    elif shape == "int":
        args = [float(round(x)) if k in R.ANG else x for k, x in zip(f.ins, rows[0])]
    else:
        args = [arrange([r[i] for r in rows], "31" if shape == "31" else "3" if shape != "0d" else "0d") for i in range(len(f.ins))]
        for i in range(len(args)):
            if op["mask"] >> i & 1:
                args[i] = rows[0][i]
    if f.name in R.TIMED and not (f.name in R.ALL):
        args.append(g.dt(op["t"]))
    kw = f.kw(ell, op["deg"])
    return args, kw


def lookup(op):
    return R.TIMED[op["fn"]] if op["timed"] else R.ALL[op["fn"]]


def freeze(r):
    """a result, bit for bit"""
    out = []
    for x in flat(r):
        if np is not None and isinstance(x, np.ndarray):
            out.append(("array", x.shape, x.dtype.str, x.tobytes()))
        elif isinstance(x, (list, tuple)):
            out.append(freeze(x))
        else:
            try:
                out.append(("scalar", float(x).hex()))
            except TypeError:
                out.append(("other", repr(x)))
    return tuple(out)


def perform(op):
    """one operation with arguments of its own"""
    if op["op"] == "clear":
        from pymap3d.ellipsoid import clear_ellipsoid_caches

        clear_ellipsoid_caches()
        return None
    f = lookup(op)
    args, kw = arguments(f, op)
    try:
        return freeze(f.fn(*args, **kw))
    except Exception as e:  # noqa: BLE001
        return ("raised", type(e).__name__)


_zygote = None


def fresh(op):
    global _zygote
    if _zygote is None:
        from harness.fresh import Zygote

        _zygote = Zygote(perform)
    kind, r = _zygote(op)
    if kind != "ok":
        raise RuntimeError(r)
    return r


def state_of(args, kw):
    """what must not change"""
    s = []
    for x in args:
        if np is not None and isinstance(x, np.ndarray):
            s.append((x.shape, x.dtype.str, x.strides, x.flags.writeable, x.tobytes()))
        else:
            s.append(repr(x))
    e = kw.get("ell")
    return s, dict(vars(e)) if e is not None else None, repr(sorted(k for k in kw))


def ops38():
    names = sorted(R.ALL) + ["timed:" + n for n in sorted(R.TIMED) if n not in R.ASTROPY]

    @functools.lru_cache(None)  # making a strategy costs more than drawing from it
    def mk(n):
        timed = n.startswith("timed:")
        n = n.removeprefix("timed:")
        f = R.TIMED[n] if timed else R.ALL[n]
        return st.fixed_dictionaries(dict(
            op=st.just("call"), fn=st.just(n), timed=st.just(timed), rows=st.lists(R.rows(f), min_size=3, max_size=3), deg=g.deg() if f.deg else st.just(True),
            which=st.integers(0, 2), shape=st.sampled_from(["scalar", "3", "3", "31", "locked", "0d"]), mask=st.sampled_from([0, 0, 1, 5, 2 ** 9 - 2]),
            t=st.sampled_from(["2001-02-03T04:05:06", "2020-06-30T23:59:59.5"]) if timed else st.just("")))

    # the functions with state (caches) come up more often
    cached = [n for n in names if n.startswith("karney.")]
    one = st.one_of(st.sampled_from(names).flatmap(mk), st.sampled_from(names).flatmap(mk), st.sampled_from(cached).flatmap(mk), st.just({"op": "clear"}))
    return st.fixed_dictionaries(dict(
        ops=st.lists(one, min_size=2, max_size=7), order=st.randoms(use_true_random=False).map(lambda r: [r.random() for _ in range(7)]),
        ells=st.tuples(g.ellspec(0.12, amin=5, amax=8), st.sampled_from(["same a", "same f", "same a+f", "other"]), g.ellspec(0.12, amin=5, amax=8))))


def ells_of(c):
    """three ellipsoids, the second closely related to the first"""
    one, how, other = c["ells"]
    a, b = g.ab(one)
    f = 1 - b / a
    if how == "same a":
        two = [a, a * (1 - f / 2)]
    elif how == "same f":
        two = [a * 2, b * 2]
    elif how == "same a+f":
        two = [a, b]
    else:
        two = "wgs84"
    return [one, two, other]


def process_state():
    """what else a call could change: settings that belong to the whole process"""
    import decimal
    import locale
    import os
    import random
    import sys
    import warnings

    st8 = dict(filters=list(warnings.filters), random=hash(random.getstate()), env=dict(os.environ), cwd=os.getcwd(), locale=locale.setlocale(locale.LC_ALL),
               decimal=str(decimal.getcontext()), recursion=sys.getrecursionlimit(), trace=sys.gettrace(), hook=sys.excepthook)
    if np is not None:
        k = np.random.get_state()
        st8.update(err=np.geterr(), call=np.geterrcall(), buf=np.getbufsize(), printing=repr(np.get_printoptions()), nprandom=(k[0], k[1].tobytes(), k[2]))
    return st8


def same_process(before, what):
    after = process_state()
    for k in before:
        if before[k] != after[k]:
            restore_process(before)
            raise Violation(f"{what} changed a setting of the process ({k}): {str(before[k])[:200]} became {str(after[k])[:200]}")


def restore_process(st8):
    """put back what can be, so that the next case can see the change again"""
    import locale
    import os
    import sys
    import warnings

    warnings.filters[:] = st8["filters"]
    os.environ.clear()
    os.environ.update(st8["env"])
    os.chdir(st8["cwd"])
    locale.setlocale(locale.LC_ALL, st8["locale"])
    sys.setrecursionlimit(st8["recursion"])
    if np is not None:
        np.seterr(**st8["err"])
        np.seterrcall(st8["call"])


@sub("C38", ops38, n=110, cfgs="fns")
def history(c, rec):
    ells = ells_of(c)
    was = process_state()
    objs = {}
    log = []
    for op in c["ops"]:
        op = dict(op)
        if op["op"] == "call":
            op["ell"] = ells[op["which"]]
        log.append(op)
    # what each call gives in a process that has done nothing else
    want = [fresh(op) if op["op"] == "call" else None for op in log]

    def run(i, how):
        op = log[i]
        if op["op"] == "clear":
            perform(op)
            return
        f = lookup(op)
        args, kw = arguments(f, op)
        if "ell" in kw:  # ellipsoid objects live through the history
            kw["ell"] = objs.setdefault(op["which"], kw["ell"])
        if op["shape"] == "locked":
            for x in args:
                if np is not None and isinstance(x, np.ndarray):
                    x.flags.writeable = False
        before = state_of(args, kw)
        what = f"{f.name}{tuple(args)} {kw} ({how})"
        try:
            r = f.fn(*args, **kw)
            got = freeze(r)
        except Exception as e:  # noqa: BLE001
            r, got = None, ("raised", type(e).__name__)
            if want[i] != got:
                raise Violation(f"{what} raised {type(e).__name__}: {e}; the same call in a fresh process gave {want[i]!r}") from None
        after = state_of(args, kw)
        require(before == after, f"{what} changed its arguments: {before!r} became {after!r}")
        require(got == want[i], f"{what} gave {r!r} = {got!r}; the same call in a fresh process gave {want[i]!r}")
        # results belong to the caller
        if np is not None and r is not None:
            for x in flat(r):
                if isinstance(x, np.ndarray) and x.flags.writeable:
                    x.fill(-1.25e3)
        elif isinstance(r, list):
            r.clear()

    for i in range(len(log)):
        run(i, "first")
    for i in sorted(range(len(log)), key=lambda i: c["order"][i]):
        run(i, "again")
    same_process(was, f"the calls {[op.get('fn', 'clear') for op in log]}")
    if np is not None:  # settings of the process that have no say in values
        with np.errstate(all="ignore"), np.printoptions(precision=2, suppress=True):
            for i in range(len(log)):
                run(i, "with errors ignored and other printing options")
    rec.tag(*[op.get("fn", "clear") for op in log], len(log), *[w[0] for w in want if w and w[0] == "raised"])


ODD = [math.nan, math.inf, -math.inf, 1e300, -1e300, 0.0, -0.0, 90.0, -90.0, 180.0, 1e-300, 91.0, -5.0]


def ops38u():
    @functools.lru_cache(None)  # making a strategy costs more than drawing from it
    def mk(n):
        timed = n.startswith("timed:")
        n = n.removeprefix("timed:")
        f = R.TIMED[n] if timed else R.ALL[n]
        odd = st.lists(st.tuples(st.integers(0, 2), st.integers(0, len(f.ins) - 1 if f.ins else 0), st.sampled_from(ODD)), max_size=2).map(lambda x: [list(t) for t in x])
        return st.fixed_dictionaries(dict(
            op=st.just("call"), fn=st.just(n), timed=st.just(timed), rows=st.lists(R.rows(f), min_size=3, max_size=3), odd=odd, deg=g.deg() if f.deg else st.just(True),
            ell=g.ellspec(0.12, amin=5, amax=8) if f.ell else st.just(WGS), shape=st.sampled_from(["scalar", "scalar", "3", "31", "0d"]), mask=st.sampled_from([0, 0, 1, 6]),
            t=st.sampled_from(["2001-02-03T04:05:06", "1961-06-30T23:59:59.5", "2090-01-01T00:00:00"]) if timed else st.just("")))

    names = sorted(R.ALL) + ["timed:" + n for n in sorted(R.TIMED) if n not in R.ASTROPY]
    # the iterative ones have more branches
    more = [n for n in names if n.split(".")[0] in ("vincenty", "karney", "lox", "los", "ecef", "spherical")]
    return st.one_of(st.sampled_from(names), st.sampled_from(more), st.just("vincenty.vdist")).flatmap(mk)


@sub("C38", ops38u, n=350, cfgs="fns")
def unusual(c, rec):
    """odd values (limits, infinities, NaN, nearly opposite points), answered or refused, leave nothing behind"""
    f = lookup(c)
    op = dict(c, rows=[list(r) for r in c["rows"]])
    for i, j, x in c["odd"]:
        if j < len(op["rows"][i]):
            op["rows"][i][j] = x
    args, kw = arguments(f, op)
    before, was, out = state_of(args, kw), process_state(), []
    what = f"{f.name}{tuple(args)} {kw}"
    for _ in range(2):
        try:
            out.append(freeze(f.fn(*args, **kw)))
        except Exception as e:  # noqa: BLE001
            out.append(("raised", type(e).__name__))
        after = state_of(args, kw)
        require(before == after, f"{what} changed its arguments: {before!r} became {after!r}")
        same_process(was, what)
    require(out[0] == out[1], f"{what} gave {out[0]!r}, then {out[1]!r}")
    rec.tag(f.name, "raised" if out[0] and out[0][0] == "raised" else "answered")


def ops38t():
    @functools.lru_cache(None)  # making a strategy costs more than drawing from it
    def mk(n):
        timed = n.startswith("timed:")
        n = n.removeprefix("timed:")
        f = R.TIMED[n] if timed else R.ALL[n]
        one = st.fixed_dictionaries(dict(
            op=st.just("call"), fn=st.just(n), timed=st.just(timed), rows=st.lists(R.rows(f), min_size=3, max_size=3), deg=g.deg() if f.deg else st.just(True),
            ell=g.ellspec(0.12, amin=5, amax=8) if f.ell else st.just(WGS), shape=st.sampled_from(["scalar", "3"]), mask=st.just(0),
            t=g.iso((1975, 1, 1), (2026, 1, 1)) if timed else st.just("")))
        group = st.lists(one, min_size=2, max_size=4)
        # on one ellipsoid: some of them are cached
        return st.one_of(group, group.map(lambda ops: [dict(op, ell=ops[0]["ell"]) for op in ops]))

    names = sorted(R.ALL) + ["timed:" + n for n in sorted(R.TIMED) if n not in R.ASTROPY]
    cached = [n for n in names if n.startswith("karney.")]
    pick = st.one_of(st.sampled_from(names), st.sampled_from(names), st.sampled_from(cached))
    return st.fixed_dictionaries(dict(groups=st.lists(pick.flatmap(mk), min_size=1, max_size=2), clear=st.booleans()))


@sub("C38", ops38t, n=90, cfgs="fns")
def threads(c, rec):
    """calls running at the same time do not disturb each other"""
    import sys
    import threading

    ops = [op for grp in c["groups"] for op in grp]
    want = [perform(op) for op in ops]
    was = process_state()
    bad = []
    start = threading.Barrier(len(ops) + c["clear"])

    def clear():
        start.wait()
        for _ in range(40):
            perform({"op": "clear"})

    def work(i):
        f = lookup(ops[i])
        args, kw = arguments(f, ops[i])
        start.wait()
        for _ in range(12):
            try:
                got = freeze(f.fn(*args, **kw))
            except Exception as e:  # noqa: BLE001
                got = ("raised", type(e).__name__)
            if got != want[i]:
                bad.append((i, got))
                return

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work, args=(i,)) for i in range(len(ops))]
        if c["clear"]:
            ts.append(threading.Thread(target=clear))
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    if bad:
        i, got = bad[0]
        args, kw = arguments(lookup(ops[i]), ops[i])
        raise Violation(f"{ops[i]['fn']}{tuple(args)} {kw} gave {got} while other threads called {[op['fn'] for op in ops]}, alone {want[i]}")
    same_process(was, f"calling {[op['fn'] for op in ops]} at the same time")
    rec.tag(*[op["fn"] for op in ops], len(ops))


def lists38():
    return st.fixed_dictionaries(dict(ts=st.lists(g.iso(), min_size=1, max_size=4), pts=st.lists(st.tuples(g.lat(), g.lon()), min_size=3, max_size=6), ell=g.ellspec(0.12, amin=5, amax=8)))


@sub("C38", lists38, n=60, cfgs="fns")
def containers(c, rec):
    """lists, datetimes and dictionaries passed in stay as they are"""
    from pymap3d import karney, nvector, sidereal

    ts = [g.dt(t) for t in c["ts"]]
    ell = g.mk_ell(c["ell"])
    la, lo = [p[0] for p in c["pts"]], [p[1] for p in c["pts"]]
    n = [nvector.geodetic2nvector(*p) for p in c["pts"]]
    jd = [2451545.0 + i for i in range(len(ts))]
    cases = [
        (pm.str2dt, (list(c["ts"]),), {}), (pm.str2dt, (ts,), {}),
        (pm.datetime2sidereal, (ts, 0.5), dict(force_non_astropy=True)), (sidereal.juliandate, (ts,), {}),
        (pm.greenwichsrt, (jd,), {}),
        (karney.geodesic_area, (la, lo), dict(ell=ell)),
    ]
    if np is not None:
        cases += [(nvector.nvector_mean, tuple(np.array([x[k] for x in n]) for k in range(3)), {}),
                  (karney.geodesic_area, (np.array(la), np.array(lo)), dict(ell=ell))]
    else:
        cases += [(nvector.nvector_mean, tuple([x[k] for x in n] for k in range(3)), {})]
    for fn, args, kw in cases:
        before = repr(args), repr(kw), [id(x) for a in args if isinstance(a, list) for x in a]
        r1 = repr(call(fn, *args, **kw))
        require((repr(args), repr(kw), [id(x) for a in args if isinstance(a, list) for x in a]) == before, f"{fn.__name__}: arguments {before!r} became {args!r} {kw!r}")
        r2 = repr(call(fn, *args, **kw))
        require(r1 == r2, f"{fn.__name__}{args}: {r1} then {r2}")


# --- relations in arrays

FORMS = st.sampled_from(["s", "s", "a"])


def many(f, c):
    """does the case call the function with arrays?"""
    return np is not None and f.arrays and bool(f.ins) and c.get("form", "s") == "a"


def table(f, rows, kw, array):
    """the results of each row, called one by one or as arrays"""
    if not array:
        return [scalars(f, r, kw) for r in rows]
    args = [np.array(x) for x in zip(*rows)]
    out = flat(f.fn(*args, **kw))
    if len(out) != len(f.outs):
        raise Violation(f"{f.name}{tuple(args)} {kw}: {len(out)} results, {len(f.outs)} documented")
    cols = []
    for o in out:
        o = np.asarray(o, dtype=float).ravel()
        if o.size not in (1, len(rows)):
            raise Violation(f"{f.name}{tuple(args)} {kw}: {o.size} values")
        cols.append(np.broadcast_to(o, (len(rows),)))
    return [[float(x[i]) for x in cols] for i in range(len(rows))]


def attempt(f, rows, kw, array):
    try:
        return None, table(f, rows, kw, array)
    except Violation:
        raise
    except Exception as e:  # noqa: BLE001
        return type(e), str(e)


def with_row(rows, i, u):
    return [u if j == i else r for j, r in enumerate(rows)]


# --- C39

WIDE = {"lat": 90.0, "lon": 360.0}


@sub("C39", of("units", [n for n, f in R.ALL.items() if f.deg], 3, form=FORMS), n=6000)
def units(c, rec):
    f = R.ALL[c["fn"]]
    a, ell = setup(c, f)
    array = many(f, c)
    rows = c["rows"] if array else c["rows"][:1]
    vs = [R.row_values(f, r, a, True) for r in rows]
    rs = [R.row_values(f, r, a, False) for r in rows]
    kd, kr = f.kw(ell, True), f.kw(ell, False)
    what = f"{f.name}{tuple(vs if array else vs[0])} {kd.get('ell')} in degrees and radians"
    ed, ds = attempt(f, vs, kd, array)
    er, xs = attempt(f, rs, kr, array)
    if ed or er:
        if ed is not er:
            # the limit itself may round to either side
            for i in range(len(vs)):
                for u in compare.nudged(f, vs[i], a, True, 4.0):
                    if attempt(f, with_row(vs, i, u), kd, array)[0] is er:
                        rec.tag("edge")
                        return
        require(ed is er, what + f": {ed} {ds} but {er} {xs}")
        rec.tag(f.name, "error")
        rec.trivial = True
        return
    for i, (v, d, x) in enumerate(zip(vs, ds, xs)):
        conv = [math.degrees(q) if k in R.ANG else q for k, q in zip(f.outs, x)]
        how = agree(f, conv, d, v, a, True, lambda u: table(f, with_row(vs, i, u), kd, array)[i], what, "C39 " + f.name)
        for k, p, q in zip(f.outs, conv, d):
            # a whole turn apart: only at the end of the range
            if k in R.WRAP and abs(p - q) > 180:
                edge = min(abs(math.remainder(p, 180.0)), abs(math.remainder(q, 180.0)))
                require(edge < 1e-6, what + f": {k} is {q} degrees, {p} from radians: not the same range")
        rec.tag(f.name, how)
    # omitting deg means degrees
    nodeg = {k: z for k, z in kd.items() if k != "deg"}
    args = [np.array(x) for x in zip(*vs)] if array else vs[0]
    require(freeze(f.fn(*args, **nodeg)) == freeze(f.fn(*args, **kd)), what + ": the default is not degrees")
    rec.tag("arrays" if array else "scalars")


# --- C40

ELLS = [n for n, f in R.ALL.items() if f.ell]


def lengths(kind):
    return kind in R.LEN


@sub("C40", of("default_is_wgs84", ELLS, 3, form=FORMS), n=2000)
def default_is_wgs84(c, rec):
    f = R.ALL[c["fn"]]
    vs = [R.row_values(f, r, 6378137.0, c["deg"]) for r in c["rows"]]
    args = [np.array(x) for x in zip(*vs)] if many(f, c) else vs[0]
    kw = f.kw(None, c["deg"])

    def go(**more):
        try:
            return freeze(f.fn(*args, **kw, **more))
        except Exception as e:  # noqa: BLE001
            return ("raised", type(e).__name__)

    one = go()
    for e in (None, pm.Ellipsoid.from_name("wgs84"), pm.Ellipsoid(6378137.0, 6356752.31424518)):
        two = go(ell=e)
        require(one == two, f"{f.name}{tuple(args)} {kw}: {one} without ell, {two} with ell={e}")
    if one[0] == "raised":
        rec.trivial = True
    rec.tag(f.name)


@sub("C40", of("scaling", ELLS, 3, form=FORMS, k=st.one_of(st.sampled_from([2.0, 0.5, 1024.0, 3.0, 0.1]), st.floats(0.01, 100))), n=4500)
def scaling(c, rec):
    f = R.ALL[c["fn"]]
    a, ell = setup(c, f)
    k = c["k"]
    b = float(ell.semiminor_axis)
    big = call(pm.Ellipsoid, a * k, b * k)
    array = many(f, c)
    vs = [R.row_values(f, r, a, c["deg"]) for r in (c["rows"] if array else c["rows"][:1])]
    ws = [[x * k if lengths(kind) else x for kind, x in zip(f.ins, v)] for v in vs]
    kw, kb = f.kw(ell, c["deg"]), f.kw(big, c["deg"])
    what = f"{f.name}{tuple(vs if array else vs[0])} {kw} scaled by {k}"
    e1, r1s = attempt(f, vs, kw, array)
    e2, r2s = attempt(f, ws, kb, array)
    if e1 or e2:
        if e1 is not e2:
            for i in range(len(vs)):
                for u in compare.nudged(f, vs[i], a, c["deg"], 4.0):
                    if attempt(f, with_row(vs, i, u), kw, array)[0] is e2:
                        return
        require(e1 is e2, what + f": {e1} {r1s} but {e2} {r2s}")
        rec.trivial = True
        return
    done = 0
    for i, (v, r1, r2) in enumerate(zip(vs, r1s, r2s)):
        if f.outs == ["az", "el", "rng"] and tiny(r1, c["deg"], 2e-3 * max(1, 1 / k)):
            rec.tag("below 1 mm")
            continue
        if at_pole(f, r1, min(a, a * k), c["deg"]):
            rec.tag("within 10 nm of a pole")  # ecef2geodetic calls that the pole
            continue
        done += 1
        back = [x / k if lengths(o) else x / k / k if o == "area" else x for o, x in zip(f.outs, r2)]
        how = agree(f, back, r1, v, a, c["deg"], lambda u: table(f, with_row(vs, i, u), kw, array)[i], what, "C40 " + f.name, ulps=32, slack=16.0)
        rec.tag(f.name, how)
    rec.trivial = not done
    rec.tag("arrays" if array else "scalars")


def tiny(aer, deg, lim):
    """does a local component fall below the documented trim?"""
    az, el, r = aer
    if deg:
        az, el = math.radians(az), math.radians(el)
    return any(abs(x) < lim for x in (r * math.cos(el) * math.sin(az), r * math.cos(el) * math.cos(az), r * math.sin(el)))


def at_pole(f, out, a, deg):
    """a position closer to the axis than ecef2geodetic distinguishes (10 nm)?"""
    top = 90.0 if deg and f.deg else math.pi / 2
    near = 2e-6 / a  # in degrees; more than enough in radians
    if "alt" in f.outs or f.name in ("latitude.geocentric2geodetic", "los.lookAtSpheroid"):
        return any(o == "lat" and top - abs(x) < near for o, x in zip(f.outs, out))
    if f.name == "nvector.ecef2nvector":
        return math.hypot(out[0], out[1]) < near
    return False


def generic(f):
    """rows away from equator, poles and coincidence"""
    lat = st.one_of(st.floats(20, 70), st.floats(-70, -20))
    lon = st.floats(-170, 170)
    S = dict(R.STRAT)
    S.update(lat=lat, lon=lon, az=st.floats(10, 80), el=st.floats(10, 60), tilt=st.floats(1, 15), alt=st.floats(0.001, 0.05), rng=st.floats(0.01, 0.2),
             rad=st.floats(0.995, 1.05), psi=st.one_of(st.floats(0.4, 2), st.floats(-2, -0.4)), rot=st.floats(10, 80))
    for k in "N E U D W S dr cr B".split():
        S[k] = st.one_of(st.floats(0.01, 0.1), st.floats(-0.1, -0.01))
    parts, i = [], 0
    while i < len(f.ins):
        k = f.ins[i]
        if k in ("pX", "n1"):
            r = st.floats(0.99, 1.1) if k == "pX" else st.just(1.0)
            parts.append(st.tuples(lat, lon, r).map(lambda t: [t[2] * x for x in R.unit(t[0], t[1])]))
            i += 3
        else:
            s = S[k]
            if k == "psi" or k == "el":
                pass
            parts.append(s.map(lambda x: [x]))
            i += 1
    return st.tuples(*parts).map(lambda ps: [x for p in ps for x in p])


@sub("C40", st.sampled_from(sorted(ELLS)).flatmap(functools.lru_cache(None)(lambda n: st.fixed_dictionaries(dict(fn=st.just(n), row=generic(R.ALL[n]), f=st.lists(st.sampled_from([0.0, 0.002, 1 / 298.257223563, 0.01, 0.03, 0.08]), min_size=2, max_size=2, unique=True), keep=st.sampled_from(["a", "b"]))))), n=700)
def shape_counts(c, rec):
    """two ellipsoids that share one axis do not give the same results"""
    f = R.ALL[c["fn"]]
    a = 6378137.0
    v = R.row_values(f, c["row"], a, True)
    # the shared axis: a result may depend on that axis alone (parallel radius does not)
    e1, e2 = [call(pm.Ellipsoid, a, a * (1 - q)) if c["keep"] == "a" else call(pm.Ellipsoid, a / (1 - q), a) for q in c["f"]]
    what = f"{f.name}{tuple(v)} on {e1} and {e2}"
    try:
        r1, r2 = [scalars(f, v, f.kw(e, True)) for e in (e1, e2)]
    except Violation:
        raise
    except Exception as e:  # noqa: BLE001
        if f.name == "vincenty.track2" and isinstance(e, ValueError):
            return
        raise Violation(what + f" raised {e!r}") from None
    if any(math.isnan(x) for x in r1 + r2):
        rec.trivial = True
        return
    ds = [compare.diff(k, x, y, True) / (max(abs(x), abs(y), 1e-30) if k in R.LEN or k == "area" else 57.0) for k, x, y in zip(f.outs, r1, r2)]
    if max(abs(x) for x in r1) < 1e-6 or len(set(c["row"])) < len(c["row"]):
        rec.trivial = True  # coincident points
        return
    require(max(ds) > 1e-9, what + f": same result {r1}")
    rec.tag(f.name)


# --- C41

SERVERS = {}


def ask(cfg, req):
    import json
    import os
    import subprocess
    import sys

    p = SERVERS.get(cfg)
    if p is None:
        py = {"f": "/opt/venv/bin/python", "s": "/opt/venv-stdlib/bin/python"}[cfg]
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        p = SERVERS[cfg] = subprocess.Popen([py, "-B", os.path.join(here, "harness", "server.py")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        import atexit

        atexit.register(p.kill)
    p.stdin.write(json.dumps(req) + "\n")
    p.stdin.flush()
    line = p.stdout.readline()
    if not line:
        raise RuntimeError(f"the {cfg} interpreter ended")
    return json.loads(line)


def spoil():
    """which argument gets which out-of-domain value"""
    return st.one_of(st.none(), st.none(), st.none(), st.tuples(st.integers(0, 11), st.sampled_from(["over", "under", "negative", "nan"]), st.sampled_from([1e-9, 0.5, 30.0])))


def spoiled(f, v, how, deg):
    if how is None:
        return v, None
    i, kind, by = how
    i %= max(1, len(f.ins))
    v = list(v)
    if not v:
        return v, None
    k = f.ins[i]
    if kind == "nan":
        v[i] = math.nan
    elif kind in ("over", "under") and k == "lat":
        top = 90.0 if deg and f.deg else math.pi / 2
        v[i] = (top + by) * (1 if kind == "over" else -1)
    elif kind in ("over", "under") and k == "latd":
        v[i] = (90 + by) * (1 if kind == "over" else -1)
    elif kind == "negative" and k in ("rng", "rad", "alt"):
        v[i] = -abs(v[i]) - by
    else:
        return v, None
    return v, f"{k} {kind}"


SAME41 = [n for n in R.ALL if n not in ("lox.meanm", "haversine.anglesep")]


# no answer exists for parallel circles, opposite points or vectors that cancel
DEGENERATE = {"nvector.nvector_cross_track_distance", "nvector.nvector_intersection", "nvector.nvector_mean", "nvector.nvector_interpolate"}


def strategy41():
    a = [n for n in SAME41]
    t = sorted(R.TIMED)
    return st.one_of(
        *[st.sampled_from(sorted(a)).flatmap(functools.lru_cache(None)(lambda n: one(n, t=st.just(""), spoil=spoil())))] * 4,
        st.sampled_from(t).flatmap(functools.lru_cache(None)(lambda n: st.fixed_dictionaries(dict(
            fn=st.just(n), rows=st.lists(R.rows(R.TIMED[n]), min_size=1, max_size=1), ell=g.ellspec(0.12, amin=5, amax=8) if R.TIMED[n].ell else st.just(WGS),
            deg=g.deg() if R.TIMED[n].deg else st.just(True), t=g.iso((1973, 1, 1), (2030, 1, 1)), spoil=spoil())))))


OFK["same_everywhere"] = lambda n: one(n, t=st.just(""), spoil=spoil()) if n in SAME41 else None


@sub("C41", strategy41, n=1500, cfgs="n")
def same_everywhere(c, rec):
    timed = bool(c["t"])
    f = R.TIMED[c["fn"]] if timed else R.ALL[c["fn"]]
    a, ell = setup(c, f)
    deg = c["deg"]
    # no geodesic leaves a latitude beyond the poles, and Karney's functions do not look for one
    how = None if f.name.startswith("karney.") and c["spoil"] and c["spoil"][1] != "nan" else c["spoil"]
    v, spoilt = spoiled(f, R.row_values(f, c["rows"][0], a, deg), how, deg)
    extra = [g.dt(c["t"])] if timed else []
    kw = f.kw(ell, deg)
    what = f"{f.name}{tuple(v + extra)} {kw}"

    def here(u):
        return scalars(F2(f, extra), u, kw)

    try:
        mine = {"ok": here(v)}
    except Violation as e:
        mine = {"bad": str(e)}
    except Exception as e:  # noqa: BLE001
        mine = {"err": type(e).__name__, "msg": str(e)}
    require("bad" not in mine, what + f": {mine}")
    cfgs = "s" if timed and f.name in R.ASTROPY else "sf"
    how = ""
    for cfg in cfgs:
        got = ask(cfg, dict(fn=f.name, vals=v, ell=c["ell"] if f.ell else None, deg=deg, t=c["t"]))
        where = {"s": "the standard library only", "f": "numpy and astropy"}[cfg]
        if "broken" in got:
            raise RuntimeError(f"{cfg}: {got}")
        require("bad" not in got, what + f" with {where}: {got}")
        if "err" in got or "err" in mine:
            if got.get("err") != mine.get("err") and not spoilt:
                # next to a limit rounding may decide
                for u in compare.nudged(f, v, a, deg, 4.0):
                    try:
                        here(u)
                        e = None
                    except Exception as x:  # noqa: BLE001
                        e = type(x).__name__
                    if e == got.get("err"):
                        return
            if f.name in DEGENERATE and {got.get("err"), mine.get("err")} == {None, "ZeroDivisionError"}:
                ok = mine.get("ok") or got.get("ok")
                require(not all(math.isfinite(x) for x in ok), what + f": numpy only {mine}, {where} {got}")
                rec.tag("undefined")
                continue
            require(got.get("err") == mine.get("err"), what + f": numpy only {mine}, {where} {got}")
            rec.tag("error " + str(got.get("err")))
            continue
        if at_pole(f, mine["ok"], a, deg):
            rec.tag("within 10 nm of a pole")
            continue
        how = agree(f, got["ok"], mine["ok"], v, a, deg, here, what + f": numpy only and {where}", f"C41 {cfg} {f.name}")
    rec.tag(f.name, how, *([spoilt] if spoilt else []))


class F2:
    """the function with its trailing time bound"""

    def __init__(self, f, extra):
        self.name, self.outs = f.name, f.outs
        self.fn = (lambda *v, **kw: f.fn(*v, *extra, **kw)) if extra else f.fn


# --- C43


@functools.lru_cache(None)
def alternatives(n):
    f = R.ALL[n]
    return st.fixed_dictionaries(dict(
        fn=st.just(n), rows=st.lists(generic(f), min_size=2, max_size=2), arg=st.integers(0, 11), ell=g.ellspec(0.12, amin=5, amax=8) if f.ell else st.just(WGS),
        deg=g.deg() if f.deg else st.just(True), at=st.integers(0, 2)))


HASARGS = sorted(n for n, f in R.ALL.items() if f.ins)
OFK["nan_stays"] = lambda n: alternatives(n) if n in HASARGS else None


@sub("C43", st.sampled_from(HASARGS).flatmap(alternatives), n=900)
def nan_stays(c, rec):
    f = R.ALL[c["fn"]]
    a, ell = setup(c, f)
    deg = c["deg"]
    kw = f.kw(ell, deg)
    v = R.row_values(f, c["rows"][0], a, deg)
    w = R.row_values(f, c["rows"][1], a, deg)
    i = c["arg"] % len(f.ins)

    def swap(x):
        u = list(v)
        u[i] = x
        return u

    def go(u):
        try:
            return scalars(f, u, kw)
        except Violation:
            raise
        except (ValueError, ZeroDivisionError) as e:
            if f.name == "vincenty.track2" and isinstance(e, ValueError):  # opposite end points have no track
                return None
            if f.name in DEGENERATE and isinstance(e, ZeroDivisionError):
                return None
            raise Violation(f"{f.name}{tuple(u)} {kw} raised {e!r}") from None
        except Exception as e:  # noqa: BLE001
            raise Violation(f"{f.name}{tuple(u)} {kw} raised {e!r}") from None

    base = go(v)
    others = [go(swap(w[i])), go(swap(v[i] + 0.25 * (w[i] - v[i]))), go(swap(v[i] * 1.0625 if abs(v[i]) > 1e-9 * a else w[i]))]
    if base is None or any(o is None for o in others):
        rec.trivial = True
        return
    got = go(swap(math.nan))
    what = f"{f.name}{tuple(swap(math.nan))} {kw}"
    dependent = 0
    for k, kind in enumerate(f.outs):
        tol = 1e4 * compare.strict(f, kind, base[k], v, a, deg)
        moves = [not compare.diff(kind, o[k], base[k], deg and f.deg) <= tol for o in others]
        if any(moves):
            dependent += 1
            require(math.isnan(got[k]), what + f": result {k} ({kind}) is {got[k]!r} although it depends on argument {i}")
        elif not math.isnan(got[k]):
            require(compare.diff(kind, got[k], base[k], deg and f.deg) <= tol or math.isnan(base[k]), what + f": result {k} ({kind}) is {got[k]!r}, with a number it is {base[k]!r}")
    rec.tag(f.name, dependent)
    if not dependent:
        rec.trivial = True
    if np is None or not f.arrays:
        return
    # one NaN among numbers: its neighbours are untouched, it stays NaN
    j = c["at"]
    cols = [np.array([p] * 3) for p in v]
    cols[i][j] = math.nan
    out = flat(call(f.fn, *cols, **kw))
    for k, kind in enumerate(f.outs):
        o = np.broadcast_to(np.asarray(out[k], dtype=float), (3,))
        for m in range(3):
            tol = max(1e4, 16 * compare.ITERATED / compare.EPS if compare.iterated(f) else 0) / 16 * compare.strict(f, kind, base[k], v, a, deg)
            x = float(o[m])
            if m == j:
                require(math.isnan(x) == math.isnan(got[k]) or math.isnan(x), f"{f.name}{tuple(cols)} {kw}: result {k}[{m}] is {x!r}, the scalar call gives {got[k]!r}")
            else:
                require(compare.diff(kind, x, base[k], deg and f.deg) <= tol, f"{f.name}{tuple(cols)} {kw}: result {k}[{m}] is {x!r}, the scalar call gives {base[k]!r}")


# function, argument, what is rejected
REJECT = [
    ("los.lookAtSpheroid", 2, "negative"), ("lox.loxodrome_direct", 0, "lat"), ("lox.loxodrome_direct", 2, "negative"),
    ("vincenty.vdist", 0, "lat"), ("vincenty.vdist", 2, "lat"), ("vincenty.vreckon", 0, "lat"), ("vincenty.vreckon", 2, "negative"),
    ("vincenty.track2", 0, "lat"), ("vincenty.track2", 2, "lat"),
    ("azel2radec", 2, "lat"), ("radec2azel", 2, "lat"), ("vallado.azel2radec", 2, "lat"), ("vallado.radec2azel", 2, "lat"),
]


def reject_strategy():
    @functools.lru_cache(None)
    def mk(e):
        f = R.ALL.get(e[0]) or R.TIMED[e[0]]
        return st.fixed_dictionaries(dict(
            fn=st.just(e[0]), arg=st.just(e[1]), kind=st.just(e[2]), row=R.rows(f), row2=R.rows(f), by=g.logmag(-9, 3), sign=st.sampled_from([1.0, -1.0]), deg=g.deg() if f.deg else st.just(True),
            ell=g.ellspec(0.12, amin=5, amax=8) if f.ell else st.just(WGS), n=st.one_of(st.integers(1, 4), st.integers(1, 4), st.sampled_from([64, 1001, 10007])), at=st.integers(0, 20000), mixed=st.booleans(), nan=st.booleans()))

    return st.sampled_from(REJECT).flatmap(mk)


@sub("C43", reject_strategy, n=300)
def domain(c, rec):
    f = R.ALL.get(c["fn"]) or R.TIMED[c["fn"]]
    timed = c["fn"] not in R.ALL
    a, ell = setup(c, f)
    kw = f.kw(ell, c["deg"])
    extra = [g.dt("2020-02-29T12:00:00")] if timed else []
    v = R.row_values(f, c["row"], a, c["deg"])
    good = R.row_values(f, c["row2"], a, c["deg"])
    i = c["arg"]
    top = 90.0 if (c["deg"] and f.deg) or timed else math.pi / 2
    if c["kind"] == "lat":
        bad, limits = c["sign"] * (top + c["by"]), [top, -top]
    else:
        bad, limits = -c["by"] * c["by"], [0.0, -0.0]
    v[i] = bad
    must_raise(ValueError, f.fn, *v, *extra, **kw)
    for x in limits:
        u = list(v)
        u[i] = x
        try:
            f.fn(*u, *extra, **kw)
        except ValueError as e:
            antipodal = f.name == "vincenty.track2" and "antipodal" in str(e)
            require(antipodal, f"{f.name}{tuple(u)} {kw}: the boundary value {x} was rejected: {e}")
        except Exception as e:  # noqa: BLE001
            raise Violation(f"{f.name}{tuple(u)} {kw} raised {e!r}") from None
    rec.tag(f.name)
    if np is None or not f.arrays:
        return
    n, at = c["n"], c["at"] % c["n"]
    cols = [np.array([q] * n) for q in good]
    cols[i][at] = bad
    if c.get("nan") and n > 1:
        cols[i][(at + 1) % n] = math.nan  # does not hide the other
        rec.tag("NaN beside it")
    if c["mixed"]:
        cols = [x if m == i else q for m, (x, q) in enumerate(zip(cols, good))]
    must_raise(ValueError, f.fn, *cols, *extra, **kw)
    rec.tag("array", "mixed" if c["mixed"] else "")


@sub("C43", st.fixed_dictionaries(dict(word=st.one_of(st.text(max_size=6), st.sampled_from(["NED", "ned ", "xyz", "zxy", "ZYX", "Mean", "norm ", "median", "ENU", ""])), lat=g.lat(), lon=g.lon(), n=st.integers(-3, 1), deg=g.deg(), pts=st.lists(st.tuples(g.lat(), g.lon()), max_size=2))), n=80)
def words(c, rec):
    """unknown methods, frames and sequences, and too few points"""
    from pymap3d import karney, rsphere, vincenty

    w, d = c["word"], c["deg"]
    e = pm.Ellipsoid.from_name("wgs84")
    v = math.radians(1)
    p = (3e6, 4e6, 4e6)
    at = (0.3, 0.2, 100.0)
    rot = (0.1, 0.2, 0.3)
    if w not in ("mean", "norm"):
        for fn in (rsphere.biaxial, rsphere.triaxial):
            must_raise(ValueError, fn, e, method=w)
        must_raise(ValueError, rsphere.curve, v, e, deg=d, method=w)
    if w not in ("ned", "enu", "nwu", "sez"):
        must_raise(ValueError, pm.ecef2body, *p, *at, *rot, frame=w, deg=d)
        must_raise(ValueError, pm.body2ecef, 1.0, 2.0, 3.0, *at, *rot, frame=w, deg=d)
        must_raise(ValueError, pm.geodetic2body, 0.1, 0.2, 3.0, *at, *rot, frame=w, deg=d)
        must_raise(ValueError, pm.body2geodetic, 1.0, 2.0, 3.0, *at, *rot, frame=w, deg=d)
        must_raise(ValueError, pm.ecef2bodyv, *p, *at[:2], *rot, frame=w, deg=d)
        must_raise(ValueError, pm.body2ecefv, *p, *at[:2], *rot, frame=w, deg=d)
    if w != "zyx":
        for fr in R.LOCAL:
            must_raise(ValueError, getattr(pm, f"{fr}2body"), 1.0, 2.0, 3.0, *rot, sequence=w, deg=d)
            must_raise(ValueError, getattr(pm, f"body2{fr}"), 1.0, 2.0, 3.0, *rot, sequence=w, deg=d)
            must_raise(ValueError, pm.geodetic2body, 0.1, 0.2, 3.0, *at, *rot, frame=fr, sequence=w, deg=d)
            must_raise(ValueError, pm.body2ecefv, *p, *at[:2], *rot, frame=fr, sequence=w, deg=d)
        must_raise(ValueError, pm.body_matrix, *rot, sequence=w, deg=d)
    must_raise(ValueError, karney.geodesic_area, [q[0] for q in c["pts"]], [q[1] for q in c["pts"]])
    must_raise(ValueError, vincenty.track2, 0.1, 0.2, 0.3, 0.4, npts=c["n"], deg=d)


# --- C45

VECTORS = [("pX", "pY", "pZ"), ("X", "Y", "Z"), ("n1", "n2", "n3")]


def vectors(kinds):
    return [i for i in range(len(kinds) - 2) if tuple(kinds[i:i + 3]) in VECTORS]


def rotate(kinds, vals, delta):
    """about the axis, by delta radians"""
    v = list(vals)
    s, co = math.sin(delta), math.cos(delta)
    for i in vectors(kinds):
        x, y = v[i], v[i + 1]
        v[i], v[i + 1] = x * co - y * s, x * s + y * co
    return v


def shiftable(f):
    return "utils." not in f.name and not f.name.endswith("_matrix") and ("lon" in f.ins or any(True for _ in vectors(f.ins)))


def mirrorable(f):
    return "utils." not in f.name and not f.name.endswith("_matrix") and not {"rot", "B"} & set(f.ins + f.outs) and f.ins and f.name != "nvector.nvector_intersection"


SHIFT = [n for n, f in R.ALL.items() if shiftable(f)]
MIRROR = [n for n, f in R.ALL.items() if mirrorable(f)]
AXIAL = ("alt", "az")  # results that come with a position or a direction


def undefined_at(f, vals, out, a, deg):
    """positions on the axis have no longitude (ecef2geodetic: within 10 nm)"""
    return at_pole(f, out, a, deg)


@sub("C45", of("turn", SHIFT, 3, form=FORMS, by=st.one_of(st.sampled_from([360.0, -360.0, 180.0, 90.0, -720.0]), st.floats(-360, 360))), n=3000)
def turn(c, rec):
    f = R.ALL[c["fn"]]
    a, ell = setup(c, f)
    deg = c["deg"]
    kw = f.kw(ell, deg)
    by = c["by"] if deg and f.deg else math.radians(c["by"])
    array = many(f, c)
    vs = [R.row_values(f, r, a, deg) for r in (c["rows"] if array else c["rows"][:1])]
    ws = [[x + by if k == "lon" else x for k, x in zip(f.ins, rotate(f.ins, v, math.radians(c["by"])))] for v in vs]
    what = f"{f.name}{tuple(vs if array else vs[0])} {kw} turned by {c['by']} degrees"
    compare_images(f, array, a, deg, kw, vs, ws, what, rec, lambda out: [x + by if k == "lon" else x for k, x in zip(f.outs, rotate(f.outs, out, math.radians(c["by"])))], "C45t ")


def compare_images(f, array, a, deg, kw, vs, ws, what, rec, image, label):
    e1, r1s = attempt(f, vs, kw, array)
    e2, r2s = attempt(f, ws, kw, array)
    if e1 or e2:
        if e1 is not e2:
            if f.name in DEGENERATE:
                return
            for i in range(len(vs)):
                for u in compare.nudged(f, vs[i], a, deg, 8.0):
                    if attempt(f, with_row(vs, i, u), kw, array)[0] is e2:
                        return
        require(e1 is e2, what + f": {e1} {r1s} but {e2} {r2s}")
        rec.trivial = True
        return
    done = 0
    for i, (v, r1, r2) in enumerate(zip(vs, r1s, r2s)):
        if undefined_at(f, v, r1, a, deg):
            rec.tag("on the axis")
            continue
        if f.name in DEGENERATE and any(math.isnan(x) for x in r1 + r2):
            continue
        done += 1
        want = image(r1)
        if f.outs == ["az", "el", "rng"]:
            el = math.radians(r1[1]) if deg else r1[1]
            if abs(r1[2] * math.cos(el)) < 3e-3 and abs(r2[2] * math.cos(el)) < 3e-3:
                r2[0] = want[0]  # straight up or down: no azimuth
        how = agree(f, r2, want, v, a, deg, lambda u: image(table(f, with_row(vs, i, u), kw, array)[i]), what, label + f.name, ulps=64, slack=32.0)
        rec.tag(f.name, how)
    rec.trivial = not done
    rec.tag("arrays" if array else "scalars")


def near_opposite(f, row):
    """geodesics (and the short way round) between these points may not be unique"""
    lls = [(row[i], row[i + 1]) if f.ins[i] == "lat" else (row[i + 1], row[i]) for i in range(len(f.ins) - 1) if {f.ins[i], f.ins[i + 1]} == {"lat", "lon"}]
    lls = lls[:1] + lls[2:] if f.name.startswith("haversine") and len(lls) == 3 else lls
    us = [R.unit(*p) for p in lls]
    for i in range(len(us)):
        for j in range(i):
            dot = sum(x * y for x, y in zip(us[i], us[j]))
            if dot < -0.9:
                return True
            if abs(abs(math.remainder(lls[i][1] - lls[j][1], 360.0)) - 180.0) < 1e-9:
                return True
    return False


def neg(kinds, vals, names):
    return [-x if k in names else x for k, x in zip(kinds, vals)]


@sub("C45", of("mirror", MIRROR, 3, form=FORMS, plane=st.sampled_from(["equator", "meridian"])), n=3000)
def mirror(c, rec):
    f = R.ALL[c["fn"]]
    a, ell = setup(c, f)
    deg = c["deg"]
    kw = f.kw(ell, deg)
    array = many(f, c)
    rows = c["rows"] if array else c["rows"][:1]
    if any(near_opposite(f, row) for row in rows):
        rec.trivial = True
        rec.tag("nearly opposite")
        return
    vs = [R.row_values(f, row, a, deg) for row in rows]
    half = 180.0 if deg and f.deg else math.pi
    if c["plane"] == "equator":
        names = {"lat", "psi", "Z", "pZ", "n3", "N", "S", "cr", "area"}

        def image(kinds, vals):
            return [half - x if k == "az" else x for k, x in zip(kinds, neg(kinds, vals, names))]
    else:
        names = {"lon", "Y", "pY", "n2", "E", "W", "cr", "area", "az"}

        def image(kinds, vals):
            return neg(kinds, vals, names)

    ws = [image(f.ins, v) for v in vs]
    what = f"{f.name}{tuple(vs if array else vs[0])} {kw} mirrored in the {c['plane']}"
    compare_images(f, array, a, deg, kw, vs, ws, what, rec, lambda out: image(f.outs, out), "C45m ")
