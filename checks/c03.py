"""C03: operations on distributed arrays agree with numpy on the global array."""

import warnings

from hypothesis import strategies as st

from vf.core import Info, Part, check, close_array, same_array

from . import mpihelp as mh

PROPERTY = "C03"
EXTS = {}

KINDS = ["unary", "binary", "inplace", "out", "two", "reduce", "accumulate", "index", "transpose", "reshape",
         "method"]
BAD = ["dist axis", "np length", "where", "np out", "bad out", "outer", "reduce dist", "accumulate dist", "reshape"]


class Pick:
    def __init__(self, vals):
        self.v, self.i = vals, 0

    def __call__(self, n):
        """A number below n."""
        x = self.v[self.i % len(self.v)]
        self.i += 1
        return x % n if n > 0 else 0

    def of(self, seq):
        return seq[self(len(seq))]


@st.composite
def cases(draw):
    shape = draw(mh.shapes(maxsize=400, maxn=7))
    ints = st.lists(st.integers(0, 1000), min_size=14, max_size=14)
    return {
        "shape": shape,
        "axis": draw(st.integers(0, len(shape) - 1)),
        "dtype": draw(st.sampled_from(["<f8", "<f8", "<f4", "<c16", "<i8", "<i4", "|b1"])),
        "how": draw(st.sampled_from(["C", "C", "F", "strided"])),
        "ops": draw(st.lists(st.tuples(st.sampled_from(KINDS), ints).map(list), min_size=1, max_size=4)),
        "bad": draw(st.tuples(st.sampled_from(BAD), ints).map(list)),
    }


def close(ctx, arr, G, msg, axis):
    """Like verify; complex and inexact values are compared to rounding."""
    import numpy as np

    if G.dtype.kind in "c" or G.dtype.kind == "f":
        mh.verify(ctx, arr, arr_like(G, arr, ctx, msg), msg, axis=axis)
    else:
        mh.verify(ctx, arr, G, msg, axis=axis)


def arr_like(G, arr, ctx, msg):
    """G, with this process's block taken from arr where it agrees to rounding."""
    import numpy as np
    from caput.mpiarray import MPIArray

    if not isinstance(arr, MPIArray) or tuple(arr.global_shape) != G.shape or arr.dtype != G.dtype:
        return G
    if not 0 <= arr.axis < G.ndim:
        return G
    blk = mh.block(G, arr.axis, ctx.size, ctx.rank)
    if blk.shape != arr.shape:
        return G
    eps = np.finfo(G.dtype).eps
    close_array(arr.local_array, blk, 16 * eps, 16 * eps, msg)
    out = G.copy()
    mh.block(out, arr.axis, ctx.size, ctx.rank)[...] = arr.local_array
    return out


def operand(pk, G, axis, ctx):
    """-> (distributed or plain operand, its global value, description)"""
    import numpy as np

    k = pk(8)
    dts = [np.dtype(x) for x in ("<f8", "<f4", "<i8", "<c16", "<i4")]
    d = pk.of(dts)
    if k == 0:
        x = pk.of([2, 3.5, -1, True, 1 + 2j])
        return x, x, "python scalar"
    if k == 1:
        x = d.type(pk(50))
        return x, x, "numpy scalar"
    # a shape that broadcasts against G
    drop = pk(G.ndim + 1) if pk(3) == 0 else 0
    sh = list(G.shape[drop:])
    for i in range(len(sh)):
        if pk(4) == 0:
            sh[i] = 1
    pos = axis - drop
    if k in (2, 3):
        if pos >= 0:
            sh[pos] = 1
        x = mh.content(sh, d.str, pk(9))
        return x, x, "plain array"
    if k == 4 and pos == 0 or pos < 0:
        # more dimensions than G: the array broadcasts against it
        extra = [1 + pk(3)] * (1 + pk(2))
        full = extra + list(G.shape)
        if pk(2):
            full = [1 if pk(4) == 0 and i != len(extra) + axis else n for i, n in enumerate(full)]
        x = mh.content(full, d.str, pk(9))
        if pk(2):
            return mh.dist(ctx, x, len(extra) + axis), x, "larger distributed array"
        full[len(extra) + axis] = 1
        x = mh.content(full, d.str, pk(9))
        return x, x, "larger plain array"
    sh[pos] = G.shape[axis]
    x = mh.content(sh, d.str, pk(9))
    return mh.dist(ctx, x, pos), x, "distributed array"


def index(pk, G, axis):
    """A random index that keeps the distributed axis whole."""
    import numpy as np

    out = []
    adv = False
    blen = 1 + pk(3)
    for i, n in enumerate(G.shape):
        if pk(6) == 5:
            out.append(None)
        if i == axis:
            out.append(slice(None))
            continue
        k = pk(8)
        if k <= 1 and n:
            v = pk(2 * n) - n
            out.append(pk.of([int, np.int64, np.int32])(v))
        elif k == 2 and n and (not adv or pk(2)):
            lst = [pk(2 * n) - n for _ in range(blen)]
            out.append(pk.of([list, np.array])(lst))
            adv = True
        elif k == 3 and n and not adv:
            m = np.array([bool(pk(2)) for _ in range(n)])
            out.append(m)
            adv = "mask"
        elif k <= 6:
            f = lambda: pk.of([None, 0, 1, 2, -1, -2, n, n + 2])  # noqa: E731
            out.append(slice(f(), f(), pk.of([None, 1, 2, -1, -2, 3])))
        else:
            out.append(slice(None))
    if adv == "mask":  # a mask and lists must broadcast: keep the mask alone
        out = [slice(None) if isinstance(o, list) or (isinstance(o, np.ndarray) and o.dtype != bool) else o
               for o in out]
    # abbreviate full slices at the end, or in the middle, to an ellipsis
    full = lambda o: isinstance(o, slice) and o == slice(None)  # noqa: E731
    if pk(2):
        while out and full(out[-1]):
            out.pop()
        if pk(2):
            out.append(Ellipsis)
    elif pk(2):
        runs = [i for i, o in enumerate(out) if full(o)]
        if runs:
            a = pk.of(runs)
            b = a
            while b + 1 < len(out) and full(out[b + 1]):
                b += 1
            out[a:b + 1] = [Ellipsis]
    if len(out) == 1 and pk(2) and not isinstance(out[0], (list,)):
        return out[0]
    return tuple(out)


def dist_position(ix, G, axis):
    """Where numpy puts the distributed axis, found from its stride marker."""
    import numpy as np

    # an array whose value is its own index along the distributed axis
    n = max(2, G.shape[axis])
    sh = list(G.shape)
    sh[axis] = n
    mark = np.arange(n).reshape([n if i == axis else 1 for i in range(G.ndim)]) + np.zeros(sh, int)
    got = mark[ix]
    for p in range(got.ndim):
        if got.shape[p] == n and got.size:
            m = np.moveaxis(got, p, 0)
            if all((m[i] == i).all() for i in range(n)):
                return p
    return None


UNARY = ["negative", "absolute", "square", "conjugate", "isfinite", "sign", "positive", "sqrt", "logical_not",
         "exp", "isnan"]
BINARY = ["add", "subtract", "multiply", "maximum", "minimum", "divide", "greater", "equal", "not_equal",
          "logical_and", "less_equal", "power2"]


def supports(f, *a):
    """numpy accepts the operands."""
    import numpy as np

    try:
        with np.errstate(all="ignore"):
            return True, f(*a)
    except (TypeError, ValueError, IndexError):
        return False, None


def step(kind, pk, arr, G, axis, ctx):
    """-> (arr, G, axis, label); arr is verified by the caller"""
    import numpy as np

    if kind == "unary":
        f = getattr(np, pk.of(UNARY))
        ok, want = supports(f, G)
        if not ok:
            return arr, G, axis, "unsupported"
        return f(arr), want, axis, "unary"
    if kind in ("binary", "inplace", "out"):
        x, gx, what = operand(pk, G, axis, ctx)
        name = pk.of(BINARY)
        f = (lambda a, b, **k: np.multiply(a, b, **k)) if name == "power2" else getattr(np, name)
        if kind == "binary":
            if pk(2):
                ok, want = supports(f, G, gx)
                go = lambda: f(arr, x)  # noqa: E731
            else:
                ok, want = supports(f, gx, G)
                go = lambda: f(x, arr)  # noqa: E731
            if not ok:
                return arr, G, axis, "unsupported"
            return go(), want, want.ndim - G.ndim + axis, "binary with " + what
        if kind == "inplace":
            import operator as o

            op = pk.of([o.iadd, o.isub, o.imul])
            want = G.copy()
            try:
                with np.errstate(all="ignore"):
                    op(want, gx)
            except (TypeError, ValueError):
                return arr, G, axis, "unsupported"
            if want.shape != np.broadcast_shapes(G.shape, np.shape(gx)):
                return arr, G, axis, "unsupported"
            a2 = arr.copy()
            keep = a2
            a2 = op(a2, x)
            check(a2 is keep, "in-place operation returned another object")
            return a2, want, axis, "in place with " + what
        ok, want = supports(f, G, gx)
        if not ok:
            return arr, G, axis, "unsupported"
        pos = want.ndim - G.ndim + axis
        out = mh.dist(ctx, np.zeros_like(want), pos)
        r = f(arr, x, out=out)
        check(r is out, "the result with out= is another object")
        return r, want, pos, "out with " + what
    if kind == "two":
        f = pk.of([np.modf, np.frexp, np.divmod])
        args = (G, 3) if f is np.divmod else (G,)
        ok, want = supports(f, *args)
        if not ok:
            return arr, G, axis, "unsupported"
        got = f(arr, 3) if f is np.divmod else f(arr)
        check(isinstance(got, tuple) and len(got) == 2, "two outputs expected")
        close(ctx, got[1], want[1], f"second output of {f}", axis)
        return got[0], want[0], axis, "two outputs"
    if kind == "reduce":
        others = [i for i in range(G.ndim) if i != axis]
        keep = bool(pk(2))
        name = pk.of(["sum", "max", "min", "any", "all", "mean", "prod"])
        if G.dtype.kind in "fc" and name == "prod":
            name = "sum"
        if G.dtype.kind == "c" and name in ("max", "min"):
            name = "sum"
        sel = [i for i in others if pk(2)]
        if not sel:
            sel = others[:1]
        if not sel:
            return arr, G, axis, "unsupported"
        if name in ("max", "min", "mean") and any(G.shape[i] == 0 for i in sel):
            name = "sum"
        a = tuple(i - G.ndim if pk(3) == 0 else i for i in sel)
        if len(a) == 1 and pk(2):
            a = a[0]
        with np.errstate(all="ignore"):
            want = getattr(G, name)(axis=a, keepdims=keep)
        got = getattr(arr, name)(axis=a, keepdims=keep) if pk(2) else getattr(np, name)(arr, axis=a, keepdims=keep)
        pos = axis if keep else axis - sum(i < axis for i in sel)
        return got, want, pos, f"reduce {name}"
    if kind == "accumulate":
        others = [i for i in range(G.ndim) if i != axis]
        if not others or G.dtype.kind == "b":
            return arr, G, axis, "unsupported"
        i = pk.of(others)
        i = i - G.ndim if pk(2) else i
        if pk(2):
            f = pk.of([np.cumsum, np.add.accumulate])
            return f(arr, axis=i), f(G, axis=i), axis, "accumulate"
        if G.dtype.kind == "c":
            return arr, G, axis, "unsupported"
        return np.maximum.accumulate(arr, axis=i), np.maximum.accumulate(G, axis=i), axis, "accumulate"
    if kind == "index":
        ix = index(pk, G, axis)
        ok, want = supports(lambda: G[ix])
        if not ok:
            return arr, G, axis, "unsupported"
        pos = dist_position(ix, G, axis)
        if pos is None:
            return arr, G, axis, "unsupported"
        return arr[ix], want, pos, "index"
    if kind == "transpose":
        k = pk(6)
        if k == 5:
            a, b = pk(2 * G.ndim) - G.ndim, pk(2 * G.ndim) - G.ndim
            order = list(range(G.ndim))
            if pk(2):
                order[a], order[b] = order[b], order[a]
                f = pk.of([lambda x: x.swapaxes(a, b), lambda x: np.swapaxes(x, a, b)])
            else:
                order.insert(b % G.ndim, order.pop(a))
                f = lambda x: np.moveaxis(x, a, b)  # noqa: E731
            return f(arr), f(G), order.index(axis), "transpose"
        if k == 0:
            return arr.T, G.T, G.ndim - 1 - axis, "transpose"
        if k == 1:
            f = pk.of([lambda a: a.transpose(), lambda a: a.transpose(None), np.transpose])
            return f(arr), f(G), G.ndim - 1 - axis, "transpose"
        perm = list(range(G.ndim))
        for i in range(G.ndim - 1, 0, -1):
            j = pk(i + 1)
            perm[i], perm[j] = perm[j], perm[i]
        pos = perm.index(axis)
        shown = [p - G.ndim if pk(3) == 0 else p for p in perm]
        want = G.transpose(shown)
        if k == 2:
            return arr.transpose(*shown), want, pos, "transpose"
        if k == 3:
            return arr.transpose(tuple(shown)), want, pos, "transpose"
        return np.transpose(arr, shown), want, pos, "transpose"
    if kind == "reshape":
        pre, post = G.shape[:axis], G.shape[axis + 1:]

        def split(dims):
            n = 1
            for d in dims:
                n *= d
            out = []
            while n > 1 and pk(3):
                f = [d for d in range(1, n + 1) if n % d == 0]
                d = pk.of(f)
                out.append(d)
                n //= d
            if n != 1 or pk(3) == 0:
                out.append(n)
            return out

        a, b = split(pre), split(post)
        order = pk.of(["C", "C", "F"])
        want = G.reshape(a + [G.shape[axis]] + b, order=order)
        new = a + [None] + b
        if G.size and pk(2):
            free = [i for i, x in enumerate(new) if x is not None]
            if free:
                new[pk.of(free)] = -1
        got = arr.reshape(new, order=order) if pk(2) else arr.reshape(*new, order=order)
        return got, want, len(a), "reshape"
    if kind == "method":
        k = pk(4)
        if k == 0:
            return arr.real, G.real, axis, "real"
        if k == 1 and G.dtype.kind == "c":
            return arr.imag, G.imag, axis, "imag"
        if k == 2:
            return arr.conj(), G.conj(), axis, "conj"
        return arr.copy(), G.copy(), axis, "copy"
    raise AssertionError(kind)


def run(case, ctx):
    import numpy as np

    from caput.mpiarray import AxisException, MPIArray, UnsupportedOperation

    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    axis = case["axis"]
    G = mh.content(case["shape"], case["dtype"])
    arr = mh.dist(ctx, G, axis, how=case["how"])
    labels = []
    for kind, ints in case["ops"]:
        if G.ndim > 6 or G.size > 5000:
            break
        src, srcG, srcaxis = arr, G, axis
        arr, G, axis, lab = step(kind, Pick(ints), arr, G, axis, ctx)
        if lab != "unsupported":
            labels.append(lab)
            close(ctx, arr, G, lab, axis)
            mh.verify(ctx, src, srcG, "the operand after " + lab, axis=srcaxis)
        if kind not in ("index", "transpose", "reshape", "method"):
            arr = mh.dist(ctx, G, axis)  # continue from exact values: drop rounding differences
        if G.dtype.kind not in "fciub":
            break
        if G.dtype.kind in "fc" and not np.isfinite(G).all():
            G = np.nan_to_num(G, posinf=1, neginf=-1)
            arr = mh.dist(ctx, G, axis)

    # operations that cannot keep the distribution consistent raise
    what, ints = case["bad"]
    pk = Pick(ints)
    local = mh.block(G, axis, ctx.size, ctx.rank)

    def refused(f, *excs):
        try:
            r = f()
        except excs:
            return
        check(False, "%s was accepted and gave %r", what, r)

    if what == "dist axis" and G.ndim > 1:
        other = (axis + 1 + pk(G.ndim - 1)) % G.ndim
        b = mh.dist(ctx, G, other)
        refused(lambda: arr + b, AxisException)
        refused(lambda: np.add(arr, 1, out=b), ValueError)
    elif what == "np length":
        n = max(mh.bounds(G.shape[axis], ctx.size, r)[1] - mh.bounds(G.shape[axis], ctx.size, r)[0]
                for r in range(ctx.size))
        sh = list(G.shape)
        sh[axis] = n + 2
        x = np.ones(sh)
        refused(lambda: arr + x, AxisException)
        refused(lambda: x * arr, AxisException)
    elif what == "where":
        refused(lambda: np.add(arr, 1, where=local == local), UnsupportedOperation)
    elif what == "np out":
        refused(lambda: np.add(arr, 1, out=np.zeros(local.shape, complex)), TypeError)
    elif what == "bad out":
        sh = list(G.shape)
        sh[axis] += ctx.size
        out = mh.dist(ctx, np.zeros(sh, complex), axis)
        refused(lambda: np.multiply(arr, 2, out=out), ValueError)
    elif what == "outer":
        refused(lambda: np.add.outer(arr, arr), UnsupportedOperation)
        refused(lambda: np.add.reduceat(arr, [0], axis=0), UnsupportedOperation)
    elif what == "reduce dist":
        other = [i for i in range(G.ndim) if i != axis and pk(2)]
        neg = axis - G.ndim if pk(2) else axis
        refused(lambda: arr.sum(axis=(neg, *other)), AxisException)
        refused(lambda: np.add.reduce(arr, axis=neg), AxisException)
        # everything: one element for each process
        keep = bool(pk(2))
        got = arr.sum(axis=None, keepdims=keep)
        want = np.asarray([mh.block(G, axis, ctx.size, r).sum() for r in range(ctx.size)])
        if keep:
            want = want.reshape([ctx.size] + [1] * (G.ndim - 1))
        close(ctx, got, want, "sum of each block", 0)
    elif what == "accumulate dist" and G.dtype.kind != "b":
        neg = axis - G.ndim if pk(2) else axis
        refused(lambda: np.cumsum(arr, axis=neg), AxisException)
        refused(lambda: np.add.accumulate(arr, axis=neg), AxisException)
    elif what == "reshape":
        pre, post = G.shape[:axis], G.shape[axis + 1:]
        refused(lambda: arr.reshape([*pre, None, *post, 2]) if all(post) else 1 / 0, ValueError, ZeroDivisionError)
        if ctx.size == 1 or G.size:
            refused(lambda: arr.reshape(G.shape), ValueError)
        # moving elements across the distributed axis: only where each process could do it alone
        a, b = int(np.prod(pre)), int(np.prod(post))
        for f in (2, 3):
            for n1, n2 in ((a * f, b // f if b % f == 0 else None), (a // f if a % f == 0 else None, b * f)):
                if n1 and n2:
                    refused(lambda: arr.reshape(n1, None, n2), ValueError)
        if a != b and a and b:
            refused(lambda: arr.reshape(b, None, a), ValueError)
    mh.verify(ctx, arr, G, "the array after a refused operation", axis=axis)
    return Info(ctx.size > 1 and labels, labels + ["refuse " + what])



@st.composite
def ix_cases(draw):
    shape = draw(mh.shapes(maxsize=400, maxn=6, mind=2))
    return {
        "shape": shape,
        "axis": draw(st.integers(0, len(shape) - 1)),
        "picks": draw(st.lists(st.lists(st.integers(0, 1000), min_size=20, max_size=20), min_size=1, max_size=6)),
    }


def run_ix(case, ctx):
    import numpy as np

    warnings.simplefilter("ignore")
    axis = case["axis"]
    G = mh.content(case["shape"], "<i8")
    arr = mh.dist(ctx, G, axis)
    labels = []
    for ints in case["picks"]:
        ix = index(Pick(ints), G, axis)
        ok, want = supports(lambda: G[ix])
        pos = dist_position(ix, G, axis) if ok else None
        if pos is None:
            continue
        mh.verify(ctx, arr[ix], want, f"index {ix}", axis=pos)
        t = ix if isinstance(ix, tuple) else (ix,)
        labels.append("fancy" if any(isinstance(i, (list, np.ndarray)) for i in t) else "basic")
    mh.verify(ctx, arr, G, "the array after indexing", axis=axis)
    return Info(ctx.size > 1 and labels, sorted(set(labels)))


PARTS = [
    Part("indexing", ix_cases, run_ix, quick=300, ranks=[1, 2, 3],
         rule="indices of integers, slices of any step, new axes, ellipsis, lists and masks that keep the "
              "distributed axis whole, compared with numpy; non-trivial when one applied on several processes"),
    Part("expressions", cases, run, quick=300, ranks=[1, 2, 3, 4],
         rule="up to four operations (element-wise with scalar, plain or distributed operands of broadcastable "
              "shapes, in place, with out=, reductions, accumulations, indexing, transposes, reshapes) compared "
              "with numpy on the global array after each, then one operation that must be refused; non-trivial "
              "when at least one operation applied on several processes"),
]
