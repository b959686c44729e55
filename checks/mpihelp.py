"""Shared by the checks that run on several MPI processes."""

from hypothesis import strategies as st

from vf.core import check, same_array

STRUCT = [["a", "<i4"], ["b", "<f8", [2]], ["c", "S3"]]
DTYPES = ["<f8", "<f4", "<c16", "<c8", "<i8", "<i4", "<i2", "|u1", "|b1", "<u8"]
ODD = ["struct", "S5", "<U3", ">f8"]


def dt(code):
    import numpy as np

    if code == "struct":
        return np.dtype([tuple(x[:2]) + ((tuple(x[2]),) if len(x) > 2 else ()) for x in STRUCT])
    return np.dtype(code)


def content(shape, code, seed=0):
    """The global array: distinct, reproducible content of any dtype."""
    import numpy as np

    d = dt(code)
    n = 1
    for s in shape:
        n *= s
    base = np.arange(n, dtype=np.int64) * 7 + 13 * seed + 1
    if d.names:
        out = np.zeros(n, dtype=d)
        out["a"] = base % 2**30
        out["b"] = np.stack([base * 0.5, -base * 1.0], axis=-1)
        out["c"] = (base % 997).astype("S3")
    elif d.kind == "c":
        out = (base - 1j * (base % 11)).astype(d)
    elif d.kind == "f":
        out = (base * 0.25 - 3).astype(d) if d.itemsize > 2 else ((base % 1000) * 0.5).astype(d)
    elif d.kind == "b":
        out = (base * 2654435761 >> 7) % 3 == 0
    elif d.kind in "SU":
        out = (base % 997).astype(d)
    elif d.kind == "u" and d.itemsize == 1:
        out = (base % 251).astype(d)
    elif d.itemsize == 2:
        out = (base % 32000).astype(d)
    else:
        out = base.astype(d)
    return out.reshape(shape)


def bounds(n, size, rank):
    """The reference partition: the first n % size ranks hold one more."""
    q, r = divmod(n, size)
    s = rank * q + min(rank, r)
    return s, s + q + (1 if rank < r else 0)


def block(G, axis, size, rank):
    s, e = bounds(G.shape[axis], size, rank)
    sl = [slice(None)] * G.ndim
    sl[axis] = slice(s, e)
    return G[tuple(sl)]


def layout(a, how):
    """The same values in another memory layout."""
    import numpy as np

    if how == "F":
        return np.asfortranarray(a)
    if how == "strided":
        big = np.zeros(a.shape[:-1] + (2 * a.shape[-1] + 1,), dtype=a.dtype)
        v = big[..., 1::2]
        v[...] = a
        return v
    if how == "reversed":
        return np.ascontiguousarray(a[::-1])[::-1]
    return np.ascontiguousarray(a)


def subcomm(ctx, which):
    """None (the default communicator), or another one over which to distribute."""
    if which == "world":
        return ctx.comm
    if which == "self":
        from mpi4py import MPI

        return MPI.COMM_SELF
    if which == "split":
        return ctx.comm.Split(ctx.rank % 2, ctx.rank)
    if which == "reverse":
        return ctx.comm.Split(0, -ctx.rank)
    return None


def dist(ctx, G, axis, comm=None, how="C"):
    """An MPIArray holding G distributed over axis."""
    from caput.mpiarray import MPIArray

    c = ctx.comm if comm is None else comm
    b = layout(block(G, axis, c.size, c.rank), how) if how != "C" else block(G, axis, c.size, c.rank).copy()
    return MPIArray.wrap(b, axis=axis, comm=comm)


def verify(ctx, arr, G, msg, axis=None, comm=None, dtype=True):
    """arr is an MPIArray whose blocks over all processes are exactly G."""
    from caput.mpiarray import MPIArray

    c = ctx.comm if comm is None else comm
    check(isinstance(arr, MPIArray), "%s: a %s, not a distributed array", msg, type(arr).__name__)
    ax = arr.axis
    check(isinstance(ax, int) and 0 <= ax < arr.ndim or hasattr(ax, "__index__") and 0 <= ax < arr.ndim,
          "%s: axis %r of a %d-dimensional array", msg, ax, arr.ndim)
    if axis is not None:
        check(ax == axis, "%s: distributed over axis %s, expected %s", msg, ax, axis)
    check(tuple(arr.global_shape) == tuple(G.shape), "%s: global shape %s, expected %s", msg,
          arr.global_shape, G.shape)
    check(tuple(arr.local_shape) == tuple(arr.shape), "%s: local shape %s but the block has %s", msg,
          arr.local_shape, arr.shape)
    s, e = bounds(G.shape[ax], c.size, c.rank)
    want = [0] * G.ndim
    want[ax] = s
    check(tuple(arr.local_offset) == tuple(want), "%s: local offset %s, expected %s", msg,
          arr.local_offset, want)
    lb = arr.local_bounds
    check((lb.start, lb.stop) == (s, e), "%s: local bounds %s, expected %s:%s", msg, lb, s, e)
    loc = arr.local_array
    check(not isinstance(loc, MPIArray), "%s: local_array is distributed", msg)
    same_array(loc, block(G, ax, c.size, c.rank), msg, dtype=dtype)


def shapes(mind=1, maxd=4, maxn=9, maxsize=1500):
    def fits(s):
        n = 1
        for x in s:
            n *= x
        return n <= maxsize

    dim = st.one_of(st.integers(0, maxn), st.integers(1, 5))
    return st.lists(dim, min_size=mind, max_size=maxd).filter(fits)
