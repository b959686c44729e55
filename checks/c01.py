"""C01: distributed arrays are partitioned exactly once over the processes."""

from hypothesis import strategies as st

from vf.core import Info, Part, check, same_array

from . import mpihelp as mh

PROPERTY = "C01"
EXTS = {}


@st.composite
def cases(draw):
    shape = draw(mh.shapes())
    nd = len(shape)
    return {
        "shape": shape,
        "axis": draw(st.integers(-nd, nd - 1)),
        "dtype": draw(st.sampled_from(mh.DTYPES + mh.ODD)),
        "comm": draw(st.sampled_from([None, None, "world", "split", "self", "reverse"])),
        "order": draw(st.sampled_from(["C", "F"])),
        "how": draw(st.sampled_from(["C", "F", "strided", "reversed"])),
        # lengths of an inconsistent set of blocks, relative to the proper partition
        "bad": draw(st.lists(st.integers(-2, 2), min_size=5, max_size=5)),
        "sel": draw(st.lists(st.tuples(st.integers(0, 4), st.integers(0, 9), st.integers(1, 3)).map(list),
                             min_size=nd, max_size=nd)),
    }


def run(case, ctx):
    import numpy as np

    from caput import mpiarray
    from caput.mpiarray import AxisException, MPIArray

    comm = mh.subcomm(ctx, case["comm"])
    c = ctx.comm if comm is None else comm
    shape, dtype = tuple(case["shape"]), mh.dt(case["dtype"])
    nd = len(shape)
    axis = case["axis"]
    pos = axis % nd
    G = mh.content(shape, case["dtype"])
    mine = mh.block(G, pos, c.size, c.rank)
    v = lambda a, g, m, **k: mh.verify(ctx, a, g, m, comm=c, **k)  # noqa: E731

    # the constructor
    arr = MPIArray(shape, axis=axis, comm=comm, dtype=dtype, order=case["order"])
    arr.local_array[...] = mine
    v(arr, G, "constructor", axis=pos)
    check(arr.comm is c or arr.comm == c, "the communicator of the array is another")
    # iteration over local and global indices
    for ax in range(-nd, nd):
        if ax % nd == pos:
            s, e = mh.bounds(shape[pos], c.size, c.rank)
        else:
            s, e = 0, shape[ax]
        got = list(arr.enumerate(ax))
        check(got == list(enumerate(range(s, e))), "enumerate(%d) gave %s for %d:%d", ax, got, s, e)
    # all blocks together tile the array once
    mineinfo = (arr.local_offset[arr.axis], arr.shape[arr.axis])
    pieces = c.allgather(mineinfo)
    at = 0
    for off, n in pieces:
        check(off == at, "rank blocks %s do not tile %d", pieces, shape[pos])
        at += n
    check(at == shape[pos], "rank blocks %s do not cover %d", pieces, shape[pos])
    lens = [n for _, n in pieces]
    check(max(lens) - min(lens) <= 1, "uneven blocks %s", lens)

    # filled arrays
    if dtype.kind in "fciub":
        v(mpiarray.zeros(shape, axis=axis, comm=comm, dtype=dtype), np.zeros(shape, dtype), "zeros", axis=pos)
        v(mpiarray.ones(shape, axis=axis, comm=comm, dtype=dtype), np.ones(shape, dtype), "ones", axis=pos)
        v(np.zeros_like(arr), np.zeros(shape, dtype), "zeros_like", axis=pos)
        if dtype.kind in "fiu":
            v(arr.astype(np.complex128), G.astype(np.complex128), "astype", axis=pos)

    # wrapping blocks shares their memory
    b = mh.layout(mine, case["how"])
    w = MPIArray.wrap(b, axis=axis, comm=comm)
    v(w, G, "wrap", axis=pos)
    check(b.size == 0 or np.shares_memory(w.local_array, b), "wrap copied the block")
    cp = w.copy()
    v(cp, G, "copy", axis=pos)
    check(b.size == 0 or not np.shares_memory(cp.local_array, b), "copy shares memory")
    v(w[:], G, "full slice", axis=pos)
    v(w[...], G, "ellipsis", axis=pos)
    sl = tuple(slice(None) if i == pos else slice(a, z, k) for i, (a, z, k) in enumerate(case["sel"]))
    v(w[sl], G[sl], f"slice {sl}", axis=pos)
    v(w[sl].copy(), G[sl], f"copy of slice {sl}", axis=pos)
    v(w, G, "the array after slicing", axis=pos)

    # blocks that do not fit are refused on every process
    lens = []
    for r in range(c.size):
        s, e = mh.bounds(shape[pos], c.size, r)
        lens.append(max(0, e - s + case["bad"][r]))
    total = sum(lens)
    fits = all(mh.bounds(total, c.size, r)[1] - mh.bounds(total, c.size, r)[0] == lens[r] for r in range(c.size))
    bs = list(shape)
    bs[pos] = lens[c.rank]
    piece = np.zeros(bs, dtype=dtype)
    try:
        w2 = MPIArray.wrap(piece, axis=axis, comm=comm)
    except AxisException:
        check(not fits, "wrap refused blocks of lengths %s", lens)
    else:
        check(fits, "wrap accepted blocks of lengths %s", lens)
        bs[pos] = total
        v(w2, np.zeros(bs, dtype), "wrap of other lengths", axis=pos)
    for badax in (nd, -nd - 1):
        try:
            MPIArray.wrap(piece, axis=badax, comm=comm)
        except AxisException:
            pass
        else:
            check(False, "wrap accepted axis %d of %d dimensions", badax, nd)
    same_array(arr.local_array, mine, "the first array at the end")
    size = c.size
    if case["comm"] in ("split", "reverse"):
        comm.Free()
    uneven = shape[pos] % size != 0
    return Info(size > 1 and G.size > 0,
                ["uneven" if uneven else "even", "empty rank" if shape[pos] < size else "all ranks hold data",
                 "refused" if not fits else "fits", f"comm {case['comm']}"])


PARTS = [
    Part("partition", cases, run, quick=250, ranks=[1, 2, 3, 4, 5],
         rule="shape (1-4 dimensions, lengths 0-9), axis (also negative), dtype, memory layout, "
              "communicator and block lengths are generated; non-trivial when the communicator has "
              "more than one process and the array is not empty"),
]
