"""C06: parallel helpers split, map, gather and transpose without loss."""

import os

from hypothesis import strategies as st

from vf.core import Info, Part, check, same_array

from . import mpihelp as mh

PROPERTY = "C06"
EXTS = {}


# ------------------------------------------------------------------ serial splitting rules
def split_cases():
    return st.fixed_dictionaries({
        "n": st.one_of(st.integers(0, 40), st.integers(0, 10**6)),
        "m": st.integers(1, 40),
        "items": st.lists(st.integers(0, 9), max_size=30),
        "parts": st.integers(1, 12),
        "seed": st.integers(0, 2**31),
    })


def run_split(case, ctx):
    import numpy as np

    from caput.util.arraytools import partition_list, split_m

    n, m = case["n"], case["m"]
    num, start, end = split_m(n, m)
    check(len(num) == len(start) == len(end) == m, "not one sub-range for each")
    at = 0
    for a, s, e in zip(num, start, end):
        check(s == at and e == s + a and a >= 0, "split_m(%d, %d) gave %s %s %s", n, m, num, start, end)
        at = e
    check(at == n, "split_m(%d, %d) covers %d", n, m, at)
    check(max(num) - min(num) <= 1, "uneven: %s", num)
    items, k = [[i, x] for i, x in enumerate(case["items"])], case["parts"]
    for method in ("con", "alt", "rand"):
        parts = []
        for i in range(k):
            np.random.seed(case["seed"])
            parts.append(partition_list(items, i, k, method=method))
        flat = [x for q in parts for x in q]
        check(sorted(flat) == items, "%s partition of %s into %d: %s", method, items, k, parts)
        sizes = [len(q) for q in parts]
        check(max(sizes) - min(sizes) <= 1, "%s partition is uneven: %s", method, sizes)
        if method == "con":
            check(flat == items, "the contiguous partition is out of order: %s", parts)
        if method == "alt":
            for i, q in enumerate(parts):
                check(q == items[i::k], "the alternating partition %d is %s", i, q)
    check(items == [[i, x] for i, x in enumerate(case["items"])], "the list was modified")
    try:
        partition_list(items, 0, k, method="other")
    except ValueError:
        pass
    else:
        check(False, "an unknown method was accepted")
    return Info(n > 0 and m > 1, ["n<m" if n < m else "n>=m"])


# ------------------------------------------------------------------ lists over processes
@st.composite
def list_cases(draw):
    return {
        "items": draw(st.lists(st.one_of(st.integers(-5, 5), st.text("ab", max_size=2)), max_size=20)),
        "method": draw(st.sampled_from(["con", "alt", "rand"])),
        "root": draw(st.none() | st.integers(0, 4)),
        "comm": draw(st.sampled_from(["world", "world", "default", "split", "reverse"])),
        "range": draw(st.lists(st.integers(-5, 12), min_size=1, max_size=2)),
        "active": draw(st.lists(st.integers(1, 4), unique=True, max_size=4)),
        "zero": draw(st.booleans()),
    }


def run_list(case, ctx):
    from mpi4py import MPI

    from caput.util import mpitools

    comm = ctx.comm if case["comm"] == "default" else mh.subcomm(ctx, case["comm"])
    kw = {} if case["comm"] == "default" else {"comm": comm}
    items = case["items"]
    method = case["method"]
    tagged = list(enumerate(items))
    mine = mpitools.partition_list_mpi(tagged, method=method, **kw)
    parts = comm.allgather(mine)
    flat = [x for q in parts for x in q]
    check(sorted(flat, key=lambda x: x[0]) == tagged, "%s partition of %s: %s", method, items, parts)
    if method == "con":
        check(flat == tagged, "out of order: %s", parts)
    r = mpitools.mpirange(*case["range"], method=method, **kw)
    got = comm.allgather(r)
    check(sorted(x for q in got for x in q) == list(range(*case["range"])), "mpirange%s: %s", case["range"], got)
    # each item is mapped once, by one process, and the results come in order
    calls = []

    def f(x):
        calls.append(x)
        return [x, x]

    root = None if case["root"] is None else case["root"] % comm.size
    res = mpitools.parallel_map(f, items, root=root, method=method, **kw)
    if root is None or comm.rank == root:
        check(res == [[x, x] for x in items], "parallel_map gave %s for %s", res, items)
    elif comm.size > 1:
        check(res is None, "parallel_map gave %s on another process", res)
    total = comm.allreduce(len(calls))
    check(total == len(items), "%d calls for %d items", total, len(items))
    # splitting a range
    n = len(items)
    num, s, e = mpitools.split_local(n, **kw)
    allp = comm.allgather((int(num), int(s), int(e)))
    full = mpitools.split_all(n, **kw)
    check([tuple(int(v) for v in full[:, i]) for i in range(comm.size)] == allp, "split_all %s, split_local %s",
          full, allp)
    at = 0
    for num, s, e in allp:
        check(s == at and e == s + num, "the ranges %s do not tile %d", allp, n)
        at = e
    check(at == n, "the ranges %s do not cover %d", allp, n)
    # the processors of a node (here, there is one) are shared out
    cpus = os.cpu_count()
    got = mpitools.cpu_count(**kw)
    check(got == max(cpus // comm.size, 1), "each of %d processes was given %s of %s processors", comm.size, got, cpus)
    # some of the processes work while the others wait
    work = [0] + [a for a in case["active"] if a < ctx.size]
    if case["zero"]:
        work = work[::-1]
    flag = os.path.join(ctx.scratch, f"active{ctx.n}")
    sub = mpitools.active(work)
    if ctx.rank in work:
        check(sub.size == len(work) and sub.rank == work.index(ctx.rank), "the active processes %s have a communicator of %d", work, sub.size)
        check(sub.allreduce(ctx.rank) == sum(work), "the communicator of %s has other processes", work)
        sub.Barrier()
        if ctx.rank == 0:
            with open(flag, "w"):
                pass
        mpitools.close(work)
    else:
        check(os.path.exists(flag), "an inactive process did not wait")
        check(sub == MPI.COMM_NULL, "an inactive process is in the communicator")
    other = mpitools.active_comm(work)
    check((other != MPI.COMM_NULL) == (ctx.rank in work), "the communicator of %s", work)
    for x in (sub, other):
        if x != MPI.COMM_NULL:
            check(x.allgather(ctx.rank) == work, "the communicator of %s", work)
            x.Free()
    ctx.comm.Barrier()
    if ctx.rank == 0:
        os.remove(flag)
    # wrappers
    check(mpitools.allreduce(comm.rank + 1, **kw) == sum(range(1, comm.size + 1)), "allreduce")
    check(mpitools.allreduce(comm.rank, op=MPI.MAX, **kw) == comm.size - 1, "allreduce max")
    b = (case["root"] or 0) % comm.size
    check(mpitools.bcast(("v", comm.rank), root=b, **kw) == ("v", b), "bcast")
    mpitools.barrier(**kw)
    size = comm.size
    if case["comm"] in ("split", "reverse"):
        comm.Free()
    return Info(size > 1 and items, [method, "fewer items than processes" if n < size else "enough items"])


# ------------------------------------------------------------------ arrays over processes
@st.composite
def arr_cases(draw):
    shape = draw(mh.shapes(mind=2, maxd=4, maxn=9, maxsize=1200))
    return {
        "shape": shape,
        "axis": draw(st.integers(0, len(shape) - 1)),
        "dtype": draw(st.sampled_from(["<f8", "<c16", "<i4", "<f4", "|u1", "S5", "<U3", "struct"])),
        "how": draw(st.sampled_from(["C", "F", "strided"])),
        "root": draw(st.integers(0, 4)),
        "extra": draw(st.integers(0, 3)),
        "list": draw(st.booleans()),
        "comm": draw(st.sampled_from(["world", "reverse", "split"])),
    }


def run_arr(case, ctx):
    import h5py
    import numpy as np

    from caput.util import mpitools

    comm = mh.subcomm(ctx, case["comm"])
    G = mh.content(case["shape"], case["dtype"])
    root = case["root"] % comm.size
    # gather blocks cut along any axis into the global array of one process
    loc = mh.layout(mh.block(G, case["axis"], comm.size, comm.rank), case["how"])
    keep = loc.copy()
    start = [0] * G.ndim
    start[case["axis"]] = mh.bounds(G.shape[case["axis"]], comm.size, comm.rank)[0]
    pad = [n + case["extra"] for n in G.shape]  # the blocks may cover only a part of the array
    out = np.zeros(pad, dtype=G.dtype) if comm.rank == root else None
    mpitools.gather_local(out, loc, tuple(start) if case["list"] else start, root=root, comm=comm)
    if comm.rank == root:
        want = np.zeros(pad, dtype=G.dtype)
        want[tuple(slice(0, n) for n in G.shape)] = G
        same_array(out, want, "gather_local")
    same_array(loc, keep, "the local array after gather_local")
    if case["dtype"] == "struct":  # the other helpers are for numbers and text
        G = mh.content(case["shape"], "<i8")
    # rows to columns; trailing columns may be dropped
    rows = mh.layout(mh.block(G, 0, comm.size, comm.rank), case["how"])
    shape = list(G.shape)
    shape[-1] = max(0, shape[-1] - case["extra"])
    Gt = G[..., :shape[-1]]
    got = mpitools.transpose_blocks(rows, shape if case["list"] else tuple(shape), comm=comm)
    same_array(got, mh.block(Gt, G.ndim - 1, comm.size, comm.rank), "transpose_blocks")
    same_array(rows, mh.block(G, 0, comm.size, comm.rank), "the rows after transpose_blocks")
    check(not np.shares_memory(got, rows), "transpose_blocks returned a view")
    # rows into a file
    if G.size and G.dtype.kind != "U":  # HDF5 has no such type
        color = 0 if case["comm"] != "split" else ctx.rank % 2
        fn = os.path.join(ctx.scratch, f"rows{ctx.n}-{color}.h5")
        mpitools.parallel_rows_write_hdf5(fn, "d", rows, tuple(G.shape), comm=comm)
        comm.Barrier()
        if comm.rank == 0:
            with h5py.File(fn, "r") as fh:
                same_array(fh["d"][()], G, "rows written in parallel")
            os.remove(fn)
    size = comm.size
    comm.Barrier()
    if case["comm"] in ("split", "reverse"):
        comm.Free()
    return Info(size > 1 and G.size > 0, [case["dtype"], f"{G.ndim}-D"])


PARTS = [
    Part("splitting", split_cases, run_split, quick=300,
         rule="ranges and lists of generated length split into a generated number of parts; non-trivial when a "
              "non-empty range is split into several parts"),
    Part("lists", list_cases, run_list, quick=200, ranks=[1, 2, 3, 4, 5],
         rule="lists of 0-20 items partitioned and mapped over the processes of a generated communicator with each "
              "method; non-trivial when a non-empty list is split over several processes"),
    Part("arrays", arr_cases, run_arr, quick=150, ranks=[1, 2, 3, 4],
         rule="arrays of generated shape, dtype and layout gathered, block-transposed and written by rows; "
              "non-trivial for a non-empty array on several processes"),
]
