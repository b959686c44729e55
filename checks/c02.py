"""C02: redistributing and gathering never lose, duplicate or move data."""

from hypothesis import strategies as st

from vf.core import Info, Part, check, same_array

from . import mpihelp as mh

PROPERTY = "C02"
EXTS = {}


@st.composite
def cases(draw):
    shape = draw(mh.shapes())
    nd = len(shape)
    op = st.one_of(
        st.tuples(st.just("redistribute"), st.integers(-nd, nd - 1)),
        st.tuples(st.just("redistribute"), st.integers(0, nd - 1)),
        st.tuples(st.just("gather"), st.integers(0, 4)),
        st.tuples(st.just("allgather"), st.just(0)),
        st.tuples(st.just("copy"), st.just(0)),
        st.tuples(st.just("write"), st.integers(0, 10**6)),
        st.tuples(st.just("transpose"), st.permutations(range(nd))),
        st.tuples(st.just("layout"), st.sampled_from(["F", "strided", "reversed"])),
    ).map(list)
    return {
        "shape": shape,
        "axis": draw(st.integers(0, nd - 1)),
        "dtype": draw(st.sampled_from(mh.DTYPES + mh.ODD)),
        "comm": draw(st.sampled_from([None, None, None, "split", "reverse"])),
        "how": draw(st.sampled_from(["C", "C", "F", "strided", "reversed"])),
        "ops": draw(st.lists(op, min_size=1, max_size=7)),
    }


def run(case, ctx):
    import numpy as np

    from caput.mpiarray import MPIArray

    comm = mh.subcomm(ctx, case["comm"])
    c = ctx.comm if comm is None else comm
    axis = case["axis"]
    G = mh.content(case["shape"], case["dtype"])
    arr = mh.dist(ctx, G, axis, comm, case["how"])
    v = lambda a, g, m, **k: mh.verify(ctx, a, g, m, comm=c, **k)  # noqa: E731
    labels = set()
    moved = False
    for op, arg in case["ops"]:
        labels.add(op)
        src, src_axis = arr, axis
        if op == "redistribute":
            new = arr.redistribute(arg)
            pos = arg % G.ndim
            if pos != axis:
                moved = True
                check(new.flags.c_contiguous, "redistribute gave a non-contiguous block")
            v(new, G, f"redistribute {axis} to {arg}", axis=pos)
            arr, axis = new, pos
        elif op == "gather":
            root = arg % c.size
            got = arr.gather(root)
            if c.rank == root:
                check(not isinstance(got, MPIArray), "gather gave a distributed array")
                same_array(got, G, f"gather to {root} from axis {axis}")
            else:
                check(got is None, "gather gave %r on another rank", got)
        elif op == "allgather":
            got = arr.allgather()
            check(not isinstance(got, MPIArray), "allgather gave a distributed array")
            same_array(got, G, f"allgather from axis {axis}")
        elif op == "copy":
            arr = arr.copy()
            v(arr, G, "copy", axis=axis)
        elif op == "write":
            G = mh.content(G.shape, case["dtype"], arg)
            arr.local_array[...] = mh.block(G, axis, c.size, c.rank)
            continue
        elif op == "transpose":
            arr = arr.transpose(arg)
            src = None
            G = G.transpose(arg)
            axis = list(arg).index(axis)
            v(arr, G, f"transpose {arg}", axis=axis)
        elif op == "layout":
            src = None
            arr = mh.dist(ctx, G, axis, comm, arg)
        if src is not None:
            v(src, G, f"the source after {op}", axis=src_axis)
    size = c.size
    if case["comm"] in ("split", "reverse"):
        comm.Free()
    return Info(size > 1 and G.size > 0 and (moved or labels & {"gather", "allgather"}),
                sorted(labels) + [case["dtype"]])


@st.composite
def red_cases(draw):
    shape = draw(mh.shapes(maxd=3))
    return {
        "shape": shape,
        "axis": draw(st.integers(0, len(shape) - 1)),
        "dtype": draw(st.sampled_from(mh.DTYPES)),
        "op": draw(st.sampled_from(["sum", "min", "max"])),
        "explicit": draw(st.booleans()),
        "bad": draw(st.booleans()),
    }


def run_red(case, ctx):
    import numpy as np
    from mpi4py import MPI

    G = mh.content(case["shape"], case["dtype"])
    arr = mh.dist(ctx, G, case["axis"])
    op = case["op"]
    n = G.shape[case["axis"]]
    if op != "sum" and (G.size == 0 or n < ctx.size or case["dtype"] in ("<c16", "<c8", "|b1")):
        return Info(False, ["not applicable"])
    per = getattr(arr, op)()
    mine = getattr(mh.block(G, case["axis"], ctx.size, ctx.rank), op)()
    mh.verify(ctx, per, np.array(ctx.comm.allgather(mine)), f"{op} over everything", axis=0)
    mop = {"sum": MPI.SUM, "min": MPI.MIN, "max": MPI.MAX}[op]
    got = per.allreduce() if op == "sum" and not case["explicit"] else per.allreduce(mop)
    want = getattr(G, op)()
    check(got == want, "%s over processes is %r, expected %r", op, got, want)
    check(np.asarray(got).dtype == want.dtype, "%s has dtype %s, not %s", op, np.asarray(got).dtype, want.dtype)
    if case["bad"] and arr.local_shape != (1,):
        try:
            arr.allreduce()
        except ValueError:
            pass
        else:
            check(False, "allreduce accepted several elements per process")
    mh.verify(ctx, arr, G, "the source", axis=case["axis"])
    return Info(ctx.size > 1 and G.size > 0, [op, case["dtype"]])


PARTS = [
    Part("histories", cases, run, quick=250, ranks=[1, 2, 3, 4, 5],
         rule="histories of up to 7 redistribute / gather / allgather / copy / overwrite / transpose / "
              "re-layout steps on an array of generated shape, dtype (also structured), layout and communicator, "
              "checked against the numpy array after each step; non-trivial when something non-empty moved "
              "between more than one process"),
    Part("reductions", red_cases, run_red, quick=100, ranks=[2, 3, 4],
         rule="sum, min and max over everything followed by the reduction across processes; non-trivial for a "
              "non-empty array on several processes"),
]
