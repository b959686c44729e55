"""C10: distributed trees agree with their serial content on any process count."""

import os
import shutil
import warnings

from hypothesis import strategies as st

from checks import mpihelp as H
from checks import trees as T
from vf.core import Info, Part, check, same_array

PROPERTY = "C10"
EXTS = {}
ASSUMPTIONS = ["text in datasets is held as byte strings", "HDF5 files are written through one process at a time, as h5py has no MPI support here"]

PATHS = ["x", "y", "g/x", "g/h/z", "w"]
DT = [*H.DTYPES, "struct", "S5"]


@st.composite
def slices(draw, n):
    k = draw(st.integers(0, 3))
    if k == 0:
        return [None, None, None]
    if k == 1:
        a = draw(st.integers(0, n))
        return [a, draw(st.integers(a, n)), None]
    if k == 2:
        return [draw(st.one_of(st.none(), st.integers(-n, n))), draw(st.one_of(st.none(), st.integers(-n, n))), draw(st.sampled_from([None, 1, 2, 3]))]
    return [None, draw(st.integers(0, n)), None]


@st.composite
def op(draw, live):
    kinds = ["common", "dist", "dist", "shape", "from_axis"]
    if live:
        kinds += ["c2d", "c2d", "d2c", "d2c", "redist", "redist", "attr", "write", "copy", "save", "save", "save", "del", "localwrite"]
    k = draw(st.sampled_from(kinds))
    o = {"k": k, "seed": draw(st.integers(0, 99))}
    if k in ("common", "dist", "shape", "from_axis"):
        o["path"] = draw(st.sampled_from(PATHS))
        mind = 0 if k == "common" else 1
        o["shape"] = draw(H.shapes(mind, 3, 7, 300))
        o["dtype"] = draw(st.sampled_from(DT))
        nd = len(o["shape"])
        if nd:
            o["axis"] = draw(st.integers(0, nd - 1))
            o["axis2"] = draw(st.integers(0, nd - 1))
        if nd and 0 not in o["shape"] and draw(st.integers(0, 3)) == 0:
            o["chunks"] = [draw(st.integers(1, n)) for n in o["shape"]]
        o["attrs"] = draw(T.attrs(True)) if draw(st.booleans()) else []
        live[o["path"]] = o["shape"]
    elif k in ("c2d", "d2c", "redist", "attr", "write", "del", "localwrite"):
        o["path"] = draw(st.sampled_from(sorted(live)))
        nd = len(live[o["path"]])
        o["axis"] = draw(st.integers(-nd, nd - 1)) if nd else 0
        if k == "attr":
            o["attr"] = draw(T.attr_value(True))
        if k == "del":
            del live[o["path"]]
    elif k == "save":
        o["fmt"] = draw(st.sampled_from(["h5", "h5", "zarr"]))
        o["load"] = draw(st.sampled_from(["dist", "dist", "dist", "serial", "half", "mdg", "nohints", "override"]))
        o["via"] = draw(st.sampled_from(["group", "group", "mdg"]))
        if draw(st.booleans()):
            o["sel"] = {p: [draw(slices(n)) for n in s[:draw(st.integers(1, len(s)))]] for p, s in live.items() if s and draw(st.booleans())}
        o["slash"] = draw(st.booleans())
        if draw(st.integers(0, 3)) == 0:
            o["branch"] = draw(st.sampled_from(["g", "g/h"]))
            o.pop("sel", None)
        o["hints"] = draw(st.integers(0, 4)) > 0
        o["hint"] = {p: draw(st.integers(-1, len(s) - 1)) for p, s in live.items() if s} if o["load"] == "override" else {}
    return o


@st.composite
def cases(draw):
    live = {}
    ops = []
    for _ in range(draw(st.integers(2, 9))):
        ops.append(draw(op(live)))
        if "sel" in ops[-1]:
            break
    return {"ops": ops, "comm": draw(st.sampled_from([None, None, "world", "reverse"]))}


def verify(ctx, g, M, where, comm):
    """g holds exactly the model M: {path: [array, axis or None, attrs]}."""
    import numpy as np

    from caput.memdata import MemDatasetCommon, MemDatasetDistributed

    found = []

    def rec(o):
        for k in sorted(o):
            c = o[k]
            if hasattr(c, "create_group"):
                rec(c)
            else:
                found.append(c.name[1:])

    rec(g)
    check(sorted(found) == sorted(M), "%s: datasets %s, expected %s", where, sorted(found), sorted(M))
    for p, (G, ax, at) in M.items():
        d = g[p]
        w = f"{where}: {p}"
        check(d.name == "/" + p, "%s is called %s", w, d.name)
        check(tuple(d.shape) == G.shape and d.dtype == G.dtype, "%s: %s %s, expected %s %s", w, d.shape, d.dtype, G.shape, G.dtype)
        if ax is None:
            check(isinstance(d, MemDatasetCommon) and d.common and not d.distributed, "%s is not common", w)
            same_array(np.array(d[...]), G, w)
        else:
            check(isinstance(d, MemDatasetDistributed) and d.distributed and not d.common, "%s is not distributed", w)
            check(d.distributed_axis == ax, "%s is distributed over %s, expected %s", w, d.distributed_axis, ax)
            H.verify(ctx, d.data, G, w, axis=ax, comm=comm)
        have = {k: v for k, v in d.attrs.items() if not k.startswith("__memh5")}
        check(T.same_plain(T.plain(have), T.plain(at)), "%s has attributes %s, expected %s", w, have, at)


def run(c, ctx):
    import numpy as np
    from mpi4py import MPI

    from caput import memdata as md
    from caput.mpiarray import MPIArray

    warnings.simplefilter("ignore")
    comm = H.subcomm(ctx, c["comm"])
    C = comm or ctx.comm
    g = md.MemGroup(distributed=True, comm=comm)
    M = {}
    conv = 0
    labels = []
    for i, o in enumerate(c["ops"]):
        k = o["k"]
        where = f"step {i} {k}"
        labels.append(k)
        p = o.get("path")
        if k in ("common", "dist", "shape", "from_axis"):
            G = H.content(o["shape"], o["dtype"], o["seed"])
            kw = {"chunks": tuple(o["chunks"])} if o.get("chunks") else {}
            if k == "common":
                d = g.create_dataset(p, data=G.copy(), **kw)
                M[p] = [G, None, {}]
            elif k == "dist":
                d = g.create_dataset(p, data=H.dist(ctx, G, o["axis"], comm), distributed=True, **kw)
                M[p] = [G, o["axis"], {}]
            elif k == "from_axis":
                d = g.create_dataset(p, data=H.dist(ctx, G, o["axis"], comm), distributed=True, distributed_axis=o["axis2"], **kw)
                M[p] = [G, o["axis2"], {}]
            else:
                d = g.create_dataset(p, shape=tuple(o["shape"]), dtype=G.dtype, distributed=True, distributed_axis=o["axis"], **kw)
                check(tuple(d.local_shape) == H.block(G, o["axis"], C.size, C.rank).shape, "%s: local shape %s", where, d.local_shape)
                d.local_data[:] = H.block(G, o["axis"], C.size, C.rank)
                M[p] = [G, o["axis"], {}]
            for a, v in o["attrs"]:
                d.attrs[a] = T.build_attr(v)
                M[p][2][a] = T.build_attr(v)
        elif k == "c2d":
            G, ax, at = M[p]
            if G.ndim == 0:
                continue
            axis = o["axis"] if ax is None else o["axis"] % G.ndim
            if o["seed"] % 3 == 0:
                md.MemDiskGroup(g, distributed=True, comm=C).dataset_common_to_distributed(p, axis)
            else:
                g.dataset_common_to_distributed(p, distributed_axis=axis)
            M[p][1] = axis % G.ndim
            conv += 1
        elif k == "d2c":
            if o["seed"] % 3 == 0:
                md.MemDiskGroup(g, distributed=True, comm=C).dataset_distributed_to_common(p)
            else:
                g.dataset_distributed_to_common(p)
            M[p][1] = None
            conv += 1
        elif k == "redist":
            if M[p][1] is None:
                continue
            held = g[p]
            axis = o["axis"] % M[p][0].ndim
            if o["seed"] % 2:
                held.redistribute(axis)
                H.verify(ctx, held.data, M[p][0], where + ": the handle used", axis=axis, comm=comm)
            else:
                g[p].redistribute(axis)
            M[p][1] = axis
            conv += 1
        elif k == "attr":
            g[p].attrs["set"] = T.build_attr(o["attr"])
            M[p][2]["set"] = T.build_attr(o["attr"])
        elif k in ("write", "localwrite"):
            G = H.content(M[p][0].shape, "struct" if M[p][0].dtype.names else M[p][0].dtype.str, o["seed"] + 200)
            d = g[p]
            if M[p][1] is None:
                d[...] = G
            else:
                d.local_data[...] = H.block(G, M[p][1], C.size, C.rank)
            M[p][0] = G
        elif k == "del":
            if p not in M:
                continue
            del g[p]
            del M[p]
        elif k == "copy":
            if o["seed"] % 2:
                n = md.MemGroup(distributed=True, comm=comm)
                md.deep_group_copy(g, n)
            else:
                n = md.MemDiskGroup(g, distributed=True, comm=C).copy()._data
            # the original must not follow the copy
            for q in M:
                d = g[q]
                if d.local_data.size and not d.dtype.names and d.dtype.kind != "S":
                    d.local_data[...] = 1
            g = n
        elif k == "save":
            g, M = save_load(o, ctx, g, M, C, comm, where, md, np, MPI)
            if g is None:
                break
        verify(ctx, g, M, where, comm)
    ctx.comm.Barrier()
    if comm is not None and comm is not ctx.comm and comm != MPI.COMM_SELF:
        comm.Free()
    return Info(conv > 0 or any(o["k"] == "save" for o in c["ops"]), labels)


def save_load(o, ctx, g, M, C, comm, where, md, np, MPI):
    """Write the tree, read it back in the asked way; returns the new tree and model (None to stop)."""
    fn = os.path.join(ctx.scratch, f"f{ctx.n}." + o["fmt"])
    where = f"{where} {o['fmt']} {o['load']}"
    ff = md.fileformats.HDF5 if o["fmt"] == "h5" else md.fileformats.Zarr
    branch = o.get("branch")
    if branch and any(p.startswith(branch + "/") for p in M):
        src = g[branch]
        kept = {p[len(branch) + 1:]: v for p, v in M.items() if p.startswith(branch + "/")}
        o = {**o, "hint": {p[len(branch) + 1:]: a for p, a in o["hint"].items() if p.startswith(branch + "/")}}
    else:
        src, kept = g, M
    if any("__memh5_distributed_dset" in g[p].attrs for p in M):
        o = {**o, "hints": True}  # the hints of the file this was read from are attributes by now
    try:
        if src is not g or not o["hints"]:
            src.to_file(fn, hints=o["hints"])
        elif o["via"] == "mdg":
            md.MemDiskGroup(g, distributed=True, comm=C).save(fn, file_format=ff)
        else:
            g.to_file(fn)
        verify(ctx, g, M, where + ": the saved tree itself", comm)
        C.Barrier()
        N = {p: [G, ax if o["hints"] else None, dict(at)] for p, (G, ax, at) in kept.items()}
        sel = None
        if o.get("sel"):
            sel = {}
            for p, s in o["sel"].items():
                if p in N:
                    t = tuple(slice(*x) for x in s)
                    if o["load"] == "nohints":
                        t = t[0] if len(t) == 1 else t
                    sel[("/" if o["slash"] else "") + p] = t
                    N[p][0] = N[p][0][t].copy()
        kw = {} if sel is None else {"selections": sel}
        if o["load"] == "serial":
            n = md.MemGroup.from_file(fn, distributed=False, **kw)
            verify(ctx, n, {p: [G, None, at] for p, (G, ax, at) in N.items()}, where, MPI.COMM_SELF)
            return None, None
        if o["load"] == "nohints":
            n = md.MemGroup.from_file(fn, distributed=True, comm=comm, hints=False, **kw)
            verify(ctx, n, {p: [G, None, at] for p, (G, ax, at) in N.items()}, where, comm)
            return None, None
        if o["load"] == "half":
            # read by another number of processes
            m = max(1, C.size // 2 + o["seed"] % 2)
            sub = C.Split(0 if C.rank < m else 1, C.rank)
            n = md.MemGroup.from_file(fn, distributed=True, comm=sub, **kw)
            verify(ctx, n, N, where, sub)
            n = None
            sub.Free()
            return None, None
        if o["load"] == "override":
            hints = {}
            for p, ax in o["hint"].items():
                if p in N:
                    hints["/" + p] = {"distributed": ax >= 0, **({"axis": ax} if ax >= 0 else {})}
                    N[p][1] = ax if ax >= 0 else None
            n = md.MemGroup.from_file(fn, distributed=True, comm=comm, hints=hints or True, **kw)
        elif o["load"] == "mdg" and sel is None:
            n = md.MemDiskGroup.from_file(fn, distributed=True, comm=comm)._data
        else:
            n = md.MemGroup.from_file(fn, distributed=True, comm=comm, **kw)
        verify(ctx, n, N, where, comm)
        return (n, N) if src is g else (None, None)
    finally:
        ctx.comm.Barrier()
        if ctx.rank == 0:
            if os.path.isdir(fn):
                shutil.rmtree(fn)
            elif os.path.exists(fn):
                os.remove(fn)
        ctx.comm.Barrier()


PARTS = [
    Part("histories", cases, run, quick=240, ranks=[1, 2, 3, 4],
         rule="creation, conversion, redistribution, writing, copying, saving and loading of common and distributed datasets over 1 to 4 processes; non-trivial: a conversion, redistribution or save took place"),
]
