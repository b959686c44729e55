"""C05: distributed array files hold the global array and reload on any process count."""

import os
import shutil

from hypothesis import strategies as st

from vf.core import Info, Part, check, same_array

from . import mpihelp as mh

PROPERTY = "C05"
EXTS = {}
DT = ["<f8", "<f4", "<c16", "<c8", "<i8", "<i4", "<i2", "|u1", "|b1", "<u8", "struct", "S5", ">f8", ">i4"]


@st.composite
def selections(draw, n, allow_list):
    k = draw(st.sampled_from(["full", "full", "slice", "slice", "list"]))
    if k == "slice":
        b = st.one_of(st.none(), st.integers(-n - 1, n + 1))
        return ["slice", draw(b), draw(b), draw(st.sampled_from([None, 1, 2, 3, 4]))]
    if k == "list" and n and allow_list:
        ix = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=6, unique=True))
        return [draw(st.sampled_from(["list", "tuple", "array"])), sorted(ix)]
    return ["full"]


@st.composite
def cases(draw):
    shape = draw(mh.shapes(maxd=4, maxn=8, maxsize=800))
    nd = len(shape)
    sel = []
    for n in shape:
        sel.append(draw(selections(n, not any(s[0] in ("list", "tuple", "array") for s in sel))))
    short = draw(st.booleans())
    if short:
        while sel and sel[-1] == ["full"]:
            sel.pop()
    return {
        "fmt": draw(st.sampled_from(["hdf5", "zarr"])),
        "shape": shape,
        "waxis": draw(st.integers(0, nd - 1)),
        "raxis": draw(st.integers(-nd, nd - 1)),
        "dtype": draw(st.sampled_from(DT)),
        "how": draw(st.sampled_from(["C", "C", "F", "strided"])),
        "writers": draw(st.integers(0, 4)),
        "readers": draw(st.integers(0, 4)),
        "chunks": draw(st.none() | st.lists(st.integers(1, 9), min_size=nd, max_size=nd)),
        "gzip": draw(st.sampled_from([None, None, 1, 5])),
        "name": draw(st.sampled_from(["d", "g/d", "/d"])),
        "sel": sel,
        "nosel": draw(st.booleans()),
        "handle": draw(st.booleans()),
        "second": draw(st.booleans()),
        "generic": draw(st.booleans()),
    }


def build_sel(sel):
    import numpy as np

    out = []
    for s in sel:
        if s[0] == "slice":
            out.append(slice(*s[1:]))
        elif s[0] == "list":
            out.append(list(s[1]))
        elif s[0] == "tuple":
            out.append(tuple(s[1]))
        elif s[0] == "array":
            out.append(np.array(s[1]))
        else:
            out.append(slice(None))
    return tuple(out)


def cut(G, sel):
    """The selection of the global array, axis by axis."""
    import numpy as np

    for i, s in enumerate(sel):
        if s[0] == "slice":
            G = np.take(G, range(G.shape[i])[slice(*s[1:])], axis=i)
        elif s[0] != "full":
            G = np.take(G, s[1], axis=i)
    return G


def run(case, ctx):
    import h5py
    import numpy as np
    import zarr

    from caput.memdata import fileformats
    from caput.mpiarray import MPIArray

    zar = case["fmt"] == "zarr"
    if not zar and case["dtype"] == "<U3":
        return Info(False)
    W = 1 + case["writers"] % ctx.size
    R = 1 + case["readers"] % ctx.size
    G = mh.content(case["shape"], case["dtype"])
    fn = os.path.join(ctx.scratch, f"f{ctx.n}" + (".zarr" if zar else ".h5"))
    ff = fileformats.Zarr if zar else fileformats.HDF5
    kw = {}
    if case["chunks"] is not None:
        kw["chunks"] = tuple(min(c, max(n, 1)) for c, n in zip(case["chunks"], G.shape))
    if case["gzip"] and fileformats._compression_enabled:
        kw.update(compression="gzip", compression_opts=case["gzip"])
    name = case["name"]
    try:
        comm = ctx.comm.Split(0 if ctx.rank < W else 1, ctx.rank)
        if ctx.rank < W:
            arr = mh.dist(ctx, G, case["waxis"], comm, case["how"])
            if zar:
                arr.to_file(fn, name, create=True, file_format=ff, **kw)
            elif case["generic"]:
                arr.to_file(fn, name, create=True, **kw)
            else:
                arr.to_hdf5(fn, name, create=True, **kw)
            if case["second"]:
                # another dataset beside it, over another axis
                ax2 = (case["waxis"] + 1) % G.ndim
                G2 = mh.content(case["shape"], case["dtype"], 5)
                mh.dist(ctx, G2, ax2, comm).to_file(fn, "other", create=False, file_format=ff)
            mh.verify(ctx, arr, G, "the array after writing", axis=case["waxis"], comm=comm)
        comm.Free()
        ctx.comm.Barrier()
        # what the file holds
        with (zarr.open_group(fn, mode="r") if zar else h5py.File(fn, "r")) if not zar else _null(
                zarr.open_group(fn, mode="r")) as fh:
            d = fh[name]
            same_array(d[()] if not zar else d[...], G, "file content")
            if case["second"]:
                same_array(fh["other"][()] if not zar else fh["other"][...], G2 if ctx.rank < W else
                           mh.content(case["shape"], case["dtype"], 5), "second dataset")
            if zar and "chunks" in kw:
                check(d.chunks == kw["chunks"], "chunks %s, asked for %s", d.chunks, kw["chunks"])
        ctx.comm.Barrier()
        # reading it back
        comm = ctx.comm.Split(0 if ctx.rank < R else 1, ctx.rank)
        nosel = case["nosel"]
        want = G if nosel else cut(G, case["sel"])
        if ctx.rank < R:
            sel = None if nosel else build_sel(case["sel"])
            ax = case["raxis"]
            f, opened = fn, None
            if case["handle"]:
                f = opened = zarr.open_group(fn, mode="r") if zar else h5py.File(fn, "r")
            try:
                if zar or case["generic"]:
                    got = MPIArray.from_file(f, name, comm=comm, axis=ax, sel=sel, file_format=ff)
                else:
                    got = MPIArray.from_hdf5(f, name, comm=comm, axis=ax, sel=sel)
                if opened is not None and not zar:
                    check(bool(opened), "the caller's file was closed")
            finally:
                if opened is not None and not zar:
                    opened.close()
            mh.verify(ctx, got, want, f"read with {sel}", axis=ax % G.ndim, comm=comm)
        comm.Free()
        ctx.comm.Barrier()
    finally:
        if ctx.rank == 0:
            shutil.rmtree(fn, ignore_errors=True) if zar else (os.path.exists(fn) and os.remove(fn))
    return Info(G.size > 0 and (W > 1 or R > 1) and want.size > 0,
                [case["fmt"], case["dtype"], "W!=R" if W != R else "W=R",
                 "selection" if not nosel and want.shape != G.shape else "whole"])


class _null:
    def __init__(self, x):
        self.x = x

    def __enter__(self):
        return self.x

    def __exit__(self, *a):
        return False


PARTS = [
    Part("files", cases, run, quick=250, ranks=[1, 2, 3, 4],
         rule="arrays of generated shape, dtype and layout written by W processes over one axis and read back by R "
              "over another with generated selections, both formats; non-trivial when the data read are not empty "
              "and more than one process wrote or read"),
]
