"""Shared by the checks of containers: generated class hierarchies and their layout."""

import sys
import types

from hypothesis import strategies as st

from vf.core import check, same_array

AXES = ["freq", "time", "a", "b_x"]
NAMES = ["vis", "weight", "d0", "d1", "mask"]
TABLES = ["tab", "src"]
DTYPES = ["<f8", "<f4", "<c16", "<c8", "<i4", "<i8", "|b1"]
MODULE = "vf_generated_containers"


@st.composite
def dspec(draw, axes, ints=True, dtypes=DTYPES):
    nd = draw(st.integers(1, min(3, len(axes))))
    ax = list(draw(st.permutations(axes)))[:nd]
    named = list(ax)
    if ints and draw(st.integers(0, 7)) == 0:
        ax.insert(draw(st.integers(0, len(ax))), draw(st.integers(1, 3)))
    s = {"axes": ax, "dtype": draw(st.sampled_from(dtypes))}
    if draw(st.integers(0, 3)):
        s["initialise"] = draw(st.sampled_from([True, True, False]))
    if draw(st.integers(0, 2)) == 0:
        s["distributed"] = draw(st.booleans())
    if draw(st.booleans()) or not isinstance(ax[0], str):
        s["distributed_axis"] = draw(st.sampled_from(named))
    if draw(st.integers(0, 2)) == 0:
        s["chunks"] = [draw(st.integers(1, 6)) for _ in ax]
        if draw(st.booleans()):
            s["compression"] = "gzip"
            if draw(st.booleans()):
                s["compression_opts"] = draw(st.integers(0, 9))
    return s


@st.composite
def hierarchy(draw, maxcls=5, tables=True, ints=True, sameaxes=False, dtypes=DTYPES):
    """Declarations of classes: bases are earlier ones."""
    n = draw(st.integers(1, maxcls))
    tab = tables and draw(st.integers(0, 2)) == 0
    out, fixed = [], {}
    for i in range(n):
        bases = draw(st.lists(st.integers(0, i - 1), unique=True, max_size=2)) if i else []
        bases.sort(reverse=True)
        if i and not bases and draw(st.integers(0, 3)):
            bases = [i - 1]
        c = {"bases": bases}
        if not i or draw(st.integers(0, 3)):
            axes = draw(st.lists(st.sampled_from(AXES), unique=True, min_size=1, max_size=3))
            c["axes"] = axes
            if draw(st.integers(0, 4)):
                spec = {}
                for nm in draw(st.lists(st.sampled_from(NAMES), unique=True, min_size=draw(st.sampled_from([0, 1, 2])), max_size=3)):
                    s = draw(dspec(axes, ints, dtypes))
                    if sameaxes and nm in fixed:
                        # an override keeps the axes of the declaration it overrides
                        s["axes"] = fixed[nm]
                        c["axes"] = sorted(set(c["axes"]) | {a for a in s["axes"] if isinstance(a, str)})
                        s["distributed_axis"] = draw(st.sampled_from([a for a in s["axes"] if isinstance(a, str)]))
                        if "chunks" in s:
                            s["chunks"] = [draw(st.integers(1, 6)) for _ in s["axes"]]
                    fixed.setdefault(nm, s["axes"])
                    spec[nm] = s
                c["spec"] = spec
            if draw(st.booleans()):
                c["aslist"] = True
        if tab and draw(st.booleans()):
            c["tables"] = {}
            for nm in draw(st.lists(st.sampled_from(TABLES), unique=True, min_size=1, max_size=2)):
                t = {"columns": draw(st.lists(st.sampled_from([["x", "<f8"], ["y", "<i4"], ["z", "<c16"], ["m", "|b1"]]),
                                              unique_by=lambda v: v[0], min_size=1, max_size=3))}
                if draw(st.booleans()):
                    t["axis"] = draw(st.sampled_from(["time", "rows"]))
                if draw(st.booleans()):
                    t["initialise"] = draw(st.booleans())
                if draw(st.booleans()):
                    t["distributed"] = draw(st.booleans())
                c["tables"][nm] = t
        out.append(c)
    return out


def build(H, np):
    """The classes, importable from a module of their own."""
    from caput.containers import ContainerPrototype, TableSpec

    mod = types.ModuleType(MODULE)
    sys.modules[MODULE] = mod
    tab = any("tables" in c for c in H)
    root = TableSpec if tab else ContainerPrototype
    classes = []
    for i, c in enumerate(H):
        d = {"__module__": MODULE}
        if "axes" in c:
            d["_axes"] = list(c["axes"]) if c.get("aslist") else tuple(c["axes"])
        if "spec" in c:
            d["_dataset_spec"] = {
                nm: {k: (np.dtype(v).type if k == "dtype" else tuple(v) if k == "chunks" else v) for k, v in s.items()}
                for nm, s in c["spec"].items()
            }
        if "tables" in c:
            d["_table_spec"] = {nm: dict(t, columns=[tuple(x) for x in t["columns"]]) for nm, t in c["tables"].items()}
        bases = [classes[b] for b in c["bases"]] or [root]
        try:
            cls = type("X" * i + "Gen", tuple(bases), d)
        except TypeError:
            cls = type("X" * i + "Gen", (bases[0],), d)
        setattr(mod, cls.__name__, cls)
        classes.append(cls)
    return classes


def resolve(H, classes, i):
    """Axes and datasets that class i declares: the nearest declaration counts."""
    axes, spec = set(), {}
    for cls in classes[i].__mro__:
        if cls not in classes:
            continue
        c = H[classes.index(cls)]
        axes |= set(c.get("axes", ()))
        for nm, s in c.get("spec", {}).items():
            spec.setdefault(nm, s)
        for nm, t in c.get("tables", {}).items():
            if nm in spec:
                continue
            ax = t.get("axis", nm + "_index")
            spec[nm] = {"axes": [ax], "dtype": [tuple(x) for x in t["columns"]], "initialise": t.get("initialise", True),
                        "distributed": t.get("distributed", False), "distributed_axis": ax}
    for nm, s in spec.items():
        if isinstance(s["dtype"], list):
            axes |= set(s["axes"])
    return axes, spec


@st.composite
def axis_value(draw, n=None):
    n = draw(st.integers(0, 7)) if n is None else n
    return [draw(st.sampled_from(["int", "int", "npint", "list", "float", "struct", "text", "rev"])), n, draw(st.integers(0, 9))]


def axis_array(v, np):
    """The argument to give and the axis it has to give."""
    k, n, s = v
    if k == "int":
        return n, np.arange(n)
    if k == "npint":
        return np.int64(n), np.arange(n)
    if k == "list":
        l = [int(x) * 3 + s for x in range(n)]
        return l, np.array(l)
    if k == "float":
        a = np.arange(n) * 0.5 + s
    elif k == "rev":
        a = np.arange(n, dtype=np.int32)[::-1] + s
    elif k == "text":
        a = np.array([f"t{x + s}" for x in range(n)], dtype="<U4")
    else:
        a = np.zeros(n, dtype=[("fpga_count", np.uint64), ("ctime", np.float64)])
        a["fpga_count"] = np.arange(n) + s
        a["ctime"] = np.arange(n) * 10.0 + s
    return a, a.copy()


def want_layout(spec, axes, name, dist, chunked, np):
    """Shape, dtype, distributed axis, chunks, compression, its options."""
    s = spec[name]
    shape = tuple(len(axes[a]) if isinstance(a, str) else a for a in s["axes"])
    da = None
    if dist and s.get("distributed", True):
        da = s["axes"].index(s.get("distributed_axis", s["axes"][0]))
    ch = tuple(min(x, l) for x, l in zip(s["chunks"], shape)) if chunked and "chunks" in s else None
    comp = s.get("compression") if chunked else None
    opts = s.get("compression_opts") if chunked else None
    return shape, np.dtype(s["dtype"]), da, ch, comp, opts


def content(shape, dtype, seed, np):
    n = int(np.prod(shape, dtype=int))
    base = np.arange(n) * 3 + seed + 1
    if dtype.names:
        out = np.zeros(n, dtype=dtype)
        for j, f in enumerate(dtype.names):
            out[f] = content((n,), dtype[f], seed + 11 * j, np)
    elif dtype.kind == "b":
        out = base % 5 < 2
    elif dtype.kind == "c":
        out = (base - 1j * (base % 7)).astype(dtype)
    else:
        out = base.astype(dtype)
    return out.reshape(shape)


def fill(d, G, np):
    from caput.mpiarray import MPIArray

    a = d[:]
    if isinstance(a, MPIArray):
        sl = [slice(None)] * G.ndim
        sl[a.axis] = a.local_bounds
        a.local_array[...] = G[tuple(sl)]
    else:
        d[:] = G


def whole(d, np):
    """The global content of a dataset."""
    from caput.mpiarray import MPIArray

    a = d[:] if d.shape else d[...]
    return np.asarray(a.allgather() if isinstance(a, MPIArray) else a)


def check_dataset(d, w, want, np, axes=None):
    shape, dtype, da, ch, comp, opts = want
    check(tuple(d.shape) == shape, "%s has shape %s, declared %s", w, d.shape, shape)
    check(d.dtype == dtype, "%s is of type %s, declared %s", w, d.dtype, dtype)
    if da is None:
        check(not getattr(d, "distributed", False), "%s is distributed", w)
    else:
        check(getattr(d, "distributed", False), "%s is not distributed", w)
        check(d.distributed_axis == da, "%s is distributed over %s, declared %s", w, d.distributed_axis, da)
    have = tuple(d.chunks) if d.chunks is not None else None
    check(have == ch, "%s has chunks %s, declared %s", w, have, ch)
    check(d.compression == comp and d.compression_opts == opts, "%s has compression %s %s, declared %s %s", w, d.compression, d.compression_opts, comp, opts)
    if axes is not None:
        check([str(x) for x in d.attrs["axis"]] == [str(x) for x in axes], "%s has axes %s, declared %s", w, list(d.attrs["axis"]), axes)
