"""C04: global slicing reads and writes exactly the addressed global elements."""

import warnings

from hypothesis import strategies as st

from vf.core import Info, Part, check, same_array

from . import mpihelp as mh

PROPERTY = "C04"
EXTS = {}


@st.composite
def dist_index(draw, n):
    k = draw(st.sampled_from(["int", "npint", "slice", "slice", "slice", "full"]))
    if k in ("int", "npint"):
        return [k, draw(st.integers(-n, n - 1))] if n else ["full"]
    if k == "slice":
        b = st.one_of(st.none(), st.integers(-n - 2, n + 2))
        return ["slice", draw(b), draw(b), draw(st.sampled_from([None, None, 1, 2, 3, -1, -2, -3, 5]))]
    return ["full"]


@st.composite
def other_index(draw, n, fancy):
    k = draw(st.sampled_from(["int", "npint", "slice", "full", "full", "list", "array", "mask"]))
    if k in ("int", "npint"):
        return [k, draw(st.integers(-n, n - 1))] if n else ["full"]
    if k == "slice":
        b = st.one_of(st.none(), st.integers(-n - 1, n + 1))
        return ["slice", draw(b), draw(b), draw(st.sampled_from([None, 1, 2, -1, -2]))]
    if k in ("list", "array") and n and fancy:
        return [k, draw(st.lists(st.integers(-n, n - 1), min_size=0, max_size=4, unique_by=lambda i: i % n))]
    if k == "mask" and n and fancy:
        return ["mask", draw(st.lists(st.booleans(), min_size=n, max_size=n))]
    return ["full"]


@st.composite
def indices(draw, shape, axis):
    ix = []
    fancy = True
    for i, n in enumerate(shape):
        if i == axis:
            ix.append(draw(dist_index(n)))
        else:
            ix.append(draw(other_index(n, fancy)))
            if ix[-1][0] in ("list", "array", "mask"):
                fancy = False
    style = draw(st.sampled_from(["full", "short", "ellipsis", "single"]))
    return {"ix": ix, "style": style, "at": draw(st.integers(0, 3))}


@st.composite
def cases(draw):
    shape = draw(mh.shapes(maxd=3, maxn=11, maxsize=600))
    axis = draw(st.integers(0, len(shape) - 1))
    step = st.fixed_dictionaries({
        "op": st.sampled_from(["get", "set scalar", "set array"]),
        "index": indices(shape, axis),
        "value": st.integers(0, 200),
    })
    return {
        "shape": shape,
        "axis": axis,
        "dtype": draw(st.sampled_from(["<f8", "<i4", "<c16", "|u1", "struct"])),
        "ops": draw(st.lists(step, min_size=1, max_size=5)),
    }


def build(d):
    """-> the index to use, and whether it is whole along each axis"""
    import numpy as np

    out = []
    for e in d["ix"]:
        k = e[0]
        if k == "int":
            out.append(int(e[1]))
        elif k == "npint":
            out.append(np.int64(e[1]))
        elif k == "slice":
            out.append(slice(*e[1:]))
        elif k == "list":
            out.append(list(e[1]))
        elif k == "array":
            out.append(np.array(e[1], dtype=int))
        elif k == "mask":
            out.append(np.array(e[1], dtype=bool))
        else:
            out.append(slice(None))
    full = lambda o: isinstance(o, slice) and o == slice(None)  # noqa: E731
    if d["style"] in ("short", "single"):
        while len(out) > 1 and full(out[-1]):
            out.pop()
        if d["style"] == "single" and len(out) == 1 and not isinstance(out[0], (list, np.ndarray)):
            return Ellipsis if full(out[0]) and d["at"] else out[0]
    elif d["style"] == "ellipsis":
        # full slices in a row become an ellipsis; an empty ellipsis is also legal
        p = d["at"] % (len(out) + 1)
        q = p
        while q < len(out) and full(out[q]):
            q += 1
        # (numpy lets an empty one separate fancy indices, which is not of interest here)
        if q > p or not any(isinstance(o, (list, np.ndarray)) for o in out):
            out[p:q] = [Ellipsis]
    return tuple(out)


def run(case, ctx):
    import numpy as np

    warnings.simplefilter("ignore")
    axis = case["axis"]
    G = mh.content(case["shape"], case["dtype"]).copy()
    N = G.shape[axis]
    # the global position of every element along the distributed axis
    P = np.arange(N).reshape([N if i == axis else 1 for i in range(G.ndim)]) + np.zeros(G.shape, int)
    arr = mh.dist(ctx, G, axis)
    s, e = mh.bounds(N, ctx.size, ctx.rank)
    labels = set()
    partly = False
    for op in case["ops"]:
        d = op["index"]
        ix = build(d)
        want, pos = G[ix], P[ix]
        de = d["ix"][axis]
        whole = de[0] == "full" or (de[0] == "slice" and de[1:] == [None, None, None])
        labels |= {op["op"], "dist " + de[0]}
        # the part of the selection on this process, in the order of the selection
        idx = de[1] % N if de[0] in ("int", "npint") else None
        if idx is not None:
            mine = want if s <= idx < e else None
            at = None
        else:
            # the axis of the result along which the position varies: found by indexing markers
            sel = range(N)[slice(*de[1:])] if de[0] == "slice" else range(N)
            inside = [k for k, g in enumerate(sel) if s <= g < e]
            at = where(ix, G.shape, axis)
            mine = np.take(want, inside, axis=at)
            if 0 < len(inside) < len(sel):
                partly = True
        if op["op"] == "get":
            got = arr.global_slice[ix]
            if whole:
                # the whole distributed axis stays distributed
                mh.verify(ctx, got, want, f"global_slice[{ix}]", axis=at)
            elif mine is None or mine.size == 0:
                check(got is None or np.size(got) == 0, "[%s] gave %r where this process holds nothing", ix, got)
            else:
                check(got is not None, "[%s] gave nothing where this process holds %s", ix, mine)
                same_array(got, mine, f"global_slice[{ix}]")
        else:
            if want.dtype.names or op["op"] == "set scalar" or mine is None or mine.shape == ():
                v = mh.content((1,), case["dtype"], op["value"])[0]
                G[ix] = v
                arr.global_slice[ix] = v
            else:
                new = mh.content(want.shape, case["dtype"], op["value"])
                G[ix] = new
                arr.global_slice[ix] = new if at is None else np.take(new, inside, axis=at)
        mh.verify(ctx, arr, G, f"the array after {op['op']} [{ix}]", axis=axis)
    return Info(ctx.size > 1 and G.size > 0, sorted(labels) + (["split over processes"] if partly else []))


def where(ix, shape, axis):
    """The axis of the result that the distributed axis became."""
    import numpy as np

    # replace the index on the distributed axis by the whole axis
    t = ix if isinstance(ix, tuple) else (ix,)
    t = list(t)
    if not any(x is Ellipsis for x in t):
        t.append(Ellipsis)
    k = next(i for i, x in enumerate(t) if x is Ellipsis)
    t[k:k + 1] = [slice(None)] * (len(shape) - len(t) + 1)
    t[axis] = slice(None)
    # a distributed axis of a distinctive length decides the position
    L = 1000003
    big = np.broadcast_to(np.zeros(1, np.int8), [L if i == axis else q for i, q in enumerate(shape)])
    if any(isinstance(x, (list, np.ndarray)) for x in t):
        # fancy indices would copy: use a length that is small but distinct
        L = 13 + max([0, *shape])
        big = np.zeros([L if i == axis else q for i, q in enumerate(shape)], np.int8)
    return list(big[tuple(t)].shape).index(L)


PARTS = [
    Part("histories", cases, run, quick=400, ranks=[1, 2, 3, 4, 5],
         rule="sequences of up to five reads and assignments through global indices (integers of either sign, "
              "slices of any bounds and step, ellipsis in any place, and lists, arrays or masks on the other axes) "
              "compared with numpy on the global array; non-trivial for a non-empty array on several processes"),
]
