"""C08: saving and loading a data tree preserves everything in it."""

import os
import shutil
import warnings

from hypothesis import strategies as st

from checks import trees as T
from vf.core import Info, Part, check

PROPERTY = "C08"
EXTS = {}
ASSUMPTIONS = ["text in datasets is ASCII and written with string conversion on, attributes hold no NUL characters",
               "attributes come back as the same value up to the container types the formats merge: numpy scalar and Python scalar; list, tuple and array; bytes and text; date and ISO text",
               "complex attributes only to HDF5 (Zarr attributes are JSON)"]

SAVE = ["to_file", "to_file", "explicit", "to_hdf5", "mdg", "to_disk", "copy", "ondisk", "ondisk_z", "subgroup"]
LOAD = ["from_file", "from_file", "from_hdf5", "from_group", "mdg", "mdg_handle", "ondisk", "to_memory", "copy"]
FMT = ["h5", "h5", "zarr", "zip"]


@st.composite
def cases(draw):
    strings = draw(st.booleans())
    hops = draw(st.lists(st.tuples(st.sampled_from(FMT), st.sampled_from(SAVE), st.sampled_from(LOAD)).map(list), min_size=1, max_size=3))
    for h in hops:
        if h[0] != "h5":
            h[1] = "to_file" if h[1] == "to_hdf5" else h[1]
            h[2] = "from_file" if h[2] == "from_hdf5" else h[2]
    zarr = any(h[0] != "h5" or h[1] == "ondisk_z" for h in hops)
    return {"tree": draw(T.trees(zarr=zarr, strings=strings)), "strings": strings, "hops": hops, "clobber": draw(st.booleans())}


def fmt_of(f):
    from caput.memdata import fileformats as ff

    return ff.HDF5 if f == "h5" else ff.Zarr


def save(g, fn, hop, strings, ctx, k):
    """Write group g to the file; returns an on-disk group that has to be closed, or None."""
    import h5py
    import zarr

    from caput import memdata as md

    f, how, _ = hop
    ff = fmt_of(f)
    kw = {"convert_dataset_strings": strings}
    if how == "to_file":
        g.to_file(fn, **kw)
    elif how == "explicit":
        g.to_file(fn, file_format=ff, **kw)
    elif how == "to_hdf5":
        g.to_hdf5(fn, **kw)
    elif how == "mdg":
        md.MemDiskGroup(g).save(fn, file_format=ff, **kw)
    elif how == "to_disk":
        m = md.MemDiskGroup(g)
        m.convert_dataset_strings = strings
        m.to_disk(fn, file_format=ff).close()
    elif how == "copy":
        with (h5py.File(fn, "w") if f == "h5" else zarr.open_group(fn, mode="w")) as h:
            md.deep_group_copy(g, h, file_format=ff, convert_dataset_strings=strings)
            if f == "zip":
                h.store.close()
    elif how in ("ondisk", "ondisk_z"):
        tmp = os.path.join(ctx.scratch, f"mid{k}." + ("h5" if how == "ondisk" else "zarr"))
        g.to_file(tmp, **kw)
        with md.MemDiskGroup.from_file(tmp, ondisk=True) as m:
            check(m.ondisk, "not on disk")
            m.save(fn, file_format=ff)
    elif how == "subgroup":
        # the tree as a branch of a larger file
        with (h5py.File(fn, "w") if f == "h5" else zarr.open_group(fn, mode="w")) as h:
            sub = h.create_group("deep/er")
            md.deep_group_copy(g, sub, file_format=ff, convert_dataset_strings=strings)
            if f == "zip":
                h.store.close()


def load(fn, hop, strings):
    import h5py
    import zarr

    from caput import memdata as md

    f, sv, how = hop
    ff = fmt_of(f)
    kw = {"convert_dataset_strings": strings}
    if sv == "subgroup":
        with (h5py.File(fn, "r") if f == "h5" else zarr.open_group(fn, mode="r")) as h:
            check(set(h) == {"deep"} and set(h["deep"]) == {"er"}, "copying below a group wrote %s and %s", list(h), list(h["deep"]))
            g = md.MemGroup()
            md.deep_group_copy(h["deep/er"], g, file_format=ff, **kw)
            return g
    if how == "from_file":
        return md.MemGroup.from_file(fn, **kw)
    if how == "from_hdf5":
        return md.MemGroup.from_hdf5(fn, **kw)
    if how == "from_group" and not strings:
        if f == "zip":
            return md.MemGroup.from_group(fn)
        with (h5py.File(fn, "r") if f == "h5" else zarr.open_group(fn, mode="r")) as h:
            check(T.same_walk(md.MemGroup.from_group(fn), md.MemGroup.from_group(h)), "a group made from a file and from its name differ")
            return md.MemGroup.from_group(h)
    if how == "mdg":
        return md.MemDiskGroup.from_file(fn, file_format=ff, **kw)._data
    if how == "mdg_handle" and f != "zip":
        with (h5py.File(fn, "r") if f == "h5" else zarr.open_group(fn, mode="r")) as h:
            return md.MemDiskGroup.from_file(h, **kw)._data
    if how == "to_memory" and f != "zip" and not strings:
        with md.MemDiskGroup.from_file(fn, ondisk=True) as m:
            return m.to_memory()._data
    if how == "copy":
        with (h5py.File(fn, "r") if f == "h5" else zarr.open_group(fn, mode="r")) as h:
            g = md.MemGroup()
            md.deep_group_copy(h, g, file_format=ff, **kw)
            return g
    return md.MemGroup.from_file(fn, file_format=ff, **kw)


def run(c, ctx):
    from caput import memdata as md

    warnings.simplefilter("ignore")
    t = c["tree"]
    g = md.MemGroup()
    T.make(t, g)
    want = T.model(t)
    strings = c["strings"]
    made = []
    try:
        for k, hop in enumerate(c["hops"]):
            f, how, ld = hop
            fn = os.path.join(ctx.scratch, f"t{ctx.n}_{k}." + {"h5": "h5", "zarr": "zarr", "zip": "zarr.zip"}[f])
            made += [fn, *[os.path.join(ctx.scratch, f"mid{k}.{e}") for e in ("h5", "zarr")]]
            if c["clobber"] and how not in ("copy", "subgroup"):
                # something else is already there and has to go
                o = md.MemGroup()
                o.create_dataset("leftover/x", data=T.content([4], "<i4", 1))
                o.to_file(fn)
            before = T.walk(g)
            chunking = {p: (d.chunks, d.compression, d.compression_opts) for p, d in dsets(g)}
            save(g, fn, hop, strings, ctx, k)
            where = f"hop {k} {hop}"
            T.compare(T.walk(g), before, where + ": the saved tree itself", ignore=["__memh5_subclass"], exact_attrs=True)
            check({p: (d.chunks, d.compression, d.compression_opts) for p, d in dsets(g)} == chunking, "%s: saving changed the chunking", where)
            if ld == "ondisk" and how != "subgroup":
                # straight from the disk, through the container interface
                with md.MemDiskGroup.from_file(fn, ondisk=True, file_format=fmt_of(f)) as m:
                    check(m.ondisk, "%s: not on disk", where)
                    disk = T.walk(m)
                check(set(disk) == set(want), "%s: on disk there is %s, expected %s", where, sorted(disk), sorted(want))
                for p in want:
                    if want[p][0] is not None and not has_text(want[p][0].dtype):
                        T.compare({p: [disk[p][0], {}]}, {p: [want[p][0], {}]}, where + ": on disk")
            g = load(fn, hop, strings)
            check(isinstance(g, md.MemGroup), "%s: loaded a %s", where, type(g))
            T.compare(T.walk(g), want, where + ": loaded", ignore=["__memh5_subclass"], text="U" if strings else None)
            if strings:
                for p, v in want.items():
                    if v[0] is not None:
                        import numpy as np

                        v[0] = v[0].astype(T.retext(T.native(v[0], np).dtype, np))
    finally:
        for fn in made:
            if os.path.isdir(fn):
                shutil.rmtree(fn)
            elif os.path.exists(fn):
                os.remove(fn)
    nd = sum(1 for _, d, _ in t["ents"] if d is not None and 0 not in d["shape"])
    return Info(nd > 0 and (t["attrs"] or any(a for _, _, a in t["ents"])),
                [h[0] for h in c["hops"]] + [h[1] for h in c["hops"]] + [a[1][0] for e in t["ents"] for a in e[2]])


def live_cases():
    return st.fixed_dictionaries({
        "tree": T.trees(zarr=True),
        "fmt": st.sampled_from(["h5", "h5", "zarr", "zarr", "zip"]),
        "open": st.sampled_from(["name", "format", "from_file"]),
        "flush": st.booleans(),
        "ctx": st.booleans(),
        "edits": st.lists(st.tuples(st.sampled_from(["write", "new", "del", "attr"]), st.integers(0, 20)).map(list), max_size=5),
    })


def simple(v):
    """An attribute value that can be written to the file directly."""
    return {"int": lambda: v[1], "str": lambda: v[1], "ilist": lambda: list(v[1])}.get(v[0], lambda: 7)()


def run_live(c, ctx):
    """A container on disk holds what was put into it, once it is closed."""
    import h5py
    import numpy as np

    from caput import memdata as md

    warnings.simplefilter("ignore")
    t, f = c["tree"], c["fmt"]
    for e in t["ents"]:
        if e[1] is not None:
            e[1]["comp"] = None
            e[1]["dtype"] = "<f8" if e[1]["dtype"] == "nested" else e[1]["dtype"]
    fn = os.path.join(ctx.scratch, f"live{ctx.n}." + {"h5": "h5", "zarr": "zarr", "zip": "zarr.zip"}[f])
    ff = fmt_of(f)
    want = T.model(t)
    for v in want.values():
        v[1] = {}
    want["/"][1].update({k: simple(v) for k, v in t["attrs"]})
    for p, _, at in t["ents"]:
        want["/" + p][1].update({k: simple(v) for k, v in at})

    def start(mode):
        if c["open"] == "name":
            return md.MemDiskGroup(fn)
        if c["open"] == "format":
            return md.MemDiskGroup(fn, file_format=ff)
        return md.MemDiskGroup.from_file(fn, ondisk=True, mode=mode)

    def finish(m, where):
        if c["flush"]:
            m.flush()
            if f != "zip":
                T.compare(T.walk(m), want, where + ": after flush")
        if c["ctx"]:
            with m:
                pass
        else:
            m.close()
        T.compare(T.walk(md.MemGroup.from_file(fn)), want, where)

    try:
        m = start("w")
        check(m.ondisk, "not on disk")
        T.make(t, m, attr=simple)
        finish(m, "created")
        if f != "zip":
            m = start("r+")
            for k, i in c["edits"]:
                ds = sorted(p for p in want if want[p][0] is not None)
                if k == "new":
                    p = f"/new{i}/x{i}"
                    if p in want:
                        continue
                    m.create_dataset(p, data=T.content([3], "<i4", i))
                    want[p] = [T.content([3], "<i4", i), {}]
                    want.setdefault(f"/new{i}", [None, {}])
                elif k == "attr":
                    p = sorted(want)[i % len(want)]
                    (m[p] if p != "/" else m).attrs["edited"] = i
                    want[p][1]["edited"] = i
                elif ds:
                    p = ds[i % len(ds)]
                    if k == "write":
                        d = want[p][0]
                        v = d[::-1].copy() if d.ndim else d
                        m[p][...] = v
                        want[p][0] = v
                    else:
                        del m[p]
                        del want[p]
            finish(m, "edited")
            # a container opened for reading refuses to be changed
            m = md.MemDiskGroup.from_file(fn, ondisk=True)
            try:
                m.create_dataset("refused", data=np.arange(3))
            except Exception:  # noqa: BLE001
                pass
            else:
                check(False, "a file opened for reading was changed")
            m.close()
            T.compare(T.walk(md.MemGroup.from_file(fn)), want, "read only")
        # the file is free again
        if f == "h5":
            h5py.File(fn, "w").close()
    finally:
        if os.path.isdir(fn):
            shutil.rmtree(fn)
        elif os.path.exists(fn):
            os.remove(fn)
    return Info(any(v[0] is not None and v[0].size for v in want.values()), [f, c["open"]] + [e[0] for e in c["edits"]])


def has_text(dt):
    return dt.kind in "SU" or bool(dt.names and any(has_text(dt[n]) for n in dt.names))


def dsets(g):
    out = []

    def rec(o):
        for k in o:
            ch = o[k]
            if hasattr(ch, "create_group"):
                rec(ch)
            else:
                out.append((ch.name, ch))

    rec(g)
    return out


PARTS = [
    Part("roundtrip", cases, run, quick=160, shards=6,
         rule="generated tree carried through 1 to 3 save/load hops over both formats and all routes; non-trivial: some data and some attribute"),
    Part("on disk", live_cases, run_live, quick=120, shards=2,
         rule="generated tree created and edited in a container that lives in a file, opened in any way, and compared with the file after closing; non-trivial: some data"),
]
