"""Writes properties.jsonl and MANIFEST.json: python3 tools/props.py

Properties whose check module exists are claimed; the rest are listed under
not_applicable until they have one.
"""

import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, technique, note, level="exploration",
      observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, technique=technique, note=note, level=level,
                  observe=observe))


EXP = ("Generated-input search with a stated oracle, bounded by case count and size; it samples "
       "the domain and proves nothing beyond the cases it ran. Trusts ")

# ------------------------------------------------------------------ MPIArray
p("C01", "Distributed arrays are partitioned exactly once over the processes",
  "For any number of processes, any global shape (including lengths smaller than the process count or zero) and any choice of distributed axis, the local blocks of a distributed array tile the global array: contiguous, in rank order, non-overlapping, complete and differing in length by at most one. The metadata every process reports (global shape, local shape, offset, bounds, axis, iteration of local-to-global indices) describes exactly the block it holds, also after wrapping existing blocks, filling with zeros or ones, copying or slicing. Wrapping blocks whose lengths along the distributed axis do not fit the partition is refused on every process instead of producing a wrong array.",
  ["inputs", "configurations"], "process counts 1..5, shapes of 1-4 dimensions with lengths 0..9, every axis, dtypes, constructors",
  "The tests run on one and four processes with a couple of shapes divisible or nearly so; the guarantee is over all shapes and process counts, in particular empty ranks.",
  ["caput/mpiarray.py", "caput/util/mpitools.py", "caput/util/arraytools.py"],
  [("construction and partition", "caput/mpiarray.py:597"), ("wrap", "caput/mpiarray.py:690"), ("split rule", "caput/util/mpitools.py:506"), ("local index enumeration", "caput/mpiarray.py:887")],
  "property-based testing over MPI process pools against a reference partition model",
  EXP + "numpy, mpi4py and the reference partition.")
p("C02", "Redistributing and gathering never lose, duplicate or move data",
  "Changing the distributed axis of an array any number of times, in any order, on any number of processes leaves its global content and dtype unchanged, and only the partition changes. Gathering to one process or to all processes yields exactly the global array in its original axis order, whatever the memory layout of the local block, and sum/min/max reductions across processes equal those over the global array. Redistributing to another axis gives a contiguous block. The source array is not modified by any of these.",
  ["inputs", "histories", "configurations"], "sequences of redistribute / gather / allgather / allreduce / copy on arrays of any shape, dtype and layout, process counts 1..5",
  "Tests check single transitions for a few shapes; errors in counts, offsets or packing only show for uneven splits, empty ranks, higher dimensions or structured dtypes.",
  ["caput/mpiarray.py", "caput/util/mpitools.py"],
  [("redistribute", "caput/mpiarray.py:745"), ("gather/allgather", "caput/mpiarray.py:1522"), ("buffer preparation", "caput/mpiarray.py:1494"), ("allreduce", "caput/mpiarray.py:856")],
  "stateful property-based testing over MPI process pools against a numpy model",
  EXP + "numpy and the point-to-point layer of MPI.")
p("C03", "Operations on distributed arrays agree with numpy on the global array",
  "For any expression built from element-wise functions, scalars, plain arrays, broadcasting, reductions over any axes, local indexing that keeps the distributed axis, transposes (T, swapaxes, moveaxis, transpose) and reshapes, the result on distributed arrays equals, block by block, what numpy gives for the global arrays, and its distributed axis and shape metadata are right. A reduction over everything acts on each process's own block and gives one element per process. Combining arrays distributed over different axes, and reductions or accumulations over the distributed axis alone, are refused.",
  ["inputs", "programs", "configurations"], "operations with generated operands, shapes, axes, keepdims, output arguments; process counts 1..4",
  "The space of operand kinds, broadcasting and axes is combinatorial and each combination takes its own branch; tests cover about a dozen.",
  ["caput/mpiarray.py"],
  [("ufunc dispatch", "caput/mpiarray.py:1768"), ("call / accumulate / reduce", "caput/mpiarray.py:1927"), ("local indexing", "caput/mpiarray.py:435"), ("transpose, reshape", "caput/mpiarray.py:1362"), ("axis consistency", "caput/mpiarray.py:2261")],
  "differential property-based testing against numpy over MPI process pools",
  EXP + "numpy as the oracle for the global arrays.")
p("C04", "Global slicing reads and writes exactly the addressed global elements",
  "Indexing a distributed array in global coordinates with any combination of integers, slices, ellipsis and fancy indices on the undistributed axes returns on each process exactly the part of the globally indexed array that the process holds (nothing when it holds none of it), and assigning a scalar or each process's own part of the values changes exactly the addressed elements on whichever process holds them. Elements outside the index are never touched. This holds for every process count and every distributed axis.",
  ["inputs", "histories", "configurations"], "index expressions over arrays of any shape, process counts 1..5, sequences of assignments",
  "A global index is translated per rank; boundary errors only show for particular alignments of the index with the rank boundaries.",
  ["caput/mpiarray.py"], [("global index resolver", "caput/mpiarray.py:284"), ("index normalisation", "caput/mpiarray.py:2394")],
  "differential property-based testing against numpy indexing over MPI process pools",
  EXP + "numpy indexing as the oracle.")
p("C05", "Distributed array files hold the global array and reload on any process count",
  "A distributed array written to an HDF5 or Zarr file by any number of processes, distributed over any axis, with any chunking, compression or dtype (including complex and structured), contains exactly the global array. Reading a file dataset back on any number of processes, over any distributed axis, with any per-axis selection (ranges, positive strides, increasing index lists), gives exactly the selected global data, partitioned over the processes.",
  ["inputs", "configurations"], "shapes, axes, dtypes, chunk and compression settings, selections, writer and reader process counts 1..4, both file formats",
  "Selection splitting over ranks and I/O partitioning depend on arithmetic over shape, stride and rank count that tests sample at a handful of points.",
  ["caput/mpiarray.py", "caput/memdata/fileformats.py"],
  [("read with selections", "caput/mpiarray.py:942"), ("selection partition", "caput/mpiarray.py:2147"), ("write", "caput/mpiarray.py:1089"), ("zarr write", "caput/mpiarray.py:1199"), ("serial fallback", "caput/mpiarray.py:1643")],
  "round-trip and differential property-based testing over MPI process pools",
  EXP + "h5py and zarr for reading back what was written.")
p("C06", "Parallel helpers split, map, gather and transpose without loss",
  "Splitting work or data over processes assigns every item to exactly one process, and mapping a function over a list in parallel returns on every process the results in input order. Gathering or block-transposing distributed pieces reproduces the global array they came from, and rows written in parallel to a file make up the global array. The processors of a node are divided between its processes, at least one for each, and processes set aside wait until they are released. These hold for any number of items (including none, or fewer than the processes), any process count, shape, axis and dtype.",
  ["inputs", "configurations"], "list lengths 0..20, shapes, dtypes, process counts 1..5, all partition methods",
  "Uneven splits and empty ranks are the failure cases and the tests sample one split.",
  ["caput/util/mpitools.py", "caput/util/arraytools.py"],
  [("split rules", "caput/util/mpitools.py:463"), ("parallel map", "caput/util/mpitools.py:652"), ("gather", "caput/util/mpitools.py:585"), ("block transpose", "caput/util/mpitools.py:725"), ("list partition", "caput/util/arraytools.py:50")],
  "property-based testing over MPI process pools against serial references",
  EXP + "the serial reference functions.")
# ------------------------------------------------------------------ memdata
p("C07", "The in-memory data tree behaves like an HDF5 file",
  "Any sequence of creating, requiring, looking up, overwriting, iterating and deleting groups, datasets and attributes, by absolute or relative paths, on the in-memory tree gives the same visible tree, values, names and parents, and the same success or refusal, as the same sequence on a real HDF5 file (except that creating a dataset where one already exists replaces it, and that the order of iteration is not specified). Datasets obtained earlier keep referring to the same data while they are in the tree.",
  ["histories", "inputs"], "operation sequences over nested paths",
  "The container mimics the HDF5 interface; agreement is over all histories of operations, not over the few the tests perform.",
  ["caput/memdata/_memh5.py"], [("storage tree", "caput/memdata/_memh5.py:104"), ("group interface", "caput/memdata/_memh5.py:236"), ("dataset creation", "caput/memdata/_memh5.py:725")],
  "stateful model-based testing against h5py",
  EXP + "h5py as the reference model.")
p("C08", "Saving and loading a data tree preserves everything in it",
  "Any tree of groups, datasets and attributes written to an HDF5 or Zarr file and read back is equal to the original: same structure, shapes, dtypes and values, bit for bit, for numeric, complex, boolean, structured and text data (including unicode text inside structured types), and for attributes holding numbers, arrays, text, and nested dictionaries of them. (Text in datasets is ASCII and needs string conversion turned on; attributes come back as the same value, but the file formats do not distinguish numpy from Python scalars, lists and tuples from arrays, bytes from text, nor dates from ISO text.) Chunking, compression and the on-disk or in-memory route used never change the values. Saving modifies neither the tree nor its data (a container only gains the attribute naming its class).",
  ["inputs", "configurations"], "trees of depth up to 3 with generated dtypes, shapes, attributes, chunks, compression; both formats; all save and load routes",
  "Type conversion on the way to and from disk is per type and per nesting; tests use one or two types per format.",
  ["caput/memdata/_memh5.py", "caput/memdata/fileformats.py", "caput/util/typeutils.py"],
  [("deep copy between trees and files", "caput/memdata/_memh5.py:2431"), ("attribute conversion", "caput/memdata/_memh5.py:2341"), ("to_file / from_file", "caput/memdata/_memh5.py:503"), ("save, to_disk, to_memory", "caput/memdata/_memh5.py:2125"), ("formats", "caput/memdata/fileformats.py:96")],
  "round-trip property-based testing over generated trees",
  EXP + "the independent tree comparison and h5py/zarr.")
p("C09", "Deep copies are independent; shallow copies and views share data",
  "After a deep copy of a tree or dataset no later change to data, attributes or structure of either side is visible in the other; after a shallow copy or view, or for the datasets listed as shared, the data are shared both ways. Copying with a selection keeps exactly the selected elements of the selected datasets and everything else unchanged. The source is never altered by being copied.",
  ["inputs", "histories"], "trees, selections and mutation sequences applied to either side after the copy",
  "Aliasing bugs are visible only under a mutation history after the copy.",
  ["caput/memdata/_memh5.py"], [("group copy", "caput/memdata/_memh5.py:2431"), ("dataset copy and view", "caput/memdata/_memh5.py:1031"), ("container copy", "caput/memdata/_memh5.py:2175")],
  "model-based property testing of mutation histories after copying",
  EXP + "the in-harness alias model.")
p("C10", "Distributed trees agree with their serial content on any process count",
  "A tree holding distributed and common datasets has the same global content whichever way it got there: created, converted between common and distributed along any axis, redistributed, written to file by N processes and read back by M, with or without selections. Attributes and common data are identical on every process. Conversions there and back are the identity.",
  ["inputs", "histories", "configurations"], "trees with mixed datasets, conversion sequences, selections, both file formats, process counts 1..4",
  "Each conversion slices by rank; wrong axes or offsets appear only with uneven splits and non-leading axes.",
  ["caput/memdata/_memh5.py", "caput/mpiarray.py"], [("common to distributed", "caput/memdata/_memh5.py:910"), ("distributed to common", "caput/memdata/_memh5.py:964"), ("distributed write", "caput/memdata/_memh5.py:2749"), ("distributed read", "caput/memdata/_memh5.py:2837")],
  "stateful property-based testing over MPI process pools against a numpy model",
  EXP + "the numpy model of the tree.")
p("C11", "A file under construction never appears finished or is left broken",
  "While an output is being written under the file lock, the final name never shows partial content: it keeps its previous content until the writer finishes, then changes to the complete new content in one step, and the lock marker exists exactly during the write. If the writer fails at any point, the final name keeps what it had, and no lock marker or (unless asked to keep it) temporary file remains; the error is passed on. A writer that is killed may leave its temporary file and lock, but the final name is as before, and a later writer still succeeds. This holds for every crash point of the writer. (An existing output directory is not replaced by one of the same name.)",
  ["crash_points", "fault_sequences", "histories"], "every operation boundary of a generated writer, with and without pre-existing output, with preserve on or off",
  "Tests run the normal path and one failure; the guarantee is over every point at which the writer can fail or be killed.",
  ["caput/memdata/_io.py"], [("lock file context", "caput/memdata/_io.py:71")],
  "fault-injection over every step of generated writers, checked against an atomicity oracle",
  "Every fault point of each generated writer is enumerated; the writers themselves are sampled. Trusts the file system's rename.", level="fault_enumeration")
p("C12", "Text and byte-order conversions preserve values in any nesting",
  "Converting text between byte strings and unicode, in scalars, lists, dictionaries, arrays and structured types of any nesting, preserves the text, the shape and every other field, and leaves inputs untouched; conversions there and back are the identity and are idempotent. Byte-order normalisation never changes values. The predicates about which kinds a dtype contains are exact for any nesting.",
  ["inputs"], "generated dtypes (nested, sub-arrays, aligned), arrays of ASCII text, nested Python containers",
  "The recursion over dtypes and containers has to be right for every nesting; tests have a few.",
  ["caput/util/typeutils.py"], [("conversion", "caput/util/typeutils.py:24"), ("dtype recursion", "caput/util/typeutils.py:104"), ("byte order", "caput/util/typeutils.py:156")],
  "property-based testing: round-trips and a recursive reference",
  EXP + "numpy casting and the recursive reference.")
# ------------------------------------------------------------------ containers
p("C13", "Containers are laid out as their class hierarchy declares",
  "For any class hierarchy of container declarations, a constructed container has exactly the declared axes and initial datasets, with the declared shapes, dtypes, chunking, compression and axis attributes, where nearer declarations override inherited ones and datasets not initialised by default can be added later as declared, undeclared ones not. Axes given as lengths, lists, arrays or taken from another container, copying structure from another container and making an empty look-alike all give the documented axis values and never share or alter state of the source or of the class (an array passed directly as an axis may be referenced).",
  ["inputs", "programs"], "generated class hierarchies (depth up to 3, diamonds), axis definitions, copy sources and argument combinations",
  "Precedence over the class hierarchy and over sources of axes is a rule about all declarations; tests use two or three fixed classes.",
  ["caput/containers/_core.py", "caput/containers/_util.py"],
  [("construction", "caput/containers/_core.py:351"), ("add dataset", "caput/containers/_core.py:467"), ("declaration merge", "caput/containers/_core.py:594"), ("empty_like", "caput/containers/_util.py:20")],
  "property-based testing over generated class hierarchies against a reference resolver",
  EXP + "the reference resolver.")
p("C14", "Axis selections apply consistently to every dataset and axis",
  "Loading a container with an axis selection (range, stride or index list; on any axes), or copying one container into another with a selection, gives exactly the container that slicing every dataset along each of its selected axes, and the axis definitions themselves, would give. Datasets without the selected axis, attributes and other axes are unchanged. The source and the caller's arguments are not modified.",
  ["inputs", "configurations"], "containers with 1-4 axes, any selection combination, HDF5 and Zarr, copy filters, process counts 1..3",
  "Consistency between axis definitions and each dataset must hold for every combination of axes and selection kinds.",
  ["caput/containers/_core.py", "caput/containers/_util.py", "caput/memdata/_memh5.py"],
  [("load-time selections", "caput/containers/_core.py:656"), ("copy filter", "caput/containers/_util.py:43"), ("selective read", "caput/memdata/_memh5.py:1839")],
  "differential property-based testing against numpy slicing of the model container",
  EXP + "numpy slicing as the oracle.")
p("C15", "Containers reload as the same class with the same content and history",
  "Saving a container and loading it again, directly or as a generic container, through HDF5 or Zarr, distributed or not, yields the same class, datasets, axes, axis attributes, attributes and processing history in the same order. Redistributing a container over an axis distributes each dataset that has the axis over it, leaves the others alone and changes no values. History entries are recorded in order, and entries of history and of the index definitions cannot be added, replaced or removed through the mappings returned.",
  ["inputs", "histories", "configurations"], "containers and history contents, redistribution sequences, process counts 1..3, both formats",
  "It is a property of histories of operations and of every content, not of one example container.",
  ["caput/containers/_core.py", "caput/memdata/_memh5.py"], [("history", "caput/containers/_core.py:172"), ("redistribute", "caput/containers/_core.py:202"), ("class resolution", "caput/memdata/_memh5.py:1710"), ("save", "caput/memdata/_memh5.py:2201")],
  "stateful round-trip property-based testing over MPI process pools",
  EXP + "the in-harness container model.")
p("C16", "Concatenating time-ordered data is the same as joining along time",
  "Concatenating any list of time-ordered containers or files, with any start and stop time indices, dataset subset and time-indexed axes, gives every time-dependent dataset and index joined in order along its time axis and cut to the requested range, while everything not time-dependent is taken over unchanged. Reading a time range gives exactly the samples in the range. Splitting a container into pieces and concatenating them is the identity, and the sources and arguments are not modified.",
  ["inputs"], "piece lengths including 1, dataset axes orders, start/stop positive, negative or out of range, in memory or in files, distributed or not",
  "Start and stop may fall in any piece or on any boundary, and time may be at any axis position of a dataset.",
  ["caput/containers/tod.py"], [("concatenate", "caput/containers/tod.py:312"), ("start/stop", "caput/containers/tod.py:719"), ("in/out slices", "caput/containers/tod.py:735"), ("reader", "caput/containers/tod.py:150")],
  "differential property-based testing against numpy concatenation",
  EXP + "numpy concatenation as the oracle.")
# ------------------------------------------------------------------ pipeline
p("C17", "The pipeline delivers every product once, in order, to every consumer",
  "For any acyclic graph of tasks, each task is set up once, before its first iteration, with the values its requirements name; each of its iterations consumes one value from each of its input streams in the order they were produced; and each value produced is delivered exactly once to every consumer of that name. A task finishes exactly once, after its inputs are exhausted or it stops by itself, its final output is delivered after all its other output, and the run ends when every task has finished. The outcome is independent of the scheduling priorities and of the order of the tasks in the configuration where that order is legal.",
  ["programs", "histories", "schedules"], "generated task graphs with fan-out, multiple outputs, requirements, tasks that stop early or drop values; generated orders and limits",
  "The scheduler's state machine depends on the whole graph and on the interleaving of tasks; tests use chains of two or three tasks.",
  ["caput/pipeline/_pipeline.py"], [("run loop", "caput/pipeline/_pipeline.py:268"), ("scheduling", "caput/pipeline/_pipeline.py:374"), ("task state machine", "caput/pipeline/_pipeline.py:1042"), ("queues", "caput/pipeline/_pipeline.py:1179")],
  "property-based testing of generated task graphs against a reference dataflow simulator",
  EXP + "the reference dataflow simulator.")
p("C18", "Invalid pipelines are rejected before anything runs; valid ones are accepted",
  "Every pipeline configuration that names an unknown task, parameter or parameter group, gives a parameter a value its type refuses, lacks the pipeline section or a task's type, has entries of the wrong kind, refers to products nobody makes, makes a product twice, or has the wrong number of inputs or requirements for a task is rejected with an error (a configuration error, or that of the value's own conversion) before any task does work. Every configuration that is consistent is accepted, and each task receives exactly the configured values, with defaults for the rest and shared parameters filled in where the task has them.",
  ["inputs", "programs"], "generated valid configurations and single-fault mutations of them",
  "The set of malformed configurations is unbounded; tests list a few.",
  ["caput/pipeline/_pipeline.py", "caput/config.py", "caput/pipeline/runner/_core.py"], [("task creation from configuration", "caput/pipeline/_pipeline.py:555"), ("key validation", "caput/pipeline/_pipeline.py:942"), ("product matching", "caput/pipeline/_pipeline.py:519"), ("lint", "caput/pipeline/runner/_core.py:24")],
  "mutation-based property testing of generated configurations",
  EXP + "the reference validity predicate.")
p("C19", "Container tasks process, tag, check and save every item as configured",
  "For any sequence of inputs, a container task calls its processing once per input in order, up to any configured limit, passes on each result, and carries metadata to the outputs: a tag per item and the configured attributes. Items are saved exactly when saving is requested (globally or per item), under the name the pattern gives, complete; and items with NaN or infinite values are detected on all processes, and dumped or dropped exactly as configured. Grouped tasks are equivalent to running their members one after the other.",
  ["inputs", "configurations", "histories"], "input sequences, save flags, name patterns, NaN placement and policies, grouped tasks, flow tasks",
  "The options combine (limit, save lists, tags, NaN handling, grouping) and interact over the iteration count.",
  ["caput/pipeline/tasklib/base.py", "caput/pipeline/tasklib/flow.py"], [("iteration", "caput/pipeline/tasklib/base.py:334"), ("output processing and saving", "caput/pipeline/tasklib/base.py:446"), ("NaN handling", "caput/pipeline/tasklib/base.py:531"), ("groups", "caput/pipeline/tasklib/base.py:646")],
  "property-based testing against a reference task model",
  EXP + "the reference task model.")
p("C20", "Configured attributes hold validated values per instance",
  "For any class hierarchy with declared configuration properties and any mapping of values, each instance holds exactly the configured value passed through the declared conversion, the declared default otherwise, independently of other instances; setting a value directly follows the same conversion. Ranges, enumerations, list types, lengths and log levels accept exactly the values they describe and reject all others with an error. Missing required values and, when asked, unknown keys are reported.",
  ["inputs", "programs"], "generated class hierarchies, property kinds, value mappings, validator arguments",
  "Validation is over all values; tests try one good and one bad value of each.",
  ["caput/config.py"], [("property descriptor", "caput/config.py:69"), ("reader", "caput/config.py:207"), ("validators", "caput/config.py:297")],
  "property-based testing against reference validators",
  EXP + "the reference validators.")
p("C21", "Loading and saving tasks deliver the right files with the right content",
  "File-loading tasks deliver exactly the configured files, in the configured order, grouping and number, with tags and requested axis selections applied, and stop when they are exhausted. What a saving task writes reloads equal to what it was given, and truncation on the way out changes only the datasets configured and only within the configured precision. Lists, patterns and groups in the configuration expand to exactly the matching files.",
  ["inputs", "configurations"], "generated directories of files, patterns, groups, selections, truncation parameters",
  "Behaviour depends on the whole directory content and configuration; tests use a fixed tiny set.",
  ["caput/pipeline/tasklib/io.py"], [("load", "caput/pipeline/tasklib/io.py:337"), ("selections", "caput/pipeline/tasklib/io.py:260"), ("file lists and groups", "caput/pipeline/tasklib/io.py:87"), ("save", "caput/pipeline/tasklib/io.py:614"), ("truncate", "caput/pipeline/tasklib/io.py:764")],
  "property-based testing over generated file sets against reference expansion and slicing",
  EXP + "the reference expansion and numpy slicing.")
p("C22", "Templated and queued jobs are generated faithfully and never clobber others",
  "Expanding a templated configuration gives one configuration per combination of the variable values, each the template with exactly those substitutions. A queued job's directory contains the configuration and a script carrying exactly the requested resources and command for the chosen system, where user settings override configured ones, which override system defaults. An existing job directory is replaced only when overwriting was requested for its state.",
  ["inputs", "configurations", "histories"], "generated templates, variables, cluster settings, systems and pre-existing directories, with submission replaced by a recording stand-in",
  "Templates, settings and precedence combine without bound; there are no such tests in the suite beyond a smoke run.",
  ["caput/pipeline/runner/_core.py", "caput/pipeline/runner/_scheduler/__init__.py"], [("template expansion", "caput/pipeline/runner/_core.py:108"), ("queue", "caput/pipeline/runner/_scheduler/__init__.py:110"), ("directories", "caput/pipeline/runner/_scheduler/__init__.py:327"), ("script", "caput/pipeline/runner/_scheduler/__init__.py:410")],
  "property-based testing with a recording stand-in for submission",
  EXP + "the reference expansion and a recording stand-in for the batch system.")
# ------------------------------------------------------------------ algorithms
p("C23", "Bit truncation stays within the requested error and zeroes low bits",
  "For every finite value (whose rounding does not overflow) and non-negative tolerance, truncation changes an integer or a floating-point value by no more than the tolerance, never changes sign or creates non-finite values, leaves values unchanged when the tolerance is zero, and is idempotent. The array forms apply the per-element, relative, weight-derived or row-maximum tolerance the caller asked for, in place and to every element. The result is the nearest multiple, ties to even, of the largest power of two the tolerance allows.",
  ["inputs"], "values over the whole integer and floating-point range including subnormals and extremes, all tolerances, all array forms",
  "Rounding edge cases (ties, carries into the next exponent, extremes of the exponent range) are a vanishing part of the input space.",
  ["caput/util/truncate.hpp", "caput/util/truncate.pyx"], [("rounding kernels", "caput/util/truncate.hpp:1"), ("array forms", "caput/util/truncate.pyx:78")],
  "property-based testing with bit-pattern generators against exact rational arithmetic",
  EXP + "Python's exact integer and fraction arithmetic.")
p("C24", "Weighted quantiles and medians satisfy their definition",
  "For any data, non-negative weights and quantile, along any axis, the value returned is a weighted quantile: the weight strictly below it is at most the requested fraction of the total and the weight strictly above it at most the remainder, with the lower, higher or midpoint choice made when several elements qualify. Elements of zero weight never influence the result and inputs are unchanged. Results are the same for any permutation of the samples and for any scaling of the weights by a power of two.",
  ["inputs"], "data with ties, zero weights, one element, any dtype and layout supported, all choices of method and quantile",
  "The selection partitions in place with weight bookkeeping; failures need particular ties, zero weights or quantile values.",
  ["caput/algorithms/median/weighted.pyx"], [("quickselect", "caput/algorithms/median/weighted.pyx:37"), ("quantile", "caput/algorithms/median/weighted.pyx:200")],
  "property-based testing against an exact sorted reference and metamorphic relations",
  EXP + "the exact reference on weights whose sums are exact in floating point.")
p("C25", "Moving weighted medians equal the median of each window",
  "For any one- or two-dimensional data and weights and any odd window size, each element of the moving weighted median is the weighted median, by the chosen method, of the data and weights inside the window centred on it, cut at the edges (NaN where a 1-D window has no weight). The result does not depend on values of zero weight anywhere outside or inside the window. Inputs are unchanged.",
  ["inputs", "histories"], "1-D and 2-D data with ties and zero weights, all window sizes, all methods",
  "The window slides through a balanced tree; errors depend on insertion and deletion history and tree rotations.",
  ["caput/algorithms/median/MedianTree.hpp", "caput/algorithms/median/weighted.pyx"], [("tree", "caput/algorithms/median/MedianTree.hpp:1"), ("sliding 1-D", "caput/algorithms/median/weighted.pyx:367"), ("sliding 2-D", "caput/algorithms/median/weighted.pyx:417")],
  "differential property-based testing against a brute-force windowed reference",
  EXP + "the brute-force reference on exactly representable weights.")
p("C26", "Inversion returns the reciprocal everywhere and zero instead of overflow",
  "For every array of real or complex numbers of any shape, memory layout and supported type, each element of the inverse is the reciprocal of the input element, except that elements too small to invert safely (including zero) give exactly zero, so no infinity or NaN appears for finite input. The result has the input's shape and type, the input is unchanged unless it is named as the output, and a given output array is filled completely and returned.",
  ["inputs"], "arrays of all supported dtypes, any strides and order, with zeros, subnormals and extremes; with and without an output array, in place",
  "Layouts, strides and the threshold region are input classes tests do not enumerate.",
  ["caput/algorithms/_invert_no_zero/__init__.py", "caput/algorithms/_invert_no_zero/_invert_no_zero.pyx"], [("wrapper", "caput/algorithms/_invert_no_zero/__init__.py:11"), ("kernel", "caput/algorithms/_invert_no_zero/_invert_no_zero.pyx:26")],
  "differential property-based testing against numpy",
  EXP + "numpy division.")
p("C27", "Fast Fourier transforms agree with the definition for every shape and axis",
  "Forward and inverse transforms of any real or complex array, along any axis or axes, agree with the discrete Fourier transform to rounding error; the inverse undoes the forward transform. Convolution agrees with its direct definition in every mode. Inputs are not modified, and reusing a transform object on many arrays gives the same as fresh ones and never changes earlier results.",
  ["inputs", "histories"], "shapes, axes, dtypes, orders, kernels, sequences of calls on one object",
  "Plans, aligned buffers and shifts depend on shape, axis and call history.",
  ["caput/algorithms/fft/fftw.py", "caput/algorithms/fft/__init__.py"], [("transform object", "caput/algorithms/fft/fftw.py:48"), ("convolution", "caput/algorithms/fft/fftw.py:185"), ("functions", "caput/algorithms/fft/fftw.py:248")],
  "differential property-based testing against numpy.fft",
  EXP + "numpy.fft to a rounding tolerance.")
p("C28", "Parallel random numbers are reproducible, complete and correctly shaped",
  "For a given seed and thread count the parallel generator gives the same numbers on every run whatever the thread scheduling, for every distribution, shape, dtype and parameter; different seeds give different streams. Every element of the result (or of the output array given) is drawn, with the shape, type and parameters requested, and streams of different threads do not repeat each other. Pipeline tasks using random numbers draw different numbers on every process, repeat them when run again with the same seed (the configured one, or the one logged if none was configured), and draw others for another seed or another class of task.",
  ["inputs", "schedules", "histories"], "distributions, sizes around the threading threshold, thread counts, output arrays, call sequences; seeds of tasks on 1 and 3 processes",
  "Determinism under thread scheduling and complete filling for every block split cannot be settled by one draw.",
  ["caput/algorithms/random.py", "caput/pipeline/tasklib/random.py"], [("threaded method", "caput/algorithms/random.py:112"), ("seeds of tasks", "caput/pipeline/tasklib/random.py:30")],
  "property-based testing with repeat runs, fill sentinels and statistical bounds",
  EXP + "numpy's single-thread generators; statistical bounds are set at more than 6 sigma.")
# ------------------------------------------------------------------ astro
p("C29", "Spherical geometry conversions are consistent with each other",
  "For every direction, conversions between spherical and Cartesian coordinates, ground coordinates and rotations there and back are the identity up to the inherent ambiguity at the poles and in azimuth, keep lengths, and agree with vector algebra: angles, distances, dot products, great circles and local bases come out as computed from the Cartesian vectors. Broadcasting over leading dimensions acts element by element. Inputs are not modified except by the functions documented to work in place.",
  ["inputs"], "angles over the full range including poles and wrap-around, radii, array shapes",
  "Degenerate directions and broadcasting shapes are not sampled by tests.",
  ["caput/astro/coordinates/_spherical.pyx", "caput/astro/coordinates/spherical.py"], [("conversions", "caput/astro/coordinates/_spherical.pyx:1"), ("ground coordinates, rotations, distances", "caput/astro/coordinates/spherical.py:27")],
  "metamorphic and differential property-based testing against vector algebra",
  EXP + "numpy vector algebra to stated tolerances.")
p("C30", "Spherical Bessel functions are accurate over the whole argument range",
  "For every non-negative order and argument the spherical Bessel function and (for positive arguments) its first two derivatives agree with high-precision values to the accuracy of the method in each regime (recurrence, small argument, large argument), are continuous across regime boundaries, satisfy the three-term recurrence, and are finite. Array arguments broadcast element by element.",
  ["inputs"], "orders 0..2000, arguments from 0 to beyond the large-argument regime, arrays of any shape",
  "The regimes switch on both order and argument; tests evaluate a few points in one regime.",
  ["caput/astro/coordinates/bessel.py"], [("jl", "caput/astro/coordinates/bessel.py:15"), ("approximations", "caput/astro/coordinates/bessel.py:99")],
  "differential property-based testing against arbitrary-precision evaluation",
  EXP + "mpmath; tolerances are the documented accuracy of each regime.")
p("C31", "Time conversions are mutually inverse and account for leap seconds",
  "For every instant in the supported range, conversions between Unix time, date objects, text and Earth rotation angle are mutually inverse to within their documented precision, monotonic, and give the same result for scalars, arrays, naive-UTC and timezone-aware inputs. The number of leap seconds between two times is exact, antisymmetric and additive. Time of day lies within the day and agrees with the date.",
  ["inputs"], "instants from 1970 to 2040 including leap seconds, day boundaries, microseconds, time zones, arrays",
  "Correctness at leap seconds, day boundaries and far dates is over all instants; the time tests cannot even run without network data.",
  ["caput/astro/time.py", "caput/astro/skyfield.py"], [("conversions", "caput/astro/time.py:93"), ("leap seconds", "caput/astro/time.py:256")],
  "round-trip and metamorphic property-based testing",
  EXP + "Python's datetime and the published leap-second table.")
p("C32", "Sidereal time and event finding are consistent for every observer",
  "For every observer longitude and instant, local stellar angle and stellar day advance consistently: day is the integer count plus angle over a full turn, conversions to Unix time and back agree to the documented accuracy, and longitude shifts the angle by exactly itself. Transit, rise and set finding over any interval returns every event in the interval once, in time order, at times where the defining condition holds, correctly labelled as upper or lower transit, rising or setting.",
  ["inputs"], "observer positions, instants, intervals, steps, sources of any declination including circumpolar ones",
  "Event finding samples on a grid and refines; alignment of events with the grid and interval ends is what breaks.",
  ["caput/astro/observer.py"], [("LSA / LSD", "caput/astro/observer.py:138"), ("transits", "caput/astro/observer.py:320"), ("root finding", "caput/astro/observer.py:897")],
  "metamorphic property-based testing, and a dense-sampling reference for events",
  EXP + "the dense-sampling reference and Skyfield's built-in time scale.")
p("C33", "Unit constants with prefixes are exactly the scaled constants",
  "For every known unit or constant and every known prefix, the prefixed name evaluates to the prefix factor times the unit, aliases agree, and derived constants satisfy their defining relations; unknown names raise an attribute error.",
  ["inputs"], "every prefix and unit pair (exhaustive) and generated unknown names",
  "The number of combinations is in the hundreds; tests check one or two.",
  ["caput/astro/constants.py"], [("prefix resolution", "caput/astro/constants.py:70")],
  "exhaustive and generated-name property testing against SI definitions",
  EXP + "the SI values written in the check.")
# ------------------------------------------------------------------ utilities
p("C34", "Array decorators and caches keep shape, order and content",
  "Functions made scalar- or array-aware by the decorators return, for any mix of scalar, list and array arguments, what calling the plain function element by element (or once on arrays) returns, with scalar in giving scalar out. Order-preserving unique returns each distinct item once at its first position. The size-bounded array cache returns what was stored, never exceeds its capacity and evicts least-recently-used entries first.",
  ["inputs", "histories"], "argument mixes, methods and functions, sequences of cache operations, lists with repeats",
  "Argument mixes and cache histories are unbounded.",
  ["caput/util/arraytools.py"], [("decorators", "caput/util/arraytools.py:155"), ("cache", "caput/util/arraytools.py:28"), ("unique", "caput/util/arraytools.py:135")],
  "stateful and differential property-based testing",
  EXP + "the element-by-element reference and an ordered-dict cache model.")
p("C35", "Deep equality is exact for any nesting",
  "Comparing two nested structures of dictionaries, lists, arrays, text and numbers reports equality exactly when they have the same structure and equal leaves, NaN-aware, whatever the nesting; a single changed, missing or extra leaf anywhere is always detected. The memory-size estimate counts every distinct object reachable once.",
  ["inputs"], "generated nested structures and single-leaf mutations of them",
  "A missed comparison in one branch goes unnoticed by a few examples.",
  ["caput/util/objecttools.py"], [("comparison", "caput/util/objecttools.py:46"), ("size", "caput/util/objecttools.py:103")],
  "mutation-based property testing of generated structures",
  EXP + "the generator's knowledge of the mutation.")
p("C36", "The polyphase filter bank is linear and matches its definition",
  "For any length of real time stream, tap count, even block length (four or more) and window, the filter bank output has the documented shape and equals the windowed, folded Fourier transform computed directly; it is linear and covariant under shifts by whole blocks. The correlation ratio is one at zero delay, symmetric in delay and never exceeds one, and channel profiles agree with the response to tones.",
  ["inputs", "histories"], "stream lengths, taps, channels, windows, oversampling, sequences of calls on one object",
  "Shape and folding arithmetic must be right for every combination.",
  ["caput/util/pfb.py"], [("apply", "caput/util/pfb.py:117"), ("decorrelation", "caput/util/pfb.py:234"), ("profiles", "caput/util/pfb.py:152")],
  "differential and metamorphic property-based testing",
  EXP + "the direct evaluation in numpy.")

# ------------------------------------------------------------------ further pipeline parts
p("C37", "Tasks that read or write files handle exactly the files they name",
  "A task based on the single-item or iterating file bases reads, in order, exactly the input files its root, names and extension denote (or takes each pipeline input instead, converted by the task's own cast), processes each item once, writes each result that is not missing to the file its output root, name and extension denote, creating directories as needed, and passes it on. Groups go through files of either format unchanged apart from what the task does, from any number of processes for Zarr. Contradictory set-ups (a file path and an input key, neither, or a process method with the wrong arguments) are refused before anything runs.",
  ["inputs", "programs", "configurations"], "roots, names, extensions, home directories, items without a truth value, dropped results, groups of any content in both formats, 1 to 3 processes, argument lists of process",
  "None of these bases has a test; file names, item kinds and orders are combinations.",
  ["caput/pipeline/extensions/_extensions.py"],
  [("read, process, write", "caput/pipeline/extensions/_extensions.py:103"), ("single item", "caput/pipeline/extensions/_extensions.py:205"), ("iteration", "caput/pipeline/extensions/_extensions.py:271"), ("groups", "caput/pipeline/extensions/_extensions.py:325"), ("validation", "caput/pipeline/extensions/_extensions.py:53")],
  "model-based property testing of generated tasks run by the pipeline, and round trips through files",
  EXP + "h5py, zarr and the event log of the generated tasks.")
p("C38", "Log messages appear from the processes and at the levels configured",
  "The levels configured for the pipeline and its modules are those in force, lint falls back to the default level, and a level configured for a task is that of its logger; names of levels count in any case and anything else is refused. With the MPI-aware filter a message is emitted exactly if it reaches the level for rank 0 on rank 0, or the level for the other ranks elsewhere, going by the rank the message carries if it has one, and every message carries rank, size and elapsed time for the format.",
  ["inputs", "configurations"], "level names in any case, numbers and invalid ones, modules, filters with any pair of levels, messages with and without ranks, 1 to 3 processes",
  "Combinations of levels, ranks and sources of messages; no test looks at them.",
  ["caput/pipeline/tasklib/base.py", "caput/util/mpitools.py", "caput/pipeline/_pipeline.py", "caput/config.py"],
  [("filter", "caput/util/mpitools.py:352"), ("task levels", "caput/pipeline/tasklib/base.py:30"), ("MPI logging task", "caput/pipeline/tasklib/base.py:67"), ("pipeline levels", "caput/pipeline/_pipeline.py:213")],
  "property-based testing of emitted records against a model of the levels, over MPI process pools",
  EXP + "Python's logging module.")
p("C39", "Profiling leaves the profiled code alone and records it where asked",
  "Profiling a block of code or a pipeline with any of the profilers never changes its results, its products or what it raises. A code profile of each process, named by its rank and counting the calls made in the block, is written to the directory asked for, and nothing is written if profiling is off; unknown profilers and places which are not directories are refused. The resource profiler appends one complete row per profiled block, in order, below a single heading to the file of its process, the same as the usage it reports, and the input and output counted are those of the block.",
  ["inputs", "histories", "configurations"], "profilers, ranks and sizes, directories, labels, sequences of blocks which write, read and raise, pipelines run with each profiler",
  "Where profiles go depends on the rank, directory and profiler together, and no test uses a directory or a failing block.",
  ["caput/util/profiler.py", "caput/pipeline/_pipeline.py", "caput/pipeline/runner/_core.py"],
  [("code profiler", "caput/util/profiler.py:24"), ("input and output", "caput/util/profiler.py:103"), ("resource profiler", "caput/util/profiler.py:175"), ("pipelines", "caput/pipeline/runner/_core.py:76")],
  "property-based testing of profiled blocks and pipelines against the unprofiled result and the files read back",
  EXP + "the counters of the operating system.")


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as fh:
        for d in P:
            anchors = {"files": d["files"],
                       "mechanism": [{"name": n, "where": w} for n, w in d["mech"]]}
            if d["observe"]:
                anchors["observe_at"] = d["observe"]
            fh.write(json.dumps({
                "id": d["id"], "title": d["title"], "statement": d["statement"],
                "quantifier": {"over": d["over"], "text": d["text"]},
                "why_tests_cant": d["why"], "anchors": anchors}) + "\n")
    checks, na = [], []
    for d in P:
        if os.path.exists(os.path.join(V, "checks", d["id"].lower() + ".py")):
            checks.append({
                "property": d["id"],
                "quick_cmd": f"./check.sh {d['id']} quick",
                "thorough_cmd": f"./check.sh {d['id']} thorough",
                "technique": d["technique"], "level": d["level"], "level_note": d["note"]})
        else:
            na.append({"property": d["id"], "reason": "its check is not built yet"})
    with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
        json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
                   "not_applicable": na,
                   "notes": "Each check builds the extensions it needs from /repo; see DESIGN.md."},
                  fh, indent=1)
        fh.write("\n")


main()
