"""Which rule decides which property, on which translation units, with which minimum number of instances."""
ALL_TUS = ["modules/*/src/*.cpp", "modules/*/src/*/*.cpp", "apps/*/src/*.cpp", "samples/*/src/*.cpp", "apps/vptz/*/src/*.cpp"]
MODS = ["modules/*/src/*.cpp"]
UTILS = ["modules/utils/src/*.cpp"]
UD = ["modules/utils/src/*.cpp", "modules/datasets/src/*.cpp"]
DS = ["modules/datasets/src/*.cpp"]
VID = ["modules/video/src/*.cpp"]
WT = ["utils_templates.cpp"]

REG = {
    "C01": dict(module="conc", func="c01", tus=UD, witness=WT, need={"guarded-access": 40},
                rule="lockset must-dataflow over every entry point of each class that owns worker threads: every access to a field that both a worker and another entry point touch happens with the class mutex held, or when no worker can be alive"),
    "C02": dict(module="conc", func="c02", tus=UD, witness=WT, need={"wait-predicate": 5, "notify-after-change": 5, "change-under-lock": 4},
                rule="every condition wait re-tests shared state; every write that can make a wait predicate true is made under the waiters' mutex and is followed on every path by a notification of that condition (notify_all where waiters differ or a stop flag changes)"),
    "C03": dict(module="conc", func="c03", tus=UD, witness=WT, need={"handed-once": 2, "never-lost": 1, "drained": 2, "mirror": 2},
                rule="in every worker loop: the element is removed from the shared container in the critical section that picked it, the callback runs unlocked on a private copy, exactly once per removal, and the worker exits only with an empty queue; counters mirroring the queue move with it"),
    "C04": dict(module="conc", func="c04", tus=UD, witness=WT, need={"joined": 3, "captured": 3, "dtor-nothrow": 1, "given-back": 2},
                rule="every thread handle is joined on every path of the destructor and before it is reused; callbacks inside workers are under a catch-all that stores the failure, the stop method rethrows it, and nothing escapes a destructor"),
    "C05": dict(module="conc", func="c05", tus=ALL_TUS, witness=WT, need={"acquire": 30, "call-under-lock": 50},
                rule="lock summaries over the call graph: no mutex is re-acquired while held (including the log mutex inside logging arguments), the acquisition order graph has no cycle, no join under a lock the worker needs"),
    "C06": dict(module="omp", func="c06", tus=["modules/imgproc/src/*.cpp", "modules/features2d/src/*.cpp"], witness=(), need={},
                rule="in every OpenMP parallel loop, each object written by an iteration is private to it, reduced, or indexed by the iteration variable so that two iterations never touch the same element; shared objects are only read"),
    "C07": dict(module="omp", func="c07", tus=MODS, witness=(), need={},
                rule="no function-local static or namespace-scope object of the library is written after its initialisation, except the listed process-wide services which are only touched under their mutex or are atomic"),
    "M01": dict(module="metrics", func="m01", tus=DS, need={"averaged": 8, "accumulated": 6, "compared": 6, "delegated": 4},
                rule="for each counter/metric record, the comparison, the accumulation, the totals, the weighted average and the stream reduction are resolved to canonical quotients of polynomials over the fields and must treat every field of the record exactly once with the field of the same name; loops over streams must cover every element"),
    "M02": dict(module="metrics", func="m02", tus=DS, need={"formula": 8, "divisor": 8},
                rule="the expression that defines each derived metric is canonicalised (helpers inlined) and compared with its published definition; every division is dominated by a test that its divisor is not zero, ratios are not integer divisions, products of counters are formed in floating point"),
    "M03": dict(module="metrics", func="m03", tus=DS, need={"classified": 1, "valid-gt": 1},
                rule="conditional constant propagation over every cell of the partition of (output, ground truth, ROI) pixel values: which counters stay reachable in the pixel loop is compared with the published classification table, for the C++ code and for the evaluation shader; raw image reads are dominated by checks of type, continuity and size"),
    "V01": dict(module="video", func="v01", tus=VID, need={"guarded": 30, "ready": 6, "mask-allocated": 4},
                rule="must-analysis over apply/initialize and the model accessors of every background subtractor: each raw or typed pixel access of a caller's image or of the model is preceded on every path by checks of initialisation, type, size and, where rows are addressed as one run, of continuity of the input and of the output mask"),
    "V02": dict(module="video", func="v02", tus=VID, need={"reset": 100},
                rule="effect analysis of initialize and apply of every CPU background subtractor: each field that a run modifies is overwritten (content, not only size) on every path of initialize before initialize itself uses it; settings with a setter and the ROI carry over by contract"),
    "V03": dict(module="sampling", func="v03", tus=MODS, need={"inside": 20, "roles": 80, "border": 10, "kernel": 4},
                rule="must-analysis of lower and upper coordinate bounds through the position helpers (borders leaving at least one pixel); kernel tables folded from their initialisers; every call site and whole-image loop keeps (x,y), (row,column) and row*width+column roles; descriptor models pass a border of at least half the descriptor patch"),
    "V04": dict(module="units", func="v04", tus=VID, need={"pixel": 200, "element": 10},
                rule="typed-offset analysis of every raw or typed matrix access of the CPU background subtractors: the byte offset, canonicalised as a polynomial, must be (pixel index * channel count + channel) * element size with the matrix's own element type, for every channel count that initialize accepts (derived from the checks on all its paths)"),
    "V05": dict(module="masks", func="v05", tus=VID, need={"binary": 40, "filled": 6},
                rule="value-set analysis of every matrix from which the returned mask is computed (element writes, fills, OpenCV operations that keep {0,255}) and must-analysis that the whole mask is assigned in each call before it is read as a whole and before apply returns"),
    "V06": dict(module="pairs", func="v06", tus=VID, need={"together": 12},
                rule="every element write to a per-sample matrix is resolved to (sample variable, pixel normal form, channels); a may-analysis of half-done replacements requires that whenever one part of a sample is written, every other part of the same sample at the same pixel, with all channels, is written before the sample or pixel variable changes or the call ends; the parts come from one pixel, channel for channel, and stored descriptors are computed at the pixel they are stored for"),
    "X01": dict(module="features", func="x01", tus=MODS, need={"pattern": 2, "patch-inside": 15, "region": 4},
                rule="offset tables, gradient tables and masks folded from their initialisers must describe one pattern, which the lookup code and both shader variants follow bit by bit; must-analysis of coordinate bounds at every descriptor computation (loop limits without unsigned wrap, filtered key points, pixels of the validated region of interest, sampled positions with a large enough border)"),
    "I01": dict(module="views", func="i01", tus=["modules/imgproc/src/*.cpp", "modules/features2d/src/*.cpp"], witness=("imgproc_templates.cpp",), need={"one-run": 20},
                rule="must-analysis over the image-processing functions and the public methods of the descriptors: every use of the raw memory of a caller's matrix that is not addressed by the matrix's own steps is preceded on every path by a check (or an allocation) that makes the matrix continuous"),
    "U01": dict(module="dist", func="u01", tus=("no-tu",), witness=("math_templates.cpp",), need={"definition": 700, "no-wrap": 700},
                rule="abstract interpretation of every overload of L1dist, L2sqrdist, L2dist, cdist, cmixdist, hdist, gdist and popcount, instantiated for the element types and 1 to 4 channels: values are polynomials over the elements with machine ranges, loops over the channels are unrolled, loops over the elements become sums, called overloads are entered; the result must equal the polynomial of the definition (case by case over the equalities of the components for the colour distortion), every intermediate value must fit its machine type, and no divisor may be zero"),
    "A01": dict(module="alias", func="a01", tus=MODS, need={"read-only": 150},
                rule="flow-sensitive may-share analysis in every function with a read-only image argument: matrix headers, views, pointers and iterators obtained from the argument without a copy; no element write, fill, in-place operation, destination argument or writable pointer may use one of them, and no field may still hold one when the function returns (private helpers and lambdas inlined; conditions on plain variables tracked)"),
    "D01": dict(module="packets", func="d01", tus=DS, need={"in-range": 8, "known-key": 5, "announced": 6, "shape": 2, "position": 1},
                rule="for every default producer, each access to a per-packet container uses the packet index (inputs) or the ground-truth index looked up for it (ground truth), under a must-fact that it lies in that very container; table reads only for known keys; the video reader's position fact is re-established on every path; loaded packets are returned only with the announced type and size; each getter asks the precacher of its role, which is bound to the loading function of its role, for the same index"),
    "D02": dict(module="precache", func="d02", tus=DS, need={"asked-for": 1},
                rule="abstract interpretation (difference bounds, disequalities, partitioned by flags) of the precaching worker and of the request function, with ghost indices for every matrix and for the ends of the stored sequence: each stored, announced and returned packet carries the index it was loaded for; each packet is placed in the free part of the ring buffer"),
    "D03": dict(module="packets", func="d03", tus=DS, witness=("datasets_templates.cpp",), need={"same-index": 10, "reference": 6, "handled": 3, "evaluated": 2},
                rule="flow of the pushed output, packet index and stream index through push, processOutput, saveOutput and the coloured masks of every consumer: each callee receives the caller's index, ground truth and ROI are fetched for that index in their own argument slot, elements of parallel arrays share one stream index, every path counts, evaluates (if on) and saves (if on, not empty) the output, and the stream loop visits every stream"),
    "S01": dict(module="archive", func="s01", tus=UD, need={"agree": 10, "whole": 5, "located": 6},
                rule="for each archive format, writer and reader are reduced to automata of stream operations (order, byte width, meaning of each value, repetition counts) and must accept the same sequences; stored runs come from continuous matrices and cover every byte, text values keep 17 digits; archivers save and load each (packet type, stream count) under the same file names; packed matrices are placed at offsets that advance by the byte size of the matrix just placed"),
    "S02": dict(module="archive", func="s02", tus=UD, need={"header": 5, "failure": 4, "fits": 3},
                rule="may-analysis of unchecked stream state: no value read from a file sizes a buffer, a loop or a matrix before the stream was found good; runs read into a matrix are bounded by its size; every read is followed by a check and every write by a flush and a check (failure raises) on all paths to a normal return; results of cv::imwrite are required to be true"),
}
