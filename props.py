prop("C01", "State shared with worker threads is only touched under its lock",
     "While background workers (packet precaching, asynchronous packet writing, the thread pool, the counting semaphore) can be running, every access to data that a worker and another thread both touch is made while holding the mutex that protects that data. No interleaving of the public calls with the workers has a data race on queues, counters, indices, stop flags or stored failures.",
     ["schedules"], "all interleavings of all public calls of these classes with their worker threads, for all queue sizes and worker counts",
     "A test observes a handful of interleavings; a missing lock shows only under particular schedules and the suite runs without a race detector.",
     [U+"include/litiv/utils/cxx.hpp", D+"src/utils.cpp", D+"include/litiv/datasets/utils.hpp"],
     [("lockset discipline of the worker-owning classes", "DataPrecacher, DataWriter, WorkerPool, Semaphore")],
     "interprocedural lockset must-dataflow over clang CFGs with inlining", "Sound for the guarded-by discipline; assumes mutexes are not aliased through raw pointers.")
prop("C02", "No lost wake-up: waiters re-test, changes are notified",
     "A thread that blocks until a worker or a caller changes something re-tests the awaited condition after every wake-up. Every change that can make an awaited condition true is made under the waiters' mutex and is followed, on every path, by a notification that reaches every thread that may be waiting for it, so no call blocks forever on a change that already happened.",
     ["schedules"], "all interleavings of waiters, workers and stop requests",
     "A lost wake-up needs the change to fall between test and block; tests run one schedule and would only see an occasional hang.",
     [U+"include/litiv/utils/cxx.hpp", D+"src/utils.cpp"],
     [("condition waits and notifications", "DataPrecacher::getPacket/entry/stopAsyncPrecaching, DataWriter::queue/entry/stopAsyncWriting, WorkerPool::queueTask/entry, Semaphore")],
     "wait/notify obligation dataflow (must-notify on all paths, lockset at the change)", "Decides the discipline, not fairness of the OS scheduler.")
prop("C03", "Each queued packet or task is handed to its callback exactly once",
     "Every packet accepted by the asynchronous writer and every task accepted by the thread pool is taken out of the queue in the same critical section that picks it, and is then passed to its callback exactly once, outside the lock. A worker asked to stop drains what is queued before it exits, and the queue's size accounting always follows its content.",
     ["schedules", "histories"], "all interleavings of producers and any number of workers, all queue histories",
     "Double or lost hand-over needs two workers in a particular order; tests use one schedule.",
     [D+"src/utils.cpp", U+"include/litiv/utils/cxx.hpp"],
     [("worker loops", "DataWriter::entry, DataWriter::queue, WorkerPool::entry, WorkerPool::queueTask")],
     "typestate dataflow over worker loops (pick, remove, unlock, call once)", "Assumes the standard containers behave as specified.")
prop("C04", "Workers are always joined and their failures reach the caller",
     "Every worker thread is joined before its handle is dropped or reused, including in destructors. A failure thrown by a user callback inside a worker is stored and rethrown to the caller that stops the worker, once; it never terminates the process, never escapes a destructor, and does not prevent a later restart.",
     ["schedules", "fault_sequences"], "all points at which a callback can throw, all stop/restart/destroy sequences",
     "Tests do not throw from callbacks at each point or destroy objects with failing workers.",
     [D+"src/utils.cpp", D+"include/litiv/datasets/utils.hpp", U+"include/litiv/utils/cxx.hpp"],
     [("start/stop/destructor of worker owners", "DataPrecacher::startAsyncPrecaching/stopAsyncPrecaching, DataWriter::startAsyncWriting/stopAsyncWriting, WorkerPool dtor")],
     "typestate of thread handles and exception-path analysis", "std::thread semantics assumed.")
prop("C05", "No lock is re-acquired while held and lock order has no cycle",
     "No thread ever tries to lock a non-recursive mutex it already holds, including the process-wide log mutex that is held while the arguments of a log statement are evaluated. Mutexes are always nested in a consistent order and no thread is joined while holding a lock that thread needs, so the library cannot deadlock with itself.",
     ["schedules", "inputs"], "all call paths of the library, applications and samples",
     "A deadlock needs a particular call path under a lock (for example printing a progress bar from a log statement on a terminal), which no test takes.",
     [U+"include/litiv/utils/cxx.hpp", U+"include/litiv/utils/console.hpp", U+"src/platform.cpp", D+"src/utils.cpp"],
     [("lock summaries over the call graph", "all functions that lock, directly or through a logging statement")],
     "lock-order graph and held-lock summaries over the call graph", "Calls through std::function are resolved to the lambdas bound in the repository.")
prop("C06", "Loops run by several threads never share written storage",
     "In every loop that the image-processing and descriptor code runs in parallel, each iteration only writes storage that no other iteration reads or writes. The result therefore does not depend on the number of threads or on how iterations are scheduled.",
     ["schedules", "configurations"], "all thread counts and schedules of all parallel loops",
     "With few threads and small images a race rarely changes a tested value.",
     ["modules/imgproc/src/imgproc.cpp", "modules/imgproc/include/litiv/imgproc.hpp", "modules/features2d/src/DASC.cpp", "modules/features2d/src/LSS.cpp"],
     [("OpenMP parallel for regions", "all '#pragma omp parallel for' loops")],
     "dependence analysis of writes in OpenMP regions against the parallel loop variables", "Assumes distinct objects do not overlap in memory.")
prop("C07", "Objects share no hidden mutable state",
     "The library keeps no mutable function-local static or namespace-scope data that two objects, or two calls from different threads, could influence each other through, and nothing remembered from the first call (an initialiser depending on its arguments or object) decides later ones. Thread-local storage kept for reuse is constructed by the thread that uses it, and every call gives it its size and contents again (clears what it accumulates into) before reading it, so the result of a call does not depend on earlier calls. The only process-wide settings are the logging ones, which are synchronised or atomic, and the dataset root path, which is meant to be set before datasets are used.",
     ["schedules", "histories"], "all call histories and all threads",
     "Interference between two objects needs both to be used alternately, or by two threads; tests use one at a time.",
     ["modules/utils/include/litiv/utils/cxx.hpp", "modules/features2d/src/LBSP.cpp", "modules/imgproc/src/imgproc.cpp"],
     [("static and global variables", "all functions and globals of modules/*")],
     "query over static/global declarations and all their writers; must-be-filled dataflow on thread-local storage", "")
prop("M01", "Metric aggregation treats every counter exactly once",
     "Comparing two evaluation results says equal only if every counter (or error list) is equal; accumulating one into another adds every counter to the counter of the same kind, once; totals sum exactly the classification counts, with the ignored pixels only on request. Averaging derived metrics weights every metric by the number of sequences behind it, and reducing over streams takes the mean of every metric over all streams.",
     ["inputs", "histories"], "all counter values, all stream counts, all sequences of accumulations",
     "Tests check a few counter combinations; a dropped or swapped counter in one of many near-identical lines, or a wrong weight after several accumulations, is not sampled.",
     [D+"include/litiv/datasets/metrics.hpp", D+"src/metrics.cpp", D+"src/eval.cpp"],
     [("counter and metric records", "BinClassif, StereoDispErrors, IMetricsAccumulator_, IMetricsCalculator_")],
     "field-coverage and canonical-form comparison of update expressions", "Floating-point rounding is ignored.")
prop("M02", "Derived metrics follow their definitions and are always finite",
     "Recall, precision, specificity, false positive and negative rates, percentage of bad classifications, F-measure and Matthews coefficient are computed by their published formulas from the classification counts. For disparity errors, the percentages of bad pixels count the errors strictly above their margin, and the average and root-mean-square errors are taken over all recorded values. For every combination of counts, including all-zero ones, no division by zero, integer truncation or integer overflow of a product takes place and the degenerate value is zero.",
     ["inputs"], "all combinations of 64-bit counts and all error lists, including empty ones",
     "Degenerate and huge count combinations are not sampled by tests.",
     [D+"include/litiv/datasets/metrics.hpp", D+"src/metrics.cpp"],
     [("metric formulas", "BinClassifMetrics::Calc*, StereoDispErrorMetrics::Calc*")],
     "canonical quotient-of-polynomials comparison; dominating non-zero facts at divisions", "Floating-point rounding is ignored.")
prop("M03", "Every evaluated pixel is classified exactly once, by one table",
     "Every pixel of an evaluated image contributes exactly one of true/false positive/negative or ignored, decided by its output, ground-truth and ROI values according to the published evaluation guidelines (out-of-scope, unknown and outside-ROI pixels are ignored; foreground on shadow is additionally a shadow error). A stereo ground truth value is valid exactly when it is neither negative nor the maximum of its type, and one error (the absolute difference of output and ground truth of that same pixel) is recorded for exactly the valid ones inside the ROI. The CPU evaluator and the GPU evaluation shader use the same table, and images whose type, size or memory layout cannot be read that way are rejected before any pixel is read.",
     ["inputs"], "all 8-bit pixel value triples, all image sizes, all inputs",
     "Tests sample a few values; the GPU evaluator cannot run here at all.",
     [D+"src/metrics.cpp", D+"src/eval.cpp"],
     [("pixel classification", "BinClassif::accumulate, StereoDispErrors::accumulate, GLBinaryClassifierEvaluator::getComputeShaderSource")],
     "conditional constant propagation over the partition of pixel values", "")
prop("V01", "Background subtraction rejects frames it cannot process",
     "No background subtraction call reads or writes a pixel before having established that the model is initialised, that the frame has the type and size the model was initialised with, and - where pixels are addressed as one contiguous run - that the frame and the caller's output mask are continuous in memory. A violating call is refused with an error; it never touches memory outside the images.",
     ["inputs", "histories"], "all frames (types, sizes, sub-image views), all output mask arguments and all call orders",
     "The background subtraction module has no tests here; the failures need sub-image views or mismatching frames.",
     ["modules/video/src/BackgroundSubtractionUtils.cpp", "modules/video/src/BackgroundSubtractorLOBSTER.cpp", "modules/video/src/BackgroundSubtractorPAWCS.cpp", "modules/video/src/BackgroundSubtractorPBAS.cpp", "modules/video/src/BackgroundSubtractorSuBSENSE.cpp", "modules/video/src/BackgroundSubtractorViBe.cpp"],
     [("input guards", "apply, initialize, refreshModel, getBackgroundImage, getBackgroundDescriptorsImage of each algorithm")],
     "must-analysis of passed checks at every pixel access", "")

prop("V02", "Re-initialising a background model forgets the former run",
     "Calling initialize again makes a background subtractor behave like a newly constructed one with the same settings: every state field that processing a sequence modifies is given new contents on every path of initialize, before initialize itself uses it. Only settings that have a setter and the processed region of interest given to initialize carry over.",
     ["histories"], "all histories of initialize / apply / initialize on the CPU background subtractors",
     "No test re-initialises a model; a stale field shows up only after a former run with other statistics.",
     ["modules/video/src/BackgroundSubtractionUtils.cpp", "modules/video/src/BackgroundSubtractorLOBSTER.cpp", "modules/video/src/BackgroundSubtractorPAWCS.cpp", "modules/video/src/BackgroundSubtractorPBAS.cpp", "modules/video/src/BackgroundSubtractorSuBSENSE.cpp", "modules/video/src/BackgroundSubtractorViBe.cpp", "modules/video/src/BackgroundSubtractorLBSP.cpp"],
     [("model reset", "initialize, initialize_common and the state fields of each algorithm")],
     "effect analysis: written-by-run fields versus reset-by-initialize fields", "")

prop("V03", "Sampled pixel positions stay inside the image and keep their axes",
     "For every pixel, image size, border and non-negative random index, the neighbour and sample position helpers return coordinates with border <= x < width-border and border <= y < height-border (whenever the border leaves at least one pixel), drawn only from the kernel's own cells; models that compute local descriptors at such positions always ask for a border of at least half the descriptor patch; and everywhere in the library positions are used as row*width+column and (row,column), never with the axes exchanged.",
     ["inputs"], "all image sizes, pixels, random indices and borders that leave one pixel",
     "The tests draw a few positions around the centre of one image; wrong axes or limits only show at edges of non-square images.",
     ["modules/utils/include/litiv/utils/opencv.hpp", "modules/video/src/BackgroundSubtractorLOBSTER.cpp", "modules/video/src/BackgroundSubtractorPAWCS.cpp", "modules/video/src/BackgroundSubtractorSuBSENSE.cpp", "modules/video/src/BackgroundSubtractorPBAS.cpp", "modules/video/src/BackgroundSubtractorViBe.cpp"],
     [("position helpers", "clampImageCoords, getSamplePosition*, getNeighborPosition*"), ("sampling sites", "initialize, refreshModel and apply of each background subtractor")],
     "must-analysis of coordinate bounds; axis roles at every sampling site and whole-image loop", "")

prop("V04", "Each pixel's model data is addressed by that pixel, channel and element size",
     "Whenever a CPU background subtractor reads or writes an image or one of its model maps through a raw pointer or a typed accessor, the address is that of one pixel and one channel of that matrix: the offset is (pixel index * channel count + channel) * element size with the element type and channel count the matrix was created with, for every number of channels that initialize accepts, and typed accesses use the matrix's own element type. No access straddles pixels, mixes the strides of two maps, or runs past the end of a map.",
     ["inputs", "configurations"], "all accepted channel counts (1, 3, 4), image sizes and pixels",
     "The background subtraction module has no tests here, and a wrong stride only shows for one channel count or in the last part of the image.",
     ["modules/video/src/BackgroundSubtractionUtils.cpp", "modules/video/src/BackgroundSubtractorLOBSTER.cpp", "modules/video/src/BackgroundSubtractorPAWCS.cpp", "modules/video/src/BackgroundSubtractorPBAS.cpp", "modules/video/src/BackgroundSubtractorSuBSENSE.cpp", "modules/video/src/BackgroundSubtractorViBe.cpp", "modules/video/src/BackgroundSubtractorLBSP.cpp"],
     [("pixel addressing", "initialize, refreshModel, apply, getBackgroundImage, getBackgroundDescriptorsImage of each algorithm")],
     "typed-offset analysis: byte offsets canonicalised as polynomials over pixel index, channel and element size", "")
prop("V05", "Foreground masks are complete and binary",
     "Every mask returned by apply of a CPU background subtractor has the size of the frame, type 8UC1, and each of its pixels is 0 or 255; every pixel is assigned in that call, so that nothing of the caller's former buffer or of an earlier frame shows through.",
     ["inputs", "histories"], "all frames, all output buffers handed in, all histories of apply calls",
     "The background subtraction module has no tests here; a stale or grey pixel needs a reused buffer or a particular code path.",
     ["modules/video/src/BackgroundSubtractionUtils.cpp", "modules/video/src/BackgroundSubtractorLOBSTER.cpp", "modules/video/src/BackgroundSubtractorPAWCS.cpp", "modules/video/src/BackgroundSubtractorPBAS.cpp", "modules/video/src/BackgroundSubtractorSuBSENSE.cpp", "modules/video/src/BackgroundSubtractorViBe.cpp", "modules/video/src/BackgroundSubtractorLBSP.cpp"],
     [("mask computation", "apply of each algorithm, m_oLastFGMask, m_oCurrRawFGMask and the post-processing chain")],
     "value-set analysis of mask writes and must-assign analysis of the mask", "")
prop("V06", "The parts of a background sample are replaced together",
     "In the sample-based models that keep several parts per background sample (LOBSTER and SuBSENSE: colour and LBSP descriptor; PBAS: intensity and gradient), a stored sample is always one observation: on every path of initialize, refreshModel and apply, whenever one part of a sample is overwritten at a pixel, every other part of the same sample (same sample index) at the same pixel is overwritten too, in all channels, and the parts come from the same observed pixel, channel for channel. A descriptor kept for a pixel is computed at that pixel, for that channel, against that pixel's own value.",
     ["inputs", "histories"], "all frames, random draws, channel counts and histories of initialize / refreshModel / apply on the CPU models",
     "The background subtraction module has no tests here, and a sample made of two different observations only degrades later classifications after a random draw.",
     ["modules/video/src/BackgroundSubtractorLOBSTER.cpp", "modules/video/src/BackgroundSubtractorSuBSENSE.cpp", "modules/video/src/BackgroundSubtractorPBAS.cpp", "modules/video/src/BackgroundSubtractorLBSP.cpp"],
     [("sample replacement", "initialize, refreshModel and apply; m_voBGColorSamples/m_voBGDescSamples, m_voBGImg/m_voBGGrad")],
     "may-analysis of half-done sample replacements over resolved (sample, pixel, channel) writes", "")
prop("X01", "One LBSP pattern everywhere, never read outside the image",
     "All code that computes LBSP descriptors - the offset tables, the CPU lookup, the gradient tables and masks, and both variants of the GLSL function - uses the same 16 distinct neighbours for the same bits, all within half a patch of the centre. No descriptor is ever computed at a point closer to the image border than half the patch: dense loops stop in time for every image size including the smallest, key points given by the caller are filtered first, background models only describe pixels of a region of interest that has been cut down by the descriptor border, and sampled positions keep that border.",
     ["inputs"], "all image sizes, key point lists, regions of interest and pyramid depths",
     "Tests describe ordinary images; reads just outside the image usually go unnoticed, tiny pyramid levels and the shader variants are never exercised.",
     ["modules/features2d/include/litiv/features2d/LBSP.hpp", "modules/features2d/src/LBSP.cpp", "modules/imgproc/src/EdgeDetectorLBSP.cpp", "modules/video/src/BackgroundSubtractorLBSP.cpp", "modules/video/src/BackgroundSubtractionUtils.cpp"],
     [("pattern", "LBSP::s_*IdxLUT_16bitdbcross*, lookup_16bits_dbcross, getShaderFunctionSource"), ("descriptor computations", "all callers of LBSP::computeDescriptor and computeDescriptor_lookup")],
     "folding of tables and shader text; must-analysis of coordinate bounds", "")

prop("A01", "Images passed for reading are neither modified nor kept",
     "No function or method of the library changes an element of an image that was passed to it for reading (const cv::Mat&, const cv::Mat_<T>&, cv::InputArray, or a const container of matrices), directly or through another matrix header, view, pointer or iterator that shares its memory; and no object keeps that memory as part of its own state after the call returns, so that the caller may reuse its buffer at once (LBSP::setReference, which holds its reference image by design, only reads it).",
     ["inputs", "histories"], "all images, types, sizes, parameter values and call sequences (in-place calls, where the caller passes one matrix as input and output, excepted)",
     "Tests rarely look at their inputs after the call, and the branches that work in place are taken only for some types and settings.",
     ["modules/imgproc/src/imgproc.cpp", "modules/imgproc/src/EdgeDetectorCanny.cpp", "modules/imgproc/src/EdgeDetectorLBSP.cpp", "modules/features2d/src/DASC.cpp", "modules/features2d/src/LSS.cpp", "modules/features2d/src/MI.cpp", "modules/features2d/src/SC.cpp", "modules/datasets/src/utils.cpp", "modules/datasets/src/metrics.cpp", "modules/utils/src/opencv.cpp", "modules/video/src"],
     [("edge detectors", "EdgeDetectorCanny::apply_threshold, EdgeDetectorLBSP::apply"), ("descriptors", "DASC, LSS, MI, SC, LBSP compute functions"), ("archivers and writer", "IDataArchiver_::saveOutput, DataWriter::queue"), ("subtractors", "IBackgroundSubtractor::initialize, apply")],
     "flow-sensitive may-share analysis of matrix memory", "")

prop("U01", "Distances compute their definition, in every overload, without wrapping",
     "For every pair of arguments, each overload of lv::L1dist, L2sqrdist, L2dist, hdist, gdist, popcount, cdist and cmixdist (scalar, pointer, std::array, cv::Vec, masked and unmasked element runs, 1 to 4 channels given as template or run-time argument) returns the value of its definition over all its components, each component paired with the same component of the other argument and each element with its own mask entry: the sum of absolute differences, the (root of the) sum of squared differences, the number of differing bits, the difference of the numbers of set bits, the number of set bits, the colour distortion (zero for equal or constant colours). No intermediate or returned integer wraps or overflows, and no division by zero occurs.",
     ["inputs"], "element types of up to 16 bits and floats for L1/L2, uchar and float for cdist/cmixdist, unsigned types below 256 bits in total for the bit counts; all values, masks and element counts whose sums fit a size_t",
     "The tests use a few random vectors of three channels and compare overloads with each other rather than with the definition; wrapping needs extreme component values.",
     ["modules/utils/include/litiv/utils/math.hpp"],
     [("distances", "lv::L1dist, L2sqrdist, L2dist, cdist, cmixdist"), ("bit distances", "lv::popcount, hdist, gdist, popcount_LUT8")],
     "abstract interpretation into polynomial normal forms with machine ranges", "")

prop("D01", "Every packet comes from its own slot",
     "For every packet index, the default data producers (image, video, video array, image array) load the input from the file or frame of that index and the ground truth from the entry that the index table assigns to it, never from another entry, another stream or outside the container; an index without ground truth (or beyond the end) yields an empty packet and does not become known by asking; frames read from a video file are those of the requested index whatever was requested before; type, size and ROI are announced only for indices that exist; a packet is delivered only if its type and size are the announced ones (empty exactly if announced empty); and getInput, getGT and loadFeatures deliver what the loading function of their own role produced for the same index.",
     ["inputs", "histories"], "all packet indices, index tables, container sizes and request orders",
     "The dataset tests use folders with as many ground-truth files as inputs, one-to-one tables and ascending requests; video files are not used at all.",
     ["modules/datasets/src/utils.cpp", "modules/datasets/include/litiv/datasets/utils.hpp"],
     [("default producers", "IDataProducer_<...>::getRawInput, getRawGT, getRawInputArray, getRawGTArray, getInputInfo, getGTInfo, getInputROI, getGTROI"), ("checked loading", "IIDataLoader::getInput_redirect, getGT_redirect, getInput, getGT, loadFeatures")],
     "must-analysis of index, table and shape facts at every container access and return", "")

prop("D02", "A loader returns the packet that was asked for",
     "For every sequence of requested indices (in order, repeated, skipping ahead, going back; SIZE_MAX is reserved), with precaching active, inactive or restarted in between, DataPrecacher::getPacket(i) returns the matrix its loader callback produces for i, or throws; no packet is stored over the memory of a packet that is still cached or handed out, nor past the end of the cache buffer; and the array accessors of a loader return the arrays unpacked from the requested packet, whatever accessor was used before and whichever call failed before.",
     ["histories", "schedules", "inputs"], "all request sequences, packet sizes, buffer sizes, callback failures and thread timings",
     "Tests request a few packets in order with small images that never fill the cache; the array accessors are queried once.",
     ["modules/datasets/src/utils.cpp", "modules/datasets/include/litiv/datasets/utils.hpp"],
     [("precaching worker", "DataPrecacher::entry"), ("requests", "DataPrecacher::getPacket, startAsyncPrecaching"), ("array accessors", "IDataLoader_<Array>::getInputArray, getGTArray, loadFeaturesArray")],
     "abstract interpretation with difference bounds and ghost packet indices", "")

prop("D03", "Each output is counted, evaluated and saved as the packet it was pushed for",
     "For every output (array) pushed with a packet index: the output is counted under that index; with evaluation on, it (every one of its streams) is compared with the ground truth and the ground-truth ROI of that index and stream, in that order, and added to the counters of that stream; with saving on and a non-empty output, it is saved under that index; and the coloured masks shown for an index are drawn against the ground truth and ROI of the same index and stream.",
     ["inputs", "configurations"], "all outputs, packet indices, stream counts and evaluation/saving settings",
     "Tests push the same images under every index or use one stream, so that a mix-up of index, stream or reference stays invisible.",
     ["modules/datasets/include/litiv/datasets/utils.hpp", "modules/datasets/include/litiv/datasets/eval.hpp", "modules/datasets/src/utils.cpp"],
     [("consumers", "IDataConsumer_::push, DataEvaluatorWrapper_::processOutput, getColoredMask, getColoredMaskArray"), ("archivers", "IDataArchiver_::saveOutput, saveOutputArray")],
     "index and reference flow analysis with must-reach obligations", "")

prop("S01", "What is stored is what is read back",
     "A matrix of any size, dimension count, type or memory layout written with lv::write in any archive format is restored by lv::read with the same format to the same shape, element type and element values, whatever matrix or view it is read into (finite values for the text format); the dataset archivers load an output from exactly the file their save method creates for the same packet type, stream count and stream index; and unpackData(packData(v)) yields the matrices of v in order.",
     ["inputs"], "all matrices, archive formats compiled in, packet types and stream counts",
     "Tests write a few continuous matrices; views, extra dimensions, many channels and values needing all digits are not sampled, and the archivers are not tested.",
     ["modules/utils/src/opencv.cpp", "modules/datasets/src/utils.cpp"],
     [("matrix archives", "lv::write, lv::read, lv::packData, lv::unpackData"), ("output archivers", "IDataArchiver_::saveOutput, loadOutput, saveOutputArray, loadOutputArray")],
     "agreement of writer and reader stream automata; must-analysis of layout and precision", "")
prop("S02", "Damaged archives and failed saves are reported",
     "lv::read of a missing, truncated or corrupted archive raises an error: no value coming from the file is used as a size, dimension, type or length before the read that provided it is known to have succeeded, nothing is read past the memory of the matrix, and no path returns normally after a failed read. lv::write and the image-saving archivers never return normally when the data could not be written completely (for instance on a full disk).",
     ["inputs", "crash_points"], "all file contents, truncation points and write failures, for the archive formats compiled in",
     "Tests read intact files and write to a disk with space.",
     ["modules/utils/src/opencv.cpp", "modules/datasets/src/utils.cpp"],
     [("matrix archives", "lv::write, lv::read"), ("output archivers", "IDataArchiver_::saveOutput, saveOutputArray")],
     "may-analysis of unchecked stream state", "")

prop("N01", "Vectorised and scalar descriptor code give the same values",
     "For every image, the SIMD and CUDA variants of the descriptor, thinning and clustering code produce the same values as their scalar counterparts.",
     ["inputs", "configurations"], "all images and build configurations",
     "Tests run one build configuration on a few images.",
     ["modules/features2d/src/DASC.cpp", "modules/utils/include/litiv/utils/simd.hpp", "modules/imgproc/src/SLIC.cpp"],
     [("vectorised paths", "lv::mult_32si, lv::hmax_8ub, DASC::dasc_rf_impl, SLIC kernels")], None, None,
     na="A numeric equivalence between intrinsics, floating-point reassociation and scalar code: deciding it needs bit-precise symbolic evaluation (another family) or execution; CUDA sources are not even compiled in this configuration.")
prop("N02", "Camera projections and their inverses agree",
     "Projecting a point of the panoramic or calibrated scene to an image and back returns the point, up to rounding, for every camera orientation and zoom.",
     ["inputs"], "all camera models, orientations and points in view",
     "Tests sample a few orientations.",
     ["modules/vptz/src/virtualptz.cpp", "modules/utils/src/opencv.cpp"],
     [("projection", "litiv::vptz camera conversions (virtualptz.cpp)")], None, None,
     na="Needs bounds on floating-point rounding of trigonometric and matrix expressions; no static argument in reach bounds them.")
prop("N03", "Foreground segmentation reaches its published quality",
     "On the change detection datasets, every background subtractor reaches the F-measure published for it.",
     ["inputs", "histories"], "all sequences of the datasets",
     "Tests run short synthetic sequences.",
     ["modules/video/src/BackgroundSubtractorSuBSENSE.cpp", "modules/video/src/BackgroundSubtractorPAWCS.cpp"],
     [("segmentation", "BackgroundSubtractorSuBSENSE::apply, BackgroundSubtractorPAWCS::apply")], None, None,
     na="A statistical statement about natural video that depends on learnt thresholds; it has no static counterpart (the parts that have one are V01-V06).")
prop("N04", "GPU and CPU models classify alike",
     "The shader implementations of the background models and morphological operators classify every pixel as their CPU counterparts would, up to their random choices.",
     ["inputs", "configurations"], "all frames and shader options",
     "No graphics context is available to the tests.",
     ["modules/utils/src/opengl-imgproc.cpp", "modules/video/src/BackgroundSubtractorLOBSTER.cpp", "modules/utils/src/opengl-shaders.cpp"],
     [("shaders", "BackgroundSubtractorLOBSTER_<GLSL>::getComputeShaderSource and the generated GLSL text")], None, None,
     na="The shader program is text assembled at run time from run-time sizes; there is no GLSL front end here to analyse it with. Only the LBSP table inside the text is decided (X01), and the CPU-side bookkeeping of the GLSL classes (V03).")
prop("N05", "Iterative solvers reach a minimum",
     "Graph-cut, belief-propagation and affine registration routines end, and end at labels or parameters whose energy is no higher than at their start.",
     ["inputs"], "all energies and initial labellings",
     "Tests solve a few toy problems with a known answer.",
     ["modules/imgproc/src/SegmMatcher.cpp", "modules/imgproc/src/imgproc.cpp"],
     [("solvers", "OpenGM-based inference, affinity and registration loops")], None, None,
     na="Termination and monotonicity depend on floating-point energies computed at run time and on third-party solvers; no bounded static measure is available.")

prop("I01", "Views and masks of other sizes are never addressed as one run of pixels",
     "The image-processing functions (median blurs, consensus, histograms, temporal differences, mixture models) and the descriptor differences never address the memory of a matrix given by the caller - input, mask, region of interest or output - as one contiguous run of pixels before having established that it is continuous. The same holds for the size: a mask, map or output addressed by the pixels of another image is known to have the size of that image. A view of a larger image is therefore processed like its copy or refused with an error; pixels outside it are never read or overwritten.",
     ["inputs"], "all matrices, views and preallocated outputs passed by the caller",
     "Tests pass freshly allocated images and empty outputs; a view of matching size is never sampled.",
     ["modules/imgproc/src/imgproc.cpp", "modules/imgproc/include/litiv/imgproc.hpp", "modules/features2d/src/LBSP.cpp"],
     [("filters", "lv::medianBlur, binaryMedianBlur, binaryConsensus, calcHistCounts, calcMedianValue, computeTemporalAbsDiff"), ("mixture models", "lv::initGaussianMixtureParams, assignGaussianMixtureComponents, learnGaussianMixtureParams"), ("descriptors", "LBSP::calcDescImgDiff")],
     "must-analysis of passed continuity checks at every raw use of a caller's matrix", "")
