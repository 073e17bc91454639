#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                          "observe_at": observe, "hook_needed": hook}})

IMG = ["src/image_function.cpp", "src/image_function_simd.cpp", "src/function_pool.cpp", "src/penguinv/penguinv.cpp", "src/image_function_helper.cpp"]

prop("I01", "Pixel-wise operations compute their documented value at every pixel",
 "For every pair or single of accepted images and every accepted region, absolute difference, and/or/xor, minimum, maximum, saturating subtraction, inversion, gamma correction, table lookup, normalisation to the full 0..255 range and both threshold forms write into each colour value of the output region exactly the value their documentation defines from the corresponding input values. This holds in the plain, the SIMD, the multi-threaded and the automatically dispatched version of each operation.",
 ["inputs", "configurations"], "all image sizes, channel counts 1/3/4 (where accepted), row alignments, region offsets, pixel contents, parameters; all implementations and SIMD levels",
 "Unit tests fill images with one constant value and compare one summary value, so they never see position-dependent errors, tails of vector loops, or value-dependent errors such as signed comparisons.",
 IMG, [("scalar loops", "src/image_function.cpp"), ("vector kernels and tails", "src/image_function_simd.cpp"), ("row-striped tasks", "src/function_pool.cpp")], ["return values and output image bytes of the public functions"])
prop("I02", "Channel and depth conversions keep every pixel and channel where it belongs",
 "Converting between grey, RGB and RGBA, swapping red and blue, extracting, replacing, splitting and merging channels, converting between 8 and 16 bits and copying regions put at each output position exactly the value derived from the same position and channel of the input region: grey is the integer mean of red, green and blue, grey to RGB replicates, dropping or adding alpha keeps the three colours and adds 255, 16-bit is the 8-bit value times 256 and back. This holds for every accepted image, region and implementation, so merge after split and the 8/16/8-bit round trip restore the data.",
 ["inputs", "configurations"], "all sizes, alignments, offsets, channel ids, contents; all implementations and SIMD levels",
 "Tests use uniform images, for which any permutation of pixels or channels inside the image is invisible.",
 IMG, [("conversion loops", "src/image_function.cpp"), ("vector shuffles", "src/image_function_simd.cpp"), ("threaded conversion tasks", "src/function_pool.cpp")], ["output image bytes"])
prop("I03", "Geometric operations move each pixel to its defined place",
 "Flip mirrors the region horizontally and/or vertically, transpose exchanges rows and columns, resize picks for every output pixel the input pixel at the proportional (floor) position, shift returns the bilinearly interpolated value at the displaced position (exactly the displaced pixel for whole-pixel shifts) with zero where the source image has no data, and rotation returns the rounded bilinear value at the rotated position around the two centres, zero outside. This holds for every accepted image, region, parameter and implementation, so flipping twice or transposing twice restores the region and a shift or rotation by zero is the identity where the sampled pixels exist.",
 ["inputs", "configurations"], "all sizes (1-pixel rows and columns included), alignments, offsets, shift/rotation parameters, channel counts accepted",
 "Tests use uniform images or check a handful of shapes; displaced pixels, off-by-one sampling and boundary columns are invisible to them.",
 ["src/image_function.cpp", "src/image_function_simd.cpp", "src/function_pool.cpp", "src/image_function_helper.cpp"], [("Flip/Transpose/Resize/Shift/Rotate", "src/image_function.cpp"), ("vector flip", "src/image_function_simd.cpp"), ("threaded flip/transpose/resize", "src/function_pool.cpp")], ["output image bytes"])
prop("I04", "Statistics, comparisons and pixel access report exactly what the region contains",
 "Histogram (plain and masked), sum, projection profiles, accumulation into a vector, equality, binary test, single pixel reads and writes, region fill and the automatic threshold report or produce exactly the value computed from the pixels of the region and nothing else: histogram bins per channel add up to the number of counted pixels, a profile adds up to the sum, repeated accumulation adds to what was there, equality is true exactly when every value agrees, and the automatic threshold is an intensity that maximises the between-class variance of the histogram. This holds for every accepted image, region and implementation.",
 ["inputs", "configurations", "histories"], "all sizes, alignments, offsets, contents, masks; histograms with any counts; all implementations and SIMD levels",
 "Tests use uniform images and small regions, so lane order, tails, counter width and channel interleaving are not exercised.",
 IMG, [("reductions", "src/image_function.cpp"), ("vector reductions", "src/image_function_simd.cpp"), ("per-task partial results and merge", "src/function_pool.cpp"), ("GetThreshold", "src/image_function_helper.cpp")], ["returned vectors and scalars"])
prop("I05", "Filters and binary morphology compute their neighbourhood definition",
 "Median filtering gives for every interior pixel the median of its window, Prewitt and Sobel give the gradient magnitude of their masks, the Gaussian kernel is non-negative, symmetric, peaked at its centre and sums to one, and binary dilation and erosion grow white respectively black by the given horizontal and then vertical distance, clipped to the region. This holds for every grey image, region, kernel size and distance.",
 ["inputs"], "all sizes, alignments, offsets, kernel sizes, sigma, dilation distances, contents",
 "Tests check uniform images or only that a call does not throw; window contents, boundaries and clipping are not compared with a definition.",
 ["src/filtering.cpp", "src/image_function.cpp"], [("Median/Prewitt/Sobel/GetGaussianKernel", "src/filtering.cpp"), ("Dilate", "src/image_function.cpp")], ["output image bytes, kernel values"])
prop("I06", "Nothing outside the output region is ever written",
 "An operation given an output region changes no byte of the output image outside that region, including row padding, changes no input image, and keeps width, height, channel count and alignment of every image passed to it. This holds for every operation, every implementation and every combination of sizes, alignments and offsets.",
 ["inputs", "configurations"], "all operations with an output region (or in-place region), all implementations, SIMD levels and thread counts, all offsets and paddings, all filler contents",
 "Tests do compare the area outside on uniform images for part of the operations, but not padding bytes, not the inputs, and only for a few random sizes.",
 IMG + ["src/filtering.cpp"], [("row/region loops", "src/image_function.cpp"), ("vector tails", "src/image_function_simd.cpp"), ("stripe boundaries", "src/function_pool_task.cpp")], ["full byte snapshots of all images before and after each call"])
prop("I07", "No call touches memory outside its buffers or executes undefined behaviour",
 "Any call the image-processing API accepts, with any sizes, alignments, regions, channel counts and parameter values, touches (for images below 4 GiB) only memory belonging to the images and containers passed to it, leaks nothing and executes no undefined operation. Calls it does not accept end in the library's exception with the same guarantee.",
 ["inputs", "configurations"], "all operations of the image, filter, blob, edge, FFT, transform and tool parts; extreme aspect ratios, one-pixel regions, edges of images, extreme parameter values",
 "Tests run without sanitizers and choose regions well inside allocations, where a stray vector load or store has no visible effect.",
 ["src/image_function.cpp", "src/image_function_simd.cpp", "src/function_pool.cpp", "src/filtering.cpp", "src/edge_detection.cpp", "src/blob_detection.cpp", "src/fft.cpp", "src/math", "src/tool/light_correction.cpp", "src/parameter_validation.h"], [("parameter validation", "src/parameter_validation.h"), ("pointer arithmetic of all kernels", "src/image_function*.cpp")], ["AddressSanitizer, LeakSanitizer, UBSan reports"])
prop("I08", "Invalid arguments are refused by an exception and change nothing",
 "A call with an empty image, a zero-sized region, a region reaching outside an image (also when the coordinates wrap around), sizes that do not fit (the outputs of whole-image Copy, which is replaced, and of Transpose, which may be larger, excepted), a channel count, channel id, table size, kernel, coefficient or distance the operation does not support is refused with the library's exception. After the refusal every image and vector passed to it has exactly the contents and shape it had before (multi-pixel writes excepted: pixels before the bad one may be set).",
 ["inputs", "configurations"], "all operations and call forms of all CPU implementations crossed with every class of invalid argument",
 "Tests sample some invalid calls per function in the plain version and never look at the images afterwards.",
 IMG + ["src/parameter_validation.h", "src/filtering.cpp"], [("validation templates", "src/parameter_validation.h"), ("checks in each function", "src/image_function.cpp")], ["exception type; byte snapshots before and after"])
prop("I09", "Every SIMD level gives the same result as the plain implementation",
 "For every operation with a vectorised version, the result with any enabled combination of vector instruction sets, in builds for SSE2 alone, for SSSE3, AVX2 and AVX-512, and for NEON, is byte-for-byte and value-for-value the same as that of the plain implementation for the same arguments, including which arguments are refused. This includes widths around vector lengths, odd offsets, padding and very small images.",
 ["inputs", "configurations"], "all vectorised operations, each selectable instruction set, all sizes around multiples of 16/32/64 bytes, offsets, contents covering the full value range",
 "Tests run the best instruction set the machine has on uniform images; lane permutations and signedness errors keep a uniform image uniform.",
 ["src/image_function_simd.cpp", "src/image_function_simd.h", "src/penguinv/cpu_identification.h"], [("per-instruction-set kernels", "src/image_function_simd.cpp"), ("instruction set selection", "src/penguinv/cpu_identification.h")], ["outputs of both implementations on equal inputs"])
prop("S01", "Only an enabled instruction set that the processor has is used, and the best one",
 "The instruction set in use is at any time the best one that this build contains, the processor reports in full (SSE2; AVX2; for AVX-512 all of F, CD, DQ, BW and VL) and the program has not switched off. Switching one set or all of them on or off takes effect at once and concerns no other set; without any, the plain implementation is used. A processor that does not answer a question about its features does not have them.",
 ["configurations", "histories"], "all answers a processor can give about its features, all histories of switching instruction sets on and off, builds for different instruction sets",
 "Tests see the one processor they run on and ask for its features only once; a test machine has all or none of the parts of AVX-512.",
 ["src/penguinv/cpu_identification.h", "src/penguinv/cpu_id_unix.h", "src/penguinv/cpu_id_windows.h", "src/image_function_helper.cpp"], [("detection", "src/penguinv/cpu_id_unix.h"), ("choice", "src/image_function_helper.cpp")], ["the instruction set in use for scripted answers of the processor"])
prop("I10", "Multi-threaded operations equal the serial ones for any thread count and callers",
 "Every operation of the multi-threaded family returns, for any number of worker threads, any region shape (fewer rows or columns than threads included) and any number of callers working at the same time, exactly what its single-threaded counterpart returns for the same arguments. No caller sees data of another caller's operation and no operation returns before its whole result is written.",
 ["schedules", "inputs", "configurations"], "all multi-threaded operations, worker counts 1 to well above the core count, changes of the worker count between calls, concurrent callers, region shapes",
 "Tests run one caller with the default thread count on uniform images; partial or swapped stripes are invisible and schedules are not varied.",
 ["src/function_pool.cpp", "src/function_pool_task.cpp", "src/thread_pool.cpp"], [("stripe computation", "src/function_pool_task.cpp"), ("task execution and merge", "src/function_pool.cpp"), ("completion wait", "src/thread_pool.cpp")], ["outputs compared with the serial implementation"], "optional delay injection in the worker loop")
prop("I11", "All call forms of one operation agree",
 "Calling an operation on whole images, on regions, with a result image passed in or with the result returned gives the same pixels for the same data, and each form accepts every channel count the others accept. A returned image has the size and channel count of the requested region and, like an image passed in, depends on nothing else.",
 ["inputs", "configurations"], "all operations, all forms, all implementations, all accepted channel counts",
 "Tests compare each form with a constant on grey images only, so a form that fails or misbehaves for colour images goes unseen.",
 ["src/image_function_helper.cpp", "src/image_function.cpp", "src/function_pool.cpp", "src/penguinv/penguinv.cpp"], [("form adapters", "src/image_function_helper.cpp")], ["outputs of all forms on equal inputs"])
prop("I12", "Results depend only on the arguments",
 "Repeating a call with equal arguments gives equal results, whatever memory was used before, whatever the output image, output vector or newly returned image contained, wherever the data lies in memory and whatever the padding bytes hold. No result contains uninitialised memory.",
 ["inputs", "histories"], "all operations and tools; heap contents, stale output contents, padding contents, address alignment of the data",
 "Tests run each call once in a fresh process, where reused or uninitialised memory usually holds zeros.",
 IMG + ["src/filtering.cpp", "src/blob_detection.cpp", "src/edge_detection.cpp", "src/fft.cpp", "src/math/hough_transform.cpp"], [("output initialisation", "src/image_function.cpp"), ("temporary buffers", "src/filtering.cpp")], ["outputs of the same call sequence under differently poisoned memory"])
prop("T01", "Every accepted task runs exactly once before its wait returns",
 "When a set of tasks is given to the thread pool and waited for, every task number from 0 to one less than the count is executed exactly once, no task runs outside that interval, and the wait returns true only after the last of them has finished, with all their effects visible to the waiting thread. This holds for any worker count, any number of providers sharing the pool, repeated use and task sets of any size.",
 ["schedules", "histories"], "all interleavings of submitters, workers and waiters; worker counts 1..32; many providers; injected delays",
 "Tests run one normal schedule; a lost, doubled or late task needs a particular interleaving.",
 ["src/thread_pool.cpp", "src/thread_pool.h"], [("task hand-out and completion counting", "src/thread_pool.cpp"), ("work queue and worker wake-up", "src/thread_pool.cpp")], ["event log of task start/finish, wait return"], "delay points in the worker loop and completion path (guarded)",
 [("given/completed counters", "tasks handed out and finished of a provider", "src/thread_pool.h")])
prop("T02", "Stopping, resizing, clearing or removing never hangs, loses or revives work",
 "Any sequence of resizing, stopping, clearing, removing a provider, submitting and destroying, from one or several threads other than the pool's own workers, terminates: no call and no wait blocks forever. Tasks accepted before are either executed once or dropped, never started after their provider has been removed and its wait has returned or after it was destroyed, and a wait on dropped work ends and reports failure; afterwards the pool works again as a fresh one.",
 ["schedules", "histories"], "operation sequences over resize/stop/clear/remove/submit/destroy, racing threads, injected delays",
 "Tests use the pool only in a fixed, tidy order; lost wake-ups, stale stop requests and destroyed providers need unusual orders or timing.",
 ["src/thread_pool.cpp", "src/thread_pool.h"], [("stop/resize handshake", "src/thread_pool.cpp"), ("clear/remove", "src/thread_pool.cpp"), ("provider destruction", "src/thread_pool.cpp")], ["event log; watchdog on every call"], "delay points (guarded)")
prop("T03", "Concurrent use through the public API is free of data races",
 "Using the thread pool, the multi-threaded operations and image construction, copying and processing on distinct images from several threads at the same time contains no data race, also while the pool is resized or other operations run.",
 ["schedules"], "all interleavings of concurrent public calls on distinct objects, including first-use initialisation, pool resizing and provider removal",
 "Tests run without a race detector and mostly from one thread.",
 ["src/thread_pool.cpp", "src/function_pool_task.cpp", "src/function_pool.cpp", "src/image_buffer.h", "src/memory/cpu_memory.h"], [("pool locks", "src/thread_pool.cpp"), ("allocator lock", "src/memory/memory_allocator.h"), ("function table of image types", "src/image_buffer.h")], ["ThreadSanitizer reports"], "delay points (guarded)")
prop("T04", "A failing task is reported to the waiter and harms nobody else",
 "If a task throws, the remaining tasks of that set are not lost, the wait of its own submitter returns a failure exactly once for that set, and waits of other submitters and later sets of the same submitter are unaffected. The pool keeps all its workers and the process continues.",
 ["schedules", "fault_sequences"], "which task fails, how many fail, concurrently running other providers, worker counts",
 "Tests do not inject failures into tasks.",
 ["src/thread_pool.cpp", "src/thread_pool.h"], [("exception capture in task execution", "src/thread_pool.cpp")], ["wait results, executed task log"], None)
prop("M01", "Live allocations never overlap and keep their contents",
 "Blocks handed out by the library's memory manager and not yet freed are disjoint, large enough, aligned for their element type, and keep every byte written to them until freed, whatever the pool size, the request sizes, the order of requests and releases and the number of threads. A request that does not fit the pool is still satisfied.",
 ["histories", "schedules"], "all sequences of reserve/allocate/free/release, sizes around powers of two and the pool size, concurrent threads",
 "Tests allocate and free in one regular pattern.",
 ["src/memory/memory_allocator.h", "src/memory/cpu_memory.h"], [("buddy split and merge", "src/memory/memory_allocator.h"), ("heap fallback", "src/memory/cpu_memory.h")], ["shadow map of live blocks with canaries"], None)
prop("M02", "Freed pool memory is fully reclaimed and failures leave the manager usable",
 "A fresh pool of S bytes serves at least S/k requests (rounded down) which take k bytes each, k being a power of two below S. After all blocks are freed the pool can again serve exactly the requests it could serve when fresh, however fragmented it was, and it serves from the pool whenever the freed space allows a fresh pool to do so. A refused operation (release or resize while blocks are in use, out of memory) is reported by an exception, leaves live blocks intact and leaves the manager usable by every thread (a failure to allocate the manager's own bookkeeping may leave the pool fragmented).",
 ["histories", "fault_sequences"], "all allocate/free orders; injected allocation failures; operations refused while blocks live",
 "Tests never observe where a block comes from, so fragmentation that silently falls back to the heap is invisible, and do not inject failures.",
 ["src/memory/memory_allocator.h", "src/memory/cpu_memory.h"], [("free-list merge", "src/memory/memory_allocator.h"), ("reserve/release", "src/memory/cpu_memory.h")], ["origin (pool or heap) of each block, exceptions"], None)
prop("M03", "Images behave as values",
 "Copying, assigning (also to itself), moving, swapping, resizing, changing channel count or alignment, reshaping without reallocation, filling, clearing and generating an image behave as for a value type: copies are deep and equal in all attributes, the source of a copy and all other images never change, the described size always matches the usable memory, copying between images of different types is refused while moving and swapping take the type along with the memory, and no sequence of these operations leaks, double frees or touches freed memory.",
 ["histories", "inputs"], "all operation sequences on populations of 8-, 16- and 32-bit images of several types (kinds of memory) including self-assignment, empty images and extreme dimensions",
 "Tests cover each operation once on small images.",
 ["src/image_buffer.h"], [("copy/swap/resize/mutate/assign", "src/image_buffer.h")], ["model images kept in step; sanitizer reports"], None)
prop("D01", "Dispatch picks the right implementation and keeps the caller's image type",
 "Calling an operation through the dispatching API gives, for every registered image type, the result of that type's own implementation, falls back to another registered type when the operation is missing there, converts images on the way in and back out, and leaves the caller's images with their own type, region contents and attributes. Operations which no type provides, or none that the images can be converted to and back, are refused with the library's exception. (Whole-image Copy replaces its output, type included.)",
 ["inputs", "configurations"], "all dispatched operations, call forms, one and several user-defined image types with full or partial operation sets, conversion on and off",
 "Tests only use the built-in CPU type, so conversion and fallback are never executed.",
 ["src/penguinv/penguinv.cpp", "src/penguinv/image_manager.h", "src/image_function_helper.cpp"], [("function table lookup", "src/penguinv/penguinv.cpp"), ("conversion", "src/penguinv/image_manager.h"), ("registry", "src/image_function_helper.cpp")], ["results, types, counts of conversions"], None)
prop("F01", "Saving and loading an image preserves it",
 "Saving an image or a region of it as bitmap, PNG or raw and loading the file returns the same size, channel count and pixel values (channel order included) for every supported size, alignment and content, and JPEG returns the same size and channels with values close to the original. PNG and JPEG keep the colours and drop alpha. Channel counts a format has no representation for are refused, and a file that could not be written completely is reported by an exception. Saving leaves the image unchanged, and loading into an existing image yields the same as loading into a new one.",
 ["inputs", "configurations"], "formats, sizes, channel counts, alignments, regions, contents, bit depths readers must support (1/8/24/32-bit bitmaps with palettes, 8/16-bit raw)",
 "Tests save and load a few constant images of one size.",
 ["src/file/bmp_image.cpp", "src/file/png_image.cpp", "src/file/jpeg_image.cpp", "src/file/raw_image.h", "src/file/file_image.cpp"], [("writers and readers", "src/file")], ["loaded image bytes"], None)
prop("F02", "Hostile, truncated or corrupt files are refused safely",
 "Loading any file of any content as any of the supported formats either returns an image consistent with the library's rules or throws the library's exception; it never crashes, terminates the process, hangs, leaks, reads or writes outside its memory (the language's own out-of-memory exception is allowed when the described image does not fit the memory). After a refusal the image given by the caller is still usable and further loads work.",
 ["inputs", "fault_sequences"], "mutated, truncated and synthesised files for each reader, extreme header fields, missing files",
 "Tests load only well-formed files.",
 ["src/file/bmp_image.cpp", "src/file/png_image.cpp", "src/file/jpeg_image.cpp", "src/file/raw_image.h"], [("header validation", "src/file/bmp_image.cpp"), ("decoder error handling", "src/file/png_image.cpp")], ["exit status, exceptions, sanitizer reports"], None)
prop("B01", "Blobs are exactly the connected components of the region",
 "Blob detection partitions the pixels passing the threshold inside the region into blobs such that two pixels share a blob exactly when a path of 8-connected passing pixels joins them; every passing pixel belongs to exactly one blob and no other pixel to any. Its edge points are exactly its pixels at the border of the region or with a not passing pixel among the 8 neighbours; its contour is the set of edge points reached from the top-left one through edge points (8-connected), and the blob is solid exactly when both have the same number of points.",
 ["inputs"], "all region sizes, offsets, thresholds, densities and shapes including spirals, combs, borders, single rows and columns",
 "Tests draw a few rectangles.",
 ["src/blob_detection.cpp", "src/blob_detection.h"], [("flood fill and contour extraction", "src/blob_detection.cpp")], ["blob point lists against an independent component labelling"], None)
prop("B02", "Blob measurements, filters and ordering follow their definitions",
 "Area, bounding width and height, centre, circularity, elongation, length and size of every found blob equal their geometric definition computed from its pixels and contour for any blob size; measurement filters keep exactly the blobs whose values lie inside the interval; sorting orders by the requested measure (largest first), and best-blob selection returns one with the largest value. Measurements that were not requested read as zero rather than with arbitrary values.",
 ["inputs"], "blob shapes and sizes up to millions of pixels, all parameter sets, all filters and criteria",
 "Tests check rectangles with exact integers and tiny sizes.",
 ["src/blob_detection.cpp", "src/blob_detection.h"], [("measurement functions", "src/blob_detection.cpp"), ("filter and sort", "src/blob_detection.cpp")], ["measurements against definitions"], None)
prop("E01", "Edge detection finds the edges of the region and only those",
 "Within its region, edge detection reports each straight step edge with the requested contrast and gradient direction at its position to sub-pixel accuracy (one point per scan line group where the derivative has a local extremum of the requested sign and contrast), reports none in constant areas, is unaffected by anything outside the region, mirrors and transposes with the image and scan direction, honours first/last/all as subsets, keeps reported points inside the region and respects minimum contrast and edge spacing. Single and double precision variants agree.",
 ["inputs", "configurations"], "scan directions, gradient types, edge types, group factors, skip factors, contrast and side offsets, region sizes and positions, image contents",
 "Tests use one step image with the default parameters.",
 ["src/edge_detection.cpp", "src/edge_detection.h"], [("scan line grouping, derivative and peak search", "src/edge_detection.cpp")], ["reported points under transformed inputs"], None)
prop("X01", "Fourier transform, inverse and convolution agree with their definitions",
 "The transform of an image equals the two-dimensional discrete Fourier transform of its pixels within rounding, the inverse restores the image (the image read from complex data is the rounded, quadrant-swapped real part divided by the number of pixels), and multiplying with the conjugate-free spectrum of a second image (also in place) gives the circular convolution, for every width and height including odd and non-square ones. Copies of complex data are deep and size mismatches are refused.",
 ["inputs"], "all widths and heights (odd, prime, 1), contents, sequences of executor initialisation and reuse",
 "Tests use square power-of-two sizes and uniform images.",
 ["src/fft.cpp", "src/fft.h", "src/math/fft_base.h", "src/math/fft_base.cpp"], [("plans and transforms", "src/fft.cpp"), ("quadrant rearrangement", "src/fft.cpp")], ["transform results against a direct DFT"], None)
prop("X02", "Haar transform is invertible and energy preserving",
 "The direct Haar wavelet transform of an array followed by its inverse restores the array within rounding for every even size, produces pairwise averages and differences in rows and columns with the orthonormal scaling, keeps the energy and is linear. Odd or zero sizes and matrices of unequal size are refused.",
 ["inputs"], "all accepted widths, heights and levels, contents",
 "Tests use one size and one input.",
 ["src/math/haar_transform.cpp", "src/math/haar_transform.h"], [("direct and inverse steps", "src/math/haar_transform.cpp")], ["transform results"], None)
prop("X03", "Line search reports a true best line and an exact partition of the points",
 "The Hough line search splits the given points, without loss or duplication, into those within the given tolerance of the reported line and those not, and the reported line supports at least as many points as any line of the searched angle grid up to the discretisation; it fails exactly when there are fewer than two points (meaningless tolerances are replaced by minimal ones). Exactly collinear points are all found for every position and angle inside the search interval.",
 ["inputs"], "point sets (collinear, noisy, duplicated, huge coordinates), angles, tolerances; single and double precision",
 "Tests use a few generated lines with fixed tolerance.",
 ["src/math/hough_transform.cpp", "src/math/math_base.h"], [("accumulator and best line extraction", "src/math/hough_transform.cpp")], ["returned point lists"], None)
prop("X04", "Line, matrix and point arithmetic satisfy their geometric identities",
 "Lines built from two points contain both, opposite construction gives the same line, distance, projection, parallelism and intersection tests agree with exact geometry within tolerance, and linear systems are solved whenever their matrix is well conditioned and refused when singular. This holds in single and double precision for coordinates of ordinary magnitude and every orientation including vertical and horizontal lines.",
 ["inputs"], "points, angles, translations, random and nearly singular linear systems",
 "Tests check fixed examples.",
 ["src/math/math_base.h", "src/math/math_base.cpp"], [("LineBase2D, point templates, linear equation solver", "src/math/math_base.h")], ["results against exact formulas"], None)
prop("G01", "GPU-device operations equal the CPU ones",
 "Every operation offered for device images gives, after copying back, exactly the result of the CPU operation with the same arguments for every accepted size (images of less than 4 GB), region, channel count, alignment and parameter, changes nothing outside the output region, and refuses with the library's exception, changing nothing, whatever the CPU operation refuses; apart from filling and gamma correction of a region and the histogram, which are for gray-scale only on a device, it refuses nothing else. Transfers between ordinary and device memory keep every pixel, also between different row sizes. This holds for calls of several threads at once, each on the device it made active, with several devices open, and after devices are closed and initialized again; a device is offered only when it can be used. Blocks of device memory never overlap and are available again once freed; an OpenCL call which fails ends in the library's exception, leaves the inputs as they were and the device usable; kernels, events, programs and memory objects are released, no matter how a call ends.",
 ["inputs", "configurations", "schedules", "fault_sequences", "histories"], "all device operations, sizes, offsets, channel counts, alignments, parameters (executed on the CPU OpenCL device available here); threads; failing OpenCL calls; sequences of memory requests, device openings, activations and device image values on one and two devices",
 "Tests use uniform images with zero offsets from one thread and no failing call; swapped coordinates, missing offsets, leaks and damaged shared state are invisible.",
 ["src/opencl/image_function_opencl.cpp", "src/opencl/opencl_device.cpp", "src/opencl/opencl_helper.cpp", "src/opencl/image_buffer_opencl.h", "src/opencl/opencl_types.h"], [("kernels and argument setup", "src/opencl/image_function_opencl.cpp"), ("memory manager and devices", "src/opencl/opencl_device.cpp")], ["device results copied back, live OpenCL objects"], None)
prop("C01", "CUDA operations equal the CPU ones",
 "Every operation offered for CUDA device images gives, after copying back, exactly the result of the CPU operation with the same arguments for every accepted size (images of less than 4 GB), region, channel count, alignment and parameter (Fourier transforms, products and the Gaussian filter within rounding), changes nothing outside the output region, and refuses with the library's exception, changing nothing, whatever the CPU operation refuses; apart from filling and gamma correction of a region and the histogram, which are for gray-scale only on a device, it refuses nothing else. Transfers between ordinary, pinned and device memory keep every pixel, also between different row sizes. This holds for every allowed number of threads per block and every order in which independent blocks run, for calls on the default and on created streams (synchronised by the caller before another stream is chosen), for calls of several threads at once, each on the device it made active, with several devices open, and after devices are closed and opened again. Blocks of device memory never overlap and are available again once freed; an allocation or copying which fails ends in the library's exception, leaves the inputs as they were and the device usable; memory, streams, events and plans are released no matter how a call ends.",
 ["inputs", "configurations", "schedules", "fault_sequences", "histories"], "all CUDA operations, sizes, offsets, channel counts, alignments, parameters, block sizes, streams and devices (executed by a stand-in for the CUDA runtime on the CPU); threads; failing CUDA calls; sequences of memory requests, device openings, activations, transforms and image values",
 "CUDA tests need a graphics card and are not even compiled here; they use uniform images with zero offsets, the default stream and no failing call.",
 ["src/cuda/image_function_cuda.cu", "src/cuda/cuda_device.cu", "src/cuda/cuda_memory.cuh", "src/cuda/cuda_types.cuh", "src/cuda/cuda_helper.cu", "src/cuda/cuda_fft.cu", "src/cuda/filtering_cuda.cu", "src/cuda/image_buffer_cuda.cuh", "src/cuda/image_buffer_cuda_pinned.cuh"], [("kernels and launches", "src/cuda/image_function_cuda.cu"), ("memory, arrays and images", "src/cuda/cuda_memory.cuh"), ("devices and streams", "src/cuda/cuda_device.cu"), ("transforms", "src/cuda/cuda_fft.cu")], ["device results copied back, live CUDA objects, accesses of every kernel"], None)
prop("U01", "Windows show exactly the images, marks and histograms they are given",
 "A window (base class, Qt and X11 ones) shows the image it was created with or given last, pixel for pixel, in the image's size, for every size, row alignment, 1 and 3 color channels (4 on Qt as well), while other windows exist and after the caller changed or freed its own image; setting an image replaces the shown one whether the window was shown or not, and an empty image is allowed. On X11 every exposure shows the image and the points drawn since it was set, in their colors, the window ends when it is closed and only then, works on whichever screen is the default one, and refuses a missing display or an image with 4 channels with the library's exception, staying usable. On Qt points, lines, ellipses and rectangles appear in place and color (with transparency) and change nothing else. Connections, windows and X images are released, also when the creation fails. A displayed histogram has one column per value whose height, up to rounding, is the position of the value between the lowest and highest one out of 100 rows, for every arithmetic type; nothing is shown for no or equal values.",
 ["inputs", "histories", "configurations"], "images, titles, drawing parameters, sequences of drawing, showing, exposing, replacing and closing, screens and depths (24 and 32 bits), refused displays, histograms of integer and floating-point values",
 "No test covers the windows: they need a display.",
 ["src/ui/ui.cpp", "src/ui/ui.h", "src/ui/x11/x11_ui.cpp", "src/ui/qt/qt_ui.cpp", "src/tool/ui/tool_ui.h"], [("X11 window", "src/ui/x11/x11_ui.cpp"), ("Qt window", "src/ui/qt/qt_ui.cpp"), ("histogram", "src/tool/ui/tool_ui.h")], ["pixels a window shows, requests a server receives"], None)
prop("Y01", "The Python module gives the same results as the C++ library",
 "Every function and method the Python module exposes returns the same image contents, numbers and attributes as the C++ function for the same data, turns every refusal of the C++ function (and arguments of wrong type or range) into a Python exception that leaves all images as they were, and keeps images and their memory alive exactly as long as Python references them.",
 ["inputs", "histories"], "all exposed functions, image sizes, sequences of object creation, copying and deletion",
 "The test suite does not use the Python module's results beyond loading one image.",
 ["src/python/penguinV.i"], [("interface file", "src/python/penguinV.i")], ["values seen from Python"], None)
prop("L01", "Light correction flattens the field it was calibrated with and refuses others",
 "After analysing a calibration image, correcting that same image yields the target brightness everywhere the calibration values are usable, correcting another image scales every pixel by the calibrated factor with saturation, and outputs stay inside the region. Correction without calibration, with a region outside the calibrated size or with images that are not gray-scale is refused by the library's exception and leaves tool and images unchanged.",
 ["inputs", "histories"], "calibration contents, regions, alignments, sequences of analyse and correct calls with matching and non-matching sizes",
 "No test exercises the light-correction tool.",
 ["src/tool/light_correction.cpp", "src/tool/light_correction.h"], [("analysis and correction", "src/tool/light_correction.cpp")], ["corrected image bytes, exceptions"], None)

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
