"""Which workloads decide which property. quick/thorough: number of cases (divided among the shards)."""


def job(name, flavor, mode, quick, thorough, **kw):
    d = {'name': name, 'flavor': flavor, 'mode': mode, 'quick': quick, 'thorough': thorough}
    d.update(kw)
    return d


IMG_RULE = ('one evaluation is one call of an operation judged by the monitor; distinct: different operation, implementation, form, SIMD levels, region size, '
            'row size, offset or parameter, with a region of more than one pixel')

PROPERTIES = {}


NOTE = ('Held on the executions explored: %s. Nothing is concluded about paths the workload does not drive. Trusted: the compiler, the machine and the monitor.')


def prop(pid, jobs, rule, technique, note, **kw):
    d = {'jobs': jobs, 'rule': rule, 'technique': technique, 'note': NOTE % note}
    d.update(kw)
    PROPERTIES[pid] = d


for p in ('I01', 'I02', 'I03', 'I04', 'I05'):
    prop(p, [job('img', 'plain', p, 120000 if p == 'I05' else 250000, 6000000), job('img', 'plain', p, 6000, 200000, arg='far')], IMG_RULE,
         'online reference monitor: every result value against its definition, randomised workload over all forms, implementations and SIMD levels',
         'hundreds of thousands of generated calls over every form, implementation, SIMD level, alignment, offset and channel count', min_evaluations=20000)
prop('I06', [job('img', 'plain', 'frame', 300000, 8000000), job('img', 'neon', 'frame', 60000, 1500000), job('img', 'sse2', 'frame', 60000, 1500000)], IMG_RULE,
     'frame monitor: byte-wise comparison of complete images before and after every call',
     'generated calls of every operation, form and implementation with sentinel contents around every region', min_evaluations=20000)
prop('I07', [job('img', 'asan', 'san', 100000, 2000000), job('img', 'asan', 'invalid', 40000, 800000), job('img', 'asan', 'pool', 16000, 300000),
             job('img', 'neonasan', 'san', 30000, 600000), job('img', 'sse2asan', 'san', 30000, 600000)], IMG_RULE,
     'AddressSanitizer, UndefinedBehaviorSanitizer and LeakSanitizer over accepted, refused and extreme calls',
     'generated calls under the sanitizers for images below 4 GiB; red-zone tools miss accesses that land in other live buffers',
     min_evaluations=20000)
prop('I08', [job('img', 'plain', 'invalid', 300000, 8000000)], IMG_RULE,
     'refusal monitor: exception kind and unchanged state after every invalidated call',
     'generated calls with one planted defect each', min_evaluations=30000)
prop('I09', [job('img', 'plain', 'simd', 100000, 3000000), job('img', 'neon', 'simd', 60000, 1500000), job('img', 'sse2', 'simd', 60000, 1500000)], IMG_RULE,
     'differential monitor: all eight combinations of vector instruction sets against the plain implementation',
     'generated calls on a machine with SSE, AVX2 and AVX512, in builds for all of them and for SSE2 only, and of the NEON code with its intrinsics in plain C++', min_evaluations=60000)
prop('S01', [job('simd', 'cpu', 'S01', 12000, 300000), job('simd', 'cpusse2', 'S01', 2400, 60000)],
     'one evaluation is one choice of an instruction set judged; distinct: processors with histories of settings',
     'history monitor: the library in processes with scripted answers of the processor, the chosen instruction set compared with a model after every step',
     'generated answers of the processor and histories of settings; whether the operating system keeps the wide registers is not asked by the library and not covered', min_evaluations=20000)
prop('I10', [job('img', 'plain', 'pool', 60000, 1500000)], IMG_RULE,
     'differential monitor: concurrent multi-threaded calls against serial results',
     'generated groups of 1 to 4 concurrent callers on 1 to 33 workers, also while the pool is resized', min_evaluations=15000)
prop('I11', [job('img', 'plain', 'forms', 120000, 3000000)], IMG_RULE,
     'differential monitor between the call forms of each operation',
     'generated calls, every form of every implementation', min_evaluations=20000)
prop('I12', [job('img', 'poison', 'deps', 100000, 2500000)], IMG_RULE,
     'repetition monitor with poisoned heap memory, moved and repadded arguments',
     'generated calls repeated with poisoned allocations', min_evaluations=20000)

THREAD_RULE = 'one evaluation is one set of tasks given to a pool and judged when its wait returned; distinct: generated scenarios (workers, submitters, sets, actions, delays)'
prop('T01', [job('threads', 'plain', 'T01', 6000, 200000), job('threads', 'asan', 'T01', 1500, 40000)], THREAD_RULE,
     'history monitor: every task records its executions, judged when the wait returns; random delays inside the pool',
     'generated schedules with injected delays; interleavings are sampled, not enumerated', min_evaluations=5000)
prop('T02', [job('threads', 'plain', 'T02', 4000, 150000), job('threads', 'asan', 'T02', 1500, 40000)], THREAD_RULE,
     'history monitor under resizing, stopping, clearing and removing; hangs by absence of any progress',
     'generated schedules with injected delays; bounded progress instead of eventual termination; calls from the pool\'s own workers are not covered', min_evaluations=5000)
prop('T03', [job('threads', 'tsan', 'T01', 500, 20000), job('threads', 'tsan', 'T02', 500, 20000), job('threads', 'tsan', 'T04', 300, 10000), job('memory', 'tsan', 'M01', 120, 4000), job('img', 'tsan', 'pool', 3000, 60000)],
     THREAD_RULE + '; image calls as in I10',
     'ThreadSanitizer over pool, multi-threaded operations and images used from several threads',
     'happens-before race detection on sampled schedules', min_evaluations=3000)
prop('T04', [job('threads', 'plain', 'T04', 5000, 200000), job('threads', 'asan', 'T04', 1000, 40000)], THREAD_RULE,
     'history monitor with throwing tasks and a rendezvous of all workers afterwards',
     'generated schedules with injected delays', min_evaluations=5000)

MEM_RULE = 'one evaluation is one block handed out, request compared with a fresh pool, or refused operation; distinct: histories of pool sizes and steps'
prop('M01', [job('memory', 'plain', 'M01', 6000, 150000), job('memory', 'asan', 'M01', 1200, 30000)], MEM_RULE,
     'shadow map of live blocks with patterns, checked online over random histories and threads',
     'generated histories of requests and releases by 1 to 4 threads', min_evaluations=50000)
prop('M02', [job('memory', 'plain', 'M02', 6000, 150000), job('memory', 'asan', 'M02', 800, 20000)], MEM_RULE,
     'origin of every block compared with a fresh pool after random histories; refused operations and injected failures',
     'generated histories; failures injected into data allocations and into the bookkeeping of requests (not of releases)', min_evaluations=50000)
prop('M03', [job('memory', 'plain', 'M03', 30000, 800000), job('memory', 'asan', 'M03', 8000, 200000)],
     'one evaluation is one image compared with its model after an operation; distinct: operation sequences',
     'model images kept in step with populations of real ones; sanitizers and accounting of the memory pool',
     'generated operation sequences; memory handed to assign() belongs to the library\'s manager and to no image', min_evaluations=100000)

prop('F01', [job('files', 'plain', 'F01', 200000, 4000000), job('files', 'asan', 'F01', 24000, 600000)],
     'one evaluation is one file written or read and judged; distinct: format, form, channels, size, row size, region and content',
     'round-trip monitor with independent bitmap, raw, PNG and JPEG readers; write faults by a file size limit; descriptor accounting',
     'generated images, regions and foreign files in a scratch folder', min_evaluations=50000)
prop('F02', [job('files', 'plain', 'F02', 100000, 2500000), job('files', 'asan', 'F02', 40000, 1000000)],
     'one evaluation is one load of a file; distinct: format, mutation and size',
     'mutated and synthesised files loaded under AddressSanitizer, UndefinedBehaviorSanitizer and LeakSanitizer, with a memory limit, poisoned memory and descriptor accounting',
     'generated mutations of valid files and headers; memory use limited to 48 MB per image', min_evaluations=50000)

prop('B01', [job('misc', 'plain', 'B01', 120000, 3000000), job('misc', 'asan', 'B01', 20000, 500000)],
     'one evaluation is one blob judged against an independent labelling; distinct: scene, region size and offset, threshold',
     'reference monitor: independent component labelling and contour of every generated scene',
     'generated scenes of up to some 10^5 pixels', min_evaluations=50000)
prop('B02', [job('misc', 'plain', 'B02', 60000, 1500000), job('misc', 'asan', 'B02', 8000, 200000)],
     'one evaluation is one measurement, filter or order judged; distinct: scene, region, threshold, criterion',
     'reference monitor: measurements from the points of every blob by definition, filters and orders against them',
     'generated scenes, single blobs of up to millions of pixels', min_evaluations=50000)
prop('E01', [job('misc', 'plain', 'E01', 300000, 8000000), job('misc', 'asan', 'E01', 30000, 800000)],
     'one evaluation is one reported point or one compared call; distinct: scene, direction, gradient, type, group, skip, offsets, contrast, region',
     'reference monitor in exact arithmetic plus metamorphic monitors (mirrored, transposed, inverted, embedded and repeated calls)',
     'generated scenes of up to some 10^3 pixels', min_evaluations=50000)
prop('X01', [job('misc', 'plain', 'X01', 80000, 2500000), job('misc', 'asan', 'X01', 10000, 300000)],
     'one evaluation is one transform, product or refusal judged; distinct: size, contents, sequence of calls',
     'reference monitor: direct discrete Fourier transform and circular convolution in double precision',
     'generated images of up to 64x64 pixels and some longer rows', min_evaluations=50000)
prop('X02', [job('misc', 'plain', 'X02', 300000, 8000000), job('misc', 'asan', 'X02', 30000, 800000)],
     'one evaluation is one transform judged; distinct: type, size, values',
     'reference monitor: pairwise averages and differences, inverse, energy and linearity of every generated matrix',
     'generated matrices', min_evaluations=50000)
prop('X03', [job('misc', 'plain', 'X03', 120000, 3000000), job('misc', 'asan', 'X03', 15000, 400000)],
     'one evaluation is one search judged, one line of the grid counted; distinct: point sets, angles, steps, tolerances',
     'reference monitor: every line of the angle grid counted independently; conservation of the points',
     'generated point sets of up to some hundred points', min_evaluations=50000)
prop('X04', [job('misc', 'plain', 'X04', 400000, 10000000), job('misc', 'asan', 'X04', 40000, 1000000)],
     'one evaluation is one identity judged; distinct: configurations of points, lines and systems',
     'reference monitor in extended precision of lines, points, angles and linear systems',
     'generated points, lines and systems of ordinary magnitude', min_evaluations=50000)
prop('L01', [job('misc', 'plain', 'L01', 300000, 8000000), job('misc', 'asan', 'L01', 30000, 800000)],
     'one evaluation is one analysis, correction or refusal judged; distinct: sizes, regions, contents and sequences of calls',
     'reference monitor of the corrected values; refusals leave tool and images as they were',
     'generated calibration images and call sequences', min_evaluations=50000)

# the other parts of the library under the sanitizers also decide the memory safety property
PROPERTIES['I07']['jobs'] += [job('misc', 'asan', m, 3000, 80000) for m in ('B01', 'B02', 'E01', 'X01', 'X03', 'L01')]
PROPERTIES['I05']['jobs'] += [job('misc', 'plain', 'kernel', 60000, 1500000)]
prop('D01', [job('dispatch', 'plain', 'D01', 300000, 8000000), job('dispatch', 'asan', 'D01', 30000, 800000)],
     'one evaluation is one dispatched call or registry judged; distinct: operation, form, types, conversion setting, implementations and size',
     'trace monitor of implementations and conversions with image types of its own; results against the plain implementation',
     'generated calls and registries with four convertible and two hardly convertible image types', min_evaluations=50000)
prop('G01', [job('opencl', 'opencl', 'ops', 60000, 3000000), job('opencl', 'openclasan', 'ops', 8000, 400000),
             job('opencl', 'opencl', 'threads', 800, 60000), job('opencl', 'opencl', 'faults', 16000, 1000000), job('opencl', 'opencl', 'memory', 1500, 60000),
             job('opencl', 'openclasan', 'memory', 200, 8000), job('opencl', 'opencl', 'api', 440, 30000),
             job('opencl', 'opencl', 'devices', 600, 40000), job('opencl', 'openclasan', 'devices', 96, 6000)],
     'one evaluation is one call on device images compared with the call in ordinary memory, one block of device memory, or one sequence on device objects judged; '
     'distinct: operation, form, region size, offsets, channels and parameter, or history',
     'differential monitor against the plain implementation, canary images, conservation monitor of OpenCL objects by interposed calls, injected OpenCL failures, AddressSanitizer',
     'generated calls on the OpenCL device for the CPU; real graphics devices and their drivers are not available here', min_evaluations=30000)
prop('C01', [job('cuda', 'cuda', 'ops', 160000, 6000000), job('cuda', 'cudaasan', 'ops', 16000, 600000), job('cuda', 'cudatsan', 'ops', 1200, 40000),
             job('cuda', 'cuda', 'chains', 30000, 1000000), job('cuda', 'cudaasan', 'chains', 5000, 200000),
             job('cuda', 'cuda', 'threads', 1600, 60000), job('cuda', 'cudatsan', 'threads', 160, 8000),
             job('cuda', 'cuda', 'faults', 40000, 1500000), job('cuda', 'cudaasan', 'faults', 8000, 300000),
             job('cuda', 'cuda', 'memory', 2400, 100000), job('cuda', 'cudaasan', 'memory', 320, 12000), job('cuda', 'cudatsan', 'memory', 160, 6000),
             job('cuda', 'cuda', 'values', 16000, 600000), job('cuda', 'cudaasan', 'values', 2400, 100000),
             job('cuda', 'cuda', 'api', 8000, 300000), job('cuda', 'cudaasan', 'api', 1200, 50000),
             job('cuda', 'cuda', 'fft', 12000, 500000), job('cuda', 'cudaasan', 'fft', 2400, 100000)],
     'one evaluation is one call on CUDA images compared with the call in ordinary memory, one block of device memory, one transform, or one sequence on device objects judged; '
     'distinct: operation, form, region size, offsets, channels and parameter, or history',
     'stand-in CUDA runtime on the CPU (deferred streams, shuffled blocks, separate memories, checked pointers) with a differential monitor against the plain implementation, '
     'canary memory, conservation of CUDA objects, injected failures, AddressSanitizer and ThreadSanitizer',
     'generated calls of the CUDA sources compiled for the CPU against a stand-in for the runtime written from its documentation; no NVIDIA compiler, driver or card is available here', min_evaluations=100000)
prop('U01', [job('ui', 'ui', 'x11', 320000, 12000000), job('ui', 'uiasan', 'x11', 60000, 2500000),
             job('ui', 'ui', 'qt', 60000, 2500000), job('ui', 'uiasan', 'qt', 16000, 600000),
             job('ui', 'ui', 'base', 200000, 8000000), job('ui', 'uiasan', 'base', 80000, 3000000)],
     'one evaluation is one exposure, one painted shape, one displayed image or histogram or one release of a window judged; distinct: histories of a window',
     'histories of windows on a stand-in for Xlib and its server and on the offscreen platform of Qt; every pixel compared with a model after every step; conservation of '
     'connections and X images; AddressSanitizer and UndefinedBehaviorSanitizer',
     'generated histories; the X server is a stand-in, Qt paints into memory; the Windows window is not driven', min_evaluations=200000)
prop('Y01', [job('pymodule', 'plain', 'Y01', 8000, 300000), job('pymodule', 'asan', 'Y01', 1600, 60000, arg='asan')],
     'one evaluation is one call through the Python module judged; distinct: different histories of calls',
     'histories of calls from Python against a model of the objects and the C++ functions called directly; conservation of memory blocks; poisoned freed memory; AddressSanitizer',
     'generated histories with the Python and SWIG versions installed here', min_evaluations=20000)
