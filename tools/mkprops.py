import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or ["public API return values and caller buffers on every rank"]
    a["hook_needed"]="none: the repository's sources are compiled against a simulated MPI library and a redirected allocator; no change in /repo"
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

F3="src/fft3d.cpp";F2="src/fft2d.cpp";R3="src/remap3d.cpp";R2="src/remap2d.cpp"
p("C01","Forward transform is the DFT for every layout, option and message schedule",
 "A forward 2d or 3d transform leaves in every process's output tile, stored in the requested output ordering, exactly the values of the discrete Fourier transform of the distributed input, to rounding error. This holds for every legal grid size, process count, input and output tiling (irregular and empty tiles included), storage permutation, communication/exchange/packing option, memory mode and precision. It does not depend on how the messages between processes are delayed, buffered or reordered.",
 ["inputs","configurations","schedules"],"all legal grids, process counts, tilings, permutations, option combinations, 1d back ends and precisions, and all legal MPI delivery schedules",
 "The tests run a few dozen fixed grids, regular brick or pencil tilings, in place, on 1-8 processes under whatever schedule Open MPI happens to produce, and mostly check round trips, which cancel symmetric errors; they never compare one tile with a DFT.",
 [F3,F2,R3,R2,"src/pack3d.h","src/pack2d.h","src/kissfft.h"],
 [("chain of remaps and batches of 1d FFTs",F3+" FFT3d::compute / "+F2+" FFT2d::compute"),("pencil and brick decompositions",F3+" setup, procfactors"),("pack / exchange / unpack",R3+" setup, remap")],
 [("inout_layout_same, remap_preflag, remap_postflag","which remaps exist, agreed over all processes",F3)])
p("C02","Backward transform inverts forward; scaling follows the caller's flag",
 "A backward transform of data in the output tiling and ordering delivers the inverse DFT in the input tiling and ordering on every process: with scaling on, forward followed by backward restores every input value to rounding, and with scaling off every value is multiplied by exactly the number of grid points. Forward transforms are never scaled, scaling can be switched between calls, and backward without a preceding forward is equally exact, for every layout and under every message schedule.",
 ["inputs","configurations","histories","schedules"],"all layouts (input and output tile sizes differing per process), options, scaling switches and schedules",
 "Tests do only scaled in-place round trips on regular layouts where input and output tiles have nearly the same size, and one schedule.",
 [F3,F2],[("inverse remap chain",F3+" remap_inverse_create, compute BACKWARD branch"),("normalisation",F3+" scale_ffts, normnum, norm")])
p("C03","Separate input and output arrays give the in-place answer and keep the input",
 "Transforming from one array into a different one gives the same values as transforming in place, for both directions and every layout. The input array may be exactly as long as the caller's tile and is never modified or read beyond it; the output array never needs more than the reported transform size.",
 ["inputs","configurations","schedules"],"all layouts, directions, options and schedules with distinct input and output arrays; also the single-stage and remap-only entry points",
 "Every existing test driver passes the same pointer for input and output, so the separate-array paths are never executed.",
 [F3,F2],[("copy instead of first remap when no remap is needed",F3+" compute, only_remaps, only_one_remap"),("two-stage remap through bricks",F3+" FFT3d::remap")])
p("C04","A remap moves every datum exactly once to its new owner, unchanged and in order",
 "A 2d or 3d remap delivers to each process, for every grid point of its new tile and every value carried per point, the bit pattern held by the point's old owner, stored in the requested permuted order; nothing is lost, duplicated or altered. This holds for any number of values per point, any source and destination tilings, in place or into a second array, with internal or caller-provided buffers, for point-to-point and collective communication and all packing methods, under every message schedule.",
 ["inputs","configurations","schedules"],"all tilings, permutations, values per point, options, process counts and delivery schedules",
 "No test calls the remap classes directly; the FFT drivers only reach two values per point and regular tilings.",
 [R3,R2,"src/pack3d.h","src/pack2d.h"],[("overlap computation and message plan",R3+" setup, collide"),("exchange",R3+" remap"),("pack/unpack kernels","src/pack3d.h")])
p("C05","Results are bit-identical under every message schedule and communication option",
 "For a given grid, layout, process count and input, the bits of the result are the same whatever the arrival order, delay or buffering of messages and the relative speed of processes. Choosing point-to-point, collective or mixed communication, pencil or brick exchange, any packing method, or caller-provided buffers never changes a single bit of it.",
 ["schedules","configurations"],"pairs of executions that differ only in schedule, buffering, process speed or performance options",
 "Tests run each configuration once under one uncontrolled schedule and compare only round-trip error against a tolerance.",
 [R3,R2,F3,F2],[("receive completion order",R3+" remap: any-order completion loop"),("collective sub-communicators",R3+" setup: process groups")])
p("C06","Every collective call completes on all processes, whatever MPI buffers or delays",
 "If every process of the communicator makes the same sequence of calls, each call returns on every process after finitely many steps even if sends are never buffered, messages are delayed arbitrarily, or some processes are arbitrarily slow. No call leaves an unreceived message, an unfinished request or a half-entered collective operation behind, and buffers given to MPI are not touched until MPI is done with them.",
 ["schedules","configurations","fault_sequences"],"all legal MPI buffering/synchronisation behaviours, delays, stalls, and irregular communication patterns",
 "Open MPI on one host always buffers small messages and delivers almost at once, so a dependence on buffering or on timing never shows in the tests.",
 [R3,R2],[("receives posted before sends",R3+" remap"),("creation of collective groups: transitive closure of overlapping tiles",R3+" setup pgroup loop")])
p("C07","Tuning ends with the same settings on every process, whatever their clocks say",
 "Automatic tuning returns on every process with the same chosen communication settings, number of trials and iterations, and afterwards transforms are correct, even though each process's clock has its own offset, rate, resolution and jumps and processes run at different speeds. It never hangs or mixes settings between processes, and the plan then behaves as if set up explicitly with the chosen settings.",
 ["schedules","fault_sequences","configurations"],"all per-process clock behaviours (skew, drift, coarse ticks, jumps), stalls, time limits, trial counts, layouts and initial settings",
 "Tests tune only on one process; the outcome on several depends on timings a test cannot control.",
 [F3,F2],[("agreement on measured times",F3+" tune: broadcasts"),("selection of the fastest settings",F3+" tune trial loops")],
 [("cbest, ebest, pbest","settings that must be equal on all processes",F3)])
p("C08","Tuning runs the documented trials, reports them truthfully and picks the fastest",
 "Tuning tries the documented sequence of settings for the time available, shrinking iterations and then trials exactly as documented when the limit would be exceeded, records one entry per trial with the settings actually run, and reports per-transform times consistent with the clock. The chosen settings are those of the fastest recorded trial of each phase, the reported best time is that trial's time, and the caller's memory mode is preserved.",
 ["configurations","inputs","fault_sequences"],"all time limits relative to measured cost, iteration counts, directions, detail flags and initial settings, under simulated clocks",
 "Real time limits that hit each branch of the reduction cannot be arranged reliably in a test; the suite only checks that tuning on one process finishes.",
 [F3,F2],[("trial schedule reduction",F3+" tune: niter/nruns logic"),("per-trial records",F3+" tune: cflags/eflags/pflags/tfft")])
p("C09","Plans on the same or different communicators never interfere",
 "Any number of plans of any kind may coexist, on the same, overlapping or disjoint communicators and with reordered ranks, and calls on them may be interleaved freely with each other and with the application's own messages on other communicators or with nonzero tags. Every call gives the result it would give if its plan were alone, and creating or destroying one plan does not disturb another.",
 ["histories","schedules","programs"],"all interleavings of create/setup/transform/remap/destroy over several plans and communicators plus application traffic",
 "Each test program uses one plan on the whole world and no traffic of its own.",
 [F3,F2,R3,R2],[("message matching on the caller's communicator",R3+" remap"),("per-plan state and private communicators",R3+" setup")])
p("C10","Reported buffer sizes suffice and memory beyond them is never touched",
 "Arrays of the transform size and send/receive buffers of the lengths returned by setup (or tune) are always large enough on every process: no call reads or writes outside them, outside the caller's input tile, or outside the library's own allocations. Caller-provided buffers of exactly those lengths work for every transform and remap on that plan and are never freed by the library.",
 ["inputs","configurations","histories"],"all layouts and options including empty tiles, uneven splits, brick exchange and both precisions, with buffers of exactly the reported lengths",
 "Tests let the library allocate and use layouts where sizes coincide; small overruns stay inside allocator slack.",
 [F3,F2,R3,R2,"src/memory.cpp","src/pack2d.h","src/pack3d.h"],[("size accounting over all remaps",F3+" remap_forward_create, remap_inverse_create"),("send/receive sizes",R3+" setup")])
p("C11","A failed memory allocation is reported and stops the job, never corrupts it",
 "When the system refuses the library memory at any point of setup, tuning or transforming, on any process, the job ends with an error message from that process and an abort of all processes. It never crashes with an invalid memory access, hangs, or goes on to return wrong results.",
 ["fault_sequences","schedules","configurations"],"an allocation failure injected at every allocation point on any process, under all schedules",
 "No test makes an allocation fail.",
 [F3,F2,R3,R2,"src/kissfft.h","src/memory.cpp"],[("allocation wrappers","src/memory.cpp"),("checks after allocations",R3+" setup"),("abort path","src/error.cpp Error::one")])
p("C12","Misuse is rejected on all processes with one error, and valid use never is",
 "A call sequence or argument that the interface declares illegal (unsupported sizes, input tile bounds outside the grid, input tiles whose sizes do not add up to the grid, a meaningless permutation, wrong precision, calls before setup or a second setup, memory calls in the wrong mode, bad tuning arguments) stops every process of the communicator with an error message and a failing exit, even if only one process's tile bounds are wrong. No process hangs, crashes or carries on, and legal use is never rejected.",
 ["inputs","histories","schedules"],"all single mistakes in otherwise legal programs, on any subset of processes for per-process arguments, under all schedules",
 "The tests contain no negative cases.",
 [F3,F2,R3,R2,"src/error.cpp"],[("collective validation of indices and tiling",F3+" setup"),("call-order checks",F3+" compute, setup_memory, tune"),("collective error exit","src/error.cpp Error::all")])
p("C13","Destroying a plan returns everything it took, at any point of its life",
 "After any number of create, setup, tune, transform and destroy cycles, destroying a plan at any stage of its life (just created, set up, used, tuned) releases all memory, communicators, groups, requests and 1d transform plans it acquired on every process, exactly once. Nothing acquired during tuning outlives the trial that needed it except what the final setup keeps.",
 ["histories","schedules","configurations"],"all life-cycle prefixes, options and layouts, under all schedules",
 "Tests create one plan and exit; leaks, double frees or invalid destruction before setup do not show.",
 [F3,F2,R3,R2],[("destructors and partial deallocation",F3+" ~FFT3d, deallocate_setup, deallocate_remap"),("communicator release",R3+" ~Remap3d")])
p("C14","C and Fortran interfaces do exactly what the native interface does",
 "Every operation reached through the C functions or the Fortran module, with Fortran's one-based tile bounds and integer communicator handles, has the same effect and bit-identical results as through the native classes, for setup, caller-provided memory, transforms, partial operations, tuning and remaps. Options set and values queried by name refer to the documented quantities.",
 ["inputs","configurations","schedules","programs"],"all operations, layouts and options through each interface under the same schedules",
 "Drivers for C and Fortran run only the basic forward/backward path with internal memory on regular tilings.",
 ["src/fft3d_wrap.cpp","src/fft2d_wrap.cpp","src/remap3d_wrap.cpp","src/remap2d_wrap.cpp","src/fft3d_wrap.f90","src/fft2d_wrap.f90","src/remap3d_wrap.f90","src/remap2d_wrap.f90"],
 [("index and communicator translation","src/fft3d_wrap.cpp *_fortran"),("named options and queries","src/fft3d_wrap.cpp fft3d_set, fft3d_get_*"),("Fortran module interfaces","src/fft3d_wrap.f90")])
p("C15","Partial operations and remap-only mode move data exactly as the transform does",
 "Performing only the data movement of a transform, in one call, stage by stage in the transform's order, or through remap-only mode, takes every value unchanged from the input tiling and order to the output tiling and order (and back for the backward direction), in place or into another array. Performing only the 1d transforms leaves zeros zero, needs no communication, and remap-only mode never scales or computes and can be switched between calls.",
 ["inputs","configurations","schedules","histories"],"all layouts, options, directions, stage sequences and schedules",
 "Tests use remap-only mode in place on regular layouts and only via round trips; single stages are only timed, never checked.",
 [F3,F2],[("only_remaps, only_one_remap, only_1d_ffts",F3),("remaponly branch",F3+" compute")])
p("C16","Each transform depends only on its input, not on what the plan did before",
 "Any sequence of forward, backward, remap-only and partial operations on one plan, with changing input, arrays, scaling and remap-only flags, gives at each call bit for bit the result a freshly created plan would give for that call. Changing setup-time options after setup, or querying the plan, has no effect on later results.",
 ["histories","schedules"],"all operation sequences on a plan, all schedules",
 "Tests repeat one forward/backward pair; they never vary the sequence or compare with a fresh plan.",
 [F3,F2,R3,R2],[("persistent buffers, requests and plan state",R3+" remap"),("flags consulted at compute time",F3+" compute")])
p("C17","The Python classes do exactly what the native interface does",
 "Every operation reached through the Python classes FFT2dMPI, FFT3dMPI, Remap2dMPI and Remap3dMPI with numpy arrays and an mpi4py communicator (creation, options by name, setup, caller-provided buffers, transforms, partial operations, tuning, remaps, queries, and release by del or destroy()) has the same effect, returned lengths and queried values, and bit-identical results, as through the native classes, in both precisions, for separate as for identical input and output arrays. The plan behind an object is released exactly once, and no legal use ends in an error.",
 ["inputs","configurations","schedules","programs"],"all operations, layouts and options through each Python class, for every number of processes and message schedule",
 "No test runs the Python wrapper at all: it needs Python 2 and mpi4py.",
 ["src/fftmpi.py"],[("ctypes declarations of the C interface","src/fftmpi.py __init__ of each class"),("conversion of arrays and returned values","src/fftmpi.py setup, setup_memory, compute, remap, get_*"),("release","src/fftmpi.py __del__, destroy")],
 None,["return values of the Python methods and the contents of the caller's numpy arrays on every rank"])
p("C18","A transform moves data only where and how its layouts and options say",
 "With the point setting a transform or remap sends its data in messages between pairs of processes only, with the all setting in collective exchanges only, and with combo in messages to and from the caller's and the brick layouts and in collective exchanges between pencils. Data moves once between two sets of 1d transforms with pencil exchange and twice with brick exchange. Nothing is communicated before the first set if every process's input tile spans the whole fast dimension, nor after the last if every output tile spans the whole slow dimension and is stored in rotated order (permute 1 in 2d, 2 in 3d), in either direction. A remap by messages sends to each other process exactly the data that process is to own. Queries return the options in force, process grids that cover all processes, the 1d FFT library and precision in use, and a memory usage that includes the internal buffers and does not exceed what the plan holds.",
 ["inputs","configurations","schedules"],"all grids, process counts, layouts, options, directions and interfaces, under all schedules",
 "Tests look at results only; a transform that ignores an option, moves data that is already in place or sends it twice gives the same values.",
 [F3,F2,R3,R2],[("choice of communication per remap",F3+" setup collective_bp, collective_pp"),("remaps that are not needed",F3+" setup remap_preflag, remap_postflag"),("pencil and brick exchange",F3+" remap_forward_create, remap_inverse_create"),("what is sent to whom",R3+" setup, remap"),("memory accounting",F3+" remap_memory")],
 None,["messages and collective exchanges of each process during each call, and the values returned by queries"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+"\n")
