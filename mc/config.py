"""Per-check configuration: what is built, the enumeration rule, level and assumptions."""
WRAP = dict(ldflags=("-Wl,--wrap=aligned_alloc",))
BASE_ASSUME = ["CPU device, single-threaded use unless the property is about threads",
               "values, shapes and depths outside the stated alphabet and bounds are not covered",
               "compiled from the working tree with clang -O1 under the address sanitizer (C++17, NDEBUG, no exceptions in the library)"]
EXH = ("exhaustive enumeration of bounded operation sequences / inputs on the real library under a choice-driven explorer, "
       "against an independent reference semantics")
HIST = ("exhaustive exploration of every operation history up to a depth on the real code, compared at every step with a "
        "reference model (explicit states counted)")
SCHED = ("stateless model checking of the real code: every schedule up to a preemption/deviation bound under a controlled "
         "scheduler with interposed system calls")
FAULT = "exhaustive fault enumeration on the real code: every fault position of every bounded history"

DIST = dict(extra_repo=tuple("src/Distributed/%s.cpp" % f for f in ("DistributedSampler", "DistributedProcessGroup", "ProcessGroup", "Store", "FileStore", "TCPStore")),
            overlay=(("src/Distributed/BackendNCCL.h", "stubs/BackendNCCL.h"),))
import glob as _glob, os as _os
_REPO = _os.environ.get("VERIF_REPO", "/repo")
_NOSTORE = ("BackendNCCL", "WorkNCCL", "Reducer", "DistributedModule", "DistributedSampler", "DistributedProcessGroup", "ProcessGroup")
DIST_ALL = tuple(sorted("src/Distributed/" + _os.path.basename(f) for f in _glob.glob(_REPO + "/src/Distributed/*.cpp")))
STORE_SRC = tuple(sorted("src/Distributed/" + _os.path.basename(f) for f in _glob.glob(_REPO + "/src/Distributed/*.cpp")
                         if _os.path.basename(f)[:-4] not in _NOSTORE))
SIM = ["mc/mc.cpp", "mc/sim.cpp", "mc/sim_threads.cpp", "mc/sim_race.cpp", "mc/sim_io.cpp", "mc/sim_log.cpp"]
def simcheck(pid, rule, lib=False, extra=(), **kw):
    d = dict(harness=["checks/%s.cpp" % pid, *SIM], build={**dict(flavour="sim", lib=lib, extra_repo=STORE_SRC + tuple(extra), defines=("-DSIM=1",)), **kw.pop("b", {})}, level="exploration", rule=rule,
             technique=SCHED, assumptions=["all concurrency goes through the interposed calls (threads, locks, condition variables, atomics, sleeps, clocks, sockets, files), each of which is a scheduling point; sequentially consistent memory plus a happens-before race check on plain accesses",
                         "schedules with more deviations from the default one, more faults, clients or calls than stated are not covered",
                         "the network and time are simulated (TCP semantics: ordered bytes, FIN, RST, short transfers, timeouts); file-system calls run on real files, one call at a time",
                         "compiled from the working tree with clang -O1 (C++17, NDEBUG)"])
    d["note"] = ("No counterexample exists among the enumerated schedules and faults (each one executed on the real code); nothing is claimed outside the bounds. "
                 "Trusts the simulated network, clock and thread library in mc/sim*.cpp and the reference map in checks/%s.cpp." % pid)
    d.update(kw)
    return d

def tt(pid, rule, level="exploration", technique=EXH, note=None, **kw):
    d = dict(harness=["checks/%s.cpp" % pid, "mc/mc.cpp", "mc/tt.cpp"], build=dict(WRAP), level=level, rule=rule,
             technique=technique, assumptions=list(BASE_ASSUME))
    d["note"] = note or ("No counterexample exists within the enumerated bounds (every case listed in the evidence is executed on the real code); "
                         "nothing is claimed outside them. Trusts the reference model in checks/%s.cpp, the compiler and the sanitizer." % pid)
    d.update(kw)
    return d

CHECKS = {
 "T03": tt("T03", "A case is one (shape, request) or chain of shape operations; non-trivial when rank >= 2 or the request changes the layout; "
           "reference computes the multi-index mapping element by element."),
 "T04": tt("T04", "A case is one indexing/slicing/joining call or chain; non-trivial when the selected part is a proper, non-prefix part of the source."),
 "T05": tt("T05", "A case is one (shape pair, operation, type, form); non-trivial when broadcasting takes place; reference is the textbook broadcast rule."),
 "T06": tt("T06", "A case is one (operation, value or bit pattern, type) or fill request; conversions are checked on every 16-bit pattern and, thorough, all 2^32 float patterns."),
 "T07": tt("T07", "A case is one (shape, set of reduced dimensions, keepdim, type, value pattern); non-trivial when a proper subset of dimensions is reduced."),
 "T08": tt("T08", "A case is one operand-shape pair with flags; non-trivial when a batch is broadcast or a flag is set."),
 "T09": tt("T09", "A case is one (operation, shape, dimension, type, value pattern); non-trivial when more than one slice exists."),
 "T10": tt("T10", "A case is one attention call; non-trivial when a mask, head grouping or causal flag changes the result."),
 "T11": tt("T11", "A case is one convolution or pooling call; non-trivial when it has several channels, a stride or padding."),
 "T12": tt("T12", "A case is one sort/topk/cumsum/sampling call; non-trivial when a slice has ties or several slices exist."),
 "T01": tt("T01", "A case is one complete allocation history; states are (underlying blocks, live blocks at offsets, cache on/off), transitions are allocator calls; every history runs on the real allocator.", level="model_checking", technique=HIST),
 "T02": tt("T02", "A case is one history of derivations and writes; states are canonical pools (values, shapes, shared handles, shared cells), transitions are operations; non-trivial when a write happens with another tensor alive.", level="model_checking", technique=HIST),
 "A01": tt("A01", "A case is one expression graph with an incoming gradient; non-trivial when it has more than one operation; the reference differentiates by forward-mode dual numbers over every leaf element."),
 "A02": tt("A02", "A case is one history of graph building, backward calls, zeroing, gradient writes and hook changes; states are (graph, leaf gradients, hooks, caller gradient), transitions are the calls; non-trivial when a backward call takes place.", level="model_checking", technique=HIST),
 "A03": tt("A03", "A case is one (operation, set of gradient-requiring inputs), one nesting sequence or one interleaving of two threads; non-trivial when an input requires gradients or a scope is entered.", technique=EXH + "; every interleaving of two threads in lockstep"),
 "A04": tt("A04", "A case is one layer call (geometry, gradient-requiring arguments, way of reuse) with its backward pass; non-trivial when an argument requires gradients; the reference takes exact differences of the forward definition or forward-mode derivatives."),
 "L01": tt("L01", "A case is one loss configuration (shapes, targets, reduction, type) with one use of the loss (scaled, added, unreduced, repeated) and its backward pass; non-trivial when more than one element or an upstream factor is involved."),
 "O01": tt("O01", "A case is one optimizer configuration with one history of gradient computation, step, zeroing and user changes; states are (parameters, optimizer state, gradients), transitions the calls; non-trivial when at least two updates happen; the reference applies the update rule per element in double precision.", level="model_checking", technique=HIST),
 "O02": tt("O02", "A case is one history of scheduler steps, optimizer steps and user-set rates; states are (rate, epoch, parameter), transitions the calls; non-trivial when at least one period is completed.", level="model_checking", technique=HIST),
 "M01": tt("M01", "A case is one module tree with one whole-tree operation, or one history of mode switches; non-trivial when the tree has several nodes.", technique=EXH + "; every history of mode switches up to a depth"),
 "S01": tt("S01", "A case is one model saved and loaded (and saved again), or one history over two models and two files; non-trivial when several tensors or a load are involved.", technique=EXH + "; every history of saves, loads and updates up to a depth"),
 "S02": tt("S02", "A case is one damaged file loaded, or one save with a failure or process death at a byte; every byte position is enumerated; non-trivial always except identical-model loads.", technique=FAULT, build=dict(ldflags=("-Wl,--wrap=aligned_alloc", "-Wl,--wrap=mmap", "-Wl,--wrap=munmap"))),
 "D01": tt("D01", "A case is one loader configuration iterated completely, or one history of epochs; non-trivial when there are several batches.", technique=EXH + "; every history of epoch changes up to a depth"),
 "D02": tt("D02", "A case is one pair of files (intact, or damaged at one byte position or field) or one transform chain; non-trivial when several samples or transforms are involved.", technique=EXH + "; every truncation point"),
 "R01": tt("R01", "A case is one program or history of random operations run from its seed (twice, and once from another seed), or one configuration of one operation; non-trivial when there are several draws or values.", technique=HIST),
 "U01": tt("U01", "A case is one history of operations on two small vectors, compared with std::vector after every step, with element lifetimes tracked; non-trivial when heap storage is reached.", technique=HIST),
 "C01": simcheck("C01", "A case is one schedule of two or three threads with their programs; non-trivial always; every thread must get bit for bit what it gets alone, no two accesses may race, all messages must appear whole.", lib=True, harness=["checks/C01.cpp", *SIM[:-1]], b=dict(flavour="simlib", extra_repo=(), ldflags=())),
 "G01": dict(harness=["checks/G01.cpp", "mc/mc.cpp", "mc/tt.cpp", "mc/cuemu.cpp"], build=dict(flavour="cuda", lib=False), level="exploration",
             rule="A case is one operation (or program) on one shape, type, kind of storage and set of parameters, under one order of threads, blocks and queued work of the emulated GPU; non-trivial when there is more than a copy to compare; the reference is the CPU backend in float32, itself judged by the T and A checks.",
             technique=EXH + "; device code runs on an emulated GPU under a choice of schedules with a happens-before race, bounds, life-time and launch-limit monitor",
             assumptions=["the CUDA sources are compiled as C++ (launches rewritten into calls) and run on an emulated GPU (mc/cuemu.*): threads of a block are interleaved at barriers and warp operations only, in the orders listed; races are found by happens-before in any order",
                          "cuBLAS, cuRAND, Thrust and CUB calls are replaced by definitional versions; 16-bit arithmetic rounds after every operation",
                          "values, shapes and depths outside the stated alphabet and bounds are not covered; performance is not judged",
                          "compiled from the working tree with clang -O1 (C++17, NDEBUG)"],
             note="No counterexample exists within the enumerated cases (each executed on the real device code); nothing is claimed outside the bounds. Trusts the emulated GPU in mc/cuemu.* and cuda/."),
 "P07": dict(harness=["checks/P07.cpp", "mc/mc.cpp", "mc/tt.cpp", "mc/cuemu.cpp", "mc/ncclemu.cpp"], build=dict(flavour="cuda", lib=False, extra_repo=DIST_ALL), level="exploration",
             rule="A case is one program of one to three replicas (one collective operation, a sequence, a barrier, a failure, a life cycle, training) under one schedule of replicas and queued device work; non-trivial with several replicas and data; the reference is the definition of each operation on the replicas' values, and training on all the data by one replica on the CPU.",
             technique=SCHED + "; every program up to a depth, every failing call of the collective library",
             assumptions=["the CUDA sources and the NCCL backend are compiled as C++ and run on emulated GPUs (mc/cuemu.*) and an emulated NCCL (mc/ncclemu.*): a collective is queued work that runs once every replica's stream has reached it",
                          "replicas are fibers of one process that hand over at waiting, sleeping, locking and asking calls and at queued device work; time is virtual and passes only when nothing can run",
                          "schedules with more deviations from the usual one, more replicas or longer programs than stated are not covered; NCCL's numerics are those of the definition",
                          "compiled from the working tree with clang -O1 (C++17, NDEBUG)"],
             note="No counterexample exists among the enumerated programs, schedules and failures (each executed on the real backend); nothing is claimed outside the bounds. Trusts the emulated GPU and NCCL in mc/cuemu.*, mc/ncclemu.* and cuda/."),
 "P05": tt("P05", "A case is one (dataset size, replica count, settings) with all ranks and three epochs, or one history of epoch changes; non-trivial when the size does not divide evenly.", technique=EXH + "; every history of epoch changes up to a depth", build=dict(WRAP, **DIST)),
 "P01": simcheck("P01", "A case is one program of store calls (with an initial map) under one schedule and one placement of short or interrupted transfers; non-trivial when several clients take part; the reference is a sequential map and every completed history must have a linearisation."),
 "P02": simcheck("P02", "A case is one scenario (construction, calls, destruction, strangers) under one schedule and one placement of faults; non-trivial always; limits are checked in virtual time, and at the end no thread, socket or freed object may be in use."),
 "P03": simcheck("P03", "A case is one program of file-store calls by processes or threads (with an initial map) under one schedule at file-system-call granularity, with the death of a process at one of its calls where stated; non-trivial when several users take part; the reference is a sequential map and every history must have a linearisation in which interrupted calls happened or did not."),
 "P04": tt("P04", "A case is one wrapped module (sizes, types, frozen parameters, bucket limit, order of use) on 1-3 replicas with one history of passes under one interleaving and order of completions; non-trivial with several replicas and parameters; the reference is the arithmetic mean of the analytic local gradients.",
           technique=SCHED + "; every history of passes up to a depth", build=dict(WRAP, defines=("-include", "stubs/cuda_guard.h"), extra_repo=DIST["extra_repo"] + ("src/Distributed/Reducer.cpp", "src/Distributed/DistributedModule.cpp"), overlay=DIST["overlay"])),
 "P06": simcheck("P06", "A case is one schedule of one scenario (finishers, waiters, queries), or one initialisation string with an environment; non-trivial when several threads run or the string is accepted.", lib=True, extra=("src/Distributed/DistributedProcessGroup.cpp", "src/Distributed/ProcessGroup.cpp"), b=dict(overlay=(("src/Distributed/BackendNCCL.h", "stubs/BackendNCCL.h"),))),
}
