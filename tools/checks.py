"""Which harness decides which property, and how it is built.

HARNESS: name -> keyword arguments of vbuild.build
CHECK:   property -> list of (harness, extra arguments) run one after another,
         each called as  <harness> <property> <tier> <args...>
"""
REF_ONLY = dict(only=["diff/ref.cpp"], standins=False)

MULDEF = ["-Wl,-z,muldefs"]  # a harness may replace simulator-level callbacks

def _e2e(div):
    # the whole simulator without its front end and its difftest, which the
    # harness replaces; div: CPU cycles per bus cycle is 1 or the shipped 16
    return dict(harness_srcs=["e2e.cpp", "e2e_core.cpp", "e2e_front.cpp", "realdiff.cpp"], variant="e2e%d" % div,
                flags=["-O2", "-DCONFIG_AXI_SUBSYSTEM_FREQ_DIV=%d" % div],
                exclude=("front-end/FrontTop.cpp", "diff/diff.cpp"), extra_link=MULDEF)


def _fs(div):
    # the complete simulator, its front end included; only the difftest is replaced
    return dict(harness_srcs=["fs.cpp", "e2e_core.cpp"], variant="e2e%d" % div,
                flags=["-O2", "-DCONFIG_AXI_SUBSYSTEM_FREQ_DIV=%d" % div], exclude=("diff/diff.cpp",), extra_link=MULDEF)


def _icache(lat):
    # lat: cycles the lookup tables take (0: same cycle, as shipped)
    return dict(harness_srcs=["icache.cpp"], variant="icache%d" % lat, flags=["-O3", "-DICACHE_LOOKUP_LATENCY=%d" % lat],
                only=["front-end/icache/icache.cpp", "front-end/icache/icache_module.cpp", "front-end/icache/ICacheTop.cpp",
                      "back-end/Lsu/TlbMmu.cpp", "MemSubSystem/PtwWalker.cpp", "back-end/PhysMemory.cpp"],
                extra_link=MULDEF + ["-Wl,--unresolved-symbols=ignore-all"])


HARNESS = {
    "e2e1": _e2e(1),
    "e2e16": _e2e(16),
    "fs1": _fs(1),
    "fs16": _fs(16),
    "refchk": dict(harness_srcs=["refchk.cpp"], **REF_ONLY),
    "frontq": dict(harness_srcs=["frontq.cpp"], standins=False,
                   only=["front-end/fifo/fetch_address_FIFO.cpp", "front-end/fifo/instruction_FIFO.cpp",
                         "front-end/fifo/PTAB.cpp", "front-end/fifo/front2bank_FIFO.cpp",
                         "front-end/predecode.cpp", "front-end/predecode_checker.cpp"]),
    "preidu": dict(harness_srcs=["preidu.cpp"], standins=False,
                   only=["back-end/PreIduQueue.cpp", "back-end/InstructionBuffer.cpp"]),
    "rename": dict(harness_srcs=["rename.cpp"], standins=False, only=["back-end/Ren.cpp"], extra_link=MULDEF),
    "cluster": dict(harness_srcs=["cluster.cpp"], standins=False, extra_link=MULDEF,
                    only=["back-end/Idu.cpp", "back-end/Ren.cpp", "back-end/Dispatch.cpp", "back-end/Isu.cpp",
                          "back-end/Prf.cpp", "back-end/Exu/Exu.cpp"]),
    "rob": dict(harness_srcs=["rob.cpp"], standins=False, only=["back-end/Rob.cpp"], extra_link=MULDEF + ["-Wl,--unresolved-symbols=ignore-all"]),
    "dcache": dict(harness_srcs=["dcache.cpp"], extra_link=MULDEF + ["-Wl,--unresolved-symbols=ignore-all"],
                   only=["MemSubSystem/DcacheConfig.cpp", "MemSubSystem/MSHR.cpp", "MemSubSystem/MemRouteBlock.cpp",
                         "MemSubSystem/MemSubsystem.cpp", "MemSubSystem/PeripheralAxi.cpp", "MemSubSystem/PtwWalker.cpp",
                         "MemSubSystem/RealDcache.cpp", "MemSubSystem/WriteBuffer.cpp", "back-end/PhysMemory.cpp"]),
    "busport": dict(harness_srcs=["busport.cpp"], standins=False, extra_link=MULDEF + ["-Wl,--unresolved-symbols=ignore-all"],
                    only=["MemSubSystem/DcacheConfig.cpp", "MemSubSystem/MSHR.cpp", "MemSubSystem/MemRouteBlock.cpp",
                          "MemSubSystem/WriteBuffer.cpp"]),
    "ptw": dict(harness_srcs=["ptw.cpp"], standins=False, only=["MemSubSystem/PtwWalker.cpp"], extra_link=MULDEF + ["-Wl,--unresolved-symbols=ignore-all"]),
    "tlb": dict(harness_srcs=["tlb.cpp"], standins=False, only=["back-end/Lsu/TlbMmu.cpp", "MemSubSystem/PtwWalker.cpp"], extra_link=MULDEF + ["-Wl,--unresolved-symbols=ignore-all"]),
    "devices": dict(harness_srcs=["devices.cpp"], standins=False, extra_link=MULDEF,
                    only=["MemSubSystem/PeripheralAxi.cpp", "back-end/PhysMemory.cpp", "diff/ref.cpp"]),
    "loader": dict(harness_srcs=["loader.cpp"]),
    "difft": dict(harness_srcs=["difft.cpp"], extra_link=MULDEF + ["-Wl,--unresolved-symbols=ignore-all"],
                  only=["diff/diff.cpp", "diff/ref.cpp", "back-end/PhysMemory.cpp"]),
    "oracle": dict(harness_srcs=["oracle.cpp"], extra_link=MULDEF + ["-Wl,--unresolved-symbols=ignore-all"],
                   only=["diff/br_oracle.cpp", "diff/ref.cpp", "back-end/PhysMemory.cpp"]),
    "bpu": dict(harness_srcs=["bpu.cpp"], standins=False, only=[], extra_link=MULDEF + ["-Wl,--unresolved-symbols=ignore-all"]),
    "icache": _icache(0),
    "icache1": _icache(1),
    "icache3": _icache(3),
    "csr": dict(harness_srcs=["csr.cpp"], standins=False, only=["back-end/Exu/Csr.cpp"]),
}

CHECK = {
    "P01": [("refchk", [])],
    "P02": [("refchk", [])],
    "P03": [("refchk", [])],
    "P04": [("refchk", [])],
    "P05": [("refchk", [])],
    "P10": [("e2e1", []), ("e2e16", ["lite"])],
    "P11": [("e2e1", []), ("e2e16", ["lite"])],
    "P12": [("e2e1", []), ("e2e16", [])],
    "P13": [("fs1", []), ("fs16", ["lite"])],
    "P14": [("fs1", []), ("fs16", ["lite"])],
    "P15": [("e2e1", []), ("e2e16", [])],
    "P16": [("fs1", []), ("fs16", [])],
    "P17": [("e2e1", []), ("e2e16", [])],
    "P20": [("rename", [])],
    "P21": [("rob", [])],
    "P22": [("cluster", [])],
    "P23": [("cluster", [])],
    "P24": [("cluster", [])],
    "P25": [("csr", [])],
    "P26": [("e2e1", []), ("e2e16", ["lite"])],
    "P27": [("preidu", [])],
    "P30": [("dcache", [])],
    "P31": [("busport", []), ("dcache", [])],
    "P32": [("ptw", [])],
    "P33": [("tlb", [])],
    "P34": [("busport", []), ("dcache", [])],
    "P35": [("devices", [])],
    "P36": [("loader", [])],
    "P40": [("frontq", [])],
    "P41": [("frontq", [])],
    "P42": [("icache", []), ("icache1", ["lite"]), ("icache3", ["lite"])],
    "P51": [("oracle", [])],
    "P43": [("bpu", []), ("fs1", [])],
    "P50": [("difft", []), ("e2e1", []), ("e2e16", [])],
}

ASSUME = {}

MC = "explicit-state exploration of the real code against a reference model"
TECH = {}
LEVEL = {}
NOTE = {
    "P01": "Every encoding of the listed instructions is executed by the real interpreter on a complete "
           "boundary grid of operand values and register aliasings, and every pair of instructions of a "
           "sub-alphabet as a history; each transition is compared with an independent ISA model. "
           "Values outside the grid are not covered.",
    "P02": "Every FP operation, rounding mode and operand tuple from the grid is executed by the real "
           "interpreter and compared with the host's IEEE 754 arithmetic set to the same rounding mode. "
           "Trusts the host FPU.",
    "P03": "All histories of memory operations up to the depth over overlapping addresses are executed by "
           "the real interpreter and compared with a flat byte memory, including every untouched byte.",
    "P04": "All combinations of mode, status, delegation, vector, pending and enable bits with every "
           "trap-relevant instruction, and all histories of them up to the depth, on the real interpreter "
           "against an independent privileged model.",
    "P05": "All PTE flag combinations at both levels with all access types and mode bits are executed by "
           "the real interpreter and compared with an independent Sv32 walk.",
    "P10": "The whole simulated machine except its fetch unit (replaced by one that predicts, groups and delays as the enumeration "
           "chooses) runs every program over the instruction alphabet to the length, plus long runs of every pair, under a set of "
           "base policies and every single deviation (two for one-instruction programs) in prediction, grouping, commit stall and bus timing; every "
           "retired instruction is compared with the sequential model.",
    "P11": "Same machine; every trap-relevant program in five privilege set-ups with the timer interrupt raised at every cycle, and all "
           "programs with synchronous traps; every retired instruction, register, CSR and trap is compared with the privileged model.",
    "P12": "Same machine; long runs and alternations of every pair of instructions under slow, refusing and stalling environments plus "
           "every single extra delay; each execution must retire its program with bounded gaps.",
    "P13": "The complete simulator, front end included, against the sequential model: every program of three elements over accesses, calls and "
           "branches in translated pages, changes of the page tables and of the address space with and without identifier change, sum and mxr, "
           "under several bus behaviours and with every single delay; plus every flag byte of a leaf entry, page and superpage, for every kind of "
           "access in every privilege set-up.",
    "P14": "The complete simulator, front end included, against the sequential model: every loop body of up to three elements over calls, returns, "
           "recursion, indirect and patterned branches, code modification with fence.i, evictions and cache-set chains, at several alignments "
           "and bus speeds and with every single delay of the bus.",
    "P15": "Same machine; every program over device and memory accesses, branches and traps, each also with the timer interrupt at every "
           "cycle; the requests arriving at the device port and the console output are compared with the accesses of the sequential execution.",
    "P16": "The complete simulator, front end included, runs every two-element program of the P13 and P14 families once for each of four contents of "
           "fresh heap and stack memory, each in a process of its own with its own address layout; the cycle of every retirement and the reported "
           "counters must agree. Memory the program loader zeroes (globals) keeps its defined content.",
    "P17": "Same machine as P10; after every cycle of every program of three elements, of long runs of every pair and of every program with the "
           "timer interrupt at every cycle, the reported counters are compared with what was retired and predicted, and the slot accounting must add "
           "up; every warm-up and measured length up to the bound must restart and stop the count at the right instruction.",
    "P26": "Same machine; every program of overlapping loads, stores and atomics of all sizes to the length under the policies and every single "
           "deviation; loaded values, retired stores and the final memory are compared with the sequential model.",
    "P20": "The real rename stage is driven through its ports from every ring offset, in-flight fill and branch density, "
           "through all histories of rename groups, commits, mispredictions and flushes to the depth, against a "
           "map-and-pool model; after every recovery the full map is probed.",
    "P21": "The real reorder buffer is driven through its ports: all schedules of enqueue, completion order, interrupt, fence gating "
           "and stall for every pair of groups with every instruction kind in every slot, three-group programs, and every "
           "ring offset x fill x misprediction position with refill to capacity; retirement is compared with a program-order list.",
    "P22": "The real decode, rename, dispatch, issue, register-file and execution stages run every program of the families "
           "(operation kinds x dependences x arrival distances x queue fills x mispredictions x flushes); every issue is "
           "checked against the in-flight set and each program must drain.",
    "P23": "Same exploration as P22; every operand and program counter handed to execution is compared with the "
           "value the ISA model computes for that instruction instance.",
    "P24": "All opcode/funct3/upper-12-bit patterns are decoded, every implemented operation is executed by the real stages on the "
           "complete operand grid, all immediates and register names, and the overlap families of P22 are run with each "
           "result, memory request and branch outcome compared with the ISA model. Values outside the grid are not covered.",
    "P25": "The real CSR unit is driven through its ports: all interrupt configurations, all exceptions and returns x delegation x "
           "status x vector mode, all CSR accesses x values, and all histories of accesses, squashes, traps and interrupt "
           "injections to the depth; every register is read back after every cycle and compared with the privileged model.",
    "P27": "The real queue pair is driven cycle by cycle through its ports from every queue offset and fill level, "
           "through all cycles (group shape x consumed x retired x flush/mispredict) to the depth, and "
           "compared with a list model at every cycle, including every live fetch-target lookup.",
    "P30": "The real memory subsystem (cache, MSHR, write buffer, routing) runs every program of loads, stores and routed reads over "
           "colliding lines from five cache/queue configurations under all delay-bounded schedules of issue and bus timing; "
           "every answer and the final memory are compared with a flat memory.",
    "P31": "The real miss engine and write buffer are driven through their ports through all histories of allocations, bus accepts, "
           "back-pressure and response orders to the depth, against an entry-list model; plus the P30 exploration with the bus side checked.",
    "P32": "The real shared walk block is driven through its ports by two requesters and an adversarial memory: all interleavings of "
           "requests, cancellations, grants, answers, refusals and refills to the depth over table variants, with the packed form in lock "
           "step, and all entry flag bytes; the stand-alone walker over all entry contents and timings. Oracle: Sv32 walk.",
    "P33": "Both look-aside buffers are driven through their lookup interface against a scripted page walker: "
           "every history of lookups on all ports, walker delays, table changes, flushes, cancels, space and mode "
           "switches up to a depth over aliasing pages, superpages, global pages and full buffers; every entry "
           "content in every mode at, beside and after the walk answer; every bit of page, space and frame number "
           "at every slot; the variant with a walker of its own.",
    "P35": "All sequences of register accesses of each size up to the depth from power-on, on the device model, on the "
           "reference interpreter's devices and through the request port with all accept/answer delays, against a "
           "register-level model; everything readable, the output stream, both interrupt lines and the RAM around DMA "
           "ranges are compared after every access; every word of every window keeps its own content.",
    "P36": "All sequences of word writes and block copies over boundary addresses, every address bit, every image size "
           "around boundaries, and every truncation, read error, header and layout variant of a checkpoint stream are "
           "run through the real loaders; memory, registers and the reference's copy are compared with what was saved.",
    "P34": "The real routing block is driven through all interleavings of load, walker and fetch-probe requests with every "
           "answer kind to the depth, against an owner model; plus the P30 exploration with requester identities checked.",
    "P40": "Each of the four real queues is started at every pointer offset and fill and run through all histories "
           "of read/write/filler-write/refetch/reset cycles up to the depth, as combined and as two-stage evaluation, "
           "against a list.",
    "P41": "All 2^32 instruction words at several pcs are pre-decoded by the real code and compared with an "
           "independent decoder; the checker is run on all groups of instruction classes, predicted directions, targets and "
           "slot validity.",
    "P42": "The real instruction cache, its translation buffer and lookup tables are driven through the calls the "
           "fetch unit makes; every script of three fetches over seven addresses (plus set overflow, one-bit "
           "address differences and redirect storms) is run under every single departure, and deep scripts under "
           "every pair of departures, from a base policy of the memory, the data cache, the page walker and the "
           "redirects. Each completed fetch is compared with the memory content of the translated address. Longer "
           "scripts and more departures at once are not covered.",
    "P43": "The real type predictor and target buffer are trained with every history over one branch more than a set holds, and over "
           "every vector of confirmation counts, against a record of the history. The complete simulator runs every loop of two (at four "
           "alignments) and three elements with constant behaviour for 80 iterations and the mispredictions of the last 20 are counted. "
           "How well branches whose direction changes are predicted is not claimed.",
    "P51": "The real oracle front end with the repository's interpreter behind it delivers every program of three elements, at two "
           "alignments and in three privilege set-ups, to a core played by the sequential model, which also returns to each of the last eight "
           "instructions after every group. Page faults are left out: the library that decides them is not in the repository.",
    "P50": "The real comparison with the repository's interpreter behind it: every program of three elements in three privilege set-ups, the core "
           "played by an independent model, must pass; every single wrong field of the reported state at every step of one- and two-element "
           "programs must stop the run at that step. Then the whole pipeline with the real comparison running along over programs mixing "
           "device accesses, interrupts at every cycle, traps, faults and atomics: it never stops and skips only what it may.",
}
NA_DEFAULT = "check not built yet"
NA = {}
