# What each check builds and how many runs it makes.
CXX = "g++"
COMMON_FLAGS = ["-std=c++20", "-O2", "-g0", "-w", "-D_GLIBCXX_ASSERTIONS", "-DAESI_GMP_INTEGRATION"]

def per_bits(src, bits, extra=()):
    return [(src, "%s_%d.o" % (src[:-4], b), ["-DBITS=%d" % b, "-DWEIGHT=%d" % (8 if b <= 256 else 3 if b <= 512 else 1)] + list(extra)) for b in bits]

STREAM_BITS = [64, 96, 128, 160, 224, 256, 512, 1024, 1056, 1536, 2048, 2080, 4096]
LIB = "Aeu.h/Aesi.h from the working tree (unmodified, compiled into the simulation)"
STREAM_REAL = [LIB, "libstdc++ stream classes (std::basic_ostream/basic_istream, sentries, formatted inserters, locales)"]
STREAM_STUB = ["the device behind std::basic_streambuf (chunking, refusals, exceptions, sync failures, healing)"]
STREAM_ASSUME = ["gcc 13 libstdc++ on x86-64; char and wchar_t streams", "the precisions compiled in: %s" % STREAM_BITS,
                 "seeded search: a pass covers the explored runs, not all histories"]
STREAM_TECH = "seeded histories against simulated stream devices with injected refusals, exceptions, short transfers, heals and retries"
STREAM_NOTE = "seeded search over device behaviours and histories against an independent byte/text/state model; real library and libstdc++ streams, simulated device"
SPECS = {}
def spec(pid, units, quick, thorough, rule, real, stub, assumptions, level="exploration", **kw):
    SPECS[pid] = dict(units=units, runs={"quick": quick, "thorough": thorough}, rule=rule, real=real, stub=stub, assumptions=assumptions, level=level, **kw)

spec("C01", per_bits("c01.cpp", STREAM_BITS), 500000, 12000000,
     "one run = one seed: a history of 1-6 binary writes to one stream over a device with seeded chunk sizes, up to 3 fault points, exception mask, pre-set state, clears and heals. "
     "A write is non-trivial if the device failed during it, it met a failed stream, or it was delivered in chunks under 10 characters; distinct by precision, character type, byte order, fault kind or chunk limit, and characters delivered.",
     STREAM_REAL, STREAM_STUB, STREAM_ASSUME, technique=STREAM_TECH, note=STREAM_NOTE)
spec("C02", per_bits("c02.cpp", STREAM_BITS), 400000, 12000000,
     "one run = one seed: a history of 1-6 binary reads into numbers holding other values, from a device with seeded content length, chunk sizes, early ends, exceptions, clears and rewinds. "
     "A read is non-trivial if the device failed during it, it met a failed stream, or it was delivered in chunks under 10 characters; distinct by precision, character type, byte order, fault kind or chunk limit, and characters delivered.",
     STREAM_REAL, STREAM_STUB, STREAM_ASSUME, technique=STREAM_TECH, note=STREAM_NOTE)
spec("C04", per_bits("c04.cpp", STREAM_BITS), 250000, 10000000,
     "one run = one seed: a history of 1-6 insertions of signed and unsigned numbers under seeded format flags, fill and (grouping) locales, over a device with seeded chunk sizes and faults. "
     "An insertion is non-trivial if the device failed during it, it met a failed stream, or it was delivered in chunks under 10 characters; distinct by precision, character type, notation flags, signedness, fault kind or chunk limit, and characters delivered.",
     STREAM_REAL, STREAM_STUB, STREAM_ASSUME, technique=STREAM_TECH, note=STREAM_NOTE)
spec("C05", per_bits("c05.cpp", STREAM_BITS), 140000, 8000000,
     "one run = one seed: a history of 2-24 steps on one stream (manipulators, width, fill, precision, imbue, insertions of numbers and of other values) over a failing device with clears and heals. "
     "Every insertion of a number and every later insertion of another value is a case; distinct by precision, character type, all format flags, whether the device failed and how, signedness, and whether a width was set.",
     STREAM_REAL, STREAM_STUB, STREAM_ASSUME, technique=STREAM_TECH, note=STREAM_NOTE)
spec("C06", per_bits("c06.cpp", STREAM_BITS), 400000, 10000000,
     "one run = one seed: one binary read, binary write or insertion over a device with 1-3 faults under a seeded exception mask, repeated after clear and heal until it succeeds. "
     "An attempt is non-trivial if the device failed during it; distinct by precision, character type, operation, fault kind, exception mask and characters transferred.",
     STREAM_REAL, STREAM_STUB, STREAM_ASSUME, technique=STREAM_TECH, note=STREAM_NOTE)
spec("C07", per_bits("c07.cpp", [64, 96, 128, 224, 512, 1024, 2048, 4096]), 60000, 6000000,
     "one run = one seed: one number, notation, letter case, character type and showBase, converted into buffers of every capacity from 0 to three past its text (texts up to 24 characters, hexadecimal up to 80) or of seeded capacities, "
     "each buffer ending or beginning at a guard page with a canary on its other side; one run in twelve uses a vast buffer instead (capacities around 2^8, 2^15, 2^16, 2^31 and 2^32). A conversion is non-trivial if the buffer is too small for the text; distinct by precision, notation, case, character type, showBase, placement, capacity and text length.",
     [LIB], ["the caller's buffer (guard pages, canaries, seeded capacity)"], ["precisions 64, 96, 128, 224, 512, 1024, 2048, 4096; notations 2, 8, 10, 16", "seeded search over numbers; every capacity only for short texts"],
     technique="seeded exhaustion of guard-paged buffers at every capacity", note="seeded search; a wrong write is caught by page protection or canary, a wrong text by an independent GMP text")
spec("C10", per_bits("c10.cpp", [64, 96, 128, 256, 512, 1024, 2048, 4096]) + [("alloc.cpp", "alloc.o", [])], 500000, 12000000,
     "one run = one seed: 1-5 operations out of 109 covering the public interface (and assignments from GMP integers), each run while the process's allocator refuses every allocation, the n-th, all from the n-th, or a seeded subset, then repeated with memory. "
     "Every faulted operation of the first group, and every GMP operation that asked for memory, is a case; distinct by operation, precision, refusal mode, outcome and refusals met.",
     [LIB, "libstdc++ containers and streams", "GMP"], ["malloc, calloc, realloc, free and the aligned variants of the process (operator new goes through them); GMP's limb allocator is exempt from failures because GMP aborts by design"],
     ["precisions 64, 96, 128, 256, 512, 1024, 2048, 4096", "operands are small for number theory and decimal text"], technique="seeded allocation failures through an interposed allocator, results compared with unfaulted repetition, leak accounting",
     note="seeded search over operations, operands and refusal patterns; the real code runs against the real allocator with injected refusals")
spec("C13", per_bits("c13.cpp", [64, 96, 128, 160, 256, 512, 1024]), 20000, 2000000,
     "one run = one seed: a computation of 2-16 steps on ten numbers, run once without interruption and once as 2-4 processes that are killed (between steps or inside a save) and restarted from the last complete save. "
     "Every restart is a non-trivial case; distinct by precision, codec of each number, parser form, number and the first operation after the restart.",
     [LIB, "libstdc++ streams and strings", "GMP", "process boundaries (each life is a forked process with fresh library state)"], ["the medium that keeps the saves (two slots, a torn save is never used)", "the instants at which processes are killed"],
     ["precisions 64, 96, 128, 160, 256, 512, 1024 and one neighbour each", "numbers above 256 bits are saved in binary, hexadecimal or GMP form only (other notations cost too much there)", "signed values are kept within the precision",
      "wide binary streams are not used for numbers holding the block 0xffffffff, which a wide stream cannot carry"],
     technique="seeded kills, torn saves and restarts of simulated processes, compared observation by observation with an uninterrupted twin",
     note="seeded search; refinement against the never-stopped twin running the same real code in its own process")
spec("C14", per_bits("c14.cpp", [64, 96, 128, 192, 256, 512, 1024, 2048]), 200000, 6000000,
     "one run = one seed: one job of 2-20 operands in up to 8 parts over 1-5 workers, a network with seeded loss, duplication, delay and reordering, worker crashes, stalls and replacements until a seeded instant, partial results merged by coordinator or workers. "
     "Non-trivial if there was more than one part or a fault; distinct by precision, job kind and the order in which partial results arrived and were merged.",
     [LIB, "libstdc++ streams and strings"], ["the network, the workers, the coordinator and its clock (discrete events)"],
     ["precisions 64, 96, 128, 192, 256, 512, 1024, 2048", "operands of gcd are at most 200 bits (cost)", "messages may be lost, repeated, delayed and reordered but not corrupted", "lcm and signed results are kept within the precision"],
     technique="seeded discrete-event simulation of a faulty network and crashing workers, result compared with GMP", note="seeded search over jobs, schedules and faults; real library code at every node")
spec("C23", per_bits("c23.cpp", [64, 96, 128, 160, 192, 256, 288, 512, 1024]), 100000, 3000000,
     "one run = one seed: one protocol (group key agreement, commutative encryption, split exponent, secret sharing, Chinese remainders, norm) among 2-7 peers over a network with seeded loss, duplication, delay and reordering; peers crash, before or after acknowledging, and stall until a seeded instant, and go on from serialised state. "
     "Non-trivial if there were more than two peers or a fault; distinct by precision, protocol and the order in which contributions were made.",
     [LIB, "libstdc++ streams and strings"], ["the network, the peers' processes and disks, their clock (discrete events)"],
     ["precisions 64, 96, 128, 160, 192, 256, 288, 512, 1024", "products of residues fit in the precision (moduli of at most half of its bits)", "exponents are mostly short beyond 256 bits (cost)", "messages may be lost, repeated, delayed and reordered but not corrupted"],
     technique="seeded discrete-event simulation of peers over a faulty network with crashes and restarts, every intermediate and final number compared with GMP", note="seeded search over protocols, schedules and faults; real library code at every peer")
spec("C24", per_bits("c24.cpp", [64, 96, 128, 160, 192, 256, 288, 512, 1024]), 70000, 4000000,
     "one run = one seed: a log of 1-40 commands (57 kinds of update, 14 kinds of query) on four unsigned and three signed registers, delivered to 2-4 replicas over a network with seeded loss, duplication, delay and reordering; replicas crash, stall, lose their disks, restore snapshots of their own or of another replica, and carry each command out in one of the library's equivalent ways. "
     "Non-trivial if there were more than two replicas or a fault; distinct by precision, command and way of carrying it out, and by the interleaving of the replicas' progress.",
     [LIB, "libstdc++ streams and strings"], ["the network, the sequencer, the replicas' processes and disks, their clock (discrete events)"],
     ["precisions 64, 96, 128, 160, 192, 256, 288, 512, 1024", "signed results fit in the precision", "operands of gcd and lcm are at most 200 bits, exponents 60 (cost)", "commands without a defined result (division by zero, shifts by the precision or more, signed bit access that makes or meets a zero) are not issued", "messages may be lost, repeated, delayed and reordered but not corrupted"],
     technique="seeded discrete-event simulation of replicated state machines over a faulty network with crashes and snapshot transfer, every state and answer compared with a reference model on GMP integers", note="seeded search over command logs, schedules and faults; real library code at every replica")
LEVELS = {64: "-O2", 96: "-O0", 128: "-O3", 160: "-O1", 256: "-O2", 512: "-O3", 1024: "-O1"}
spec("C25", [u for b, o in LEVELS.items() for u in per_bits("c25.cpp", [b], [o])], 100000, 12000000,
     "one run = one seed: 1-4 operations out of 133 (109 of the public interface and 24 into objects or buffers of the caller), each carried out in a plain process and then in one or two whose surroundings the seed chose. "
     "Non-trivial if anything differed from the plain process; distinct by precision, operation and the set of differences.",
     [LIB, "libstdc++ streams and strings", "GMP"], ["the memory around operands, destinations and texts (guard pages, canaries, protection)", "stack and heap contents, floating-point environment, C and C++ locale, errno"],
     ["precisions 64, 96, 128, 160, 256, 512, 1024, each at one optimisation level", "texts are ASCII"],
     technique="seeded environment faults: the same operation among different memory contents, placements, protections, modes and locales", note="seeded search over operations, operands and surroundings; a wrong access meets a guard page or a canary, a hidden input shows as a different result")
spec("C26", per_bits("c26.cpp", [64, 96, 128, 224, 256, 512, 1024]), 300000, 12000000,
     "one run = one seed: 1-4 numerals sent through a channel that damages each 0-4 times (cuts, lost, repeated and spliced spans, replaced, flipped and inserted characters, arbitrary bytes, terminators), each read 2-8 times in different forms, placements and locales. "
     "A damaged text is a non-trivial case; distinct by precision, kinds of damage, character type, length and whether a numeral was left.",
     [LIB, "libstdc++ strings, the C library's character classes"], ["the channel, the memory around the characters (guard pages, contents, protection)", "the process's locale"],
     ["precisions 64, 96, 128, 224, 256, 512, 1024; texts up to 900 characters", "narrow and wide readings are compared for ASCII texts only: what other characters are depends on the locale"],
     technique="seeded corruption of texts in transit, read under guard pages in every form, compared with each other and with GMP", note="seeded search over damage; a read outside the text meets a guard page or shows as a difference between readings")
spec("C03", per_bits("c03.cpp", [64, 96, 128, 160, 256, 512, 1024]) + [("disk.cpp", "disk.o", ["-U_FORTIFY_SOURCE"])], 90000, 4000000,
     "one run = one seed: 1-4 writer processes append up to 40 numbers in one of 15 forms (raw or framed with a checksum) through std::fstream, die at seeded system calls or by themselves, the machine loses or tears unsynced data, each successor recovers the log with the library and goes on. "
     "Non-trivial if the machine stopped with unsynced data; distinct by precision, form, framing, buffer size, system calls made before the end and records not yet acknowledged.",
     [LIB, "std::basic_fstream, filebuf, codecvt and string streams of libstdc++", "process boundaries (each life is a forked process)"],
     ["fopen, fclose, read, write, writev, lseek, fstat and fsync for the log file: a disk with a page cache, durable content, sectors and a capacity"],
     ["precisions 64, 96, 128, 160, 256, 512, 1024", "raw logs: unsynced appended data survives as a prefix cut at any byte; framed logs: as any subset of its 32-byte sectors", "after a failed fsync the writer gives up, as it must", "the writer's process waits for fsync before it acknowledges"],
     technique="seeded crashes, torn and lost writes and system-call faults under real file streams, recovery checked against the acknowledged log", note="seeded search over crash points and faults; real library and libstdc++ file streams on a simulated disk")
TSAN = ["-fsanitize=thread", "-O1", "-Wno-tsan"]
WRAP = ["-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset", "-lgmpxx", "-lgmp", "-ldl", "-pthread"]
SCHED_UNIT = ("threads.cpp", "threads.o", ["-U_FORTIFY_SOURCE"])
SCHED_STUB = ["the scheduler: real threads released one at a time, switching only at points the seed chose", "mutexes, read-write locks, once and static-initialisation guards", "the thread-sanitizer interface (its instrumentation is used, its runtime is replaced)"]
spec("C08", per_bits("c08.cpp", [64, 96, 128, 256, 512, 1024, 2048], TSAN) + [SCHED_UNIT], 40000, 4000000,
     "one run = one seed: 2-4 threads of 1-3 operations out of 105 on shared read-only operands and objects of their own, interleaved at memory-access granularity by one of three schedulers (random run lengths over all accesses, over accesses outside the thread's own stack, or random priorities with change points). "
     "Non-trivial if at least as many preemptions as threads happened; distinct by precision, operations and the sequence of preemptions.",
     [LIB + ", instrumented by the compiler", "libstdc++ streams"], SCHED_STUB,
     ["precisions 64, 96, 128, 256, 512, 1024, 2048", "sequentially consistent interleavings at memory-access granularity", "accesses made inside libstdc++.so and libc are not instrumented"],
     technique="seeded thread scheduler at memory-access granularity with happens-before race detection, results compared with each thread alone",
     note="seeded search over interleavings; the race check covers each explored execution", ldflags=WRAP)
spec("C09", per_bits("c09.cpp", [64, 96, 128, 256, 512, 1024, 2048], TSAN) + [SCHED_UNIT], 40000, 4000000,
     "one run = one seed: one operation out of 105, interrupted by 1-4 others (half of the time the same one) on the same thread, at seeded memory accesses of its own (or of an interrupting operation: up to four deep) or in calls of its stream's buffer. "
     "Every interruption is a non-trivial case; distinct by precision, both operations and the point of interruption.",
     [LIB + ", instrumented by the compiler", "libstdc++ streams"], ["the source of interruptions (calls made from the instrumentation of memory accesses, and from stream buffers)", "mutexes, read-write locks, once and static-initialisation guards", "the thread-sanitizer interface (its instrumentation is used, its runtime is replaced)"],
     ["precisions 64, 96, 128, 256, 512, 1024, 2048", "interruptions happen at memory accesses of instrumented code and at stream buffer calls, not inside libstdc++.so or libc"],
     technique="seeded interruptions of an operation at any of its memory accesses or stream buffer calls, results compared with each operation alone",
     note="seeded search over operations and points of interruption", ldflags=WRAP)
DEVICE = ["-DDEVICE", "-DAeu=DevAeu", "-DAesi=DevAesi", "-DOperands=DevOperands", "-DrunOp=devRunOp", "-DElement=DevElement", "-isystem", "@SIM@/cuda_stub"] + TSAN
PLAIN = [f if not f.startswith("-DA") and not f.startswith("-DO") and not f.startswith("-Dr") and not f.startswith("-DE") else f.replace("Dev", "Plain").replace("=dev", "=plain") for f in DEVICE if f not in TSAN] + ["-DPLAIN"]
def plain_units(src, bits):
    return [(s, o.replace(".o", "_plain_dev.o"), f + PLAIN) for s, o, f in per_bits(src, bits)]
def device_units(src, bits, extra=()):
    return [(s, o.replace(".o", "_dev.o"), f + DEVICE + list(extra)) for s, o, f in per_bits(src, bits)]
DEVICE_STUB = ["nvcc's language extensions (empty macros), libcu++ (libstdc++), the device's atomic instructions (indivisible steps)", "the grid: blocks in seeded order and waves, threads scheduled at memory-access granularity"]
spec("C12", device_units("c12.cpp", [64, 96, 128, 256, 512, 1024]) + per_bits("c12.cpp", [64, 96, 128, 256, 512, 1024]) + plain_units("c12.cpp", [64, 96, 128, 256, 512, 1024]) + [SCHED_UNIT], 16000, 2000000,
     "one run = one seed: one kernel (up to 8 in-place steps on the thread's own elements and up to 2 operations out of 94) on a grid of 1-5 blocks of 1-10 threads (or on up to 12 threads of a grid of up to three dimensions and 1024 threads per block, the others having nothing to do) and 1-24 elements, blocks in seeded order and waves, threads interleaved by one of four schedulers (lockstep among them). "
     "A third of the runs are instead series of up to 96 grids of one thread, without instrumentation. Non-trivial if there is more than one thread; distinct by precision, operations and the sequence of switches.",
     [LIB + " in its CUDA configuration (__CUDACC__), instrumented", LIB + " in its host configuration"], DEVICE_STUB,
     ["precisions 64, 96, 128, 256, 512, 1024", "device code is compiled by gcc with __CUDACC__ defined: nvcc's own code generation is not covered", "sequentially consistent interleavings at memory-access granularity", "up to 12 resident threads"],
     technique="seeded scheduler for a simulated grid at memory-access granularity, with race detection, each element compared with the host build's", note="seeded search over kernels, grids and interleavings", ldflags=WRAP, device_build=True)
spec("C11", device_units("c11.cpp", [64, 96, 128, 160, 256, 512]) + per_bits("c11.cpp", [64, 96, 128, 160, 256, 512]) + [SCHED_UNIT], 60000, 6000000,
     "one run = one seed: 2-6 GPU threads of 1-4 calls (atomic set, atomic exchange, reading a block) on one shared unsigned or signed number, with distinct, arbitrary or few different block values, interleaved at memory-access granularity by one of four schedulers (lockstep among them); then calls that run alone. "
     "Non-trivial if calls of different threads overlapped; distinct by precision, class, calls and the sequence of switches.",
     [LIB + " in its CUDA configuration (__CUDACC__), instrumented"], DEVICE_STUB,
     ["precisions 64, 96, 128, 160, 256, 512", "device code is compiled by gcc with __CUDACC__ defined: nvcc's own code generation is not covered", "sequentially consistent interleavings at memory-access granularity", "the sign of a signed number is only claimed for calls that run alone"],
     technique="seeded scheduler for simulated GPU threads at memory-access granularity, per-block linearizability against an atomic register and conservation of exchanged blocks", note="seeded search over calls, values and interleavings", ldflags=WRAP, device_build=True)
