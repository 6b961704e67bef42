"""What is built and run for each property."""
SAN = ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
VARIANTS = {
    "asan": dict(cflags=SAN, hflags=["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"], lflags=["-fsanitize=address,undefined"]),
    "asan_poll": dict(cflags=SAN, hflags=["-O1", "-fsanitize=address", "-fno-omit-frame-pointer", "-DMON_POLL"], lflags=["-fsanitize=address,undefined"], poll=True),
    "asan_vt": dict(cflags=SAN, hflags=["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"], lflags=["-fsanitize=address,undefined"],
                    config=["RCPR_VTABLE_RUNTIME_ENFORCEMENT"]),
    "tsan": dict(cflags=["-O1", "-fsanitize=thread"], hflags=["-O1", "-fsanitize=thread"], lflags=["-fsanitize=thread"]),
    "vg": dict(cflags=["-O1", "-fno-omit-frame-pointer"], hflags=["-O1", "-DMON_VG"], lflags=[],
               run=["valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes", "--leak-check=no", "--undef-value-errors=yes", "--track-origins=no",
                    "--fullpath-after=", "--num-callers=14", "--child-silent-after-fork=no", "--max-threads=600", "--suppressions=harness/vg.supp"]),
    "plain": dict(cflags=["-O2"], hflags=["-O1"], lflags=[]),
}
IO = ["read", "recv", "recvfrom", "readv", "write", "send", "sendto", "writev", "accept", "accept4"]
GROUPS = {
    "containers": dict(sources=["containers.cpp"]),
    "relstat": dict(sources=["relstat.cpp"]),
    "big": dict(sources=["big.cpp"]),
    "basics": dict(sources=["basics.cpp"]),
    "steady": dict(sources=["steady.cpp"]),
    "sockutil": dict(sources=["sockutil.cpp"], wrap=["syscall"]),
    "psock": dict(sources=["psock.cpp"], wrap=IO + ["recvmsg", "sendmsg", "socket", "bind", "listen", "connect", "gethostbyname2"]),
    "fiber": dict(sources=["fiber.cpp"], wrap=["rcpr_u0ec71e88_25af_40aa_8dd9_990d596b60de_V0_4_fiber_switch"]),
    "vt": dict(sources=["vt.cpp"]),
    "parallel": dict(sources=["parallel.cpp"], wrap=["rcpr_u0ec71e88_25af_40aa_8dd9_990d596b60de_V0_4_fiber_switch"]),
    "async": dict(sources=["async.cpp"], wrap=IO + ["recvmsg", "sendmsg", "fcntl", "epoll_wait", "epoll_pwait", "epoll_ctl", "epoll_create1", "epoll_create", "poll", "ppoll"]),
    "threads": dict(sources=["threads.cpp"], wrap=["pthread_create", "pthread_mutex_init", "pthread_cond_init", "pthread_mutex_lock",
                                                   "pthread_mutex_unlock", "pthread_cond_wait", "pthread_cond_signal", "pthread_cond_broadcast", "pthread_cond_destroy",
                                                   "pthread_mutex_destroy", "pthread_join", "pthread_attr_init"]),
}
CHECKS = {}
NOT_APPLICABLE = {}
NOTE = ("Sampled: holds on the seeded cases executed, judged by an independent model and by AddressSanitizer/UBSan on the library's own code; "
        "trusts the harness's model, the compiler and the sanitizer runtimes.")
A, P = "asan", "asan_poll"


def chk(id, targets, cases, rule, **kw):
    CHECKS[id] = dict(dict(note=NOTE), targets=targets, cases=cases, rule=rule, **kw)


chk("C03", [("containers", A), ("fiber", A), ("relstat", A)], 30000,
    "random container contents with a random subset of child resources whose release fails; the status, every release counter and the allocator "
    "ledger are checked; and every kind of resource released while its allocator reports failures; non-trivial: contents built by at least 3 operations, or a release; distinct by operation log", level="fault_enumeration")
chk("C05", [("containers", A)], 60000,
    "random histories of list operations over 1-2 lists compared after every operation with a sequence model (forward, backward, count, node identity); "
    "non-trivial: at least 8 operations including a removal, swap or clear; distinct by operation log")
chk("C06", [("containers", A)], 60000,
    "random histories of singly linked list operations over 1-2 lists compared after every operation with a sequence model; "
    "non-trivial: at least 8 operations including a removal, swap or clear; distinct by operation log")
chk("C07", [("containers", A)], 60000,
    "random histories over 1-3 queues compared with deque models; non-trivial: something was popped; distinct by operation log")
chk("C08", [("containers", A)], 20000,
    "random insert/find/delete/clear histories over trees with natural, reversed and scrambled orders, compared with std::map after every operation; "
    "non-trivial: at least 8 operations including a deletion; distinct by operation log")
chk("C09", [("containers", A)], 4000,
    "build-up and structured deletion runs; depth measured by walking the tree, cost by counting comparison callbacks; "
    "non-trivial: at least 3 deletions; distinct by operation log")
chk("C10", [("containers", A)], 20000,
    "histories with swaps over 2-3 containers with shared or separate allocators, both contents compared after every operation, released in random order; "
    "non-trivial: at least 8 operations including a swap or removal; distinct by operation log")
chk("C04", [("basics", A)], 40000,
    "random histories of allocate/reallocate/reclaim/reset/control with ordinary and hostile sizes; every live block carries a pattern checked after every operation, "
    "regions are exact heap blocks guarded by AddressSanitizer; non-trivial: at least 3 blocks; distinct by operation log")
chk("C11", [("basics", A)], 150000,
    "all strings of length <= 4 over {space, newline, a, b, vertical tab}, then random ones, each in a block of exactly its size, compared with independent definitions; "
    "distinct by the string")
chk("C12", [("basics", A)], 150000,
    "strings as for C11, iterated to the end and two steps beyond, with random separator sets; non-trivial: at least 2 pieces; distinct by string and separators")
chk("C13", [("basics", A)], 60000,
    "random strings duplicated, and 0..8 or 12 of them concatenated; block sizes read from the allocator ledger; distinct by the strings")
chk("C14", [("basics", A)], 40000,
    "random and edge identifiers formatted and parsed in random letter case; per case about ten malformed texts, with (position, byte) substitutions enumerated by the case number; "
    "texts in blocks of exactly their size; distinct by text")
chk("C15", [("basics", A)], 60000,
    "random histories of create, clone, mutate and release over two allocators filled with junk; digits inspected when handed back; distinct by operation log",
    assumptions=["digits, width and sign are read through the library's private structure, as there is no public accessor"])
chk("C16", [("basics", A)], 100000,
    "random histories of signal, register and step, with further actions from inside the callback, against a two-flag model; non-trivial: the callback ran; distinct by operation log")
chk("C17", [("threads", "tsan"), ("threads", A)], 5000,
    "random numbers of threads, mutexes and waiters with delays injected around every pthread call the library makes; shared data is plain memory judged by ThreadSanitizer "
    "and by conservation counters, hangs by a time limit; distinct by configuration and observed order of critical sections and wake-ups",
    share={"threads/asan": 0.5}, timeout=8)
chk("C18", [("sockutil", A)], 11000,
    "random descriptor tables in a forked child, one operation on them, the whole table (which open file each number refers to, flags) compared with a model; "
    "all 16-bit values and random 32/64-bit ones converted; distinct by table and operation",
    assumptions=["for mapping, sources are not overwritten by earlier targets, as the documentation asks (descriptors are first moved out of the way)"])
chk("C02", [("containers", A), ("basics", A), ("threads", A), ("psock", A), ("fiber", A), ("async", A), ("async", P)], 20000,
    "each case arms the k-th allocation of one operation of a random history to fail and checks status, output pointer, contents before and after, and that the "
    "operation succeeds on retry; non-trivial: at least one failure was injected and observed; distinct by operation log", level="fault_enumeration")
chk("C19", [("psock", A), ("async", A)], 60000,
    "random sequences of typed values of all 21 kinds written to and read back from memory buffers, stream socket pairs and user methods, plain or through buffered readers, "
    "reads cut short at random, some with the writer in another thread; the bytes on the wire compared with an independent encoder; "
    "non-trivial: at least 3 values; distinct by values and transport",
    share={"async/asan": 0.1})
chk("C20", [("psock", A)], 150000,
    "streams of valid encodings with flipped bits, wrong tags, hostile lengths, mismatched requests and random cuts, plus every truncation point of every kind of value, judged by an independent "
    "decoder; pointers, variables and the allocator ledger checked after each failing read; non-trivial: a read was rejected; distinct by bytes and requests")
chk("C21", [("psock", A)], 80000,
    "random writes around the 4096-byte growth steps with extractions in between, and random reads of caller buffers to the end and beyond, against a byte string; distinct by operation log")
chk("C22", [("psock", A), ("async", A)], 120000,
    "random mixes of line, raw and typed reads over fragmenting transports (memory, socket pairs with short reads, user methods that deliver pieces or would block), each checked against "
    "the stream and an offset; pass-through of writes, accepts and descriptors; non-trivial: at least 4 reads; distinct by operation log",
    share={"async/asan": 0.1})
chk("C24", [("psock", A), ("async", A)], 60000,
    "random sequences of descriptors, data and hostile messages over datagram pairs, with failing system calls and a full descriptor table; the descriptor table is compared around every "
    "operation and shared file offsets prove identity; non-trivial: a descriptor read; distinct by operation log",
    share={"async/asan": 0.1})
chk("C25", [("psock", A), ("async", A)], 4000,
    "random numbers of clients from different loopback addresses, accepted in random interleavings and exchanging values; creation with failing socket, bind, listen, connect, lookup and "
    "allocation; distinct by operation log",
    assumptions=["listeners the library creates are IPv4; IPv6 connections are exercised only where the machine has ::1; name lookup of unknown names is answered by a stand-in, as there is no network"],
    share={"async/asan": 0.2})
chk("C33", [("psock", A)], 60000,
    "random sequences of reads, typed reads, writes, accepts and options on sockets made of scripted user methods that fail, stop short or take part of the data in any call; every call of a method is "
    "compared with what the caller passed and its result with what the caller got back; random options on descriptor sockets, all option values compared with a twin socket set directly; "
    "distinct by operation log")

chk("C34", [("psock", A), ("async", A)], 60000,
    "random sequences of reads, writes, accepts and descriptor passing on non-blocking descriptor sockets with one of twenty system errors injected into any call, and real would-block conditions; status, "
    "out parameters, the bytes that arrive later and the descriptor table are compared with a model; and every operation that may hand out descriptor 0, with 0 free; and the same errors, after up to three would-block results, in calls of a fiber on asynchronous sockets; distinct by operation log", level="fault_enumeration", share={"async/asan": 0.05})

F = "fiber"
chk("C23", [("async", A), ("async", P)], 24000,
    "random programs of fibers over asynchronous sockets (1-5 connections of values, raw bytes, lines or descriptors over Unix and TCP sockets, servers accepting clients, shared sockets, "
    "up to 1300 waiting at once), built with epoll and with poll; peers, signals, cut streams and interrupted waits are played from inside the scheduler's own wait, where every fiber that waits "
    "is compared with what the kernel reports ready; non-trivial: every completed program; distinct by program and number of waits")
chk("C26", [(F, "plain"), (F, A)], 50000,
    "every call of the context switch by the real scheduler is replaced by a probe that loads fresh random values in all callee-saved registers and random SSE/x87 control words, switches, and "
    "compares registers, stack pointer, control words and alignment when the fiber is resumed; fibers recurse to random depths with patterned frames, extents of stacks are read from the "
    "process's mappings; non-trivial: at least 8 resumptions among 3 fibers; distinct by history of switches",
    assumptions=["x86-64 System V ABI"])
chk("C27", [(F, A)], 80000,
    "random programs of up to 12 fibers (add, yield, wake, return, mailbox and condition operations, nested fibers, idle fiber) run by the real scheduler; each resumption is compared with a "
    "reference run queue as it happens; non-trivial: at least 8 resumptions among 3 fibers; distinct by history of resumptions")
chk("C28", [(F, A), ("async", A)], 80000,
    "random fiber programs with a management fiber, quiesce/terminate requests to one or all, removal, and interrupted waits in mailboxes, conditions and custom disciplines; every event is compared "
    "with the reference run queue (fiber, code, parameter); non-trivial: at least 8 resumptions among 3 fibers; distinct by history",
    share={"async/asan": 0.05})
chk("C29", [(F, A)], 80000,
    "schedulers with random disciplines (random identifiers, some sharing all but one byte, duplicate identifiers, 0..6 callbacks) added before and during the run; every callback records which "
    "index, context and fiber it was called with; non-trivial: at least two disciplines and 4 requests; distinct by operation log")
chk("C30", [(F, A)], 60000,
    "random programs over several mailboxes: create, close, send with payload and return address, receive (before and after the send), send to closed or unknown addresses, interrupted receives, "
    "several waiting; every payload counts its releases; non-trivial: at least 8 resumptions among 3 fibers; distinct by history")
chk("C31", [(F, A)], 80000,
    "random programs over several conditionals: create, close, wait, notify one and all, interrupted waits, unknown handles, against a reference queue of waiters; "
    "non-trivial: at least 8 resumptions among 3 fibers; distinct by history")

V = "asan_vt"
chk("C32", [("vt", V), ("containers", V), ("basics", V), ("relstat", V), ("psock", V), (F, V), ("async", V), ("threads", V)], 40000,
    "every kind of object is given a forged table (on the heap, the stack, in data, constant data or another section, in mappings, at and around the section's ends) and operated on in random ways; "
    "the methods of forged tables are traps; afterwards the genuine table is put back and the object must work as if nothing had happened. The ordinary random histories of containers, allocators, "
    "strings, numbers, sockets, threads and fibers run in the same configuration with their own models; distinct by operation log",
    share={"containers/asan_vt": 0.3, "basics/asan_vt": 0.3, "relstat/asan_vt": 0.1, "psock/asan_vt": 0.3, "fiber/asan_vt": 0.3, "async/asan_vt": 0.15, "threads/asan_vt": 0.02})

chk("C01", [(g, A) for g in ("containers", "basics", "relstat", "sockutil", "psock", "fiber", "async", "threads")] + [("async", P)], 20000,
    "the random histories of all components, with and without failing allocations, releases and system calls, judged only for memory and ownership: AddressSanitizer and UBSan on the library's code, "
    "a ledger of every block by allocator, of every mapping and descriptor, and a release count for every resource; non-trivial and distinct as in each component's own check",
    kinds=["mem", "sem:*leak*", "sem:*released*", "sem:*release_count", "sem:*mapped", "sem:child_release*", "sem:user_release*", "sem:end_blocks"],
    share={"psock/asan": 2, "fiber/asan": 1.5, "relstat/asan": 0.3, "async/asan": 0.4, "async/asan_poll": 0.2, "threads/asan": 0.03, "sockutil/asan": 0.2})

# large sizes and counts: a fixed number of cases of the "big" group for each property it serves
for _p, _n in dict(C01=240, C04=60, C05=60, C06=60, C07=60, C08=80, C09=80, C10=60, C11=40, C12=40, C13=40, C15=64, C17=8, C19=40, C20=40, C21=40, C22=80, C24=24, C25=24, C26=32, C27=32, C29=40,
                   C30=60, C31=64, C34=24).items():
    CHECKS[_p]["targets"] = list(CHECKS[_p]["targets"]) + [("big", A)]
    CHECKS[_p]["share"] = dict(CHECKS[_p].get("share", {}), **{"big/asan": _n / CHECKS[_p]["cases"]})

G = "vg"
chk("C35", [("containers", G), ("basics", G), ("relstat", G), ("psock", G), (F, G), ("async", G)], 6000,
    "the random histories of all single-threaded components run under valgrind's memcheck on a build without sanitizers; blocks from the allocator and unwritten stack count as uninitialised until "
    "written, and every fiber stack is registered; a branch, address or system call argument that depends on uninitialised bytes, in the library or in the model comparing what it produced, is a "
    "violation; non-trivial and distinct as in each component's own check",
    kinds=["mem:memcheck:*"], timeout=120, case_s=4,
    note="Sampled: holds on the seeded cases executed, judged by valgrind's memcheck on every instruction of the process; trusts memcheck's definedness rules and the compiler.",
    assumptions=["blocks are uninitialised until written; memory from the operating system (new stacks) counts as initialised by it; threads are left to C17"])

chk("C36", [("parallel", A), ("parallel", P), ("parallel", "tsan")], 6000,
    "2 to 5 programs (containers, strings, numbers, allocators, sockets, descriptors, triggers, schedulers with mailboxes, conditions and asynchronous sockets) that share no object, run first alone, then at "
    "the same time by threads with random pauses, or in turns by one thread switching at random, also inside allocator, comparison, release and user socket callbacks; every status, value and allocation a "
    "program observes is compared with its run alone, and ThreadSanitizer, told of every switch of stacks, watches the threads; distinct by what was observed",
    share={"parallel/tsan": 0.25}, timeout=20)

chk("C37", [("steady", A), ("steady", P)], 14000,
    "objects kept for the whole case and a cycle of operations on them (containers, fibers, mailboxes, messages, conditions, interrupted waits, sockets of every kind, servers, descriptors, threads, "
    "triggers, allocators) that ends in the state it began in, repeated, and likewise cycles of operations that fail (refused memory, duplicates, missing names, no listener, cut-off input, peers gone); blocks, bytes, mappings and descriptors held after 4n+4 cycles compared with those after n+4; distinct by what is held and the cycle",
    share={"steady/asan_poll": 0.5}, timeout=60)
