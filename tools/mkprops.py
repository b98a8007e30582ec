#!/usr/bin/env python3
"""Writes properties.jsonl (the statements live here so that they stay one line each in the file)."""
import json, os
P = []
def p(i, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append({"id": i, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": {"files": files, "state": state or [], "mechanism": [{"name": a, "where": b} for a, b in mech],
              "observe_at": observe or ["the public interface in include/asagi.h"], "hook_needed": None}})

p("C01", "FULL grids in one process return the value stored in the file",
  "After a level of a FULL grid was opened in a single process (any number of threads and NUMA domains, NUMA communication ON, CACHE or OFF, any block sizes and any cache size), every read of a position by every registered thread returns the value the file stores for the cell selected by that position, converted to the requested type. This holds for every order and interleaving of reads.",
  ["inputs", "schedules", "configurations"], "all variables (shape, blocks, sizes), thread/domain layouts, positions and interleavings of reads",
  "The grid tests need the (absent) utils submodule, a real NUMA machine and check a handful of positions of one file; thread interleavings of block transfers between domains are never enumerated.",
  ["grid/level/full.h", "grid/level/fulldist.h", "grid/level/blocked.h", "transfer/numafull.h", "transfer/numafullcache.h", "transfer/numacache.h", "grid/simplecontainer.h", "io/netcdfreader.h"],
  [("block ownership and offsets", "grid/level/blocked.h blockRank/blockDomain/blockOffset/local2global"), ("copy from another domain's memory", "transfer/numafull.h transfer"), ("block cache with per block locks", "cache/cachemanager.h")])
p("C02", "FULL grids distributed over MPI return the value stored in the file",
  "After a level of a FULL grid was opened by all processes of its communicator (MPI communication WINDOW, THREAD or OFF; one or more threads and NUMA domains per process), every read of a position by any thread of any process returns the value the file stores for the selected cell, whichever process and domain owns the block. This holds for all interleavings of threads, processes and communication threads.",
  ["schedules", "inputs", "configurations"], "all process/thread/domain counts, communication modes, block distributions, message orders and interleavings",
  "The MPI tests read a few positions under whatever interleaving occurs; owner computation, window displacement and message matching for all ranks, blocks and schedules are not covered.",
  ["grid/level/fulldist.h", "grid/level/blocked.h", "transfer/mpiwinfull.h", "transfer/mpithreadfull.h", "mpi/commthread.h", "mpi/mpicomm.h"],
  [("one-sided get from the owner", "transfer/mpiwinfull.h transfer"), ("request/answer with the communication thread", "transfer/mpithreadfull.h transfer/recv"), ("owner and offset of a block", "grid/level/blocked.h blockRank/blockNodeOffset")])
p("C03", "CACHE grids in one process return the value stored in the file",
  "Every read from a CACHE grid in a single process returns the value the file stores for the selected cell, whatever the cache size (1 up to more than all blocks), hand spread, block sizes, number of threads and NUMA domains, and whatever was read before. Evicting, reloading or copying a block between NUMA domains never changes what is read.",
  ["histories", "schedules", "configurations"], "all read histories, interleavings of threads and cache geometries",
  "Tests read few positions once and never drive eviction under concurrency.",
  ["grid/level/cache.h", "grid/level/cachedist.h", "cache/cachemanager.h", "cache/cachelist.h", "cache/lru.h", "transfer/numacache.h"],
  [("block lookup, eviction and locking", "cache/cachemanager.h get/tryGet/unlock"), ("loading of the block that contains a cell", "grid/level/cache.h loadBlock"), ("copy from another domain's cache", "transfer/numacache.h transfer")])
p("C04", "CACHE grids cooperating over MPI return the value stored in the file",
  "Every read from a CACHE grid whose processes cooperate (WINDOW or THREAD, with or without NUMA domains) returns the value the file stores for the selected cell: a block obtained from another process's or domain's cache is always that block, even while caches are being evicted and refilled concurrently. This holds for all interleavings and message delays.",
  ["schedules", "histories", "configurations"], "all interleavings of threads, processes and communication threads; all read histories, cache sizes and communication modes",
  "A handful of reads under an arbitrary schedule cannot show that no eviction/transfer race delivers a wrong or half-filled block.",
  ["grid/level/cachedist.h", "transfer/mpiwincache.h", "transfer/mpithreadcache.h", "transfer/mpicache.h", "mpi/mutex.h", "cache/cachemanager.h", "transfer/numacache.h"],
  [("directory entry protected by a distributed mutex", "transfer/mpiwincache.h startTransfer/endTransfer/deleteBlock"), ("block transfer with retry", "transfer/mpithreadcache.h transfer, BlockTransferer"), ("removal from the directory before a slot is refilled", "grid/level/cachedist.h getAt")])
p("C05", "PASS_THROUGH grids return the value stored in the file",
  "Every read from a PASS_THROUGH grid, by any number of threads, processes and NUMA domains and for every element type, returns the value the file stores for the selected cell, and each read accesses the file for exactly that one cell. Concurrent reads never disturb each other.",
  ["schedules", "inputs"], "all interleavings of reads by several threads, all positions",
  "The pass-through test runs single threaded.",
  ["grid/level/passthrough.h", "io/netcdfreader.h", "grid/grid.cpp"],
  [("per thread buffer", "grid/level/passthrough.h getAt"), ("single cell read", "io/netcdfreader.h getBlock")])
p("C06", "Positions select the nearest cell, clamped to the grid",
  "In each dimension a position selects the cell whose coordinate is nearest (for increasing and decreasing coordinates; half-way positions go to the next index), positions outside the grid select the first or last cell, dimensions without coordinate variable use offset 0 and spacing 1, and dimensions of size one select their only cell for every position. The order of dimensions in the interface is the reverse of the file's order.",
  ["inputs"], "all offsets, positive and negative spacings, dimension sizes, dimension counts and positions",
  "Tests use one equidistant file with positive spacing.",
  ["grid/level/level.h", "io/netcdfreader.h"],
  [("position to index", "grid/level/level.h pos2index"), ("offset and spacing from the coordinate variable", "io/netcdfreader.h getOffset/getScaling")])
p("C07", "Reported dimensions, extents and spacing describe the grid",
  "After a successful open the number of dimensions, and per dimension the minimum, maximum and (absolute) spacing reported, describe the opened variable: cell-centered grids extend half a cell beyond the first and last coordinate, vertex-centered grids end exactly there, minimum <= maximum also for decreasing coordinates, and dimensions of size one extend to infinity on both sides. Reading at the reported minimum or maximum selects the first or last cell.",
  ["inputs", "configurations"], "all coordinate variables, value positions, dimension sizes and dimension counts",
  "Tests check one file with positive spacing.",
  ["grid/level/level.h", "grid/simplecontainer.h", "grid/grid.cpp", "grid/container.h"],
  [("min/max/delta computation", "grid/level/level.h open"), ("order reversal", "grid/level/level.h min/max/delta")])
p("C08", "FULL grids load every cell exactly once, in whole blocks, evenly spread",
  "While a level of a FULL grid is opened, all processes and NUMA domains together read every cell of the variable from the file exactly once, one block at a time, and no domain loads more blocks than the number of blocks divided by the number of domains, rounded up; after the open, the file is never accessed again. The block size per dimension is the BLOCK_SIZE_n parameter (n in interface order), a negative value meaning the whole dimension, 0 or nothing meaning 64 (1 in the time dimension), never more than the dimension's size.",
  ["configurations", "inputs"], "all variable shapes, block size settings, time dimensions, process and domain counts",
  "Tests only look at values; a block loaded twice or by the wrong owner is invisible to them.",
  ["grid/level/blocked.h", "grid/level/full.h", "grid/grid.cpp"],
  [("block geometry", "grid/level/blocked.h open"), ("distribution", "grid/level/blocked.h local2global/blockRank/blockDomain"), ("loading loop", "grid/level/full.h open")],
  observe=["netCDF read calls (start/count) of every process"])
p("C09", "Getters convert the stored element like a C assignment; getBuf copies it whole",
  "For scalar grids every getter returns the stored element converted like a C assignment from the grid's element type to the requested type, independent of the type in the file, for all communication modes; getBuf writes exactly the reported element size, bytes identical to the stored element, for scalar, array and struct grids. Scalar getters on array and struct grids never write beyond the requested value.",
  ["inputs", "configurations"], "all file types, grid types, getters, grid kinds and element sizes",
  "Tests cover float grids with few getters.",
  ["types/basictype.h", "types/arraytype.h", "types/structtype.h", "magic/typelist.h", "grid/grid.cpp", "io/netcdfreader.h"],
  [("conversion", "types/basictype.h convert"), ("raw copies", "types/arraytype.h convert"), ("type dispatch", "grid/grid.cpp TypeSelector, initContainers")])
p("C10", "Blocks cut off by the variable's end keep every cell in place",
  "If the variable's size is not a multiple of the block size, the blocks at the end of one or several dimensions hold exactly the remaining cells, each at its place, for scalar, array and struct elements and 1 to 4 (or more) dimensions, and nothing beyond the block's memory is written. This holds for every combination of sizes and block sizes.",
  ["inputs"], "all combinations of dimension sizes and block sizes in 1-4 dimensions, all element kinds",
  "The reader test uses one file and one block size.",
  ["io/netcdfreader.h", "grid/level/full.h", "grid/level/cache.h"],
  [("clipping and memory mapping", "io/netcdfreader.h getBlock"), ("in-place expansion for user-defined types", "io/netcdfreader.h getVar<void>")])
p("C11", "Levels of a grid are independent",
  "A grid may have several levels, opened in any order from different files or variables with different parameters, and each level keeps serving exactly its own variable, spacing and counters while others are opened and read, in all grid types and communication modes. Dimensions, minimum and maximum are those of level 0.",
  ["histories", "schedules"], "all orders of opening and reading levels, all grid types and communication modes, concurrent reads of different levels",
  "Tests open a single level, or two without communication.",
  ["grid/simplecontainer.h", "grid/level/level.h", "transfer/mpithreadfull.h", "transfer/mpithreadcache.h", "grid/grid.cpp"],
  [("storage of the levels", "grid/simplecontainer.h init"), ("tags per level", "mpi/mpicomm.h reserveTags, mpi/commthread.h registerReceiver")])
p("C12", "Parameters take effect per level, case- and dash-insensitively",
  "A parameter's name is matched without regard to case and with '-' equal to '_', its value likewise except for variable names and block sizes, the last value set before the open counts, and parameters of one level never influence another; defaults apply to everything not set (FULL, CELL_CENTERED, WINDOW, NUMA ON, variable z, block size 64, cache size 128). Unknown grid types fall back to FULL and unknown value positions to CELL_CENTERED.",
  ["inputs", "histories"], "all spellings, orders, levels and combinations of parameters",
  "Tests set each parameter in one spelling at level 0.",
  ["grid/grid.cpp"],
  [("normalisation", "grid/grid.cpp setParam"), ("lookup with default", "grid/grid.cpp param"), ("selection of the container", "grid/grid.cpp initContainers")])
p("C13", "open reports the right error code",
  "open returns success exactly when the level is usable; a missing or unreadable file is reported as not open, a missing variable as variable not found, too many dimensions as unsupported, an element size that does not fit an array grid as invalid variable size, levels with different element size as wrong size, a missing communication thread as not initialized, a failing MPI call as MPI error (also by setComm) and an undetectable CPU or NUMA node as NUMA error. A failed open leaves the grid closable, without leaking files or memory.",
  ["inputs", "fault_sequences"], "all kinds of faulty input and failing library calls at any call position, alike on all processes",
  "No test opens a broken file or injects failures.",
  ["io/netcdfreader.cpp", "types/arraytype.h", "types/structtype.h", "grid/grid.cpp", "numa/numa.cpp", "transfer/mpithreadcache.h", "transfer/mpithreadfull.h", "include/asagi.h"],
  [("error propagation", "grid/grid.cpp open"), ("file checks", "io/netcdfreader.cpp open"), ("size checks", "types/arraytype.h check")])
p("C14", "open is collective over the threads of a process",
  "Unless the CPU or NUMA node of a thread cannot be detected, no thread's open returns before all registered threads of the process have called open for that level and every NUMA domain finished loading, so that each thread may read as soon as its own open returned; all threads get the same return value. This holds for all interleavings and thread/domain layouts, and for consecutive opens of several levels.",
  ["schedules"], "all interleavings of the calling threads, all thread/domain layouts",
  "Tests run with one schedule and one thread in most cases.",
  ["grid/grid.cpp", "numa/numa.cpp", "numa/numa.h", "threads/sync.h"],
  [("final broadcast as barrier", "grid/grid.cpp open"), ("registration barrier", "numa/numa.cpp registerThread")])
p("C15", "Counters count exactly what happened",
  "For every level, accesses equals the number of reads made on that level by all threads of the process, file_loads the number of blocks (PASS_THROUGH: cells) it read from the file on demand, and numa_transfers and mpi_transfers the blocks obtained from other NUMA domains and other processes; local_misses is the sum of the last three, local_hits the accesses without them and node_hits the accesses without MPI transfers and file loads. For a sequential history of reads the values are those of a cooperative cache with two-hand clock replacement.",
  ["histories", "configurations"], "all sequential read histories, cache sizes, hand spreads, process and domain layouts; all interleavings for the sums",
  "Tests compare one or two counters once.",
  ["perf/counter.h", "perf/counter.cpp", "grid/grid.cpp", "grid/level/cache.h", "grid/level/cachedist.h", "grid/level/fulldist.h", "grid/level/passthrough.h"],
  [("native counters", "perf/counter.h inc"), ("derived counters", "perf/counter.cpp get"), ("aggregation over domains", "grid/grid.cpp getCounter")])
p("C16", "The block cache replaces by the two-hand clock algorithm",
  "A cache of n slots never holds more than n blocks nor one block twice, finds a block exactly if it was inserted and not replaced since, and on a miss replaces the slot the two-hand clock algorithm selects with the configured hand spread (default half the cache): slots fill in order first, and a slot referenced since the clearing hand passed is spared. Inserting reports the block that was replaced.",
  ["histories", "configurations"], "all histories of lookups and insertions, all sizes and hand spreads",
  "Unit tests run two short fixed histories.",
  ["cache/lru.h", "cache/cachelist.h", "cache/cachemanager.h"],
  [("two-hand clock", "cache/lru.h access/getFree"), ("block/slot maps", "cache/cachelist.h getIndex/getFreeIndex")],
  observe=["cache::CacheList, cache::CacheManager"])
p("C17", "A cached block is held by one thread at a time and never replaced while held",
  "Between obtaining a block from the cache and releasing it, a thread has exclusive access to the block's memory: no other thread obtains the slot, and the slot is not reassigned; only the thread that is told the block is new fills it, and a block found by others is always completely filled. Trying to obtain a block never blocks and never changes the replacement order.",
  ["schedules"], "all interleavings of get, tryGet and release by several threads",
  "The unit test is single threaded.",
  ["cache/cachemanager.h"],
  [("cache mutex and block mutexes", "cache/cachemanager.h get/tryGet/unlock")],
  observe=["cache::CacheManager"])
p("C18", "Thread barrier and broadcast are exact, reusable and race-free",
  "No thread leaves a barrier or broadcast before all its participants entered it, every participant leaves with the root's value of this round, and the object can be reused immediately for the next round without mixing rounds, for any number of threads, any root, and even if condition variables wake up spuriously. No participant is left behind.",
  ["schedules"], "all interleavings, spurious wake-ups, numbers of threads, roots and rounds",
  "Unit tests start a few threads under one schedule.",
  ["threads/sync.h", "numa/numacomm.h", "numa/numa.h"],
  [("entering, finishing and last phases", "threads/sync.h startBarrier/waitBarrier/endBarrier"), ("value exchange", "threads/sync.h broadcast")],
  observe=["threads::Sync"])
p("C19", "One-time initialisation runs exactly once, before anybody proceeds",
  "However many threads ask for a one-time initialisation concurrently, the function is executed exactly once, and no call returns before that execution is finished and visible. Later calls return at once without executing it.",
  ["schedules"], "all interleavings of the callers",
  "The unit test calls it sequentially.",
  ["threads/once.h", "grid/grid.cpp"],
  [("double-checked flag under mutex", "threads/once.h saveExec")],
  observe=["threads::Once"])
p("C20", "Threads get unique ids and the NUMA domain they run on",
  "After registration the thread ids of a process are exactly 0..n-1, threads on the same NUMA node share a domain and threads on different nodes do not, domain ids are 0..d-1, each domain has exactly one master, and every thread learns this only after all n threads registered. With NUMA detection disabled there is one domain; registering again keeps ids and masters.",
  ["schedules", "configurations"], "all interleavings of registration, node layouts, thread counts and repeated registrations",
  "The unit test depends on the real machine's nodes and one schedule.",
  ["numa/numa.cpp", "numa/numa.h"],
  [("registration under the barrier lock", "numa/numa.cpp registerThread")],
  observe=["numa::Numa"])
p("C21", "Domains share one allocation with disjoint parts and exchange values",
  "Memory allocated for all domains is one contiguous piece in which each domain gets its own disjoint part of the requested size in domain order, and a value broadcast between the domains reaches every domain, also when the communicator object is created or used repeatedly. Only participants of the same call meet.",
  ["schedules", "configurations"], "all interleavings of the domain masters, sizes and numbers of domains",
  "The unit test checks one layout.",
  ["numa/numacomm.h", "numa/numa.cpp", "threads/sync.h"],
  [("allocation by domain 0 and pointer broadcast", "numa/numacomm.h allocate"), ("creation", "numa/numa.cpp createComm")],
  observe=["numa::NumaComm"])
p("C22", "The distributed mutex excludes and never loses a waiter",
  "At most one thread of all processes holds a given distributed mutex, every thread that asked for it eventually gets it once the others release it, and mutexes at different places are independent, for any number of threads, processes and domains. Several grids or levels on one communicator never confuse each other's waiters.",
  ["schedules"], "all interleavings of acquire, wait and release by all threads and processes",
  "No test exercises contention.",
  ["mpi/mutex.h", "mpi/mpicomm.h", "transfer/mpiwincache.h"],
  [("queue built by swapping the holder's id", "mpi/mutex.h acquire/wait/release"), ("tag ranges", "mpi/mpicomm.h reserveTags")],
  observe=["mpi::Mutex"])
p("C23", "The block directory lists the most recent holders and only those",
  "For each block the directory lists, newest first, the (at most four) most recent registered holders; a lookup returns one of them and none if the list is empty, registering puts the holder in front, and unregistering removes exactly that holder and nothing else, also if it is no longer listed. Entries of different blocks never influence each other.",
  ["histories"], "all histories of registering, unregistering and lookup",
  "No unit test covers the directory.",
  ["transfer/mpicache.h", "transfer/mpithreadcache.h", "transfer/mpiwincache.h"],
  [("fixed size list", "transfer/mpicache.h fetchBlockInfo/updateBlockInfo/deleteBlockInfo")],
  observe=["transfer::MPICache"])
p("C24", "A cached block is fetched from another cache before the file is read",
  "In a quiescent system a CACHE grid reads a block from the file only if no cooperating domain of the process holds it and none of the (at most four, newest) remote holders its directory lists does; otherwise it is copied from one of them, NUMA domains of the own process first. A holder stays listed until it replaces the block or four newer holders were added. Without MPI or NUMA communication domains or processes do not take blocks from each other.",
  ["histories", "configurations"], "all sequential read histories over all processes and domains, cache sizes and modes",
  "Tests never look at where a block came from.",
  ["grid/level/cachedist.h", "transfer/numacache.h", "transfer/mpiwincache.h", "transfer/mpithreadcache.h", "transfer/mpicache.h", "grid/grid.cpp"],
  [("NUMA, then MPI, then file", "grid/level/cachedist.h getAt"), ("directory maintenance", "transfer/mpicache.h"), ("container selection", "grid/grid.cpp initContainers")],
  observe=["netCDF read calls", "counters"])
p("C25", "The communication thread delivers each message once to the right receiver",
  "Every message sent to a registered receiver of a rank is delivered exactly once to that receiver of that rank, with the sender's rank in the receiver's own communicator, and messages between the same two ranks arrive in order; tags handed out are equal on all ranks of the registering communicator and never in use by another receiver on any of its ranks. After unregistering returns, no more messages are delivered to the receiver.",
  ["schedules", "histories"], "all interleavings of sends, registrations and unregistrations on all ranks, all sub-communicators",
  "Only indirectly used by grid tests.",
  ["mpi/commthread.h"],
  [("dispatch by tag", "mpi/commthread.h commThreadHandler"), ("tag agreement", "mpi/commthread.h registerReceiver"), ("synchronous unregistration", "mpi/commthread.h unregisterReceiver")],
  observe=["mpi::CommThread"])
p("C26", "The communication thread starts once, pins as requested and stops cleanly",
  "Starting fails with already-initialized on all ranks if it runs on any of them, otherwise starts one thread per rank pinned to the requested CPU (a negative number counts from the last CPU, an invalid one leaves it unpinned); registering without it fails with not-initialized. Stopping ends the thread after it handled all earlier messages of its own rank and frees what it used, so it can be started again.",
  ["histories", "configurations"], "all histories of start and stop on all ranks, all CPU numbers",
  "Tests start and stop it once with the default CPU.",
  ["mpi/commthread.h", "asagi.cpp"],
  [("collective check", "mpi/commthread.h init"), ("pinning", "mpi/commthread.h init"), ("exit message", "mpi/commthread.h finialize")],
  observe=["asagi::Grid::startCommThread/stopCommThread"])
p("C27", "Fortran handles identify live grids uniquely",
  "Every grid created gets a handle different from those of all grids that are open, the handle designates that grid until it is closed, and closing or creating other grids, also concurrently, never changes what a handle designates. Operations on a handle act on its grid only.",
  ["histories", "schedules"], "all histories and interleavings of create, use and close",
  "The Fortran tests use a single grid.",
  ["fortran/pointerarray.h", "asagi_f90.cpp", "grid/grid.cpp"],
  [("append-only table under a lock", "fortran/pointerarray.h add/get/remove")],
  observe=["f90asagi_* functions"])
p("C28", "C, Fortran and C++ interfaces behave alike",
  "Every operation of the C and Fortran interfaces has the same effect and result as the C++ operation on the same grid, arguments and indices, and the numeric values of types and error codes agree among the three languages' declarations. This includes default levels and out-parameters.",
  ["programs", "inputs"], "all programs over the interface",
  "Only single calls are tested, never compared.",
  ["asagi.cpp", "asagi_f90.cpp", "asagi_f90.h", "include/asagi.h", "include/asagi.f90"],
  [("forwarding", "asagi.cpp, asagi_f90.cpp"), ("enumerations", "include/asagi.h, include/asagi.f90")])
p("C29", "nodeLocalRank numbers the processes of each node from 0",
  "On every process the node-local rank is the number of lower-ranked processes of the communicator with exactly the same processor name, hence 0..k-1 on a node with k processes, even if names differ only slightly, hash alike or have the maximum length. It works on any communicator.",
  ["inputs", "configurations"], "all assignments of names to processes, communicators",
  "The test runs on one node.",
  ["asagi.cpp"],
  [("hash split and name comparison", "asagi.cpp nodeLocalRank")])
p("C30", "Closing a grid releases everything it acquired",
  "After closing a grid (or after a failed open and close) no file, memory, MPI window, datatype, communicator, pending request, thread or thread-specific key acquired for it remains, nothing is released twice or used after release, and other grids are unaffected. This holds for every grid type, communication mode, element type and number of levels.",
  ["histories", "configurations"], "all histories of create, configure, open, read and close, in all configurations",
  "Tests do not check resources.",
  ["grid/grid.cpp", "grid/level/level.h", "grid/level/full.h", "grid/level/fulldist.h", "grid/level/cache.h", "transfer/mpiwincache.h", "transfer/mpithreadcache.h", "transfer/mpiwinfull.h", "types/arraytype.h", "types/structtype.h", "io/netcdfreader.cpp", "mpi/mpicomm.h"],
  [("destructors", "grid/level/*.h, transfer/*.h"), ("only domain 0 frees shared objects", "numaDomainId() == 0")],
  observe=["simulated MPI, netCDF, pthread and heap accounting"])
p("C31", "netCDF is never entered concurrently, nor MPI when configured so",
  "At no time are two threads of a process inside the netCDF library because of grids, whatever grids, levels, types and files they use; if the library was built for MPI implementations that are not thread-safe, no two threads of a process are inside MPI calls made by grids at the same time. This holds for open, read and close.",
  ["schedules", "configurations"], "all interleavings of open, read and close on one or several grids",
  "A race inside the libraries shows up only under rare timing.",
  ["io/netcdfreader.h", "io/netcdfreader.cpp", "mpi/mpicomm.h", "transfer/mpiwinfull.h", "transfer/mpiwincache.h", "allocator/mpialloc.h", "types/arraytype.h", "types/structtype.h"],
  [("one lock for all netCDF calls", "io/netcdfreader.cpp netcdfLock"), ("MPI lock", "mpi/mpicomm.h mpiLock")],
  observe=["entry and exit of netCDF and MPI calls"])
p("C32", "open, read and close always terminate",
  "If all threads and processes make the required collective calls, every open, read and close returns: no interleaving, message delay or contention for caches, directory or locks leads to a deadlock or endless retry, in any grid type and communication mode. This includes caches smaller than the number of threads and several grids used at once.",
  ["schedules", "configurations"], "all fair interleavings and message delays of all threads, processes and communication threads",
  "Deadlocks need specific timing.",
  ["transfer/mpiwincache.h", "transfer/mpithreadcache.h", "mpi/mutex.h", "mpi/commthread.h", "cache/cachemanager.h", "threads/sync.h", "transfer/numacache.h"],
  [("try-lock towards foreign caches", "cache/cachemanager.h tryGet"), ("unlocking before waiting", "transfer/mpiwincache.h startTransfer"), ("retry", "transfer/mpithreadcache.h transfer")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
