HOOK = {"guard": "KVTREE_VERIF", "enable": "-DKVTREE_VERIF when run.py compiles /repo/src (the library variable kvtree_verif_segsize then sets the segment size of gathered files)", "source_commits": ["2ff1827"]}
NA = {}
COMMON = " Trusted: the compiler, AddressSanitizer, the harness's reference tree and its in-memory heap/file stand-ins."
CLAIMS = {
"C01": ("explicit-state exploration of all operation sequences on the real library against a reference map, states merged by canonical tree", "model_checking",
  "Every operation of an alphabet over up to 4 keys and 3 nesting levels, from every tree reachable within the stated depth (quick) or from every reachable tree (thorough)." + COMMON),
"C02": ("exhaustive enumeration of insertion and extraction orders on the real library against a reference map", "exploration",
  "All orders and methods for up to 5 (6) elements, plus boundary integer keys and wide trees." + COMMON),
"C03": ("exhaustive enumeration of pairs of trees and follow-up changes on the real library against a reference merge", "exploration",
  "All ordered pairs of trees of a bounded universe." + COMMON),
"C04": ("exhaustive enumeration of formats, argument values and prior trees on the real library against explicit nested lookups", "exploration",
  "All key lists up to a bounded length and all conversions the library documents, over trees of a bounded universe." + COMMON),
"C05": ("exhaustive enumeration of key sets and insertion orders on the real library against a reference order", "exploration",
  "All insertion orders of small key sets from boundary integers and strings, both directions." + COMMON),
"C06": ("exhaustive enumeration of boundary values and store sequences on the real library", "exploration",
  "Complete grids of boundary bit patterns per type (all exponents for doubles) and all short sequences of stores." + COMMON),
"C07": ("explicit-state exploration of all ownership-changing operation sequences on the real library with exact block accounting, plus exhaustive single and persistent system-call failures per library call", "model_checking",
  "After every transition the allocated blocks must equal what the live trees consist of; use after free and double free are trapped by AddressSanitizer." + COMMON),
"C08": ("exhaustive enumeration of operations x nodes x argument strings taken from the tree itself, compared with the run on private copies", "exploration",
  "Every operation taking strings, every choice of pointers inside every tree of a bounded universe, alone and in pairs of operations." + COMMON),
"C09": ("exhaustive enumeration of calls with null handles, and of all operations on trees with missing subtrees compared with empty ones", "exploration",
  "Every public function with every combination of null arguments it accepts, transfer calls in every message-layer mode of the in-process MPI." + COMMON),
"C29": ("exhaustive enumeration of refused memory requests (each single one, and each suffix) over a list of library calls on the real code", "exploration",
  "Every allocation point of every listed call (trees, files, MPI, gather/scatter), on several trees; failure must end cleanly or leave the tree unchanged." + COMMON),
"C10": ("exhaustive enumeration of trees, buffer alignments and trailing bytes on both builds of the real code against an independent codec", "exploration",
  "All trees of a bounded universe plus boundary key lengths, widths and depths; buffers are exactly sized, so AddressSanitizer traps any access outside." + COMMON),
"C11": ("exhaustive enumeration of trees x writers x readers, foreign images and header values on both builds of the real code against an independent codec", "exploration",
  "All trees of a bounded universe through every writer; every other type and version number and every single-bit magic change; all element orders of a foreign image; images of more than 2 and 4 GiB." + COMMON),
"C12": ("explicit-state exploration of all histories of writers and readers on both builds of the real code, states merged by file content; replay on the kernel's file system", "model_checking",
  "Every reachable file content within the stated depth, all three-operation histories unmerged, and two-operation histories replayed against the kernel." + COMMON),
"C13": ("exhaustive enumeration of truncations and alterations of stored images, offered to every reader of both builds of the real code", "exploration",
  "All truncations, single bits, single bytes, bit pairs, short runs and bursts within the stated lengths, on images of a bounded universe; changed bits and a truncation of an image of more than 4 GiB." + COMMON),
"C14": ("exhaustive enumeration of file contents over a boundary alphabet and of mutated images, against an independent bounds-checking decoder", "exploration",
  "All bodies up to the stated length over a 7-byte alphabet, all field mutations of a bounded universe, boundary sizes and flags; AddressSanitizer traps any access outside the file's contents." + COMMON),
"C15": ("stateless exploration of the real library's system call answers (fault injector enumerating every set of faults up to a bound) on both builds", "model_checking",
  "Every file operation x situations x every set of up to 2 (3) faults, every sequence of up to 4 (6) interruptions, and all transfers chopped to k bytes; descriptors, locks, memory and contents are checked after each execution." + COMMON),
"C16": ("exhaustive enumeration of crash states: every point of every write's logged effects, every combination of unflushed sectors, sizes and names, every torn last write; every reader of the real library runs on each state", "model_checking",
  "Writers of both builds x pairs of old and new trees x short and failing calls; machine crashes lose unflushed state at 512-byte granularity, process crashes tear the last write at every byte." + COMMON),
"C30": ("exhaustive enumeration of umasks, previous modes and single faults on the real code, with replay on the kernel's file system", "exploration",
  "All 512 umasks for every operation that may create a file, serial and parallel; all 512 modes of existing files; every single system call fault." + COMMON),
"C17": ("explicit-state exploration of all interleavings of processes (fibers running the real library on both locking builds) with a linearizability check of every execution; explored schedules replayed with real processes on the kernel", "model_checking",
  "All programs of 2 processes x up to 2 (3) operations and 3 (4) processes x 1 (2), over missing and existing files, plus a process dying at any call; scheduling points are the calls that touch shared state." + COMMON),
"C18": ("explicit-state exploration of all interleavings of concurrent read-modify-writes of the real library on both locking builds, checked against all serial orders; explored schedules replayed with real processes on the kernel", "model_checking",
  "2 processes x up to 3 (4) updates, 3 x 1 (2), 4 (5) x 1, with concurrent readers; lock ownership monitored at every call." + COMMON),
"C19": ("exhaustive enumeration of refused locks and of sets of system call faults on both locking builds of the real library", "exploration",
  "Every locking operation x 7 file states x which low descriptors are in use x every set of up to 2 (3) faults, 9 reasons for a refused lock; lock ownership is checked at every access." + COMMON),
"C20": ("exploration of all delay-bounded schedules and completion modes of an in-process MPI running the real library, over all pairings of up to 5 (6) processes", "model_checking",
  "Trees, pairings, communicators, transfer sequences, 32 modes of the message layer (buffering, late copying, late delivery, order), all schedules with up to 4/2/1 deviations for 2/3/4 processes; trees of 2^31-1 to 2^32+100 packed bytes are reported; the same operations on Open MPI observe the same." + COMMON),
"C21": ("exploration of all delay-bounded schedules and completion modes of an in-process MPI running the real library, over all roots and group sizes", "model_checking",
  "1 to 12 (20) processes x every root x 32 modes, reordered and partial communicators, all schedules with up to 4/3/2 deviations for 2/3/4 processes; trees of 2^31-1 to 2^32+100 packed bytes are reported; the same operations on Open MPI observe the same." + COMMON),
"C22": ("exhaustive enumeration of message sets, and exploration of delay-bounded schedules, of the real exchange on an in-process MPI", "model_checking",
  "All sets of messages among up to 4 processes, single messages among up to 12 (24), pairs among 5 to 9 (12), 3 exchange functions, 32 modes; the same operations on Open MPI observe the same." + COMMON),
"C23": ("exhaustive enumeration of size assignments, layouts and rewrites, and exploration of delay-bounded schedules, of the real gather and scatter on an in-process MPI and file system", "model_checking",
  "All assignments of 12 sizes around the segment boundary to up to 4 processes, up to 64 processes and several map levels with the segment size reduced through the hook, real 1 MB segments for selected mixes; the same operations on Open MPI observe the same." + COMMON),
"C24": ("exhaustive enumeration of damaged file sets (files removed, cut, altered, replaced, combined; every prefix of the effects of an interrupted write) read by the real scatter on an in-process MPI", "model_checking",
  "9 sets of 1 to 8 processes with up to 3 map levels; every length and every bit of every file, every reader count up to 12 (24)." + COMMON),
"C25": ("stateless exploration of system call answers on all processes (fault injector enumerating every set of faults up to a bound) of the real gather and scatter on an in-process MPI", "model_checking",
  "6 layouts of 1 to 6 processes; every set of up to 2 (3) faults in all file system calls of all processes, every single fault in all 32 modes of the message layer." + COMMON),
"C26": ("exhaustive enumeration of ranks, insertion orders, part sizes, prefixes, surrounding files and damage, through both writers and both readers of the real library", "exploration",
  "All insertion orders of up to 6 (7) ranks x all part sizes, up to 64 ranks in parallel and 8193 (20000) serially, 8 prefixes x 18 neighbouring names." + COMMON),
"C27": ("exhaustive enumeration of ordered trees, key texts, indentations and modes printed by the real library, against an independent printer", "exploration",
  "All ordered trees up to a node bound in both modes and several indentations, all depths up to a bound, keys with every byte value and with formatting characters." + COMMON),
"C28": ("exhaustive enumeration of command lines and of damaged files given to the real program, run as a process, against an independent reading of the command line and an independent printer", "exploration",
  "All combinations of up to 3 (4) of 16 argument words and of 19 more with each other, all trees up to 4 (5) entries, every truncation and every bit of a file, output that cannot be written, a file without permission." + COMMON),
"C31": ("stateless exploration of all interleavings of two threads of the instrumented real library up to a preemption bound, with partial order reduction by conflicting memory accesses", "model_checking",
  "34 operations, all ordered pairs x 6 origins of the two trees and one common tree, up to 3 (4) preemptions at accesses to memory common to both threads and at calls of unknown effect, up to 2 preemptions at every call the library makes; sequences of two operations; all pairs of 11 file operations on different files and of file and tree operations, up to 3 (4) preemptions at system calls, and 2 (3)." + COMMON),
"C32": ("exhaustive enumeration of histories of reads, writes and positionings on descriptors against a model of bytes and positions, with fault injection and every partition of the delivered bytes; streams replayed through kernel pipes and sockets", "model_checking",
  "All sequences of up to 4 (5) of 5 trees, all histories of 5 (6) of 12 operations on three descriptors, every cut, bit and partition into 4 pieces, all sets of up to 2 (3) faults." + COMMON),
"C33": ("exhaustive enumeration of values, buffer sizes, positions and alignments, and of sequences of values, on the real helpers of both builds, against an independent encoder", "exploration",
  "Buffers up to 20 bytes (sequences: up to 57), positions also at the limits of the address range, all 16 bit values, all single bits and bytes and boundary values of 32 and 64 bits." + COMMON),
"C34": ("exhaustive enumeration of trees shown to a model of the debugger that dives into every subtree, of levels that end at every byte around the end of the buffer, and of call sequences, on the real code built with TVDISPLAY, against the rows computed from the tree", "exploration",
  "Trees up to 8 entries and levels up to 6000 entries, keys up to 16 MB, call sequences of 5 calls. The harness stands for the debugger, which is not available." + COMMON),
}
