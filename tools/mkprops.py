#!/usr/bin/env python3
# Source of /verif/properties.jsonl (kept as a script so that the file stays well formed).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=hook)))
K="src/kvtree.c"; U="src/kvtree_util.c"; IO="src/kvtree_io.c"; H="src/kvtree_helpers.c"; M="src/kvtree_mpi.c"; MI="src/kvtree_mpi_io.c"; PR="src/kvtree_print.c"; E="src/kvtree_err.c"

p("C01","A tree behaves as a nested map under every sequence of operations",
  "After any sequence of set, get, unset, extract and clear operations (including the two-level key/value forms) at any level of a tree, each key exists at most once, a lookup returns exactly the subtree last associated with that exact key string (compared byte for byte) or nothing, and the size equals the number of keys. An operation changes only the keys it names: setting replaces, unsetting removes exactly one entry, unsetting the last value of a key/value pair also removes the key, and all other entries keep their contents and the handles by which they were reached.",
  ["histories","inputs"],"every operation sequence up to a depth bound over a small colliding key alphabet, every reachable ordered tree state within it; every pair of keys from a wide key set; every tree width up to a bound",
  "The tests run a handful of fixed set/get/unset calls on one or two keys; the claim is about all histories, key strings and list positions.",
  [K,"src/queue.h"],[("set/extract by key, list insert/remove","src/kvtree.c: kvtree_set, kvtree_unset, kvtree_extract, kvtree_unset_kv"),("exact string match","src/kvtree.c: kvtree_elem_get")],
  [dict(name="element list",meaning="unordered list of (key, subtree) pairs",where="src/kvtree.h struct kvtree_struct")],
  ["return values of get/set/extract/unset/size","iteration over elements"])
p("C02","Element iteration and element extraction agree with the map view",
  "Iterating over a tree visits every key exactly once and then stops, and each element visited reports the key and the subtree that a lookup of that key reports. Extracting an element by key, by integer key or by address, from any position and in any order, removes exactly that element, hands it over intact, and leaves the remaining elements reachable and otherwise unchanged; single-value lookup returns a value only when exactly one is present.",
  ["histories","inputs"],"every tree width up to a bound, every extraction order of its elements through each extraction form, interleaved with sorting and re-insertion",
  "No test iterates while extracting, extracts from the middle or tail, or extracts by integer or by address.",
  [K,"src/queue.h"],[("doubly linked element list","src/kvtree.c: kvtree_elem_first/next/extract/extract_int/extract_by_addr"),("exactly-one check","src/kvtree.c: kvtree_get_val")],
  None,["sequence of elements returned by iteration","extracted element's key and subtree"])
p("C03","Merging yields the recursive union and copies everything",
  "Merging a source tree into a destination leaves the destination with exactly the recursive union of the keys of both, never losing or renaming a destination entry or replacing its subtree by another, and reports success. The source is left unchanged, and the destination shares nothing with it, so changing or freeing one afterwards does not affect the other.",
  ["inputs"],"every ordered pair of trees up to a node bound over a colliding alphabet (including entries without a subtree), merged into each other and into themselves",
  "The tests only exercise merge indirectly with one small tree per call.",
  [K],[("recursive merge","src/kvtree.c: kvtree_merge")],None,["contents of both trees after the call"])
p("C04","Formatted and key/value path helpers equal explicit nested lookups",
  "Setting or getting through a space-separated printf-like list of keys, or through the key/value and integer-value forms, has exactly the effect of walking the levels one at a time with the textual form of each argument: missing intermediate levels are created on set and never on get, existing levels (even empty ones) and siblings are kept, the last key's subtree is replaced by the one supplied, and the resulting subtree (or nothing) is returned. The textual form of each supported specifier is the one printf produces for the argument.",
  ["inputs","histories"],"every sequence of supported specifiers up to length 3 (4 in thorough) with boundary arguments on every small pre-existing tree",
  "The tests use the formatted form only through the scalar helpers; mixed specifiers, deeper paths, existing siblings and boundary integers are not covered.",
  [K],[("token loop and conversion","src/kvtree.c: kvtree_setf, kvtree_getf"),("int forms","src/kvtree.c: kvtree_set_kv_int, kvtree_get_kv_int, kvtree_unset_kv_int")],None,["tree after the call","returned subtree"])
p("C05","Sorting orders keys and only reorders; integer key list is complete and sorted",
  "After sorting, iteration yields the keys in the requested direction, in byte-wise string order or in numeric order over the whole int range, with exactly the same keys and subtrees as before. Listing integer keys returns every key converted to int, once each, in ascending numeric order with the right count, and an empty list for an empty tree.",
  ["inputs"],"every permutation of every key multiset up to a bound over string and integer boundary keys, both directions, repeated and combined",
  "No test calls the sort or list functions directly.",
  [K],[("comparators and relinking","src/kvtree.c: kvtree_sort, kvtree_sort_int, kvtree_list_int")],None,["iteration order","returned list"])
p("C06","Typed scalars round-trip and keep exactly one value",
  "A value stored with a typed setter is returned unchanged by the matching typed getter for every value of its type (int, 64-bit int, unsigned long, byte count, CRC, string, pointer, double), and after any sequence of stores the key holds exactly the last value. A getter for a missing tree, missing key or key without a value fails and leaves the caller's variable untouched.",
  ["inputs","histories"],"every ordered pair of stores over all setter types and boundary values (all powers of two and neighbours, extremes, special doubles, string classes) followed by every getter, on every small prior state of the key",
  "Each test stores the single value 17 once.",
  [U,K,H],[("unset then set","src/kvtree_util.c: kvtree_util_set_*"),("text conversion","src/kvtree_util.c: kvtree_util_get_*, src/kvtree_helpers.c: kvtree_atod")],None,["getter return code and output variable","number of values under the key"])
p("C07","Every block of memory is released exactly once",
  "Whatever sequence of operations is applied, deleting the trees the caller still owns releases everything the library allocated on their behalf: nothing leaks, nothing is freed twice, and nothing freed is touched again. Replaced, unset and cleared subtrees are released at once, an extracted subtree or element belongs to the caller and survives deletion of its former parent, and deleting sets the caller's handle to null.",
  ["histories","fault_sequences"],"every operation sequence up to a depth bound, and every success and failure path of the file, gather and exchange operations, with exact accounting of allocations",
  "The tests never count allocations and run without a memory checker.",
  [K,U,H,M,MI],[("ownership hand-over","src/kvtree.c: kvtree_delete, kvtree_elem_delete, kvtree_set, kvtree_extract"),("free helper","src/kvtree_helpers.c: kvtree_free")],None,["number of live allocations","address sanitizer"])
p("C08","Keys and values are copied; arguments may come from the tree itself",
  "The library copies every key and string value it is given: changing or freeing the caller's buffer afterwards never changes the tree. A key or string value obtained from a tree may be passed back to any operation on that tree, including operations that replace or remove the very entry it came from, with the same effect as passing a private copy.",
  ["histories","inputs"],"every mutating operation, for every small tree, with each string argument replaced by every string living in the tree, compared with the run on private copies",
  "All tests pass string literals.",
  [K,U],[("strdup of keys","src/kvtree.c: kvtree_elem_init"),("unset before set","src/kvtree_util.c")],None,["tree after the call compared with a run on private copies"])
p("C09","A null tree acts as an empty tree",
  "Every in-memory, packing, printing and transfer operation accepts a null tree handle and treats it as an empty tree: queries report nothing or zero, modifications do nothing and return null or the documented status, and merging or sending nothing is allowed. File operations given a null tree or null file name fail without creating or changing any file.",
  ["inputs"],"every public operation with every combination of null and non-null handles",
  "Only deletion and one reader call are tested with null.",
  [K,U,M],[("null checks","src/kvtree.c and src/kvtree_util.c entry checks")],None,["return values","absence of side effects"])
p("C10","Packing and unpacking preserve every tree and agree on the size",
  "For every tree, packing writes exactly the number of bytes announced by the size query, touches no other byte, and does not modify the tree; unpacking that buffer into an empty tree consumes exactly the same number of bytes, whatever follows it and whatever its alignment, and reproduces the same keys and nesting. An entry without a subtree unpacks as an entry with an empty one.",
  ["inputs"],"all ordered trees up to a node bound, all widths and depths and key lengths up to bounds, all single-byte keys, all alignments",
  "Tests only pack tiny ASCII trees through MPI.",
  [K,"src/kvtree_io.h"],[("recursive pack/unpack","src/kvtree.c: kvtree_pack_size, kvtree_pack, kvtree_unpack")],None,["bytes written","bytes consumed","tree equality"])
p("C11","Stored images follow the documented file format exactly",
  "Every image produced for storage (in memory, by the file writers and by the gather writers) is byte for byte the documented layout: big-endian magic, type, version, total size, flags, packed tree, and a CRC-32 over everything before it. Every well-formed image, produced by any other implementation of the format, with or without the checksum, is read back as the tree it encodes, and one whose magic, type or version differs is rejected.",
  ["inputs","configurations"],"all trees up to a bound encoded and decoded by an independent implementation; every value of each identifying header byte",
  "One sample file is read by one test; nothing checks the bytes written.",
  [K,H,"src/kvtree_byteswap.h","doc/rst/users/fileformat.rst"],[("header packing","src/kvtree.c: kvtree_write_persist, kvtree_read_fd"),("byte order","src/kvtree_helpers.c: kvtree_pack_uint*/kvtree_unpack_uint*")],None,["bytes of the image"])
p("C12","A file always yields the last tree written to it",
  "After any sequence of successful writes to a file, through the plain, locked or read-modify-write forms and whatever their relative sizes, the file holds exactly the image of the last tree written and nothing beyond it, and any of the readers returns exactly that tree. A reader merges the stored tree into the tree it is given, keeping what was there, and reading changes neither the file nor what a later reader gets.",
  ["histories","configurations"],"every sequence of writer and reader operations up to a depth bound over trees of different sizes, for each locking configuration",
  "Tests write one shape of tree; switching between writer forms, shrinking content and merging reads are not covered.",
  [K,IO],[("truncate on plain write and on read-modify-write","src/kvtree.c: kvtree_write_file, kvtree_write_close_unlock"),("merge on read","src/kvtree.c: kvtree_read_fd")],None,["tree returned by each reader"])
p("C13","A damaged file is never read as different data",
  "If a stored file is truncated at any point, or any bit, byte or short run of bytes of it is altered (other than a run that also switches off the recorded checksum flag, which makes a legal image without checksum), a reader either fails, leaving the caller's tree exactly as it was, or returns precisely the tree that was stored. It never crashes, terminates the program, hangs or returns other contents; a completely empty file reads as an empty tree.",
  ["inputs","crash_points"],"every truncation length, every single-bit and single-byte change, every short burst and every pair of bit flips (other than switching the checksum off) of the images of several trees, for each reader",
  "No test reads a damaged file.",
  [K],[("header checks and CRC","src/kvtree.c: kvtree_read_fd")],None,["reader status","destination tree"])
p("C14","Malformed file contents are handled safely",
  "Whatever bytes a file contains, including a well-formed header over an inconsistent size, count, missing terminator or nesting, with the checksum absent or correct, reading it stays within the file's contents and ends in success or failure. Contents that run past the recorded size are rejected with the caller's tree unchanged, and contents that are complete are read as the tree they encode.",
  ["inputs"],"every body up to a length bound over a small byte alphabet, with every class of recorded size, with and without a (correct) checksum",
  "No test reads malformed data.",
  [K],[("bounds on unpacking","src/kvtree.c: kvtree_read_fd, kvtree_unpack")],None,["address sanitizer","reader status","destination tree"])
p("C15","Under I/O faults success is truthful and interruptions are invisible",
  "When system calls transfer fewer bytes than asked or are interrupted, reads and writes still complete with the full and correct content. When calls fail, an operation reports success only if it really wrote or read the complete content, a written file then being exactly the image; otherwise it reports failure, a failed read leaves the caller's tree unchanged, and in every case no file descriptor stays open that the caller was not given.",
  ["fault_sequences"],"every placement of up to two faults (three in thorough) from a menu of short transfers, interruptions, transient and persistent errors over the system calls of each reader and writer",
  "No test injects a fault.",
  [K,IO],[("retry loops","src/kvtree_io.c: kvtree_read_attempt, kvtree_write_attempt, kvtree_open"),("status propagation","src/kvtree.c: kvtree_write_file, kvtree_write_with_lock, kvtree_write_close_unlock")],None,["status","file content","open descriptors"])
p("C16","After a crash a file holds old, new or detectably incomplete content",
  "If the process or machine stops at any point while a file (or a serial file set under a fresh prefix) is being written, a later read returns the previous tree, the new tree or an empty tree if the file is empty, or fails; it never returns a partial or mixed tree. Once a write has reported success its content has been flushed, so it survives a later crash.",
  ["crash_points","histories"],"every prefix of the recorded system-call log of each writer, and for each every subset of unflushed blocks lost, over fresh and existing files",
  "Tests cannot stop the program between two system calls.",
  [K,IO],[("flush before close","src/kvtree_io.c: kvtree_close"),("CRC over whole image","src/kvtree.c: kvtree_write_persist")],None,["result of reading the reconstructed file"])
p("C17","Locked reads and writes are atomic among cooperating processes",
  "When several processes read and write one file with the locking operations, every read returns exactly one completely written tree (or an empty one before the first write), consistent with some order of the operations that respects real time. No interleaving makes a reader fail, and every operation eventually finishes. A process that dies during such an operation blocks nobody, and later reads return the tree from before or after its operation or fail, never a mixture.",
  ["schedules","configurations"],"every interleaving at system-call granularity, with partial writes, of 2 and 3 processes doing 1-2 locked operations each on one file, for each locking configuration",
  "The existing test samples schedules with timing races and only checks that reads succeed, not what they return.",
  [K,IO],[("exclusive and shared file locks","src/kvtree_io.c: kvtree_file_lock_read_write, kvtree_file_unlock, kvtree_open_with_lock")],None,["tree returned by each locked read"])
p("C18","Locked read-modify-write never loses an update",
  "If every process updates a shared file by locking and reading it, changing the tree and writing it back with the matching write-and-unlock call, the final file contains every update, whatever the interleaving and whether updates grow or shrink the content. The lock is held from before the read until after the write, and locked readers running at the same time only ever see complete states.",
  ["schedules","configurations"],"every interleaving at system-call granularity of 2-3 processes doing 1-2 read-modify-write cycles, mixed with locked readers and writers, for each locking configuration",
  "No test uses the read-modify-write pair at all.",
  [K,IO],[("write lock across the pair","src/kvtree.c: kvtree_lock_open_read, kvtree_write_close_unlock")],None,["final file content","trees observed by readers"])
p("C19","Nothing proceeds without its lock, and failures release lock and file",
  "If the lock on a file cannot be obtained, the locking operations report failure without reading or writing that file or touching any other descriptor of the process, and hand no descriptor to the caller. On every other failure path they have released the lock and closed the file when they return, so that other processes are not blocked; a caller-held descriptor is marked closed by the write-and-unlock call.",
  ["fault_sequences"],"every placement of up to two faults in the system calls of each locking operation, including failure to lock, unlock, open, seek, truncate, flush and close",
  "No test makes a lock or any other call fail.",
  [IO,K],[("lock failure path","src/kvtree_io.c: kvtree_open_with_lock, kvtree_close_with_unlock")],None,["system calls issued after the failure","lock table and descriptors at return"])
p("C20","Point-to-point transfer delivers the sender's tree exactly",
  "A tree sent to a process, alone or in a combined send and receive, arrives as an equal, independent tree that replaces everything the receiver's tree held before; the sent tree is unchanged, and successive transfers between the same processes arrive in order. Combined send/receive completes for every pairing pattern, including rings, self-exchange and missing partners, even if the message layer buffers nothing, and neither disturbs nor is disturbed by messages the application itself has under way with other tags or on other communicators. A tree too large for one message either arrives all the same or ends the program; it never arrives cut.",
  ["schedules","inputs"],"every interleaving (up to a preemption bound) and message-layer mode (buffered or not, early or late data transfer) of 2-4 processes over all sendrecv partner patterns, on the world and on a permuted sub-communicator, over a set of tree shapes",
  "One small tree is sent between two ranks under the one schedule and buffering mode the MPI library happens to choose.",
  [M],[("size then payload messages","src/kvtree_mpi.c: kvtree_send, kvtree_recv, kvtree_sendrecv")],None,["received tree","unmatched messages","deadlock"])
p("C21","Broadcast gives every process the root's tree",
  "After a broadcast every process of the communicator holds a tree equal to the root's, replacing whatever it held before; the root's tree is unchanged. This holds for every root, communicator, tree (including empty ones) and order in which processes arrive, and a following operation is not disturbed. A tree too large for one message either arrives all the same or ends the program; it never arrives cut.",
  ["schedules","inputs","configurations"],"all roots of communicators of 1-5 processes, all tree shapes of a set, world and permuted sub-communicators, all interleavings up to a preemption bound",
  "One tree, one root, three processes.",
  [M],[("size then payload broadcast","src/kvtree_mpi.c: kvtree_bcast")],None,["tree on every process"])
p("C22","Global exchange delivers every message to its destination, once",
  "After a global exchange each process holds, for every process that sent to it (itself included), an entry named by the sender's rank containing exactly the tree that was sent, and nothing else, in whichever direction the exchange runs and for every number of processes. The outgoing trees are unchanged, messages queued for the same destination are combined, and the exchange always terminates.",
  ["inputs","configurations","schedules"],"all send patterns for up to 4 processes, all pairs of messages for larger counts including powers of two and neighbours, both directions and the automatic one, several payload shapes, message-layer modes and interleavings up to a preemption bound",
  "Three processes, one ring pattern, one payload.",
  [M],[("log-step store-and-forward routing","src/kvtree_mpi.c: kvtree_exchange_direction_hops"),("direction choice and early stop","src/kvtree_mpi.c: kvtree_exchange")],None,["received trees on every rank"])
p("C23","Gathered files scatter back the tree each process wrote",
  "If all processes write their trees with the gather operation and later read with the scatter operation under the same prefix and number of processes, every process gets back exactly its own tree merged into what it already held, and all report success. This holds for every distribution of data sizes, for however many part files and map levels the data needs, when the same prefix is rewritten, and on any communicator.",
  ["inputs","configurations","histories"],"all size assignments around the segment boundary for up to 5 processes, larger counts forcing several map levels (segment size reduced through the hook), real 1 MB segments for selected mixes, rewrites under the same prefix with a different partition",
  "Three processes with a few bytes: always one part file and one map level.",
  [MI,M],[("writer selection by segmented scan","src/kvtree_mpi_io.c: pick_writer"),("recursive map files","src/kvtree_mpi_io.c: kvtree_write_gather_map, kvtree_read_scatter_map")],None,["tree returned on every rank","status on every rank"],
  "KVTREE_VERIF lets the harness reduce the 1 MB segment size")
p("C24","A damaged or unsuitable file set is rejected by every process",
  "If any file of a gathered set is missing, truncated, empty, altered in a way its checksum reveals or replaced by a file of another kind, or the set was written by a different number of processes, then a scatter read under that prefix either returns exactly the right data or reports failure. Whatever a file of the set holds, every process gets the same status, none hangs, and no process's tree changes on failure. The same holds for the set left by a write that was interrupted at any point under a fresh prefix.",
  ["inputs","crash_points","configurations"],"for several sets (one file, several parts, several map levels): removal, every truncation length, every single-byte change of every file, every reader count different from the writer count, every file replaced by other valid files, every combination of complete, missing, empty and cut files, every prefix of the file operations of an interrupted write",
  "No test reads a damaged set with the parallel reader.",
  [MI,K],[("collective agreement","src/kvtree_mpi_io.c: kvtree_alltrue, kvtree_read_scatter_map"),("rank count check","src/kvtree_mpi_io.c: kvtree_read_scatter")],None,["status and tree on every rank"],
  "KVTREE_VERIF segment size")
p("C25","A gather or scatter that fails anywhere fails everywhere",
  "If any process cannot open, write, close or read one of the files during a gather write or scatter read, every process of the communicator reports failure from that call, and none hangs. If all report success, the complete set is on disk with each process's data (on write) or each process has its data (on read), even when individual system calls were short or interrupted.",
  ["fault_sequences","schedules"],"every placement of one fault (two in thorough) over all file system calls of all processes, for several process counts and part layouts",
  "No test injects faults into the parallel file operations.",
  [MI,IO],[("status reduction","src/kvtree_mpi_io.c: kvtree_write_gather, kvtree_read_scatter")],None,["status on every rank","files on disk"],
  "KVTREE_VERIF segment size")
p("C26","Serial gather files and the parallel file set are interchangeable",
  "A set written by one process with an entry per rank, in any insertion order and however it is split into part files, is read back completely and exactly by the serial reader and by the parallel scatter reader, and a set written by the parallel writer is read completely by the serial reader. The serial reader uses only the part files of the requested set, whatever other files and whatever characters in names are present, and fails when a part is missing, unreadable or short of ranks.",
  ["inputs","configurations","histories"],"all rank counts up to a bound, all insertion orders of small sets, all entries-per-file values, prefixes with special characters and neighbouring files, removal or damage of each file, both readers and both writers",
  "One set with one entry per file, a plain prefix and one removed file.",
  [K,MI],[("partitioning","src/kvtree.c: kvtree_write_to_gather"),("part discovery and rank count check","src/kvtree.c: kvtree_read_scatter_single")],None,["tree returned","status"])
p("C27","Printing shows every entry once at its depth",
  "Printing a tree writes one line per entry, in iteration order, indented by the given start plus two spaces per level, followed by the entries of its subtree; in key/value mode an entry whose only value has no further content is shown on one line as key = value. This holds for every tree, depth, indentation and key text, and printing does not change the tree. Logging a tree, at every level, writes the same lines as messages.",
  ["inputs"],"all ordered trees up to a node bound in both modes, several indentations and log levels, all depths up to a bound, keys with formatting characters and all byte values",
  "One file is printed and compared once.",
  [K],[("recursive print","src/kvtree.c: kvtree_print_mode, kvtree_elem_print")],None,["standard output"])
p("C28","The print utility shows the file or fails with a nonzero status",
  "The command-line utility prints exactly the tree stored in the named file in the requested mode and exits with status zero. For every wrong invocation (missing, extra or unknown arguments, invalid mode) and for every missing, unreadable or damaged file it exits with a nonzero status and prints no tree; when its output cannot be written it exits with a nonzero status; asking for help prints usage and succeeds.",
  ["inputs"],"every combination of argument words up to length 3 (4 in thorough) from an alphabet of options, modes and files (good, empty, damaged, missing, unreadable)",
  "One invocation on one file is tested.",
  [PR,K],[("option parsing and exit status","src/kvtree_print.c: main")],None,["standard output","exit status"])
p("C29","Running out of memory ends cleanly, never with a damaged tree",
  "If any single memory request made during an operation cannot be satisfied, the program is ended through the library's abort path, with a message and a nonzero exit status, or the operation reports failure with the tree unchanged. It never crashes by signal and never carries on with an entry or subtree missing or altered.",
  ["fault_sequences"],"failure of the k-th allocation for every k, for each operation on a set of trees, including file and transfer operations",
  "No test makes an allocation fail.",
  [H,K,E],[("checked allocation","src/kvtree_helpers.c: kvtree_malloc"),("abort","src/kvtree_err.c: kvtree_abort")],None,["exit status","message","tree"])
p("C30","New files get exactly the permissions the umask allows",
  "Every file the library creates is readable and writable for user, group and others except where the process's umask forbids it, never executable, and the umask of the process is the same after any operation as before. An existing file keeps its permissions when rewritten. The mode computed for a set of permissions asked for is exactly those permissions without the ones the umask forbids.",
  ["configurations","inputs"],"all 512 umask values for each operation that creates a file, serial and parallel, on new and existing files",
  "No test looks at file modes.",
  [IO,K,MI],[("mode from umask","src/kvtree_io.c: kvtree_getmode")],None,["file mode","process umask"])
p("C31","Threads working on different trees do not influence each other",
  "In-memory, packing, formatting and file operations keep no hidden shared state: two threads operating at the same time on different trees and different files, or only reading one common tree, each get exactly the results, output and files (contents and permissions) they would get alone, under every interleaving, and process-wide settings such as the umask are as before afterwards. Read-only operations never modify the tree they are given.",
  ["schedules"],"every pair of operations from a menu, every interleaving of two threads up to a preemption bound at every library call and shared-memory access, plus conflict detection on all instrumented memory accesses",
  "All tests are single threaded.",
  [K,U,H,IO],[("only local and per-tree state; re-entrant tokenizer","src/kvtree.c: kvtree_setf, kvtree_getf and all in-memory operations")],None,["results of both threads"])
p("C32","Images on a descriptor form a stream",
  "Writing a tree to an open descriptor puts exactly one image at the descriptor's position (or at the end, if opened for appending), returns its length and changes nothing in front of or behind it; reading takes exactly one image from the position, adds its tree, returns its length and leaves the position right behind it, so that trees written one after another are read back one by one and in any order by positioning. At the end of the stream reading returns 0, and where there is no whole image it fails; then the tree is unchanged. Earlier images stay readable whatever happens to later ones, a failed call can be repeated after going back, the descriptor stays open, and this also holds for descriptors that cannot be positioned (pipes and sockets) and deliver their bytes in any pieces.",
  ["histories","inputs","fault_sequences"],"every sequence of trees up to a length, every history of reads, writes and positionings on several descriptors up to a depth, every cut of a stream, every partition of the delivered bytes, every set of faults up to a bound",
  "The tests write and read only whole files by name; nothing is ever read or written behind something else.",
  [K,IO],[("one image per call, no positioning","src/kvtree.c: kvtree_write_fd, kvtree_read_fd"),("complete reads and writes","src/kvtree_io.c: kvtree_read_attempt, kvtree_write_attempt")],None,["return values","descriptor position","bytes of the file"])
p("C33","Packing helpers put integers in network order or change nothing",
  "Packing a 16, 32 or 64 bit integer at a position of a buffer stores exactly its bytes, most significant first, and advances the position by its width; unpacking returns the value stored that way and advances likewise. If the value does not lie wholly within the buffer, for any size and position, or an argument is missing, the call fails and buffer, position and value are unchanged. No byte outside of the value's place is ever read or written, at any alignment.",
  ["inputs","histories"],"every width x bit, byte and boundary values x buffer sizes and positions (also at the limits of the address range) x alignments; every sequence of values up to a length into a buffer of every capacity",
  "No test calls the helpers with a position near the end of the buffer or checks the byte order of what they store.",
  [H,"src/kvtree_byteswap.h"],[("bounds check and byte order","src/kvtree_helpers.c: kvtree_pack_uint16_t .. kvtree_unpack_uint64_t")],None,["bytes of the buffer","position","return value"])
p("C34","The debugger display shows each level of a tree and stays in its buffer",
  "In a build with the TotalView display, the functions the debugger looks for are present, and diving into a tree gives the debugger one row per entry, in iteration order: the key alone if nothing is below it, key and value if there is a single value without further content, and otherwise the key with the address of the subtree to dive into. Rows are complete or absent: a row is only missing if its text holds a tab or newline or does not fit into the rest of the display buffer, and then the call that adds it says so; the text is always terminated within the buffer, nothing is written behind it, every call returns, and the tree is unchanged. Rows are only taken while a display is announced, and each display starts empty.",
  ["inputs","histories"],"all trees up to a node bound dived into to the leaves, levels that end at every byte around the end of the buffer, keys of every byte and length, every sequence of calls of the display interface up to a length",
  "The display is not built for the tests, and needs a debugger to be seen.",
  [K,"src/tv_data_display.c"],[("row per entry","src/kvtree.c: TV_ttf_display_type"),("buffer","src/tv_data_display.c: TV_ttf_add_row")],None,["rows in the display buffer","result of the calls"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
open(out,"w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
