#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays well-formed)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     observe_at=observe, hook_needed=None)))

prop("C01", "Concurrent readers of one image see what each would see alone",
 "Any number of threads may read one mounted image at the same time, each through its own descriptors, streams and paths, and every call returns exactly what it would return if that thread were the only one. No interleaving of cache hits, misses and evictions may hand a thread another block's bytes, freed memory, an unexpected error or a crash.",
 ["schedules", "histories", "inputs"],
 "every interleaving of the threads at memory-access granularity, every mix of read/stat/list/lookup/readlink calls, every image layout (cache geometry is fixed and small, so evictions are constant)",
 "All tests are single-threaded; the per-image caches' locks are never contended and an unlocked use of a cached block cannot be observed.",
 ["src/cache.c", "src/fs.c", "src/file.c", "src/table.c", "src/dir.c", "include/squash/cache.h"],
 [("per-cache mutex around get/add", "src/fs.c sqfs_md_cache/sqfs_data_cache"), ("block-index mutex", "src/file.c sqfs_blockidx_blocklist"),
  ("no per-call global state", "src/dir.c, src/stat.c, src/readlink.c")],
 ["squash_read", "squash_stat", "squash_lstat", "squash_readlink", "squash_opendir/readdir", "squash_scandir"],
 [("fs->md_cache/data_cache/frag_cache", "round-robin block caches shared by all readers", "include/squash/fs.h"), ("fs->blockidx", "block-position index of large files", "include/squash/fs.h")])

prop("C02", "Virtual descriptors stay unique and unaliased under any interleaving",
 "While threads open and close files and directories concurrently, every descriptor returned by an open denotes exactly the object that was opened, for as long as it stays open, and is different from every other descriptor open at that moment. Opening, closing or growing the descriptor table in one thread never makes another thread's open descriptor fail, move, disappear or denote another object, and a number that is not open is always rejected as a bad descriptor.",
 ["schedules", "histories"],
 "every interleaving of open/close/read/seek/fstat/opendir/closedir over many threads, every order of descriptor reuse and table growth",
 "The tests open at most a few descriptors from one thread, so the table never moves under a reader and a number is never recycled while another thread closes it.",
 ["src/fd.c", "src/dirent.c", "src/stat.c", "include/squash.h", "include/squash/fdtable.h"],
 [("dup'ed OS descriptor as the number", "src/fd.c squash_open_inner"), ("global mutex around table updates", "src/fd.c"), ("entry reset on close", "src/fd.c squash_close")],
 ["squash_open", "squash_close", "squash_read", "squash_lseek", "squash_fstat", "squash_opendir", "squash_dirfd", "squash_find_entry"],
 [("squash_global_fdtable", "number -> open object, grown by realloc", "src/fd.c")])

prop("C03", "An open file is an independent cursor over the file's bytes",
 "Each open file has its own position starting at 0: a read returns the stored bytes from that position (the requested count, or all that is left before the end of the file; nothing only at the end) and advances it by exactly the count returned, and a seek sets it as documented without affecting any other descriptor. A failed read or seek leaves the position unchanged and the descriptor usable, an impossible target is refused, and every status query reports the file's true attributes.",
 ["histories", "fault_sequences", "schedules"],
 "all sequences of read/seek/fstat with any sizes and offsets over any number of descriptors of the same or different files, mixed with failing reads and with other threads' work on other descriptors",
 "The tests read one small fixture file mostly from start to end; boundary lengths, block and fragment edges, holes, position after a failed call, and interleaved cursors on one file are not sampled.",
 ["src/fd.c", "src/file.c", "src/stat.c", "src/private.c"],
 [("per-descriptor pos advanced after a successful read", "src/fd.c squash_read"), ("range clipping at end of file", "src/file.c sqfs_read_range"), ("whence handling", "src/fd.c squash_lseek")],
 ["squash_read", "squash_lseek", "squash_fstat"],
 [("squash_file.pos", "cursor", "include/squash/fdtable.h")])

prop("C04", "What is read does not depend on what was read before",
 "For any file, however many blocks, holes or tail fragments it has, and for any metadata (attributes, owners, device numbers, link targets, inode numbers), access returns exactly the stored value in any order of access and whatever is in the caches and block indexes at that time. Random access agrees with sequential access, and evicting, re-reading or indexing a file never changes its contents.",
 ["histories", "inputs", "schedules"],
 "all access histories over files of 0 to several thousand blocks, more indexed files than index slots, more metadata blocks than cache slots, all inode kinds, both compressed and stored blocks, fault-free and with transient read failures in between",
 "The fixture has a handful of one-block files and one metadata block: no cache ever evicts, no file is large enough to be indexed, and no table spans two blocks.",
 ["src/file.c", "src/fs.c", "src/table.c", "src/cache.c", "src/stat.c", "src/private.c", "src/nonstd-makedev.c", "src/nonstd-stat.c", "src/decompress.c"],
 [("block index", "src/file.c sqfs_blockidx_add/_blocklist"), ("round-robin eviction", "src/cache.c sqfs_cache_add"), ("metadata cursor across blocks", "src/fs.c sqfs_md_read"), ("inode decode", "src/fs.c sqfs_inode_get")],
 ["squash_read", "sqfs_read_range", "squash_stat", "squash_lstat", "squash_readlink", "sqfs_export_inode", "sqfs_id_get"],
 [("fs->blockidx", "8 indexed files at most", "include/squash/fs.h")])

prop("C05", "Directory streams list every entry exactly once, in order, and seek exactly",
 "Reading a directory stream to its end yields every entry of the directory exactly once, in stored order, with its true name, type and inode number; rewinding or seeking to a previously told location resumes exactly there, and streams do not disturb each other. A scan returns precisely the selected entries, sorted if asked, for a directory of any size including an empty one, and hands over memory the caller can free exactly as documented.",
 ["histories", "inputs", "schedules", "fault_sequences"],
 "all interleavings of read/tell/seek/rewind on any number of streams and threads, directories of 0 to several thousand entries with names of any legal length, with memory or block-read failures at any point of the enumeration",
 "Tests list three-entry directories once; growth of the entry buffer, multi-header and multi-block listings, seeking past growth, empty scans and failures in mid-listing are not reached.",
 ["src/dirent.c", "src/dir.c", "src/scandir.c", "include/squash/dirent.h"],
 [("entry buffer with loc/actual_nr", "src/dirent.c squash_readdir"), ("header/entry decoding", "src/dir.c sqfs_dir_next"), ("select/copy/sort", "src/scandir.c")],
 ["squash_opendir", "squash_readdir", "squash_telldir", "squash_seekdir", "squash_rewinddir", "squash_closedir", "squash_scandir", "sqfs_dir_open(offset)"],
 [("SQUASH_DIR", "open stream", "include/squash/dirent.h")])

prop("C06", "Path and symlink resolution finds exactly the named object and always terminates",
 "Resolving a path reaches exactly the object it names - through '.', '..', repeated slashes and any chain of relative or absolute symbolic links - or reports that it does not exist; following, non-following and open calls agree about the same path. Cyclic or over-long link chains are refused within a bounded number of steps and stack, for every thread, and a failed lookup under faults never turns into a wrong object.",
 ["inputs", "histories", "fault_sequences", "schedules"],
 "all paths over all trees (link chains and cycles of any shape, indexed directories, long names and targets), concurrently from several threads and with memory or block-read failures at any step",
 "Tests resolve five links of a fixture, one of them a two-link loop; cycles through directories, deep chains, '..' forms, indexed directories and failures during resolution are not reached.",
 ["src/dir.c", "src/readlink.c", "src/stat.c"],
 [("component walk", "src/dir.c sqfs_lookup_path_inner"), ("link following with a level bound", "src/dir.c squash_follow_link"), ("dot-dot rewriting", "src/dir.c clear_dot_dot"), ("directory index search", "src/dir.c sqfs_dir_lookup")],
 ["squash_stat", "squash_lstat", "squash_open", "squash_opendir", "squash_readlink", "sqfs_lookup_path"])

prop("C07", "Unreadable blocks are contained and never poison later reads",
 "If a stored block cannot be decoded - permanently, or only for a while - every call that needs it fails with an error instead of returning wrong bytes or crashing, and every call that does not need it works as usual. Once the block is readable again the same calls succeed with the right data; a failed attempt leaves nothing behind that changes a later result.",
 ["fault_sequences", "histories", "schedules"],
 "every choice of damaged data, fragment or metadata block, damage and repair at any moment, transient decode failure of the n-th block read of any call, any number of reading threads",
 "The fixture is never damaged and the decoder never fails, so no error path of the block layer is executed by any test.",
 ["src/fs.c", "src/cache.c", "src/file.c", "src/dir.c", "src/decompress.c", "src/dirent.c"],
 [("cache entry invalidation on failure", "src/fs.c sqfs_md_cache/sqfs_data_cache"), ("error propagation", "src/file.c, src/dir.c"), ("directory stream state on error", "src/dir.c sqfs_dir_next")],
 ["all calls on a mounted image"],
 [("cache slots", "an index marks a valid block", "include/squash/cache.h")])

prop("C08", "Running out of memory fails the call cleanly, and only that call",
 "If any allocation made by a call fails, the call either still succeeds with the correct result or reports failure through its documented error value; it never crashes, corrupts state, returns wrong data or blocks another thread. Afterwards every object that was open is still usable and unchanged, and the same call repeated with memory available succeeds.",
 ["fault_sequences", "histories", "schedules"],
 "failure of the n-th allocation (single or lasting) inside any call, in any history and any interleaving with other threads",
 "No test makes an allocation fail.",
 ["src/fd.c", "src/dirent.c", "src/scandir.c", "src/extract.c", "src/cache.c", "src/fs.c", "src/file.c", "src/stack.c", "src/hash.c", "src/traverse.c", "src/dir.c"],
 [("error returns on NULL", "all allocation sites"), ("table growth", "src/fd.c squash_open_inner"), ("cache init roll-back", "src/cache.c sqfs_cache_init")],
 ["every public call"])

prop("C09", "Every call gives back what it took",
 "A call that fails leaves no OS descriptor, memory, lock or temporary file behind, and closing what a successful call returned releases everything that call took. However many times any mix of successful and failing calls is repeated, the process's resources return to the starting level once everything has been closed and unmounted.",
 ["histories", "fault_sequences", "schedules"],
 "all histories of successful and failing opens, listings, scans, traversals, extractions and mounts, failures being of every injected kind, any interleaving",
 "Tests never look at the descriptor table, the heap or the temporary directory, and hardly ever take an error path.",
 ["src/fd.c", "src/dirent.c", "src/scandir.c", "src/extract.c", "src/traverse.c", "src/cache.c", "src/fs.c"],
 [("failure paths", "src/fd.c, src/dirent.c, src/extract.c"), ("squash_close", "src/fd.c"), ("squash_closedir", "src/dirent.c"), ("sqfs_destroy", "src/fs.c"), ("exit handler", "src/fd.c squash_halt")],
 ["OS descriptor table", "heap", "temporary directory"])

prop("C10", "Descriptor pressure is reported and application descriptors are never touched",
 "When the process has no free descriptor, or standard input is closed, opening fails with the operating system's error and succeeds again once descriptors are available. The library only ever closes descriptors it obtained itself: descriptors of the application keep working whatever virtual operations are attempted on them, and such attempts are refused as bad descriptors. An error that the system reports for closing a descriptor is passed on, and the descriptor is gone all the same.",
 ["histories", "fault_sequences", "schedules", "configurations"],
 "any mix of application and library descriptors, any descriptor limit, duplicate or close failing at any call, operations on numbers that are negative, huge, closed or owned by the application, any interleaving",
 "Tests run with the three standard descriptors and a generous limit.",
 ["src/fd.c", "src/dirent.c", "include/squash.h"],
 [("dup(0) per open", "src/fd.c squash_open_inner"), ("validity test", "include/squash.h SQUASH_VALID_VFD"), ("close", "src/fd.c squash_close")],
 ["squash_open", "squash_close", "squash_read", "squash_lseek", "squash_fstat", "OS descriptor table"])

prop("C11", "An extracted file is complete, or the extraction fails",
 "When an extraction reports success, the temporary file it names holds exactly the bytes of the file in the image, with nothing missing, added or still unwritten. If anything goes wrong on the way - full disk, I/O error, short write, failing close, undecodable block, missing memory or descriptors - it reports failure and leaves no partial file, and a retry succeeds once the cause is gone.",
 ["fault_sequences", "inputs", "histories", "schedules"],
 "every file size and layout, a fault of any kind at any system call of the extraction, any number of threads extracting",
 "The one extraction test writes one small file to a working disk.",
 ["src/extract.c"],
 [("copy loop", "src/extract.c squash_uncached_extract"), ("stdio error checks", "src/extract.c")],
 ["squash_extract", "temporary directory contents"])

prop("C12", "Extraction results belong to their image and path, and are cleaned up",
 "Extracting the same path of the same image again returns the same temporary file, and different paths or images never share one, whatever the caller does with its path buffers in between and from however many threads. Clearing the cache or leaving the process normally removes every temporary file the library made and no other file, and extraction afterwards starts afresh.",
 ["histories", "schedules"],
 "all histories of extract/clear/unmount/exit over several images and paths with reused path buffers, any interleaving of threads",
 "Tests extract one path once.",
 ["src/extract.c", "src/fd.c"],
 [("extraction cache list", "src/extract.c"), ("exit handler", "src/fd.c squash_halt")],
 ["squash_extract", "squash_extract_clear_cache", "process exit"],
 [("squash_extract_cache", "(image, path) -> temporary file", "src/extract.c")])

prop("C13", "Temporary names are fresh, and extraction always makes progress",
 "No extraction ever writes into, truncates or returns a file that existed before or belongs to another extraction - of this thread, another thread, another process or a crashed earlier run - whatever the clock, process numbers and random generator do. Distinct extractions keep succeeding with distinct files even when they happen within the same clock second or with left-over files in the directory.",
 ["schedules", "crash_points", "histories", "configurations"],
 "any number of extractions per clock second, clock stalls and jumps, repeated process ids after a crash at any instant, left-over and foreign files under candidate names, any interleaving of threads",
 "Tests extract once per process in an empty directory.",
 ["src/extract.c"],
 [("name generation", "src/extract.c squash_tmpf"), ("file creation", "src/extract.c squash_uncached_extract")],
 ["temporary directory contents", "squash_extract", "squash_tmpf"])

prop("C14", "No schedule deadlocks and no call leaves a lock held",
 "Every call returns within a bounded number of steps once the other threads are allowed to run, in every interleaving and after any failure. No call, successful or failing, returns while it still holds a lock or uses a lock it did not initialise, and no failure in one thread prevents another thread's calls from completing.",
 ["schedules", "fault_sequences"],
 "every interleaving of every pair of public calls, with allocation, descriptor, decode and disk failures at any step",
 "Tests are single-threaded and never fail inside a locked region.",
 ["src/fd.c", "src/fs.c", "src/file.c", "src/mutex.c", "src/cache.c", "src/dirent.c", "src/extract.c"],
 [("MUTEX_LOCK/UNLOCK pairs", "src/fd.c, src/fs.c, src/file.c"), ("lock order", "block index before metadata cache")],
 ["every public call"])

prop("C15", "Mounting accepts exactly supported images, and mounts are independent",
 "Mounting succeeds for every supported image at any offset in memory and reports a bad format, version or compression with its own error code instead of crashing or half-mounting, also when memory runs out. Several images mounted, unmounted and remounted in any order never affect each other's results, and unmounting releases everything the mount took.",
 ["configurations", "histories", "fault_sequences", "schedules"],
 "all supported super-block variants (block sizes, table presence, compression flags, versions, offsets) and unsupported ones, any order of mounts and unmounts over several images, allocation failure at any step, other threads reading other images meanwhile",
 "Tests mount two fixtures at offset 0 and never fail to mount or unmount while something else is in use.",
 ["src/fs.c", "src/util.c", "src/decompress.c", "src/cache.c", "src/table.c"],
 [("super-block checks", "src/fs.c sqfs_init"), ("roll-back", "src/fs.c sqfs_destroy"), ("decoder selection", "src/decompress.c")],
 ["sqfs_open_image", "sqfs_init", "sqfs_destroy"])

prop("C16", "A traversal visits every descendant exactly once, with correct paths",
 "Walking a subtree reports every descendant exactly once in stored order with its correct path and kind, marks the end of every directory it entered, and skips exactly the subtrees that were pruned. It can be closed at any point, several walks never disturb each other, and a walk that cannot continue reports an error instead of ending silently, looping or crashing.",
 ["histories", "fault_sequences", "inputs", "schedules"],
 "all trees (deep, wide, empty directories), pruning and closing at any step, memory or block-read failure at any step, several walks at once",
 "No existing test traverses at all.",
 ["src/traverse.c", "src/stack.c", "src/dir.c"],
 [("state machine", "src/traverse.c sqfs_traverse_next"), ("path buffer", "src/traverse.c"), ("level stack", "src/stack.c")],
 ["sqfs_traverse_open", "sqfs_traverse_next", "sqfs_traverse_prune", "sqfs_traverse_close"])

prop("C17", "Interception serves in-image paths from the image and passes the rest through",
 "With file calls redirected as in the sample, a path below the enclosed prefix, a path relative to the enclosed working directory, or a descriptor or stream opened through one gives the same results as the image itself (or as the object created in the shadow directory, where there is one), and a change to a relative directory is relative to the enclosed working directory; everything else reaches the operating system once, with unchanged arguments and results. Positional and vectored reads return the right bytes and leave the position as the standard says, also when a read fails half-way.",
 ["histories", "fault_sequences", "schedules"],
 "all histories of redirected calls over virtual and real paths and descriptors, changes of working directory, failing reads and allocations, several threads on their own descriptors",
 "The sample's self check makes one directory and changes into it.",
 ["sample/enclose_io_unix.c", "sample/enclose_io_common.h", "src/fd.c"],
 [("path prefix test and cwd expansion", "sample/enclose_io_common.h"), ("descriptor and stream dispatch", "sample/enclose_io_unix.c"), ("position save/restore", "sample/enclose_io_unix.c enclose_io_pread")],
 ["redirected open/read/lseek/pread/readv/stat/opendir/... calls", "calls reaching the OS"])

prop("C18", "The shadow directory is created once and removed alone",
 "The first directory or file created below the enclosed prefix sets up one private directory, shared by all threads; the set-up either succeeds completely or fails cleanly, so that a later attempt can succeed, nothing is left behind and no other thread is blocked. What is created appears at its enclosed path from then on, never outside the private directory, and nothing that the image has can be hidden by a refused call; normal exit removes exactly that directory tree and nothing else.",
 ["schedules", "fault_sequences", "histories"],
 "all interleavings of threads making directories and files in the enclosed tree, failure of any step of the set-up (name, directory, memory, exit registration), process exit afterwards",
 "The self check makes two directories from one thread with every call succeeding.",
 ["sample/enclose_io_unix.c", "src/extract.c"],
 [("double-checked creation under the global mutex", "sample/enclose_io_unix.c enclose_io_mkdir_workdir"), ("removal at exit", "sample/enclose_io_unix.c mkdir_workdir_halt")],
 ["redirected mkdir/open(O_CREAT)/stat calls", "temporary directory contents after exit"])

prop("C19", "Only the caller's buffer is written, and never more than was asked for",
 "A call writes only inside the buffers it was given, never past the stated size whatever happens, a read changes no byte beyond the count it reports, and a call reads only the mounted image, its arguments and memory it owns. Objects it has handed out stay valid until the documented moment of release, in every interleaving and after every fault.",
 ["inputs", "histories", "fault_sequences", "schedules"],
 "all buffer sizes including zero and exact fits for reads, link targets and names, all histories and interleavings, failures at any step",
 "Tests use generously sized buffers and no memory checker.",
 ["src/fd.c", "src/file.c", "src/readlink.c", "src/dirent.c", "src/dir.c", "src/fs.c", "src/extract.c"],
 [("length clipping", "src/file.c sqfs_read_range, src/readlink.c"), ("ownership rules", "src/cache.c, src/dirent.c, src/fd.c")],
 ["caller buffers with guard bytes", "heap shadow"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
