import json
P=[]
def p(id,title,st,over,q,why,files,mech,state=None,obs=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],state=[dict(name=a,meaning=m,where=w) for a,m,w in (state or [])],observe_at=obs or [],hook_needed=None)))
p("C01","Every call returns with all its locks released and can never deadlock",
 "Whatever the outcome of a library call (success, not found, out of memory, corrupt data), it returns with every lock it took released exactly once. No call acquires a lock it already holds or releases one it does not hold, and locks are always nested in one global order, so no set of concurrent calls can deadlock.",
 ["schedules","fault_sequences","inputs"],"every public call, every exit path of it, every interleaving with other calls",
 "The tests are single threaded and reach almost no failure exit; a lock leaked on an out-of-memory or corrupt-data exit only hangs the next caller.",
 ["src/fd.c","src/dirent.c","src/fs.c","src/file.c","src/mutex.c"],[("lock/unlock pairs around the handle table, the block caches and the block index","src/fd.c, src/dirent.c, src/fs.c, src/file.c")],
 [("handle-table mutex","serialises the table of open handles","src/fd.c"),("per-cache mutexes","serialise each cache","include/squash/cache.h")])
p("C02","Process-wide mutable state is only touched while its lock is held",
 "All mutable state shared by the whole process - the table of open handles (its storage, its extent and its slots), the record of extracted files and the remembered temporary directory - is read or modified only while the lock that protects it is held, so concurrent opens, reads, closes and extractions never see it half-updated. The only exceptions are the one-time start-up and the process-exit hook.",
 ["schedules"],"every access on every path of every public call",
 "No test uses threads; an unlocked access misbehaves only under a rare interleaving (for instance a table reallocation during a read).",
 ["src/fd.c","src/dirent.c","src/stat.c","src/extract.c","include/squash.h"],[("global mutex taken around each access","src/fd.c, src/dirent.c, src/extract.c")],
 [("open-handle table","vfd -> open file","src/fd.c"),("extraction record","path -> temp file","src/extract.c")])
p("C03","Each image cache is only touched while that cache's own lock is held",
 "The bookkeeping of every per-image cache (which block occupies which slot, and the next slot to evict) is looked up and changed only while that same cache's lock is held, from the lookup through the fill of a newly claimed slot. Data handed out from a cache slot stays valid until its user has finished copying from it.",
 ["schedules"],"every cache access on every path, every interleaving of readers of one image",
 "Tests are single threaded, so a lookup/fill race or an eviction under a reader never happens in them.",
 ["src/cache.c","src/fs.c","src/file.c","src/table.c"],[("cache mutex around get/add/fill","src/fs.c md_cache/data_cache, src/file.c blockidx_blocklist")],
 [("cache slots","key, payload and eviction cursor","include/squash/cache.h")])
p("C04","Descriptors and handles are balanced: none leaked, none closed twice",
 "A successful open consumes exactly one operating-system descriptor and one handle, and the matching close gives both back. A call that fails, and extraction whatever its outcome, leaves no descriptor, stream or handle open that was not open before it, and never closes one it did not open.",
 ["inputs","fault_sequences","histories"],"every public call, every exit path, every open/close history",
 "Tests open a handful of files and never look at what a failing open, opendir or extraction leaves behind.",
 ["src/fd.c","src/dirent.c","src/extract.c","src/scandir.c"],[("dup/close pairing and table slot update","src/fd.c"),("close of the handle and of the output stream on every exit","src/extract.c")])
p("C05","No call leaks heap memory; teardown frees everything the object owns",
 "Every block of memory a call allocates is, when the call returns, either freed or owned by the result or object it hands over; a failing call leaves none behind. Closing a handle or directory stream, ending a traversal and destroying an opened image free everything those objects own.",
 ["inputs","fault_sequences","histories"],"every public call, every exit path, and every construct/destroy pair",
 "Tests never measure allocations and do not reach the failure exits.",
 ["src/fd.c","src/dirent.c","src/dir.c","src/fs.c","src/cache.c","src/file.c","src/stack.c","src/traverse.c","src/scandir.c","src/extract.c","src/hash.c"],[("free on failure labels and in close/destroy functions","throughout src/")])
p("C06","No memory is used after it is freed, freed twice, or freed if never allocated",
 "No call reads, writes or frees memory that has already been freed, returns a pointer to freed memory as a live result, or frees memory that was not dynamically allocated. Objects stay safe to close or destroy after any failed construction, and an already closed handle is rejected instead of touched.",
 ["inputs","fault_sequences","histories"],"every public call, every path, including failure of any constructor followed by its destructor",
 "Failure-then-destroy sequences and double closes are not exercised by the tests.",
 ["src/fd.c","src/dirent.c","src/cache.c","src/fs.c","src/stack.c","src/scandir.c"],[("ownership transfer of the handle payload","src/fd.c, src/dirent.c"),("cache/table/stack destructors","src/cache.c, src/stack.c")])
p("C07","Running out of memory or descriptors never crashes, it only fails the call",
 "If any allocation, string duplication, stream or descriptor creation fails inside a call, its null or negative result is never dereferenced or used; the call reports failure. State that existed before the call, such as the open-handle table or already read directory entries, stays valid and usable.",
 ["fault_sequences"],"every allocation or resource acquisition site failing, on every path",
 "Tests never inject allocation failure.",
 ["src/fd.c","src/dirent.c","src/dir.c","src/fs.c","src/cache.c","src/stack.c","src/scandir.c","src/extract.c","src/traverse.c","src/file.c"],[("null checks after allocations","throughout src/")])
p("C08","A failure to load or decode image data is always reported, never a success",
 "If a block of the image cannot be decompressed or loaded, or memory for it cannot be obtained, at any depth below a public call, that call reports failure; it never reports success, end of directory, or `not found' in its place, and it does not hand out a result built from the data it failed to load.",
 ["inputs","fault_sequences"],"every lower-level failure point below every public call",
 "The fixture image is well formed, so no load ever fails in the tests.",
 ["src/fs.c","src/table.c","src/dir.c","src/file.c","src/traverse.c","src/decompress.c","src/stat.c","src/readlink.c"],[("error code propagation through every layer","src/fs.c ... src/fd.c")])
p("C09","Every failing call leaves errno set by that call to a real reason",
 "When a file-style call (open, opendir, close, closedir, read, seek, stat, lstat, fstat, readlink, scandir, extract) reports failure, errno is non-zero and was set during that call, never left over from an earlier one. Invalid handles give EBADF and paths that do not exist give ENOENT.",
 ["inputs","fault_sequences","histories"],"every failure exit of every file-style call, every errno value before the call",
 "Tests check errno on a few failures, always starting from errno 0.",
 ["src/fd.c","src/dirent.c","src/stat.c","src/readlink.c","src/scandir.c","src/extract.c","src/dir.c"],[("errno assignments at failure labels","src/*.c")])
p("C10","The caller's image bytes are never written, reallocated or freed",
 "The image memory the caller supplies, which may be read-only or shared, is only ever read: nothing in the library writes into it, passes it to something that writes into it, frees it or reallocates it. Only block data the library itself allocated is freed with the block.",
 ["inputs","histories"],"every store, copy, decompression target and free on every path",
 "Tests compare a few contents; a write into or free of image memory on a rare path (uncompressed block, eviction) is not observed.",
 ["src/fs.c","src/table.c","src/cache.c","src/decompress.c"],[("blocks record whether their data was allocated","src/fs.c")])
p("C11","Only extraction touches the host's files; everything else stays in memory",
 "No call other than extraction (and the exit-time removal of what was extracted) opens, creates, inspects, changes, or removes a file or directory of the host, starts a process, or uses the network. Reads, listings, stats and lookups are served from the image memory alone.",
 ["inputs","programs"],"every call graph path from every public call except extraction",
 "A test cannot show the absence of a host access on paths it does not run.",
 ["src/*.c"],[("only the extraction module uses host file calls","src/extract.c")])
p("C12","Every on-disk record field is decoded from its place in the SquashFS 4.0 layout",
 "For each of the fourteen inode kinds, directory headers and entries, fragment entries, block and metadata headers and device numbers, every decoded value equals the field that the SquashFS 4.0 layout puts at that place, at full width and with its signedness. Locations built from them are relative to the right table start.",
 ["inputs"],"all records of all kinds, all field values",
 "The fixture image contains few kinds and only small values; extended kinds, devices, sockets and large sizes never occur.",
 ["src/fs.c","src/dir.c","src/file.c","include/squash/squashfs_fs.h"],[("inode, directory, header decoders","src/fs.c, src/dir.c, src/file.c")])
p("C13","An object's kind is reported consistently by stat, readdir and traversal",
 "Each of the fourteen recorded kinds maps to its one POSIX file type (basic and extended forms alike), and the mode and the directory-entry type report that same type. Unknown kinds are reported as unknown or as an error, never as some known type.",
 ["inputs"],"all recorded kind values",
 "Fixtures contain only directories, regular files and symlinks.",
 ["src/nonstd-stat.c","src/dirent.c","src/dir.c","src/fs.c"],[("kind to mode table","src/nonstd-stat.c"),("kind to d_type table","src/dirent.c")])
p("C14","Type-specific inode data is used only for objects of that type",
 "File size and block locations, link-target length, device numbers and directory locations are consulted only for an object whose type is, respectively, regular file, symbolic link, device and directory. Using an operation on an object of the wrong type fails instead of interpreting another type's data.",
 ["inputs"],"every operation on every type of object",
 "Tests apply each operation only to the type it is meant for.",
 ["src/file.c","src/dir.c","src/readlink.c","src/private.c","src/fd.c","src/extract.c"],[("type tests before type-specific access","src/file.c, src/dir.c, src/fs.c")])
p("C15","No image content or argument can make a call write outside its buffers",
 "Whatever lengths the image records or the caller passes, a call never writes past the end of its own fixed-size or allocated buffers, of the name, path and entry buffers it returns, or past the size the caller stated for the caller's buffer.",
 ["inputs"],"all recorded lengths, all argument sizes, every write",
 "Tests use a well-formed image with short names and adequately sized buffers.",
 ["src/dir.c","src/dirent.c","src/readlink.c","src/fs.c","src/file.c","src/traverse.c","src/scandir.c"],[("length checks before copies","src/dir.c, src/dirent.c, src/readlink.c, src/fs.c")])
p("C16","Symbolic link resolution always terminates, with ELOOP for loops",
 "Resolving any path in any image follows at most a fixed number of symbolic links and uses a bounded amount of stack; when the bound is exceeded the call fails with ELOOP. Links that point at themselves, at each other, or through themselves cannot hang or crash a call.",
 ["inputs"],"all images, in particular every cyclic arrangement of links",
 "The fixture has one two-link cycle at most; links that pass through themselves are not covered.",
 ["src/dir.c"],[("link level limit","src/dir.c follow_link")])
p("C17","An image is accepted only after magic, version and compression are verified",
 "Opening an image succeeds only if its magic number, its version (4.0) and its compression method (zlib) are the supported ones, and each unsupported one is reported with its own distinct error. Nothing else recorded in the image is trusted before those checks pass, and a refused image leaves nothing behind.",
 ["inputs"],"all image headers",
 "Tests open one good image.",
 ["src/fs.c","src/decompress.c","src/util.c"],[("superblock checks","src/fs.c sqfs_init")])
p("C18","The caller's path strings and buffers are not retained after the call",
 "After a call returns, the library keeps no reference to the path, name or extension strings or to the data buffers the caller passed in; whatever it needs later it has copied. The caller may free or reuse them at once without affecting later calls.",
 ["histories"],"every public call, every later history",
 "Tests pass string literals, which stay alive for ever.",
 ["src/fd.c","src/dirent.c","src/extract.c"],[("string duplication on retention","src/fd.c, src/dirent.c, src/extract.c")])
p("C19","Stat results equal the object's recorded attributes, by path and by handle",
 "The size, mode, link count, times and device number reported by stat, lstat and fstat are exactly those recorded for the object, at full width; attributes that do not apply are zero. The handle form reports the same result the path form computed for that object, and a failing call never reports success with an unfilled result.",
 ["inputs"],"all objects, all attribute values, all three calls",
 "Tests check a few fields of a few small files.",
 ["src/private.c","src/stat.c","src/fd.c"],[("attribute copy","src/private.c")])
p("C20","File positions move exactly as documented",
 "A new handle starts at position zero; a successful read starts at the current position and advances it by exactly the count it returns, and a failing read leaves it alone. A successful seek sets the position to the requested one and returns it, a failing or unknown seek fails without moving it, and no other call moves it.",
 ["inputs","histories"],"all handles, counts, offsets and histories of reads and seeks",
 "Tests read one small file with a few fixed offsets.",
 ["src/fd.c","src/file.c"],[("position update","src/fd.c read/lseek")])
p("C21","Directory stream positions behave as documented",
 "A new stream is at position zero; each entry returned advances the position by one, while end of directory and errors leave it alone. Telling the position returns it, seeking sets it and rewinding sets it to zero, and re-reading a position yields the entry recorded for it the first time.",
 ["inputs","histories"],"all directories and histories of readdir, telldir, seekdir and rewinddir",
 "Tests run one short forward listing with a few seeks.",
 ["src/dirent.c"],[("location counter and entry cache","src/dirent.c")])
p("C22","A cache never serves a block other than the one asked for",
 "A cache hit returns the content recorded under exactly the requested key, a slot that holds nothing never matches any key, and an evicted slot releases its old content exactly once before reuse. When a load fails the cache keeps no trace of it: the same request later retries, and nothing half-built is ever served or released.",
 ["inputs","fault_sequences","histories"],"all keys, all eviction histories, every load failure",
 "Fixtures are small and well formed: loads never fail and few evictions happen.",
 ["src/cache.c","src/fs.c","src/file.c"],[("key array beside payload array","src/cache.c"),("fill after claim","src/fs.c, src/file.c")])
p("C23","Extraction yields a complete temporary file or fails and leaves none",
 "Extraction returns a path only after the whole file content was written to that temporary file and it was closed without error; otherwise it returns nothing and removes what it had created. Results are remembered per image and path, so repeating a request returns the same file and a different image or path never does, and every remembered file is removed at exit.",
 ["inputs","fault_sequences","histories"],"every failure point of extraction, every history of requests",
 "Tests extract two files successfully; write, close and space failures are not exercised.",
 ["src/extract.c"],[("extract loop and record","src/extract.c")])
p("C24","scandir returns every selected entry in memory the caller can free",
 "A successful scan returns a count and an array holding exactly that many entries, one for every directory entry the filter selects and none it rejects, with the array and each entry separately allocated and freeable (also when the count is zero). On failure it returns -1 and leaves nothing allocated.",
 ["inputs","fault_sequences"],"all directories (any size), filters, and allocation failures",
 "Tests scan one small directory.",
 ["src/scandir.c"],[("collection loop","src/scandir.c")])
p("C25","The sample routes virtual paths and handles to the image, others to the OS",
 "In the sample wrappers, a call on a path inside the virtual prefix (or relative to a virtual working directory) or on a virtual handle is served by the library, and any other path or handle reaches the matching operating-system call with the caller's arguments unchanged and its result returned unchanged.",
 ["inputs","programs"],"every wrapper, every path and handle",
 "The sample has no tests at all.",
 ["sample/enclose_io_unix.c"],[("path and handle tests at the head of each wrapper","sample/enclose_io_unix.c")])
p("C26","Invalid handles are rejected with EBADF before anything is touched",
 "Passing any number that is not a currently open virtual handle - negative, out of range, never opened, or already closed - to close, read, seek or fstat fails with EBADF and has no other effect. In particular it never touches an operating-system descriptor or memory outside the handle table.",
 ["inputs","histories"],"all integers as handles, all histories of opens and closes",
 "Tests try one or two invalid handles.",
 ["src/fd.c","src/stat.c","include/squash.h"],[("handle validity test","include/squash.h, src/fd.c")])
p("C27","Reads return exactly the recorded file content for every range",
 "For every file and every offset and length, the bytes returned are exactly the file's recorded bytes at that range, including holes, fragments and uncompressed blocks, and the count is the smaller of the request and what remains.",
 ["inputs"],"all files, offsets and lengths","Tests read a few ranges of small files.",
 ["src/file.c"],[("block list walk","src/file.c")])
p("C28","Path lookup finds an entry if and only if the directory contains it",
 "For every directory, including large indexed ones, looking up a name succeeds exactly when an entry of that name exists, and yields that entry's object.",
 ["inputs"],"all directories and names","Tests look up a handful of names in small directories without an index.",
 ["src/dir.c"],[("sorted scan with index","src/dir.c")])
p("C29","A malformed image can never make the library read outside the image",
 "Whatever offsets and sizes the image records, the library never reads memory outside the supplied image and its own buffers.",
 ["inputs"],"all images","Tests use well-formed images.",
 ["src/fs.c","src/table.c","src/file.c"],[("none: the image length is not an input of the API","src/fs.c")])
p("C30","Concurrent operations on handles are linearizable",
 "Any concurrent history of opens, reads, seeks and closes has the same results as some sequential order of them.",
 ["schedules","histories"],"all schedules","Tests are single threaded.",
 ["src/fd.c"],[("handle table lock","src/fd.c")])
p("C31","The block index gives the same blocks as a full scan of the block list",
 "For every large file and offset, starting from the block index yields the same block sequence as walking the block list from the beginning.",
 ["inputs"],"all large files and offsets","No fixture is large enough to build a block index.",
 ["src/file.c"],[("block index","src/file.c")])
p("C32","Traversal visits every object below the start exactly once",
 "A full traversal reports every entry below its starting directory exactly once, in order, with its correct path, and reports the end of each directory.",
 ["inputs"],"all directory trees","Tests traverse one small tree.",
 ["src/traverse.c"],[("traversal state machine","src/traverse.c")])
p("C33","Paths and links name what their components say",
 "A path names the object found by looking up, from the root, each of its components in turn, where empty components and dots do not count and a dot-dot undoes the component before it; a link in the middle of a path is followed under its own name, one at the end only by the calls that follow links; a link leads, from the root, to its absolute text or to its text taken in the directory that holds it, also when it leads to a further link; and reading a link yields its recorded text and length (a leading root alias replaced by the root), or fails when the buffer is too small. A path is found exactly when all its components are, and an error below is reported as an error.",
 ["inputs"],"all paths, link texts and outcomes of the steps below","Tests use a few well-formed paths and links.",
 ["src/dir.c","src/readlink.c"],[("clear_dot_dot, sqfs_lookup_path_depth, squash_follow_link_depth","src/dir.c"),("squash_readlink_inode","src/readlink.c")])
p("C34","The handle table holds exactly the open handles",
 "At any time the numbers that name virtual handles are exactly those returned by successful opens and not yet closed, and each keeps naming the same handle for as long as it is open. Opening or closing one handle, or failing to, never loses, changes or closes another - when the table grows, when numbers are used again, and in whatever order handles and directory streams are closed. An open handle is found by its address and nothing else is; closing an open handle succeeds.",
 ["histories","inputs"],"all sequences of opens and closes, all numbers the system may hand out","Tests open a few handles one after another.",
 ["src/fd.c","src/dirent.c"],[("squash_open_inner, squash_close, squash_find_entry, squash_vfd_file","src/fd.c"),("squash_opendir_inner, squash_closedir","src/dirent.c")])
p("C35","The hash table and the stack hold exactly what was put into them",
 "After any sequence of additions and removals the hash table finds each key that was added and not removed since, with the value stored for it, and no other key; the stack gives, by position and at its top, the items pushed and not popped since, in order. Their sizes say how many there are, also after they have grown and when keys fall into one bucket. A step that fails for want of memory leaves the contents alone, popping or destroying releases each item once, the last first, and destroying leaves nothing allocated.",
 ["histories","inputs","fault_sequences"],"all sequences of additions and removals, all keys, every allocation failing","Tests put few items into each.",
 ["src/hash.c","src/stack.c"],[("sqfs_hash_add, sqfs_hash_get, sqfs_hash_remove, sqfs_hash_double","src/hash.c"),("sqfs_stack_push, sqfs_stack_pop, sqfs_stack_at","src/stack.c")])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
