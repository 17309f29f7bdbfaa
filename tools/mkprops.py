#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(d)

p("C01","The examined device or image is never modified",
 "No command ever writes to, truncates, creates, renames or removes the disk image or device it is pointed at: that object is only ever opened for reading and only read. The only file-system objects a command creates or changes are the metadata database (recon) and the tree below the destination directory (recover). This holds also if the image itself lies in the destination directory or is named as the metadata database.",
 ["inputs","programs"],"every command, option and argument, and every content of image and metadata",
 "The only command test runs recover on one image and never looks at the image afterwards; no test can exclude a write on a path it does not take.",
 ["cmd/recon.go","cmd/recover.go","cmd/mount.go","cmd/ls.go","cmd/dump_index.go","internal/identify/identify.go","internal/rescuefs/nodefs.go","internal/rescuefs/files.go","pkg/btrfs/index/index_store.go"],
 [("os.Open of the device argument","cmd/recon.go doScanFS, cmd/recover.go doRecoverFiles, cmd/mount.go doMountRescueFS, internal/identify/identify.go IdentifyFS"),("read-only options for the metadata database","pkg/btrfs/index/index_store.go openIndex")],
 ["every call that can open, create, change, rename or remove a file-system object"])

p("C02","Recovery stays inside the destination directory",
 "Whatever names, symbolic links and directory structure the metadata contains, recover creates, changes or removes file-system objects only strictly below the destination directory. A recovered entry name is used only if it is a single, non-empty path component other than . and .., and nothing is ever written through a symbolic link that an earlier entry (or anybody else) placed in the destination tree.",
 ["inputs"],"every metadata database, including hand-crafted ones, and every prior content of the destination",
 "The one recover test restores two files with harmless names into a fresh directory.",
 ["cmd/recover.go"],[("name filter before joining","cmd/recover.go recoverDir"),("check of what already exists at the target","cmd/recover.go recoverDir, recoverFile, recoverSymlink")],
 ["path argument of every mutating file-system call reachable from recover"])

p("C03","Existing files survive recovery unless --clobber is given",
 "Without --clobber, recover never truncates, overwrites, replaces or removes anything that already exists at a target path; the existing object is left as it is and recovery goes on with the next entry. With --clobber, only the object at the very target path of the entry being recovered is replaced.",
 ["inputs","configurations"],"every destination content, every metadata, with and without --clobber",
 "The test passes clobber and starts from an empty directory, so neither branch of the decision is exercised.",
 ["cmd/recover.go"],[("existence check","cmd/recover.go recoverFile, recoverSymlink")],["every open with truncation, every removal, every symlink creation in recover"])

p("C04","Scanning an image never crashes, whatever bytes it holds",
 "recon and identify process every block of every image without a run-time panic: no byte pattern in a block (item counts, item offsets, item sizes, levels, ids) makes them index or slice out of range, divide by zero or allocate a negative size, and neither does any block size or sampling option they accept. Unusable block sizes are refused with an error message before the image is read.",
 ["inputs","configurations"],"every block content of every image, every accepted --block-size and sampling option",
 "Tests feed a handful of well-formed headers; corrupt counts and offsets, the whole point of a recovery tool, are 2^128 combinations per item.",
 ["pkg/btrfs/leaf.go","pkg/btrfs/slice.go","pkg/btrfs/util.go","pkg/btrfs/index/index_store.go","cmd/recon.go","internal/identify/collector.go","internal/identify/identify.go"],
 [("item count clamp","pkg/btrfs/leaf.go Leaf.Len"),("item data clamp","pkg/btrfs/leaf.go Leaf.Data"),("device and block size check","pkg/btrfs/util.go CheckDeviceSize")],
 ["every index, slice, division and make expression reachable from recon and identify"])

p("C05","Reading collected metadata never crashes, whatever the items hold",
 "Once a metadata database has been opened, ls, dump-index, recover and every request to the mounted view complete without a run-time panic for every stored item content: items shorter than their structure, name and data lengths that point past the item, sizes and offsets of any value, chunk-less metadata and unmapped addresses are all tolerated. Damaged items are skipped or clamped.",
 ["inputs"],"every sequence of item bytes stored in the index and every request to the mount",
 "Tests store four well-formed items; an item that was truncated by a bad sector is never built.",
 ["pkg/btrfs/btrfs.go","pkg/btrfs/leaf.go","pkg/btrfs/index/index_store.go","pkg/btrfs/index/key_format.go","cmd/ls.go","cmd/recover.go","cmd/dump_index.go","internal/rescuefs/nodefs.go","internal/rescuefs/files.go"],
 [("length clamps in the accessors","pkg/btrfs/btrfs.go Name, Data; pkg/btrfs/leaf.go Item.Data"),("minimum length check when items are read from the index","pkg/btrfs/index/index_store.go")],
 ["every index, slice and division expression reachable from the reading commands"])

p("C06","On-disk structures are decoded at their documented offsets",
 "Every accessor of an on-disk structure (block header, item, inode, directory entry, file extent, chunk and stripe, device, root, root reference, inode reference, block group, extent and checksum items) returns exactly the little-endian field that the btrfs on-disk format places at that offset with that width, and key, UUID and timestamp fields are decoded completely. The published structure lengths equal the format's.",
 ["inputs"],"every accessor and every byte content",
 "Only the fields that the one recover test touches are ever decoded, from items built with the same offsets.",
 ["pkg/btrfs/btrfs.go","pkg/btrfs/leaf.go","pkg/btrfs/slice.go","pkg/btrfs/parse_buffer.go"],
 [("offset constants and Slice* helpers","pkg/btrfs/btrfs.go, pkg/btrfs/leaf.go, pkg/btrfs/slice.go")],["result of every accessor as a function of the bytes"])

p("C07","On-disk constants and their printed names follow the btrfs format",
 "Object ids, key types, directory entry types, extent types, block group and extent flags, the magic number and the super block locations have the values of the btrfs on-disk format. Every object id or key type that has a printed name prints the name belonging to that value, no two different values print alike, and every key type of the format that the program knows has a name.",
 ["inputs"],"every constant and all 256 key types / all object ids",
 "No test looks at a constant or a printed name.",
 ["pkg/btrfs/btrfs.go","pkg/btrfs/to_string.go"],[("constant declarations","pkg/btrfs/btrfs.go"),("ObjectIDString, KeyTypeString","pkg/btrfs/to_string.go")],["exported constants; text produced for an id or key type"])

p("C08","Index keys keep the identity and the order of file-system objects",
 "The database key of an item encodes owner, key type, object id, offset and generation, most significant byte first in this order, without loss: every component read back from a stored key equals what was stored, and database order is the order by owner, type, object id, offset, generation. Converting a key of the old database format preserves all five components.",
 ["inputs"],"all owners, keys and generations",
 "The tests store keys that differ in one component and read them back through the same code.",
 ["pkg/btrfs/index/key_format.go","pkg/btrfs/index/index_store.go"],[("newIndexKey and the keyV1/keyV2 accessors","pkg/btrfs/index/key_format.go")],["bytes passed to the key-value store; values decoded from its keys"])

p("C09","A metadata database is only used for the file system it was made for",
 "Opening a metadata database succeeds only if it is new and writable, or its recorded format version is the supported one (older only when explicitly allowed, for upgrading) and, when opened for writing other than for an upgrade, the recorded block size and file-system id equal the requested ones; otherwise opening fails and nothing is changed. A new database records version, block size, file-system id and generation so that each is read back unchanged, and opening for reading never creates or modifies a database.",
 ["inputs","histories"],"every recorded header and every combination of open options",
 "The test opens a database it has just created with the same options.",
 ["pkg/btrfs/index/index_store.go"],[("checkUpdateMetadata, newIndexMetadata","pkg/btrfs/index/index_store.go")],["result of opening an index; header record written to the store"])

p("C10","Every item of a matching leaf is stored intact under its own identity",
 "For every block that recon accepts, each item is stored under its own key with the owner and generation of that block's header, and the stored value is the item header followed by exactly that item's data. A block is passed over only if its file-system id differs from the requested one, it holds no items, or it is not a leaf; blocks of other file systems and interior nodes are not stored.",
 ["inputs"],"every block content and every item position",
 "recon has no test at all; the index test inserts hand-made items.",
 ["cmd/recon.go","pkg/btrfs/index/index_store.go","pkg/btrfs/leaf.go"],[("block filter and insertion loop","cmd/recon.go doScanFS"),("InsertItem","pkg/btrfs/index/index_store.go")],["key and value of every put into the store"])

p("C11","Collected metadata is committed, or the failure is reported",
 "Every item handed to the index is in the database when recon exits successfully: an item is only ever put inside an open write transaction, pending insertions are committed when the batch limit is reached and when the index is closed, and every failing insertion or commit surfaces as an error and a non-zero exit status. A raw transaction whose function fails leaves no trace in the database.",
 ["histories","fault_sequences"],"every number of insertions and every failing insertion or commit",
 "Tests insert four items and commit once; no commit ever fails in a test.",
 ["pkg/btrfs/index/index_store.go","cmd/recon.go"],[("ensureTx, InsertItem, Commit, Close, RawTx","pkg/btrfs/index/index_store.go"),("deferred commit","cmd/recon.go doScanFS")],["order of begin, put, commit, rollback and close; propagated errors"],
 [("tx","the open transaction, nil between transactions","pkg/btrfs/index/index_store.go Index"),("txNum","insertions since the last commit","pkg/btrfs/index/index_store.go Index")])

p("C12","A lookup returns the newest allowed generation of the requested object",
 "Looking up one object returns the stored version with the highest generation not above the index generation, the oldest version if all are newer, and nothing only if no version of exactly that owner and key is stored. The value returned always belongs to the requested owner and key.",
 ["inputs","histories"],"every database content, every requested key, every index generation",
 "The test stores one generation of each object and opens the index at the maximum generation.",
 ["pkg/btrfs/index/index_store.go"],[("find","pkg/btrfs/index/index_store.go")],["store cursor operations and the key/value returned by a lookup"])

p("C13","Iterating a range visits each object in it once, in order, and ends",
 "Iterating an index range yields, for every owner and key between the two bounds, exactly one version, in ascending key order, and then stops: no object in the range is left out because its neighbours have other generations, none is visited twice, nothing outside the bounds is yielded, and iteration always ends. Key and value reported for a position belong together, and the listing of subvolumes covers all subvolume ids. Items too short for the structure of their kind are passed over. (For tree ids below 2^64-1.)",
 ["inputs","histories"],"every database content, every range, every index generation",
 "The test database has one item per range and one generation.",
 ["pkg/btrfs/index/index_store.go"],[("lowerBound, findNext, Range, FullRange, Subvolumes","pkg/btrfs/index/index_store.go")],["cursor operations per step; key order of successive positions"])

p("C14","Crossing into a subvolume switches to that subvolume's tree and root",
 "Wherever a directory entry is followed (path lookup, ls, recover, mounted view): if it refers to a subvolume, the objects below it are looked up in the tree with the subvolume's id, starting at that tree's root directory; otherwise they are looked up in the same tree under the entry's inode number. Objects of one tree are never shown or restored from another one.",
 ["inputs"],"every directory tree with any nesting of subvolumes",
 "No test contains a subvolume.",
 ["pkg/btrfs/index/index_store.go","cmd/ls.go","cmd/recover.go","internal/rescuefs/nodefs.go"],[("owner/directory id selection at each descent","FindDirItemForPath, listDirectory/doListFiles, recoverDir, rescueNode.Lookup")],["owner and inode used for each lookup below an entry"])

p("C15","Directory traversal ends on cyclic directory structures",
 "Recursive traversal of the recovered directory structure (ls --recursive, recover) visits every directory of every tree at most once, so it ends for every metadata content, also when damaged or crafted entries make a directory its own descendant.",
 ["inputs"],"every directory graph, including cyclic ones",
 "No test has a directory inside a directory.",
 ["cmd/ls.go","cmd/recover.go"],[("visited set","cmd/recover.go recoverDir; cmd/ls.go listDirectory")],["recursive descents"])

p("C16","Restored file bytes come from and go to the right places",
 "Every byte that recover writes to a restored file comes from the position that the extent's mapping assigns to its place in the file: the chunk-mapped address of the extent on disk plus the extent's offset plus the distance from the start of the extent in the file; inline content comes from the item itself and goes to the extent's place in the file. Unless something fails, each regular extent of the file is copied from its start to its end, without gaps, bytes left over from an earlier read or bytes beyond the extent; holes and preallocated extents are never filled with what is on the device. A file that was restored without a failure has the size that its inode records. The target of a symbolic link that is not inline is read whole, from the same kind of position.",
 ["inputs"],"every extent layout, file size and extent length, and every short read",
 "The test copies one 12-byte extent at offset zero; multi-extent files, large extents, short reads, holes and preallocated extents are not reached.",
 ["cmd/recover.go"],[("copy loop","cmd/recover.go recoverFile"),("link target","cmd/recover.go recoverSymlink")],["offset arguments of every device read and of every write"])

p("C17","Reads through the mounted view return the right bytes",
 "A read request on a file of the mounted view returns exactly the bytes of the requested part of the file: those of the extent that covers them, from the chunk-mapped address plus the extent's offset plus the distance from its start, and zeros for holes, preallocated extents and ranges that no extent covers; unrelated disk content, stale buffer content or other files' data never appears in their place.",
 ["inputs"],"every extent layout and request",
 "No test reads through the mounted view at an unaligned offset, over a hole, a gap or a preallocated extent.",
 ["internal/rescuefs/files.go","internal/rescuefs/nodefs.go"],[("extent map and Read","internal/rescuefs/files.go extentFile.Read, newExtentFile")],["device reads and reply buffers per kind of extent"])

p("C18","Memory use does not depend on sizes claimed by the disk",
 "No single allocation is sized by a number read from the image or from a stored item unless it has first been bounded by a small constant or by the amount of data actually in memory; corrupt or huge sizes (sparse files, item counts, name or data lengths) never make a command allocate that much.",
 ["inputs"],"every value of every size, count and length field",
 "Tests use sizes of a few bytes.",
 ["cmd/recover.go","pkg/btrfs/leaf.go","pkg/btrfs/btrfs.go","internal/rescuefs/files.go","internal/identify/collector.go","pkg/btrfs/index/index_store.go"],[("bounds before allocation","cmd/recover.go, pkg/btrfs/leaf.go Leaf.Items, pkg/btrfs/btrfs.go FileExtentItem.Data")],["size argument of every allocation"])

p("C19","Concurrent requests to the mounted view do not race",
 "The mounted view may receive any number of requests at the same time, also for the same file or directory, without data races: everything that request handling modifies after mounting (cached attributes, cached directory entries, the cached address map) is read and written only under a common lock, and no lock is left held.",
 ["schedules"],"every interleaving of any number of file-system requests",
 "The mount has no tests; a race detector would need the right interleaving.",
 ["internal/rescuefs/nodefs.go","internal/rescuefs/files.go","pkg/btrfs/index/index_store.go"],[("locks around lazily filled caches","internal/rescuefs/nodefs.go rescueNode; pkg/btrfs/index/index_store.go Physical")],["every access to shared mutable state in request handlers"])

p("C20","The mounted view is strictly read-only",
 "Through the mount point nothing can be created, changed or removed: every modifying operation is rejected with an error and has no effect, whoever implements it, every file it hands out rejects modification, and the metadata database it exposes is opened for reading only, whatever open flags the client passes.",
 ["inputs","programs"],"every file-system request and every open flag",
 "The mount has no tests.",
 ["internal/rescuefs/nodefs.go","internal/rescuefs/files.go","internal/rescuefs/rescuefs.go"],[("default node and read-only file wrappers","internal/rescuefs/nodefs.go, files.go"),("open of the metadata file","internal/rescuefs/nodefs.go metadataNode.Open")],["operations implemented by nodes and files of the view; flags of opens"])

p("C21","Shown attributes are those of the object's inode",
 "Size, mode, link count, owner, group, device number (its low 32 bits), access, change and modification times reported by the mounted view are those recorded in the inode item of exactly the object in question, each in its own place; ls lists permissions, link count, owner, group, size and change time of the inode item of each entry it lists, in this order. (An open file without an inode item may report what its extents tell.) Extended attributes are returned by exact name with their own value; link targets are the link's own inline content.",
 ["inputs"],"every inode content and every request",
 "No test reads attributes, listings, extended attributes or link targets.",
 ["internal/rescuefs/nodefs.go","internal/rescuefs/files.go","cmd/ls.go"],[("GetAttr, GetXAttr, Readlink","internal/rescuefs/nodefs.go, files.go"),("listDirItem","cmd/ls.go")],["each reported attribute as a function of the inode bytes"])

p("C22","recon examines every block of the device and survives bad ones",
 "recon reads every block-aligned block that lies completely on the device from the first block after the first super block to the end of the device, each at its own offset and with the configured block size. A block that cannot be read is reported and skipped; it ends neither the scan nor loses what was collected before.",
 ["inputs","fault_sequences"],"every device size, block size and pattern of unreadable blocks",
 "recon has no test.",
 ["cmd/recon.go"],[("scan loop","cmd/recon.go doScanFS")],["offset of every block read; continuation after every block"])

p("C23","identify samples only whole blocks that exist on the device",
 "Every sampled block lies completely within the device, blocks are read in ascending order without duplicates, and the neighbourhood of every super block copy that exists on a device of that size is included. Sampling ends for every combination of device size, block size and sampling options.",
 ["inputs","configurations"],"every device size, block size and number of samples",
 "One device size, block size and sample count is tested.",
 ["internal/identify/identify.go"],[("MakeSampleOffsets","internal/identify/identify.go")],["sampled offsets"])

p("C24","identify reports exactly the plausible ids seen often enough",
 "Each sampled block counts once for its file-system id if and only if it looks like a leaf and the id is neither all zeros nor all ones. An id is reported if and only if it was counted at least as often as the required minimum, with its count, in descending order of count.",
 ["inputs","configurations"],"every sequence of blocks and every minimum",
 "One fixed sequence of blocks is tested.",
 ["internal/identify/collector.go","internal/identify/identify.go"],[("CollectBlock, Entries","internal/identify/collector.go")],["counter updates per block; reported entries"])

p("C25","A block read delivers the whole block or an error",
 "Reading a block returns success if and only if every byte of the block was read at the requested offset; if the source delivers all bytes together with an end-of-file indication the read still succeeds, and a short read is never reported as success.",
 ["inputs","fault_sequences"],"every source behaviour permitted for positioned reads",
 "The test uses a reader that never combines data with end-of-file and never reads short without an error.",
 ["pkg/ioutil/ioutil.go"],[("ReadBlockAt","pkg/ioutil/ioutil.go")],["result of a block read as a function of bytes delivered and error"])

p("C26","No failure to read or restore anything goes unreported",
 "Every error returned by an operation on the device, the metadata database or the destination reaches the user: it is propagated, printed as a warning, or ends the program with a message and a non-zero exit status; it is never dropped, overwritten or turned into success. For the mounted view, a request that needs the operation gets a status of failure. Exempt are operations with nothing to report: asking whether something exists, rolling back, and closing what was only read. In particular a file that could not be copied completely is never reported as recovered.",
 ["fault_sequences","inputs"],"every operation that can fail and every point at which it fails",
 "No test injects a failure.",
 ["cmd/recover.go","cmd/recon.go","cmd/ls.go","cmd/dump_index.go","cmd/mount.go","cmd/root.go","internal/identify/identify.go","internal/rescuefs/nodefs.go","internal/rescuefs/files.go","pkg/btrfs/index/index_store.go","pkg/btrfs/util.go","cmd/btrfscue/app/util/cliutil.go"],
 [("error returns, ReportError, Warnf","all commands")],["every call that returns an error"])

p("C27","Standard output carries results only",
 "Warnings, errors and diagnostics go to standard error; standard output carries only what a command was asked to list, or explanations when --verbose is given. Library packages and the mounted view print nothing to standard output.",
 ["inputs","configurations"],"every command, option and input",
 "No test looks at the output streams.",
 ["cmd/btrfscue/app/util/cliutil.go","pkg/btrfs/index/index_store.go","internal/rescuefs/nodefs.go","cmd/ls.go","cmd/dump_index.go","internal/identify/identify.go"],[("Warnf, Fatalf, Verbosef","cmd/btrfscue/app/util/cliutil.go")],["every write to standard output"])

p("C28","Every supported build configuration compiles",
 "All packages type-check for every supported operating system (Linux, macOS, and other Unix systems without mount support) and with the optional profiling build tag, and on systems without mount support the mount feature reports that it is unsupported.",
 ["configurations"],"every GOOS and build tag the sources declare",
 "The tests are compiled for the host configuration only.",
 ["cmd/mount.go","cmd/btrfscue/pprof.go","cmd/btrfscue/nopprof.go","internal/rescuefs/rescuefs_null.go"],[("build constraints","files with build tags")],["type-check result per configuration"])

p("C29","Opened files, databases and locks are released on every path",
 "Every file and database handle that a command or the library opens is closed on every path that does not end the process or hand the handle to its new owner; in particular a metadata database whose opening is refused is closed again, so that its file lock is not kept, and closing an index completes its transaction before closing the database.",
 ["fault_sequences","histories"],"every path through every function that acquires a handle",
 "Tests only take the success paths.",
 ["pkg/btrfs/index/index_store.go","cmd/recon.go","cmd/recover.go","cmd/ls.go","cmd/dump_index.go","cmd/mount.go","internal/identify/identify.go"],[("openIndex error paths, Close","pkg/btrfs/index/index_store.go"),("deferred closes","commands")],["acquire and release operations on every path"])

p("C30","Comparison functions are consistent total orders",
 "Comparing two keys yields 0 only for equal keys, -1 or +1 otherwise, and orders by type, object id and offset exactly as stored keys are ordered. The orders used for listing (files before directories, then by name) and for reporting ids (count, then entropy, then id) are strict weak orders, so sorting is deterministic for the given entries.",
 ["inputs"],"all pairs and triples of keys, entries and ids",
 "A few pairs of keys are compared.",
 ["pkg/btrfs/btrfs.go","cmd/ls.go","internal/identify/collector.go","internal/identify/identify.go"],[("KeyCompare","pkg/btrfs/btrfs.go"),("Less methods","cmd/ls.go, internal/identify/collector.go, identify.go")],["comparison result as a function of the component orderings"])

p("C31","UUIDs survive formatting and parsing",
 "Formatting a UUID gives 36 characters, lower-case hexadecimal in groups of 8-4-4-4-12 in byte order; parsing accepts exactly 32 hexadecimal digits with dashes anywhere and yields the bytes in order, so parsing a formatted UUID gives the same UUID. Anything else is rejected with an error and leaves the value as it was.",
 ["inputs"],"all 2^128 UUIDs and all strings",
 "Two UUIDs and a handful of strings are tested.",
 ["pkg/uuid/uuid.go"],[("String, Set, New","pkg/uuid/uuid.go")],["bytes produced and consumed"])

p("C32","Paths resolve by exact name",
 "Looking up a path finds an entry only if each component equals the name of an entry of the directory reached so far, using the btrfs name hash (CRC-32C with the file system's seed) as key for the direct lookup and a scan of that directory as fall-back; a component that matches nothing makes the whole lookup fail. The mounted view resolves a name to the entry that bears exactly that name.",
 ["inputs"],"every path and every directory content",
 "No test resolves a path.",
 ["pkg/btrfs/index/index_store.go","internal/rescuefs/nodefs.go"],[("FindDirItemForPath, NameHash","pkg/btrfs/index/index_store.go"),("dirItems lookup","internal/rescuefs/nodefs.go")],["keys looked up and name comparisons per path component"])

p("C33","Every entry is listed and attempted; one failure stops nothing else",
 "recover attempts every entry of every directory it reaches: each entry is restored according to its kind, or its omission is announced (refused names, special files), and a failure at one entry never prevents the attempt at any other, nor the recovery of the remaining subvolumes. ls and the mounted view list every entry of a directory once.",
 ["inputs","fault_sequences"],"every directory content and every pattern of failing entries",
 "The test has two regular files that both succeed.",
 ["cmd/recover.go","cmd/ls.go","internal/rescuefs/nodefs.go"],[("entry loops","cmd/recover.go recoverDir, doRecoverFiles; cmd/ls.go listDirectory; internal/rescuefs/nodefs.go OpenDir")],["handling of every entry of a directory"])

p("C34","Recovered content equals the original content",
 "For a file system that is not damaged, the tree restored by recon and recover has the same names, structure, link targets and file contents as the original, including files stored compressed.",
 ["inputs"],"every healthy file system",
 "Needs real file systems as input and their true content as oracle; tests have one synthetic file.",
 ["cmd/recover.go","cmd/recon.go","pkg/btrfs/index/index_store.go"],[("whole pipeline","cmd/recon.go, cmd/recover.go")],["restored tree"])

p("C35","The right file system is ranked first by identify",
 "If a device holds one btrfs file system, identify's sampling finds its id with overwhelming probability, ranks it first, and estimates its block size correctly.",
 ["inputs"],"every device that holds a btrfs file system",
 "A statistical statement about samples of real devices.",
 ["internal/identify/identify.go","internal/identify/collector.go"],[("sampling and block size estimate","internal/identify")],["identify's report"])

p("C36","An interrupted recon leaves a usable database",
 "If recon is killed or the machine crashes at any point, the metadata database can be opened afterwards and contains everything committed before.",
 ["crash_points"],"every crash point during a scan",
 "No test kills a scan.",
 ["pkg/btrfs/index/index_store.go","cmd/recon.go"],[("bbolt transactions","go.etcd.io/bbolt")],["database after a crash"])
p("C37","Addresses are mapped by the chunk that covers them",
 "The position on the device that a logical address is mapped to is the offset of the first stripe of a chunk plus the distance of the address from the start of that chunk, where the chunk is the last one recorded that has stripes and does not start after the address, whatever chunks there are and in whatever order addresses are asked for. Only addresses before the first such chunk are reported as not mapped.",
 ["inputs"],"every set of chunks and every address",
 "Tests have a single chunk, and ask for one address in it.",
 ["pkg/btrfs/index/index_store.go"],[("Physical and its cache of chunks","pkg/btrfs/index/index_store.go Index.Physical")],["positions returned for addresses"])

with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
