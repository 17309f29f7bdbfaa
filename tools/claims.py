AI='abstract interpretation of the SSA form (trace-partitioned value numbering with a linear-inequality domain)'
CLAIMED={
'C01':(AI+': every effect of every command, enumerated over whole programs, has the metadata database or the destination as its target and never the examined image','Every command, option, argument and content of image and metadata; functions a program reaches through unresolved calls are analysed on their own. Two names are taken for the same object exactly if os.SameFile says so. bbolt and go-fuse are trusted to touch only what they are given.'),
'C02':(AI+': effect analysis of recover with inferred properties of the places (inside the destination, reached through real directories) over the recursion','Every metadata content and every state of the destination, apart from other programs changing it at the same time. Every call that changes the file system is an obligation; unknown calls fail.'),
'C03':(AI+': effect analysis of recover, existence checks and the clobber option as facts at every effect','Every metadata content and every state of the destination, apart from other programs changing it at the same time.'),
'C04':(AI+': every index, slice, division, nil and type-assertion obligation of everything recon and identify run on block contents','Every content of a block and every accepted block size; sampling options are unconstrained. Third-party packages are modelled by contract.'),
'C05':(AI+' of ls, dump-index, recover and every request handler of the mounted view: every index, slice, nil, allocation and type-assertion obligation','Every content of stored items and every request; recursion and handlers by inferred invariants, ranges and lookups by models that are checked against their code (also C12, C13). Trusts the models of os, go-fuse and bbolt.'),
'C06':(AI+': each accessor equals the field of the format table','Every accessor is decided for all inputs against a table of the documented on-disk layout. Trusts the table, go/ssa and the analyser.'),
'C07':('constant folding and '+AI+' of the printing functions','Constants are read from the type-checked program; printed names are decided for every value against a table of the format. Trusts the tables.'),
'C08':(AI+' of key construction and conversion','All key builders and readers are decided for all inputs; order follows from the byte layout. Trusts bytes.Compare order of the database.'),
'C09':(AI+' of opening an index, over all stored headers and options','All paths of opening; bbolt is modelled by its documented contract.'),
'C10':(AI+' of the scan loop with inferred loop invariants','Every block content, every accepted block size. Trusts the model of os.File and bbolt.'),
'C11':(AI+': typestate of the transaction over every call of the index and of recon','Every state of the index and every failing call. bbolt is modelled by its documented contract.'),
'C12':(AI+' of lookups over a model of the ordered store (known keys, gaps, key order closure)','Every database content is covered by case split over the order of the keys involved; bbolt cursors are modelled by their documented contract; stored keys have 33 bytes.'),
'C13':(AI+' of making and moving ranges over a model of the ordered store, with inferred loop invariants','Every database content and every item a range may be at; induction over the steps of a range. bbolt cursors are modelled by their documented contract; stored keys have 33 bytes. Tree ids below 2^64-1.'),
'C14':(AI+' of every lookup of items, with relations between tree and inode followed through arguments, loops, collected entries and the fields of mounted nodes','Every metadata content, every nesting of subvolumes, every request order: relations are lifted inductively to the places the values come from. Trusts that the root directory of a tree is inode 256.'),
'C15':(AI+': every recursive call follows a fresh mark of the directory in a set that is handed on unchanged; every loop has a ranking','Every metadata content: the argument is inductive over the calls (finitely many directories, each call marks one that was not marked). Trusts that ranges are finite (C13).'),
'C16':(AI+', with the origin of what is in the buffer: at each device read and each file write the position is compared, as a term, with that of the extent; the loop over an extent has as invariant that device and file are at the same distance from its places; where the file is closed its size was set last','Every extent list, every extent and every outcome of a read, unbounded. A read that does not fail and gives nothing is taken to make no progress, not to be an end. Address mapping itself is C37; that the items are those of the file is C14. Compressed and encrypted extents are not told apart by the program: they are copied as they are on disk.'),
'C18':(AI+' of every function that allocates: the size of each allocation, as a term over what was read, is bounded under the conditions of the path by a constant or by the length of data in memory','Every allocation (slices, maps, channels, and library functions that allocate by a number) and every value of the fields it depends on. What grows piece by piece grows with data that was read and is not judged. Bounds are counted in elements.'),
'C19':(AI+' with lock sets: every access of every request handler, and of every operation of the index that handlers use, to what requests share','Every handler and every pair of accesses, independent of the schedule. What is shared is reached from the receiver, from the index or from package variables; objects made by a request are shared from when they are handed out or stored in something shared. Trusts go-fuse, and bbolt for reading pages at the same time.'),
'C20':(AI+' of every handler of the mounted view: the result of each modifying operation, the origin of every file handed out, the effects of every handler','Every node and file type of the view, found from what is mounted and handed out; every request and open flag. Trusts go-fuse: its default nodes and files reject modification, its read-only wrapper rejects writing, truncation and attribute changes.'),
'C22':(AI+' of the scan loop with inferred loop invariants','Every device size and read error for each accepted block size. Trusts the io.ReaderAt contract.'),
'C23':(AI+' of the choice of samples, with element summaries of sets and slices','Every device size, number of samples and accepted block size. Sampling ends with probability 1 (random draws from at least as many candidates as are wanted).'),
'C24':(AI+' of counting, reporting and printing, with loop invariants','Every block, every collection. Sorting is trusted to sort by the comparison it is given.'),
'C25':(AI+' over every outcome of the reader','All paths with any number of bytes and any error. Trusts the io.ReaderAt contract 0<=n<=len.'),
'C27':(AI+': every print of every command, where it goes, under which switches, and what the printed values derive from','Every command, option and input. Values are traced to errors, arguments, options and device data; what a constant text says is not judged. Trusts that the progress bar, cobra, log and go-fuse print to standard error by themselves.'),
'C28':('type-checking of all packages in 10 build configurations; abstract interpretation of the stub file system','Covers linux, darwin, freebsd, openbsd, netbsd with and without the pprof tag. Linking and 32-bit targets are not covered.'),
'C30':(AI+': decision table of each comparison function over all orderings of its criteria','Comparison functions are decided for all inputs by case split over the order relations of their criteria. Assumes entropies are not NaN.'),
'C31':(AI+' of formatting and parsing','Every character and every byte value; hex.DecodeString and strings.Replace are trusted library contracts.'),
'C21':(AI+' of every request handler of the mounted view and of ls: every reported attribute, extended attribute, link target and listed column is traced to the field and the item it was read from; the text of permissions is decided for all 512 values','Every item content and request, for one index per mount. A text of permissions that is not put together from constant parts is not judged. The accessors themselves are decided by C06.'),
'C26':(AI+' with a mark on the error of every failing operation, followed along every path to a message on standard error, to an error or status that is returned, or to the end of the program and its exit status','Every operation of the program and every combination of failures along a path. A message after the failure counts as its report, unless it is a constant text after the program went on to something else. Addresses that the chunk map does not cover count as failures when files are restored; those of the mounted view belong to C17.'),
'C29':(AI+' with typestate of every file, database, index and lock: each one opened is followed to every return of the function, command or handler and to every next iteration of a loop; memory reachability decides what is handed on','Every path of the program, including failing operations. The end of the process releases what is left; a file given to the FUSE library is closed by the library.'),
'C37':(AI+' of the lookup over symbolic chunk ranges: the loop that builds the map has each chunk as its invariant content, and the position returned is compared as a term with that of the entry chosen, under the conditions that the binary search leaves','Every set of chunks and every address; a map that is already there is taken to have been built by the loop. Trusts that ranges are in order and complete (C13) and that sort.Search does what its documentation says. The end of a chunk is not judged: the program does not record it. A search that is written out as a loop is not accepted.'),
'C33':(AI+' of every loop over directory entries and subvolumes (start, step, exhaustion at every exit) with what is done for the entry of an iteration followed along every path','Every directory content and every pattern of failures. Special files, existing files without --clobber and directories worked on already may be passed over with a message only if asked for details. The FUSE library calls OpenDir for listings.'),
'C32':(AI+' of the path lookup and of the mounted lookup: every comparison, key and directory along the path, relations between components lifted over the loop','Every path and every directory content. A directory whose entries share a hash keeps only one of them in the database. strings.Split and the CRC table of the library are trusted.'),
}
NA={
'C17':'Not claimed: it needs the list of extents built when a file is opened, the arithmetic of a request against each of its elements, and the content of a reused reply buffer in one inductive argument over the list; that was not completed. Parts are claimed: the inode and tree that content is looked up under (C12, C14), failing reads (C25, C26), bounds (C05), sizes (C18, C21).',
'C34':'End-to-end equality of run-time content over whole file systems (including decompression, which the tool does not implement); its structural clauses are claimed as C10, C16, C17, C21, C32 and C33.',
'C35':'A statistical statement about random sampling of a particular device; no static argument bounds it. Structural clauses are C23, C24 and C30.',
'C36':'Crash behaviour of the third-party bbolt database file; decided by its commit protocol at run time. The structural clause (commits happen and are reported) is C11.',
}
