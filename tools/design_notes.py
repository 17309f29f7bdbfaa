NOTES={
'C01':'"The image" is recognised by os.SameFile and by where its path came from; a partition given as metadata while the whole disk is examined is a different file to the program and not covered. The pprof build tag is excluded. bbolt would have initialised a block device given as database; hence the check before opening.',
'C03':'Concurrent changes by other programs are left out; O_EXCL makes creation itself safe against them.',
'C05':'Sizes that are not negative and fit are all that is demanded of allocations here; C18 bounds them.',
'C11':'What bbolt does inside a commit is C36.',
'C12':'Decided over the ordered-store model: all contents of the database are covered by the rank order of the records that the code compares with, closed under the order axioms.',
'C13':'As C12. A range whose bounds are reversed is empty.',
'C14':'The relation between a tree and a directory is lifted over the loop of the path lookup. A wrong root of a subvolume is found here, not by C21.',
'C15':'Ends because each recursive call adds a directory of a finite database to the visited set.',
'C16':'Uses the positions of reads and writes as terms, so a copy loop may count up or down, or keep positions in any variables; a copy in pieces of any size is accepted.',
'C37':'A search written out as a loop would need an invariant over the elements passed, which the domain does not have; the rule "chosen" would then alarm.',
'C18':'Counts allocations, not the total of many small ones. Reading everything (ReadAll, ReadFile) would count as unbounded.',
'C19':'Accesses to shared state outside the lock count as violations also where a completed fill makes them harmless, as the statement demands one lock.',
'C20':'Calls after Commit on a read-only index are outside (the mounted view makes none).',
'C21':'One index per mount and listing. Rdev is the low 32 bits (all FUSE can carry). An open file without an inode item shows the size its extents suggest. Headings of recursive listings are exempt.',
'C23':'The random choice ends with probability 1: it draws from at least as many candidates as are wanted.',
'C26':'Stat and Lstat, rollback and closing what was only read are exempt. A read that delivers all bytes has succeeded whatever error comes with it (io.ReaderAt).',
'C27':'Constant text is not judged except that the last print before a failing exit goes to standard error.',
'C28':'Windows cannot be loaded offline (dependencies of the module cache are missing for it).',
'C29':'The end of the process releases everything. A defer inside a loop counts as a leak for each iteration. NewLoopbackFile takes over its file.',
'C30':'Anchored at the named types fsEntries and Uint64Array and at KeyCompare.',
'C33':'Special files, files that exist (without --clobber) and directories already visited are announced with --verbose only, which the statement allows. Names that are empty, ".", ".." or contain a separator are refused with a warning. ls descends into entries of type directory.',
}
