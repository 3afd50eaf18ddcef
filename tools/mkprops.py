#!/usr/bin/env python3
# Writes /verif/properties.jsonl (single source of the property texts).
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(observe),hook_needed=None)))

p("C01","Whole-file load is exact or refused",
"Loading a file into a string object either returns an object whose length and bytes are exactly the file's content (NUL-terminated one past the end) or returns a null result; it never returns a short, padded or corrupt object as success. A file that is not empty and fits the memory is refused only if one of the calls made for it fails. If the file is truncated or appended to by someone else while it is being loaded, the call still ends, and a non-null result is a true prefix of contents the file had during the call with a length between the smallest and largest size it had. Whatever happens - short reads, read/open/stat errors, exhausted descriptors or memory - the call terminates and leaks neither a descriptor nor memory, and a program started meanwhile does not inherit its descriptor; and the file-size and modification-time queries return the true value or 0 on error.",
["inputs","fault_sequences","schedules"],"every file content and size, every split of reads into short reads, every placement of EIO/EINTR/EMFILE/ENOENT and allocation failure, every interleaving with a concurrent truncation or append",
"tests load a few intact files through a kernel that never returns short reads or errors for regular files",
["src/stringptr/stringptr_fromfile.c","src/filelib/getfilesize.c","include/stringptr.h","include/filelib.h"],
[("read loop that continues after partial reads and gives up on error","src/stringptr/stringptr_fromfile.c"),("size obtained by stat/lseek before allocating","src/filelib/getfilesize.c")],observe=["stringptr_fromfile","getfilesize"])

p("C02","Writing a string to a file reports exactly what was stored",
"Writing a string to a file creates or truncates the file and returns the number of bytes it stored: the full length exactly when the file then holds exactly the object's bytes, otherwise the length of the prefix that was stored, and 0 with the file untouched when it could not be opened. Short writes are continued until everything is stored or an error stops progress. At any crash point during the call the file holds the old content or a prefix of the new one, and the call always terminates without leaking a descriptor, to programs started meanwhile either.",
["inputs","fault_sequences","crash_points"],"every content, every split of writes into short writes, every placement of ENOSPC/EIO/EINTR/EMFILE, every crash point between system calls",
"tests write one short string to a healthy disk",
["src/stringptr/stringptr_tofile.c","include/stringptr.h"],[("write loop with running offset","src/stringptr/stringptr_tofile.c")],observe=["stringptr_tofile"])

p("C03","Line reader delivers every line exactly once",
"Reading a file line by line delivers every line of the file exactly once, in order, complete and NUL-terminated, with its true length and without its newline, a last line without newline included, and then reports end of file; this does not depend on how reads are split up, on the buffer sizes used or on which descriptors the caller has open. A call that fails (buffer too small, read error, interruption) consumes nothing, so repeating it with a large enough buffer or after the error is gone delivers the same line. Asking for the length of the next line gives its true length or an error and never moves the reading position; if the system refuses to position the file the call reports an error. Closing the reader releases its descriptor and no other, also when it is closed twice, and programs started meanwhile do not inherit it. All of this holds for lines and files of any size.",
["inputs","fault_sequences","histories"],"every file content (empty lines, NUL and CR bytes, missing final newline, lines around the internal chunk sizes), every buffer size, every history of reads, length queries and retries, every split into short reads and placement of EIO/EINTR",
"tests read one intact file with one buffer size",
["src/fileparser/fileparser_open.c","src/fileparser/fileparser_readline_userbuf.c","src/fileparser/fileparser_readline.c","src/fileparser/fileparser_getline.c","src/fileparser/fileparser_getnextlinelength.c","src/fileparser/fileparser_close.c"],
[("position kept in the reader object; descriptor repositioned after each line","src/fileparser/fileparser_readline_userbuf.c")],
observe=["fileparser_open","fileparser_readline","fileparser_readline_userbuf","fileparser_getline","fileparser_getnextlinelength","fileparser_close"])

p("C04","String-list save and load report success only when complete",
"Saving a list of strings to a file reports success only if the file afterwards holds every entry, each followed by one newline, in order. Loading a file appends to the given list and reports success only if every line of the file was appended exactly once, in order, empty lines included; when it reports failure, what it appended is a prefix of the file's lines. A list of newline-free strings (up to 1023 bytes each) that was saved successfully loads back equal. Under any read, write, open or allocation failure the operation reports failure instead of losing entries, releases every descriptor (none is inherited by a program started meanwhile), and leaks no memory once the caller frees the list.",
["inputs","fault_sequences","crash_points"],"every list content that fits the loader's line limit, every placement of short/failing reads and writes, full disks and failing allocations",
"tests do not save or load lists at all",
["src/stringptrlist/stringptrlist_tofile.c","src/stringptrlist/stringptrlist_fromfile.c","src/fileparser/fileparser_readline.c"],
[("list joined to one string and written whole","src/stringptrlist/stringptrlist_tofile.c"),("line loop until end of file","src/stringptrlist/stringptrlist_fromfile.c")],observe=["stringptrlist_tofile","stringptrlist_fromfile"])

p("C05","Growable block list behaves as an array, also when memory runs out",
"For every sequence of operations the growable list of fixed-size items (and the string, key/value and pointer lists built on it) holds exactly the items an ideal array would hold, in the same order, returns the positions and items that array would return, and never reads or writes outside its storage. When an allocation fails the operation reports failure and the list, its length and all items are unchanged and stay fully usable. Sorting, sorted insertion and binary search agree with the comparison function given, and freeing a list returns all memory it took, each stored value exactly once where it is told to free values.",
["histories","inputs","fault_sequences"],"every history of add, insert, delete, pop, set, get, clear, sort, search, adopt-existing-data and free, every item size and growth block size, every placement of allocation failures",
"tests add a few items with memory always available",
["src/sblist/sblist.c","src/sblist/sblist_addi.c","src/sblist/sblist_insert.c","src/sblist/sblist_delete.c","src/sblist/sblist_pop.c","src/sblist/sblist_sort.c","src/sblist/sblist_bsearch.c","src/sblist/sblist_bsearch_r.c","src/sblist/sblist_insert_sorted.c","src/sblist/sblist_insert_sorted_r.c","src/sblist/sblist_new_from_data.c","src/sblist/sblist_free_values.c","include/stringptrlist.h","include/stringlist.h","include/sptrlist.h","include/kvlist.h","src/kvlist/kvlist.c"],
[("capacity grown before the item is copied","src/sblist/sblist.c"),("memmove of the tail on insert and delete","src/sblist/sblist_insert.c, sblist_delete.c")],
state=[("sblist","items, count, capa, blockitems, itemsize","include/sblist.h")],observe=["sblist_*","stringptrlist_*","kvlist_*","stringlist_*"])

p("C06","Typed generic lists behave as arrays, also when memory runs out",
"For every sequence of operations the typed generic lists (contiguous and indirect) hold exactly the items an ideal array would hold in the same order, and return the items, positions and search results that array would return. When an allocation fails the operation reports failure and all items stay in place and usable. Freeing the list releases all memory it took, and no operation touches memory outside its storage.",
["histories","inputs","fault_sequences"],"every history of operations, every growth step, every placement of allocation failures",
"tests exercise a short fixed history with memory always available",
["include/tglist.h","include/tgilist.h"],[("grow-before-store macros","include/tglist.h"),("pointer table plus separately allocated items","include/tgilist.h")],observe=["tglist_*","tgilist_*"])

p("C07","Maps behave as a dictionary, also when memory runs out",
"For every sequence of operations the sorted map and the hash map answer lookups, insertions, deletions, size and indexed or iterated access exactly as an ideal dictionary with the same keys and the given comparison and hash functions would: every present key is found with the value stored for it, no absent key is found, and keys and values stay paired. When an allocation fails, insertion reports failure and every entry that was present before is still present, paired with its value and reachable. Freeing the map releases all memory it took.",
["histories","inputs","fault_sequences"],"every history of insertions, lookups, deletions and iterations, every key distribution including colliding hashes and resizes, every placement of allocation failures",
"tests insert a fixed set of keys with memory always available",
["include/bmap.h","include/hbmap.h"],[("binary search over the sorted key list; value list kept in step","include/bmap.h"),("buckets of sorted maps selected by hash","include/hbmap.h")],observe=["bmap_*","hbmap_*"])

p("C08","Tree list behaves as an array, also when memory runs out",
"For every sequence of operations the tree list returns for each index below its size exactly the item an ideal array would hold there and a null result for every other index; inserting, appending and deleting shift items as in an array. When an allocation fails, the operation reports failure and size and items are unchanged. Each operation takes a number of steps logarithmic in the size of the list. Freeing releases all memory, and the deep variants additionally release each stored pointer exactly once.",
["histories","inputs","fault_sequences"],"every history of append, insert, delete, get, free (plain and deep), every item size, every placement of allocation failures",
"tests append a fixed number of items with memory always available",
["src/tlist/tlist.c","include/tlist.h"],[("randomised balanced tree ordered by position, one allocation per item","src/tlist/tlist.c")],observe=["tlist_*"])

p("C09","Hash list finds what was added and iterates each entry once",
"Looking up a hash returns the bucket that holds exactly the entries added under the hashes that share it, in the order they were added, so every entry added under a hash is found there and none is lost or duplicated. Iterating over the hash list visits every entry added so far exactly once and then ends, whichever buckets are empty. When an allocation fails, adding reports failure and everything added before is still found and iterated. Freeing releases all memory it took.",
["histories","inputs","fault_sequences"],"every set of hashes including collisions and empty buckets, every bucket count, every placement of allocation failures",
"tests do not exercise the hash list",
["src/hashlist/hashlist.c","src/hashlist/hashlist_iterator.c","include/hashlist.h"],[("lazily created buckets selected by hash modulo bucket count","src/hashlist/hashlist.c")],observe=["hashlist_*"])

p("C10","String constructors give the exact result or report failure",
"Every function that builds a new string or list of strings (duplicate, copy, concatenate, format, replace, split, join, duplicate entries) returns a result whose bytes and lengths are exactly the mathematically defined ones and NUL-terminated, or, when memory runs out, reports failure through its null/zero/error result; it never returns a truncated, partial or uninitialised result as success. Inputs are left unchanged, except that splitting and replacing cut the string they search in place (a NUL over the first byte of each match, nothing else), and after a failure nothing the function allocated remains allocated (duplicating entries reports the entry it failed at, with the ones before it duplicated). Splitting and joining again with the separator gives back the original string, and an empty separator or search string simply matches nothing.",
["inputs","fault_sequences"],"every input string, delimiter, needle and format argument list, every placement of allocation failures within the call",
"tests use fixed strings and never fail an allocation",
["src/stringptr/stringptr_new.c","src/stringptr/stringptr_concat.c","src/stringptr/stringptr_copy.c","src/stringptr/stringptr_strdup.c","src/stringptr/stringptr_format.c","src/stringptrlist/stringptr_replace.c","src/stringptrlist/stringptr_splitc.c","src/stringptrlist/stringptr_splits.c","src/stringptrlist/stringptrlist_tostring.c","src/stringptrlist/stringptrlist_tostring_dos.c","src/stringptrlist/stringptrlist_dup_entries.c","src/stringptrlist/stringptrlist_add_strdup.c","src/strlib/strdup_n.c"],
[("size computed first, one allocation, then copy","src/stringptr/*.c, src/stringptrlist/*.c")],observe=["stringptr_*","stringptrlist_*","strdup_n"])

p("C11","Directory search lists exactly the matching entries",
"A directory search with a mask and flags either reports failure or returns exactly the entries of that directory that match the mask and flags, each once, directories marked with a trailing slash and nothing else, with the flags for including hidden entries, the entry itself and its parent and for leaving out the path honoured; characters special to pattern matching in the directory name are taken literally. When the directory cannot be read or memory runs out, it never returns a list with entries missing as success. In every case all memory, descriptors and directory streams it took are released once the caller frees the result.",
["inputs","fault_sequences","histories"],"every directory content and name including pattern characters, every mask and flag combination, every placement of allocation and I/O failures",
"tests do not run a directory search",
["src/filelist/filelist.c","include/filelist.h"],[("directory name escaped, mask appended, glob() results copied with flag filters","src/filelist/filelist.c")],observe=["filelist_search","filelist_free"])

p("C12","Opening a process wires its streams or leaves nothing behind",
"Opening a child process runs the named program (found as given, or along the search path if it has no slash) with the caller's environment and the given arguments and connects its standard input, output and error to the three ends the caller gets back, so that bytes written by one side arrive complete, in order and nowhere else, and neither this child nor any other child the library starts holds another end of those pipes; this also holds if the caller has closed any of its own standard descriptors or opens processes in several threads at once. On any failure (pipe, spawn setup, spawn, exhausted descriptors) it reports the failure, leaves no descriptor, child or initialised spawn resource behind and releases each resource exactly once. The caller's other descriptors are never touched.",
["inputs","fault_sequences","schedules","histories"],"every combination of requested streams, every history of overlapping process openings, every placement of a failing call, every interleaving of parent and child",
"tests run one healthy child at a time",
["src/proclib/process.c","include/proclib.h"],[("pipe creation, spawn file actions, close-on-exec, cleanup labels","src/proclib/process.c")],observe=["process_open"])

p("C13","Closing a process always ends with its exit code",
"Closing a process closes the caller's ends of its streams so that a child waiting for end of input sees it, waits for exactly that child and returns the exit code of a child that exited; for a child without an exit code (killed by a signal, or its status discarded because the caller ignores SIGCHLD) it returns a value that is no exit code; this holds whatever other processes are open, in whichever order they are closed and however the wait is interrupted by signals. After the close no descriptor and no zombie of that child remains and no other child has been reaped.",
["schedules","histories","fault_sequences"],"every order of opening and closing several processes, every interleaving of their execution, every placement of interruptions of the wait",
"tests close one process that has already ended",
["src/proclib/process.c","include/proclib.h"],[("close of the pipe ends followed by waitpid on the recorded pid","src/proclib/process.c")],observe=["process_close"])

p("C14","Daemonising detaches completely or reports failure",
"Daemonising ends the calling process and continues in exactly one descendant that is in a session of its own, has none of the descriptors open at entry (those below the descriptor limit) open and has its standard streams on the null device if that can be opened; if forking fails, the caller ends with a failure code instead. No failure of forking or of opening the null device makes both the caller and a descendant continue, or makes a descendant continue while still attached to an inherited descriptor.",
["fault_sequences","configurations","schedules"],"every set of descriptors open at entry, every descriptor limit, every placement of failing fork/setsid/open/dup, both sides of every fork",
"tests cannot daemonise the test process",
["src/proclib/daemonize.c","include/proclib.h"],[("fork, exit of the parent, setsid, close of all descriptors, reopening on /dev/null","src/proclib/daemonize.c")],observe=["daemonize"])

p("C15","Sleeping lasts at least the requested time",
"A millisecond or microsecond sleep of any non-negative duration returns no earlier than that duration after it began, and not later than the duration plus the delays the system injected. Interruptions by signals neither shorten a sleep nor make it start over, and stepping the wall clock forwards or backwards during the sleep changes nothing. A zero-length sleep returns at once.",
["inputs","fault_sequences","schedules"],"every duration, every number and placement of interruptions, every oversleep and wall-clock step",
"tests sleep once, uninterrupted, in real time",
["src/timelib/msleep.c","src/timelib/microsleep.c","include/timelib.h"],[("remaining time passed back to nanosleep on EINTR","src/timelib/microsleep.c")],observe=["msleep","microsleep"])

p("C16","Clock readings come from a single consistent instant",
"The current time in microseconds, the time reading, the elapsed milliseconds since a reading and the formatted time stamp each describe an instant that lies between the beginning and the end of the call, including across second, day and year boundaries. Elapsed time and time differences are the true difference of the two instants in the function's unit, for any order of the two and any sub-second borrow. The formatted stamp shows the local time, is never a mixture of two instants, and never writes outside the buffer whatever its size.",
["inputs","schedules"],"every clock value, every advance or step of the clock between two reads in one call, every pair of instants",
"tests print the current time without checking it",
["src/timelib/gettimestamp.c","src/timelib/getutime.c","src/timelib/mspassed.c","src/timelib/timespec_diff.c","src/timelib/timestamp.c","include/timelib.h"],[("one clock read per call, carry/borrow arithmetic","src/timelib/*.c")],observe=["getutime","mspassed","timestamp","timespec_diff","gettimestamp"])

p("C17","Temporary directories are fresh, private and exclusive",
"Creating a temporary directory returns success only if the call itself created a directory that did not exist before, under the requested prefix, with access for the owner only, and the returned name is that directory; two callers never get the same directory, whatever the interleaving and however often generated names collide. Name collisions are retried until a free name is found; any other failure is reported and leaves no directory behind and the caller's memory unharmed. When the preferred location cannot be used, the fallback location is used.",
["schedules","fault_sequences","inputs"],"every random sequence and clock value, every set of already existing names, every interleaving of several callers, every placement of mkdir failures",
"tests create at most one directory without collisions or races",
["src/filelib/ulz_mkdtemp.c","src/filelib/mktempdir.c","include/filelib.h"],[("exclusive mkdir with mode 0700 and retry on EEXIST","src/filelib/ulz_mkdtemp.c"),("fallback location","src/filelib/mktempdir.c")],observe=["ulz_mkdtemp","mktempdir"])

p("C18","Formatted and logged output reaches the descriptor exactly",
"The logging, option-printing and formatted-print functions write exactly the bytes of the message to the descriptor they were given and to no other, in order, and formatted messages that fit the internal buffer are passed on in one piece so that concurrent writers do not tear them. When writes fail or are cut short, whatever arrives is made of bytes of the message in order, nothing foreign or repeated. The macros of stdio-repl.h write what the stdio functions they replace would write, for the formats supported. The error logger reports the error that was current when it was called, even if logging itself fails in between.",
["inputs","schedules","fault_sequences"],"every message and format, every descriptor, every interleaving of several writers, every short or failing write",
"tests print to a healthy terminal from one thread",
["src/logger/log_put.c","src/logger/log_puts.c","src/logger/log_putc.c","src/logger/log_putd.c","src/logger/log_putln.c","src/logger/log_puterror.c","src/logger/log_timestamp.c","src/format/ulz_printf.c","src/format/ulz_fprintf.c","src/optparser/op_printall.c","include/logger.h","include/format.h"],[("message rendered into one buffer and written with one call","src/format/ulz_fprintf.c"),("explicit descriptor per call","src/logger/*.c")],observe=["log_*","ulz_printf","ulz_fprintf","op_printall"])

p("C19","Digests do not depend on how the stream is cut up",
"The MD5, SHA-512, CRC32 and CRC32C results over a byte stream depend only on the bytes: feeding the stream in any sequence of pieces the interface permits (for SHA-512 multiples of 128 bytes except the last), from differently aligned memory, interleaved with other streams being digested, gives the value the standards define for the whole stream. This holds for streams of any length, past the points where internal counters carry. Taking an intermediate MD5 result does not disturb the stream.",
["inputs","schedules","histories"],"every byte stream, every cutting into pieces, every alignment, every interleaving of several streams at any point of the code, lengths beyond 2^29 bytes",
"tests hash a few short strings in one piece",
["src/md5/md5.c","src/md5/md5str.c","src/sha512/sha512.c","src/crc32/crc32.c","src/crc32/crc32c.c","src/crc32/crc32_impl.c","include/md5.h","include/sha512.h","include/crc32.h"],[("block buffer with running length","src/md5/md5.c, src/sha512/sha512.c"),("running remainder","src/crc32/crc32_impl.c")],observe=["md5_*","sha512_*","crc32_*","crc32c_*"])

p("C20","Library functions are reentrant on disjoint data",
"Any set of library calls that work on disjoint data gives, under every interleaving of the callers, exactly the results and effects each call gives when run alone. No function keeps caller-visible state between calls or shares hidden mutable state between callers, except where its interface documents a static result.",
["schedules","programs"],"every set of concurrently running callers, every preemption point down to single basic blocks",
"tests are single-threaded",
["src/strlib/*.c","src/stringptr/*.c","src/stringptrlist/*.c","src/sblist/*.c","src/tlist/tlist.c","src/hashlist/hashlist.c","src/md5/md5.c","src/sha512/sha512.c","src/crc32/crc32_impl.c","src/format/ulz_vsnprintf.c","src/iniparser/iniparser.c","src/optparser/*.c","src/filelib/*.c","src/timelib/*.c"],[("all working state in arguments, locals and heap objects; constant tables only","whole library")],observe=["every public function"])

p("C21","Static pool allocator hands out disjoint live blocks",
"The static pool allocator hands out blocks that lie inside its pool, are large enough and never overlap a block still in use; a request succeeds exactly when it is not larger than a slot and fewer blocks are in use than the pool has slots. Freed slots are usable again, and freeing a pointer that is not a live block (null, already freed, inside a block, before or behind the pool) neither corrupts live blocks nor touches memory outside the allocator nor changes the capacity. Live blocks keep their contents until freed.",
["histories","inputs","configurations"],"every history of allocations and frees of every size including exhaustion, holes and invalid frees, every slot count (power of two from 2) and slot size",
"tests do not exercise the allocator",
["include/ssalloc.c"],[("top-of-stack index plus a bit array of used slots","include/ssalloc.c")],observe=["ssa_alloc","ssa_free"])

p("C22","Guarded allocator maps, guards and unmaps exactly",
"The guarded allocator returns a block of the requested size that is fully readable and writable, whose first byte past the end is inaccessible, or a null result when the system refuses or the size is impossible; after a refusal nothing stays mapped. Freeing a block unmaps everything its allocation mapped and nothing else, so any history of allocations and frees leaves exactly the live blocks mapped, with their contents intact.",
["histories","inputs","fault_sequences"],"every size including exact multiples of the page size, every history of allocations and frees, every placement of failing map and protect calls",
"tests do not exercise the allocator",
["include/guard_alloc.c"],[("page-rounded mapping with a protected last page, block placed at its end","include/guard_alloc.c")],observe=["guard_alloc","guard_free"])

p("C23","Standard-input line reader returns lines exactly",
"Reading lines from standard input returns each line's bytes exactly once and in order (for input without NUL bytes), without the line terminator when asked to strip it and never without data bytes, however the input arrives; a line longer than the buffer is delivered in consecutive pieces that lose nothing. At end of input or on a read error it reports failure rather than stale data, and it never writes outside the buffer given (of at least two bytes).",
["inputs","fault_sequences","histories"],"every input content including a missing final newline and CR LF, every buffer size, every splitting of the input into reads, every placement of a read error",
"tests do not feed standard input",
["src/stringptr/read_stdin_line.c","src/stringptr/stringptr_chomp.c","include/stringptr.h"],[("buffer-bounded read of one line followed by terminator stripping","src/stringptr/read_stdin_line.c")],observe=["read_stdin_line"])

na="pure function of its arguments: no schedule, clock, I/O, allocation or multi-party behaviour enters it, so there is nothing for a simulator to decide"
def q(id,title,st,text,files,mech,obs): p(id,title,st,["inputs"],text,"tests sample a handful of inputs",files,mech,observe=obs)
q("C24","Path helpers are exact","Path normalisation, path difference, extension and file-name extraction return for every path the result the path rules define, within the caller's buffer, and normalisation is idempotent.","every path string",["src/filelib/normalizepath.c","src/filelib/getpathdiff.c","src/filelib/getfileext.c","src/filelib/getfilename.c"],[("single pass over the string","src/filelib/*.c")],["normalizepath","getpathdiff","getFileExt","getfilename"])
q("C25","Codecs and number conversions round-trip","Base64, hexadecimal, integer, IPv4 and RC4 conversions produce the defined output for every input and decoding inverts encoding.","every byte string and number",["src/strlib/base64enc.c","src/strlib/base64dec.c","src/strlib/hex2raw.c","src/strlib/raw2hex.c","src/strlib/numberToString.c","src/strlib/strtoint.c","src/strlib/rc4.c"],[("table-driven conversion","src/strlib/*.c")],["base64enc","base64dec","hex2raw","raw2hex","intToString","strtoint","rc4_*"])
q("C26","Bounded formatting equals the defined expansion","Formatting into a bounded buffer yields exactly the expansion the format defines or reports that it does not fit, and never writes past the buffer.","every format, argument list and buffer size",["src/format/ulz_vsnprintf.c","src/format/ulz_snprintf.c"],[("bounded copy per directive","src/format/ulz_vsnprintf.c")],["ulz_snprintf","ulz_vsnprintf"])
q("C27","Ini and option lookup find the right value","Looking up an ini key in a section or a command-line option returns exactly the value given for it, or not found.","every ini text and argument vector",["src/iniparser/iniparser.c","src/optparser/op_get.c","src/optparser/op_hasflag.c"],[("linear scan","src/iniparser/iniparser.c")],["iniparser_*","op_get","op_hasflag"])
q("C28","Text comparison and search helpers are exact","Prefix, suffix, equality, hashing, case-conversion and word-search helpers give the mathematically defined answer for every string.","every string",["src/strlib/strstar.c","src/strlib/strends.c","src/strlib/findword.c","src/stringptr/stringptr_eq.c","src/stringptr/stringptr_hash.c"],[("bytewise comparison","src/strlib/*.c")],["strstar","strends","findword","stringptr_eq"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
