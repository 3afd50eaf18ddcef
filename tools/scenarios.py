# property -> how its simulation is built and sized
SCEN = {}
def s(ids, scen, **kw):
    for i in ids.split(): SCEN[i] = dict(scen=scen.split(), **kw)
LIB = "all C files of /repo/src, compiled unmodified from the working tree"
s("C02 C04", "files.cpp", real=LIB)
s("C01", "files.cpp", fast=["stringptr_fromfile"], real=LIB + "; for a file of more than 4 GiB the same files compiled without instrumentation, calling the same simulated system")
s("C03", "files.cpp", fast="fileparser_open fileparser_readline fileparser_readline_userbuf fileparser_getline fileparser_getnextlinelength fileparser_close".split(), real=LIB + "; for lines and offsets of gigabytes the same files compiled without instrumentation, calling the same simulated system")
s("C05 C08 C09", "containers.cpp", shim=["lists.c", "tg.c", "maps.c", "maps.c -DBMAP_USE_TGILIST"], real=LIB + "; list macros of the headers through /verif/shim/lists.c")
s("C06", "containers.cpp", shim=["lists.c", "tg.c", "maps.c", "maps.c -DBMAP_USE_TGILIST"], real="tglist.h and tgilist.h of the working tree, instantiated for 15 item/index types in /verif/shim/tg.c")
s("C07", "containers.cpp", shim=["lists.c", "tg.c", "maps.c", "maps.c -DBMAP_USE_TGILIST"], real="bmap.h and hbmap.h of the working tree, instantiated for 20 key/value/bucket combinations in /verif/shim/maps.c")
s("C10", "strings.cpp", shim=["repl.c"], fast="stringptr_copy stringptr_strdup stringptr_concat stringptr_splitc stringptrlist_tostring stringptrlist_tostring_dos".split(), real=LIB)
s("C23", "strings.cpp", shim=["repl.c"], real=LIB)
s("C18", "strings.cpp", shim=["repl.c"], real=LIB + "; the macros of include/stdio-repl.h through /verif/shim/repl.c")
s("C11", "dirs.cpp", real=LIB + "; glob() of the C library on simulated directories")
s("C12 C13 C14", "procs.cpp", real=LIB)
s("C15 C16 C17", "env.cpp", loads=True, real=LIB)
s("C19", "digests.cpp", fast="md5_init md5_update md5_end sha512_init sha512_update sha512_end CRC32_InitTables CRC32_Init CRC32_Update CRC32_Final CRC32C_InitTables CRC32C_Init CRC32C_Update CRC32C_Final".split(), real=LIB + "; for streams of gigabytes the same files compiled without instrumentation")
s("C20", "reentry.cpp", loads=True, shim=["lists.c", "tg.c", "maps.c", "maps.c -DBMAP_USE_TGILIST"], real=LIB + "; the containers of the headers through /verif/shim/{tg,maps,lists}.c")
SSA = ["ssa.c -DM=%d -DE=%d%s" % (m, e, u) for m, e, u in ((2,16,""),(4,1,""),(8,8,""),(16,3,""),(64,32," -DU"),(128,100,""),(256,6,""),(1024,1,""),(4,4096," -DU"),(2048,2,""),(131072,2,""))] + ["guard.c"]
s("C21", "mem.cpp", shim=SSA, real="include/ssalloc.c of the working tree, instantiated for 11 slot counts and sizes in /verif/shim/ssa.c")
s("C22", "mem.cpp", shim=SSA, real="include/guard_alloc.c of the working tree through /verif/shim/guard.c")
