// All public C headers of the library under test, as C++ sees them.
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <errno.h>
#include <sys/time.h>
#include <glob.h>
#include <spawn.h>
extern "C" {
#include "stringptr.h"
#include "stringptrlist.h"
#include "sblist.h"
#include "kvlist.h"
#include "hashlist.h"
#include "tlist.h"
#include "fileparser.h"
#include "filelib.h"
#include "filelist.h"
#include "proclib.h"
#include "timelib.h"
#include "logger.h"
#include "format.h"
#define static
#include "md5.h"
#undef static
#include "sha512.h"
#include "crc32.h"
#include "crc32c.h"
#include "strlib.h"
#include "iniparser.h"
#include "optparser.h"
#include "stringlist.h"
#include "sptrlist.h"
}
