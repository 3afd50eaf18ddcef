/* callers that use the replacements of stdio-repl.h as they would use stdio */
#include <stdio.h>
#include <stdarg.h>
#include "stdio-repl.h"
void repl_printf(const char* s, int d, unsigned long long q) { printf("%s|%d|%x|%llu\n", s, d, (unsigned) d, q); }
void repl_fprintf_out(const char* s, int d) { fprintf(stdout, "%s:%d", s, d); }
void repl_fprintf_err(const char* s, int d) { fprintf(stderr, "%s;%d", s, d); }
void repl_dprintf(int fd, const char* s, int d) { dprintf(fd, "(%s,%d)", s, d); }
void repl_puts(const char* s) { puts(s); }
void repl_perror(const char* s) { perror(s); }
long repl_snprintf(char* b, unsigned long n, const char* s, int d) { return snprintf(b, n, "%s=%d", s, d); }
long repl_vsnprintf(char* b, unsigned long n, const char* f, ...) { va_list ap; va_start(ap, f); long r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
