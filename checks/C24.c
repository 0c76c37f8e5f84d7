// C24: output and diagnostics never depend on uninitialised memory; the texts of C16 with listings, label files and all output formats
#define C24 1
static const char *outs[] = {"a.bin", "a.8xp", "a.hex", "a.86p", "a.8xv", "a.73p", "a.82p", "a.86s", "a.85p"}, *outn;
#include "C16.c"
