// The library's allocations: it is linked with --wrap for these functions, which are defined in memtrack.cc.
#pragma once
#include <string>
#include <stddef.h>
void mem_reset();                          // forget everything
int mem_live(std::string *what);           // blocks that are still allocated
void mem_free(void *p);                    // the caller frees what the library gave it
