// -include'd into the command line tools when each runs in a process of its own
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
_Noreturn void tool_exit(int);
#define main tool_main
#define exit tool_exit
