// -include'd into the command line tools: main, exit, getopt and stderr are replaced by those of the harness
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <getopt.h>
#ifdef __cplusplus
extern "C" {
#endif
_Noreturn void tool_exit(int); int tool_getopt(int, char *const *, const char *); FILE *tool_stderr(void);
#ifdef __cplusplus
}
#endif
#define main tool_main
#define exit tool_exit
#define _exit tool_exit
#define abort() tool_exit(134)
#define getopt tool_getopt
#undef stderr
#define stderr tool_stderr()
