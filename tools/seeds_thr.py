B = "src/bigfile.c"
H = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <pthread.h>
#include <time.h>
#include "bigfile.h"
#define NEED(c, ...) do { if(!(c)) { printf("FAILED: " __VA_ARGS__); printf(" [%s]\n", big_file_get_error_message()?big_file_get_error_message():""); exit(1); } } while(0)
static int wr(BigBlock * b, ptrdiff_t at, const void * p, const char * dt, size_t n, size_t m) {
    BigArray a; BigBlockPtr q; size_t d[2] = {n, m}; big_array_init(&a, (void*)p, dt, 2, d, NULL);
    return big_block_seek(b, &q, at) || big_block_write(b, &q, &a); }
static int rd(BigBlock * b, ptrdiff_t at, void * p, const char * dt, size_t n, size_t m) {
    BigArray a; BigBlockPtr q; size_t d[2] = {n, m}; big_array_init(&a, p, dt, 2, d, NULL);
    return big_block_seek(b, &q, at) || big_block_read(b, &q, &a); }
static time_t t0; static int more(void) { return time(NULL) < t0 + 12; }
static void * body(void * p);
int main(void) { t0 = time(NULL); BigFile f[1]; NEED(0 == big_file_create(f, "f"), "create"); big_file_close(f); pthread_t t[4];
  for(long i = 0; i < 4; i ++) pthread_create(&t[i], NULL, body, (void*) i); for(int i = 0; i < 4; i ++) pthread_join(t[i], NULL); return 0; }
'''
SEEDS = [
 dict(id="thr-name", property="C11", cflags="-pthread",
  edits=[(B, "        char d[128];\n        sprintf(d, EXT_DATA, fileid);", "        static char d[128];\n        sprintf(d, EXT_DATA, fileid);")],
  demo=H + r'''static void * body(void * p) { long t = (long) p; BigFile f[1]; BigBlock b[1]; char n[32]; sprintf(n, "b%ld", t); size_t fs[4] = {1, 1, 1, 1}; int v[4], r;
  NEED(0 == big_file_open(f, "f"), "open"); NEED(0 == big_file_create_block(f, b, n, "i4", 1, 4, fs), "create block"); for(int i = 0; i < 4; i ++) v[i] = 1000 * t + i; NEED(0 == wr(b, 0, v, "i4", 4, 1), "write");
  for(long k = 0; more(); k ++) { int i = (k + t) % 4; v[i] += 10; NEED(0 == wr(b, i, &v[i], "i4", 1, 1), "write"); NEED(0 == rd(b, i, &r, "i4", 1, 1) && r == v[i], "thread %ld row %d: %d, not %d", t, i, r, v[i]); }
  big_block_close(b); return NULL; }''',
  needs="a thread opening a data file between another one's formatting and use of the name", breaks="rows are written to and read from the wrong file of the block"),
 dict(id="thr-chunk", property="C11", cflags="-pthread",
  edits=[(B, '''    BigArray chunk_array = {0};
    size_t dims[2];
    dims[0] = CHUNK_SIZE;
    dims[1] = bb->nmemb;

    BigArrayIter chunk_iter;
    BigArrayIter array_iter;
    ptrdiff_t towrite = 0;''', '''    static BigArray chunk_array;
    size_t dims[2];
    dims[0] = CHUNK_SIZE;
    dims[1] = bb->nmemb;

    BigArrayIter chunk_iter;
    BigArrayIter array_iter;
    ptrdiff_t towrite = 0;''')],
  demo=H + r'''static void * body(void * p) { long t = (long) p; BigFile f[1]; BigBlock b[1]; char n[32]; sprintf(n, "b%ld", t); size_t fs[1] = {4}; int64_t v[4], r[4];
  big_file_set_buffer_size(64); NEED(0 == big_file_open(f, "f"), "open"); NEED(0 == big_file_create_block(f, b, n, "i8", 1, 1, fs), "create block");
  for(long k = 0; more(); k ++) { for(int i = 0; i < 4; i ++) v[i] = (k << 8) + t; NEED(0 == wr(b, 0, v, "i8", 4, 1), "write"); NEED(0 == rd(b, 0, r, "i8", 4, 1) && !memcmp(r, v, sizeof v), "thread %ld: %lx, not %lx", t, (long) r[0], (long) v[0]); }
  big_block_close(b); return NULL; }''',
  needs="a thread setting up its buffer between the set up and the conversion of another one", breaks="rows of one thread are written into the memory of the other"),
 dict(id="thr-lookup", property="C11", cflags="-pthread",
  edits=[(B, "    BigAttr lookup = {0};\n    lookup.name = (char*) attrname;\n    BigAttr * found", "    static BigAttr lookup = {0};\n    lookup.name = (char*) attrname;\n    BigAttr * found")],
  demo=H + r'''static void * body(void * p) { long t = (long) p; BigFile f[1]; BigBlock b[1]; char n[32]; sprintf(n, "b%ld", t); int v[8], r;
  NEED(0 == big_file_open(f, "f"), "open"); NEED(0 == big_file_create_block(f, b, n, "i4", 1, 0, NULL), "create block");
  for(int i = 0; i < 8; i ++) { char a[8] = {'a' + i, 0}; v[i] = 10 * t + i; NEED(0 == big_block_set_attr(b, a, &v[i], "i4", 1), "set"); }
  for(long k = 0; (k & 1023) || more(); k ++) { char a[8] = {'a' + (k + t) % 8, 0}; r = -1; NEED(0 == big_block_get_attr(b, a, &r, "i4", 1) && r == v[(k + t) % 8], "thread %ld: attribute %s is %d", t, a, r); }
  big_block_close(b); return NULL; }''',
  needs="two threads looking up attributes of different names at the same moment", breaks="a thread gets the value of an attribute another thread asked for"),
]
SEEDS = [s for s in SEEDS if not s.get("skip")]
