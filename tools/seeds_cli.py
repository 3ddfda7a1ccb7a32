import os, runpy
PRE = r'''#!/bin/bash
# run in /repo after the build
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
export LC_ALL=C OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
mkdir "$t/bin" && cp utils/bigfile-check utils/bigfile-re* utils/bigfile-rm "$t/bin" && chmod 755 "$t"/bin/* || exit 0
for x in cat copy create ls get-attr set-attr; do gcc -g -w -I src -o "$t/bin/bigfile-$x" utils/bigfile-$x.c src/bigfile.c src/bigfile-record.c -lm || exit 0; done
%s
PATH="$t/bin:$PATH"; mkdir "$t/w"; cd "$t/w" || exit 0
bad() { echo "FAILED: $*"; exit 1; }
mk() { python3 -c "import sys; sys.stdout.buffer.write(bytes((i*$3+7)%%251 for i in range(4*$2)))" | bigfile-create f $1 i4 >/dev/null || bad create; }
'''
def cli(id, prop, edits, body, needs, breaks, pre=""): return dict(id=id, property=prop, edits=edits, sh=PRE % pre + body + "\nexit 0\n", needs=needs, breaks=breaks)
CP, CM = "utils/bigfile-copy.c", "utils/bigfile-copy-mpi.c"
MPI = 'mpicc -g -w -I src -o "$t/bin/bigfile-copy-mpi" utils/bigfile-copy-mpi.c src/bigfile.c src/bigfile-record.c src/bigfile-mpi.c src/mp-mpiu.c -lm || exit 0'
SEEDS = [
 cli("copy-close", "C23", [(CP, """    if(0 != big_block_close(&bbnew)) {
        fprintf(stderr, "failed to close new: %s\\n", big_file_get_error_message());
        exit(1);
    }
    big_block_close(&bb);
""", """    if(0 != big_block_close(&bbnew)) {
        fprintf(stderr, "failed to close new: %s\\n", big_file_get_error_message());
    }
    big_block_close(&bb);
""")], r'''
mk b 10 3; bigfile-set-attr -t f8 f b Time 2.5 || bad attr
cat > p.c <<'X'
#include <errno.h>
#include <string.h>
#include <dlfcn.h>
#define _GNU_SOURCE
int rename(const char * a, const char * b) { static int n; if(strstr(b, "copy/attr") && n ++ > 0) { errno = EIO; return -1; } extern int renameat(int, const char *, int, const char *); return renameat(-100, a, -100, b); }
X
gcc -shared -fPIC -w -o p.so p.c || exit 0
LD_PRELOAD=./p.so bigfile-copy f b copy 2>/dev/null || exit 0
[ "`bigfile-get-attr f copy Time`" = 2.5 ] || bad "the copy claims success, but it is not complete"
''', "a failure while the header or the attributes of the copy are written at its very end", "bigfile-copy exits with status 0 though the copy could not be completed; bigfile-repartition then removes the original"),
 cli("copy-attr-empty", "C23", [(CP, """    if(bb.nmemb > 0 && bb.size > 0) {
        /* copy data */
""", """    if(bb.nmemb > 0 && bb.size > 0) {
        /* copy data */
"""), (CP, """    /* copy attrs */
    size_t nattr;
    BigAttr * attrs = big_block_list_attrs(&bb, &nattr);
""", """    /* copy attrs */
    size_t nattr = 0;
    BigAttr * attrs = NULL;
    if(bb.Nfile > 0) attrs = big_block_list_attrs(&bb, &nattr);
""")], r'''
cat > m.c <<'X'
#include "bigfile.h"
int main() { BigFile f; BigBlock b; double x = 2.5; return big_file_create(&f, "f") || big_file_create_block(&f, &b, "Header", NULL, 0, 0, NULL) || big_block_set_attr(&b, "Time", &x, "f8", 1) || big_block_close(&b); }
X
gcc -w -I "$R/src" -o m m.c "$R/src/bigfile.c" -lm && ./m || exit 0
bigfile-copy f Header Copy || bad copy
[ "`bigfile-get-attr f Copy Time`" = 2.5 ] || bad "the attribute is lost"
''', "a block without data files, which holds attributes only (as headers do)", "the attributes of blocks without data are not copied, and lost by a repartition", pre='R=$PWD'),
 cli("repart-cleanup", "C23", [("utils/bigfile-repartition", """    $ROOT/bigfile-copy $VERBOSE -n $NFILE $FILE ${BLOCK}-REPBAK ${BLOCK} ||fail
    $ROOT/bigfile-rm $FILE ${BLOCK}-REPBAK ||fail
""", """    $ROOT/bigfile-copy $VERBOSE -n $NFILE $FILE ${BLOCK}-REPBAK ${BLOCK}
    STATUS=$?
    $ROOT/bigfile-rm $FILE ${BLOCK}-REPBAK ||fail
    exit $STATUS
""")], r'''
mk b 1000 3; cp -r f g; ( ulimit -f 1; trap '' XFSZ; bigfile-repartition f 1 b 2>/dev/null ) && exit 0
cmp f/b/000000 g/b/000000 >/dev/null 2>&1 || cmp f/b-REPBAK/000000 g/b/000000 || bad "the data is lost"
''', "the copy of a repartition failing, as on a full device", "the only complete copy of the data is removed when the repartition fails"),
 cli("copy-chunk", "C23", [(CP, "        for(offset = 0; offset < bb.size; ) {\n", "        for(offset = 0; offset == 0 || offset < bb.size - bb.size % chunksize; ) {\n")], r'''
mk b 7 3; bigfile-copy -B 8 f b c || bad copy
[ "`bigfile-cat f b`" = "`bigfile-cat f c`" ] || bad "the copy differs"
''', "a block larger than the buffer, with a remainder", "the last rows of the block are not copied, if the block is larger than the buffer"),
 cli("cat-count", "C25", [("utils/bigfile-cat.c", "    if(size == -1 || bb.size < size + start) {\n", "    if(size == -1 || bb.size < size) {\n")], r'''
mk b 7 3; x=`timeout 10 bigfile-cat -o 5 -c 4 f b` || bad "bigfile-cat fails or hangs"
[ "$x" = "`bigfile-cat f b | tail -2`" ] || bad "$x"
''', "an offset and a count that end beyond the block while the count alone does not", "bigfile-cat never ends"),
 cli("ls-fold", "C25", [("utils/bigfile-ls.c", "        unsigned int checksum = (r & 0xffff) + (r >> 16);\n", "        unsigned int checksum = r & 0xffff;\n")], r'''
python3 -c "
import sys
# the sum of the bytes is 0x1ffff
n, b = 0x1ffff, b''
while n: k = min(n, 255); b += bytes([k]); n -= k
sys.stdout.buffer.write(b + bytes(-len(b) % 4))" > in
bigfile-create f b i4 < in || bad create
[ $((10#`bigfile-ls -l f b | awk '{print $5}'`)) = `sum -s in | awk '{print $1}'` ] || bad "wrong checksum: `bigfile-ls -l f b`"
bigfile-check f || bad "check fails"
''', "data whose sum of bytes makes the first folding of the checksum overflow 16 bits", "bigfile-ls shows a wrong checksum, and bigfile-check rejects the intact block"),
 cli("check-first", "C25", [("utils/bigfile-check", '    BLOCKS="$*"\n', '    BLOCKS=$1\n')], r'''
mk b 7 3; mk c 7 5; printf X | dd of=f/c/000000 bs=1 seek=9 conv=notrunc 2>/dev/null
bigfile-check f c >/dev/null 2>&1 && bad "damage is not found"
bigfile-check f b c >/dev/null 2>&1 && bad "damage of the second block is not found"
''', "several blocks to check, damage in one that is not the first", "only the first of the blocks is checked"),
 cli("get-attr-last", "C25", [("utils/bigfile-get-attr.c", """        if(i != attr->nmemb - 1 && attr->dtype[1] != 'S') {
            endl = " ";""", """        if(i != attr->nmemb - 1 && big_file_dtype_kind(attr->dtype) != 'S' && big_file_dtype_kind(attr->dtype) != 'c') {
            endl = " ";""")], r'''
mk b 3 3; bigfile-set-attr -t c8 f b z "1 + 2 I" "3 + 4 I" || bad set
[ `bigfile-get-attr f b z | wc -w` = 6 ] || [ `bigfile-get-attr f b z | wc -w` = 2 ] || bad "`bigfile-get-attr f b z`"
''', "an attribute of several complex numbers", "the complex numbers of an attribute are printed without anything between them"),
 cli("copy-mpi-ack", "C24", [(CM, """        if(status.MPI_TAG == DIE_TAG) {
            break;
        }
""", """        if(status.MPI_TAG == DIE_TAG) {
            MPI_Send(&result, 1, MPI_INT, 0, DIE_TAG, MPI_COMM_WORLD);
            break;
        }
""")], r'''
mk b 7 3
cat > p.c <<'X'
#include <mpi.h>
int MPI_Send(const void * b, int n, MPI_Datatype t, int to, int tag, MPI_Comm c) { return PMPI_Ssend(b, n, t, to, tag, c); }
X
mpicc -shared -fPIC -o p.so p.c || exit 0
timeout -k 5 30 mpirun --oversubscribe -n 3 -x LD_PRELOAD=$PWD/p.so bigfile-copy-mpi f b c || bad "the copy fails or hangs"
[ "`bigfile-cat f b`" = "`bigfile-cat f c`" ] || bad "the copy differs"
''', "an MPI that does not buffer messages", "workers wait for ever when they are done", pre=MPI),
 cli("copy-mpi-attrs", "C24", [(CM, """    for(i = 0; i < nattr; i ++) {
        BigAttr * attr = &attrs[i];
""", """    for(i = ThisTask; i < nattr; i += NTask) {
        BigAttr * attr = &attrs[i];
""")], r'''
mk b 7 3; bigfile-set-attr -t f8 f b Time 2.5; bigfile-set-attr -t f8 f b Box 3 4
timeout -k 5 30 mpirun --oversubscribe -n 2 bigfile-copy-mpi f b c || bad "the copy fails or hangs"
[ "`bigfile-get-attr f b`" = "`bigfile-get-attr f c`" ] || bad "the attributes differ: `bigfile-get-attr f c`"
''', "more than one rank and more than one attribute", "attributes set by ranks other than the first are lost", pre=MPI),
]
for s in SEEDS: s["edits"] = [e for e in s["edits"] if e[1] != e[2]]
