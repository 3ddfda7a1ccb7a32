B = "src/bigfile.c"
H = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include "bigfile.h"
#define NEED(c, ...) do { if(!(c)) { printf("FAILED: " __VA_ARGS__); printf(" [%s]\n", big_file_get_error_message()?big_file_get_error_message():""); exit(1); } } while(0)
static void mk(BigFile * bf) { NEED(0 == big_file_create(bf, "f"), "create"); }
static int wr(BigBlock * b, ptrdiff_t at, const void * p, const char * dt, size_t n, size_t m) {
    BigArray a; BigBlockPtr q; size_t d[2] = {n, m}; big_array_init(&a, (void*)p, dt, 2, d, NULL);
    return big_block_seek(b, &q, at) || big_block_write(b, &q, &a); }
static int rd(BigBlock * b, ptrdiff_t at, void * p, const char * dt, size_t n, size_t m) {
    BigArray a; BigBlockPtr q; size_t d[2] = {n, m}; big_array_init(&a, p, dt, 2, d, NULL);
    return big_block_seek(b, &q, at) || big_block_read(b, &q, &a); }
'''
def demo(body): return H + "int main(void) { BigFile bf[1]; BigBlock b[1]; mk(bf);\n" + body + "\nreturn 0; }\n"
SEEDS = [
 dict(id="off32", property="C01",
  edits=[(B, '''        RAISEIF(0 > fseek(fp, ptr->roffset * felsize, SEEK_SET),
                ex_seek,
                "Failed to seek in block `%s' at (%d:%td) (%s)", 
                bb->basename, ptr->fileid, ptr->roffset * felsize, strerror(errno));
        RAISEIF(chunk_size != fread(''', '''        RAISEIF(0 > big_block_seek_file(fp, ptr->roffset, felsize),
                ex_seek,
                "Failed to seek in block `%s' at (%d:%td) (%s)", 
                bb->basename, ptr->fileid, ptr->roffset * felsize, strerror(errno));
        RAISEIF(chunk_size != fread('''),
   (B, '''        RAISEIF(0 > fseek(fp, ptr->roffset * felsize, SEEK_SET),
                ex_seek,
                "Failed to seek in block `%s' at (%d:%td) (%s)", 
                bb->basename, ptr->fileid, ptr->roffset * felsize, strerror(errno));
        RAISEIF(chunk_size != fwrite(''', '''        RAISEIF(0 > big_block_seek_file(fp, ptr->roffset, felsize),
                ex_seek,
                "Failed to seek in block `%s' at (%d:%td) (%s)", 
                bb->basename, ptr->fileid, ptr->roffset * felsize, strerror(errno));
        RAISEIF(chunk_size != fwrite('''),
   (B, '''int
big_block_seek_rel(''', '''static int
big_block_seek_file(FILE * fp, unsigned int row, unsigned int felsize)
{
    return fseek(fp, row * felsize, SEEK_SET);
}

int
big_block_seek_rel(''')],
  demo=demo('''int64_t v = 7, w = 9, r = 0; size_t N = ((size_t)1 << 29) + 8, fs[1] = {N};
 NEED(0 == big_file_create_block(bf, b, "a", "i8", 1, 1, fs), "create block");
 NEED(0 == wr(b, 0, &v, "i8", 1, 1), "write"); NEED(0 == wr(b, (size_t)1<<29, &w, "i8", 1, 1), "write far");
 NEED(0 == rd(b, 0, &r, "i8", 1, 1) && r == 7, "row 0 reads %ld", (long) r); big_block_close(b);'''),
  needs="a physical file beyond 4 GiB and rows on both sides of it", breaks="rows 4 GiB apart share the same place in the file"),
 dict(id="seek-neg", property="C02",
  edits=[(B, '''    RAISEIF(offset > bb->size, 
''', '''    ptrdiff_t size = bb->size;
    RAISEIF(offset > size,
''')],
  demo=demo('''size_t fs[2] = {3, 2}; BigBlockPtr q;
 NEED(0 == big_file_create_block(bf, b, "a", "i8", 1, 2, fs), "create block");
 NEED(0 == big_block_seek(b, &q, -5), "seek -5"); NEED(0 != big_block_seek(b, &q, -6), "seek before the block works"); big_block_close(b);'''),
  needs="a negative position before the first row", breaks="positions before the block are accepted"),
 dict(id="eof-last", property="C02",
  edits=[(B, '''    ptrdiff_t abs = bb->foffset[ptr->fileid] + ptr->roffset;
    return abs >= bb->size;''', '''    /* at the end of the last file */
    return ptr->fileid >= bb->Nfile - 1 && ptr->roffset >= bb->fsize[ptr->fileid];''')],
  demo=demo('''size_t fs[2] = {0, 0}; BigBlockPtr q;
 NEED(0 == big_file_create_block(bf, b, "a", "i8", 1, 2, fs), "create block");
 NEED(0 == big_block_seek(b, &q, 0), "seek"); NEED(big_block_eof(b, &q), "the end of an empty block is not the end"); big_block_close(b);'''),
  needs="a block without rows but with several physical files", breaks="end of block is not reported"),
 dict(id="lowerhex", property="C03",
  edits=[(B, '#define EXT_DATA   "%06X"', '#define EXT_DATA   "%06x"')],
  demo=demo('''size_t fs[12]; int i; for(i = 0; i < 12; i ++) fs[i] = 1;
 NEED(0 == big_file_create_block(bf, b, "a", "i8", 1, 12, fs), "create block"); NEED(0 == big_block_close(b), "close");
 NEED(0 == access("f/a/00000A", F_OK), "file 10 is not called 00000A");'''),
  needs="more than ten physical files", breaks="the names of the physical files are not the documented ones; other readers and existing files break"),
 dict(id="sysv-fold", property="C03",
  edits=[(B, "            unsigned int checksum = (r & 0xffff) + (r >> 16);\n", "            unsigned int checksum = r & 0xffff;\n")],
  demo=demo('''size_t fs[1] = {600}, i; unsigned char * v = malloc(600 * 1000); memset(v, 0, 600*1000);
 /* a byte sum of 0x2fffe: 771 * 255 = 196605 = 0x2fffd */
 for(i = 0; i < 771; i ++) v[i] = 255; v[771] = 1;
 NEED(0 == big_file_create_block(bf, b, "a", "b1", 1000, 1, fs), "create block");
 NEED(0 == wr(b, 0, v, "b1", 600, 1000), "write"); NEED(0 == big_block_close(b), "close");
 FILE * fp = fopen("f/a/header", "r"); char line[100]; for(i = 0; i < 4; i ++) NEED(fgets(line, 100, fp), "header");
 unsigned s = 0, c = 0; NEED(2 == sscanf(line, "000000: 600 : %u : %u", &s, &c), "line"); unsigned r = (s & 0xffff) + (s >> 16), x = (r & 0xffff) + (r >> 16);
 NEED(s == 771*255+1 && c == x, "sum %u reduced %u expected %u", s, c, x);'''),
  needs="a byte sum whose two 16-bit halves carry into a 17th bit", breaks="the reduced System V checksum in the header"),
 dict(id="cast-u4", property="C04",
  edits=[(B, 'CAST("i8", int64_t, "u4", uint32_t);', 'CAST("i8", int64_t, "u4", int32_t);')],
  demo=demo('''size_t fs[1] = {1}; uint32_t v = 4000000000u; int64_t r = 0;
 NEED(0 == big_file_create_block(bf, b, "a", "u4", 1, 1, fs), "create block");
 NEED(0 == wr(b, 0, &v, "u4", 1, 1), "write"); NEED(0 == rd(b, 0, &r, "i8", 1, 1) && r == 4000000000ll, "%ld", (long) r); big_block_close(b);'''),
  needs="an unsigned 4-byte value of 2^31 or more read as 8-byte signed", breaks="the value becomes negative"),
 dict(id="cast-width", property="C04",
  edits=[(B, '''    /* same type, no need for casting. */
    if (0 == strcmp(dst->array->dtype + 1, src->array->dtype + 1)) {''', '''    /* same width and kind of number, no need for casting. */
    if (0 == strcmp(dst->array->dtype + 2, src->array->dtype + 2) &&
        (dst->array->dtype[1] == src->array->dtype[1] || (dst->array->dtype[2] == '8' && strchr("iuc", dst->array->dtype[1]) && strchr("iuc", src->array->dtype[1])))) {''')],
  demo=demo('''size_t fs[1] = {1}; uint64_t v = 5; float r[2];
 NEED(0 == big_file_create_block(bf, b, "a", "u8", 1, 1, fs), "create block");
 NEED(0 == wr(b, 0, &v, "u8", 1, 1), "write"); NEED(0 != rd(b, 0, r, "c8", 1, 1), "u8 converted to c8"); big_block_close(b);'''),
  needs="an unsupported pair of types of the same width", breaks="an unsupported conversion is not refused, the bits are reinterpreted"),
 dict(id="relaxed-strides", property="C05",
  edits=[(B, '''        if(array->strides[i] != stride_contiguous) {
            iter->contiguous = 0;''', '''        /* the stride of a single row does not matter */
        if(array->dims[i] != 1 && array->strides[i] != stride_contiguous) {
            iter->contiguous = 0;''')],
  demo=demo('''size_t fs[1] = {3}; int64_t r[3]; int32_t v[16]; int i; for(i = 0; i < 16; i ++) v[i] = i;
 NEED(0 == big_file_create_block(bf, b, "a", "i8", 1, 1, fs), "create block"); BigBlockPtr q; BigArray a; size_t d[2] = {3, 1}; ptrdiff_t st[2] = {4, 16};
 big_array_init(&a, v, "i4", 2, d, st); NEED(0 == big_block_seek(b, &q, 0) && 0 == big_block_write(b, &q, &a), "write");
 NEED(0 == rd(b, 0, r, "i8", 3, 1) && r[0] == 0 && r[1] == 1 && r[2] == 2, "%ld %ld %ld", (long) r[0], (long) r[1], (long) r[2]); big_block_close(b);'''),
  needs="an array whose last dimension has length one and an unusual stride", breaks="rows are taken from the wrong places"),
 dict(id="swar-sum", property="C06",
  edits=[(B, '''    while(size --)    
        thisrun += *(cp++);
''', '''    /* four pairs of bytes at a time */
    uint64_t acc = 0;
    while(size >= 8) {
        uint64_t w;
        memcpy(&w, cp, 8);
        acc += (w & 0x00ff00ff00ff00ffull);
        acc += ((w >> 8) & 0x00ff00ff00ff00ffull);
        cp += 8;
        size -= 8;
    }
    thisrun += (acc & 0xffff) + ((acc >> 16) & 0xffff) + ((acc >> 32) & 0xffff) + (acc >> 48);
    while(size --)    
        thisrun += *(cp++);
''')],
  demo=demo('''size_t fs[1] = {2000}; unsigned char v[2000]; memset(v, 255, 2000); int i;
 NEED(0 == big_file_create_block(bf, b, "a", "b1", 1, 1, fs), "create block");
 NEED(0 == wr(b, 0, v, "b1", 2000, 1), "write"); NEED(b->fchecksum[0] == 2000 * 255, "%u", b->fchecksum[0]); big_block_close(b);'''),
  needs="a buffer of more than a kilobyte with large byte values", breaks="the lanes of the sum overflow, the checksum is wrong"),
 dict(id="sum-attempt", property="C06",
  edits=[(B, '''    for(i = 0; i < bb->Nfile; i ++) {
        fsize[i] = bb->fsize[i];
        fchecksum[i] = bb->fchecksum[i];
    }
''', '''    for(i = 0; i < bb->Nfile; i ++) {
        fsize[i] = bb->fsize[i];
        fchecksum[i] = bb->fchecksum[i];
        if(Nfile_grow == 0) fchecksum[i] = 0;
    }
''')],
  demo=demo('''size_t fs[1] = {2}; int64_t v[2] = {3, 4};
 NEED(0 == big_file_create_block(bf, b, "a", "i8", 1, 1, fs), "create block");
 NEED(0 == wr(b, 0, v, "i8", 2, 1), "write"); NEED(0 == big_block_grow(b, 0, fs), "grow by nothing"); NEED(b->fchecksum[0] == 7, "%u", b->fchecksum[0]); big_block_close(b);'''),
  needs="growing a written block by zero files", breaks="the recorded checksums are lost"),
 dict(id="attr-insert", property="C07",
  edits=[(B, '''    qsort(attrset->attrlist, attrset->listused, sizeof(BigAttr), attr_cmp);
    return 0;''', '''    /* the others are sorted already: sift the new one to its place */
    size_t i;
    for(i = attrset->listused - 1; i > 1 && attr_cmp(&attrset->attrlist[i - 1], &attrset->attrlist[i]) > 0; i --) {
        BigAttr t = attrset->attrlist[i];
        attrset->attrlist[i] = attrset->attrlist[i - 1];
        attrset->attrlist[i - 1] = t;
    }
    if(attrset->listused == 2 && attr_cmp(&attrset->attrlist[0], &attrset->attrlist[1]) > 0) {
        BigAttr t = attrset->attrlist[0];
        attrset->attrlist[0] = attrset->attrlist[1];
        attrset->attrlist[1] = t;
    }
    return 0;''')],
  demo=demo('''size_t fs[1] = {0}; int64_t v[3] = {1,2,3}, r = 0;
 NEED(0 == big_file_create_block(bf, b, "a", "i8", 1, 1, fs), "create block");
 NEED(0 == big_block_set_attr(b, "m", v, "i8", 1), "set"); NEED(0 == big_block_set_attr(b, "n", v + 1, "i8", 1), "set"); NEED(0 == big_block_set_attr(b, "a", v + 2, "i8", 1), "set");
 NEED(0 == big_block_get_attr(b, "m", &r, "i8", 1) && r == 1, "get"); big_block_close(b);'''),
  needs="a third attribute whose name sorts before the other two", breaks="an attribute that was set is not found"),
 dict(id="attr-17", property="C07",
  edits=[(B, "    while(attrset->listsize - attrset->listused < 1) {", "    while(attrset->listused > attrset->listsize) {")],
  cflags="-fsanitize=address",
  demo=demo("""size_t fs[1] = {0}; int64_t i; char n[20];
 NEED(0 == big_file_create_block(bf, b, "a", "i8", 1, 1, fs), "create block");
 for(i = 0; i < 40; i ++) { sprintf(n, "n%d", (int) i); NEED(0 == big_block_set_attr(b, n, &i, "i8", 1), "set"); }
 NEED(0 == big_block_close(b), "close"); _exit(0);"""),
  needs="more than sixteen attributes on one block", breaks="the list of attributes overruns its memory"),
 dict(id="short-write", property="C09",
  edits=[(B, "        RAISEIF(chunk_size != fwrite(chunkbuf, felsize, chunk_size, fp),", "        RAISEIF(fwrite(chunkbuf, felsize, chunk_size, fp) < 1,")],
  demo=demo('''size_t fs[1] = {4}; int64_t v[4] = {1,2,3,4}; struct rlimit rl = {12, 4096*1024}; signal(SIGXFSZ, SIG_IGN);
 NEED(0 == big_file_create_block(bf, b, "a", "i8", 1, 1, fs), "create block");
 NEED(0 == setrlimit(RLIMIT_FSIZE, &rl), "limit"); NEED(0 != wr(b, 0, v, "i8", 4, 1), "a write that does not fit succeeds");'''),
  needs="a write that is cut short after at least one row (full disk, quota)", breaks="the lost rows are not reported"),
 dict(id="short-read", property="C10",
  edits=[(B, "        RAISEIF(chunk_size != fread(chunkbuf, felsize, chunk_size, fp),", "        RAISEIF(0 == fread(chunkbuf, felsize, chunk_size, fp),")],
  demo=demo('''size_t fs[1] = {4}; int64_t v[4] = {1,2,3,4};
 NEED(0 == big_file_create_block(bf, b, "a", "i8", 1, 1, fs), "create block");
 NEED(0 == wr(b, 0, v, "i8", 4, 1), "write"); NEED(0 == truncate("f/a/000000", 20), "truncate"); NEED(0 != rd(b, 0, v, "i8", 4, 1), "reading a truncated file succeeds");'''),
  needs="a data file shorter than the header says", breaks="rows that are not there are made up from uninitialised memory"),
 dict(id="grow-r+", property="C08",
  edits=[(B, '''    for(i = oldNfile; i < bb->Nfile; i ++) {
        FILE * fp = _big_file_open_a_file(bb->basename, i, "w", 1);''', '''    for(i = oldNfile; i < bb->Nfile; i ++) {
        FILE * fp = _big_file_open_a_file(bb->basename, i, "a", 1);''')],
  demo=demo('''size_t fs[1] = {2}; int64_t v[2] = {3, 4};
 NEED(0 == big_file_create_block(bf, b, "a", "i8", 1, 1, fs), "create block");
 NEED(0 == wr(b, 0, v, "i8", 2, 1), "write"); NEED(0 == big_block_close(b), "close");
 /* a grow whose process was killed before the header was written leaves this */
 FILE * fp = fopen("f/a/000001", "w"); fwrite(v, 8, 2, fp); fclose(fp);
 NEED(0 == big_file_open_block(bf, b, "a"), "open"); NEED(0 == big_block_grow(b, 1, fs), "grow"); int64_t r[2] = {0, 0};
 NEED(0 != rd(b, 2, r, "i8", 2, 1) || (r[0] == 0 && r[1] == 0), "new rows read %ld %ld", (long) r[0], (long) r[1]);'''),
  needs="a crash between writing the rows of a grown file and its header, then growing again", breaks="rows never written read as old data"),
 dict(id="list-filter", property="C17",
  edits=[(B, '''    if(ent->d_name[0] == '.') return 0;
    return 1;''', '''    if(ent->d_name[0] == '.') return 0;
    /* data files of a block */
    if(strspn(ent->d_name, "0123456789ABCDEF") == strlen(ent->d_name)) return 0;
    return 1;''')],
  demo=demo('''size_t fs[1] = {0}; char ** names; int n = 0;
 NEED(0 == big_file_create_block(bf, b, "0/Mass", "i8", 1, 0, fs), "create block"); NEED(0 == big_block_close(b), "close");
 NEED(0 == big_file_list(bf, &names, &n) && n == 1, "%d blocks listed", n);'''),
  needs="a group or block whose name looks like a hexadecimal number, such as the particle type 0", breaks="the blocks are missing from the listing"),
 dict(id="join-root", property="C17",
  edits=[(B, '''        mydirname = _path_join(pathname, subdirname);
        if(strlen(mydirname) != 0) {''', '''        mydirname = _path_join(pathname, subdirname);
        if(p[1] != 0 && strchr(p + 1, '/') == NULL) {''')],
  demo=demo('''size_t fs[1] = {0};
 NEED(0 == big_file_create_block(bf, b, "x/y/z", "i8", 1, 0, fs), "create block"); NEED(0 == big_block_close(b), "close");'''),
  needs="a new block two groups deep", breaks="creating it fails"),
 dict(id="fmt-u8", property="C19",
  edits=[(B, '    FORMAT1(u8, "%lu")', '    FORMAT1(u8, "%ld")')],
  demo=demo('''char buf[100]; uint64_t v = ~(uint64_t)0; big_file_dtype_format(buf, "u8", &v, NULL); NEED(!strcmp(buf, "18446744073709551615"), "%s", buf);'''),
  needs="an unsigned 8-byte value of 2^63 or more", breaks="it is shown as a negative number"),
 dict(id="parse-be", property="C19",
  edits=[(B, "    dtype_convert_simple(data, dtype, converted, ndtype, 1);\n\n    return 0;", "    memcpy(data, converted, big_file_dtype_itemsize(dtype));\n\n    return 0;")],
  demo=demo('''uint32_t v = 0; NEED(0 == big_file_dtype_parse("1", ">u4", &v, NULL), "parse"); NEED(v == 0x01000000, "%x", v);'''),
  needs="a type in the other byte order", breaks="the parsed value is stored in the wrong byte order"),
 dict(id="msg-null", property="C26",
  edits=[(B, '''    RAISEIF(0 != stat(basename, &st),
            ex_stat,
            "Big File `%s' does not exist (%s)", basename,
            strerror(errno));
    bf->basename = _strdup(basename);''', '''    bf->basename = _strdup(basename);
    RAISEIF(0 != stat(basename, &st),
            ex_stat,
            "Big File `%.24s' does not exist (%s)", bf->basename,
            strerror(errno));''')],
  demo=demo('''BigFile g[1]; NEED(0 != big_file_open(g, "a-rather-long-name-of-a-file/PART_018"), "open"); NEED(strstr(big_file_get_error_message(), "PART_018"), "name not in the message");'''),
  needs="a name longer than 24 characters", breaks="the message names a different file"),
 dict(id="rec-elsize", property="C18",
  edits=[("src/bigfile-record.c", "    memcpy(data, &p[i * rtype->itemsize + rtype->fields[c].offset],\n           rtype->fields[c].elsize * rtype->fields[c].nmemb);", "    int size = rtype->itemsize;\n    if(c + 1 < rtype->nfield) size = rtype->fields[c + 1].offset;\n    size -= rtype->fields[c].offset;\n    memcpy(data, &p[i * rtype->itemsize + rtype->fields[c].offset], size);"),
         ("src/bigfile-record.c", "    ptrdiff_t strides[2] = { rtype->itemsize, rtype->fields[i].elsize };", "    ptrdiff_t strides[2] = { size > 1 ? rtype->itemsize : rtype->fields[i].elsize * rtype->fields[i].nmemb, rtype->fields[i].nmemb > 2 ? rtype->fields[i].elsize : rtype->itemsize - rtype->fields[i].offset > 2 * rtype->fields[i].elsize ? rtype->fields[i].elsize : rtype->itemsize - rtype->fields[i].offset - rtype->fields[i].elsize };")],
  demo=demo('''BigRecordType rt[1] = {{0}}; big_record_type_clear(rt); big_record_type_add(rt, "x", "i4", 1); big_record_type_add(rt, "y", "i4", 1); big_record_type_complete(rt);
 int32_t buf[6] = {1,2,3,4,5,6}, r[6] = {0}; size_t fs[1] = {3};
 NEED(0 == big_file_create_records(bf, rt, "w+", 1, fs), "create"); NEED(0 == big_file_write_records(bf, rt, 0, 3, buf), "write"); NEED(0 == big_file_read_records(bf, rt, 0, 3, r), "read");
 NEED(!memcmp(buf, r, 24), "records differ");'''),
  needs="x", breaks="x") if False else
 dict(id="rec-append", property="C18",
  edits=[("src/bigfile-record.c", '''    int i;
    for(i = 0; i < rtype->nfield; i ++) {
        BigBlock block[1];
        if (0 == strcmp(mode, "w+")) {''', '''    int i;
    /* nothing to append */
    if (0 == strcmp(mode, "a+") && (Nfile == 0 || fsize[0] == 0)) return 0;
    for(i = 0; i < rtype->nfield; i ++) {
        BigBlock block[1];
        if (0 == strcmp(mode, "w+")) {''')],
  demo=demo('''BigRecordType rt[1] = {{0}}; big_record_type_add(rt, "x", "i4", 1); big_record_type_add(rt, "y", "f8", 2); big_record_type_complete(rt);
 size_t fs[1] = {3}, gs[2] = {0, 2};
 NEED(0 == big_file_create_records(bf, rt, "w+", 1, fs), "create"); NEED(0 == big_file_create_records(bf, rt, "a+", 2, gs), "append");
 NEED(0 == big_file_open_block(bf, b, "y") && b->size == 5, "size %ld", (long) b->size);'''),
  needs="appending files of which the first is empty", breaks="the rows of the other files are not appended"),
]
