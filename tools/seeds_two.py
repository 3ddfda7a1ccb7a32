import os, runpy
D = os.path.dirname(os.path.abspath(__file__))
C = runpy.run_path(D + "/seeds_core.py"); M = runpy.run_path(D + "/seeds_mp.py")
B, H, demo = C["B"], C["H"], C["demo"]
mpi, mpi_demo, mpi_sh = M["mpi"], M["mpi_demo"], M["mpi_sh"]
P, U, R = "src/bigfile-mpi.c", "src/mp-mpiu.c", "src/bigfile-record.c"
def s(id, prop, edits, body, needs, breaks, pre="", flags=""):
    return dict(id=id, property=prop, edits=edits, demo=demo(body) if not pre else demo(body).replace("int main(void)", pre + "\nint main(void)"), needs=needs, breaks=breaks, cflags=flags)
INTER = r'''
static int comms, types;
int MPI_Comm_split(MPI_Comm c, int a, int b, MPI_Comm * n) { comms ++; return PMPI_Comm_split(c, a, b, n); }
int MPI_Comm_free(MPI_Comm * n) { comms --; return PMPI_Comm_free(n); }
int MPI_Type_contiguous(int n, MPI_Datatype o, MPI_Datatype * t) { types ++; return PMPI_Type_contiguous(n, o, t); }
int MPI_Type_free(MPI_Datatype * t) { types --; return PMPI_Type_free(t); }
#define W MPI_COMM_WORLD
'''
def mpi2(*a):
    d = mpi(*a); d["demo"] = d["demo"].replace("#define W MPI_COMM_WORLD", INTER, 1); return d
def asan(d): d["sh"] = mpi_sh(d.pop("n")).replace("mpicc -O1 -g", "mpicc -O1 -g -fsanitize=address").replace("export OMPI", "export ASAN_OPTIONS=detect_leaks=0 OMPI"); return d
SEEDS = [
 s("iter-unit", "C05", [(B, '''            if(k > 0) {
                iter->pos[k - 1] ++;''', '''            if(k > 0 && array->dims[k - 1] > 1) {
                iter->pos[k - 1] ++;''')], r'''
 size_t fs[1] = {4}; int m[64], o[4] = {0}, i; for(i = 0; i < 64; i ++) m[i] = i; BigArray a; BigBlockPtr q; size_t d[3] = {2, 1, 2}; ptrdiff_t st[3] = {40, 20, 8};
 NEED(0 == big_file_create_block(bf, b, "a", "i4", 1, 1, fs), "create block"); big_array_init(&a, m, "i4", 3, d, st);
 NEED(0 == big_block_seek(b, &q, 0) && 0 == big_block_write(b, &q, &a), "write"); NEED(0 == rd(b, 0, o, "i4", 4, 1), "read");
 NEED(o[0] == 0 && o[1] == 2 && o[2] == 10 && o[3] == 12, "%d %d %d %d", o[0], o[1], o[2], o[3]); big_block_close(b);''',
 "a buffer of three dimensions with gaps where one of the outer ones but the first has the length one", "elements beyond the first such row are taken from the wrong place"),
 s("copy-inner", "C05", [(B, "        if(dst->contiguous && src->contiguous) {", '''        size_t width = big_file_dtype_itemsize(dst->array->dtype);
        BigArray * sa = src->array;
        if(dst->contiguous && (src->contiguous ||
           (sa->ndim == 2 && sa->strides[1] == width && nmemb <= sa->dims[1]))) {''')], r'''
 size_t fs[1] = {4}; int m[16], o[8] = {0}, i; for(i = 0; i < 16; i ++) m[i] = i; BigArray a; BigBlockPtr q; size_t d[2] = {4, 2}; ptrdiff_t st[2] = {16, 4}; big_file_set_buffer_size(8);
 NEED(0 == big_file_create_block(bf, b, "a", "i4", 2, 1, fs), "create block"); big_array_init(&a, m, "i4", 2, d, st);
 NEED(0 == big_block_seek(b, &q, 0) && 0 == big_block_write(b, &q, &a), "write"); NEED(0 == rd(b, 0, o, "i4", 4, 2), "read");
 for(i = 0; i < 8; i ++) NEED(o[i] == i / 2 * 4 + i % 2, "number %d is %d", i, o[i]); big_block_close(b);''',
 "a source with gaps between its rows and an internal buffer of one row", "the gaps are written"),
 s("sum-after-seek", "C06", [(B, '''        sysvsum(&bb->fchecksum[ptr->fileid], chunkbuf, chunk_size * felsize);

''', ""), (B, '''        towrite -= chunk_size;
        RAISEIF(0 != big_block_seek_rel(bb, ptr, chunk_size),
                ex_blockseek, NULL);
''', '''        towrite -= chunk_size;
        RAISEIF(0 != big_block_seek_rel(bb, ptr, chunk_size),
                ex_blockseek, NULL);
        sysvsum(&bb->fchecksum[ptr->fileid], chunkbuf, chunk_size * felsize);
''')], r'''
 size_t fs[2] = {2, 2}; unsigned char v[4] = {1, 2, 3, 4};
 NEED(0 == big_file_create_block(bf, b, "a", "u1", 1, 2, fs), "create block"); NEED(0 == wr(b, 0, v, "u1", 4, 1), "write"); NEED(b->fchecksum[0] == 3 && b->fchecksum[1] == 7, "checksums %u %u", b->fchecksum[0], b->fchecksum[1]); big_block_close(b);''',
 "a write that reaches the end of a physical file that is not the last one", "bytes are counted in the checksum of the next file"),
 s("attr-case", "C07", [(B, "    return strcmp(c1->name, c2->name);", "    return strcasecmp(c1->name, c2->name);"), (B, "#include <string.h>\n", "#include <string.h>\n#include <strings.h>\n")], r'''
 size_t fs[1] = {1}; char c = 0;
 NEED(0 == big_file_create_block(bf, b, "a", "u1", 1, 1, fs), "create block"); NEED(0 == big_block_set_attr(b, "Omega", "O", "S1", 1) && 0 == big_block_set_attr(b, "omega", "o", "S1", 1), "set"); NEED(0 == big_block_get_attr(b, "Omega", &c, "S1", 1) && c == 'O', "Omega is %c", c); big_block_close(b);''',
 "two attributes whose names differ only in case", "one replaces the other"),
 s("attr-newline", "C07", [(B, '''                    if(buf[0] == '\\n') {
                        strcat(textual, "...");
                        break;
                    } if(buf[0] == 0) {''', '''                    if(buf[0] == 0) {''')], r'''
 size_t fs[1] = {1}; char c[10];
 NEED(0 == big_file_create_block(bf, b, "a", "u1", 1, 1, fs), "create block"); NEED(0 == big_block_set_attr(b, "text", "one\ntwo", "S1", 7), "set"); NEED(0 == big_block_close(b), "close");
 NEED(0 == big_file_open_block(bf, b, "a"), "open"); NEED(0 == big_block_get_attr(b, "text", c, "S1", 7), "get"); big_block_close(b);''',
 "a text attribute of several lines", "the second line of the text is taken for an attribute"),
 s("cast-u8-f8", "C04", [(B, '        CAST("u8", uint64_t, "f8", double);', '        CAST("u8", int64_t, "f8", double);')], r'''
 size_t fs[1] = {1}; double v = 13835058055282163712.0; uint64_t r = 0;
 NEED(0 == big_file_create_block(bf, b, "a", "u8", 1, 1, fs), "create block"); NEED(0 == wr(b, 0, &v, "f8", 1, 1), "write"); NEED(0 == rd(b, 0, &r, "u8", 1, 1) && r == 13835058055282163712ul, "reads %lu", (unsigned long) r); big_block_close(b);''',
 "floating point numbers above 2^63 stored as unsigned", "they all become 2^63"),
 s("dirty-early", "C09", [(B, '''        block->dirty = 0;
    }
    if(block->attrset->dirty) {''', '''    }
    if(block->attrset->dirty) {'''), (B, '''    if(block->dirty) {
        int i;
''', '''    if(block->dirty) {
        int i;
        block->dirty = 0;
''')], r'''
 size_t fs[1] = {1}; unsigned char v = 9; struct stat st;
 NEED(0 == big_file_create_block(bf, b, "a", "u1", 1, 1, fs), "create block"); NEED(0 == wr(b, 0, &v, "u1", 1, 1), "write");
 chmod("f/a", 0500); NEED(0 == rename("f/a", "f/b"), "rename"); NEED(0 != big_block_flush(b), "flush into nowhere"); NEED(0 == rename("f/b", "f/a"), "rename"); chmod("f/a", 0700); NEED(0 == big_block_close(b), "close");
 NEED(0 == big_file_open_block(bf, b, "a"), "open"); NEED(b->fchecksum[0] == 9, "the stored checksum is %u", b->fchecksum[0]); big_block_close(b);''',
 "a flush that fails, followed by one that succeeds", "the second flush stores nothing"),
 s("dtype-zero", "C10", [(B, "    if(width > 16 || width <= 0)\n", "    if(width > 16 || width < 0)\n")], r'''
 mkdir("f/a", 0755); FILE * fp = fopen("f/a/header", "w"); fprintf(fp, "DTYPE: <i0\nNMEMB: 1\nNFILE: 1\n000000: 1 : 0 : 0\n"); fclose(fp); fclose(fopen("f/a/000000", "w"));
 NEED(0 != big_file_open_block(bf, b, "a"), "a block of a type without width is opened");''',
 "a header with a type of width zero", "it is opened, and reading divides by zero"),
 s("seek-zero", "C02", [(B, "    if(bb->size == 0 && offset == 0) {", "    if(offset == 0) {")], r'''
 size_t fs[2] = {0, 2}; unsigned char v[2] = {1, 2}; alarm(5);
 NEED(0 == big_file_create_block(bf, b, "a", "u1", 1, 2, fs), "create block"); NEED(0 == wr(b, 0, v, "u1", 2, 1), "write"); NEED(0 == rd(b, 0, v, "u1", 2, 1), "read"); big_block_close(b);''',
 "a block with rows whose first physical file is empty", "writing at its beginning never ends"),
 s("rec-hole", "C18", [(R, '''        memset(&rtype->fields[rtype->nfield], 0,
            (i + 1 - rtype->nfield) * sizeof(rtype->fields[0]));
''', '''        memset(&rtype->fields[i], 0, sizeof(rtype->fields[0]));
''')], r'''
 int i; char * p[40]; for(i = 0; i < 40; i ++) { p[i] = malloc(32 * i + 16); memset(p[i], 0x55, 32 * i + 16); } for(i = 0; i < 40; i ++) free(p[i]);
 BigRecordType t[1] = {{0}}; big_record_type_set(t, 2, "c", "i4", 1); big_record_type_set(t, 0, "a", "i4", 1); big_record_type_set(t, 1, "b", "i4", 1); big_record_type_complete(t); NEED(t->itemsize == 12, "size %ld", (long) t->itemsize);''',
 "the fields of a record type being set in another order than the first to the last", "memory that was never set is used as the name of a field"),
 s("parse-li", "C19", [(B, '    PARSE1(i8, "%ld") else', '    PARSE1(i8, "%li") else')], r'''
 int64_t v = 0; NEED(0 == big_file_dtype_parse("0017", "i8", &v, NULL) && v == 17, "0017 is %ld", (long) v); NEED(0 == big_file_dtype_parse("-08", "i8", &v, NULL) && v == -8, "-08 is %ld", (long) v);''',
 "a number with leading zeros", "it is taken as octal"),
 s("leak-simple", "C27", [(B, '''ex_read:
    free(buffer);
    array->data = NULL;''', '''ex_read:
    array->data = NULL;''')], r'''
 size_t fs[1] = {1000}; BigArray a; int i; NEED(0 == big_file_create_block(bf, b, "a", "u1", 1, 1, fs), "create block"); NEED(0 != big_block_read_simple(b, 0, 1000, &a, NULL), "read of nothing");
 size_t u = mallinfo2().uordblks; for(i = 0; i < 300; i ++) big_block_read_simple(b, 0, 1000, &a, NULL); u = mallinfo2().uordblks - u; NEED(u < 100000, "%zu bytes are left by failed reads", u); big_block_close(b);''',
 "a convenience read that fails (a missing or short data file, an I/O error)", "its buffer is lost", pre="#include <malloc.h>"),
 s("leak-close", "C27", [(B, '''ex_flush:
    rt = -1;
    goto finalize;''', '''ex_flush:
    rt = -1;
    return rt;''')], r'''
 size_t fs[1] = {1}; int i; unsigned char v = 1; char big[1000] = {0}; size_t u = 0; for(i = 0; i < 200; i ++) { NEED(0 == big_file_create_block(bf, b, "a", "u1", 1, 1, fs), "create block"); big_block_set_attr(b, "x", big, "S1", 1000); NEED(0 == rename("f/a", "f/b"), "rename"); NEED(0 != big_block_close(b), "close into nowhere"); NEED(0 == system("rm -rf f/a f/b"), "rm"); if(i == 10) u = mallinfo2().uordblks; } (void) v;
 u = mallinfo2().uordblks - u; NEED(u < 100000, "%zu bytes are left by failed closes", u);''',
 "a close whose flush fails", "the block's memory is lost, because there is no second close", pre="#include <malloc.h>"),
 mpi2("leak-leaders", "C27", 3, [(U, '''    MPI_Comm_free(&segmenter->Leaders);
''', '''    if(segmenter->is_group_leader) {
        MPI_Comm_free(&segmenter->Leaders);
    }
''')], r'''
 size_t fs[1] = {3}; int v = R; size_t d[2] = {1, 1}; NEED(0 == _big_file_mpi_create_block(bf, b, "x", "i4", 1, 1, fs, W), "create"); big_array_init(&a, &v, "i4", 2, d, NULL); big_file_mpi_set_aggregated_threshold(100);
 NEED(0 == big_block_seek(b, &q, 0), "seek"); NEED(0 == big_block_mpi_write(b, &q, &a, 1, W), "write"); NEED(0 == big_block_mpi_close(b, W), "close"); NEED(comms == 0, "%d communicators are left", comms);
''', "a collective access with groups of several ranks", "communicators of the ranks that do not lead are lost"),
 mpi2("leak-type", "C27", 2, [(P, '''    if(rank == root) {
        free(gbuf);
    }
    free(lbuf);

    MPI_Type_free(&mpidtype);

    return big_file_mpi_broadcast_anyerror(e, comm);
''', '''    if(rank == root) {
        free(gbuf);
    }
    free(lbuf);

    if(0 != (e = big_file_mpi_broadcast_anyerror(e, comm))) {
        return e;
    }

    MPI_Type_free(&mpidtype);
    return 0;
''')], r'''
 size_t fs[1] = {2}; int v = R; size_t d[2] = {1, 1}; NEED(0 == _big_file_mpi_create_block(bf, b, "x", "i4", 1, 1, fs, W), "create"); big_array_init(&a, &v, "i4", 2, d, NULL);
 NEED(0 == big_block_seek(b, &q, 1), "seek"); NEED(0 != big_block_mpi_write(b, &q, &a, 1, W), "a write beyond the end"); NEED(0 == big_block_mpi_close(b, W), "close"); NEED(types == 0, "%d datatypes are left", types);
''', "a collective access that fails", "its MPI datatype is lost"),
 mpi("seek-local", "C13", 2, [(P, "        big_block_seek_rel(block, ptr, totalsize);", "        big_block_seek_rel(block, ptr, myoffset + localsize);")], r'''
 size_t fs[1] = {4}; int v = R, i, o[4]; size_t d[2] = {1, 1}; NEED(0 == _big_file_mpi_create_block(bf, b, "x", "i4", 1, 1, fs, W), "create"); big_array_init(&a, &v, "i4", 2, d, NULL);
 NEED(0 == big_block_seek(b, &q, 0), "seek"); NEED(0 == big_block_mpi_write(b, &q, &a, 0, W), "write"); NEED(q.aoffset == 2, "rank %d is at %ld after 2 rows", R, (long) q.aoffset); big_block_mpi_close(b, W); (void) i; (void) o;
''', "a second collective access that continues at the position of the first", "all ranks but the last are at a wrong position"),
 mpi("err-last", "C14", 2, [(P, '''    int root, loc = 0;
    /* Add 1 so we do not swallow errors on rank 0*/
    if(rt != 0)
        loc = rank+1;

    MPI_Allreduce(&loc, &root, 1, MPI_INT, MPI_MAX, comm);

    if (root == 0) {
        /* no errors */
        return 0;
    }
''', '''    int NTask, root, loc;
    MPI_Comm_size(comm, &NTask);
    /* the first rank that failed tells the others; Add 1 so we do not swallow errors on rank 0*/
    loc = (rt != 0)?rank + 1:NTask;

    MPI_Allreduce(&loc, &root, 1, MPI_INT, MPI_MIN, comm);

    if (root == NTask) {
        /* no errors */
        return 0;
    }
''')], r'''
 size_t fs[2] = {1, 1}; NEED(0 == _big_file_mpi_create_block(bf, b, "x", "i4", 1, 2, fs, W), "create"); NEED(0 == big_block_mpi_close(b, W), "close"); if(R == 0) { remove("f/x/000001"); mkdir("f/x/000001", 0755); } MPI_Barrier(W); NEED(0 == big_file_mpi_open_block(bf, b, "x", W), "open");
 int v = 7; size_t d[2] = {R == N - 1, 1}; big_array_init(&a, &v, "i4", 2, d, NULL); NEED(0 == big_block_seek(b, &q, 1), "seek");  NEED(0 != big_block_mpi_write(b, &q, &a, 0, W), "a failed write is reported as success");
''', "the only rank that fails being the last one of the program", "its failure is ignored by all"),
 asan(dict(mpi("unpack-tight", "C15", 2, [(B, "    attrset->attrbuf = malloc(attrset->bufsize);", "    attrset->attrbuf = malloc(attrset->bufused + 1);")], r'''
 size_t fs[1] = {1}; NEED(0 == _big_file_mpi_create_block(bf, b, "x", "i4", 1, 1, fs, W), "create"); NEED(0 == big_block_set_attr(b, "name", "a value of some length", "S1", 22), "set"); char v[22]; NEED(0 == big_block_get_attr(b, "name", v, "S1", 22) && !memcmp(v, "a value of some length", 22), "get"); NEED(0 == big_block_mpi_close(b, W), "close");
''', "attributes being set on other ranks than the root after opening or creating a block", "memory is overwritten there"), n=2)),
 mpi("gather-total", "C16", 3, [(U, "            *totalnrecv = rdispls[NTask];\n", "            *totalnrecv = rdispls[NTask - 1] + nsend;\n")], r'''
 int v[3] = {1, 2, 3}, tot = -1; int * p = MPIU_Gather(W, 0, v, NULL, R + 1, sizeof(int), &tot); NEED(tot == (R == 0 ? 6 : 0), "rank %d: total %d", R, tot); (void) p; (void) a; (void) q; (void) b;
''', "the last rank sending another number of items than the root", "the total is wrong"),
]
