#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))
C = "src/bigfile.c"; M = "src/bigfile-mpi.c"; U = "src/mp-mpiu.c"; R = "src/bigfile-record.c"
PY = "bigfile/__init__.py"; PX = "bigfile/pyxbigfile.pyx"

p("C01", "Data written to a block is exactly the data read back",
  "After any sequence of creating, writing, seeking, growing, flushing, closing and re-opening a block, reading any range of rows returns for every row the value most recently written to it, whatever the split into physical files, the I/O buffer size, the file offsets (also beyond 4 GiB) and the sizes of the individual reads and writes. "
  "Rows never written either make the read fail or read as zeros; they never read as other data. "
  "Growing a block, or operating on another block, leaves every existing row unchanged.",
  ["histories", "inputs", "configurations"],
  "every operation sequence up to the stated depth x every file partition (including empty files, zero rows, huge sparse files) x element type/width x rows per buffer",
  "The suite writes a few fixed patterns in one shot; the buffer size, partition and interleaving of partial reads/writes/grows are unbounded and the bugs live where a chunk meets a file boundary.",
  [C], [("big_block_write/big_block_read chunk loop", C), ("big_block_seek file lookup", C), ("big_block_grow", C)],
  [("BigBlock.foffset/fsize", "row offsets of the physical files", "src/bigfile.h")],
  ["big_block_read", "big_block_read_simple"])
p("C02", "Positions, end-of-block and range checks",
  "Seeking to row o (negative o counts from the end) succeeds for every row from 0 up to and including the end of the block and fails beyond it; reads and writes move the position forward by exactly the number of rows transferred, relative seeks move it by their argument, and end-of-block is reported exactly when the position is at the end. "
  "A write or read reaching past the end fails and changes neither any row of the block nor any file outside it, and an empty read or write inside the block succeeds. "
  "A convenience read of n rows from a row inside the block returns exactly the rows from there up to min(n, rows left), in the requested type.",
  ["inputs", "histories"], "every position and length in and just outside blocks of every small partition, including empty files at both ends and zero-row blocks",
  "The suite checks a handful of positions on evenly split blocks; boundaries with empty files, end seeks and over-long transfers are a product space.",
  [C], [("big_block_seek", C), ("big_block_seek_rel", C), ("big_block_eof", C), ("big_block_read_simple", C), ("abs > bb->size guards", C)],
  [("BigBlockPtr", "current position", "src/bigfile.h")], ["return codes", "subsequent reads and raw files"])
p("C03", "The on-disk format is the documented one, whatever the write history",
  "A closed block consists of a text header (normalised dtype with explicit byte order, members per row, number of files, and per physical file its six-digit hexadecimal name, row count, byte sum and reduced System V sum), an attribute file, and raw data files holding the rows in the header's type and byte order, one after the other. "
  "The bytes on disk depend only on the final content and partition, not on how the content was split into write calls, on the buffer size, or on flushes and re-opens in between. "
  "Conversely a block laid out by hand in that format is read back with the same values, sizes, types and attributes.",
  ["histories", "inputs", "configurations"], "every composition of a block's rows into writes x buffer size x partition (also more than 16 files) x dtype; every hand-built block from the same grammar",
  "The tests only ever read with the same library that wrote; a symmetric change of the format passes all of them and breaks every existing archive.",
  [C, "README.rst"], [("big_block_flush header writer", C), ("_big_block_open parser", C), ("EXT_DATA file naming", C), ("attrset_write_attr_set_v2", C)],
  (), ["raw bytes of header/attr-v2/data files"])
p("C04", "Element type and byte-order conversion",
  "Writing an array of one supported element type into a block of another, and reading it back as a third, converts each element as the C conversion between these types does, independent of either side's byte order (little-endian, big-endian or native), for all pairs of 4- and 8-byte signed, unsigned and floating types, from boolean bytes, and between the two complex types; equal types are copied bit for bit, with any width. "
  "A pair that is not supported is refused with an error and no row is changed. "
  "The same conversions apply to attributes, and stored attributes are not altered by reading them.",
  ["inputs"], "all (source, stored, destination) type pairs x byte orders x boundary values representable in the destination x several elements",
  "Tests use native byte order and same-type round trips almost exclusively; the conversion table is a 2-D product of pairs and byte orders.",
  [C], [("cast table", C), ("byte_swap", C), ("_dtype_convert", C), ("_dtype_normalize", C)], (), ["big_block_write/read/read_simple, big_block_get_attr"])
p("C05", "Strided arrays: the described elements, all of them, and nothing else",
  "Writing from or reading into an array described by any number of dimensions and strides (padded, transposed, negative, or broadcast on the source side) transfers the same elements in the same row-major order as with a contiguous array holding the same values, also when the transfer is split over several buffers and physical files. "
  "A read modifies only the described elements, and a write never modifies the caller's array.",
  ["inputs"], "every layout of small arrays (dims, order, padding, sign of strides, up to 4 dimensions) x chunk size x partition x element type and byte order",
  "The suite has one transposed case; iterator carry logic only shows for particular combinations of shape, stride and chunk boundary.",
  [C], [("big_array_init", C), ("big_array_iter_init contiguity test", C), ("big_array_iter_advance", C)], (), ["guard bytes around and between elements"])
p("C06", "Recorded checksums equal the byte sums of the data files",
  "For any history in which each row is written at most once, in any order, split, buffer size and element type, with any flushes, grows and re-opens in between, and also when some writes are refused because they are out of range or inconvertible, the checksum recorded for every physical file equals the sum of that file's bytes, both in the open block and in the header. "
  "Grown and never-written files record zero, and the reduced value stored beside it is the System V reduction of it.",
  ["histories", "configurations"], "every order and split of write-once histories up to the depth x partition x buffer size x flush/re-open points",
  "No test compares the recorded sums with the files under splits and re-opens.",
  [C], [("sysvsum accumulation in big_block_write", C), ("big_block_flush", C), ("_big_block_grow_internal", C)],
  [("fchecksum", "unreduced byte sum per file", "src/bigfile.h")], ["header", "raw files"])
p("C07", "Attributes behave as a persistent sorted map",
  "After any sequence of setting, replacing, removing, looking up and listing attributes, interleaved with flush, close and re-open, each present attribute has exactly the value, type, length and name last set, listing gives every present name once in sorted order, and removed or never-set names are reported absent. "
  "This holds for any number and size of attributes (including empty ones and long names and values), on data blocks, on blocks without data and on the file's own attributes, and for attributes in the legacy format. "
  "Reading an attribute with the wrong length, or setting one with an invalid name or type, fails and leaves all attributes as they were.",
  ["histories", "inputs"], "every operation sequence up to the depth over colliding names and sizes around the internal growth limits, with re-open at any point",
  "The suite sets a few attributes once; ordering, buffer growth, replacement, removal persistence and re-open form an unbounded history space.",
  [C], [("attrset_add_attr growth", C), ("attrset_lookup_attr bsearch", C), ("attrset_remove_attr", C), ("attrset_write_attr_set_v2/read_v1/read_v2", C)],
  [("BigAttrSet", "sorted list and string buffer", C)], ["lookup/list/get after re-open", "attr-v2 file"])
p("C08", "A crash never damages what was already stored elsewhere",
  "If the process stops at any system call, or in the middle of any write, of any operation on a block, then every other block of the file and every row and attribute that operation was not writing is still intact, and the block operated on opens either as it was before, as it is after, or not at all with an error. "
  "It is never opened with invented sizes, types, rows or attributes, and it can always be re-created.",
  ["crash_points", "histories"], "every system call and every byte position of every write of each operation (create, write, grow, flush, set/remove attribute, close) in small histories",
  "Tests never crash the library between two system calls.",
  [C], [("order of header, attribute and data file updates", C), ("header parse failure on truncation", C)], (), ["state re-opened after the crash"])
p("C09", "I/O failures are reported, and success means the data is stored",
  "If any system call the library depends on fails or transfers less than requested (disk full, I/O error, permission, missing file), the operation either still achieves its full effect or returns an error with a non-empty message; it never reports success for data, header or attributes that are not stored, never crashes and never leaks an open file. "
  "When every step of a history reports success, a fresh open sees exactly its effects. "
  "After a failed flush, a later successful flush or close stores everything that was pending; a failed grow leaves the open block as it was.",
  ["fault_sequences", "histories"], "every single fault (thorough: every pair, and every persistent fault from a point on) at every file-system call of each operation history",
  "Tests run on a file system that never fails.",
  [C], [("RAISEIF error paths", C), ("fclose of header/attr-v2/data", C), ("dirty flags", C)], [("dirty", "pending header/attribute update", C)], ["return codes", "re-open"])
p("C10", "Malformed files give clean errors, never memory corruption or invented data",
  "Opening and reading a block whose header, attribute files or data files are truncated at any byte, altered at any byte, missing or replaced by hostile field values either fails with an error message or yields a block whose reported sizes, types and attributes are what the files say; it never reads or writes out of bounds, hangs or crashes. "
  "A data file shorter than the header says makes reads of the missing rows fail, not return other data.",
  ["inputs"], "every truncation and every single-field/byte corruption from a hostile value set of valid header, attr-v2 and attr files, then every read operation",
  "Tests open well-formed files only.",
  [C], [("_big_block_open", C), ("attrset_read_attr_set_v2", C), ("attrset_read_attr_set_v1", C), ("dtype_isvalid", C)], (), ["ASan, return codes, values"])
p("C11", "Threads using separate handles do not disturb each other",
  "Threads that call the library at the same time on separate handles get, in every interleaving, the same results, files and return codes as when each runs alone, including when some of the calls fail. "
  "After a failing call a thread can read an error message of a failure without touching freed memory, and no call corrupts or frees memory another thread is using.",
  ["schedules"], "every interleaving of two or three threads (succeeding and failing operations) at memory-access and system-call granularity up to a preemption bound",
  "Interleavings inside the error path are microseconds wide and the suite is single-threaded.",
  [C], [("error message slot", C), ("absence of static buffers", C)], [("ERRORSTR", "last error message", C)], ["results per thread, memory state"])
p("C12", "Independent clients may write non-overlapping rows concurrently",
  "Processes that open the same block and write disjoint row ranges at the same time, in every interleaving of their file-system operations and whether or not they share a physical file, leave exactly the union of their writes; no write truncates, re-creates or rewrites rows outside its own range. "
  "Concurrently creating blocks under common new parent directories succeeds for all, and readers of already written rows are never disturbed.",
  ["schedules"], "all interleavings (partial-order reduced) of the file-system calls of 2-3 clients over small scenarios",
  "The suite has no concurrent clients; the README names non-overlapping concurrent writes as the assumption the design rests on.",
  [C, "README.rst"], [("r+ open without truncation", C), ("_big_file_mkdir tolerates EEXIST", C)], (), ["raw files, re-open"])
p("C13", "Collective reads and writes equal the serial ones",
  "For any number of ranks, any distribution of rows over ranks (including ranks with none), any concurrency limit, aggregation threshold, file partition and element types, a collective write stores exactly the ranks' rows in rank order starting at the position, and a collective read gives each rank its rows, as one serial call over the concatenation would. "
  "On success every rank's position advances by the total, and memory outside the ranks' arrays is untouched.",
  ["schedules", "configurations", "inputs"], "every rank count up to the bound x every small size vector x concurrency x threshold x partition, with every inequivalent schedule of the ranks",
  "The MPI tests run one or two fixed distributions with the default threshold and whatever schedule occurs.",
  [M, U], [("_throttle_action", M), ("_aggregated", M), ("MPIU_Segmenter_init", U)], [("segment/group assignment", "who writes which rows", U)], ["raw files, per-rank arrays"])
p("C14", "Collective calls fail on all ranks together and never hang",
  "If a collective open, create, grow, flush, close, read or write fails on any rank, for whatever reason (missing or malformed file, out-of-range request, unsupported conversion, or an I/O error on one rank at any call), then every rank of the communicator returns an error carrying the same message, in every schedule; no rank hangs, and all ranks take part in the same sequence of collective operations. "
  "A failed or refused collective write never puts rows outside the range it was asked to write, and the communicator and block remain usable: a failed grow leaves the block as it was on every rank, and a flush after a failed one stores everything that was pending.",
  ["schedules", "fault_sequences", "configurations"], "every collective operation x failing rank x failing file-system call x small configurations x inequivalent schedules",
  "The tests make no rank fail; error agreement depends on which rank fails where.",
  [M], [("big_file_mpi_broadcast_anyerror", M), ("BCAST_AND_RAISEIF", M), ("_throttle_action error loop", M)], (), ["return codes, messages, deadlock detection"])
p("C15", "Block metadata stays identical on all ranks and equal to the serial result",
  "After any sequence of collective open, create, grow, set/remove attribute, write, flush and close, every rank sees the same sizes, types and attributes, and the files on disk are byte for byte those the same history leaves when executed serially by one process. "
  "In particular checksums after distributed writes, repeated flushes and grows equal the byte sums of the files.",
  ["histories", "configurations"], "every operation sequence up to the depth x rank count x partition",
  "The tests perform one flush per block and never compare checksums or re-flush.",
  [M, C], [("big_block_mpi_broadcast", M), ("_big_block_pack/_big_block_unpack", C), ("big_block_mpi_flush checksum reduction", M), ("big_block_mpi_grow", M)], (), ["per-rank block state, files"])
p("C16", "The MPI helper routines move exactly the requested data",
  "For any rank count and counts: the all-to-all exchange delivers the same data under the sparse, dense and automatic policies, with explicit or omitted counts and displacements; gather and scatter deliver every rank's elements in rank order to/from any root; the extremum locator returns the lowest rank holding it on all ranks. "
  "The segmenter gives every rank that has data a segment of consecutive such ranks inside a group of consecutive segments, at most the requested number of groups, never lets a segment go on after exceeding the requested size, and reports the rank with most data in the group and least data in the segment as leaders.",
  ["inputs", "configurations"], "every count matrix / size vector over a small value set x rank count x policy x root",
  "No test calls these routines directly; iosim covers two configurations.",
  [U, "src/mp-mpiu.h"], [("MPIU_Alltoallv", U), ("MPIU_Gather/Scatter", U), ("MPIU_GetLoc", U), ("_MPIU_Segmenter_assign_colors", U)], (), ["buffers, segmenter fields"])
p("C17", "Names, hierarchy and listing",
  "A block created under any valid name (nested groups, long names, names of many levels, already existing groups) is found under exactly that name, is listed exactly once, and listing returns exactly the blocks that exist, with their full paths, however groups and blocks are mixed (blocks placed inside the directory of another block, and names starting with a dot, are not listed). "
  "Creating an existing block replaces it: the new one starts empty with the new shape and no old attributes; opening a missing file or block fails, as does creating a block with blanks in its name or with a type, row width or file layout that could not be opened again, in which case existing blocks are unaffected.",
  ["inputs", "histories"], "every set of up to k names from a set of colliding/nested/boundary names x creation order x re-creation",
  "Tests list a few flat blocks.",
  [C], [("listbigfile_r", C), ("_big_file_mksubdir_r", C), ("_big_block_create_internal", C), ("_path_join", C)], (), ["big_file_list, open_block"])
p("C18", "Record operations equal per-column operations",
  "Writing, reading, creating or appending records of any record type (any field order, types, members per field) at any row has on each field's column exactly the effect of the corresponding column operation with that field's values, leaves other columns alone, and keeps field offsets packed in declaration order; setting and getting a field of a record buffer touches exactly that field. "
  "Appending keeps all existing rows, and the collective record operations give the same result as the serial ones.",
  ["inputs", "histories"], "every small record type x size x offset x order of operations (create, write, append, read)",
  "The tests use one dataset layout.",
  [R, M], [("big_record_type_set/complete", R), ("big_record_view_field", R), ("big_file_create/write/read_records", R)], (), ["columns, buffers"])
p("C19", "Text form of values: format and parse agree",
  "Formatting a value of any supported numeric, boolean or complex type in any byte order gives the text of that value and does not modify it; parsing the text of an integer, or of a floating or complex number that has a short decimal form, gives back the value in the requested type and byte order. "
  "Text that is not a number, and types that cannot be parsed, are reported as errors, and neither direction reads or writes outside the value and the text, for any type string.",
  ["inputs"], "all supported types x byte orders x boundary values x format strings x malformed texts",
  "No test exercises these routines beyond one attribute print.",
  [C], [("big_file_dtype_format", C), ("big_file_dtype_parse", C)], (), ["returned text/bytes"])
p("C20", "The Python File and Column objects behave like arrays on disk",
  "Indexing a column with a scalar, slice or ellipsis (positive or negative bounds, any numpy integer), reading and writing at offsets, appending, creating from arrays and re-opening give what the same operations on a numpy array of the same content give, for every number of files, row shape, type and memory limit; strides other than one, out-of-range scalars and values of other lengths are refused. "
  "A refused operation raises an exception and leaves the column unchanged; one that fails in the file system raises and leaves the type and all rows outside the range it writes unchanged (a failed append may leave the column grown). "
  "A freshly opened File lists, contains and opens exactly the blocks on disk, also through sub-files and context managers; operations on a closed column raise.",
  ["inputs", "histories"], "every slice and scalar index of small columns x shapes x types x partitions; operation sequences up to a depth against a numpy reference",
  "The suite tests some slices of one array; the index space and the combination with partitions is a product.",
  [PY, PX], [("_enhance_slicefunc", PY), ("Column.__getitem__/__setitem__", PY), ("ColumnLowLevelAPI.read/write/append", PX), ("create_from_array", PY)], (), ["returned arrays"])
p("C21", "Python attributes, datasets and pickling",
  "Attributes of any supported Python or numpy value read back equal, also after re-opening and after replacing or deleting others; a dataset reads and writes its columns' rows as one structured array, and any combination of column selection and slice gives the same values as the underlying columns. "
  "Columns and files restored from a pickle behave like the originals at the time of pickling, without disturbing them.",
  ["inputs", "histories"], "value/type x operation sequence x re-open; dataset column subsets x slices; pickle at every point of short histories",
  "Tests check one example of each.",
  [PX, PY], [("AttrSet", PX), ("Dataset", PX), ("__reduce__/__getstate__/__setstate__", PX)], (), ["returned values"])
p("C22", "Collective Python files and columns agree on all ranks",
  "With several ranks, collective creation, opening, listing, writing of disjoint ranges, attribute changes, flush and close leave the same files as serial execution, with correct checksums, and all ranks see the same blocks, sizes and attributes. "
  "If opening, creating, flushing or closing fails on one rank, every rank raises an exception and none hangs or crashes, and what was stored before is still there; names that differ between the ranks are refused on all of them.",
  ["schedules", "fault_sequences", "configurations"], "operation scripts x rank counts x schedules of the ranks at communication calls x failing rank",
  "The MPI Python tests run one schedule, without failures.",
  [PY, PX], [("ColumnMPI", PY), ("FileMPI", PY), ("_MPI_flush/_MPI_broadcast", PX)], (), ["files, exceptions, deadlock detection"])
p("C23", "Copying and repartitioning preserve content, even when interrupted",
  "Copying a block (within a file or to another) or repartitioning blocks with the command-line tools yields blocks with the same rows, type, row width and attributes, and with the requested number of files; other blocks are untouched. "
  "If a tool or one of its steps fails or is killed at any system call, at least one complete copy of the original data is still present, under the original or the backup name, and a failing tool exits with a non-zero status.",
  ["crash_points", "fault_sequences", "inputs"], "every block shape x target partition x buffer size; every mutating system call of the tools as a kill or failure point",
  "The command-line tools other than iosim are not tested at all.",
  ["utils/bigfile-copy.c", "utils/bigfile-repartition", "utils/bigfile-rename", "utils/bigfile-rm"],
  [("copy loop", "utils/bigfile-copy.c"), ("rename; copy; remove order", "utils/bigfile-repartition")], (), ["block content after the run/kill"])
p("C24", "The parallel copy tool copies correctly under every message schedule",
  "For any number of ranks, block size, buffer size and partition, and for every order in which the worker messages arrive and messages are delivered (buffered or synchronous), the parallel copy terminates on all ranks and leaves a block with the same rows, type, attributes and correct checksums. "
  "If a worker cannot read or write, all ranks terminate and the exit status is non-zero.",
  ["schedules", "fault_sequences"], "all schedules of server and workers (partial-order reduced, all receive matches) x rank counts x chunk counts x failing worker call",
  "The tool is not tested; the server's wildcard receive makes the outcome schedule dependent.",
  ["utils/bigfile-copy-mpi.c"], [("server/slave protocol", "utils/bigfile-copy-mpi.c")], (), ["files, exit status, deadlock detection"])
p("C25", "The command-line tools show and store the truth, and say when they fail",
  "Dumping (binary and text, any offset and count), creating from a stream, listing, getting and setting attributes, and checking checksums produce exactly what the library interface reports for the same block, for all types, byte orders, shapes and buffer sizes. "
  "The checksum check accepts intact blocks and rejects blocks with a damaged data file; a tool that cannot do what was asked exits with a non-zero status instead of crashing, hanging or reporting success.",
  ["inputs"], "each tool x option combinations x block shapes and types x damaged/missing inputs",
  "The command-line tools other than iosim are not tested at all.",
  ["utils/bigfile-cat.c", "utils/bigfile-create.c", "utils/bigfile-ls.c", "utils/bigfile-get-attr.c", "utils/bigfile-set-attr.c", "utils/bigfile-check"],
  [("tool main functions", "utils/")], (), ["stdout, exit status, files"])
p("C26", "Errors are described faithfully for any names",
  "Whenever a call fails, a non-empty error message is available, and the messages of failing to open, create, grow, read or write name the file, block or attribute literally, for names of any length the library accepts and containing any characters (including percent signs), without overflowing or misinterpreting them, also when the message passes through several layers or ranks. "
  "A successful call does not destroy earlier messages, and setting or clearing the message works at any time.",
  ["inputs", "histories"], "every failing call x hostile names (format directives, long paths) x nesting; message set/clear sequences",
  "Tests never look at messages, and use short plain names.",
  [C], [("_big_file_raise", C), ("big_file_set_error_message", C)], [("ERRORSTR", "last error message", C)], ["big_file_get_error_message"])
p("C27", "What was acquired is released, also after failures",
  "After every handle that was obtained has been closed, nothing remains of it: no memory allocated by the library beyond what it returned to the caller, no open file, no temporary file, and (collectively) no communicator and no datatype. "
  "A call that fails to open or create releases what it acquired before it returns, on every rank; a call that fails on an open handle leaves nothing that closing the handle does not release. This holds for every history of calls, whichever system call in it fails.",
  ["histories", "faults"], "every system call failing in histories of serial and collective operations, refused calls, malformed files",
  "Tests hardly make anything fail, never make a system call fail, and look neither at memory nor at descriptors; a long simulation run repeats the failure until it runs out.",
  [C, M, U], [("big_file_open", C), ("_big_block_close_internal", C), ("big_block_flush", C), ("_big_block_mpi_create", M), ("big_file_mpi_open", M), ("MPIU_Segmenter_destroy", U)], [], ["big_file_close", "big_block_close", "big_block_mpi_close", "big_file_mpi_close"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
