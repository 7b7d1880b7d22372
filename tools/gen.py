#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (a property without a check is not claimed)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(i, title, statement, over, text, why, files, mech, observe, technique, note, na=None):
    P.append(dict(id=i, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note, na=na))


C = "src/odc/codec/"
K = "src/odc/core/"
A = "src/odc/api/"
S = "src/odc/"

prop("C01", "Encoding then decoding returns every value of every column",
     "For every set of INTEGER, BITFIELD, REAL, DOUBLE and STRING columns, decoding what was encoded gives back, in "
     "row order, every value: integers of the 32 bit range, bitfields and strings exactly, DOUBLE values exactly, "
     "REAL values that fit 32 bits exactly, missing values as missing, NaN as NaN. This holds whatever the range, "
     "number of distinct values or presence of missing values in each frame of a column, with integers represented "
     "as 64 bit integers or as doubles. Data that the format cannot hold (65536 or more distinct strings in one frame "
     "of a column; INTEGER columns with values beyond 32 bits, unless the values of the frame are within 65534 of each "
     "other and of at most 53 bits) is refused with an error and never altered.",
     ["inputs", "configurations"],
     "all column types x value ranges at and around every width the encodings switch at x missing values x both "
     "integer representations x C and C++ API",
     "The tests encode a few fixed columns; which of the 15 codecs is chosen, and whether every cell fits it, depends "
     "on the range, missing values, distinct count and reserved bit patterns of each frame of each column.",
     [C + "CodecOptimizer.h", C + "Integer.h", C + "IntegerMissing.h", C + "Real.h", C + "String.h", C + "Constant.h",
      K + "Codec.cc", K + "Encoder.cc"],
     [("choice of the codec from the statistics of a frame", C + "CodecOptimizer.h"),
      ("statistics", K + "Codec.cc gatherStats"), ("reserved code words for missing", C + "IntegerMissing.h, Real.h")],
     ["odc_encode_to_*", "odc_decode", "odc::api::encode", "odc::api::Decoder"],
     "TLA+ model of codec choice (Codecs.tla), TLC exhaustive; every behaviour replayed through the real encoder and decoder",
     "Exhaustive for columns of up to 3 rows over boundary offsets and value classes, sampled to 12 rows; concrete "
     "bases and values are seeded random choices inside each class.")

prop("C02", "Every reader gives a frame's rows the meaning of the format",
     "For every well-formed ODB-2 frame, including frames of other writers with any legal row markers, any codec and "
     "either byte order, decoding by columns and iterating by rows give exactly the rows the format defines: columns "
     "before a row's marker keep the previous row's value, and before a frame's first row they hold the column's "
     "missing value. Selecting columns in any subset and order, aggregating frames or using threads does not change a "
     "cell.",
     ["inputs", "programs"],
     "all sequences of row markers and cells of a frame x codecs x byte orders x column subsets x ways to open and read",
     "Test files come from odc's own writer, which never writes redundant values or other markers, and from a handful "
     "of fixed column sets; the lazy back-fill of columns depends on the whole sequence of markers.",
     [K + "Table.cc", S + "ReaderIterator.cc", K + "DecodeTarget.cc", A + "Odb.cc", A + "odc.cc"],
     [("back-fill of unchanged columns", K + "Table.cc decode"), ("retained row", S + "ReaderIterator.cc next"),
      ("codec clones", K + "Codec.cc clone")],
     ["odc_decode", "odc::api::Decoder", "odc::Reader iterator"],
     "TLA+ model of the row-delta stream and of three readers (RowDelta.tla), TLC exhaustive; wires replayed into the real readers",
     "Exhaustive for 3 columns x 3 rows; sampled to 7-12 columns x 16-40 rows; streams of 1-3 frames.")

prop("C03", "Written files conform to the published format",
     "Everything odc writes is a sequence of frames that a reader knowing only the published ODB-2 format "
     "understands: magic, byte order, checksum, header length, data size, row and column counts, codec parameters and "
     "row markers are consistent with each other and with the data, and no byte is unaccounted for. Interpreted that "
     "way the frames hold exactly the rows, columns, bitfield definitions, properties and missing values that were "
     "given to the writer, cut into frames of the requested number of rows.",
     ["inputs", "configurations"],
     "all tables given to the encoders x rows per frame x properties x column definitions",
     "The tests read odc's output with odc itself, so a symmetric change of writer and reader goes unnoticed and would "
     "make archived data unreadable.",
     [K + "Header.cc", K + "Encoder.cc", K + "Column.h", K + "MetaData.h", K + "DataStream.h", C + "String.h",
      S + "WriterBufferingIterator.cc"],
     [("header serialisation", K + "Header.cc"), ("row markers", K + "Encoder.cc")],
     ["bytes written by odc_encode_to_*, odc::api::encode, odc::Writer"],
     "TLA+ trace specification of a frame (Format.tla) checked by TLC against the bytes really written, read by an independent parser",
     "The parser shares no code with odc; frames of every codec and of random tables.")

prop("C04", "Frame navigation, aggregation and encoded bytes",
     "Reading a stream frame by frame visits every frame once and in order and then reports the end, whatever the "
     "source. Aggregation merges exactly the maximal runs of consecutive frames with the same columns (names, types and "
     "widths, in any order; described as in the first of them) that stay within the row limit, keeping all rows in order. The offset, length and encoded bytes of a frame, aggregated or not, are "
     "those of its part of the stream, so that concatenating them reproduces the stream.",
     ["inputs", "histories"],
     "all sequences of frames (column sets, row counts, properties) x row limits x aggregation x sources",
     "The tests aggregate two or three fixed files.",
     [A + "Odb.cc", K + "TablesReader.cc", K + "Table.cc", K + "MetaData.cc"],
     [("aggregation loop", A + "Odb.cc ReaderImpl::next"), ("read-ahead of tables", K + "TablesReader.cc")],
     ["odc::api::Reader", "odc_next_frame*", "Frame::offset/length/encodedData"],
     "TLA+ model of frame navigation (Stream.tla), TLC exhaustive; behaviours replayed through the C and C++ API",
     "Exhaustive for 4 frames over 3 column signatures; sampled to 8 frames.")

prop("C05", "Truncated or corrupted streams are reported, never misread",
     "For every prefix of a valid stream, reading delivers the frames that are complete, unchanged, and then reports "
     "an error unless the cut is at a frame boundary: when the frame is reached, or at the latest when its rows are "
     "decoded (sources whose size is unknown). A change to any byte of a frame's header is reported as an error (the "
     "format version number alone may change to another supported one) and the frames before it are unaffected. "
     "Row data carry no checksum: a change there never crashes or hangs a reader and leaves all other frames alone, "
     "and a row marker that points beyond the last column is reported.",
     ["inputs", "crash_points"],
     "all cut positions x all readers (frame API from path, descriptor, memory, stream; row iterator; tools) x header byte changes",
     "Tests truncate one file at a few places and use one reader.",
     [K + "Header.cc", K + "Table.cc", K + "TablesReader.cc", S + "ReaderIterator.cc", A + "odc.cc"],
     [("MD5 of the header", K + "Header.cc"), ("size checks", K + "Table.cc readTable")],
     ["odc_next_frame", "odc::Reader iterator", "odc tools' exit status"],
     "TLA+ fault model of a cut or damaged stream (Faults.tla), TLC enumerates fault positions by region; every fault is applied to real files and the recorded outcome validated",
     "Every byte position of small multi-frame files; readers of the frame API and the row iterator.")

prop("C06", "Concurrent decoding equals serial decoding on every schedule",
     "Decoding an aggregated frame with any number of threads gives the same result as decoding it serially. Frames "
     "of one reader can be decoded in several threads while the reader moves on, and threads can walk over the tables of "
     "one TablesReader. Views of one shared data handle each see the bytes of their own position, whatever the order in "
     "which the threads reach the handle, and go on working after a failed read. An error in one thread is reported to "
     "the caller, and no access of two threads to the same data is unordered.",
     ["schedules", "fault_sequences"],
     "all interleavings of the seek/read operations of up to 3 workers on the shared handle; injected read failures",
     "Tests decode once with threads on one small file; a race shows only on particular interleavings.",
     [K + "ThreadSharedDataHandle.cc", A + "Odb.cc", K + "TablesReader.cc"],
     [("lock and reposition before read", K + "ThreadSharedDataHandle.cc read"),
      ("rows partitioned among threads", A + "Odb.cc FrameImpl::decode")],
     ["Decoder::decode(frame, nthreads)", "odc_decode_threaded", "handle operations seen by a recording DataHandle"],
     "TLA+ models of views sharing a handle (Shared.tla) and of threads sharing a queue of tables (Pool.tla, with liveness), TLC explores all interleavings; schedules imposed on the real code by a controlled DataHandle, results compared; happens-before of the same runs checked by a race detector",
     "All interleavings of 2-3 workers x 2 reads in the models; the replayed schedules are driven at handle operations; between them unordered accesses are found by ThreadSanitizer.")

prop("C07", "The span of a frame is exactly the set of its values",
     "For any frame with rows, aggregated or not, and any list of columns, the span gives for each column exactly the "
     "set of distinct decoded values in the frame (NaN, which equals nothing, is not part of it), of the column's type, "
     "and the frame's offset and length. Restricted to constant columns it gives the same sets and refuses columns that "
     "are not encoded as a constant.",
     ["inputs"],
     "all frames x column lists x codecs x integer representation",
     "Tests check spans of a few frames whose columns are constant or short.",
     [K + "Table.cc", K + "Span.cc", A + "Odb.cc"],
     [("distinct values", K + "Table.cc decodeSpan"), ("merging of spans", K + "Span.cc")],
     ["Frame::span"],
     "TLA+ model of the span collector (RowDelta.tla SpanAgrees), TLC exhaustive; wires replayed through Frame::span",
     "As for C02.")

prop("C08", "Frame properties are kept and belong to their frame",
     "The properties given when encoding are delivered with every frame written by that call, and only with those, by "
     "every reader: by index, by key and as a whole, together with the writer's version under the key 'encoder'. An "
     "aggregated frame has the properties of all its frames, the first frame winning for a repeated key. Appending "
     "frames with other properties, copying frames or moving on never mixes them up.",
     ["inputs", "histories"],
     "all sequences of frames with property sets over a small key alphabet x aggregation x accessors x order of calls",
     "Tests use one or two fixed properties on single frames.",
     [A + "odc.cc", A + "Odb.cc", K + "Header.cc", K + "Encoder.cc"],
     [("memoised property list", A + "odc.cc odc_frame_property_idx"), ("merge", A + "Odb.cc FrameImpl::properties")],
     ["odc_frame_propert*", "Frame::properties", "ReaderIterator properties"],
     "TLA+ model of properties over frames (Stream.tla), TLC; replayed through every accessor in every order",
     "Up to 4 frames, 3 keys, 2 values.")

prop("C09", "The C API keeps its contract under every sequence of calls",
     "Any sequence of C API calls on readers, frames, decoders and encoders, with any object among them null and any index "
     "or number out of range, either succeeds with the documented effect, or (odc_next_frame) tells the end of the stream, "
     "or returns an error with a message and calls the failure handler; a call that fails changes none of the objects: "
     "what can be asked of them gives the same answers, a frame that could not be read is not skipped by reading again. "
     "It never crashes. Properties, row counts and columns of a frame that was read, and of its copies, do not depend on "
     "what becomes of the reader or of other frames; what an encoder has written is not changed by later calls and is "
     "read back as it was described. Columns of the same name are not encoded.",
     ["programs", "histories"],
     "all call sequences up to a bounded length over several objects, including out-of-range indices and wrong order",
     "Tests call the API in the one documented order.",
     [A + "odc.cc", A + "odc.h", A + "Odb.cc", K + "Encoder.cc"],
     [("exceptions to error codes", A + "odc.cc wrapApiFunction"), ("position of a reader", A + "Odb.cc ReaderImpl::next"),
      ("targets of a decoder", A + "odc.cc fill_in_decoder")],
     ["return codes, outputs and odc_error_string of every odc_* function"],
     "TLA+ state machine of the C API's objects (CApi.tla), TLC exhaustive and simulated, with action properties (failed calls "
     "change nothing, frames are independent); call sequences replayed and every return code, output and error compared",
     "Exhaustive: up to 6-8 calls on one reader with two frames, a decoder or an encoder; sampled: 70 calls over 9 objects.")

prop("C10", "The row writer writes exactly the rows appended, in order",
     "Whatever sequence of writing the header (also repeatedly), appending rows, flushing, changing the widths of string "
     "columns, changing the number of buffered rows, setting properties and redefining the columns (when no rows are "
     "waiting, followed by writing the header) a program performs through the row-writer interface, the file holds "
     "exactly the rows appended, in order, cut into frames of at most the configured number of rows, each frame with the "
     "columns, widths, bitfield members and missing values its rows were appended under and the properties set when it was "
     "written. Rows still waiting are written when the writer is closed or destroyed, and the file is complete then. "
     "A column name already in use is refused. Appending to an existing file keeps what was there, otherwise it is replaced.",
     ["programs", "histories"],
     "all bounded sequences of writer operations x rows per frame x column types and widths",
     "Tests write one table and close.",
     [S + "WriterBufferingIterator.cc", S + "Writer.h", S + "Writer.cc"],
     [("row buffer", S + "WriterBufferingIterator.cc writeRow"), ("flush on overflow", S + "WriterBufferingIterator.cc flush")],
     ["odc::Writer iterator; resulting file"],
     "TLA+ state machine of the row writer (Writer.tla), TLC; operation sequences replayed, the bytes validated by the independent parser",
     "All sequences of 6 actions over 2 columns are explored by TLC and a shuffled subset replayed (quick); longer ones (30 actions, 4 columns, 3 sessions) are sampled.")

prop("C11", "Splitting a file routes every row to the file of its key",
     "Writing rows through a file-name template with {column} parameters (odc split, odc sql -f odb -o, the dispatching "
     "writer of the library) sends every row, unchanged, with the columns of its frame and in the original order, to the "
     "one file named by the row's values: the integer part of a number (that of the missing value if it is missing), the "
     "printable start of a string without spaces around it and with / as __SLASH__. Directories are created, no other "
     "files are created or changed, files that are there are replaced, or appended to if asked for. This holds however the "
     "keys interleave, if several keys name one file, for more files than can be open, and for inputs of several frames "
     "with different columns, widths or definitions. odc split verifies such a split without finding differences.",
     ["inputs", "histories"],
     "all sequences of keys up to a bounded length x maximum open files x column types of the key x several frames",
     "Tests split one file with few keys and never exceed the open-file limit.",
     [S + "WriterDispatchingIterator.cc", S + "DispatchingWriter.cc", S + "tools/SplitTool.cc", S + "TemplateParameters.cc"],
     [("least-recently-used eviction and append", S + "WriterDispatchingIterator.cc")],
     ["odc split; odc::DispatchingWriter"],
     "TLA+ model of the dispatching writer with bounded open files (Split.tla), TLC; key sequences replayed through the tool and library",
     "All key sequences up to length 6 over 3-4 keys with 1-2 open files.")

prop("C12", "SQL queries return exactly the rows and columns asked for",
     "A query over one table, or the product of two, returns for every row that satisfies the condition exactly the "
     "selected columns with their values (over one table in the order of the rows). Bitfield members deliver their bits, a comparison with a missing "
     "value is not satisfied and neither is its negation, '*' selects the columns of the first frame, distinct delivers "
     "every different row of numbers once, count, min and max of a column pass over missing values. Frames whose columns are "
     "ordered differently, have other codecs, widths, missing values, types or byte order are treated alike, frames "
     "without rows change nothing, and a frame that lacks a column the query needs makes it fail, after the rows before "
     "it. The same rows come from odc::Select, Frame::filter (for that frame, of any size), odc::api::filter "
     "and odc sql; results written to a file keep names and types and bitfield definitions, and a file whose "
     "column changes its type is refused or written as values that are right. (Conditions on columns of two "
     "tables, which the SQL engine of eckit does not support, are not covered.)",
     ["inputs", "programs"],
     "all small tables cut into frames in every way x a grammar of queries",
     "Tests run fixed queries on files with homogeneous frames.",
     [S + "sql/TODATableIterator.cc", S + "sql/TODATable.cc", S + "sql/SQLSelectOutput.cc", S + "sql/ODAOutput.cc", S + "Select.cc",
      S + "SelectIterator.cc", A + "Odb.cc"],
     [("column mapping renewed when the metadata change", S + "sql/TODATableIterator.cc")],
     ["odc::Select", "Frame::filter", "odc::api::filter", "odc sql"],
     "TLA+ model of the scan of one or two tables frame by frame, with the layout it has adopted, against the declarative result of the query (Query.tla), TLC; every behaviour is replayed through odc::Select, Frame::filter, odc::api::filter and odc sql (ascii and odb output)",
     "Exhaustive for 2 frames of 1 row (thorough: 3 of 2) and few queries; sampled for up to 3 frames of 4 rows x five layouts x conditions of up to two atoms x rows, distinct and aggregates.")

prop("C13", "Rewriting tools change only what they are asked to change",
     "compact and fixrowsize write the rows of the file in order, each with the columns, types, bitfield definitions, "
     "values and missing cells it had, in frames of up to 10000 rows that end where the definitions of the columns "
     "change; running them again changes nothing. set does the same and gives exactly the named column the constant "
     "(a number, a quoted string or hexadecimal bytes) in every row, in every frame; a frame with rows but without "
     "the column makes it fail. mdset copies the data of every frame unchanged, byte by byte, with its properties and "
     "byte order, and changes only the type, or the value if it is encoded as a constant, of the named column in the "
     "header; it fails if a frame does not have the column or the value of the column is not in the header. This "
     "holds for files of several frames with different columns, widths, encodings and byte orders.",
     ["inputs"],
     "all small files x tool x arguments",
     "Tests run each tool on one file.",
     [S + "tools/CompactTool.cc", S + "tools/FixedSizeRowTool.cc", S + "tools/SetTool.cc", S + "tools/MDSetTool.cc",
      S + "ODAUpdatingIterator.cc", S + "MDSetter.cc", S + "ConstantSetter.cc"],
     [("row pass-through", S + "WriterBufferingIterator.h pass1")],
     ["the tools' output files"],
     "TLA+ model of the rewriting tools (Rewrite.tla): row by row through a buffer against the table they must write; TLC exhaustive and simulated; every behaviour replayed with the real tools and writer",
     "Exhaustive for 2 frames, sampled to 4 frames of 4 rows; all encodings and both byte orders; one file of more "
     "than 20000 rows. The columns are two of any type and one with changing definitions.")

prop("C14", "Merging files pairs rows in order",
     "Merging files, or results of queries on files, yields for row i the columns of row i of the first followed by "
     "those of row i of the second and so on, for as long as every input has rows, with names, types, bitfield "
     "definitions, values and missing cells unchanged, wherever the frames of the inputs begin and however their "
     "columns, widths or encodings change from one frame to the next. Inputs whose paired rows have a column of the "
     "same name are refused with an error.",
     ["inputs"],
     "all pairs of small files with different frame boundaries and column sets",
     "Tests merge two fixed files.",
     [S + "tools/MergeTool.cc"],
     [("pairing of iterators", S + "tools/MergeTool.cc")],
     ["odc merge"],
     "TLA+ model of the merge (Merge.tla): the iteration over the inputs against the pairing of their rows; TLC exhaustive and simulated; replayed with the real tool",
     "Exhaustive for 2 inputs of 2 frames, sampled to 3 inputs of 4 frames of 5 rows; files of more than 12000 rows.")

prop("C15", "compare reports a difference exactly when there is one",
     "odc compare exits with 0 when two files hold the same rows under the same columns, however they are cut into "
     "frames, encoded, byte-ordered or padded, and with 1 when the number of rows, or the number, names, order, types "
     "or bitfield definitions of the columns of any row, or any cell differ: integers, bitfields and strings exactly; "
     "missing and present cells always, whatever values stand for missing; DOUBLE by more than a relative difference of "
     "1e-9 (absolute if one of them is within 1e-9 of zero), REAL likewise after rounding to single precision, "
     "infinite values exactly, NaN always unless odc_NAN_IS_OK is set. Columns named by -excludeColumns are compared "
     "by name only, types and bitfields of columns named by -excludeColumnsTypes are not compared.",
     ["inputs"],
     "all single-cell and structural mutations of small files x options",
     "Tests compare a few files.",
     [S + "Comparator.cc", S + "tools/CompareTool.cc"],
     [("cell comparison", S + "Comparator.cc")],
     ["odc compare exit status"],
     "TLA+ definition of the equality of tables and model of the row-by-row comparison (Compare.tla), TLC enumerates mutations, frames and options; replayed with the real tool",
     "Mutations of every kind at every position of files of up to 5 rows, up to 3 at once; values around the tolerance.")

prop("C16", "Text import yields the table that was written, or an error",
     "Importing a text with a header of NAME:TYPE columns (odc import, with or without -sql; odbFromCSV from a string, a "
     "stream or a data handle) gives exactly the rows of its lines, in order, with the names, types and bitfield "
     "members of the header: each value as it is written (REAL rounded to single precision), without the quotes around "
     "a string, NULL in any case as missing (for STRING as the empty string), for every delimiter (any character, "
     "TAB, SPACE), for strings of any lengths in any order, with blank lines and a delimiter after the last value "
     "meaning nothing. A header that is not valid, a value its column cannot hold, an empty value, a line with too many or "
     "too few values, a source or destination that fails is an error; no row is dropped, shifted or invented: what is "
     "written by then are the rows before the line in error, or a beginning of them.",
     ["inputs", "faults"],
     "all small texts over kinds of values, lines and defects x column types x delimiters x queries x ways in",
     "Tests import a few fixed texts without defects.",
     [S + "csv/TextReaderIterator.cc", S + "csv/TextReader.cc", S + "tools/ImportTool.cc"],
     [("splitting of lines and the change of a string column's width", S + "csv/TextReaderIterator.cc next()"),
      ("frames that end when the description changes", S + "WriterBufferingIterator.h pass1")],
     ["odc import [-d] [-sql]; odc::api::odbFromCSV; the resulting file"],
     "TLA+ model of the import (Import.tla): the reader a line ahead, the changing description of the columns, query and "
     "writer; TLC exhaustive and sampled; every behaviour replayed as texts through the tool and the API",
     "Exhaustive model: 2 columns x 3 lines (4 thorough); replayed: all texts of 1 column x 2 lines, samples up to 5 columns x 60 lines.")

prop("C17", "Files of either byte order read the same",
     "A stream written with the other byte order, or mixing frames of both, gives in every reader, query and tool the "
     "same rows, columns, properties and spans as the same stream in native order, and tools that rewrite it produce "
     "the same columns, properties and rows (mdset keeps the order of each frame, the others write in native order).",
     ["inputs", "configurations"],
     "all frames of every codec in both byte orders, in any mixture x all readers and rewriting tools",
     "The test data has one or two files in the other byte order, read by one interface.",
     [K + "DataStream.h", K + "Codec.cc", K + "Header.cc", C + "String.h", S + "ReaderIterator.cc"],
     [("byte order as a template parameter", K + "DataStream.h"), ("order of the current frame", S + "ReaderIterator.cc loadHeaderAndBufferData"),
      ("decoding and spans of a frame", K + "Table.cc"), ("headers of the other order", S + "tools/MDSetTool.cc")],
     ["all readers; odc tools"],
     "TLA+ model of files of mixed order and of a reader that knows only the mark of the current frame (Order.tla), "
     "TLC exhaustive and sampled; every behaviour's file is built three times (as it is, all native, all swapped), read by "
     "every interface and put through the tools, and the results compared with each other and with the specification",
     "Exhaustive model: 1 frame of 2 columns x 2 rows, 2 frames of 1 x 1; sampled to 4 frames x 4 columns x 5 rows.")

prop("C18", "Decoding and encoding touch exactly the caller's cells",
     "Decoding through the C API writes exactly the cells of the selected columns, as described by the data size "
     "of each column, its own memory and stride, or the decoder's array in row or column major order (given or "
     "allocated), with any number of threads: nothing before, between or after them, and the same whatever calls "
     "of the decoder were made before; of a cell wider than the value only the value's words are defined. Encoding "
     "reads exactly the cells described, through columns' own memory and stride or an array that is row or column "
     "major. Descriptions that cannot hold the data are refused with an error and nothing outside is touched: "
     "fewer rows than the frame has, a cell narrower than the column, an array that is too small, an unknown or "
     "repeated column, a cell that is no multiple of the column-major width.",
     ["inputs", "configurations"],
     "all combinations of layout, element sizes, strides, spare rows and widths, selections and threads",
     "Tests use one row-major and one column-major array of matching size.",
     [A + "odc.cc", A + "StridedData.h", K + "DecodeTarget.cc", K + "Table.cc"],
     [("fill_in_decoder / fill_in_encoder", A + "odc.cc")],
     ["guard bytes around and between the cells of the caller's memory"],
     "TLA+ state machine of a decoder's or encoder's layout (Layout.tla): addresses in bounds, disjoint and "
     "packed, checked by TLC; call sequences replayed, all words of the caller's memory compared with the "
     "specified address map",
     "Exhaustive for 2 columns x 2 rows x 3-4 calls, sampled to 4 columns x 3 rows x 30 calls; every word of the "
     "caller's memory is compared with the address map.")

prop("C19", "All destinations receive the same bytes and failures are reported",
     "Encoding the same data to a memory buffer, a callback stream, a file descriptor (of a file, also one that is "
     "appended to, or a pipe), a path or a data handle gives the same bytes, and the number of bytes reported is "
     "that of this call. If a write is not taken completely, at any point, even if only once (a short count, zero, an "
     "error or an exception; a full buffer; a broken pipe; the limit of a file's size), the call reports an error, "
     "what the destination has is a prefix of the bytes it should have, and nothing is written beyond a given buffer; "
     "the encoder can be used again and the caller's descriptor stays open. With a row writer the call that "
     "writes the frame (adding a row, flushing or closing) fails, the rows of that frame are given up, and the writer "
     "can be used and closed; rows appended later are written if the destination works again. Tools that "
     "cannot write their output completely (compact, set, mdset, sql, import, split, merge) exit with an error.",
     ["fault_sequences", "crash_points"],
     "all failure positions x failure modes (short count, zero, error, exception, full buffer, once or from then on) x "
     "destinations x encoders, writers and tools",
     "Tests never make a write fail.",
     [A + "odc.cc", K + "Encoder.cc", S + "WriterBufferingIterator.cc", S + "tools/MDSetTool.cc"],
     [("result of write checked", K + "Encoder.cc encodeFrame"), ("flush of a row writer", S + "WriterBufferingIterator.cc")],
     ["return code, number of bytes, destination contents; exit status of tools"],
     "TLA+ state machine of encoders and a row writer with a destination that may fail at any write (Sink.tla), TLC "
     "exhaustive and simulated; every behaviour replayed with fault-injecting destinations through the C and C++ API, "
     "the row writer and the tools",
     "Failures at every boundary of a write and inside it for behaviours of up to 3 frames, sampled for longer ones; "
     "tools under a file size limit.")

prop("C20", "Missing-value settings apply consistently",
     "The missing values configured for integers and reals are the ones the encoder and writer recognise and store "
     "with each column; data already encoded keep their own missing values when the setting changes, for every "
     "reader. Readers deliver cells written as missing as the value they were written with, queries deliver them "
     "as the value configured when the query runs. In rows of readers and queries a cell is reported as missing "
     "exactly if it was written as missing, wherever in the file the first missing cell is. Missing values of "
     "integers fit 32 bits; those of reals are not NaN.",
     ["configurations", "histories"],
     "all bounded sequences of changing the settings, encoding and decoding x types x codecs",
     "Tests leave the settings at their defaults.",
     [S + "MDI.cc", S + "ODBAPISettings.cc", K + "Codec.cc", A + "odc.cc"],
     [("missing value stored per column", K + "Codec.cc")],
     ["odc_set_missing_*", "decoded cells", "isMissing of rows"],
     "TLA+ state machine of settings and encoded data (Settings.tla), TLC exhaustive and simulated; histories "
     "replayed through C, C++, writer, reader and query interfaces",
     "Exhaustive for histories of 4 operations (3 values, 2 frames), sampled to 30 operations, 5 files, 40 rows; "
     "all column types in both integer representations.")

prop("C21", "count, header and index tools agree with the file's frames",
     "odc count prints the sum of the rows of all frames of all files given, and the library's fast row count agrees, "
     "also while a file grows. odc header lists every frame with its number, offset, end, rows and byte order and its "
     "columns with name, type, bitfields and encoding; with -offsets one line per frame of offset, length, rows and "
     "columns. odc index writes one entry for every run of equal values of the seqno column within a frame: offset and "
     "length of the frame, the value and the rows of the run, so that the entries cover every row in order. This holds "
     "for frames without rows, of any size, encoding and byte order.",
     ["inputs"],
     "all sequences of frames",
     "Tests count one file.",
     [S + "RowsCounter.cc", S + "tools/CountTool.cc", S + "Indexer.cc", S + "tools/ODAHeaderTool.cc"],
     [("header walk", S + "RowsCounter.cc")],
     ["odc count, odc header, odc index, odc::RowsCounter"],
     "TLA+ model of frames, their positions and the index of runs (Listing.tla), TLC exhaustive and simulated; replayed with the real tools",
     "Exhaustive for 2 files of 2 frames of 2 rows, sampled to 3 files of 4 frames of 6 rows.")

prop("C22", "The Fortran interface does what each call says and nothing more",
     "Any sequence of calls of the Fortran module on readers, frames, decoders and encoders does exactly what the objects and "
     "arguments of each call say: an argument that is absent has its documented default whatever earlier calls were given; "
     "columns, members and properties are counted from 1; arrays hold the cells by column (or by row, when asked) in exactly "
     "the words their shape says and nothing else is written; values, names, sizes, properties and missing values arrive "
     "unchanged in both directions; what is encoded to a unit continues the file and is read back. A call that cannot be done "
     "(null object, index out of range, array too small or not in one piece, a unit that cannot be written) returns an "
     "error, calls the failure handler with its context, changes nothing, and never ends the program.",
     ["programs", "histories"],
     "all call sequences up to a bounded length with every optional argument present or absent",
     "Tests give the same optional arguments on every call, once.",
     [A + "odc.f90", A + "odc.cc"],
     [("optional arguments and indices", A + "odc.f90"), ("unit output", A + "odc.f90 write_fn")],
     ["methods of odc_reader, odc_frame, odc_decoder and odc_encoder in module odc"],
     "TLA+ state machine of the Fortran interface (Fortran.tla), TLC exhaustive and simulated, with action properties (absent "
     "arguments, failed calls, one object per call); call sequences replayed by a Fortran program compiled against odc.f90",
     "Exhaustive: 5-6 calls after a prelude on two frames, two decoders or an encoder; sampled: 90 calls over 8 objects.")

prop("C23", "Row iterators are independent and repeatable",
     "Every pass over a reader, and every one of several iterators over the same or different readers in any "
     "interleaving, visits all rows (skipping frames without rows) from the first in order, with its own current "
     "row and the columns of the row's frame, and reports a new dataset exactly at the first row of every frame "
     "after the first; advancing, abandoning or destroying one never affects another. Iterators over the tables of "
     "one TablesReader likewise visit all frames in order; a copy of one continues on its own, whereas a copy of a "
     "row iterator is the same iterator.",
     ["programs", "histories"],
     "all bounded interleavings of creating, advancing, copying and dropping iterators on files of several frames",
     "Tests iterate once.",
     [S + "ReaderIterator.cc", S + "IteratorProxy.h", S + "Reader.cc", K + "TablesReader.cc"],
     [("one file handle per iterator", S + "ReaderIterator.cc")],
     ["odc::Reader::iterator; odc::core::TablesReader iterators"],
     "TLA+ state machine of several iterators (Iter.tla), TLC exhaustive and simulated; scripts replayed with the "
     "real iterators",
     "Exhaustive for scripts of 5 steps over 2 readers and 2 iterators, sampled to 60 steps, 3 files of 6 frames "
     "and 4 iterators.")


prop("C24", "The old C interface reads, selects and writes the same rows",
     "Programs of the odb_* interface, with several iterators in use, get from a reader every row of its file in order, and "
     "from a query every row for which its condition holds, in a buffer of their own in which nothing is written but the row, "
     "with columns, offsets, widths, bitfield members and missing values as the row's frame has them and new_dataset at the "
     "first row given of every later frame; a row refused because another number of columns was expected is still the next "
     "one; indices out of range, names and files that are not there are errors. What is written through a write or append "
     "iterator is the columns described and the rows given, at the end of the file. odb_count and get_blocks_offsets tell the "
     "rows, and the place and size of every frame.",
     ["programs", "histories"],
     "all bounded interleavings of reading, selecting, writing and asking on files whose frames differ in columns and widths",
     "Tests read two numeric columns of one frame.",
     [S + "odccapi.cc", S + "ReaderIterator.cc", S + "sql/SQLSelectOutput.cc", S + "WriterBufferingIterator.cc"],
     [("a row into the caller's buffer", S + "odccapi.cc odb_read_iterator_get_next_row, odb_select_iterator_get_next_row"),
      ("layout of selected rows", S + "sql/SQLSelectOutput.cc")],
     ["functions of odccapi.h"],
     "TLA+ state machine of the old C interface (Legacy.tla), TLC exhaustive and simulated, with the declarative answer of a "
     "query and independence as properties; call sequences replayed with the real functions over guarded buffers",
     "Exhaustive: 6 calls on a reader of each of three files, every query over whole files; sampled: 80 calls over 6 iterators.")

prop("C25", "Text output shows every row and value of a file, as asked for",
     "odc ls, odc sql (formats ascii, wide and default), odc xyv and odc header -ddl print every row of the file, or of the "
     "section of it that -offset and -length name, once and in order, every cell as its value (real numbers with six decimals or "
     "in full, bitfields in decimal or binary, strings in quotes) or as missing (a full stop, NULL, or with -N the missing "
     "value), under the names of the columns it belongs to: ls prints the names again when a frame has others, sql once (or "
     "not at all with -T), -ddl describes every layout of the file. Options and the query may come in any order, from the command "
     "line or a script, to the terminal or a file. A query whose column is missing in a later frame prints the rows before and fails.",
     ["programs", "inputs"],
     "all bounded files of frames of several layouts, with every combination of options",
     "Tests check exit codes, and three listings of single frames.",
     [S + "tools/LSTool.cc", S + "tools/SQLTool.cc", S + "tools/XYVTool.cc", S + "tools/ODAHeaderTool.cc", S + "sql/SQLOutputConfig.cc"],
     [("ls prints names and rows", S + "tools/LSTool.cc LSTool::printData"), ("options of sql", S + "tools/SQLTool.cc"),
      ("layouts as DDL", S + "tools/ODAHeaderTool.cc DDLPrinter")],
     ["odc ls, sql, xyv, header -ddl"],
     "TLA+ state machine of the tools that print text (Text.tla), TLC exhaustive and simulated; behaviours become files and command "
     "lines, and the text printed is matched against the lines of the behaviour",
     "Exhaustive: 2 frames of up to 2 rows of 4 layouts; sampled: 5 frames of up to 5 rows; values of all types and encodings.")

prop("C26", "Objects of the C++ interface are values that keep their meaning",
     "Whatever the order of calls on the C++ interface: a Frame that was copied, moved or assigned stands for the same rows, columns, "
     "properties and bytes, what was moved from is no frame, and a frame stays usable when other frames are read, its reader or its "
     "original is gone, or it was itself the source or the target of a filter. A filtered frame has exactly the rows that satisfy the query, "
     "and is no frame if there are none. Decoding into a slice (of a slice) of a Decoder writes exactly the rows of the slice that the frame "
     "has, with any number of threads, and a slice beyond the data is refused. Spans keep their values when moved, compare equal exactly when "
     "the columns have the same values, and give the values of a column only in its own type. Whether integers are longs or doubles is settled "
     "when a frame is read: changing the setting changes neither it nor its copies and spans. A call that fails throws, and changes no object.",
     ["histories", "inputs"],
     "all bounded sequences of calls on readers, frames, spans and decoders, over streams of compatible and incompatible frames",
     "Tests make a few calls on single frames; copies, moves, lifetimes and slices depend on the history of calls.",
     [S + "api/Odb.h", S + "api/Odb.cc", S + "api/StridedData.h", S + "core/DecodeTarget.cc", S + "core/Span.cc", S + "core/ThreadSharedDataHandle.cc"],
     [("values and lifetimes", S + "api/Odb.h Frame, Span, Decoder"), ("slices", S + "api/StridedData.h StridedDataT::slice"),
      ("filter makes a frame of its own", S + "api/Odb.cc FrameImpl::filter")],
     ["odc::api::Reader, Frame, Span, Decoder"],
     "TLA+ state machine of the objects of the C++ interface (CppApi.tla), TLC exhaustive and simulated, with independence of objects and "
     "failures without effect as action properties; call sequences replayed with the real classes over guarded memory",
     "Exhaustive: 3 moves of 2 frames, any one decode, pairs of filters, spans of two frames compared; sampled: 60 calls over 8 objects.")


for p in P:   # the checks that are also run on long files
    if p["id"] in ("C02", "C04", "C07", "C11", "C12", "C13", "C14", "C15", "C16", "C21", "C25"):
        p["technique"] += "; long files described by runs of rows (Scale.tla)"
        p["note"] += " Files of up to 140000 rows, sampled around the sizes of counters and buffers."
    if p["id"] in ("C04", "C21"):
        p["note"] += " Offsets and rows beyond 32 bits in sparse files."


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    checks, na = [], []
    for p in P:
        if os.path.exists(os.path.join(HERE, "checks", p["id"] + ".py")) and not p["na"]:
            checks.append({"property": p["id"], "quick_cmd": "python3 run.py " + p["id"],
                           "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + p["id"],
                           "evidence_file": "evidence/%s.json" % p["id"],
                           "technique": p["technique"], "level": "model_checking", "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": p["na"] or "no check yet (under construction)"})
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na}
    hooks = os.path.join(HERE, "tools", "hooks.json")
    if os.path.exists(hooks):
        m["hooks"] = json.load(open(hooks))
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(checks), "checks,", len(na), "not claimed")


main()
