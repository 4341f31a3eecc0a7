#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for titles, statements, anchors)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
        mechanism=[dict(name=n, where=w) for n, w in mech],
        observe_at=list(observe), hook_needed=None)))
RD = ["Reader::read_all/read_row/read_rows", "sink callbacks", "Column::get_*"]

prop("C01", "Every row and value is delivered, whatever the on-disk layout",
 "For every well-formed file - either byte order, 32- or 64-bit, any header alignment, uncompressed or RLE/RDC compressed, any number and order of metadata, mixed, data and ignorable pages - reading it delivers exactly the rows the file stores, in order and each exactly once, with every column value equal to the stored one. Delivery stops exactly at the declared number of rows, even when pages have room for more or contain no row at all.",
 ["inputs", "configurations"], "all combinations of byte order x word size x alignment x compression x page arrangement x row counts around page boundaries",
 "The tests read 170 fixed sample files; combinations of page kind, compression, width and boundary row counts absent from the samples are never exercised.",
 ["src/data.hpp", "src/page.hpp", "src/metadata.hpp", "src/reader-impl.hpp", "src/buffer.hpp", "src/sas7bdat-impl.hpp"],
 [("page iteration and row addressing", "src/data.hpp: READ_DATA::next/read_next_page/build_page, PAGE::*"),
  ("buffer growth between header and pages", "src/buffer.hpp: MBUFFER::resize/read_stream")],
 [("current_row", "rows consumed", "READ_DATA::current_row"), ("current_row_on_page", "rows consumed on page", "PAGE::base")], RD)

prop("C02", "Any sequence of reading calls sees the same rows as one plain pass",
 "For every sequence of single-row reads, chunked reads, skips, sink-less reads, read-alls and moves of the reader, each position of the file yields the same row as a plain front-to-back pass, skipped rows never reach the sink, and the reported current row index equals the number of rows consumed so far. A call's return value says whether every row it asked for was available, and a row obtained without the sink stays readable until the next call on that reader.",
 ["histories", "inputs"], "all operation sequences up to a depth bound, over files of each page/compression layout",
 "Tests call read_all, and single fixed patterns of skip/read_rows; the operation-sequence space (mixes at page boundaries, after the end, across moves) is never enumerated.",
 ["src/reader.cpp", "src/reader-impl.hpp", "src/data.hpp", "include/cppsas7bdat/reader.hpp"],
 [("row cursor and page cursor advance together", "src/data.hpp: _read_line/skip/next"), ("pimpl move", "src/reader.cpp")],
 [("current_row", "rows consumed", "READ_DATA::current_row")], ["Reader public methods' return values"] + RD)

prop("C03", "A sink is told: properties once, each row once in order, end only at end",
 "A sink receives the file's properties exactly once and before any row, and then each row consumed through it exactly once, with strictly increasing row index equal to that row's position in the file. The end-of-data notification arrives exactly when a sink-bound read or a skip finds that no further row exists, or on explicit request - never otherwise, and never before rows already consumed; sink-less reads notify nothing.",
 ["histories", "inputs"], "all operation sequences up to a depth bound, including zero-row files, zero-size chunks and calls after the end",
 "Tests only check the data a sink holds at the end of one canonical pass, not the notification sequence under all call histories.",
 ["src/reader-impl.hpp", "include/cppsas7bdat/reader.hpp", "src/reader.cpp"],
 [("notification calls", "src/reader-impl.hpp: ReaderImpl::read_row/skip/impl::impl")], (), ["sink callbacks"])

prop("C04", "RLE-compressed rows expand to exactly the original bytes",
 "For every sequence of run-length commands that encodes a row - every command kind, every length each can express, in any order and ending with any command - the row delivered to the user is byte for byte the encoded row. A malformed sequence raises an exception or leaves the unspecified tail of the row zero; it never alters another row or touches memory outside its own row.",
 ["inputs"], "all command sequences up to a length bound with boundary run lengths, and every single command with each of its possible lengths",
 "Tests decode a few hand-written byte strings and the sample files; most command/length/ending combinations never occur there.",
 ["src/decompressors.hpp", "src/data.hpp"], [("RLE::operator()", "src/decompressors.hpp")],
 [("i_dst/i_src", "output and input cursors", "DST_VALUES, SRC_VALUES")], ["bytes of string columns spanning the row"])

prop("C05", "RDC-compressed rows expand to exactly the original bytes",
 "For every sequence of literal bytes, short and long runs and short and long back-references that encodes a row - with overlapping references, any reference distance, and control words ending at any position - the row delivered to the user is byte for byte the encoded row. A malformed sequence raises an exception or leaves the unspecified tail of the row zero; it never alters another row or touches memory outside its own row.",
 ["inputs"], "all item sequences up to a length bound with boundary counts/distances, and every single command with each of its possible operands",
 "Tests decode a few hand-written byte strings and the sample files; control-word boundaries, overlapping references and trailing literals are not covered.",
 ["src/decompressors.hpp", "src/data.hpp"], [("RDC::operator()", "src/decompressors.hpp")],
 [("ctrl_bits/ctrl_mask", "control word state", "RDC::operator()")], ["bytes of string columns spanning the row"])

prop("C06", "Numeric columns decode exactly in every storage width and byte order",
 "A numeric column stored in 3 to 8 bytes reads as the double whose leading bytes are those stored and whose remaining bytes are zero, in either byte order and at any offset of the row; 1- and 2-byte columns read as unsigned 8-bit and signed 16-bit integers. Missing values read as NaN, infinities, signed zeros and subnormals are preserved bit for bit, and the getters of unrelated value kinds return that kind's empty value.",
 ["inputs"], "all byte orders x widths x offsets x structured bit patterns (every byte position x every byte value; all 1- and 2-byte values)",
 "Samples hold ordinary values; single-byte position mix-ups or sign/width errors for particular widths and byte orders can survive them.",
 ["src/types.hpp", "src/formatters.hpp", "src/metadata.hpp"],
 [("get_double/get_incomplete_double/get_val", "src/types.hpp"), ("width dispatch", "src/metadata.hpp: create_columns")], (), ["Column::get_number/get_integer"])

prop("C07", "Dates, datetimes and times decode to the right calendar value",
 "For every day the calendar supports, a column with a recognised date, datetime or time format yields exactly the calendar date and time of day that many days or seconds from 1 January 1960, to the microsecond, for every storage width. A missing value, or a number no calendar date can represent, reads as the not-a-date value and never crashes.",
 ["inputs"], "every day from year 1400 to 9999, every second of boundary days, all recognised formats, all widths, and special values",
 "Tests check a handful of instants from sample files.",
 ["src/types.hpp", "src/formatters.hpp", "src/metadata.hpp"],
 [("get_datetime_from_epoch/get_date_from_epoch/get_time_from_epoch", "src/types.hpp"), ("format tables", "src/metadata.hpp")], (), ["Column::get_date/get_datetime/get_time"])

prop("C08", "String columns yield the stored bytes minus trailing padding",
 "A string column of any length at any offset yields exactly its stored bytes with trailing whitespace and NULs removed: leading and embedded blanks, NULs and non-ASCII bytes are preserved, an all-padding value yields the empty string, and bytes of neighbouring columns never appear.",
 ["inputs"], "all strings up to a length bound over an alphabet of blanks, NULs, letters, control and high bytes, at every offset/length up to a bound, plus long strings up to 32767 bytes",
 "Samples contain plain text only; padding and byte-class corner cases are not enumerated.",
 ["src/types.hpp", "src/formatters.hpp"], [("get_string_trim_0", "src/types.hpp")], (), ["Column::get_string/to_string"])

prop("C09", "Every value has a faithful text rendering",
 "The text of a date is YYYY-MM-DD, of a datetime YYYY-MM-DD HH:MM:SS, of a time HH:MM:SS - with six fractional digits exactly when the fraction is non-zero - and each equals the calendar fields of the value, for every representable value and however many digits its hours need. The text of an integer or a string is the value itself, and that of a number its six-decimal form; a missing date, datetime or time renders as the empty text.",
 ["inputs"], "all days of the calendar, all seconds of a day, all duration classes incl. hours of many digits, fraction classes, integers, doubles of every magnitude",
 "Tests render a handful of values; length-dependent and digit-dependent errors are not reached.",
 ["src/types.cpp", "src/formatters.hpp"], [("to_string overloads", "src/types.cpp"), ("to_string members", "src/formatters.hpp")], (), ["to_string", "Column::to_string"])

prop("C10", "File header properties are reported exactly as stored",
 "For every combination of byte order, word size and alignment, the reported format, byte order, platform, encoding, dataset name, file type, creation and modification times, SAS release, server and OS strings and header, page and row geometry equal those stored in the file, with surrounding padding removed from text. Every one of the 256 encoding codes maps to its documented name. A file that does not start with the magic number is rejected.",
 ["inputs", "configurations"], "all header configurations x field values incl. empty, full-width and padded text, all 256 encoding and platform bytes",
 "Samples only show the header values of the files at hand; field overlap, full-width text and rare alignments are not covered.",
 ["src/header.hpp", "src/encodings.cpp", "include/cppsas7bdat/properties.hpp"], [("CHECK_HEADER/READ_HEADER", "src/header.hpp"), ("get_encoding", "src/encodings.cpp")], (), ["Reader::properties"])

prop("C11", "Column metadata is complete, ordered and correctly attributed",
 "For every arrangement of column metadata - any number of columns, any split over metadata pages and text blocks, any order of the pieces that the format allows - the reader reports each column once, in file order, with its own name, label, format, type and length, and the dataset's compression, creator, row length, row count and column count as stored. Splitting the columns by kind puts each one into the group of its kind, in the same order; a column compares equal to its copies and unequal to columns of other names.",
 ["inputs", "configurations"], "all column type/format combinations x text-block splits x page splits x column counts incl. 0, 1, and beyond 255",
 "Samples have one layout each; mis-attribution in other splits or orders cannot show.",
 ["src/metadata.hpp", "src/subheaders.hpp", "src/page.hpp"], [("process_*_SUBHEADER, get_column_text_substr, create_columns", "src/metadata.hpp")],
 [("column_texts/names/formats/labels/...", "collected pieces joined by position", "READ_METADATA")], ["Reader::properties().columns"])

prop("C12", "Column filters keep exactly the chosen columns and change nothing else",
 "With any include set, exclude set, both, or a user-defined predicate, the reader reports and delivers exactly the accepted columns, in file order, with the same values they have without a filter; an include set takes precedence over an exclude set, and names match exactly. Filtering never changes which rows are delivered or the dataset-level properties.",
 ["inputs", "configurations"], "all subsets of include/exclude names (existing, missing, differing by case or prefix) over files of each layout",
 "Tests try a few name sets on a few files.",
 ["include/cppsas7bdat/filter/column.hpp", "src/metadata.hpp", "src/column.cpp"], [("accept", "include/cppsas7bdat/filter/column.hpp"), ("filter application", "src/metadata.hpp: create_columns")], (), ["properties().columns", "sink rows"])

prop("C13", "A file cut short never yields wrong rows",
 "If a valid file is cut after any byte, opening it either raises an exception or succeeds with the properties of the complete file, and reading what can be opened delivers a prefix of the complete file's rows, each with unchanged values and including every row of the pages that are complete, and then ends or raises. It never crashes, hangs, invents a row, or reads outside its own memory.",
 ["crash_points", "inputs"], "every prefix length of files of each layout (byte order, word size, compression, page kinds)",
 "The suite has no truncated data files beyond header checks; the crash-point quantifier is untouched.",
 ["src/page.hpp", "src/data.hpp", "src/header.hpp", "src/metadata.hpp", "include/cppsas7bdat/source/ifstream.hpp"], [("short-read handling", "src/page.hpp: read_page, src/header.hpp")], (), RD)

prop("C14", "A corrupted file is rejected or read, but never breaks memory safety",
 "Whatever bytes of a file are damaged, opening, reading, skipping and asking for any column's value or text either succeed or raise a standard exception. Every call returns in time bounded by the file's size and the number of rows it declares or is asked for, and no call reads or writes memory the library does not own, corrupts its own state, or terminates the process.",
 ["inputs", "fault_sequences"], "every byte position of files of each layout x a set of replacement values, and every pair of structural fields x boundary values",
 "The suite has no corrupted data; release builds disable the internal assertions that would catch some of this.",
 ["src/buffer.hpp", "src/page.hpp", "src/metadata.hpp", "src/data.hpp", "src/decompressors.hpp", "src/formatters.hpp", "src/header.hpp", "src/types.hpp"],
 [("bounds checks", "src/buffer.hpp: check/assert_check"), ("exceptions", "src/exceptions.cpp")], (), ["AddressSanitizer-visible effects", "exceptions"])

prop("C15", "Failures of the data source surface as an exception or the end of data",
 "If the data source fails, reports end of file, or throws at any read, a call in progress either raises an exception (the source's own, if it threw) or treats the data as ended; rows already delivered stay correct, no row made from a failed read is ever delivered, what an opened reader reports of the file is what the file says, and later calls stay safe. A missing or unreadable file is reported by an exception when the source is opened.",
 ["fault_sequences", "histories"], "every read position x failure kind (clean failure, failure with end-of-file, partial data, exception, early end-of-file), up to two faults, x call histories",
 "Tests use only healthy files and in-memory streams; no read ever fails after the header.",
 ["src/page.hpp", "src/header.hpp", "src/datasource_ifstream.cpp", "src/stream.cpp", "include/cppsas7bdat/source/ifstream.hpp"], [("read_page/read_stream results", "src/page.hpp, src/buffer.hpp")], (), RD)

prop("C16", "Exceptions from sinks, filters and allocation leave no damage",
 "An exception thrown by a sink or a filter at any callback reaches the caller unchanged, and an allocation failure at any point surfaces as an out-of-memory exception; nothing leaks and the process never terminates. After a sink's exception the reader can go on: the following rows are delivered correctly, none twice.",
 ["fault_sequences", "histories"], "every callback index and every allocation index of construct-and-read histories over files of each layout, up to two faults",
 "No test injects a throwing sink, filter or allocator.",
 ["src/reader-impl.hpp", "src/reader.cpp", "src/metadata.hpp", "src/buffer.hpp", "src/memory.hpp"], [("RAII ownership; noexcept boundaries", "src/*.hpp")], (), ["exceptions", "allocation balance"])

prop("C17", "Readers are independent of each other, of threads and of object lifetimes",
 "Any interleaving of calls on several readers - in one thread, nested inside a sink callback, or in different threads - gives each reader the rows, values and properties it gives when used alone. Copies of columns and properties taken from a reader stay valid and decode its rows correctly after the reader is moved or destroyed. Columns, properties and a row may be used by several threads at once, and a reader may be handed from thread to thread.",
 ["schedules", "histories"], "all interleavings of call sequences on 2-3 readers; all thread schedules at source/sink switch points up to a preemption bound; all destruction orders",
 "Tests use one reader at a time in one thread.",
 ["src/reader.cpp", "src/reader-impl.hpp", "include/cppsas7bdat/column.hpp", "src/decompressors.hpp"], [("per-reader state only", "src/reader-impl.hpp"), ("shared formatter ownership", "include/cppsas7bdat/column.hpp")], (), RD)

prop("C18", "CSV output parses back to the data read",
 "The CSV sink writes one header line naming the columns in order and then one line per row read, each with one field per column; parsing the output as CSV gives back every column name, every string exactly, every number exactly, and an empty field for a missing number, whatever characters the data contain. Writing to a stream and writing to a named file produce the same bytes, complete once the reader is destroyed, however the sink was moved; a file that cannot be created, or that cannot take all the data by the time the reader reaches their end, is reported as an exception.",
 ["inputs", "histories"], "all strings/names up to a bound over separators, quotes, line breaks, braces and high bytes; all column types and special values; partial reads; sink moves",
 "One test compares one simple sample.",
 ["include/cppsas7bdat/sink/csv.hpp"], [("csv::print/push_row/set_properties", "include/cppsas7bdat/sink/csv.hpp")], (), ["bytes written"])

prop("C19", "The print sink lists properties, columns and rows faithfully",
 "The print sink writes every dataset property and every column's name, label, format and type as stored, then one line per row read with the row's index and the text of every column value, in order; names, labels and values are copied literally, whatever characters they contain. Missing dates and unusual values never prevent the other rows from being printed.",
 ["inputs", "histories"], "all names/labels/values up to a bound incl. braces and percent signs, all column types with missing and special values, all read histories up to a bound",
 "One test prints a simple sample.",
 ["include/cppsas7bdat/sink/print.hpp"], [("print_properties/push_row", "include/cppsas7bdat/sink/print.hpp")], (), ["bytes written"])

prop("C20", "The command-line tool does what its usage says and never harms its input",
 "For every list of input files, `print` writes each file's listing in order, limited to the requested number of rows per file, `csv` writes each file's data as CSV to a file named after it with the extension replaced by csv, and `null` reads everything silently. No command ever modifies or removes an input file, an unreadable or invalid input gives a non-zero exit status and an error message, not a crash, and so does output that cannot be written completely.",
 ["inputs", "programs"], "all commands x file lists up to length 2-3 x file-name shapes x line limits x valid/invalid/missing inputs",
 "The suite never runs the tool.",
 ["apps/cppsas7bdat-ci.cpp"], [("process_print/process_csv/process_null/main", "apps/cppsas7bdat-ci.cpp")], (), ["stdout, exit status, files in the directory"])

prop("C21", "The Python binding delivers the same data as the C++ library",
 "From Python, any sequence of reads, chunked reads, skips and ends of data, with any include/exclude filter and any Python or built-in sink, sees the same properties, columns, rows and values (strings, numbers, integers, dates, times, missing values as None or NaN) as the C++ reader: every row read is handed over exactly once and in order, chunk row ranges match the rows they hold, the whole data and the package's data frames hold every row read so far, and what was handed over never changes later. Reading into a sink that keeps nothing holds no more memory the more rows are read, and a dropped reader releases what it held and closes its file. Names and texts that are not UTF-8 do not prevent reading. A Python exception raised in a sink reaches the caller unchanged and costs no other row; so does a MemoryError, wherever it arises. No sequence of calls, arguments or object lifetimes crashes the interpreter.",
 ["histories", "inputs"], "all call sequences up to a bound x sink kinds x filters x files covering all column types",
 "The Python tests read a few files in one pattern and need optional packages.",
 ["python/pycppsas7bdat/cpp/sink.hpp", "python/pycppsas7bdat/cpp/reader.cpp", "python/pycppsas7bdat/cpp/import_datetime.cpp", "python/pycppsas7bdat/cpp/pycppsas7bdat.cpp", "python/pycppsas7bdat/sink.py"],
 [("SinkChunk/Sink wrappers", "python/pycppsas7bdat/cpp/sink.hpp"), ("value conversion", "python/pycppsas7bdat/cpp/import_datetime.cpp")], (), ["Python objects received by sinks"])

prop("C22", "The R binding delivers the same data as the C++ library",
 "From R, any sequence of reads, chunked reads, skips and ends of data, with any include/exclude filter and any R sink, sees the same properties, columns, rows and values (strings, numbers, integers, dates, datetimes, times, missing values as NA, NaN or NULL) as the C++ reader: every row read is handed over exactly once and in order, row indexes match the rows they come with, the whole data and the package's own data frames hold every row handed over so far, and what was handed to a sink keeps its content after later reads and garbage collections. Reading into a sink that keeps nothing holds no more memory the more rows are read, and a dropped reader releases what it held and closes its file. An R error raised in a sink reaches the caller and costs no other row, and no sequence of calls, arguments or object lifetimes crashes R.",
 ["histories", "inputs"], "all call sequences up to a bound x sink kinds x filters x files covering all column types",
 "The R tests read a few files in one pattern.",
 ["R/CPPSAS7BDAT/src/sink_by_columns.hpp", "R/CPPSAS7BDAT/src/sink.hpp", "R/CPPSAS7BDAT/src/sink_data.hpp", "R/CPPSAS7BDAT/src/sink_chunk.hpp", "R/CPPSAS7BDAT/src/reader.cpp", "R/CPPSAS7BDAT/R/sink.R"],
 [("SinkByColumns/SinkChunk/SinkData wrappers", "R/CPPSAS7BDAT/src/")], (), ["R objects received by sinks"])

prop("C23", "A file is streamed: read no further than needed, in memory that does not grow",
 "A file is read in one forward pass, a page at a time. Opening reads no further than the first page that stores a row, delivering or skipping a row no further than the page that stores it, a call that asks for no row reads nothing, and once every declared row was consumed or the source has reported its end, no call asks it for more. While reading, with any of the package's sinks, the memory held does not grow with the number of rows or pages read or declared. A source and sink passed as temporaries are moved into the reader and released exactly once, when it is destroyed or replaced, or when opening fails; passed by reference, they are used in place.",
 ["histories", "inputs"], "all call sequences and all repeated call patterns up to a bound x layouts and page kinds; all sequences of opening, moving, replacing and destroying readers up to a bound",
 "Tests look at the rows only, never at what was read from the source to get them or at the memory in use.",
 ["src/data.hpp", "src/metadata.hpp", "src/page.hpp", "src/buffer.hpp", "src/decompressors.hpp", "include/cppsas7bdat/reader.hpp", "include/cppsas7bdat/source/ifstream.hpp"],
 [("pages read", "src/data.hpp: READ_DATA::next/read_next_page; src/metadata.hpp: set_metadata"), ("buffers", "src/buffer.hpp, src/decompressors.hpp"), ("ownership of source and sink", "include/cppsas7bdat/reader.hpp: DataSourceModel/DatasetSinkModel")], (), ["calls on the data source", "living memory, objects and open files"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
