"""The registered checks."""
GEN = ["files are produced by /verif/lib/sasgen.hpp, an independent writer of the format"]
ASM = GEN + ["data values outside the stated alphabets are not covered"]
CHECKS = {}


def check(pid, level, technique, rule, note, harness=None, kind="cpp", assumptions=ASM, **kw):
    CHECKS[pid] = dict(kind=kind, harness=harness or pid.lower(), level=level, technique=technique, rule=rule, note=note, assumptions=assumptions, **kw)


check("C01", "exploration", "exhaustive enumeration of bounded file layouts on the real reader, against the writer's row list",
      "one case per combination of byte order, word size, alignment, compression, metadata split, mixed-page form, page sequence and declared row count; a case is distinct if its layout string is",
      "Every layout of up to 3 (thorough: 4) pages after the metadata, over all format variants; larger files at scale points only. Pages of every unknown type number, in two (thorough: eight) formats.")
check("C02", "model_checking", "explicit-state model of the row cursor, every operation sequence up to a depth executed on the real reader and compared step by step",
      "one case per (layout, operation sequence)",
      "All sequences of 14 operations to depth 3 (thorough 5), of 6 to depth 5 (7), of 3 to depth 8 (11), each over a zoo of layouts and formats; of 13 with counts up to 131072 to depth 3 (4) on files of up to 140000 rows; one long history each around row 2^31 (32 bit) and row 2^32 (64 bit) of files made up as they are read; every sequence is run on the implementation itself, so model and code cannot drift.",
      parts=[dict(variant="plain", harness="c02w", prefix="row-numbers")])
check("C03", "model_checking", "explicit-state model of the notification protocol, every call sequence up to a depth executed on the real reader and compared step by step",
      "one case per (layout, operation sequence)",
      "All sequences of 15 operations to depth 3 (thorough 5) and of 6 to depth 5 (7), over layouts including every form of empty file.")
check("C04", "exploration", "exhaustive enumeration of bounded RLE command sequences, decoded by the real reader and compared byte for byte with the encoded row",
      "one case per encoded row (encoding and expected row); the same encoding in another file format counts once",
      "Every command with every operand (13 kinds x 16 x 256), at each position of a row; all sequences of 3 (thorough 5) commands over 20 boundary lengths; every cut, unknown and overflowing command of all pairs. Bytes copied come from a fixed noise stream.")
check("C05", "exploration", "exhaustive enumeration of bounded RDC item sequences, decoded by the real reader and compared byte for byte with the encoded row",
      "one case per encoded row (encoding and expected row); the same encoding in another file format counts once",
      "Every run length, every pattern count, every pattern distance; all sequences of 4 (thorough 5) items over 11 symbols from each phase of the control words; all endings, cuts, overflows and references before the row. One recorded finding (rdc-short-tail) is tolerated exactly as described, and reported.")
check("C06", "exploration", "exhaustive enumeration of stored bytes (all leading 16 bits, every byte position and value) decoded by the real reader, against bit assembly",
      "one case per (width, byte order, stored bytes)",
      "All 65536 values of the two leading bytes with fixed patterns in the others; every value of every single byte over nine base values at 17 offsets; some values at offsets to 131074; all 1- and 2-byte values; all missing values. Combinations of three or more free bytes are not enumerated.")
check("C07", "exploration", "exhaustive enumeration of days, seconds of chosen days, microsecond classes, formats and widths, decoded by the real reader against civil-calendar arithmetic",
      "one case per (value, kind of column)",
      "Every day from 1400 to 9999 as a date and at least one datetime of it; every second of ten days with eight fractions; all 85 formats in all widths with special values; columns as far as 131072 bytes into the row. Values half way between two microseconds and fractional day numbers are left out: the statement does not settle them.")
check("C08", "exploration", "exhaustive enumeration of short contents over an alphabet, of single bytes by position, of endings and of lengths, read by the real reader against the stored bytes",
      "one case per stored content of a string column",
      "All contents of up to 6 (thorough 7) bytes over 8 byte classes; every byte at every position of 14 widths over 5 backgrounds; every pair of final bytes; all lengths to 300 and around powers of two to 100000; offsets to 131071.")
check("C09", "exploration", "exhaustive enumeration of days, seconds, microsecond fractions, hours, small integers and number magnitudes, rendered by the real library against independent formatting",
      "one case per distinct expected text",
      "Every calendar day, every second of five days with six fractions, every microsecond fraction, all hours to 1100 and around powers of ten, every 1- and 2-byte integer, numbers of every decimal magnitude and all two-bit patterns. The text of NaN numbers is left open by the statement.")
check("C10", "exploration", "exhaustive enumeration of header configurations and field contents, reported by the real reader, against the writer's fields",
      "one case per header",
      "All 8 format variants with every encoding and platform code, every length of every text field, every letter at three positions, header/page geometry at boundaries, and every single-byte change of the magic number.")
check("C11", "exploration", "exhaustive enumeration of the arrangements of column metadata within bounds, reported by the real reader, against the writer's column list",
      "one case per distinct metadata rendering",
      "Every assignment of texts to up to 3 blocks for up to 3 columns, every allowed order of the seven kinds of pieces, every split over up to 3 (thorough 4) pages, every known format and near miss in every length, all text lengths to 256 and letters, creators and procedures of up to 32000 bytes, up to 4095 (thorough 32000) columns in every format and arrangement, up to 70000 in two formats.")
check("C12", "exploration", "exhaustive enumeration of include/exclude sets and predicates over the columns of a zoo of files, each read by the real reader and compared with the unfiltered rows",
      "one case per (layout, filter)",
      "All pairs of include and exclude sets over up to 5 columns, all predicates over up to 10 columns, ten kinds of near-miss names, filters by type, over 11 layouts and several formats.")
check("C13", "fault_enumeration", "exhaustive enumeration of the cut positions of a zoo of files, each cut file opened and read by the real reader and compared with the complete file's rows",
      "one case per (layout, cut position, way of reading, kind of source)",
      "Every cut of every byte of files of 11 layouts in 2 (thorough 8) formats, 4 (thorough 6) ways of reading, then further calls; the same with files on disk at every third (thorough every) byte and around every page boundary.")
check("C14", "fault_enumeration", "exhaustive enumeration of damages (every byte, every structural field and pair of fields x boundary values, page sequences, shifts) to a zoo of files, each opened, read, skipped and decoded by the real reader under AddressSanitizer",
      "one case per damaged file",
      "Every byte of files of 11 layouts x 6 (thorough 10) values; every structural field x boundary values and powers of two; all pairs of fields x 5x5 (8x8) values in 4 (22) files; all sequences of up to 4 (5) pages; insertions and deletions; every piece of metadata or compressed row cut at every byte by the end of its page; every header and page length up to twice the real one; pieces lying in the unused bytes at a page's start. Single allocations beyond 64 MB fail, as they would in a small process; 5 s of CPU time per file count as a hang.")
check("C15", "fault_enumeration", "exhaustive enumeration of failures of the data source (every read and end-of-file query x failure kind x one-shot or lasting, and all pairs) under call histories, on the real reader, every delivered row compared with the complete file's",
      "one case per (layout, call history, faults)",
      "All single faults of ten kinds at every read or end-of-file query over 11 layouts, 8 formats and 7 histories; all pairs of faults over 2 (thorough 8) formats and 3 (7) histories; twelve kinds of unusable files.")
check("C16", "fault_enumeration", "exhaustive enumeration of exceptions at every sink and filter callback and of failures of every allocation, under call histories, on the real reader, with exact accounting of exceptions, rows, objects and memory",
      "one case per (layout, call history, faults)",
      "Every callback and every pair of callbacks, every filter call, every single allocation (once, or all from there on) over 11 layouts, 8 formats and 6 histories; pairs with allocation failures over 2 (thorough 8) formats; first-use allocations in new processes; every allocation of value texts and of copies.")
check("C17", "model_checking", "exhaustive interleaving of calls on several real readers against one reference model each; exhaustive thread schedules up to a preemption bound under a controlled scheduler with race detection; exhaustive sequences of copy/move/destroy of columns and properties",
      "one case per interleaving, nesting, lifetime sequence or thread schedule",
      "All interleavings of 5 (thorough 6) calls on 2 and on 3 readers, including late opening and destruction; readers opened and used at every callback of another, two levels deep; all schedules of 2 threads with up to 2 (3) preemptions and of 3 threads with 1 (2) at every source read, callback and call; all schedules of 2 and 3 threads with 1 (2) preemptions using or copying one reader's columns, row and properties; all ways to hand a reader's calls to new threads; all lifetime sequences of 5 (7) steps. Preemption inside a library call between such points is covered by race detection only.",
      parts=[dict(variant="tsan", harness="c17t", prefix="threads")])
check("C18", "exploration", "exhaustive enumeration of short strings and names over the characters CSV cares about, of number patterns, of call histories and of output targets, written by the real sink and parsed back by a strict reader",
      "one case per row content, name set, history or target",
      "All strings of up to 4 (thorough 5) bytes over 12 (13) characters, every byte value, all names with 3 such characters inside, 6 mantissas of every exponent in 6 widths, all 1- and 2-byte integers, dates over the whole calendar, all histories of up to 4 (5) calls of 8, eleven ways to hand over the target, long fields around buffer sizes, room for 43 (803) different numbers of bytes and a full device.")
check("C19", "exploration", "exhaustive enumeration of short values, names, labels, formats and header texts over the characters formatting cares about, of special values of every kind of column, of call histories, filters and output targets, the listing compared byte for byte with an independent rendering",
      "one case per content, name set, header text, history, filter or target",
      "All strings of up to 4 (thorough 5) bytes over 12 characters, all names, labels and formats with 3 of them inside, every letter of each header text, every exponent with 4 mantissas in 6 widths in every kind of numeric column, all histories of up to 4 (5) calls of 8 with the stream inspected after each. Number texts are the library's own (C09 decides those), taken from a second reader.")
check("C20", "exploration", "exhaustive enumeration of commands, file lists, file-name shapes, line limits, invalid inputs, links between inputs and outputs, cuts and damages, each run as a process in its own scratch directory whose whole content is compared before and after",
      "one case per command line and directory content",
      "All lists of up to 2 of 17 name shapes and of 3 of 4 (thorough 9), over 4 commands; 15 kinds of unusable inputs in lists of up to 2, 4 in lists of 3; 13 ways for a csv file to coincide with another file; 11 contents x 2 (8) formats x 9 limits; room for 19 (403) different numbers of bytes of output and a full device; up to 200 files with 12 open at a time. The tool is built with AddressSanitizer and run as an unprivileged user.",
      cli=True)
check("C21", "model_checking", "explicit-state model of a reader with its Python sink, every call sequence and every placement of sink exceptions up to a depth executed on the real extension module and compared step by step",
      "one case per (file, sink, call sequence, exceptions)",
      "All sequences of 3 (thorough 4) calls of 9 (12) and of 4 (6) calls of 5 on 22 (88) files with 6 sinks; all placements of 1 and 2 sink exceptions; sinks that flush from inside; the package's own sinks with df asked at every point (a stand-in for pandas records the frames); all filters over 4 (5) columns; everything a user may hold dropped in every order; two readers interleaved in every way, and in two threads with up to 2 (3) hand-overs placed in every notification and between all calls; every allocation of a Python object failing in every call of some histories; cuts every 331 (37) bytes; 20500 rows in chunks of seven sizes, 66000 rows in chunks of more than 16 bits count. Bytes alive and open files after 20000 rows and after every 4 readers. What was handed over is compared again at the end of each case. Rows waiting in an unfinished chunk when the reader is dropped are left open. The extension is built with AddressSanitizer.",
      kind="py", module="c21")
check("C22", "model_checking", "explicit-state model of a reader with its R sink, every call sequence and every placement of sink errors up to a depth executed on the real R package and compared step by step",
      "one case per (file, sink, call sequence, errors)",
      "All sequences of 3 (thorough 3 of 11 calls) of 6 calls on 22 (88) files with 7 sinks and of 4 (5) of 5 calls on some; placements of 1 and 2 sink errors; the package's own sinks with df asked at every point; all filters over 4 (5) columns; properties, sink and reader dropped in every order with a collection after each; a garbage collection every 101 allocations from several starts; two readers interleaved in every way, and one read inside the notifications of the other in every placement; cuts every 331 (37) bytes; 20500 rows in chunks of five sizes, 66000 rows in chunks of more than 16 bits count; wrong arguments; cells and bytes alive and open files after 60000 rows and after every 4 readers. Rcpp keeps one cell of every error passing through a method: allowed. What was handed over is compared again at the end of each case. R strings end at an embedded NUL; rows waiting in an unfinished chunk when the reader is dropped are left open. The package is built with AddressSanitizer.",
      kind="py", module="c22")
check("C23", "model_checking", "explicit-state model of the row cursor with the page that stores each row, every call sequence up to a depth executed on the real reader over a recording source; exhaustive enumeration of repeated call patterns with exact accounting of memory; every sequence of handing over, moving, replacing and destroying with exact accounting of objects and open files",
      "one case per (layout, call sequence), (page shape, sink, call pattern), (declared count) or ownership sequence",
      "All sequences of 13 calls to depth 3 (thorough 4) and of 4 calls to depth 6 (8) over 16 layouts; all patterns of up to 2 (3) of 10 calls, repeated to the end of files of 6 and 120 (150) times the same pages, 7 page shapes, 4 sinks: the peak of living memory may differ by 1024 bytes; declared row and page counts of every power of two to 2^30; all ownership sequences of 3 (4) of 20 steps on 2 readers.")
