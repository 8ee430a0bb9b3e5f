#!/usr/bin/env python3
"""Write /verif/properties.jsonl from the list below."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=list(over), text=text), why_tests_cant=why,
             anchors=dict(files=list(files),
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=list(observe), hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

prop("C01", "Parsing follows the dialect grammar exactly, for every text and dialect",
 "For every text, dialect and strict setting, the records produced by parsing are exactly those of the documented grammar: delimiters, record ends (LF, CR, CRLF), quoted regions anywhere in a cell, doubled quotes without any option, escapes, unterminated quotes or escapes at the end of the data, with the quotes around a cell removed and nothing else changed. When asked for, every cell is also reported as quoted or not, and strict mode accepts precisely the well-formed input. Size, alignment and character width of the text make no difference.",
 ["inputs", "configurations"], "all texts (any Unicode except NUL, any cell and record length) x all delimiter/quote/escape characters or their absence x strict x quoted reporting",
 "The unit tests fix about fifty short ASCII strings; the grammar is a nine-state machine with one character lookahead and a growing buffer, so its behaviour on other state/character combinations and past the first buffer is unsampled.",
 ["src/cparser.c", "clevercsv/cparser_util.py", "clevercsv/read.py"],
 [("state machine with one character lookahead", "src/cparser.c:parse_process_char"), ("saving a cell and removing its quotes", "src/cparser.c:parse_save_field"), ("buffer growth", "src/cparser.c:parse_grow_buff")],
 ["parse_data / parse_string output", "clevercsv.reader output"])
prop("C02", "The reader is a drop-in replacement for csv.reader on standard CSV",
 "On every well-formed CSV text (RFC 4180 quoting, or escape characters without quoting, with any one-character delimiter, quote and escape) the reader returns exactly the rows that the standard library reader returns. The dialect can be given as a registered name, a dialect class, a dialect instance, an object from the registry, a detected dialect, or as separate parameters that override it, and all of these give the same rows; the reader's dialect attribute and record counter describe what was used, and changing the dialect object or registered name afterwards doesn't affect a reader that was made with it.",
 ["inputs", "configurations"], "all well-formed CSV texts x all one-character dialects x all ways of passing a dialect",
 "Tests compare a handful of rows for the excel dialect; the combinations of dialect forms and cell contents are not sampled.",
 ["clevercsv/read.py", "clevercsv/dialect.py", "src/cparser.c"],
 [("dialect normalisation", "clevercsv/read.py:reader._make_simple_dialect"), ("conversion from csv dialects", "clevercsv/dialect.py:SimpleDialect.from_csv_dialect")],
 ["clevercsv.reader vs csv.reader on the same text"])
prop("C03", "Whatever the writer writes, the reader reads back unchanged",
 "For every table of strings and every dialect that can represent it, writing the table and reading the result with the same dialect gives back exactly the same cells, in the same order, and the text written is the one csv.writer writes for that dialect. Overriding parameters, writing row by row or all at once, line terminators, and changes to the dialect object after the writer was made, make no difference to this, and a dialect that cannot represent the data raises the package's Error instead of writing something else.",
 ["inputs", "configurations"], "all tables of strings x dialects given as names, classes, instances, detected dialects and parameters",
 "Tests write a few rows with fixed content; whether delimiters, quotes, escapes and line ends inside cells survive depends on the combination of content and dialect.",
 ["clevercsv/write.py", "clevercsv/dialect.py", "clevercsv/read.py"],
 [("dialect normalisation for writing", "clevercsv/write.py:writer._make_python_dialect"), ("conversion to csv dialects", "clevercsv/dialect.py:SimpleDialect.to_csv_dialect")],
 ["clevercsv.writer output", "clevercsv.reader on that output"])
prop("C04", "The native code never reads or writes outside its memory",
 "No input, of any content, size, type or iteration behaviour, and no failure of a memory allocation, makes the compiled parser and abstraction code access memory it does not own, overflow, use freed objects, execute undefined behaviour or crash the interpreter. Anything that cannot be handled surfaces as an ordinary Python exception.",
 ["inputs", "fault_sequences"], "all inputs to the compiled functions, including wrong types, re-entrant and failing iterators, and all positions of a failing allocation",
 "The tests run an uninstrumented build on small well-typed inputs, where an overrun by one element or a use of freed memory is invisible.",
 ["src/cparser.c", "src/abstraction.c"],
 [("field buffer growth", "src/cparser.c:parse_grow_buff"), ("abstraction stack growth", "src/abstraction.c:base_abstraction"), ("quote index growth", "src/abstraction.c:c_merge_with_quotechar")],
 ["ASan/UBSan reports", "process exit status", "exceptions"])
prop("C05", "The native code leaks nothing and never over-releases an object",
 "Parsing and abstraction keep no memory or references once their results and the parser object are gone: repeating any workload, including failing, abandoned and erroneous ones, leaves the number of allocated blocks, the heap in use and the reference counts of all objects passed in as they were. Objects that are handed out stay valid for as long as the caller holds them.",
 ["inputs", "histories"], "all repetitions of parses that complete, fail, are abandoned or get wrong arguments",
 "Tests never measure memory or reference counts, and a lost reference is invisible in a single run.",
 ["src/cparser.c", "src/abstraction.c"],
 [("argument and result reference handling", "src/cparser.c:cparser_parser"), ("cell tuples and lists", "src/cparser.c:parse_save_field"), ("deallocation", "src/cparser.c:Parser_dealloc")],
 ["sys.getallocatedblocks, mallinfo2, sys.getrefcount before and after"])
prop("C06", "Records are streamed once, in order, lazily, however the reader is iterated",
 "Every record of the input is delivered exactly once and in order, whatever mix of next(), for loops, islice, repeated iter() and list() the caller uses, and whatever kind of iterable of lines the input is, also when several readers take turns on the same source. A record is delivered as soon as its last line was read, no line is requested before it is needed, and memory use depends on the size of a record and not on the size of the input.",
 ["inputs", "histories"], "all sequences of iteration operations x all iterables of lines",
 "Tests consume readers with list() only, on lists and files; mixtures of iteration steps and the timing of line requests are not observed.",
 ["clevercsv/read.py", "src/cparser.c", "clevercsv/cparser_util.py"],
 [("one parser per reader", "clevercsv/read.py:reader.__iter__"), ("line at a time parsing", "src/cparser.c:Parser_iternext")],
 ["log of line requests and delivered records"],
 [("parser_gen", "the parser that iteration continues with", "clevercsv/read.py:reader")])
prop("C07", "The field size limit is exact, and changes only when asked to",
 "A cell whose size exceeds the limit in force raises the package's Error and a cell that fits is returned whole, for every limit, dialect and position in the data. The limit changes only by an explicit request, which returns the previous value and rejects anything but a single integer, and no reading, detecting or other operation, successful or failing, alters it or is made to fail by cells that merely exceed it during detection.",
 ["inputs", "histories"], "all limits and cell sizes x all sequences of limit changes and operations, failing ones included",
 "A single test sets a limit of three characters; exactness at each size and the restoration after failures are unsampled.",
 ["clevercsv/cparser_util.py", "clevercsv/consistency.py", "src/cparser.c"],
 [("limit check on every stored character", "src/cparser.c:parse_add_char"), ("global limit", "clevercsv/cparser_util.py:field_size_limit")],
 ["records or Error per limit", "field_size_limit() after each operation"],
 [("field size limit", "the limit for new readers", "clevercsv/cparser_util.py")])
prop("C08", "Dialect detection is total and its result is valid and taken from the sample",
 "For every text that can be encoded, every detection method and every set of allowed delimiters, detection ends and returns either no dialect or one whose delimiter, quote and escape are each empty or a single character; a non-empty delimiter is one of the allowed ones, and whatever the consistency measure or automatic detection settles on occurs in the sample. The dialect found can be used to parse the sample without an error, and the only error that detection raises is the package's Error, for text with NUL characters.",
 ["inputs", "configurations"], "all encodable texts x methods x allowed delimiters x skipping on or off",
 "Tests run detection on some tens of ordinary samples; binary-like, empty, huge-cell, odd-character and malformed samples are not covered.",
 ["clevercsv/detect.py", "clevercsv/consistency.py", "clevercsv/potential_dialects.py", "clevercsv/normal_form.py", "clevercsv/detect_type.py"],
 [("two step detection", "clevercsv/detect.py:Detector.detect"), ("candidates from the sample", "clevercsv/potential_dialects.py:get_dialects")],
 ["returned dialect or exception"])
prop("C09", "Detection depends only on the sample and the options",
 "The same sample and options give the same dialect in every process, whatever the hash seed, whatever was detected, parsed or failed before with the same or other detector objects, with verbose output on or off, and for every size of the type cache. The order or container in which allowed delimiters are given makes no difference to the consistency measure.",
 ["inputs", "histories", "configurations"], "all samples and options x hash seeds x histories of earlier calls x cache sizes",
 "Every test calls detection once in a fresh object under one hash seed.",
 ["clevercsv/consistency.py", "clevercsv/break_ties.py", "clevercsv/potential_dialects.py", "clevercsv/detect.py"],
 [("sorted candidates", "clevercsv/consistency.py:ConsistencyDetector.compute_consistency_scores"), ("ordered tie reduction", "clevercsv/break_ties.py:reduce_pairwise"), ("cache cleared for each detection", "clevercsv/consistency.py:ConsistencyDetector.detect")],
 ["detected dialect per process, history and configuration"])
prop("C10", "Independent use from several threads gives the sequential results",
 "When several threads detect, parse, read and write at the same time, each with its own objects, every thread gets exactly the result (or error) it gets when it runs alone, under every interleaving. No thread sees another's settings, caches or partial state.",
 ["schedules"], "all interleavings of operations of threads that share no objects",
 "All tests are single threaded.",
 ["clevercsv/consistency.py", "clevercsv/cparser_util.py", "clevercsv/detect_type.py", "clevercsv/detect.py", "src/cparser.c"],
 [("no shared mutable state", "clevercsv/consistency.py:ConsistencyDetector"), ("limit passed to the parser", "clevercsv/cparser_util.py:parse_string")],
 ["per-thread results under controlled and free-running schedules"])
prop("C11", "The consistency measure selects the best-scoring dialect",
 "The score of each candidate dialect is its pattern score times its type score, and the dialect selected by the consistency measure has the highest score of all candidates; only when several share the highest score is one of those, or none, chosen by the tie-breaking rules. The scores reported for the candidates are those values.",
 ["inputs"], "all samples x allowed delimiters",
 "Tests check a few scores and outcomes; whether the maximum is always taken over all candidates cannot be seen from samples in which the obvious dialect wins.",
 ["clevercsv/consistency.py", "clevercsv/detect_pattern.py", "clevercsv/detect_type.py"],
 [("score loop", "clevercsv/consistency.py:ConsistencyDetector.compute_consistency_scores"), ("selection of the maximum", "clevercsv/consistency.py:ConsistencyDetector.get_best_dialects")],
 ["scores and selected dialect vs an independent exact computation"])
prop("C12", "Skipping low pattern scores never changes the detected dialect",
 "For every sample, detection with skipping gives the same dialect as detection that computes all type scores. Every dialect that is skipped has a score below the best, and each score that is computed in both modes is equal.",
 ["inputs", "configurations"], "all samples x candidate dialects",
 "Tests compare the modes on one example; an unsound bound shows only for particular orders of candidates and scores.",
 ["clevercsv/consistency.py"],
 [("skip when the pattern score is below the incumbent", "clevercsv/consistency.py:ConsistencyDetector.compute_consistency_scores")],
 ["results and scores in both modes"])
prop("C13", "Row patterns and the pattern score follow their definition",
 "For every text and dialect the abstraction consists of one cell mark per cell, delimiter marks between cells and row marks between rows, where quoted regions, doubled quotes and escaped characters belong to their cell, empty cells are filled in and trailing row ends dropped. The pattern score is computed from the number of occurrences and the length of each distinct row pattern as published, regardless of the size of the text.",
 ["inputs", "configurations"], "all texts of all sizes x all dialects",
 "Tests cover some thirty short strings; the compiled code has buffers that grow at 4096 marks and at 4, 8, 16, ... quoted regions.",
 ["src/abstraction.c", "clevercsv/detect_pattern.py"],
 [("compiled abstraction", "src/abstraction.c:base_abstraction"), ("merging quoted regions", "src/abstraction.c:c_merge_with_quotechar"), ("score", "clevercsv/detect_pattern.py:pattern_score")],
 ["abstraction and score vs an independent model"])
prop("C14", "Cells are recognised as the documented types and nothing else",
 "A cell is classified as exactly the first of the documented types (empty, url, email, ipv4, number, time, percentage, currency, path, not-available, date, datetime, alphanumeric text, byte array, JSON object) whose format it has, or as unknown, for every string, quoted or not, irrespective of surrounding whitespace. Classification never fails, and the type score of a sample is the fraction of its cells with a known type, at least the documented minimum.",
 ["inputs"], "all cell strings x quoted or not; all samples x dialects",
 "Tests list about a hundred strings; the formats are large regular languages.",
 ["clevercsv/detect_type.py", "clevercsv/_regexes.py", "clevercsv/consistency.py"],
 [("ordered type tests", "clevercsv/detect_type.py:TypeDetector.detect_type"), ("formats", "clevercsv/_regexes.py")],
 ["type and type score vs hand-written recognisers"])
prop("C15", "Normal-form detection is strict and exact",
 "A dialect is detected by normal form exactly when the sample, split in lines, matches one of the five documented strict forms with that dialect and no potential escape character stands before a delimiter or quote; the first matching form in the documented order decides. Parsing the sample with the dialect then gives rows that all have the same number of cells, more than one if there is a delimiter and the rows are not quoted as a whole. Asking for normal-form detection never falls back to another method.",
 ["inputs", "configurations"], "all samples x allowed delimiters",
 "Tests hold a few accepted and rejected samples for each form; near misses (one odd cell in one row) are what separates the forms.",
 ["clevercsv/normal_form.py", "clevercsv/escape.py"],
 [("form predicates", "clevercsv/normal_form.py:is_form_1 .. is_form_5"), ("row splitting", "clevercsv/normal_form.py:split_row")],
 ["detected dialect vs an independent model", "shape of the parsed table"])
prop("C16", "The candidate dialects are exactly the possible ones",
 "The dialects considered are all combinations of a delimiter that occurs outside URLs and is of an allowed kind (or was allowed by the caller) or none, a known quote character that occurs or none, and no escape or an escape character of an allowed kind that directly precedes that delimiter or quote somewhere. None is missing, none is added and none occurs twice; only on request are those left out whose delimiter occurs inside quoted regions only. The encoding that the text is said to have makes no difference as long as the text can be encoded in it, and explicitly given kinds of blocked or quote characters replace the default ones.",
 ["inputs", "configurations"], "all samples x allowed delimiters x Unicode characters",
 "Tests cover five short samples; kinds of characters are Unicode categories, so all of Unicode is in scope.",
 ["clevercsv/potential_dialects.py", "clevercsv/escape.py"],
 [("construction of candidates", "clevercsv/potential_dialects.py:get_dialects"), ("kinds of characters", "clevercsv/potential_dialects.py:get_delimiters"), ("escape characters", "clevercsv/escape.py:is_potential_escapechar")],
 ["candidate set vs an independent model"])
prop("C17", "Ties are broken by the documented rules, or not at all",
 "Given tied dialects, the tie breaker returns one of them, or none when the documented rules for two, three or four dialects do not decide. The rules compare what the dialects make of the data: a quote character without effect is dropped, comma is preferred to space and anything to hyphen, an escape is kept when it precedes the quote an even number of times, and groups of dialects with equal results are reduced first; what it returns is what these rules give.",
 ["inputs"], "all samples x sets of up to five tied dialects",
 "Tests have six examples; each rule depends on parse results of pairs of dialects.",
 ["clevercsv/break_ties.py"],
 [("rules for two dialects", "clevercsv/break_ties.py:break_ties_two"), ("three and four", "clevercsv/break_ties.py:break_ties_three, break_ties_four"), ("pairwise reduction", "clevercsv/break_ties.py:reduce_pairwise")],
 ["returned dialect vs an independent model"])
prop("C18", "Clean tables load correctly without giving a dialect",
 "A table with at least two columns and rows, of plain alphanumeric cells or of fully quoted cells without quotes or possible escape characters in them, saved with a common delimiter and any line ending, is loaded by every loading function exactly as it was saved without a dialect being given. The consistency measure alone also finds the delimiter of alphanumeric tables for any allowed delimiter character.",
 ["inputs", "configurations"], "all such tables x delimiters x line endings x encodings x detection methods",
 "Tests load two or three fixed files; the end-to-end guarantee for each content, shape and delimiter cannot be listed.",
 ["clevercsv/wrappers.py", "clevercsv/detect.py", "clevercsv/normal_form.py", "clevercsv/consistency.py"],
 [("detection followed by reading", "clevercsv/wrappers.py:stream_table"), ("detection", "clevercsv/detect.py:Detector.detect")],
 ["loaded table vs the table saved"])
prop("C19", "All loading functions agree with detecting and reading by hand",
 "Loading a file as a table or as dictionaries, at once or streamed, gives exactly the rows that result from detecting the dialect of the file's text and reading the whole file with it, for every file, given or detected encoding and given or detected dialect. A limit on the number of characters affects only the detection, never the amount of data that is loaded, and failing detection raises the documented exception before any row is produced.",
 ["inputs", "configurations"], "all files x encodings x dialect given or not x numbers of characters",
 "Tests use one or two small files per function and no limit on characters.",
 ["clevercsv/wrappers.py"],
 [("rewind after detection", "clevercsv/wrappers.py:stream_table, stream_dicts"), ("dialect detection of files", "clevercsv/wrappers.py:detect_dialect")],
 ["rows from each function vs manual composition"])
prop("C20", "Data frames hold the same data as the table",
 "For every file with a regular table, the data frame loaded from it has the same columns and cells as the loaded table, and options for pandas given by the caller are honoured. The encoding used is the one given or detected, and limiting the characters for detection does not limit the data; a path that is not a regular file raises ValueError.",
 ["inputs", "configurations"], "all files with regular tables x detected dialects x pandas options",
 "Tests use three fixed files.",
 ["clevercsv/wrappers.py", "clevercsv/dialect.py"],
 [("dialect passed to pandas", "clevercsv/wrappers.py:read_dataframe"), ("conversion", "clevercsv/dialect.py:SimpleDialect.to_csv_dialect")],
 ["data frame vs table"])
prop("C21", "Dictionary reading and writing match the csv module",
 "Reading rows as dictionaries gives, for every input, field names, rest key and rest value, the dictionaries that the csv module gives, with blank rows skipped and short and long rows completed or collected, and a warning when names are not unique. Writing dictionaries gives the text the csv module writes and the same errors for unknown keys, and what is written is read back unchanged.",
 ["inputs", "configurations", "histories"], "all tables with short, long and blank rows x field names given or not x rest key/value x extra keys",
 "Tests use fixed two to six column examples.",
 ["clevercsv/dict_read_write.py"],
 [("row completion", "clevercsv/dict_read_write.py:DictReader.__next__"), ("row to list", "clevercsv/dict_read_write.py:DictWriter._dict_to_list")],
 ["DictReader/DictWriter vs the csv module"])
prop("C22", "Dialect objects are proper values",
 "Dialects with the same four components are equal and have the same hash, and otherwise differ; the order is a strict total order in which comma comes before semicolon before all others. Serialising, converting to a dictionary and converting to and from csv dialects lose nothing they can express, and validation accepts precisely components of at most one character and a boolean strict flag.",
 ["inputs"], "all pairs and triples of dialects with any characters",
 "Tests compare and serialise two or three dialects.",
 ["clevercsv/dialect.py"],
 [("key comparison", "clevercsv/dialect.py:SimpleDialect.__lt__, __eq__, __hash__"), ("conversions", "clevercsv/dialect.py:to_dict, from_dict, serialize, deserialize, to_csv_dialect, from_csv_dialect")],
 ["results of comparisons and conversions"])
prop("C23", "Standardizing loses no data and produces RFC 4180",
 "For every file, the standardized output read as RFC 4180 holds exactly the cells that reading the input with its detected dialect gives, row by row, or column by column when transposed with missing cells empty. Standard output, output files and in-place editing give the same data in the requested encoding, several files are matched with their outputs and encodings in order, input files are untouched unless edited in place, and the exit status tells whether an in-place edit changed the file.",
 ["inputs", "configurations"], "all files, single or several x output modes x encodings x transposing",
 "Tests standardize a handful of three-line files.",
 ["clevercsv/console/commands/standardize.py"],
 [("writing as excel dialect", "clevercsv/console/commands/standardize.py:_write_direct"), ("transposing", "clevercsv/console/commands/standardize.py:_write_transposed"), ("pairing of paths, outputs, encodings", "clevercsv/console/commands/standardize.py:handle")],
 ["bytes of outputs, exit status, bytes of inputs"])
prop("C24", "In-place standardizing never damages a file, whatever fails",
 "If any system call fails, writes only a part, or the process is killed at any point while a file is standardized in place, the file holds either its complete original or its complete standardized content afterwards, with its permissions. A failure that is reported, of a system call or because the data can't be standardized (text that the encoding can't read or write, fields beyond the size limit) or an interruption by the user (Ctrl-C) while it reads and writes, leaves the original and no stray files, and writing to another output file never modifies the input.",
 ["crash_points", "fault_sequences"], "all file operations of a run x (killed before, killed after, error, partial write)",
 "No test injects a fault.",
 ["clevercsv/console/commands/standardize.py"],
 [("temporary file and atomic replacement", "clevercsv/console/commands/standardize.py:_in_place")],
 ["directory contents, bytes and modes after each injected fault"])
prop("C25", "The detect and code commands say what the library does",
 "For every file and option, the detect command reports in each of its formats exactly the dialect that the library detects with the same options, from which the dialect can be recovered unambiguously. The code command prints Python code that, when executed, loads exactly the table that the library loads, for every file name, encoding and dialect; failures give an error and a non-zero status.",
 ["inputs", "configurations"], "all files, file names, encodings and dialects x command options",
 "Tests compare the output for a few ordinary dialects and names.",
 ["clevercsv/console/commands/detect.py", "clevercsv/console/commands/code.py", "clevercsv/console/commands/_utils.py"],
 [("output formats", "clevercsv/console/commands/detect.py:DetectCommand.handle"), ("generated code", "clevercsv/console/commands/_utils.py:generate_code")],
 ["output of the commands, executed code"])
prop("C26", "Encoding detection looks at the whole file, once, and is chunk independent",
 "The encoding reported for a file is the one that the underlying detector reports when it is given all of the file's bytes, or as many as it needs to be certain, in order and without gaps or repetition, for every file size and content. Files with a byte order mark and plain ASCII files are recognised at any size, and the file is closed and unchanged afterwards.",
 ["inputs"], "all files of all sizes, in particular around multiples of the block size",
 "Tests use two short texts in seven encodings, all smaller than one block.",
 ["clevercsv/encoding.py"],
 [("block loop", "clevercsv/encoding.py:get_encoding")],
 ["bytes seen by the detector", "reported encoding"])
prop("C27", "Header detection follows the vote of the columns",
 "For every sample with a detectable dialect the answer is the one of the voting procedure copied from the standard library (every column whose cells are all integers, all floats, all complex numbers or all of one length votes on whether the first row looks different) applied to the rows read with that dialect. As there, one row more than the given number is looked at, rows of another length are skipped but counted, and a column without rows votes for a header. It never fails on a sample that can be read, with any line ending and any shape of rows, and reports failed detection with the documented exception.",
 ["inputs", "configurations"], "all samples x line endings x numbers of rows to check",
 "Tests contain four samples.",
 ["clevercsv/detect.py"],
 [("column votes", "clevercsv/detect.py:Detector.has_header")],
 ["answer vs an independent computation"])
prop("C28", "Nothing the caller owns is changed or left open",
 "Detecting, reading, writing and loading leave all objects passed in (dialects, lists of delimiters, samples, tables, dictionaries, field names), global settings and input files unchanged, and change no registered dialects. Every file opened by the package is closed when the operation ends, fails or is abandoned, and an opened file that belongs to the caller stays open.",
 ["inputs", "histories"], "all operations, successful, failing or abandoned midway",
 "Tests never look at their arguments, open file descriptors or global state afterwards.",
 ["clevercsv/read.py", "clevercsv/write.py", "clevercsv/wrappers.py", "clevercsv/encoding.py", "clevercsv/consistency.py"],
 [("copy of the dialect", "clevercsv/read.py:reader._make_simple_dialect"), ("with statements", "clevercsv/wrappers.py")],
 ["deep snapshots, descriptor table, resource warnings"])
prop("C29", "Errors are the documented ones and leave everything usable",
 "Malformed data raises the package's Error (new line inside an unquoted cell, NUL, too large a cell, non-text lines, strict violations), invalid arguments raise ValueError or TypeError, and an exception raised by the caller's own source or sink reaches the caller unchanged. All records before the fault have been delivered, and afterwards the same reader continues with the following data and new operations work as if nothing had happened.",
 ["inputs", "fault_sequences", "histories"], "all positions and kinds of faults in the data, arguments, sources and sinks",
 "Tests raise each error once at the first record.",
 ["src/cparser.c", "clevercsv/read.py", "clevercsv/write.py", "clevercsv/cparser_util.py"],
 [("error translation", "clevercsv/read.py:reader.__next__, clevercsv/write.py:writer.writerow"), ("reset at each record", "src/cparser.c:parse_reset")],
 ["exception type and identity, records before and after"])
prop("C30", "The view and explore commands show exactly the loaded data",
 "The table handed to the viewer is exactly the loaded table, or its transpose with all cells kept and gaps marked, for every file and option. The interactive session of the explore command starts with exactly the loaded table or data frame and names the variable that holds it, for every file name and dialect, and undetectable files give an error status.",
 ["inputs", "configurations"], "all files and names x options",
 "Tests only cover two small view examples and mock the rest.",
 ["clevercsv/console/commands/view.py", "clevercsv/console/commands/explore.py", "clevercsv/console/commands/_utils.py"],
 [("transposing", "clevercsv/console/commands/view.py:ViewCommand.handle"), ("session set-up", "clevercsv/console/commands/explore.py:ExploreCommand.handle")],
 ["rows passed to the viewer", "variables of the session"])
prop("C31", "Writing helpers write the whole table or refuse",
 "Writing a table or a list of dictionaries to a file produces exactly what writing every row with the given dialect and encoding produces, transposed when asked, from any kind of iterable including one-shot iterators. A table whose rows differ in length raises ValueError, and in that case as well as when there is nothing to write, no file is created and an existing one is not touched.",
 ["inputs", "configurations"], "all tables and lists of dictionaries, as lists, iterators and generators x dialects x encodings x transposing",
 "Tests write four small lists.",
 ["clevercsv/wrappers.py"],
 [("checks before opening", "clevercsv/wrappers.py:write_table"), ("first item gives the names", "clevercsv/wrappers.py:write_dicts")],
 ["bytes of the file, existence, exceptions"])

prop("C32", "Verbose output is truthful and nothing else is printed",
 "With verbose mode (verbose=True or the -v flag) detection reports each candidate dialect once, with exactly the pattern, type and consistency scores it has, reports as skipped only dialects that cannot win, names the normal form exactly when one is found, and returns the best of what it reported; the result, the files and the output of the command after the progress are the same as without verbose mode. Without verbose mode no function of the library prints anything, and commands print nothing but their result.",
 ["inputs", "configurations"], "all samples and files x options x functions and commands",
 "Tests pass verbose as a flag and never read what is printed, nor look for output that should not be there.",
 ["clevercsv/detect.py", "clevercsv/consistency.py", "clevercsv/normal_form.py", "clevercsv/wrappers.py", "clevercsv/console/commands/detect.py", "clevercsv/console/commands/standardize.py"],
 [("scores", "clevercsv/consistency.py:ConsistencyDetector.compute_consistency_scores"), ("normal form", "clevercsv/normal_form.py:detect_dialect_normal"), ("passing the flag on", "clevercsv/wrappers.py")],
 ["standard output and error", "results with and without verbose mode"])

prop("C33", "Optional packages are optional, and checked before they are used",
 "Without pandas, tabview, cchardet or wilderness (absent, or failing while they are imported) everything that doesn't need the missing package works and gives the same results. What does need it raises ImportError that names the package and says how to install it. A package older than its minimum version is never used and reported with the version that is needed; versions are compared as versions, newer ones and packages without version are accepted; without a usable cchardet the encoding is the one that chardet finds.",
 ["configurations", "inputs"], "all subsets of the optional packages x ways to be missing x versions x work",
 "The tests run with all packages installed, and skip or don't reach the branches for packages that are missing or old.",
 ["clevercsv/_optional.py", "clevercsv/encoding.py", "clevercsv/wrappers.py", "clevercsv/__main__.py", "clevercsv/console/commands/view.py"],
 [("import with checks", "clevercsv/_optional.py:import_optional_dependency"), ("entry point", "clevercsv/__main__.py:main")],
 ["results in a process without the packages", "exceptions and messages", "the module that is returned"])

prop("C34", "Runs touch only their own files and don't disturb each other",
 "A command or function creates, changes or removes no other files than the one it is asked to write: files with any other names stay as they are, whatever their names, nothing is left behind, and the result doesn't depend on them. Runs of several processes at the same time, on different files of the same folder, each give the output, status and files that they give alone, whichever way their file operations come one after the other.",
 ["schedules", "histories", "inputs"], "pairs of operations on files x points between file operations; parallel runs; files with other names",
 "The tests run one command at a time, in a folder with only its own file.",
 ["clevercsv/console/commands/standardize.py", "clevercsv/wrappers.py", "clevercsv/encoding.py", "clevercsv/utils.py"],
 [("temporary file", "clevercsv/console/commands/standardize.py:StandardizeCommand._in_place"), ("written files", "clevercsv/wrappers.py:write_table")],
 ["file operations, as points where another process runs", "the folder before and after", "results compared with the runs alone"])

prop("C35", "Command lines mean the same in every spelling, or are refused",
 "Every option of a command means the same in its short and long form, with its value attached or separate, in a cluster of flags, in any order around the paths, in a fresh application or one that ran other command lines before, in this process or as a process of its own: status, outputs, files, the table shown and the session are identical. Command lines without a meaning (unknown options or commands, contradicting options, missing or surplus paths, values that aren't numbers, numbers of encodings or outputs that don't match the files, the input as output) are refused with a message on standard error and a non-zero status, without a result on standard output and without touching any file. Help and version are printed to standard output with status 0, and name every option.",
 ["configurations", "histories", "inputs"], "all command lines: options x spellings x orders x applications that ran before x kinds of mistakes",
 "The tests give each option in one spelling to a fresh application, and no command line that must be refused.",
 ["clevercsv/console/__init__.py", "clevercsv/console/application.py", "clevercsv/console/commands/detect.py", "clevercsv/console/commands/code.py", "clevercsv/console/commands/view.py", "clevercsv/console/commands/explore.py", "clevercsv/console/commands/standardize.py"],
 [("options", "clevercsv/console/commands/standardize.py:StandardizeCommand.register"), ("checks before work", "clevercsv/console/commands/standardize.py:StandardizeCommand.handle"), ("numbers", "clevercsv/console/commands/_utils.py:parse_int")],
 ["status", "outputs", "folder before and after", "rows shown and variables of the session"])

prop("C36", "Every way to ask for the dialect gives the same answer",
 "For the same sample and options all entry points of detection agree: detect and sniff of Detector and Sniffer, with positional or keyword arguments, methods given as text or enumeration member, delimiters in any kind of container including one-shot iterators, fresh objects or ones that did other work before, detect_dialect on a file with the same content in any encoding and with the same limit on the number of characters, and the detect command. The automatic method gives the dialect of the normal form if there is one and otherwise exactly the one of the consistency measure; asking for normal forms only never falls back; the method that was used is reported truthfully; has_header raises NoDetectionResult exactly when no dialect is found.",
 ["inputs", "configurations", "histories"], "all samples x options x entry points x objects that did other work before",
 "The tests call each entry point on other samples and never compare two of them.",
 ["clevercsv/detect.py", "clevercsv/wrappers.py", "clevercsv/console/commands/detect.py", "clevercsv/consistency.py"],
 [("composition of methods", "clevercsv/detect.py:Detector.detect"), ("compatible name", "clevercsv/detect.py:Detector.sniff"), ("from files", "clevercsv/wrappers.py:detect_dialect")],
 ["outcomes of all entry points", "method that is reported"])

prop("C37", "Streams need bounded memory, and work is proportional to the data",
 "Reading, writing, loading, standardizing and detecting take time proportional to the size of the data, whatever its shape: rows, blank lines, very wide rows, very long fields, fields over many lines, any number of quotes, escapes or line ends at the begin or end. Readers, writers, stream_table, stream_dicts, write_dicts, detection on a limited number of characters, the detection of encodings and standardizing without transposing need memory that doesn't depend on the number of records. (Not included: the recognition of types in single words of unbounded length.)",
 ["inputs", "configurations"], "all operations x shapes of data x sizes",
 "Tests use small data and never compare sizes.",
 ["src/cparser.c", "src/abstraction.c", "clevercsv/read.py", "clevercsv/write.py", "clevercsv/dict_read_write.py", "clevercsv/wrappers.py", "clevercsv/normal_form.py", "clevercsv/detect_pattern.py", "clevercsv/detect.py", "clevercsv/encoding.py", "clevercsv/console/commands/standardize.py"],
 [("buffer of fields", "src/cparser.c:parse_grow_buff"), ("trailing line ends", "clevercsv/normal_form.py:strip_trailing_crnl"), ("dictionaries are streamed", "clevercsv/wrappers.py:write_dicts")],
 ["CPU time at two sizes", "peak of traced memory at two sizes"])

prop("C38", "Results depend on data and options, not on the interpreter's settings",
 "Everything the library does gives the same results, files, outputs and exceptions under all settings of the interpreter and the process that aren't among its options: with and without assertions and docstrings (-O, -OO), in development mode, with any hash seed, locale and UTF-8 mode (with the encoding given or detected), with warnings or comparisons of bytes as errors, any allocator, garbage collection at any time or never, while traced or profiled, in any thread, time zone, folder and umask, without standard input, and whatever the limits and dialects of the standard csv module are.",
 ["configurations", "inputs"], "all work of the library x settings of interpreter and process, alone and combined",
 "All tests run in one process with the default settings.",
 ["clevercsv/"],
 [("own limit", "clevercsv/cparser_util.py:field_size_limit"), ("header on demand", "clevercsv/dict_read_write.py:DictReader.__next__"), ("encodings", "clevercsv/wrappers.py:detect_dialect")],
 ["results of all jobs in processes with different settings"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, (d["id"], len(d["title"]))
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
