"""Writes /verif/properties.jsonl (run by hand when a property is added or reworded)."""
import json, os
P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})


prop("C01", "Parsing follows the CSV grammar exactly",
     "For every sequence of text lines and every dialect of zero-or-one-character delimiter, quote and escape characters, strict or not, the parser yields exactly the rows, cells and was-quoted flags the CSV grammar gives: delimiters split cells outside quotes, a quote pair encloses a cell, a doubled quote inside quotes is one literal quote, the escape character makes a following special character literal (and stays in the text before an ordinary one), and an unquoted line end closes the row. Nothing read is lost at the end of the input: a last line without a line end, an unterminated quoted cell or a dangling escape still gives its row (or, in strict mode, an error). In strict mode text after a closing quote is an error; otherwise it is kept as literal text, a NUL character is always an error, and so is an unquoted line end followed by more text in the same line.",
     ["inputs", "configurations"], "all finite sequences of strings, all dialects (every delimiter/quote/escape character or none, strict on and off), plain and was-quoted output",
     "Tests parse a few dozen fixed strings with five characters; the parser is a nine-state machine with one-character lookahead over unbounded lines, and the combinations of state, line break and end of input are not sampled.",
     ["src/cparser.c", "clevercsv/cparser_util.py", "clevercsv/read.py"],
     [("parser state machine", "src/cparser.c parse_process_char, parse_save_field"), ("line loop and end of input", "src/cparser.c Parser_iternext"), ("argument passing", "clevercsv/cparser_util.py parse_data, parse_string")],
     ["rows yielded by reader / parse_string / parse_data", "exceptions"],
     [("parser state", "position in the grammar inside the current record", "src/cparser.c ParserObj.state, field, field_len, fields")])

prop("C02", "What the writer writes, the reader reads back",
     "Every table of text cells (no NUL characters, cells within the field size limit with their enclosing quotes) written with the default dialect or with any simple dialect that has a delimiter and a quote character (and optionally an escape character, all distinct and not line-end characters) is read back with the same dialect as exactly the same rows and cells. This includes cells holding delimiters, quotes, escape characters and line ends, empty cells and single-empty-cell rows.",
     ["inputs", "configurations"], "all finite tables of strings and all simple dialects with a delimiter and a quote character",
     "Tests write and read back a handful of tables; the guarantee quantifies over arbitrary cell text against two independently written state machines.",
     ["clevercsv/write.py", "clevercsv/read.py", "src/cparser.c", "clevercsv/dialect.py"],
     [("dialect handed to the csv writer", "clevercsv/write.py _make_python_dialect"), ("dialect conversion", "clevercsv/dialect.py to_csv_dialect"), ("parser", "src/cparser.c")],
     ["rows read back"])

prop("C03", "The C extensions are memory safe and leak nothing",
     "For every argument, every input and every allocation failure, the parser and abstraction extensions never read or write outside the memory they own, never use uninitialised or freed memory, and never perform overflowing signed arithmetic. Every object and buffer they acquire is released exactly once or handed to the caller, on success and on every error path, and every failure is reported as a Python exception.",
     ["inputs", "fault_sequences"], "all strings and iterators given to the extensions, all buffer sizes, and failure of any single allocation or API call",
     "Tests run without sanitizers on short strings, never reach the 4096-character buffer growth, and cannot make an allocation fail.",
     ["src/cparser.c", "src/abstraction.c"],
     [("buffer growth", "src/cparser.c parse_grow_buff, parse_add_char"), ("stack growth", "src/abstraction.c base_abstraction"), ("quote index growth", "src/abstraction.c c_merge_with_quotechar"), ("reference handling", "src/cparser.c parse_save_field, Parser_iternext, cparser_parser")],
     ["memory accesses", "reference counts", "exceptions"])

prop("C04", "The field size limit is enforced exactly",
     "With a field size limit of n, parsing fails with the package's Error as soon as the raw text collected for one cell (its characters as kept by the parser, with enclosing quotes, escapes resolved) exceeds n characters, and never fails for size otherwise; the limit used is the one in force when the parser was created. Reading or setting the limit returns the previous value, only an integer can be set, and a rejected call changes nothing.",
     ["inputs", "histories"], "all limits, all cell texts, all sequences of get/set calls",
     "Tests set one limit and read one file; the exact boundary depends on the state machine's handling of quotes and escapes for every cell.",
     ["src/cparser.c", "clevercsv/cparser_util.py", "clevercsv/read.py"],
     [("limit test", "src/cparser.c parse_add_char"), ("limit storage", "clevercsv/cparser_util.py field_size_limit")],
     ["exceptions", "returned limits"],
     [("field size limit", "process-wide limit", "clevercsv/cparser_util.py _FIELD_SIZE_LIMIT")])

prop("C05", "Dialect detection never changes the field size limit",
     "After a dialect detection of any kind ends, by returning a dialect, by finding none or by raising any exception, the process-wide field size limit is what it was before the call.",
     ["inputs", "fault_sequences", "histories"], "all samples and options, with any exception raised at any step of detection",
     "Tests only look at the detected dialect of well-behaved samples; the raising paths (a NUL in the data, a parse error, a failure in scoring) are never exercised for this.",
     ["clevercsv/consistency.py", "clevercsv/cparser_util.py", "clevercsv/detect.py"],
     [("limit raised and restored", "clevercsv/consistency.py ConsistencyDetector.detect")],
     ["field_size_limit() after the call"],
     [("field size limit", "process-wide limit", "clevercsv/cparser_util.py _FIELD_SIZE_LIMIT")])

prop("C06", "Reader: dialect forms, overrides, iteration and line count",
     "A reader accepts a dialect given as a registered name, a csv dialect object or a simple dialect, applies exactly the delimiter, quotechar, escapechar and strict overrides it is given, rejects invalid ones, and never modifies the caller's dialect. Iterating yields each row of the input exactly once and in order even when next() and for-loops are mixed, the line number counts the rows returned so far, and parse failures surface as the package's Error.",
     ["inputs", "configurations", "histories"], "all dialect forms, all subsets of overrides, all interleavings of next() and iteration",
     "Tests use a fixed few dialect/override pairs and a single pass of iteration.",
     ["clevercsv/read.py", "clevercsv/dialect.py"],
     [("dialect normalisation", "clevercsv/read.py _make_simple_dialect"), ("iteration", "clevercsv/read.py __iter__, __next__"), ("conversion", "clevercsv/dialect.py from_csv_dialect")],
     ["rows", "line_num", "caller's dialect object"])

prop("C07", "Candidate dialects come only from the sample",
     "Every dialect considered or returned by detection uses only a delimiter, quote and escape character that occur in the sample (or none); when the caller names the allowed delimiters, only those (or none) are used. The candidate list is duplicate free and complete: it is every combination of an admissible delimiter of the sample outside URLs, an admissible quote character of the sample outside URLs, and an escape character that is empty or an admissible escape character standing directly before that delimiter or quote character.",
     ["inputs", "configurations"], "all samples, all delimiter lists",
     "Tests compare the candidate list for a few strings; membership and completeness must hold for every Unicode character and neighbouring pair.",
     ["clevercsv/potential_dialects.py", "clevercsv/escape.py", "clevercsv/utils.py", "clevercsv/normal_form.py", "clevercsv/detect.py"],
     [("delimiters", "clevercsv/potential_dialects.py get_delimiters"), ("quotes", "clevercsv/potential_dialects.py get_quotechars"), ("escapes", "clevercsv/escape.py is_potential_escapechar"), ("enumeration", "clevercsv/potential_dialects.py get_dialects")],
     ["candidate list", "detected dialect"])

prop("C08", "Detection picks a best-scoring candidate and skipping is harmless",
     "Consistency detection returns a candidate whose consistency score (pattern score times type score) no other candidate exceeds: the unique best one, or one of the tied best ones when ties can be broken, and nothing only when there is no such choice. Skipping the type score of candidates with a low pattern score never changes the outcome.",
     ["inputs", "configurations"], "all samples, all candidate sets and all score values, skip on and off",
     "Tests check the detected dialect of a few samples; that pruning cannot lose the winner depends on the bounds of both scores for all inputs and on the order of evaluation.",
     ["clevercsv/consistency.py", "clevercsv/break_ties.py"],
     [("pruned scoring", "clevercsv/consistency.py compute_consistency_scores"), ("selection", "clevercsv/consistency.py get_best_dialects, detect"), ("tie breaking", "clevercsv/break_ties.py tie_breaker")],
     ["detected dialect", "scores"])

prop("C09", "Type detection is total, whitespace-blind and bounded",
     "For every text cell, type detection finishes without raising and returns one of its listed type names or none, and surrounding whitespace never changes the answer. The type score of any sample and dialect that parses equals the share of cells with a known type, lies strictly above 0 and at most 1, and is the documented minimum when there are no cells.",
     ["inputs"], "all strings as cells, quoted or not; all samples and dialects",
     "Tests list examples per type; totality concerns every string (malformed dates, huge numbers, deeply nested braces, odd Unicode), which examples cannot cover.",
     ["clevercsv/detect_type.py", "clevercsv/consistency.py", "clevercsv/_regexes.py"],
     [("type tests", "clevercsv/detect_type.py TypeDetector"), ("type score", "clevercsv/detect_type.py type_score, clevercsv/consistency.py compute_type_score")],
     ["return values", "exceptions"])

prop("C10", "Row-pattern abstraction is well formed and scores are positive",
     "For every sample and dialect the abstraction consists only of cell, delimiter and row markers (and of quote markers, which remain only from a quoted part that is never closed on), in which no delimiter or row lacks its cells, no two cell markers or two row markers are adjacent and no row marker trails, with escaped or quoted delimiters and quotes counted as cell text. The pattern score computed from it is always strictly positive and equals the documented formula.",
     ["inputs", "configurations"], "all samples and all dialects",
     "Tests compare about thirty short strings; the guarantee is about every interleaving of quotes, escapes, delimiters and line ends of any length.",
     ["src/abstraction.c", "clevercsv/detect_pattern.py"],
     [("base abstraction", "src/abstraction.c base_abstraction"), ("quote merging", "src/abstraction.c c_merge_with_quotechar"), ("normalisation", "clevercsv/detect_pattern.py fill_empties, strip_trailing"), ("score", "clevercsv/detect_pattern.py pattern_score")],
     ["abstraction string", "pattern score"])

prop("C11", "Dialects compare, hash and validate consistently",
     "Simple dialects are equal exactly when their delimiter, quote character, escape character and strictness are equal, equal ones hash alike, and equality with any other object is false. Their ordering is a strict total order on dialects with defined components that puts comma first and semicolon next, and validation accepts exactly the dialects whose components are strings of at most one character with a true or false strictness.",
     ["inputs"], "all pairs and triples of dialects",
     "Tests compare a few pairs; totality, transitivity and agreement of order, equality and hash are claims over all pairs and triples.",
     ["clevercsv/dialect.py"],
     [("comparison", "clevercsv/dialect.py __eq__, __lt__, __hash__"), ("validation", "clevercsv/dialect.py validate")],
     ["comparison results", "exceptions"])

prop("C12", "Dialects survive conversion and serialization",
     "Any valid simple dialect serialized and deserialized, or turned into a dictionary and back, is equal to the original, and converting a dialect never changes it. Converting a dialect that has a delimiter to a csv dialect and back preserves the delimiter, quote character, escape character and strictness, and a csv dialect without quoting, delimiter or escape character converts to one with the corresponding component empty.",
     ["inputs"], "all valid dialects, all registered csv dialects",
     "Tests convert three or four dialects.",
     ["clevercsv/dialect.py"],
     [("conversion", "clevercsv/dialect.py from_csv_dialect, to_csv_dialect"), ("serialization", "clevercsv/dialect.py to_dict, from_dict, serialize, deserialize")],
     ["resulting dialects"])

prop("C13", "Dictionary reading pairs every cell with its field name",
     "A dictionary reader returns, for every non-empty data row in order, a mapping of the i-th field name to the i-th cell; surplus cells appear as a list under the rest key, missing cells as the rest value, and empty rows are skipped. The field names are those given or else the first row, which is then not returned as data.",
     ["inputs", "configurations"], "all inputs, all field name lists (distinct names), all row lengths",
     "Tests cover a few row/field length combinations.",
     ["clevercsv/dict_read_write.py"],
     [("pairing", "clevercsv/dict_read_write.py DictReader.__next__"), ("header", "clevercsv/dict_read_write.py DictReader.fieldnames")],
     ["mappings returned"])

prop("C14", "Dictionary writing emits every value under its field",
     "A dictionary writer writes, for each mapping, the values in field-name order with the rest value for missing keys; a mapping with an unknown key is refused before anything of that row is written unless extras are to be ignored, and the header is the field names. Writing a list of dictionaries to a file writes the header and one row per dictionary in order, for any iterable, and creates no file when there are none.",
     ["inputs", "configurations"], "all mappings, field lists, iterables of mappings",
     "Tests write two or three dictionaries from lists.",
     ["clevercsv/dict_read_write.py", "clevercsv/wrappers.py"],
     [("row assembly", "clevercsv/dict_read_write.py DictWriter._dict_to_list"), ("file writing", "clevercsv/wrappers.py write_dicts")],
     ["rows written", "files created", "exceptions"])

prop("C15", "Writing a table is all or nothing and faithful",
     "Writing a table to a file writes exactly its rows (or its columns, when transposing) in order and complete. A table whose rows differ in length is refused with ValueError before the output file is created or altered, with and without transposing, and an empty table creates no file.",
     ["inputs", "configurations"], "all tables (any number of rows and cells), transpose on and off",
     "Tests write two tables; the refusal and the absence of truncation concern every shape.",
     ["clevercsv/wrappers.py", "clevercsv/write.py"],
     [("validation before opening", "clevercsv/wrappers.py write_table")],
     ["file contents", "file existence", "exceptions"])

prop("C16", "Standardizing keeps every cell",
     "Standardizing a file, to standard output, to another file or in place, writes exactly the rows and cells that reading the input with the detected dialect gives, in order, in the standard dialect; with transposing, every cell appears in its transposed position and shorter rows are filled with empty cells, never cut off.",
     ["inputs", "configurations"], "all input files whose dialect is detected, all output modes, transpose on and off",
     "Tests compare outputs for three files; loss of cells shows only for particular shapes.",
     ["clevercsv/console/commands/standardize.py"],
     [("copy loop", "clevercsv/console/commands/standardize.py _write_direct, _write_transposed"), ("targets", "clevercsv/console/commands/standardize.py _to_file, _to_stdout, _in_place")],
     ["output contents"])

prop("C17", "Standardize: in-place safety and exit codes",
     "In-place standardizing returns 0 and leaves the file untouched exactly when the standardized contents equal the original bytes, and otherwise replaces it with the complete standardized contents and returns 2; if reading, detection or writing fails the original file is left as it was. Failed detection or inconsistent options give exit code 1 without writing anything, and for several files each file is paired with its own output and encoding and the exit code is 1 at the first failure, which stops the run, and otherwise 2 if any file was changed.",
     ["inputs", "fault_sequences", "configurations"], "all file contents, all option combinations, failures at any step",
     "Tests run the command on a few files with all steps succeeding.",
     ["clevercsv/console/commands/standardize.py", "clevercsv/utils.py"],
     [("temporary file and compare", "clevercsv/console/commands/standardize.py _in_place"), ("option checks and loop", "clevercsv/console/commands/standardize.py handle, handle_path")],
     ["exit code", "file contents"])

prop("C18", "Generated code reproduces the detection",
     "The code printed for a file is valid Python that opens exactly that file name with exactly the given encoding and reads it with exactly the detected delimiter, quote and escape characters, for every file name and every dialect; with --pandas, it reads exactly that file with exactly the detected characters into a data frame (the encoding is then left to read_dataframe, as the tests pin).",
     ["inputs"], "all file names, encodings and dialects",
     "Tests cover file names and dialects without characters that need escaping.",
     ["clevercsv/console/commands/_utils.py", "clevercsv/console/commands/code.py"],
     [("code generation", "clevercsv/console/commands/_utils.py generate_code")],
     ["generated code, executed"])

prop("C19", "File reading helpers return the whole file",
     "Reading a file as a table, as dictionaries, or as streams of either returns every row of the entire file, exactly as the reader gives them, even when the dialect was detected from only the first characters; a dialect or encoding supplied by the caller is used as given, detection otherwise sees exactly the requested number of leading characters, and failed detection raises the documented error.",
     ["inputs", "configurations"], "all files, all combinations of dialect, encoding and number of characters",
     "Tests read two files with one setting each; losing the detection prefix shows only when the sample is shorter than the file.",
     ["clevercsv/wrappers.py"],
     [("rewind", "clevercsv/wrappers.py stream_table, stream_dicts"), ("sample", "clevercsv/wrappers.py detect_dialect, read_dataframe")],
     ["rows returned", "exceptions"])

prop("C20", "Normal-form detection only accepts files of that form",
     "When normal-form detection returns a dialect, the sample contains no potential escape before any considered delimiter or quote, and every row really has that form: rows split by that delimiter into the same number (at least two) of cells that are all quoted without inner quotes, all unquoted and plain, or a mix of non-empty quoted and plain cells, or the rows are single plain or single quoted cells, or whole-row quoted. Otherwise it returns nothing, and it always considers the documented dialects in the documented order.",
     ["inputs", "configurations"], "all samples and delimiter lists",
     "Tests check a few rows per form; acceptance must fail for every file with one offending row or cell anywhere.",
     ["clevercsv/normal_form.py"],
     [("form tests", "clevercsv/normal_form.py is_form_1 .. is_form_5"), ("row splitting", "clevercsv/normal_form.py split_file, split_row"), ("selection", "clevercsv/normal_form.py detect_dialect_normal")],
     ["detected dialect"])

prop("C21", "File digests and encoding detection see every byte in order",
     "The checksum of a file is the SHA-1 of its entire contents, and encoding detection feeds its detector consecutive chunks of the file in order, from the first byte until the end of the file or until the detector is certain, whatever the file size; the detector's answer is returned unchanged.",
     ["inputs"], "all file sizes and contents, any chunking of reads",
     "Tests use files smaller than one block.",
     ["clevercsv/utils.py", "clevercsv/encoding.py"],
     [("block loop", "clevercsv/utils.py sha1sum, clevercsv/encoding.py get_encoding")],
     ["digest", "bytes fed to the detector"])

prop("C22", "Detection is deterministic",
     "The dialect detected for a sample and options depends only on them: not on the hash seed, on earlier detections with the same or another detector, on the order of set iteration, or on the cache size.",
     ["inputs", "histories", "schedules"], "all samples, all hash seeds, all earlier detections",
     "Tests run with one hash seed and one detection per sample; order dependence shows only for particular ties.",
     ["clevercsv/consistency.py", "clevercsv/break_ties.py", "clevercsv/potential_dialects.py", "clevercsv/dialect.py"],
     [("sorted evaluation", "clevercsv/consistency.py compute_consistency_scores"), ("tie breaking", "clevercsv/break_ties.py reduce_pairwise"), ("cache reset", "clevercsv/consistency.py detect")],
     ["detected dialect"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
