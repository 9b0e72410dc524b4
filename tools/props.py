NA = {}
PROPS = [
dict(id="C01", title="Every comparison method is a consistent total order",
 statement="For every comparison method (plain, lower, length, numeric, ip, float, equal, random) comparing two values is reflexive, antisymmetric and transitive, and testing them for equality gives true exactly when comparing them gives 'equal'. Comparing a new value with a previously stored one gives the same answer as comparing the two values directly. The modifier 'rev' gives exactly the opposite order and leaves equality alone. So no sort key can make sorting fail.",
 quant="all pairs and triples of byte strings (any bytes, well formed for the method or not) and every method",
 why="Tests compare a handful of hand-picked pairs; order laws quantify over all pairs and triples, and breaking inputs (mixed signs, fractions on one side, blanks, NaN) are rare.",
 files=["src/comp.rs", "src/num.rs"],
 mech=[("Compare::comp/equal/comp_self/set implementations", "src/comp.rs"), ("str_to_d, fcmp, ulp_to_ulong", "src/num.rs"), ("Comp::comp applying rev", "src/comp.rs")]),
dict(id="C02", title="Cached sort items order exactly like the lines they stand for",
 statement="When lines are compared through the small cached keys that sorting builds for speed, the result (order and equality) is the same as comparing the full lines by the same keys, for every key specification, including whole-line keys, single columns, several keys, reversed keys and expression keys.",
 quant="all pairs of lines and all key specifications built from the supported methods",
 why="The cache holds at most 8 bytes of a key; only lines that tie in the cache, contain NULs, or use reversed or numeric keys reveal a wrong shortcut. Tests use a few short lines.",
 files=["src/comp.rs"],
 mech=[("fill_cache_line/fill_cache_cols, comp_items, equal_items, Item.complete", "src/comp.rs")]),
dict(id="C03", title="Each comparison key means what its name says",
 statement="A plain key orders by raw bytes, lower by bytes ignoring ASCII case, length by byte count, numeric by decimal value including sign and fraction, float by floating-point value, ip by the dotted numbers from left to right, and expr by the value of the expression over the columns; blanks before a number or an address do not count; with strict (or trail) text that is not (does not begin with) a floating-point number goes after all numbers, or before them with low. A key looks only at its own column (a missing column counts as empty), keys in a list decide in order of appearance, and two lines are equal exactly when every key is equal.",
 quant="all pairs of lines, all values of the key columns, all supported methods and key lists",
 why="The tests check a few value pairs per method; wrong handling of leading zeros, signs, separators, short lines or trailing columns needs specific inputs.",
 files=["src/comp.rs", "src/num.rs", "src/util.rs"],
 mech=[("CompareNumeric, CompareLower, CompareIP, ...", "src/comp.rs"), ("LineComp column extraction (get_col)", "src/comp.rs, src/util.rs"), ("LineCompList::comp_*", "src/comp.rs")]),
dict(id="C04", title="Sort writes an ordered permutation of its input, however much memory it has",
 statement="Sorting any set of files writes every input line exactly once, in the order of the keys, after a single copy of the header, whatever the size of the in-memory buffer, the sizes of individual reads, the number of files, and whether the last line has a newline. With 'unique', exactly one line is kept from each group of equal lines, and if everything fits in memory it is the first one of the input.",
 over=["inputs", "configurations"],
 quant="all file contents, key lists, numbers of files, buffer sizes and read chunkings",
 why="Tests sort tiny files that fit in memory at once; data loss happens when a line, a file boundary and the buffer end meet, which the 500 MB default never reaches in a test.",
 files=["src/sort.rs", "src/comp.rs"],
 mech=[("Sorter::add, make_room, do_sort, do_unique, write_tmp, finalize", "src/sort.rs"), ("SortConfig::sort", "src/sort.rs")]),
dict(id="C05", title="Merging sorted files gives one sorted file with nothing lost or added",
 statement="Merging any number of files, each sorted by the keys, writes all their lines exactly once in sorted order with one header, in both merge implementations. With 'unique', exactly one line from each group of equal lines is written. Keys given by column name mean the same column as in a sort.",
 over=["inputs", "configurations"],
 quant="all contents of all sorted input files, numbers of files and key lists",
 why="Tests merge two or three fixed files; ties between files, empty files, files ending early and the shape of the merge tree need specific combinations.",
 files=["src/sort.rs"],
 mech=[("SortConfig::merge_2/merge_t/merge_tree/merge", "src/sort.rs"), ("MergeTreeItem", "src/sort.rs")]),
dict(id="C06", title="Join pairs exactly the lines with equal keys and accounts for all others",
 statement="Joining two files sorted on the key (the second with unique keys) writes, in input order, one output line for each line of the first file whose key occurs in the second, made of exactly the requested columns, under a header built from those columns. Each line of either file that has no partner goes, unchanged and in order, to that file's unmatched output if one was asked for, and no other line does.",
 over=["inputs Output files that existed before are replaced, and anything but two files, or a reference to a file that is not there, is refused.", "configurations"],
 quant="all contents of the two files meeting the sortedness precondition, key lists, output column choices, with and without headers",
 why="Tests join one pair of fixed files; end-of-file on either side, repeated keys and lines after the last match need specific combinations.",
 files=["src/join.rs", "src/comp.rs"],
 mech=[("Joiner::join_quick", "src/join.rs"), ("Joiner::join header and column set-up", "src/join.rs"), ("comp_cols_n", "src/comp.rs")]),
dict(id="C07", title="Binary search finds exactly the matching lines of a sorted file",
 statement="In a file sorted by the keys, binary search returns exactly the contiguous lines whose key columns equal the given values: nothing missing, nothing extra, whatever the position of the lines, their lengths, empty lines or a missing final newline. The lower bound is the first line that is not less than the value and the upper bound the first that is greater. The command prints the header once, then the matching lines (with the requested number of lines of context around them), and it always terminates.",
 over=["inputs", "configurations"],
 quant="all contents of sorted files, search values, key lists and context sizes",
 why="Bisecting text means landing in the middle of lines; off-by-one errors at line starts, file ends and empty lines need particular layouts that the few tests do not have.",
 files=["src/binsearch.rs", "src/bin/cdx/binsearch_main.rs", "src/comp.rs"],
 mech=[("lower_bound_n, upper_bound_n, equal_range_n, find_start, find_end, find_prev/find_next", "src/binsearch.rs"), ("binsearch_main::main", "src/bin/cdx/binsearch_main.rs"), ("LineCompList::set, comp_self", "src/comp.rs")]),
dict(id="C10", title="A column specification selects exactly the columns it names",
 statement="A column list selects exactly the named columns, in the order given: numbers count from 1, +N counts from the end, names match whole column names, A-B is an inclusive range with open ends reaching the first or last column, ~ excludes, name: renames, and a list with only exclusions selects everything else. Malformed or out-of-range specifications are rejected, never accepted with a different meaning, and never crash. cut writes exactly those columns of every line, missing ones as empty, with the header changed the same way, and refuses duplicate output names unless told how to resolve them.",
 over=["inputs", "configurations"],
 quant="all column specifications, headers and rows",
 why="The specification grammar has many combinations (ranges, negation, renaming, ends) and tests try a few fixed ones.",
 files=["src/column.rs", "src/bin/cdx/cut_main.rs"],
 mech=[("ColumnSet::add_yes/add_no/lookup/range/single", "src/column.rs"), ("ScopedValue/NamedCol::parse", "src/column.rs"), ("ColumnClump, CompositeColumn, ReaderColumns", "src/column.rs"), ("cut_main", "src/bin/cdx/cut_main.rs")]),
dict(id="C16", title="uniq collapses each run of lines with equal keys into one line",
 statement="Given at least one key, uniq writes exactly one line for each maximal run of consecutive lines with equal keys, in input order: the first, last, least or greatest line of the run as requested, unchanged, and if a count is asked for, with the exact number of lines of the run in the requested position under the requested name. The header is kept, with the count column added.",
 over=["inputs", "configurations"],
 quant="all file contents, keys, choices of which line to keep and of count column",
 why="The last run of the file, runs of one line and ties need particular inputs; tests run one fixed file.",
 files=["src/bin/cdx/uniq_main.rs", "src/comp.rs", "src/util.rs"],
 mech=[("uniq_main::main, Which, CountSpec", "src/bin/cdx/uniq_main.rs"), ("LineCompList::equal_cols", "src/comp.rs"), ("Reader::prev_line", "src/util.rs")]),
dict(id="C08", title="Column values survive being written and read back in every quoting mode",
 statement="Values written in backslash or quote mode and read back in the same mode are the same values, in the same number of columns, for any bytes including delimiters, newlines, quotes, backslashes and empty values. In plain mode exactly the delimiter and newline bytes of a value are replaced by the replacement character and nothing else changes. A line that is copied rather than taken apart (cgrep, uniq) is written exactly as it was read, in every mode.",
 over=["inputs", "configurations"],
 quant="all column values and rows, all quoting modes and delimiters",
 why="Escaping errors show only for particular bytes in particular positions (a quote at the end, an empty last column, an escaped delimiter); tests contain a handful of rows.",
 files=["src/util.rs"],
 mech=[("write_plain/write_backslash/write_quotes", "src/util.rs"), ("split_plain/split_backslash/split_quotes", "src/util.rs"), ("TextFileMode::read_line", "src/util.rs"), ("TextLine::line/assign, Reader::write_curr", "src/util.rs")]),
dict(id="C09", title="The reader yields exactly the lines and columns of the file",
 statement="Reading a text file yields each of its lines exactly once and in order, split at exactly the delimiters, whatever the contents, the sizes of individual reads, gzip compression, or a missing final newline; earlier lines stay available as far back as asked. A header is recognized exactly when the file begins with ' CDX' (or as the header mode says) and gives the column names; without one the columns are named c1, c2 and so on. Line number, byte offset and file name reported for a line are those of that line.",
 over=["inputs", "configurations", "fault_sequences"],
 quant="all file contents, read sizes, header modes, delimiters and look-back depths",
 why="Errors at buffer boundaries, short reads and end of file depend on layouts and on how the operating system splits reads, which tests on small regular files never vary.",
 files=["src/util.rs"],
 mech=[("Reader::new_open_with/getline/prev_line", "src/util.rs"), ("TextFileMode::read_line/read_header", "src/util.rs"), ("get_reader", "src/util.rs"), ("FileLocList", "src/util.rs")]),
dict(id="C11", title="Files are combined under one header, or refused",
 statement="When several files are read (cat, cut, cgrep, sample), the output has the header once, first, followed by the lines of every file in order, each ending in a newline; empty files are ignored and files with only a header add nothing. A file whose header differs from the first file's, or that has one where the first had none or the reverse, is refused. Each documented header mode (match, require, strip, none, trust, ignore) accepts exactly the sequences it describes. A header is well formed only if every column name is a letter followed by letters, digits or underscores; whatever the first line of a file is, no tool crashes.",
 over=["inputs", "configurations", "histories"],
 quant="all sequences of files with and without headers, all header lines and modes",
 why="Tests have one or two files with the same header; which file lacks the header, is empty, or lacks its final newline is a matter of sequences.",
 files=["src/util.rs", "src/bin/cdx/cat_main.rs", "src/bin/cdx/cut_main.rs", "src/bin/cdx/cgrep_main.rs", "src/bin/cdx/sample_main.rs"],
 mech=[("HeaderChecker::check/check_file/check_head, is_valid_cdx", "src/util.rs"), ("file loops of the tools", "src/bin/cdx/*_main.rs"), ("MemMap::new", "src/binsearch.rs")]),
dict(id="C12", title="Patterns match what their method says; cgrep selects exactly the matching lines",
 statement="Each pattern method accepts exactly the values its name says: exact, prefix, suffix, infix and glob (where * is any text and ? any one character) compare bytes or, with case ignored, letters; not negates, trim removes surrounding blanks first, null also accepts empty values, and/or combine lists of patterns. Determiners (all, some, none, exactly N, at most or at least N or a fraction) decide over the selected columns by their counts, however early the decision is taken. cgrep writes exactly the lines that match (or, inverted, that do not), unchanged and in order; with --location each is preceded by its file name, its number among the data lines of its file and the byte offset at which it starts; no pattern makes it crash.",
 over=["inputs", "configurations"],
 quant="all values, patterns, modifiers, determiners and files",
 why="Matchers are generic code with hand-written fast paths per combination of method, case and encoding; tests try a few values for some combinations.",
 files=["src/matcher.rs", "src/text.rs", "src/bin/cdx/cgrep_main.rs", "src/util.rs"],
 mech=[("MatchMaker, Matcher, MatchMod, LineMatcherList", "src/matcher.rs"), ("bglob, sglob", "src/util.rs"), ("Determiner", "src/matcher.rs"), ("cgrep_main", "src/bin/cdx/cgrep_main.rs")]),
dict(id="C13", title="Numbers are read as they are written, and printed so that they read back",
 statement="Integers and floating point numbers in text, with optional sign, exponent and scale suffix (k, K, M, G and so on), have their conventional value; integers too large for their type become the largest (or smallest) value; the rest of the text begins just after the number. 'whole' conversions accept exactly the texts that are nothing but a number, and junk is replaced as requested. Numbers printed in the plain, float and short formats read back as the same number, short being the shorter of the two; the power formats print a nearby number in few characters.",
 over=["inputs"],
 quant="all texts and all numbers",
 why="Overflow, suffixes and exponents are edge values that a table of examples does not visit.",
 files=["src/num.rs"],
 mech=[("Number for [u8]: to_usize/to_isize/to_f64 families", "src/num.rs"), ("suffix tables", "src/num.rs"), ("NumFormat::print, format_power2/10", "src/num.rs")]),
dict(id="C15", title="Expressions have their conventional value, malformed ones are refused",
 statement="An arithmetic expression over numbers, named constants, columns and functions has its conventional value: precedence comparison < additive < multiplicative < unary minus < power < factorial, left association except for power, functions applied to their arguments, columns (by name, cN or group) read as the value of that column of the current line, also when a later file has its columns in a different order. Anything else (unbalanced parentheses, missing operands, unknown names, wrong number of arguments) is refused, and no expression crashes. calc prints one value per line.",
 over=["inputs", "programs"],
 quant="all expressions and operand values",
 why="An expression parser has unboundedly many inputs; tests evaluate a fixed list.",
 files=["src/expr.rs", "src/shunting_yard.rs", "src/tok2.rs", "src/bin/cdx/calc_main.rs"],
 mech=[("tokenizer", "src/tok2.rs"), ("to_rpn", "src/shunting_yard.rs"), ("Expr::new/lookup/eval/eval_line", "src/expr.rs"), ("calc_main", "src/bin/cdx/calc_main.rs")]),
dict(id="C17", title="cat copies, numbers and removes lines, and paste puts lines side by side",
 statement="cat writes the lines of its files in order and unchanged, apart from what its options ask for: line numbers counting up by one from the start given, in the place and under the name given, with no number for the lines to be skipped; no line that matches a pattern to be removed; and a final newline added as the padding mode says. paste writes the i-th lines of all files side by side under a combined header; when one file ends before the others it fails, stops or fills in, as the chosen mode says, and repeated column names are refused, allowed or renamed as asked.",
 over=["inputs", "configurations"],
 quant="all file contents and option combinations",
 why="Files of different lengths, without newline, or longer than the buffer, combined with options, are many more cases than the tests have.",
 files=["src/bin/cdx/cat_main.rs", "src/bin/cdx/paste_main.rs", "src/util.rs"],
 mech=[("cat_main", "src/bin/cdx/cat_main.rs"), ("paste_main", "src/bin/cdx/paste_main.rs"), ("copy, ColumnHeader::push/rename", "src/util.rs")]),
dict(id="C18", title="A transform changes a value exactly as its name says",
 statement="lower, upper, normspace (words separated by single blanks), bytes (the selected byte ranges, counting from 1), to_base64 and from_base64 give exactly the value their name describes for every input, in byte and in utf8 mode; from_base64 undoes to_base64. A chain of transforms is their composition, using it again gives the same result, and in a column specification it affects only the columns it is given for. Unknown or malformed transforms are refused.",
 over=["inputs", "configurations"],
 quant="all values and chains of transforms",
 why="Buffers are reused between transforms and lines, and tests apply each transform to one or two values.",
 files=["src/trans.rs", "src/column.rs"],
 mech=[("TransList::new/trans", "src/trans.rs"), ("Lower, Upper, NormSpace, Bytes, ToBase64, FromBase64", "src/trans.rs"), ("ReaderColumns with transforms", "src/column.rs")]),
dict(id="C19", title="sample selects the lines it was asked for",
 statement="sample -s N writes min(N, lines) lines of each file (at least two if there are two), in order, beginning with the first line, ending with the last and about evenly spaced. --for step,from,to and --range write exactly the lines whose number in the file is selected. The header is kept, and malformed specifications are refused.",
 over=["inputs", "configurations"],
 quant="all file lengths and contents, sample sizes and specifications",
 why="The sampler thins its buffer each time it fills, so its result depends on the exact number of lines; tests have a few lengths.",
 files=["src/sampler.rs", "src/bin/cdx/sample_main.rs"],
 mech=[("Smooth::add/finalize", "src/sampler.rs"), ("sample_main, ranges", "src/bin/cdx/sample_main.rs")]),
dict(id="C14", title="Aggregators compute what their names say over each group of lines",
 statement="For every non-empty list of values: min and max give the first of the smallest or largest in the comparator's order (reversals included); sum, mean and count, and the sums, minima, maxima and means of character and word counts, are arithmetically right; prefix and suffix are the longest common ones; merge joins the values, sorted, made unique, limited or counted as asked. A reset aggregator behaves like a new one. uniq puts the aggregate of each group in place of, before or after its columns, with the header to match, and wc reports the aggregates of each file and their totals.",
 over=["inputs", "configurations"],
 quant="all value lists, comparators, counters, placements and groupings",
 why="An aggregator's error shows only for some orders and groups of values, such as a first value that is not the extreme or a group after a reset; tests aggregate a handful of values.",
 files=["src/agg.rs", "src/bin/cdx/uniq_main.rs", "src/bin/cdx/wc_main.rs"],
 mech=[("Agg implementations", "src/agg.rs"), ("Merge::new/result", "src/agg.rs"), ("LineAggList::fill", "src/agg.rs"), ("uniq_main", "src/bin/cdx/uniq_main.rs"), ("wc_main", "src/bin/cdx/wc_main.rs")]),
dict(id="C20", title="transpose exchanges rows and columns; tabs lays a file out in its rectangle",
 statement="transpose writes, for every column, the values of that column in line order, preceded by the column's name if there is a header, within the limit on lines; values missing from short lines are empty. The tabs display shows the first lines that fit the height, never longer than the width, in aligned columns, in full if they fit and otherwise cut at the widest columns first; it works for every size of screen and for lines with more or fewer columns than the first. Several files share the screen, each under its name.",
 over=["inputs", "configurations"],
 quant="all rectangular and ragged files, line limits and screen sizes",
 why="Ragged lines, header-only files and narrow screens are combinations nobody tests: there are no tests of either tool.",
 files=["src/transpose.rs", "src/tabs.rs", "src/bin/cdx/transpose_main.rs"],
 mech=[("transpose", "src/transpose.rs"), ("show2, Rect::from_screen", "src/tabs.rs"), ("tabs_main", "src/bin/cdx/tabs_main.rs")]),
dict(id="C21", title="verify, sort --check and range conditions accept exactly what satisfies them",
 statement="A range condition (OP value, or two of them) is met exactly when value OP text holds in the comparator's order, for all six operators in both spellings. verify succeeds exactly when the first and last lines meet their conditions, every neighbouring pair of lines is in order (strictly with --unique), every line matches every pattern, and every line has as many columns as the first or the header, in all files, however many failures are to be reported. The comp matcher compares columns of one line likewise. sort --check succeeds exactly when every file is in the order of the keys, wherever each file has the key's column.",
 over=["inputs", "configurations"],
 quant="all lines, operators, values, patterns and report limits",
 why="A wrongly accepted line goes unnoticed, and which line is overlooked depends on its place in the file and on the operator; two tests cover verify.",
 files=["src/util.rs", "src/bin/cdx/verify_main.rs", "src/bin/cdx/sort_main.rs", "src/matcher.rs", "src/comp.rs"],
 mech=[("CompareOp, RangeSpec, CheckLine, CheckBuff", "src/util.rs"), ("verify_main", "src/bin/cdx/verify_main.rs"), ("CompMatcher", "src/matcher.rs"), ("comp_check", "src/comp.rs")]),
dict(id="C22", title="No specification and no file makes a tool crash",
 statement="Whatever text is given as a key, a pattern, a column set, an aggregation, a transform, a generator, a text format, a number or any other option's value, and whatever the bytes of its input files, a tool ends by itself: it either does its work or reports an error. It never panics, reads out of bounds, overflows or runs forever.",
 over=["inputs", "configurations"],
 quant="all option values and all files",
 why="Every specification is taken apart by hand-written slicing that expects a certain shape; tests give well-formed ones.",
 files=["src/comp.rs", "src/matcher.rs", "src/column.rs", "src/agg.rs", "src/trans.rs", "src/textgen.rs", "src/util.rs", "src/expr.rs", "src/bin/cdx"],
 mech=[("CompMaker::make_line_comp", "src/comp.rs"), ("MatchMaker::make_line", "src/matcher.rs"), ("ColumnSet, NamedCol, CompositeColumn, ColumnClump", "src/column.rs"), ("AggMaker, LineAgger", "src/agg.rs"), ("TransList", "src/trans.rs"), ("GenMaker", "src/textgen.rs"), ("TextFileMode::new, FileLocList, ScopedValues, FakeSlice", "src/util.rs")]),
dict(id="C23", title="filegen writes exactly the lines and columns it was asked for",
 statement="filegen writes the number of lines asked for (ten by default), each with one value for every requested column in order, a multiplied column counting as often as asked, and grid columns if none was requested. grid values are line_column, count values rise by one from their start, expressions have their value for the line and column, null values are empty. With a header the columns are c1, c2 and so on. Counting past the largest integer is an error.",
 over=["inputs", "configurations"],
 quant="all lists of columns, numbers of lines and starting points",
 why="Nothing tests the generator, and its output is what other tests are fed with.",
 files=["src/textgen.rs", "src/bin/cdx/filegen_main.rs"],
 mech=[("GenList::write, GenMaker, CountGen, ExprGen", "src/textgen.rs"), ("filegen_main", "src/bin/cdx/filegen_main.rs")]),
dict(id="C24", title="wc counts the lines, words and bytes of its files or columns",
 statement="wc reports, for every file in order (or with -C for every column by name, over all files), exactly the number of lines, words, bytes or characters or the other aggregates asked for, in the order asked for, headers not counted; a short line counts only in the columns it has. Totals are the sums over what is listed. Labels, header and totals appear exactly when asked for or, by default, when there is more than one thing to tell apart; every row, including header and totals, has the same columns.",
 over=["inputs", "configurations"],
 quant="all files, lists of counts and settings of labels, header and totals",
 why="The options interact (labels, header, totals, columns or files); three tests cover a few combinations.",
 files=["src/bin/cdx/wc_main.rs", "src/agg.rs"],
 mech=[("main, WcOpt", "src/bin/cdx/wc_main.rs"), ("AggList, Counter", "src/agg.rs")]),
dict(id="C25", title="Tools treat another delimiter exactly as they treat the tab",
 statement="For a file whose columns are separated by another delimiter, given by --text-in, cut, cgrep, cat, uniq, wc, transpose, sample, verify and paste succeed exactly when they do for the same file with tabs, and write the same output with that delimiter in place of every tab: in header and data, in copied and in added columns. (sort, join and binsearch read tabs only.)",
 over=["inputs", "configurations"],
 quant="all files, tools, options and delimiters that do not occur in the values",
 why="Every place that splits or joins columns has to take the delimiter from the format; tests use tabs nearly everywhere.",
 files=["src/util.rs", "src/column.rs", "src/bin/cdx"],
 mech=[("TextFileMode, Reader", "src/util.rs"), ("Writer, ColumnHeader::get_head", "src/column.rs"), ("main of each tool", "src/bin/cdx")]),
dict(id="C26", title="tooltest passes a test exactly when the command did what the test says",
 statement="tooltest runs the command of a test file with the arguments, standard input and input files given there ($TMP is where the files are), and the test passes exactly when the command's exit status, standard output, standard error and output files are as the test file says, exactly or by the given matcher (nothing and status 0 where it says nothing), and no other file is left behind. Sections may come in any order, #nonewline removes one final newline, a line that is none of the documented ones makes the test fail. The verdict on a test does not depend on the tests before it, the report counts passes and failures, and tooltest succeeds exactly when all tests passed.",
 over=["inputs", "configurations", "histories"],
 quant="all test files and sequences of test files, and all outputs, files and statuses of the command",
 why="Every other test of the repository is believed because of this tool; a test that passes without need is noticed by nobody, and a test suite that passes never shows it.",
 files=["src/tooltest.rs", "src/bin/cdx/tooltest_main.rs"],
 mech=[("Test::open, Test::run, Config::run, Config::report", "src/tooltest.rs"), ("tooltest_main", "src/bin/cdx/tooltest_main.rs")]),
]
