"""Which harness entries decide which property, and within which bounds."""
def E(name, **k):
    d = {"name": name}
    d.update(k)
    return d
LGE = ["less", "equal", "greater"]
OUT = {
    "C01": "longer values; sign of zero for numeric ('-0').",
    "C02": "longer keys.",
    "C03": "longer values; sign of zero for numeric ('-0').",
    "C04": "more or longer lines, real 500 MB buffers; data lines beginning ' CDX' in spilled runs; failing writes.",
    "C05": "more or longer lines, unsorted input (not detected), a single file is copied as it is.",
    "C06": "more than two files, repeated keys in file 2, unsorted input (the tool does not check).",
}
CHECKS = {
    "C01": {"feature": "p01", "bounds": {
        "quick": 'values: any bytes up to 4 (plain, length), 3 (lower, numeric, ip, equal) bytes in pairs; triples up to 3 bytes (plain), 2 (lower), 3 over "019,.- X" (numeric), 3 over "019. X" (ip); float text up to 3 chars over "01.-eK" in pairs, 2 in triples; random order of strings of one char over "abcd" for one seed; float order on all 2^192 triples of doubles.',
        "thorough": 'As quick, but pairs up to 8 bytes (plain, length), 4 (lower, numeric, float), 5 (ip); triples up to 4 (plain, numeric, ip), 3 (lower, float).'},
        "outside": OUT['C01'], "entries": [
        E("c01_plain2", covers=LGE), E("c01_lower2", covers=LGE), E("c01_len2", covers=LGE), E("c01_eq2", covers=["equal"]),
        E("c01_num2", covers=LGE), E("c01_ip2", covers=LGE), E("c01_float2", covers=LGE, fp_conc=True),
        E("c01_plain3"), E("c01_lower3"), E("c01_num3"), E("c01_ip3"), E("c01_float3", fp_conc=True), E("c01_random2", covers=LGE), E("c01_random3"),
        E("c01_fcmp"), E("c01_rev"), E("c01_rev_float", fp_conc=True)]},
    "C02": {"feature": "p02", "bounds": {
        "quick": 'two lines; whole-line keys up to 3 arbitrary bytes and up to 2 arbitrary bytes after a 3- or 8-byte common prefix; keys of up to 255 chars, of which the last 3 vary; column keys up to 3 bytes; numeric/float/expression keys over their alphabets up to 3 chars; lists of two keys.',
        "thorough": 'As quick, but one to two bytes longer throughout.'},
        "outside": OUT['C02'], "entries": [
        E("c02_whole", covers=LGE), E("c02_long", covers=LGE), E("c02_len", covers=LGE), E("c02_col", covers=LGE), E("c02_num", covers=LGE),
        E("c02_float", covers=LGE, fp_conc=True), E("c02_expr", covers=LGE, fp_conc=True), E("c02_multi", covers=LGE)]},
    "C03": {"feature": "p03", "bounds": {
        "quick": 'column values up to 3 arbitrary bytes (plain, lower), 9 (length, also after 250 or 65530 fixed bytes), up to 4 chars over digits, separators, sign and blanks (numeric), up to 4 over digits and dots (ip), up to 3 chars (float), 4 expressions over one-digit columns, strict/trail/low floats of up to 2 digits with one junk character before and after; lines of up to 3 columns, key lists of 2.',
        "thorough": 'As quick, but one byte longer throughout.'},
        "outside": OUT['C03'], "entries": [
        E("c03_plain", covers=LGE), E("c03_lower", covers=LGE), E("c03_len", covers=LGE), E("c03_num", covers=LGE),
        E("c03_num_blank", covers=LGE), E("c03_float", covers=LGE, fp_conc=True), E("c03_ip", covers=LGE), E("c03_ip_blank", covers=LGE), E("c03_cols", covers=LGE), E("c03_two", covers=LGE), E("c03_missing", covers=LGE), E("c03_expr", covers=LGE, fp_conc=True), E("c03_junk", covers=LGE, fp_conc=True)]},
    "C04": {"feature": "p04", "bounds": {
        "quick": 'up to 3 lines of up to 2 bytes (arbitrary bytes) in one or two files, 4 lines of up to 2 bytes over "ab" with text buffers of 3 to 6 bytes (spilled runs), rows of two columns, headers, read() results of 1 to 3 bytes, keys plain/rev/lower/len/num/ip.',
        "thorough": 'As quick, but 4 lines of up to one byte in memory, and a third line of up to 3 arbitrary bytes.'},
        "outside": OUT['C04'], "entries": [
        *[E("c04_"+x) for x in "whole bytes long head files chunks longline first".split()], E("c04_spill", heavy=True), E("c04_spill2", heavy=True)]},
    "C05": {"feature": "p05", "bounds": {
        "quick": 'one to four sorted files of up to 2 lines each (up to 3 for a single file), words of up to 1 to 2 bytes; plain, reversed, numeric and named keys; heap and tree merge.',
        "thorough": 'As quick, but one more line per file.'},
        "outside": OUT['C05'], "entries": [
        *[E("c05_"+x) for x in "one two three four num head".split()]]},
    "C06": {"feature": "p06", "bounds": {
        "quick": 'file 1 of up to 3 rows, file 2 of up to 2 rows, keys of up to 1 byte (arbitrary bytes in one entry, up to two key columns), with and without header, default and chosen output columns, every choice of unmatched outputs; the command line over 2 by 2 rows with 5 output specifications.',
        "thorough": 'As quick, but file 2 of up to 3 rows.'},
        "outside": OUT['C06'], "entries": [
        *[E("c06_"+x, covers=["end","match","left","right"]) for x in "plain bytes head num two".split()], E("c06_tool"), E("c06_files")]},
}
CHECKS["C07"] = {"feature": "p07", "bounds": {
    "quick": 'sorted files of up to 3 lines of one arbitrary byte, up to 4 lines of up to 2 letters, up to 3 lines with numeric or length keys over "019-"; patterns up to 2 bytes; with and without final newline; command line: up to 4 lines, with and without header, keys by name, number and reversed, context lines, two keys, several files.',
    "thorough": 'As quick, but up to 5 lines of 2 letters and 2-character numeric keys.'},
    "outside": "more or longer lines; unsorted input.", "entries": [
    *[E("c07_"+x, covers=["none", "some"]) for x in "plain long num cli head context".split()], E("c07_two"), E("c07_files")]}
CHECKS["C10"] = {"feature": "p10", "bounds": {
    "quick": 'all specifications of up to 3 characters over "123+-~,ab:" (no two adjacent digits) and all lists of two items from a set of 28 followed by one character, against the columns a, b, ab; single columns of up to 3 characters; cut on rows of up to 3 columns of up to one arbitrary byte with 9 headed and 4 headerless specifications, composite and grouped columns over values of up to 2 arbitrary bytes; 8 selections from library lines of up to 4 columns.',
    "thorough": 'As quick, but specifications of up to 4 characters and one more row.'},
    "outside": "longer specifications, other sets of column names; transforms and matchers inside specifications (C12, C18).", "entries": [
    *[E("c10_"+x, covers=["good", "bad"], heavy=x != "single") for x in "spec deep single".split()], *[E("c10_"+x) for x in "headed plain dups composite".split()], E("c10_select", covers=["end", "short"])]}
CHECKS["C16"] = {"feature": "p16", "bounds": {
    "quick": 'up to 3 lines of up to 2 arbitrary bytes; up to 3 rows of two columns with keys of up to one letter; keys whole line, first or second column, lower, length; every choice of kept line and of count column; with and without header and final newline.',
    "thorough": 'As quick, but one more line.'},
    "outside": "longer input; counts above 9; invocations without any key.", "entries": [*[E("c16_"+x) for x in "plain count which head".split()]]}
CHECKS["C08"] = {"feature": "p08", "bounds": {
    "quick": 'one value of up to 3 arbitrary bytes in eight modes; one or two values of up to 2 to 3 characters over tab, newline, quote, backslash, n, t, comma, a; two rows of up to two values of one character; partly quoted values as other programs write them; cut, cgrep and uniq converting and copying rows of two one-character values between modes; uniq, sample and cat copying rows in a quoting mode.',
    "thorough": 'As quick, but one byte longer.'},
    "outside": "longer values; line delimiters other than newline; a first value beginning with a blank (could look like a header) or 0x1f.", "entries": [*[E("c08_"+x) for x in "one two rows quote tool copy".split()]]}
CHECKS["C09"] = {"feature": "p09", "bounds": {
    "quick": 'files of up to 5 arbitrary bytes; up to 4 characters over a, tab, newline with the first up to 3 reads returning 1 to 3 bytes; 8 first lines with and without header in 5 header modes under the same read sizes; delimiters comma, blank, bar; up to 4 lines with look-back 0 to 3; lines crossing the 8192-byte buffer; gzip files of one or two members under the same read sizes.',
    "thorough": 'As quick, but one byte or line longer.'},
    "outside": "longer files; line delimiters other than newline; line numbers of readers opened with open() rather than new_open(); byte offsets after a skipped header.", "entries": [*[E("c09_"+x) for x in "raw chunk head delim reuse big gzip".split()]]}
CHECKS["C11"] = {"feature": "p11", "bounds": {
    "quick": 'every sequence of three first lines from five kinds (two headers, headers of one column, data, empty) in all six modes; header names of up to 3 ASCII bytes with three delimiters; two and three files of four kinds (empty, header A, no header, header B) with up to 2 lines of one character each, with and without final newline, through cat, cgrep, cut and sample; first lines " CDX" plus up to 2 arbitrary bytes through 16 tool invocations.',
    "thorough": 'As quick, but one more file in the sequence, one byte longer.'},
    "outside": "more files; header lines without newline in HeaderChecker::check.", "entries": [
    *[E("c11_"+x, covers=["good", "bad"], heavy=x=="three") for x in "mode names cat three".split()], E("c11_any", heavy=True)]}
YN = ["yes", "no"]
CHECKS["C12"] = {"feature": "p12", "bounds": {
    "quick": 'patterns of up to 2 and values of up to 3 arbitrary bytes (exact, prefix, suffix, infix, with case); all combinations of not, trim and null on values of up to 3 chars; glob with patterns and values of up to 4 chars (3 arbitrary bytes); 9 letters with unusual case in strings of up to 2; lists of two patterns; fixed methods on values of up to 4 chars; determiners for every pair of counts below 256 (every earlier pair of counts too), fractions in tenths of up to 8 columns; cgrep on up to 2 rows of two columns with 12 patterns, pairs of patterns, and/or/invert; locations of up to 2 lines in each of two files, plain and backslash mode.',
    "thorough": 'As quick, but values one byte longer and one more row.'},
    "outside": "longer values; regular expressions (another crate's engine), file-based and in-bloom matchers; fractions other than tenths.", "entries": [
    *[E("c12_"+x, covers=YN) for x in "text mods utf8 glob glob_str glob_any fixed multi det".split()], E("c12_frac", covers=YN, fp_conc=True), E("c12_cgrep", covers=["ran"]), E("c12_location")]}
CHECKS["C13"] = {"feature": "p13", "bounds": {
    "quick": 'integers of up to 4 chars over "0129+-kKTx"; one digit plus any byte; 2^64 and 2^63 neighbours with suffixes; decimal text of up to 2 digits, one fraction digit, 6 exponents, 5 suffixes, every digit and suffix letter; junk around up to 2 digits; printed values of 3 digits times powers of ten up to 10^11 and a few beyond the largest suffix, and 8 mantissas times 10^-7 to 10^6.',
    "thorough": 'As quick, but integers of up to 5 chars, two digits at the extremes, 20 powers of ten.'},
    "outside": 'longer numbers, other mantissas; the last bit of decimal-to-binary rounding (compared to 1e-14).', "entries": [
    E("c13_usize"), E("c13_isize"), E("c13_letter"), E("c13_big"), E("c13_float", fp_conc=True), E("c13_print", fp_conc=True), E("c13_short", fp_conc=True), E("c13_letterf", covers=["suffix", "none"], fp_conc=True), E("c13_str", fp_conc=True), E("c13_junkf", fp_conc=True)]}
GB = ["good", "bad"]
CHECKS["C15"] = {"feature": "p15", "bounds": {
    "quick": 'every string of up to 4 chars over "2+-*^(),!<=a"; every sequence of 5 tokens from ten; every pair of ten operators in four shapes on any three 64-bit doubles; every pair of 12 operators on small integers with one decorated operand; max, min, avg, if, abs on any doubles except NaN; all other functions and constants at one or two points each; all factorials that fit; column references in two successive files with any single-digit values; strings of up to 3 chars over "c01[]a-+" as references; calc on three lines, after an empty or header-only file too.',
    "thorough": 'As quick, but strings of 5 chars and sequences of 6 tokens.'},
    "outside": 'longer expressions; the mathematical functions away from those points; rounding of powf beyond agreement with the library.', "entries": [
    E("c15_any", covers=GB, fp_conc=True, heavy=True), E("c15_token", covers=GB, fp_conc=True, heavy=True), E("c15_shape", covers=["good"]), E("c15_ops", covers=["good"], fp_conc=True), E("c15_func", covers=GB),
    E("c15_table", fp_conc=True), E("c15_fact", fp_conc=True), E("c15_cols", fp_conc=True), E("c15_names", covers=GB, fp_conc=True), E("c15_calc", fp_conc=True)]}
CHECKS["C17"] = {"feature": "p17", "bounds": {
    "quick": 'cat: two files of up to 3 and 2 lines of up to one char, 7 numbering options, skipped and removed lines, headers, missing newlines; two files of up to 2 arbitrary bytes in 4 padding modes; files of 8190 to 16390 bytes with 4 arbitrary bytes at 4 places; paste: 2 or 3 files of up to 2 lines (arbitrary bytes) of one or two columns, 4 end modes, 4 fill choices; 7 ways to handle duplicate names; column values in the library (up to 2 values over up to 2 columns).',
    "thorough": 'As quick, but one more line or byte.'},
    "outside": 'more or longer files; number formats of cat.', "entries": [
    E("c17_number", heavy=True), E("c17_pad"), E("c17_big"), E("c17_paste", covers=GB), E("c17_names", covers=GB), E("c17_default", covers=GB)]}
CHECKS["C18"] = {"feature": "p18", "bounds": {
    "quick": 'lower, upper, normspace on up to 4 arbitrary bytes; the utf8 variants on up to 3 ASCII characters and on a few non-ASCII letters and blanks; base64 both ways on up to 2 arbitrary bytes and up to 4 of four values; byte ranges of up to 3 characters over "01234-," on up to 4 arbitrary bytes; chains of up to 3 of four transforms on up to 3 arbitrary bytes; transforms in 5 column specifications of cut; unknown names of up to 3 chars; every transform used twice.',
    "thorough": 'As quick, but up to two bytes longer.'},
    "outside": 'longer values; other non-ASCII letters in utf8 mode; from_base64 of text that is not base64.', "entries": [
    *[E("c18_"+x) for x in "case alias norm utf8 chain cut unknown letters".split()], E("c18_base64", heavy=True), E("c18_bytes", covers=GB)]}
CHECKS["C19"] = {"feature": "p19", "bounds": {
    "quick": 'samples of 0 to 6 of 0 to 23 lines (the sampler), 0 to 4 of 0 to 6 lines (the tool); for-specifications of up to 5 chars over "0123,x" and ranges of up to 4 over "0136,-" on a file of 5 lines with an arbitrary byte each; two files; with and without header and final newline.',
    "thorough": 'As quick, but 0 to 9 of 0 to 59 lines, specifications one char longer.'},
    "outside": 'longer files and specifications; spacing is only checked to a factor of three.', "entries": [
    *[E("c19_"+x) for x in "smooth sample files".split()], E("c19_for", covers=GB, heavy=True), E("c19_range", covers=GB, heavy=True)]}
CHECKS["C14"] = {"feature": "p14", "bounds": {
    "quick": 'Up to 3 values (of any 2 bytes for min, max and counts, 3 for affixes; over "19-." for numeric order, one signed digit for sums, 2 of "ab;," for merge with 11 specifications), fresh or after a reset; uniq over up to 3 lines in 4 placements; wc over up to 2 files of up to 2 lines.',
    "thorough": 'As quick, with up to 4 values and lines.'},
    "outside": "longer value lists; the rounding of sums and means of fractions; utf8 counters outside ASCII; merge of values that leave an empty last part; uniq's expr aggregator.", "entries": [
    *[E("c14_"+x) for x in "minmax affix merge place uniq wc".split()], *[E("c14_"+x, fp_conc=True) for x in "minmax_num sum count".split()]]}
CHECKS["C20"] = {"feature": "p20", "bounds": {
    "quick": 'Files of up to 2 by 2 values of any byte, up to 3 ragged lines with a header and line limits, displays of up to 2 ragged lines of up to 3 columns of 2 chars in rectangles of 5 widths and 3 heights, and cutting of 2 lines of 2 columns of up to 5 chars to every width of 2 to 9; one to three files of up to 2 lines on screens of 0 to 8 rows and 3 widths, and without a terminal; show() against show2() on two lines in 36 rectangles.',
    "thorough": 'As quick, with up to 3 rows and heights up to 4.'},
    "outside": "wide and multi-byte characters; quoting modes other than plain.", "entries": [
    *[E("c20_"+x) for x in "transpose transpose_head tabs tabs_cut screen show".split()]]}
CHECKS["C21"] = {"feature": "p21", "bounds": {
    "quick": 'Values of up to 2 arbitrary bytes (2 digits numerically) against conditions with fixed texts, all operators in both spellings, single and double, 4 comparators; files of up to 2 lines for --first and --last, 4 for --sort and --unique, 3 (or 2 files of 1) for patterns with up to 2 patterns; sort --check with 8 keys on a file of up to 3 lines or two of up to 2, with the columns in either order.',
    "thorough": 'As quick, with up to 3 lines for --first and --last.'},
    "outside": 'other texts in conditions; longer files; the wording of reports.', "entries": [
    *[E("c21_"+x) for x in "range first order pattern columns".split()], E("c21_range_num", fp_conc=True), E("c21_check", fp_conc=True)]}
CHECKS["C22"] = {"feature": "p22", "bounds": {
    "quick": 'each specification is one of 4 to 11 words (one with a two-byte character, or none) between up to one character each side over an alphabet of 5 to 15; pattern texts of up to 2 chars for 22 methods; 60 tool and option combinations; two small files; any file of up to 3 bytes through 32 tool invocations.',
    "thorough": 'As quick, but up to two characters each side, patterns of 3 chars, files of 4 bytes.'},
    "outside": 'longer specifications; specifications of several options at once; drawing from the normal distribution.', "entries": [*[E("c22_"+x, fp_conc=True) for x in "key search match pattern cols agg merge misc text gen trans file".split()]]}
CHECKS["C23"] = {"feature": "p23", "bounds": {
    "quick": 'up to 2 column options (8 kinds, alone or multiplied by 0 or 2), 0 to 2 or the default 10 lines, with and without header; counting from any number of up to 2 digits with either sign.',
    "thorough": 'As quick, but up to 3 column options and 3 digits.'},
    "outside": 'the random generators (normal, decimal); other expressions; many columns or lines.', "entries": [E("c23_file", fp_conc=True), E("c23_start")]}

CHECKS["C24"] = {"feature": "p24", "bounds": {
    "quick": 'one or two files of up to 2 and 1 lines of up to one char over "a" and blank, with and without header; five lists of counts; any one of the options for labels, header and totals (5, 3 and 4 settings); by columns: one or two columns, overlapping in name, lines that may be short.',
    "thorough": 'As quick, but any combination of the three options, and 2 chars.'},
    "outside": 'files without any data line; other aggregators (C14); multi-byte characters.', "entries": [E("c24_files", fp_conc=True), E("c24_cols", fp_conc=True, heavy=True)]}
T = lambda n: [f"t{i}" for i in range(n)]
CHECKS["C25"] = {"feature": "p25", "bounds": {
    "quick": 'files of 2 lines of up to 2 columns of up to one char, with and without header, one file through 36 tool invocations and two files through 9; delimiters comma, semicolon and bar, with three ways of spelling the format.',
    "thorough": 'As quick.'},
    "outside": 'quoting formats (C08); sort, join and binsearch, which take no format and read tabs; delimiters that occur in the values or in numbers.', "entries": [E("c25_one", fp_conc=True, heavy=True, covers=T(28)), E("c25_names", fp_conc=True, covers=T(8)), E("c25_two", fp_conc=True, covers=T(9))]}
PF = ["pass", "fail"]
CHECKS["C26"] = {"feature": "p26", "bounds": {
    "quick": 'a command writing any up to 2 bytes to standard output and one to standard error over a, b and newline, with status 0 to 2, against expected texts of up to one line with and without final newline, in 3 orders of sections; input and input files of up to 2 and one lines; up to two made files, one with up to 2 bytes, against 15 expectations; two tests of 11 kinds after each other; test files of up to 4 lines from nine after the command.',
    "thorough": 'As quick, but one byte or line longer, and three tests after each other.'},
    "outside": 'what the command is: symx has one model program in place of all; texts that are not UTF-8; --tmp; other matchers; several pieces of input; directories.', "entries": [
    E("c26_out", covers=PF), E("c26_in"), E("c26_files", covers=PF), E("c26_many"), E("c26_parse", covers=GB)]}
